// Eigen's sparse triangular solver and SparseQR with the shortcuts that skip
// subtracting zero (`if (tau == 0) continue;`, `if (tmp != 0)`) removed, so
// that solving for a symbolic right hand side does not fork on them.  The
// copies are generated by check.py from the installed Eigen; the include
// guards keep the originals out.
#pragma once
#define EIGEN_SPARSETRIANGULARSOLVER_H
#include <Eigen/SparseCore>
#undef EIGEN_SPARSETRIANGULARSOLVER_H
#include "sparsetri_noskip.h"
#include <Eigen/OrderingMethods>
#include <Eigen/src/SparseCore/SparseColEtree.h>
#include "sparseqr_noskip.h"
