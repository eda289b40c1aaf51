#!/usr/bin/env python3
"""setup_cmd: builds the instrumenting pass and the symbolic runtime (every check
rebuilds them too when its cache is empty)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
b = check.Builder()
print(b.plugin(), b.runtime(), b.server())
