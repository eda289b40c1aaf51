extern "C" int __symrt_main(int, char**, void (*)(void));
extern "C" void harness(void);
int main(int argc, char** argv) { return __symrt_main(argc, argv, harness); }
extern "C" __attribute__((weak)) void __sched_point() {}
