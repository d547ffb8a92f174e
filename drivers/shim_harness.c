/* One verification harness, callable: its main is renamed. */
#define main vharness_main
#include HARNESS
#undef main
int (*const HNAME)(void) = (int (*)(void)) vharness_main;
