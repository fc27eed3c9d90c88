// Force-included (-include) in front of every translation unit of a monitored
// build: the library sources and the harnesses.  It routes exit() calls of the
// library ("error(...)" prints a diagnostic and exits) through the monitor, so
// that a rejection can be observed and execution can go on with the next case.
#ifndef VF_HOOK_H
#define VF_HOOK_H
#include <stdint.h>
#include <stdlib.h>
#include <cstdlib>
#include <cstdio>
#ifdef _OPENMP
#endif
[[noreturn]] void vf_exit(int status);
namespace std { using ::vf_exit; }
#define exit(x) vf_exit(x)
#endif
