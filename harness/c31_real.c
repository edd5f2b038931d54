#define _GNU_SOURCE
#define PROG prog_real
#include "c31_prog.inc"
