#define _GNU_SOURCE
#define PROG_IMAGE
#define PROG prog_image
#include "c31_prog.inc"
