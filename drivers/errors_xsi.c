/* C37: coda/error.h where strerror_r is the one that returns a number */
#undef _GNU_SOURCE
#define _POSIX_C_SOURCE 200112L
#include <string.h>
#include <stdio.h>
#include "coda/error.h"
const char *xsi_text(int err, char *b, size_t n) { return coda_strerror_r(err, b, n); }
const char *xsi_now(int err, char *to) { strcpy(to, coda_strerror(err)); return to; }
