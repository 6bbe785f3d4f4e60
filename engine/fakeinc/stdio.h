#ifndef VP_STDIO
#define VP_STDIO
#include <stddef.h>
int snprintf(char* s, size_t n, const char* f, ...);
int printf(const char* f, ...);
#endif
