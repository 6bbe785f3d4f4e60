#ifndef VP_STDLIB
#define VP_STDLIB
#include <stddef.h>
void* malloc(size_t n); void* calloc(size_t n, size_t s); void* realloc(void* p, size_t n); void free(void* p);
void qsort(void* base, size_t n, size_t s, int (*cmp)(const void*, const void*));
void abort(void);
#endif
