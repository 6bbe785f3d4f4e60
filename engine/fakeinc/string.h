#ifndef VP_STRING
#define VP_STRING
#include <stddef.h>
void* memcpy(void* d, const void* s, size_t n); void* memmove(void* d, const void* s, size_t n); void* memset(void* d, int c, size_t n);
size_t strlen(const char* s);
#endif
