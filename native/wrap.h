/* Force-included into every library source for the native replay/search build: the allocation functions
 * are replaced by recording ones that can be told to fail. Nothing else of the sources changes. */
#ifndef VP_WRAP_H
#define VP_WRAP_H
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
void* vp_malloc(size_t);
void* vp_calloc(size_t, size_t);
void* vp_realloc(void*, size_t);
void vp_free(void*);
#ifdef __cplusplus
}
#endif
#ifndef VP_DRIVER
#define malloc vp_malloc
#define calloc vp_calloc
#define realloc vp_realloc
#define free vp_free
#endif
#endif
