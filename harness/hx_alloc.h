/* Allocation hooks given to mpack through its documented MPACK_MALLOC /
 * MPACK_REALLOC / MPACK_FREE configuration macros (force-included). */
#ifndef HX_ALLOC_H
#define HX_ALLOC_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void* hx_malloc(size_t n);
void* hx_realloc(void* p, size_t n);
void hx_free(void* p);
/* work meter, used where a configuration asks for it (MPACK_MEMCPY and friends) */
void* hx_memcpy(void* d, const void* s, size_t n);
void* hx_memmove(void* d, const void* s, size_t n);
void* hx_memset(void* d, int c, size_t n);
int hx_memcmp(const void* a, const void* b, size_t n);
size_t hx_strlen(const char* s);
#ifdef __cplusplus
}
#endif
#endif
