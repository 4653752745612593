// Builds without an allocator have none of the allocating calls. These stand-ins are written with the calls that
// are there, to the documented behaviour of the real ones, so that the same programs run in such builds too.
#pragma once
#ifndef MPACK_MALLOC
#include "mpack/mpack.h"
#include <stdlib.h>
#include <string.h>
#define MPACK_FREE hx_free
namespace hx {
static inline char* em_data(mpack_reader_t* r, size_t n, bool nul) {
    if (mpack_reader_error(r) != mpack_ok || (n == 0 && !nul)) return NULL;
    char* p = (char*)hx_malloc(n + (nul ? 1 : 0)); if (!p) { mpack_reader_flag_error(r, mpack_error_memory); return NULL; } mpack_read_bytes(r, p, n);
    if (mpack_reader_error(r) != mpack_ok) { hx_free(p); return NULL; }
    if (nul) p[n] = 0;
    return p;
}
static inline size_t em_cap(size_t n) { return n > 0xffffffffu ? 0xffffffffu : n; }
static inline char* em_cstr(mpack_reader_t* r, size_t maxsize, bool utf8) {
    size_t n = mpack_expect_str_max(r, (uint32_t)(em_cap(maxsize) - 1)); char* p = em_data(r, n, true); if (mpack_reader_error(r) == mpack_ok) mpack_done_str(r);
    if (p && !(utf8 ? ref_utf8((const uint8_t*)p, n, false) : !memchr(p, 0, n))) { hx_free(p); mpack_reader_flag_error(r, mpack_error_type); p = NULL; }
    return p;
}
static inline char* em_node(mpack_node_t n, size_t max, int how) { // 0 bytes, 1 text, 2 UTF-8 text
    if (mpack_node_error(n) != mpack_ok) return NULL;
    mpack_type_t y = mpack_node_type(n);
    if (y != mpack_type_str && (how || (y != mpack_type_bin
#if MPACK_EXTENSIONS
        && y != mpack_type_ext
#endif
        ))) { mpack_node_flag_error(n, mpack_error_type); return NULL; }
    size_t len = mpack_node_data_len(n); const char* d = mpack_node_data(n);
    if (len > max - (how ? 1 : 0)) { mpack_node_flag_error(n, mpack_error_too_big); return NULL; }
    if (how && !(how == 2 ? ref_utf8((const uint8_t*)d, len, false) : !memchr(d, 0, len))) { mpack_node_flag_error(n, mpack_error_type); return NULL; }
    char* p = (char*)hx_malloc(len + 1); if (!p) { mpack_node_flag_error(n, mpack_error_memory); return NULL; } memcpy(p, d, len); p[len] = 0; return p;
}
}
static inline char* mpack_read_bytes_alloc(mpack_reader_t* r, size_t n) { return hx::em_data(r, n, false); }
static inline char* mpack_expect_cstr_alloc(mpack_reader_t* r, size_t n) { return hx::em_cstr(r, n, false); }
static inline char* mpack_expect_utf8_cstr_alloc(mpack_reader_t* r, size_t n) { return hx::em_cstr(r, n, true); }
#define mpack_expect_bin_alloc hx_expect_bin_alloc // (declared, not defined, in such builds)
static inline char* mpack_expect_bin_alloc(mpack_reader_t* r, size_t max, size_t* size) {
    *size = 0; size_t n = mpack_expect_bin_max(r, (uint32_t)hx::em_cap(max)); if (mpack_reader_error(r) != mpack_ok) return NULL;
    char* p = hx::em_data(r, n, false); if (mpack_reader_error(r) == mpack_ok) mpack_done_bin(r); if (p) *size = n; return p;
}
#if MPACK_EXTENSIONS
static inline char* mpack_expect_ext_alloc(mpack_reader_t* r, int8_t* type, size_t max, size_t* size) {
    *size = 0; size_t n = mpack_expect_ext_max(r, type, (uint32_t)hx::em_cap(max)); if (mpack_reader_error(r) != mpack_ok) return NULL;
    char* p = hx::em_data(r, n, false); if (mpack_reader_error(r) == mpack_ok) mpack_done_ext(r); if (p) *size = n; else if (mpack_reader_error(r) != mpack_ok) *type = 0; return p;
}
#endif
static inline void* mpack_expect_array_alloc_impl(mpack_reader_t* r, size_t size, uint32_t max, uint32_t* out, bool nil) {
    *out = 0; uint32_t n = 0; bool has = true;
    if (nil) has = mpack_expect_array_max_or_nil(r, max, &n); else n = mpack_expect_array_max(r, max);
    if (mpack_reader_error(r) != mpack_ok) return NULL;
    if (n == 0) { if (nil && has) mpack_done_array(r); return NULL; }
    void* p = (uint64_t)n * size <= SIZE_MAX ? hx_malloc(n * size) : NULL; if (!p) { mpack_reader_flag_error(r, mpack_error_memory); return NULL; }
    *out = n; return p;
}
#define mpack_expect_array_alloc(r, T, max, out) ((T*)mpack_expect_array_alloc_impl(r, sizeof(T), max, out, false))
#define mpack_expect_array_or_nil_alloc(r, T, max, out) ((T*)mpack_expect_array_alloc_impl(r, sizeof(T), max, out, true))
static inline char* mpack_node_data_alloc(mpack_node_t n, size_t max) { return hx::em_node(n, max, 0); }
static inline char* mpack_node_cstr_alloc(mpack_node_t n, size_t max) { return hx::em_node(n, max, 1); }
static inline char* mpack_node_utf8_cstr_alloc(mpack_node_t n, size_t max) { return hx::em_node(n, max, 2); }
#endif
