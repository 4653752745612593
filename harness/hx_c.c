/* The C side of the API: C11 type-generic macros and header functions as a C translation unit sees them. */
#include "mpack/mpack.h"
#include "hx_c.h"
#if MPACK_WRITER && MPACK_HAS_GENERIC
int hx_c_generic(void) { return 1; }
void hx_c_write(mpack_writer_t* w, const char* key, hx_c_kind k, uint64_t u, const char* s) {
    char* ms = (char*)(uintptr_t)s; bool b = u != 0; uint32_t fb = (uint32_t)u;
#if MPACK_FLOAT
    float f;
#endif
#if MPACK_DOUBLE
    double d;
#endif
    (void)fb;
    #define PUT(x) do { if (key) mpack_write_kv(w, key, x); else mpack_write(w, x); } while (0)
    switch (k) {
        case HX_C_U8: PUT((uint8_t)u); break; case HX_C_U16: PUT((uint16_t)u); break; case HX_C_U32: PUT((uint32_t)u); break; case HX_C_U64: PUT((uint64_t)u); break;
        case HX_C_I8: PUT((int8_t)u); break; case HX_C_I16: PUT((int16_t)u); break; case HX_C_I32: PUT((int32_t)u); break; case HX_C_I64: PUT((int64_t)u); break;
        case HX_C_BOOL: PUT(b); break;
        case HX_C_STR: PUT(s); break;
        case HX_C_MSTR: PUT(ms); break;
#if MPACK_FLOAT
        case HX_C_FLT: memcpy(&f, &fb, 4); PUT(f); break;
#endif
#if MPACK_DOUBLE
        case HX_C_DBL: memcpy(&d, &u, 8); PUT(d); break;
#endif
        default: break;
    }
}
#else
int hx_c_generic(void) { return 0; }
void hx_c_write(mpack_writer_t* w, const char* key, hx_c_kind k, uint64_t u, const char* s) { (void)w; (void)key; (void)k; (void)u; (void)s; }
#endif
