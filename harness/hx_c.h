#pragma once
#include "mpack/mpack.h"
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef enum { HX_C_U8, HX_C_U16, HX_C_U32, HX_C_U64, HX_C_I8, HX_C_I16, HX_C_I32, HX_C_I64, HX_C_BOOL, HX_C_STR, HX_C_MSTR, HX_C_FLT, HX_C_DBL } hx_c_kind;
int hx_c_generic(void); /* whether the C11 macros exist in this configuration */
void hx_c_write(mpack_writer_t* w, const char* key, hx_c_kind k, uint64_t u, const char* s); /* key may be null */
#ifdef __cplusplus
}
#endif
