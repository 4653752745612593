// Exact numeric oracle shared by the expect and node monitors.
#pragma once
#include "hx_src.hpp"
#include <math.h>
namespace hx {
inline bool is_int(const Ev& e) { return e.k == K_UINT || e.k == K_INT; }
// three-way comparison of the element's exact integer value with a bound
inline int icmp(const Ev& e, uint64_t b) { return e.k == K_INT ? -1 : e.u < b ? -1 : e.u > b; }
inline int icmp_s(const Ev& e, int64_t b) { if (b >= 0) return icmp(e, (uint64_t)b); if (e.k == K_UINT) return 1; return e.i() < b ? -1 : e.i() > b; }
inline bool fits_u(const Ev& e, uint64_t lo, uint64_t hi) { return is_int(e) && icmp(e, lo) >= 0 && icmp(e, hi) <= 0; }
inline bool fits_s(const Ev& e, int64_t lo, int64_t hi) { return is_int(e) && icmp_s(e, lo) >= 0 && icmp_s(e, hi) <= 0; }
inline uint32_t bits_f(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline uint64_t bits_d(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }
inline float flt_of(uint64_t b) { uint32_t u = (uint32_t)b; float f; memcpy(&f, &u, 4); return f; }
inline double dbl_of(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
// what a double becomes as a float when the platform has no double (documented: truncated, subnormals to zero)
inline uint32_t shorten_bits(uint64_t d) {
    uint32_t s = (uint32_t)(d >> 63) << 31; int ex = (int)((d >> 52) & 0x7ff); uint64_t m = d & ((1ull << 52) - 1);
    if (ex == 0x7ff) return s | 0x7f800000u | (m ? (uint32_t)(m >> 29) | 1u : 0);
    int v = ex - 1023;
    if (v > 127) return s | 0x7f800000u;
    if (v < -126) return s;
    return s | (uint32_t)(v + 127) << 23 | (uint32_t)(m >> 29);
}
inline bool same_flt(float a, float b) { if (a != a || b != b) return (a != a) && (b != b); return bits_f(a) == bits_f(b); }
inline bool same_dbl(double a, double b) { if (a != a || b != b) return (a != a) && (b != b); return bits_d(a) == bits_d(b); }
// the value a (lenient) float / double call must return
inline bool want_float(const Ev& e, float* f) {
    switch (e.k) {
        case K_UINT: *f = (float)e.u; return true;
        case K_INT: *f = (float)e.i(); return true;
        case K_FLT: *f = flt_of(e.u); return true;
#if MPACK_DOUBLE
        case K_DBL: *f = (float)dbl_of(e.u); return true;
#else
        case K_DBL: *f = flt_of(shorten_bits(e.u)); return true;
#endif
        default: return false;
    }
}
inline bool want_double(const Ev& e, double* f) {
    switch (e.k) {
        case K_UINT: *f = (double)e.u; return true;
        case K_INT: *f = (double)e.i(); return true;
        case K_FLT: *f = (double)flt_of(e.u); return true;
        case K_DBL: *f = dbl_of(e.u); return true;
        default: return false;
    }
}
} // namespace hx
