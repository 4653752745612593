// C13: expected numbers are returned exactly or rejected.
#include "hx_num.hpp"
using namespace hx;
const char* prop_rule() { return "case = one wire element (number of any kind/width around every boundary, or a non-number, or a truncated/invalid one) followed by a sentinel, given to every expect-number call with bounds drawn around the value; non-trivial = every (element, call, bounds) triple; distinct by (element bytes, call, bounds)"; }

// i386 returns floats in 80-bit registers and the compiler may compare an integer's conversion before it is
// rounded; there, bounds on inexactly convertible integers are the compiler's business, not the library's.
#ifdef __i386__
static bool inexact(const Ev* e, bool dbl) { if (!e || !is_int(*e)) return false; uint64_t m = e->k == K_INT ? 0 - e->u : e->u; if (!m) return false; int top = 64 - __builtin_clzll(m), low = __builtin_ctzll(m); return top - low > (dbl ? 53 : 24); }
#else
static bool inexact(const Ev*, bool) { return false; }
#endif
static Bytes g_in; static Dec g_d; static size_t g_el;
static Src* S; static Rng* Rr;
struct Call { // opens a fresh reader for one call and checks the aftermath
    Src s;
    Call() { Rng& r = *Rr; SrcMode m = r.chance(5, 6) ? S_DATA : r.chance(1, 2) ? S_FILL : S_FILLSKIP; s.open(g_in, m, pick_bufsize(r), r.chance(1, 2) ? 1 : -1, r.next()); }
    mpack_reader_t* rd() { return &s.r; }
    // value_ok: the returned value is the right one for this outcome
    void done(const char* api, bool want_ok, bool value_ok, uint64_t b1, uint64_t b2) {
        mpack_error_t e = mpack_reader_error(&s.r);
        if (g_d.err == D_OK) {
            HX_CHECK((e == mpack_ok) == want_ok, want_ok ? "number-rejected" : "number-accepted", "%s(bounds %llx %llx) on %s %llx: error %s, %s expected", api, (unsigned long long)b1, (unsigned long long)b2, kname(g_d.ev[0].k), (unsigned long long)g_d.ev[0].u, errname(e), want_ok ? "success" : "a type error");
            if (!want_ok) HX_CHECK(e == mpack_error_type, "number-error", "%s on %s: error %s instead of type", api, kname(g_d.ev[0].k), errname(e));
        } else HX_CHECK(e != mpack_ok, "number-truncated", "%s succeeded on an incomplete element", api);
        HX_CHECK(value_ok, want_ok && e == mpack_ok ? "number-value" : "number-safe-value", "%s(bounds %llx %llx) on %s %llx returned a wrong value (error %s)", api, (unsigned long long)b1, (unsigned long long)b2, g_d.ev.empty() ? "?" : kname(g_d.ev[0].k), g_d.ev.empty() ? 0 : (unsigned long long)g_d.ev[0].u, errname(e));
        if (e == mpack_ok) {
            if (s.mode == S_DATA) HX_CHECK(mpack_reader_remaining(&s.r, NULL) == g_in.size() - g_el, "number-consumed", "%s consumed the wrong number of bytes", api);
            HX_CHECK(mpack_expect_u16(&s.r) == 0xBEEF && mpack_reader_error(&s.r) == mpack_ok, "number-consumed", "the element after %s is wrong", api);
            count("accepted");
        } else { HX_CHECK(s.log.errors == 1 && s.log.first == e, "number-error-once", "%s: handler ran %d times", api, s.log.errors); count("rejected"); }
        e = s.close(); (void)e;
        eval(); distinct(hash_bytes(g_in.data(), g_in.size(), mix((uint64_t)(uintptr_t)api, mix(b1, b2))));
    }
};
template <class T> static T around_u(Rng& r, const Ev* e, uint64_t max) {
    uint64_t v = e && is_int(*e) ? e->u : gen_u64(r); v += r.range(0, 2) - 1;
    if (r.chance(1, 4)) v = gen_u64(r);
    if (r.chance(1, 8)) v = r.chance(1, 2) ? 0 : max;
    return (T)(v > max ? v & max : v);
}
template <class T> static T around_s(Rng& r, const Ev* e, int64_t lo, int64_t hi) {
    uint64_t v = e && is_int(*e) ? e->u : gen_u64(r); v += r.range(0, 2) - 1;
    if (r.chance(1, 4)) v = gen_u64(r);
    if (r.chance(1, 8)) v = (uint64_t)(r.chance(1, 2) ? lo : hi);
    int64_t x = (int64_t)v; if (x < lo) x = r.chance(1, 2) ? lo : (int64_t)(T)x; if (x > hi) x = r.chance(1, 2) ? hi : (int64_t)(T)x;
    if (r.chance(1, 4) && e && is_int(*e) && e->u) { int64_t y = (int64_t)(0 - e->u); if (y >= lo && y <= hi) x = y; }
    return (T)x;
}
#define UCALL(name, T, MAXV, hasmax) do { \
    { Call c; T v = mpack_expect_##name(c.rd()); bool ok = have && fits_u(*e, 0, MAXV); c.done("expect_" #name, ok, ok ? (uint64_t)v == e->u : v == 0, 0, MAXV); } \
    for (int k = 0; k < 2; ++k) { T lo = around_u<T>(r, e, MAXV), hi = around_u<T>(r, e, MAXV); if (lo > hi) std::swap(lo, hi); Call c; T v = mpack_expect_##name##_range(c.rd(), lo, hi); bool ok = have && fits_u(*e, lo, hi); c.done("expect_" #name "_range", ok, ok ? (uint64_t)v == e->u : v == lo, lo, hi); } \
    { T hi = around_u<T>(r, e, MAXV); Call c; T v = mpack_expect_##name##_max(c.rd(), hi); bool ok = have && fits_u(*e, 0, hi); c.done("expect_" #name "_max", ok, ok ? (uint64_t)v == e->u : v == 0, 0, hi); } } while (0)
#define SCALL(name, T, MINV, MAXV) do { \
    { Call c; T v = mpack_expect_##name(c.rd()); bool ok = have && fits_s(*e, MINV, MAXV); c.done("expect_" #name, ok, ok ? (uint64_t)(int64_t)v == e->u : v == 0, (uint64_t)(MINV), (uint64_t)(MAXV)); } \
    for (int k = 0; k < 2; ++k) { T lo = around_s<T>(r, e, MINV, MAXV), hi = around_s<T>(r, e, MINV, MAXV); if (lo > hi) std::swap(lo, hi); Call c; T v = mpack_expect_##name##_range(c.rd(), lo, hi); bool ok = have && fits_s(*e, lo, hi); c.done("expect_" #name "_range", ok, ok ? (uint64_t)(int64_t)v == e->u : v == lo, (uint64_t)(int64_t)lo, (uint64_t)(int64_t)hi); } \
    { T hi = around_s<T>(r, e, 0, MAXV); if (hi < 0) hi = 0; Call c; T v = mpack_expect_##name##_max(c.rd(), hi); bool ok = have && fits_s(*e, 0, hi); c.done("expect_" #name "_max", ok, ok ? (uint64_t)(int64_t)v == e->u : v == 0, 0, (uint64_t)(int64_t)hi); } } while (0)

void prop_case(uint64_t idx, Rng& r) {
    (void)idx; Rr = &r;
    for (int rep = 0; rep < 8; ++rep) {
        GenOpt g; V v(K_NIL); g_in.clear(); int kind = (int)r.below(20); clear_notes();
        if (kind < 9) { bool neg = r.chance(1, 3); v.k = K_UINT; v.u = gen_u64(r); if (neg && (int64_t)v.u < 0) v.k = K_INT; else if (neg && v.u) { v.u = 0 - v.u; if ((int64_t)v.u < 0) v.k = K_INT; } }
        else if (kind < 12) { static const uint64_t b[] = {0,1,0x7e,0x7f,0x80,0x81,0xfe,0xff,0x100,0x7ffe,0x7fff,0x8000,0x8001,0xfffe,0xffff,0x10000,0x7ffffffe,0x7fffffff,0x80000000ull,0x80000001ull,0xfffffffeull,0xffffffffull,0x100000000ull,0x7fffffffffffffffull,0x8000000000000000ull,0xffffffffffffffffull}; v.k = K_UINT; v.u = r.pick(b); if (r.chance(1, 2) && v.u) { uint64_t n = 0 - v.u - r.below(2); if ((int64_t)n < 0) { v.u = n; v.k = K_INT; } } }
        else if (kind < 17) { v.k = r.chance(1, 2) ? K_FLT : K_DBL;
            switch (r.below(6)) {
                case 0: v.u = r.next(); break;
                case 1: { double d = (double)(int64_t)gen_u64(r); v.u = v.k == K_DBL ? bits_d(d) : bits_f((float)d); break; }
                case 2: { static const uint32_t b[] = {0,0x80000000u,0x7f800000u,0xff800000u,0x7fc00000u,0x7f800001u,0xffc12345u,1,0x7f7fffffu,0x00800000u,0x3f800000u}; uint32_t x = r.pick(b); v.u = v.k == K_FLT ? x : bits_d((double)flt_of(x)); break; }
                case 3: { static const uint64_t b[] = {0x47efffffe0000000ull,0x47efffffefffffffull,0x47effffff0000000ull,0x47f0000000000000ull,0x47f8000000000001ull,0x4800000000000000ull,0xc7f0000000000001ull,0x380fffffffffffffull,0x3810000000000000ull,0x36a0000000000000ull,0x7ff0000000000001ull,0x7ff8000000000000ull,0x7ff0000000000000ull,0x7fefffffffffffffull,1ull}; v.u = r.pick(b); if (v.k == K_FLT) v.u &= 0xffffffffu; break; }
                default: { double d = (double)(int64_t)r.below(1000) - 500; if (r.chance(1, 2)) d /= 3; v.u = v.k == K_DBL ? bits_d(d) : bits_f((float)d); } }
            if (v.k == K_FLT) v.u &= 0xffffffffu; }
        else { GenOpt o; o.budget = 3; v = gen_value(r, o); }
        enc(g_in, v, r.chance(2, 3) ? ST_RANDOM : ST_SHORT, &r);
        if (r.chance(1, 12)) { if (r.chance(1, 2)) g_in[0] = 0xc1; g_in.resize(r.below(g_in.size() + 1)); }
        g_d = decode(g_in);
        if (g_d.err == D_OK) {
            g_el = g_in.size(); g_in.push_back(0xcd); g_in.push_back(0xbe); g_in.push_back(0xef);
        }
        if (g_d.ev.empty() == false && g_d.err != D_OK && g_d.bad != 0) { // header complete: only containers/payloads, a type error either way
            g_d.err = D_OK; g_el = 0; }
        if (g_d.err == D_OK && g_d.ev[0].k == K_EXT && !MPACK_EXTENSIONS) continue;
        note_hex("input", g_in); if (want_sample()) { char d[200]; describe(v, d, sizeof d); sample("%s, %zu bytes on the wire, every call", d, g_in.size()); }
        bool have = g_d.err == D_OK; const Ev* e = have ? &g_d.ev[0] : NULL;
        // a sentinel check needs a complete first element; otherwise every call must fail anyway
        UCALL(u8, uint8_t, 0xffull, 1); UCALL(u16, uint16_t, 0xffffull, 1); UCALL(u32, uint32_t, 0xffffffffull, 1); UCALL(u64, uint64_t, 0xffffffffffffffffull, 1); UCALL(uint, unsigned, 0xffffffffull, 1);
        SCALL(i8, int8_t, -128ll, 127ll); SCALL(i16, int16_t, -32768ll, 32767ll); SCALL(i32, int32_t, -2147483648ll, 2147483647ll); SCALL(i64, int64_t, INT64_MIN, INT64_MAX); SCALL(int, int, -2147483648ll, 2147483647ll);
        for (int k = 0; k < 2; ++k) {
            { uint64_t m = k && e ? e->u : around_u<uint64_t>(r, e, UINT64_MAX); Call c; mpack_expect_uint_match(c.rd(), m); c.done("expect_uint_match", have && fits_u(*e, m, m), true, m, m); }
            { int64_t m = k && e ? e->i() : around_s<int64_t>(r, e, INT64_MIN, INT64_MAX); Call c; mpack_expect_int_match(c.rd(), m); c.done("expect_int_match", have && fits_s(*e, m, m), true, (uint64_t)m, (uint64_t)m); }
        }
#if MPACK_FLOAT
        { float w = 0; bool ok = have && want_float(*e, &w);
          { Call c; float f = mpack_expect_float(c.rd()); c.done("expect_float", ok, ok ? same_flt(f, w) : bits_f(f) == 0, 0, 0); }
          { bool st = have && e->k == K_FLT; Call c; float f = mpack_expect_float_strict(c.rd()); c.done("expect_float_strict", st, st ? abi_flt(bits_f(f)) == abi_flt(e->u) : bits_f(f) == 0, 0, 0); }
          for (int k = 0; k < 3 && !inexact(e, false); ++k) { float lo = ok && w == w && r.chance(2, 3) ? w : flt_of(r.next()), hi = ok && w == w && r.chance(2, 3) ? w : flt_of(r.next());
            if (r.chance(1, 2)) lo = nextafterf(lo, r.chance(1, 2) ? -INFINITY : INFINITY); if (r.chance(1, 2)) hi = nextafterf(hi, r.chance(1, 2) ? -INFINITY : INFINITY);
            if (r.chance(1, 10)) lo = -INFINITY; if (r.chance(1, 10)) hi = INFINITY;
            if (lo != lo) lo = -1; if (hi != hi) hi = 1; if (lo > hi) std::swap(lo, hi);
            bool in = ok && w >= lo && w <= hi; Call c; float f = mpack_expect_float_range(c.rd(), lo, hi);
            c.done("expect_float_range", in, in ? same_flt(f, w) : same_flt(f, lo), bits_f(lo), bits_f(hi)); } }
#else
        { bool st = have && e->k == K_FLT; Call c; uint32_t f = mpack_expect_raw_float(c.rd()); c.done("expect_raw_float", st, st ? f == e->u : f == 0, 0, 0); }
#endif
#if MPACK_DOUBLE
        { double w = 0; bool ok = have && want_double(*e, &w);
          { Call c; double f = mpack_expect_double(c.rd()); c.done("expect_double", ok, ok ? (e->k == K_DBL ? abi_dbl(bits_d(f)) == abi_dbl(e->u) : same_dbl(f, w)) : bits_d(f) == 0, 0, 0); }
          { bool st = have && (e->k == K_FLT || e->k == K_DBL); Call c; double f = mpack_expect_double_strict(c.rd()); c.done("expect_double_strict", st, st ? (e->k == K_DBL ? abi_dbl(bits_d(f)) == abi_dbl(e->u) : same_dbl(f, w)) : bits_d(f) == 0, 0, 0); }
          for (int k = 0; k < 3 && !inexact(e, true); ++k) { double lo = ok && w == w && r.chance(2, 3) ? w : dbl_of(r.next()), hi = ok && w == w && r.chance(2, 3) ? w : dbl_of(r.next());
            if (r.chance(1, 2)) lo = nextafter(lo, r.chance(1, 2) ? -INFINITY : INFINITY); if (r.chance(1, 2)) hi = nextafter(hi, r.chance(1, 2) ? -INFINITY : INFINITY);
            if (r.chance(1, 10)) lo = -INFINITY; if (r.chance(1, 10)) hi = INFINITY;
            if (lo != lo) lo = -1; if (hi != hi) hi = 1; if (lo > hi) std::swap(lo, hi);
            bool in = ok && w >= lo && w <= hi; Call c; double f = mpack_expect_double_range(c.rd(), lo, hi);
            c.done("expect_double_range", in, in ? same_dbl(f, w) : same_dbl(f, lo), bits_d(lo), bits_d(hi)); } }
#else
        { bool st = have && e->k == K_DBL; Call c; uint64_t f = mpack_expect_raw_double(c.rd()); c.done("expect_raw_double", st, st ? f == e->u : f == 0, 0, 0); }
#endif
    }
}
