// C02: every value is encoded exactly, in its shortest form, for the chosen version.
#include "hx_sink.hpp"
using namespace hx;
const char* prop_rule() { return "case = exhaustive integer windows through every integer entry point, exhaustive header sizes, and random structured values through random entry points, in both versions, compared byte for byte with the reference shortest encoder; non-trivial = at least one element emitted; distinct by (version, reference bytes)"; }

static void set_ver(mpack_writer_t* w, bool v4) {
#if MPACK_COMPATIBILITY
    mpack_writer_set_version(w, v4 ? mpack_version_v4 : mpack_version_v5);
#else
    (void)w; (void)v4;
#endif
}
static void cmp(const char* key, const char* what, const uint8_t* got, size_t n, const Bytes& want) {
    if (n != want.size() || (n && memcmp(got, want.data(), n))) { note_hex("got", got, n); note_hex("want", want); fail(key, "%s: encoding differs (%zu bytes, expected %zu)", what, n, want.size()); }
}
static void one_int(uint64_t u, bool neg, bool v4) {
    V v(neg ? K_INT : K_UINT); v.u = u; Bytes want; enc(want, v, v4 ? ST_V4 : ST_SHORT);
    int apis = neg ? int_apis() : uint_apis();
    for (int a = 0; a < apis; ++a) {
        if (neg ? !int_api_ok((int64_t)u, a) : !uint_api_ok(u, a)) continue;
        char buf[16]; mpack_writer_t w; mpack_writer_init(&w, buf, sizeof buf); set_ver(&w, v4);
        if (neg) emit_int(&w, (int64_t)u, a); else emit_uint(&w, u, a);
        size_t n = mpack_writer_buffer_used(&w);
        char what[80]; snprintf(what, sizeof what, "%s(%lld)", neg ? int_api_name(a) : uint_api_name(a), (long long)u);
        cmp("int-encoding", what, (uint8_t*)buf, n, want);
        HX_CHECK(mpack_writer_destroy(&w) == mpack_ok, "int-error", "%s failed", what);
        eval(); count("integer_writes");
        // exactly that much space is enough, one less is not
        if ((u & 7) == 0) {
            Guard g(want.size() - 1); mpack_writer_init(&w, g.p, g.n); set_ver(&w, v4);
            if (neg) emit_int(&w, (int64_t)u, a); else emit_uint(&w, u, a);
            HX_CHECK(mpack_writer_destroy(&w) == mpack_error_too_big, "int-fit", "%s into %zu bytes did not report too_big", what, g.n);
        }
    }
    distinct(mix(u, neg * 2 + v4));
}
static void one_header(K k, uint32_t n, bool v4, Rng& r) {
    V v(k); v.et = (int8_t)r.next(); Bytes want; enc_head(want, v, n, v4 ? ST_V4 : ST_SHORT, 0);
    for (int how = 0; how < 2; ++how) {
        char buf[64]; mpack_writer_t w; mpack_writer_init(&w, buf, sizeof buf); set_ver(&w, v4);
        g_break_ok = true;
        switch (k) {
            case K_STR: if (how) mpack_write_tag(&w, mpack_tag_make_str(n)); else mpack_start_str(&w, n); break;
            case K_BIN: if (how) mpack_write_tag(&w, mpack_tag_make_bin(n)); else mpack_start_bin(&w, n); break;
#if MPACK_EXTENSIONS
            case K_EXT: if (how) mpack_write_tag(&w, mpack_tag_make_ext(v.et, n)); else mpack_start_ext(&w, v.et, n); break;
#endif
            case K_ARR: if (how) mpack_write_tag(&w, mpack_tag_make_array(n)); else mpack_start_array(&w, n); break;
            default: if (how) mpack_write_tag(&w, mpack_tag_make_map(n)); else mpack_start_map(&w, n);
        }
        char what[80]; snprintf(what, sizeof what, "%s header of %u (v4=%d, tag=%d)", kname(k), n, v4, how);
        if (k == K_EXT && v4) { HX_CHECK(mpack_writer_error(&w) != mpack_ok, "v4-ext", "%s accepted", what); }
        else {
            HX_CHECK(mpack_writer_error(&w) == mpack_ok, "header-error", "%s: error %s", what, errname(mpack_writer_error(&w)));
            cmp("header-encoding", what, (uint8_t*)buf, mpack_writer_buffer_used(&w), want);
            mpack_writer_flag_error(&w, mpack_error_data); // cancel
        }
        mpack_writer_destroy(&w); g_break_ok = false; eval(); count("headers");
    }
    distinct(mix(n, (uint64_t)k * 2 + v4 + 1000));
}
static void structured(Rng& r) {
    GenOpt g; g.budget = r.chance(1, 10) ? 200 : 25; g.wide = r.chance(1, 40);
    bool v4 = false;
#if MPACK_COMPATIBILITY
    v4 = r.chance(1, 3);
#endif
#if !MPACK_EXTENSIONS
    g.ext = false;
#endif
    V v = gen_value(r, g);
    if (v4 && has_ext(v)) {
        // extension types raise an error in the old version
#if MPACK_EXTENSIONS
        Sink s; s.open(W_GROW, 0, 1); set_ver(&s.w, true); EmitOpt o; o.v4 = true; o.objbytes = false; g_break_ok = true; emit(&s.w, v, r, o);
        HX_CHECK(!s.ok(), "v4-ext", "extension accepted in v4"); s.close(); g_break_ok = false; eval(); count("v4_ext_rejected");
#endif
        return;
    }
    Bytes want; enc(want, v, v4 ? ST_V4 : ST_SHORT); note_hex("want", want); note("v4=%d", v4);
    { char d[400]; describe(v, d, sizeof d); note("value %s", d); if (want_sample()) sample("%s v4=%d (%zu bytes)", d, v4, want.size()); }
    for (int k = 0; k < 3; ++k) {
        Sink s; s.open(W_GROW, 0, 1); set_ver(&s.w, v4);
        EmitOpt o; o.v4 = v4; o.plain = k == 0; uint64_t e0 = g_emit.elements; emit(&s.w, v, r, o);
        mpack_error_t e = s.close(); HX_CHECK(e == mpack_ok, "value-error", "writing failed with %s", errname(e));
        cmp("value-encoding", "structured value", s.out.data(), s.out.size(), want);
        eval(); count("c_generic_writes", g_emit.cgen); count("c_key_values", g_emit.ckv); g_emit.cgen = g_emit.ckv = 0; count("structured_elements", g_emit.elements - e0);
    }
    distinct(hash_bytes(want, v4));
}
void prop_case(uint64_t idx, Rng& r) {
    bool vs[2] = {false, true}; int nv = MPACK_COMPATIBILITY ? 2 : 1;
    if (idx < 280) { // all integers of a window: 280 windows of 500 values from -70000
        for (int64_t x = -70000 + (int64_t)idx * 500; x < -70000 + ((int64_t)idx + 1) * 500; ++x)
            one_int((uint64_t)x, x < 0, MPACK_COMPATIBILITY && (x & 1) && (x & 64));
        return;
    }
    if (idx < 420) { // all header sizes: 140 windows of 500
        for (uint32_t n = (uint32_t)(idx - 280) * 500; n < (uint32_t)(idx - 279) * 500; ++n)
            for (int k = K_STR; k <= K_MAP; ++k) { if (k == K_EXT && !MPACK_EXTENSIONS) continue; one_header((K)k, n, vs[(n >> 1) % (uint32_t)nv], r); if (n < 1000) one_header((K)k, n, vs[(n + 1) % (uint32_t)nv], r); }
        return;
    }
    if (idx == 420) for (int b = 0; b < 64; ++b) for (int d = -3; d <= 3; ++d) for (int v = 0; v < nv; ++v) {
        uint64_t u = (1ull << b) + (uint64_t)(int64_t)d; one_int(u, false, vs[v]);
        int64_t s = (int64_t)((uint64_t)0 - u); if (s < 0) one_int((uint64_t)s, true, vs[v]);
    }
    if (idx == 421) for (int b = 8; b < 32; ++b) for (int d = -3; d <= 3; ++d) for (int v = 0; v < nv; ++v) for (int k = K_STR; k <= K_MAP; ++k) {
        if (k == K_EXT && !MPACK_EXTENSIONS) continue;
        one_header((K)k, (uint32_t)((1ll << b) + d), vs[v], r); one_header((K)k, 0xffffffffu - (uint32_t)b, vs[v], r); one_header((K)k, 0xffffffffu, vs[v], r);
    }
    if (idx % 8 == 0) { for (int i = 0; i < 60; ++i) { uint64_t u = gen_u64(r); bool v4 = MPACK_COMPATIBILITY && r.chance(1, 2); one_int(u, false, v4); if ((int64_t)u < 0) one_int(u, true, v4); } }
    else structured(r);
}
