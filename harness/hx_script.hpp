// Scripts: random but configuration-independent programs over the public API
// whose every observable (value, length, content, error) is written to a
// transcript. Two executions of the same script must leave equal transcripts,
// whatever the build configuration (C24) and whatever runs beside it (C25).
// Everything here is thread-local; random numbers are drawn one per statement
// so that all compilers draw them in the same order.
#pragma once
#include "hx_ops.hpp"
#include "hx_num.hpp"
#include <string>

namespace hx {

struct Script {
    uint64_t h; bool keep; bool flt = true, ext = true; /* calls that need these features may be made */ std::string text; uint64_t steps;
    explicit Script(bool k = false) : h(0x1234), keep(k), steps(0) {}
    void t(const char* n, uint64_t v) {
        ++steps; h = mix(h ^ hash_bytes(n, strlen(n)), v);
        if (keep) { char b[120]; snprintf(b, sizeof b, "%s=%llx\n", n, (unsigned long long)v); text += b; }
    }
    void data(const char* n, const void* p, size_t len) { t(n, (uint64_t)len); t(n, hash_bytes(p, len)); if (keep && len) { char b[80]; size_t k = len < 16 ? len : 16; for (size_t i = 0; i < k; ++i) { snprintf(b, sizeof b, "%02x", ((const uint8_t*)p)[i]); text += b; } text += "\n"; } }
    void f(const char* n, float v) { uint32_t u; memcpy(&u, &v, 4); if (v != v) u = 0x7fc00000; t(n, u); }
    void d(const char* n, double v) { uint64_t u; memcpy(&u, &v, 8); if (v != v) u = 0x7ff8000000000000ull; t(n, u); }
};
static inline void sc_tag(Script& s, const char* n, mpack_tag_t t) {
    mpack_type_t ty = mpack_tag_type(&t); s.t(n, (uint64_t)ty);
    switch (ty) {
        case mpack_type_bool: s.t("bool", mpack_tag_bool_value(&t)); break;
        case mpack_type_int: s.t("int", (uint64_t)mpack_tag_int_value(&t)); break;
        case mpack_type_uint: s.t("uint", mpack_tag_uint_value(&t)); break;
#if MPACK_FLOAT
        case mpack_type_float: s.f("float", mpack_tag_float_value(&t)); break;
#endif
#if MPACK_DOUBLE
        case mpack_type_double: s.d("double", mpack_tag_double_value(&t)); break;
#endif
        case mpack_type_str: s.t("str", mpack_tag_str_length(&t)); break;
        case mpack_type_bin: s.t("bin", mpack_tag_bin_length(&t)); break;
        case mpack_type_array: s.t("array", mpack_tag_array_count(&t)); break;
        case mpack_type_map: s.t("map", mpack_tag_map_count(&t)); break;
#if MPACK_EXTENSIONS
        case mpack_type_ext: s.t("ext", mpack_tag_ext_length(&t)); s.t("exttype", (uint8_t)mpack_tag_ext_exttype(&t)); break;
#endif
        default: break;
    }
}
static inline uint64_t sc_len(Rng& r, const Ev* e) { // near the element's own length, or anything
    uint64_t k = r.below(5); uint64_t n = e ? e->n : 0; if (n > 100000) n = 100;
    if (k == 0) return n; if (k == 1) return n + 1; if (k == 2) return n ? n - 1 : 0; if (k == 3) return n + 40; return ops_len(r);
}
struct RdCtx { mpack_reader_t* rd; Rng r; Script& s; const Dec& d; const Bytes& in; size_t el; unsigned left; bool bytes_ok;
    RdCtx(mpack_reader_t* rd_, uint64_t seed, Script& s_, const Dec& d_, const Bytes& in_) : rd(rd_), r(seed), s(s_), d(d_), in(in_), el(0), left(4000), bytes_ok(true) {}
    bool ok() { return mpack_reader_error(rd) == mpack_ok; }
    const Ev* ev() { return el < d.ev.size() ? &d.ev[el] : 0; } };

static inline void sc_payload(RdCtx& c, mpack_type_t ty, uint32_t n) { // consume an open str/bin/ext and close it
    mpack_reader_t* rd = c.rd; Rng& r = c.r; Script& s = c.s; uint64_t how = r.below(8);
    if (n > 200000 && how > 2) how = 0;
    switch (how) {
        case 0: mpack_skip_bytes(rd, n); break;
        case 1:
        case 2: { char* p = mpack_read_bytes_alloc(rd, n); s.t("alloc", p != 0 || n == 0); if (p) s.data("alloc", p, n); MPACK_FREE(p); break; }
        case 3: if (ty == mpack_type_str) { uint64_t k = 1 + sc_len(r, c.ev()); Guard g(k); if (r.chance(1, 2)) mpack_read_cstr(rd, g.p, k, n); else mpack_read_utf8_cstr(rd, g.p, k, n); s.data("cstr", g.p, strlen(g.p)); break; } // fallthrough
        case 4: { Guard g(n); if (ty == mpack_type_str && r.chance(1, 2)) mpack_read_utf8(rd, g.p, n); else mpack_read_bytes(rd, g.p, n); if (c.ok()) s.data("bytes", g.p, n); break; }
        case 5: if (c.bytes_ok && n < 30) { const char* p = ty == mpack_type_str && r.chance(1, 2) ? mpack_read_utf8_inplace(rd, n) : mpack_read_bytes_inplace(rd, n); s.t("inplace", p != 0); if (c.ok()) s.data("inplace", p, n); break; } // fallthrough
        default: { uint32_t left = n; while (left && c.ok()) { uint64_t m = left < 3000 ? left : 3000; size_t k = 1 + r.below(m); Guard g(k); mpack_read_bytes(rd, g.p, k); if (c.ok()) s.data("piece", g.p, k); left -= (uint32_t)k; } }
    }
    if (c.ok()) mpack_done_type(rd, ty);
}
static inline void sc_number(RdCtx& c) {
    mpack_reader_t* rd = c.rd; Rng& r = c.r; Script& s = c.s; const Ev* e = c.ev();
    uint64_t base = e && is_int(*e) ? e->u : gen_u64(r); uint64_t a = base - r.below(3), b = base + r.below(3); if (r.chance(1, 4)) a = gen_u64(r); if (r.chance(1, 4)) b = gen_u64(r);
    uint64_t op = r.below(s.flt ? 44 : 38);
#if !MPACK_FLOAT || !MPACK_DOUBLE
    if (op >= 38) op -= 38;
#endif
#define SN(i, fn, T) case i: s.t(#fn, (uint64_t)(T)fn(rd)); break;
#define SR(i, fn, T) case i: { T lo = (T)a, hi = (T)b; if (lo > hi) { T q = lo; lo = hi; hi = q; } s.t(#fn, (uint64_t)(T)fn(rd, lo, hi)); break; }
#define SM(i, fn, T) case i: { T hi = (T)b; if (hi < 0) hi = (T)0; s.t(#fn, (uint64_t)(T)fn(rd, hi)); break; }
    switch (op) {
        SN(0, mpack_expect_u8, uint8_t) SN(1, mpack_expect_u16, uint16_t) SN(2, mpack_expect_u32, uint32_t) SN(3, mpack_expect_u64, uint64_t)
        SN(4, mpack_expect_i8, int8_t) SN(5, mpack_expect_i16, int16_t) SN(6, mpack_expect_i32, int32_t) SN(7, mpack_expect_i64, int64_t)
        SN(8, mpack_expect_uint, unsigned) SN(9, mpack_expect_int, int)
        SR(10, mpack_expect_u8_range, uint8_t) SR(11, mpack_expect_u16_range, uint16_t) SR(12, mpack_expect_u32_range, uint32_t) SR(13, mpack_expect_u64_range, uint64_t)
        SR(14, mpack_expect_i8_range, int8_t) SR(15, mpack_expect_i16_range, int16_t) SR(16, mpack_expect_i32_range, int32_t) SR(17, mpack_expect_i64_range, int64_t)
        SR(18, mpack_expect_uint_range, unsigned) SR(19, mpack_expect_int_range, int)
        SM(20, mpack_expect_u8_max, uint8_t) SM(21, mpack_expect_u16_max, uint16_t) SM(22, mpack_expect_u32_max, uint32_t) SM(23, mpack_expect_u64_max, uint64_t)
        SM(24, mpack_expect_i8_max, int8_t) SM(25, mpack_expect_i16_max, int16_t) SM(26, mpack_expect_i32_max, int32_t) SM(27, mpack_expect_i64_max, int64_t)
        SM(28, mpack_expect_uint_max, unsigned) SM(29, mpack_expect_int_max, int)
        case 30: case 31: mpack_expect_uint_match(rd, a); break;
        case 32: case 33: mpack_expect_int_match(rd, (int64_t)a); break;
        case 34: case 35: s.t("u64", mpack_expect_u64(rd)); break;
        case 36: case 37: s.t("i64", (uint64_t)mpack_expect_i64(rd)); break;
#if MPACK_FLOAT && MPACK_DOUBLE
        case 38: s.f("float", mpack_expect_float(rd)); break;
        case 39: s.d("double", mpack_expect_double(rd)); break;
        case 40: s.f("float_strict", mpack_expect_float_strict(rd)); break;
        case 41: s.d("double_strict", mpack_expect_double_strict(rd)); break;
        case 42: { float lo = -(float)r.below(100), hi = (float)r.below(70000); s.f("float_range", mpack_expect_float_range(rd, lo, hi)); break; }
        case 43: { double lo = -(double)r.below(100), hi = (double)r.below(70000); s.d("double_range", mpack_expect_double_range(rd, lo, hi)); break; }
#endif
        default: break;
    }
#undef SN
#undef SR
#undef SM
}
static inline void sc_elem(RdCtx& c, unsigned depth);
static inline void sc_children(RdCtx& c, uint64_t n, bool map, unsigned depth) {
    bool keyed = map && n <= 20 && c.r.chance(1, 3) && c.bytes_ok; bool found[OPS_NKEYS]; memset(found, 0, sizeof found); const char* keys[OPS_NKEYS]; memcpy(keys, OPS_KEYS, sizeof keys);
    bool nums = map && !keyed && n <= 20 && c.r.chance(1, 5); bool fnum[40]; memset(fnum, 0, sizeof fnum);
    for (uint64_t i = 0; i < n && c.ok() && c.left; ++i) {
        if (map) {
            if (keyed && c.ev()) { size_t k = mpack_expect_key_cstr(c.rd, keys, found, OPS_NKEYS); c.s.t("key_cstr", k); c.s.t("err", (uint64_t)mpack_reader_error(c.rd)); if (c.ev()) c.el = c.ev()->next; }
            else if (nums) { size_t k = mpack_expect_key_uint(c.rd, fnum, 40); c.s.t("key_uint", k); c.s.t("err", (uint64_t)mpack_reader_error(c.rd)); if (c.ev()) c.el = c.ev()->next; }
            else sc_elem(c, depth);
        }
        if (c.ok()) sc_elem(c, depth);
    }
}
static inline void sc_elem(RdCtx& c, unsigned depth) {
    mpack_reader_t* rd = c.rd; Rng& r = c.r; Script& s = c.s; const Ev* e = c.ev(); if (!c.left) return; --c.left;
    size_t next = e ? e->next : c.el; int k = e ? (int)e->k : (int)K_NONE;
    // a byte that starts no known element is compared separately (see DESIGN.md, C24)
    size_t at = e ? e->off : c.d.err == D_OK ? c.in.size() : c.d.bad_off; bool reserved = at < c.in.size() && c.in[at] == 0xc1;
#if !MPACK_EXTENSIONS
    if (at < c.in.size() && ((c.in[at] >= 0xc7 && c.in[at] <= 0xc9) || (c.in[at] >= 0xd4 && c.in[at] <= 0xd8))) reserved = true;
#endif
    uint64_t how = r.below(14); s.t("how", how);
    if (reserved) how = 2;
    if (how == 0 && !reserved && e) { k = (int)r.below(K_NONE); if (k == K_EXT && !s.ext) k = K_BIN; }
    if (depth > 200) how = 1;
    if (how == 1) { mpack_discard(rd); s.t("discard", (uint64_t)mpack_reader_error(rd)); c.el = next; return; }
    if (how == 3 || how == 4) { mpack_tag_t t = mpack_peek_tag(rd); sc_tag(s, "peek", t); s.t("err", (uint64_t)mpack_reader_error(rd)); if (!c.ok()) return; }
    if (how == 5 && e && e->k != K_STR && e->k != K_BIN && e->k != K_EXT && e->k != K_ARR && e->k != K_MAP && e->k != K_FLT && e->k != K_DBL) {
        mpack_tag_t t = ev_tag(*e); if (r.chance(1, 6)) t = ops_tag(r); mpack_type_t ty = mpack_tag_type(&t);
        if (ty != mpack_type_str && ty != mpack_type_bin && ty != mpack_type_array && ty != mpack_type_map) { mpack_expect_tag(rd, t); s.t("expect_tag", (uint64_t)mpack_reader_error(rd)); c.el = next; return; }
    }
    if (how == 2 || k == K_NONE) { // by tag
        mpack_tag_t t = mpack_read_tag(rd); sc_tag(s, "tag", t); s.t("err", (uint64_t)mpack_reader_error(rd)); if (!c.ok()) return;
        mpack_type_t ty = mpack_tag_type(&t);
        if (ty == mpack_type_array || ty == mpack_type_map) { c.el++; sc_children(c, ty == mpack_type_array ? mpack_tag_array_count(&t) : mpack_tag_map_count(&t), ty == mpack_type_map, depth + 1); if (c.ok() && c.left) mpack_done_type(rd, ty); }
        else if (ty == mpack_type_str || ty == mpack_type_bin
#if MPACK_EXTENSIONS
            || ty == mpack_type_ext
#endif
            ) sc_payload(c, ty, mpack_tag_bytes(&t));
        s.t("err", (uint64_t)mpack_reader_error(rd)); c.el = next; return;
    }
    switch (k) {
        case K_NIL: mpack_expect_nil(rd); break;
        case K_BOOL: { uint64_t q = r.below(3); if (q == 0) s.t("bool", mpack_expect_bool(rd)); else if (q == 1) mpack_expect_true(rd); else mpack_expect_false(rd); break; }
        case K_UINT: case K_INT: case K_FLT: case K_DBL: sc_number(c); break;
        case K_STR: {
            uint64_t q = r.below(c.bytes_ok ? 14 : 11); uint64_t n = sc_len(r, e); const char* key = OPS_KEYS[r.below(OPS_NKEYS)];
            switch (q) {
                case 0: { uint32_t l = mpack_expect_str(rd); s.t("str", l); if (c.ok()) sc_payload(c, mpack_type_str, l); break; }
                case 1: { uint32_t l = mpack_expect_str_max(rd, (uint32_t)n); s.t("str_max", l); if (c.ok()) sc_payload(c, mpack_type_str, l); break; }
                case 2: { mpack_expect_str_length(rd, (uint32_t)n); if (c.ok()) sc_payload(c, mpack_type_str, (uint32_t)n); break; }
                case 3: { Guard g(n); size_t l = mpack_expect_str_buf(rd, g.p, n); s.t("str_buf", l); if (c.ok()) s.data("str_buf", g.p, l); break; }
                case 4: { Guard g(n); size_t l = mpack_expect_utf8(rd, g.p, n); s.t("utf8", l); if (c.ok()) s.data("utf8", g.p, l); break; }
                case 5: { Guard g(n + 1); mpack_expect_cstr(rd, g.p, n + 1); s.data("cstr", g.p, strlen(g.p)); break; }
                case 6: { Guard g(n + 1); mpack_expect_utf8_cstr(rd, g.p, n + 1); s.data("utf8_cstr", g.p, strlen(g.p)); break; }
                case 7: { char* p = mpack_expect_cstr_alloc(rd, n + 1); s.t("cstr_alloc", p != 0); if (p) s.data("cstr_alloc", p, strlen(p)); MPACK_FREE(p); break; }
                case 8: { char* p = mpack_expect_utf8_cstr_alloc(rd, n + 1); s.t("utf8_cstr_alloc", p != 0); if (p) s.data("utf8_cstr_alloc", p, strlen(p)); MPACK_FREE(p); break; }
                case 9: mpack_expect_cstr_match(rd, key); break;
                case 10: { bool same = e && e->k == K_STR && e->n < 5000 && e->pay() + e->n <= c.in.size() && r.chance(3, 4); if (same) { Guard g(c.in.data() + e->pay(), e->n); mpack_expect_str_match(rd, g.p, g.n); } else { Guard g(n % 50, 'a'); mpack_expect_str_match(rd, g.p, g.n); } break; }
                case 11: { const char* ks[OPS_NKEYS]; memcpy(ks, OPS_KEYS, sizeof ks); s.t("enum", mpack_expect_enum(rd, ks, OPS_NKEYS)); break; }
                default: { const char* ks[OPS_NKEYS]; memcpy(ks, OPS_KEYS, sizeof ks); s.t("enum_optional", mpack_expect_enum_optional(rd, ks, OPS_NKEYS)); break; }
            }
            break; }
        case K_BIN: {
            uint64_t q = r.below(6); uint64_t n = sc_len(r, e);
            switch (q) {
                case 0: { uint32_t l = mpack_expect_bin(rd); s.t("bin", l); if (c.ok()) sc_payload(c, mpack_type_bin, l); break; }
                case 1: { uint32_t l = mpack_expect_bin_max(rd, (uint32_t)n); s.t("bin_max", l); if (c.ok()) sc_payload(c, mpack_type_bin, l); break; }
                case 2: { mpack_expect_bin_size(rd, (uint32_t)n); if (c.ok()) sc_payload(c, mpack_type_bin, (uint32_t)n); break; }
                case 3: { Guard g(n); size_t l = mpack_expect_bin_buf(rd, g.p, n); s.t("bin_buf", l); if (c.ok()) s.data("bin_buf", g.p, l); break; }
                case 4: { Guard g(n); mpack_expect_bin_size_buf(rd, g.p, (uint32_t)n); if (c.ok()) s.data("bin_size_buf", g.p, n); break; }
                default: { size_t l = 77; char* p = mpack_expect_bin_alloc(rd, n, &l); s.t("bin_alloc", l); if (p) s.data("bin_alloc", p, l); MPACK_FREE(p); break; }
            }
            break; }
#if MPACK_EXTENSIONS
        case K_EXT: {
            uint64_t q = r.below(7); uint64_t n = sc_len(r, e); int8_t et = 77;
            bool ts = e && e->k == K_EXT && e->et == -1;
            switch (q) {
                case 0: { uint32_t l = mpack_expect_ext(rd, &et); s.t("ext", l); s.t("exttype", (uint8_t)et); if (c.ok()) sc_payload(c, mpack_type_ext, l); break; }
                case 1: { uint32_t l = mpack_expect_ext_max(rd, &et, (uint32_t)n); s.t("ext_max", l); s.t("exttype", (uint8_t)et); if (c.ok()) sc_payload(c, mpack_type_ext, l); break; }
                case 2: { mpack_expect_ext_size(rd, &et, (uint32_t)n); s.t("exttype", (uint8_t)et); if (c.ok()) sc_payload(c, mpack_type_ext, (uint32_t)n); break; }
                case 3: { Guard g(n); size_t l = mpack_expect_ext_buf(rd, &et, g.p, n); s.t("ext_buf", l); s.t("exttype", (uint8_t)et); if (c.ok()) s.data("ext_buf", g.p, l); break; }
                case 4: { size_t l = 77; char* p = mpack_expect_ext_alloc(rd, &et, n, &l); s.t("ext_alloc", l); s.t("exttype", (uint8_t)et); if (p) s.data("ext_alloc", p, l); MPACK_FREE(p); break; }
                case 5: { if (ts || r.chance(1, 3)) { mpack_timestamp_t t = mpack_expect_timestamp(rd); s.t("ts", (uint64_t)t.seconds); s.t("ns", t.nanoseconds); } else mpack_discard(rd); break; }
                default: { if (ts || r.chance(1, 3)) s.t("ts_truncate", (uint64_t)mpack_expect_timestamp_truncate(rd)); else mpack_discard(rd); break; }
            }
            break; }
#endif
        case K_ARR: case K_MAP: {
            bool map = k == K_MAP; uint32_t n = e ? e->n : 0; uint32_t cnt = 0; bool open = true; uint64_t q = r.below(7); uint32_t a = n - (uint32_t)r.below(n < 3 ? n + 1 : 3), b = n + (uint32_t)r.below(3); if (r.chance(1, 8)) { a = 3; b = 9; } if (b < a) b = a;
            switch (q) {
                case 0: cnt = map ? mpack_expect_map(rd) : mpack_expect_array(rd); break;
                case 1: cnt = map ? mpack_expect_map_range(rd, a, b) : mpack_expect_array_range(rd, a, b); break;
                case 2: cnt = map ? mpack_expect_map_max(rd, b) : mpack_expect_array_max(rd, b); break;
                case 3: map ? mpack_expect_map_match(rd, n) : mpack_expect_array_match(rd, n); cnt = n; break;
                case 4: cnt = 77; open = map ? mpack_expect_map_or_nil(rd, &cnt) : mpack_expect_array_or_nil(rd, &cnt); s.t("open", open); break;
                case 5: cnt = 77; open = map ? mpack_expect_map_max_or_nil(rd, b, &cnt) : mpack_expect_array_max_or_nil(rd, b, &cnt); s.t("open", open); break;
                default: if (map) { cnt = mpack_expect_map(rd); break; } else { uint32_t mx = (uint32_t)(r.chance(1, 2) ? n : 5000); cnt = 77; uint64_t* p = mpack_expect_array_alloc(rd, uint64_t, mx, &cnt); s.t("array_alloc", p != 0); if (p) memset(p, 1, (size_t)cnt * 8); MPACK_FREE(p); break; }
            }
            s.t("count", cnt); s.t("err", (uint64_t)mpack_reader_error(rd));
            if (!c.ok()) return;
            if (open) { c.el++; sc_children(c, cnt, map, depth + 1); if (c.ok() && c.left) map ? mpack_done_map(rd) : mpack_done_array(rd); }
            break; }
        default: mpack_discard(rd);
    }
    s.t("err", (uint64_t)mpack_reader_error(rd)); c.el = next;
}
// one message; returns its final error. `done` false if it stopped on its own step limit.
static inline mpack_error_t sc_message(mpack_reader_t* rd, uint64_t seed, Script& s, const Dec& d, const Bytes& in, bool inplace_ok) {
    RdCtx c(rd, seed, s, d, in); c.bytes_ok = inplace_ok; sc_elem(c, 0);
    if (!c.left && c.ok()) mpack_reader_flag_error(rd, mpack_error_data);
    s.t("end", (uint64_t)mpack_reader_error(rd)); return mpack_reader_error(rd);
}
//---------------------------------------------------------------- trees
static inline void sc_node(Script& s, mpack_node_t n, Rng& r, unsigned depth, unsigned& budget, bool wrong) {
    if (!budget || mpack_node_error(n) != mpack_ok || depth > 200) return;
    --budget;
    mpack_type_t ty = mpack_node_type(n); s.t("type", (uint64_t)ty); sc_tag(s, "ntag", mpack_node_tag(n)); s.t("nil", mpack_node_is_nil(n)); s.t("missing", mpack_node_is_missing(n));
    int as = (int)ty; if (wrong && r.chance(1, 25)) as = (int)r.range((uint64_t)mpack_type_nil, (uint64_t)mpack_type_map);
    const char* key = OPS_KEYS[r.below(OPS_NKEYS)]; size_t kl = strlen(key); uint64_t q = r.below(12), num = r.below(40); size_t len = 0;
    if (ty == mpack_type_str || ty == mpack_type_bin
#if MPACK_EXTENSIONS
        || ty == mpack_type_ext
#endif
    ) { len = mpack_node_data_len(n); s.data("data", mpack_node_data(n), len); }
    Ev fake; memset(&fake, 0, sizeof fake); fake.n = (uint32_t)len; size_t bl = (size_t)sc_len(r, &fake);
    switch (as) {
        case mpack_type_nil: mpack_node_nil(n); break;
        case mpack_type_bool: if (q < 8 || !wrong) s.t("bool", mpack_node_bool(n)); else if (q < 10) mpack_node_true(n); else mpack_node_false(n); break;
        case mpack_type_int: case mpack_type_uint: case mpack_type_float: case mpack_type_double:
            if (!s.flt && q >= 10) q -= 4;
            if (!wrong && (as == mpack_type_float || as == mpack_type_double)) q = 10 + (q & 1); else if (!wrong) q = as == mpack_type_int ? 7 : 3;
            switch (q) {
                case 0: s.t("u8", mpack_node_u8(n)); break; case 1: s.t("u16", mpack_node_u16(n)); break; case 2: s.t("u32", mpack_node_u32(n)); break; case 3: s.t("u64", mpack_node_u64(n)); break;
                case 4: s.t("i8", (uint8_t)mpack_node_i8(n)); break; case 5: s.t("i16", (uint16_t)mpack_node_i16(n)); break; case 6: s.t("i32", (uint32_t)mpack_node_i32(n)); break; case 7: s.t("i64", (uint64_t)mpack_node_i64(n)); break;
                case 8: s.t("uint", mpack_node_uint(n)); break; case 9: s.t("int", (uint32_t)mpack_node_int(n)); break;
#if MPACK_FLOAT && MPACK_DOUBLE
                case 10: s.f("float", mpack_node_float(n)); if (ty == mpack_type_float) s.f("fstrict", mpack_node_float_strict(n)); break;
                default: s.d("double", mpack_node_double(n)); if (ty == mpack_type_double || ty == mpack_type_float) s.d("dstrict", mpack_node_double_strict(n));
#else
                default: s.t("i64", (uint64_t)mpack_node_i64(n));
#endif
            }
            break;
        case mpack_type_str:
            switch (q) {
                case 0: s.t("strlen", mpack_node_strlen(n)); break;
                case 1: { const char* p = mpack_node_str(n); if (p) s.data("str", p, mpack_node_strlen(n)); break; }
                case 2: if (wrong || ref_utf8((const uint8_t*)mpack_node_data(n), len, true)) mpack_node_check_utf8(n); break;
                case 3: { const char* ks[OPS_NKEYS]; memcpy(ks, OPS_KEYS, sizeof ks); s.t("enum_optional", mpack_node_enum_optional(n, ks, OPS_NKEYS)); break; }
                default:
                    if (!wrong) bl = len + 1 + bl % 10;
                    switch (wrong ? q : 4) {
                        default: { Guard g(bl); size_t k = mpack_node_copy_data(n, g.p, bl); s.t("copy_data", k); if (mpack_node_error(n) == mpack_ok) s.data("copy_data", g.p, k); break; }
                        case 5: { Guard g(bl); size_t k = mpack_node_copy_utf8(n, g.p, bl); s.t("copy_utf8", k); if (mpack_node_error(n) == mpack_ok) s.data("copy_utf8", g.p, k); break; }
                        case 6: { Guard g(bl + 1); mpack_node_copy_cstr(n, g.p, bl + 1); s.data("copy_cstr", g.p, strlen(g.p)); break; }
                        case 7: { Guard g(bl + 1); mpack_node_copy_utf8_cstr(n, g.p, bl + 1); s.data("copy_utf8_cstr", g.p, strlen(g.p)); break; }
                        case 8: { char* p = mpack_node_cstr_alloc(n, bl + 1); s.t("cstr_alloc", p != 0); if (p) s.data("cstr_alloc", p, strlen(p)); MPACK_FREE(p); break; }
                        case 9: { char* p = mpack_node_utf8_cstr_alloc(n, bl + 1); s.t("utf8_cstr_alloc", p != 0); if (p) s.data("utf8_cstr_alloc", p, strlen(p)); MPACK_FREE(p); break; }
                        case 10: { const char* ks[OPS_NKEYS]; memcpy(ks, OPS_KEYS, sizeof ks); s.t("enum", mpack_node_enum(n, ks, OPS_NKEYS)); break; }
                        case 11: mpack_node_check_utf8_cstr(n); break;
                    }
            }
            break;
        case mpack_type_bin: if (q < 4) s.t("bin_size", mpack_node_bin_size(n)); else if (q < 8) { const char* p = mpack_node_bin_data(n); if (p) s.data("bin", p, len); } else { size_t mx = wrong ? bl : len; char* p = mpack_node_data_alloc(n, mx); s.t("data_alloc", p != 0 || len == 0); if (p && len) s.data("data_alloc", p, len); MPACK_FREE(p); } break;
#if MPACK_EXTENSIONS
        case mpack_type_ext: if (ty != mpack_type_ext && !s.ext) break; s.t("exttype", (uint8_t)mpack_node_exttype(n)); if (q < 4 && wrong) { mpack_timestamp_t t = mpack_node_timestamp(n); s.t("ts", (uint64_t)t.seconds); s.t("ns", t.nanoseconds); } break;
#endif
        case mpack_type_array: {
            size_t c = mpack_node_array_length(n); s.t("array", c); if (wrong && r.chance(1, 30)) { mpack_node_array_at(n, c); break; }
            for (size_t i = 0; i < c && budget; ++i) sc_node(s, mpack_node_array_at(n, i), r, depth + 1, budget, wrong);
            break; }
        case mpack_type_map: {
            size_t c = mpack_node_map_count(n); s.t("map", c);
            if (!wrong && q < 4) { // a key that is there twice is an error to look up
                unsigned dup = 0;
                for (size_t i = 0; i < c && dup < 2; ++i) { mpack_node_t k = mpack_node_map_key_at(n, i); mpack_type_t kt = mpack_node_type(k);
                    if (q == 0 || q == 3) dup += kt == mpack_type_str && mpack_node_strlen(k) == kl && memcmp(mpack_node_str(k), key, kl) == 0;
                    else if (kt == mpack_type_int || kt == mpack_type_uint) { mpack_tag_t t = mpack_node_tag(k); if (q == 1) dup += mpack_tag_equal(t, mpack_tag_make_int((int64_t)num - 20)); else dup += mpack_tag_equal(t, mpack_tag_make_uint(num)); } }
                if (dup > 1) q = 11;
            }
            switch (q) {
                case 0: s.t("contains", mpack_node_map_contains_str(n, key, kl)); break; case 1: s.t("contains", mpack_node_map_contains_int(n, (int64_t)num - 20)); break; case 2: s.t("contains", mpack_node_map_contains_uint(n, num)); break;
                case 3: if (wrong) { mpack_node_t x = mpack_node_map_cstr(n, key); s.t("found", (uint64_t)mpack_node_type(x)); } else s.t("contains", mpack_node_map_contains_cstr(n, key)); break;
                case 4: if (wrong) { mpack_node_t x = mpack_node_map_uint_optional(n, num); s.t("found", (uint64_t)mpack_node_type(x)); } break; case 5: if (wrong) { mpack_node_t x = mpack_node_map_str_optional(n, key, kl); s.t("found", (uint64_t)mpack_node_type(x)); } break;
                default: break;
            }
            for (size_t i = 0; i < c && budget; ++i) { sc_node(s, mpack_node_map_key_at(n, i), r, depth + 1, budget, wrong); sc_node(s, mpack_node_map_value_at(n, i), r, depth + 1, budget, wrong); }
            break; }
        default: break;
    }
    s.t("nerr", (uint64_t)mpack_node_error(n));
}
} // namespace hx
