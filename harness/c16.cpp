// C16: node accessors return exact values or flag the tree; nothing is truncated.
#include "hx_num.hpp"
#include "hx_tree.hpp"
using namespace hx;
const char* prop_rule() { return "case = a parsed array of random elements (any kind and width, numbers at every boundary, payload sizes around every limit, NUL / invalid UTF-8 anywhere) in a data, pool, stream or file tree; every accessor, copy, allocation and index call applied to a random node (or the nil or missing node) with sizes around the actual one; non-trivial = every (node, accessor, argument); distinct by (element bytes, accessor, argument)"; }

static Bytes g_in; static Dec g_d; static Rng* Rr; static size_t g_nodes; static TMode g_mode; static size_t g_i; static int g_special; // 0 element, 1 missing, 2 nil node
static Tree* g_shared;
static void open_tree(Tree& t) {
    t.open(g_in, g_mode, -1, Rr->next(), 0, 0, g_nodes); bool ok = t.parse(false); HX_CHECK(ok, "node-parse", "parse failed: %s", errname(t.error()));
}
static mpack_node_t the_node(Tree& t) {
    mpack_node_t root = mpack_tree_root(&t.t);
    if (g_special == 1) return mpack_node_map_cstr_optional(mpack_node_array_at(root, 0), "no such key");
    return mpack_node_array_at(root, g_i);
}
enum { RIGHT = 1, SAFE = 2 };
template <class F> static void chk(const char* api, uint64_t arg, bool ok, mpack_error_t want, F f) {
    Tree fresh; Tree* t = g_shared; if (!ok) { open_tree(fresh); t = &fresh; }
    mpack_node_t n = the_node(*t);
    const char* kn = g_special == 1 ? "missing" : kname(g_d.ev[1].k);
    int res = f(n); mpack_error_t e = t->error();
    if (ok) { HX_CHECK(e == mpack_ok, "node-rejected", "%s(%llu) on a %s node flagged %s", api, (unsigned long long)arg, kn, errname(e)); HX_CHECK(res & RIGHT, "node-wrong-value", "%s(%llu) on a %s node returned the wrong value", api, (unsigned long long)arg, kn); count("accepted"); }
    else { HX_CHECK(e != mpack_ok, "node-accepted", "%s(%llu) on a %s node succeeded, expected %s", api, (unsigned long long)arg, kn, errname(want)); HX_CHECK(e == want, "node-error-kind", "%s(%llu) on a %s node flagged %s, expected %s", api, (unsigned long long)arg, kn, errname(e), errname(want));
        HX_CHECK(res & SAFE, "node-safe-value", "%s(%llu) on a %s node returned an unsafe value after %s", api, (unsigned long long)arg, kn, errname(e)); HX_CHECK(t->log.errors == 1 && t->log.first == want, "node-error-once", "%s: handler ran %d times", api, t->log.errors); count("rejected"); fresh.close(); }
    eval(); distinct(hash_bytes(g_in.data(), g_in.size(), mix((uint64_t)(uintptr_t)api, arg + g_i)));
}
static uint64_t near(Rng& r, uint64_t n, uint64_t max) {
    if (max > 0xffffffffu && r.chance(1, 12)) return (r.range(1, 4) << 32) + r.below(n + 2); // the low 32 bits alone are not the limit
    uint64_t v = r.chance(3, 4) ? n + r.range(0, 2) - 1 : r.chance(1, 2) ? n + r.below(50) : r.chance(1, 2) ? r.below(n + 1) : gen_u64(r);
    return v > max ? (r.chance(1, 2) ? max : v % (max + 1)) : v;
}
#define R(v, s) ((v) ? RIGHT : 0) | ((s) ? SAFE : 0)
#define NU(name, T, M) chk("node_" #name, 0, fits_u(e, 0, M), T_, [&](mpack_node_t n) { T v = mpack_node_##name(n); return R((uint64_t)v == e.u, v == 0); })
#define NS(name, T, LO, HI) chk("node_" #name, 0, fits_s(e, LO, HI), T_, [&](mpack_node_t n) { T v = mpack_node_##name(n); return R((int64_t)v == e.i(), v == 0); })
static bool same_text(const char* g, const uint8_t* p, size_t n) { return n == 0 || !memcmp(g, p, n); }

void prop_case(uint64_t idx, Rng& r) {
    (void)idx; Rr = &r; mpack_error_t T_ = mpack_error_type, B_ = mpack_error_too_big;
    for (int rep = 0; rep < 3; ++rep) {
        clear_notes(); V arr(K_ARR); GenOpt g; g.budget = 10; g.maxdepth = 3; g.ext = MPACK_EXTENSIONS;
        arr.c.push_back(V(K_MAP)); unsigned cnt = 2 + (unsigned)r.below(8);
        for (unsigned i = 0; i < cnt; ++i) {
            V v(K_NIL);
            switch (r.below(9)) {
                case 0: case 1: { v.k = K_UINT; v.u = gen_u64(r); if (r.chance(1, 2) && v.u) { uint64_t m = r.chance(1, 2) ? 0 - v.u : v.u; if ((int64_t)m < 0) { v.k = K_INT; v.u = m; } } break; }
                case 2: { static const uint64_t b[] = {0,0x7f,0x80,0xff,0x100,0x7fff,0x8000,0xffff,0x10000,0x7fffffff,0x80000000ull,0xffffffffull,0x100000000ull,0x7fffffffffffffffull,0x8000000000000000ull,0xffffffffffffffffull}; v.k = K_UINT; v.u = r.pick(b); if (r.chance(1, 2) && v.u) { uint64_t m = 0 - v.u - r.below(2); if ((int64_t)m < 0) { v.u = m; v.k = K_INT; } } break; }
                case 3: v.k = r.chance(1, 2) ? K_FLT : K_DBL; v.u = r.chance(1, 2) ? r.next() : r.chance(1, 2) ? bits_d((double)(int64_t)gen_u64(r)) : 0x47f0000000000000ull - r.below(3); if (v.k == K_FLT) v.u &= 0xffffffffu; break;
                case 4: case 5: v.k = K_STR; v.s = gen_str(r, r.chance(1, 20) ? r.below(5000) : gen_len(r, r.chance(1, 20)), (int)r.below(4)); if (v.s.size() && r.chance(1, 5)) v.s[r.chance(1, 2) ? v.s.size() - 1 : r.below(v.s.size())] = r.chance(1, 2) ? 0 : 0xC3; break;
                case 6: v.k = r.chance(1, 2) || !MPACK_EXTENSIONS ? K_BIN : K_EXT; v.et = (int8_t)r.next(); v.s = gen_str(r, gen_len(r, r.chance(1, 20)), 2); break;
                case 7: v.k = r.chance(1, 2) ? K_ARR : K_MAP; { unsigned n = (unsigned)r.below(6) * (v.k == K_MAP ? 2 : 1); GenOpt o; o.budget = 2; o.ext = MPACK_EXTENSIONS; while (n--) v.c.push_back(gen_scalar(r, o)); } break;
                default: v = gen_value(r, g);
            }
            arr.c.push_back(v);
        }
        g_in.clear(); enc(g_in, arr, ST_RANDOM, &r); g_nodes = node_count(arr); g_mode = (TMode)r.below(T_USABLE);
        Dec all = decode(g_in); note_hex("message", g_in); if (want_sample()) { char d[300]; describe(arr, d, sizeof d); sample("%s as %s tree", d, treename(g_mode)); }
        Tree shared; open_tree(shared); g_shared = &shared;
        for (int pick = 0; pick < 3; ++pick) {
            g_special = r.chance(1, 12) ? 1 : 0; g_i = 1 + r.below(cnt); size_t ei = 1; for (size_t k = 0; k < g_i; ++k) ei = all.ev[ei].next;
            // the chosen element is shown to the checks as g_d.ev[1]
            g_d.ev.clear(); g_d.ev.push_back(all.ev[0]); g_d.ev.push_back(all.ev[ei]); Ev e = all.ev[ei]; if (g_special) { e = Ev(); e.k = K_NONE; e.u = 0; e.n = 0; }
            note("node %zu (%s)", g_i, g_special ? "missing" : kname(e.k));
            const uint8_t* p = g_special ? g_in.data() : g_in.data() + e.pay(); uint32_t n = e.n;
            bool isstr = e.k == K_STR, isbin = e.k == K_BIN, isext = e.k == K_EXT, data = isstr || isbin || isext;
            bool utf = isstr && ref_utf8(p, n, true), utfn = isstr && ref_utf8(p, n, false), nul = isstr && n && memchr(p, 0, n);
            NU(u8, uint8_t, 0xff); NU(u16, uint16_t, 0xffff); NU(u32, uint32_t, 0xffffffffull); NU(u64, uint64_t, UINT64_MAX); NU(uint, unsigned, 0xffffffffull);
            NS(i8, int8_t, -128, 127); NS(i16, int16_t, -32768, 32767); NS(i32, int32_t, -2147483648ll, 2147483647ll); NS(i64, int64_t, INT64_MIN, INT64_MAX); NS(int, int, -2147483648ll, 2147483647ll);
            chk("node_nil", 0, e.k == K_NIL, T_, [&](mpack_node_t x) { mpack_node_nil(x); return R(true, true); });
            chk("node_missing", 0, g_special == 1, T_, [&](mpack_node_t x) { mpack_node_missing(x); return R(true, true); });
            chk("node_is", 0, true, T_, [&](mpack_node_t x) { return R(mpack_node_is_nil(x) == (e.k == K_NIL) && mpack_node_is_missing(x) == (g_special == 1) && mpack_node_type(x) == (g_special ? mpack_type_missing : ev_type(e)), true); });
            if (!g_special) chk("node_tag", 0, true, T_, [&](mpack_node_t x) { return R(same_tag(mpack_node_tag(x), ev_tag(e)), true); });
            chk("node_bool", 0, e.k == K_BOOL, T_, [&](mpack_node_t x) { bool v = mpack_node_bool(x); return R(v == (e.u != 0), !v); });
            chk("node_true", 0, e.k == K_BOOL && e.u, T_, [&](mpack_node_t x) { mpack_node_true(x); return R(true, true); });
            chk("node_false", 0, e.k == K_BOOL && !e.u, T_, [&](mpack_node_t x) { mpack_node_false(x); return R(true, true); });
#if MPACK_FLOAT
            { float w = 0; bool ok = want_float(e, &w); chk("node_float", 0, ok, T_, [&](mpack_node_t x) { float f = mpack_node_float(x); return R(same_flt(f, w), bits_f(f) == 0); });
              chk("node_float_strict", 0, e.k == K_FLT, T_, [&](mpack_node_t x) { float f = mpack_node_float_strict(x); return R(abi_flt(bits_f(f)) == abi_flt(e.u), bits_f(f) == 0); }); }
#else
            chk("node_raw_float", 0, e.k == K_FLT, T_, [&](mpack_node_t x) { uint32_t f = mpack_node_raw_float(x); return R(f == e.u, f == 0); });
#endif
#if MPACK_DOUBLE
            { double w = 0; bool ok = want_double(e, &w); chk("node_double", 0, ok, T_, [&](mpack_node_t x) { double f = mpack_node_double(x); return R(e.k == K_DBL ? abi_dbl(bits_d(f)) == abi_dbl(e.u) : same_dbl(f, w), bits_d(f) == 0); });
              chk("node_double_strict", 0, e.k == K_FLT || e.k == K_DBL, T_, [&](mpack_node_t x) { double f = mpack_node_double_strict(x); return R(e.k == K_DBL ? abi_dbl(bits_d(f)) == abi_dbl(e.u) : same_dbl(f, w), bits_d(f) == 0); }); }
#else
            chk("node_raw_double", 0, e.k == K_DBL, T_, [&](mpack_node_t x) { uint64_t f = mpack_node_raw_double(x); return R(f == e.u, f == 0); });
#endif
            chk("node_data_len", 0, data, T_, [&](mpack_node_t x) { uint32_t v = mpack_node_data_len(x); return R(v == n, v == 0); });
            chk("node_strlen", 0, isstr, T_, [&](mpack_node_t x) { size_t v = mpack_node_strlen(x); return R(v == n, v == 0); });
            chk("node_bin_size", 0, isbin, T_, [&](mpack_node_t x) { size_t v = mpack_node_bin_size(x); return R(v == n, v == 0); });
            chk("node_data", 0, data, T_, [&](mpack_node_t x) { const char* v = mpack_node_data(x); return R(v && same_text(v, p, n), !v); });
            chk("node_str", 0, isstr, T_, [&](mpack_node_t x) { const char* v = mpack_node_str(x); return R(v && same_text(v, p, n), !v); });
            chk("node_bin_data", 0, isbin, T_, [&](mpack_node_t x) { const char* v = mpack_node_bin_data(x); return R(v && same_text(v, p, n), !v); });
#if MPACK_EXTENSIONS
            chk("node_exttype", 0, isext, T_, [&](mpack_node_t x) { int8_t v = mpack_node_exttype(x); return R(v == e.et, v == 0); });
#endif
            chk("node_check_utf8", 0, utf, T_, [&](mpack_node_t x) { mpack_node_check_utf8(x); return R(true, true); });
            chk("node_check_utf8_cstr", 0, utfn, T_, [&](mpack_node_t x) { mpack_node_check_utf8_cstr(x); return R(true, true); });
            for (int k = 0; k < 2; ++k) {
                size_t m = (size_t)near(r, n, 70000); Guard b(m);
                chk("node_copy_data", m, data && n <= m, data ? B_ : T_, [&](mpack_node_t x) { size_t v = mpack_node_copy_data(x, b.p, m); return R(v == n && same_text(b.p, p, n), v == 0); });
                m = (size_t)near(r, n, 70000); Guard b2(m);
                chk("node_copy_utf8", m, isstr && n <= m && utf, isstr && n > m ? B_ : T_, [&](mpack_node_t x) { size_t v = mpack_node_copy_utf8(x, b2.p, m); return R(v == n && same_text(b2.p, p, n), v == 0); });
                m = (size_t)near(r, (uint64_t)n + 1, 70000); if (!m) m = 1; Guard b3(m);
                chk("node_copy_cstr", m, isstr && (size_t)n + 1 <= m && !nul, isstr && (size_t)n + 1 > m ? B_ : T_, [&](mpack_node_t x) { mpack_node_copy_cstr(x, b3.p, m); return R(strnlen(b3.p, m) == n && same_text(b3.p, p, n), b3.p[0] == 0); });
                m = (size_t)near(r, (uint64_t)n + 1, 70000); if (!m) m = 1; Guard b4(m);
                chk("node_copy_utf8_cstr", m, isstr && (size_t)n + 1 <= m && utfn, isstr && (size_t)n + 1 > m ? B_ : T_, [&](mpack_node_t x) { mpack_node_copy_utf8_cstr(x, b4.p, m); return R(strnlen(b4.p, m) == n && same_text(b4.p, p, n), b4.p[0] == 0); });
                m = (size_t)near(r, n, SIZE_MAX);
                chk("node_data_alloc", m, data && n <= m, data ? B_ : T_, [&](mpack_node_t x) { char* v = mpack_node_data_alloc(x, m); int q = R(v && same_text(v, p, n), !v); hx_free(v); return q; });
                m = (size_t)near(r, (uint64_t)n + 1, SIZE_MAX); if (!m) m = 1;
                chk("node_cstr_alloc", m, isstr && n <= m - 1 && !nul, isstr && n > m - 1 ? B_ : T_, [&](mpack_node_t x) { char* v = mpack_node_cstr_alloc(x, m); int q = R(v && strlen(v) == n && same_text(v, p, n), !v); hx_free(v); return q; });
                m = (size_t)near(r, (uint64_t)n + 1, SIZE_MAX); if (!m) m = 1;
                chk("node_utf8_cstr_alloc", m, isstr && n <= m - 1 && utfn, isstr && n > m - 1 ? B_ : T_, [&](mpack_node_t x) { char* v = mpack_node_utf8_cstr_alloc(x, m); int q = R(v && strlen(v) == n && same_text(v, p, n), !v); hx_free(v); return q; });
            }
            // --- indexing
            chk("node_array_length", 0, e.k == K_ARR, T_, [&](mpack_node_t x) { size_t v = mpack_node_array_length(x); return R(v == n, v == 0); });
            chk("node_map_count", 0, e.k == K_MAP, T_, [&](mpack_node_t x) { size_t v = mpack_node_map_count(x); return R(v == n, v == 0); });
            for (int k = 0; k < 3; ++k) {
                size_t ix = (size_t)near(r, n ? n - 1 : 0, SIZE_MAX); if (r.chance(1, 2) && n) ix = r.below(n); bool in = ix < n; int which = (int)r.below(3);
                size_t child = ei + 1; if (!g_special && in && (e.k == K_ARR || e.k == K_MAP)) { size_t steps = e.k == K_ARR ? ix : ix * 2 + (which == 2); for (size_t q = 0; q < steps; ++q) child = all.ev[child].next; }
                auto isnode = [&](mpack_node_t got) { if (child >= all.ev.size()) return 0; const Ev& c = all.ev[child]; bool same = mpack_node_type(got) == ev_type(c) && same_tag(mpack_node_tag(got), ev_tag(c)); if (same && (c.k == K_STR || c.k == K_BIN || c.k == K_EXT)) same = same_text(mpack_node_data(got), g_in.data() + c.pay(), c.n); return R(same, mpack_node_is_nil(got)); };
                if (which == 0) chk("node_array_at", ix, e.k == K_ARR && in, e.k == K_ARR ? mpack_error_data : T_, [&](mpack_node_t x) { mpack_node_t c = mpack_node_array_at(x, ix); return mpack_node_error(c) ? R(false, mpack_node_is_nil(c) && mpack_node_type(c) == mpack_type_nil) : isnode(c); });
                else chk(which == 1 ? "node_map_key_at" : "node_map_value_at", ix, e.k == K_MAP && in, e.k == K_MAP ? mpack_error_data : T_, [&](mpack_node_t x) { mpack_node_t c = which == 1 ? mpack_node_map_key_at(x, ix) : mpack_node_map_value_at(x, ix); return mpack_node_error(c) ? R(false, mpack_node_is_nil(c)) : isnode(c); });
            }
        }
        shared.close();
    }
}
