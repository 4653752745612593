// C22: element equality and ordering are a consistent total order on encoded meaning.
#include "hx_num.hpp"
#include "hx_tree.hpp"
using namespace hx;
const char* prop_rule() { return "case = a set of elements (all types, values at every boundary and at distance one, the same number as signed / unsigned / float / length / count, +-0, NaNs, ext types) obtained from constructors, read_tag, peek_tag and node_tag in every encoding width; all pairs and all triples compared; non-trivial = every ordered pair of elements; distinct by pair of values"; }

struct El { Ev e; mpack_tag_t t; const char* src; };
static mpack_tag_t made(const Ev& e, Rng& r) {
    bool dep = r.chance(1, 3); (void)dep;
    switch (e.k) {
        case K_NIL: return dep ? mpack_tag_nil() : mpack_tag_make_nil();
        case K_BOOL: if (r.chance(1, 2)) return e.u ? (dep ? mpack_tag_true() : mpack_tag_make_true()) : (dep ? mpack_tag_false() : mpack_tag_make_false()); return dep ? mpack_tag_bool(e.u != 0) : mpack_tag_make_bool(e.u != 0);
        case K_UINT: if (e.swire) return dep ? mpack_tag_int((int64_t)e.u) : mpack_tag_make_int((int64_t)e.u); return dep ? mpack_tag_uint(e.u) : mpack_tag_make_uint(e.u);
        case K_INT: return dep ? mpack_tag_int(e.i()) : mpack_tag_make_int(e.i());
        case K_ARR: return dep ? mpack_tag_array((int32_t)e.n) : mpack_tag_make_array(e.n);
        case K_MAP: return dep ? mpack_tag_map((int32_t)e.n) : mpack_tag_make_map(e.n);
        case K_STR: return dep ? mpack_tag_str((int32_t)e.n) : mpack_tag_make_str(e.n);
        case K_BIN: return dep ? mpack_tag_bin((int32_t)e.n) : mpack_tag_make_bin(e.n);
#if MPACK_EXTENSIONS
        case K_EXT: return dep ? mpack_tag_ext(e.et, (int32_t)e.n) : mpack_tag_make_ext(e.et, e.n);
#endif
#if MPACK_FLOAT
        case K_FLT: if (dep) return mpack_tag_float(flt_of(e.u)); break;
#endif
#if MPACK_DOUBLE
        case K_DBL: if (dep) return mpack_tag_double(dbl_of(e.u)); break;
#endif
        default: break;
    }
    return ev_tag(e);
}
static bool ref_equal(const Ev& a, const Ev& b) {
    if (a.k != b.k) return false;
    switch (a.k) {
        case K_NIL: case K_NONE: return true;
        case K_BOOL: case K_UINT: case K_INT: case K_FLT: case K_DBL: return a.u == b.u;
        case K_EXT: return a.n == b.n && a.et == b.et;
        default: return a.n == b.n;
    }
}
static void accessors(const El& x) {
    mpack_tag_t t = x.t; const Ev& e = x.e; bool ok = true;
    mpack_type_t ty = mpack_tag_type(&t);
    if (e.k == K_NONE) ok = ty == mpack_type_missing;
    else if (e.k == K_UINT && ty == mpack_type_int) ok = e.i() >= 0 && mpack_tag_int_value(&t) == e.i();
    else if (ty != ev_type(e)) ok = false;
    else switch (e.k) {
        case K_BOOL: ok = mpack_tag_bool_value(&t) == (e.u != 0); break;
        case K_UINT: ok = mpack_tag_uint_value(&t) == e.u; break;
        case K_INT: ok = mpack_tag_int_value(&t) == e.i(); break;
        case K_ARR: ok = mpack_tag_array_count(&t) == e.n; break;
        case K_MAP: ok = mpack_tag_map_count(&t) == e.n; break;
        case K_STR: ok = mpack_tag_str_length(&t) == e.n && mpack_tag_bytes(&t) == e.n; break;
        case K_BIN: ok = mpack_tag_bin_length(&t) == e.n && mpack_tag_bytes(&t) == e.n; break;
#if MPACK_EXTENSIONS
        case K_EXT: ok = mpack_tag_ext_length(&t) == e.n && mpack_tag_bytes(&t) == e.n && mpack_tag_ext_exttype(&t) == e.et; break;
#endif
#if MPACK_FLOAT
        case K_FLT: ok = abi_flt(bits_f(mpack_tag_float_value(&t))) == abi_flt(e.u); break;
#else
        case K_FLT: ok = mpack_tag_raw_float_value(&t) == e.u; break;
#endif
#if MPACK_DOUBLE
        case K_DBL: ok = abi_dbl(bits_d(mpack_tag_double_value(&t))) == abi_dbl(e.u); break;
#else
        case K_DBL: ok = mpack_tag_raw_double_value(&t) == e.u; break;
#endif
        default: break;
    }
    HX_CHECK(ok, "tag-accessor", "%s of %s (value %llu, length %u): accessors or type %s disagree", x.src, kname(e.k), (unsigned long long)e.u, e.n, typname(ty));
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
void prop_case(uint64_t idx, Rng& r) {
    (void)idx;
    for (int rep = 0; rep < 6; ++rep) {
        clear_notes(); std::vector<El> set; unsigned n = 6 + (unsigned)r.below(12); std::vector<uint64_t> base; for (int i = 0; i < 3; ++i) base.push_back(gen_u64(r));
        for (unsigned i = 0; i < n; ++i) {
            V v(K_NIL); uint64_t u = base[r.below(3)]; if (r.chance(1, 3)) u += r.range(0, 2) - 1; if (r.chance(1, 8)) u ^= 1ull << r.below(64); if (r.chance(1, 6)) u = gen_u64(r);
            int kd = (int)r.below(13); uint32_t cnt = (uint32_t)u;
            switch (kd) {
                case 0: break; case 1: v.k = K_BOOL; v.u = r.below(2); break;
                case 2: case 3: case 4: v.k = K_UINT; v.u = u; break;
                case 5: case 6: v.u = r.chance(1, 2) ? u : 0 - u; v.k = (int64_t)v.u < 0 ? K_INT : K_UINT; break;
                case 7: v.k = K_FLT; v.u = r.chance(1, 4) ? (r.chance(1, 2) ? 0 : 0x80000000u) : r.chance(1, 3) ? 0x7fc00000u + r.below(4) : (uint32_t)u; v.u = abi_flt(v.u); break;
                case 8: v.k = K_DBL; v.u = r.chance(1, 4) ? (r.chance(1, 2) ? 0 : 1ull << 63) : r.chance(1, 3) ? 0x7ff8000000000000ull + r.below(4) : u; v.u = abi_dbl(v.u); break;
                default: break;
            }
            Ev e; memset(&e, 0, sizeof e); e.k = v.k; e.u = v.u; const char* src; mpack_tag_t t;
            if (kd >= 9) { static const K ks[] = {K_STR, K_BIN, K_ARR, K_MAP, K_EXT}; e.k = ks[r.below(MPACK_EXTENSIONS ? 5 : 4)]; e.n = r.chance(1, 2) ? cnt : (uint32_t)r.below(3); e.et = r.chance(1, 2) ? (int8_t)r.next() : r.chance(1, 2) ? 127 : (int8_t)(r.below(2) ? -128 : 1); if (e.k != K_EXT) e.et = 0; v.k = e.k; v.et = e.et; }
            if (r.chance(1, 30)) { e.k = K_NONE; e.u = 0; e.n = 0; t = MPACK_TAG_ZERO; src = "zero tag"; }
            else {
                int how = (int)r.below(4);
                if (how == 0) { if (e.k == K_UINT && (int64_t)e.u >= 0) e.swire = r.chance(1, 2); t = made(e, r); src = "constructed"; }
                else { // decoded from some encoding
                    Bytes b; enc_head(b, v, e.n, ST_RANDOM, &r); Guard g(b);
                    bool scalar = e.k < K_STR; Bytes full = b; if (!scalar && e.n <= 20) { size_t k = e.k == K_ARR ? e.n : e.k == K_MAP ? 2 * e.n : e.n; for (size_t q = 0; q < k; ++q) full.push_back(1); }
                    if (how == 3 && (scalar || e.n <= 20)) { Guard fg(full); Tree tr; tr.open(full, T_DATA, 0, 1); HX_CHECK(tr.parse(false), "tag-parse", "parse failed: %s", errname(tr.error())); t = mpack_node_tag(mpack_tree_root(&tr.t)); src = "node_tag"; tr.close(); }
                    else { mpack_reader_t rd; mpack_reader_init_data(&rd, g.p, g.n); t = how == 1 ? mpack_peek_tag(&rd) : mpack_read_tag(&rd); HX_CHECK(mpack_reader_error(&rd) == mpack_ok, "tag-read", "header rejected: %s", errname(mpack_reader_error(&rd))); src = how == 1 ? "peek_tag" : "read_tag"; mpack_reader_flag_error(&rd, mpack_error_data); mpack_reader_destroy(&rd); }
                }
            }
            El x; x.e = e; x.t = t; x.src = src; accessors(x); set.push_back(x);
            note("%u: %s %s u=%llx n=%u et=%d", i, src, kname(e.k), (unsigned long long)e.u, e.n, e.et);
        }
        if (want_sample()) sample("%u elements, first %s u=%llx n=%u", n, kname(set[0].e.k), (unsigned long long)set[0].e.u, set[0].e.n);
        std::vector<int> c(n * n);
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
            int x = sgn(mpack_tag_cmp(set[i].t, set[j].t)); c[i * n + j] = x; bool eq = mpack_tag_equal(set[i].t, set[j].t), want = ref_equal(set[i].e, set[j].e);
            HX_CHECK(eq == want, "tag-equal", "elements %u and %u: equal() says %d", i, j, eq); HX_CHECK((x == 0) == want, "tag-cmp-equal", "elements %u and %u: cmp() says %d, equal %d", i, j, x, want);
            count(want ? "equal_pairs" : "unequal_pairs"); eval(); distinct(mix(mix(set[i].e.u * 16 + set[i].e.k, set[i].e.n * 256ull + (uint8_t)set[i].e.et), mix(set[j].e.u * 16 + set[j].e.k, set[j].e.n * 256ull + (uint8_t)set[j].e.et)));
        }
        for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) {
            HX_CHECK(c[i * n + j] == -c[j * n + i], "tag-antisymmetry", "cmp(%u,%u)=%d but cmp(%u,%u)=%d", i, j, c[i * n + j], j, i, c[j * n + i]);
            for (unsigned k = 0; k < n; ++k) { if (c[i * n + j] <= 0 && c[j * n + k] <= 0) HX_CHECK(c[i * n + k] <= 0 && (c[i * n + k] == 0) == (c[i * n + j] == 0 && c[j * n + k] == 0), "tag-transitivity", "cmp(%u,%u)=%d cmp(%u,%u)=%d cmp(%u,%u)=%d", i, j, c[i * n + j], j, k, c[j * n + k], i, k, c[i * n + k]); }
        }
        count("triples", (uint64_t)n * n * n);
    }
}
