// Random single operations over the whole reader/expect, node and writer API.
// Each op uses exactly sized red-zoned buffers and checks the documented value
// that must come back when the object is in an error state afterwards.
#pragma once
#include "hx_src.hpp"

#include "hx_tree.hpp"
#include "hx_sink.hpp"
#include <math.h>

namespace hx {

static const char* const OPS_KEYS[] = {"a", "id", "key", "name", "value", "", "a longer key that is not a fixstr at all!", "\xc3\xa9"};
enum { OPS_NKEYS = 8 };

struct OpStat { const char* name; };

// sizes near each other and near the sizes gen_value likes
static inline size_t ops_len(Rng& r) {
    switch (r.below(8)) { case 0: return 0; case 1: return 1; case 2: return r.below(8); case 3: return r.below(40); case 4: return r.below(300); case 5: return 31 + r.below(3); case 6: return r.below(5000); default: return r.below(20); }
}
static inline mpack_tag_t ops_tag(Rng& r) {
    switch (r.below(9)) {
        case 0: return mpack_tag_make_nil(); case 1: return mpack_tag_make_bool(r.chance(1, 2)); case 2: return mpack_tag_make_int((int64_t)r.next());
        case 3: return mpack_tag_make_uint(r.below(300)); case 4: return mpack_tag_make_str((uint32_t)ops_len(r)); case 5: return mpack_tag_make_bin((uint32_t)ops_len(r));
        case 6: return mpack_tag_make_array((uint32_t)r.below(20)); case 7: return mpack_tag_make_map((uint32_t)r.below(20));
        default: return mpack_tag_make_uint(r.next());
    }
}

#if MPACK_DEBUG && MPACK_STDIO && MPACK_NODE
// Printing recurses once per level (a recorded finding of C26): whether a node is nested too deeply to print here.
static inline bool ops_deep(mpack_node_t node) {
    if (mpack_node_error(node) != mpack_ok) return false;
    struct At { mpack_node_t n; size_t i, total; }; std::vector<At> st; At a = {node, 0, 0};
    mpack_type_t y = mpack_node_type(node); a.total = y == mpack_type_array ? mpack_node_array_length(node) : y == mpack_type_map ? 2 * mpack_node_map_count(node) : 0; st.push_back(a);
    for (size_t seen = 0; !st.empty(); ) {
        if (st.size() > 300 || seen > 300000) return true;
        At& top = st.back(); if (top.i == top.total) { st.pop_back(); continue; }
        size_t i = top.i++; ++seen; mpack_node_t c = mpack_node_type(top.n) == mpack_type_array ? mpack_node_array_at(top.n, i) : i % 2 ? mpack_node_map_value_at(top.n, i / 2) : mpack_node_map_key_at(top.n, i / 2);
        y = mpack_node_type(c); At b = {c, 0, y == mpack_type_array ? mpack_node_array_length(c) : y == mpack_type_map ? 2 * mpack_node_map_count(c) : 0}; if (b.total) st.push_back(b);
    }
    return false;
}
#endif

// In builds with read tracking only self-contained calls may be mixed freely.
#if MPACK_READ_TRACKING
#define HX_TRACKED 1
#else
#define HX_TRACKED 0
#endif
static inline bool ops_tracked_release() {
#if MPACK_READ_TRACKING
    return true;
#else
    return false;
#endif
}

#define OPS_SAFE(c) do { if (mpack_reader_error(rd) != mpack_ok) { ++checked; HX_CHECK(c, "ops:safe-value", "%s: reader is in error %s but the call returned something else than its safe value (%s)", nm, errname(mpack_reader_error(rd)), #c); } } while (0)

enum { READER_OPS = 104 };
// performs one op; returns its name. free_ops: any call is allowed (no tracking, or already in error)
static inline const char* reader_op(mpack_reader_t* rd, Rng& r, bool free_ops, uint64_t& checked, uint64_t big_alloc = 70000) {
    const char* nm = "?";
    // the first 56 are self-contained elements
    uint64_t op = r.below(free_ops ? READER_OPS : 62);
#if !MPACK_EXTENSIONS
    if (op == 30 || op == 31 || op == 44 || op == 70 || op == 71 || op == 72 || op == 73) op = 0;
#endif
    switch (op) {
#define OPN(i, fn, T) case i: { nm = #fn; T v = fn(rd); OPS_SAFE(v == 0); break; }
    OPN(0, mpack_expect_u8, uint8_t) OPN(1, mpack_expect_u16, uint16_t) OPN(2, mpack_expect_u32, uint32_t) OPN(3, mpack_expect_u64, uint64_t)
    OPN(4, mpack_expect_i8, int8_t) OPN(5, mpack_expect_i16, int16_t) OPN(6, mpack_expect_i32, int32_t) OPN(7, mpack_expect_i64, int64_t)
    OPN(8, mpack_expect_uint, unsigned) OPN(9, mpack_expect_int, int)
#if MPACK_FLOAT
    OPN(10, mpack_expect_float, float) OPN(11, mpack_expect_float_strict, float)
#else
    OPN(10, mpack_expect_raw_float, uint32_t) OPN(11, mpack_expect_raw_float, uint32_t)
#endif
#if MPACK_DOUBLE
    OPN(12, mpack_expect_double, double) OPN(13, mpack_expect_double_strict, double)
#else
    OPN(12, mpack_expect_raw_double, uint64_t) OPN(13, mpack_expect_raw_double, uint64_t)
#endif
#define OPR(i, fn, T) case i: { nm = #fn; T a = (T)r.next(), b = (T)r.next(); if (a > b) { T t = a; a = b; b = t; } T v = fn(rd, a, b); OPS_SAFE(v == a); break; }
    OPR(14, mpack_expect_u8_range, uint8_t) OPR(15, mpack_expect_u16_range, uint16_t) OPR(16, mpack_expect_u32_range, uint32_t) OPR(17, mpack_expect_u64_range, uint64_t)
    OPR(18, mpack_expect_i8_range, int8_t) OPR(19, mpack_expect_i16_range, int16_t) OPR(20, mpack_expect_i32_range, int32_t) OPR(21, mpack_expect_i64_range, int64_t)
    OPR(22, mpack_expect_uint_range, unsigned) OPR(23, mpack_expect_int_range, int)
#if MPACK_FLOAT
    case 24: { nm = "mpack_expect_float_range"; float a = -(float)r.below(100), b = (float)r.below(70000); float v = mpack_expect_float_range(rd, a, b); OPS_SAFE(v == a); break; }
#endif
#if MPACK_DOUBLE
    case 25: { nm = "mpack_expect_double_range"; double a = -(double)r.below(100), b = (double)r.below(70000); double v = mpack_expect_double_range(rd, a, b); OPS_SAFE(v == a); break; }
#endif
#define OPM(i, fn, T) case i: { nm = #fn; T m = (T)(r.next() >> 1); if (m < 0) m = 0; T v = fn(rd, m); OPS_SAFE(v == 0); break; }
    case 26: { switch (r.below(10)) {
        default: nm = "mpack_expect_u8_max"; { uint8_t v = mpack_expect_u8_max(rd, (uint8_t)r.next()); OPS_SAFE(v == 0); } break;
        case 1: nm = "mpack_expect_u16_max"; { uint16_t v = mpack_expect_u16_max(rd, (uint16_t)r.next()); OPS_SAFE(v == 0); } break;
        case 2: nm = "mpack_expect_u32_max"; { uint32_t v = mpack_expect_u32_max(rd, (uint32_t)r.next()); OPS_SAFE(v == 0); } break;
        case 3: nm = "mpack_expect_u64_max"; { uint64_t v = mpack_expect_u64_max(rd, r.next()); OPS_SAFE(v == 0); } break;
        case 4: nm = "mpack_expect_i8_max"; { int8_t v = mpack_expect_i8_max(rd, (int8_t)(r.next() & 0x7f)); OPS_SAFE(v == 0); } break;
        case 5: nm = "mpack_expect_i16_max"; { int16_t v = mpack_expect_i16_max(rd, (int16_t)(r.next() & 0x7fff)); OPS_SAFE(v == 0); } break;
        case 6: nm = "mpack_expect_i32_max"; { int32_t v = mpack_expect_i32_max(rd, (int32_t)(r.next() & 0x7fffffff)); OPS_SAFE(v == 0); } break;
        case 7: nm = "mpack_expect_i64_max"; { int64_t v = mpack_expect_i64_max(rd, (int64_t)(r.next() >> 1)); OPS_SAFE(v == 0); } break;
        case 8: nm = "mpack_expect_uint_max"; { unsigned v = mpack_expect_uint_max(rd, (unsigned)r.next()); OPS_SAFE(v == 0); } break;
        case 9: nm = "mpack_expect_int_max"; { int v = mpack_expect_int_max(rd, (int)(r.next() & 0x7fffffff)); OPS_SAFE(v == 0); } break;
        } break; }
    case 27: nm = "mpack_expect_nil"; mpack_expect_nil(rd); break;
    case 28: { nm = "mpack_expect_bool"; bool v = mpack_expect_bool(rd); OPS_SAFE(v == false); break; }
    case 29: if (r.chance(1, 2)) { nm = "mpack_expect_true"; mpack_expect_true(rd); } else { nm = "mpack_expect_false"; mpack_expect_false(rd); } break;
#if MPACK_EXTENSIONS
    case 30: { nm = "mpack_expect_timestamp"; mpack_timestamp_t t = mpack_expect_timestamp(rd); OPS_SAFE(t.seconds == 0 && t.nanoseconds == 0); break; }
    case 31: { nm = "mpack_expect_timestamp_truncate"; int64_t t = mpack_expect_timestamp_truncate(rd); OPS_SAFE(t == 0); break; }
#endif
    case 32: { nm = "mpack_expect_uint_match"; mpack_expect_uint_match(rd, r.below(200)); break; }
    case 33: { nm = "mpack_expect_int_match"; mpack_expect_int_match(rd, (int64_t)r.below(200) - 100); break; }
    case 34: { nm = "mpack_expect_str_buf"; Guard g(ops_len(r)); size_t n = mpack_expect_str_buf(rd, g.p, g.n); OPS_SAFE(n == 0); HX_CHECK(n <= g.n, "ops:length", "%s returned %zu for a buffer of %zu", nm, n, g.n); break; }
    case 35: { nm = "mpack_expect_utf8"; Guard g(ops_len(r)); size_t n = mpack_expect_utf8(rd, g.p, g.n); OPS_SAFE(n == 0); HX_CHECK(n <= g.n, "ops:length", "%s returned %zu for a buffer of %zu", nm, n, g.n); break; }
    case 36: { nm = "mpack_expect_bin_buf"; Guard g(ops_len(r)); size_t n = mpack_expect_bin_buf(rd, g.p, g.n); OPS_SAFE(n == 0); HX_CHECK(n <= g.n, "ops:length", "%s returned %zu for a buffer of %zu", nm, n, g.n); break; }
    case 37: { nm = "mpack_expect_bin_size_buf"; Guard g(ops_len(r)); mpack_expect_bin_size_buf(rd, g.p, (uint32_t)g.n); break; }
    case 38: { nm = "mpack_expect_cstr"; Guard g(1 + ops_len(r)); mpack_expect_cstr(rd, g.p, g.n); OPS_SAFE(g.p[0] == 0); HX_CHECK(memchr(g.p, 0, g.n), "ops:unterminated", "%s left an unterminated string", nm); break; }
    case 39: { nm = "mpack_expect_utf8_cstr"; Guard g(1 + ops_len(r)); mpack_expect_utf8_cstr(rd, g.p, g.n); OPS_SAFE(g.p[0] == 0); HX_CHECK(memchr(g.p, 0, g.n), "ops:unterminated", "%s left an unterminated string", nm); break; }
    case 40: { nm = "mpack_expect_cstr_alloc"; char* p = mpack_expect_cstr_alloc(rd, 1 + (r.chance(1, 3) ? big_alloc : ops_len(r))); OPS_SAFE(p == NULL); if (p) { volatile size_t l = strlen(p); (void)l; } MPACK_FREE(p); break; }
    case 41: { nm = "mpack_expect_utf8_cstr_alloc"; char* p = mpack_expect_utf8_cstr_alloc(rd, 1 + (r.chance(1, 3) ? big_alloc : ops_len(r))); OPS_SAFE(p == NULL); if (p) { volatile size_t l = strlen(p); (void)l; } MPACK_FREE(p); break; }
    case 42: { nm = "mpack_expect_bin_alloc"; size_t n = 77; char* p = mpack_expect_bin_alloc(rd, r.chance(1, 3) ? big_alloc : ops_len(r), &n); OPS_SAFE(p == NULL && n == 0); if (p) { Bytes c((uint8_t*)p, (uint8_t*)p + n); } MPACK_FREE(p); break; }
    case 43: { nm = "mpack_expect_str_match"; size_t n = ops_len(r) % 40; Guard g(n, 'a'); mpack_expect_str_match(rd, g.p, n); break; }
#if MPACK_EXTENSIONS
    case 44: { nm = "mpack_expect_ext_alloc"; size_t n = 77; int8_t t = 77; char* p = mpack_expect_ext_alloc(rd, &t, r.chance(1, 3) ? big_alloc : ops_len(r), &n); OPS_SAFE(p == NULL && n == 0 && t == 0); if (p) { Bytes c((uint8_t*)p, (uint8_t*)p + n); } MPACK_FREE(p); break; }
#endif
    case 45: { nm = "mpack_expect_cstr_match"; mpack_expect_cstr_match(rd, OPS_KEYS[r.below(OPS_NKEYS)]); break; }
    case 46: { nm = "mpack_expect_enum"; size_t n = 1 + r.below(OPS_NKEYS); const char* k[OPS_NKEYS]; memcpy(k, OPS_KEYS, sizeof k); size_t v = mpack_expect_enum(rd, k, n); OPS_SAFE(v == n); HX_CHECK(v <= n, "ops:enum", "%s returned %zu of %zu", nm, v, n); break; }
    case 47: { nm = "mpack_expect_enum_optional"; size_t n = 1 + r.below(OPS_NKEYS); const char* k[OPS_NKEYS]; memcpy(k, OPS_KEYS, sizeof k); size_t v = mpack_expect_enum_optional(rd, k, n); OPS_SAFE(v == n); HX_CHECK(v <= n, "ops:enum", "%s returned %zu of %zu", nm, v, n); break; }
    case 48: { nm = "mpack_expect_key_cstr"; size_t n = 1 + r.below(OPS_NKEYS); const char* k[OPS_NKEYS]; memcpy(k, OPS_KEYS, sizeof k); bool f[OPS_NKEYS]; unsigned m = (unsigned)r.next() & (unsigned)r.next(); for (int i = 0; i < OPS_NKEYS; ++i) f[i] = (m >> i) & 1; bool was = mpack_reader_error(rd) != mpack_ok; bool f0[OPS_NKEYS]; memcpy(f0, f, sizeof f); size_t v = mpack_expect_key_cstr(rd, k, f, n); OPS_SAFE(v == n); HX_CHECK(v <= n, "ops:enum", "%s returned %zu of %zu", nm, v, n); HX_CHECK(!was || !memcmp(f0, f, sizeof f), "ops:found-changed", "%s changed found[] in an error state", nm); break; }
    case 49: { nm = "mpack_expect_key_uint"; size_t n = 1 + r.below(40); bool f[40]; uint64_t m = r.next() & r.next(); for (int i = 0; i < 40; ++i) f[i] = (m >> i) & 1; bool was = mpack_reader_error(rd) != mpack_ok; bool f0[40]; memcpy(f0, f, sizeof f); size_t v = mpack_expect_key_uint(rd, f, n); OPS_SAFE(v == n); HX_CHECK(v <= n, "ops:enum", "%s returned %zu of %zu", nm, v, n); HX_CHECK(!was || !memcmp(f0, f, sizeof f), "ops:found-changed", "%s changed found[] in an error state", nm); break; }
    case 50: case 51: case 52: nm = "mpack_discard"; mpack_discard(rd); break;
    case 53: case 54: { nm = "mpack_peek_tag"; mpack_tag_t t = mpack_peek_tag(rd); OPS_SAFE(mpack_tag_type(&t) == mpack_type_nil); break; }
#if MPACK_EXTENSIONS
    case 55: { nm = "mpack_expect_ext_buf"; Guard g(ops_len(r)); int8_t t = 77; size_t n = mpack_expect_ext_buf(rd, &t, g.p, g.n); OPS_SAFE(n == 0 && t == 0); HX_CHECK(n <= g.n, "ops:length", "%s returned %zu for a buffer of %zu", nm, n, g.n); break; }
#endif
    case 56: { nm = "mpack_reader_remaining"; const char* p = 0; if (HX_TRACKED && mpack_reader_error(rd) == mpack_ok && !free_ops) break; size_t n = mpack_reader_remaining(rd, &p); OPS_SAFE(n == 0); if (n) { volatile char c = p[n - 1]; (void)c; } break; }
    case 57: case 58: case 59: case 60: case 61: { // a whole str/bin/ext/container header done properly
        nm = "element by hand"; mpack_tag_t t = mpack_read_tag(rd); OPS_SAFE(mpack_tag_type(&t) == mpack_type_nil);
        if (mpack_reader_error(rd) != mpack_ok) break;
        mpack_type_t ty = mpack_tag_type(&t);
        uint32_t n = 0;
        if (ty == mpack_type_str || ty == mpack_type_bin
#if MPACK_EXTENSIONS
            || ty == mpack_type_ext
#endif
        ) {
            n = mpack_tag_bytes(&t);
            switch (r.below(4)) {
                case 0: mpack_skip_bytes(rd, n); break;
                case 1: { if (n > big_alloc) { mpack_skip_bytes(rd, n); break; } char* p = mpack_read_bytes_alloc(rd, n); MPACK_FREE(p); break; }
                case 2: { const char* p = mpack_read_bytes_inplace(rd, n); OPS_SAFE(p == NULL); if (p && n) { volatile char c = p[n - 1]; (void)c; } break; }
                default: { while (n) { size_t k = 1 + r.below(n < 5000 ? n : 5000); Guard g(k); mpack_read_bytes(rd, g.p, k); n -= (uint32_t)k; if (mpack_reader_error(rd) != mpack_ok) break; } }
            }
            if (mpack_reader_error(rd) == mpack_ok) mpack_done_type(rd, ty);
        } else if (ty == mpack_type_array || ty == mpack_type_map) {
            uint64_t c = ty == mpack_type_array ? mpack_tag_array_count(&t) : (uint64_t)mpack_tag_map_count(&t) * 2;
            while (c-- && mpack_reader_error(rd) == mpack_ok) mpack_discard(rd);
            mpack_done_type(rd, ty);
        }
        break; }
    // from here on: calls that leave something open, or bytes outside of any element
    case 62: case 63: case 64: case 65: { nm = "mpack_read_tag"; mpack_tag_t t = mpack_read_tag(rd); OPS_SAFE(mpack_tag_type(&t) == mpack_type_nil); break; }
    case 66: { nm = "mpack_expect_str"; uint32_t n = mpack_expect_str(rd); OPS_SAFE(n == 0); break; }
    case 67: { nm = "mpack_expect_str_max"; uint32_t n = mpack_expect_str_max(rd, (uint32_t)ops_len(r)); OPS_SAFE(n == 0); break; }
    case 68: { nm = "mpack_expect_bin"; uint32_t n = mpack_expect_bin(rd); OPS_SAFE(n == 0); break; }
    case 69: { nm = "mpack_expect_bin_max"; uint32_t n = mpack_expect_bin_max(rd, (uint32_t)ops_len(r)); OPS_SAFE(n == 0); break; }
#if MPACK_EXTENSIONS
    case 70: { nm = "mpack_expect_ext"; int8_t t = 77; uint32_t n = mpack_expect_ext(rd, &t); OPS_SAFE(n == 0 && t == 0); break; }
    case 71: { nm = "mpack_expect_ext_max"; int8_t t = 77; uint32_t n = mpack_expect_ext_max(rd, &t, (uint32_t)ops_len(r)); OPS_SAFE(n == 0 && t == 0); break; }
    case 72: { nm = "mpack_expect_ext_size"; int8_t t = 77; mpack_expect_ext_size(rd, &t, (uint32_t)ops_len(r)); OPS_SAFE(t == 0); break; }
    case 73: { nm = "mpack_read_timestamp"; const size_t sz[] = {4, 8, 12, 0, 5}; mpack_timestamp_t t = mpack_read_timestamp(rd, r.pick(sz)); OPS_SAFE(t.seconds == 0 && t.nanoseconds == 0); break; }
#endif
    case 74: nm = "mpack_expect_str_length"; mpack_expect_str_length(rd, (uint32_t)ops_len(r)); break;
    case 75: nm = "mpack_expect_bin_size"; mpack_expect_bin_size(rd, (uint32_t)ops_len(r)); break;
    case 76: { nm = "mpack_expect_map"; uint32_t n = mpack_expect_map(rd); OPS_SAFE(n == 0); break; }
    case 77: { nm = "mpack_expect_array"; uint32_t n = mpack_expect_array(rd); OPS_SAFE(n == 0); break; }
    case 78: { nm = "mpack_expect_map_range"; uint32_t a = (uint32_t)r.below(4); uint32_t n = mpack_expect_map_range(rd, a, a + (uint32_t)r.below(9)); OPS_SAFE(n == a); break; }
    case 79: { nm = "mpack_expect_array_range"; uint32_t a = (uint32_t)r.below(4); uint32_t n = mpack_expect_array_range(rd, a, a + (uint32_t)r.below(9)); OPS_SAFE(n == a); break; }
    case 80: { nm = "mpack_expect_map_max"; uint32_t n = mpack_expect_map_max(rd, (uint32_t)r.below(9)); OPS_SAFE(n == 0); break; }
    case 81: { nm = "mpack_expect_array_max"; uint32_t n = mpack_expect_array_max(rd, (uint32_t)r.below(9)); OPS_SAFE(n == 0); break; }
    case 82: nm = "mpack_expect_map_match"; mpack_expect_map_match(rd, (uint32_t)r.below(5)); break;
    case 83: nm = "mpack_expect_array_match"; mpack_expect_array_match(rd, (uint32_t)r.below(5)); break;
    case 84: { nm = "mpack_expect_map_or_nil"; uint32_t n = 77; bool b = mpack_expect_map_or_nil(rd, &n); OPS_SAFE(!b && n == 0); break; }
    case 85: { nm = "mpack_expect_array_or_nil"; uint32_t n = 77; bool b = mpack_expect_array_or_nil(rd, &n); OPS_SAFE(!b && n == 0); break; }
    case 86: { nm = "mpack_expect_map_max_or_nil"; uint32_t n = 77; bool b = mpack_expect_map_max_or_nil(rd, (uint32_t)r.below(9), &n); OPS_SAFE(!b && n == 0); break; }
    case 87: { nm = "mpack_expect_array_max_or_nil"; uint32_t n = 77; bool b = mpack_expect_array_max_or_nil(rd, (uint32_t)r.below(9), &n); OPS_SAFE(!b && n == 0); break; }
    case 88: { nm = "mpack_expect_array_alloc"; uint32_t n = 77; uint64_t* p = mpack_expect_array_alloc(rd, uint64_t, (uint32_t)(big_alloc / 8), &n); OPS_SAFE(p == NULL && n == 0); if (p) memset(p, 1, (size_t)n * 8); MPACK_FREE(p); break; }
    case 89: { nm = "mpack_expect_array_or_nil_alloc"; uint32_t n = 77; uint64_t* p = mpack_expect_array_or_nil_alloc(rd, uint64_t, (uint32_t)(big_alloc / 8), &n); OPS_SAFE(p == NULL && n == 0); if (p) memset(p, 1, (size_t)n * 8); MPACK_FREE(p); break; }
    case 90: { nm = "mpack_expect_tag"; mpack_expect_tag(rd, ops_tag(r)); break; }
    case 91: { nm = "mpack_read_bytes"; Guard g(ops_len(r)); mpack_read_bytes(rd, g.p, g.n); break; }
    case 92: { nm = "mpack_read_utf8"; Guard g(ops_len(r)); mpack_read_utf8(rd, g.p, g.n); break; }
    case 93: { nm = "mpack_read_cstr"; Guard g(1 + ops_len(r)); mpack_read_cstr(rd, g.p, g.n, ops_len(r)); OPS_SAFE(g.p[0] == 0); HX_CHECK(memchr(g.p, 0, g.n), "ops:unterminated", "%s left an unterminated string", nm); break; }
    case 94: { nm = "mpack_read_utf8_cstr"; Guard g(1 + ops_len(r)); mpack_read_utf8_cstr(rd, g.p, g.n, ops_len(r)); OPS_SAFE(g.p[0] == 0); HX_CHECK(memchr(g.p, 0, g.n), "ops:unterminated", "%s left an unterminated string", nm); break; }
    case 95: { nm = "mpack_read_bytes_alloc"; size_t n = r.chance(1, 6) ? r.below(big_alloc + 1) : ops_len(r); char* p = mpack_read_bytes_alloc(rd, n); OPS_SAFE(p == NULL); if (p) { Bytes c((uint8_t*)p, (uint8_t*)p + n); } MPACK_FREE(p); break; }
    case 96: { nm = "mpack_read_bytes_inplace"; size_t n = ops_len(r); const char* p = mpack_read_bytes_inplace(rd, n); OPS_SAFE(p == NULL); if (p) { Bytes c((const uint8_t*)p, (const uint8_t*)p + n); } break; }
    case 97: { nm = "mpack_read_utf8_inplace"; size_t n = ops_len(r); const char* p = mpack_read_utf8_inplace(rd, n); OPS_SAFE(p == NULL); if (p) { Bytes c((const uint8_t*)p, (const uint8_t*)p + n); } break; }
    case 98: { nm = "mpack_skip_bytes"; mpack_skip_bytes(rd, r.chance(1, 12) ? (size_t)(r.next() >> r.below(64)) : ops_len(r)); break; }
    case 99: nm = "mpack_done_array"; mpack_done_array(rd); break;
    case 100: nm = "mpack_done_map"; mpack_done_map(rd); break;
    case 101: nm = "mpack_done_str"; mpack_done_str(rd); break;
    case 102: nm = "mpack_done_bin"; mpack_done_bin(rd); break;
    case 103: { nm = "mpack_should_read_bytes_inplace"; mpack_should_read_bytes_inplace(rd, ops_len(r)); mpack_done_type(rd, mpack_type_nil); break; }
    default: nm = "mpack_expect_u8"; { uint8_t v = mpack_expect_u8(rd); OPS_SAFE(v == 0); } break;
    }
    return nm;
}
#undef OPS_SAFE
#undef OPN
#undef OPR
#undef OPM

#define OPS_SAFE(c) do { if (mpack_tree_error(t) != mpack_ok) { ++checked; HX_CHECK(c, "ops:safe-value", "%s: tree is in error %s but the call returned something else than its safe value (%s)", nm, errname(mpack_tree_error(t)), #c); } } while (0)
#define OPS_NIL(x) (mpack_node_type(x) == mpack_type_nil && mpack_node_is_nil(x))
// `quiet`: only calls that cannot flag an error by themselves on a matching type are wanted -- not used yet
static inline const char* node_op(mpack_tree_t* t, mpack_node_t node, Rng& r, mpack_node_t& child, uint64_t& checked) {
    const char* nm = "?";
    child = node;
    uint64_t op = r.below(66);
    switch (op) {
#define OPN(i, fn, T) case i: { nm = #fn; T v = fn(node); OPS_SAFE(v == 0); break; }
    OPN(0, mpack_node_u8, uint8_t) OPN(1, mpack_node_u16, uint16_t) OPN(2, mpack_node_u32, uint32_t) OPN(3, mpack_node_u64, uint64_t)
    OPN(4, mpack_node_i8, int8_t) OPN(5, mpack_node_i16, int16_t) OPN(6, mpack_node_i32, int32_t) OPN(7, mpack_node_i64, int64_t)
    OPN(8, mpack_node_uint, unsigned) OPN(9, mpack_node_int, int) OPN(10, mpack_node_bool, bool)
#if MPACK_FLOAT
    OPN(11, mpack_node_float, float) OPN(12, mpack_node_float_strict, float)
#else
    OPN(11, mpack_node_raw_float, uint32_t) OPN(12, mpack_node_raw_float, uint32_t)
#endif
#if MPACK_DOUBLE
    OPN(13, mpack_node_double, double) OPN(14, mpack_node_double_strict, double)
#else
    OPN(13, mpack_node_raw_double, uint64_t) OPN(14, mpack_node_raw_double, uint64_t)
#endif
    OPN(15, mpack_node_strlen, size_t) OPN(16, mpack_node_bin_size, size_t) OPN(17, mpack_node_array_length, size_t) OPN(18, mpack_node_map_count, size_t)
    OPN(19, mpack_node_data_len, uint32_t)
#if MPACK_EXTENSIONS
    OPN(20, mpack_node_exttype, int8_t) OPN(21, mpack_node_timestamp_seconds, int64_t) OPN(22, mpack_node_timestamp_nanoseconds, uint32_t)
    case 23: { nm = "mpack_node_timestamp"; mpack_timestamp_t ts = mpack_node_timestamp(node); OPS_SAFE(ts.seconds == 0 && ts.nanoseconds == 0); break; }
#endif
    case 24: { nm = "mpack_node_str"; const char* p = mpack_node_str(node); OPS_SAFE(p == NULL); if (p) { size_t n = mpack_node_strlen(node); Bytes c((const uint8_t*)p, (const uint8_t*)p + n); } break; }
    case 25: { nm = "mpack_node_data"; const char* p = mpack_node_data(node); OPS_SAFE(p == NULL); if (p) { size_t n = mpack_node_data_len(node); Bytes c((const uint8_t*)p, (const uint8_t*)p + n); } break; }
    case 26: { nm = "mpack_node_bin_data"; const char* p = mpack_node_bin_data(node); OPS_SAFE(p == NULL); if (p) { size_t n = mpack_node_bin_size(node); Bytes c((const uint8_t*)p, (const uint8_t*)p + n); } break; }
    case 27: { nm = "mpack_node_copy_data"; Guard g(ops_len(r)); size_t n = mpack_node_copy_data(node, g.p, g.n); OPS_SAFE(n == 0); HX_CHECK(n <= g.n, "ops:length", "%s returned %zu for %zu", nm, n, g.n); break; }
    case 28: { nm = "mpack_node_copy_utf8"; Guard g(ops_len(r)); size_t n = mpack_node_copy_utf8(node, g.p, g.n); OPS_SAFE(n == 0); HX_CHECK(n <= g.n, "ops:length", "%s returned %zu for %zu", nm, n, g.n); break; }
    case 29: { nm = "mpack_node_copy_cstr"; Guard g(1 + ops_len(r)); mpack_node_copy_cstr(node, g.p, g.n); OPS_SAFE(g.p[0] == 0); HX_CHECK(memchr(g.p, 0, g.n), "ops:unterminated", "%s left an unterminated string", nm); break; }
    case 30: { nm = "mpack_node_copy_utf8_cstr"; Guard g(1 + ops_len(r)); mpack_node_copy_utf8_cstr(node, g.p, g.n); OPS_SAFE(g.p[0] == 0); HX_CHECK(memchr(g.p, 0, g.n), "ops:unterminated", "%s left an unterminated string", nm); break; }
    case 31: { nm = "mpack_node_data_alloc"; char* p = mpack_node_data_alloc(node, ops_len(r) + 1); OPS_SAFE(p == NULL); MPACK_FREE(p); break; }
    case 32: { nm = "mpack_node_cstr_alloc"; char* p = mpack_node_cstr_alloc(node, ops_len(r) + 1); OPS_SAFE(p == NULL); if (p) { volatile size_t l = strlen(p); (void)l; } MPACK_FREE(p); break; }
    case 33: { nm = "mpack_node_utf8_cstr_alloc"; char* p = mpack_node_utf8_cstr_alloc(node, ops_len(r) + 1); OPS_SAFE(p == NULL); if (p) { volatile size_t l = strlen(p); (void)l; } MPACK_FREE(p); break; }
    case 34: nm = "mpack_node_nil"; mpack_node_nil(node); break;
    case 35: nm = "mpack_node_true"; mpack_node_true(node); break;
    case 36: nm = "mpack_node_false"; mpack_node_false(node); break;
    case 37: nm = "mpack_node_missing"; mpack_node_missing(node); break;
    case 38: { nm = "mpack_node_is_nil"; bool b = mpack_node_is_nil(node); OPS_SAFE(b); break; }
    case 39: { nm = "mpack_node_is_missing"; bool b = mpack_node_is_missing(node); OPS_SAFE(!b); break; }
    case 40: { nm = "mpack_node_tag"; mpack_tag_t tg = mpack_node_tag(node); OPS_SAFE(mpack_tag_type(&tg) == mpack_type_nil); break; }
    case 41: { nm = "mpack_node_type"; mpack_type_t ty = mpack_node_type(node); OPS_SAFE(ty == mpack_type_nil); break; }
    case 42: nm = "mpack_node_check_utf8"; mpack_node_check_utf8(node); break;
    case 43: nm = "mpack_node_check_utf8_cstr"; mpack_node_check_utf8_cstr(node); break;
    case 44: { nm = "mpack_node_enum"; size_t n = 1 + r.below(OPS_NKEYS); const char* k[OPS_NKEYS]; memcpy(k, OPS_KEYS, sizeof k); size_t v = mpack_node_enum(node, k, n); OPS_SAFE(v == n); HX_CHECK(v <= n, "ops:enum", "%s returned %zu of %zu", nm, v, n); break; }
    case 45: { nm = "mpack_node_enum_optional"; size_t n = 1 + r.below(OPS_NKEYS); const char* k[OPS_NKEYS]; memcpy(k, OPS_KEYS, sizeof k); size_t v = mpack_node_enum_optional(node, k, n); OPS_SAFE(v == n); HX_CHECK(v <= n, "ops:enum", "%s returned %zu of %zu", nm, v, n); break; }
    case 46: case 47: { nm = "mpack_node_array_at"; child = mpack_node_array_at(node, r.below(12)); OPS_SAFE(OPS_NIL(child)); break; }
    case 48: case 49: { nm = "mpack_node_map_key_at"; child = mpack_node_map_key_at(node, r.below(8)); OPS_SAFE(OPS_NIL(child)); break; }
    case 50: case 51: { nm = "mpack_node_map_value_at"; child = mpack_node_map_value_at(node, r.below(8)); OPS_SAFE(OPS_NIL(child)); break; }
    case 52: { nm = "mpack_node_map_int"; child = mpack_node_map_int(node, (int64_t)r.below(20) - 10); OPS_SAFE(OPS_NIL(child)); break; }
    case 53: { nm = "mpack_node_map_int_optional"; child = mpack_node_map_int_optional(node, (int64_t)r.below(20) - 10); OPS_SAFE(OPS_NIL(child)); break; }
    case 54: { nm = "mpack_node_map_uint"; child = mpack_node_map_uint(node, r.below(20)); OPS_SAFE(OPS_NIL(child)); break; }
    case 55: { nm = "mpack_node_map_uint_optional"; child = mpack_node_map_uint_optional(node, r.below(20)); OPS_SAFE(OPS_NIL(child)); break; }
    case 56: { nm = "mpack_node_map_str"; const char* k = OPS_KEYS[r.below(OPS_NKEYS)]; child = mpack_node_map_str(node, k, strlen(k)); OPS_SAFE(OPS_NIL(child)); break; }
    case 57: { nm = "mpack_node_map_str_optional"; const char* k = OPS_KEYS[r.below(OPS_NKEYS)]; child = mpack_node_map_str_optional(node, k, strlen(k)); OPS_SAFE(OPS_NIL(child)); break; }
    case 58: { nm = "mpack_node_map_cstr"; child = mpack_node_map_cstr(node, OPS_KEYS[r.below(OPS_NKEYS)]); OPS_SAFE(OPS_NIL(child)); break; }
    case 59: { nm = "mpack_node_map_cstr_optional"; child = mpack_node_map_cstr_optional(node, OPS_KEYS[r.below(OPS_NKEYS)]); OPS_SAFE(OPS_NIL(child)); break; }
    case 60: { nm = "mpack_node_map_contains_*"; bool b; switch (r.below(4)) { case 0: b = mpack_node_map_contains_int(node, (int64_t)r.below(20) - 10); break; case 1: b = mpack_node_map_contains_uint(node, r.below(20)); break; case 2: b = mpack_node_map_contains_cstr(node, OPS_KEYS[r.below(OPS_NKEYS)]); break; default: b = mpack_node_map_contains_str(node, "id", 2); } OPS_SAFE(!b); break; }
    case 61: { nm = "mpack_tree_root"; if (mpack_tree_error(t) == mpack_ok) break; child = mpack_tree_root(t); OPS_SAFE(OPS_NIL(child)); break; }
#if MPACK_DEBUG && MPACK_STDIO
    case 62: { nm = "mpack_node_print_to_buffer"; if (ops_deep(node)) break; Guard g(1 + ops_len(r)); mpack_node_print_to_buffer(node, g.p, g.n); HX_CHECK(memchr(g.p, 0, g.n), "ops:unterminated", "%s left an unterminated string", nm); break; }
#endif
    case 63: { nm = "mpack_tree_size"; volatile size_t s = mpack_tree_size(t); (void)s; break; }
    case 64: { nm = "mpack_tree_nil_node"; child = mpack_tree_nil_node(t); HX_CHECK(OPS_NIL(child) , "ops:nil-node", "mpack_tree_nil_node() is not nil"); break; }
    default: nm = "mpack_node_error"; HX_CHECK(mpack_node_error(node) == mpack_tree_error(t), "ops:node-error", "mpack_node_error() differs from mpack_tree_error()"); break;
    }
    return nm;
}
#undef OPS_SAFE
#undef OPN

// one write call with arbitrary arguments; in a writer without error only `element` calls are valid anywhere
static inline const char* writer_op(mpack_writer_t* w, Rng& r, bool free_ops, const Guard& src, bool v4) {
    uint64_t op = r.below(free_ops ? 48 : 30);
    size_t n = ops_len(r); if (n > src.n) n = src.n;
    const char* d = src.p + r.below(src.n - n + 1);
    switch (op) {
    case 0: mpack_write_u8(w, (uint8_t)r.next()); return "mpack_write_u8";
    case 1: mpack_write_u16(w, (uint16_t)(r.next() >> r.below(16))); return "mpack_write_u16";
    case 2: mpack_write_u32(w, (uint32_t)(r.next() >> r.below(32))); return "mpack_write_u32";
    case 3: mpack_write_u64(w, r.next() >> r.below(64)); return "mpack_write_u64";
    case 4: mpack_write_i8(w, (int8_t)r.next()); return "mpack_write_i8";
    case 5: mpack_write_i16(w, (int16_t)r.next()); return "mpack_write_i16";
    case 6: mpack_write_i32(w, (int32_t)((int64_t)r.next() >> (32 + r.below(32)))); return "mpack_write_i32";
    case 7: mpack_write_i64(w, (int64_t)r.next() >> r.below(64)); return "mpack_write_i64";
    case 8: mpack_write_bool(w, r.chance(1, 2)); return "mpack_write_bool";
    case 9: mpack_write_true(w); return "mpack_write_true";
    case 10: mpack_write_false(w); return "mpack_write_false";
    case 11: case 28: mpack_write_nil(w); return "mpack_write_nil";
#if MPACK_FLOAT
    case 12: mpack_write_float(w, (float)r.below(100)); return "mpack_write_float";
#endif
#if MPACK_DOUBLE
    case 13: mpack_write_double(w, (double)r.below(100)); return "mpack_write_double";
#endif
    case 14: case 15: mpack_write_str(w, d, (uint32_t)n); return "mpack_write_str";
    case 16: mpack_write_bin(w, d, (uint32_t)n); return "mpack_write_bin";
    case 17: mpack_write_cstr(w, "a c string"); return "mpack_write_cstr";
    case 18: mpack_write_cstr_or_nil(w, r.chance(1, 2) ? NULL : "x"); return "mpack_write_cstr_or_nil";
    case 19: mpack_write_utf8(w, "caf\xc3\xa9", 5); return "mpack_write_utf8";
    case 20: mpack_write_utf8_cstr(w, "text"); return "mpack_write_utf8_cstr";
    case 21: mpack_write_utf8_cstr_or_nil(w, r.chance(1, 2) ? NULL : "y"); return "mpack_write_utf8_cstr_or_nil";
#if MPACK_EXTENSIONS
    case 22: if (!v4) { mpack_write_ext(w, (int8_t)r.next(), d, (uint32_t)n); return "mpack_write_ext"; } break;
    case 23: if (!v4) { mpack_write_timestamp(w, (int64_t)r.next() >> r.below(40), (uint32_t)r.below(1000000000)); return "mpack_write_timestamp"; } break;
    case 24: if (!v4) { mpack_write_timestamp_seconds(w, (int64_t)r.next()); return "mpack_write_timestamp_seconds"; } break;
#endif
    case 25: mpack_write_object_bytes(w, "\x92\x01\x02", 3); return "mpack_write_object_bytes";
    case 26: { mpack_start_str(w, (uint32_t)n); size_t k = r.below(n + 1); mpack_write_bytes(w, d, k); mpack_write_bytes(w, d + k, n - k); mpack_finish_str(w); return "str in pieces"; }
    case 27: { mpack_start_array(w, 2); mpack_write_nil(w); mpack_write_int(w, -5); mpack_finish_array(w); return "small array"; }
    // only valid once an error stands
    case 30: mpack_start_array(w, (uint32_t)r.below(70000)); return "mpack_start_array";
    case 31: mpack_start_map(w, (uint32_t)r.below(70000)); return "mpack_start_map";
    case 32: mpack_start_str(w, (uint32_t)n); return "mpack_start_str";
    case 33: mpack_start_bin(w, (uint32_t)n); return "mpack_start_bin";
#if MPACK_EXTENSIONS
    case 34: if (!v4) { mpack_start_ext(w, 5, (uint32_t)n); return "mpack_start_ext"; } break;
#endif
    case 35: mpack_finish_array(w); return "mpack_finish_array";
    case 36: mpack_finish_map(w); return "mpack_finish_map";
    case 37: mpack_finish_str(w); return "mpack_finish_str";
    case 38: mpack_finish_bin(w); return "mpack_finish_bin";
#if MPACK_EXTENSIONS
    case 39: mpack_finish_ext(w); return "mpack_finish_ext";
#endif
    case 40: mpack_write_bytes(w, d, n); return "mpack_write_bytes";
#if MPACK_BUILDER
    case 41: mpack_build_array(w); return "mpack_build_array";
    case 42: mpack_build_map(w); return "mpack_build_map";
    case 43: mpack_complete_array(w); return "mpack_complete_array";
    case 44: mpack_complete_map(w); return "mpack_complete_map";
#endif
    case 45: mpack_writer_flush_message(w); return "mpack_writer_flush_message";
    case 46: { mpack_tag_t t = ops_tag(r); mpack_write_tag(w, t); return "mpack_write_tag"; }
    case 47: mpack_finish_type(w, r.chance(1, 2) ? mpack_type_map : mpack_type_array); return "mpack_finish_type";
    default: break;
    }
    mpack_write_nil(w);
    return "mpack_write_nil";
}

} // namespace hx
