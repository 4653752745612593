// Deterministic decode programs that leave a trace of every result obtained
// while the object was not in an error state.
#pragma once
#include "hx_sink.hpp"
#include "hx_tree.hpp"
namespace hx {
// arrays a program holds across further calls (freed by the driver if the program is left by a jump)
static std::vector<void*> g_owned;
struct Res { mpack_error_t err; int calls; mpack_error_t first; std::vector<uint64_t> trace; Bytes out; uint64_t allocs; Res() : err(mpack_ok), calls(0), first(mpack_ok), allocs(0) {} };
static inline bool is_prefix(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }
static inline bool is_prefix(const Bytes& a, const Bytes& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }
//---------------------------------------------------------------- reader
#define TR(x) do { if (mpack_reader_error(rd) == mpack_ok) o.trace.push_back((uint64_t)(x)); } while (0)
static inline void read_elem(mpack_reader_t* rd, Rng& r, Res& o) {
    if (mpack_reader_error(rd) != mpack_ok) return;
    mpack_tag_t t = mpack_peek_tag(rd); if (mpack_reader_error(rd) != mpack_ok) return;
    mpack_type_t ty = mpack_tag_type(&t); o.trace.push_back((uint64_t)ty);
    unsigned how = (unsigned)r.below(8);
    if (ty == mpack_type_str || ty == mpack_type_bin
#if MPACK_EXTENSIONS
        || ty == mpack_type_ext
#endif
    ) {
        size_t n = 0; char* p = 0;
        if (how == 0 && ty == mpack_type_str) { p = mpack_expect_cstr_alloc(rd, 1 << 20); n = p ? strlen(p) : 0; if (mpack_reader_error(rd) != mpack_ok) HX_CHECK(p == NULL, "alloc-value", "expect_cstr_alloc returned memory with error %s", errname(mpack_reader_error(rd))); }
        else if (how == 1 && ty == mpack_type_str) { p = mpack_expect_utf8_cstr_alloc(rd, 1 << 20); n = p ? strlen(p) : 0; if (mpack_reader_error(rd) != mpack_ok) HX_CHECK(p == NULL, "alloc-value", "expect_utf8_cstr_alloc returned memory with error %s", errname(mpack_reader_error(rd))); }
        else if (how <= 1 && ty == mpack_type_bin) { n = 99; p = mpack_expect_bin_alloc(rd, 1 << 20, &n); if (mpack_reader_error(rd) != mpack_ok) HX_CHECK(p == NULL && n == 0, "alloc-value", "expect_bin_alloc returned memory with error"); }
#if MPACK_EXTENSIONS
        else if (how <= 1 && ty == mpack_type_ext) { n = 99; int8_t et = 99; p = mpack_expect_ext_alloc(rd, &et, 1 << 20, &n); if (mpack_reader_error(rd) != mpack_ok) HX_CHECK(p == NULL && n == 0 && et == 0, "alloc-value", "expect_ext_alloc returned memory with error"); TR(et); }
#endif
        else if (how == 2) { mpack_discard(rd); return; }
        else if (how >= 5) { // skipped, in place or piecewise
            t = mpack_read_tag(rd); if (mpack_reader_error(rd) != mpack_ok) return; n = mpack_tag_bytes(&t); TR(n);
            if (how == 5) mpack_skip_bytes(rd, n);
            else if (how == 6 && mpack_should_read_bytes_inplace(rd, n)) { const char* q = mpack_read_bytes_inplace(rd, n); if (mpack_reader_error(rd) == mpack_ok) TR(hash_bytes(q, n)); else HX_CHECK(q == NULL, "inplace-value", "read_bytes_inplace returned a pointer with error"); }
            else { Bytes all; size_t left = n; while (left && mpack_reader_error(rd) == mpack_ok) { size_t k = 1 + r.below(left < 3000 ? left : 3000); Guard g(k); mpack_read_bytes(rd, g.p, k); if (mpack_reader_error(rd) == mpack_ok) all.insert(all.end(), (uint8_t*)g.p, (uint8_t*)g.p + k); left -= k; } TR(hash_bytes(all)); }
            if (mpack_reader_error(rd) == mpack_ok) mpack_done_type(rd, ty);
            return;
        }
        else { t = mpack_read_tag(rd); if (mpack_reader_error(rd) != mpack_ok) return; n = mpack_tag_bytes(&t); p = mpack_read_bytes_alloc(rd, n); if (mpack_reader_error(rd) != mpack_ok) HX_CHECK(p == NULL, "alloc-value", "read_bytes_alloc returned memory with error"); else mpack_done_type(rd, ty); }
        TR(n); if (p && mpack_reader_error(rd) == mpack_ok) TR(hash_bytes(p, n));
        MPACK_FREE(p); return;
    }
    if (ty == mpack_type_array || ty == mpack_type_map) {
        if (how == 2) { mpack_discard(rd); return; }
        uint64_t n = 0; void* arr = 0;
        if (how <= 1 && ty == mpack_type_array) { uint32_t cnt = 99; bool plain = r.chance(1, 2); uint64_t* a = plain ? mpack_expect_array_alloc(rd, uint64_t, 1 << 16, &cnt) : mpack_expect_array_or_nil_alloc(rd, uint64_t, 1 << 16, &cnt); arr = a; if (a) g_owned.push_back(a);
            if (mpack_reader_error(rd) != mpack_ok) { HX_CHECK(a == NULL && cnt == 0, "alloc-value", "expect_array_alloc returned memory with error %s", errname(mpack_reader_error(rd))); return; }
            n = (uint32_t)cnt; TR(n); if (n) memset(a, 1, (size_t)n * sizeof *a); if (n == 0) { if (arr) g_owned.pop_back(); MPACK_FREE(arr); if (plain) mpack_done_array(rd); return; } }
        else { t = mpack_read_tag(rd); if (mpack_reader_error(rd) != mpack_ok) return; n = ty == mpack_type_array ? mpack_tag_array_count(&t) : mpack_tag_map_count(&t); TR(n); if (ty == mpack_type_map) n *= 2; }
        for (uint64_t i = 0; i < n && mpack_reader_error(rd) == mpack_ok; ++i) read_elem(rd, r, o);
        if (arr) g_owned.pop_back();
        MPACK_FREE(arr);
        if (mpack_reader_error(rd) == mpack_ok) mpack_done_type(rd, ty);
        return;
    }
    t = mpack_read_tag(rd); char b[100]; tag_str(t, b, sizeof b); TR(hash_bytes(b, strlen(b)));
}
#undef TR
//---------------------------------------------------------------- tree
static inline void visit(mpack_node_t n, mpack_tree_t* t, Rng& r, Res& o, unsigned& budget) {
    if (budget == 0) return; --budget;
    if (mpack_tree_error(t) != mpack_ok) return;
    mpack_type_t ty = mpack_node_type(n); o.trace.push_back((uint64_t)ty);
    char* p = 0; size_t len = 0; const char* nm = 0;
    switch (ty) {
        case mpack_type_str: case mpack_type_bin:
#if MPACK_EXTENSIONS
        case mpack_type_ext:
#endif
            len = mpack_node_data_len(n); o.trace.push_back(len);
            { bool z = ty == mpack_type_str && !memchr(mpack_node_data(n), 0, len), u = z && ref_utf8((const uint8_t*)mpack_node_data(n), len, false); unsigned how = (unsigned)r.below(4);
            if (how == 0 && z) { nm = "cstr_alloc"; p = mpack_node_cstr_alloc(n, len + 1); }
            else if (how == 1 && u) { nm = "utf8_cstr_alloc"; p = mpack_node_utf8_cstr_alloc(n, len + 1); }
            else if (how == 2) { nm = "data_alloc"; p = mpack_node_data_alloc(n, len); }
            else break; }
            if (mpack_tree_error(t) == mpack_ok) { HX_CHECK(p != NULL || len == 0, "node-alloc", "%s returned NULL without an error", nm); o.trace.push_back(p ? hash_bytes(p, len) : 0); }
            else HX_CHECK(p == NULL, "node-alloc", "%s returned memory with error %s", nm, errname(mpack_tree_error(t)));
            MPACK_FREE(p); break;
        case mpack_type_array: { size_t c = mpack_node_array_length(n); o.trace.push_back(c); for (size_t i = 0; i < c && budget; ++i) visit(mpack_node_array_at(n, i), t, r, o, budget); break; }
        case mpack_type_map: { size_t c = mpack_node_map_count(n); o.trace.push_back(c); for (size_t i = 0; i < c && budget; ++i) { visit(mpack_node_map_key_at(n, i), t, r, o, budget); visit(mpack_node_map_value_at(n, i), t, r, o, budget); } break; }
        default: { mpack_tag_t tg = mpack_node_tag(n); char b[100]; tag_str(tg, b, sizeof b); o.trace.push_back(hash_bytes(b, strlen(b))); }
    }
}
} // namespace hx
