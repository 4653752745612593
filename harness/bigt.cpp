// C07/C17/C18 extra: trees over messages of several gigabytes, and lengths beyond 32 bits given by the caller
#include "big.hpp"
using namespace hx;
const char* prop_rule() { return "case = message of up to 10 GB in sparse memory parsed by a tree (paged or pool) with and without limits around its size; every node's pointer, length and value and the tree's size checked, and lookups with key lengths beyond 2^32; non-trivial = an offset beyond 2^32 or a blob beyond 2^31; distinct by sizes and limits"; }
void prop_case(uint64_t idx, Rng& r) {
    if (sizeof(size_t) < 8) { count("left_out"); return; }
    if (idx % 8 == 7) { // key lengths that agree only modulo 2^32
        static const char msg[] = "\x82\xa3" "abc\x01\xa0\x02"; mpack_tree_t t; mpack_tree_init_data(&t, msg, sizeof msg - 1); mpack_tree_parse(&t); mpack_node_t n = mpack_tree_root(&t); size_t l = ((size_t)1 + r.below(3)) << 32; Vast k(((size_t)4 << 32)); memcpy(k.p, "abc", 3);
        HX_CHECK(mpack_node_is_missing(mpack_node_map_str_optional(n, k.p, l + 3)) && !mpack_node_map_contains_str(n, k.p, l + 3) && mpack_node_is_missing(mpack_node_map_str_optional(n, k.p, l)) && !mpack_node_map_contains_str(n, k.p, l), "key-length-wrapped", "a key of %zu bytes was found", l + 3);
        HX_CHECK(mpack_node_i32(mpack_node_map_str(n, k.p, 3)) == 1 && mpack_node_i32(mpack_node_map_str(n, k.p, 0)) == 2, "big-value", "short keys"); HX_CHECK(mpack_tree_error(&t) == mpack_ok, "big-outcome", "error");
        (void)mpack_node_map_str(n, k.p, l + 3); HX_CHECK(mpack_tree_destroy(&t) == mpack_error_data, "key-length-wrapped", "a key of %zu bytes was found", l + 3);
        for (int i = 0; i < 3; ++i) { Guard in(Bytes{0xa3, 'a', 'b', 'c'}); mpack_reader_t rd; mpack_reader_init_data(&rd, in.p, 4); mpack_expect_str_match(&rd, k.p, i == 0 ? 3 : i == 1 ? l + 3 : l); mpack_error_t e = mpack_reader_error(&rd); mpack_reader_flag_error(&rd, mpack_error_data); mpack_reader_destroy(&rd); HX_CHECK(e == (i ? mpack_error_type : mpack_ok), "match-length-wrapped", "matching %zu bytes: %s", i == 0 ? (size_t)3 : i == 1 ? l + 3 : l, errname(e)); }
        count("wrapped_lengths"); eval(); distinct(l); return;
    }
    if (idx % 4 == 1) { // containers declaring billions of children, all of them there; a byte that starts no element soon follows
        static const uint32_t C[] = {0x80000000u, 0x80000001u, 0xffffffffu, 0x7fffffffu, 0xc0000000u, 0xfffffffeu, 0x40000001u}; bool map = r.chance(3, 4); uint32_t c = r.pick(C); uint64_t kids = map ? 2 * (uint64_t)c : c; unsigned outer = (unsigned)r.below(3), good = (unsigned)r.below(20); bool cut = r.chance(1, 8), few = !cut && r.chance(1, 8), lim = !cut && !few && r.chance(1, 8);
        Vast m(kids + 100); Bytes h; for (unsigned i = 0; i < outer; ++i) h.push_back(0x91); h.push_back(map ? 0xdf : 0xdd); put_be(h, c, 4); m.put(h); size_t end = m.len + kids; Bytes b; for (unsigned i = 0; i < good; ++i) b.push_back((uint8_t)r.below(128)); b.push_back(0xc1); m.put(b); m.fence(end);
        Vast pool((kids + outer + 1) * sizeof(mpack_node_data_t)); pool.fence((1 << 20)); mpack_tree_t t; mpack_tree_init_pool(&t, m.p, cut ? end - 1 : end, (mpack_node_data_t*)(void*)pool.p, kids + outer + (few ? 0 : 1)); if (lim) mpack_tree_set_limits(&t, (size_t)-1, kids + outer); note("%s of %u in %u arrays, cut %d, few %d, limited %d", map ? "map" : "array", c, outer, cut, few, lim);
        mpack_tree_parse(&t); mpack_error_t e = mpack_tree_destroy(&t); HX_CHECK(e == (few || lim ? mpack_error_too_big : mpack_error_invalid), "big-container", "%s of %u children with an invalid byte behind %u of them: %s", map ? "map" : "array", c, good, errname(e)); count("big_containers"); eval(); distinct(mix(c, good * 64 + outer * 8 + map * 4 + cut)); return;
    }
    size_t cap = (size_t)(2 + r.below(9)) << 30; Vast m(cap); std::vector<Part> parts; vast_message(m, parts, r, 1 + (unsigned)r.below(5), cap); size_t end = m.len, extra = r.chance(1, 3) ? (size_t)r.below(100) : 0; if (end + extra > m.n) extra = 0; bool cut = r.chance(1, 6); size_t give = cut ? end - 1 - (size_t)r.below(9) : end + extra;
    bool pool = r.chance(1, 3); unsigned lim = (unsigned)r.below(5); size_t ms = lim == 1 ? end : lim == 2 ? end - 1 : lim == 3 ? end & 0xffffffffu ? end & 0xffffffffu : 1 : (size_t)-1; if (pool) ms = (size_t)-1; std::vector<mpack_node_data_t> nodes(pool ? parts.size() + 1 : 0); note("pool %d limit %zu of %zu, given %zu", pool, ms, end, give);
    mpack_tree_t t; if (pool) mpack_tree_init_pool(&t, m.p, give, nodes.data(), r.chance(1, 2) ? nodes.size() : nodes.size()); else mpack_tree_init_data(&t, m.p, give); if (ms != (size_t)-1) mpack_tree_set_limits(&t, ms, (size_t)-1); mpack_tree_parse(&t); mpack_error_t e = mpack_tree_error(&t);
    bool small = ms < end;
    if (cut || small) HX_CHECK(e != mpack_ok, "big-outcome", "accepted %zu of %zu bytes under a limit of %zu", give, end, ms);
    else {
        HX_CHECK(e == mpack_ok, "big-outcome", "rejected: %s", errname(e)); HX_CHECK(mpack_tree_size(&t) == end, "big-size", "tree size %zu instead of %zu", mpack_tree_size(&t), end); mpack_node_t root = mpack_tree_root(&t); HX_CHECK(mpack_node_array_length(root) == parts.size(), "big-array", "length");
        for (size_t i = 0; i < parts.size(); ++i) { const Part& q = parts[i]; mpack_node_t n = mpack_node_array_at(root, i);
            if (q.kind == 0) { HX_CHECK(mpack_node_u64(n) == q.v, "big-value", "value %zu", i); continue; }
            const char* p = q.kind == 2 ? mpack_node_bin_data(n) : q.kind == 3 ? mpack_node_data(n) : mpack_node_str(n); size_t l = q.kind == 2 ? mpack_node_bin_size(n) : q.kind == 3 ? mpack_node_data_len(n) : mpack_node_strlen(n);
            HX_CHECK(p == m.p + q.off && l == q.len, "big-pointer", "node %zu: %zu bytes at %lld instead of %u at %llu", i, l, (long long)(p - m.p), q.len, (unsigned long long)q.off);
            if (q.kind == 4) { char b[8]; HX_CHECK(mpack_node_copy_data(n, b, r.chance(1, 2) ? 8 : ((size_t)1 << 32) + 2) == 8 && !memcmp(b, m.p + q.off, 8), "big-value", "string %zu", i); }
#if MPACK_EXTENSIONS
            if (q.kind == 3) HX_CHECK(mpack_node_exttype(n) == q.et, "big-value", "ext type");
#endif
            if (q.off + q.len > 0xffffffffu) count("beyond_32_bits"); count("big_nodes");
        }
        HX_CHECK(mpack_tree_error(&t) == mpack_ok, "big-outcome", "error after access");
    }
    mpack_tree_destroy(&t); count("big_messages"); if (m.len > ((uint64_t)1 << 32)) count("messages_over_4gb"); eval(); distinct(mix(m.len, lim * 4 + pool * 2 + cut)); if (want_sample()) sample("%zu bytes", m.len);
}
