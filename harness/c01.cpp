// C01: hostile bytes through every decoding call, under sanitizers.
#include "hx_prog.hpp"
#include "hx_ops.hpp"
using namespace hx;
const char* prop_rule() { return "case = hostile, mutated, random or valid bytes through one source, driven by random decoding calls (every read, skip, discard, expect, key match, allocating and in-place call with arbitrary arguments and exactly sized red-zoned buffers; or a structured walk; or a tree parsed in one go, from a pool, incrementally or from a file, then queried at random, message after message; or megabyte-deep nesting), with the allocator failing beyond a cap; watched by ASan+UBSan, MSan, allocation and file ledgers, a CPU-time limit and input-immutability; non-trivial = at least one element or node was decoded or an error raised; distinct by (input, source, calls)"; }

static void check_input(const Guard& g, uint64_t h) { HX_CHECK(hash_bytes(g.p, g.n) == h, "input-modified", "decoding changed the input buffer"); }
static void use_bytes(const void* p, size_t n) { volatile uint8_t x = 0; for (size_t i = 0; i < n; ++i) x = (uint8_t)(x ^ ((const uint8_t*)p)[i]); }
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if __has_feature(memory_sanitizer)
enum { NSRC = 3, NTREE = 3 };
#else
enum { NSRC = MPACK_STDIO ? S_NMODES : 3, NTREE = T_USABLE };
#endif
static size_t log_len(const Bytes& b) { return b.size() < 4000 ? b.size() : 4000; }

static void reader_run(const Bytes& b, Rng& r, unsigned how) {
    SrcMode m = (SrcMode)r.below(NSRC); size_t bs = pick_bufsize(r); int chunk = r.chance(1, 3) ? 0 : r.chance(1, 2) ? -1 : 1 + (int)r.below(9);
    note("%s buffer %zu chunk %d calls %u", srcname(m), bs, chunk, how);
    Src s; if (r.chance(1, 10)) { s.fail_fill = (int64_t)r.below(8); s.fail_kind = (int)r.below(3); }
    s.open(b, m, bs, chunk, r.next()); uint64_t h = hash_bytes(s.in.p, s.in.n), hh = h, calls = 0; unsigned lim = (unsigned)(r.chance(1, 4) ? 400 : 60);
    mpack_reader_t* rd = &s.r;
    if (how == 0) { Res o; while (mpack_reader_error(rd) == mpack_ok && calls++ < 8) read_elem(rd, r, o); for (uint64_t x : o.trace) hh = mix(hh, x); }
    else if (how == 1) { uint64_t c = 0; bool fo = !HX_TRACKED; for (unsigned i = 0; i < lim && (mpack_reader_error(rd) == mpack_ok || r.chance(7, 8)); ++i) { const char* nm = reader_op(rd, r, fo || mpack_reader_error(rd) != mpack_ok, c); note("%s", nm); hh = hash_bytes(nm, strlen(nm), hh); ++calls; } }
    else if (how == 2) { while (mpack_reader_error(rd) == mpack_ok && calls++ < 2000) mpack_discard(rd); }
    else { // tags and payloads, with the caller's own bookkeeping
        std::vector<mpack_type_t> st; std::vector<uint64_t> left;
        while (mpack_reader_error(rd) == mpack_ok && calls++ < 3000) {
            while (!left.empty() && left.back() == 0) { mpack_done_type(rd, st.back()); st.pop_back(); left.pop_back(); }
            if (!left.empty()) --left.back();
            if (r.chance(1, 6)) mpack_peek_tag(rd);
            mpack_tag_t t = mpack_read_tag(rd); if (mpack_reader_error(rd) != mpack_ok) break;
            mpack_type_t ty = mpack_tag_type(&t); char d[100]; tag_str(t, d, sizeof d); hh = hash_bytes(d, strlen(d), hh);
            if (ty == mpack_type_array || ty == mpack_type_map) { st.push_back(ty); left.push_back(ty == mpack_type_map ? 2ull * mpack_tag_map_count(&t) : mpack_tag_array_count(&t)); continue; }
            if (ty == mpack_type_str || ty == mpack_type_bin
#if MPACK_EXTENSIONS
                || ty == mpack_type_ext
#endif
            ) {
                uint32_t n = mpack_tag_bytes(&t);
#if MPACK_EXTENSIONS
                if (ty == mpack_type_ext && mpack_tag_ext_exttype(&t) == MPACK_EXTTYPE_TIMESTAMP && r.chance(1, 2)) { mpack_timestamp_t ts = mpack_read_timestamp(rd, n); use_bytes(&ts.seconds, sizeof ts.seconds); continue; }
#endif
                switch (r.below(5)) {
                    case 0: mpack_skip_bytes(rd, n); break;
                    case 1: { const char* p = ty == mpack_type_str && r.chance(1, 2) ? mpack_read_utf8_inplace(rd, n) : mpack_read_bytes_inplace(rd, n); if (mpack_reader_error(rd) == mpack_ok) { use_bytes(p, n); hh = hash_bytes(p, n, hh); } else HX_CHECK(p == NULL, "inplace", "a pointer was returned with an error"); break; }
                    case 2: { if (n > 300000) { mpack_skip_bytes(rd, n); break; } Guard g(n); if (ty == mpack_type_str && r.chance(1, 2)) mpack_read_utf8(rd, g.p, n); else mpack_read_bytes(rd, g.p, n); if (mpack_reader_error(rd) == mpack_ok) use_bytes(g.p, n); break; }
                    case 3: if (ty == mpack_type_str) { Guard g(1 + r.below(n < 4000 ? n + 3 : 4000)); if (r.chance(1, 2)) mpack_read_cstr(rd, g.p, g.n, n); else mpack_read_utf8_cstr(rd, g.p, g.n, n); HX_CHECK(memchr(g.p, 0, g.n), "unterminated", "no terminator"); break; } // fallthrough
                    default: { char* p = mpack_read_bytes_alloc(rd, n); if (p) use_bytes(p, n); HX_CHECK(p == NULL || mpack_reader_error(rd) == mpack_ok, "alloc", "memory was returned with an error"); MPACK_FREE(p); }
                }
                if (mpack_reader_error(rd) == mpack_ok) mpack_done_type(rd, ty);
            }
        }
        if (mpack_reader_error(rd) == mpack_ok && !left.empty()) { const char* p; size_t n; if (HX_TRACKED) mpack_reader_flag_error(rd, mpack_error_data); else { n = mpack_reader_remaining(rd, &p); use_bytes(p, n); } }
    }
    mpack_error_t was = mpack_reader_error(rd); bool own = was == mpack_ok;
    check_input(s.in, h);
    mpack_error_t e;
    if (own) { e = mpack_reader_destroy(rd); if (m == S_STDFILE && !s.close_when_done) fclose(s.fp); } else e = s.close();
    HX_CHECK(e == mpack_ok || s.log.errors == 1, "callback", "error %s, callback ran %d times", errname(e), s.log.errors);
    count("reader_calls", calls); count(e == mpack_ok ? "reader_ok" : "reader_error"); distinct(mix(hh, (uint64_t)how * 8 + (uint64_t)m)); eval();
}
static void tree_run(const Bytes& b, Rng& r) {
    TMode m = (TMode)r.below(NTREE); Tree t; size_t ms = r.chance(1, 6) ? 1 + r.below(b.size() + 2) : 0, mn = r.chance(1, 6) ? 1 + r.below(40) : 0;
    t.stalls = (unsigned)r.below(5); if (r.chance(1, 10)) { t.fail_read = (int64_t)r.below(6); t.fail_kind = (int)r.below(3); }
    t.open(b, m, r.chance(1, 3) ? 0 : r.chance(1, 2) ? -1 : 1 + (int)r.below(5), r.next(), ms, mn, 1 + r.below(300));
    note("tree %s max size %zu max nodes %zu", treename(m), ms, mn);
    bool early = t.error() != mpack_ok; uint64_t h = hash_bytes(t.in.p, t.in.n), hh = h, calls = 0; uint64_t c = 0; unsigned lim = r.chance(1, 4) ? 300 : 40;
    for (unsigned k = 0; k < 6 && t.error() == mpack_ok; ++k) {
        if (!t.parse(m == T_STREAM && r.chance(1, 2))) break;
        count("messages_parsed"); mpack_node_t pool[24]; unsigned n = 1; pool[0] = mpack_tree_root(&t.t);
        size_t sz = mpack_tree_size(&t.t); HX_CHECK(sz > 0 && sz <= b.size(), "size", "message size %zu of %zu bytes", sz, b.size());
        if (r.chance(1, 3)) { Res o; unsigned budget = 3000; visit(pool[0], &t.t, r, o, budget); for (uint64_t x : o.trace) hh = mix(hh, x); }
        for (unsigned i = 0; i < lim && (t.error() == mpack_ok || r.chance(7, 8)); ++i) { mpack_node_t ch; const char* nm = node_op(&t.t, pool[r.below(n)], r, ch, c); hh = hash_bytes(nm, strlen(nm), hh); if (n < 24) pool[n++] = ch; else pool[1 + r.below(23)] = ch; ++calls; }
    }
    check_input(t.in, h); mpack_error_t e = t.close();
    HX_CHECK(e == mpack_ok || early || t.log.errors == 1, "callback", "error %s, callback ran %d times", errname(e), t.log.errors);
    count("node_calls", calls); count(e == mpack_ok ? "tree_ok" : "tree_error"); distinct(mix(hh, 64 + (uint64_t)m)); eval();
}
static void deep(Rng& r) {
    size_t d = g_thorough ? r.range(500000, 4000000) : r.range(100000, 600000); int kind = (int)r.below(5); Bytes b; b.reserve(d * 2 + 8);
    while (b.size() < d) switch (kind) { case 0: b.push_back(0x91); break; case 1: b.push_back(0x81); b.push_back(0x01); break; case 2: b.push_back(0x81); break; case 3: b.push_back(0x92); b.push_back(0xc0); break; default: b.push_back(0xdd); b.push_back(0); b.push_back(0); b.push_back(0); b.push_back(1); }
    if (r.chance(1, 2)) b.push_back(0xc0);
    note("%zu bytes of nesting, kind %d", b.size(), kind);
    if (r.chance(1, 2)) reader_run(b, r, r.chance(1, 2) ? 2 : 1);
    else { TMode m = (TMode)r.below(NTREE); Tree t; t.open(b, m, 0, r.next(), 0, 0, 10); t.parse(false); mpack_error_t e = t.error(); if (e == mpack_ok) { mpack_node_t n = mpack_tree_root(&t.t); for (int i = 0; i < 1000; ++i) { if (mpack_node_type(n) == mpack_type_array) n = mpack_node_array_at(n, 0); else if (mpack_node_type(n) == mpack_type_map) n = mpack_node_map_value_at(n, 0); } } t.close(); }
    count("deep_nesting"); eval(); distinct(mix(b.size(), (uint64_t)kind));
}
void prop_case(uint64_t idx, Rng& r) {
    if (idx % 200 == 7) { deep(r); return; }
    GenOpt g; g.budget = r.chance(1, 5) ? 200 : 30; g.ext = MPACK_EXTENSIONS; g.bigstr = r.chance(1, 4); int kind = 0; Bytes b;
    unsigned k = (unsigned)r.below(8);
    if (k == 0) b = gen_hostile(r);
    else if (k <= 2) { V v = gen_value(r, g); enc(b, v, ST_RANDOM, &r); unsigned n = (unsigned)r.range(1, 6); while (n--) mutate(b, r); }
    else b = gen_input(r, &kind, g);
    if (r.chance(1, 5)) { int k2; Bytes c = gen_input(r, &k2, g); b.insert(b.end(), c.begin(), c.end()); }
    g_break_ok = false;
    note_hex("input", b.data(), log_len(b)); if (want_sample()) sample("%zu bytes, generator %u/%d", b.size(), k, kind);
    for (unsigned i = 0; i < 4; ++i) reader_run(b, r, i);
    for (unsigned i = 0; i < 3; ++i) tree_run(b, r);
}
