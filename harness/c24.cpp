// C24: the same program leaves the same transcript in every build configuration.
// Each case runs a fixed set of scripts; their digests are recorded and compared
// across configurations by the driver (tools/registry.py, post_c24).
#include "hx_script.hpp"
using namespace hx;
const char* prop_rule() { return "case = one input (valid, mutated, hostile or random) plus one generated value, run through fixed scripts of reader, expect, tree, node, writer, builder and tag calls on several sources and sinks, in every configuration; every value, length, content and error goes into a transcript whose digests are compared across configurations offline; non-trivial = the transcript has at least one decoded or encoded element; distinct by transcript"; }
enum { M_EXT = 1, M_FLT = 2, M_COMPAT = 4, M_BUILD = 8, M_STDIO = 16, M_64 = 32, M_MALLOC = 64 }; // M_64: the input claims a size that a 32-bit platform cannot represent in memory
static const unsigned HAVE = (MPACK_EXTENSIONS ? M_EXT : 0) | (MPACK_FLOAT && MPACK_DOUBLE ? M_FLT : 0) | (MPACK_COMPATIBILITY ? M_COMPAT : 0) | (MPACK_BUILDER ? M_BUILD : 0) | (MPACK_STDIO ? M_STDIO : 0) | (sizeof(size_t) == 8 ? M_64 : 0) |
#ifdef MPACK_MALLOC
    M_MALLOC;
#else
    0;
#endif
static unsigned byte_mask(const Bytes& b) { unsigned m = 0; for (size_t i = 0; i + 1 < b.size(); ++i) if ((b[i] == 0xdb || b[i] == 0xc6 || b[i] == 0xc9 || b[i] == 0xdd || b[i] == 0xdf) && b[i + 1] >= 4) m |= M_64; for (uint8_t c : b) { if ((c >= 0xc7 && c <= 0xc9) || (c >= 0xd4 && c <= 0xd8)) m |= M_EXT; if (c == 0xca || c == 0xcb) m |= M_FLT; } return m; }
static const char* const STAGES[] = {"input", "reader over data", "reader over a fill function", "reader over a file", "tree over data", "tree misuse", "tree with limits", "tree stream", "tree over a file", "writer", "writer with too little room", "writer with builders", "writer errors", "timestamps", "tags", "reserved byte", "text expected where a reserved byte or an incomplete element of another type stands"};
static void rec(unsigned stage, unsigned mask, Script& s) {
    log_record(stage, mask, s.h); count("transcripts"); count("transcript_steps", s.steps); distinct(s.h); eval();
    if (g_verbose) fprintf(stderr, "HXSTAGE %u %s\n%s", stage, STAGES[stage], s.text.c_str());
}
static void read_all(Src& src, const Bytes& in, uint64_t seed, Script& s, bool inplace) {
    size_t at = 0; for (unsigned m = 0; m < 4; ++m) { Dec d = decode(in, at); s.t("message", m); if (sc_message(&src.r, seed + m, s, d, in, inplace) != mpack_ok) break; if (d.err != D_OK) break; at += d.used; }
    mpack_error_t e = mpack_reader_error(&src.r); bool own = e == mpack_ok;
    if (own && src.mode == S_DATA) { e = mpack_reader_destroy(&src.r); } else e = src.close();
    s.t("final", (uint64_t)e); s.t("callbacks", (uint64_t)src.log.errors);
}
// buffers on the stack through the macros, the aliases, and the memory functions the library uses or brings along
static void st_flush(mpack_writer_t* w, const char* p, size_t n) { Bytes* b = (Bytes*)mpack_writer_context(w); b->insert(b->end(), p, p + n); }
struct StSrc { const Bytes* b; size_t at; };
static size_t st_fill(mpack_reader_t* rd, char* p, size_t n) { StSrc* s = (StSrc*)mpack_reader_context(rd); size_t k = s->b->size() - s->at; if (k > n) k = n; if (k > 7) k -= 3; memcpy(p, s->b->data() + s->at, k); s->at += k; return k; }
static void small_parts(const V& v, const Bytes& e, Rng r) {
    { Bytes out; mpack_writer_t w; mpack_writer_init_stack(&w); mpack_writer_set_context(&w, &out); mpack_writer_set_flush(&w, st_flush); EmitOpt o; o.build = 0; Rng q(r.next()); emit(&w, v, q, o); mpack_error_t x = mpack_writer_destroy(&w); HX_CHECK(x == mpack_ok && out == e, "stack-writer", "a writer on the stack: %s, %zu bytes instead of %zu", errname(x), out.size(), e.size()); }
    { StSrc s = {&e, 0}; mpack_reader_t rd; mpack_reader_init_stack(&rd); mpack_reader_set_context(&rd, &s); mpack_reader_set_fill(&rd, st_fill); mpack_discard(&rd); HX_CHECK(mpack_reader_error(&rd) == mpack_ok && s.at == e.size() && mpack_reader_remaining(&rd, NULL) == 0, "stack-reader", "a reader on the stack: %s after %zu of %zu bytes", errname(mpack_reader_error(&rd)), s.at, e.size()); mpack_read_tag(&rd); HX_CHECK(mpack_reader_destroy(&rd) == mpack_error_io, "stack-reader", "end of data"); }
#ifdef MPACK_MALLOC
    { Guard g(e); mpack_tree_t t; mpack_tree_init(&t, g.p, g.n); mpack_tree_parse(&t); HX_CHECK(mpack_tree_size(&t) == e.size() && mpack_tree_destroy(&t) == mpack_ok, "tree-init", "tree over %zu bytes", e.size()); }
#endif
    { size_t n = (size_t)r.below(70); Bytes a(n + 40), b; for (auto& c : a) c = (uint8_t)r.below(4); b = a; size_t from = (size_t)r.below(40), to = r.chance(1, 2) ? from + (size_t)r.below(6) : (size_t)r.below(40); if (to > 39) to = 39; Guard x(a); memmove(b.data() + to, b.data() + from, n); void* q = mpack_memmove(x.p + to, x.p + from, n); HX_CHECK(q == x.p + to && !memcmp(x.p, b.data(), b.size()), "memory-functions", "memmove of %zu from %zu to %zu", n, from, to);
      Guard y(a); memset(b.data(), 0x1c3, n); q = mpack_memset(x.p, 0x1c3, n); HX_CHECK(q == x.p && !memcmp(x.p, b.data(), b.size()), "memory-functions", "memset of %zu", n);
      int c = mpack_memcmp(x.p + from, y.p + to, n), d = memcmp(x.p + from, y.p + to, n); HX_CHECK((c < 0) == (d < 0) && (c > 0) == (d > 0), "memory-functions", "memcmp of %zu gives %d instead of %d", n, c, d);
      Bytes t = a; t.resize(n); for (auto& k : t) k |= 0x80; t.push_back(0); Guard z(t); HX_CHECK(mpack_strlen(z.p) == n, "memory-functions", "strlen of %zu gives %zu", n, mpack_strlen(z.p)); Guard u(n + 1); q = mpack_memcpy(u.p, z.p, n + 1); HX_CHECK(q == u.p && !memcmp(u.p, z.p, n + 1), "memory-functions", "memcpy of %zu", n); }
    count("small_parts");
}
void prop_case(uint64_t idx, Rng& r) {
    (void)idx; g_quiet_nans = true;
    GenOpt g; g.budget = r.chance(1, 6) ? 120 : 25; g.ext = r.chance(1, 2); g.flt = r.chance(1, 2); g.bigstr = r.chance(1, 5); int kind = 0;
    Bytes in; bool valid = r.chance(1, 2);
    if (valid) { V v = gen_value(r, g); enc(in, v, ST_RANDOM, &r); if (r.chance(1, 3)) { V v2 = gen_value(r, g); enc(in, v2, ST_RANDOM, &r); } } else in = gen_input(r, &kind, g);
    V v = gen_value(r, g);
    uint64_t base = r.next(); unsigned bm = byte_mask(in); bool fltcalls = r.chance(1, 2); if (fltcalls) bm |= M_FLT; bool extcalls = r.chance(2, 3); if (extcalls) bm |= M_EXT;
    note_hex("input", in.data(), in.size() < 3000 ? in.size() : 3000); if (want_sample()) sample("%zu input bytes, %zu-node value", in.size(), node_count(v));
    { Script s(g_verbose); Bytes e; enc(e, v, ST_SHORT); s.data("input", in.data(), in.size()); s.data("value", e.data(), e.size()); log_record(0, 0, s.h); }
    // where input lacks a disabled feature's bytes, every configuration must agree
    if ((bm & ~HAVE & (M_EXT | M_FLT | M_64)) == 0) {
        for (unsigned m = 0; m < 3; ++m) { // in memory, fill, file
            if (m == 2 && !(HAVE & M_STDIO)) continue;
            Rng q(base + m); Script s(g_verbose); s.flt = fltcalls; s.ext = extcalls; Src src; uint64_t pick = q.below(3), bs = 32 + q.below(q.chance(1, 2) ? 100 : 3000), seed = q.next(); int chunk = (int)q.below(10) - 1;
            SrcMode mode = m == 0 ? S_DATA : m == 1 ? (pick == 0 ? S_FILL : pick == 1 ? S_FILLSKIP : S_PREFILL) : pick == 0 ? S_STDFILE : S_FILENAME;
            src.open(in, mode, bs, chunk, seed); read_all(src, in, base + 77, s, m != 2);
            rec(1 + m, bm | (m == 2 ? M_STDIO : 0), s);
        }
        unsigned deep = 0; { Dec d = decode(in); for (auto& e : d.ev) if (e.depth >= 31 && e.n && (e.k == K_ARR || e.k == K_MAP)) deep = M_MALLOC; } // nested too deeply for a build without an allocator
        for (unsigned m = 0; m < 5; ++m) {
            if (m == 4 && !(HAVE & M_STDIO)) continue;
            if (((m >= 3 ? M_MALLOC : deep) & ~HAVE)) continue;
            Rng q(base + 10 + m); Script s(g_verbose); s.flt = fltcalls; s.ext = extcalls; Tree t; uint64_t seed = q.next(); size_t ms = 0, mn = 0, pool = 1 + q.below(200); int chunk = (int)q.below(8) - 1; TMode mode = T_DATA;
            if (m == 2) { Dec d = decode(in); size_t nn = d.err == D_OK ? ev_nodes(d) : 10, nb = d.err == D_OK ? d.used : in.size(); if (q.chance(1, 2)) ms = 1 + q.below(nb + 3); if (q.chance(1, 2)) mn = 1 + q.below(nn + 3); if (q.chance(1, 2)) { mode = T_POOL; pool = 1 + q.below(nn + 3); } }
            if (m == 3) mode = T_STREAM;
            if (m == 4) mode = q.chance(1, 2) ? T_STDFILE : T_FILENAME;
            t.open(in, mode, chunk, seed, ms, mn, pool); s.t("open", (uint64_t)t.error());
            for (unsigned k = 0; k < 3 && t.error() == mpack_ok; ++k) {
                bool p = t.parse(false); s.t("parse", p); s.t("err", (uint64_t)t.error()); if (!p) break;
                s.t("size", mpack_tree_size(&t.t)); unsigned budget = 2000; sc_node(s, mpack_tree_root(&t.t), q, 0, budget, m == 1); s.t("after", (uint64_t)t.error());
            }
            mpack_error_t e = t.close(); s.t("final", (uint64_t)e); s.t("callbacks", (uint64_t)t.log.errors);
            rec(4 + m, bm | (m == 4 ? M_STDIO : 0) | (m >= 3 ? M_MALLOC : deep), s);
        }
        { // tags of the first elements compared with each other
            Dec d = decode(in); Script s(g_verbose); size_t n = d.ev.size() < 12 ? d.ev.size() : 12;
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { mpack_tag_t a = ev_tag(d.ev[i]), b = ev_tag(d.ev[j]); if (d.ev[i].k == K_FLT || d.ev[i].k == K_DBL) continue; int c = mpack_tag_cmp(a, b); s.t("cmp", (uint64_t)(c < 0 ? 1 : c > 0 ? 2 : 0)); s.t("equal", mpack_tag_equal(a, b)); }
            rec(14, bm, s);
        }
    }
    Bytes e; enc(e, v, ST_SHORT); unsigned vm = byte_mask(e); bool hasx = has_ext(v);
    if ((vm & ~HAVE & (M_EXT | M_FLT | M_64)) == 0) small_parts(v, e, Rng(base + 70));
    if ((vm & ~HAVE & (M_EXT | M_FLT | M_64)) == 0) {
        for (unsigned m = 0; m < 3; ++m) { // plenty of room, too little room, builders
            unsigned mask = vm; if (m == 2) mask |= M_BUILD;
            Rng q(base + 30 + m); bool v4 = q.chance(1, 4) && !hasx; if (v4) mask |= M_COMPAT;
            uint64_t sm = q.below(3), bs = e.size() * 2 + 64, seed = q.next(), es = q.next(); if (m == 1) bs = sm == W_FLUSH ? 32 + q.below(60) : q.below(e.size() + 4);
            if (mask & ~HAVE) continue;
            Script s(g_verbose); Sink k; k.open((SinkMode)(m == 1 && sm == W_GROW ? W_FIXED : sm), (size_t)bs, seed);
#if MPACK_COMPATIBILITY
            if (v4) mpack_writer_set_version(&k.w, mpack_version_v4);
#endif
            EmitOpt o; o.v4 = v4; o.build = m == 2 ? 40 : 0; Rng er(es); emit(&k.w, v, er, o); s.t("err", (uint64_t)mpack_writer_error(&k.w));
            mpack_error_t fe = k.close(); s.t("final", (uint64_t)fe); s.t("callbacks", (uint64_t)k.log.errors); if (fe == mpack_ok) s.data("out", k.out.data(), k.out.size());
            rec(9 + m, mask, s);
        }
        { // errors: a failing sink, or invalid text (how much was delivered before is the business of flush points, not compared)
            Rng q(base + 40); Script s(g_verbose); Sink k; k.open(W_FLUSH, 32 + q.below(100), 1); uint64_t w = q.below(4); if (w < 3) k.fail_flush = 0; k.fail_err = w == 0 ? mpack_error_io : w == 1 ? mpack_error_data : mpack_error_too_big;
            EmitOpt o; o.build = 0; Rng er(base + 41); mpack_start_array(&k.w, 3); emit(&k.w, v, er, o); Bytes t = gen_str(q, q.below(60), w < 3 ? 1 : 2); { Guard x(t); mpack_write_utf8(&k.w, x.p, (uint32_t)x.n); } mpack_write_u32(&k.w, 5); mpack_finish_array(&k.w);
            mpack_error_t fe = k.close(); s.t("final", (uint64_t)fe); s.t("callbacks", (uint64_t)k.log.errors); if (fe == mpack_ok) s.data("out", k.out.data(), k.out.size()); rec(12, vm, s);
        }
    }
#if MPACK_EXTENSIONS
    { Script s(g_verbose); Rng q(base + 50); Sink k; k.open(W_GROW, 0, 1); for (unsigned i = 0; i < 4; ++i) { int64_t sec = (int64_t)gen_u64(q); uint32_t ns = (uint32_t)q.below(1000000000u); uint64_t z = q.below(3); if (z == 0) ns = 0; if (z == 1) mpack_write_timestamp_seconds(&k.w, sec); else mpack_write_timestamp(&k.w, sec, ns); }
      mpack_error_t fe = k.close(); s.t("final", (uint64_t)fe); s.data("out", k.out.data(), k.out.size());
      Src src; src.open(k.out, S_DATA, 64, 0, 1); for (unsigned i = 0; i < 4; ++i) { mpack_timestamp_t t = mpack_expect_timestamp(&src.r); s.t("s", (uint64_t)t.seconds); s.t("ns", t.nanoseconds); } s.t("end", (uint64_t)src.close());
      Bytes bad = k.out; for (unsigned i = 0; i < 3; ++i) { size_t p = (size_t)q.below(bad.size()); uint8_t x = (uint8_t)q.next(); bad[p] = x; }
      Src s2; s2.open(bad, S_DATA, 64, 0, 1); for (unsigned i = 0; i < 4; ++i) { size_t at = bad.size() - (mpack_reader_error(&s2.r) == mpack_ok ? mpack_reader_remaining(&s2.r, NULL) : 0); if (at < bad.size() && bad[at] == 0xc1) break; mpack_timestamp_t t = mpack_expect_timestamp(&s2.r); s.t("s", (uint64_t)t.seconds); s.t("ns", t.nanoseconds); } if (mpack_reader_error(&s2.r) == mpack_ok) mpack_reader_flag_error(&s2.r, mpack_error_data); s.t("end", (uint64_t)s2.close());
      rec(13, M_EXT, s); }
#endif
    for (unsigned k = 0; k < 2; ++k) { // a byte that starts no element, or an incomplete one, expected as something
        Rng q(base + 60 + k); Script s(g_verbose); Bytes b; bool res = k == 0 || q.chance(1, 2); if (res) { b.push_back(0xc1); b.push_back(0); b.push_back(0); } else { b.push_back(0xcd); b.push_back(1); }
        uint64_t what = q.below(k ? 6 : 11); Src src; src.open(b, S_DATA, 64, 0, 1); mpack_reader_t* rd = &src.r; s.t("reserved", res); s.t("what", what); char buf[8];
        if (k == 0) switch (what) { case 0: mpack_expect_nil(rd); break; case 1: mpack_expect_bool(rd); break; case 2: mpack_expect_false(rd); break; case 3: mpack_expect_u8(rd); break; case 4: mpack_expect_i64(rd); break; case 5: mpack_expect_bin(rd); break; case 6: mpack_expect_array(rd); break; case 7: mpack_expect_map(rd); break; case 8: mpack_expect_bin_buf(rd, buf, sizeof buf); break; case 9: mpack_expect_true(rd); break; default: mpack_discard(rd); }
        else switch (what) { case 0: mpack_expect_str(rd); break; case 1: mpack_expect_cstr(rd, buf, sizeof buf); break; case 2: mpack_expect_str_buf(rd, buf, sizeof buf); break; case 3: mpack_expect_str_max(rd, 5); break; case 4: mpack_expect_cstr_match(rd, "a"); break; default: MPACK_FREE(mpack_expect_utf8_cstr_alloc(rd, 100)); }
        s.t("err", (uint64_t)src.close()); rec(15 + k, 0, s);
    }
}
