// C04: what is written is read back unchanged through every decoding interface.
#include "hx_sink.hpp"
#include "hx_tree.hpp"
using namespace hx;
const char* prop_rule() { return "case = a generated value written through a random sink and random entry points, then read back by the element walk, by expect calls, by the tree parser and re-written element by element (reader and node tags) from the written and from a non-shortest encoding; non-trivial = at least 2 elements; distinct by the written bytes"; }

static uint64_t f2b(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static uint64_t d2b(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }
// expect-driven decode of the elements d.ev[i..]; every element through a random suitable expect call
static size_t expect_ev(mpack_reader_t* rd, const Dec& d, size_t i, const uint8_t* in, Rng& r, uint64_t& calls) {
    const Ev& e = d.ev[i]; const uint8_t* p = in + e.pay(); ++calls;
#define OKX(c) HX_CHECK((c) && mpack_reader_error(rd) == mpack_ok, "roundtrip-expect", "element %zu (%s) at %zu: expect call gave a wrong value or error %s", i, kname(e.k), e.off, errname(mpack_reader_error(rd)))
    if (r.chance(1, 12) && e.k != K_STR && e.k != K_BIN && e.k != K_EXT && e.k != K_ARR && e.k != K_MAP) { mpack_expect_tag(rd, ev_tag(e)); OKX(true); return i + 1; }
    switch (e.k) {
        case K_NIL: mpack_expect_nil(rd); OKX(true); return i + 1;
        case K_BOOL: if (r.chance(1, 2)) OKX(mpack_expect_bool(rd) == (e.u != 0)); else { e.u ? mpack_expect_true(rd) : mpack_expect_false(rd); OKX(true); } return i + 1;
        case K_UINT:
            switch (r.below(8)) {
                case 0: if (e.u <= 0xff) { OKX(mpack_expect_u8(rd) == e.u); return i + 1; } // fallthrough
                case 1: if (e.u <= 0xffff) { OKX(mpack_expect_u16(rd) == e.u); return i + 1; } // fallthrough
                case 2: if (e.u <= 0xffffffffull) { OKX(mpack_expect_u32(rd) == e.u); return i + 1; } // fallthrough
                case 3: OKX(mpack_expect_u64(rd) == e.u); return i + 1;
                case 4: if (e.u <= 0x7f) { OKX((uint64_t)mpack_expect_i8(rd) == e.u); return i + 1; } // fallthrough
                case 5: if (e.u <= 0x7fffffff) { OKX((uint64_t)mpack_expect_i32(rd) == e.u); return i + 1; } // fallthrough
                case 6: if (e.u <= 0x7fffffffffffffffull) { OKX((uint64_t)mpack_expect_i64(rd) == e.u); return i + 1; } // fallthrough
                default: mpack_expect_uint_match(rd, e.u); OKX(true); return i + 1;
            }
        case K_INT: { int64_t v = e.i();
            switch (r.below(5)) {
                case 0: if (v >= -128) { OKX(mpack_expect_i8(rd) == v); return i + 1; } // fallthrough
                case 1: if (v >= -32768) { OKX(mpack_expect_i16(rd) == v); return i + 1; } // fallthrough
                case 2: if (v >= -2147483648ll) { OKX(mpack_expect_int(rd) == v); return i + 1; } // fallthrough
                case 3: OKX(mpack_expect_i64_range(rd, v, -1) == v); return i + 1;
                default: mpack_expect_int_match(rd, v); OKX(true); return i + 1;
            } }
#if MPACK_FLOAT
        case K_FLT: { bool s = r.chance(1, 2) || !MPACK_DOUBLE; float f = s ? mpack_expect_float_strict(rd) : mpack_expect_float(rd); OKX(abi_flt(f2b(f)) == abi_flt(e.u)); return i + 1; }
#else
        case K_FLT: OKX(mpack_expect_raw_float(rd) == e.u); return i + 1;
#endif
#if MPACK_DOUBLE
        case K_DBL: { double f = r.chance(1, 2) ? mpack_expect_double_strict(rd) : mpack_expect_double(rd); OKX(abi_dbl(d2b(f)) == abi_dbl(e.u)); return i + 1; }
#else
        case K_DBL: OKX(mpack_expect_raw_double(rd) == e.u); return i + 1;
#endif
        case K_STR: {
            bool nul = e.n && memchr(p, 0, e.n);
            switch (r.below(6)) {
                case 0: { OKX(mpack_expect_str(rd) == e.n); Guard g(e.n); mpack_read_bytes(rd, g.p, e.n); OKX(e.n == 0 || !memcmp(g.p, p, e.n)); mpack_done_str(rd); return i + 1; }
                case 1: { Guard g(e.n + r.below(3)); OKX(mpack_expect_str_buf(rd, g.p, g.n) == e.n && (e.n == 0 || !memcmp(g.p, p, e.n))); return i + 1; }
                case 2: if (!nul) { Guard g(e.n + 1 + r.below(3)); mpack_expect_cstr(rd, g.p, g.n); OKX(strlen(g.p) == e.n && !memcmp(g.p, p, e.n)); return i + 1; } // fallthrough
                case 3: if (!nul) { char* s = mpack_expect_cstr_alloc(rd, e.n + 1 + r.below(100)); OKX(s && strlen(s) == e.n && !memcmp(s, p, e.n)); hx_free(s); return i + 1; } // fallthrough
                case 4: if (ref_utf8(p, e.n, true)) { Guard g(e.n + r.below(3)); OKX(mpack_expect_utf8(rd, g.p, g.n) == e.n && (e.n == 0 || !memcmp(g.p, p, e.n))); return i + 1; } // fallthrough
                default: { Guard g(p, e.n); mpack_expect_str_match(rd, g.p, e.n); OKX(true); return i + 1; }
            } }
        case K_BIN:
            switch (r.below(4)) {
                case 0: { OKX(mpack_expect_bin(rd) == e.n); Guard g(e.n); mpack_read_bytes(rd, g.p, e.n); OKX(e.n == 0 || !memcmp(g.p, p, e.n)); mpack_done_bin(rd); return i + 1; }
                case 1: { Guard g(e.n + r.below(3)); OKX(mpack_expect_bin_buf(rd, g.p, g.n) == e.n && (e.n == 0 || !memcmp(g.p, p, e.n))); return i + 1; }
                case 2: { Guard g(e.n); mpack_expect_bin_size_buf(rd, g.p, e.n); OKX(e.n == 0 || !memcmp(g.p, p, e.n)); return i + 1; }
                default: { size_t sz = 999; char* s = mpack_expect_bin_alloc(rd, e.n + r.below(9), &sz); OKX(sz == e.n && (e.n == 0 || (s && !memcmp(s, p, e.n)))); hx_free(s); return i + 1; }
            }
#if MPACK_EXTENSIONS
        case K_EXT: { int8_t t = 99;
            switch (r.below(3)) {
                case 0: { OKX(mpack_expect_ext(rd, &t) == e.n && t == e.et); Guard g(e.n); mpack_read_bytes(rd, g.p, e.n); OKX(e.n == 0 || !memcmp(g.p, p, e.n)); mpack_done_ext(rd); return i + 1; }
                case 1: { Guard g(e.n + r.below(3)); OKX(mpack_expect_ext_buf(rd, &t, g.p, g.n) == e.n && t == e.et && (e.n == 0 || !memcmp(g.p, p, e.n))); return i + 1; }
                default: { size_t sz = 999; char* s = mpack_expect_ext_alloc(rd, &t, e.n + r.below(9), &sz); OKX(sz == e.n && t == e.et && (e.n == 0 || (s && !memcmp(s, p, e.n)))); hx_free(s); return i + 1; }
            } }
#endif
        case K_ARR: case K_MAP: {
            bool a = e.k == K_ARR; uint32_t n = 77; bool nn;
            switch (r.below(5)) {
                case 0: n = a ? mpack_expect_array(rd) : mpack_expect_map(rd); break;
                case 1: n = a ? mpack_expect_array_max(rd, e.n) : mpack_expect_map_max(rd, e.n); break;
                case 2: n = a ? mpack_expect_array_range(rd, e.n, e.n) : mpack_expect_map_range(rd, e.n, 0xffffffffu); break;
                case 3: a ? mpack_expect_array_match(rd, e.n) : mpack_expect_map_match(rd, e.n); n = e.n; break;
                default: nn = a ? mpack_expect_array_or_nil(rd, &n) : mpack_expect_map_or_nil(rd, &n); OKX(nn);
            }
            OKX(n == e.n);
            size_t j = i + 1; uint64_t total = a ? e.n : 2 * (uint64_t)e.n;
            for (uint64_t k = 0; k < total; ++k) j = expect_ev(rd, d, j, in, r, calls);
            a ? mpack_done_array(rd) : mpack_done_map(rd);
            OKX(j == e.next); return j; }
        default: return i + 1;
    }
}
static void rewrite_reader(mpack_reader_t* rd, mpack_writer_t* w, Rng& r) {
    mpack_tag_t t = mpack_read_tag(rd);
    if (mpack_reader_error(rd) != mpack_ok) return;
    mpack_write_tag(w, t);
    switch (mpack_tag_type(&t)) {
        case mpack_type_str: case mpack_type_bin:
#if MPACK_EXTENSIONS
        case mpack_type_ext:
#endif
        { uint32_t n = mpack_tag_bytes(&t), at = 0; while (at < n) { uint32_t k = r.chance(1, 2) ? n - at : 1 + (uint32_t)r.below(n - at); Guard g(k); mpack_read_bytes(rd, g.p, k); mpack_write_bytes(w, g.p, k); at += k; }
          mpack_done_type(rd, mpack_tag_type(&t)); mpack_finish_type(w, mpack_tag_type(&t)); break; }
        case mpack_type_array: for (uint32_t k = mpack_tag_array_count(&t); k--;) rewrite_reader(rd, w, r); mpack_done_array(rd); mpack_finish_array(w); break;
        case mpack_type_map: for (uint32_t k = mpack_tag_map_count(&t); k--;) { rewrite_reader(rd, w, r); rewrite_reader(rd, w, r); } mpack_done_map(rd); mpack_finish_map(w); break;
        default: break;
    }
}
static void rewrite_node(mpack_node_t n, mpack_writer_t* w) {
    mpack_tag_t t = mpack_node_tag(n); mpack_write_tag(w, t);
    switch (mpack_tag_type(&t)) {
        case mpack_type_str: case mpack_type_bin:
#if MPACK_EXTENSIONS
        case mpack_type_ext:
#endif
            mpack_write_bytes(w, mpack_node_data(n), mpack_node_data_len(n)); mpack_finish_type(w, mpack_tag_type(&t)); break;
        case mpack_type_array: for (size_t i = 0; i < mpack_node_array_length(n); ++i) rewrite_node(mpack_node_array_at(n, i), w); mpack_finish_array(w); break;
        case mpack_type_map: for (size_t i = 0; i < mpack_node_map_count(n); ++i) { rewrite_node(mpack_node_map_key_at(n, i), w); rewrite_node(mpack_node_map_value_at(n, i), w); } mpack_finish_map(w); break;
        default: break;
    }
}
static void same(const char* key, const Bytes& got, const Bytes& want) {
    if (got != want) { note_hex("got", got); note_hex("want", want); fail(key, "%zu bytes, expected %zu", got.size(), want.size()); }
}
static SinkMode any_sink(Rng& r) { return (SinkMode)(MPACK_STDIO ? (int)r.range(1, 4) : (int)r.range(1, 2)); }
static void decode_all(const Bytes& b, const Bytes& shortest, Rng& r, size_t nodes) {
    Dec d = decode(b); HX_CHECK(d.err == D_OK && d.used == b.size(), "roundtrip-bytes", "the written bytes are not one complete message");
    for (int k = 0; k < 2; ++k) {
        WalkOpt o; WalkRes w; memset(&w, 0, sizeof w); Src s;
        SrcMode m = (SrcMode)r.below(MPACK_STDIO ? 6 : 3); if (m == S_STDFILE && !MPACK_STDIO) m = S_DATA; if (!MPACK_STDIO && m > S_FILLSKIP) m = S_FILL;
        s.open(b, m, pick_bufsize(r), r.chance(1, 2) ? -1 : 0, r.next()); note("reader source %s", srcname(m));
        if (k == 0) { bool ok = walk(s, d, r, o, w, "roundtrip"); HX_CHECK(ok, "roundtrip-walk", "reading back failed"); count("elements_walked", w.elements); }
        else { uint64_t calls = 0; size_t j = expect_ev(&s.r, d, 0, s.bytes(), r, calls); HX_CHECK(j == d.ev.size(), "roundtrip-expect", "structure"); count("expect_calls", calls); }
        if (m == S_DATA) HX_CHECK(mpack_reader_remaining(&s.r, NULL) == 0, "roundtrip-left", "bytes left over");
        mpack_error_t e = s.close(); HX_CHECK(e == mpack_ok, "roundtrip-error", "%s", errname(e));
    }
    { Src s; s.open(b, S_DATA, 0, 0, 1); Sink k; k.open(any_sink(r), 32 + r.below(200), r.next()); rewrite_reader(&s.r, &k.w, r);
      HX_CHECK(s.close() == mpack_ok && k.close() == mpack_ok, "rewrite-error", "re-writing read elements failed"); same("rewrite-elements", k.out, shortest); count("rewrites"); }
    Tree t; TMode m = (TMode)r.below(T_USABLE); t.open(b, m, r.chance(1, 2) ? -1 : 0, r.next(), 0, 0, nodes);
    bool ok = t.parse(r.chance(1, 2)); HX_CHECK(ok && mpack_tree_size(&t.t) == b.size(), "roundtrip-tree", "tree rejected the written message: %s", errname(t.error()));
    TreeStats st = {0, 0, 0}; tree_match(mpack_tree_root(&t.t), d, t.bytes(), false, r, st, "roundtrip"); count("nodes_compared", st.nodes);
    { Sink k; k.open(any_sink(r), 32 + r.below(200), r.next()); rewrite_node(mpack_tree_root(&t.t), &k.w); HX_CHECK(k.close() == mpack_ok && t.error() == mpack_ok, "rewrite-error", "re-writing nodes failed"); same("rewrite-nodes", k.out, shortest); count("rewrites"); }
    t.close(); eval();
}
void prop_case(uint64_t idx, Rng& r) {
    GenOpt g; g.budget = r.chance(1, 10) ? 300 : 30; g.wide = r.chance(1, 60); g.maxdepth = r.chance(1, 8) ? 25 : 6;
#if !MPACK_EXTENSIONS
    g.ext = false;
#endif
    V v = gen_value(r, g); Bytes shortest; enc(shortest, v, ST_SHORT); size_t nodes = node_count(v);
    { char d[400]; describe(v, d, sizeof d); note("value %s", d); if (want_sample()) sample("%s (%zu bytes)", d, shortest.size()); }
    note_hex("shortest", shortest);
    for (int k = 0; k < 2; ++k) {
        Sink s; SinkMode m = any_sink(r); s.open(m, 32 + r.below(300), r.next()); note("sink %s", sinkname(m));
        EmitOpt o; o.build = r.chance(1, 2) ? 30 : 0; emit(&s.w, v, r, o);
        mpack_error_t e = s.close(); HX_CHECK(e == mpack_ok, "write-error", "writing failed: %s", errname(e));
        Dec dw = decode(s.out), dv = decode(shortest);
        HX_CHECK(dw.err == D_OK && dw.used == s.out.size() && dw.ev.size() == dv.ev.size(), "roundtrip-bytes", "written bytes decode to %zu elements, %zu expected", dw.ev.size(), dv.ev.size());
        for (size_t i = 0; i < dw.ev.size(); ++i) HX_CHECK(equal_ev(dw.ev[i], s.out.data(), dv.ev[i], shortest.data()), "roundtrip-bytes", "element %zu written differently", i);
        decode_all(s.out, shortest, r, nodes);
    }
    Bytes b; enc(b, v, ST_RANDOM, &r); note_hex("other encoding", b); decode_all(b, shortest, r, nodes);
    if (nodes > 1) distinct(hash_bytes(shortest));
}
