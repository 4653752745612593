// C19: UTF-8 and NUL checks accept exactly valid text in every checking API.
#include "hx_num.hpp"
#include "hx_tree.hpp"
#include "hx_sink.hpp"
using namespace hx;
const char* prop_rule() { return "case = (a) for one lead byte, every 1-, 2- and 3-byte string and all 4-byte strings over boundary bytes (each also at the start, middle and end of longer text) through the checking write, read, expect and node calls; (b) strings assembled from well-formed characters of every length class, every kind of ill-formed sequence and NULs, at random positions and lengths, through every checking and non-checking call over memory, chunked, file and tree sources; non-trivial = every (string, call); distinct by (string, call)"; }

static void out_check(const char* api, const Bytes& s, bool want, bool ok, const char* extra = "") { if (want != ok) { note_hex("string", s); fail("text-verdict", "%s %s the string although it is %s%s", api, ok ? "accepted" : "rejected", want ? "acceptable" : "not acceptable", extra); } eval(); count(want ? "accepted" : "rejected"); }

//---- cheap whole-string verdicts for exhaustive enumeration
static bool w_utf8(const char* p, size_t n) {
    char buf[64]; mpack_writer_t w; mpack_writer_init(&w, buf, sizeof buf); mpack_write_utf8(&w, p, (uint32_t)n);
    size_t used = mpack_writer_buffer_used(&w); mpack_error_t e = mpack_writer_destroy(&w);
    HX_CHECK(e == mpack_ok ? used == n + 1 + (n > 31) && !memcmp(buf + used - n, p, n) : e == mpack_error_invalid, "write-result", "write_utf8 of %zu bytes: %s, %zu bytes out", n, errname(e), used);
    return e == mpack_ok;
}
static bool n_utf8(const char* msg, size_t n, bool nonul) {
    mpack_node_data_t pool[1]; mpack_tree_t t; mpack_tree_init_pool(&t, msg, n, pool, 1); mpack_tree_parse(&t); mpack_node_t root = mpack_tree_root(&t);
    if (nonul) mpack_node_check_utf8_cstr(root); else mpack_node_check_utf8(root);
    mpack_error_t e = mpack_tree_destroy(&t); HX_CHECK(e == mpack_ok || e == mpack_error_type, "node-result", "node check: %s", errname(e)); return e == mpack_ok;
}
static bool r_utf8(const char* msg, size_t n, size_t len, int how) {
    mpack_reader_t r; mpack_reader_init_data(&r, msg, n); char buf[80];
    switch (how) {
        case 0: mpack_expect_utf8(&r, buf, sizeof buf); break;
        case 1: mpack_expect_utf8_cstr(&r, buf, sizeof buf); break;
        case 2: mpack_expect_cstr(&r, buf, sizeof buf); break;
        case 3: { uint32_t k = mpack_expect_str(&r); mpack_read_utf8_inplace(&r, k); if (mpack_reader_error(&r) == mpack_ok) mpack_done_str(&r); break; }
        default: { uint32_t k = mpack_expect_str(&r); mpack_read_utf8(&r, buf, k); if (mpack_reader_error(&r) == mpack_ok) mpack_done_str(&r); break; }
    }
    (void)len; mpack_error_t e = mpack_reader_destroy(&r); HX_CHECK(e == mpack_ok || e == mpack_error_type, "read-result", "read check %d: %s", how, errname(e)); return e == mpack_ok;
}
static void short_one(const uint8_t* p, size_t n, unsigned api) {
    char msg[40]; bool u = ref_utf8(p, n, true), un = ref_utf8(p, n, false), nn = !memchr(p, 0, n); bool want, got; const char* name;
    msg[0] = (char)(0xa0 + n); memcpy(msg + 1, p, n); Bytes s;
    switch (api % 8) {
        case 0: name = "write_utf8"; want = u; got = w_utf8((const char*)p, n); break;
        case 1: name = "node_check_utf8"; want = u; got = n_utf8(msg, n + 1, false); break;
        case 2: name = "node_check_utf8_cstr"; want = un; got = n_utf8(msg, n + 1, true); break;
        case 3: name = "expect_utf8"; want = u; got = r_utf8(msg, n + 1, n, 0); break;
        case 4: name = "expect_utf8_cstr"; want = un; got = r_utf8(msg, n + 1, n, 1); break;
        case 5: name = "expect_cstr"; want = nn; got = r_utf8(msg, n + 1, n, 2); break;
        case 6: name = "read_utf8_inplace"; want = u; got = r_utf8(msg, n + 1, n, 3); break;
        default: name = "read_utf8"; want = u; got = r_utf8(msg, n + 1, n, 4); break;
    }
    if (want != got) { s.assign(p, p + n); out_check(name, s, want, got); }
}
static uint64_t g_short;
static void padded(const uint8_t* p, size_t n, Rng& r) {
    short_one(p, n, (unsigned)g_short++);
    if (r.chance(1, 4)) { // in context
        uint8_t b[31]; size_t pre = r.below(13), post = r.below(13); memset(b, 'a', sizeof b); memcpy(b + pre, p, n);
        if (r.chance(1, 2) && pre >= 2) { b[pre - 2] = 0xc3; b[pre - 1] = 0xbf; } short_one(b, pre + n + post, (unsigned)g_short++);
    }
}
static void exhaustive(unsigned lead, Rng& r, bool all) {
    uint8_t b[8]; b[0] = (uint8_t)lead; padded(b, 1, r); uint64_t before = g_short;
    static const uint8_t edge[] = {0x00,0x01,0x2f,0x40,0x7f,0x80,0x81,0x8f,0x90,0x9f,0xa0,0xaf,0xb0,0xbf,0xc0,0xc1,0xc2,0xdf,0xe0,0xef,0xf0,0xf4,0xf7,0xf8,0xff};
    for (unsigned i = 0; i < 256; ++i) { b[1] = (uint8_t)i; for (int k = 0; k < 8; ++k) { short_one(b, 2, (unsigned)k); } g_short += 8;
        if (all) for (unsigned j = 0; j < 256; ++j) { b[2] = (uint8_t)j; padded(b, 3, r); }
        else for (uint8_t j : edge) { b[2] = j; padded(b, 3, r); }
        for (uint8_t j : edge) for (uint8_t k : edge) { b[2] = j; b[3] = k; padded(b, 4, r); if (r.chance(1, 20)) { b[4] = r.pick(edge); padded(b, 5, r); } } }
    eval(g_short - before); count("exhaustive_strings", g_short - before); distinct(mix(lead, 77));
}

//---- random structured text through every API
static void put_cp(Bytes& o, uint32_t c, int len) {
    if (len == 1) o.push_back((uint8_t)c);
    else if (len == 2) { o.push_back((uint8_t)(0xc0 | (c >> 6))); o.push_back((uint8_t)(0x80 | (c & 63))); }
    else if (len == 3) { o.push_back((uint8_t)(0xe0 | (c >> 12))); o.push_back((uint8_t)(0x80 | ((c >> 6) & 63))); o.push_back((uint8_t)(0x80 | (c & 63))); }
    else { o.push_back((uint8_t)(0xf0 | (c >> 18))); o.push_back((uint8_t)(0x80 | ((c >> 12) & 63))); o.push_back((uint8_t)(0x80 | ((c >> 6) & 63))); o.push_back((uint8_t)(0x80 | (c & 63))); }
}
static void good_char(Bytes& o, Rng& r) {
    static const uint32_t lo[] = {1, 0x80, 0x800, 0x10000}, hi[] = {0x7f, 0x7ff, 0xffff, 0x10ffff}; static const uint32_t ed[] = {1,0x7f,0x80,0x7ff,0x800,0xd7ff,0xe000,0xfeff,0xfffe,0xffff,0x10000,0x3ffff,0x40000,0xfffff,0x100000,0x10ffff};
    uint32_t c; if (r.chance(1, 2)) c = r.pick(ed); else { int k = (int)r.below(4); c = (uint32_t)r.range(lo[k], hi[k]); } if (c >= 0xd800 && c <= 0xdfff) c = 0xe000;
    put_cp(o, c, c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4);
}
static void bad_seq(Bytes& o, Rng& r) {
    switch (r.below(9)) {
        case 0: o.push_back((uint8_t)r.range(0x80, 0xbf)); break;                        // stray continuation
        case 1: put_cp(o, (uint32_t)r.below(0x80), 2); break;                               // overlong
        case 2: put_cp(o, (uint32_t)(r.chance(1, 2) ? 0x7ff : r.below(0x800)), 3); break;
        case 3: put_cp(o, (uint32_t)(r.chance(1, 2) ? 0xffff : r.below(0x10000)), 4); break;
        case 4: put_cp(o, (uint32_t)r.range(0xd800, 0xdfff), 3); break;                    // surrogate
        case 5: put_cp(o, (uint32_t)(r.chance(1, 2) ? 0x110000 : r.range(0x110000, 0x1fffff)), 4); break; // too large
        case 6: o.push_back((uint8_t)r.range(0xf8, 0xff)); if (r.chance(1, 2)) for (int i = 0; i < 4; ++i) o.push_back(0x88); break;
        case 7: { Bytes c; do { c.clear(); good_char(c, r); } while (c.size() < 2); c.pop_back(); o.insert(o.end(), c.begin(), c.end()); if (r.chance(1, 2)) o.push_back('a'); break; } // cut character
        default: { Bytes c; do { c.clear(); good_char(c, r); } while (c.size() < 2); c[1 + r.below(c.size() - 1)] = r.chance(1, 2) ? 'a' : 0xc3; o.insert(o.end(), c.begin(), c.end()); break; }
    }
}
static const char* R_API[] = {"read_utf8","read_cstr","read_utf8_cstr","read_utf8_inplace","read_bytes","read_bytes_inplace","expect_str_buf","expect_utf8","expect_cstr","expect_utf8_cstr","expect_cstr_alloc","expect_utf8_cstr_alloc"};
static void read_all(const Bytes& s, Rng& r, bool u, bool un, bool nn) {
    V v(K_STR); v.s = s; Bytes b; enc(b, v, ST_RANDOM, &r); size_t hdr = b.size() - s.size(); b.push_back(0xcd); b.push_back(0xbe); b.push_back(0xef); size_t n = s.size(); (void)hdr;
    for (int api = 0; api < 12; ++api) {
        bool want = api == 0 || api == 3 || api == 7 ? u : api == 1 || api == 8 || api == 10 ? nn : api == 2 || api == 9 || api == 11 ? un : true;
        SrcMode m = r.chance(1, 3) ? S_DATA : (SrcMode)r.below(MPACK_STDIO ? S_NMODES : 3); size_t bs = pick_bufsize(r); bool inpl = api == 3 || api == 5;
        if (inpl) { if (m >= 3) { if (n > MPACK_BUFFER_SIZE) m = S_FILL; } if (bs < n + 8) bs = n + 8 + r.below(8); if (bs < 32) bs = 32; }
        Src src; src.open(b, m, bs, r.chance(1, 3) ? 1 : r.chance(1, 2) ? 0 : -1, r.next()); mpack_reader_t* rd = &src.r; if (inpl && m == S_PREFILL && bs < n + 8) { src.close(); continue; }
        size_t cap = n + 1 + (r.chance(1, 2) ? 0 : r.below(20)); bool nulterm = api == 1 || api == 2 || api == 8 || api == 9; if (!nulterm && r.chance(1, 2)) cap = n ? n : 1; Guard g(cap); const char* got = 0; char* mem = 0; size_t len = n; bool tagged = api < 6; bool opened = false;
        if (tagged) { uint32_t k; if (r.chance(1, 2)) k = mpack_expect_str(rd); else { mpack_tag_t t = mpack_read_tag(rd); k = mpack_tag_type(&t) == mpack_type_str ? mpack_tag_str_length(&t) : 77777777; } HX_CHECK(k == n, "read-length", "length %u of %zu", k, n); opened = true; }
        switch (api) {
            case 0: mpack_read_utf8(rd, g.p, n); got = g.p; break;
            case 1: mpack_read_cstr(rd, g.p, cap, n); got = g.p; break;
            case 2: mpack_read_utf8_cstr(rd, g.p, cap, n); got = g.p; break;
            case 3: got = mpack_read_utf8_inplace(rd, n); break;
            case 4: { got = g.p; size_t at = 0; while (at < n && mpack_reader_error(rd) == mpack_ok) { size_t k = 1 + r.below(n - at); mpack_read_bytes(rd, g.p + at, k); at += k; } break; }
            case 5: got = mpack_read_bytes_inplace(rd, n); break;
            case 6: len = mpack_expect_str_buf(rd, g.p, cap); got = g.p; break;
            case 7: len = mpack_expect_utf8(rd, g.p, cap); got = g.p; break;
            case 8: mpack_expect_cstr(rd, g.p, cap); got = g.p; break;
            case 9: mpack_expect_utf8_cstr(rd, g.p, cap); got = g.p; break;
            case 10: got = mem = mpack_expect_cstr_alloc(rd, r.chance(1, 2) ? n + 1 : n + 100); break;
            default: got = mem = mpack_expect_utf8_cstr_alloc(rd, r.chance(1, 2) ? n + 1 : n + 100); break;
        }
        mpack_error_t e = mpack_reader_error(rd); out_check(R_API[api], s, want, e == mpack_ok); if (e != mpack_ok) HX_CHECK(e == mpack_error_type, "text-error", "%s rejected text with %s", R_API[api], errname(e));
        if (e == mpack_ok) {
            HX_CHECK(got && len == n && (n == 0 || !memcmp(got, s.data(), n)), "text-bytes", "%s returned different text", R_API[api]); if (nulterm || mem) HX_CHECK(got[n] == 0, "text-term", "%s: no terminator", R_API[api]);
            if (opened) mpack_done_str(rd); uint16_t z = mpack_expect_u16(rd); HX_CHECK(z == 0xbeef && mpack_reader_error(rd) == mpack_ok, "text-rest", "%s: the next element is wrong", R_API[api]);
        } else { if (api == 3 || mem || api >= 10) HX_CHECK(!got, "text-safe", "%s returned a pointer on error", R_API[api]); if (nulterm) HX_CHECK(g.p[0] == 0, "text-safe", "%s left text in the buffer on error", R_API[api]); if (api == 7) HX_CHECK(len == 0, "text-safe", "length on error"); }
        hx_free(mem); distinct(hash_bytes(s, (uint64_t)api + 1000)); src.close();
    }
}
static const char* N_API[] = {"node_check_utf8","node_check_utf8_cstr","node_copy_utf8","node_copy_cstr","node_copy_utf8_cstr","node_cstr_alloc","node_utf8_cstr_alloc","node_copy_data","node_str"};
static void node_all(const Bytes& s, Rng& r, bool u, bool un, bool nn) {
    V v(K_STR); v.s = s; V a(K_ARR); a.c.push_back(v); a.c.push_back(V(K_NIL)); Bytes b; enc(b, a, ST_RANDOM, &r); size_t n = s.size();
    for (int api = 0; api < 9; ++api) {
        bool want = api == 0 || api == 2 ? u : api == 3 || api == 5 ? nn : api == 1 || api == 4 || api == 6 ? un : true;
        Tree t; t.open(b, (TMode)r.below(T_USABLE), -1, r.next(), 0, 0, 3); HX_CHECK(t.parse(false), "node-parse", "parse failed"); mpack_node_t x = mpack_node_array_at(mpack_tree_root(&t.t), 0);
        size_t cap = n + 1 + (r.chance(1, 2) ? 0 : r.below(20)); Guard g(cap); const char* got = g.p; char* mem = 0; size_t len = n; bool term = false;
        switch (api) {
            case 0: mpack_node_check_utf8(x); got = 0; break; case 1: mpack_node_check_utf8_cstr(x); got = 0; break;
            case 2: len = mpack_node_copy_utf8(x, g.p, cap); break; case 3: mpack_node_copy_cstr(x, g.p, cap); term = true; break; case 4: mpack_node_copy_utf8_cstr(x, g.p, cap); term = true; break;
            case 5: got = mem = mpack_node_cstr_alloc(x, n + 1 + r.below(3)); term = true; break; case 6: got = mem = mpack_node_utf8_cstr_alloc(x, n + 1 + r.below(3)); term = true; break;
            case 7: len = mpack_node_copy_data(x, g.p, cap); break; default: got = mpack_node_str(x); break;
        }
        mpack_error_t e = t.error(); out_check(N_API[api], s, want, e == mpack_ok); if (e != mpack_ok) HX_CHECK(e == mpack_error_type, "text-error", "%s rejected text with %s", N_API[api], errname(e));
        if (e == mpack_ok) { if (got) HX_CHECK(len == n && (n == 0 || !memcmp(got, s.data(), n)) && (!term || got[n] == 0), "text-bytes", "%s returned different text", N_API[api]); else HX_CHECK(api < 2, "text-bytes", "%s returned NULL", N_API[api]); }
        else { if (term && !mem && api < 5) HX_CHECK(g.p[0] == 0, "text-safe", "%s left text on error", N_API[api]); if (api == 5 || api == 6) HX_CHECK(!mem, "text-safe", "%s returned memory on error", N_API[api]); if (api == 2) HX_CHECK(len == 0, "text-safe", "%s returned a length on error", N_API[api]); }
        hx_free(mem); distinct(hash_bytes(s, (uint64_t)api + 2000)); t.close();
    }
}
static const char* W_API[] = {"write_utf8","write_utf8_cstr","write_utf8_cstr_or_nil","write_str","write_cstr","write_cstr_or_nil"};
static void write_all(const Bytes& s0, Rng& r) {
    for (int api = 0; api < 6; ++api) {
        Bytes s = s0; bool cs = api == 1 || api == 2 || api == 4 || api == 5; if (cs) for (auto& c : s) if (!c) c = 'n';
        bool want = api < 3 ? ref_utf8(s.data(), s.size(), true) : true; Bytes z = s; if (cs) z.push_back(0); Guard g(z);
        Sink k; k.open((SinkMode)r.below(MPACK_STDIO ? W_NMODES : 3), s.size() + 64 + r.below(100), r.next()); mpack_writer_t* w = &k.w;
        mpack_write_u8(w, 1);
        switch (api) { case 0: mpack_write_utf8(w, g.p, (uint32_t)s.size()); break; case 1: mpack_write_utf8_cstr(w, g.p); break; case 2: mpack_write_utf8_cstr_or_nil(w, g.p); break; case 3: mpack_write_str(w, g.p, (uint32_t)s.size()); break; case 4: mpack_write_cstr(w, g.p); break; default: mpack_write_cstr_or_nil(w, g.p); }
        mpack_error_t e = mpack_writer_error(w); out_check(W_API[api], s, want, e == mpack_ok); if (e != mpack_ok) HX_CHECK(e == mpack_error_invalid, "text-error", "%s rejected text with %s", W_API[api], errname(e));
        mpack_error_t d = k.close(); HX_CHECK(d == e, "text-destroy", "destroy %s after %s", errname(d), errname(e));
        if (e == mpack_ok) { V v(K_STR); v.s = s; Bytes exp(1, 1); enc(exp, v, ST_SHORT); HX_CHECK(k.out == exp, "text-bytes", "%s wrote different bytes", W_API[api]); }
        distinct(hash_bytes(s, (uint64_t)api + 3000));
    }
}
void prop_case(uint64_t idx, Rng& r) {
    if (idx < 256) { exhaustive((unsigned)idx, r, idx >= 0xe0 && idx < 0xf5); if (want_sample()) sample("all strings of up to 3 bytes and edge strings of 4 with lead byte 0x%02x", (unsigned)idx); return; }
    for (int rep = 0; rep < 4; ++rep) {
        clear_notes(); Bytes s; size_t chars = r.chance(1, 6) ? r.below(600) : r.chance(1, 30) ? r.below(4000) : r.below(24); int flaws = (int)r.below(3) ? (r.chance(2, 3) ? 1 : 0) : 0; bool nul = r.chance(1, 4); bool ascii = r.chance(1, 3);
        size_t at = flaws ? (r.chance(1, 3) ? chars : r.below(chars + 1)) : SIZE_MAX, nat = nul ? (r.chance(1, 3) ? chars : r.below(chars + 1)) : SIZE_MAX;
        for (size_t i = 0; i <= chars; ++i) { if (i == nat) s.push_back(0); if (i == at) bad_seq(s, r); if (i < chars) { if (ascii) s.push_back((uint8_t)r.range(1, 127)); else good_char(s, r); } }
        if (r.chance(1, 12)) s = gen_str(r, r.below(40), 2);
        bool u = ref_utf8(s.data(), s.size(), true), un = ref_utf8(s.data(), s.size(), false), nn = s.empty() || !memchr(s.data(), 0, s.size()); note_hex("text", s);
        if (want_sample()) sample("%zu bytes, %s%s", s.size(), u ? "well-formed" : "ill-formed", nn ? "" : ", with NUL");
        count(u ? "wellformed" : "illformed"); read_all(s, r, u, un, nn); node_all(s, r, u, un, nn); write_all(s, r);
    }
}
