// C14: expected strings, binaries, exts and containers obey type, size and termination.
#include "hx_num.hpp"
using namespace hx;
const char* prop_rule() { return "case = one wire element of any kind (payload sizes around every bound, NUL / invalid UTF-8 placed anywhere, header or payload possibly truncated) followed by a sentinel, given to every string/bin/ext/container/nil/bool/tag/match expect call with sizes around the actual one, over memory, chunked, skip-capable and file sources; non-trivial = every (element, call, argument); distinct by (input, call, argument)"; }

static Bytes g_in; static Dec g_d; static Rng* Rr;
enum { ANY = 100 };
struct Call {
    Src s; std::vector<Guard*> gs; uint64_t arg; const char* api;
    Call(const char* a, uint64_t ar) : arg(ar), api(a) {
        Rng& r = *Rr; SrcMode m = r.chance(1, 2) ? S_DATA : (SrcMode)r.below(MPACK_STDIO ? S_NMODES : 3);
        s.open(g_in, m, pick_bufsize(r), r.chance(1, 3) ? 1 : r.chance(1, 2) ? 0 : -1, r.next()); }
    mpack_reader_t* rd() { return &s.r; }
    mpack_error_t err() { return mpack_reader_error(&s.r); }
    // the element ended here: does the stream go on with the sentinel?
    bool verdict(bool ok, mpack_error_t want, bool needs_payload, bool safe) {
        mpack_error_t e = err(); const Ev* el = g_d.ev.empty() ? NULL : &g_d.ev[0];
        bool header = el != NULL, cut = !header || (needs_payload && g_d.err != D_OK && g_d.bad == 0);
        if (ok && !cut) HX_CHECK(e == mpack_ok, "expect-rejected", "%s(%llu) on %s of %u: error %s", api, (unsigned long long)arg, kname(el->k), el->n, errname(e));
        else {
            HX_CHECK(e != mpack_ok, "expect-accepted", "%s(%llu) on %s of %u succeeded, expected %s%s", api, (unsigned long long)arg, el ? kname(el->k) : "incomplete header", el ? el->n : 0, errname(want), cut ? " or a truncation error" : "");
            bool trunc = expected_truncation_error(e, s.streaming()) || e == mpack_error_invalid;
            if (header && !(el->k == K_EXT && !MPACK_EXTENSIONS)) { if (!(cut && trunc)) HX_CHECK(e == want || (ok && cut && trunc), "expect-error-kind", "%s(%llu) on %s of %u: error %s, expected %s", api, (unsigned long long)arg, kname(el->k), el->n, errname(e), errname(want)); }
            else HX_CHECK(trunc || e == mpack_error_type || e == mpack_error_unsupported, "expect-error-kind", "%s on a bad header: error %s", api, errname(e));
            HX_CHECK(safe, "expect-safe-value", "%s(%llu) on %s of %u: unsafe value after error %s", api, (unsigned long long)arg, el ? kname(el->k) : "bad header", el ? el->n : 0, errname(e));
            HX_CHECK(s.log.errors == 1 && s.log.first == e, "expect-error-once", "%s: handler ran %d times", api, s.log.errors);
            count("rejected");
        }
        eval(); distinct(hash_bytes(g_in.data(), g_in.size(), mix((uint64_t)(uintptr_t)api, arg)));
        return e == mpack_ok;
    }
    void value(bool right) { HX_CHECK(right, "expect-value", "%s(%llu) on %s of %u returned the wrong value or bytes", api, (unsigned long long)arg, kname(g_d.ev[0].k), g_d.ev[0].n); }
    // reads what a header-only call left: the payload, then closes the element
    void rest() {
        const Ev& e = g_d.ev[0]; Rng& r = *Rr; if (g_d.err != D_OK) mpack_reader_flag_error(rd(), mpack_error_data);
        if (g_d.err != D_OK) return;
        if (e.k == K_STR || e.k == K_BIN || e.k == K_EXT) {
            Guard g(e.n); uint32_t at = 0; while (at < e.n) { uint32_t k = r.chance(1, 2) ? e.n - at : 1 + (uint32_t)r.below(e.n - at); mpack_read_bytes(rd(), g.p + at, k); at += k; }
            value(err() == mpack_ok && (e.n == 0 || !memcmp(g.p, s.bytes() + e.pay(), e.n)));
        } else if (e.k == K_ARR || e.k == K_MAP) { for (uint64_t k = (uint64_t)e.n * (e.k == K_MAP ? 2 : 1); k--;) mpack_discard(rd()); }
        else return;
        switch (e.k) { case K_STR: mpack_done_str(rd()); break; case K_BIN: mpack_done_bin(rd()); break; case K_ARR: mpack_done_array(rd()); break; case K_MAP: mpack_done_map(rd()); break;
#if MPACK_EXTENSIONS
            case K_EXT: mpack_done_ext(rd()); break;
#endif
            default: break; }
    }
    void sentinel() {
        if (g_d.err != D_OK) return;
        uint16_t v = mpack_expect_u16(rd());
        HX_CHECK(v == 0xBEEF && err() == mpack_ok, "expect-consumed", "the element after %s(%llu) on %s of %u is wrong (%x, %s)", api, (unsigned long long)arg, kname(g_d.ev[0].k), g_d.ev[0].n, v, errname(err()));
        count("accepted");
        mpack_error_t e = s.close(); HX_CHECK(e == mpack_ok, "expect-destroy", "destroy after %s: %s", api, errname(e));
    }
    ~Call() { if (s.opened) s.close(); }
};
static uint64_t near(Rng& r, uint64_t n, uint64_t max) {
    if (max > 0xffffffffu && r.chance(1, 12)) return (r.range(1, 4) << 32) + r.below(n + 2); // the low 32 bits alone are not the limit
    uint64_t v = r.chance(3, 4) ? n + r.range(0, 2) - 1 : r.chance(1, 2) ? n + r.below(50) : r.chance(1, 2) ? r.below(n + 1) : gen_u64(r);
    return v > max ? (r.chance(1, 2) ? max : v % (max + 1)) : v;
}
static bool eq_text(const Guard& g, const uint8_t* p, uint32_t n) { return n == 0 || !memcmp(g.p, p, n); }

// arrays whose header promises so many elements that their storage cannot exist (or wraps around on 32-bit targets)
template <unsigned E> static void* alloc_of(mpack_reader_t* rd, bool nilok, uint32_t m, uint32_t* cnt) { struct T { char x[E]; }; return nilok ? mpack_expect_array_or_nil_alloc(rd, T, m, cnt) : mpack_expect_array_alloc(rd, T, m, cnt); }
static void hostile_count(Rng& r) {
    static const unsigned S[] = {1, 2, 3, 4, 8, 12, 16, 24, 40, 128, 4096}; unsigned which = (unsigned)r.below(11), es = S[which];
    uint64_t n64 = (r.chance(1, 2) ? (1ull << 32) : (1ull << r.range(20, 31))) / es * r.range(1, es > 8 ? 8 : es) + r.below(40) - 20; uint32_t n = n64 > 0xffffffffu || r.chance(1, 10) ? 0xffffffffu - (uint32_t)r.below(4) : (uint32_t)n64; if (n < 70000) n += 70000;
    uint8_t hd[8] = {0xdd, (uint8_t)(n >> 24), (uint8_t)(n >> 16), (uint8_t)(n >> 8), (uint8_t)n, 1, 2, 3}; Guard in(Bytes(hd, hd + 8)); clear_notes(); note("array of %u elements of %u bytes", n, es);
    bool nilok = r.chance(1, 2); uint32_t m = r.chance(1, 2) ? 0xffffffffu : n + (uint32_t)(n != 0xffffffffu), cnt = 99; mpack_reader_t rd; mpack_reader_init_data(&rd, in.p, in.n);
    alloc_reset(); uint64_t cap = (uint64_t)8 << 20; g_alloc.cap = g_alloc.live_bytes + cap + 4096; void* p = 0;
    switch (which) { case 0: p = alloc_of<1>(&rd, nilok, m, &cnt); break; case 1: p = alloc_of<2>(&rd, nilok, m, &cnt); break; case 2: p = alloc_of<3>(&rd, nilok, m, &cnt); break; case 3: p = alloc_of<4>(&rd, nilok, m, &cnt); break; case 4: p = alloc_of<8>(&rd, nilok, m, &cnt); break; case 5: p = alloc_of<12>(&rd, nilok, m, &cnt); break; case 6: p = alloc_of<16>(&rd, nilok, m, &cnt); break; case 7: p = alloc_of<24>(&rd, nilok, m, &cnt); break; case 8: p = alloc_of<40>(&rd, nilok, m, &cnt); break; case 9: p = alloc_of<128>(&rd, nilok, m, &cnt); break; default: p = alloc_of<4096>(&rd, nilok, m, &cnt); }
    uint64_t need = (uint64_t)n * es; mpack_error_t e = mpack_reader_error(&rd);
    if (need > cap + 4096) { HX_CHECK(p == NULL && cnt == 0 && e == mpack_error_memory, "array-alloc-size", "expect_array%s_alloc of %u elements of %u bytes (%llu bytes cannot be had) returned %s, a count of %u and %s", nilok ? "_or_nil" : "", n, es, (unsigned long long)need, p ? "memory" : "NULL", cnt, errname(e)); count("impossible_arrays"); }
    else if (need <= cap) { HX_CHECK(p != NULL && cnt == n && e == mpack_ok, "array-alloc-refused", "expect_array_alloc of %u elements of %u bytes: %s", n, es, errname(e)); memset((char*)p + need - es, 7, es); count("vast_arrays"); }
    hx_free(p); mpack_reader_flag_error(&rd, mpack_error_data); mpack_reader_destroy(&rd); g_alloc.cap = (uint64_t)400 << 20; eval(); distinct(mix(n, es));
}
void prop_case(uint64_t idx, Rng& r) {
    (void)idx; Rr = &r; if (r.chance(1, 3)) hostile_count(r);
    for (int rep = 0; rep < 6; ++rep) {
        clear_notes(); V v(K_NIL); GenOpt g; g.budget = 12; g.maxdepth = 3; g.ext = MPACK_EXTENSIONS;
        int kind = (int)r.below(12);
        if (kind < 4) { v.k = K_STR; v.s = gen_str(r, r.chance(1, 20) ? r.below(9000) : gen_len(r, r.chance(1, 12)), (int)r.below(4)); if (v.s.size() && r.chance(1, 5)) v.s[r.chance(1, 2) ? v.s.size() - 1 : r.below(v.s.size())] = r.chance(1, 2) ? 0 : 0xC3; }
        else if (kind < 6) { v.k = K_BIN; v.s = gen_str(r, gen_len(r, r.chance(1, 12)), 2); }
        else if (kind < 7) { v.k = K_EXT; v.et = (int8_t)r.next(); v.s = gen_str(r, r.chance(1, 2) ? (size_t)1 << r.below(6) : gen_len(r, false), 2); }
        else if (kind < 9) { v.k = r.chance(1, 2) ? K_ARR : K_MAP; unsigned n = (unsigned)(r.chance(1, 2) ? r.below(4) : r.below(20)); if (v.k == K_MAP) n *= 2; GenOpt o; o.budget = 2; o.maxdepth = 2; o.ext = MPACK_EXTENSIONS; while (n--) v.c.push_back(r.chance(1, 4) ? gen_value(r, o) : gen_scalar(r, o)); }
        else if (kind < 10) v = V(r.chance(1, 2) ? K_NIL : K_BOOL); else v = gen_value(r, g);
        if (v.k == K_BOOL) v.u = r.below(2);
        Bytes head; enc(head, v, r.chance(1, 2) ? ST_RANDOM : ST_SHORT, &r); g_in = head;
        if (r.chance(1, 8)) { if (r.chance(1, 3)) g_in[0] = 0xc1; g_in.resize(r.chance(1, 2) ? r.below(g_in.size() + 1) : r.below(g_in.size() < 8 ? g_in.size() + 1 : 8)); }
        g_d = decode(g_in);
        if (g_d.err == D_OK) { g_in.push_back(0xcd); g_in.push_back(0xbe); g_in.push_back(0xef); }
        note_hex("input", g_in); if (want_sample()) { char d[200]; describe(v, d, sizeof d); sample("%s, %zu bytes", d, g_in.size()); }
        static const Ev none = {K_NIL, 0, 0, 0, false, 0, 0, 0, 0};
        const Ev* e = g_d.ev.empty() ? NULL : &g_d.ev[0]; bool noext = !MPACK_EXTENSIONS && e && e->k == K_EXT;
        const Ev& E_ = e ? *e : none; uint32_t n = E_.n;
        if (n > 100000000u) continue;
        bool full = e && g_d.err == D_OK; if (e && g_d.err != D_OK && g_d.bad != 0) full = false;
        bool cut0 = !e || (g_d.err != D_OK && g_d.bad == 0); (void)full;
        const uint8_t* p = e ? g_in.data() + E_.pay() : NULL;
        bool isstr = e && E_.k == K_STR, isbin = e && E_.k == K_BIN, isext = e && E_.k == K_EXT && !noext, isarr = e && E_.k == K_ARR, ismap = e && E_.k == K_MAP;
        bool utf = isstr && !cut0 && ref_utf8(p, n, true), utfn = isstr && !cut0 && ref_utf8(p, n, false), nul = isstr && !cut0 && n && memchr(p, 0, n);
        mpack_error_t T = mpack_error_type, B = mpack_error_too_big;
#define HDR(api, argv, call, okc, wanterr, type_t, zero) do { Call c(#api, argv); type_t x = call; bool ok_ = (okc); if (c.verdict(ok_, wanterr, false, x == (type_t)(zero))) { c.value(x == (type_t)n); c.rest(); c.sentinel(); } } while (0)
        // --- strings
        HDR(expect_str, 0, mpack_expect_str(c.rd()), isstr, T, uint32_t, 0);
        { uint32_t m = (uint32_t)near(r, n, 0xffffffffu); HDR(expect_str_max, m, mpack_expect_str_max(c.rd(), m), isstr && n <= m, isstr ? B : T, uint32_t, 0); }
        { uint32_t m = (uint32_t)near(r, n, 0xffffffffu); Call c("expect_str_length", m); mpack_expect_str_length(c.rd(), m); if (c.verdict(isstr && n == m, T, false, true)) { c.rest(); c.sentinel(); } }
        for (int k = 0; k < 2; ++k) {
            size_t m = (size_t)near(r, n, 12000); Guard b(m); Call c("expect_str_buf", m); size_t x = mpack_expect_str_buf(c.rd(), b.p, m);
            if (c.verdict(isstr && n <= m, isstr ? B : T, true, x == 0)) { c.value(x == n && eq_text(b, p, n)); c.sentinel(); } }
        for (int k = 0; k < 2; ++k) {
            size_t m = (size_t)near(r, n, 12000); Guard b(m); Call c("expect_utf8", m); size_t x = mpack_expect_utf8(c.rd(), b.p, m);
            if (c.verdict(isstr && n <= m && utf, isstr && n > m ? B : T, true, x == 0)) { c.value(x == n && eq_text(b, p, n)); c.sentinel(); } }
        for (int k = 0; k < 2; ++k) {
            size_t m = (size_t)near(r, (uint64_t)n + 1, 12000); if (!m) m = 1; Guard b(m); Call c("expect_cstr", m); mpack_expect_cstr(c.rd(), b.p, m);
            if (c.verdict(isstr && (size_t)n + 1 <= m && !nul, isstr && (size_t)n + 1 > m ? B : T, true, b.p[0] == 0)) { c.value(strlen(b.p) == n && eq_text(b, p, n)); c.sentinel(); } }
        for (int k = 0; k < 2; ++k) {
            size_t m = (size_t)near(r, (uint64_t)n + 1, 12000); if (!m) m = 1; Guard b(m); Call c("expect_utf8_cstr", m); mpack_expect_utf8_cstr(c.rd(), b.p, m);
            if (c.verdict(isstr && (size_t)n + 1 <= m && utfn, isstr && (size_t)n + 1 > m ? B : T, true, b.p[0] == 0)) { c.value(strlen(b.p) == n && eq_text(b, p, n)); c.sentinel(); } }
        for (int k = 0; k < 3; ++k) {
            size_t m = (size_t)near(r, (uint64_t)n + 1, SIZE_MAX); if (!m) m = 1; bool u8 = r.chance(1, 2); Call c(u8 ? "expect_utf8_cstr_alloc" : "expect_cstr_alloc", m);
            char* x = u8 ? mpack_expect_utf8_cstr_alloc(c.rd(), m) : mpack_expect_cstr_alloc(c.rd(), m);
            bool fits = n <= m - 1 || (sizeof(size_t) > 4 && m > 0xffffffffu);
            if (c.verdict(isstr && fits && (u8 ? utfn : !nul), isstr && !fits ? B : T, true, x == NULL)) { c.value(x && strlen(x) == n && !memcmp(x, p, n)); hx_free(x); c.sentinel(); } }
        for (int k = 0; k < 3; ++k) { // matches: equal, one byte changed, shorter, longer
            Bytes m = isstr && !cut0 ? Bytes(p, p + n) : gen_str(r, r.below(12), 2); int how = (int)r.below(5);
            if (how == 1 && !m.empty()) m[r.below(m.size())] ^= (uint8_t)(1u << r.below(8)); if (how == 2 && !m.empty()) m.pop_back(); if (how == 3) m.push_back((uint8_t)r.next());
            bool same = isstr && !cut0 && m.size() == n && (n == 0 || !memcmp(m.data(), p, n)); bool cs = r.chance(1, 3) && !(m.size() && memchr(m.data(), 0, m.size()));
            Call c(cs ? "expect_cstr_match" : "expect_str_match", m.size());
            if (cs) { Guard z(m.size() + 1); if (m.size()) memcpy(z.p, m.data(), m.size()); z.p[m.size()] = 0; mpack_expect_cstr_match(c.rd(), z.p); } else { Guard z(m); mpack_expect_str_match(c.rd(), z.p, z.n); }
            if (c.verdict(same, T, true, true)) c.sentinel(); }
        // --- binary
        HDR(expect_bin, 0, mpack_expect_bin(c.rd()), isbin, T, uint32_t, 0);
        { uint32_t m = (uint32_t)near(r, n, 0xffffffffu); HDR(expect_bin_max, m, mpack_expect_bin_max(c.rd(), m), isbin && n <= m, T, uint32_t, 0); }
        { uint32_t m = (uint32_t)near(r, n, 0xffffffffu); Call c("expect_bin_size", m); mpack_expect_bin_size(c.rd(), m); if (c.verdict(isbin && n == m, T, false, true)) { c.rest(); c.sentinel(); } }
        for (int k = 0; k < 2; ++k) { size_t m = (size_t)near(r, n, 70000); Guard b(m); Call c("expect_bin_buf", m); size_t x = mpack_expect_bin_buf(c.rd(), b.p, m);
            if (c.verdict(isbin && n <= m, isbin ? B : T, true, x == 0)) { c.value(x == n && eq_text(b, p, n)); c.sentinel(); } }
        for (int k = 0; k < 2; ++k) { uint32_t m = (uint32_t)near(r, n, 70000); Guard b(m); Call c("expect_bin_size_buf", m); mpack_expect_bin_size_buf(c.rd(), b.p, m);
            if (c.verdict(isbin && n == m, T, true, true)) { c.value(eq_text(b, p, n)); c.sentinel(); } }
        for (int k = 0; k < 2; ++k) { size_t m = (size_t)near(r, n, SIZE_MAX); size_t sz = 99; Call c("expect_bin_alloc", m); char* x = mpack_expect_bin_alloc(c.rd(), m, &sz); bool fits = n <= m;
            if (c.verdict(isbin && fits, T, true, x == NULL && sz == 0)) { c.value(sz == n && (n == 0 ? x == NULL : x && !memcmp(x, p, n))); hx_free(x); c.sentinel(); } }
#if MPACK_EXTENSIONS
        // --- ext
        { int8_t t = 77; HDR(expect_ext, 0, mpack_expect_ext(c.rd(), &t), isext, T, uint32_t, 0); HX_CHECK(t == (isext ? E_.et : 0), "expect-exttype", "expect_ext gave type %d", t); }
        { int8_t t = 77; uint32_t m = (uint32_t)near(r, n, 0xffffffffu); bool ok = isext && n <= m; HDR(expect_ext_max, m, mpack_expect_ext_max(c.rd(), &t, m), ok, T, uint32_t, 0); HX_CHECK(t == (ok ? E_.et : 0), "expect-exttype", "expect_ext_max gave type %d", t); }
        { int8_t t = 77; uint32_t m = (uint32_t)near(r, n, 0xffffffffu); bool ok = isext && n == m; Call c("expect_ext_size", m); mpack_expect_ext_size(c.rd(), &t, m); if (c.verdict(ok, T, false, true)) { c.rest(); c.sentinel(); HX_CHECK(t == E_.et, "expect-exttype", "expect_ext_size gave type %d", t); } }
        for (int k = 0; k < 2; ++k) { int8_t t = 77; size_t m = (size_t)near(r, n, 70000); Guard b(m); Call c("expect_ext_buf", m); size_t x = mpack_expect_ext_buf(c.rd(), &t, b.p, m);
            if (c.verdict(isext && n <= m, isext ? B : T, true, x == 0 && t == 0)) { c.value(x == n && t == E_.et && eq_text(b, p, n)); c.sentinel(); } }
        for (int k = 0; k < 2; ++k) { int8_t t = 77; size_t sz = 99; size_t m = (size_t)near(r, n, SIZE_MAX); Call c("expect_ext_alloc", m); char* x = mpack_expect_ext_alloc(c.rd(), &t, m, &sz);
            if (c.verdict(isext && n <= m, T, true, x == NULL && sz == 0 && t == 0)) { c.value(sz == n && t == E_.et && (n == 0 ? x == NULL : x && !memcmp(x, p, n))); hx_free(x); c.sentinel(); } }
#endif
        // --- containers
        for (int a = 0; a < 2; ++a) {
            bool is = a ? isarr : ismap, isnil = e && E_.k == K_NIL;
            { Call c(a ? "expect_array" : "expect_map", 0); uint32_t x = a ? mpack_expect_array(c.rd()) : mpack_expect_map(c.rd()); if (c.verdict(is, T, false, x == 0)) { c.value(x == n); c.rest(); c.sentinel(); } }
            { uint32_t m = (uint32_t)near(r, n, 0xffffffffu); Call c(a ? "expect_array_max" : "expect_map_max", m); uint32_t x = a ? mpack_expect_array_max(c.rd(), m) : mpack_expect_map_max(c.rd(), m); if (c.verdict(is && n <= m, T, false, x == 0)) { c.value(x == n); c.rest(); c.sentinel(); } }
            { uint32_t lo = (uint32_t)near(r, n, 0xffffffffu), hi = (uint32_t)near(r, n, 0xffffffffu); if (lo > hi) std::swap(lo, hi); Call c(a ? "expect_array_range" : "expect_map_range", (uint64_t)lo << 32 | hi); uint32_t x = a ? mpack_expect_array_range(c.rd(), lo, hi) : mpack_expect_map_range(c.rd(), lo, hi); if (c.verdict(is && n >= lo && n <= hi, T, false, x == lo)) { c.value(x == n); c.rest(); c.sentinel(); } }
            { uint32_t m = (uint32_t)near(r, n, 0xffffffffu); Call c(a ? "expect_array_match" : "expect_map_match", m); a ? mpack_expect_array_match(c.rd(), m) : mpack_expect_map_match(c.rd(), m); if (c.verdict(is && n == m, T, false, true)) { c.rest(); c.sentinel(); } }
            { uint32_t cnt = 99; Call c(a ? "expect_array_or_nil" : "expect_map_or_nil", 0); bool x = a ? mpack_expect_array_or_nil(c.rd(), &cnt) : mpack_expect_map_or_nil(c.rd(), &cnt); if (c.verdict(is || isnil, T, false, !x && cnt == 0)) { c.value(x == is && cnt == (is ? n : 0)); c.rest(); c.sentinel(); } }
            { uint32_t m = (uint32_t)near(r, n, 0xffffffffu), cnt = 99; Call c(a ? "expect_array_max_or_nil" : "expect_map_max_or_nil", m); bool x = a ? mpack_expect_array_max_or_nil(c.rd(), m, &cnt) : mpack_expect_map_max_or_nil(c.rd(), m, &cnt); if (c.verdict((is && n <= m) || isnil, T, false, !x && cnt == 0)) { c.value(x == is && cnt == (is ? n : 0)); c.rest(); c.sentinel(); } }
        }
        if (n < 1000000) for (int k = 0; k < 2; ++k) {
            struct Odd { char x[13]; }; bool nilok = r.chance(1, 2), isnil = e && E_.k == K_NIL; uint32_t m = (uint32_t)near(r, n, 0xffffffffu), cnt = 99; Call c(nilok ? "expect_array_or_nil_alloc" : "expect_array_alloc", m);
            Odd* x = nilok ? mpack_expect_array_or_nil_alloc(c.rd(), Odd, m, &cnt) : mpack_expect_array_alloc(c.rd(), Odd, m, &cnt);
            if (c.verdict((isarr && n <= m) || (nilok && isnil), T, false, x == NULL && cnt == 0)) {
                uint32_t want = isarr ? n : 0; c.value(cnt == want && (want == 0 ? x == NULL : x != NULL));
                if (x) memset(x, 0x11, sizeof(Odd) * cnt); // all of it must be ours
                hx_free(x); if (!(nilok && want == 0)) c.rest(); c.sentinel(); } }
        // --- nil, bool, tag
        { Call c("expect_nil", 0); mpack_expect_nil(c.rd()); if (c.verdict(e && E_.k == K_NIL, T, false, true)) c.sentinel(); }
        { Call c("expect_bool", 0); bool x = mpack_expect_bool(c.rd()); if (c.verdict(e && E_.k == K_BOOL, T, false, !x)) { c.value(x == (E_.u != 0)); c.sentinel(); } }
        { Call c("expect_true", 0); mpack_expect_true(c.rd()); if (c.verdict(e && E_.k == K_BOOL && E_.u, T, false, true)) c.sentinel(); }
        { Call c("expect_false", 0); mpack_expect_false(c.rd()); if (c.verdict(e && E_.k == K_BOOL && !E_.u, T, false, true)) c.sentinel(); }
        for (int k = 0; k < 3 && !noext; ++k) {
            Ev o = E_; GenOpt go; bool neg0 = false; (void)neg0;
            if (!e || r.chance(1, 4)) { V x = gen_scalar(r, go); Bytes xb; enc(xb, x, ST_RANDOM, &r); Dec xd = decode(xb); o = xd.ev[0]; }
            else if (r.chance(1, 2)) { if (o.k == K_STR || o.k == K_BIN || o.k == K_ARR || o.k == K_MAP) { if (r.chance(1, 2)) o.n += r.chance(1, 2) ? 1 : (uint32_t)-1; else o.k = r.chance(1, 2) ? K_STR : r.chance(1, 2) ? K_ARR : K_MAP; } else if (o.k == K_EXT) { if (r.chance(1, 2)) o.et ^= 1; else o.n++; } else if (o.k == K_UINT && (int64_t)o.u >= 0 && r.chance(1, 2)) o.swire = !o.swire; else if (o.k != K_NIL && o.k != K_BOOL) { o.u ^= 1ull << r.below(o.k == K_FLT ? 32 : 63); if (o.k == K_INT && o.i() >= 0) o.k = K_UINT; if (o.k == K_UINT && o.swire && o.i() < 0) o.swire = false; } else if (o.k == K_BOOL) o.u ^= 1; }
            if (o.k == K_EXT && !MPACK_EXTENSIONS) continue;
            if ((o.k == K_FLT || o.k == K_DBL) && (abi_flt(1) != 1 || o.k == K_FLT) && o.k == E_.k && o.k == K_FLT && (flt_of(o.u) != flt_of(o.u))) continue; // i386 NaN quieting
            if (o.k == K_DBL && dbl_of(o.u) != dbl_of(o.u)) continue;
            bool same = e && o.k == E_.k && (o.k == K_NIL || (o.k <= K_DBL ? o.u == E_.u : (o.n == E_.n && (o.k != K_EXT || o.et == E_.et))));
            Call c("expect_tag", (uint64_t)o.k << 56 ^ o.u ^ o.n); mpack_expect_tag(c.rd(), ev_tag(o)); if (c.verdict(same, T, false, true)) { c.rest(); c.sentinel(); } }
    }
}
