// C06: decoded elements are independent of source, chunking and read method.
#include "hx_src.hpp"
using namespace hx;
const char* prop_rule() { return "case = a stream of 1..6 messages (random widths, payloads from empty to several buffers, optional truncated or invalid tail) read through memory, fill callbacks (many buffer sizes, chunkings, prefilled), fill+skip callbacks and buffered/unbuffered, seekable/unseekable files, with payloads copied, piecewise, in place, allocated or skipped, every trace compared with the reference; non-trivial = at least one element; distinct by (stream, source, buffer size, chunking)"; }
static void one(const Bytes& b, SrcMode m, size_t bs, int chunk, Rng& r) {
    WalkOpt o; Src s; note("source %s buffer %zu chunk %d", srcname(m), bs, chunk); s.open(b, m, bs, chunk, r.next());
    size_t at = 0; WalkRes w; memset(&w, 0, sizeof w); bool ok = true; unsigned msgs = 0;
    while (ok) {
        if (at == b.size() && r.chance(2, 3)) break;      // otherwise read past the end: must be an error
        Dec d = decode(b, at);
        ok = walk(s, d, r, o, w, "source");
        HX_CHECK(ok == (d.err == D_OK), "source-verdict", "message at %zu ended %s", at, ok ? "ok" : "in error");
        if (!ok) break;
        at += d.used; ++msgs;
        const char* p = (const char*)1; size_t rem = mpack_reader_remaining(&s.r, &p);
        if (m == S_DATA) HX_CHECK(rem == b.size() - at, "source-remaining", "%zu bytes reported left of %zu", rem, b.size() - at);
        else if (m == S_FILL || m == S_PREFILL || m == S_FILLSKIP) HX_CHECK(rem == s.pos - at, "source-remaining", "%zu bytes reported left but %zu were delivered beyond the %zu read", rem, s.pos - at, at);
        else HX_CHECK(rem <= b.size() - at, "source-remaining", "%zu bytes reported left of %zu", rem, b.size() - at);
        if (rem) HX_CHECK(!memcmp(p, b.data() + at, rem), "source-remaining", "the bytes left over differ at %zu", at);
    }
    // reading in place more than the buffer can hold, or more than there is, is refused and gives nothing
    if (ok && r.chance(1, 3)) {
        size_t cap = m == S_DATA ? b.size() - at : (m == S_STDFILE || m == S_FILENAME) ? (size_t)MPACK_BUFFER_SIZE : bs;
#if !MPACK_READ_TRACKING
        const char* q = mpack_read_bytes_inplace(&s.r, cap + 1 + r.below(5));
        HX_CHECK(q == NULL, "inplace-oversize", "an in-place read larger than the buffer returned data");
        mpack_error_t e = mpack_reader_error(&s.r), want = m == S_DATA ? mpack_error_invalid : mpack_error_too_big;
        HX_CHECK(e == want, "inplace-oversize", "reported as %s", errname(e)); ok = false; count("inplace_refused");
#else
        (void)cap;
#endif
    }
    if (!ok && mpack_reader_error(&s.r) != mpack_ok) { const char* p; HX_CHECK(mpack_reader_remaining(&s.r, &p) == 0, "source-remaining", "data left over after an error"); }
    bool err = mpack_reader_error(&s.r) != mpack_ok;
    HX_CHECK(s.log.errors == (err ? 1 : 0), "source-handler", "error handler ran %d times", s.log.errors);
    mpack_error_t e = s.close(); HX_CHECK((e != mpack_ok) == err, "source-destroy", "destroy returned %s", errname(e));
    eval(); if (w.elements) distinct(mix(hash_bytes(b), mix((uint64_t)m * 4096 + bs, (uint64_t)(chunk + 7))));
    count("elements_compared", w.elements); count("bytes_compared", w.bytes); count("fills", s.fills); count("skip_callbacks", s.skips); count("inplace", w.inplace); count("allocated", w.alloc); count("discards", w.discards); count("messages", msgs); count(err ? "ended_in_error" : "ended_ok");
}
void prop_case(uint64_t idx, Rng& r) {
    GenOpt g; g.budget = r.chance(1, 10) ? 200 : 20; g.wide = r.chance(1, 40); g.maxdepth = r.chance(1, 10) ? 40 : 6;
#if !MPACK_EXTENSIONS
    g.ext = false;
#endif
    Bytes b; unsigned k = (unsigned)r.range(1, 6);
    for (unsigned i = 0; i < k; ++i) { V v = gen_value(r, g); enc(b, v, r.chance(1, 2) ? ST_RANDOM : ST_SHORT, &r); }
    if (r.chance(1, 3)) { V v(r.chance(1, 2) ? K_BIN : K_STR); v.s = gen_str(r, r.below(12000), 2); enc(b, v, ST_RANDOM, &r); V z(K_NIL); enc(b, z, ST_SHORT); }
    int tail = (int)r.below(4);
    if (tail == 2) { Bytes x; V v = gen_value(r, g); enc(x, v, ST_RANDOM, &r); if (x.size() > 1) b.insert(b.end(), x.begin(), x.begin() + (long)(1 + r.below(x.size() - 1))); }
    if (tail == 3) b.push_back(0xc1);
    note_hex("stream", b);
    one(b, S_DATA, 0, 0, r);
    for (int i = 0; i < 10; ++i) {
        SrcMode m = (SrcMode)r.below(S_NMODES);
#if !MPACK_STDIO
        if (m == S_STDFILE || m == S_FILENAME) m = S_FILL;
#endif
        int chunk = r.chance(1, 4) ? 0 : r.chance(1, 3) ? -1 : r.chance(1, 2) ? 1 : (int)r.range(2, 50);
        if (b.size() > 30000 && chunk > 0 && chunk < 20) chunk = -1;
        one(b, m, pick_bufsize(r), chunk, r);
    }
    if (want_sample()) sample("%u messages, %zu bytes, tail %d", k, b.size(), tail);
    (void)idx;
}
