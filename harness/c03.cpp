// C03: the reader returns exactly the encoded elements; truncation is never success.
#include "hx_src.hpp"
using namespace hx;
const char* prop_rule() { return "case = an input (valid message in random widths, truncated, mutated, tag-biased soup, hostile headers, exhaustive 1..3-byte prefixes, every truncation point) read by a random interleaving of read/peek/discard/payload methods from exact-size memory; non-trivial = at least one element decoded; distinct by input bytes"; }
static void run_one(const Bytes& b, Rng& r, const WalkOpt& o) {
    clear_notes(); note_hex("input", b);
    Src s; s.open(b, S_DATA, 0, 0, 0);
    size_t at = 0; WalkRes w; memset(&w, 0, sizeof w); bool ok = true; unsigned msgs = 0;
    while (ok && msgs < 50) {
        Dec d = decode(b, at);
        ok = walk(s, d, r, o, w, "read");
        HX_CHECK(ok == (d.err == D_OK), "read-verdict", "walk ended %s", ok ? "ok" : "error");
        if (ok) {
            at += d.used; ++msgs;
            const char* p; size_t rem = mpack_reader_remaining(&s.r, &p);
            HX_CHECK(rem == b.size() - at, "read-consumed", "message of %zu bytes: %zu remaining of %zu", at, rem, b.size());
            if (rem == 0 && r.chance(9, 10)) break;
        }
    }
    bool err = mpack_reader_error(&s.r) != mpack_ok;
    if (err) HX_CHECK(s.log.errors == 1, "read-handler", "error handler ran %d times", s.log.errors);
    else HX_CHECK(s.log.errors == 0, "read-handler", "error handler ran without error");
    mpack_error_t e = s.close();
    HX_CHECK((e != mpack_ok) == err, "read-destroy", "destroy returned %s", errname(e));
    eval(); if (w.elements) distinct(hash_bytes(b));
    count("elements_compared", w.elements); count("payload_bytes_compared", w.bytes); count("peeks", w.peeks); count("discards", w.discards);
    count("skips", w.skips); count("inplace_reads", w.inplace); count("alloc_reads", w.alloc); count(err ? "ended_in_error" : "ended_ok"); count("messages", msgs);
}
void prop_case(uint64_t idx, Rng& r) {
    WalkOpt o;
    if (idx < 256) { // exhaustive short inputs with this first byte
        for (unsigned x = 0; x < 256; ++x) { Bytes b; b.push_back((uint8_t)idx); b.push_back((uint8_t)x); run_one(b, r, o); }
        Bytes b1; b1.push_back((uint8_t)idx); run_one(b1, r, o);
        // this tag with every length of following bytes
        for (size_t n = 0; n < 24; ++n) { Bytes b; b.push_back((uint8_t)idx); for (size_t j = 0; j < n; ++j) b.push_back(r.chance(1, 3) ? 0 : (uint8_t)r.next()); run_one(b, r, o); }
        // scalar with boundary payloads
        static const uint8_t bp[] = {0x00,0x01,0x7f,0x80,0x81,0xff,0xfe};
        for (unsigned k = 0; k < 60; ++k) { Bytes b; b.push_back((uint8_t)idx); for (size_t j = 0; j < 9; ++j) b.push_back(r.pick(bp)); run_one(b, r, o); }
        return;
    }
    GenOpt g; int kind; g.budget = r.chance(1, 20) ? 300 : 30; g.wide = r.chance(1, 60);
#if !MPACK_EXTENSIONS
    g.ext = false;
#endif
    if (idx % 4 == 1) { // every truncation point of one message
        V v = gen_value(r, g); Bytes b; enc(b, v, ST_RANDOM, &r);
        size_t step = b.size() > 300 ? b.size() / 150 : 1;
        for (size_t n = 0; n <= b.size(); n += step) { Bytes c(b.begin(), b.begin() + (long)n); run_one(c, r, o); }
        if (want_sample()) { char d[300]; describe(v, d, sizeof d); sample("all truncation points of %s (%zu bytes)", d, b.size()); }
    } else if (idx % 4 == 2) { // several messages back to back
        Bytes b; unsigned k = (unsigned)r.range(1, 4); while (k--) { V v = gen_value(r, g); enc(b, v, ST_RANDOM, &r); }
        run_one(b, r, o);
    } else {
        Bytes b = gen_input(r, &kind, g);
#if !MPACK_EXTENSIONS
        { Dec d = decode(b); for (auto& e : d.ev) if (e.k == K_EXT) return; }
#endif
        if (b.size() > 0 && want_sample()) sample("input kind %d, %zu bytes, first byte %02x", kind, b.size(), b[0]);
        run_one(b, r, o);
    }
}
