// C05: written output is independent of sink, buffer size and flush points.
#include "hx_sink.hpp"
using namespace hx;
const char* prop_rule() { return "case = 1..12 messages written by one fixed program of calls into every sink (fixed buffers of exact, larger and every smaller size, growable, flush callbacks of many sizes, files) with message flushes inserted; all outputs compared with the reference bytes; non-trivial = output of at least 2 bytes; distinct by (bytes, sink, buffer size)"; }
static void program(Sink& s, const std::vector<V>& vs, uint64_t seed, const EmitOpt& o, int flush_pct, uint64_t fseed) {
    Rng fr(fseed); uint64_t i = 0;
    for (auto& v : vs) {
        Rng r(mix(seed, i++)); emit(&s.w, v, r, o);
        if (flush_pct && s.mode != W_FIXED && (int)fr.below(100) < flush_pct) { unsigned k = fr.chance(1, 4) ? 2 : 1; while (k--) mpack_writer_flush_message(&s.w); count("message_flushes"); }
    }
}
static void same(const Sink& s, const Bytes& want, const char* key) {
    if (s.out != want) { note_hex("got", s.out); note_hex("want", want); size_t i = 0; while (i < want.size() && i < s.out.size() && s.out[i] == want[i]) ++i; fail(key, "%s sink delivered %zu bytes, expected %zu; first difference at %zu", sinkname(s.mode), s.out.size(), want.size(), i); }
}
void prop_case(uint64_t idx, Rng& r) {
    GenOpt g; g.budget = r.chance(1, 10) ? 120 : 15; g.wide = r.chance(1, 100);
    EmitOpt o; o.build = r.chance(1, 3) ? 40 : 0; o.plain = r.chance(1, 4);
#if MPACK_COMPATIBILITY
    o.v4 = r.chance(1, 6);
#endif
#if !MPACK_EXTENSIONS
    g.ext = false;
#endif
    if (o.v4) g.ext = false;
    std::vector<V> vs; Bytes want; unsigned k = r.chance(1, 12) ? (unsigned)r.range(30, 80) : (unsigned)r.range(1, 12);
    if (k > 12) { g.budget = 3; g.bigstr = false; }
    for (unsigned i = 0; i < k; ++i) { vs.push_back(gen_value(r, g)); enc(want, vs.back(), o.v4 ? ST_V4 : ST_SHORT); }
    uint64_t seed = r.next(); note("%u messages, %zu bytes, build %d v4 %d", k, want.size(), o.build, o.v4);
    auto ver = [&](mpack_writer_t* w) {
#if MPACK_COMPATIBILITY
        if (o.v4) mpack_writer_set_version(w, mpack_version_v4);
#else
        (void)w;
#endif
    };
    int flush_pct = r.chance(1, 2) ? 0 : k > 12 ? 100 : 50;
    auto run = [&](SinkMode m, size_t bs, bool expect_ok) {
        Sink s; note("sink %s size %zu", sinkname(m), bs); s.open(m, bs, r.next()); ver(&s.w);
        program(s, vs, seed, o, flush_pct, r.next());
        // a mid-program query of the space used is part of fixed and growable buffers
        if (m == W_GROW && s.ok()) HX_CHECK(mpack_writer_buffer_used(&s.w) == want.size(), "grow-used", "buffer_used %zu, expected %zu", mpack_writer_buffer_used(&s.w), want.size());
        if (m == W_GROW) { HX_CHECK(mpack_writer_buffer_size(&s.w) <= 2 * want.size() + 2 * MPACK_BUFFER_SIZE + 64, "grow-capacity", "growable buffer of %zu bytes for %zu bytes of output", mpack_writer_buffer_size(&s.w), want.size()); HX_CHECK(s.gdata == NULL, "grow-early", "data handed over before destruction"); }
        mpack_error_t e = s.close();
        if (expect_ok) { HX_CHECK(e == mpack_ok, "sink-error", "%s sink of %zu bytes failed with %s", sinkname(m), bs, errname(e)); same(s, want, "sink-bytes"); count("outputs_compared"); }
        else {
            HX_CHECK(e == mpack_error_too_big, "small-buffer", "%zu bytes into a buffer of %zu: %s", want.size(), bs, errname(e)); count("too_small");
            HX_CHECK(s.log.errors == 1 && s.log.first == mpack_error_too_big, "small-buffer", "error handler ran %d times", s.log.errors);
            // whatever is in the fixed buffer is a prefix of the output where anything was placed
        }
        if (m == W_FLUSH) count("flushes", s.flushes);
        HX_CHECK(!s.after_error_flush, "flush-after-error", "flush callback ran on a failed writer");
        eval(); distinct(mix(hash_bytes(want), mix((uint64_t)m, bs)));
    };
    bool fixed_flush_ok = true; (void)fixed_flush_ok;
    run(W_FIXED, want.size(), true); run(W_FIXED, want.size() + 1 + r.below(40), true);
    if (want.size()) { run(W_FIXED, want.size() - 1, false); for (int q = 0; q < 4; ++q) run(W_FIXED, r.below(want.size()), false); if (want.size() < 60) for (size_t n = 0; n < want.size(); ++n) run(W_FIXED, n, false); }
#ifdef MPACK_MALLOC
    run(W_GROW, 0, true);
#endif
    for (int q = 0; q < 6; ++q) { static const size_t bs[] = {32,33,34,35,36,37,40,41,47,48,63,64,65,100,127,128,129,256,1000,4096}; run(W_FLUSH, r.chance(1, 2) ? r.pick(bs) : 32 + r.below(300), true); }
#if MPACK_STDIO
    run(W_STDFILE, 0, true); run(W_FILENAME, 0, true);
#endif
    if (want_sample()) sample("%u messages, %zu bytes, build %d%%, flush %d%%", k, want.size(), o.build, flush_pct);
}
