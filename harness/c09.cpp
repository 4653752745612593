// C09: building containers incrementally equals declaring their sizes up front.
#include "hx_sink.hpp"
using namespace hx;
const char* prop_rule() { return "case = a generated value whose arrays and maps are built incrementally with random probability (0..100%) at any nesting, elements contributed by every kind of write call, through every sink and many buffer sizes; output compared with the reference shortest encoding with declared sizes; non-trivial = at least one built container; distinct by (bytes, number of builds)"; }
static V boundary(Rng& r) { // sizes that straddle pages: many strings of similar length, long containers
    V v(r.chance(1, 2) ? K_ARR : K_MAP);
    static const size_t cnt[] = {14,15,16,17,100,255,256,300,1000,65535,65536}; size_t n = r.pick(cnt);
    if (n > 1000 && !r.chance(1, 8)) n = r.below(40);
    for (size_t i = 0; i < (v.k == K_MAP ? 2 * n : n); ++i) {
        V x(K_UINT); x.u = r.below(300);
        if (n < 400 && r.chance(1, 4)) { x.k = r.chance(1, 2) ? K_STR : K_BIN; x.s = gen_str(r, r.below(120), x.k == K_STR ? (int)r.below(2) : 2); }
        else if (n < 400 && r.chance(1, 5)) { x = V(r.chance(1, 2) ? K_ARR : K_MAP); size_t m = r.below(5); for (size_t j = 0; j < (x.k == K_MAP ? 2 * m : m); ++j) { V y(K_UINT); y.u = r.below(200); x.c.push_back(y); } }
        v.c.push_back(x);
    }
    return v;
}
static V chain(Rng& r, unsigned depth) { // deep nest with siblings
    V v(K_UINT); v.u = r.below(128);
    while (depth--) { V w(r.chance(1, 2) ? K_ARR : K_MAP); size_t pre = r.below(3) * 2, post = r.below(2) * 2; for (size_t i = 0; i < pre; ++i) { V x(K_UINT); x.u = r.below(70000); w.c.push_back(x); } if (w.k == K_MAP) { V x(K_NIL); w.c.push_back(x); } w.c.push_back(v); for (size_t i = 0; i < post; ++i) w.c.push_back(V(K_NIL)); v = w; }
    return v;
}
void prop_case(uint64_t idx, Rng& r) {
    GenOpt g; g.budget = r.chance(1, 8) ? 300 : 40; g.maxdepth = (unsigned)r.range(2, 12);
    EmitOpt o; static const int pct[] = {10, 50, 90, 100, 100}; o.build = r.pick(pct); o.plain = r.chance(1, 4);
#if MPACK_COMPATIBILITY
    o.v4 = r.chance(1, 8);
#endif
    if (o.v4 || !MPACK_EXTENSIONS) g.ext = false;
    V v = r.chance(1, 4) ? boundary(r) : r.chance(1, 6) ? chain(r, (unsigned)r.range(1, 60)) : gen_value(r, g);
    Bytes want; enc(want, v, o.v4 ? ST_V4 : ST_SHORT); if (r.chance(1, 3)) want.insert(want.end(), want.begin(), want.end()); // second message
    bool two = want.size() != 0 && decode(want).used != want.size();
    { char d[400]; describe(v, d, sizeof d); note("value %s%s build %d%% v4 %d", d, two ? " twice" : "", o.build, o.v4); if (want_sample()) sample("%s, build %d%% (%zu bytes)", d, o.build, want.size()); }
    for (int q = 0; q < 4; ++q) {
        SinkMode m = (SinkMode)(q == 0 ? W_GROW : q == 1 ? W_FLUSH : r.below(MPACK_STDIO ? 5 : 3)); size_t bs = m == W_FIXED ? want.size() + (r.chance(1, 2) ? 0 : r.below(50)) : r.chance(1, 3) ? 32 : 32 + r.below(400);
        Sink s; note("sink %s size %zu", sinkname(m), bs); s.open(m, bs, r.next());
#if MPACK_COMPATIBILITY
        if (o.v4) mpack_writer_set_version(&s.w, mpack_version_v4);
#endif
        uint64_t b0 = g_emit.builds, e0 = g_emit.elements; Rng er(r.next()); emit(&s.w, v, er, o); if (two) emit(&s.w, v, er, o);
        mpack_error_t e = s.close(); HX_CHECK(e == mpack_ok, "build-error", "%s sink of %zu bytes: %s", sinkname(m), bs, errname(e));
        if (s.out != want) { note_hex("got", s.out); note_hex("want", want); size_t i = 0; while (i < want.size() && i < s.out.size() && s.out[i] == want[i]) ++i; fail("build-bytes", "built output differs from the declared one at %zu (%zu bytes, expected %zu)", i, s.out.size(), want.size()); }
        uint64_t nb = g_emit.builds - b0; count("builds", nb); count("elements", g_emit.elements - e0); eval();
        if (nb) distinct(mix(hash_bytes(want), nb));
    }
    count("max_build_depth_seen", 0);
    (void)idx;
}
