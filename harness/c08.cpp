// C08: streamed trees are independent of chunking and message boundaries.
#include "hx_tree.hpp"
using namespace hx;
const char* prop_rule() { return "case = 1..5 messages (plus optional truncated or invalid tail) delivered by a read callback or file under random chunk sizes, stalls and byte-at-a-time arrival, parsed blocking and incrementally, compared message by message with the reference; non-trivial = at least one message delivered; distinct by (stream bytes, chunking)"; }
static void tail_check(Tree& t, const Bytes& b, size_t at, bool tr, bool ok) {
    Dec d = decode(b, at);
    HX_CHECK(!ok, "stream-phantom", "a message was delivered at %zu although the stream is %s there", at, at == b.size() ? "finished" : "malformed");
    if (t.mode != T_STREAM) { HX_CHECK(t.error() == mpack_error_invalid, "stream-tail", "tail reported as %s", errname(t.error())); return; }
    if (d.err == D_INVALID) { // the bad byte may be behind bytes that are needed first; both outcomes are errors or waiting
        HX_CHECK(t.error() == mpack_error_invalid, "stream-tail", "invalid byte in the stream reported as %s", errname(t.error()));
    } else if (tr) HX_CHECK(t.error() == mpack_ok, "stream-incomplete-error", "incomplete message reported as %s by try_parse", errname(t.error()));
    else HX_CHECK(t.error() == mpack_error_io, "stream-tail", "truncated stream reported as %s by a blocking parse", errname(t.error()));
}
void prop_case(uint64_t idx, Rng& r) {
    GenOpt g; g.budget = r.chance(1, 10) ? 150 : 15; g.wide = r.chance(1, 60); g.maxdepth = r.chance(1, 8) ? 30 : 6;
#if !MPACK_EXTENSIONS
    g.ext = false;
#endif
    Bytes b; unsigned k = (unsigned)r.range(1, 5); std::vector<size_t> ends;
    for (unsigned i = 0; i < k; ++i) { V v = gen_value(r, g); enc(b, v, r.chance(2, 3) ? ST_RANDOM : ST_SHORT, &r); ends.push_back(b.size()); }
    int tail = (int)r.below(4); // 0,1 none 2 truncated 3 garbage
    if (tail == 2) { Bytes x; V v = gen_value(r, g); enc(x, v, ST_RANDOM, &r); if (x.size() > 1) b.insert(b.end(), x.begin(), x.begin() + (long)(1 + r.below(x.size() - 1))); }
    if (tail == 3) { b.push_back(0xc1); if (r.chance(1, 2)) { Bytes s = gen_soup(r, r.below(9)); b.insert(b.end(), s.begin(), s.end()); } }
    note_hex("stream", b); note("%u messages, tail %d", k, tail);
    int modes[] = {T_STREAM, T_STREAM, T_STREAM, T_DATA, T_POOL,
#if MPACK_STDIO
        T_STDFILE, T_FILENAME
#endif
    };
    for (int m : modes) {
        bool tr = r.chance(1, 2); int chunk = r.chance(1, 4) ? 0 : r.chance(1, 3) ? -1 : r.chance(1, 2) ? 1 : (int)r.range(2, 40);
        if (b.size() > 20000 && chunk > 0) chunk = -1;
        size_t pn = 1; if (m == T_POOL) { size_t at = 0; for (;;) { Dec d = decode(b, at); if (d.err != D_OK) { size_t c = 1; for (auto& e : d.ev) c += e.k == K_ARR ? e.n : e.k == K_MAP ? 2 * (size_t)e.n : 0; pn = std::max(pn, c); break; } pn = std::max(pn, d.ev.size()); at += d.used; if (at >= b.size()) break; } if (pn > 100000) continue; }
        Tree t; t.open(b, (TMode)m, chunk, r.next(), 0, 0, pn); t.stalls = tr ? (unsigned)r.below(20) : 0;
        note("mode %s chunk %d try %d stalls %u", treename(m), chunk, tr, t.stalls);
        bool drip = tr && m == T_STREAM && b.size() < 3000 && r.chance(1, 2);
        if (drip) t.limit_data = 0;
        size_t at = 0; unsigned msgs = 0; TreeStats st = {0, 0, 0};
        while (msgs < k) {
            Dec d = decode(b, at);
            if (drip) {
                // one more byte (or a few) each time: complete exactly when the last byte of the message has arrived
                bool done = false;
                while (!done) {
                    done = mpack_tree_try_parse(&t.t);
                    HX_CHECK(t.error() == mpack_ok, "drip-error", "try_parse with %zu of %zu bytes flagged %s", t.limit_data, ends[msgs], errname(t.error()));
                    bool enough = t.limit_data >= ends[msgs];
                    // a chunked source can need several calls once the bytes are there, each must make progress
                    if (!enough) HX_CHECK(!done, "drip-early", "message of %zu bytes complete with %zu delivered", ends[msgs], t.limit_data);
                    if (enough && !done) { if (t.stalls) continue; fail("drip-late", "message ending at %zu not complete with %zu delivered (consumed %zu)", ends[msgs], t.limit_data, t.pos); }
                    if (!done) t.limit_data += 1 + (r.chance(1, 4) ? r.below(6) : 0);
                    count("drip_steps");
                }
            } else {
                bool ok = t.parse(tr);
                HX_CHECK(ok, "stream-rejects", "message %u (bytes %zu..%zu) not delivered: error %s", msgs, at, ends[msgs], errname(t.error()));
            }
            HX_CHECK(mpack_tree_size(&t.t) == d.used, "stream-size", "message %u size %zu, expected %zu", msgs, mpack_tree_size(&t.t), d.used);
            tree_match(mpack_tree_root(&t.t), d, t.bytes(), m == T_DATA || m == T_POOL, r, st, "stream");
            HX_CHECK(t.error() == mpack_ok, "stream-error", "%s", errname(t.error()));
            at += d.used; ++msgs;
        }
        if (drip) t.limit_data = (size_t)-1;
        bool skip_tail = r.chance(1, 3);
        if (!skip_tail) { bool ok = t.parse(tr); tail_check(t, b, at, tr, ok); count("tails_checked"); if (tr && t.error() == mpack_ok) { HX_CHECK(!mpack_tree_try_parse(&t.t) && t.error() == mpack_ok, "stream-tail", "second attempt"); } }
        HX_CHECK(t.log.errors == (t.error() != mpack_ok), "stream-handler", "handler ran %d times", t.log.errors);
        HX_CHECK(!t.asked_zero, "read-zero", "the read function was asked for zero bytes");
        t.close(); eval(); count("messages", msgs); count("nodes_compared", st.nodes); count("reads", t.reads); count("stalls", t.zero_reads);
        distinct(mix(hash_bytes(b), (uint64_t)(m * 1000 + chunk + 5 + tr * 500)));
    }
    if (want_sample()) sample("%u messages, %zu bytes, tail %d", k, b.size(), tail);
}
