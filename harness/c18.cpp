// C18: tree limits on size, node count and pool are enforced exactly.
#include "hx_tree.hpp"
using namespace hx;
const char* prop_rule() { return "case = message(s) with known size S and node count N parsed under limits S-2..S+2, N-2..N+2, 1 and large, from memory, pools of N-2..N+2 nodes, and streams under random chunking, stalls and buffered following data, and of files (limit on the whole file); non-trivial = a limit within 2 of the exact value; distinct by (message, limits, source)"; }
static void run(const Bytes& b, const std::vector<size_t>& at, const std::vector<size_t>& S, const std::vector<size_t>& N, TMode m, size_t ms, size_t mn, size_t pn, bool tr, int chunk, uint64_t seed, unsigned stalls) {
    note("mode %s max_size %zu max_nodes %zu pool %zu try %d chunk %d stalls %u", treename(m), ms, mn, pn, tr, chunk, stalls);
    Tree t; t.open(b, m, chunk, seed, ms, mn, pn); t.stalls = tr ? stalls : 0;
    Rng r(1);
    for (size_t i = 0; i < S.size(); ++i) {
        bool ok = t.parse(tr); bool want = (!ms || S[i] <= ms) && (!mn || N[i] <= mn) && (m != T_POOL || N[i] <= pn);
        if (want) {
            HX_CHECK(ok, "limit-rejects", "message %zu of %zu bytes and %zu nodes rejected with %s under limits %zu bytes / %zu nodes / pool %zu (%s)", i, S[i], N[i], errname(t.error()), ms, mn, pn, treename(m));
            Dec d = decode(b, at[i]); TreeStats st = {0,0,0}; tree_match(mpack_tree_root(&t.t), d, t.bytes(), false, r, st, "limit"); count("accepted");
        } else {
            HX_CHECK(!ok, "limit-exceeded", "message %zu of %zu bytes and %zu nodes accepted under limits %zu bytes / %zu nodes / pool %zu (%s)", i, S[i], N[i], ms, mn, pn, treename(m));
            HX_CHECK(t.error() == mpack_error_too_big, "limit-error", "exceeding the limits reported as %s (%s)", errname(t.error()), treename(m)); count("rejected");
            break;
        }
    }
    t.close(); eval();
    distinct(mix(hash_bytes(b), mix(ms, mn * 31 + pn * 7 + (uint64_t)m)));
}
#if MPACK_STDIO
// the whole file counts for the limit of a file tree (zero means no limit)
static void file_limit(const Bytes& b, Rng& r) {
    CFile f; f.in = b; f.chunk_mode = r.chance(1, 2) ? 0 : 1 + (int)r.below(40);
    size_t mx = b.size() + (size_t)r.below(5); mx = mx > 2 ? mx - 2 : 1;
    if (r.chance(1, 6)) mx = 0; else if (r.chance(1, 6)) mx = 1 + (size_t)r.below(b.size() + 5);
    else if (sizeof(long) > 4 && r.chance(1, 6)) mx = (size_t)((r.range(1, 3) << 31) * 2 + r.below(b.size() + 2));
    int how = (int)r.below(3); mpack_tree_t t; FILE* fp = 0; note("file tree (way %d) of %zu bytes, limit %zu", how, b.size(), mx);
    if (how < 2) { fp = f.open("rb"); mpack_tree_init_stdfile(&t, fp, mx, how == 1); } else { bind_name(&f); mpack_tree_init_filename(&t, "hx:in", mx); bind_name(0); }
    bool want = mx == 0 || b.size() <= mx; mpack_tree_parse(&t); mpack_error_t e = mpack_tree_error(&t);
    if (want) { HX_CHECK(e == mpack_ok, "file-limit-rejects", "a file of %zu bytes was refused with %s under a limit of %zu", b.size(), errname(e), mx); Dec d = decode(b, 0); HX_CHECK(mpack_tree_size(&t) == d.used, "file-limit-size", "size %zu of a message of %zu bytes", mpack_tree_size(&t), d.used); count("file_accepted"); }
    else { HX_CHECK(e == mpack_error_too_big, "file-limit-exceeded", "a file of %zu bytes under a limit of %zu: %s", b.size(), mx, errname(e)); count("file_rejected"); }
    mpack_tree_destroy(&t); if (how == 0 && fp) fclose(fp); eval(); distinct(mix(hash_bytes(b), mx * 3 + (uint64_t)how));
}
#endif
void prop_case(uint64_t idx, Rng& r) {
    GenOpt g; g.budget = r.chance(1, 8) ? 200 : 20; g.wide = r.chance(1, 60); g.maxdepth = r.chance(1, 8) ? 20 : 6;
#if !MPACK_EXTENSIONS
    g.ext = false;
#endif
    Bytes b; std::vector<size_t> at, S, N; unsigned k = r.chance(1, 2) ? 1 : (unsigned)r.range(2, 4);
    for (unsigned i = 0; i < k; ++i) { V v = gen_value(r, g); at.push_back(b.size()); enc(b, v, r.chance(1, 2) ? ST_RANDOM : ST_SHORT, &r); S.push_back(b.size() - at.back()); N.push_back(node_count(v)); }
    clear_notes(); note_hex("stream", b);
    size_t j = r.below(k), s0 = S[j], n0 = N[j];
    for (int q = 0; q < 12; ++q) {
        size_t ms = 0, mn = 0, pn = n0;
        switch (r.below(4)) { case 0: break; case 1: ms = s0 + r.below(5); ms = ms > 2 ? ms - 2 : 1; break; case 2: ms = 1 + r.below(s0 + 5); break; default: ms = s0; }
        switch (r.below(4)) { case 0: break; case 1: mn = n0 + r.below(5); mn = mn > 2 ? mn - 2 : 1; break; case 2: mn = 1 + r.below(n0 + 5); break; default: mn = n0; }
        if (sizeof(size_t) > 4 && r.chance(1, 8)) { uint64_t up = r.range(1, 3) << 32; if (ms && r.chance(2, 3)) ms = (size_t)(up + r.below(s0 + 2)); if (mn && r.chance(2, 3)) mn = (size_t)(up + r.below(n0 + 2)); } // far above any message
        TMode m = r.chance(1, 4) ? T_DATA : r.chance(1, 3) || T_USABLE < 3 ? T_POOL : T_STREAM;
        if (m == T_POOL) { pn = n0 + r.below(5); pn = pn > 2 ? pn - 2 : 1; size_t mx = 0; for (size_t x : N) mx = std::max(mx, x); if (r.chance(1, 2)) pn = mx; }
        int chunk = r.chance(1, 3) ? 0 : r.chance(1, 2) ? -1 : (int)r.range(1, 30); if (b.size() > 20000 && chunk > 0) chunk = 0;
        run(b, at, S, N, m, ms, mn, pn, r.chance(1, 2), chunk, r.next(), (unsigned)r.below(30));
    }
#if MPACK_STDIO
    for (int q = 0; q < 3; ++q) file_limit(b, r);
#endif
    if (want_sample()) sample("%u messages, first has %zu bytes and %zu nodes", k, S[0], N[0]);
}
