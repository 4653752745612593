// C11: every allocation of a run is made to fail, one by one and from some point on.
#include "hx_prog.hpp"
using namespace hx;
const char* prop_rule() { return "case = a deterministic write, read, expect or tree program over a generated value and source or sink, run once without faults (baseline trace of results and outputs) and then again with its k-th allocation failing (once, and from there on) for every k up to a bound; the error, the trace before the error, the output, the allocation ledger and files are monitored; non-trivial = an allocation was made to fail; distinct by (program, k)"; }

typedef void (*prog_t)(uint64_t seed, Res& o);
static V g_v; static Bytes g_b;   // the subject of the programs of this case
static unsigned g_flavour;

//---------------------------------------------------------------- writer
static void p_write(uint64_t seed, Res& o) {
    Rng r(seed); SinkMode m = (SinkMode)(1 + r.below(MPACK_STDIO ? 4 : 2)); if (r.chance(1, 3)) m = W_GROW;
    Sink s; s.open(m, 32 + r.below(200), r.next());
    bool early = mpack_writer_error(&s.w) != mpack_ok;
    EmitOpt eo; eo.build = r.chance(1, 4) ? 0 : r.chance(1, 2) ? 40 : 100;
    unsigned n = (unsigned)r.range(1, 3);
    for (unsigned i = 0; i < n; ++i) { emit(&s.w, g_v, r, eo); if (m != W_GROW && r.chance(1, 2) && mpack_writer_error(&s.w) == mpack_ok) mpack_writer_flush_message(&s.w); }
    o.err = s.close(); o.calls = s.log.errors + (early ? 1 : 0); o.first = early ? o.err : s.log.first; o.out = s.out;
}

static void p_read(uint64_t seed, Res& o) {
    Rng r(seed); SrcMode m = (SrcMode)r.below(MPACK_STDIO ? S_NMODES : 3); if (r.chance(1, 2) && MPACK_STDIO) m = r.chance(1, 2) ? S_STDFILE : S_FILENAME;
    Src s; s.open(g_b, m, pick_bufsize(r), r.chance(1, 2) ? 0 : -1, r.next());
    bool early = mpack_reader_error(&s.r) != mpack_ok;
    unsigned k = 0; while (mpack_reader_error(&s.r) == mpack_ok && k++ < 3) read_elem(&s.r, r, o);
    if (mpack_reader_error(&s.r) == mpack_ok) { const char* p; o.trace.push_back(mpack_reader_remaining(&s.r, &p)); }
    mpack_error_t was = mpack_reader_error(&s.r);
    if (was == mpack_ok && r.chance(1, 2)) { o.err = mpack_reader_destroy(&s.r); if (m == S_STDFILE && !s.close_when_done) fclose(s.fp); } else o.err = s.close();
    o.calls = s.log.errors + (early ? 1 : 0); o.first = early ? o.err : s.log.first;
}

static void p_tree(uint64_t seed, Res& o) {
    Rng r(seed); TMode m = (TMode)r.below(T_USABLE);
    Tree t; t.stalls = (unsigned)r.below(4); bool use_try = m == T_STREAM && r.chance(1, 2);
    t.open(g_b, m, r.chance(1, 2) ? -1 : 0, r.next(), 0, 0, 1 + r.below(400));
    bool early = t.error() != mpack_ok;
    for (unsigned k = 0; k < 2 && t.error() == mpack_ok; ++k) {
        // only the data given so far: the try form must resume after a stall
        if (!t.parse(use_try)) break;
        o.trace.push_back(mpack_tree_size(&t.t)); unsigned budget = 4000; visit(mpack_tree_root(&t.t), &t.t, r, o, budget);
    }
    o.err = t.close(); o.calls = t.log.errors + (early ? 1 : 0); o.first = early ? o.err : t.log.first;
}
static const struct { const char* n; prog_t p; } PROGS[] = {{"write", p_write}, {"read", p_read}, {"tree", p_tree}};

static void run(prog_t p, uint64_t seed, int64_t k, bool persist, Res& o) {
    o.trace.clear(); o.out.clear(); o.calls = 0;
    int64_t live = g_alloc.live, files = g_open_files; alloc_reset();
    if (k >= 0) alloc_fail(k, persist);
    p(seed, o);
    alloc_off(); o.allocs = g_alloc.calls;
    HX_CHECK(g_alloc.live == live, "leak", "%lld blocks leaked", (long long)(g_alloc.live - live));
    HX_CHECK(g_open_files == files, "file-leak", "%lld files left open", (long long)(g_open_files - files));
}
static V deep(Rng& r, unsigned d) { V v(K_UINT); v.u = 5; while (d--) { V w(r.chance(1, 2) ? K_ARR : K_MAP); if (w.k == K_MAP) w.c.push_back(V(K_NIL)); w.c.push_back(v); if (r.chance(1, 4)) { w.c.push_back(V(K_NIL)); if (w.k == K_MAP) w.c.push_back(V(K_NIL)); } v = w; } return v; }
void prop_case(uint64_t idx, Rng& r) {
    GenOpt g; g.budget = r.chance(1, 5) ? 250 : 40; g.maxdepth = (unsigned)r.range(2, 10); g.ext = MPACK_EXTENSIONS;
    g_v = r.chance(1, 4) ? deep(r, (unsigned)r.range(3, 40)) : gen_value(r, g);
    if (r.chance(1, 4)) { V a(K_ARR); a.c.push_back(g_v); V s(K_STR); s.s = gen_str(r, 3000 + r.below(6000), 0); a.c.push_back(s); a.c.push_back(V(K_NIL)); g_v = a; }
    g_b.clear(); enc(g_b, g_v, ST_RANDOM, &r); if (r.chance(1, 3)) { Bytes c = g_b; g_b.insert(g_b.end(), c.begin(), c.end()); } if (r.chance(1, 8)) mutate(g_b, r);
    for (auto& P : PROGS) for (int rep = 0; rep < 2; ++rep) {
        clear_notes(); uint64_t seed = r.next(); { char d[400]; describe(g_v, d, sizeof d); note("%s program, seed %llu over %s", P.n, (unsigned long long)seed, d); if (want_sample()) sample("%s over %s", P.n, d); }
        Res base; run(P.p, seed, -1, false, base); note("baseline: %s, %llu allocations", errname(base.err), (unsigned long long)base.allocs);
        uint64_t n = base.allocs, cap = g_thorough ? 200 : 24; count("baseline_allocations", n);
        for (uint64_t q = 0; q < n && q < cap; ++q) for (int persist = 0; persist < 2; ++persist) {
            uint64_t k = n <= cap ? q : q < cap / 2 ? q : r.below(n);
            Res o; run(P.p, seed, (int64_t)k, persist, o);
            note("allocation %llu of %llu fails%s: %s", (unsigned long long)k, (unsigned long long)n, persist ? " (and all later ones)" : "", errname(o.err));
            HX_CHECK(g_alloc.injected, "not-injected", "allocation %llu was not reached: the run is not deterministic", (unsigned long long)k);
            count("injected"); eval(); distinct(mix(mix(hash_bytes(g_b), seed), k * 2 + (uint64_t)persist));
            if (o.err == mpack_ok || o.err != mpack_error_memory) {
                HX_CHECK(o.err == base.err, "error-changed", "%s program ends with %s instead of %s or memory", P.n, errname(o.err), errname(base.err));
                HX_CHECK(o.trace == base.trace && o.out == base.out, "partial-success", "%s program ends with %s like the baseline but its results differ (%zu/%zu trace items, %zu/%zu bytes)", P.n, errname(o.err), o.trace.size(), base.trace.size(), o.out.size(), base.out.size());
                count("absorbed");
            } else {
                HX_CHECK(o.trace.size() <= base.trace.size() && std::equal(o.trace.begin(), o.trace.end(), base.trace.begin()), "trace-prefix", "%s program: results before the memory error are not those of the baseline (%zu and %zu items)", P.n, o.trace.size(), base.trace.size());
                HX_CHECK(o.out.size() <= base.out.size() && std::equal(o.out.begin(), o.out.end(), base.out.begin()), "output-prefix", "%s program: output before the memory error is not a prefix of the baseline's (%zu and %zu bytes)", P.n, o.out.size(), base.out.size());
                count("reported");
            }
            if (o.err != mpack_ok) HX_CHECK(o.calls == 1 && o.first == o.err, "callback", "%s program: error %s but the callback ran %d times, first with %s", P.n, errname(o.err), o.calls, errname(o.first));
        }
    }
    (void)idx;
}
