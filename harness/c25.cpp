// C25: independent objects in different threads do not interfere, and a parsed
// tree may be queried concurrently. Watched by TSan; results compared with the
// same scripts run alone.
#include "hx_script.hpp"
#include <pthread.h>
#include <sched.h>
using namespace hx;
const char* prop_rule() { return "case = 2-8 threads started together, each running a random mix of reader, expect, tree, writer, builder, timestamp, tag, UTF-8, file and (in debug builds) print scripts with objects of its own over inputs shared read-only, or all querying one parsed tree; transcripts compared with the same scripts run alone afterwards; non-trivial = at least two threads ran; distinct by (inputs, scripts)"; }

struct Job { const std::vector<Bytes>* inputs; const std::vector<V>* vals; mpack_tree_t* tree; uint64_t seed; unsigned n; uint64_t digest; int64_t leak; uint64_t steps; bool yields; pthread_barrier_t* bar; };
static __thread Rng* t_yield = 0;
static void maybe_yield() { if (t_yield && t_yield->chance(1, 3)) sched_yield(); }
struct Fill { const uint8_t* p; size_t n, at; Rng r; Fill(const Bytes& b, uint64_t s) : p(b.data()), n(b.size()), at(0), r(s) {} size_t get(char* o, size_t c) { maybe_yield(); size_t left = n - at; if (c > left) c = left; if (c > 1 && r.chance(1, 2)) c = 1 + (size_t)r.below(c); if (c) memcpy(o, p + at, c); at += c; return c; } };
static size_t rfill(mpack_reader_t* rd, char* b, size_t c) { return ((Fill*)mpack_reader_context(rd))->get(b, c); }
static size_t tfill(mpack_tree_t* t, char* b, size_t c) { return ((Fill*)mpack_tree_context(t))->get(b, c); }
static void wflush(mpack_writer_t* w, const char* p, size_t n) { maybe_yield(); Bytes* o = (Bytes*)mpack_writer_context(w); o->insert(o->end(), (const uint8_t*)p, (const uint8_t*)p + n); }
static __thread int t_errs = 0;
static void rerr(mpack_reader_t*, mpack_error_t) { ++t_errs; maybe_yield(); }
static void terr(mpack_tree_t*, mpack_error_t) { ++t_errs; }
static void werr(mpack_writer_t*, mpack_error_t) { ++t_errs; }

static void one(Job& j, Rng& r, Script& s) {
    const Bytes& in = (*j.inputs)[r.below(j.inputs->size())]; const V& v = (*j.vals)[r.below(j.vals->size())]; uint64_t seed = r.next(); t_errs = 0;
    unsigned kind = (unsigned)r.below(j.tree ? 12 : 10);
    s.t("kind", kind);
    switch (kind) {
        case 0: case 1: { // readers straight over the shared bytes
            mpack_reader_t rd; mpack_reader_init_data(&rd, (const char*)in.data(), in.size()); mpack_reader_set_error_handler(&rd, rerr); Dec d = decode(in);
            mpack_error_t e = sc_message(&rd, seed, s, d, in, true);
            if (e == mpack_ok && d.err == D_OK) s.t("left", mpack_reader_remaining(&rd, NULL));
            s.t("final", (uint64_t)mpack_reader_destroy(&rd)); break; }
        case 2: { mpack_reader_t rd; size_t bs = 32 + (size_t)r.below(200); Guard b(bs); Fill f(in, seed); mpack_reader_init(&rd, b.p, bs, 0); mpack_reader_set_context(&rd, &f); mpack_reader_set_fill(&rd, rfill); mpack_reader_set_error_handler(&rd, rerr); Dec d = decode(in);
            sc_message(&rd, seed, s, d, in, true); if (mpack_reader_error(&rd) == mpack_ok) mpack_reader_flag_error(&rd, mpack_error_data); s.t("final", (uint64_t)mpack_reader_destroy(&rd)); break; }
#if MPACK_STDIO
        case 3: { if (in.empty()) break; FILE* f = fmemopen((void*)in.data(), in.size(), "rb"); if (!f) break; mpack_reader_t rd; mpack_reader_init_stdfile(&rd, f, true); mpack_reader_set_error_handler(&rd, rerr); Dec d = decode(in); sc_message(&rd, seed, s, d, in, false); if (mpack_reader_error(&rd) == mpack_ok) mpack_reader_flag_error(&rd, mpack_error_data); s.t("final", (uint64_t)mpack_reader_destroy(&rd)); break; }
#endif
        case 4: case 5: { mpack_tree_t t; Fill f(in, seed); bool str = kind == 5; if (str) mpack_tree_init_stream(&t, tfill, &f, 1u << 24, 100000); else mpack_tree_init_data(&t, (const char*)in.data(), in.size()); mpack_tree_set_error_handler(&t, terr);
            if (str) { for (int k = 0; k < 200 && !mpack_tree_try_parse(&t) && mpack_tree_error(&t) == mpack_ok && f.at < f.n; ++k) {} if (mpack_tree_error(&t) == mpack_ok && f.at >= f.n) mpack_tree_flag_error(&t, mpack_error_data); } else mpack_tree_parse(&t);
            if (!str && mpack_tree_error(&t) == mpack_ok) { Rng q(seed); unsigned budget = 600; sc_node(s, mpack_tree_root(&t), q, 0, budget, r.chance(1, 2)); s.t("size", mpack_tree_size(&t)); }
            s.t("final", (uint64_t)mpack_tree_destroy(&t)); break; }
        case 6: { char* data = 0; size_t n = 0; mpack_writer_t w; mpack_writer_init_growable(&w, &data, &n); mpack_writer_set_error_handler(&w, werr); EmitOpt o; o.build = r.chance(1, 2) ? 30 : 0; Rng er(seed); emit(&w, v, er, o); mpack_error_t e = mpack_writer_destroy(&w); s.t("final", (uint64_t)e); if (e == mpack_ok) { s.data("out", data, n); MPACK_FREE(data); } break; }
        case 7: { Bytes out; size_t bs = 32 + (size_t)r.below(100); Guard b(bs); mpack_writer_t w; mpack_writer_init(&w, b.p, bs); mpack_writer_set_context(&w, &out); mpack_writer_set_flush(&w, wflush); mpack_writer_set_error_handler(&w, werr); EmitOpt o; o.build = r.chance(1, 3) ? 30 : 0; Rng er(seed); emit(&w, v, er, o);
            mpack_error_t e = mpack_writer_destroy(&w); s.t("final", (uint64_t)e); s.data("out", out.data(), out.size()); break; }
        case 8: {
#if MPACK_STDIO
            char* mem = 0; size_t mn = 0; FILE* f = open_memstream(&mem, &mn); if (!f) break; mpack_writer_t w; mpack_writer_init_stdfile(&w, f, true); EmitOpt o; Rng er(seed); emit(&w, v, er, o); mpack_error_t e = mpack_writer_destroy(&w); s.t("final", (uint64_t)e); s.data("out", mem, mn); free(mem);
#endif
            break; }
        case 9: { // small stateless things
            Bytes t = gen_str(r, r.below(80), (int)r.below(4)); char obuf[200]; mpack_writer_t w; mpack_writer_init(&w, obuf, sizeof obuf); mpack_write_utf8(&w, (const char*)t.data(), (uint32_t)t.size());
#if MPACK_EXTENSIONS
            mpack_write_timestamp(&w, (int64_t)gen_u64(r), (uint32_t)r.below(1000000000u));
#endif
            size_t used = mpack_writer_buffer_used(&w); mpack_error_t e = mpack_writer_destroy(&w); s.t("final", (uint64_t)e); if (e == mpack_ok) s.data("out", obuf, used);
#if MPACK_EXTENSIONS
            if (e == mpack_ok) { mpack_reader_t rd; mpack_reader_init_data(&rd, obuf, used); mpack_discard(&rd); mpack_timestamp_t ts = mpack_expect_timestamp(&rd); s.t("ts", (uint64_t)ts.seconds); s.t("ns", ts.nanoseconds); s.t("final", (uint64_t)mpack_reader_destroy(&rd)); }
#endif
            Dec d = decode(in); for (size_t i = 0; i + 1 < d.ev.size() && i < 20; ++i) s.t("cmp", (uint64_t)mpack_tag_cmp(ev_tag(d.ev[i]), ev_tag(d.ev[i + 1])));
            const char* es = mpack_error_to_string((mpack_error_t)r.range(2, 10)); s.data("error", es, strlen(es)); const char* tn = mpack_type_to_string(mpack_type_map); s.data("type", tn, strlen(tn));
#if MPACK_DEBUG && MPACK_STDIO
            char pb[700]; mpack_print_data_to_buffer((const char*)in.data(), in.size() > 300 ? 300 : in.size(), pb, sizeof pb); s.data("print", pb, strlen(pb));
            if (!d.ev.empty()) { mpack_tag_t tg = ev_tag(d.ev[0]); char db[80]; mpack_tag_debug_describe(tg, db, sizeof db); s.data("describe", db, strlen(db)); }
#endif
            break; }
        default: { // queries of the one shared tree that raise no error
            Rng q(seed); unsigned budget = 500; mpack_node_t root = mpack_tree_root(j.tree); sc_node(s, root, q, 0, budget, false); s.t("size", mpack_tree_size(j.tree)); s.t("error", (uint64_t)mpack_tree_error(j.tree));
#if MPACK_DEBUG && MPACK_STDIO
            char pb[600]; mpack_node_print_to_buffer(root, pb, sizeof pb); s.data("print", pb, strlen(pb));
#endif
            break; }
    }
    s.t("callbacks", (uint64_t)t_errs);
}
static void run(Job& j) {
    Script s(g_verbose); int64_t live = g_alloc.live; Rng r(j.seed), y(j.seed ^ 99); t_yield = j.yields ? &y : 0;
    for (unsigned i = 0; i < j.n; ++i) { one(j, r, s); maybe_yield(); }
    j.digest = s.h; j.steps = s.steps; j.leak = g_alloc.live - live; t_yield = 0;
    if (g_verbose && getenv("HX_TEXT")) fprintf(stderr, "%s", s.text.c_str());
}
static void* thread_main(void* p) { Job* j = (Job*)p; g_alloc.cap = (uint64_t)400 << 20; pthread_barrier_wait(j->bar); run(*j); return 0; }
void prop_case(uint64_t idx, Rng& r) {
    (void)idx; std::vector<Bytes> inputs; std::vector<V> vals; GenOpt g; g.budget = r.chance(1, 4) ? 100 : 20; g.ext = MPACK_EXTENSIONS; g.bigstr = r.chance(1, 5); uint64_t h = 5;
    for (unsigned i = 0; i < 3; ++i) { Bytes b; int kind; if (i < 2) { V v = gen_value(r, g); enc(b, v, ST_RANDOM, &r); } else b = gen_input(r, &kind, g); if (b.empty()) b.push_back(0xc0); h = hash_bytes(b, h); inputs.push_back(b); V v = gen_value(r, g); vals.push_back(v); note_hex("input", b.data(), b.size() < 800 ? b.size() : 800); }
    std::vector<uint64_t> ih; for (auto& b : inputs) ih.push_back(hash_bytes(b));
    mpack_tree_t tree; bool shared = r.chance(3, 4); Fill tf(inputs[0], 1); std::vector<mpack_node_data_t> pool;
    if (shared) {
        uint64_t how = r.below(3);
        if (how == 0) mpack_tree_init_data(&tree, (const char*)inputs[0].data(), inputs[0].size());
        else if (how == 1) mpack_tree_init_stream(&tree, tfill, &tf, 1u << 24, 100000);
        else { pool.resize(20000); mpack_tree_init_pool(&tree, (const char*)inputs[0].data(), inputs[0].size(), pool.data(), pool.size()); }
        mpack_tree_parse(&tree); if (mpack_tree_error(&tree) != mpack_ok) { mpack_tree_destroy(&tree); shared = false; }
    }
    unsigned n = (unsigned)r.range(2, 8), work = (unsigned)r.range(4, 30); std::vector<Job> jobs(n); pthread_barrier_t bar; pthread_barrier_init(&bar, 0, n); bool same = r.chance(1, 3); uint64_t s0 = r.next(); bool yields = r.chance(2, 3);
    note("%u threads, %u scripts each, %s, shared tree %d", n, work, same ? "all the same" : "different", shared); if (want_sample()) sample("%u threads x %u scripts, %s", n, work, shared ? "one shared tree" : "no shared tree");
    for (unsigned i = 0; i < n; ++i) { jobs[i] = Job{&inputs, &vals, shared ? &tree : 0, same ? s0 : mix(s0, i), work, 0, 0, 0, yields, &bar}; }
    std::vector<pthread_t> th(n); for (unsigned i = 0; i < n; ++i) if (pthread_create(&th[i], 0, thread_main, &jobs[i]) != 0) abort();
    for (unsigned i = 0; i < n; ++i) pthread_join(th[i], 0);
    pthread_barrier_destroy(&bar);
    for (unsigned i = 0; i < n; ++i) {
        HX_CHECK(jobs[i].leak == 0, "leak", "thread %u left %lld allocations", i, (long long)jobs[i].leak);
        Job alone = jobs[i]; alone.yields = false; run(alone);
        HX_CHECK(alone.digest == jobs[i].digest && alone.steps == jobs[i].steps, "thread-interference", "thread %u of %u: its results differ from the same scripts run alone (%llu against %llu steps)", i, n, (unsigned long long)jobs[i].steps, (unsigned long long)alone.steps);
        count("thread_runs"); count("thread_steps", jobs[i].steps); eval();
    }
    if (shared) { HX_CHECK(mpack_tree_error(&tree) == mpack_ok, "tree-error", "queries that should raise no error raised %s", errname(mpack_tree_error(&tree))); mpack_tree_destroy(&tree); count("shared_trees"); }
    for (size_t i = 0; i < inputs.size(); ++i) HX_CHECK(hash_bytes(inputs[i]) == ih[i], "input-modified", "shared input changed");
    distinct(mix(h, mix(s0, n * 100 + work)));
}
