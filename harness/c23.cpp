// C23: error callbacks leave by a jump, or destroy the object, wherever an error is raised.
#include "hx_prog.hpp"
#include "hx_ops.hpp"
#include <setjmp.h>
using namespace hx;
const char* prop_rule() { return "case = a deterministic reader, tree or writer program with a natural error or an injected one (malformed data, mismatched expectation, small buffer, limit, k-th allocation, k-th source or sink operation, close, abandoned containers), run once with an error callback that returns and then with one that jumps out (longjmp, or a C++ exception), one that destroys the object and jumps, and one that destroys it and returns; the error, the results and output before it, the source position, double and missing frees and closes, and later queries and destruction are monitored; non-trivial = the callback jumped or destroyed; distinct by (program, fault, action)"; }

enum Act { A_RETURN, A_JUMP, A_DESTROY_JUMP, A_DESTROY_RETURN, A_N };
static const char* const ACTN[] = {"returns", "jumps", "destroys and jumps", "destroys and returns"};
struct Jump {};
static Act g_act; static int g_hooks, g_jumps; static bool g_armed;
#if HX_THROW
template <class F> static bool guarded(F f) { try { g_armed = true; f(); } catch (const Jump&) { g_armed = false; g_jumps++; return true; } g_armed = false; return false; }
static void leave() { throw Jump(); }
#else
static jmp_buf g_jb;
template <class F> __attribute__((noinline)) static bool guarded(F f) { if (setjmp(g_jb) == 0) { g_armed = true; f(); g_armed = false; return false; } g_armed = false; g_jumps++; return true; }
static void leave() { longjmp(g_jb, 1); }
#endif
static void hook(void* o, int kind) {
    ++g_hooks; if (g_act == A_RETURN || !g_armed) return;
    if (g_act != A_JUMP) switch (kind) {
        case 0: ((Src*)o)->destroyed = true; mpack_reader_destroy(&((Src*)o)->r); break;
        case 1: ((Tree*)o)->destroyed = true; mpack_tree_destroy(&((Tree*)o)->t); break;
        default: ((Sink*)o)->destroyed = true; mpack_writer_destroy(&((Sink*)o)->w); break;
    }
    if (g_act != A_DESTROY_RETURN) leave();
}
struct Fault { int what; int64_t at; bool persist; int kind; }; // what: 0 none, 1 allocation, 2 source or sink operation, 3 close
static V g_v; static Bytes g_b;
struct Run { Res o; int hooks, jumps; bool in_destroy; size_t pos; uint64_t allocs, ops; };

static void after(bool cond, mpack_error_t err, mpack_error_t now, int hooks, const char* what) {
    HX_CHECK(cond, "after-jump", "%s: unsafe value after the error callback %s", what, ACTN[g_act]);
    HX_CHECK(now == err && g_hooks == hooks, "after-jump", "%s after the error callback %s: error %s became %s, callback ran %d more times", what, ACTN[g_act], errname(err), errname(now), g_hooks - hooks);
}
//---------------------------------------------------------------- reader
static void read_prog(Src& s, Rng& r, Res& o, unsigned flavour, unsigned steps) {
    for (unsigned k = 0; k < steps && mpack_reader_error(&s.r) == mpack_ok; ++k) {
        if (flavour == 0) read_elem(&s.r, r, o);
        else { uint64_t c = 0; const char* nm = reader_op(&s.r, r, !HX_TRACKED && flavour == 2, c); if (mpack_reader_error(&s.r) == mpack_ok) o.trace.push_back(hash_bytes(nm, strlen(nm))); }
    }
}
static void run_reader(uint64_t seed, const Fault& f, Run& u) {
    Rng r(seed); Src* s = new Src; SrcMode m = (SrcMode)r.below(MPACK_STDIO ? S_NMODES : 3); unsigned flavour = (unsigned)r.below(3), steps = (unsigned)r.range(1, flavour ? 40 : 4), bs = (unsigned)pick_bufsize(r); int chunk = r.chance(1, 2) ? 0 : -1; uint64_t os = r.next(); bool abandon = HX_TRACKED && r.chance(1, 3);
    s->fail_kind = f.kind; if (f.what == 2) { s->fail_fill = f.at; if (m == S_FILLSKIP && f.kind == 2) s->fail_skip = f.at; s->file.fail_op = f.at; s->file.fail_persist = f.persist; }
    if (f.what == 3) s->file.fail_close = true;
    if (f.what == 1) alloc_fail(f.at, f.persist);
    s->open(g_b, m, bs, chunk, os);
    bool early = mpack_reader_error(&s->r) != mpack_ok; Rng pr(r.next()); uint64_t ar = r.next();
    if (!early) guarded([&] { read_prog(*s, pr, u.o, flavour, steps); if (abandon && mpack_reader_error(&s->r) == mpack_ok) { mpack_tag_t t = mpack_read_tag(&s->r); (void)t; } });
    while (!g_owned.empty()) { MPACK_FREE(g_owned.back()); g_owned.pop_back(); }
    if (!s->destroyed && mpack_reader_error(&s->r) != mpack_ok && !early && f.what != 1) {
        mpack_error_t err = mpack_reader_error(&s->r); int hk = g_hooks; Rng x(ar); const char* p;
        size_t pos = s->pos; uint64_t c = 0;
        HX_CHECK(mpack_reader_remaining(&s->r, &p) == 0, "after-jump", "bytes remain after an error");
        for (int i = 0; i < 4; ++i) { const char* nm = reader_op(&s->r, x, true, c); after(s->pos == pos, err, mpack_reader_error(&s->r), hk, nm); }
    }
    int before = g_hooks;
    bool own = false; mpack_error_t e = mpack_ok;
    if (mpack_reader_error(&s->r) == mpack_ok && s->mode == S_STDFILE && !s->close_when_done) own = true;
    if (guarded([&] { e = s->close(); })) { u.in_destroy = true; own = false; guarded([&] { e = s->close(); }); HX_CHECK(g_jumps == 1, "destroy-twice", "the second destruction called the error callback again"); }
    else if (g_hooks > before) u.in_destroy = true;
    (void)own; u.o.err = e; u.o.calls = s->log.errors; u.o.first = s->log.first; u.pos = s->pos; u.ops = s->fills + (uint64_t)s->file.ops;
    if (early) { u.o.calls = 1; u.o.first = e; }
    delete s;
}
//---------------------------------------------------------------- tree
static void run_tree(uint64_t seed, const Fault& f, Run& u) {
    Rng r(seed); Tree* t = new Tree; TMode m = (TMode)r.below(T_USABLE); t->stalls = (unsigned)r.below(4); bool use_try = m == T_STREAM && r.chance(1, 2); int chunk = r.chance(1, 2) ? -1 : 0; uint64_t os = r.next();
    size_t ms = r.chance(1, 8) ? 1 + r.below(g_b.size() + 2) : 0, mn = r.chance(1, 8) ? 1 + r.below(20) : 0, pn = 1 + r.below(300); unsigned flavour = (unsigned)r.below(2);
    t->fail_kind = f.kind; if (f.what == 2) { t->fail_read = f.at; t->file.fail_op = f.at; t->file.fail_persist = f.persist; }
    if (f.what == 3) t->file.fail_close = true;
    if (f.what == 1) alloc_fail(f.at, f.persist);
    t->open(g_b, m, chunk, os, ms, mn, pn);
    bool early = t->error() != mpack_ok; Rng pr(r.next()); uint64_t ar = r.next();
    if (!early) guarded([&] {
        for (unsigned k = 0; k < 2 && t->error() == mpack_ok; ++k) {
            if (!t->parse(use_try)) break;
            u.o.trace.push_back(mpack_tree_size(&t->t)); unsigned budget = 2000;
            if (flavour == 0) visit(mpack_tree_root(&t->t), &t->t, pr, u.o, budget);
            else { mpack_node_t pool[16]; unsigned n = 1; pool[0] = mpack_tree_root(&t->t); uint64_t c = 0;
                for (unsigned i = 0; i < 60 && t->error() == mpack_ok; ++i) { mpack_node_t ch = pool[0]; const char* nm = node_op(&t->t, pool[pr.below(n)], pr, ch, c); if (t->error() != mpack_ok) break; if (n < 16) pool[n++] = ch; else pool[1 + pr.below(15)] = ch; u.o.trace.push_back(hash_bytes(nm, strlen(nm))); u.o.trace.push_back((uint64_t)mpack_node_type(ch)); } }
        }
    });
    if (!t->destroyed && t->error() != mpack_ok && !early) {
        mpack_error_t err = t->error(); int hk = g_hooks; Rng x(ar); size_t pos = t->pos; uint64_t c = 0;
        mpack_node_t n = mpack_tree_root(&t->t); after(mpack_node_type(n) == mpack_type_nil, err, t->error(), hk, "mpack_tree_root");
        mpack_tree_parse(&t->t); after(t->pos == pos, err, t->error(), hk, "mpack_tree_parse");
        after(!mpack_tree_try_parse(&t->t), err, t->error(), hk, "mpack_tree_try_parse");
        for (int i = 0; i < 4; ++i) { mpack_node_t ch; const char* nm = node_op(&t->t, n, x, ch, c); after(t->pos == pos, err, t->error(), hk, nm); }
    }
    mpack_error_t e = mpack_ok; int before = g_hooks;
    if (guarded([&] { e = t->close(); })) { u.in_destroy = true; guarded([&] { e = t->close(); }); HX_CHECK(g_jumps == 1, "destroy-twice", "the second destruction called the error callback again"); }
    else if (g_hooks > before) u.in_destroy = true;
    u.o.err = e; u.o.calls = t->log.errors; u.o.first = t->log.first; u.pos = t->pos; u.ops = t->reads + (uint64_t)t->file.ops;
    if (early) { u.o.calls = 1; u.o.first = e; }
    delete t;
}
//---------------------------------------------------------------- writer
// one library call at a time; stops as soon as an error stands
#define W1(call) do { call; if (mpack_writer_error(w) != mpack_ok) return; } while (0)
static void emit1(mpack_writer_t* w, const V& v, Rng& r, unsigned build, const Guard& scratch) {
    switch (v.k) {
        case K_NIL: W1(mpack_write_nil(w)); break;
        case K_BOOL: W1(mpack_write_bool(w, v.u != 0)); break;
        case K_UINT: W1(mpack_write_uint(w, v.u)); break;
        case K_INT: W1(mpack_write_int(w, (int64_t)v.u)); break;
        case K_STR: if (r.chance(1, 2)) { W1(mpack_write_str(w, (const char*)v.s.data(), (uint32_t)v.s.size())); } else { W1(mpack_start_str(w, (uint32_t)v.s.size())); size_t at = 0; while (at < v.s.size()) { size_t k = 1 + r.below(v.s.size() - at); W1(mpack_write_bytes(w, (const char*)v.s.data() + at, k)); at += k; } W1(mpack_finish_str(w)); } break;
        case K_BIN: W1(mpack_write_bin(w, (const char*)v.s.data(), (uint32_t)v.s.size())); break;
#if MPACK_EXTENSIONS
        case K_EXT: W1(mpack_write_ext(w, v.et, (const char*)v.s.data(), (uint32_t)v.s.size())); break;
#endif
        case K_ARR: case K_MAP: {
            bool b = MPACK_BUILDER && r.below(100) < build;
            if (v.k == K_ARR) { if (b) {
#if MPACK_BUILDER
                W1(mpack_build_array(w));
#endif
            } else W1(mpack_start_array(w, (uint32_t)v.c.size())); } else { if (b) {
#if MPACK_BUILDER
                W1(mpack_build_map(w));
#endif
            } else W1(mpack_start_map(w, (uint32_t)(v.c.size() / 2))); }
            for (auto& c : v.c) { emit1(w, c, r, build, scratch); if (mpack_writer_error(w) != mpack_ok) return; }
            if (b) {
#if MPACK_BUILDER
                if (v.k == K_ARR) W1(mpack_complete_array(w)); else W1(mpack_complete_map(w));
#endif
            } else { if (v.k == K_ARR) W1(mpack_finish_array(w)); else W1(mpack_finish_map(w)); }
            break; }
        default: W1(mpack_write_uint(w, v.u)); break;
    }
}
static void run_writer(uint64_t seed, const Fault& f, Run& u) {
    Rng r(seed); Sink* s = new Sink; SinkMode m = (SinkMode)r.below(MPACK_STDIO ? 5 : 3); unsigned build = r.chance(1, 4) ? 0 : r.chance(1, 2) ? 40 : 100, n = (unsigned)r.range(1, 3); size_t bs = m == W_FIXED ? r.below(2 * g_b.size() + 40) : 32 + r.below(200); uint64_t os = r.next(); bool abandon = r.chance(1, 4), bad = r.chance(1, 6), user = r.chance(1, 8);
    static const mpack_error_t E[] = {mpack_error_io, mpack_error_data, mpack_error_too_big};
    if (f.what == 2) { s->fail_flush = f.at; s->fail_err = E[f.kind % 3]; s->file.fail_op = f.at; s->file.fail_persist = f.persist; }
    if (f.what == 3) s->file.fail_close = true;
    if (f.what == 1) alloc_fail(f.at, f.persist);
    s->open(m, bs, os); mpack_writer_t* w = &s->w;
    bool early = mpack_writer_error(w) != mpack_ok; Rng pr(r.next()); uint64_t ar = r.next(); Guard sc(5000, 'q');
    if (!early) guarded([&] {
        for (unsigned i = 0; i < n && mpack_writer_error(w) == mpack_ok; ++i) { emit1(w, g_v, pr, build, sc); if (mpack_writer_error(w) != mpack_ok) return; if (m >= W_FLUSH && pr.chance(1, 2)) W1(mpack_writer_flush_message(w)); }
        if (bad) { W1(mpack_write_utf8(w, "ab\xff", 3)); }
        if (user) { W1(mpack_writer_flag_error(w, mpack_error_data)); }
        if (abandon) {
#if MPACK_BUILDER
            s->builds_open = true; W1(mpack_build_map(w)); W1(mpack_write_nil(w)); W1(mpack_build_array(w)); for (int i = 0; i < 60; ++i) W1(mpack_write_str(w, sc.p, 20));
#else
            W1(mpack_start_array(w, 5));
#endif
        }
    });
    if (!s->destroyed && mpack_writer_error(w) != mpack_ok && !early && f.what != 1) {
        mpack_error_t err = mpack_writer_error(w); int hk = g_hooks; Rng x(ar); size_t fl = s->out.size(), fo = s->file.out.size();
        for (int i = 0; i < 4; ++i) { const char* nm = writer_op(w, x, true, sc, false); after(s->out.size() == fl && s->file.out.size() == fo, err, mpack_writer_error(w), hk, nm); }
    }
    mpack_error_t e = mpack_ok; int before = g_hooks;
    if (guarded([&] { e = s->close(); })) { u.in_destroy = true; guarded([&] { e = s->close(); }); HX_CHECK(g_jumps == 1, "destroy-twice", "the second destruction called the error callback again"); }
    else if (g_hooks > before) u.in_destroy = true;
    u.o.err = e; u.o.calls = s->log.errors; u.o.first = s->log.first; u.o.out = s->out; u.ops = s->flushes + (uint64_t)s->file.ops; u.pos = 0;
    if (early) { u.o.calls = 1; u.o.first = e; }
    delete s;
}
typedef void (*prog_t)(uint64_t, const Fault&, Run&);
static const struct { const char* n; prog_t p; } PROGS[] = {{"reader", run_reader}, {"tree", run_tree}, {"writer", run_writer}};

static void run(prog_t p, uint64_t seed, const Fault& f, Act a, Run& u) {
    u = Run(); int64_t live = g_alloc.live, files = g_open_files; alloc_reset(); g_act = a; g_hooks = g_jumps = 0; g_armed = false; g_err_hook = hook; g_owned.clear();
    p(seed, f, u);
    alloc_off(); g_err_hook = 0; u.hooks = g_hooks; u.jumps = g_jumps; u.allocs = g_alloc.calls;
    HX_CHECK(g_alloc.live == live, "leak", "%lld blocks leaked (%s, error %s)", (long long)(g_alloc.live - live), ACTN[a], errname(u.o.err));
    HX_CHECK(g_open_files == files, "file-leak", "%lld files left open", (long long)(g_open_files - files));
    HX_CHECK(u.o.calls == (u.o.err != mpack_ok) && u.o.first == u.o.err, "callback", "ended with %s; the callback ran %d times, first with %s", errname(u.o.err), u.o.calls, errname(u.o.first));
}
static void one(const char* name, prog_t p, uint64_t seed, const Fault& f) {
    Run b; run(p, seed, f, A_RETURN, b); if (b.o.err == mpack_ok || b.hooks == 0) { count("no_callback"); return; }
    for (int a = A_JUMP; a < A_N; ++a) {
        note("%s program seed %llu, fault %d at %lld: the callback %s, baseline %s", name, (unsigned long long)seed, f.what, (long long)f.at, ACTN[a], errname(b.o.err));
        Run u; run(p, seed, f, (Act)a, u);
        HX_CHECK(u.hooks == 1 && u.jumps == (a != A_DESTROY_RETURN), "callback", "callback ran %d times and jumped %d times", u.hooks, u.jumps);
        HX_CHECK(u.o.err == b.o.err, "error", "ended with %s, with a returning callback %s", errname(u.o.err), errname(b.o.err));
        HX_CHECK(u.o.trace == b.o.trace, "results", "%zu results before the error, %zu with a returning callback", u.o.trace.size(), b.o.trace.size());
        HX_CHECK(u.o.out == b.o.out, "output", "%zu bytes were output, %zu with a returning callback", u.o.out.size(), b.o.out.size());
        HX_CHECK(u.pos == b.pos, "position", "%zu bytes were consumed, %zu with a returning callback", u.pos, b.pos);
        HX_CHECK(u.in_destroy == b.in_destroy, "where", "the error was raised elsewhere");
        count(ACTN[a]); if (u.in_destroy) count("raised_in_destroy"); count(*name == 'r' ? "reader_errors" : *name == 't' ? "tree_errors" : "writer_errors"); eval(); distinct(mix(mix(seed, (uint64_t)f.what * 16 + (uint64_t)f.kind), (uint64_t)f.at * 8 + (uint64_t)a));
    }
}
void prop_case(uint64_t idx, Rng& r) {
    g_break_ok = true; int kind;
    GenOpt g; g.budget = r.chance(1, 5) ? 200 : 30; g.maxdepth = (unsigned)r.range(2, 8); g.ext = MPACK_EXTENSIONS; g_v = gen_value(r, g);
    if (r.chance(1, 3)) g_b = gen_input(r, &kind, g); else { g_b.clear(); enc(g_b, g_v, ST_RANDOM, &r); if (r.chance(1, 3)) mutate(g_b, r); if (r.chance(1, 4) && !g_b.empty()) g_b.resize(r.below(g_b.size())); }
    for (auto& P : PROGS) for (int rep = 0; rep < 3; ++rep) {
        clear_notes(); note_hex("input", g_b.data(), g_b.size() < 3000 ? g_b.size() : 3000); uint64_t seed = r.next();
        if (want_sample()) sample("%s program over %zu bytes", P.n, g_b.size());
        Fault f = {0, -1, true, 0}; Run b; run(P.p, seed, f, A_RETURN, b); one(P.n, P.p, seed, f);
        uint64_t na = b.allocs, no = b.ops, cap = g_thorough ? 40 : 6;
        for (uint64_t k = 0; k < na && k < cap; ++k) { f.what = 1; f.at = (int64_t)(na <= cap ? k : r.below(na)); f.persist = r.chance(1, 2); one(P.n, P.p, seed, f); }
        for (uint64_t k = 0; k < no && k < cap; ++k) { f.what = 2; f.at = (int64_t)(no <= cap ? k : r.below(no)); f.persist = true; f.kind = (int)r.below(3); one(P.n, P.p, seed, f); }
        f.what = 3; f.at = 0; f.kind = 0; one(P.n, P.p, seed, f);
    }
    (void)idx;
}
