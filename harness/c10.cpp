// C10: errors are sticky, reported once, and later calls are safe no-ops.
#include "hx_ops.hpp"
using namespace hx;
const char* prop_rule() { return "case = a reader, tree or writer over random (valid, mutated, hostile) data and a random source or sink, driven by random API calls until an error (natural, injected by a callback, an allocation failure, a small buffer, or flagged by the user), then driven on by many more random calls while the error, its callback count, the source/sink activity and every returned value are monitored; also objects created in an error state; non-trivial = an error stood while later calls were made; distinct by (object, error, calls)"; }
static const mpack_error_t ERRS[] = {mpack_error_io, mpack_error_invalid, mpack_error_unsupported, mpack_error_type, mpack_error_too_big, mpack_error_memory, mpack_error_bug, mpack_error_data, mpack_error_eof};

//---------------------------------------------------------------- reader
struct RAct { size_t pos; uint64_t fills, skips; int64_t ops; };
static RAct ract(Src& s) { RAct a = {s.pos, s.fills, s.skips, s.file.reads + s.file.seeks + s.file.writes}; return a; }
static void reader_after(mpack_reader_t* rd, Src* s, Rng& r, mpack_error_t err, int want_calls, Log& log) {
    uint64_t checked = 0; uint64_t h = 7; unsigned k = (unsigned)r.range(3, 40);
    RAct a; memset(&a, 0, sizeof a); if (s) a = ract(*s);
    for (unsigned i = 0; i < k; ++i) {
        const char* nm;
        if (r.chance(1, 12)) {
            nm = "second flag_error"; mpack_error_t e2 = r.pick(ERRS);
            if (r.chance(1, 2)) mpack_reader_flag_error(rd, e2); else { mpack_error_t g = mpack_reader_flag_if_error(rd, e2); HX_CHECK(g == e2 || g == err, "flag-if-error", "flag_if_error returned %s", errname(g)); }
        } else nm = reader_op(rd, r, true, checked);
        note("after: %s", nm); h = hash_bytes(nm, strlen(nm), h);
        HX_CHECK(mpack_reader_error(rd) == err, "reader-sticky", "%s changed the reader's error from %s to %s", nm, errname(err), errname(mpack_reader_error(rd)));
        HX_CHECK(log.errors == want_calls, "reader-callback-count", "%s: error callback ran %d times, expected %d", nm, log.errors, want_calls);
        const char* p = 0; size_t rem = mpack_reader_remaining(rd, &p); HX_CHECK(rem == 0, "reader-remaining", "%s: %zu bytes remain in an error state", nm, rem);
        if (s) { RAct b = ract(*s); HX_CHECK(a.pos == b.pos && a.fills == b.fills && a.skips == b.skips && a.ops == b.ops, "reader-consumed", "%s in error state %s used the source (fills %llu->%llu, skips %llu->%llu, file operations %lld->%lld)", nm, errname(err),
            (unsigned long long)a.fills, (unsigned long long)b.fills, (unsigned long long)a.skips, (unsigned long long)b.skips, (long long)a.ops, (long long)b.ops); }
    }
    count("reader_calls_in_error", k); count("reader_values_checked", checked); distinct(mix(h, err)); eval();
}
static void reader_case(Rng& r) {
    GenOpt g; g.budget = r.chance(1, 4) ? 200 : 30; g.ext = MPACK_EXTENSIONS; int kind; Bytes b = gen_input(r, &kind, g);
    Src s; SrcMode m = (SrcMode)r.below(MPACK_STDIO ? S_NMODES : 3); size_t bs = pick_bufsize(r); int chunk = r.chance(1, 3) ? 0 : r.chance(1, 2) ? -1 : 1 + (int)r.below(9);
    note("reader: %s buffer %zu chunk %d", srcname(m), bs, chunk); note_hex("input", b.data(), b.size() < 4000 ? b.size() : 4000);
    unsigned cause = (unsigned)r.below(4); // 0 natural, 1 user flag, 2 source fault, 3 allocation failure
    s.fail_kind = (int)r.below(3); if (cause == 2) { s.fail_fill = (int64_t)r.below(6); s.file.fail_op = (int64_t)r.below(6); }
    s.open(b, m, bs, chunk, r.next());
    if (cause == 3) alloc_fail((int64_t)r.below(4), true);
    uint64_t checked = 0; unsigned k = (unsigned)r.below(cause == 1 ? 12 : 120);
    bool freeops = !HX_TRACKED && r.chance(1, 2);
    for (unsigned i = 0; i < k && mpack_reader_error(&s.r) == mpack_ok; ++i) { const char* nm = reader_op(&s.r, r, freeops, checked); note("%s", nm); HX_CHECK(s.log.errors == (mpack_reader_error(&s.r) != mpack_ok), "reader-callback-count", "%s: error callback ran %d times with error %s", nm, s.log.errors, errname(mpack_reader_error(&s.r))); }
    if (mpack_reader_error(&s.r) == mpack_ok) {
        mpack_error_t e = r.pick(ERRS); note("user flags %s", errname(e));
        if (r.chance(1, 2)) mpack_reader_flag_error(&s.r, e); else { HX_CHECK(mpack_reader_flag_if_error(&s.r, mpack_ok) == mpack_ok && mpack_reader_error(&s.r) == mpack_ok, "flag-if-error", "flag_if_error(ok) did something"); mpack_reader_flag_if_error(&s.r, e); }
        HX_CHECK(mpack_reader_error(&s.r) == e, "reader-flag", "flagged %s, got %s", errname(e), errname(mpack_reader_error(&s.r)));
        count("reader_user_flag");
    } else count("reader_natural_error");
    alloc_off();
    mpack_error_t err = mpack_reader_error(&s.r);
    HX_CHECK(s.log.errors == 1 && s.log.first == err, "reader-callback", "error is %s; the callback ran %d times, first with %s", errname(err), s.log.errors, errname(s.log.first));
    note("error %s", errname(err)); if (want_sample()) sample("%s reader over %zu bytes (cause %u) in error %s", srcname(m), b.size(), cause, errname(err));
    reader_after(&s.r, &s, r, err, 1, s.log);
    mpack_error_t e = s.close();
    HX_CHECK(e == err && s.log.errors == 1, "reader-destroy", "destroy returned %s (callback ran %d times) after %s", errname(e), s.log.errors, errname(err));
}
static void on_reader(mpack_reader_t* rd, mpack_error_t e) { Log* l = (Log*)mpack_reader_context(rd); l->errors++; l->last = e; }
static void on_tree(mpack_tree_t* t, mpack_error_t e) { Log* l = (Log*)mpack_tree_context(t); l->errors++; l->last = e; }
static void on_writer(mpack_writer_t* w, mpack_error_t e) { Log* l = (Log*)mpack_writer_context(w); l->errors++; l->last = e; }
static void td_reader(mpack_reader_t* rd) { ((Log*)mpack_reader_context(rd))->teardowns++; }
static void td_tree(mpack_tree_t* t) { ((Log*)mpack_tree_context(t))->teardowns++; }
static void td_writer(mpack_writer_t* w) { ((Log*)mpack_writer_context(w))->teardowns++; }
static void init_reader(Rng& r) {
    mpack_reader_t rd; Log log; mpack_error_t err = r.pick(ERRS); unsigned how = (unsigned)r.below(MPACK_STDIO ? 3 : 1);
    if (how == 0) mpack_reader_init_error(&rd, err);
#if MPACK_STDIO
    else if (how == 1) { CFile f; f.open_fails = true; bind_name(&f); mpack_reader_init_filename(&rd, "hx:missing"); bind_name(0); err = mpack_error_io; }
    else { CFile f; bind_name(&f); alloc_fail(0, false); mpack_reader_init_filename(&rd, "hx:in"); alloc_off(); bind_name(0); err = mpack_error_memory; HX_CHECK(f.closes == f.opens, "reader-init-close", "reader init failed: file opened %lld times and closed %lld times", (long long)f.opens, (long long)f.closes); }
#endif
    note("reader created in error %s (%u)", errname(err), how);
    mpack_reader_set_context(&rd, &log); mpack_reader_set_error_handler(&rd, on_reader); mpack_reader_set_teardown(&rd, td_reader);
    HX_CHECK(mpack_reader_error(&rd) == err, "reader-init", "created in error %s instead of %s", errname(mpack_reader_error(&rd)), errname(err));
    reader_after(&rd, 0, r, err, 0, log);
    mpack_error_t e = mpack_reader_destroy(&rd);
    HX_CHECK(e == err && log.errors == 0 && log.teardowns == 1, "reader-init-destroy", "destroy returned %s (callback %d, teardown %d) after being created with %s", errname(e), log.errors, log.teardowns, errname(err));
    count("reader_init_error");
}

//---------------------------------------------------------------- tree
static void tree_after(mpack_tree_t* t, Tree* tr, std::vector<mpack_node_t>& pool, Rng& r, mpack_error_t err, int want_calls, Log& log) {
    uint64_t checked = 0, h = 9; unsigned k = (unsigned)r.range(3, 40);
    size_t pos = tr ? tr->pos : 0; uint64_t reads = tr ? tr->reads : 0; int64_t fops = tr ? tr->file.reads + tr->file.seeks : 0; 
    for (unsigned i = 0; i < k; ++i) {
        const char* nm; mpack_node_t ch;
        switch (r.below(14)) {
            case 0: nm = "second flag_error"; mpack_tree_flag_error(t, r.pick(ERRS)); break;
            case 1: nm = "mpack_tree_parse"; mpack_tree_parse(t); break;
            case 2: { nm = "mpack_tree_try_parse"; bool b = mpack_tree_try_parse(t); HX_CHECK(!b, "tree-try-parse", "try_parse succeeded in an error state"); break; }
            case 3: { nm = "mpack_tree_root"; ch = mpack_tree_root(t); HX_CHECK(mpack_node_type(ch) == mpack_type_nil, "tree-root", "the root is not nil in an error state"); pool.push_back(ch); break; }
            case 4: if (!pool.empty()) { nm = "mpack_node_flag_error"; mpack_node_flag_error(r.pick(pool), r.pick(ERRS)); break; } // fallthrough
            default: if (pool.empty()) pool.push_back(mpack_tree_root(t)); nm = node_op(t, r.pick(pool), r, ch, checked); pool.push_back(ch);
        }
        note("after: %s", nm); h = hash_bytes(nm, strlen(nm), h);
        HX_CHECK(mpack_tree_error(t) == err, "tree-sticky", "%s changed the tree's error from %s to %s", nm, errname(err), errname(mpack_tree_error(t)));
        HX_CHECK(log.errors == want_calls, "tree-callback-count", "%s: error callback ran %d times, expected %d", nm, log.errors, want_calls);
        if (tr) HX_CHECK(tr->pos == pos && tr->reads == reads && tr->file.reads + tr->file.seeks == fops, "tree-consumed", "%s in error state %s used the source", nm, errname(err));
    }
    count("tree_calls_in_error", k); count("tree_values_checked", checked); distinct(mix(h, err)); eval();
}
static void tree_case(Rng& r) {
    GenOpt g; g.budget = r.chance(1, 4) ? 200 : 30; g.ext = MPACK_EXTENSIONS; int kind; Bytes b = gen_input(r, &kind, g);
    if (r.chance(1, 3)) { Bytes c; V v = gen_value(r, g); enc(c, v, ST_RANDOM, &r); b = c; }
    Tree t; TMode m = (TMode)r.below(T_USABLE); unsigned cause = (unsigned)r.below(4);
    note("tree: %s", treename(m)); note_hex("input", b.data(), b.size() < 4000 ? b.size() : 4000);
    t.fail_kind = (int)r.below(3); if (cause == 2) t.fail_read = (int64_t)r.below(5);
    size_t ms = r.chance(1, 5) ? 1 + r.below(b.size() + 2) : 0, mn = r.chance(1, 5) ? 1 + r.below(20) : 0;
    size_t pn = r.chance(1, 2) ? 1 + r.below(10) : 400;
    if (cause == 3) alloc_fail((int64_t)r.below(5), true);
    t.open(b, m, r.chance(1, 2) ? -1 : 0, r.next(), ms, mn, pn);
    bool early = mpack_tree_error(&t.t) != mpack_ok; // creation itself failed, before the handler was set
    std::vector<mpack_node_t> pool; uint64_t checked = 0;
    if (!early) {
        bool done = t.parse(m == T_STREAM && r.chance(1, 2));
        if (done) {
            count("tree_parsed"); pool.push_back(mpack_tree_root(&t.t)); unsigned k = (unsigned)r.below(cause == 1 ? 10 : 100);
            for (unsigned i = 0; i < k && t.error() == mpack_ok; ++i) {
                mpack_node_t ch; const char* nm = node_op(&t.t, r.pick(pool), r, ch, checked); if (t.error() == mpack_ok || r.chance(1, 2)) pool.push_back(ch);
                HX_CHECK(t.log.errors == (t.error() != mpack_ok), "tree-callback-count", "%s: error callback ran %d times with error %s", nm, t.log.errors, errname(t.error()));
            }
            if (t.error() == mpack_ok && r.chance(1, 4)) { note("next message"); mpack_tree_parse(&t.t); pool.clear(); }
        }
    }
    alloc_off();
    if (t.error() == mpack_ok) { mpack_error_t e = r.pick(ERRS); note("user flags %s", errname(e)); if (!pool.empty() && r.chance(1, 2)) mpack_node_flag_error(pool[0], e); else mpack_tree_flag_error(&t.t, e); HX_CHECK(t.error() == e, "tree-flag", "flagged %s, got %s", errname(e), errname(t.error())); count("tree_user_flag"); } else count("tree_natural_error");
    mpack_error_t err = t.error(); int calls = early ? 0 : 1;
    HX_CHECK(t.log.errors == calls && (early || t.log.first == err), "tree-callback", "error is %s; the callback ran %d times, first with %s", errname(err), t.log.errors, errname(t.log.first));
    note("error %s", errname(err));
    tree_after(&t.t, &t, pool, r, err, calls, t.log);
    mpack_error_t e = t.close();
    HX_CHECK(e == err && t.log.errors == calls, "tree-destroy", "destroy returned %s (callback ran %d times) after %s", errname(e), t.log.errors, errname(err));
}
static void init_tree(Rng& r) {
    mpack_tree_t t; Log log; mpack_error_t err = r.pick(ERRS); unsigned how = (unsigned)r.below(MPACK_STDIO ? 3 : 1);
    if (how == 0) mpack_tree_init_error(&t, err);
#if MPACK_STDIO
    else if (how == 1) { CFile f; f.open_fails = true; bind_name(&f); mpack_tree_init_filename(&t, "hx:missing", 0); bind_name(0); err = mpack_error_io; }
    else { CFile f; f.in = Bytes(30, 0xc0); bind_name(&f); alloc_fail(0, false); mpack_tree_init_filename(&t, "hx:in", 0); alloc_off(); bind_name(0); err = mpack_error_memory; HX_CHECK(f.closes == f.opens, "tree-init-close", "tree init failed: file opened %lld times and closed %lld times", (long long)f.opens, (long long)f.closes); }
#endif
    note("tree created in error %s (%u)", errname(err), how);
    mpack_tree_set_context(&t, &log); mpack_tree_set_error_handler(&t, on_tree); mpack_tree_set_teardown(&t, td_tree);
    HX_CHECK(mpack_tree_error(&t) == err, "tree-init", "created in error %s instead of %s", errname(mpack_tree_error(&t)), errname(err));
    std::vector<mpack_node_t> pool;
    tree_after(&t, 0, pool, r, err, 0, log);
    mpack_error_t e = mpack_tree_destroy(&t);
    HX_CHECK(e == err && log.errors == 0 && log.teardowns == 1, "tree-init-destroy", "destroy returned %s (callback %d, teardown %d) after being created with %s", errname(e), log.errors, log.teardowns, errname(err));
    count("tree_init_error");
}

//---------------------------------------------------------------- writer
struct Open { mpack_type_t t; bool build; uint64_t left; uint64_t got; };
// one step of a correct program over the stack of open containers; returns false when the message is complete
static bool writer_step(mpack_writer_t* w, std::vector<Open>& st, Rng& r, const Guard& src, bool v4, bool started, const char*& nm) {
    if (st.empty() && started) return false;
    if (!st.empty()) {
        Open& o = st.back(); ++o.got; bool even = o.t != mpack_type_map || o.got % 2 == 1; // got counts this step
        if ((!o.build && o.left == 0) || (o.build && even && r.chance(1, 4))) {
            Open c = o; st.pop_back();
#if MPACK_BUILDER
            if (c.build) { if (c.t == mpack_type_map) mpack_complete_map(w); else mpack_complete_array(w); nm = "complete"; return true; }
#endif
            if (r.chance(1, 3)) mpack_finish_type(w, c.t); else if (c.t == mpack_type_map) mpack_finish_map(w); else mpack_finish_array(w);
            nm = "finish"; return true;
        }
        if (!o.build) --o.left;
    }
    if (st.size() < 8 && (st.empty() || r.chance(1, 3))) {
        Open n; n.t = r.chance(1, 2) ? mpack_type_map : mpack_type_array; n.build = MPACK_BUILDER && r.chance(1, 2); n.got = 0; n.left = r.below(5) * (n.t == mpack_type_map ? 2 : 1);
#if MPACK_BUILDER
        if (n.build) { if (n.t == mpack_type_map) mpack_build_map(w); else mpack_build_array(w); nm = "build"; }
        else
#endif
        { uint32_t c = (uint32_t)(n.t == mpack_type_map ? n.left / 2 : n.left); if (n.t == mpack_type_map) mpack_start_map(w, c); else mpack_start_array(w, c); nm = "start"; }
        st.push_back(n); return true;
    }
    nm = writer_op(w, r, false, src, v4);
    return true;
}
struct WAct { uint64_t flushes; size_t out; int64_t fops; size_t used; };
static WAct wact(Sink* s, mpack_writer_t* w) { WAct a; memset(&a, 0, sizeof a); a.used = mpack_writer_buffer_used(w); if (!s) return a; a.flushes = s->flushes; a.out = s->out.size() + s->file.out.size(); a.fops = s->file.writes; return a; }
static void writer_after(mpack_writer_t* w, Sink* s, std::vector<Open>& st, Rng& r, const Guard& src, mpack_error_t err, int want_calls, Log& log) {
    WAct a = wact(s, w); unsigned k = (unsigned)r.range(3, 60); uint64_t h = 11; bool wild = r.chance(1, 2); bool started = true; int64_t allocs = (int64_t)g_alloc.calls;
    for (unsigned i = 0; i < k; ++i) {
        const char* nm = "?";
        if (r.chance(1, 14)) { nm = "second flag_error"; mpack_writer_flag_error(w, r.pick(ERRS)); }
        else if (wild) nm = writer_op(w, r, true, src, false);
        else if (!writer_step(w, st, r, src, false, started, nm)) { started = false; nm = "message done"; }
        else started = true;
        note("after: %s", nm); h = hash_bytes(nm, strlen(nm), h);
        HX_CHECK(mpack_writer_error(w) == err, "writer-sticky", "%s changed the writer's error from %s to %s", nm, errname(err), errname(mpack_writer_error(w)));
        HX_CHECK(log.errors == want_calls, "writer-callback-count", "%s: error callback ran %d times, expected %d", nm, log.errors, want_calls);
        WAct b = wact(s, w);
        HX_CHECK(a.flushes == b.flushes && a.out == b.out && a.fops == b.fops, "writer-output", "%s in error state %s produced output (flushes %llu->%llu, file writes %lld->%lld)", nm, errname(err), (unsigned long long)a.flushes, (unsigned long long)b.flushes, (long long)a.fops, (long long)b.fops);
        // the writer's own buffer may still change (its contents are undefined after an error), but never past its end
        HX_CHECK(b.used <= mpack_writer_buffer_size(w), "writer-buffered", "%s in error state %s: %zu bytes in a buffer of %zu", nm, errname(err), b.used, mpack_writer_buffer_size(w));
    }
    HX_CHECK((int64_t)g_alloc.calls == allocs, "writer-allocates", "calls in an error state allocated memory");
    count("writer_calls_in_error", k); distinct(mix(h, err)); eval();
}
static void writer_case(Rng& r) {
    Sink s; SinkMode m = (SinkMode)r.below(MPACK_STDIO ? W_NMODES : 3); size_t bs = m == W_FIXED ? r.below(200) : 32 + r.below(100); unsigned cause = (unsigned)r.below(4);
    if (m == W_FIXED && cause == 1) bs = 5000;
    s.fail_err = r.pick(ERRS); if (cause == 2) { s.fail_flush = (int64_t)r.below(4); s.file.fail_op = (int64_t)r.below(3); }
    note("writer: %s buffer %zu cause %u", sinkname(m), bs, cause);
    Guard src(gen_str(r, 700, 0));
    s.open(m, bs, r.next()); bool v4 = false;
    bool early = mpack_writer_error(&s.w) != mpack_ok;
    if (cause == 3) alloc_fail((int64_t)r.below(5), true);
    std::vector<Open> st; bool started = false; unsigned k = (unsigned)r.below(cause == 1 ? 25 : 200); const char* nm;
    for (unsigned i = 0; i < k && mpack_writer_error(&s.w) == mpack_ok; ++i) {
        if (!writer_step(&s.w, st, r, src, v4, started, nm)) { started = false; if (m != W_FIXED && r.chance(1, 3)) { if (m != W_GROW || mpack_writer_buffer_used(&s.w)) mpack_writer_flush_message(&s.w); nm = "flush_message"; } else continue; } else started = true;
        note("%s", nm);
        HX_CHECK(s.log.errors == (mpack_writer_error(&s.w) != mpack_ok), "writer-callback-count", "%s: error callback ran %d times with error %s", nm, s.log.errors, errname(mpack_writer_error(&s.w)));
    }
    if (mpack_writer_error(&s.w) == mpack_ok) { mpack_error_t e = r.pick(ERRS); note("user flags %s", errname(e)); mpack_writer_flag_error(&s.w, e); HX_CHECK(mpack_writer_error(&s.w) == e, "writer-flag", "flagged %s, got %s", errname(e), errname(mpack_writer_error(&s.w))); count("writer_user_flag"); } else count("writer_natural_error");
    alloc_off();
    mpack_error_t err = mpack_writer_error(&s.w); int calls = early ? 0 : 1; note("error %s", errname(err));
    HX_CHECK(s.log.errors == calls && (early || s.log.first == err), "writer-callback", "error is %s; the callback ran %d times, first with %s", errname(err), s.log.errors, errname(s.log.first));
    if (!st.empty()) { count("writer_open_containers", st.size()); for (auto& o : st) if (o.build) count("writer_open_builds"); }
    writer_after(&s.w, &s, st, r, src, err, calls, s.log);
    size_t out = s.out.size() + s.file.out.size(); uint64_t fl = s.flushes;
    size_t fout = s.file.out.size();
    mpack_error_t e = s.close();
    HX_CHECK(e == err && s.log.errors == calls, "writer-destroy", "destroy returned %s (callback ran %d times) after %s", errname(e), s.log.errors, errname(err));
    HX_CHECK(s.flushes == fl, "writer-destroy-output", "destroying a writer in error state %s produced output", errname(err));
    HX_CHECK(m != W_FLUSH || s.out.size() == out, "writer-destroy-output", "destroying a writer in error state %s produced output", errname(err));
    HX_CHECK(s.file.vbuf != 0 || s.file.out.size() == fout, "writer-destroy-output", "destroying a writer in error state %s wrote to the file", errname(err));
}
static void init_writer(Rng& r) {
    mpack_writer_t w; Log log; mpack_error_t err = r.pick(ERRS); unsigned how = (unsigned)r.below(MPACK_STDIO ? 3 : 1); Guard src(gen_str(r, 700, 0));
    if (how == 0) mpack_writer_init_error(&w, err);
#if MPACK_STDIO
    else if (how == 1) { CFile f; f.open_fails = true; bind_name(&f); mpack_writer_init_filename(&w, "hx:missing"); bind_name(0); err = mpack_error_io; }
    else { CFile f; bind_name(&f); alloc_fail(0, false); mpack_writer_init_filename(&w, "hx:out"); alloc_off(); bind_name(0); err = mpack_error_memory; HX_CHECK(f.closes == f.opens, "writer-init-close", "writer init failed: file opened %lld times and closed %lld times", (long long)f.opens, (long long)f.closes); }
#endif
    note("writer created in error %s (%u)", errname(err), how);
    mpack_writer_set_context(&w, &log); mpack_writer_set_error_handler(&w, on_writer); mpack_writer_set_teardown(&w, td_writer);
    HX_CHECK(mpack_writer_error(&w) == err, "writer-init", "created in error %s instead of %s", errname(mpack_writer_error(&w)), errname(err));
    std::vector<Open> st; writer_after(&w, 0, st, r, src, err, 0, log);
    mpack_error_t e = mpack_writer_destroy(&w);
    HX_CHECK(e == err && log.errors == 0 && log.teardowns == 1, "writer-init-destroy", "destroy returned %s (callback %d, teardown %d) after being created with %s", errname(e), log.errors, log.teardowns, errname(err));
    count("writer_init_error");
}
void prop_case(uint64_t idx, Rng& r) {

    for (int i = 0; i < 6; ++i) { clear_notes(); reader_case(r); }
    for (int i = 0; i < 6; ++i) { clear_notes(); tree_case(r); }
    for (int i = 0; i < 6; ++i) { clear_notes(); writer_case(r); }
    clear_notes(); init_reader(r); clear_notes(); init_tree(r); clear_notes(); init_writer(r);
    (void)idx;
}
