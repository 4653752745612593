// C12: I/O faults surface as errors, never as silently truncated or lost data.
#include "hx_prog.hpp"
#include <signal.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/stat.h>
using namespace hx;
const char* prop_rule() { return "case = a deterministic write, read or tree program run fault-free (baseline) and then again with its k-th source or sink operation (fill, skip, read callback, flush, file read/write/seek, open, close) failing once or persistently, partially or fully, in each way its contract allows, or with the data cut short; plus real files: full device, size-limited file, broken pipe, directory, pipe; success is accepted only with the complete baseline result and all bytes delivered; non-trivial = the fault was actually hit; distinct by (program, fault)"; }

struct Fault { int64_t at; bool persist, shortw, close, open; int kind; Fault() : at(-1), persist(true), shortw(false), close(false), open(false), kind(0) {} };
static V g_v; static Bytes g_b;
struct Ops { uint64_t src, file; bool hit; bool user_close_failed; };

static void p_write(uint64_t seed, const Fault& f, Res& o, Ops& n) {
    Rng r(seed); SinkMode m = (SinkMode)(2 + r.below(3));
    Sink s; s.fail_flush = f.at; static const mpack_error_t E[] = {mpack_error_io, mpack_error_data, mpack_error_too_big}; s.fail_err = E[f.kind % 3];
    s.file.fail_op = f.at; s.file.fail_persist = f.persist; s.file.short_write = f.shortw; s.file.fail_close = f.close; s.file.open_fails = f.open && m == W_FILENAME;
    s.open(m, 32 + r.below(300), r.next());
    bool early = mpack_writer_error(&s.w) != mpack_ok;
    EmitOpt eo; eo.build = r.chance(1, 2) ? 0 : 40;
    unsigned k = (unsigned)r.range(1, 3);
    for (unsigned i = 0; i < k; ++i) { emit(&s.w, g_v, r, eo); if (r.chance(1, 2) && mpack_writer_error(&s.w) == mpack_ok) mpack_writer_flush_message(&s.w); }
    mpack_error_t before = mpack_writer_error(&s.w);
    o.err = s.close(); o.calls = s.log.errors + (early ? 1 : 0); o.first = early ? o.err : s.log.first; o.out = s.out;
    n.src = s.flushes; n.file = (uint64_t)s.file.ops; n.hit = s.failed || s.file.failed || (f.open && m == W_FILENAME); n.user_close_failed = s.fclose_ret != 0;
    if (early) HX_CHECK(before == o.err, "early-error", "writer error changed from %s to %s", errname(before), errname(o.err));
}
static void p_read(uint64_t seed, const Fault& f, Res& o, Ops& n) {
    Rng r(seed); static const SrcMode M[] = {S_FILL, S_FILLSKIP, S_PREFILL, S_STDFILE, S_FILENAME, S_STDFILE, S_FILENAME}; SrcMode m = r.pick(M);
    Src s; s.fail_kind = f.kind;
    if (m == S_FILLSKIP && f.kind == 2) s.fail_skip = f.at; else s.fail_fill = f.at;
    s.file.fail_op = f.at; s.file.fail_persist = f.persist; s.file.fail_close = f.close; s.file.open_fails = f.open && m == S_FILENAME;
    if (s.file.open_fails) { mpack_reader_t rd; bind_name(&s.file); mpack_reader_init_filename(&rd, "hx:in"); bind_name(0); mpack_tag_t t = mpack_read_tag(&rd); HX_CHECK(mpack_tag_type(&t) == mpack_type_nil, "open-fails", "read an element from a file that did not open"); o.err = mpack_reader_destroy(&rd); HX_CHECK(o.err == mpack_error_io, "open-fails", "opening failed with %s", errname(o.err)); o.calls = 1; o.first = o.err; n.hit = true; return; }
    s.open(g_b, m, pick_bufsize(r), r.chance(1, 2) ? 0 : -1, r.next());
    unsigned k = 0, lim = (unsigned)r.range(1, 4); while (mpack_reader_error(&s.r) == mpack_ok && k++ < lim) read_elem(&s.r, r, o);
    mpack_error_t was = mpack_reader_error(&s.r);
    if (was == mpack_ok) { o.err = mpack_reader_destroy(&s.r); if (m == S_STDFILE && !s.close_when_done) fclose(s.fp); } else o.err = s.close();
    o.calls = s.log.errors; o.first = s.log.first;
    n.src = s.fills > s.skips ? s.fills : s.skips; n.file = (uint64_t)s.file.ops; n.hit = s.failed || s.file.failed; n.user_close_failed = false;
}
static void p_tree(uint64_t seed, const Fault& f, Res& o, Ops& n) {
    Rng r(seed); TMode m = (TMode)(2 + r.below(3));
    Tree t; t.stalls = (unsigned)r.below(4); bool use_try = m == T_STREAM && r.chance(1, 2);
    t.fail_read = f.at; t.fail_kind = f.kind; t.file.fail_op = f.at; t.file.fail_persist = f.persist; t.file.fail_close = f.close; t.file.open_fails = f.open && m == T_FILENAME;
    t.open(g_b, m, r.chance(1, 2) ? -1 : 0, r.next());
    bool early = t.error() != mpack_ok;
    unsigned lim = (unsigned)r.range(1, 3);
    for (unsigned k = 0; k < lim && t.error() == mpack_ok; ++k) {
        if (!t.parse(use_try)) { if (use_try && t.error() == mpack_ok) o.trace.push_back(0x77); break; }
        o.trace.push_back(mpack_tree_size(&t.t)); unsigned budget = 4000; visit(mpack_tree_root(&t.t), &t.t, r, o, budget);
    }
    o.err = t.close(); o.calls = t.log.errors + (early ? 1 : 0); o.first = early ? o.err : t.log.first;
    n.src = t.reads; n.file = (uint64_t)t.file.ops; n.hit = t.failed || t.file.failed || (f.open && m == T_FILENAME); n.user_close_failed = false;
}
typedef void (*prog_t)(uint64_t, const Fault&, Res&, Ops&);
static const struct { const char* n; prog_t p; } PROGS[] = {{"write", p_write}, {"read", p_read}, {"tree", p_tree}};

static void judge(const char* name, const Fault& f, const Res& base, const Res& o, const Ops& n, uint64_t h) {
    if (!n.hit) { HX_CHECK(o.err == base.err && o.trace == base.trace && o.out == base.out, "nondeterministic", "%s program without a fault hit differs from its baseline", name); count("not_hit"); return; }
    count("faults_hit"); eval(); distinct(h);
    HX_CHECK(is_prefix(o.trace, base.trace), "trace-prefix", "%s program: results obtained under a fault are not those of the baseline (%zu and %zu items)", name, o.trace.size(), base.trace.size());
    HX_CHECK(is_prefix(o.out, base.out) || f.shortw || !f.persist || n.user_close_failed, "output-prefix", "%s program: %zu bytes delivered under a fault are not a prefix of the baseline's %zu", name, o.out.size(), base.out.size());
    if (o.err == mpack_ok) {
        HX_CHECK(base.err == mpack_ok, "error-vanished", "%s program succeeds under a fault but ends with %s without", name, errname(base.err));
        HX_CHECK(o.trace == base.trace, "silent-loss", "%s program reports success under a fault with %zu of %zu results", name, o.trace.size(), base.trace.size());
        HX_CHECK(o.out == base.out || n.user_close_failed, "silent-loss", "%s program reports success under a fault but %zu of %zu bytes reached the sink", name, o.out.size(), base.out.size());
        count("fault_absorbed");
    } else {
        HX_CHECK(o.calls == 1 && o.first == o.err, "callback", "%s program: error %s but the callback ran %d times, first with %s", name, errname(o.err), o.calls, errname(o.first));
        count("fault_reported");
    }
}

//---------------------------------------------------------------- real files
static char g_dir[64];
static void path(char* b, size_t n, const char* name) { snprintf(b, n, "%s/%s", g_dir, name); }
static mpack_error_t write_file(const char* p, const V& v, Rng& r, unsigned times) { mpack_writer_t w; mpack_writer_init_filename(&w, p); EmitOpt eo; for (unsigned i = 0; i < times; ++i) emit(&w, v, r, eo); return mpack_writer_destroy(&w); }
static Bytes slurp(const char* p) { Bytes b; FILE* f = fopen(p, "rb"); if (!f) return b; uint8_t buf[4096]; size_t k; while ((k = fread(buf, 1, sizeof buf, f)) > 0) b.insert(b.end(), buf, buf + k); fclose(f); return b; }
static void real_files(Rng& r) {
    strcpy(g_dir, "/tmp/hx-c12-XXXXXX"); if (!mkdtemp(g_dir)) { count("no_scratch_directory"); return; }
    char p[100], q[100]; path(p, sizeof p, "a"); path(q, sizeof q, "missing/b");
    GenOpt g; g.budget = 40; V v(K_ARR); v.c.push_back(gen_value(r, g)); V s(K_STR); s.s = gen_str(r, r.chance(1, 2) ? r.below(100) : r.below(20000), 0); v.c.push_back(s);
    Bytes want; enc(want, v, ST_SHORT); note("real files, message of %zu bytes", want.size());
    // plain success: every byte is in the file, and it reads back
    Rng er(r.next()); mpack_error_t e = write_file(p, v, er, 1); HX_CHECK(e == mpack_ok && slurp(p) == want, "real-write", "writing a regular file: %s, %zu of %zu bytes", errname(e), slurp(p).size(), want.size());
    { mpack_tree_t t; mpack_tree_init_filename(&t, p, 0); mpack_tree_parse(&t); size_t n = mpack_tree_size(&t); e = mpack_tree_destroy(&t); HX_CHECK(e == mpack_ok && n == want.size(), "real-tree", "parsing a regular file: %s, %zu of %zu bytes", errname(e), n, want.size()); }
    // cut short: never success
    { size_t cut = r.below(want.size()); HX_CHECK(truncate(p, (off_t)cut) == 0, "scratch", "truncate failed");
      mpack_tree_t t; mpack_tree_init_filename(&t, p, 0); mpack_tree_parse(&t); e = mpack_tree_destroy(&t); HX_CHECK(e != mpack_ok, "real-truncated", "a file cut to %zu of %zu bytes parsed", cut, want.size());
      mpack_reader_t rd; mpack_reader_init_filename(&rd, p); mpack_discard(&rd); e = mpack_reader_destroy(&rd); HX_CHECK(e != mpack_ok, "real-truncated", "a file cut to %zu of %zu bytes was discarded as complete", cut, want.size()); }
    // missing, directory
    { mpack_reader_t rd; mpack_reader_init_filename(&rd, q); e = mpack_reader_destroy(&rd); HX_CHECK(e == mpack_error_io, "real-missing", "reading a missing file: %s", errname(e));
      mpack_tree_t t; mpack_tree_init_filename(&t, q, 0); mpack_tree_parse(&t); e = mpack_tree_destroy(&t); HX_CHECK(e == mpack_error_io, "real-missing", "parsing a missing file: %s", errname(e));
      Rng x(1); e = write_file(q, v, x, 1); HX_CHECK(e == mpack_error_io, "real-missing", "writing into a missing directory: %s", errname(e));
      mpack_reader_init_filename(&rd, g_dir); mpack_discard(&rd); e = mpack_reader_destroy(&rd); HX_CHECK(e != mpack_ok, "real-directory", "reading a directory succeeded");
      mpack_tree_init_filename(&t, g_dir, 1 << 20); mpack_tree_parse(&t); e = mpack_tree_destroy(&t); HX_CHECK(e != mpack_ok, "real-directory", "parsing a directory succeeded");
      Rng y(1); e = write_file(g_dir, v, y, 1); HX_CHECK(e == mpack_error_io, "real-directory", "writing to a directory: %s", errname(e)); }
    // a full device
    if (access("/dev/full", W_OK) == 0) { Rng x(r.next()); e = write_file("/dev/full", v, x, 1); HX_CHECK(e == mpack_error_io, "real-full", "writing %zu bytes to a full device: %s", want.size(), errname(e)); count("real_full_device"); }
    // a file that may not grow beyond a limit
    { struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = r.below(want.size() * 2 + 10); signal(SIGXFSZ, SIG_IGN); unsigned times = (unsigned)r.range(1, 3); setrlimit(RLIMIT_FSIZE, &lim); Rng x(r.next()); e = write_file(p, v, x, times); setrlimit(RLIMIT_FSIZE, &old);
      Bytes got = slurp(p); bool fits = want.size() * times <= lim.rlim_cur; note("limit %llu for %zu bytes: %s", (unsigned long long)lim.rlim_cur, want.size() * times, errname(e));
      HX_CHECK((e == mpack_ok) == fits, "real-limit", "writing %zu bytes into a file limited to %llu: %s", want.size() * times, (unsigned long long)lim.rlim_cur, errname(e)); HX_CHECK(e != mpack_ok || got.size() == want.size() * times, "real-limit", "success with %zu of %zu bytes", got.size(), want.size() * times); count(fits ? "real_limit_fits" : "real_limit_exceeded"); }
    // pipes: not seekable; and broken
    { int fd[2]; if (pipe(fd) == 0) { size_t n = want.size() < 60000 ? want.size() : 0; if (n) { ssize_t k = write(fd[1], want.data(), n); HX_CHECK(k == (ssize_t)n, "scratch", "pipe write"); close(fd[1]); FILE* f = fdopen(fd[0], "rb"); mpack_reader_t rd; mpack_reader_init_stdfile(&rd, f, true); Res o; Rng x(r.next()); read_elem(&rd, x, o); e = mpack_reader_error(&rd); HX_CHECK(e == mpack_ok || e == mpack_error_type || e == mpack_error_too_big || e == mpack_error_invalid, "real-pipe", "reading from a pipe: %s", errname(e)); if (e == mpack_ok) { mpack_read_tag(&rd); e = mpack_reader_error(&rd); HX_CHECK(e == mpack_error_eof || e == mpack_error_io, "real-pipe", "reading past the end of a pipe: %s", errname(e)); } mpack_reader_destroy(&rd); count("real_pipes"); } else { close(fd[0]); close(fd[1]); } }
      if (pipe(fd) == 0) { signal(SIGPIPE, SIG_IGN); close(fd[0]); FILE* f = fdopen(fd[1], "wb"); mpack_writer_t w; mpack_writer_init_stdfile(&w, f, true); Rng x(r.next()); emit(&w, v, x, EmitOpt()); e = mpack_writer_destroy(&w); HX_CHECK(e == mpack_error_io, "real-broken-pipe", "writing to a broken pipe: %s", errname(e)); count("real_broken_pipes"); }
      if (pipe(fd) == 0) { ssize_t k = write(fd[1], "\xc0", 1); (void)k; close(fd[1]); FILE* f = fdopen(fd[0], "rb"); mpack_tree_t t; mpack_tree_init_stdfile(&t, f, 0, true); mpack_tree_parse(&t); e = mpack_tree_destroy(&t); HX_CHECK(e == mpack_error_io, "real-tree-pipe", "a tree from a pipe: %s", errname(e)); } }
    unlink(p); rmdir(g_dir); eval();
}
void prop_case(uint64_t idx, Rng& r) {
    GenOpt g; g.budget = r.chance(1, 5) ? 250 : 40; g.maxdepth = (unsigned)r.range(2, 8); g.ext = MPACK_EXTENSIONS;
    g_v = gen_value(r, g);
    if (r.chance(1, 2)) { V a(K_ARR); a.c.push_back(g_v); V s(K_STR); s.s = gen_str(r, 3000 + r.below(12000), 0); a.c.push_back(s); a.c.push_back(V(K_NIL)); g_v = a; }
    g_b.clear(); enc(g_b, g_v, ST_RANDOM, &r); { Bytes c = g_b; unsigned reps = (unsigned)r.range(1, 4); while (--reps) g_b.insert(g_b.end(), c.begin(), c.end()); }
    Bytes whole = g_b;
    for (auto& P : PROGS) for (int rep = 0; rep < 2; ++rep) {
        clear_notes(); uint64_t seed = r.next(); { char d[300]; describe(g_v, d, sizeof d); note("%s program, seed %llu over %s", P.n, (unsigned long long)seed, d); if (want_sample()) sample("%s over %s", P.n, d); }
        Res base; Ops n; Fault none; P.p(seed, none, base, n); uint64_t ops = n.src > n.file ? n.src : n.file; note("baseline: %s, %llu operations", errname(base.err), (unsigned long long)ops); count("baseline_operations", ops);
        uint64_t cap = g_thorough ? 120 : 16;
        for (uint64_t q = 0; q < ops + 1 && q < cap; ++q) {
            uint64_t k = ops < cap ? q : q < cap / 2 ? q : r.below(ops + 1);
            for (int kind = 0; kind < 4; ++kind) {
                Fault f; f.at = (int64_t)k; f.kind = kind % 3; f.persist = kind != 3 && kind != 1; f.shortw = kind == 2 || kind == 1;
                Res o; note("operation %llu fails, kind %d", (unsigned long long)k, kind); P.p(seed, f, o, n); judge(P.n, f, base, o, n, mix(mix(hash_bytes(whole), seed), k * 8 + (uint64_t)kind));
            }
        }
        { Fault f; f.close = true; Res o; note("close fails"); P.p(seed, f, o, n); if (n.hit) count("close_faults"); bool h = n.hit; judge(P.n, f, base, o, n, mix(seed, 101)); (void)h; }
        { Fault f; f.open = true; Res o; note("open fails"); P.p(seed, f, o, n); if (n.hit) { count("open_faults"); HX_CHECK(o.err == mpack_error_io, "open-fails", "%s program: opening failed but the error is %s", P.n, errname(o.err)); } judge(P.n, f, base, o, n, mix(seed, 102)); }
        if (P.p != p_write && base.err == mpack_ok) for (int c = 0; c < 6; ++c) { // the source ends early
            size_t cut = r.below(whole.size()); g_b.assign(whole.begin(), whole.begin() + (long)cut);
            Res o; Fault f; note("source cut to %zu of %zu bytes", cut, whole.size()); P.p(seed, f, o, n); g_b = whole;
            bool blocked = !o.trace.empty() && o.trace.back() == 0x77; if (blocked) o.trace.pop_back(); // an incremental parse may just wait for more
            HX_CHECK(is_prefix(o.trace, base.trace), "cut-prefix", "%s program: results over a source cut to %zu bytes are not those of the whole", P.n, cut);
            if (o.err == mpack_ok && !blocked) HX_CHECK(o.trace == base.trace, "cut-success", "%s program succeeds over a source cut to %zu bytes with %zu of %zu results", P.n, cut, o.trace.size(), base.trace.size());
            count("cuts"); eval();
        }
    }
    if (idx % 16 == 0) { clear_notes(); real_files(r); }
}
