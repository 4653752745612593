// C27: ownership and release of files, buffers, callbacks and memory.
#include "hx_prog.hpp"
using namespace hx;
const char* prop_rule() { return "case = one reader, writer or tree through every construction path, used for a random while (valid, malformed, cut or no data; user-raised errors; allocation, open, read, write and close failures) and destroyed; file operations, allocations, teardown and error callbacks recorded and checked; non-trivial = object constructed and destroyed; distinct by (path, history)"; }
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define NO_COOKIES 1
#endif
#endif
#if MPACK_STDIO && !defined(NO_COOKIES)
enum { FILES = 1 };
#else
enum { FILES = 0 };
#endif
struct Own { int teardowns, errors, fail_teardown; mpack_error_t in_teardown, first; const Bytes* in; size_t pos; Rng r; Bytes out; bool fail_io; size_t out_at_teardown; void* other; Own(uint64_t s) : teardowns(0), errors(0), fail_teardown(0), in_teardown(mpack_ok), first(mpack_ok), in(0), pos(0), r(s), fail_io(false), out_at_teardown(0), other(0) {} };
static Own* g_own; // the object under test; its context must be this, too
static size_t feed(Own* o, char* b, size_t n) { if (o->fail_io && o->r.chance(1, 6)) return (size_t)-1; size_t left = o->in->size() - o->pos; if (n > left) n = left; if (n > 1 && o->r.chance(1, 2)) n = 1 + (size_t)o->r.below(n); if (n) memcpy(b, o->in->data() + o->pos, n); o->pos += n; return n; }
#define ERR(T) static void T##_err(mpack_##T##_t* t, mpack_error_t e) { (void)t; if (!g_own->errors++) g_own->first = e; }
ERR(reader) ERR(tree) ERR(writer)
static size_t r_fill(mpack_reader_t* t, char* b, size_t n) { HX_CHECK(mpack_reader_context(t) == g_own, "context", "fill: wrong context"); return feed(g_own, b, n); }
static size_t t_fill(mpack_tree_t* t, char* b, size_t n) { HX_CHECK(mpack_tree_context(t) == g_own, "context", "read: wrong context"); return feed(g_own, b, n); }
static void w_flush(mpack_writer_t* w, const char* p, size_t n) { HX_CHECK(mpack_writer_context(w) == g_own, "context", "flush: wrong context"); HX_CHECK(g_own->teardowns == 0, "after-teardown", "flush after teardown"); if (g_own->fail_io && g_own->r.chance(1, 6)) { mpack_writer_flag_error(w, mpack_error_io); return; } g_own->out.insert(g_own->out.end(), (const uint8_t*)p, (const uint8_t*)p + n); }
#define TEAR(T) static void T##_tear(mpack_##T##_t* t) { Own* o = g_own; HX_CHECK(mpack_##T##_context(t) == o, "context", "teardown: wrong context"); ++o->teardowns; o->in_teardown = mpack_##T##_error(t); o->out_at_teardown = o->out.size(); if (o->fail_teardown) mpack_##T##_flag_error(t, mpack_error_data); }
TEAR(reader) TEAR(tree) TEAR(writer)

static void after(const char* what, Own& o, mpack_error_t before, mpack_error_t e, bool teardown_set, bool early) {
    HX_CHECK(o.teardowns == (teardown_set ? 1 : 0), "teardown", "%s: teardown ran %d times", what, o.teardowns);
    if (teardown_set && before != mpack_ok) HX_CHECK(o.in_teardown == before, "teardown-error", "%s: error %s, teardown saw %s", what, errname(before), errname(o.in_teardown));
    if (before != mpack_ok) HX_CHECK(e == before, "destroy-error", "%s: error %s, destroy returned %s", what, errname(before), errname(e));
    else if (teardown_set && o.fail_teardown && o.in_teardown == mpack_ok) HX_CHECK(e == mpack_error_data, "teardown-lost", "%s: teardown raised an error, destroy returned %s", what, errname(e));
    HX_CHECK(o.errors == (e == mpack_ok || early ? 0 : 1), "callback", "%s: %s, callback ran %d times", what, errname(e), o.errors);
    if (o.errors) HX_CHECK(o.first == e, "callback", "%s: callback got %s, destroy returned %s", what, errname(o.first), errname(e));
    count(e == mpack_ok ? "ended_ok" : "ended_error"); if (teardown_set) count("teardowns"); eval();
}
struct Owned { void* p; size_t n; uint64_t h; };
static void keep(std::vector<Owned>& v, void* p, size_t n) { if (!p) return; Owned o = {p, n, hash_bytes(p, n)}; v.push_back(o); }
static void release(std::vector<Owned>& v) { for (auto& o : v) { HX_CHECK(hash_bytes(o.p, o.n) == o.h, "owned-memory", "memory handed to the caller changed"); memset(o.p, 0x5a, o.n); MPACK_FREE(o.p); count("owned_blocks"); } v.clear(); }

static void use_reader(mpack_reader_t* rd, Rng& r, std::vector<Owned>& mine, unsigned lim) {
    for (unsigned i = 0; i < lim && mpack_reader_error(rd) == mpack_ok; ++i) {
        mpack_tag_t t = mpack_peek_tag(rd); if (mpack_reader_error(rd) != mpack_ok) break; mpack_type_t ty = mpack_tag_type(&t); size_t n = 0; char* p;
        if (ty == mpack_type_str && r.chance(1, 2)) { p = mpack_expect_cstr_alloc(rd, 100000); if (p) keep(mine, p, strlen(p) + 1); }
        else if (ty == mpack_type_bin && r.chance(1, 2)) { p = mpack_expect_bin_alloc(rd, 100000, &n); keep(mine, p, n); }
        else if ((ty == mpack_type_str || ty == mpack_type_bin) && r.chance(1, 2)) { t = mpack_read_tag(rd); n = mpack_tag_bytes(&t); if (n > 100000) { mpack_reader_flag_error(rd, mpack_error_too_big); break; } p = mpack_read_bytes_alloc(rd, n); keep(mine, p, n); if (mpack_reader_error(rd) == mpack_ok) mpack_done_type(rd, ty); }
        else if (ty == mpack_type_array && r.chance(1, 2)) { uint32_t c = 0; uint16_t* a = mpack_expect_array_alloc(rd, uint16_t, 5000, &c); if (a && mpack_reader_error(rd) == mpack_ok) { memset(a, 7, c * sizeof *a); keep(mine, a, c * sizeof *a); a = 0; } MPACK_FREE(a); for (uint32_t k = 0; k < c && mpack_reader_error(rd) == mpack_ok; ++k) mpack_discard(rd); if (mpack_reader_error(rd) == mpack_ok) mpack_done_array(rd); }
        else mpack_discard(rd);
    }
}
static Bytes make_input(Rng& r) { GenOpt g; g.ext = MPACK_EXTENSIONS; g.budget = r.chance(1, 4) ? 120 : 15; g.bigstr = r.chance(1, 4); Bytes b; unsigned n = (unsigned)r.range(1, 4); for (unsigned i = 0; i < n; ++i) { V v = gen_value(r, g); enc(b, v, ST_RANDOM, &r); } unsigned q = (unsigned)r.below(8); if (q == 0) b.resize((size_t)r.below(b.size())); else if (q == 1) mutate(b, r); else if (q == 2) b.clear(); return b; }
static void faults(Rng& r, CFile& c, Own& o) { if (r.chance(1, 4)) { c.fail_op = (int64_t)r.below(6); c.fail_persist = r.chance(1, 2); c.short_write = r.chance(1, 2); } c.fail_close = r.chance(1, 5); c.open_fails = r.chance(1, 12); c.seekable = r.chance(2, 3); c.chunk_mode = r.chance(1, 2) ? 0 : 1 + (int)r.below(50); c.vbuf = r.chance(1, 2) ? -1 : (int)r.below(200); o.fail_io = r.chance(1, 4); o.fail_teardown = r.chance(1, 5); }

static void reader_life(Rng& r) {
    Bytes b = make_input(r); Own o(r.next()); g_own = &o; o.in = &b; CFile c; c.in = b; faults(r, c, o); Guard in(b); uint64_t h = hash_bytes(b);
    int path = (int)r.below(FILES ? 7 : 3); size_t bs = 32 + (size_t)r.below(300); Guard buf(bs); mpack_reader_t rd; FILE* f = 0; bool tear = false, library_file = false, close = false, early = false; std::vector<Owned> mine;
    static const char* N[] = {"reader data", "reader fill", "reader preset error", "reader stdfile", "reader stdfile close", "reader filename", "reader file (old name)"};
    note("%s over %zu bytes", N[path], b.size()); note_hex("input", b.data(), b.size() < 500 ? b.size() : 500);
    bool mem = r.chance(1, 4); if (mem) alloc_fail((int64_t)r.below(6), r.chance(1, 2)); int64_t live = g_alloc.live;
    switch (path) {
        case 0: mpack_reader_init_data(&rd, b.empty() ? "" : in.p, in.n); mpack_reader_set_context(&rd, &o); break;
        case 1: { size_t pre = r.chance(1, 2) ? 0 : (size_t)r.below((b.size() < bs ? b.size() : bs) + 1); if (pre) memcpy(buf.p, b.data(), pre); o.pos = pre; mpack_reader_init(&rd, buf.p, bs, pre); mpack_reader_set_context(&rd, &o); mpack_reader_set_fill(&rd, r_fill); break; }
        case 2: mpack_reader_init_error(&rd, mpack_error_unsupported); early = true; break;
#if MPACK_STDIO
        case 3: f = c.open("rb"); if (!f) return; mpack_reader_init_stdfile(&rd, f, false); break;
        case 4: f = c.open("rb"); if (!f) return; mpack_reader_init_stdfile(&rd, f, true); close = true; break;
        default: bind_name(&c); if (path == 5) mpack_reader_init_filename(&rd, "hx:in"); else mpack_reader_init_file(&rd, "hx:in"); bind_name(0); library_file = close = true; break;
#endif
    }
    if (path < 2) { if (r.chance(4, 5)) { mpack_reader_set_teardown(&rd, reader_tear); tear = true; } }
    early = early || mpack_reader_error(&rd) != mpack_ok;
    if (library_file) { HX_CHECK((c.opens == 0) == c.open_fails && c.opens <= 1, "opened", "opened %d times", (int)c.opens); if (c.open_fails) HX_CHECK(mpack_reader_error(&rd) == mpack_error_io, "open-error", "failing to open: %s", errname(mpack_reader_error(&rd))); }
    if (path >= 3 && early) HX_CHECK(c.closes <= (close && !c.open_fails ? 1 : 0), "close-early", "constructor failed with %s, file closed %d times", errname(mpack_reader_error(&rd)), (int)c.closes);
    if (path >= 3 && !early) HX_CHECK(c.closes == 0, "close-early", "file closed by the constructor");
    mpack_reader_set_error_handler(&rd, reader_err);
    unsigned lim = r.chance(1, 5) ? 0 : (unsigned)r.range(1, 8); use_reader(&rd, r, mine, lim);
    if (r.chance(1, 6)) mpack_reader_flag_error(&rd, mpack_error_data);
    if (path >= 3 && !early) HX_CHECK(c.closes == 0, "closed-while-in-use", "the file was closed before the reader was destroyed");
    mpack_error_t before = mpack_reader_error(&rd); const char* rest = 0; size_t rn = mpack_reader_remaining(&rd, &rest); Bytes tail; if (rn) tail.assign((const uint8_t*)rest, (const uint8_t*)rest + rn);
    alloc_off(); mpack_error_t e = mpack_reader_destroy(&rd);
    if (path >= 3 && before == mpack_ok && close && c.fail_close) HX_CHECK(e == mpack_error_io, "close-failure", "closing failed, destroy returned %s", errname(e));
    else if (before == mpack_ok && !(tear && o.fail_teardown)) HX_CHECK(e == mpack_ok, "destroy-error", "no error before, destroy returned %s", errname(e));
    after(N[path], o, before, e, tear, early);
    if (path >= 3) {
        HX_CHECK(c.closes == (close && !(library_file && c.open_fails) ? 1 : 0), "close-count", "%s: closed %d times", N[path], (int)c.closes);
        if (!close) {
            if (before == mpack_ok) { // unread data plus the rest of the file is exactly what was not parsed
                Bytes more = tail; c.fail_op = -1; int ch; clearerr(f); while ((ch = fgetc(f)) != EOF) more.push_back((uint8_t)ch); HX_CHECK(more.size() <= b.size() && std::equal(more.begin(), more.end(), b.end() - (long)more.size()), "file-position", "remaining data and the rest of the file are not a suffix of the input");
                Bytes used(b.begin(), b.end() - (long)more.size()); size_t at = 0; for (unsigned k = 0; k < lim && at < used.size(); ++k) { Dec d = decode(b, at); if (d.err != D_OK) break; at += d.used; } HX_CHECK(at == used.size(), "file-position", "%zu bytes gone, but the messages read end at %zu", used.size(), at); count("positions_checked"); }
            HX_CHECK(c.closes == 0, "close-count", "closed"); fclose(f); }
        count("files");
    }
    HX_CHECK(g_alloc.live - live == (int64_t)mine.size(), "leak", "%s: %lld blocks live after destruction, %zu handed out", N[path], (long long)(g_alloc.live - live), mine.size());
    release(mine); HX_CHECK(hash_bytes(in.p, in.n) == h && hash_bytes(b) == h, "input-modified", "the caller's data changed"); distinct(mix(mix(h, (uint64_t)path), (uint64_t)e * 64 + lim));
}
static void tree_life(Rng& r) {
    Bytes b = make_input(r); Own o(r.next()); g_own = &o; o.in = &b; CFile c; c.in = b; faults(r, c, o); Guard in(b); uint64_t h = hash_bytes(b);
    int path = (int)r.below(FILES ? 8 : 4); mpack_tree_t t; FILE* f = 0; bool tear = false, library_file = false, close = false; std::vector<Owned> mine; size_t pn = 1 + (size_t)r.below(60); Guard pool(pn * sizeof(mpack_node_data_t)); size_t mx = r.chance(1, 8) ? 1 + (size_t)r.below(b.size() + 2) : r.chance(1, 20) ? (size_t)-1 : sizeof(size_t) > 4 && r.chance(1, 20) ? (size_t)((1ull << 32) + r.below(b.size() + 1)) : 0;
    g_break_ok = mx == (size_t)-1;
    static const char* N[] = {"tree data", "tree pool", "tree stream", "tree preset error", "tree stdfile", "tree stdfile close", "tree filename", "tree file (old name)"};
    note("%s over %zu bytes, limit %zu", N[path], b.size(), mx); note_hex("input", b.data(), b.size() < 500 ? b.size() : 500);
    bool mem = r.chance(1, 4); if (mem) alloc_fail((int64_t)r.below(5), r.chance(1, 2)); int64_t live = g_alloc.live;
    switch (path) {
        case 0: mpack_tree_init_data(&t, b.empty() ? "" : in.p, in.n); mpack_tree_set_context(&t, &o); break;
        case 1: mpack_tree_init_pool(&t, b.empty() ? "" : in.p, in.n, (mpack_node_data_t*)pool.p, pn); mpack_tree_set_context(&t, &o); break;
        case 2: mpack_tree_init_stream(&t, t_fill, &o, 1u << 24, 1u << 20); break;
        case 3: mpack_tree_init_error(&t, mpack_error_unsupported); break;
#if MPACK_STDIO
        case 4: f = c.open("rb"); if (!f) return; mpack_tree_init_stdfile(&t, f, mx, false); break;
        case 5: f = c.open("rb"); if (!f) return; close = true; mpack_tree_init_stdfile(&t, f, mx, true); break;
        default: bind_name(&c); if (path == 6) mpack_tree_init_filename(&t, "hx:in", mx); else mpack_tree_init_file(&t, "hx:in", mx); bind_name(0); library_file = close = true; break;
#endif
    }
    bool early = mpack_tree_error(&t) != mpack_ok;
    if (path >= 4) { // the whole file is read at once
        if (library_file) { HX_CHECK(c.opens <= 1, "opened", "opened %d times", (int)c.opens); if (c.open_fails) HX_CHECK(early, "open-error", "no error although opening failed"); }
        HX_CHECK(c.closes == (close && (c.opens || f) && !(library_file && !c.opens) ? 1 : 0), "close-count", "%s: closed %d times, opened %d", N[path], (int)c.closes, (int)c.opens); count("files");
        if (!close) { c.fail_op = -1; clearerr(f); rewind(f); int ch = fgetc(f); if (c.seekable) HX_CHECK(ch == (b.empty() ? EOF : (int)b[0]), "file-position", "the file cannot be read again"); fclose(f); }
    }
    if (path < 3 && r.chance(4, 5)) { mpack_tree_set_teardown(&t, tree_tear); tear = true; }
    mpack_tree_set_error_handler(&t, tree_err);
    unsigned lim = r.chance(1, 6) ? 0 : (unsigned)r.range(1, 4); bool tried = false;
    for (unsigned k = 0; k < lim && mpack_tree_error(&t) == mpack_ok; ++k) {
        if (path == 2 && r.chance(1, 2)) { tried = true; if (!mpack_tree_try_parse(&t)) { if (r.chance(1, 3)) break; continue; } } else mpack_tree_parse(&t);
        if (mpack_tree_error(&t) != mpack_ok) break;
        mpack_node_t n = mpack_tree_root(&t); for (unsigned q = 0; q < 5 && mpack_tree_error(&t) == mpack_ok; ++q) { mpack_type_t ty = mpack_node_type(n); if (ty == mpack_type_array && mpack_node_array_length(n)) n = mpack_node_array_at(n, (size_t)r.below(mpack_node_array_length(n))); else if (ty == mpack_type_map && mpack_node_map_count(n)) n = mpack_node_map_value_at(n, (size_t)r.below(mpack_node_map_count(n))); else break; }
        mpack_type_t ty = mpack_node_type(n); if (ty == mpack_type_str) { char* p = mpack_node_cstr_alloc(n, 100000); if (p) keep(mine, p, strlen(p) + 1); } else if (ty == mpack_type_bin) { size_t l = mpack_node_bin_size(n); char* p = mpack_node_data_alloc(n, 100000); keep(mine, p, l); }
    }
    if (r.chance(1, 6)) mpack_tree_flag_error(&t, mpack_error_data);
    mpack_error_t before = mpack_tree_error(&t); alloc_off(); mpack_error_t e = mpack_tree_destroy(&t);
    if (before == mpack_ok && !(tear && o.fail_teardown)) HX_CHECK(e == mpack_ok, "destroy-error", "no error before, destroy returned %s", errname(e));
    after(N[path], o, before, e, tear, early);
    HX_CHECK(g_alloc.live - live == (int64_t)mine.size(), "leak", "%s: %lld blocks live after destruction, %zu handed out", N[path], (long long)(g_alloc.live - live), mine.size());
    release(mine); HX_CHECK(hash_bytes(in.p, in.n) == h && hash_bytes(b) == h, "input-modified", "the caller's data changed"); if (tried) count("incremental"); distinct(mix(mix(h, 16 + (uint64_t)path), (uint64_t)e * 64 + lim));
}
static void writer_life(Rng& r) {
    GenOpt g; g.ext = MPACK_EXTENSIONS; g.budget = r.chance(1, 4) ? 150 : 15; g.bigstr = r.chance(1, 4); V v = gen_value(r, g); Bytes want; enc(want, v, ST_SHORT);
    Own o(r.next()); g_own = &o; CFile c; faults(r, c, o); c.chunk_mode = 0; int path = (int)r.below(FILES ? 8 : 4); size_t bs = r.chance(1, 3) ? want.size() * 4 + 40 : 32 + (size_t)r.below(200); Guard buf(bs); mpack_writer_t w; FILE* f = 0; bool tear = false, library_file = false, close = false; char* data = (char*)&o; size_t size = 12345;
    static const char* N[] = {"writer fixed", "writer flush", "writer growable", "writer preset error", "writer stdfile", "writer stdfile close", "writer filename", "writer file (old name)"};
    note("%s of %zu bytes", N[path], want.size()); bool mem = r.chance(1, 4); if (mem) alloc_fail((int64_t)r.below(8), r.chance(1, 2)); int64_t live = g_alloc.live;
    switch (path) {
        case 0: case 1: mpack_writer_init(&w, buf.p, bs); mpack_writer_set_context(&w, &o); if (path == 1) mpack_writer_set_flush(&w, w_flush); break;
        case 2: mpack_writer_init_growable(&w, &data, &size); break;
        case 3: mpack_writer_init_error(&w, mpack_error_unsupported); break;
#if MPACK_STDIO
        case 4: f = c.open("wb"); if (!f) return; mpack_writer_init_stdfile(&w, f, false); break;
        case 5: f = c.open("wb"); if (!f) return; close = true; mpack_writer_init_stdfile(&w, f, true); break;
        default: bind_name(&c); if (path == 6) mpack_writer_init_filename(&w, "hx:out"); else mpack_writer_init_file(&w, "hx:out"); bind_name(0); library_file = close = true; break;
#endif
    }
    bool early = mpack_writer_error(&w) != mpack_ok;
    if (path == 2) HX_CHECK(data == NULL && size == 0, "growable-cleared", "the caller's pointer was not cleared");
    if (library_file) { HX_CHECK((c.opens == 0) == c.open_fails && c.opens <= 1, "opened", "opened %d times", (int)c.opens); if (c.open_fails) HX_CHECK(mpack_writer_error(&w) == mpack_error_io, "open-error", "failing to open: %s", errname(mpack_writer_error(&w))); }
    if (path >= 4) HX_CHECK(c.closes <= (early && close && !(library_file && c.open_fails) ? 1 : 0), "close-early", "file closed %d times by the constructor", (int)c.closes);
    if (path < 2 && r.chance(4, 5)) { mpack_writer_set_teardown(&w, writer_tear); tear = true; }
    mpack_writer_set_error_handler(&w, writer_err);
    unsigned times = r.chance(1, 6) ? 0 : (unsigned)r.range(1, 3); EmitOpt eo; eo.build = r.chance(1, 2) ? 0 : 40; unsigned done = 0; bool unfinished = false;
    for (unsigned k = 0; k < times && mpack_writer_error(&w) == mpack_ok; ++k) { emit(&w, v, r, eo); ++done; if (path != 0 && r.chance(1, 3) && mpack_writer_error(&w) == mpack_ok) mpack_writer_flush_message(&w); }
    if (r.chance(1, 8)) {
        mpack_writer_flag_error(&w, mpack_error_data); }
#if MPACK_BUILDER
    else if (r.chance(1, 10) && mpack_writer_error(&w) == mpack_ok) { mpack_build_array(&w); unsigned z = (unsigned)r.below(400); while (z--) mpack_write_nil(&w); if (mpack_writer_error(&w) == mpack_ok) mpack_writer_flag_error(&w, mpack_error_data); unfinished = true; count("abandoned_builds"); }
#endif
    if (path >= 4 && !early) HX_CHECK(c.closes == 0, "closed-while-in-use", "the file was closed before the writer was destroyed");
    mpack_error_t before = mpack_writer_error(&w); size_t held = mpack_writer_buffer_used(&w); if (before == mpack_ok && path == 0) HX_CHECK(held == want.size() * done, "used", "%zu bytes used, %zu written", held, want.size() * done);
    alloc_off(); bool writes_fail = path >= 4 && (c.fail_op >= 0); mpack_error_t e = mpack_writer_destroy(&w);
    if (path >= 4 && before == mpack_ok && close && c.fail_close) HX_CHECK(e == mpack_error_io, "close-failure", "closing failed, destroy returned %s", errname(e));
    if (!(before != mpack_ok || writes_fail || (path >= 4 && close && c.fail_close) || (path == 1 && o.fail_io) || (tear && o.fail_teardown))) HX_CHECK(e == mpack_ok, "destroy-error", "no error before, destroy returned %s", errname(e));
    after(N[path], o, before, e, tear, early); (void)unfinished;
    if (path == 1 && tear) HX_CHECK(o.out_at_teardown == o.out.size(), "flush-before-teardown", "%zu bytes flushed before teardown, %zu in the end", o.out_at_teardown, o.out.size());
    Bytes all; for (unsigned k = 0; k < done; ++k) all.insert(all.end(), want.begin(), want.end());
    int64_t mine = 0;
    if (path == 2) {
        if (e == mpack_ok) { HX_CHECK(data != NULL && size == all.size(), "growable", "%zu bytes returned, %zu written", size, all.size()); HX_CHECK(size == 0 || memcmp(data, all.data(), size) == 0, "growable", "wrong bytes"); mine = 1; HX_CHECK(g_alloc.live - live == 1, "leak", "%lld blocks live", (long long)(g_alloc.live - live)); MPACK_FREE(data); mine = 0; count("growable_buffers"); }
        else HX_CHECK(data == NULL && size == 0, "growable-error", "error %s but the caller's pointer was set", errname(e));
    }
    HX_CHECK(g_alloc.live - live == mine, "leak", "%s: %lld blocks live after destruction", N[path], (long long)(g_alloc.live - live));
    if (path == 0 && e == mpack_ok) HX_CHECK(memcmp(buf.p, all.data(), all.size()) == 0, "fixed", "wrong bytes in the caller's buffer");
    if (path == 1 && e == mpack_ok) HX_CHECK(o.out == all, "flushed", "wrong bytes");
    if (path >= 4) {
        HX_CHECK(c.closes == (close && !(library_file && c.open_fails) ? 1 : 0), "close-count", "%s: closed %d times", N[path], (int)c.closes);
        if (!close) { bool good = e == mpack_ok; bool ok2 = fputs("tail", f) >= 0; int cr = fclose(f); ok2 = ok2 && cr == 0; HX_CHECK(c.closes == 1, "close-count", "closed %d times", (int)c.closes); if (good && ok2) { all.insert(all.end(), (const uint8_t*)"tail", (const uint8_t*)"tail" + 4); if (!c.failed) HX_CHECK(c.out == all, "file-content", "%zu bytes in the file, %zu expected", c.out.size(), all.size()); } }
        else if (e == mpack_ok && !c.failed) HX_CHECK(c.out == all, "file-content", "%zu bytes in the file, %zu expected", c.out.size(), all.size());
        count("files");
    }
    distinct(mix(mix(hash_bytes(want), 32 + (uint64_t)path), (uint64_t)e * 64 + times));
}
void prop_case(uint64_t idx, Rng& r) {
    for (unsigned k = 0; k < 4; ++k) { clear_notes(); if (idx % 3 == 0) reader_life(r); else if (idx % 3 == 1) tree_life(r); else writer_life(r); }
    if (want_sample()) sample("four lives of a %s", idx % 3 == 0 ? "reader" : idx % 3 == 1 ? "tree" : "writer");
}
