// C28: memory, work and requests to the source stay proportional to the data supplied.
#include "hx_prog.hpp"
#include <sys/mman.h>
using namespace hx;
const char* prop_rule() { return "case = hostile or valid input (claimed lengths and counts up to 2^32-1, deep, wide, large) parsed, discarded, read and allocated from memory and from sources in chunks, or large documents written and built; allocator ledger, metered work (control-flow edges and bytes moved inside the library) and every request to the source checked against bounds linear in the data supplied; non-trivial = work was done; distinct by (input, way)"; }
static uint64_t g_edges = 0;
extern "C" void __sanitizer_cov_trace_pc() { ++g_edges; } // called from the library's control-flow edges in the metered builds
#ifdef HX_METER
enum { METER = 1 };
#else
enum { METER = 0 };
#endif
struct Cal { const char* n; double max; }; static Cal g_cal[64]; static int g_ncal = 0;
static void bound(const char* key, const char* what, uint64_t got, uint64_t n, uint64_t K, uint64_t C) {
    if (getenv("HX_CAL")) { int i = 0; while (i < g_ncal && strcmp(g_cal[i].n, what)) ++i; if (i == g_ncal && i < 64) { g_cal[i].n = what; g_cal[i].max = 0; ++g_ncal; } double q = got > C ? (double)(got - C) / (double)(n + 1) : 0; if (q > g_cal[i].max) { g_cal[i].max = q; fprintf(stderr, "CAL %s: (%llu - %llu) / %llu = %.2f of %llu\n", what, (unsigned long long)got, (unsigned long long)C, (unsigned long long)n, q, (unsigned long long)K); } }
    HX_CHECK(got <= K * n + C, key, "%s: %llu for %llu bytes supplied (allowed %llu per byte and %llu)", what, (unsigned long long)got, (unsigned long long)n, (unsigned long long)K, (unsigned long long)C);
    count("bounds_checked");
}
struct Meter { uint64_t e, c, p; Meter() { alloc_off(); alloc_reset(); g_edges = 0; g_copied = 0; e = c = p = 0; }
    uint64_t work() const { return g_edges + g_copied; } uint64_t start_live = g_alloc.live_bytes;
    uint64_t peak() const { return g_alloc.peak_bytes - start_live; } uint64_t total() const { return g_alloc.total_bytes; } };
// limits of a fixed size, independent of the data: pages, buffers, small stacks
enum { FIXED = 4 * MPACK_NODE_PAGE_SIZE + 4 * MPACK_BUFFER_SIZE + 4 * MPACK_BUILDER_PAGE_SIZE + 4096 };

//---------------------------------------------------------------- a source that knows where the message ends
struct Feed { const Bytes* b; size_t pos, limit; Rng r; int chunk; bool ended; uint64_t calls, zeros; unsigned stalls; Feed(const Bytes& x, uint64_t s) : b(&x), pos(0), limit((size_t)-1), r(s), chunk(0), ended(false), calls(0), zeros(0), stalls(0) {}
    size_t get(char* p, size_t n, bool may_stall) {
        ++calls; HX_CHECK(n > 0, "zero-request", "asked for zero bytes"); HX_CHECK(!ended, "asked-after-end", "source asked again after it reported its end");
        HX_CHECK(pos < limit, "asked-beyond-message", "source asked for more with %zu bytes delivered although everything needed ends at %zu", pos, limit); count("requests");
        if (may_stall && stalls && r.chance(1, 3)) { --stalls; ++zeros; return 0; }
        size_t left = b->size() - pos; if (!left) { ended = true; return 0; }
        size_t k = n < left ? n : left; if (chunk > 0 && k > (size_t)chunk) k = (size_t)chunk; else if (chunk < 0 && k > 1) k = 1 + (size_t)r.below(r.chance(1, 2) && k > 5 ? 5 : k);
        memcpy(p, b->data() + pos, k); pos += k; return k; } };
static size_t rfill(mpack_reader_t* rd, char* p, size_t n) { return ((Feed*)mpack_reader_context(rd))->get(p, n, false); }
static void rskip(mpack_reader_t* rd, size_t n) { Feed* f = (Feed*)mpack_reader_context(rd); HX_CHECK(n > 0, "zero-request", "skip of zero bytes"); HX_CHECK(!f->ended, "asked-after-end", "skip after the end"); HX_CHECK(f->limit == (size_t)-1 || (n <= f->limit && f->pos <= f->limit - n), "skip-beyond-message", "skip of %zu bytes at %zu although the message ends at %zu", n, f->pos, f->limit);
    if (n > f->b->size() - f->pos) { f->pos = f->b->size(); f->ended = true; mpack_reader_flag_error(rd, mpack_error_io); return; } f->pos += n; count("skips"); }
static bool g_try; static size_t tread(mpack_tree_t* t, char* p, size_t n) { Feed* f = (Feed*)mpack_tree_context(t); size_t k = f->get(p, n, g_try); if (!k && f->ended) mpack_tree_flag_error(t, mpack_error_io); return k; }
// where the data needed to find the fault (or the message's end) stops
static size_t need(const Dec& d, const Bytes& b, size_t at, bool tree) {
    if (d.err == D_OK) return at + d.used;
    if (d.err == D_TRUNC) return (size_t)-1;
    uint64_t out = 1; if (tree) for (size_t i = 0; i < d.ev.size() && i < d.bad; ++i) if (d.ev[i].k == K_ARR || d.ev[i].k == K_MAP) out += d.ev[i].k == K_MAP ? 2ull * d.ev[i].n : d.ev[i].n;
    if (tree) out = out > d.bad ? out - d.bad : 1; // children announced and not yet seen, each at least a byte
    (void)b; uint64_t l = (uint64_t)d.bad_off + out + 20; return l > (uint64_t)(size_t)-1 ? (size_t)-1 : (size_t)l;
}

//---------------------------------------------------------------- inputs
static Bytes big_shape(Rng& r) {
    size_t n = (size_t)(g_thorough ? r.range(20000, 3000000) : r.range(5000, 300000)); Bytes b; unsigned k = (unsigned)r.below(12);
    switch (k) {
        case 0: b.assign(n, 0x91); b.push_back(0xc0); break;                                  // deep
        case 1: b.push_back(0xdd); put_be(b, n, 4); b.insert(b.end(), n, 0xc0); break;         // wide
        case 2: b.push_back(0xdd); put_be(b, n / 8, 4); for (size_t i = 0; i < n / 8; ++i) { b.push_back(0x93); b.push_back(0x01); b.push_back(0x90); b.push_back(0x80); } break;
        case 3: b.push_back(0xdf); put_be(b, n / 4, 4); for (size_t i = 0; i < n / 4; ++i) { b.push_back(0xa1); b.push_back('k'); b.push_back(0x92); b.push_back(0x01); b.push_back(0xc2); } break;
        case 4: b.push_back(0xdb); put_be(b, n, 4); b.insert(b.end(), n, 'x'); break;
        case 5: { b.push_back(0xdd); put_be(b, n / 40, 4); for (size_t i = 0; i < n / 40; ++i) { b.push_back(0xd9); b.push_back(38); b.insert(b.end(), 38, 'y'); } break; }
        case 6: for (size_t i = 0; i < n / 6; ++i) { b.push_back(0xdd); put_be(b, 0xffffffffu - i, 4); } break; // every level claims everything
        case 7: b.push_back(0xdd); put_be(b, 0xffffffffu, 4); b.insert(b.end(), n, 0xc3); break; // claims far more than there is
        case 8: b.push_back(0xc6); put_be(b, 0xf0000000u, 4); b.insert(b.end(), n, 0x11); break;
        case 9: for (size_t i = 0; i < n / 4; ++i) { b.push_back(0x92); b.push_back(0x92); b.push_back(0xc0); b.push_back(0xc0); } b.push_back(0xc0); break;
        case 10: b.push_back(0xc6); put_be(b, n, 4); b.insert(b.end(), n, 0xc3); b.insert(b.end(), n / 2, 0xc2); if (r.chance(3, 4)) { note("a large message and %zu tiny ones", n / 2); return b; } break;
        default: b.push_back(0xdd); put_be(b, n / 20, 4); for (size_t i = 0; i < n / 20; ++i) { for (int j = 0; j < 19; ++j) b.push_back(0x91); b.push_back(0x05); } break;
    }
    if (r.chance(1, 4)) b.resize((size_t)r.below(b.size())); else if (r.chance(1, 6)) b[(size_t)r.below(b.size())] = 0xc1;
    note("shape %u of %zu bytes", k, b.size()); return b;
}
static void tree_data(const Bytes& b, Rng& r) {
    Guard in(b); size_t mn = r.chance(1, 4) ? 1 + (size_t)r.below(b.size() + 100) : 0; Meter m; mpack_tree_t t; mpack_tree_init_data(&t, in.n ? in.p : "", in.n); if (mn) mpack_tree_set_limits(&t, (size_t)-1, mn);
    unsigned msgs = 0; while (mpack_tree_error(&t) == mpack_ok && msgs < 5000) { mpack_tree_parse(&t); if (mpack_tree_error(&t) == mpack_ok) ++msgs; }
    mpack_error_t e = mpack_tree_destroy(&t);
    bound("tree-memory", "peak allocated by a tree over memory", m.peak(), b.size(), 8 * sizeof(mpack_node_data_t), FIXED);
    bound("tree-memory", "total allocated by a tree over memory", m.total(), b.size(), 12 * sizeof(mpack_node_data_t), FIXED + (uint64_t)(msgs + 1) * (MPACK_NODE_PAGE_SIZE + 512));
    if (METER) bound("tree-work", "work of a tree over memory", m.work(), b.size() + msgs, 120, 20000);
    count("tree_parses"); count("tree_messages", msgs); eval(); distinct(mix(hash_bytes(b), 1 + (uint64_t)e));
}
static void tree_stream(const Bytes& b, Rng& r) {
    Feed f(b, r.next()); f.chunk = r.chance(1, 3) ? 0 : r.chance(1, 2) ? -1 : 1 + (int)r.below(9); bool tr = r.chance(1, 2); g_try = tr; f.stalls = tr ? (unsigned)r.below(200) : 0; size_t ms = r.chance(1, 2) ? b.size() * 2 + 100 + (size_t)r.below(5000) : r.chance(1, 2) ? 1 + (size_t)r.below(b.size() + 4000) : (size_t)64 << 20;
    note("stream chunk %d try %d limit %zu", f.chunk, tr, ms); Meter m; mpack_tree_t t; mpack_tree_init_stream(&t, tread, &f, ms, ms); unsigned msgs = 0; size_t at = 0; uint64_t tries = 0, largest = 0; bool claimed = false;
    while (mpack_tree_error(&t) == mpack_ok && msgs < 30000) {
        Dec d = decode(b, at); if (d.err == D_OK) { if (d.used > largest) largest = d.used; } else if (at < b.size()) claimed = true; f.limit = need(d, b, at, true); bool ok = false;
        if (tr) { while (mpack_tree_error(&t) == mpack_ok && !(ok = mpack_tree_try_parse(&t))) { if (++tries > b.size() + 1000) fail("no-progress", "try_parse makes no progress"); } } else { mpack_tree_parse(&t); ok = mpack_tree_error(&t) == mpack_ok; }
        if (!ok) break;
        HX_CHECK(d.err == D_OK, "accepted", "parsed a message the reference rejects"); ++msgs; at += d.used;
    }
    mpack_error_t e = mpack_tree_destroy(&t); size_t n = f.pos;
    bound("stream-memory", "peak allocated by a streamed tree", m.peak(), n, 8 * sizeof(mpack_node_data_t) + 8, FIXED + 2 * (claimed || ms < 2 * largest ? (uint64_t)ms : 2 * largest)); if (!claimed) count("streams_without_claims");
    if (METER) bound("stream-work", "work of a streamed tree", m.work(), n + msgs * 4 + f.calls + tries, 120, 20000);
    count("stream_parses"); count("stream_messages", msgs); if (f.zeros) count("stalls", f.zeros); eval(); distinct(mix(hash_bytes(b), 20 + (uint64_t)e));
}
static void reader(const Bytes& b, Rng& r) {
    unsigned mode = (unsigned)r.below(3); bool elem = r.chance(1, 3) && b.size() < 40000; Feed f(b, r.next()); f.chunk = r.chance(1, 3) ? 0 : r.chance(1, 2) ? -1 : 1 + (int)r.below(9); size_t bs = 32 + (size_t)r.below(r.chance(1, 2) ? 100 : 5000); Guard buf(bs), in(b); mpack_reader_t rd;
    note("reader mode %u buffer %zu chunk %d %s", mode, bs, f.chunk, elem ? "read" : "discard");
    Meter m; if (mode == 0) mpack_reader_init_data(&rd, in.n ? in.p : "", in.n); else { mpack_reader_init(&rd, buf.p, bs, 0); mpack_reader_set_context(&rd, &f); mpack_reader_set_fill(&rd, rfill); if (mode == 2) mpack_reader_set_skip(&rd, rskip); }
    size_t at = 0; unsigned msgs = 0;
    while (mpack_reader_error(&rd) == mpack_ok && msgs < 3000) {
        Dec d = decode(b, at); f.limit = need(d, b, at, false); if (elem && d.maxdepth > 300) break;
        if (elem) { Res o; read_elem(&rd, r, o); } else mpack_discard(&rd);
        if (mpack_reader_error(&rd) != mpack_ok) break; HX_CHECK(d.err == D_OK, "accepted", "read a message the reference rejects"); ++msgs; at += d.used;
    }
    mpack_error_t e = mpack_reader_error(&rd); if (e == mpack_ok) mpack_reader_flag_error(&rd, mpack_error_data); mpack_reader_destroy(&rd); size_t n = mode ? f.pos : b.size();
    if (!elem) bound("discard-memory", "allocated while discarding", m.total(), 0, 0, MPACK_READ_TRACKING ? (uint64_t)n * 64 + 8192 : 0);
    if (METER) bound("reader-work", elem ? "work of reading" : "work of discarding", m.work(), n + f.calls + msgs, elem ? 40 : 24, 20000 + (elem ? 3 * m.total() : 0));
    count("reader_runs"); eval(); distinct(mix(hash_bytes(b), 40 + mode * 2 + elem + 16 * (uint64_t)e));
}
//---------------------------------------------------------------- claims against a caller's maximum
static void claims(Rng& r) {
    static const uint32_t C[] = {0, 1, 5, 31, 32, 100, 255, 256, 65535, 65536, 1000000, 0x3fffffff, 0x40000000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}; uint32_t claim = r.pick(C); size_t max = r.chance(1, 5) ? (size_t)-1 : r.chance(1, 3) ? (size_t)r.below(10) : (size_t)r.below(300000); size_t have = (size_t)r.below(r.chance(1, 2) ? 40 : 3000);
    unsigned what = (unsigned)r.below(7); if (what == 6 && !MPACK_EXTENSIONS) what = 0; static const uint8_t T[] = {0xdb, 0xdb, 0xc6, 0xdb, 0xdd, 0xdd, 0xc9}; Bytes b; b.push_back(T[what]); put_be(b, claim, 4); if (what == 6) b.push_back(7); for (size_t i = 0; i < have; ++i) b.push_back(what == 4 || what == 5 ? 0xc0 : 'a'); // no terminators inside
    bool src = r.chance(1, 2); Feed f(b, r.next()); f.chunk = r.chance(1, 2) ? 0 : -1; size_t bs = 32 + (size_t)r.below(200); Guard buf(bs), in(b); mpack_reader_t rd; static const char* N[] = {"expect_cstr_alloc", "expect_utf8_cstr_alloc", "expect_bin_alloc", "read_bytes_alloc", "expect_array_alloc", "expect_array_alloc_or_nil", "expect_ext_alloc"};
    note("%s claims %u, %zu there, maximum %zu, %s", N[what], claim, have, max, src ? "fill" : "memory");
    Meter m; if (!src) mpack_reader_init_data(&rd, in.p, in.n); else { mpack_reader_init(&rd, buf.p, bs, 0); mpack_reader_set_context(&rd, &f); mpack_reader_set_fill(&rd, rfill); }
    void* p = 0; size_t n = 0, unit = 1; uint32_t cnt = 0; size_t cmax = max > 0xffffffffu ? 0xffffffffu : max;
    switch (what) {
        case 0: p = mpack_expect_cstr_alloc(&rd, max ? max : 1); break; case 1: p = mpack_expect_utf8_cstr_alloc(&rd, max ? max : 1); break; case 2: p = mpack_expect_bin_alloc(&rd, max, &n); break;
        case 3: { uint32_t l = mpack_expect_str_max(&rd, (uint32_t)cmax); if (mpack_reader_error(&rd) == mpack_ok) { p = mpack_read_bytes_alloc(&rd, l); if (mpack_reader_error(&rd) == mpack_ok) mpack_done_str(&rd); } break; }
        case 4: case 5: { struct Big { char x[24]; }; unit = r.chance(1, 2) ? 8 : sizeof(Big); if (unit == 8) p = what == 4 ? mpack_expect_array_alloc(&rd, uint64_t, (uint32_t)cmax, &cnt) : 0; else p = what == 4 ? mpack_expect_array_alloc(&rd, Big, (uint32_t)cmax, &cnt) : 0; if (what == 5) { bool has; if (unit == 8) p = mpack_expect_array_or_nil_alloc(&rd, uint64_t, (uint32_t)cmax, &cnt); else p = mpack_expect_array_or_nil_alloc(&rd, Big, (uint32_t)cmax, &cnt); (void)has; }
            if (p) { HX_CHECK(cnt == claim && (uint64_t)cnt * unit <= g_alloc.max_single, "array-short", "%u elements of %zu in an allocation of at most %llu bytes", cnt, unit, (unsigned long long)g_alloc.max_single); memset(p, 1, (size_t)cnt * unit); } break; }
#if MPACK_EXTENSIONS
        case 6: { int8_t et; p = mpack_expect_ext_alloc(&rd, &et, max, &n); break; }
#endif
        default: break;
    }
    uint64_t lim = (uint64_t)(max < claim ? 0 : claim) * unit + 1; // nothing at all for a claim over the maximum
    HX_CHECK(g_alloc.max_single <= lim + (MPACK_READ_TRACKING ? 4096 : 0), "claim-allocated", "%s: %llu bytes allocated for a claim of %u with a maximum of %zu", N[what], (unsigned long long)g_alloc.max_single, claim, max);
    if (what < 4 || what == 6) HX_CHECK(p == NULL || claim <= have, "claim-served", "%s returned memory for %u bytes of %zu", N[what], claim, have);
    if (METER) bound("claim-work", "work of an allocating call", m.work(), b.size() + f.calls, 40, 20000 + 3 * (uint64_t)(max < claim ? 0 : claim) * unit);
    MPACK_FREE(p); if (mpack_reader_error(&rd) == mpack_ok) mpack_reader_flag_error(&rd, mpack_error_data); mpack_reader_destroy(&rd); count("claims"); eval(); distinct(mix(claim, mix(max, have * 8 + what)));
}
//---------------------------------------------------------------- writers
static size_t g_sunk; static void sink(mpack_writer_t*, const char*, size_t n) { g_sunk += n; count("flushes"); }
static void writer(Rng& r, bool big) {
    bool grow = r.chance(1, 2), build = r.chance(1, 2) && MPACK_BUILDER; size_t n = big ? (size_t)r.range(20000, g_thorough ? 2000000 : 400000) : (size_t)r.below(3000); size_t bs = 32 + (size_t)r.below(2000); Guard buf(bs); char* data = 0; size_t size = 0; mpack_writer_t w; g_sunk = 0; unsigned style = (unsigned)r.below(6); bool flushes = r.chance(1, 4);
    note("writer %s build %d about %zu bytes style %u flush %d", grow ? "growable" : "flush", build, n, style, flushes);
    Bytes blob(n < 100 ? 100 : n, 0x33); Meter m; if (grow) mpack_writer_init_growable(&w, &data, &size); else { mpack_writer_init(&w, buf.p, bs); mpack_writer_set_flush(&w, sink); } uint64_t calls = 0, written = 0;
#if MPACK_BUILDER
    unsigned depth = 0; if (build) { mpack_build_array(&w); depth = 1; }
#endif
    while (written < n && mpack_writer_error(&w) == mpack_ok) {
        ++calls;
        switch (style) {
            case 0: mpack_write_nil(&w); written += 1; break;
            case 1: { uint32_t l = (uint32_t)r.below(60); mpack_write_str(&w, (const char*)blob.data(), l); written += l + 1; break; }
            case 2: { uint32_t l = (uint32_t)(n / 3 + 1); mpack_write_bin(&w, (const char*)blob.data(), l); written += l + 5; break; }
            case 3: { uint32_t l = (uint32_t)r.below(n / 2 + 2), at = 0; mpack_start_bin(&w, l); while (at < l) { uint32_t k = 1 + (uint32_t)r.below(l - at < 50 ? l - at : 50); mpack_write_bytes(&w, (const char*)blob.data(), k); at += k; ++calls; } mpack_finish_bin(&w); written += l + 2; break; }
            case 4: mpack_write_u64(&w, r.next()); written += 9; break;
            default:
#if MPACK_BUILDER
                if (build) { if (r.chance(1, 2) && depth < 50000) { if (r.chance(1, 2)) { mpack_build_array(&w); ++depth; } else { mpack_build_map(&w); mpack_complete_map(&w); } } else if (depth > 1 && r.chance(1, 2)) { mpack_complete_array(&w); --depth; } else mpack_write_int(&w, 7); written += 5; break; }
#endif
                mpack_start_array(&w, 1); mpack_write_true(&w); mpack_finish_array(&w); written += 2; calls += 2; break;
        }
        if (flushes && !build && calls % 16 == 0) mpack_writer_flush_message(&w);
    }
#if MPACK_BUILDER
    while (depth) { mpack_complete_array(&w); --depth; ++calls; }
#endif
    mpack_error_t e = mpack_writer_destroy(&w); HX_CHECK(e == mpack_ok, "write-error", "writing failed with %s", errname(e)); size_t out = grow ? size : g_sunk;
    bound("writer-memory", build ? "peak allocated by a building writer" : "peak allocated by a writer", m.peak(), out + (build ? calls : 0), build ? 36 : 5, FIXED);
    bound("writer-memory", build ? "total allocated by a building writer" : "total allocated by a writer", m.total(), out + (build ? calls : 0), build ? 40 : 10, FIXED + (MPACK_WRITE_TRACKING ? 64 * calls : 0));
    if (METER) bound("writer-work", build ? "work of building" : "work of writing", m.work(), out + calls * 4, 14, 20000);
    if (grow) { MPACK_FREE(data); count("growable_documents"); } if (build) count("built_documents"); count("documents"); eval(); distinct(mix(n, mix(style, calls * 4 + grow * 2 + build)));
}
// sizes beyond what can exist: a refusal, not a loop, an overflow or an access
static void impossible(Rng& r) {
    static void* none = 0; if (!none) { none = mmap(0, 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (none == MAP_FAILED) abort(); }
    static const uint32_t C[] = {0x7fffffff, 0x80000000, 0x80000001, 0xc0000000, 0xfffff000, 0xfffffff0, 0xffffffff}; uint32_t n = r.pick(C); const char* p = (const char*)none; unsigned what = (unsigned)r.below(5); size_t pre = (size_t)r.below(6000);
    note("growable writer given %u bytes, call %u after %zu bytes", n, what, pre); Meter m; g_alloc.cap = g_alloc.live_bytes + (50u << 20); char* data = 0; size_t size = 0; mpack_writer_t w; mpack_writer_init_growable(&w, &data, &size); { Bytes b(pre + 1, 'q'); mpack_start_array(&w, 2); mpack_write_str(&w, (const char*)b.data(), (uint32_t)pre); }
    switch (what) { case 0: mpack_write_str(&w, p, n); break; case 1: mpack_write_bin(&w, p, n); break;
#if MPACK_EXTENSIONS
        case 2: mpack_write_ext(&w, 5, p, n); break;
#endif
        case 3: mpack_start_bin(&w, n); mpack_write_bytes(&w, p, n); break; default: mpack_write_object_bytes(&w, p, n); }
    mpack_error_t e = mpack_writer_error(&w); HX_CHECK(e == mpack_error_memory, "impossible-size", "writing %u bytes with 50 MB of memory: %s", n, errname(e)); mpack_writer_destroy(&w); HX_CHECK(data == NULL, "impossible-size", "data returned");
    if (METER) bound("impossible-work", "work of an impossible write", m.work(), pre * 4, 100, 20000); g_alloc.cap = (uint64_t)400 << 20; count("impossible_sizes"); eval(); distinct(mix(n, pre * 8 + what));
}
void prop_case(uint64_t idx, Rng& r) {
    unsigned k = (unsigned)(idx % 10);
    if (k == 0) { for (int i = 0; i < 12; ++i) { clear_notes(); claims(r); } return; }
    if (k == 1) { writer(r, idx % 40 == 1); return; }
    if (k == 2 && idx % 20 == 2) { impossible(r); return; }
    Bytes b; GenOpt g; g.ext = MPACK_EXTENSIONS; g.budget = r.chance(1, 4) ? 300 : 40; int kind;
    if (idx % 40 == 3) b = big_shape(r);
    else if (k < 6) b = gen_hostile(r);
    else if (k < 8) { unsigned n = (unsigned)r.range(1, 5); while (n--) { V v = gen_value(r, g); enc(b, v, ST_RANDOM, &r); } if (r.chance(1, 3)) mutate(b, r); }
    else b = gen_input(r, &kind, g);
    if (b.size() < 2000) note_hex("input", b); if (want_sample()) sample("%zu bytes", b.size());
#if !MPACK_EXTENSIONS
    { size_t at = 0; for (;;) { Dec d = decode(b, at); for (auto& e : d.ev) if (e.k == K_EXT) { count("left_out"); return; } if (d.err != D_OK || at + d.used >= b.size()) break; at += d.used; } }
#endif
    tree_data(b, r); tree_stream(b, r); reader(b, r);
}
