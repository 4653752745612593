// C05 extra: writers given blobs of several gigabytes
#include "big.hpp"
#include <unistd.h>
using namespace hx;
const char* prop_rule() { return "case = array of blobs of up to 2^32-1 bytes (and pre-encoded objects beyond 2^32) in sparse memory written through a flush sink or refused by a fixed buffer; every byte position handed to the sink checked by address or content; non-trivial = more than 2^31 bytes written; distinct by sizes"; }
struct Rec { const Vast* m; uint64_t total; Bytes head; std::vector<std::pair<const char*, size_t>> refs; };
static Rec* g; // small pieces are kept, references into the sparse memory recorded
static void sink(mpack_writer_t*, const char* p, size_t n) { if (p >= g->m->p && p < g->m->p + g->m->n) { HX_CHECK(n <= g->m->n - (size_t)(p - g->m->p), "sink-range", "sink given %zu bytes", n); g->refs.push_back(std::make_pair(p, n)); g->head.push_back(0xee); put_be(g->head, (uint64_t)(p - g->m->p), 8); put_be(g->head, n, 8); } else g->head.insert(g->head.end(), p, p + n); g->total += n; count("flushes"); }
static void want_ref(Bytes& w, size_t off, size_t n, size_t inbuf) { (void)inbuf; w.push_back(0xee); put_be(w, off, 8); put_be(w, n, 8); }
static Vast* g_cstr; static char* vast_cstr() { // a C string of 4 GB + 5: one megabyte of file mapped over and over
    static char* p = 0; if (p) return p; int fd = memfd_create("cstr", 0); size_t mb = 1 << 20; if (fd < 0 || ftruncate(fd, (off_t)mb)) abort(); char* a = (char*)mmap(0, mb, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (a == MAP_FAILED) abort(); memset(a, 'x', mb); size_t n = (size_t)4097 * mb; p = (char*)mmap(0, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); for (size_t i = 0; i < 4096; ++i) if (mmap(p + i * mb, mb, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) abort();
    char* last = (char*)mmap(p + 4096 * mb, mb, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0); if (last == MAP_FAILED) abort(); memcpy(last, "yyyyy", 6); munmap(a, mb); return p; }
void prop_case(uint64_t idx, Rng& r) {
    if (sizeof(size_t) < 8) { count("left_out"); return; }
    (void)g_cstr; char small[64 + 1000]; size_t bs = 64 + (size_t)r.below(1000);
    if (idx % 16 == 5 && (idx == 5 || g_thorough)) { char* s = vast_cstr(); for (int k = 0; k < 2; ++k) { Vast none(4096); Rec rec = {&none, 0, Bytes(), {}}; g = &rec; mpack_writer_t w; mpack_writer_init(&w, small, bs); mpack_writer_set_flush(&w, sink); if (k == 0) mpack_write_cstr(&w, s); else mpack_write_utf8_cstr_or_nil(&w, s); HX_CHECK(mpack_writer_error(&w) == mpack_error_invalid, "cstr-over-4gb", "a string of 2^32+5 bytes gives %s", errname(mpack_writer_error(&w))); mpack_writer_destroy(&w); HX_CHECK(rec.total == 0, "cstr-over-4gb", "%llu bytes written", (unsigned long long)rec.total); } count("cstr_over_4gb"); eval(); return; }
    size_t cap = (size_t)11 << 30; Vast m(cap); Rec rec = {&m, 0, Bytes(), {}}; g = &rec; Bytes want; uint64_t total = 0; mpack_writer_t w; mpack_writer_init(&w, small, bs); mpack_writer_set_flush(&w, sink); unsigned n = 1 + (unsigned)r.below(4); mpack_start_array(&w, n * 2); { Bytes h; h.push_back((uint8_t)(0x90 | n * 2)); want = h; total = 1; }
    static const uint32_t L[] = {0xffffffffu, 0xfffffffeu, 0x80000000u, 0x7fffffffu, 0x80000001u, 0xffff0000u};
    for (unsigned i = 0; i < n; ++i) {
        unsigned k = (unsigned)r.below(6); if (!MPACK_EXTENSIONS && k == 2) k = 1; uint32_t l = r.chance(1, 3) ? (uint32_t)r.next() | 0x100000 : r.pick(L); size_t off = (size_t)r.below(1 << 20); size_t ol = (size_t)l;
        note("blob %u kind %u of %u", i, k, l); Bytes h; auto head = [&](uint8_t t) { h.push_back(t); put_be(h, l, 4); };
        switch (k) {
            case 0: mpack_write_str(&w, m.p + off, l); head(0xdb); break;
            case 1: mpack_write_bin(&w, m.p + off, l); head(0xc6); break;
#if MPACK_EXTENSIONS
            case 2: mpack_write_ext(&w, 9, m.p + off, l); head(0xc9); h.push_back(9); break;
#endif
            case 3: { mpack_start_bin(&w, l); uint32_t a = 1 + (uint32_t)r.below(l / 2) + 8192; if (l - a < 8192) a = l / 2; mpack_write_bytes(&w, m.p + off, a); mpack_write_bytes(&w, m.p + off + a, l - a); mpack_finish_bin(&w); head(0xc6); want.insert(want.end(), h.begin(), h.end()); total += h.size() + l; want_ref(want, off, a, 0); want_ref(want, off + a, l - a, 0); h.clear(); ol = 0; break; }
            case 4: { ol = ((size_t)1 << 32) + (size_t)r.below((uint64_t)6 << 30); mpack_write_object_bytes(&w, m.p + off, ol); count("objects_over_4gb"); break; }
            default: mpack_start_str(&w, l); mpack_write_bytes(&w, m.p + off, l); mpack_finish_str(&w); head(0xdb); break;
        }
        if (ol) { want.insert(want.end(), h.begin(), h.end()); want_ref(want, off, ol, 0); total += h.size() + ol; }
        uint64_t v = r.next() | (uint64_t)1 << 63; mpack_write_u64(&w, v); want.push_back(0xcf); put_be(want, v, 8); total += 9;
    }
    mpack_finish_array(&w); mpack_error_t e = mpack_writer_destroy(&w); HX_CHECK(e == mpack_ok, "big-write", "error %s", errname(e)); HX_CHECK(rec.total == total, "big-write", "%llu bytes reached the sink instead of %llu", (unsigned long long)rec.total, (unsigned long long)total); HX_CHECK(rec.head == want, "big-write", "the sink received something else");
    // a fixed buffer refuses
    { Guard b(bs); mpack_writer_t f; mpack_writer_init(&f, b.p, bs); mpack_write_bin(&f, m.p, r.pick(L)); HX_CHECK(mpack_writer_error(&f) == mpack_error_too_big, "big-fixed", "%s", errname(mpack_writer_error(&f))); mpack_writer_destroy(&f); }
    count("big_documents"); if (total >> 32) count("documents_over_4gb"); eval(); distinct(total); if (want_sample()) sample("%llu bytes", (unsigned long long)total);
}
