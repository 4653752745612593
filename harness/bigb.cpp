// C09 extra: containers of about 2^32 elements built incrementally (in a build whose builder pages are served from shared memory)
#include "big.hpp"
#include <map>
using namespace hx;
const char* prop_rule() { return "case = array or map of 2^32-1-k or 2^32+k elements of one byte built incrementally, in builder pages most of which share one block of memory; the header and the number of bytes flushed checked, or the refusal; non-trivial = all elements were written; distinct by size and type"; }
static std::map<void*, Alias*>& blocks() { static std::map<void*, Alias*> m; return m; }
static void* vast_alloc(size_t n) { Alias* a = new Alias(n); blocks()[a->p] = a; return a->p; }
static bool vast_free(void* p) { auto it = blocks().find(p); if (it == blocks().end()) return false; delete it->second; blocks().erase(it); return true; }
struct Out { uint64_t n; Bytes head; bool same; };
static void flush(mpack_writer_t* w, const char* p, size_t k) { Out* o = (Out*)mpack_writer_context(w); while (k && o->head.size() < 5) { o->head.push_back((uint8_t)*p++); --k; ++o->n; } if (k) { o->same = o->same && (uint8_t)p[0] == 0xc0 && (uint8_t)p[k - 1] == 0xc0; o->n += k; } }
void prop_case(uint64_t idx, Rng& r) {
    if (sizeof(size_t) < 8) { count("left_out"); return; }
    bool map = idx % 4 == 3, over = idx % 2 == 0; uint64_t k = over ? 0x100000000ull + r.below(3) : 0xffffffffull - r.below(3); uint64_t writes = map ? 2 * k : k; note("%s of %llu elements", map ? "map" : "array", (unsigned long long)k);
    g_vast_alloc = vast_alloc; g_vast_free = vast_free; int64_t live0 = alloc_live();
    static char buf[1 << 16]; Out o; o.n = 0; o.same = true; mpack_writer_t w; mpack_writer_init(&w, buf, sizeof buf); mpack_writer_set_context(&w, &o); mpack_writer_set_flush(&w, flush);
    if (map) mpack_build_map(&w); else mpack_build_array(&w);
    for (uint64_t i = 0; i < writes;) { uint64_t e = i + (1 << 20); if (e > writes) e = writes; for (; i < e; ++i) mpack_write_nil(&w); if (mpack_writer_error(&w) != mpack_ok) break; }
    bool failed = mpack_writer_error(&w) != mpack_ok; if (!failed) { if (map) mpack_complete_map(&w); else mpack_complete_array(&w); failed = mpack_writer_error(&w) != mpack_ok; }
    mpack_error_t e = mpack_writer_destroy(&w);
    if (over) { HX_CHECK(e != mpack_ok, "build-count-wrapped", "a build of %llu elements was completed with header %02x %02x%02x%02x%02x", (unsigned long long)k, o.head[0], o.head[1], o.head[2], o.head[3], o.head[4]); HX_CHECK(o.n == 0, "build-count-wrapped", "%llu bytes of it were delivered", (unsigned long long)o.n); count("refused_builds"); }
    else { Bytes h; h.push_back(map ? 0xdf : 0xdd); put_be(h, k, 4); HX_CHECK(e == mpack_ok, "big-outcome", "%s", errname(e)); HX_CHECK(o.n == writes + 5 && o.head == h && o.same, "build-bytes", "%llu bytes", (unsigned long long)o.n); count("huge_builds"); }
    HX_CHECK(blocks().empty() && alloc_live() == live0, "leak", "%zu pages left", blocks().size()); g_vast_alloc = 0; g_vast_free = 0; eval(); distinct(mix(k, map)); if (want_sample()) sample("%s of %llu elements: %s", map ? "map" : "array", (unsigned long long)k, errname(e));
}
