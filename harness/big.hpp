// Messages of several gigabytes in sparse memory: lengths, offsets and sizes beyond 32 bits.
#pragma once
#include "hx.hpp"
#include "hx_ref.hpp"
#include <sys/mman.h>
#include <unistd.h>
namespace hx {
struct Vast { // a sparse mapping; only the pages written take memory
    char* p; size_t n; size_t len; std::vector<std::pair<size_t, size_t>> dirty;
    explicit Vast(size_t cap) : n((cap + (1 << 20) + 4095) & ~(size_t)4095), len(0) { p = (char*)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); abort(); } }
    ~Vast() { munmap(p, n); }
    void put(const Bytes& b) { if (b.empty()) return; memcpy(p + len, b.data(), b.size()); dirty.push_back(std::make_pair(len, b.size())); len += b.size(); }
    void gap(size_t k) { len += k; }
    void fence(size_t end) { end = (end + 4095) & ~(size_t)4095; mprotect(p + end, n - end, PROT_NONE); } // nothing may be touched past the page holding byte end-1
};
// n bytes ending right at an inaccessible page; all but the first page and the last 4 MB share one 2 MB block of memory
struct Alias {
    char* m; size_t map; char* p; size_t n; static int fd() { static int f = -1; if (f < 0) { f = memfd_create("alias", 0); if (f < 0 || ftruncate(f, 2 << 20)) { perror("memfd"); abort(); } } return f; }
    Alias(size_t n_) : n(n_) {
        size_t B = 2 << 20; map = (n + 4096 + 4095) & ~(size_t)4095; m = (char*)mmap(0, map + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) { perror("mmap"); abort(); }
        mprotect(m + map, 4096, PROT_NONE); p = m + map - n; for (size_t o = 8192; o + 3 * B <= map; o += B) if (mmap(m + o, B, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd(), 0) == MAP_FAILED) { perror("mmap block"); abort(); }
    }
    void fill(int c) { size_t B = 2 << 20; memset(m, c, 8192); size_t o = 8192; if (o + 3 * B <= map) memset(m + o, c, B); while (o + 3 * B <= map) o += B; memset(m + o, c, map - o); }
    ~Alias() { munmap(m, map + 4096); }
private: Alias(const Alias&); void operator=(const Alias&);
};
struct Part { int kind; uint64_t off; uint32_t len; int8_t et; uint64_t v; }; // kind: 0 uint, 1 str, 2 bin, 3 ext, 4 small str
// an array of large blobs (zeros with marked ends) and small values behind them
static inline void vast_message(Vast& m, std::vector<Part>& parts, Rng& r, unsigned n, size_t cap) {
    static const uint32_t L[] = {0xffffffffu, 0xfffffffeu, 0x80000000u, 0x7fffffffu, 0x80000001u, 0xffff0000u, 0xc0000000u, 0x10000u, 100000u}; m.len = 0; parts.clear();
    { Bytes h; h.push_back(0xdc); put_be(h, n * 2, 2); m.put(h); }
    for (unsigned i = 0; i < n; ++i) {
        uint32_t l = r.chance(1, 4) ? (uint32_t)r.next() : r.pick(L); if (l < 65536) l += 65536; if (m.len + l + 100 > cap) l = 65536; Part q; q.kind = 1 + (int)r.below(MPACK_EXTENSIONS ? 3 : 2); q.len = l; q.et = (int8_t)r.next(); q.v = 0; Bytes h; h.push_back(q.kind == 1 ? 0xdb : q.kind == 2 ? 0xc6 : 0xc9); put_be(h, l, 4); if (q.kind == 3) h.push_back((uint8_t)q.et);
        m.put(h); q.off = m.len; m.p[m.len] = 0; m.gap(l); parts.push_back(q);
        Part s; s.et = 0; s.len = 0; s.v = 0; if (r.chance(1, 2)) { s.kind = 0; s.v = r.next(); Bytes b; b.push_back(0xcf); put_be(b, s.v, 8); s.off = m.len; m.put(b); } else { s.kind = 4; s.v = r.next(); Bytes b; b.push_back(0xa8); put_be(b, s.v, 8); s.off = m.len + 1; s.len = 8; m.put(b); }
        parts.push_back(s);
    }
    note("message of %zu bytes in %u blobs", m.len, n); for (auto& q : parts) if (q.len > 8) note("blob kind %d of %u at %llu", q.kind, q.len, (unsigned long long)q.off);
}
}
