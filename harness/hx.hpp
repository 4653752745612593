// Common runtime-monitoring harness: RNG, verdicts, ledgers, fault injection,
// custom FILE streams, reference MessagePack model (hx_ref.hpp).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <vector>
#include <algorithm>
#include "mpack/mpack.h"

namespace hx {

typedef std::vector<uint8_t> Bytes;

//---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s;
    const uint8_t* d; size_t left; // decisions taken from an input instead, while it lasts
    explicit Rng(uint64_t seed = 0) : s(seed), d(0), left(0) {}
    uint64_t take(size_t n) { uint64_t v = 0; while (n-- && left) { v = v << 8 | *d++; --left; } return v; }
    uint64_t next() {
        if (left) return take(8);
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return !n ? 0 : left ? take(n <= 256 ? 1 : n <= 65536 ? 2 : 8) % n : next() % n; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); } // inclusive
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T, size_t N> const T& pick(const T (&a)[N]) { return a[below(N)]; }
    template <class T> const T& pick(const std::vector<T>& a) { return a[below(a.size())]; }
};
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash_bytes(const Bytes& b, uint64_t h = 1469598103934665603ull) { return hash_bytes(b.data(), b.size(), h); }
uint64_t mix(uint64_t a, uint64_t b);

//---------------------------------------------------------------- verdicts
[[noreturn]] void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // context, shown only on failure
void note_hex(const char* label, const uint8_t* p, size_t n);
inline void note_hex(const char* label, const Bytes& b) { note_hex(label, b.data(), b.size()); }
void clear_notes();
void count(const char* name, uint64_t n = 1);  // observed-event counters for the evidence
void distinct(uint64_t h);                      // register a distinct non-trivial case
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void eval(uint64_t n = 1);                      // executions checked
bool want_sample();
void log_record(uint32_t stage, uint32_t mask, uint64_t digest); // recorded event log, judged offline by the driver
extern uint64_t g_seed; extern uint64_t g_case; extern bool g_verbose; extern bool g_thorough;

#define HX_CHECK(c, key, ...) do { if (!(c)) ::hx::fail(key, __VA_ARGS__); } while (0)

const char* errname(mpack_error_t e);
const char* typname(int t);

//---------------------------------------------------------------- allocator ledger
struct AllocState {
    int64_t live; uint64_t live_bytes, peak_bytes, calls, total_bytes, max_single, injected;
    int64_t fail_at;      // index (counted from arm) of the first allocation to fail; -1 = never
    bool fail_persist;
    uint64_t cap;         // total live byte cap (a legal out-of-memory)
    int64_t armed_calls;
};
extern __thread AllocState g_alloc;
extern __thread uint64_t g_copied;               // bytes moved or compared by the library (metered configurations)
void alloc_reset();                     // zero peaks/counters, keeps live
void alloc_fail(int64_t nth, bool persist);
void alloc_off();
extern void* (*g_vast_alloc)(size_t); extern bool (*g_vast_free)(void*); // when set: serve blocks of 2^29 bytes and more (and then malloc(0) succeeds)
inline int64_t alloc_live() { return g_alloc.live; }

//---------------------------------------------------------------- exact-size guarded memory
struct Guard { // heap block of exactly n bytes (red-zoned on both sides under ASan), never null
    char* base; char* p; size_t n;
    Guard() : base(0), p(0), n(0) {}
    explicit Guard(size_t n_, int fillb = 0xA5) : base(0), p(0), n(0) { init(n_, fillb); }
    Guard(const void* src, size_t n_) : base(0), p(0), n(0) { init(n_, -1); if (n_) memcpy(p, src, n_); }
    explicit Guard(const Bytes& b) : base(0), p(0), n(0) { init(b.size(), -1); if (n) memcpy(p, b.data(), n); }
    ~Guard() { free(base); }
    void init(size_t n_, int fillb);
    Guard(const Guard&) = delete; Guard& operator=(const Guard&) = delete;
};

//---------------------------------------------------------------- custom FILE streams
struct CFile {
    Bytes in; size_t pos;          // read side
    Bytes out;                     // write side
    int chunk_mode;                // 0: as much as asked, k>0: at most k bytes per operation
    bool seekable;
    int64_t ops, fail_op;          // operation counter; the op with index fail_op fails (and later ones if persist)
    bool fail_persist; bool short_write; bool fail_close; bool failed;
    int64_t reads, writes, seeks, closes, opens;
    FILE* file;
    int vbuf;                      // -1 default, 0 unbuffered, >0 full buffered of that size
    char* vmem;
    bool open_fails;
    uint64_t eof_reads;
    CFile();
    ~CFile();
    FILE* open(const char* mode);
};
extern int64_t g_open_files;       // cookie files currently open
void bind_name(CFile* f);          // fopen("hx:...") opens this one
CFile* bound_name();

//---------------------------------------------------------------- error/teardown logs
extern void (*g_err_hook)(void* object, int kind); // run by the error callbacks of Src (0), Tree (1) and Sink (2); may not return
struct Log {
    int errors; mpack_error_t first; mpack_error_t last; int teardowns;
    int breaks;
    Log() { reset(); }
    void reset() { errors = 0; first = last = mpack_ok; teardowns = 0; breaks = 0; }
};
extern __thread int g_breaks;  // mpack_break hits (debug builds)
extern bool g_break_ok;            // misuse is being exercised on purpose

} // namespace hx

// every property program defines these
extern void prop_case(uint64_t idx, hx::Rng& r);
extern const char* prop_rule();
