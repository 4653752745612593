#include "hx.hpp"
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <malloc.h>
#include <errno.h>

namespace hx {
void (*g_err_hook)(void*, int) = 0;

uint64_t g_seed = 1, g_case = 0; bool g_verbose = false; bool g_thorough = false;
__thread AllocState g_alloc = {0,0,0,0,0,0,0,-1,false,(uint64_t)400<<20,0};
int64_t g_open_files = 0;
__thread int g_breaks = 0; bool g_break_ok = false;

uint64_t hash_bytes(const void* p, size_t n, uint64_t h) {
    const uint8_t* b = (const uint8_t*)p;
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    h ^= n; h *= 1099511628211ull;
    return h ^ (h >> 29);
}
uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ull + b + 0x1234567); r.next(); return r.next(); }

static const char* g_stats_path = 0; static const char* g_progress_path = 0;
static volatile uint64_t* g_progress = 0;

struct Counter { const char* name; uint64_t n; };
static std::vector<Counter>* g_counters;
static uint64_t g_evals = 0;
static const size_t DSET = 1u << 20;
static uint64_t* g_dset; static uint64_t g_dcount = 0;
static std::vector<char*>* g_samples;
static char g_notes[1 << 16]; static size_t g_notes_len = 0;

void clear_notes() { g_notes_len = 0; g_notes[0] = 0; }
void note(const char* fmt, ...) {
    if (g_notes_len > sizeof(g_notes) - 4096) return;
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(g_notes + g_notes_len, 4096, fmt, ap);
    va_end(ap);
    if (n > 4000) n = 4000;
    if (n > 0) g_notes_len += (size_t)n;
    g_notes[g_notes_len++] = '\n'; g_notes[g_notes_len] = 0;
}
void note_hex(const char* label, const uint8_t* p, size_t n) {
    static const char hexd[] = "0123456789abcdef";
    char buf[2100]; size_t o = 0; size_t m = n > 1000 ? 1000 : n;
    for (size_t i = 0; i < m; ++i) { buf[o++] = hexd[p[i] >> 4]; buf[o++] = hexd[p[i] & 15]; }
    buf[o] = 0;
    note("%s[%zu]=%s%s", label, n, buf, m < n ? "..." : "");
}
void count(const char* name, uint64_t n) {
    for (auto& c : *g_counters) if (c.name == name || !strcmp(c.name, name)) { c.n += n; return; }
    g_counters->push_back({name, n});
}
void eval(uint64_t n) { g_evals += n; }
void distinct(uint64_t h) {
    if (h == 0) h = 1;
    if (g_dcount > DSET / 2) return; // saturated: counted up to the bound only
    size_t i = h % DSET;
    while (g_dset[i] && g_dset[i] != h) i = (i + 1) % DSET;
    if (!g_dset[i]) { g_dset[i] = h; ++g_dcount; }
}
bool want_sample() { return g_samples->size() < 3; }
void sample(const char* fmt, ...) {
    if (!want_sample()) return;
    char* b = (char*)malloc(600); va_list ap; va_start(ap, fmt); vsnprintf(b, 600, fmt, ap); va_end(ap);
    g_samples->push_back(b);
}
static void json_str(FILE* f, const char* s) {
    fputc('"', f);
    for (; *s; ++s) { unsigned char c = (unsigned char)*s; if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
    fputc('"', f);
}
static void write_stats() {
    if (!g_stats_path) return;
    char hp[1024]; snprintf(hp, sizeof hp, "%s.hashes", g_stats_path);
    FILE* f = fopen(g_stats_path, "w"); if (!f) return;
    fprintf(f, "{\"evals\":%llu,\"counters\":{", (unsigned long long)g_evals);
    for (size_t i = 0; i < g_counters->size(); ++i) { if (i) fputc(',', f); json_str(f, (*g_counters)[i].name); fprintf(f, ":%llu", (unsigned long long)(*g_counters)[i].n); }
    fprintf(f, "},\"rule\":"); json_str(f, prop_rule());
    fprintf(f, ",\"samples\":[");
    for (size_t i = 0; i < g_samples->size(); ++i) { if (i) fputc(',', f); json_str(f, (*g_samples)[i]); }
    fprintf(f, "]}\n"); fclose(f);
    f = fopen(hp, "wb"); if (!f) return;
    for (size_t i = 0; i < DSET; ++i) if (g_dset[i]) fwrite(&g_dset[i], 8, 1, f);
    fclose(f);
}
void fail(const char* key, const char* fmt, ...) {
    char msg[4096]; va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
    alloc_off();
    fprintf(stderr, "\nHXFAIL key=%s case=%llu seed=%llu: %s\n%s", key, (unsigned long long)g_case, (unsigned long long)g_seed, msg, g_notes);
    fflush(stderr);
#ifdef HX_FUZZ
    abort();
#else
    write_stats();
    _exit(42);
#endif
}
static void on_prof(int) {
    static const char m[] = "\nHXHANG cpu budget of one case exhausted\n";
    ssize_t w = write(2, m, sizeof m - 1); (void)w; _exit(43);
}

const char* errname(mpack_error_t e) {
    switch (e) {
        case mpack_ok: return "ok"; case mpack_error_io: return "io"; case mpack_error_invalid: return "invalid";
        case mpack_error_unsupported: return "unsupported"; case mpack_error_type: return "type"; case mpack_error_too_big: return "too_big";
        case mpack_error_memory: return "memory"; case mpack_error_bug: return "bug"; case mpack_error_data: return "data"; case mpack_error_eof: return "eof";
    }
    return "?";
}
const char* typname(int t) {
    static const char* n[] = {"missing","nil","bool","int","uint","float","double","str","bin","array","map","ext"};
    return t >= 0 && t < 12 ? n[t] : "?";
}

//---------------------------------------------------------------- allocator
void alloc_reset() { g_alloc.peak_bytes = g_alloc.live_bytes; g_alloc.calls = 0; g_alloc.total_bytes = 0; g_alloc.max_single = 0; g_alloc.injected = 0; }
void alloc_fail(int64_t nth, bool persist) { g_alloc.fail_at = nth; g_alloc.fail_persist = persist; g_alloc.armed_calls = 0; g_alloc.injected = 0; }
void alloc_off() { g_alloc.fail_at = -1; }
static bool should_fail(size_t n) {
    AllocState& a = g_alloc;
    a.calls++;
    if (n > a.max_single) a.max_single = n;
    int64_t i = a.armed_calls++;
    if (a.fail_at >= 0 && (i == a.fail_at || (a.fail_persist && i > a.fail_at))) { a.injected++; return true; }
    if (a.live_bytes + n > a.cap) { return true; }
    return false;
}
static void* raw_alloc(size_t n) {
    void* p = malloc(n);
    if (!p) return 0;
    size_t u = malloc_usable_size(p);
    g_alloc.live++; g_alloc.live_bytes += u; g_alloc.total_bytes += n;
    if (g_alloc.live_bytes > g_alloc.peak_bytes) g_alloc.peak_bytes = g_alloc.live_bytes;
    return p;
}

void Guard::init(size_t n_, int fillb) {
    free(base);
    n = n_;
    if (n == 0) { base = (char*)malloc(1); base[0] = 0; p = base + 1; }
    else { base = (char*)malloc(n); p = base; if (fillb >= 0) memset(p, fillb, n); }
}

//---------------------------------------------------------------- cookie files
CFile::CFile() : pos(0), chunk_mode(0), seekable(true), ops(0), fail_op(-1), fail_persist(true), short_write(false), fail_close(false), failed(false),
    reads(0), writes(0), seeks(0), closes(0), opens(0), file(0), vbuf(-1), vmem(0), open_fails(false), eof_reads(0) {}
CFile::~CFile() { free(vmem); }
static bool op_fails(CFile* f) {
    int64_t i = f->ops++;
    bool x = f->fail_op >= 0 && (i == f->fail_op || (f->fail_persist && i > f->fail_op));
    if (x) f->failed = true;
    return x;
}
static ssize_t c_read(void* c, char* buf, size_t n) {
    CFile* f = (CFile*)c; f->reads++;
    if (op_fails(f)) { errno = EIO; return -1; }
    size_t left = f->pos < f->in.size() ? f->in.size() - f->pos : 0;
    if (n > left) n = left;
    if (f->chunk_mode > 0 && n > (size_t)f->chunk_mode) n = (size_t)f->chunk_mode;
    if (n) memcpy(buf, f->in.data() + f->pos, n); else f->eof_reads++;
    f->pos += n;
    return (ssize_t)n;
}
static ssize_t c_write(void* c, const char* buf, size_t n) {
    CFile* f = (CFile*)c; f->writes++;
    if (op_fails(f)) {
        if (f->short_write && n > 1) { f->out.insert(f->out.end(), buf, buf + n / 2); }
        errno = ENOSPC; return 0;
    }
    if (f->chunk_mode > 0 && n > (size_t)f->chunk_mode) n = (size_t)f->chunk_mode;
    f->out.insert(f->out.end(), buf, buf + n);
    return (ssize_t)n;
}
static int c_seek(void* c, off64_t* off, int whence) {
    CFile* f = (CFile*)c; f->seeks++;
    if (!f->seekable) { errno = ESPIPE; return -1; }
    if (op_fails(f)) { errno = EIO; return -1; }
    int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)f->pos : (int64_t)f->in.size();
    int64_t t = base + *off;
    if (t < 0) { errno = EINVAL; return -1; }
    f->pos = (size_t)t; *off = t;
    return 0;
}
static int c_close(void* c) {
    CFile* f = (CFile*)c; f->closes++; g_open_files--; f->file = 0;
    if (f->fail_close) { errno = EIO; f->failed = true; return -1; }
    return 0;
}
FILE* CFile::open(const char* mode) {
    if (open_fails) { errno = ENOENT; return 0; }
    cookie_io_functions_t io; memset(&io, 0, sizeof io);
    io.read = c_read; io.write = c_write; io.seek = c_seek; io.close = c_close;
    file = fopencookie(this, mode, io);
    if (!file) abort();
    opens++; g_open_files++;
    if (vbuf == 0) setvbuf(file, 0, _IONBF, 0);
    else if (vbuf > 0) { free(vmem); vmem = (char*)malloc((size_t)vbuf); setvbuf(file, vmem, _IOFBF, (size_t)vbuf); }
    return file;
}
__thread uint64_t g_copied = 0; // per thread: C25 runs several
void* (*g_vast_alloc)(size_t) = 0; bool (*g_vast_free)(void*) = 0;
static CFile* g_bound = 0;
void bind_name(CFile* f) { g_bound = f; }
CFile* bound_name() { return g_bound; }

} // namespace hx

extern "C" {
void* hx_malloc(size_t n) {
    if (hx::g_vast_alloc) { if (n == 0) return hx::raw_alloc(1); if (n >> 29) { hx::g_alloc.calls++; return hx::g_vast_alloc(n); } }
    if (n == 0) return 0; // a legal answer, and the harder one
    if (hx::should_fail(n)) return 0;
    return hx::raw_alloc(n);
}
void hx_free(void* p) {
    if (!p) return;
    if (hx::g_vast_free && hx::g_vast_free(p)) return;
    hx::g_alloc.live--; hx::g_alloc.live_bytes -= malloc_usable_size(p);
    free(p);
}
void* hx_realloc(void* p, size_t n) {
    if (hx::should_fail(n)) return 0;
    void* q = hx::raw_alloc(n);   // always moves, so stale pointers are caught
    if (!q) return 0;
    if (p) { size_t u = malloc_usable_size(p); memcpy(q, p, u < n ? u : n); hx::g_copied += u < n ? u : n; hx_free(p); }
    return q;
}
void* hx_memcpy(void* d, const void* s, size_t n) { hx::g_copied += n; return memcpy(d, s, n); }
void* hx_memmove(void* d, const void* s, size_t n) { hx::g_copied += n; return memmove(d, s, n); }
void* hx_memset(void* d, int c, size_t n) { hx::g_copied += n; return memset(d, c, n); }
int hx_memcmp(const void* a, const void* b, size_t n) { hx::g_copied += n; return memcmp(a, b, n); }
size_t hx_strlen(const char* s) { size_t n = strlen(s); hx::g_copied += n; return n; }
// a name "hx:" opens the bound cookie file, anything else is real
FILE* __real_fopen(const char*, const char*);
FILE* __wrap_fopen(const char* path, const char* mode) {
    if (!strncmp(path, "hx:", 3)) {
        if (!hx::g_bound) { errno = ENOENT; return 0; }
        return hx::g_bound->open(mode);
    }
    return __real_fopen(path, mode);
}
#if defined(MPACK_CUSTOM_BREAK) && MPACK_CUSTOM_BREAK
#ifndef mpack_break_hit_hx
void mpack_break_hit(const char* message) {
    hx::g_breaks++;
    if (!hx::g_break_ok) hx::fail("debug-break", "mpack_break: %s", message);
}
#endif
#endif
}
#if defined(MPACK_CUSTOM_ASSERT) && MPACK_CUSTOM_ASSERT
// the header declares this with the including language's linkage; the library may be built as C or C++
extern "C" void hx_assert_c(const char* message) __asm__("mpack_assert_fail");
extern "C" void hx_assert_c(const char* message) { hx::fail("debug-assert", "mpack assertion: %s", message); }
void mpack_assert_fail(const char* message) { hx::fail("debug-assert", "mpack assertion: %s", message); }
#endif

namespace hx {
static FILE* g_log = 0;
void log_record(uint32_t stage, uint32_t mask, uint64_t digest) {
    if (!g_stats_path) return;
    if (!g_log) { char b[4096]; snprintf(b, sizeof b, "%s.log", g_stats_path); g_log = __real_fopen(b, "wb"); if (!g_log) abort(); }
    uint64_t rec[3] = {g_case, (uint64_t)mask << 32 | stage, digest}; fwrite(rec, 1, sizeof rec, g_log);
}
}

namespace hx {
static void run_case(uint64_t c, Rng& r) {
    clear_notes();
    alloc_off(); alloc_reset(); g_alloc.cap = (uint64_t)400 << 20; g_break_ok = false; g_breaks = 0;
    int64_t live = g_alloc.live; int64_t files = g_open_files;
    prop_case(c, r);
    alloc_off();
    if (g_alloc.live != live) fail("leak", "%lld blocks allocated by the library are still live at the end of the case", (long long)(g_alloc.live - live));
    if (g_open_files != files) fail("file-leak", "%lld files opened by the library are still open at the end of the case", (long long)(g_open_files - files));
}
// one case whose decisions are the bytes of an input (the first one selects the kind of case)
static void run_input(const uint8_t* p, size_t n) {
    Rng r(hash_bytes(p, n)); if (n > 1) { r.d = p + 1; r.left = n - 1; }
    run_case(24000 + (n ? p[0] : 0), r);
}
}
#ifdef HX_FUZZ
extern "C" int LLVMFuzzerInitialize(int*, char***) {
    using namespace hx;
    g_counters = new std::vector<Counter>(); g_samples = new std::vector<char*>(); g_dset = (uint64_t*)calloc(DSET, 8);
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* p, size_t n) { hx::run_input(p, n); return 0; }
#else
int main(int argc, char** argv) {
    using namespace hx;
    uint64_t start = 0, stride = 1, n = 1000, budget = 60; bool single = false; std::vector<Bytes> corpus;
    g_counters = new std::vector<Counter>(); g_samples = new std::vector<char*>();
    g_dset = (uint64_t*)calloc(DSET, 8);
    for (int i = 1; i < argc; ++i) {
        const char* a = argv[i]; const char* v = i + 1 < argc ? argv[i + 1] : "0";
        if (!strcmp(a, "--seed")) g_seed = strtoull(v, 0, 0), ++i;
        else if (!strcmp(a, "--start")) start = strtoull(v, 0, 0), ++i;
        else if (!strcmp(a, "--stride")) stride = strtoull(v, 0, 0), ++i;
        else if (!strcmp(a, "--end")) n = strtoull(v, 0, 0), ++i;
        else if (!strcmp(a, "--case")) start = strtoull(v, 0, 0), single = true, ++i;
        else if (!strcmp(a, "--budget")) budget = strtoull(v, 0, 0), ++i;
        else if (!strcmp(a, "--stats")) g_stats_path = v, ++i;
        else if (!strcmp(a, "--progress")) g_progress_path = v, ++i;
        else if (!strcmp(a, "--corpus")) {
            FILE* f = fopen(v, "rb"); if (!f) return 2;
            uint32_t len; while (fread(&len, 1, 4, f) == 4) { Bytes b(len); if (len && fread(b.data(), 1, len, f) != len) return 2; corpus.push_back(b); }
            fclose(f); ++i;
        }
        else if (!strcmp(a, "--thorough")) g_thorough = true;
        else if (!strcmp(a, "-v")) g_verbose = true;
        else { fprintf(stderr, "bad argument %s\n", a); return 2; }
    }
    if (g_progress_path) {
        int fd = open(g_progress_path, O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, 8) != 0) return 2;
        void* m = mmap(0, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (m == MAP_FAILED) return 2;
        g_progress = (volatile uint64_t*)m; close(fd);
    }
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_prof; sigaction(SIGPROF, &sa, 0);
    if (single) { n = start + 1; stride = 1; g_verbose = true; }
    for (uint64_t c = start; c < n; c += stride) {
        g_case = c;
        if (g_progress) *g_progress = c + 1;
        struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (time_t)budget; setitimer(ITIMER_PROF, &it, 0);
        if (corpus.empty()) { Rng r(mix(g_seed, c)); run_case(c, r); }
        else if (c < corpus.size()) run_input(corpus[c].data(), corpus[c].size());
    }
    write_stats();
    if (g_verbose) { fprintf(stderr, "done: evals=%llu distinct=%llu\n%s", (unsigned long long)g_evals, (unsigned long long)g_dcount, single ? g_notes : ""); for (auto& c : *g_counters) fprintf(stderr, "  %s=%llu\n", c.name, (unsigned long long)c.n); }
    fflush(0); // also the recorded log
    _exit(0);
}
#endif
