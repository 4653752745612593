// Writer sinks and a generator of write programs: every value can be emitted
// through any of the writer entry points that accept it.
#pragma once
#include "hx_ref.hpp"

namespace hx {

enum SinkMode { W_FIXED, W_GROW, W_FLUSH, W_STDFILE, W_FILENAME, W_NMODES };
const char* sinkname(int m);

struct Sink {
    mpack_writer_t w;
    SinkMode mode; Log log;
    Guard buf; char* gdata; size_t gsize;
    Bytes out;              // what the sink received (valid after close for all modes)
    CFile file; FILE* fp; bool close_when_done;
    uint64_t flushes, flushed_zero; size_t used;
    int64_t fail_flush; mpack_error_t fail_err; bool failed; bool after_error_flush;
    uint64_t teardowns; int fclose_ret; bool destroyed, builds_open;
    Sink() : mode(W_FIXED), gdata(0), gsize(0), fp(0), close_when_done(true), flushes(0), flushed_zero(0), used(0), fail_flush(-1), fail_err(mpack_error_io), failed(false), after_error_flush(false), teardowns(0), fclose_ret(0), destroyed(false), builds_open(false) { memset(&w, 0, sizeof w); }
    void open(SinkMode m, size_t bufsz, uint64_t seed);
    mpack_error_t close(bool fclose_own = true);
    bool ok() { return mpack_writer_error(&w) == mpack_ok; }
};

struct EmitOpt {
    bool v4; bool plain;         // plain: the simplest entry point only
    int build;                   // probability (of 100) that a container is built incrementally
    bool objbytes, pieces, kv;
    EmitOpt() : v4(false), plain(false), build(0), objbytes(true), pieces(true), kv(true) {}
};
struct EmitStats { uint64_t elements, builds, maxbuild, objs, pieces, apis, cgen, ckv; };
extern __thread EmitStats g_emit;
// hook run between elements (e.g. to query or to inject a mis-step); may be null
typedef void (*emit_hook_t)(mpack_writer_t*, void*);
void emit(mpack_writer_t* w, const V& v, Rng& r, const EmitOpt& o, unsigned bdepth = 0);
void emit_uint(mpack_writer_t* w, uint64_t u, int api);   // api 0..; negative if not applicable
int uint_apis(); bool uint_api_ok(uint64_t u, int api); const char* uint_api_name(int api);
void emit_int(mpack_writer_t* w, int64_t v, int api);     // negative values
int int_apis(); bool int_api_ok(int64_t v, int api); const char* int_api_name(int api);
bool snan32(uint32_t u); bool snan64(uint64_t u);

} // namespace hx
