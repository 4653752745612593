// Reader sources (memory, fill callbacks with arbitrary chunking, skip callbacks,
// custom FILE streams) and the monitored element walk against the reference.
#pragma once
#include "hx_ref.hpp"

namespace hx {

enum SrcMode { S_DATA, S_FILL, S_FILLSKIP, S_STDFILE, S_FILENAME, S_PREFILL, S_NMODES };

// One open reader over a byte string through some source.
struct Src {
    mpack_reader_t r;
    SrcMode mode;
    Log log;
    Guard in;            // private exact copy of the input
    Guard buf;           // the reader's buffer (fill modes)
    size_t pos;          // delivered to the reader so far
    Rng crng;            // chunking decisions
    int chunk;           // 0: as asked, k: at most k, -1: random
    CFile file; FILE* fp; bool close_when_done;
    uint64_t fills, skips, skipped_bytes, max_req;
    // fault injection
    int64_t fail_fill; int fail_kind; bool failed; int64_t fail_skip;   // fail the nth fill: 0 return 0, 1 return -1, 2 flag error
    bool over_requested; // asked for more than the buffer has room for
    size_t bufsize;
    bool opened; bool destroyed; // destroyed: from inside its error callback
    Src() : mode(S_DATA), pos(0), crng(1), chunk(0), fp(0), close_when_done(true), fills(0), skips(0), skipped_bytes(0), max_req(0),
        fail_fill(-1), fail_kind(0), failed(false), fail_skip(-1), over_requested(false), bufsize(0), opened(false), destroyed(false) { memset(&r, 0, sizeof r); }
    ~Src();
    void open(const Bytes& b, SrcMode m, size_t bufsz, int chunking, uint64_t seed);
    bool streaming() const { return mode != S_DATA; }
    mpack_error_t close();   // destroy + ledger checks
    const uint8_t* bytes() const { return (const uint8_t*)in.p; }
};
const char* srcname(int m);

mpack_tag_t ev_tag(const Ev& e);   // the tag the reader must return
bool same_tag(const mpack_tag_t& a, const mpack_tag_t& b); // exact incl. type, by accessors
void tag_str(mpack_tag_t t, char* b, size_t n);

struct WalkOpt {
    bool peek, discard, methods; // vary
    bool inplace_ok;
    bool check_remaining;
    WalkOpt() : peek(true), discard(true), methods(true), inplace_ok(true), check_remaining(true) {}
};
struct WalkRes { size_t elements; size_t bytes; size_t peeks, discards, skips, inplace, alloc; bool error; };
// Walks one message that the reference decoded as `d`, checking everything.
// Returns true if it ended without error (then d.err == D_OK).
bool walk(Src& s, const Dec& d, Rng& r, const WalkOpt& o, WalkRes& w, const char* pfx);
size_t pick_bufsize(Rng& r);
bool expected_truncation_error(mpack_error_t e, bool streaming);

} // namespace hx
