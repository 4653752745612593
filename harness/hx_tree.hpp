// Tree sources and the monitored comparison of a parsed tree with the reference.
#pragma once
#include "hx_src.hpp"

namespace hx {
enum TMode { T_DATA, T_POOL, T_STREAM, T_STDFILE, T_FILENAME, T_NMODES };
// Without an allocator there are only pools: T_DATA is then a pool with a node per input byte, and no more than
// TREE_MAX_NESTED non-empty containers may be nested.
#ifdef MPACK_MALLOC
enum { T_USABLE = MPACK_STDIO ? T_NMODES : 3, TREE_MAX_NESTED = 0x7fffffff };
#else
enum { T_USABLE = 2, TREE_MAX_NESTED = MPACK_NODE_MAX_DEPTH_WITHOUT_MALLOC - 1 };
#endif
const char* treename(int m);

struct Tree {
    mpack_tree_t t; TMode mode; Log log; Guard in; std::vector<mpack_node_data_t>* pool; Guard poolmem;
    size_t pos; Rng crng; int chunk; bool blocking; unsigned stalls; uint64_t reads, zero_reads; size_t max_req; bool asked_zero;
    CFile file; FILE* fp; bool close_when_done;
    int64_t fail_read; int fail_kind; bool failed; bool live;
    size_t limit_data;         // bytes that may be delivered so far (stream)
    int user_teardowns; bool destroyed;
    Tree() : mode(T_DATA), pool(0), pos(0), crng(1), chunk(0), blocking(true), stalls(0), reads(0), zero_reads(0), max_req(0), asked_zero(false), fp(0), close_when_done(true),
        fail_read(-1), fail_kind(0), failed(false), live(false), limit_data((size_t)-1), user_teardowns(0), destroyed(false) { memset(&t, 0, sizeof t); }
    ~Tree();
    // max_size/max_nodes 0: unlimited; pool_n only for T_POOL
    void open(const Bytes& b, TMode m, int chunking, uint64_t seed, size_t max_size = 0, size_t max_nodes = 0, size_t pool_n = 0);
    // parses one message: blocking, or incrementally until done / error / no more data
    bool parse(bool use_try, unsigned* tries = 0);
    mpack_error_t error() { return mpack_tree_error(&t); }
    mpack_error_t close();
    const uint8_t* bytes() const { return (const uint8_t*)in.p; }
};
struct TreeStats { uint64_t nodes, bytes, children; };
// every node of the tree against the reference events of the message (offsets relative to in)
void tree_match(mpack_node_t root, const Dec& d, const uint8_t* in, bool same_memory, Rng& r, TreeStats& st, const char* pfx);
size_t ev_nodes(const Dec& d);      // number of nodes of a complete message
mpack_type_t ev_type(const Ev& e);
} // namespace hx
