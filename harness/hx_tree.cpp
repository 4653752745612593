#include "hx_tree.hpp"
namespace hx {
const char* treename(int m) { static const char* n[] = {"data","pool","stream","stdfile","filename"}; return n[m]; }
static void t_err(mpack_tree_t* t, mpack_error_t e) {
    Tree* s = (Tree*)((char*)t - offsetof(Tree, t));
    if (s->log.errors++ == 0) s->log.first = e;
    s->log.last = e;
    if (g_err_hook) g_err_hook(s, 1);
}
static size_t t_read(mpack_tree_t* t, char* buf, size_t n) {
    Tree* s = (Tree*)mpack_tree_context(t);
    uint64_t i = s->reads++;
    if (n == 0) { s->asked_zero = true; return 0; }
    if (n > s->max_req) s->max_req = n;
    memset(buf, 0xEE, n < 4096 ? n : 4096); if (n > 4096) memset(buf + n - 16, 0xEE, 16);
    if (s->fail_read >= 0 && (int64_t)i >= s->fail_read) {
        s->failed = true;
        if (s->fail_kind == 0) return (size_t)-1;
        if (s->fail_kind == 1) { mpack_tree_flag_error(t, mpack_error_io); return 0; }
        mpack_tree_flag_error(t, mpack_error_data); return n > 3 ? 3 : n;
    }
    if (!s->blocking && s->stalls && s->crng.chance(1, 2)) { s->stalls--; s->zero_reads++; return 0; }
    size_t left = (s->in.n < s->limit_data ? s->in.n : s->limit_data) - s->pos;
    size_t k = n < left ? n : left;
    if (s->chunk > 0 && k > (size_t)s->chunk) k = (size_t)s->chunk;
    else if (s->chunk < 0 && k > 1) k = s->crng.chance(1, 2) ? 1 + s->crng.below(k < 4 ? k : 4) : 1 + s->crng.below(k);
    if (k) memcpy(buf, s->in.p + s->pos, k); else s->zero_reads++;
    s->pos += k;
    return k;
}
Tree::~Tree() { delete pool; }
void Tree::open(const Bytes& b, TMode m, int chunking, uint64_t seed, size_t max_size, size_t max_nodes, size_t pool_n) {
    mode = m; log.reset(); pos = 0; crng = Rng(seed); chunk = chunking; live = true;
    in.init(b.size(), -1); if (b.size()) memcpy(in.p, b.data(), b.size());
    switch (m) {
#ifdef MPACK_MALLOC
        case T_DATA: mpack_tree_init_data(&t, in.p, in.n); break;
#else
        case T_DATA: { size_t k = b.size() ? b.size() : 1; poolmem.init(k * sizeof(mpack_node_data_t), 0x5A); mpack_tree_init_pool(&t, in.p, in.n, (mpack_node_data_t*)(void*)poolmem.p, k); break; }
#endif
        case T_POOL: poolmem.init(pool_n * sizeof(mpack_node_data_t), 0x5A); mpack_tree_init_pool(&t, in.p, in.n, (mpack_node_data_t*)(void*)poolmem.p, pool_n); break;
#ifdef MPACK_MALLOC
        case T_STREAM: mpack_tree_init_stream(&t, t_read, this, max_size ? max_size : (size_t)100 << 20, max_nodes ? max_nodes : (size_t)100 << 20); break;
#endif
        case T_STDFILE: case T_FILENAME:
#if MPACK_STDIO
            file.in = b; file.chunk_mode = chunking > 0 ? chunking : 0;
            if (m == T_STDFILE) { close_when_done = crng.chance(1, 2); fp = file.open("rb"); mpack_tree_init_stdfile(&t, fp, 0, close_when_done); }
            else { bind_name(&file); mpack_tree_init_filename(&t, "hx:in", 0); bind_name(0); }
#endif
            break;
        default: break;
    }
    if (m != T_STREAM && (max_size || max_nodes)) mpack_tree_set_limits(&t, max_size ? max_size : SIZE_MAX, max_nodes ? max_nodes : SIZE_MAX);
    mpack_tree_set_error_handler(&t, t_err);
}
bool Tree::parse(bool use_try, unsigned* tries) {
    blocking = !use_try;
    if (!use_try) { mpack_tree_parse(&t); return error() == mpack_ok; }
    unsigned k = 0;
    for (;;) {
        ++k; if (tries) *tries = k;
        size_t before = pos; uint64_t st = stalls;
        bool done = mpack_tree_try_parse(&t);
        if (done) { HX_CHECK(error() == mpack_ok, "try-parse", "try_parse returned true with error %s", errname(error())); return true; }
        if (error() != mpack_ok) return false;
        if (mode != T_STREAM) return false;
        if (pos == before && st == stalls && pos >= (in.n < limit_data ? in.n : limit_data)) return false; // no more data
        if (k > 1000000) fail("try-parse-stuck", "try_parse makes no progress");
    }
}
mpack_error_t Tree::close() {
    mpack_error_t before = mpack_tree_error(&t);
    mpack_error_t e = destroyed ? before : mpack_tree_destroy(&t); live = false;
    HX_CHECK(e == before, "destroy-error", "tree destroy returned %s after %s", errname(e), errname(before));
    if (mode == T_STDFILE) {
        HX_CHECK(file.closes == (close_when_done ? 1 : 0), "file-close", "stdfile closed %lld times (close_when_done=%d)", (long long)file.closes, close_when_done);
        if (!close_when_done) fclose(fp);
    } else if (mode == T_FILENAME) HX_CHECK(file.closes == file.opens, "file-close", "file closed %lld times", (long long)file.closes);
    return e;
}
size_t ev_nodes(const Dec& d) { return d.ev.size(); }
mpack_type_t ev_type(const Ev& e) { mpack_tag_t t = ev_tag(e); return mpack_tag_type(&t); }

void tree_match(mpack_node_t root, const Dec& d, const uint8_t* in, bool same, Rng& r, TreeStats& st, const char* pfx) {
    struct Fr { mpack_node_t n; size_t ev; size_t child; size_t next; };
    std::vector<Fr> stack; char k[64], b1[64], b2[64];
    mpack_node_t cur = root; size_t ei = 0; bool have = true;
    mpack_tree_t* tree = root.tree;
    for (;;) {
        if (have) {
            have = false;
            const Ev& e = d.ev[ei]; st.nodes++;
            mpack_tag_t want = ev_tag(e), got = mpack_node_tag(cur);
            if (!same_tag(want, got) || mpack_node_type(cur) != mpack_tag_type(&want)) {
                tag_str(got, b1, sizeof b1); tag_str(want, b2, sizeof b2); snprintf(k, sizeof k, "%s-node", pfx);
                fail(k, "node %zu at offset %zu is %s (type %s), expected %s", ei, e.off, b1, typname(mpack_node_type(cur)), b2);
            }
            snprintf(k, sizeof k, "%s-value", pfx);
            HX_CHECK(mpack_node_is_nil(cur) == (e.k == K_NIL) && !mpack_node_is_missing(cur), k, "is_nil of node %zu", ei);
            switch (e.k) {
                case K_NIL: mpack_node_nil(cur); break;
                case K_BOOL: HX_CHECK(mpack_node_bool(cur) == (e.u != 0), k, "bool node %zu", ei); e.u ? mpack_node_true(cur) : mpack_node_false(cur); break;
                case K_UINT: HX_CHECK(mpack_node_u64(cur) == e.u, k, "u64 of node %zu", ei); if ((int64_t)e.u >= 0) HX_CHECK(mpack_node_i64(cur) == (int64_t)e.u, k, "i64 of node %zu", ei); break;
                case K_INT: HX_CHECK(mpack_node_i64(cur) == (int64_t)e.u, k, "i64 of node %zu", ei); break;
                case K_STR: case K_BIN: case K_EXT: {
                    HX_CHECK(mpack_node_data_len(cur) == e.n, k, "data_len of node %zu", ei);
                    const char* p = mpack_node_data(cur);
                    HX_CHECK(p != NULL && (e.n == 0 || !memcmp(p, in + e.pay(), e.n)), k, "bytes of node %zu differ", ei);
                    if (same) HX_CHECK((const uint8_t*)p == in + e.pay(), k, "data pointer of node %zu is not a view of the parsed data at %zu", ei, e.pay());
                    if (e.k == K_STR) HX_CHECK(mpack_node_strlen(cur) == e.n && mpack_node_str(cur) == p, k, "str of node %zu", ei);
                    if (e.k == K_BIN) HX_CHECK(mpack_node_bin_size(cur) == e.n && mpack_node_bin_data(cur) == p, k, "bin of node %zu", ei);
#if MPACK_EXTENSIONS
                    if (e.k == K_EXT) HX_CHECK(mpack_node_exttype(cur) == e.et, k, "exttype of node %zu", ei);
#endif
                    st.bytes += e.n; break; }
                case K_ARR: HX_CHECK(mpack_node_array_length(cur) == e.n, k, "array length of node %zu", ei); break;
                case K_MAP: HX_CHECK(mpack_node_map_count(cur) == e.n, k, "map count of node %zu", ei); break;
                default: break;
            }
            HX_CHECK(mpack_tree_error(tree) == mpack_ok, k, "querying node %zu (%s) flagged %s", ei, kname(e.k), errname(mpack_tree_error(tree)));
            if (e.k == K_ARR || e.k == K_MAP) stack.push_back({cur, ei, 0, ei + 1});
        }
        if (stack.empty()) break;
        Fr& f = stack.back(); const Ev& c = d.ev[f.ev]; size_t total = c.k == K_MAP ? (size_t)c.n * 2 : c.n;
        if (f.child == total) { stack.pop_back(); continue; }
        mpack_node_t child = c.k == K_ARR ? mpack_node_array_at(f.n, f.child) : f.child % 2 ? mpack_node_map_value_at(f.n, f.child / 2) : mpack_node_map_key_at(f.n, f.child / 2);
        st.children++;
        cur = child; ei = f.next; have = true;
        f.child++; f.next = d.ev[f.next].next;
    }
    (void)r;
}
} // namespace hx
