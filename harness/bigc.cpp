// C14/C16/C19 extra: single strings, binaries and extensions of 2 to 4 GB copied out of trees and readers
#include "big.hpp"
#include <map>
using namespace hx;
const char* prop_rule() { return "case = one str, bin or ext of 2^31-1..2^32-1 bytes (most of it one shared block of memory) copied, checked and allocated through one accessor of the node or the expect interface, with maxima around its length and faults (NUL, invalid UTF-8, missing end) in its last bytes; non-trivial = a conversion completed; distinct by accessor, length and maximum"; }
static std::map<void*, Alias*>& blocks() { static std::map<void*, Alias*> m; return m; }
static void* vast_alloc(size_t n) { if (n > ((size_t)5 << 30)) return 0; Alias* a = new Alias(n); blocks()[a->p] = a; return a->p; }
static bool vast_free(void* p) { auto it = blocks().find(p); if (it == blocks().end()) return false; delete it->second; blocks().erase(it); return true; }
static bool same(const char* d, const char* s, size_t len) { size_t k = 1 << 20; return !memcmp(d, s, 4000) && !memcmp(d + len - k, s + len - k, k); }
void prop_case(uint64_t idx, Rng& r) {
    if (sizeof(size_t) < 8) { count("left_out"); return; }
    static const uint32_t L[] = {0xffffffffu, 0xffffffffu, 0xfffffffeu, 0x80000000u, 0x7fffffffu, 0x80000001u}; uint32_t len = r.pick(L);
    enum { CSTR_A, UTF8_A, DATA_A, CSTR_C, UTF8_C, DATA_C, R_CSTR_A, R_UTF8_A, R_BIN_A, R_EXT_A, R_CSTR, R_UTF8, R_BUF, R_BIN_B, R_BYTES_A, R_SKIP, OPS };
    unsigned op = (unsigned)(idx % OPS); bool node = op < R_CSTR_A, text = op == CSTR_A || op == UTF8_A || op == CSTR_C || op == UTF8_C || op == R_CSTR_A || op == R_UTF8_A || op == R_CSTR || op == R_UTF8, utf8 = op == UTF8_A || op == UTF8_C || op == R_UTF8_A || op == R_UTF8;
    int kind = text || op == R_BUF ? 0 : op == R_BIN_A || op == R_BIN_B ? 1 : op == R_EXT_A ? 2 : (int)r.below(MPACK_EXTENSIONS ? 3 : 2); if (kind == 2 && !MPACK_EXTENSIONS) kind = 1;
    Bytes h; if (node) { h.push_back(0x92); } h.push_back(kind == 0 ? 0xdb : kind == 1 ? 0xc6 : 0xc9); put_be(h, len, 4); if (kind == 2) h.push_back(7);
    size_t total = h.size() + len + 1; Alias src(total); src.fill('a'); memcpy(src.p, h.data(), h.size()); char* body = src.p + h.size(); for (int i = 0; i < 5000; ++i) body[len - 1 - i] = (char)('b' + i % 23); src.p[total - 1] = 5;
    int fault = r.chance(1, 3) ? 1 + (int)r.below(2) : 0; uint32_t at = len - 1 - (uint32_t)r.below(3); if (fault == 1) body[at] = 0; else if (fault == 2) body[at] = (char)0xff;
    bool bad = text && (fault == 1 || (fault == 2 && utf8)); size_t term = text ? 1 : 0;
    // the maximum counts the terminator of a C string
    static const int64_t M[] = {0, 0, 0, 1, -1, -2, 100, ((int64_t)1 << 32), -((int64_t)1 << 31)}; unsigned mk = (unsigned)r.below(10); size_t need = (size_t)len + term, max = mk == 9 ? (size_t)-1 : need + (size_t)M[mk]; if (max < 1) max = 1;
    bool fits = max >= need; note("op %u kind %d of %u bytes, maximum %zu, fault %d", op, kind, len, max, fault);
    int64_t live0 = alloc_live(); g_vast_alloc = vast_alloc; g_vast_free = vast_free; char* got = 0; Alias* dst = 0; mpack_error_t e; bool after = true;
    size_t room = max > ((size_t)5 << 30) ? need + 50 : max; if (op == CSTR_C || op == UTF8_C || op == DATA_C || op == R_CSTR || op == R_UTF8 || op == R_BUF || op == R_BIN_B) { max = room; dst = new Alias(room); }
    if (node) {
        mpack_tree_t t; mpack_tree_init_data(&t, src.p, total); mpack_tree_parse(&t); HX_CHECK(mpack_tree_error(&t) == mpack_ok && mpack_tree_size(&t) == total, "big-outcome", "parse: %s", errname(mpack_tree_error(&t))); mpack_node_t n = mpack_node_array_at(mpack_tree_root(&t), 0);
        HX_CHECK(mpack_node_data_len(n) == len, "big-length", "length %u", mpack_node_data_len(n));
        switch (op) {
            case CSTR_A: got = mpack_node_cstr_alloc(n, max); break;
            case UTF8_A: got = mpack_node_utf8_cstr_alloc(n, max); break;
            case DATA_A: got = mpack_node_data_alloc(n, max); break;
            case CSTR_C: mpack_node_copy_cstr(n, dst->p, max); break;
            case UTF8_C: mpack_node_copy_utf8_cstr(n, dst->p, max); break;
            case DATA_C: { size_t k = mpack_node_copy_data(n, dst->p, max); HX_CHECK(k == (fits ? len : 0), "big-length", "copied %zu", k); break; }
        }
        after = mpack_tree_error(&t) != mpack_ok || mpack_node_u8(mpack_node_array_at(mpack_tree_root(&t), 1)) == 5; e = mpack_tree_destroy(&t);
    } else {
        mpack_reader_t rd; bool cut = r.chance(1, 6); if (cut) bad = true; note("cut %d", cut); mpack_reader_init_data(&rd, src.p, cut ? total - 1 - (1 + (size_t)r.below(3)) : total); size_t k = 0; int8_t et = 0; uint32_t l = 0;
        switch (op) {
            case R_CSTR_A: got = mpack_expect_cstr_alloc(&rd, max); break;
            case R_UTF8_A: got = mpack_expect_utf8_cstr_alloc(&rd, max); break;
            case R_BIN_A: got = mpack_expect_bin_alloc(&rd, max, &k); HX_CHECK(!got || k == len, "big-length", "%zu", k); break;
#if MPACK_EXTENSIONS
            case R_EXT_A: got = mpack_expect_ext_alloc(&rd, &et, max, &k); HX_CHECK(!got || (k == len && et == 7), "big-length", "%zu type %d", k, et); break;
#else
            case R_EXT_A: got = mpack_expect_bin_alloc(&rd, max, &k); HX_CHECK(!got || k == len, "big-length", "%zu", k); break;
#endif
            case R_CSTR: mpack_expect_cstr(&rd, dst->p, max); break;
            case R_UTF8: mpack_expect_utf8_cstr(&rd, dst->p, max); break;
            case R_BUF: k = mpack_expect_str_buf(&rd, dst->p, max); HX_CHECK(k == (fits && !bad ? len : 0), "big-length", "%zu", k); break;
            case R_BIN_B: k = mpack_expect_bin_buf(&rd, dst->p, max); HX_CHECK(k == (fits && !bad ? len : 0), "big-length", "%zu", k); break;
            default:
                if (kind == 0) l = mpack_expect_str(&rd); else if (kind == 1) l = mpack_expect_bin(&rd);
#if MPACK_EXTENSIONS
                else l = mpack_expect_ext(&rd, &et);
#endif
                HX_CHECK(l == len, "big-length", "%u", l); fits = true; if (op == R_BYTES_A) got = mpack_read_bytes_alloc(&rd, l); else { mpack_skip_bytes(&rd, l); }
                if (mpack_reader_error(&rd) == mpack_ok) { if (kind == 0) mpack_done_str(&rd); else if (kind == 1) mpack_done_bin(&rd);
#if MPACK_EXTENSIONS
                    else mpack_done_ext(&rd);
#endif
                }
        }
        after = mpack_reader_error(&rd) != mpack_ok || mpack_expect_u8(&rd) == 5; e = mpack_reader_destroy(&rd);
    }
    bool alloc = op == CSTR_A || op == UTF8_A || op == DATA_A || (op >= R_CSTR_A && op <= R_EXT_A) || op == R_BYTES_A, good = fits && !bad;
    // the expect interface takes maxima of up to 2^32-1, so the longest string does not fit with its terminator
    bool either = (op == R_CSTR_A || op == R_UTF8_A) && len == 0xffffffffu && good;
    HX_CHECK(after, "big-value", "the element behind reads wrong");
    if (either && e == mpack_error_too_big) { HX_CHECK(!got, "big-outcome", "a block and too_big"); }
    else if (good) {
        HX_CHECK(e == mpack_ok, "big-outcome", "refused: %s", errname(e)); const char* d = alloc ? got : dst ? dst->p : 0; if (op != R_SKIP) { HX_CHECK(d && same(d, body, len), "big-copy", "the copy differs"); if (term) HX_CHECK(d[len] == 0, "big-terminator", "no terminator"); } count("conversions");
    } else {
        HX_CHECK(e != mpack_ok, "big-outcome", "accepted (fits %d, bad %d)", fits, bad); HX_CHECK(!got, "big-outcome", "returned a block with %s", errname(e)); if (!bad) HX_CHECK(e == (op == R_BIN_A || op == R_EXT_A ? mpack_error_type : mpack_error_too_big), "big-outcome", "does not fit: %s", errname(e)); if (dst && text) HX_CHECK(dst->p[0] == 0, "big-terminator", "not emptied"); count("refusals");
    }
    if (got) MPACK_FREE(got); delete dst; HX_CHECK(blocks().empty() && alloc_live() == live0, "leak", "%zu vast blocks and %lld others left", blocks().size(), (long long)(alloc_live() - live0)); g_vast_alloc = 0; g_vast_free = 0;
    eval(); distinct(mix(mix(op, len), max)); if (want_sample()) sample("accessor %u, %u bytes, maximum %zu", op, len, max);
}
