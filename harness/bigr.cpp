// C06/C12 extra: readers over messages of several gigabytes, from memory, sources and files
#include "big.hpp"
#include <unistd.h>
#include <fcntl.h>
using namespace hx;
const char* prop_rule() { return "case = message of up to 10 GB in sparse memory or a sparse file (blobs of up to 2^32-1 bytes between small values) read from memory, from a fill or skip source or from a file; every small value, position and in-place pointer checked; non-trivial = a blob beyond 2^31 or an offset beyond 2^32 was passed; distinct by (sizes, way)"; }
struct Src { Vast* m; size_t pos, end; };
static size_t fill(mpack_reader_t* rd, char* p, size_t n) { Src* s = (Src*)mpack_reader_context(rd); size_t k = s->end - s->pos; if (k > n) k = n; // the gaps are zeros; only written bytes matter
    for (auto& d : s->m->dirty) { size_t a = d.first > s->pos ? d.first : s->pos, b = d.first + d.second < s->pos + k ? d.first + d.second : s->pos + k; if (a < b) memcpy(p + (a - s->pos), s->m->p + a, b - a); } s->pos += k; return k; }
static void skip(mpack_reader_t* rd, size_t n) { Src* s = (Src*)mpack_reader_context(rd); if (n > s->end - s->pos) { mpack_reader_flag_error(rd, mpack_error_io); return; } s->pos += n; }
void prop_case(uint64_t idx, Rng& r) {
    if (sizeof(size_t) < 8) { count("left_out"); return; }
    size_t cap = (size_t)(2 + r.below(9)) << 30; Vast m(cap); std::vector<Part> parts; vast_message(m, parts, r, 1 + (unsigned)r.below(5), cap); size_t end = m.len; bool cut = r.chance(1, 5); if (cut) end -= 1 + (size_t)r.below(9);
    unsigned mode = (unsigned)(idx % 4); Src src = {&m, 0, end}; size_t bs = mode == 1 ? (size_t)1 << 26 : 64 + (size_t)r.below(100000); Vast buf(bs); mpack_reader_t rd; char name[] = "./bigXXXXXX"; bool unlinked = true;
    note("mode %u%s", mode, cut ? " truncated" : "");
    if (mode == 0) mpack_reader_init_data(&rd, m.p, end); else if (mode < 3) { mpack_reader_init(&rd, buf.p, bs, 0); mpack_reader_set_context(&rd, &src); mpack_reader_set_fill(&rd, fill); if (mode == 2) mpack_reader_set_skip(&rd, skip); }
    else { int fd = mkstemp(name); if (fd < 0) abort(); unlinked = false; for (auto& d : m.dirty) if (pwrite(fd, m.p + d.first, d.second, (off_t)d.first) != (ssize_t)d.second) abort(); if (ftruncate(fd, (off_t)end)) abort(); close(fd); mpack_reader_init_filename(&rd, name); }
    size_t at = 0; uint64_t big = 0;
    bool whole = r.chance(1, 4); note("whole %d", whole);
    if (whole) { mpack_discard(&rd); }
    else {
        mpack_tag_t t = mpack_read_tag(&rd); HX_CHECK(t.type == mpack_type_array && t.v.n == parts.size(), "big-array", "array header"); at = 3;
        for (size_t i = 0; i < parts.size() && mpack_reader_error(&rd) == mpack_ok; ++i) { const Part& q = parts[i]; bool gone = q.off + (q.kind == 0 ? 9 : q.len) > end;
            if (q.kind == 0) { uint64_t v = mpack_expect_u64(&rd); if (mpack_reader_error(&rd) == mpack_ok) HX_CHECK(v == q.v, "big-value", "value %zu: %llx instead of %llx", i, (unsigned long long)v, (unsigned long long)q.v); }
            else if (q.kind == 4) { char s[8]; uint8_t w[8]; for (int k = 0; k < 8; ++k) w[k] = (uint8_t)(q.v >> (56 - 8 * k)); size_t l = mpack_expect_str_buf(&rd, s, r.chance(1, 2) ? 8 : ((size_t)1 << 32) + 3); if (mpack_reader_error(&rd) == mpack_ok) HX_CHECK(l == 8 && !memcmp(s, w, 8), "big-value", "string %zu", i); }
            else {
                unsigned how = (unsigned)r.below(4);
                if (how == 0) mpack_discard(&rd);
                else { mpack_tag_t b = mpack_read_tag(&rd); if (mpack_reader_error(&rd) != mpack_ok) break; HX_CHECK(b.type == (q.kind == 1 ? mpack_type_str : q.kind == 2 ? mpack_type_bin : mpack_type_ext) && (q.kind == 3 ? mpack_tag_bytes(&b) : b.v.l) == q.len, "big-tag", "blob %zu of %u", i, q.len);
                    if (how == 1 || mode != 0) mpack_skip_bytes(&rd, q.len);
                    else if (how == 2) { const char* p = mpack_read_bytes_inplace(&rd, q.len); if (mpack_reader_error(&rd) == mpack_ok) { HX_CHECK(p == m.p + q.off, "big-inplace", "in-place pointer of blob %zu is off by %lld", i, (long long)(p - (m.p + q.off))); count("inplace_pointers"); } }
                    else { uint32_t left = q.len; while (left && mpack_reader_error(&rd) == mpack_ok) { uint32_t k = left > 3 ? 1 + (uint32_t)r.below(left - 1) : left; mpack_skip_bytes(&rd, k); left -= k; } }
                    if (q.kind == 1) mpack_done_str(&rd); else if (q.kind == 2) mpack_done_bin(&rd);
#if MPACK_EXTENSIONS
                    else mpack_done_ext(&rd);
#endif
                }
                if (q.len > 0x7fffffffu) ++big; if (q.off + q.len > 0xffffffffu) ++big;
            }
            if (gone) HX_CHECK(mpack_reader_error(&rd) != mpack_ok, "big-truncated", "part %zu reaches beyond the end and was accepted", i);
            if (mpack_reader_error(&rd) == mpack_ok) { at = (size_t)q.off + (q.kind == 0 ? 9 : q.len); if (mode == 0 && !MPACK_READ_TRACKING) { const char* p; size_t left = mpack_reader_remaining(&rd, &p); HX_CHECK(left == end - at && p == m.p + at, "big-remaining", "%zu bytes remain instead of %zu", left, end - at); } }
        }
        mpack_done_array(&rd);
    }
    HX_CHECK((mpack_reader_error(&rd) != mpack_ok) == cut, "big-outcome", "error %s of a message that was %s", mpack_error_to_string(mpack_reader_error(&rd)), cut ? "truncated" : "complete");
    if (!cut && mode == 0) { size_t left = mpack_reader_remaining(&rd, NULL); HX_CHECK(left == 0, "big-remaining", "%zu bytes remain", left); }
    if (!cut && (mode == 1 || mode == 2)) HX_CHECK(src.pos == end, "big-position", "source at %zu of %zu", src.pos, end);
    mpack_reader_destroy(&rd); if (!unlinked) unlink(name); count("big_messages"); if (big) count("beyond_32_bits", big); if (m.len > ((uint64_t)1 << 32)) count("messages_over_4gb"); eval(); if (big) distinct(mix(m.len, mode * 8 + cut * 4 + whole)); if (want_sample()) sample("%zu bytes mode %u", m.len, mode);
}
