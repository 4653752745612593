#include "hx_src.hpp"

namespace hx {

const char* srcname(int m) { static const char* n[] = {"data","fill","fill+skip","stdfile","filename","prefilled"}; return n[m]; }

static void r_err(mpack_reader_t* r, mpack_error_t e) {
    Src* s = (Src*)((char*)r - offsetof(Src, r));
    if (s->log.errors++ == 0) s->log.first = e;
    s->log.last = e;
    if (g_err_hook) g_err_hook(s, 0);
}
static size_t src_fill(mpack_reader_t* r, char* buf, size_t n) {
    Src* s = (Src*)mpack_reader_context(r);
    uint64_t i = s->fills++;
    if (n > s->max_req) s->max_req = n;
    if (n == 0) fail("fill-zero", "fill callback asked for zero bytes");
    // the whole range handed to a fill function must be writable
    memset(buf, 0xEE, n < 8192 ? n : 8192);
    if (n > 8192) memset(buf + n - 64, 0xEE, 64);
    if (s->fail_fill >= 0 && (int64_t)i >= s->fail_fill) {
        s->failed = true;
        if (s->fail_kind == 0) return 0;
        if (s->fail_kind == 1) return (size_t)-1;
        mpack_reader_flag_error(r, mpack_error_io);
        return 0;
    }
    size_t left = s->in.n - s->pos;
    size_t k = n < left ? n : left;
    if (s->chunk > 0 && k > (size_t)s->chunk) k = (size_t)s->chunk;
    else if (s->chunk < 0 && k > 1) k = s->crng.chance(1, 2) ? 1 + s->crng.below(k < 4 ? k : 4) : 1 + s->crng.below(k);
    if (k > n || k > left) k = n < left ? n : left;
    if (k) memcpy(buf, s->in.p + s->pos, k);
    s->pos += k;
    return k;
}
static void src_skip(mpack_reader_t* r, size_t n) {
    Src* s = (Src*)mpack_reader_context(r);
    int64_t i = (int64_t)s->skips++; s->skipped_bytes += n;
    if (s->fail_skip >= 0 && i >= s->fail_skip) { s->failed = true; mpack_reader_flag_error(r, mpack_error_io); return; }
    if (n > s->in.n - s->pos) { s->pos = s->in.n; mpack_reader_flag_error(r, mpack_error_io); return; }
    s->pos += n;
}
Src::~Src() {}
void Src::open(const Bytes& b, SrcMode m, size_t bufsz, int chunking, uint64_t seed) {
    mode = m; in.init(b.size(), -1); if (b.size()) memcpy(in.p, b.data(), b.size());
    chunk = chunking; crng = Rng(seed); pos = 0; bufsize = bufsz; opened = true;
    log.reset();
    switch (m) {
        case S_DATA: mpack_reader_init_data(&r, in.p, in.n); break;
        case S_FILL: case S_FILLSKIP: case S_PREFILL: {
            buf.init(bufsz, 0x5A);
            size_t pre = 0;
            if (m == S_PREFILL) { pre = in.n < bufsz ? in.n : bufsz; if (pre) pre = crng.below(pre + 1); memcpy(buf.p, in.p, pre); pos = pre; }
            mpack_reader_init(&r, buf.p, bufsz, pre);
            mpack_reader_set_context(&r, this);
            mpack_reader_set_fill(&r, src_fill);
            if (m == S_FILLSKIP) mpack_reader_set_skip(&r, src_skip);
            break; }
        case S_STDFILE: case S_FILENAME:
#if MPACK_STDIO
            file.in = b; file.chunk_mode = chunking > 0 ? chunking : 0;
            file.vbuf = (int)crng.below(3) - 1; if (file.vbuf > 0) file.vbuf = 16;
            file.seekable = crng.chance(1, 2);
            if (m == S_STDFILE) { close_when_done = crng.chance(1, 2); fp = file.open("rb"); mpack_reader_init_stdfile(&r, fp, close_when_done); }
            else { bind_name(&file); mpack_reader_init_filename(&r, "hx:in"); bind_name(0); }
#endif
            break;
        default: break;
    }
    mpack_reader_set_error_handler(&r, r_err);
}
mpack_error_t Src::close() {
    mpack_error_t before = mpack_reader_error(&r);
    mpack_error_t e = destroyed ? before : mpack_reader_destroy(&r);
    opened = false;
    if (before != mpack_ok) HX_CHECK(e == before, "destroy-error", "destroy returned %s after error %s", errname(e), errname(before));
    if (mode == S_STDFILE) {
        int64_t want = close_when_done ? 1 : 0;
        HX_CHECK(file.closes == want, "file-close", "stdfile closed %lld times, wanted %lld", (long long)file.closes, (long long)want);
        if (!close_when_done) fclose(fp);
    } else if (mode == S_FILENAME) HX_CHECK(file.closes == 1, "file-close", "named file closed %lld times", (long long)file.closes);
    return e;
}

mpack_tag_t ev_tag(const Ev& e) {
    switch (e.k) {
        case K_NIL: return mpack_tag_make_nil();
        case K_BOOL: return mpack_tag_make_bool(e.u != 0);
        case K_UINT: if (e.swire) return mpack_tag_make_int((int64_t)e.u); return mpack_tag_make_uint(e.u);
        case K_INT: return mpack_tag_make_int((int64_t)e.u);
#if MPACK_FLOAT
        case K_FLT: { float f; uint32_t u = (uint32_t)e.u; memcpy(&f, &u, 4); return mpack_tag_make_float(f); }
#else
        case K_FLT: return mpack_tag_make_raw_float((uint32_t)e.u);
#endif
#if MPACK_DOUBLE
        case K_DBL: { double f; memcpy(&f, &e.u, 8); return mpack_tag_make_double(f); }
#else
        case K_DBL: return mpack_tag_make_raw_double(e.u);
#endif
        case K_STR: return mpack_tag_make_str(e.n);
        case K_BIN: return mpack_tag_make_bin(e.n);
#if MPACK_EXTENSIONS
        case K_EXT: return mpack_tag_make_ext(e.et, e.n);
#endif
        case K_ARR: return mpack_tag_make_array(e.n);
        case K_MAP: return mpack_tag_make_map(e.n);
        default: return mpack_tag_make_nil();
    }
}
static uint64_t fbits(mpack_tag_t* t) {
#if MPACK_FLOAT
    float f = mpack_tag_float_value(t); uint32_t u; memcpy(&u, &f, 4); return abi_flt(u);
#else
    return mpack_tag_raw_float_value(t);
#endif
}
static uint64_t dbits(mpack_tag_t* t) {
#if MPACK_DOUBLE
    double f = mpack_tag_double_value(t); uint64_t u; memcpy(&u, &f, 8); return abi_dbl(u);
#else
    return mpack_tag_raw_double_value(t);
#endif
}
bool same_tag(const mpack_tag_t& a_, const mpack_tag_t& b_) {
    mpack_tag_t a = a_, b = b_;
    if (mpack_tag_type(&a) != mpack_tag_type(&b)) return false;
    switch (mpack_tag_type(&a)) {
        case mpack_type_missing: case mpack_type_nil: return true;
        case mpack_type_bool: return mpack_tag_bool_value(&a) == mpack_tag_bool_value(&b);
        case mpack_type_int: return mpack_tag_int_value(&a) == mpack_tag_int_value(&b);
        case mpack_type_uint: return mpack_tag_uint_value(&a) == mpack_tag_uint_value(&b);
        case mpack_type_float: return fbits(&a) == fbits(&b);
        case mpack_type_double: return dbits(&a) == dbits(&b);
        case mpack_type_str: return mpack_tag_str_length(&a) == mpack_tag_str_length(&b);
        case mpack_type_bin: return mpack_tag_bin_length(&a) == mpack_tag_bin_length(&b);
        case mpack_type_array: return mpack_tag_array_count(&a) == mpack_tag_array_count(&b);
        case mpack_type_map: return mpack_tag_map_count(&a) == mpack_tag_map_count(&b);
#if MPACK_EXTENSIONS
        case mpack_type_ext: return mpack_tag_ext_length(&a) == mpack_tag_ext_length(&b) && mpack_tag_ext_exttype(&a) == mpack_tag_ext_exttype(&b);
#endif
        default: return false;
    }
}
void tag_str(mpack_tag_t t, char* b, size_t n) {
    unsigned long long v = 0; int et = 0;
    switch (mpack_tag_type(&t)) {
        case mpack_type_bool: v = mpack_tag_bool_value(&t); break;
        case mpack_type_int: v = (unsigned long long)mpack_tag_int_value(&t); break;
        case mpack_type_uint: v = mpack_tag_uint_value(&t); break;
        case mpack_type_float: v = fbits(&t); break;
        case mpack_type_double: v = dbits(&t); break;
        case mpack_type_str: v = mpack_tag_str_length(&t); break;
        case mpack_type_bin: v = mpack_tag_bin_length(&t); break;
        case mpack_type_array: v = mpack_tag_array_count(&t); break;
        case mpack_type_map: v = mpack_tag_map_count(&t); break;
#if MPACK_EXTENSIONS
        case mpack_type_ext: v = mpack_tag_ext_length(&t); et = mpack_tag_ext_exttype(&t); break;
#endif
        default: break;
    }
    snprintf(b, n, "%s(%llx/%d)", typname(mpack_tag_type(&t)), v, et);
}

size_t pick_bufsize(Rng& r) {
    switch (r.below(6)) {
        case 0: return MPACK_READER_MINIMUM_BUFFER_SIZE;
        case 1: return MPACK_READER_MINIMUM_BUFFER_SIZE + r.below(10);
        case 2: return 32 + r.below(200);
        case 3: { static const size_t t[] = {64,128,256,512,1024,4096,33,63,65}; return r.pick(t); }
        default: return 32 + r.below(2000);
    }
}
bool expected_truncation_error(mpack_error_t e, bool streaming) {
    if (!streaming) return e == mpack_error_invalid;
    return e == mpack_error_io || e == mpack_error_invalid || e == mpack_error_eof;
}

// reads a payload of n bytes by some method; returns false if an error was flagged
static bool payload(Src& s, const uint8_t* want, size_t avail, const Ev& e, Rng& r, const WalkOpt& o, WalkRes& w, const char* pfx) {
    mpack_reader_t* rd = &s.r;
    size_t n = e.n;
    bool complete = avail >= n;
    char key[64];
    int m = o.methods ? (int)r.below(7) : 0;
#ifndef MPACK_MALLOC
    if (m == 3) m = 0;
#endif
    size_t cap = s.mode == S_DATA ? (size_t)-1 : (s.mode == S_STDFILE || s.mode == S_FILENAME) ? (size_t)MPACK_BUFFER_SIZE : s.bufsize;
    if (!o.inplace_ok && (m == 2 || m == 5)) m = 0;
    if (n > 200000000u && m != 4) m = 4; // a hostile claim: do not allocate for it ourselves
    if (m == 2 && n > cap) m = 4;
    switch (m) {
        case 0: { // one copy
            Guard g(n); mpack_read_bytes(rd, g.p, n);
            if (mpack_reader_error(rd) != mpack_ok) break;
            snprintf(key, sizeof key, "%s-bytes", pfx);
            HX_CHECK(complete && (n == 0 || !memcmp(g.p, want, n)), key, "read_bytes of %zu bytes at %zu returned wrong bytes", n, e.off);
            w.bytes += n; break; }
        case 1: case 6: case 5: { // piecewise: copies, skips, in place
            size_t at = 0; bool bad = false;
            while (at < n && !bad) {
                size_t k = r.chance(1, 2) ? 1 + r.below(n - at < 8 ? n - at : 8) : 1 + r.below(n - at);
                int how = m == 5 ? 2 : (int)r.below(3);
                if (how == 2 && (!o.inplace_ok || k > cap)) how = 0;
                if (how == 2 && k > cap) k = cap;
                if (how == 0) {
                    Guard g(k); mpack_read_bytes(rd, g.p, k);
                    if (mpack_reader_error(rd) != mpack_ok) { bad = true; break; }
                    snprintf(key, sizeof key, "%s-bytes", pfx);
                    HX_CHECK(at + k <= avail && !memcmp(g.p, want + at, k), key, "piecewise read_bytes at +%zu (%zu) returned wrong bytes", at, k);
                    w.bytes += k;
                } else if (how == 1) {
                    mpack_skip_bytes(rd, k); w.skips++;
                    if (mpack_reader_error(rd) != mpack_ok) { bad = true; break; }
                } else {
                    const char* p = mpack_read_bytes_inplace(rd, k); w.inplace++;
                    snprintf(key, sizeof key, "%s-inplace-null", pfx);
                    HX_CHECK((p != NULL) == (mpack_reader_error(rd) == mpack_ok), key, "in-place pointer %p with error %s", (const void*)p, errname(mpack_reader_error(rd)));
                    if (!p) { bad = true; break; }
                    snprintf(key, sizeof key, "%s-bytes", pfx);
                    HX_CHECK(at + k <= avail && !memcmp(p, want + at, k), key, "in-place read at +%zu (%zu) returned wrong bytes", at, k);
                    w.bytes += k;
                }
                at += k;
            }
            break; }
        case 2: {
            const char* p = mpack_read_bytes_inplace(rd, n); w.inplace++;
            if (mpack_reader_error(rd) != mpack_ok) { HX_CHECK(p == NULL, "inplace-null", "non-null in-place pointer with error"); break; }
            snprintf(key, sizeof key, "%s-bytes", pfx);
            HX_CHECK(p != NULL && complete && (n == 0 || !memcmp(p, want, n)), key, "in-place read of %zu at %zu returned wrong bytes", n, e.off);
            w.bytes += n; break; }
#ifdef MPACK_MALLOC
        case 3: {
            char* p = mpack_read_bytes_alloc(rd, n); w.alloc++;
            if (mpack_reader_error(rd) != mpack_ok) { HX_CHECK(p == NULL, "alloc-null", "non-null allocation with error"); break; }
            if (n == 0) { HX_CHECK(p == NULL, "alloc-null", "allocation for zero bytes"); break; }
            snprintf(key, sizeof key, "%s-bytes", pfx);
            HX_CHECK(p != NULL && complete && !memcmp(p, want, n), key, "allocating read of %zu at %zu returned wrong bytes", n, e.off);
            hx_free(p); w.bytes += n; break; }
#endif
        default: {
            mpack_skip_bytes(rd, n); w.skips++; break; }
    }
    return mpack_reader_error(rd) == mpack_ok;
}

static void check_fail(Src& s, const Dec& d, size_t i, const char* pfx, const char* where) {
    mpack_error_t e = mpack_reader_error(&s.r);
    char key[64]; snprintf(key, sizeof key, "%s-spurious-error", pfx);
    HX_CHECK(d.err != D_OK && (i == d.bad), key, "error %s at element %zu (%s) but the reference says %s", errname(e), i, where,
        d.err == D_OK ? "the message is well-formed" : "the fault is elsewhere");
    snprintf(key, sizeof key, "%s-error-kind", pfx);
    if (d.err == D_INVALID) HX_CHECK(e == mpack_error_invalid, key, "invalid byte reported as %s", errname(e));
    else HX_CHECK(expected_truncation_error(e, s.streaming()), key, "truncation reported as %s (%s source)", errname(e), srcname(s.mode));
}

bool walk(Src& s, const Dec& d, Rng& r, const WalkOpt& o, WalkRes& w, const char* pfx) {
    mpack_reader_t* rd = &s.r;
    std::vector<size_t> open;
    size_t i = 0; char key[64], tb[64], tb2[64];
    const uint8_t* in = s.bytes(); size_t n = s.in.n;
    w.error = false;
    for (;;) {
        while (!open.empty() && d.ev[open.back()].next == i) {
            if (d.ev[open.back()].k == K_ARR) mpack_done_array(rd); else mpack_done_map(rd);
            open.pop_back();
        }
        if (mpack_reader_error(rd) != mpack_ok) { w.error = true; check_fail(s, d, i ? i - 1 : 0, pfx, "done"); return false; }
        bool have = i < d.ev.size();
        if (!have && d.err == D_OK) break;
        size_t off = have ? d.ev[i].off : d.bad_off;
        if (o.check_remaining && (open.empty() || !MPACK_READ_TRACKING) && r.chance(1, 3)) {
            const char* p = 0; size_t rem = mpack_reader_remaining(rd, r.chance(1, 8) ? NULL : &p);
            snprintf(key, sizeof key, "%s-remaining", pfx);
            if (s.mode == S_DATA) HX_CHECK(rem == n - off, key, "remaining %zu at offset %zu of %zu", rem, off, n);
            else HX_CHECK(rem <= n - off, key, "remaining %zu exceeds the %zu bytes of input left", rem, n - off);
            if (p && rem) HX_CHECK(!memcmp(p, in + off, rem), key, "remaining bytes differ from the input at %zu", off);
        }
        if (o.peek && r.chance(1, 4)) {
            unsigned times = (unsigned)r.range(1, 2);
            while (times--) {
                mpack_tag_t t = mpack_peek_tag(rd); w.peeks++;
                if (mpack_reader_error(rd) != mpack_ok) {
                    HX_CHECK(mpack_tag_type(&t) == mpack_type_nil, "peek-nil", "peek returned %s on error", typname(mpack_tag_type(&t)));
                    w.error = true; check_fail(s, d, i, pfx, "peek");
                    HX_CHECK(!have, "peek-error", "peek failed on a complete header");
                    return false;
                }
                snprintf(key, sizeof key, "%s-peek", pfx);
                HX_CHECK(have && same_tag(t, ev_tag(d.ev[i])), key, "peek at element %zu", i);
            }
        }
        if (o.discard && r.chance(1, 6) && (!have || d.ev[i].next != (size_t)-1 || d.err != D_OK) && !(d.maxdepth > 2000)) {
            mpack_discard(rd); w.discards++;
            if (mpack_reader_error(rd) != mpack_ok) {
                w.error = true;
                snprintf(key, sizeof key, "%s-spurious-error", pfx);
                bool contains = d.err != D_OK && (!have || i == d.bad || d.ev[i].next == (size_t)-1);
                HX_CHECK(contains, key, "discard of element %zu failed with %s", i, errname(mpack_reader_error(rd)));
                if (d.err == D_INVALID) HX_CHECK(mpack_reader_error(rd) == mpack_error_invalid, "discard-error-kind", "%s", errname(mpack_reader_error(rd)));
                else HX_CHECK(expected_truncation_error(mpack_reader_error(rd), s.streaming()), "discard-error-kind", "truncation reported as %s", errname(mpack_reader_error(rd)));
                return false;
            }
            snprintf(key, sizeof key, "%s-discard-incomplete", pfx);
            HX_CHECK(have && i != d.bad && d.ev[i].next != (size_t)-1, key, "discard of incomplete element %zu succeeded (%s source)", i, srcname(s.mode));
            i = d.ev[i].next;
            continue;
        }
        mpack_tag_t t = mpack_read_tag(rd);
        if (mpack_reader_error(rd) != mpack_ok) {
            HX_CHECK(mpack_tag_type(&t) == mpack_type_nil, "read-nil", "read_tag returned %s on error", typname(mpack_tag_type(&t)));
            w.error = true; check_fail(s, d, i, pfx, "read_tag");
            HX_CHECK(!have || d.bad == i, "read-error", "read_tag failed early");
            return false;
        }
        snprintf(key, sizeof key, "%s-phantom", pfx);
        if (!have) { tag_str(t, tb, sizeof tb); fail(key, "read_tag returned %s although the element at %zu is %s", tb, off, d.err == D_INVALID ? "invalid" : "truncated"); }
        const Ev& e = d.ev[i];
        mpack_tag_t want = ev_tag(e);
        snprintf(key, sizeof key, "%s-tag", pfx);
        tag_str(t, tb, sizeof tb); tag_str(want, tb2, sizeof tb2);
        HX_CHECK(same_tag(t, want), key, "element %zu at offset %zu is %s, expected %s", i, e.off, tb, tb2);
        w.elements++;
        if (e.k == K_STR || e.k == K_BIN || e.k == K_EXT) {
            size_t avail = n - e.pay();
            bool ok = payload(s, in + (avail ? e.pay() : 0), avail, e, r, o, w, pfx);
            if (!ok) { w.error = true; check_fail(s, d, i, pfx, "payload"); return false; }
            snprintf(key, sizeof key, "%s-truncated-ok", pfx);
            HX_CHECK(avail >= e.n, key, "payload of %u bytes read/skipped successfully with only %zu available (%s source)", e.n, avail, srcname(s.mode));
            if (e.k == K_STR) mpack_done_str(rd); else if (e.k == K_BIN) mpack_done_bin(rd);
#if MPACK_EXTENSIONS
            else mpack_done_ext(rd);
#endif
        } else if (e.k == K_ARR || e.k == K_MAP) open.push_back(i);
        ++i;
    }
    return true;
}

} // namespace hx
