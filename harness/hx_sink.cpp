#include "hx_sink.hpp"
#include "hx_c.h"

namespace hx {
__thread EmitStats g_emit;
const char* sinkname(int m) { static const char* n[] = {"fixed","growable","flush","stdfile","filename"}; return n[m]; }

static void w_err(mpack_writer_t* w, mpack_error_t e) {
    Sink* s = (Sink*)((char*)w - offsetof(Sink, w));
    if (s->log.errors++ == 0) s->log.first = e;
    s->log.last = e;
    if (g_err_hook) g_err_hook(s, 2);
}
static void w_flush(mpack_writer_t* w, const char* p, size_t n) {
    Sink* s = (Sink*)mpack_writer_context(w);
    if (mpack_writer_error(w) != mpack_ok) s->after_error_flush = true;
    int64_t i = (int64_t)s->flushes++;
    if (n == 0) s->flushed_zero++;
    if (s->fail_flush >= 0 && i >= s->fail_flush) { s->failed = true; mpack_writer_flag_error(w, s->fail_err); return; }
    s->out.insert(s->out.end(), (const uint8_t*)p, (const uint8_t*)p + n);
}
void Sink::open(SinkMode m, size_t bufsz, uint64_t seed) {
    mode = m; log.reset(); Rng r(seed);
#ifndef MPACK_MALLOC
    if (m == W_GROW) { m = mode = W_FLUSH; bufsz = 4096; } // no growable writer without an allocator
#endif
    switch (m) {
        case W_FIXED: buf.init(bufsz, 0x77); mpack_writer_init(&w, buf.p, bufsz); break;
#ifdef MPACK_MALLOC
        case W_GROW: gdata = (char*)1; gsize = 77; mpack_writer_init_growable(&w, &gdata, &gsize);
            HX_CHECK(gdata == NULL, "grow-null", "data pointer is not NULL during writing"); break;
#endif
        case W_FLUSH: buf.init(bufsz, 0x77); mpack_writer_init(&w, buf.p, bufsz); mpack_writer_set_context(&w, this); mpack_writer_set_flush(&w, w_flush); break;
        case W_STDFILE: case W_FILENAME:
#if MPACK_STDIO
            file.vbuf = (int)r.below(3) - 1; if (file.vbuf > 0) file.vbuf = 32;
            if (m == W_STDFILE) { close_when_done = r.chance(1, 2); fp = file.open("wb"); mpack_writer_init_stdfile(&w, fp, close_when_done); }
            else { bind_name(&file); mpack_writer_init_filename(&w, "hx:out"); bind_name(0); }
#endif
            break;
        default: break;
    }
    mpack_writer_set_error_handler(&w, w_err);
}
mpack_error_t Sink::close(bool fclose_own) {
    mpack_error_t before = mpack_writer_error(&w);
    if (mode == W_FIXED && before == mpack_ok && !builds_open) {
        used = mpack_writer_buffer_used(&w);
        HX_CHECK(used + mpack_writer_buffer_left(&w) == mpack_writer_buffer_size(&w) && mpack_writer_buffer_size(&w) == buf.n, "buffer-accounting",
            "used %zu + left %zu != size %zu", used, mpack_writer_buffer_left(&w), mpack_writer_buffer_size(&w));
    }
    mpack_error_t e = destroyed ? before : mpack_writer_destroy(&w);
    if (before != mpack_ok) HX_CHECK(e == before, "destroy-error", "writer destroy returned %s after %s", errname(e), errname(before));
    switch (mode) {
        case W_FIXED: if (e == mpack_ok) out.assign((uint8_t*)buf.p, (uint8_t*)buf.p + used); break;
        case W_GROW:
            if (e == mpack_ok) { HX_CHECK(gdata != NULL, "grow-result", "growable writer succeeded without data"); out.assign((uint8_t*)gdata, (uint8_t*)gdata + gsize); hx_free(gdata); }
            else HX_CHECK(gdata == NULL, "grow-result", "growable writer handed over data with error %s", errname(e));
            break;
        case W_FLUSH: break;
        case W_STDFILE:
            HX_CHECK(file.closes == (close_when_done ? 1 : 0), "file-close", "stdfile closed %lld times (close_when_done=%d)", (long long)file.closes, close_when_done);
            if (!close_when_done && fclose_own) fclose_ret = fclose(fp);
            out = file.out; break;
        case W_FILENAME:
            HX_CHECK(file.closes == (file.opens ? 1 : 0), "file-close", "file closed %lld times", (long long)file.closes);
            out = file.out; break;
        default: break;
    }
    return e;
}

bool snan32(uint32_t u) { return (u & 0x7f800000u) == 0x7f800000u && (u & 0x7fffffu) && !(u & 0x400000u); }
bool snan64(uint64_t u) { return (u & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (u & 0xfffffffffffffull) && !(u & 0x8000000000000ull); }

static const char* uapi[] = {"u8","u16","u32","u64","uint","i8","i16","i32","i64","int","tag_uint","tag_int","cpp_u8","cpp_u16","cpp_u32","cpp_u64","cpp_i8","cpp_i16","cpp_i32","cpp_i64","c_u8","c_u16","c_u32","c_u64","c_i8","c_i16","c_i32","c_i64"};
int uint_apis() { return hx_c_generic() ? 28 : 20; }
const char* uint_api_name(int a) { return uapi[a]; }
bool uint_api_ok(uint64_t u, int a) {
    if (a >= 20) a -= 8;
    switch (a) {
        case 0: case 12: return u <= 0xff; case 1: case 13: return u <= 0xffff; case 2: case 14: return u <= 0xffffffffull;
        case 3: case 4: case 10: case 15: return true;
        case 5: case 16: return u <= 0x7f; case 6: case 17: return u <= 0x7fff; case 7: case 18: return u <= 0x7fffffff;
        default: return u <= 0x7fffffffffffffffull;
    }
}
void emit_uint(mpack_writer_t* w, uint64_t u, int a) {
    if (a >= 20) { hx_c_write(w, 0, (hx_c_kind)(HX_C_U8 + (a - 20)), u, 0); g_emit.cgen++; return; }
    switch (a) {
        case 0: mpack_write_u8(w, (uint8_t)u); break; case 1: mpack_write_u16(w, (uint16_t)u); break;
        case 2: mpack_write_u32(w, (uint32_t)u); break; case 3: mpack_write_u64(w, u); break; case 4: mpack_write_uint(w, u); break;
        case 5: mpack_write_i8(w, (int8_t)u); break; case 6: mpack_write_i16(w, (int16_t)u); break;
        case 7: mpack_write_i32(w, (int32_t)u); break; case 8: mpack_write_i64(w, (int64_t)u); break; case 9: mpack_write_int(w, (int64_t)u); break;
        case 10: mpack_write_tag(w, mpack_tag_make_uint(u)); break; case 11: mpack_write_tag(w, mpack_tag_make_int((int64_t)u)); break;
        case 12: mpack_write(w, (uint8_t)u); break; case 13: mpack_write(w, (uint16_t)u); break;
        case 14: mpack_write(w, (uint32_t)u); break; case 15: mpack_write(w, (uint64_t)u); break;
        case 16: mpack_write(w, (int8_t)u); break; case 17: mpack_write(w, (int16_t)u); break;
        case 18: mpack_write(w, (int32_t)u); break; default: mpack_write(w, (int64_t)u); break;
    }
}
static const char* iapi[] = {"i8","i16","i32","i64","int","tag_int","cpp_i8","cpp_i16","cpp_i32","cpp_i64","c_i8","c_i16","c_i32","c_i64"};
int int_apis() { return hx_c_generic() ? 14 : 10; }
const char* int_api_name(int a) { return iapi[a]; }
bool int_api_ok(int64_t v, int a) {
    if (a >= 10) a -= 4;
    switch (a) { case 0: case 6: return v >= -128; case 1: case 7: return v >= -32768; case 2: case 8: return v >= -2147483648ll; default: return true; }
}
void emit_int(mpack_writer_t* w, int64_t v, int a) {
    if (a >= 10) { hx_c_write(w, 0, (hx_c_kind)(HX_C_I8 + (a - 10)), (uint64_t)v, 0); g_emit.cgen++; return; }
    switch (a) {
        case 0: mpack_write_i8(w, (int8_t)v); break; case 1: mpack_write_i16(w, (int16_t)v); break; case 2: mpack_write_i32(w, (int32_t)v); break;
        case 3: mpack_write_i64(w, v); break; case 4: mpack_write_int(w, v); break; case 5: mpack_write_tag(w, mpack_tag_make_int(v)); break;
        case 6: mpack_write(w, (int8_t)v); break; case 7: mpack_write(w, (int16_t)v); break; case 8: mpack_write(w, (int32_t)v); break; default: mpack_write(w, v); break;
    }
}

static void pieces(mpack_writer_t* w, const Bytes& s, Rng& r, bool split) {
    size_t at = 0;
    if (!split) { Guard g(s); mpack_write_bytes(w, g.p, g.n); return; }
    while (at < s.size()) {
        size_t k = r.chance(1, 2) ? 1 + r.below(std::min<size_t>(8, s.size() - at)) : 1 + r.below(s.size() - at);
        Guard g(s.data() + at, k); mpack_write_bytes(w, g.p, k); at += k; g_emit.pieces++;
    }
    if (r.chance(1, 8)) { Guard g((size_t)0); mpack_write_bytes(w, g.p, 0); }
}
struct CStr { Guard g; explicit CStr(const Bytes& s) { g.init(s.size() + 1, 0); if (s.size()) memcpy(g.p, s.data(), s.size()); g.p[s.size()] = 0; } };

void emit(mpack_writer_t* w, const V& v, Rng& r, const EmitOpt& o, unsigned bdepth) {
    g_emit.elements++;
    if (o.objbytes && !o.plain && r.chance(1, 20)) {
        Bytes b; enc(b, v, o.v4 ? ST_V4 : ST_SHORT); Guard g(b); mpack_write_object_bytes(w, g.p, g.n); g_emit.objs++; return;
    }
    switch (v.k) {
        case K_NIL:
            switch (o.plain ? 0 : r.below(4)) { case 0: mpack_write_nil(w); break; case 1: mpack_write_tag(w, mpack_tag_make_nil()); break; case 2: mpack_write_cstr_or_nil(w, NULL); break; default: mpack_write_utf8_cstr_or_nil(w, NULL); } break;
        case K_BOOL:
            if (!o.plain && r.chance(1, 5) && hx_c_generic()) { hx_c_write(w, 0, HX_C_BOOL, v.u != 0, 0); break; }
            switch (o.plain ? 0 : r.below(4)) { case 0: mpack_write_bool(w, v.u != 0); break; case 1: v.u ? mpack_write_true(w) : mpack_write_false(w); break; case 2: mpack_write(w, v.u != 0); break; default: mpack_write_tag(w, mpack_tag_make_bool(v.u != 0)); } break;
        case K_UINT: { int a = 3; if (!o.plain) do a = (int)r.below((uint64_t)uint_apis()); while (!uint_api_ok(v.u, a)); emit_uint(w, v.u, a); break; }
        case K_INT: { int a = 3; if (!o.plain) do a = (int)r.below((uint64_t)int_apis()); while (!int_api_ok((int64_t)v.u, a)); emit_int(w, (int64_t)v.u, a); break; }
        case K_FLT: {
#if MPACK_FLOAT
            if (!o.plain && r.chance(1, 5) && hx_c_generic()) { hx_c_write(w, 0, HX_C_FLT, v.u, 0); break; }
            float f; uint32_t u = (uint32_t)v.u; memcpy(&f, &u, 4);
            switch (o.plain ? 0 : r.below(3)) { case 0: mpack_write_float(w, f); break; case 1: mpack_write(w, f); break; default: mpack_write_tag(w, mpack_tag_make_float(f)); }
#else
            if (o.plain || r.chance(1, 2)) mpack_write_raw_float(w, (uint32_t)v.u); else mpack_write_tag(w, mpack_tag_make_raw_float((uint32_t)v.u));
#endif
            break; }
        case K_DBL: {
#if MPACK_DOUBLE
            if (!o.plain && r.chance(1, 5) && hx_c_generic()) { hx_c_write(w, 0, HX_C_DBL, v.u, 0); break; }
            double f; memcpy(&f, &v.u, 8);
            switch (o.plain ? 0 : r.below(3)) { case 0: mpack_write_double(w, f); break; case 1: mpack_write(w, f); break; default: mpack_write_tag(w, mpack_tag_make_double(f)); }
#else
            if (o.plain || r.chance(1, 2)) mpack_write_raw_double(w, v.u); else mpack_write_tag(w, mpack_tag_make_raw_double(v.u));
#endif
            break; }
        case K_STR: {
            uint32_t n = (uint32_t)v.s.size();
            bool nul = n && memchr(v.s.data(), 0, n) != NULL, utf = ref_utf8(v.s.data(), n, true);
            for (;;) {
                switch (o.plain ? 0 : r.below(11)) {
                    case 9: { if (nul || !utf) continue; CStr c(v.s); mpack_write(w, c.g.p); break; }
                    case 10: { if (nul || !hx_c_generic()) continue; CStr c(v.s); hx_c_write(w, 0, r.chance(1, 2) ? HX_C_STR : HX_C_MSTR, 0, c.g.p); break; }
                    case 0: { Guard g(v.s); mpack_write_str(w, g.p, n); break; }
                    case 1: { if (!utf) continue; Guard g(v.s); mpack_write_utf8(w, g.p, n); break; }
                    case 2: { if (nul) continue; CStr c(v.s); mpack_write_cstr(w, c.g.p); break; }
                    case 3: { if (nul || !utf) continue; CStr c(v.s); mpack_write_utf8_cstr(w, c.g.p); break; }
                    case 4: { if (nul) continue; CStr c(v.s); mpack_write_cstr_or_nil(w, c.g.p); break; }
                    case 5: { if (nul || !utf) continue; CStr c(v.s); mpack_write_utf8_cstr_or_nil(w, c.g.p); break; }
                    case 6: mpack_start_str(w, n); pieces(w, v.s, r, o.pieces); mpack_finish_str(w); break;
                    case 7: mpack_write_tag(w, mpack_tag_make_str(n)); pieces(w, v.s, r, o.pieces); mpack_finish_type(w, mpack_type_str); break;
                    default: { if (nul || !utf) continue; CStr c(v.s); mpack_write(w, (const char*)c.g.p); break; }
                }
                break;
            }
            break; }
        case K_BIN: {
            uint32_t n = (uint32_t)v.s.size();
            switch (o.plain ? 0 : r.below(3)) {
                case 0: { Guard g(v.s); mpack_write_bin(w, g.p, n); break; }
                case 1: mpack_start_bin(w, n); pieces(w, v.s, r, o.pieces); mpack_finish_bin(w); break;
                default: mpack_write_tag(w, mpack_tag_make_bin(n)); pieces(w, v.s, r, o.pieces); mpack_finish_type(w, mpack_type_bin);
            }
            break; }
        case K_EXT: {
#if MPACK_EXTENSIONS
            uint32_t n = (uint32_t)v.s.size();
            switch (o.plain ? 0 : r.below(3)) {
                case 0: { Guard g(v.s); mpack_write_ext(w, v.et, g.p, n); break; }
                case 1: mpack_start_ext(w, v.et, n); pieces(w, v.s, r, o.pieces); mpack_finish_ext(w); break;
                default: mpack_write_tag(w, mpack_tag_make_ext(v.et, n)); pieces(w, v.s, r, o.pieces); mpack_finish_type(w, mpack_type_ext);
            }
#endif
            break; }
        case K_ARR: case K_MAP: {
            bool a = v.k == K_ARR; uint32_t n = (uint32_t)(a ? v.c.size() : v.c.size() / 2);
            int how = 0;
#if MPACK_BUILDER
            if (o.build && (int)r.below(100) < o.build) how = 2; else
#endif
            if (!o.plain && r.chance(1, 3)) how = 1;
            if (how == 2) { a ? mpack_build_array(w) : mpack_build_map(w); g_emit.builds++; if (bdepth + 1 > g_emit.maxbuild) g_emit.maxbuild = bdepth + 1; }
            else if (how == 1) mpack_write_tag(w, a ? mpack_tag_make_array(n) : mpack_tag_make_map(n));
            else a ? mpack_start_array(w, n) : mpack_start_map(w, n);
            unsigned bd = bdepth + (how == 2);
            for (size_t i = 0; i < v.c.size(); ++i) {
                const V& k = v.c[i];
                // C++ key-value helpers take a text key and a scalar
                if (!a && i % 2 == 0 && o.kv && !o.plain && k.k == K_STR && r.chance(1, 2) && ref_utf8(k.s.data(), k.s.size(), false)) {
                    const V& x = v.c[i + 1]; CStr c(k.s); bool done = true;
                    bool text = x.k == K_STR && !memchr(x.s.data(), 0, x.s.size());
                    if (hx_c_generic() && r.chance(1, 2)) { // by the C11 macro
                        static const int W[] = {8, 16, 32, 64}; CStr c2(x.s); unsigned q = (unsigned)r.below(4);
                        if (x.k == K_BOOL) hx_c_write(w, c.g.p, HX_C_BOOL, x.u, 0);
                        else if (x.k == K_UINT && (W[q] == 64 || x.u >> W[q] == 0)) hx_c_write(w, c.g.p, (hx_c_kind)(HX_C_U8 + q), x.u, 0);
                        else if (x.k == K_INT && (W[q] == 64 || (int64_t)x.u >= -((int64_t)1 << (W[q] - 1)))) hx_c_write(w, c.g.p, (hx_c_kind)(HX_C_I8 + q), x.u, 0);
                        else if (text) hx_c_write(w, c.g.p, q & 1 ? HX_C_STR : HX_C_MSTR, 0, c2.g.p);
                        else if (x.k == K_NIL) hx_c_write(w, c.g.p, q & 1 ? HX_C_STR : HX_C_MSTR, 0, 0);
#if MPACK_FLOAT
                        else if (x.k == K_FLT) hx_c_write(w, c.g.p, HX_C_FLT, x.u, 0);
#endif
#if MPACK_DOUBLE
                        else if (x.k == K_DBL) hx_c_write(w, c.g.p, HX_C_DBL, x.u, 0);
#endif
                        else done = false;
                        if (done) { g_emit.ckv++; ++i; g_emit.elements += 2; continue; }
                        done = true;
                    }
                    if (x.k == K_BOOL) mpack_write_kv(w, c.g.p, x.u != 0);
                    else if (x.k == K_NIL) { if (r.chance(1, 2)) mpack_write_kv(w, c.g.p, (const char*)NULL); else mpack_write_kv(w, c.g.p, (char*)NULL); }
#if MPACK_FLOAT
                    else if (x.k == K_FLT) { float f; uint32_t u = (uint32_t)x.u; memcpy(&f, &u, 4); mpack_write_kv(w, c.g.p, f); }
#endif
#if MPACK_DOUBLE
                    else if (x.k == K_DBL) { double f; memcpy(&f, &x.u, 8); mpack_write_kv(w, c.g.p, f); }
#endif
                    else if (x.k == K_UINT && x.u <= 0xff) mpack_write_kv(w, c.g.p, (uint8_t)x.u);
                    else if (x.k == K_UINT && x.u <= 0xffff) mpack_write_kv(w, c.g.p, (uint16_t)x.u);
                    else if (x.k == K_UINT && x.u <= 0xffffffffull) mpack_write_kv(w, c.g.p, (uint32_t)x.u);
                    else if (x.k == K_UINT) mpack_write_kv(w, c.g.p, (uint64_t)x.u);
                    else if (x.k == K_INT && (int64_t)x.u >= -128) mpack_write_kv(w, c.g.p, (int8_t)x.u);
                    else if (x.k == K_INT && (int64_t)x.u >= -32768) mpack_write_kv(w, c.g.p, (int16_t)x.u);
                    else if (x.k == K_INT && (int64_t)x.u >= -2147483648ll) mpack_write_kv(w, c.g.p, (int32_t)x.u);
                    else if (x.k == K_INT) mpack_write_kv(w, c.g.p, (int64_t)x.u);
                    else if (text) { CStr c2(x.s); if (r.chance(1, 2)) mpack_write_kv(w, c.g.p, (const char*)c2.g.p); else mpack_write_kv(w, c.g.p, c2.g.p); }
                    else done = false;
                    if (done) { ++i; g_emit.elements += 2; continue; }
                }
                emit(w, k, r, o, bd);
            }
            if (how == 2) a ? mpack_complete_array(w) : mpack_complete_map(w);
            else if (how == 1 || (!o.plain && r.chance(1, 3))) mpack_finish_type(w, a ? mpack_type_array : mpack_type_map);
            else a ? mpack_finish_array(w) : mpack_finish_map(w);
            break; }
    }
}
} // namespace hx
