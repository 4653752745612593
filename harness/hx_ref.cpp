#include "hx_ref.hpp"

namespace hx {

static uint64_t be(const uint8_t* p, int n) { uint64_t v = 0; for (int i = 0; i < n; ++i) v = v << 8 | p[i]; return v; }

// header decode: returns false if truncated/invalid
static int head(const uint8_t* p, size_t left, Ev& e) {
    if (left < 1) return D_TRUNC;
    uint8_t b = p[0];
    e.u = 0; e.n = 0; e.et = 0; e.swire = false; e.hdr = 1;
    #define NEED(x) do { if (left < (size_t)(x)) return D_TRUNC; e.hdr = (x); } while (0)
    if (b < 0x80) { e.k = K_UINT; e.u = b; return D_OK; }
    if (b < 0x90) { e.k = K_MAP; e.n = b & 15; return D_OK; }
    if (b < 0xa0) { e.k = K_ARR; e.n = b & 15; return D_OK; }
    if (b < 0xc0) { e.k = K_STR; e.n = b & 31; return D_OK; }
    if (b >= 0xe0) { e.k = K_INT; e.u = (uint64_t)(int64_t)(int8_t)b; e.swire = true; return D_OK; }
    switch (b) {
        case 0xc0: e.k = K_NIL; return D_OK;
        case 0xc1: return D_INVALID;
        case 0xc2: case 0xc3: e.k = K_BOOL; e.u = b & 1; return D_OK;
        case 0xc4: NEED(2); e.k = K_BIN; e.n = p[1]; return D_OK;
        case 0xc5: NEED(3); e.k = K_BIN; e.n = (uint32_t)be(p + 1, 2); return D_OK;
        case 0xc6: NEED(5); e.k = K_BIN; e.n = (uint32_t)be(p + 1, 4); return D_OK;
        case 0xc7: NEED(3); e.k = K_EXT; e.n = p[1]; e.et = (int8_t)p[2]; return D_OK;
        case 0xc8: NEED(4); e.k = K_EXT; e.n = (uint32_t)be(p + 1, 2); e.et = (int8_t)p[3]; return D_OK;
        case 0xc9: NEED(6); e.k = K_EXT; e.n = (uint32_t)be(p + 1, 4); e.et = (int8_t)p[5]; return D_OK;
        case 0xca: NEED(5); e.k = K_FLT; e.u = be(p + 1, 4); return D_OK;
        case 0xcb: NEED(9); e.k = K_DBL; e.u = be(p + 1, 8); return D_OK;
        case 0xcc: NEED(2); e.k = K_UINT; e.u = p[1]; return D_OK;
        case 0xcd: NEED(3); e.k = K_UINT; e.u = be(p + 1, 2); return D_OK;
        case 0xce: NEED(5); e.k = K_UINT; e.u = be(p + 1, 4); return D_OK;
        case 0xcf: NEED(9); e.k = K_UINT; e.u = be(p + 1, 8); return D_OK;
        case 0xd0: NEED(2); e.u = (uint64_t)(int64_t)(int8_t)p[1]; break;
        case 0xd1: NEED(3); e.u = (uint64_t)(int64_t)(int16_t)be(p + 1, 2); break;
        case 0xd2: NEED(5); e.u = (uint64_t)(int64_t)(int32_t)be(p + 1, 4); break;
        case 0xd3: NEED(9); e.u = be(p + 1, 8); break;
        case 0xd4: case 0xd5: case 0xd6: case 0xd7: case 0xd8:
            NEED(2); e.k = K_EXT; e.n = 1u << (b - 0xd4); e.et = (int8_t)p[1]; return D_OK;
        case 0xd9: NEED(2); e.k = K_STR; e.n = p[1]; return D_OK;
        case 0xda: NEED(3); e.k = K_STR; e.n = (uint32_t)be(p + 1, 2); return D_OK;
        case 0xdb: NEED(5); e.k = K_STR; e.n = (uint32_t)be(p + 1, 4); return D_OK;
        case 0xdc: NEED(3); e.k = K_ARR; e.n = (uint32_t)be(p + 1, 2); return D_OK;
        case 0xdd: NEED(5); e.k = K_ARR; e.n = (uint32_t)be(p + 1, 4); return D_OK;
        case 0xde: NEED(3); e.k = K_MAP; e.n = (uint32_t)be(p + 1, 2); return D_OK;
        case 0xdf: NEED(5); e.k = K_MAP; e.n = (uint32_t)be(p + 1, 4); return D_OK;
    }
    // signed encodings d0..d3
    e.swire = true;
    e.k = (int64_t)e.u < 0 ? K_INT : K_UINT;
    return D_OK;
    #undef NEED
}

Dec decode(const uint8_t* p, size_t n, size_t at, size_t max_ev) {
    Dec d; d.err = D_OK; d.used = 0; d.bad = (size_t)-1; d.bad_off = 0; d.maxdepth = 0;
    struct Fr { uint64_t left; size_t idx; };
    std::vector<Fr> st;
    size_t o = at;
    uint64_t top = 1;
    for (;;) {
        // pop finished containers
        while (!st.empty() && st.back().left == 0) { d.ev[st.back().idx].next = d.ev.size(); st.pop_back(); }
        if (st.empty()) { if (top == 0) break; top = 0; }
        else st.back().left--;
        Ev e; e.off = o; e.depth = st.size();
        static const uint8_t dummy = 0;
        int x = d.ev.size() >= max_ev ? (int)D_TRUNC : head(o < n ? p + o : &dummy, o < n ? n - o : 0, e);
        if (x != D_OK) { d.err = (DErr)x; d.bad = d.ev.size(); d.bad_off = o; break; }
        e.next = d.ev.size() + 1;
        d.ev.push_back(e);
        if (e.depth + 1 > d.maxdepth) d.maxdepth = e.depth + 1;
        o += e.hdr;
        if (e.k == K_STR || e.k == K_BIN || e.k == K_EXT) {
            if (e.n > n - o) { d.err = D_TRUNC; d.bad = d.ev.size() - 1; d.bad_off = e.off; break; }
            o += e.n;
        } else if (e.k == K_ARR) st.push_back({e.n, d.ev.size() - 1});
        else if (e.k == K_MAP) st.push_back({(uint64_t)e.n * 2, d.ev.size() - 1});
    }
    if (d.err == D_OK) d.used = o - at;
    else for (auto& f : st) d.ev[f.idx].next = (size_t)-1;
    return d;
}

bool equal_ev(const Ev& a, const uint8_t* pa, const Ev& b, const uint8_t* pb) {
    if (a.k != b.k || a.u != b.u || a.n != b.n || a.et != b.et) return false;
    if (a.k == K_STR || a.k == K_BIN || a.k == K_EXT) return a.n == 0 || memcmp(pa + a.pay(), pb + b.pay(), a.n) == 0;
    return true;
}

void put_be(Bytes& o, uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) o.push_back((uint8_t)(v >> (8 * i))); }

static void enc_uint(Bytes& o, uint64_t u, Style st, Rng* r) {
    // candidate encodings that can hold u, in order of size
    struct C { int tag; int n; };
    C c[9]; int nc = 0;
    if (u < 128) c[nc++] = {-1, 0};
    if (u <= 0xff) c[nc++] = {0xcc, 1};
    if (u <= 0xffff) c[nc++] = {0xcd, 2};
    if (u <= 0xffffffffull) c[nc++] = {0xce, 4};
    c[nc++] = {0xcf, 8};
    if (st == ST_RANDOM) {
        if (u <= 0x7f) c[nc++] = {0xd0, 1};
        if (u <= 0x7fff) c[nc++] = {0xd1, 2};
        if (u <= 0x7fffffff) c[nc++] = {0xd2, 4};
        if (u <= 0x7fffffffffffffffull) { if (nc < 9) c[nc++] = {0xd3, 8}; else c[8] = {0xd3, 8}; }
    }
    C x = c[st == ST_RANDOM && r->chance(2, 3) ? r->below((uint64_t)nc) : 0];
    if (x.tag < 0) o.push_back((uint8_t)u); else { o.push_back((uint8_t)x.tag); put_be(o, u, x.n); }
}
static void enc_int(Bytes& o, int64_t v, Style st, Rng* r) { // v < 0
    struct C { int tag; int n; };
    C c[5]; int nc = 0;
    if (v >= -32) c[nc++] = {-1, 0};
    if (v >= -128) c[nc++] = {0xd0, 1};
    if (v >= -32768) c[nc++] = {0xd1, 2};
    if (v >= -2147483648ll) c[nc++] = {0xd2, 4};
    c[nc++] = {0xd3, 8};
    C x = c[st == ST_RANDOM && r->chance(2, 3) ? r->below((uint64_t)nc) : 0];
    if (x.tag < 0) o.push_back((uint8_t)v); else { o.push_back((uint8_t)x.tag); put_be(o, (uint64_t)v, x.n); }
}

void enc_head(Bytes& o, const V& v, uint32_t n, Style st, Rng* r) {
    int w = 0; // extra widening steps
    if (st == ST_RANDOM && r->chance(1, 2)) w = (int)r->below(4);
    switch (v.k) {
        case K_NIL: o.push_back(0xc0); break;
        case K_BOOL: o.push_back(v.u ? 0xc3 : 0xc2); break;
        case K_UINT: enc_uint(o, v.u, st, r); break;
        case K_INT: enc_int(o, (int64_t)v.u, st, r); break;
        case K_FLT: o.push_back(0xca); put_be(o, v.u, 4); break;
        case K_DBL: o.push_back(0xcb); put_be(o, v.u, 8); break;
        case K_STR: case K_BIN: {
            bool str = v.k == K_STR || st == ST_V4;
            // levels: 0 fixstr, 1 8-bit, 2 16-bit, 3 32-bit
            int lv = n <= 31 && str ? 0 : n <= 0xff ? 1 : n <= 0xffff ? 2 : 3;
            if (st == ST_V4 && lv == 1) lv = 2;
            lv = lv + w > 3 ? 3 : lv + w;
            if (lv == 0) o.push_back((uint8_t)(0xa0 | n));
            else if (lv == 1) { o.push_back(str ? 0xd9 : 0xc4); put_be(o, n, 1); }
            else if (lv == 2) { o.push_back(str ? 0xda : 0xc5); put_be(o, n, 2); }
            else { o.push_back(str ? 0xdb : 0xc6); put_be(o, n, 4); }
            break;
        }
        case K_EXT: {
            bool fix = (n == 1 || n == 2 || n == 4 || n == 8 || n == 16);
            int lv = fix ? 0 : n <= 0xff ? 1 : n <= 0xffff ? 2 : 3;
            lv = lv + w > 3 ? 3 : lv + w;
            if (lv == 0) { int q = n == 1 ? 0 : n == 2 ? 1 : n == 4 ? 2 : n == 8 ? 3 : 4; o.push_back((uint8_t)(0xd4 + q)); }
            else if (lv == 1) { o.push_back(0xc7); put_be(o, n, 1); }
            else if (lv == 2) { o.push_back(0xc8); put_be(o, n, 2); }
            else { o.push_back(0xc9); put_be(o, n, 4); }
            o.push_back((uint8_t)v.et);
            break;
        }
        case K_ARR: case K_MAP: {
            bool a = v.k == K_ARR;
            int lv = n <= 15 ? 0 : n <= 0xffff ? 1 : 2;
            lv = lv + w > 2 ? 2 : lv + w;
            if (lv == 0) o.push_back((uint8_t)((a ? 0x90 : 0x80) | n));
            else if (lv == 1) { o.push_back(a ? 0xdc : 0xde); put_be(o, n, 2); }
            else { o.push_back(a ? 0xdd : 0xdf); put_be(o, n, 4); }
            break;
        }
    }
}
void enc(Bytes& o, const V& v, Style st, Rng* r) {
    uint32_t n = v.k == K_ARR ? (uint32_t)v.c.size() : v.k == K_MAP ? (uint32_t)(v.c.size() / 2) : (uint32_t)v.s.size();
    enc_head(o, v, n, st, r);
    if (v.k == K_STR || v.k == K_BIN || v.k == K_EXT) o.insert(o.end(), v.s.begin(), v.s.end());
    for (auto& x : v.c) enc(o, x, st, r);
}
bool has_ext(const V& v) { if (v.k == K_EXT) return true; for (auto& x : v.c) if (has_ext(x)) return true; return false; }
size_t node_count(const V& v) { size_t n = 1; for (auto& x : v.c) n += node_count(x); return n; }
size_t val_depth(const V& v) { size_t d = 0; for (auto& x : v.c) d = std::max(d, val_depth(x)); return d + 1; }
void describe(const V& v, char* buf, size_t n) {
    size_t o = 0;
    struct W { static void go(const V& v, char* b, size_t n, size_t& o) {
        if (o + 40 > n) return;
        switch (v.k) {
            case K_ARR: case K_MAP:
                o += (size_t)snprintf(b + o, n - o, v.k == K_ARR ? "[" : "{");
                for (size_t i = 0; i < v.c.size() && o + 60 < n; ++i) { if (i) o += (size_t)snprintf(b + o, n - o, ","); go(v.c[i], b, n, o); }
                o += (size_t)snprintf(b + o, n - o, v.k == K_ARR ? "]" : "}"); break;
            case K_STR: case K_BIN: case K_EXT: o += (size_t)snprintf(b + o, n - o, "%s(%zu)", kname(v.k), v.s.size()); break;
            case K_NIL: o += (size_t)snprintf(b + o, n - o, "nil"); break;
            default: o += (size_t)snprintf(b + o, n - o, "%s:%llx", kname(v.k), (unsigned long long)v.u);
        } } };
    buf[0] = 0; W::go(v, buf, n, o);
}

uint64_t gen_u64(Rng& r) {
    switch (r.below(8)) {
        case 0: return r.below(140);
        case 1: { unsigned b = (unsigned)r.below(65); uint64_t x = b == 64 ? 0 : 1ull << b; return x + r.below(5) - 2; }
        case 2: { unsigned b = (unsigned)r.below(65); uint64_t x = b == 64 ? 0 : 1ull << b; return (uint64_t)0 - (x + r.below(5) - 2); }
        case 3: { static const uint64_t t[] = {0,1,23,24,31,32,33,126,127,128,129,254,255,256,257,32766,32767,32768,32769,65534,65535,65536,65537,
                    0x7ffffffe,0x7fffffff,0x80000000ull,0x80000001ull,0xfffffffeull,0xffffffffull,0x100000000ull,0x100000001ull,
                    0x7ffffffffffffffeull,0x7fffffffffffffffull,0x8000000000000000ull,0x8000000000000001ull,~0ull,~0ull-1};
                  uint64_t v = r.pick(t); return r.chance(1, 2) ? v : (uint64_t)0 - v; }
        case 4: return r.next() >> r.below(64);
        case 5: return (uint64_t)((int64_t)r.next() >> r.below(64));
        case 6: return (uint64_t)0 - r.below(140);
        default: return r.next();
    }
}
size_t gen_len(Rng& r, bool big) {
    static const size_t t[] = {0,1,2,3,4,5,7,8,9,12,15,16,17,30,31,32,33,34,63,64,65,100,126,127,128,129,254,255,256,257,258};
    unsigned x = (unsigned)r.below(100);
    if (x < 50) return r.below(20);
    if (x < 85 || !big) return r.pick(t);
    if (x < 97) return r.below(1200);
    if (x < 99) { static const size_t b[] = {4094,4095,4096,4097,5000,8191,8192,8193}; return r.pick(b); }
    { static const size_t b[] = {65534,65535,65536,65537,70000}; return r.pick(b); }
}
static void put_cp(Bytes& o, uint32_t c) {
    if (c < 0x80) o.push_back((uint8_t)c);
    else if (c < 0x800) { o.push_back((uint8_t)(0xc0 | c >> 6)); o.push_back((uint8_t)(0x80 | (c & 63))); }
    else if (c < 0x10000) { o.push_back((uint8_t)(0xe0 | c >> 12)); o.push_back((uint8_t)(0x80 | (c >> 6 & 63))); o.push_back((uint8_t)(0x80 | (c & 63))); }
    else { o.push_back((uint8_t)(0xf0 | c >> 18)); o.push_back((uint8_t)(0x80 | (c >> 12 & 63))); o.push_back((uint8_t)(0x80 | (c >> 6 & 63))); o.push_back((uint8_t)(0x80 | (c & 63))); }
}
Bytes gen_str(Rng& r, size_t n, int fl) {
    Bytes b;
    if (fl == 2) { b.resize(n); for (auto& x : b) x = (uint8_t)r.next(); return b; }
    while (b.size() < n) {
        size_t left = n - b.size();
        if (fl == 0 || left == 1 || r.chance(1, 2)) { b.push_back(fl == 3 && r.chance(1, 8) ? 0 : (uint8_t)(0x20 + r.below(0x5f))); continue; }
        static const uint32_t cps[] = {0x80,0x7ff,0x800,0xffff,0x10000,0x10ffff,0xd7ff,0xe000,0xfffd,0xe9,0x20ac,0x1f600,0x1,0x7f};
        uint32_t c = r.pick(cps); Bytes q; put_cp(q, c);
        if (q.size() <= left) b.insert(b.end(), q.begin(), q.end());
    }
    return b;
}
// on i386 a signalling NaN is quieted by the ABI itself whenever a float or double is returned
bool g_quiet_nans = false;
uint64_t abi_flt(uint64_t u) {
#if defined(__i386__)
    if (1)
#else
    if (g_quiet_nans)
#endif
    if ((u & 0x7f800000u) == 0x7f800000u && (u & 0x7fffffu)) u |= 0x400000u;
    return u;
}
uint64_t abi_dbl(uint64_t u) {
#if defined(__i386__)
    if (1)
#else
    if (g_quiet_nans)
#endif
    if ((u & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (u & 0xfffffffffffffull)) u |= 0x8000000000000ull;
    return u;
}
V gen_scalar(Rng& r, const GenOpt& o) {
    for (;;) {
        switch (r.below(10)) {
            case 0: return V(K_NIL);
            case 1: { V v(K_BOOL); v.u = r.below(2); return v; }
            case 2: case 3: { V v(K_UINT); v.u = gen_u64(r); return v; }
            case 4: { uint64_t u = gen_u64(r); V v((int64_t)u < 0 ? K_INT : K_UINT); v.u = u; return v; }
            case 5: { if (!o.flt) continue; V v(K_FLT); static const uint32_t t[] = {0,0x80000000u,0x3f800000u,0x7f800000u,0xff800000u,0x7fc00000u,0x7f800001u,0xffc00001u,1,0x007fffffu,0x7f7fffffu}; v.u = r.chance(1,2) ? r.pick(t) : (uint32_t)r.next(); v.u = abi_flt(v.u); return v; }
            case 6: { if (!o.flt) continue; V v(K_DBL); static const uint64_t t[] = {0,0x8000000000000000ull,0x3ff0000000000000ull,0x7ff0000000000000ull,0xfff0000000000000ull,0x7ff8000000000000ull,0x7ff0000000000001ull,1,0x000fffffffffffffull,0x7fefffffffffffffull,0x47efffffe0000000ull,0x36a0000000000000ull}; v.u = abi_dbl(r.chance(1,2) ? r.pick(t) : r.next()); return v; }
            case 7: { V v(K_STR); size_t n = gen_len(r, o.bigstr); v.s = gen_str(r, n, o.nonutf8 ? (int)r.below(4) : (int)r.below(2)); return v; }
            case 8: { V v(K_BIN); v.s = gen_str(r, gen_len(r, o.bigstr), 2); return v; }
            default: { if (!o.ext) continue; V v(K_EXT); static const int8_t t[] = {0,1,-1,127,-128,5}; v.et = r.pick(t); size_t n = gen_len(r, o.bigstr); if (r.chance(1, 2)) { static const size_t f[] = {1,2,4,8,16,12,0,3}; n = r.pick(f); } v.s = gen_str(r, n, 2); return v; }
        }
    }
}
static V gen_rec(Rng& r, const GenOpt& o, unsigned depth, unsigned& budget) {
    if (budget) budget--;
    if (depth >= o.maxdepth || budget == 0 || (depth > 0 && r.chance(3, 5))) return gen_scalar(r, o);
    bool map = r.chance(1, 2);
    V v(map ? K_MAP : K_ARR);
    size_t n;
    switch (r.below(8)) {
        case 0: n = 0; break;
        case 1: { static const size_t t[] = {14,15,16,17}; n = r.pick(t); break; }
        case 2: n = r.below(40); break;
        default: n = r.below(6);
    }
    if (n > budget + 1) n = budget + 1;
    for (size_t i = 0; i < (map ? 2 * n : n); ++i) v.c.push_back(gen_rec(r, o, depth + 1, budget));
    return v;
}
V gen_value(Rng& r, const GenOpt& o) {
    unsigned b = (unsigned)r.range(1, o.budget);
    V v = gen_rec(r, o, r.chance(1, 10) ? o.maxdepth : 0, b);
    if (o.wide && r.chance(1, 12)) { // wide container of small scalars
        bool map = r.chance(1, 3); V w(map ? K_MAP : K_ARR);
        static const size_t t[] = {65535, 65536, 300, 1000, 4096, 255, 256, 257}; size_t n = r.pick(t);
        for (size_t i = 0; i < (map ? 2 * n : n); ++i) { V x(K_UINT); x.u = i & 127; w.c.push_back(x); }
        return w;
    }
    return v;
}

Bytes gen_soup(Rng& r, size_t n) {
    static const uint8_t tags[] = {0x00,0x7f,0x80,0x81,0x82,0x8f,0x90,0x91,0x92,0x9f,0xa0,0xa1,0xa5,0xbf,0xc0,0xc1,0xc2,0xc3,0xc4,0xc5,0xc6,0xc7,0xc8,0xc9,
        0xca,0xcb,0xcc,0xcd,0xce,0xcf,0xd0,0xd1,0xd2,0xd3,0xd4,0xd5,0xd6,0xd7,0xd8,0xd9,0xda,0xdb,0xdc,0xdd,0xde,0xdf,0xe0,0xff};
    Bytes b;
    while (b.size() < n) {
        if (r.chance(3, 5)) b.push_back(r.pick(tags));
        else if (r.chance(1, 2)) b.push_back((uint8_t)r.below(6));
        else b.push_back((uint8_t)r.next());
    }
    return b;
}
void mutate(Bytes& b, Rng& r) {
    unsigned k = (unsigned)r.range(1, 4);
    while (k--) {
        if (b.empty()) { b.push_back((uint8_t)r.next()); continue; }
        size_t i = r.below(b.size());
        switch (r.below(8)) {
            case 0: b[i] ^= (uint8_t)(1u << r.below(8)); break;
            case 1: b[i] = (uint8_t)r.next(); break;
            case 2: b.resize(i); break;
            case 3: b.insert(b.begin() + (long)i, (uint8_t)r.next()); break;
            case 4: b.erase(b.begin() + (long)i); break;
            case 5: { static const uint8_t t[] = {0xc1,0xc6,0xc9,0xdb,0xdd,0xdf,0xd9,0xc4,0xc7,0xdc,0xde,0xcf,0xd3,0xcb}; b[i] = r.pick(t); break; }
            case 6: for (size_t j = i; j < b.size() && j < i + 4; ++j) b[j] = 0xff; break;
            default: { Bytes s = gen_soup(r, r.below(6) + 1); b.insert(b.begin() + (long)i, s.begin(), s.end()); }
        }
    }
}
Bytes gen_hostile(Rng& r) {
    Bytes b;
    static const uint32_t huge[] = {0xffffffffu,0xfffffffeu,0x80000000u,0x7fffffffu,0x40000000u,0x3fffffffu,0x20000000u,0x1fffffffu,0x15555555u,0x15555556u,0x10000000u,0x0fffffffu,0x10001u,0x10000u,0xffffu,0x100u,0xffu};
    switch (r.below(6)) {
        case 0: { // nested huge containers
            unsigned d = (unsigned)r.range(1, 40);
            while (d--) { b.push_back(r.chance(1, 2) ? 0xdd : 0xdf); put_be(b, r.pick(huge), 4); }
            break; }
        case 1: { // deep nesting of 1-element containers
            unsigned d = (unsigned)r.range(1, r.chance(1, 10) ? 20000 : 300);
            int kind = (int)r.below(3);
            while (d--) { if (kind == 0 || (kind == 2 && r.chance(1, 2))) b.push_back(0x91); else { b.push_back(0x81); b.push_back(0x01); } }
            if (r.chance(1, 2)) b.push_back(0xc0);
            break; }
        case 2: { static const uint8_t t[] = {0xdb,0xc6,0xc9,0xdd,0xdf}; b.push_back(r.pick(t)); put_be(b, r.chance(1, 2) ? r.pick(huge) + (uint32_t)r.below(4) : r.pick(huge), 4); b.push_back(0x05); break; }
        case 3: { static const uint8_t t[] = {0xda,0xc5,0xc8,0xdc,0xde}; b.push_back(r.pick(t)); put_be(b, r.below(65536), 2); break; }
        case 4: { // keys being containers
            unsigned d = (unsigned)r.range(1, 30);
            while (d--) b.push_back(r.chance(1, 2) ? 0x82 : 0x92);
            break; }
        default: { unsigned d = (unsigned)r.range(1, 10); while (d--) { b.push_back(r.chance(1, 2) ? 0xdc : 0xde); put_be(b, r.below(3) ? r.below(20) : 65535, 2); } break; }
    }
    Bytes s = gen_soup(r, r.below(60)); b.insert(b.end(), s.begin(), s.end());
    return b;
}
// the count or length of one element raised by an amount that a narrower calculation would drop
void inflate(Bytes& b, Rng& r) {
    Dec d = decode(b.data(), b.size(), 0, 5000); std::vector<size_t> at;
    for (size_t i = 0; i < d.ev.size(); ++i) if (d.ev[i].k >= K_STR && d.ev[i].k <= K_MAP) at.push_back(i);
    if (at.empty()) return;
    const Ev e = d.ev[r.chance(1, 3) ? at.back() : at[r.below(at.size())]]; bool box = e.k == K_ARR || e.k == K_MAP;
    static const uint32_t up[] = {0x80000000u,0x80000000u,0x40000000u,0xc0000000u,0x20000000u,0x10000000u,0x08000000u,0x04000000u,0xf0000000u,0x10000u,0x20000u,0x100u,0x200u};
    static const uint32_t upm[] = {0x80000000u,0x80000000u,0x80000000u,0x40000000u,0x08000000u,0x88000000u,0x10000u,0x8000u};
    uint32_t n = e.n + (e.k == K_MAP ? r.pick(upm) : r.pick(up)); if (!box && r.chance(1, 3)) n = 0u - 1u - (uint32_t)r.below(24);
    Bytes h; static const uint8_t t[] = {0xdb, 0xc6, 0xc9, 0xdd, 0xdf}; h.push_back(t[e.k - K_STR]); put_be(h, n, 4); if (e.k == K_EXT) h.push_back((uint8_t)e.et);
    b.erase(b.begin() + (long)e.off, b.begin() + (long)(e.off + e.hdr)); b.insert(b.begin() + (long)e.off, h.begin(), h.end());
}
Bytes gen_input(Rng& r, int* kind, const GenOpt& o) {
    Bytes b; int k = (int)r.below(10);
    if (k < 5) { V v = gen_value(r, o); enc(b, v, r.chance(2, 3) ? ST_RANDOM : ST_SHORT, &r);
        if (k == 3 && b.size()) b.resize(r.below(b.size() + 1));
        else if (k == 4) { if (r.chance(1, 2)) inflate(b, r); else mutate(b, r); }
        else if (k == 2) { Bytes t = gen_soup(r, r.below(20)); b.insert(b.end(), t.begin(), t.end()); } }
    else if (k < 8) b = gen_soup(r, r.below(r.chance(1, 4) ? 400 : 40));
    else if (k == 8) b = gen_hostile(r);
    else { b.resize(r.below(60)); for (auto& x : b) x = (uint8_t)r.next(); }
    if (kind) *kind = k;
    return b;
}

bool ref_utf8(const uint8_t* p, size_t n, bool allow_nul) {
    size_t i = 0;
    while (i < n) {
        uint32_t c = p[i]; int k; uint32_t min;
        if (c == 0 && !allow_nul) return false;
        if (c < 0x80) { ++i; continue; }
        else if (c >= 0xc0 && c < 0xe0) { k = 1; c &= 31; min = 0x80; }
        else if (c >= 0xe0 && c < 0xf0) { k = 2; c &= 15; min = 0x800; }
        else if (c >= 0xf0 && c < 0xf8) { k = 3; c &= 7; min = 0x10000; }
        else return false;
        if ((size_t)k > n - i - 1) return false;
        for (int j = 1; j <= k; ++j) { if ((p[i + (size_t)j] & 0xc0) != 0x80) return false; c = c << 6 | (p[i + (size_t)j] & 63u); }
        if (c < min || c > 0x10ffff || (c >= 0xd800 && c <= 0xdfff)) return false;
        i += (size_t)k + 1;
    }
    return true;
}

} // namespace hx
