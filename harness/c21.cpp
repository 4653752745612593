// C21: timestamps are encoded minimally and decoded exactly; invalid ones are rejected.
#include "hx_num.hpp"
#include "hx_tree.hpp"
#include "hx_sink.hpp"
using namespace hx;
const char* prop_rule() { return "case = (seconds, nanoseconds) pairs drawn around every format boundary (0, 2^32, 2^34, sign, int64 limits; nanoseconds 0, 1, 10^9-1, 10^9 and above), written through every timestamp call to every sink, and ext elements of every format, header width, size and type read through read_timestamp, expect_timestamp(_truncate) and the node accessors over every source; non-trivial = every (value or element, call); distinct by (bytes, call)"; }

struct TS { int64_t s; uint32_t ns; };
static int64_t gen_sec(Rng& r) {
    static const int64_t e[] = {0,1,-1,0x7fffffff,0x80000000ll,0xffffffffll,0x100000000ll,0x3fffffffell,0x3ffffffffll,0x400000000ll,0x400000001ll,INT64_MAX,INT64_MIN,INT64_MIN+1,-0x80000000ll,-0x100000000ll,-0x400000000ll};
    switch (r.below(4)) { case 0: return r.pick(e); case 1: return (int64_t)((uint64_t)r.pick(e) + r.range(0, 4) - 2); case 2: return (int64_t)(r.chance(1, 2) ? gen_u64(r) : 0 - gen_u64(r)); default: return (int64_t)r.below(1ull << r.range(1, 40)); }
}
static uint32_t gen_ns(Rng& r, bool valid) {
    static const uint32_t e[] = {0,1,255,256,65535,65536,0x3b9ac9fe,999999999};
    if (!valid) { static const uint32_t b[] = {1000000000u,1000000001u,0x3fffffffu,0x40000000u,0x7fffffffu,0x80000000u,0xffffffffu}; return r.chance(1, 2) ? r.pick(b) : (uint32_t)r.range(1000000000u, 0xffffffffu); }
    return r.chance(1, 3) ? 0 : r.chance(1, 2) ? r.pick(e) : (uint32_t)r.below(1000000000);
}
static int min_format(TS t) { if (t.s >= 0 && t.s <= 0xffffffffll && t.ns == 0) return 4; if (t.s >= 0 && t.s < (1ll << 34)) return 8; return 12; }
static Bytes payload(TS t, int f) { Bytes o; if (f == 4) put_be(o, (uint64_t)t.s, 4); else if (f == 8) put_be(o, (uint64_t)t.ns << 34 | (uint64_t)t.s, 8); else { put_be(o, t.ns, 4); put_be(o, (uint64_t)t.s, 8); } return o; }

static void writes(Rng& r) {
    for (int api = 0; api < 3; ++api) {
        bool valid = r.chance(7, 8), v4 = MPACK_COMPATIBILITY && r.chance(1, 12); TS t; t.s = gen_sec(r); t.ns = api == 1 ? 0 : gen_ns(r, valid); if (api == 1) valid = true;
        Sink k; k.open((SinkMode)r.below(MPACK_STDIO ? W_NMODES : 3), 64 + r.below(40), r.next()); mpack_writer_t* w = &k.w;
#if MPACK_COMPATIBILITY
        if (v4) mpack_writer_set_version(w, mpack_version_v4);
#endif
        bool arr = r.chance(1, 2); unsigned pre = (unsigned)r.below(40), i; if (arr) mpack_start_array(w, pre + 2); for (i = 0; i < pre; ++i) mpack_write_u8(w, (uint8_t)i);
        g_break_ok = !valid || v4; const char* name = "";
        switch (api) { case 0: name = "write_timestamp"; mpack_write_timestamp(w, t.s, t.ns); break; case 1: name = "write_timestamp_seconds"; mpack_write_timestamp_seconds(w, t.s); break; default: { name = "write_timestamp_struct"; mpack_timestamp_t q; q.seconds = t.s; q.nanoseconds = t.ns; mpack_write_timestamp_struct(w, q); } }
        g_break_ok = false; mpack_error_t e = mpack_writer_error(w); HX_CHECK(e == (valid && !v4 ? mpack_ok : mpack_error_bug), "ts-write-verdict", "%s(%lld, %u)%s: %s", name, (long long)t.s, t.ns, v4 ? " in v4 mode" : "", errname(e));
        mpack_write_nil(w); if (arr) mpack_finish_array(w); mpack_error_t d = k.close(); HX_CHECK(d == e, "ts-destroy", "destroy %s after %s", errname(d), errname(e));
        if (e == mpack_ok) {
            Bytes x; V a(K_ARR); if (arr) enc_head(x, a, pre + 2, ST_SHORT, 0); for (i = 0; i < pre; ++i) x.push_back((uint8_t)i);
            int f = min_format(t); if (f == 4) { x.push_back(0xd6); x.push_back(0xff); } else if (f == 8) { x.push_back(0xd7); x.push_back(0xff); } else { x.push_back(0xc7); x.push_back(12); x.push_back(0xff); }
            Bytes p = payload(t, f); x.insert(x.end(), p.begin(), p.end()); x.push_back(0xc0);
            if (k.out != x) { note_hex("wrote", k.out); note_hex("expected", x); fail("ts-bytes", "%s(%lld, %u) wrote a different encoding than the %d-byte form", name, (long long)t.s, t.ns, f); }
            count(f == 4 ? "wrote4" : f == 8 ? "wrote8" : "wrote12");
        } else count("write_rejected");
        eval(); distinct(mix(mix((uint64_t)t.s, t.ns), (uint64_t)api));
    }
}
static const char* R_API[] = {"read_timestamp","expect_timestamp","expect_timestamp_truncate","node_timestamp","node_timestamp_seconds","node_timestamp_nanoseconds"};
static void reads(Rng& r) {
    // an ext element: usually a timestamp, sometimes a different type or size, or no ext at all
    TS t; t.s = gen_sec(r); bool nsok = r.chance(5, 6); t.ns = gen_ns(r, nsok); int f = min_format(t); bool is_ext = true; int8_t et = -1; Bytes p;
    if (f == 4 && r.chance(1, 2)) f = 8;
    if (r.chance(1, 3)) f = 12;
    if (f == 8 && t.ns >= (1u << 30)) f = 12;
    p = payload(t, f); bool good = nsok; mpack_error_t want = mpack_error_invalid;
    int odd = (int)r.below(10);
    if (odd == 0) { static const int8_t o[] = {0,1,-2,127,-128,-3,5}; et = r.pick(o); good = false; want = mpack_error_type; }
    else if (odd == 1) { static const size_t z[] = {0,1,2,3,5,6,7,9,10,11,13,16,24,255,256}; size_t n = r.pick(z); p.resize(n, 0); good = false; }
    else if (odd == 2 && r.chance(1, 2)) { is_ext = false; good = false; want = mpack_error_type; }
    Bytes b; V v(is_ext ? K_EXT : r.chance(1, 2) ? K_BIN : K_UINT); v.et = et; v.s = p; v.u = r.next(); enc(b, v, ST_RANDOM, &r); Dec d0 = decode(b); size_t hdr = d0.ev[0].hdr;
    bool cut = r.chance(1, 10); Bytes whole = b; if (cut) { b.resize(r.below(b.size())); }
    else { b.push_back(0xcd); b.push_back(0xbe); b.push_back(0xef); }
    note_hex("element", b); char what[120]; snprintf(what, sizeof what, "%s type %d of %zu bytes%s (%lld s, %u ns)", is_ext ? "ext" : kname(v.k), et, p.size(), cut ? ", truncated" : "", (long long)t.s, t.ns);
    if (want_sample()) sample("%s", what);
    for (int api = 0; api < 3; ++api) {
        if (api == 0 && (!is_ext || (cut && b.size() < hdr))) continue;
        bool ok = good && !cut; mpack_error_t we = want; if (api == 0 && et != -1) { ok = !cut && (p.size() == 4 || p.size() == 8 || p.size() == 12) && nsok; we = mpack_error_invalid; } // read_timestamp reads whatever ext was opened
        Src s; s.open(b, r.chance(1, 3) ? S_DATA : (SrcMode)r.below(MPACK_STDIO ? S_NMODES : 3), pick_bufsize(r), r.chance(1, 3) ? 1 : -1, r.next()); mpack_reader_t* rd = &s.r; int64_t gs = 0; uint32_t gn = 0;
        if (api == 0) { size_t sz; if (r.chance(1, 2)) { mpack_tag_t g = mpack_read_tag(rd); HX_CHECK(mpack_tag_type(&g) == mpack_type_ext, "ts-tag", "%s read as %s, %s", what, typname(mpack_tag_type(&g)), errname(mpack_reader_error(rd))); sz = mpack_tag_ext_length(&g); } else { int8_t q; sz = mpack_expect_ext(rd, &q); } mpack_timestamp_t x = mpack_read_timestamp(rd, sz); gs = x.seconds; gn = x.nanoseconds; }
        else if (api == 1) { mpack_timestamp_t x = mpack_expect_timestamp(rd); gs = x.seconds; gn = x.nanoseconds; } else gs = mpack_expect_timestamp_truncate(rd);
        mpack_error_t e = mpack_reader_error(rd);
        if (ok) { HX_CHECK(e == mpack_ok, "ts-rejected", "%s rejected %s with %s", R_API[api], what, errname(e)); HX_CHECK(gs == t.s && (api == 2 || gn == t.ns), "ts-value", "%s returned (%lld, %u) for %s", R_API[api], (long long)gs, gn, what); uint16_t z = mpack_expect_u16(rd); HX_CHECK(z == 0xbeef && mpack_reader_error(rd) == mpack_ok, "ts-rest", "%s: the next element is wrong", R_API[api]); count("accepted"); }
        else { HX_CHECK(e != mpack_ok, "ts-accepted", "%s accepted %s", R_API[api], what); HX_CHECK(gs == 0 && gn == 0, "ts-safe", "%s returned (%lld, %u) with %s for %s", R_API[api], (long long)gs, gn, errname(e), what);
            HX_CHECK(e == we || (cut && (expected_truncation_error(e, s.streaming()) || e == mpack_error_invalid)), "ts-error", "%s flagged %s for %s", R_API[api], errname(e), what); count("rejected"); }
        s.close(); eval(); distinct(hash_bytes(b, (uint64_t)api));
    }
    if (cut) return;
    for (int api = 3; api < 6; ++api) {
        bool arr = r.chance(1, 2); Bytes m; if (arr) m.push_back(0x91); m.insert(m.end(), whole.begin(), whole.end()); Tree tr; tr.open(m, (TMode)r.below(T_USABLE), -1, r.next(), 0, 0, 2); HX_CHECK(tr.parse(false), "ts-parse", "parse failed: %s", errname(tr.error()));
        mpack_node_t n = mpack_tree_root(&tr.t); if (arr) n = mpack_node_array_at(n, 0); int64_t gs = 0; uint32_t gn = 0;
        if (api == 3) { mpack_timestamp_t x = mpack_node_timestamp(n); gs = x.seconds; gn = x.nanoseconds; } else if (api == 4) gs = mpack_node_timestamp_seconds(n); else gn = mpack_node_timestamp_nanoseconds(n);
        mpack_error_t e = tr.error();
        if (good) { HX_CHECK(e == mpack_ok, "ts-rejected", "%s rejected %s with %s", R_API[api], what, errname(e)); HX_CHECK((api == 5 || gs == t.s) && (api == 4 || gn == t.ns), "ts-value", "%s returned (%lld, %u) for %s", R_API[api], (long long)gs, gn, what); count("accepted"); }
        else { HX_CHECK(e == want, "ts-error", "%s flagged %s for %s", R_API[api], errname(e), what); HX_CHECK(gs == 0 && gn == 0, "ts-safe", "%s returned (%lld, %u) with %s for %s", R_API[api], (long long)gs, gn, errname(e), what);
            if (r.chance(1, 2)) { mpack_timestamp_t x = mpack_node_timestamp(n); HX_CHECK(x.seconds == 0 && x.nanoseconds == 0 && tr.log.errors == 1, "ts-sticky", "second call after error"); } count("rejected"); }
        tr.close(); eval(); distinct(hash_bytes(m, (uint64_t)api));
    }
}
void prop_case(uint64_t idx, Rng& r) { (void)idx; for (int i = 0; i < 30; ++i) { clear_notes(); writes(r); reads(r); } }
