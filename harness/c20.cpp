// C20: usage tracking flags exactly unbalanced or miscounted use.
#include "hx_sink.hpp"
#include "hx_src.hpp"
using namespace hx;
const char* prop_rule() { return "case = a correct writer or reader program over a generated value (containers declared or built, payloads in pieces, by any close call), run as is (no error, right bytes and elements) and then with one misuse planted at a random place: wrong close type, element too many or too few, bytes too many or too few, element inside a payload, bytes outside of one, missing or extra close, build closed as plain or the other way round, flush or remaining-data query or destruction with something open; non-trivial = a misuse that must end in the bug error; distinct by (program, misuse, place)"; }

enum OK { O_ELEM, O_OPEN, O_BYTES, O_CLOSE, O_BUILD, O_COMPLETE, O_FLUSH, O_STRALL };
static const char* const OPN[] = {"element", "open", "bytes", "close", "build", "complete", "flush", "whole string"};
struct Op { OK k; V v; uint32_t n; size_t off; unsigned depth; int parent; bool sub; // parent: index of the opening op, -1 at top level; sub: O_ELEM stands for a whole subtree
    Op(OK kk) : k(kk), n(0), off(0), depth(0), parent(-1), sub(false) {} };
typedef std::vector<Op> Prog;

static void add(Prog& p, const Op& o, int parent, unsigned depth) { p.push_back(o); p.back().parent = parent; p.back().depth = depth; }
static void make(Prog& p, const V& v, Rng& r, bool writer, int parent, unsigned depth) {
    bool pay = v.k == K_STR || v.k == K_BIN || v.k == K_EXT, cont = v.k == K_ARR || v.k == K_MAP;
    if (pay && r.chance(1, 2)) {
        Op o(O_OPEN); o.v = v; o.v.s.clear(); o.n = (uint32_t)v.s.size(); int me = (int)p.size(); add(p, o, parent, depth);
        size_t at = 0; if (!writer && v.k == K_STR && v.s.size() && ref_utf8(v.s.data(), v.s.size(), true) && r.chance(1, 3)) { Op b(O_STRALL); b.v = V(K_STR); b.v.s = v.s; b.n = o.n; add(p, b, me, depth + 1); at = v.s.size(); }
        while (at < v.s.size()) { size_t k = 1 + r.below(v.s.size() - at < 4 || r.chance(1, 2) ? v.s.size() - at : 60); if (k > v.s.size() - at) k = v.s.size() - at; Op b(O_BYTES); b.v = V(K_STR); b.v.s.assign(v.s.begin() + (long)at, v.s.begin() + (long)(at + k)); b.n = (uint32_t)k; add(p, b, me, depth + 1); at += k; }
        Op c(O_CLOSE); c.v = V(v.k); add(p, c, me, depth + 1); return;
    }
    if (cont && !(r.chance(1, 8) && !writer)) {
        bool build = writer && MPACK_BUILDER && r.chance(1, 3);
        Op o(build ? O_BUILD : O_OPEN); o.v = V(v.k); o.n = (uint32_t)(v.k == K_MAP ? v.c.size() / 2 : v.c.size()); int me = (int)p.size(); add(p, o, parent, depth);
        for (auto& c : v.c) make(p, c, r, writer, me, depth + 1);
        Op c(build ? O_COMPLETE : O_CLOSE); c.v = V(v.k); add(p, c, me, depth + 1); return;
    }
    Op o(O_ELEM); o.v = v; o.sub = true; add(p, o, parent, depth);
}
static void w_close(mpack_writer_t* w, K k, Rng& r) {
    static const mpack_type_t T[] = {mpack_type_str, mpack_type_bin,
#if MPACK_EXTENSIONS
        mpack_type_ext,
#else
        mpack_type_nil,
#endif
        mpack_type_array, mpack_type_map};
    if (r.chance(1, 3)) { mpack_finish_type(w, T[k - K_STR]); return; }
    switch (k) { case K_STR: mpack_finish_str(w); break; case K_BIN: mpack_finish_bin(w); break; case K_ARR: mpack_finish_array(w); break; case K_MAP: mpack_finish_map(w); break;
#if MPACK_EXTENSIONS
        case K_EXT: mpack_finish_ext(w); break;
#endif
        default: break; }
}
static void w_op(mpack_writer_t* w, const Op& o, Rng& r) {
    switch (o.k) {
        case O_ELEM: { EmitOpt e; e.objbytes = true; emit(w, o.v, r, e); break; }
        case O_OPEN: switch (o.v.k) { case K_STR: mpack_start_str(w, o.n); break; case K_BIN: mpack_start_bin(w, o.n); break; case K_ARR: mpack_start_array(w, o.n); break; case K_MAP: mpack_start_map(w, o.n); break;
#if MPACK_EXTENSIONS
            case K_EXT: mpack_start_ext(w, o.v.et, o.n); break;
#endif
            default: break; } break;
        case O_BYTES: { Guard g(o.v.s); mpack_write_bytes(w, g.p, g.n); break; }
        case O_CLOSE: w_close(w, o.v.k, r); break;
#if MPACK_BUILDER
        case O_BUILD: if (o.v.k == K_MAP) mpack_build_map(w); else mpack_build_array(w); break;
        case O_COMPLETE: if (o.v.k == K_MAP) mpack_complete_map(w); else mpack_complete_array(w); break;
#endif
        case O_FLUSH: mpack_writer_flush_message(w); break;
        default: break;
    }
}
static void r_op(mpack_reader_t* rd, const Op& o, Rng& r, bool check) {
    switch (o.k) {
        case O_ELEM: if (o.v.k == K_ARR || o.v.k == K_MAP || o.v.k == K_STR || o.v.k == K_BIN || o.v.k == K_EXT || r.chance(1, 4)) mpack_discard(rd); else { if (r.chance(1, 4)) mpack_peek_tag(rd); mpack_tag_t t = mpack_read_tag(rd); if (check) { Ev e; memset(&e, 0, sizeof e); e.k = o.v.k; e.u = o.v.u; (void)e; char b[80]; tag_str(t, b, sizeof b); HX_CHECK(mpack_reader_error(rd) == mpack_ok, "correct-program", "reading %s failed with %s", b, errname(mpack_reader_error(rd))); } } break;
        case O_OPEN: {
            unsigned how = (unsigned)r.below(3);
            switch (o.v.k) {
                case K_ARR: if (how == 0) { uint32_t n = mpack_expect_array(rd); HX_CHECK(!check || n == o.n, "correct-program", "array count %u, expected %u", n, o.n); return; } if (how == 1) { mpack_expect_array_match(rd, o.n); return; } break;
                case K_MAP: if (how == 0) { uint32_t n = mpack_expect_map(rd); HX_CHECK(!check || n == o.n, "correct-program", "map count %u, expected %u", n, o.n); return; } if (how == 1) { mpack_expect_map_match(rd, o.n); return; } break;
                case K_STR: if (how == 0) { uint32_t n = mpack_expect_str(rd); HX_CHECK(!check || n == o.n, "correct-program", "str length %u, expected %u", n, o.n); return; } break;
                case K_BIN: if (how == 0) { uint32_t n = mpack_expect_bin(rd); HX_CHECK(!check || n == o.n, "correct-program", "bin length %u, expected %u", n, o.n); return; } break;
                default: break;
            }
            mpack_tag_t t = mpack_read_tag(rd); (void)t; break; }
        case O_BYTES: {
            size_t n = o.n; unsigned how = (unsigned)r.below(4);
            if (how == 0) mpack_skip_bytes(rd, n);
            else if (how == 1 && mpack_should_read_bytes_inplace(rd, n)) { const char* p = mpack_read_bytes_inplace(rd, n); if (check) HX_CHECK(p && !memcmp(p, o.v.s.data(), n), "correct-program", "payload differs"); }
            else if (how == 2) { char* p = mpack_read_bytes_alloc(rd, n); if (check) HX_CHECK(p && !memcmp(p, o.v.s.data(), n), "correct-program", "payload differs"); MPACK_FREE(p); }
            else { Guard g(n); mpack_read_bytes(rd, g.p, n); if (check) HX_CHECK(!memcmp(g.p, o.v.s.data(), n), "correct-program", "payload differs"); }
            break; }
        case O_STRALL: { // calls that read a string as a whole
            size_t n = o.n; unsigned how = (unsigned)r.below(4); bool nul = memchr(o.v.s.data(), 0, n) != 0; Guard g(n + 1); const char* p = g.p; if (how >= 2 && nul) how = 0; if (how == 1 && !mpack_should_read_bytes_inplace(rd, n)) how = 0; // (a refusal for want of room is not misuse)
            if (how == 0) mpack_read_utf8(rd, g.p, n); else if (how == 1) p = mpack_read_utf8_inplace(rd, n); else if (how == 2) mpack_read_cstr(rd, g.p, n + 1, n); else mpack_read_utf8_cstr(rd, g.p, n + 1, n);
            if (check) HX_CHECK(p && !memcmp(p, o.v.s.data(), n) && (how < 2 || p[n] == 0), "correct-program", "string differs"); count("whole_string_reads"); break; }
        case O_CLOSE: {
            static const mpack_type_t T[] = {mpack_type_str, mpack_type_bin,
#if MPACK_EXTENSIONS
                mpack_type_ext,
#else
                mpack_type_nil,
#endif
                mpack_type_array, mpack_type_map};
            if (r.chance(1, 3)) { mpack_done_type(rd, T[o.v.k - K_STR]); break; }
            switch (o.v.k) { case K_STR: mpack_done_str(rd); break; case K_BIN: mpack_done_bin(rd); break; case K_ARR: mpack_done_array(rd); break; case K_MAP: mpack_done_map(rd); break;
#if MPACK_EXTENSIONS
                case K_EXT: mpack_done_ext(rd); break;
#endif
                default: break; }
            break; }
        case O_FLUSH: { const char* p; mpack_reader_remaining(rd, &p); break; }
        default: break;
    }
}
static bool is_pay(const Op& o) { return o.v.k == K_STR || o.v.k == K_BIN || o.v.k == K_EXT; }
// end of the subtree that starts at op i
static size_t sub_end(const Prog& p, size_t i) { if (p[i].k != O_OPEN && p[i].k != O_BUILD) return i + 1; size_t j = i + 1; while (j < p.size() && !((p[j].k == O_CLOSE || p[j].k == O_COMPLETE) && p[j].parent == (int)i)) ++j; return j + 1; }
// plants one misuse; returns its name or null if there was no place for it
static const char* const NAMES[] = {"wrong close type", "element too many", "element too few", "bytes too many", "bytes too few", "element inside a payload", "missing close", "extra close", "destroyed while open", "bytes outside of a payload", "flush or query while open", "build closed as plain or the other way round", "whole string read of a part or of another type"};
static const char* plant(Prog& p, int m, Rng& r, bool writer, size_t& where) {
    std::vector<size_t> c; size_t n = p.size();
    Op nil(O_ELEM); nil.v = V(K_NIL);
    for (size_t i = 0; i < n; ++i) { const Op& o = p[i]; const Op* par = o.parent >= 0 ? &p[(size_t)o.parent] : 0; bool close = o.k == O_CLOSE || o.k == O_COMPLETE, ok = false;
        switch (m) {
            case 0: ok = close; break;
            case 1: ok = (o.k == O_CLOSE && !is_pay(*par)) || (o.k == O_COMPLETE && par->v.k == K_MAP); break;
            case 2: ok = (o.k == O_CLOSE && !is_pay(*par) && par->n > 0) || (o.k == O_COMPLETE && par->v.k == K_MAP && par->n > 0); break;
            case 3: ok = o.k == O_CLOSE && is_pay(*par); break;
            case 4: ok = o.k == O_BYTES || o.k == O_STRALL; break;
            case 5: ok = par && par->k == O_OPEN && is_pay(*par); break;   // before any bytes or the close
            case 6: ok = close; break;
            case 7: ok = o.depth == 0; break;
            case 8: ok = o.depth > 0; break;
            case 9: ok = !(par && par->k == O_OPEN && is_pay(*par)); break;
            case 10: ok = o.depth > 0; break;
            case 11: ok = writer && MPACK_BUILDER && close && !is_pay(*par); break;
            case 12: ok = !writer && o.k == O_BYTES && par && par->k == O_OPEN && (par->v.k != K_STR || (i + 1 < n && p[i + 1].k == O_BYTES)); break;
        }
        if (ok) c.push_back(i); }
    if (c.empty()) return 0;
    size_t i = where = r.pick(c);
    switch (m) {
        case 0: { K old = p[i].v.k; static const K A[] = {K_STR, K_BIN, K_EXT, K_ARR, K_MAP}; static const K B[] = {K_ARR, K_MAP}; do p[i].v.k = p[i].k == O_COMPLETE ? r.pick(B) : r.pick(A); while (p[i].v.k == old || (p[i].v.k == K_EXT && !MPACK_EXTENSIONS)); break; }
        case 1: p.insert(p.begin() + (long)i, nil); break;
        case 2: { size_t j = (size_t)p[i].parent + 1, last = j; while (j < i) { last = j; j = sub_end(p, j); } p.erase(p.begin() + (long)last, p.begin() + (long)i); break; }
        case 3: { Op b(O_BYTES); b.v = V(K_STR); b.n = 1 + (uint32_t)r.below(5); b.v.s.assign(b.n, 'x'); p.insert(p.begin() + (long)i, b); break; }
        case 4: { uint32_t cut = 1 + (uint32_t)r.below(p[i].n); p[i].n -= cut; p[i].v.s.resize(p[i].n); if (p[i].n == 0) p.erase(p.begin() + (long)i); break; }
        case 5: p.insert(p.begin() + (long)i, nil); break;
        case 6: p.erase(p.begin() + (long)i); break;
        case 7: { Op x(O_CLOSE); static const K A[] = {K_STR, K_BIN, K_ARR, K_MAP}; x.v = V(r.pick(A)); if (writer && MPACK_BUILDER && r.chance(1, 4)) { x.k = O_COMPLETE; x.v = V(r.chance(1, 2) ? K_ARR : K_MAP); } p.insert(p.begin() + (long)i, x); break; }
        case 8: p.resize(i, nil); break;
        case 9: { Op b(O_BYTES); b.v = V(K_STR); b.n = 1 + (uint32_t)r.below(9); b.v.s.assign(b.n, 'y'); p.insert(p.begin() + (long)i, b); break; }
        case 10: { Op f(O_FLUSH); p.insert(p.begin() + (long)i, f); break; }
        case 12: p[i].k = O_STRALL; break;
        case 11: p[i].k = p[i].k == O_CLOSE ? O_COMPLETE : O_CLOSE; break;
    }
    return NAMES[m];
}
static void show(const Prog& p, const char* label) { char b[1500]; size_t n = 0; for (size_t i = 0; i < p.size() && n < sizeof b - 60; ++i) n += (size_t)snprintf(b + n, sizeof b - n, "%s%s %s(%u)", i ? ", " : "", OPN[p[i].k], kname(p[i].v.k), p[i].n); note("%s: %s", label, p.empty() ? "" : b); }

static mpack_error_t run_writer(const Prog& p, Rng& r, Bytes& out, size_t& stopped, bool misuse) {
    Sink s; SinkMode m = (SinkMode)r.below(MPACK_STDIO ? 5 : 3); if (m == W_FIXED && misuse) m = W_FLUSH; s.open(m, m == W_FIXED ? 400000 : 32 + r.below(200), r.next());
    for (stopped = 0; stopped < p.size() && mpack_writer_error(&s.w) == mpack_ok; ++stopped) w_op(&s.w, p[stopped], r);
    for (size_t i = stopped; i < p.size(); ++i) w_op(&s.w, p[i], r); // the rest of the program must be harmless
    mpack_error_t e = s.close(); out = s.out;
    HX_CHECK(s.log.errors == (e != mpack_ok) && s.log.first == e, "callback", "ended with %s, callback ran %d times, first with %s", errname(e), s.log.errors, errname(s.log.first));
    return e;
}
static mpack_error_t run_reader(const Prog& p, const Bytes& b, Rng& r, size_t& stopped, bool misuse) {
    Src s; s.open(b, (SrcMode)r.below(MPACK_STDIO ? S_NMODES : 3), pick_bufsize(r), r.chance(1, 2) ? -1 : 0, r.next());
    for (stopped = 0; stopped < p.size() && mpack_reader_error(&s.r) == mpack_ok; ++stopped) r_op(&s.r, p[stopped], r, !misuse);
    for (size_t i = stopped; i < p.size(); ++i) r_op(&s.r, p[i], r, false);
    mpack_error_t e;
    if (mpack_reader_error(&s.r) == mpack_ok) { e = mpack_reader_destroy(&s.r); if (s.mode == S_STDFILE && !s.close_when_done) fclose(s.fp); } else e = s.close();
    HX_CHECK(s.log.errors == (e != mpack_ok) && s.log.first == e, "callback", "ended with %s, callback ran %d times, first with %s", errname(e), s.log.errors, errname(s.log.first));
    return e;
}
static V nest(Rng& r, unsigned d) { V v(K_STR); v.s = gen_str(r, r.below(40), 0); while (d--) { V w(r.chance(1, 2) ? K_ARR : K_MAP); if (w.k == K_MAP) w.c.push_back(V(K_NIL)); w.c.push_back(v); v = w; } return v; }
void prop_case(uint64_t idx, Rng& r) {
    GenOpt g; g.budget = r.chance(1, 4) ? 120 : 20; g.maxdepth = (unsigned)r.range(2, 10); g.ext = MPACK_EXTENSIONS; g.bigstr = r.chance(1, 4);
    Prog p; Bytes want; std::vector<V> vs; unsigned msgs = (unsigned)r.range(1, 3); bool writer = r.chance(1, 2);
    for (unsigned i = 0; i < msgs; ++i) { V v = r.chance(1, 5) ? nest(r, (unsigned)r.range(1, 40)) : gen_value(r, g); size_t base = p.size(); (void)base; make(p, v, r, writer, -1, 0); if (writer) enc(want, v, ST_SHORT); else enc(want, v, ST_RANDOM, &r); }
    if (want.size() > 380000) return;
    show(p, writer ? "writer program" : "reader program"); if (want_sample()) { char d[60]; snprintf(d, sizeof d, "%s program of %zu steps", writer ? "writer" : "reader", p.size()); sample("%s", d); }
    size_t at; Bytes out;
    for (int i = 0; i < 2; ++i) {
        Rng x(r.next());
        mpack_error_t e = writer ? run_writer(p, x, out, at, false) : run_reader(p, want, x, at, false);
        HX_CHECK(e == mpack_ok, "correct-program", "a correct %s program ended with %s at step %zu of %zu", writer ? "writer" : "reader", errname(e), at, p.size());
        if (writer) HX_CHECK(out == want, "correct-output", "tracking changed the output (%zu bytes, expected %zu)", out.size(), want.size());
        count(writer ? "correct_writer_programs" : "correct_reader_programs"); eval();
    }
    g_break_ok = true;
    for (int m = 0; m < 13; ++m) for (int rep = 0; rep < 2; ++rep) {
        Prog q = p; size_t where = 0; const char* nm = plant(q, m, r, writer, where); if (!nm) continue;
        clear_notes(); show(p, writer ? "writer program" : "reader program"); note("misuse: %s at step %zu", nm, where); show(q, "misused");
        Rng x(r.next()); mpack_error_t e = writer ? run_writer(q, x, out, at, true) : run_reader(q, want, x, at, true);
        HX_CHECK(e == mpack_error_bug, "misuse-missed", "%s program with misuse '%s' at step %zu of %zu ended with %s instead of bug", writer ? "writer" : "reader", nm, where, p.size(), errname(e));
        // up to the misuse the output is that of the correct program; a misuse that changes no byte itself leaves nothing else to emit
        if (writer && m != 4 && m != 3 && m != 2) HX_CHECK(out.size() <= want.size() && std::equal(out.begin(), out.end(), want.begin()), "misuse-output", "output before the misuse is not that of the correct program");
        count(nm); eval(); distinct(mix(mix(hash_bytes(want), (uint64_t)m), where * 2 + writer)); count("misuses");
    }
    (void)idx;
}
