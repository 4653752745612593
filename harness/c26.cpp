// C26: debug printing, judged against an independent printer.
#include "hx_tree.hpp"
#include <string>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
using namespace hx;
const char* prop_rule() { return "case = one message (well-formed, with trailing bytes, mutated, truncated or hostile) printed to guarded buffers of many sizes, to callbacks, files, stdout and from a FILE, and as tree nodes, under read and allocation faults; compared with an independent printer; non-trivial = text longer than one token was produced; distinct by text"; }
#if MPACK_DEBUG && MPACK_STDIO
typedef std::string S;
static void hexd(S& o, const uint8_t* p, size_t n) { char b[4]; size_t k = n < 12 ? n : 12; for (size_t i = 0; i < k; ++i) { snprintf(b, sizeof b, "%02x", p[i]); o += b; } if (n > 12) o += "..."; }
// appends the text of element i; false when the message ends inside it (the text of what is complete has been appended)
static bool text(const Dec& d, const uint8_t* p, size_t& i, size_t depth, S& o) {
    if (i >= d.ev.size() || (d.err != D_OK && i == d.bad)) return false;
    const Ev& e = d.ev[i++]; char b[500];
    switch (e.k) {
        case K_NIL: o += "null"; break;
        case K_BOOL: o += e.u ? "true" : "false"; break;
        case K_UINT: snprintf(b, sizeof b, "%llu", (unsigned long long)e.u); o += b; break;
        case K_INT: snprintf(b, sizeof b, "%lld", (long long)e.u); o += b; break;
#if MPACK_FLOAT
        case K_FLT: { uint32_t u = (uint32_t)e.u; float f; memcpy(&f, &u, 4); snprintf(b, sizeof b, "%f", (double)f); o += b; break; }
#else
        case K_FLT: o += "<float>"; break;
#endif
#if MPACK_DOUBLE
        case K_DBL: { double f; memcpy(&f, &e.u, 8); snprintf(b, sizeof b, "%f", f); o += b; break; }
#else
        case K_DBL: o += "<double>"; break;
#endif
        case K_STR: o += '"'; for (size_t k = 0; k < e.n; ++k) { char c = (char)p[e.pay() + k]; if (c == '\n') o += "\\n"; else if (c == '\\' || c == '"') { o += '\\'; o += c; } else o += c; } o += '"'; break;
        case K_BIN: snprintf(b, sizeof b, "<binary data of length %u", (unsigned)e.n); o += b; if (e.n) { o += ": "; hexd(o, p + e.pay(), e.n); } o += '>'; break;
        case K_EXT: snprintf(b, sizeof b, "<ext data of type %d and length %u", (int)e.et, (unsigned)e.n); o += b; if (e.n) { o += ": "; hexd(o, p + e.pay(), e.n); } o += '>'; break;
        case K_ARR: case K_MAP:
            o += e.k == K_ARR ? "[\n" : "{\n";
            for (uint32_t n = 0; n < e.n; ++n) {
                o.append(4 * (depth + 1), ' '); if (!text(d, p, i, depth + 1, o)) return false;
                if (e.k == K_MAP) { o += ": "; if (!text(d, p, i, depth + 1, o)) return false; }
                if (n + 1 != e.n) o += ','; o += '\n';
            }
            o.append(4 * depth, ' '); o += e.k == K_ARR ? ']' : '}'; break;
        default: break;
    }
    return true;
}
static const char* ename(mpack_error_t e) { static const char* n[] = {"mpack_ok", "", "mpack_error_io", "mpack_error_invalid", "mpack_error_unsupported", "mpack_error_type", "mpack_error_too_big", "mpack_error_memory", "mpack_error_bug", "mpack_error_data", "mpack_error_eof"}; return n[(int)e]; }
struct Out { S s; uint64_t calls, zero; size_t stop; Out() : calls(0), zero(0) {} };
static void cb(void* c, const char* p, size_t n) { Out* o = (Out*)c; o->s.append(p, n); ++o->calls; if (!n) ++o->zero; }
struct Want { S whole, head; bool ok; mpack_error_t err; size_t extra; }; // head: what precedes the fault
static Want expect(const Bytes& b, const Dec& d, size_t depth) {
    Want w; w.ok = false; w.err = mpack_ok; w.extra = 0; w.head.append(4 * depth, ' '); size_t i = 0; bool all = text(d, b.data(), i, depth, w.head);
    if (all) { w.ok = true; w.whole = w.head; w.extra = b.size() - d.used; if (w.extra) { char x[80]; snprintf(x, sizeof x, "\n<%i extra bytes at end of message>", (int)w.extra); w.whole += x; } }
    else { w.err = mpack_error_invalid; if (d.bad < d.ev.size()) { if (!MPACK_EXTENSIONS && d.ev[d.bad].k == K_EXT) w.err = mpack_error_unsupported; } else if (!MPACK_EXTENSIONS && d.err == D_TRUNC && d.bad_off < b.size()) { uint8_t c = b[d.bad_off]; if ((c >= 0xc7 && c <= 0xc9) || (c >= 0xd4 && c <= 0xd8)) w.err = mpack_error_unsupported; } }
    return w;
}
static void same_text(const char* key, const S& got, const S& want) {
    if (got == want) return; size_t k = 0; while (k < got.size() && k < want.size() && got[k] == want[k]) ++k;
    size_t a = k > 20 ? k - 20 : 0; fail(key, "%zu bytes against %zu expected, first difference at %zu: got ...%.60s... want ...%.60s...", got.size(), want.size(), k, got.substr(a, 60).c_str(), want.substr(a, 60).c_str());
}
// text of a faulty message: everything before the fault, at most the faulty element's own partial text, and the note
static void faulty_text(const char* key, const S& got, const Want& w, size_t left, mpack_error_t e1, mpack_error_t e2, const char* tail = "") {
    HX_CHECK(got.compare(0, w.head.size(), w.head) == 0, key, "what precedes the fault is missing: %zu bytes printed, %zu expected first", got.size(), w.head.size());
    bool ok = false; size_t rest = 0;
    for (int k = 0; k < 2 && !ok; ++k) { S n = S("\n<mpack parsing error ") + ename(k ? e2 : e1) + ">" + tail; if (got.size() >= w.head.size() + n.size() && got.compare(got.size() - n.size(), n.size(), n) == 0) { ok = true; rest = got.size() - n.size() - w.head.size(); } }
    HX_CHECK(ok, key, "no error note %s at the end: ...%s", ename(e1), got.substr(got.size() > 60 ? got.size() - 60 : 0).c_str());
    HX_CHECK(rest <= left * 2 + 120, key, "%zu bytes printed for the element that is cut off, %zu input bytes left", rest, left);
}
static FILE* to_mem(char** m, size_t* n) { FILE* f = open_memstream(m, n); if (!f) abort(); return f; }

static void tags(Rng& r) {
    // descriptions of single elements: bounded, terminated, exact when they fit
    GenOpt g; V v = gen_scalar(r, g); Bytes b; enc(b, v, ST_RANDOM, &r); Dec d = decode(b); if (d.ev.empty()) return; mpack_tag_t t = ev_tag(d.ev[0]); const Ev& e = d.ev[0];
    Bytes pre = gen_str(r, r.below(20), 2); size_t pn = e.n < pre.size() ? e.n : pre.size();
    char full[600]; mpack_tag_debug_describe(t, full, sizeof full); S fs(full);
    char want[600]; switch (mpack_tag_type(&t)) { case mpack_type_nil: snprintf(want, sizeof want, "nil"); break; case mpack_type_bool: snprintf(want, sizeof want, e.u ? "true" : "false"); break; case mpack_type_int: snprintf(want, sizeof want, "int %lld", (long long)e.u); break; case mpack_type_uint: snprintf(want, sizeof want, "uint %llu", (unsigned long long)e.u); break;
        case mpack_type_str: snprintf(want, sizeof want, "str of %u bytes", (unsigned)e.n); break; case mpack_type_bin: snprintf(want, sizeof want, "bin of %u bytes", (unsigned)e.n); break; case mpack_type_array: snprintf(want, sizeof want, "array of %u elements", (unsigned)e.n); break; case mpack_type_map: snprintf(want, sizeof want, "map of %u key-value pairs", (unsigned)e.n); break;
#if MPACK_EXTENSIONS
        case mpack_type_ext: snprintf(want, sizeof want, "ext of type %d, %u bytes", (int)e.et, (unsigned)e.n); break;
#endif
        default: want[0] = 0; }
    if (want[0]) same_text("describe", fs, want);
    for (unsigned k = 0; k < 6; ++k) { size_t n = k < 3 ? 1 + r.below(fs.size() + 3) : 1 + r.below(40); Guard q(n); mpack_tag_debug_describe(t, q.p, n); HX_CHECK(memchr(q.p, 0, n), "describe", "not terminated in %zu bytes", n); HX_CHECK(fs.compare(0, strlen(q.p), q.p) == 0, "describe", "not a prefix"); eval(); }
    char pj[600]; mpack_tag_debug_pseudo_json(t, pj, sizeof pj, (const char*)pre.data(), pn);
    for (unsigned k = 0; k < 10; ++k) { size_t n = 1 + r.below(strlen(pj) + 4); Guard q(n), pg(pre); mpack_tag_debug_pseudo_json(t, q.p, n, pg.p, pn); HX_CHECK(memchr(q.p, 0, n), "pseudo-json", "not terminated in %zu bytes", n); if (n > strlen(pj)) same_text("pseudo-json", q.p, pj); eval(); }
    if (e.k == K_BIN) { S o; char x[80]; snprintf(x, sizeof x, "<binary data of length %u", (unsigned)e.n); o = x; if (e.n) { o += ": "; char h[4]; for (size_t k = 0; k < pn && k < 12; ++k) { snprintf(h, sizeof h, "%02x", pre[k]); o += h; } if (e.n > (pn < 12 ? pn : 12)) o += "..."; } o += '>'; same_text("pseudo-json", pj, o); }
    count("tag_descriptions");
    for (int k = 0; k <= 10; ++k) if (k != 1) HX_CHECK(strcmp(mpack_error_to_string((mpack_error_t)k), ename((mpack_error_t)k)) == 0, "error-name", "error %d is called %s", k, mpack_error_to_string((mpack_error_t)k));
}
static void print_data(const Bytes& b, const Dec& d, Rng& r, const Want& w) {
    Guard in(b); const char* p = in.p; size_t n = in.n, left = d.err == D_OK ? 0 : b.size() - (d.bad_off < b.size() ? d.bad_off : b.size());
    Out o; mpack_print_data_to_callback(p, n, cb, &o); HX_CHECK(!o.zero, "empty-callback", "a callback of zero bytes");
    if (w.ok) same_text("callback-text", o.s, w.whole); else faulty_text("callback-text", o.s, w, left, w.err, w.err);
    count("callback_calls", o.calls); if (w.ok) count(w.extra ? "extra_bytes_notes" : "wellformed_texts"); else count("error_notes"); if (o.s.size() > 1024) count("texts_over_one_chunk");
    const S& t = o.s; size_t L = t.size();
    unsigned many = L < 60 ? (unsigned)L + 4 : 24;
    for (unsigned k = 0; k < many; ++k) {
        size_t z = L < 60 ? k + 1 : k < 6 ? L - 2 + k : k < 10 ? 1 + k : k == 10 ? 1024 : k == 11 ? 1025 : 1 + r.below(L + 200);
        Guard g(z); mpack_print_data_to_buffer(p, n, g.p, z); size_t m = L < z - 1 ? L : z - 1;
        HX_CHECK(memcmp(g.p, t.data(), m) == 0, "buffer-text", "buffer of %zu bytes: not the first %zu bytes of the text", z, m);
        HX_CHECK(g.p[m] == 0, "buffer-terminator", "buffer of %zu bytes, text of %zu: no terminator after it", z, L); count("buffer_prints"); eval();
    }
    // file and stdout: indented twice and ended with a newline
    Want w2 = expect(b, d, 2); if (n || !w2.ok) {
        char* m = 0; size_t mn = 0; FILE* f = to_mem(&m, &mn); bool so = r.chance(1, 4); fputs("before", f);
        if (so) { FILE* keep = stdout; stdout = f; if (r.chance(1, 2)) mpack_print_data_to_stdout(p, n); else mpack_print(p, n); stdout = keep; } else mpack_print_data_to_file(p, n, f);
        HX_CHECK(fputs("after", f) >= 0, "file", "file unusable after printing"); fclose(f); S fs(m, mn); free(m);
        HX_CHECK(fs.compare(0, 6, "before") == 0 && fs.size() >= 11 && fs.compare(fs.size() - 5, 5, "after") == 0, "file-text", "output misplaced in the file"); fs = fs.substr(6, fs.size() - 11);
        if (w2.ok) same_text("file-text", fs, w2.whole + "\n"); else faulty_text("file-text", fs, w2, left, w2.err, w2.err, "\n"); count("file_prints"); eval();
    }
    distinct(hash_bytes(t.data(), L, 9)); 
}
static void print_stdfile(const Bytes& b, const Dec& d, Rng& r, const Want& w) {
    CFile c; c.in = b; c.chunk_mode = r.chance(1, 2) ? 0 : 1 + (int)r.below(20); c.vbuf = r.chance(1, 2) ? -1 : (int)r.below(300); c.seekable = r.chance(1, 2); bool fault = r.chance(1, 6); if (fault) { c.fail_op = (int64_t)r.below(4); c.fail_persist = true; }
    FILE* f = c.open("rb"); Out o; bool mem = r.chance(1, 8); if (mem) alloc_fail((int64_t)r.below(3), false); mpack_print_stdfile_to_callback(f, cb, &o); bool inj = g_alloc.injected > 0; alloc_off();
    bool trouble = (fault && c.failed) || inj; size_t left = b.size();
    if (trouble) { // whatever was printed is a prefix of the text, then a note
        S full = w.ok ? w.whole : w.head; size_t nl = o.s.rfind("\n<"); S head = nl == S::npos ? o.s : o.s.substr(0, nl); size_t k = head.size() < full.size() ? head.size() : full.size();
        if (w.ok || head.size() <= full.size()) { size_t same = 0; while (same < k && head[same] == full[same]) ++same; HX_CHECK(head.size() - same <= 140, "stdfile-text", "after a fault %zu bytes differ from the text", head.size() - same); }
        count("stdfile_faults");
    } else if (w.ok) {
        HX_CHECK(o.s.compare(0, w.head.size(), w.head) == 0, "stdfile-text", "not the text of the message"); S rest = o.s.substr(w.head.size());
        if (!rest.empty()) { int x = 0; char gt = 0; HX_CHECK(sscanf(rest.c_str(), "\n<%d extra bytes at end of message%c", &x, &gt) == 2 && gt == '>', "stdfile-text", "unexpected end %s", rest.c_str()); HX_CHECK(x > 0 && (size_t)x <= w.extra, "stdfile-text", "claims %d extra bytes of %zu", x, w.extra); }
        else HX_CHECK(w.extra == 0 || d.used > 0, "stdfile-text", "no note");
    } else faulty_text("stdfile-text", o.s, w, left, w.err == mpack_error_unsupported ? w.err : d.err == D_TRUNC ? mpack_error_eof : w.err, w.err == mpack_error_unsupported ? w.err : d.err == D_TRUNC ? mpack_error_io : w.err);
    HX_CHECK(c.closes == 0, "closed", "the caller's file was closed"); fclose(f); count("stdfile_prints"); eval();
}
static void print_nodes(const Bytes& b, const Dec& d, Rng& r) {
    Tree t; TMode m = (TMode)r.below(T_NMODES); t.open(b, m, r.chance(1, 2) ? 0 : -1, r.next(), 0, 0, ev_nodes(d) + 2); if (!t.parse(false)) { t.close(); return; }
    mpack_node_t root = mpack_tree_root(&t.t);
    struct P { mpack_node_t n; size_t i; }; std::vector<P> st; P p0 = {root, 0}; st.push_back(p0); unsigned done = 0; std::vector<size_t> kids;
    while (!st.empty() && done < 12) {
        size_t at = (size_t)r.below(st.size()); P x = st[at]; st.erase(st.begin() + (long)at); const Ev& e = d.ev[x.i];
        size_t i = x.i; S want; text(d, b.data(), i, 0, want); if (want.size() > 200000) { if (done > 2) break; }
        Out o; mpack_node_print_to_callback(x.n, cb, &o); same_text("node-text", o.s, want);
        for (unsigned k = 0; k < 5; ++k) { size_t L = want.size(), z = k < 3 ? L + k : 1 + r.below(L + 50); if (!z) z = 1; Guard g(z); mpack_node_print_to_buffer(x.n, g.p, z); size_t mm = L < z - 1 ? L : z - 1; HX_CHECK(memcmp(g.p, want.data(), mm) == 0 && g.p[mm] == 0, "node-buffer", "buffer of %zu bytes for %zu of text", z, L); eval(); }
        if (r.chance(1, 2)) { char* mem = 0; size_t mn = 0; FILE* f = to_mem(&mem, &mn); if (r.chance(1, 4)) { FILE* keep = stdout; stdout = f; if (r.chance(1, 2)) mpack_node_print_to_stdout(x.n); else mpack_node_print(x.n); stdout = keep; } else mpack_node_print_to_file(x.n, f); fclose(f); S fs(mem, mn), w2(8, ' '); free(mem); i = x.i; text(d, b.data(), i, 2, w2); same_text("node-file-text", fs, w2 + "\n"); }
        ++done; count("node_prints");
        if (e.k == K_ARR || e.k == K_MAP) { size_t c = x.i + 1; for (uint32_t k = 0; k < e.n && st.size() < 40; ++k) { P q; if (e.k == K_ARR) { q.n = mpack_node_array_at(x.n, k); q.i = c; st.push_back(q); c = d.ev[c].next; } else { q.n = mpack_node_map_key_at(x.n, k); q.i = c; st.push_back(q); c = d.ev[c].next; q.n = mpack_node_map_value_at(x.n, k); q.i = c; st.push_back(q); c = d.ev[c].next; } } }
    }
    HX_CHECK(t.error() == mpack_ok, "node-error", "printing raised %s", errname(t.error()));
    if (r.chance(1, 3)) { Bytes mb; mb.push_back(0x80); mpack_tree_t mt; mpack_tree_init_data(&mt, (const char*)mb.data(), 1); mpack_tree_parse(&mt); Out o; mpack_node_print_to_callback(mpack_node_map_cstr_optional(mpack_tree_root(&mt), "no"), cb, &o); same_text("node-missing", o.s, "<missing!>"); mpack_tree_flag_error(&mt, mpack_error_data); char q[3]; mpack_node_print_to_buffer(mpack_tree_root(&mt), q, sizeof q); same_text("node-nil", q, "nu"); mpack_tree_destroy(&mt); }
    t.close();
}
// depth far beyond the stack: run apart, so that a crash there is told from any other
static void deep_print() {
    Bytes b(40000, 0x91); b.push_back(0xc0); fflush(0); pid_t p = fork();
    if (p == 0) { struct rlimit rl = {8u << 20, 8u << 20}; setrlimit(RLIMIT_STACK, &rl); signal(SIGSEGV, SIG_DFL); close(2); close(1); char out[64]; mpack_print_data_to_buffer((const char*)b.data(), b.size(), out, sizeof out); _exit(memcmp(out, "[\n    [\n", 8) == 0 && out[63] == 0 ? 0 : 9); }
    int st = 0; waitpid(p, &st, 0); count("deep_prints"); eval();
    HX_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "deep-print", "printing 40000 nested one-element arrays to a 64-byte buffer crashes: printing recurses once per level (status %x)", st);
}
void prop_case(uint64_t idx, Rng& r) {
    if (idx == 3) { deep_print(); return; }
    if (idx % 8 == 0) { for (int i = 0; i < 6; ++i) tags(r); return; }
    GenOpt g; g.budget = r.chance(1, 6) ? 150 : 25; g.ext = MPACK_EXTENSIONS; g.bigstr = r.chance(1, 6); Bytes b; unsigned k = (unsigned)r.below(8); int kind;
    if (k < 5) { V v = gen_value(r, g); enc(b, v, ST_RANDOM, &r); if (k == 3) { Bytes x = gen_soup(r, 1 + r.below(30)); b.insert(b.end(), x.begin(), x.end()); } if (k == 4) b.resize((size_t)r.below(b.size() + 1)); }
    else if (k == 5) { V v = gen_value(r, g); enc(b, v, ST_RANDOM, &r); mutate(b, r); }
    else b = gen_input(r, &kind, g);
    Dec d = decode(b); if (d.maxdepth > 400 || b.size() > 100000) { count("left_out_for_size"); return; }
#if !MPACK_EXTENSIONS
    for (size_t i = 0; i < d.ev.size(); ++i) if (d.ev[i].k == K_EXT) { d.err = D_INVALID; d.bad = i; d.bad_off = d.ev[i].off; break; }
#endif
    if (b.empty()) b.reserve(1);
    note_hex("input", b.data(), b.size() < 3000 ? b.size() : 3000); if (want_sample()) sample("%zu bytes, %s", b.size(), d.err == D_OK ? "well-formed" : "faulty");
    Want w = expect(b, d, 0);
    print_data(b, d, r, w); if (r.chance(1, 2)) print_stdfile(b, d, r, w);
    if (d.err == D_OK) { Bytes one(b.begin(), b.begin() + (long)d.used); print_nodes(one, d, r); }
}
#else
void prop_case(uint64_t, Rng&) {}
#endif
