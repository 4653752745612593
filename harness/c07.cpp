// C07: the tree parser accepts exactly well-formed messages and mirrors their content.
#include "hx_tree.hpp"
using namespace hx;
const char* prop_rule() { return "case = an input (valid message in random widths, every truncation point, mutated, tag-biased soup, hostile headers, exhaustive short inputs) parsed in exact-size memory with allocated pages or a node pool, by parse and try_parse; non-trivial = the reference decodes at least one element; distinct by input bytes"; }
static void check_error_tree(Tree& t, const char* what) {
    mpack_error_t e = t.error();
    HX_CHECK(t.log.errors == 1 && t.log.first == e, "tree-handler", "%s: error handler ran %d times with %s, error is %s", what, t.log.errors, errname(t.log.first), errname(e));
    mpack_node_t n = mpack_tree_root(&t.t);
    HX_CHECK(mpack_node_type(n) == mpack_type_nil && mpack_node_is_nil(n), "tree-error-root", "%s: root is not nil", what);
    mpack_tag_t tag = mpack_node_tag(n);
    HX_CHECK(mpack_tag_type(&tag) == mpack_type_nil && mpack_node_u32(n) == 0 && mpack_node_bool(n) == false && mpack_node_array_length(n) == 0 && mpack_node_map_count(n) == 0 &&
        mpack_node_data(n) == NULL && mpack_node_strlen(n) == 0, "tree-error-values", "%s: a query returned a value", what);
    HX_CHECK(mpack_node_is_nil(mpack_node_array_at(n, 0)) && mpack_node_is_nil(mpack_node_map_key_at(n, 0)) && mpack_node_is_nil(mpack_node_map_cstr(n, "x")), "tree-error-values", "%s: a child is not nil", what);
    HX_CHECK(mpack_tree_size(&t.t) == 0, "tree-error-size", "%s: size %zu reported after a parse error", what, mpack_tree_size(&t.t));
    HX_CHECK(t.error() == e && t.log.errors == 1, "tree-sticky", "%s: error changed", what);
}
static void run_one(const Bytes& b, Rng& r) {
    Dec d = decode(b); bool ext = false;
#if !MPACK_EXTENSIONS
    for (auto& e : d.ev) if (e.k == K_EXT) { ext = true; break; }
    if (b.size() && d.bad != (size_t)-1 && d.bad_off < b.size()) { uint8_t t = b[d.bad_off]; if ((t >= 0xc7 && t <= 0xc9) || (t >= 0xd4 && t <= 0xd8)) ext = true; }
#endif
    bool nested = false; for (auto& e : d.ev) if ((e.k == K_ARR || e.k == K_MAP) && e.n && e.depth >= (size_t)TREE_MAX_NESTED) { nested = true; break; }
    for (int m = 0; m < 2; ++m) {
        clear_notes(); note_hex("input", b); note("mode %s", treename(m));
        Tree t; size_t nodes = d.ev.size() + (m ? r.below(4) : 0); if (nodes < 1) nodes = 1;
        if (m == T_POOL && nodes > 60000) continue;
        t.open(b, (TMode)m, 0, 0, 0, 0, nodes);
        bool tr = r.chance(1, 3);
        bool ok = t.parse(tr); TreeStats st = {0, 0, 0};
        if (ext) { HX_CHECK(!ok, "tree-ext-disabled", "extension accepted with extensions disabled"); t.close(); continue; }
        if (tr && !ok && t.error() == mpack_ok) fail("tree-try-data", "try_parse of in-memory data returned false without an error");
        if (nested) { // the parse stack of a build without an allocator is exhausted, unless a fault comes first
            HX_CHECK(!ok && (t.error() == mpack_error_too_big || (d.err != D_OK && t.error() == mpack_error_invalid)), "tree-depth", "nesting beyond %u levels: %s", (unsigned)TREE_MAX_NESTED, errname(t.error()));
            check_error_tree(t, "deep input"); count("too_deep");
        } else if (d.err == D_OK) {
            HX_CHECK(ok, "tree-rejects-valid", "well-formed message of %zu bytes, %zu nodes rejected with %s", d.used, d.ev.size(), errname(t.error()));
            HX_CHECK(mpack_tree_size(&t.t) == d.used, "tree-size", "size %zu, message has %zu bytes", mpack_tree_size(&t.t), d.used);
            tree_match(mpack_tree_root(&t.t), d, t.bytes(), true, r, st, "tree");
            HX_CHECK(t.error() == mpack_ok && t.log.errors == 0, "tree-match-error", "matching flagged %s", errname(t.error()));
            count("accepted");
        } else {
            HX_CHECK(!ok, "tree-accepts-invalid", "input whose element %zu at %zu is %s was accepted", d.bad, d.bad_off, d.err == D_TRUNC ? "truncated" : "invalid");
            mpack_error_t e = t.error();
            bool big_ok = sizeof(size_t) == 4 || m == T_POOL; // an oversized count may be noticed before the missing bytes
            HX_CHECK(e == mpack_error_invalid || (big_ok && e == mpack_error_too_big), "tree-error-kind", "%s input reported as %s", d.err == D_TRUNC ? "truncated" : "invalid", errname(e));
            check_error_tree(t, "malformed input"); count("rejected");
        }
        HX_CHECK(memcmp(t.in.p, b.data(), b.size()) == 0 || b.empty(), "input-modified", "the parsed data was modified");
        t.close(); eval(); count("nodes_compared", st.nodes); count("payload_bytes_compared", st.bytes);
    }
    if (d.ev.size()) distinct(hash_bytes(b));
}
void prop_case(uint64_t idx, Rng& r) {
    if (idx < 256) {
        for (unsigned x = 0; x < 256; ++x) { Bytes b; b.push_back((uint8_t)idx); b.push_back((uint8_t)x); run_one(b, r); }
        Bytes b1; b1.push_back((uint8_t)idx); run_one(b1, r); if (idx == 0) { Bytes b0; run_one(b0, r); }
        for (size_t n = 0; n < 24; ++n) { Bytes b; b.push_back((uint8_t)idx); for (size_t j = 0; j < n; ++j) b.push_back(r.chance(1, 3) ? 0 : (uint8_t)r.next()); run_one(b, r); }
        static const uint8_t bp[] = {0x00,0x01,0x7f,0x80,0x81,0xff,0xfe};
        for (unsigned k = 0; k < 60; ++k) { Bytes b; b.push_back((uint8_t)idx); for (size_t j = 0; j < 9; ++j) b.push_back(r.pick(bp)); run_one(b, r); }
        return;
    }
    GenOpt g; int kind; g.budget = r.chance(1, 15) ? 400 : 30; g.wide = r.chance(1, 50); if (r.chance(1, 10)) g.maxdepth = 40;
#if !MPACK_EXTENSIONS
    g.ext = r.chance(1, 10);
#endif
    if (idx % 4 == 1) {
        V v = gen_value(r, g); Bytes b; enc(b, v, ST_RANDOM, &r);
        size_t step = b.size() > 300 ? b.size() / 150 : 1;
        for (size_t n = 0; n <= b.size(); n += step) { Bytes c(b.begin(), b.begin() + (long)n); run_one(c, r); }
        if (want_sample()) { char d[300]; describe(v, d, sizeof d); sample("all truncation points of %s (%zu bytes)", d, b.size()); }
    } else if (idx % 50 == 2) { // deep but complete nesting
        Bytes b; unsigned n = (unsigned)r.range(1, 5000); while (n--) { if (r.chance(1, 2)) b.push_back(0x91); else { b.push_back(0x81); b.push_back((uint8_t)r.below(128)); } } b.push_back(0xc0); run_one(b, r); count("deep");
    } else if (idx % 4 == 3) { V v = gen_value(r, g); Bytes b; enc(b, v, ST_RANDOM, &r); for (int k = 0; k < 3; ++k) { Bytes c = b; inflate(c, r); if (c == b) break; run_one(c, r); count("inflated"); }
    } else {
        Bytes b = gen_input(r, &kind, g);
        if (b.size() > 0 && want_sample()) sample("input kind %d, %zu bytes, first byte %02x", kind, b.size(), b[0]);
        run_one(b, r);
    }
}
