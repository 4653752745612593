// C17: map lookups find exactly the unique matching key; missing or duplicate is error.
#include "hx_num.hpp"
#include "hx_tree.hpp"
using namespace hx;
const char* prop_rule() { return "case = a map (0..several hundred entries, at random depth, keys of every type, integers equal by value under different encodings, strings that are equal / prefixes / extensions / embedded NUL / bit-flips, duplicates at any position) in a data, pool, stream or file tree; every lookup, optional lookup, containment query and enumeration with present, absent and duplicated keys, on maps, non-maps and missing nodes; non-trivial = every (map, call, key); distinct by (map bytes, call, key)"; }

static Bytes g_in; static Rng* Rr; static size_t g_nodes; static TMode g_mode; static Tree* g_shared; static std::vector<size_t> g_path; static Dec g_d; static int g_miss;
static void open_tree(Tree& t) { t.open(g_in, g_mode, -1, Rr->next(), 0, 0, g_nodes); bool ok = t.parse(false); HX_CHECK(ok, "lookup-parse", "parse failed: %s", errname(t.error())); }
static mpack_node_t target(Tree& t) {
    mpack_node_t n = mpack_tree_root(&t.t);
    for (size_t i : g_path) n = mpack_node_array_at(n, i);
    if (g_miss) n = mpack_node_map_uint_optional(mpack_node_array_at(mpack_tree_root(&t.t), 0), 1);
    return n;
}
// got the value element `want` (event index), decided on content: every value in the map is distinct
static bool is_ev(mpack_node_t n, size_t want) {
    const Ev& e = g_d.ev[want];
    if (mpack_node_type(n) != ev_type(e)) return false;
    if (!same_tag(mpack_node_tag(n), ev_tag(e))) return false;
    if (e.k == K_ARR) return mpack_node_u64(mpack_node_array_at(n, 0)) == g_d.ev[want + 1].u;
    if (e.k == K_STR || e.k == K_BIN) return e.n == 0 || !memcmp(mpack_node_data(n), g_in.data() + e.pay(), e.n);
    return true;
}
struct Want { int matches; size_t val; bool ismap; };
template <class F> static void look(const char* api, const char* key, const Want& w, bool optional, F f) {
    bool ok = w.ismap && (w.matches == 1 || (w.matches == 0 && optional)); mpack_error_t we = ok ? mpack_ok : w.ismap ? mpack_error_data : mpack_error_type;
    Tree fresh; Tree* t = g_shared; if (!ok) { open_tree(fresh); t = &fresh; }
    mpack_node_t n = f(target(*t)); mpack_error_t e = t->error();
    HX_CHECK(e == we, "lookup-error", "%s(%s): %d entries match, flagged %s, expected %s", api, key, w.matches, errname(e), errname(we));
    if (ok && w.matches) { HX_CHECK(is_ev(n, w.val), "lookup-wrong", "%s(%s) returned the wrong value", api, key); HX_CHECK(!mpack_node_is_missing(n), "lookup-missing", "%s(%s): found node claims to be missing", api, key); count("found"); }
    else if (ok) { HX_CHECK(mpack_node_is_missing(n) && mpack_node_type(n) == mpack_type_missing, "lookup-not-missing", "%s(%s): no entry matches but the node is of type %s", api, key, typname(mpack_node_type(n))); count("missing"); }
    else { HX_CHECK(mpack_node_is_nil(n) && !mpack_node_is_missing(n) && mpack_node_type(n) == mpack_type_nil, "lookup-safe", "%s(%s): unsafe node after %s", api, key, errname(e)); HX_CHECK(t->log.errors == 1, "lookup-once", "handler ran %d times", t->log.errors); count(w.matches > 1 ? "duplicates_flagged" : "flagged"); fresh.close(); }
    eval(); distinct(hash_bytes(key, strlen(key), hash_bytes(g_in.data(), g_in.size(), (uint64_t)(uintptr_t)api)));
}
template <class F> static void contains(const char* api, const char* key, const Want& w, F f) {
    bool ok = w.ismap && w.matches <= 1; mpack_error_t we = ok ? mpack_ok : w.ismap ? mpack_error_data : mpack_error_type;
    Tree fresh; Tree* t = g_shared; if (!ok) { open_tree(fresh); t = &fresh; }
    bool got = f(target(*t)); mpack_error_t e = t->error();
    HX_CHECK(e == we, "contains-error", "%s(%s): %d entries match, flagged %s, expected %s", api, key, w.matches, errname(e), errname(we));
    HX_CHECK(got == (ok && w.matches == 1), "contains-wrong", "%s(%s) returned %d but %d entries match", api, key, got, w.matches);
    if (!ok) fresh.close();
    count("contains"); eval(); distinct(hash_bytes(key, strlen(key), hash_bytes(g_in.data(), g_in.size(), (uint64_t)(uintptr_t)api)));
}
static Bytes near_key(Rng& r, const Bytes& k0) {
    Bytes k = k0;
    switch (r.below(7)) {
        case 0: if (!k.empty()) k.pop_back(); break;
        case 1: k.push_back(r.chance(1, 2) ? 0 : (uint8_t)r.next()); break;
        case 2: if (!k.empty()) k[r.below(k.size())] ^= (uint8_t)(1u << r.below(8)); break;
        case 3: if (!k.empty()) k[r.below(k.size())] = 0; break;
        case 4: k.insert(k.begin(), 0); break;
        case 5: if (!k.empty()) k.erase(k.begin()); break;
        default: if (!k.empty()) k.back() ^= 0x20;
    }
    return k;
}
static uint64_t key_int(Rng& r, bool* neg) {
    *neg = false; uint64_t v;
    switch (r.below(5)) {
        case 0: v = r.below(6); break; case 1: v = 0 - 1 - r.below(6); *neg = true; break;
        case 2: v = gen_u64(r); break; case 3: { static const uint64_t b[] = {0x7f,0x80,0xff,0x100,0xffff,0x10000,0x7fffffff,0x80000000ull,0xffffffffull,0x100000000ull,0x7fffffffffffffffull,0x8000000000000000ull,0xffffffffffffffffull}; v = r.pick(b); break; }
        default: v = 0 - gen_u64(r) % 0x8000000000000000ull; *neg = (int64_t)v < 0; break;
    }
    return v;
}
void prop_case(uint64_t idx, Rng& r) {
    (void)idx; Rr = &r;
    for (int rep = 0; rep < 3; ++rep) {
        clear_notes(); unsigned cnt = r.chance(1, 12) ? 15 + (unsigned)r.below(300) : (unsigned)r.below(12); bool dups = r.chance(1, 2);
        struct Key { int kind; bool neg; uint64_t u; Bytes s; }; std::vector<Key> keys; V map(K_MAP); uint64_t serial = 1000 + r.below(100000);
        auto same = [](const Key& a, const Key& b) { return a.kind == b.kind && (a.kind == 0 ? a.u == b.u && a.neg == b.neg : a.kind == 1 ? a.s == b.s : false); };
        auto mk = [&](void) { Key k; k.kind = r.chance(1, 8) ? 2 : r.chance(1, 2); k.neg = false; k.u = 0; if (k.kind == 0) k.u = key_int(r, &k.neg); if (k.kind == 1) k.s = !keys.empty() && r.chance(1, 2) ? near_key(r, keys[r.below(keys.size())].s) : gen_str(r, r.chance(1, 20) ? gen_len(r, false) : r.below(8), (int)r.below(4)); return k; };
        for (unsigned i = 0; i < cnt; ++i) {
            Key k = mk(); if (dups && !keys.empty() && r.chance(1, 6)) k = keys[r.below(keys.size())];
            if (!dups) { bool d = false; for (auto& q : keys) if (same(q, k)) d = true; if (d) continue; }
            keys.push_back(k); V kv(K_NIL);
            if (k.kind == 0) { kv.k = k.neg ? K_INT : K_UINT; kv.u = k.u; }
            else if (k.kind == 1) { kv.k = K_STR; kv.s = k.s; }
            else { // other types whose payload resembles the keys
                Key o = mk(); switch (r.below(6)) { case 0: kv.k = K_BIN; kv.s = o.s; break; case 1: kv.k = K_NIL; break; case 2: kv.k = K_BOOL; kv.u = r.below(2); break; case 3: kv.k = K_DBL; kv.u = bits_d((double)(int64_t)o.u); break; case 4: kv.k = K_ARR; { V c(K_UINT); c.u = o.u; kv.c.push_back(c); } break;
                    default: if (MPACK_EXTENSIONS) { kv.k = K_EXT; kv.et = (int8_t)o.u; kv.s = o.s; } else { kv.k = K_FLT; kv.u = (uint32_t)o.u; } } }
            map.c.push_back(kv);
            V val(K_UINT); val.u = ++serial; switch (r.below(5)) { case 0: { V a(K_ARR); a.c.push_back(val); val = a; break; } case 1: { char b[40]; int n = snprintf(b, sizeof b, "v%llu", (unsigned long long)serial); val.k = K_STR; val.s.assign(b, b + n); break; } default: break; }
            map.c.push_back(val);
        }
        // root: [ {}, filler..., (nested arrays) map ]
        V root(K_ARR); root.c.push_back(V(K_MAP)); GenOpt go; go.budget = 3; go.ext = MPACK_EXTENSIONS; g_path.clear();
        { unsigned pre = (unsigned)r.below(3); for (unsigned i = 0; i < pre; ++i) root.c.push_back(gen_value(r, go)); unsigned dep = (unsigned)r.below(3); V in = map; for (unsigned i = 0; i < dep; ++i) { V a(K_ARR); unsigned b = (unsigned)r.below(2); while (b--) a.c.push_back(gen_scalar(r, go)); g_path.insert(g_path.begin(), a.c.size()); a.c.push_back(in); if (r.chance(1, 2)) a.c.push_back(gen_scalar(r, go)); in = a; } g_path.insert(g_path.begin(), root.c.size()); root.c.push_back(in); if (r.chance(1, 2)) root.c.push_back(gen_scalar(r, go)); }
        g_in.clear(); enc(g_in, root, ST_RANDOM, &r); g_nodes = node_count(root); g_mode = (TMode)r.below(T_USABLE); g_d = decode(g_in);
        note_hex("message", g_in); size_t me = 0; for (size_t i : g_path) { me = me + 1; for (size_t k = 0; k < i; ++k) me = g_d.ev[me].next; } HX_CHECK(g_d.ev[me].k == K_MAP && g_d.ev[me].n == keys.size(), "harness", "path");
        std::vector<size_t> val; { size_t e = me + 1; for (size_t i = 0; i < keys.size(); ++i) { size_t v = g_d.ev[e].next; val.push_back(v); e = g_d.ev[v].next; } }
        if (want_sample()) sample("map of %zu keys at depth %zu as %s tree", keys.size(), g_path.size(), treename(g_mode));
        Tree shared; open_tree(shared); g_shared = &shared;
        std::vector<size_t> good = g_path;
        for (int q = 0; q < 8; ++q) {
            g_path = good; g_miss = 0; Want w; w.matches = 0; w.val = 0; w.ismap = true;
            if (r.chance(1, 10)) { if (r.chance(1, 2)) g_miss = 1; else { g_path.clear(); } w.ismap = false; }
            Key k = !keys.empty() && r.chance(2, 3) ? keys[r.below(keys.size())] : mk(); if (k.kind == 2) { k.kind = 1; }
            if (k.kind == 1 && r.chance(1, 5)) k.s = near_key(r, k.s);
            if (k.kind == 0 && r.chance(1, 6)) { if (r.chance(1, 2)) k.u ^= 1ull << 63; else k.u += r.range(0, 2) - 1; k.neg = k.neg ? (int64_t)k.u < 0 : false; }
            for (size_t i = 0; i < keys.size(); ++i) if (same(keys[i], k)) { w.matches++; w.val = val[i]; }
            char ks[200];
            if (k.kind == 0) {
                uint64_t u = k.u; snprintf(ks, sizeof ks, k.neg ? "%lld" : "%llu", (unsigned long long)u);
                bool as_i = k.neg || u <= (uint64_t)INT64_MAX, as_u = !k.neg; int64_t s = (int64_t)u;
                if (as_i) { look("map_int", ks, w, false, [&](mpack_node_t n) { return mpack_node_map_int(n, s); }); look("map_int_optional", ks, w, true, [&](mpack_node_t n) { return mpack_node_map_int_optional(n, s); }); contains("map_contains_int", ks, w, [&](mpack_node_t n) { return mpack_node_map_contains_int(n, s); }); }
                if (as_u) { look("map_uint", ks, w, false, [&](mpack_node_t n) { return mpack_node_map_uint(n, u); }); look("map_uint_optional", ks, w, true, [&](mpack_node_t n) { return mpack_node_map_uint_optional(n, u); }); contains("map_contains_uint", ks, w, [&](mpack_node_t n) { return mpack_node_map_contains_uint(n, u); }); }
            } else {
                int o = snprintf(ks, sizeof ks, "str "); for (size_t i = 0; i < k.s.size() && i < 60; ++i) o += snprintf(ks + o, sizeof ks - o, "%02x", k.s[i]);
                Guard kg(k.s); const char* p = kg.p; size_t n_ = k.s.size(); bool nul = n_ && memchr(k.s.data(), 0, n_); if (!n_ && r.chance(1, 2)) p = 0;
                look("map_str", ks, w, false, [&](mpack_node_t n) { return mpack_node_map_str(n, p, n_); }); look("map_str_optional", ks, w, true, [&](mpack_node_t n) { return mpack_node_map_str_optional(n, p, n_); }); contains("map_contains_str", ks, w, [&](mpack_node_t n) { return mpack_node_map_contains_str(n, p, n_); });
                if (!nul) { Bytes z = k.s; z.push_back(0); Guard zg(z); look("map_cstr", ks, w, false, [&](mpack_node_t n) { return mpack_node_map_cstr(n, zg.p); }); look("map_cstr_optional", ks, w, true, [&](mpack_node_t n) { return mpack_node_map_cstr_optional(n, zg.p); }); contains("map_contains_cstr", ks, w, [&](mpack_node_t n) { return mpack_node_map_contains_cstr(n, zg.p); }); }
            }
        }
        // --- enumerations over the keys and values of the map
        g_path = good; g_miss = 0;
        for (int q = 0; q < 4 && !keys.empty(); ++q) {
            size_t i = r.below(keys.size()); bool key = r.chance(2, 3); size_t ei = me + 1; for (size_t k = 0; k < i * 2 + !key; ++k) ei = g_d.ev[ei].next;
            const Ev& e = g_d.ev[ei]; Bytes s; if (e.k == K_STR) s.assign(g_in.begin() + e.pay(), g_in.begin() + e.pay() + e.n);
            size_t n = 1 + r.below(6); std::vector<Bytes> strs; for (size_t k = 0; k < n; ++k) { Bytes b = k && r.chance(1, 3) ? near_key(r, strs[r.below(k)]) : r.chance(1, 3) ? s : r.chance(1, 2) ? near_key(r, s) : gen_str(r, r.below(6), 0); for (auto& c : b) if (!c) c = 'n'; b.push_back(0); strs.push_back(b); }
            std::vector<Guard*> mem; std::vector<const char*> ptr; for (auto& b : strs) { mem.push_back(new Guard(b)); ptr.push_back(mem.back()->p); }
            size_t want = n; if (e.k == K_STR) for (size_t k = 0; k < n; ++k) if (strs[k].size() == s.size() + 1 && (s.empty() || !memcmp(strs[k].data(), s.data(), s.size()))) { want = k; break; }
            for (int opt = 0; opt < 2; ++opt) {
                Tree fresh; bool ok = opt || want < n; Tree* t = g_shared; if (!ok) { open_tree(fresh); t = &fresh; }
                mpack_node_t m = target(*t); mpack_node_t x = key ? mpack_node_map_key_at(m, i) : mpack_node_map_value_at(m, i);
                size_t got = opt ? mpack_node_enum_optional(x, ptr.data(), n) : mpack_node_enum(x, ptr.data(), n);
                HX_CHECK(got == want, "enum-wrong", "node_enum%s on a %s returned %zu of %zu, expected %zu", opt ? "_optional" : "", kname(e.k), got, n, want);
                HX_CHECK(t->error() == (ok ? mpack_ok : mpack_error_type), "enum-error", "node_enum%s on a %s: %s", opt ? "_optional" : "", kname(e.k), errname(t->error()));
                eval(); count(want < n ? "enum_matched" : "enum_unmatched"); distinct(hash_bytes(g_in.data(), g_in.size(), mix(ei * 2 + (uint64_t)opt, strs.size()))); if (!ok) fresh.close();
            }
            for (auto g : mem) delete g;
        }
        shared.close();
    }
}
