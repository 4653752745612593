// C15: keyed expects match exactly the listed keys, once each, and flag duplicates.
#include "hx_num.hpp"
using namespace hx;
const char* prop_rule() { return "case = a map with keys drawn around a key list (listed keys, prefixes, extensions, case and bit flips, embedded NUL, empty, non-ASCII, other types, every integer encoding, duplicates) walked with expect_key_cstr / expect_key_uint / expect_enum / expect_enum_optional over every source, values of unlisted keys discarded; non-trivial = at least one key matched or rejected; distinct by (map bytes, list, call)"; }

static Bytes rnd_key(Rng& r, bool cs) {
    Bytes k = gen_str(r, r.chance(1, 8) ? 0 : r.chance(1, 10) ? r.below(60) : 1 + r.below(8), (int)r.below(3));
    if (cs) for (auto& c : k) if (!c) c = 'z';
    return k;
}
static Bytes near_key(Rng& r, const Bytes& k0) {
    Bytes k = k0;
    switch (r.below(6)) {
        case 0: if (!k.empty()) k.pop_back(); break;
        case 1: k.push_back(r.chance(1, 2) ? 0 : (uint8_t)r.next()); break;
        case 2: if (!k.empty()) k[r.below(k.size())] ^= (uint8_t)(1u << r.below(8)); break;
        case 3: if (k.size() > 1) { k[r.below(k.size())] = 0; } break;
        case 4: { Bytes z(1, 0); k.insert(k.begin(), z.begin(), z.end()); break; }
        default: if (k.size() > 1) { k.erase(k.begin()); } break;
    }
    return k;
}
struct Setup { Src s; size_t cap; };
static void open_src(Setup& u, const Bytes& b, Rng& r, size_t maxkey) {
    SrcMode m = r.chance(1, 2) ? S_DATA : (SrcMode)r.below(MPACK_STDIO ? S_NMODES : 3); size_t bs = pick_bufsize(r);
    if (r.chance(4, 5) && bs < maxkey) bs = maxkey < 32 ? 32 : maxkey;
    u.s.open(b, m, bs, r.chance(1, 3) ? 1 : r.chance(1, 2) ? 0 : -1, r.next());
    u.cap = m == S_DATA ? SIZE_MAX : (m == S_STDFILE || m == S_FILENAME) ? (size_t)MPACK_BUFFER_SIZE : bs;
}
void prop_case(uint64_t idx, Rng& r) {
    (void)idx;
    for (int rep = 0; rep < 4; ++rep) {
        clear_notes(); bool strs = r.chance(1, 2); size_t count_ = 1 + (size_t)(r.chance(1, 8) ? r.below(40) : r.below(6));
        std::vector<Bytes> keys; std::vector<Guard*> mem; std::vector<const char*> ptr;
        for (size_t i = 0; i < count_ && strs; ++i) {
            Bytes k; int tries = 0;
            do { k = !keys.empty() && r.chance(1, 2) ? near_key(r, keys[r.below(keys.size())]) : rnd_key(r, true); for (auto& c : k) if (!c) c = 'q'; } while (std::find(keys.begin(), keys.end(), k) != keys.end() && ++tries < 50);
            if (tries >= 50) { for (int q = 0; q < 9; ++q) k.push_back('0' + (uint8_t)r.below(10)); }
            keys.push_back(k);
        }
        for (auto& k : keys) { Guard* g = new Guard(k.size() + 1); if (k.size()) memcpy(g->p, k.data(), k.size()); g->p[k.size()] = 0; mem.push_back(g); ptr.push_back(g->p); note_hex("listed", k); }
        // the map
        V map(K_MAP); std::vector<Bytes> used; unsigned n = (unsigned)r.below(10); size_t maxkey = 0; bool allowdup = r.chance(1, 3);
        for (unsigned i = 0; i < n; ++i) {
            V k(K_NIL); GenOpt o; o.budget = 4; o.maxdepth = 3; o.ext = MPACK_EXTENSIONS;
            int how = (int)r.below(8);
            if (how == 0) k = gen_value(r, o);
            else if (strs) { k.k = K_STR; k.s = how < 6 ? keys[r.below(keys.size())] : how == 6 ? near_key(r, keys[r.below(keys.size())]) : rnd_key(r, false); }
            else { k.k = K_UINT; k.u = how < 6 ? r.below(count_ + 2) : how == 6 ? (r.chance(1, 2) ? (1ull << 32) + r.below(count_) : gen_u64(r)) : (uint64_t)0 - 1 - r.below(count_); if (how == 7 && r.chance(1, 2)) k.k = K_INT; else if (how == 7) k.u &= 0xff; if (k.k == K_INT && (int64_t)k.u >= 0) k.k = K_UINT; }
            Bytes kb; enc(kb, k, ST_SHORT);
            if (!allowdup && std::find(used.begin(), used.end(), kb) != used.end()) continue;
            used.push_back(kb); if (k.s.size() > maxkey) maxkey = k.s.size();
            map.c.push_back(k); map.c.push_back(gen_value(r, o));
        }
        Bytes b; enc(b, map, ST_RANDOM, &r); Dec d = decode(b); size_t mapend = b.size(); b.push_back(0xcd); b.push_back(0xbe); b.push_back(0xef); (void)mapend;
        note_hex("map", b); if (want_sample()) sample("%zu listed %s keys, map of %u", count_, strs ? "string" : "uint", (unsigned)(map.c.size() / 2));
        bool listed_other = false; (void)listed_other;
        {   // --- the map walk
            Setup u; open_src(u, b, r, maxkey); Src& s = u.s; mpack_reader_t* rd = &s.r;
            Guard fg(count_ * sizeof(bool), 0); bool* found = (bool*)(void*)fg.p; std::vector<char> shadow(count_, 0); bool dead = false; mpack_error_t want = mpack_ok;
            uint32_t c = mpack_expect_map(rd); HX_CHECK(c == map.c.size() / 2, "key-map", "map size");
            size_t i = 1;
            for (uint32_t j = 0; j < c && !dead; ++j) {
                const Ev& k = d.ev[i]; size_t exp = count_;
                if (strs) { if (k.k == K_STR) { for (size_t q = 0; q < count_; ++q) if (keys[q].size() == k.n && (k.n == 0 || !memcmp(keys[q].data(), b.data() + k.pay(), k.n))) exp = q; if (k.n > u.cap) want = mpack_error_too_big; } }
                else if (k.k == K_UINT && k.u < count_) exp = (size_t)k.u;
                if (want == mpack_ok && exp < count_ && shadow[exp]) want = mpack_error_invalid;
                size_t got = strs ? mpack_expect_key_cstr(rd, ptr.data(), found, count_) : mpack_expect_key_uint(rd, found, count_);
                mpack_error_t e = mpack_reader_error(rd);
                HX_CHECK(e == want, "key-error", "key %u (element %zu, %s): error %s, expected %s", j, i, kname(k.k), errname(e), errname(want));
                if (want != mpack_ok) { HX_CHECK(got == count_, "key-index", "index %zu returned with an error", got); dead = true; count("duplicates_flagged", want == mpack_error_invalid); break; }
                HX_CHECK(got == exp, "key-index", "key %u (element %zu, %s of %u): index %zu, expected %zu of %zu", j, i, kname(k.k), k.n, got, exp, count_);
                if (exp < count_) { shadow[exp] = 1; count("matched"); } else count("unlisted");
                for (size_t q = 0; q < count_; ++q) HX_CHECK((char)found[q] == shadow[q], "key-found", "found flag %zu wrong after key %u", q, j);
                i = k.next; eval();
                if (s.mode == S_DATA && !MPACK_READ_TRACKING) HX_CHECK(mpack_reader_remaining(rd, NULL) == b.size() - d.ev[i].off, "key-consumed", "key %u: consumed the wrong number of bytes", j);
                mpack_tag_t t = mpack_peek_tag(rd); HX_CHECK(same_tag(t, ev_tag(d.ev[i])), "key-consumed", "key %u: the next element is not the value", j);
                mpack_discard(rd); i = d.ev[i].next;
            }
            if (!dead) { mpack_done_map(rd); HX_CHECK(mpack_expect_u16(rd) == 0xbeef && mpack_reader_error(rd) == mpack_ok, "key-consumed", "what follows the map is wrong"); HX_CHECK(s.close() == mpack_ok, "key-destroy", "destroy"); }
            else { HX_CHECK(s.log.errors == 1, "key-error-once", "handler ran %d times", s.log.errors); s.close(); }
            distinct(hash_bytes(b, strs));
        }
        if (strs) for (size_t q = 0; q + 1 < d.ev.size(); ) { // --- enums over each key in turn as an element of its own
            size_t i = q + 1; if (i >= d.ev.size()) break; const Ev& k = d.ev[i]; const Ev& val = d.ev[k.next];
            Bytes el(b.begin() + (long)k.off, b.begin() + (long)val.off); el.push_back(0xcd); el.push_back(0xbe); el.push_back(0xef);
            for (int opt = 0; opt < 2; ++opt) {
                Setup u; open_src(u, el, r, maxkey); mpack_reader_t* rd = &u.s.r; size_t exp = count_; bool isstr = k.k == K_STR;
                if (isstr) for (size_t z = 0; z < count_; ++z) if (keys[z].size() == k.n && (k.n == 0 || !memcmp(keys[z].data(), b.data() + k.pay(), k.n))) exp = z;
                mpack_error_t want = isstr && k.n > u.cap ? mpack_error_too_big : opt || (isstr && exp < count_) ? mpack_ok : mpack_error_type;
                size_t got = opt ? mpack_expect_enum_optional(rd, ptr.data(), count_) : mpack_expect_enum(rd, ptr.data(), count_);
                mpack_error_t e = mpack_reader_error(rd);
                HX_CHECK(e == want, "enum-error", "%s on %s of %u: error %s, expected %s", opt ? "enum_optional" : "enum", kname(k.k), k.n, errname(e), errname(want));
                HX_CHECK(got == (want == mpack_ok ? exp : count_), "enum-index", "%s on %s of %u: index %zu, expected %zu", opt ? "enum_optional" : "enum", kname(k.k), k.n, got, exp);
                if (want == mpack_ok) { HX_CHECK(mpack_expect_u16(rd) == 0xbeef && mpack_reader_error(rd) == mpack_ok, "enum-consumed", "%s on %s of %u: the next element is wrong", opt ? "enum_optional" : "enum", kname(k.k), k.n); count("enums"); }
                u.s.close(); eval();
            }
            q = val.next - 1;
        }
        for (auto g : mem) delete g;
    }
}
