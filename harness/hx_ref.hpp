// Independent reference model of MessagePack (written from the specification;
// shares no code with mpack): values, encoders, decoder, generators, mutators.
#pragma once
#include "hx.hpp"

namespace hx {

enum K { K_NIL, K_BOOL, K_UINT, K_INT, K_FLT, K_DBL, K_STR, K_BIN, K_EXT, K_ARR, K_MAP, K_NONE };
inline const char* kname(int k) { static const char* n[] = {"nil","bool","uint","int","float","double","str","bin","ext","array","map","none"}; return n[k]; }

// One element in encoding order. Containers are followed by their children.
struct Ev {
    K k; uint64_t u;      // bool, uint, int (two's complement, negative only), float/double bits
    uint32_t n;           // length or count
    int8_t et;            // ext type
    bool swire;           // integer used a signed encoding (or nonneg stored so)
    size_t off, hdr;      // byte offset of the element and size of its header (incl. fixed payload)
    size_t next;          // index of the first element after this one's subtree
    size_t depth;
    size_t pay() const { return off + hdr; }
    int64_t i() const { return (int64_t)u; }
};
enum DErr { D_OK, D_TRUNC, D_INVALID };
struct Dec {
    std::vector<Ev> ev;   // elements whose header is complete
    DErr err; size_t used;    // bytes of the whole message when ok
    size_t bad;           // index of the element that cannot be completed (== ev.size() if its header is bad)
    size_t bad_off;       // its offset
    size_t maxdepth;
};

// decode one message starting at `at`; max_ev bounds the work
Dec decode(const uint8_t* p, size_t n, size_t at = 0, size_t max_ev = (size_t)-1);
inline Dec decode(const Bytes& b, size_t at = 0) { return decode(b.data(), b.size(), at); }
bool equal_ev(const Ev& a, const uint8_t* pa, const Ev& b, const uint8_t* pb);

// structured values
struct V {
    K k; uint64_t u; int8_t et; Bytes s; std::vector<V> c; // map: 2*n children
    V(K kk = K_NIL) : k(kk), u(0), et(0) {}
};
enum Style { ST_SHORT, ST_V4, ST_RANDOM };
void put_be(Bytes& o, uint64_t v, int n);
void enc_head(Bytes& o, const V& v, uint32_t n, Style st, Rng* r); // header (or whole scalar)
void enc(Bytes& o, const V& v, Style st, Rng* r = 0);
bool has_ext(const V& v);
size_t node_count(const V& v);     // nodes as a tree counts them (container children incl. keys)
size_t val_depth(const V& v);
void describe(const V& v, char* buf, size_t n);

struct GenOpt {
    unsigned budget;      // approximate number of elements
    unsigned maxdepth;
    bool ext, flt, bigstr, nonutf8, wide; // wide: occasionally > 64k containers / strings
    GenOpt() : budget(30), maxdepth(6), ext(true), flt(true), bigstr(true), nonutf8(true), wide(false) {}
};
uint64_t gen_u64(Rng& r);          // boundary-biased
V gen_scalar(Rng& r, const GenOpt& o);
V gen_value(Rng& r, const GenOpt& o);
Bytes gen_str(Rng& r, size_t n, int flavour); // 0 ascii 1 valid utf8 2 arbitrary 3 valid utf8 w/ NUL
size_t gen_len(Rng& r, bool big);
Bytes gen_soup(Rng& r, size_t n);  // tag-biased byte soup
void mutate(Bytes& b, Rng& r);
void inflate(Bytes& b, Rng& r);     // a count or length that is right only modulo a power of two
Bytes gen_hostile(Rng& r);         // huge counts, deep nesting, inflated lengths
Bytes gen_input(Rng& r, int* kind, const GenOpt& o); // mixture of all of the above
size_t enc_one_random_width(Bytes& o, Rng& r, const V& v);

extern bool g_quiet_nans; // generate as on i386 everywhere (for comparisons between platforms)
uint64_t abi_flt(uint64_t u); uint64_t abi_dbl(uint64_t u); // what the C ABI can carry (i386 quiets NaNs)
bool ref_utf8(const uint8_t* p, size_t n, bool allow_nul);

} // namespace hx
#include "hx_embed.hpp"
