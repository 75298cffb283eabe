// conc_msm <bucket|windowed> <seed> <rounds> <threads>: multi-exponentiation over the integers modulo 2^61 - 1 (and a small real curve)
#ifdef _OPENMP
#include <omp.h>
#endif
#include <unistd.h>
#include <cassert>
#include <sstream>
#include <vector>
#include "mod_field.hpp"
#include "curve.hpp"
using std::string; using std::vector;
uint64_t Mod::p = 2305843009213693951ull; Mod Mod::field;
static long count = 0;
static Rng rng;
static uint64_t P() { return Mod::p; }
struct Grp {
    struct Point { uint64_t v; Point() : v(12345) {} }; struct PointAffine { uint64_t v; };
    typedef Mod BaseFieldT;
    Point z; PointAffine za; Grp() { z.v = 0; za.v = 0; }
    Point &zero() { return z; } PointAffine &zeroAffine() { return za; }
    static uint64_t ad(uint64_t a, uint64_t b) { return (a + b) % P(); }
    template <class A, class B> void copy(A &r, const B &a) { r.v = a.v; }
    template <class R, class A, class B> void add(R &r, const A &a, const B &b) { r.v = ad(a.v, b.v); }
    template <class R, class A, class B> void sub(R &r, const A &a, const B &b) { r.v = ad(a.v, P() - b.v); }
    template <class R, class A> void neg(R &r, const A &a) { r.v = a.v ? P() - a.v : 0; }
    template <class R, class A> void dbl(R &r, const A &a) { r.v = ad(a.v, a.v); }
    template <class A> bool isZero(const A &a) { return a.v == 0; }
    template <class A, class B> bool eq(const A &a, const B &b) { return a.v == b.v; }
    template <class B> void mulByScalar(Point &r, const B &b, uint8_t *s, unsigned n) { unsigned __int128 k = 0; for (unsigned i = n; i-- > 0;) k = (k * 256 + s[i]) % P(); r.v = Mod::mulm((uint64_t)k, b.v); }
};
static uint64_t smod(const uint8_t *s, size_t n, uint64_t m) { unsigned __int128 r = 0; for (size_t i = n; i-- > 0;) r = (r * 256 + s[i]) % m; return (uint64_t)r; }
typedef vector<uint8_t> Bytes;
static void scalar(uint8_t *s, size_t n) {
    int m = rng(9); for (size_t i = 0; i < n; i++) s[i] = m == 0 ? 0xff : m == 1 ? rng(256) : m == 2 ? 0 : m == 3 ? (rng(2) ? 0xff : 0) : m == 4 ? (i + 1 == n ? 0xff : rng(256)) : m == 5 ? (i == rng(n) ? rng(256) : 0) : m == 6 ? 0x80 : m == 7 ? (i < n / 2 ? rng(256) : 0xff) : rng(256);
    if (rng(4) == 0) { for (size_t i = 0; i < n; i++) s[i] = 0; size_t b = rng(n * 8); for (size_t i = b; i < n * 8; i++) s[i / 8] |= 1 << (i % 8); }   // -2^b as a two's complement number
    if (rng(8) == 0) { int w = 1 + rng(17); for (size_t i = 0; i < n * 8; i++) { int bit = (i % w) == w - 1 || rng(5) == 0; s[i / 8] = (s[i / 8] & ~(1 << (i % 8))) | bit << (i % 8); } }  // windows at half
}
struct Case { size_t n, size; Bytes sc; vector<uint64_t> b; uint64_t nx; vector<uint64_t> x; unsigned th; bool sized; };
static string show(const Case &c) {
    string s = "\"n\": " + std::to_string(c.n) + ", \"scalar_size\": " + std::to_string(c.size) + ", \"threads\": " + std::to_string(c.th);
    if (c.sized) { s += ", \"nx\": " + std::to_string(c.nx) + ", \"column_sizes\": ["; for (size_t i = 0; i < c.x.size(); i++) s += (i ? ", " : "") + std::to_string(c.x[i]); s += "]"; }
    s += ", \"scalars_little_endian\": \""; char t[3]; for (size_t i = 0; i < c.sc.size() && i < 400; i++) { sprintf(t, "%02x", c.sc[i]); s += t; if ((i + 1) % c.size == 0) s += " "; }
    s += "\", \"bases\": ["; for (size_t i = 0; i < c.b.size() && i < 20; i++) s += (i ? ", " : "") + std::to_string(c.b[i]); return s + "]";
}
static void fail(const char *op, const Case &c, const string &got, const string &want) { printf("FAIL {\"op\": \"%s\", %s, \"got\": \"%s\", \"want\": \"%s\"}\nCOUNT %ld\n", op, show(c).c_str(), got.c_str(), want.c_str(), count); fflush(stdout); _exit(0); }
static string mode;
static unsigned threads;
template <class G, class B> static void call(G &g, typename G::Point &r, B *bases, Case &c, Bytes &sc) {
    if (mode == "windowed") { MSM<G, Mod> m(g); m.run(r, bases, sc.data(), c.size, c.n, c.th); }
    else { ParallelMultiexp<G> m(g); if (c.sized) m.multiexp(r, bases, sc.data(), c.size, c.n, c.nx, c.x.data(), c.th); else m.multiexp(r, bases, sc.data(), c.size, c.n, c.th); }
}
static bool counts(const Case &c, size_t i) { return !c.sized || i / c.nx < c.x[i % c.nx]; }
static void one(size_t n, size_t size, bool sized) {
    Case c; c.n = n; c.size = size; c.sc.resize(n * size + 8); c.b.resize(n); c.sized = sized; c.th = mode == "windowed" ? 0 : rng(6) ? 1 + rng(threads > 1 && !rng(12) ? 130 : threads) : 0;
    c.nx = 1 + rng(5); c.x.resize(c.nx); for (auto &v : c.x) v = rng(3) ? rng(n / c.nx + 2) : rng(2) ? 0 : n;
    for (size_t i = 0; i < n; i++) { scalar(&c.sc[i * size], size); c.b[i] = rng(10) == 0 ? 0 : rng(10) == 0 && i ? c.b[i - 1] : rng(20) == 0 && i ? P() - c.b[i - 1] : 1 + rng(P() - 1); if (c.b[i] == P()) c.b[i] = 0; }
    if (n && rng(6) == 0) for (size_t i = 1; i < n; i++) memcpy(&c.sc[i * size], &c.sc[0], size);
    c.sc.resize(n * size); Bytes keep = c.sc; 
    vector<Grp::PointAffine> bases(n + 1); uint64_t w = 0;
    for (size_t i = 0; i < n; i++) { bases[i].v = c.b[i]; if (counts(c, i)) w = Grp::ad(w, Mod::mulm(smod(&c.sc[i * size], size, P()), c.b[i])); }
    Grp g; Grp::Point r; r.v = 99; count++;
    vector<uint8_t> buf(c.sc); buf.resize(buf.size() + 8, 0xA7);     // bytes behind the last scalar must not matter
    buf.swap(c.sc); call(g, r, bases.data(), c, c.sc); 
    bool intact = memcmp(c.sc.data(), keep.data(), keep.size()) == 0; c.sc = keep;
    for (size_t i = 0; i < n; i++) intact = intact && bases[i].v == c.b[i];
    if (r.v != w || !intact) fail(mode.c_str(), c, intact ? std::to_string(r.v) : "an input was changed", std::to_string(w));
}
typedef Curve<Mod> C;
static void curve(int rounds) {
    uint64_t keep = P(); Mod::p = 1009; Mod F; Mod::field = F;
    Mod::Element a, b, x, y; a.v = 3; x.v = 2; y.v = 5; b.v = (25 + 1009 * 8 - 8 - 6) % 1009;
    C g(F, a, b, x, y);
    vector<C::PointAffine> mult; C::Point acc; g.copy(acc, g.zero());
    do { C::PointAffine t; g.copy(t, acc); mult.push_back(t); g.add(acc, acc, g.oneAffine()); } while (!g.isZero(acc) && mult.size() < 3000);
    uint64_t ord = mult.size();
    for (int it = 0; it < rounds; it++) {
        Case c; c.n = rng(40); c.size = 8 + rng(3) * 12; c.sized = mode != "windowed" && rng(2); c.th = mode == "windowed" ? 0 : 1 + rng(threads); c.nx = 1 + rng(4); c.x.resize(c.nx); for (auto &v : c.x) v = rng(c.n / c.nx + 2);
        c.sc.resize(c.n * c.size); c.b.resize(c.n); vector<C::PointAffine> bases(c.n + 1); uint64_t w = 0;
        for (size_t i = 0; i < c.n; i++) { scalar(&c.sc[i * c.size], c.size); c.b[i] = rng(3) == 0 ? rng(3) : rng(ord); g.copy(bases[i], mult[c.b[i]]); if (counts(c, i)) w = (w + smod(&c.sc[i * c.size], c.size, ord) * c.b[i]) % ord; }
        Bytes sc = c.sc; sc.resize(sc.size() + 8); C::Point r; count++;
        if (mode == "windowed") { if (rng(2)) { MSM<C, Mod> m(g); m.run(r, bases.data(), sc.data(), c.size, c.n, 0); } else g.multiMulByScalarMSM(r, bases.data(), sc.data(), c.size, c.n); }
        else if (c.sized) g.multiMulByScalar(r, bases.data(), sc.data(), c.size, c.n, (uint32_t)c.nx, c.x.data(), c.th);
        else g.multiMulByScalar(r, bases.data(), sc.data(), c.size, c.n, c.th);
        if (!g.eq(r, mult[w])) { C::Point wp; g.copy(wp, mult[w]); fail("on a curve of order below 3000 (bases are multiples of the generator)", c, g.toString(r), g.toString(wp)); }
    }
    Mod::p = keep; Mod::field = Mod();
}
int main(int argc, char **argv) {
    mode = argv[1]; rng.s = atoll(argv[2]) * 15485863 + 11; int rounds = atoi(argv[3]); threads = atoi(argv[4]);
    Mod::field = Mod();
    for (int sized = 0; sized < (mode == "windowed" ? 1 : 2); sized++) {
        for (size_t n = 0; n < 70; n++) for (size_t size : {8, 9, 12, 15, 16, 31, 32, 33, 48, 64}) { if ((n * 31 + size) % 5 && n > 8 && rounds < 1000) continue; one(n, size, sized); }
        for (int i = 0; i < rounds; i++) one(rng(3) ? rng(24) : rng(150), 8 + (rng(4) == 0 ? 24 : rng(30)), sized);
        for (size_t n : {200, 513, 1000, 2100, 5000}) one(n, 32, sized);
        if (rounds > 1000) for (size_t n : {9000, 20000, 40000, 131072, 262150}) one(n, 16, sized);
    }
    curve(rounds / 2);
    printf("COUNT %ld\n", count); fflush(stdout); _exit(0);
}
