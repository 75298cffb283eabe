// conc_exp <seed> <rounds>: scalar multiplication and exponentiation against plain repeated addition / multiplication
#include <cassert>
#include <sstream>
#include <vector>
#include "mod_field.hpp"
#include "curve.hpp"
#include "f2field.hpp"
#include "f6field.hpp"
#include "f12field.hpp"
using std::string; using std::vector;
uint64_t Mod::p = 2305843009213693951ull; Mod Mod::field;
static long count = 0;
static Rng rng;
typedef vector<uint8_t> Bytes;
static string show(const Bytes &b) { string s = "\""; char t[3]; for (int x : b) { sprintf(t, "%02x", x); s += t; } return s + "\""; }
static void fail(const char *op, const Bytes &b, const string &got, const string &want) {
    printf("FAIL {\"op\": \"%s\", \"scalar_bytes_little_endian\": %s, \"size\": %zu, \"got\": \"%s\", \"want\": \"%s\"}\nCOUNT %ld\n", op, show(b).c_str(), b.size(), got.c_str(), want.c_str(), count); exit(0);
}
// ---- recoding: exact for every length, with guard bytes behind the output
static void naf(const Bytes &s) {
    size_t n = s.size(), m = (n + 2) * 8;
    static vector<uint8_t> out; out.assign(m + 16, 0xEE);
    Bytes copy = s; copy.reserve(n + 1);
    buildNaf(out.data(), copy.data(), n);
    count++;
    if (copy != s) fail("buildNaf changed the scalar", s, "", "");
    for (int i = 0; i < 16; i++) if (out[m + i] != 0xEE) fail("buildNaf wrote past its output", s, "", "");
    int carry = 0; bool adj = false;  // running (sum of digits - scalar) / 2^i
    for (size_t i = 0; i < m; i++) {
        int d = out[i];
        if (d > 2) fail("buildNaf digit", s, std::to_string(d), "0, 1 or 2");
        if (d && adj) fail("buildNaf adjacent non-zero digits", s, "at " + std::to_string(i), "");
        adj = d != 0;
        int bit = i / 8 < n ? s[i / 8] >> (i % 8) & 1 : 0;
        carry += (d == 2 ? -1 : d) - bit;
        if (carry & 1) fail("buildNaf sum", s, "digit " + std::to_string(i), "");
        carry /= 2;
    }
    if (carry) fail("buildNaf sum", s, "excess " + std::to_string(carry), "0");
}
// ---- the integers modulo 2^61 - 1 as the group
struct Grp {
    struct Point { uint64_t v; }; struct PointAffine { uint64_t v; };
    Point z; Grp() { z.v = 0; }
    Point &zero() { return z; }
    static uint64_t ad(uint64_t a, uint64_t b) { return (a + b) % Mod::p; }
    void copy(Point &r, const Point &a) { r.v = a.v; } void copy(Point &r, const PointAffine &a) { r.v = a.v; } void copy(PointAffine &r, const PointAffine &a) { r.v = a.v; }
    template <class A, class B> void add(Point &r, const A &a, const B &b) { r.v = ad(a.v, b.v); }
    template <class A, class B> void sub(Point &r, const A &a, const B &b) { r.v = ad(a.v, Mod::p - b.v); }
    template <class A> void neg(Point &r, const A &a) { r.v = a.v ? Mod::p - a.v : 0; } void neg(PointAffine &r, const PointAffine &a) { r.v = a.v ? Mod::p - a.v : 0; }
    template <class A> void dbl(Point &r, const A &a) { r.v = ad(a.v, a.v); }
    template <class A> bool isZero(const A &a) { return a.v == 0; }
    template <class A, class B> bool eq(const A &a, const B &b) { return a.v == b.v; }
};
static uint64_t smod(const Bytes &s, uint64_t m) { unsigned __int128 r = 0; for (size_t i = s.size(); i-- > 0;) r = (r * 256 + s[i]) % m; return (uint64_t)r; }
static void grp(const Bytes &s) {
    Grp g; uint64_t b = 1 + rng(Mod::p - 1), w = Mod::mulm(smod(s, Mod::p), b);
    Bytes c = s; c.reserve(c.size() + 1);
    Grp::Point P, R; P.v = b; R.v = 77; Grp::PointAffine A; A.v = b;
    nafMulByScalar<Grp, Grp::Point, Grp::Point>(g, R, P, c.data(), c.size()); count++;
    if (R.v != w || P.v != b || c != s) fail("nafMulByScalar (extended base)", s, std::to_string(R.v), std::to_string(w));
    R.v = 78; nafMulByScalar<Grp, Grp::PointAffine, Grp::Point>(g, R, A, c.data(), c.size()); count++;
    if (R.v != w || A.v != b) fail("nafMulByScalar (affine base)", s, std::to_string(R.v), std::to_string(w));
    nafMulByScalar<Grp, Grp::Point, Grp::Point>(g, P, P, c.data(), c.size()); count++;
    if (P.v != w) fail("nafMulByScalar in place", s, std::to_string(P.v), std::to_string(w));
}
// ---- a real curve over a small field, and the degree-twelve exponentiation
typedef Curve<Mod> C;
static void curve(const vector<Bytes> &all) {
    uint64_t keep = Mod::p; Mod::p = 1009; Mod F; Mod::field = F;
    Mod::Element a, b, x, y; a.v = 3; b.v = 0;
    for (b.v = 1;; b.v++) { bool ok = false; for (x.v = 2; x.v < 40 && !ok; x.v++) for (y.v = 1; y.v < 1009 && !ok; y.v++) if (y.v * y.v % 1009 == (x.v * x.v * x.v + 3 * x.v + b.v) % 1009) { ok = true; break; } if (ok) { x.v--; break; } }
    C g(F, a, b, x, y);
    // order of the generator
    C::Point acc; g.copy(acc, g.one()); vector<C::Point> mult(1); g.copy(mult[0], g.zero());
    uint64_t ord = 1; while (!g.isZero(acc)) { mult.push_back(acc); g.add(acc, acc, g.oneAffine()); if (++ord > 3000) break; }
    for (const Bytes &s : all) {
        Bytes c = s; c.reserve(c.size() + 1); C::Point R, P; C::PointAffine A; g.copy(P, g.one()); g.copy(A, g.oneAffine());
        uint64_t k = smod(s, ord);
        g.mulByScalar(R, P, c.data(), c.size()); count++;
        if (!g.eq(R, mult[k])) fail("Curve::mulByScalar", s, g.toString(R), g.toString(mult[k]));
        g.mulByScalar(R, A, c.data(), c.size());
        if (!g.eq(R, mult[k])) fail("Curve::mulByScalar (affine base)", s, g.toString(R), g.toString(mult[k]));
    }
    Mod::p = keep; Mod::field = Mod();
}
typedef F12Field<F6Field<F2Field<Mod>>> T12;
static void exp12(const Bytes &s) {
    T12 F; T12::Element a, r, t, w;
    Mod::Element *c = (Mod::Element *)&a; for (int i = 0; i < 12; i++) c[i].v = rng(Mod::p);
    T12::Element a0 = a;
    F.copy(w, F.one()); for (size_t i = s.size() * 8; i-- > 0;) { F.mul(t, w, w); F.copy(w, t); if (s[i / 8] >> (i % 8) & 1) { F.mul(t, w, a); F.copy(w, t); } }
    Bytes k = s; k.reserve(s.size() + 1);
    F.exp(r, a, k.data(), k.size()); count++;
    if (!F.eq(r, w) || !F.eq(a, a0)) fail("F12Field::exp", s, F.toString(r), F.toString(w));
}
static Bytes rnd(size_t n) {
    Bytes b(n); int m = rng(6);
    for (auto &x : b) x = m == 0 ? rng(256) : m == 1 ? 0xff : m == 2 ? (rng(2) ? 0xff : 0) : m == 3 ? 0x55 : m == 4 ? (rng(4) ? 0xff : rng(256)) : (rng(3) ? 0 : rng(256));
    return b;
}
int main(int argc, char **argv) {
    rng.s = atoll(argv[1]) * 104729 + 7; int rounds = atoi(argv[2]);
    for (uint32_t v = 0; v < 256; v++) naf({(uint8_t)v});
    for (uint32_t v = 0; v < 65536; v++) naf({(uint8_t)v, (uint8_t)(v >> 8)});
    for (uint32_t v = 0; v < (1u << 24); v += rounds > 3000 ? 1 : 7) naf({(uint8_t)v, (uint8_t)(v >> 8), (uint8_t)(v >> 16)});
    Mod::field = Mod();
    vector<Bytes> few;
    for (int i = 0; i < rounds; i++) {
        Bytes s = rnd(1 + rng(i % 50 == 0 ? 300 : 40));
        naf(s); grp(s);
        if (i % 5 == 0) few.push_back(s);
        if (i % 40 == 0) exp12(rnd(1 + rng(12)));
    }
    for (uint32_t v = 0; v < 65536; v += 5) grp({(uint8_t)v, (uint8_t)(v >> 8)});
    for (uint32_t v = 0; v < 256; v++) few.push_back({(uint8_t)v});
    { Bytes e; Grp g; Grp::Point P, R; P.v = 5; R.v = 9; uint8_t dummy[2] = {0, 0}; nafMulByScalar<Grp, Grp::Point, Grp::Point>(g, R, P, dummy, 1); if (R.v) fail("zero scalar", {0}, std::to_string(R.v), "0"); }
    for (int i = 0; i < 4; i++) { Bytes z(1 + i * 11, 0); grp(z); exp12(z); few.push_back(z); }
    for (size_t n : {255, 256, 257, 511, 512, 513, 600, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16385, 32769, 65535, 65536, 65537}) {
        Bytes s(n), t(n, 0xff); for (auto &x : s) x = rng(256);
        naf(s); grp(s); grp(t);
        if (n <= 4097) exp12(s);
        if (n <= 1025) few.push_back(s);
    }
    curve(few);
    printf("COUNT %ld\n", count);
}
