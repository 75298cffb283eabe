// engine_dump: everything observable of the ready-made 254-bit engine, as text
#include <gmp.h>
#include <cassert>
#include <iostream>
#include <sstream>
#include <vector>
#include <cstring>
#include <unistd.h>
#include "alt_bn128.hpp"
using namespace AltBn128; using std::string; using std::to_string;
static void out(const string &k, const string &v) { printf("%s=%s\n", k.c_str(), v.c_str()); }
static void out(const string &k, bool v) { printf("%s=%d\n", k.c_str(), (int)v); }
static std::vector<uint8_t> bytes(mpz_t z, int n) { std::vector<uint8_t> b(n, 0); mpz_export(b.data(), 0, -1, 1, -1, 0, z); return b; }
template <class F> static void scalarField(const string &n, F &f) {
    typename F::Element o = f.one(), z = f.zero(), m = f.negOne(); out(n + ".one", f.toString(o)); out(n + ".zero", f.toString(z)); out(n + ".negOne", f.toString(m));
}
template <class C> static void curve(const string &n, C &g, mpz_t r) {
    auto &F = g.F; auto x = g.oneAffine().x, y = g.oneAffine().y; auto a = g.a(), b = g.b();
    out(n + ".x", F.toString(x)); out(n + ".y", F.toString(y)); out(n + ".a", F.toString(a)); out(n + ".b", F.toString(b));
    typename C::Point one = g.one(); typename C::PointAffine pa; g.copy(pa, one); out(n + ".one.x", F.toString(pa.x)); out(n + ".one.y", F.toString(pa.y));
    out(n + ".one_eq", g.eq(g.one(), g.oneAffine())); out(n + ".zero", g.isZero(g.zero())); out(n + ".zeroAffine", g.isZero(g.zeroAffine())); out(n + ".one_nonzero", !g.isZero(g.one()));
    auto l = y, t = x; F.square(l, y); F.square(t, x); F.mul(t, t, x); auto u = x; F.mul(u, a, x); F.add(t, t, u); F.add(t, t, b); out(n + ".on_curve", F.eq(l, t));
    auto s = bytes(r, 32); typename C::Point p; g.mulByScalar(p, one, s.data(), 32); out(n + ".order_r", g.isZero(p));
    mpz_t k; mpz_init(k); mpz_sub_ui(k, r, 1); s = bytes(k, 32); typename C::Point q, q2; g.mulByScalar(q, g.oneAffine(), s.data(), 32); typename C::PointAffine qa; g.copy(qa, q); out(n + ".r_minus_1.x", F.toString(qa.x)); out(n + ".r_minus_1.y", F.toString(qa.y));
    typename C::Point d, e; g.dbl(d, one); g.add(e, d, one); g.sub(e, e, d); out(n + ".ops", g.eq(e, one)); g.copy(pa, d); out(n + ".two.x", F.toString(pa.x)); out(n + ".two.y", F.toString(pa.y)); mpz_clear(k);
}
static string basis6(int i) { string s = "("; for (int j = 2; j >= 0; j--) { s += "("; for (int k = 0; k < 2; k++) { s += (i == j * 2 + k) ? "1" : "0"; if (!k) s += ","; } s += ")"; if (j) s += ","; } return s + ")"; }
template <class F2_> static void two(const string &n, F2_ &f) {
    typename F2_::Element a, r; f.fromString(a, "0,1"); f.square(r, a); out(n + ".u^2", f.toString(r)); f.mul(r, a, a); out(n + ".u*u", f.toString(r)); out(n + ".one", f.toString(f.one())); out(n + ".negOne", f.toString(f.negOne()));
    f.fromString(a, "(123456789,987654321)"); f.inv(r, a); f.mul(r, r, a); out(n + ".inv", f.toString(r)); f.fromString(a, "5,7"); f.mulXi(r, a); out(n + ".xi", f.toString(r)); f.conjugate(r, a); out(n + ".conj", f.toString(r));
}
template <class F6_> static void six(const string &n, F6_ &f, mpz_t p) {
    typename F6_::Element a, b, r; f.fromString(a, basis6(2)); f.mul(r, a, a); out(n + ".v^2", f.toString(r)); f.mul(r, r, a); out(n + ".v^3", f.toString(r)); out(n + ".one", f.toString(f.one())); out(n + ".negOne", f.toString(f.negOne())); f.fromString(b, "((1,2),(3,4),(5,6))"); f.mulTau(r, b); out(n + ".tau", f.toString(r)); f.inv(r, b); f.mul(r, r, b); out(n + ".inv", f.toString(r));
    // Frobenius against the p-th power, by square and multiply, on every basis element and on a full one
    for (int i = 0; i <= 6; i++) {
        f.fromString(a, i < 6 ? basis6(i) : "((1,2),(3,4),(5,6))");
        typename F6_::Element e = f.one(); for (int k = mpz_sizeinbase(p, 2) - 1; k >= 0; k--) { f.square(e, e); if (mpz_tstbit(p, k)) f.mul(e, e, a); }
        typename F6_::Element e2 = f.one(); for (int k = mpz_sizeinbase(p, 2) - 1; k >= 0; k--) { f.square(e2, e2); if (mpz_tstbit(p, k)) f.mul(e2, e2, e); }
        f.Frobenius(r, a); out(n + ".frobenius" + to_string(i), f.eq(r, e)); f.FrobeniusP2(r, a); out(n + ".frobeniusP2_" + to_string(i), f.eq(r, e2));
        r = a; f.Frobenius(r, r); out(n + ".frobenius_inplace" + to_string(i), f.eq(r, e)); r = a; f.FrobeniusP2(r, r); out(n + ".frobeniusP2_inplace" + to_string(i), f.eq(r, e2));
    }
}
template <class F12_> static void twelve(const string &n, F12_ &f, mpz_t p) {
    typename F12_::Element a, r; string z = "((0,0),(0,0),(0,0))";
    f.fromString(a, "(" + basis6(0) + "," + z + ")"); f.mul(r, a, a); out(n + ".w^2", f.toString(r)); f.square(r, a); out(n + ".sq_w", f.toString(r)); out(n + ".one", f.toString(f.one())); out(n + ".negOne", f.toString(f.negOne()));
    f.fromString(a, "(((1,2),(3,4),(5,6)),((7,8),(9,10),(11,12)))"); f.inv(r, a); f.mul(r, r, a); out(n + ".inv", f.toString(r));
    auto s = bytes(p, 32);
    for (int i = 0; i <= 12; i++) {
        f.fromString(a, i < 12 ? "(" + (i < 6 ? z : basis6(i - 6)) + "," + (i < 6 ? basis6(i) : z) + ")" : "(((1,2),(3,4),(5,6)),((7,8),(9,10),(11,12)))");
        typename F12_::Element e, e2; f.exp(e, a, s.data(), 32); f.exp(e2, e, s.data(), 32);
        f.Frobenius(r, a); out(n + ".frobenius" + to_string(i), f.eq(r, e)); f.FrobeniusP2(r, a); out(n + ".frobeniusP2_" + to_string(i), f.eq(r, e2));
        r = a; f.Frobenius(r, r); out(n + ".frobenius_inplace" + to_string(i), f.eq(r, e)); r = a; f.FrobeniusP2(r, r); out(n + ".frobeniusP2_inplace" + to_string(i), f.eq(r, e2));
    }
}
int main(int argc, char **argv) {
    mpz_t r, p; mpz_init_set_str(r, argv[1], 10); mpz_init_set_str(p, argv[2], 10);
    scalarField("F1", F1); scalarField("Fr", Fr); two("F2", F2); six("F6", F6, p); twelve("F12", F12, p); curve("G1", G1, r); curve("G2", G2, r);
    Engine fresh;
    for (Engine *e : {&Engine::engine, &fresh}) {
        string n = e == &fresh ? "fresh." : "engine.";
        scalarField(n + "f1", e->f1); scalarField(n + "fr", e->fr); two(n + "f2", e->f2); six(n + "f6", e->f6, p); twelve(n + "f12", e->f12, p); curve(n + "g1", e->g1, r); curve(n + "g2", e->g2, r);
    }
    puts("END=1"); fflush(stdout); _exit(0);
}
