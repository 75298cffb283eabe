// conc_curve <seed> <rounds>: all pairs of points of small curves against the textbook group law
#include <cassert>
#include <sstream>
#include <vector>
#include "mod_field.hpp"
#include "curve.hpp"
using std::string; using std::vector;
uint64_t Mod::p = 7; Mod Mod::field;
typedef Curve<Mod> C;
struct Pt { bool inf; uint64_t x, y; bool operator==(const Pt &o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); } };
static uint64_t P() { return Mod::p; }
static uint64_t inv(uint64_t a) { return Mod::powm(a, P() - 2); }
static Pt neg(Pt a) { if (!a.inf) a.y = a.y ? P() - a.y : 0; return a; }
static Pt add(Pt a, Pt b, uint64_t ca) {
    if (a.inf) return b; if (b.inf) return a;
    uint64_t l;
    if (a.x == b.x) { if ((a.y + b.y) % P() == 0) return {true, 0, 0}; l = Mod::mulm((3 * a.x * a.x + ca) % P(), inv(2 * a.y % P())); }
    else l = Mod::mulm((b.y + P() - a.y) % P(), inv((b.x + P() - a.x) % P()));
    uint64_t x = (l * l + 2 * P() - a.x - b.x) % P();
    return {false, x, (l * (a.x + P() - x) + P() - a.y) % P()};
}
static Rng rng;
static void put(C::Point &e, Pt p) {
    if (p.inf) { e.x.v = rng(P()); e.y.v = rng(P()); e.zz.v = e.zzz.v = 0; return; }
    uint64_t z = rng(3) ? 1 + rng(P() - 1) : 1, z2 = z * z % P(), z3 = z2 * z % P();
    e.x.v = p.x * z2 % P(); e.y.v = p.y * z3 % P(); e.zz.v = z2; e.zzz.v = z3;
}
static void put(C::PointAffine &e, Pt p) { e.x.v = p.inf ? 0 : p.x; e.y.v = p.inf ? 0 : p.y; }
static bool get(C::Point &e, Pt &p) {
    if (e.zz.v == 0) { p = {true, 0, 0}; return e.zzz.v == 0; }
    p = {false, e.x.v * inv(e.zz.v) % P(), e.y.v * inv(e.zzz.v) % P()};
    return e.zz.v * e.zz.v % P() * e.zz.v % P() == e.zzz.v * e.zzz.v % P();
}
static bool get(C::PointAffine &e, Pt &p) { p = {e.x.v == 0 && e.y.v == 0, e.x.v, e.y.v}; return true; }
static long count = 0;
static uint64_t CA, CB;
static string show(Pt p) { return p.inf ? "\"infinity\"" : "[" + std::to_string(p.x) + ", " + std::to_string(p.y) + "]"; }
static string rep(C::Point &e) { char b[100]; sprintf(b, "{\"x\": %lu, \"y\": %lu, \"zz\": %lu, \"zzz\": %lu}", e.x.v, e.y.v, e.zz.v, e.zzz.v); return b; }
static string rep(C::PointAffine &e) { char b[100]; sprintf(b, "{\"x\": %lu, \"y\": %lu}", e.x.v, e.y.v); return b; }
static void fail(const char *op, const string &a, const string &b, const string &r, const string &want, const string &al) {
    printf("FAIL {\"p\": %lu, \"a\": %lu, \"b\": %lu, \"op\": \"%s\", \"operand1\": %s, \"operand2\": %s, \"alias\": \"%s\", \"got\": %s, \"want\": %s}\nCOUNT %ld\n", P(), CA, CB, op, a.c_str(), b.c_str(), al.c_str(), r.c_str(), want.c_str(), count);
    exit(0);
}
template <class R, class A, class B> static void bin(C &g, const char *op, Pt pa, Pt pb, int alias) {
    R r0; A a0; B b0; put(r0, pa); put(a0, pa); put(b0, pb);
    A a1 = a0; B b1 = b0;
    R *r = &r0; A *a = &a0; B *b = &b0; string al = "none";
    if (alias == 1 && sizeof(A) == sizeof(B)) { b = (B *)(void *)a; pb = pa; al = "operands"; }
    if (alias == 2 && sizeof(R) == sizeof(A)) { r = (R *)(void *)a; al = "result=first"; }
    if (alias == 3 && sizeof(R) == sizeof(B)) { r = (R *)(void *)b; al = "result=second"; }
    if (alias == 4 && sizeof(R) == sizeof(A) && sizeof(R) == sizeof(B)) { r = (R *)(void *)a; b = (B *)(void *)a; pb = pa; al = "all"; }
    Pt want = op[0] == 'a' ? add(pa, pb, CA) : add(pa, neg(pb), CA), got;
    if (op[0] == 'a') g.add(*r, *a, *b); else g.sub(*r, *a, *b);
    count++;
    if (!get(*r, got) || !(got == want)) fail(op, rep(a1), rep(b1), rep(*r), show(want), al);
    if (((void *)r != (void *)a && memcmp(&a0, &a1, sizeof(A))) || ((void *)r != (void *)b && memcmp(&b0, &b1, sizeof(B)))) fail(op, rep(a1), rep(b1), "\"an operand was changed\"", show(want), al);
}
template <class R, class A> static void un(C &g, const char *op, Pt pa, int alias) {
    R r0; A a0; put(r0, pa); put(a0, pa); A a1 = a0; R *r = &r0; string al = "none";
    if (alias == 2 && sizeof(R) == sizeof(A)) { r = (R *)(void *)&a0; al = "result=first"; }
    Pt want = op[0] == 'd' ? add(pa, pa, CA) : op[0] == 'n' ? neg(pa) : pa, got;
    if (op[0] == 'd') g.dbl(*r, a0); else if (op[0] == 'n') g.neg(*r, a0); else g.copy(*r, a0);
    count++;
    if (!get(*r, got) || !(got == want)) fail(op, rep(a1), "null", rep(*r), show(want), al);
    if ((void *)r != (void *)&a0 && memcmp(&a0, &a1, sizeof(A))) fail(op, rep(a1), "null", "\"the operand was changed\"", show(want), al);
    bool z = g.isZero(a0);
    if ((void *)r != (void *)&a0 && z != pa.inf) fail("isZero", rep(a1), "null", z ? "1" : "0", pa.inf ? "1" : "0", al);
}
template <class A, class B> static void eq(C &g, Pt pa, Pt pb) {
    A a; B b; put(a, pa); put(b, pb); bool e = g.eq(a, b); count++;
    if (e != (pa == pb)) fail("eq", rep(a), rep(b), e ? "1" : "0", pa == pb ? "1" : "0", "none");
}
typedef C::Point X; typedef C::PointAffine Y;
int main(int argc, char **argv) {
    rng.s = atoll(argv[1]) * 6271 + 999; int rounds = atoi(argv[2]);
    for (uint64_t p : {5, 7, 11, 13, 17, 31}) {
        Mod::p = p; Mod F; Mod::field = F;
        for (uint64_t a : {(uint64_t)0, (uint64_t)1, p - 1, (uint64_t)2, p - 3}) for (uint64_t b : {(uint64_t)1, (uint64_t)2, (uint64_t)3, p - 1}) {
            if ((4 * a * a * a + 27 * b * b) % p == 0) continue;
            CA = a; CB = b;
            vector<Pt> pts = {{true, 0, 0}};
            for (uint64_t x = 0; x < p; x++) for (uint64_t y = 0; y < p; y++) if (y * y % p == (x * x * x + a * x + b) % p) pts.push_back({false, x, y});
            Pt gen = pts.back(); if (gen.inf) continue;
            Mod::Element ea, eb, ex, ey; ea.v = a; eb.v = b; ex.v = gen.x; ey.v = gen.y;
            C g(F, ea, eb, ex, ey);
            C h(F, std::to_string(a), std::to_string(b), std::to_string(gen.x), std::to_string(gen.y));
            for (C *c : {&g, &h}) { Pt q; bool ok = get(c->one(), q) && q == gen && get(c->oneAffine(), q) && q == gen && get(c->zero(), q) && q.inf && get(c->zeroAffine(), q) && q.inf && c->a().v == a && c->b().v == b;
                if (!ok) fail("constants", "null", "null", "\"wrong\"", "\"the given parameters\"", "none");
                string s = c->toString(c->one()), w = "(" + std::to_string(gen.x) + "," + std::to_string(gen.y) + ")"; if (s != w) fail("toString", "null", "null", "\"" + s + "\"", "\"" + w + "\"", "none"); }
            for (int it = 0; it < rounds; it++) for (Pt s : pts) {
                for (int al = 0; al < 3; al += 2) for (const char *op : {"dbl", "neg", "copy"}) { un<X, X>(g, op, s, al); un<X, Y>(g, op, s, al); un<Y, X>(g, op, s, al); un<Y, Y>(g, op, s, al); }
                for (Pt t : pts) {
                    if (p > 13 && rng(3)) { if (rng(2)) t = s; else if (rng(2)) t = neg(s); }
                    for (const char *op : {"add", "sub"}) { int al = rng(5);
                        bin<X, X, X>(g, op, s, t, al); bin<X, X, Y>(g, op, s, t, al); bin<X, Y, X>(g, op, s, t, al); bin<X, Y, Y>(g, op, s, t, al);
                        bin<Y, X, X>(g, op, s, t, al); bin<Y, X, Y>(g, op, s, t, al); bin<Y, Y, X>(g, op, s, t, al); bin<Y, Y, Y>(g, op, s, t, al); }
                    eq<X, X>(g, s, t); eq<X, Y>(g, s, t); eq<Y, X>(g, s, t); eq<Y, Y>(g, s, t);
                }
            }
        }
    }
    printf("COUNT %ld\n", count);
}
