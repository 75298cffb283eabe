// conc_tower <level> <seed> <rounds>: concrete search over the extension operations against schoolbook arithmetic
#include <cassert>
#include <sstream>
#include <vector>
#include "mod_field.hpp"
#include "f2field.hpp"
#include "f6field.hpp"
#include "f12field.hpp"
using std::string; using std::vector;
uint64_t Mod::p = 1000003; Mod Mod::field;
typedef F2Field<Mod> T2; typedef F6Field<T2> T6; typedef F12Field<T6> T12;
typedef vector<uint64_t> V;          // coordinates: F2 (1,u); F6 tau^k; F12 omega^k
static uint64_t NR;
static uint64_t ad(uint64_t a, uint64_t b) { return (a + b) % Mod::p; }
static uint64_t ml(uint64_t a, uint64_t b) { return Mod::mulm(a, b); }
static V vadd(V a, const V &b, uint64_t k) { for (size_t i = 0; i < a.size(); i++) a[i] = ad(a[i], ml(k, b[i])); return a; }
static V mul2(const V &a, const V &b) { return {ad(ml(a[0], b[0]), ml(NR, ml(a[1], b[1]))), ad(ml(a[0], b[1]), ml(a[1], b[0]))}; }
static V part(const V &a, int i, int w) { return V(a.begin() + i * w, a.begin() + (i + 1) * w); }
static V cat(const vector<V> &x) { V r; for (auto &e : x) r.insert(r.end(), e.begin(), e.end()); return r; }
static V mul6(const V &a, const V &b) {  // three F2 coordinates, tau^3 = 9 + u
    vector<V> c(5, V(2, 0));
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) c[i + j] = vadd(c[i + j], mul2(part(a, i, 2), part(b, j, 2)), 1);
    V xi = {9 % Mod::p, 1};
    return cat({vadd(c[0], mul2(xi, c[3]), 1), vadd(c[1], mul2(xi, c[4]), 1), c[2]});
}
static V mul12(const V &a, const V &b) { // two F6 coordinates, omega^2 = tau
    V tau = {0, 0, 1, 0, 0, 0};
    V a0 = part(a, 0, 6), a1 = part(a, 1, 6), b0 = part(b, 0, 6), b1 = part(b, 1, 6);
    return cat({vadd(mul6(a0, b0), mul6(tau, mul6(a1, b1)), 1), vadd(mul6(a0, b1), mul6(a1, b0), 1)});
}
static V get(T2::Element &e) { return {e.a.v, e.b.v}; }
static void put(T2::Element &e, const V &v) { e.a.v = v[0]; e.b.v = v[1]; }
static V get(T6::Element &e) { return cat({get(e.z), get(e.y), get(e.x)}); }
static void put(T6::Element &e, const V &v) { put(e.z, part(v, 0, 2)); put(e.y, part(v, 1, 2)); put(e.x, part(v, 2, 2)); }
static V get(T12::Element &e) { return cat({get(e.y), get(e.x)}); }
static void put(T12::Element &e, const V &v) { put(e.y, part(v, 0, 6)); put(e.x, part(v, 1, 6)); }
static string show(const V &v) { string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? ", " : "") + std::to_string(v[i]); return s + "]"; }
static long count = 0;
static Rng rng;
static V rnd(int w) { V v(w); int m = rng(4); for (auto &x : v) { int k = rng(6); x = m == 0 ? rng(2) : k == 0 ? 0 : k == 1 ? 1 : k == 2 ? Mod::p - 1 : rng(Mod::p); } return v; }
static bool zero(const V &v) { for (auto x : v) if (x) return false; return true; }
static bool ex(T2 &F, int op, T2::Element &r, T2::Element &a, V va, V &w) {
    if (op == 0) { F.dbl(r, a); w = vadd(va, va, 1); } else if (op == 1) { F.conjugate(r, a); w = {va[0], ml(Mod::p - 1, va[1])}; }
    else if (op == 2) { if (NR != Mod::p - 1) return false; F.mulXi(r, a); w = mul2({9 % Mod::p, 1}, va); } else return false;
    return true; }
static bool ex(T6 &F, int op, T6::Element &r, T6::Element &a, V va, V &w) {
    if (op == 0) { F.dbl(r, a); w = vadd(va, va, 1); } else if (op == 1) { F.mulTau(r, a); w = mul6({0, 0, 1, 0, 0, 0}, va); }
    else if (op == 2) { Mod::Element g; g.v = rng(Mod::p); F.mulGFP(r, a, g); w = V(6, 0); w = vadd(w, va, g.v); }
    else if (op == 3) { T2::Element g; V vg = rnd(2); put(g, vg); F.mulScalar(r, a, g); w = mul6(va, {vg[0], vg[1], 0, 0, 0, 0}); } else return false;
    return true; }
static bool ex(T12 &F, int op, T12::Element &r, T12::Element &a, V va, V &w) {
    if (op == 0) { F.conjugate(r, a); w = cat({part(va, 0, 6), vadd(V(6, 0), part(va, 1, 6), Mod::p - 1)}); }
    else if (op == 3) { T6::Element g; V vg = rnd(6); put(g, vg); F.mulScalar(r, a, g); w = mul12(va, cat({vg, V(6, 0)})); }
    else if (op == 1) {      // exponentiation, also of elements of small order and of zero
        T12::Element x, &y = r; int m = rng(4); uint8_t s[4]; int n = rng(4); for (int i = 0; i < n; i++) s[i] = rng(3) ? rng(256) : rng(2) ? 255 : 0;
        V vx = va; if (m) { vx = V(12, 0); vx[rng(2)] = m == 1 ? Mod::p - 1 : m == 2 ? rng(3) : Mod::powm(2 + rng(50), (Mod::p - 1) / 2 / (Mod::p % 3 == 1 && rng(2) ? 3 : 1)); }
        put(x, vx); F.exp(y, x, s, n); w = V(12, 0); w[0] = 1;
        for (int i = n * 8 - 1; i >= 0; i--) { w = mul12(w, w); if (s[i / 8] >> (i % 8) & 1) w = mul12(w, vx); }
        if (get(x) != vx) w = V(12, 5);
        if (&r == &a) put(a, get(y)); }
    else return false;
    return true; }
static bool scal(T2 &F, T2::Element &r, T2::Element &a, V va, V &w) { Mod::Element g; g.v = rng(Mod::p); F.mulScalar(r, a, g); w = vadd(V(2, 0), va, g.v); return true; }
template <class T> static bool scal(T &F, typename T::Element &r, typename T::Element &a, V va, V &w) { return false; }
static bool tostr(T2 &F, T2::Element &a, T2::Element &b) { F.fromString(b, F.toString(a)); return true; }
template <class T> static void go(T &F, int w, V (*mul)(const V &, const V &), long rounds) {
    const char *names[] = {"add", "sub", "mul", "div", "neg", "copy", "square", "inv", "isZero", "isOne", "eq", "extra0", "extra1", "extra2", "extra3", "mulScalar", "text", "constants"};
    V one(w, 0); one[0] = 1;
    for (long it = 0; it < rounds; it++) for (int op = 0; op < 18; op++) {
        int alias = rng(5);
        typename T::Element A, B, R, *r = &R, *a = &A, *b = &B;
        V va = rnd(w), vb = rng(4) ? rnd(w) : va;
        if (alias == 1) b = a; else if (alias == 2) r = a; else if (alias == 3) r = b; else if (alias == 4) { r = a; b = a; }
        if (a == b) vb = va;
        put(A, va); put(B, vb); put(R, rnd(w));
        V want; bool truth = false, wt = false, pred = false;
        switch (op) {
        case 0: F.add(*r, *a, *b); want = vadd(va, vb, 1); break;
        case 1: F.sub(*r, *a, *b); want = vadd(va, vb, Mod::p - 1); break;
        case 2: F.mul(*r, *a, *b); want = mul(va, vb); break;
        case 3: if (r == b || r == a) { r = &R; } F.div(*r, *a, *b); { V g = get(*r); if (mul(g, vb) != va) { typename T::Element i; F.inv(i, *b); if (mul(get(i), vb) == one) want = V(w, 7); else continue; } else want = g; } break;
        case 4: F.neg(*r, *a); want = vadd(V(w, 0), va, Mod::p - 1); break;
        case 5: F.copy(*r, *a); want = va; break;
        case 6: F.square(*r, *a); want = mul(va, va); break;
        case 7: F.inv(*r, *a); { V g = get(*r); if (mul(g, va) == one) want = g; else { // is the element invertible at all?  the norm chain says so when its inverse exists
                    V acc = one, base = va; bool inv = false; // element^(order-1): try x^(p^w - 2)
                    mpz_t e; mpz_init(e); mpz_ui_pow_ui(e, Mod::p, w); mpz_sub_ui(e, e, 2);
                    for (size_t i = 0; i < mpz_sizeinbase(e, 2); i++) { if (mpz_tstbit(e, i)) acc = mul(acc, base); base = mul(base, base); }
                    mpz_clear(e); inv = mul(acc, va) == one; if (!inv) continue; want = acc; } } break;
        case 8: if (rng(3) == 0) { va = V(w, 0); if (rng(2)) va[rng(w)] = 1; put(*a, va); } pred = true; truth = F.isZero(*a); wt = zero(va); break;
        case 9: if (rng(2) == 0) { va = one; if (rng(2)) va[rng(w)] = rng(2); put(*a, va); } pred = true; truth = F.isOne(*a); wt = va == one; break;
        case 10: if (a != b && rng(2)) { vb = va; if (rng(2)) vb[rng(w)] = rng(2); put(*b, vb); } pred = true; truth = F.eq(*a, *b); wt = va == vb; break;
        case 11: case 12: case 13: case 14: if (!ex(F, op - 11, *r, *a, va, want)) continue; break;
        case 15: if (!scal(F, *r, *a, va, want)) continue; break;
        case 16: { string s = F.toString(*a); r = &R; F.fromString(*r, s); want = va; } break;
        case 17: if (it) continue; { want = get(F.one()); R = F.one(); r = &R; bool ok = want == one && zero(get(F.zero())); V n = get(F.negOne()); ok = ok && zero(vadd(n, one, 1)); pred = true; truth = ok; wt = true; } break;
        }
        count++; if (a == b) vb = va;
        bool bad = pred ? truth != wt : get(*r) != want;
        bool frame = (a == r || get(*a) == va) && (b == r || get(*b) == vb);
        if (bad || !frame) {
            printf("FAIL {\"p\": %lu, \"nr\": %lu, \"op\": \"%s\", \"alias\": %d, \"a\": %s, \"b\": %s, \"got\": %s, \"want\": %s, \"operands_intact\": %d}\n", Mod::p, NR, names[op], alias,
                show(va).c_str(), show(vb).c_str(), pred ? (truth ? "1" : "0") : show(get(*r)).c_str(), pred ? (wt ? "1" : "0") : show(want).c_str(), frame ? 1 : 0);
            printf("COUNT %ld\n", count); exit(0);
        }
    }
}
int main(int argc, char **argv) {
    string lv = argv[1]; rng.s = atoll(argv[2]) * 7919 + 12345; long rounds = atol(argv[3]);
    for (int i = 0; i < 5; i++) rng.next();
    uint64_t ps[] = {1000003, 7, 11, 19, 103, 2147483647ull, 2305843009213693951ull};
    for (uint64_t p : ps) {
        Mod::p = p; Mod::field = Mod();
        if (lv == "2") {
            { NR = p - 1; F2Field<Mod> F("-1"); go(F, 2, mul2, rounds); }
            for (uint64_t nr : {(uint64_t)2, (uint64_t)3, (uint64_t)5, p - 2, p / 2}) { NR = nr % p; if (NR < 2) continue; Mod::Element e; e.v = NR; F2Field<Mod> F(e); go(F, 2, mul2, rounds / 5 + 1); 
                F2Field<Mod> G(std::to_string(NR)); go(G, 2, mul2, rounds / 20 + 1); }
        } else if (lv == "6") { NR = p - 1; T6 F; go(F, 6, mul6, rounds); }
        else { NR = p - 1; T12 F; go(F, 12, mul12, rounds / 2 + 1); }
    }
    printf("COUNT %ld\n", count);
}
