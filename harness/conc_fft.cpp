// conc_fft lin <prime> <maxpow> <domains>   transforms run on linear forms: every coefficient vector of every size up to 2^maxpow
// conc_fft big <seed> <maxpow>     larger sizes, random vectors, output points by Horner's rule, inverse, roots
// conc_fft log                     the logarithm helper
#include <gmp.h>
#include <cassert>
#include <iostream>
#include <stdexcept>
#include <sstream>
#include <vector>
#include <unistd.h>
#include <sched.h>
#include "mod_field.hpp"
#include "misc.hpp"
#include "fft.hpp"
uint64_t Mod::p = 18446744069414584321ull; Mod Mod::field;
static long count = 0; static Rng rng; static unsigned cpus = std::thread::hardware_concurrency();
static void fail(const std::string &what, uint64_t n, uint64_t mx, const std::string &detail) { printf("FAIL {\"op\": \"%s\", \"size\": %llu, \"max_domain\": %llu, \"prime\": \"%llu\", \"workers\": %u%s}\nCOUNT %ld\n", what.c_str(), (unsigned long long)n, (unsigned long long)mx, (unsigned long long)Mod::p, cpus, detail.c_str(), count); fflush(stdout); _exit(0); }
static std::string num(uint64_t v) { return std::to_string(v); }
// Linear forms: constant + sum coefficients * x_i.  Products of two non-constant forms do not occur in a linear transform.
struct Lin {
    struct Element { uint64_t c; std::vector<uint64_t> l; Element() : c(0xDEAD) {} };
    static Lin field; static bool nonlinear;
    Element z, o, n;
    Lin() { z.c = 0; o.c = 1; n.c = Mod::p - 1; }
    Element &zero() { return z; } Element &one() { return o; } Element &negOne() { return n; }
    static uint64_t ad(uint64_t a, uint64_t b) { return ((unsigned __int128)a + b) % Mod::p; }
    static uint64_t at(const Element &a, size_t i) { return i < a.l.size() ? a.l[i] : 0; }
    void copy(Element &r, const Element &a) { if (&r != &a) r = a; }
    void lc(Element &r, const Element &a, uint64_t k, const Element &b, uint64_t m) {
        Element t; t.c = ad(Mod::mulm(a.c, k), Mod::mulm(b.c, m)); size_t s = std::max(a.l.size(), b.l.size()); t.l.resize(s);
        for (size_t i = 0; i < s; i++) t.l[i] = ad(Mod::mulm(at(a, i), k), Mod::mulm(at(b, i), m));
        r = std::move(t);
    }
    void add(Element &r, const Element &a, const Element &b) { lc(r, a, 1, b, 1); }
    void sub(Element &r, const Element &a, const Element &b) { lc(r, a, 1, b, Mod::p - 1); }
    void neg(Element &r, const Element &a) { lc(r, a, Mod::p - 1, z, 0); }
    void mul(Element &r, const Element &a, const Element &b) { if (a.l.size() && b.l.size()) nonlinear = true; if (a.l.size()) lc(r, a, b.c, z, 0); else lc(r, b, a.c, z, 0); }
    void square(Element &r, const Element &a) { mul(r, a, a); }
    void exp(Element &r, const Element &b, uint8_t *s, unsigned n) { uint64_t x = b.c, v = 1 % Mod::p; if (b.l.size()) nonlinear = true; r.c = 0xBAD; sched_yield(); usleep(200); for (unsigned i = 0; i < n * 8; i++) { if (s[i / 8] >> (i % 8) & 1) v = Mod::mulm(v, x); x = Mod::mulm(x, x); } r.c = v; r.l.clear(); }
    void inv(Element &r, const Element &a) { if (a.l.size()) nonlinear = true; r.c = Mod::powm(a.c, Mod::p - 2); r.l.clear(); }
    void div(Element &r, const Element &a, const Element &b) { Element t; inv(t, b); mul(r, a, t); }
    bool eq(const Element &a, const Element &b) { size_t s = std::max(a.l.size(), b.l.size()); for (size_t i = 0; i < s; i++) if (at(a, i) != at(b, i)) return false; return a.c == b.c; }
    bool isZero(const Element &a) { return eq(a, z); }
    std::string toString(const Element &a, uint32_t = 10) { return num(a.c); }
    void fromString(Element &r, const std::string &s, uint32_t = 10) { r.c = strtoull(s.c_str(), 0, 10); r.l.clear(); }
    void fromUI(Element &r, unsigned long v) { r.c = v % Mod::p; r.l.clear(); }
    void set(Element &r, int v) { r.c = v < 0 ? Mod::p - (uint64_t)(-(int64_t)v) % Mod::p : v % Mod::p; r.l.clear(); }
    void toMpz(mpz_t r, const Element &a) { mpz_set_ui(r, a.c); }
    void fromMpz(Element &r, const mpz_t a) { mpz_t t; mpz_init(t); mpz_set_ui(t, Mod::p); mpz_mod(t, a, t); r.c = mpz_get_ui(t); r.l.clear(); mpz_clear(t); }
};
Lin Lin::field; bool Lin::nonlinear = false;
struct ModF : Mod { static ModF field; void exp(Element &r, const Element &b, uint8_t *s, unsigned n) { Element t; Mod::exp(t, b, s, n); r.v = 3; usleep(200); r = t; } };
ModF ModF::field;
template <class F> static uint64_t val(const typename F::Element &e);
template <> uint64_t val<Lin>(const Lin::Element &e) { return e.c; }
template <> uint64_t val<ModF>(const Mod::Element &e) { return e.v; }
// every root handed out: root(k, 1) has order exactly 2^k, root(k, i) is its i-th power
template <class F> static uint64_t roots(FFT<F> &t, uint64_t mx, int mp) {
    for (int k = 0; k <= mp; k++) {
        uint64_t w = val<F>(t.root(k, k ? 1 : 0)), c = 1 % Mod::p, x = w;
        if (k) { for (int i = 1; i < k; i++) x = Mod::mulm(x, x); if (x != Mod::p - 1) fail("root of unity is not primitive of its order", 1ull << k, mx, ", \"root\": \"" + num(w) + "\""); }
        else if (w != 1) fail("root of unity of order 1", 1, mx, ", \"root\": \"" + num(w) + "\"");
        for (uint64_t i = 0; i < 1ull << k; i++, c = Mod::mulm(c, w)) { if (k < mp && i > 64 && rng(64)) continue; count++; if (val<F>(t.root(k, i)) != c) fail("root(k, i) is not the i-th power of root(k, 1)", 1ull << k, mx, ", \"index\": " + num(i) + ", \"got\": \"" + num(val<F>(t.root(k, i))) + "\", \"want\": \"" + num(c) + "\""); }
    }
    return 0;
}
static void reset() { Mod m; Mod::field = m; ModF f; ModF::field = f; Lin l; Lin::field = l; }
static void lin(int maxpow, int domains) {
    int two = 0; while (!((Mod::p - 1) >> (two) & 1)) two++;
    if (maxpow > two) maxpow = two;
    int ulim = domains;
    for (int mp = 0; mp <= std::min(two, ulim); mp++) {
        if (mp > maxpow + 3) break;
        FFT<Lin> t(1ull << mp); roots<Lin>(t, 1ull << mp, mp);
        for (int k = 0; k <= mp && k <= maxpow; k++) {
            if (mp > k + 1 && k > 7 && mp != maxpow) continue;
            uint64_t n = 1ull << k;
            std::vector<Lin::Element> a(n + 2); 
            for (uint64_t i = 0; i < n; i++) { a[i].c = 0; a[i].l.resize(n); a[i].l[i] = 1; }
            a[n].c = 4242; a[n + 1].c = 4243;
            std::vector<Lin::Element> b(a), orig(a);
            t.fft(a.data(), n);
            uint64_t w = val<Lin>(t.root(k, k ? 1 : 0));
            std::vector<uint64_t> pw(n); pw[0] = 1 % Mod::p; for (uint64_t i = 1; i < n; i++) pw[i] = Mod::mulm(pw[i - 1], w);
            for (uint64_t i = 0; i < n; i++) { if (a[i].c != 0) fail("fft adds a constant", n, 1ull << mp, ", \"output\": " + num(i)); for (uint64_t j = 0; j < n; j++) { count++; if (Lin::at(a[i], j) != pw[(i * j) % n]) fail("fft", n, 1ull << mp, ", \"input\": \"coefficient " + num(j) + " one, the rest zero\", \"output\": " + num(i) + ", \"got\": \"" + num(Lin::at(a[i], j)) + "\", \"want\": \"" + num(pw[(i * j) % n]) + "\""); } }
            t.ifft(a.data(), n);
            for (uint64_t i = 0; i < n; i++) { count++; if (!Lin::field.eq(a[i], orig[i])) fail("ifft after fft", n, 1ull << mp, ", \"output\": " + num(i)); }
            t.ifft(b.data(), n);
            uint64_t ni = Mod::powm(n % Mod::p, Mod::p - 2);
            for (uint64_t i = 0; i < n; i++) for (uint64_t j = 0; j < n; j++) { count++; if (b[i].c || Lin::at(b[i], j) != Mod::mulm(ni, pw[(n - (i * j) % n) % n])) fail("ifft", n, 1ull << mp, ", \"input\": \"value " + num(j) + " one, the rest zero\", \"output\": " + num(i)); }
            if (a[n].c != 4242 || b[n + 1].c != 4243) fail("writes past the vector", n, 1ull << mp, "");
            if (Lin::nonlinear) { printf("NONLINEAR\n"); }
        }
    }
}
// every output point, by halving the polynomial (even and odd coefficients)
static void points(std::vector<uint64_t> &o, const Mod::Element *a, uint64_t step, uint64_t n, uint64_t w) {
    o.resize(n); if (n == 1) { o[0] = a[0].v; return; }
    std::vector<uint64_t> e, d; uint64_t w2 = Mod::mulm(w, w), x = 1; points(e, a, step * 2, n / 2, w2); points(d, a + step, step * 2, n / 2, w2);
    for (uint64_t i = 0; i < n; i++) { o[i] = Lin::ad(e[i % (n / 2)], Mod::mulm(x, d[i % (n / 2)])); x = Mod::mulm(x, w); }
}
static void big(int maxpow) {
    for (uint64_t p : {18446744069414584321ull, 998244353ull, 2013265921ull, 65537ull, 257ull, 193ull, 97ull, 17ull, 5ull, 3ull}) {
        Mod::p = p; reset(); int two = 0; while (!((p - 1) >> two & 1)) two++;
        for (int mp = 0; mp <= two && mp <= maxpow; mp++) {
            if (p != 18446744069414584321ull && mp > 14) break;
            FFT<ModF> t(1ull << mp); roots<ModF>(t, 1ull << mp, mp);
            for (int k = 0; k <= mp; k++) {
                if (mp > 13 && k + 2 < mp) continue;
                uint64_t n = 1ull << k; std::vector<Mod::Element> a(n + 1), b; for (auto &x : a) x.v = rng(5) ? rng(p) : rng(2) ? 0 : p - 1;
                b = a; t.fft(b.data(), n); uint64_t w = val<ModF>(t.root(k, k ? 1 : 0));
                { std::vector<uint64_t> o; points(o, a.data(), 1, n, w); for (uint64_t i = 0; i < n; i++) { count++; if (o[i] != b[i].v) fail("fft", n, 1ull << mp, ", \"input\": \"random\", \"output\": " + num(i)); } }
                for (int q = 0; q < 3; q++) { uint64_t i = q < 2 ? (n - 1) * q : rng(n), x = Mod::powm(w, i), v = 0; for (uint64_t j = n; j-- > 0;) v = Lin::ad(Mod::mulm(v, x), a[j].v); count++; if (v != b[i].v) fail("fft", n, 1ull << mp, ", \"input\": \"random\", \"output\": " + num(i) + ", \"got\": \"" + num(b[i].v) + "\", \"want\": \"" + num(v) + "\""); }
                std::vector<Mod::Element> c(b); t.ifft(c.data(), n);
                for (uint64_t i = 0; i <= n; i++) { count++; if (c[i].v != a[i].v) fail("ifft after fft", n, 1ull << mp, ", \"output\": " + num(i)); }
                c = a; t.ifft(c.data(), n); t.fft(c.data(), n);
                for (uint64_t i = 0; i <= n; i++) { count++; if (c[i].v != a[i].v) fail("fft after ifft", n, 1ull << mp, ", \"output\": " + num(i)); }
            }
        }
    }
}
int main(int argc, char **argv) {
    std::string m = argv[1];
    if (m == "lin") { Mod::p = strtoull(argv[2], 0, 10); reset(); lin(atoi(argv[3]), atoi(argv[4])); }
    if (m == "big") { rng.s = atoll(argv[2]) * 49979687 + 3; big(atoi(argv[3])); }
    if (m == "log") { Mod::p = 17; reset(); FFT<Mod> t(2); for (int k = 0; k < 64; k++) for (int d = -2; d <= 2; d++) { uint64_t v = (1ull << k) + d; if (!v || (k == 0 && d < 0)) continue; int w = 63 - __builtin_clzll(v); count++; if (t.log2(v) != (uint32_t)w) fail("log2", v, 2, ""); } }
    printf("COUNT %ld\n", count); fflush(stdout); _exit(0);
}
