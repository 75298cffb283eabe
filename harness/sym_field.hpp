// An abstract field: every operation is logged and every test is answered by the verifier, so that running a
// template instantiated with it explores one path of the real compiled code with all operand values at once.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <memory>
namespace sym {
extern long counter;
inline long node(const char *op, long a = 0, long b = 0) { printf("o %ld %s %ld %ld\n", ++counter, op, a, b); return counter; }
inline long text(const char *op, const std::string &s) {
    std::string t; for (char c : s) t += (c == ' ' || c == '\n') ? '_' : c;
    printf("s %ld %s %s\n", ++counter, op, t.c_str()); return counter;
}
inline bool ask(const char *op, long a, long b = 0) {
    printf("q %s %ld %ld\n", op, a, b); fflush(stdout);
    int c; do c = getchar(); while (c == '\n');
    if (c != '0' && c != '1') exit(7);
    return c == '1';
}
inline long input(const char *n) { printf("i %ld %s\n", ++counter, n); return counter; }
inline void result(const std::string &n, long id) { printf("r %s %ld\n", n.c_str(), id); }
inline void truth(bool b) { printf("t %d\n", b ? 1 : 0); }
}
template <int L> struct SymBelow;
template <int L> struct Sym : public SymBelow<L> {
    struct Element { int64_t id; Element() : id(0) {} };
    Element z, o, n;
    Sym() { z.id = sym::node("zero"); o.id = sym::node("one"); n.id = sym::node("neg", o.id); }
    Sym(std::string) : Sym() {}
    Element &zero() { return z; }
    Element &one() { return o; }
    Element &negOne() { return n; }
    void copy(Element &r, const Element &a) { r.id = a.id ? a.id : sym::node("uninit"); }
    void add(Element &r, const Element &a, const Element &b) { r.id = sym::node("add", a.id, b.id); }
    void sub(Element &r, const Element &a, const Element &b) { r.id = sym::node("sub", a.id, b.id); }
    void mul(Element &r, const Element &a, const Element &b) { r.id = sym::node("mul", a.id, b.id); }
    void neg(Element &r, const Element &a) { r.id = sym::node("neg", a.id); }
    void square(Element &r, const Element &a) { r.id = sym::node("mul", a.id, a.id); }
    void dbl(Element &r, const Element &a) { r.id = sym::node("add", a.id, a.id); }
    void inv(Element &r, const Element &a) { r.id = sym::node("inv", a.id); }
    void div(Element &r, const Element &a, const Element &b) { r.id = sym::node("mul", a.id, sym::node("inv", b.id)); }
    void conjugate(Element &r, const Element &a) { r.id = sym::node("conjugate", a.id); }
    void mulXi(Element &r, const Element &a) { r.id = sym::node("mulXi", a.id); }
    void mulTau(Element &r, const Element &a) { r.id = sym::node("mulTau", a.id); }
    void Frobenius(Element &r, const Element &a) { r.id = sym::node("frob", a.id); }
    void FrobeniusP2(Element &r, const Element &a) { r.id = sym::node("frob2", a.id); }
    template <class E> void mulScalar(Element &r, const Element &a, const E &b) { r.id = sym::node("mul", a.id, b.id); }
    template <class E> void mulGFP(Element &r, const Element &a, const E &b) { r.id = sym::node("mul", a.id, b.id); }
    void mul1(Element &r, const Element &a, uint64_t b) { r.id = sym::node("mul", a.id, sym::text("const", std::to_string(b))); }
    bool isZero(const Element &a) { return sym::ask("zero", a.id); }
    bool isOne(const Element &a) { return sym::ask("eq", a.id, o.id); }
    bool eq(const Element &a, const Element &b) { return sym::ask("eq", a.id, b.id); }
    void fromString(Element &r, const std::string &s, uint32_t radix = 10) { r.id = sym::text("const", s); }
    void fromUI(Element &r, unsigned long v) { r.id = sym::text("const", std::to_string(v)); }
    void set(Element &r, int v) { r.id = sym::text("const", std::to_string(v)); }
    std::string toString(const Element &a, uint32_t radix = 10) { return "#" + std::to_string(a.id); }
};
template <> struct SymBelow<0> { typedef struct {} Base; };
template <int L> struct SymBelow { typedef Sym<L - 1> Base; typedef typename Sym<L - 1>::Element BaseElement; Sym<L - 1> F; };
