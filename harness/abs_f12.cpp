// The repository's F12Field over a field of which nothing is known.
#include <string>
#include <cstdint>
#include <cstring>
#ifndef BIT_IS_SET
#define BIT_IS_SET(s, p) (s[p>>3] & (1 << (p & 0x7)))
#endif
struct A2 { struct BaseElement { uint64_t h; }; };
struct A6 {
    typedef A2 Base;
    struct BaseElement { uint64_t h; };
    struct Element { uint64_t h; };
    A6();
    Element &zero(); Element &one(); Element &negOne();
    void copy(Element &r, Element &a);
    void add(Element &r, Element &a, Element &b);
    void sub(Element &r, Element &a, Element &b);
    void mul(Element &r, Element &a, Element &b);
    void div(Element &r, Element &a, Element &b);
    void neg(Element &r, Element &a);
    void inv(Element &r, Element &a);
    void dbl(Element &r, Element &a);
    void square(Element &r, Element &a);
    void mulTau(Element &r, Element &a);
    bool isZero(Element &a);
    bool isOne(Element &a);
    bool eq(Element &a, Element &b);
};
#include "f12field.hpp"
extern "C" void v_exp(F12Field<A6> &f, F12Field<A6>::Element &r, F12Field<A6>::Element &a, uint8_t *s, unsigned n) { f.exp(r, a, s, n); }
