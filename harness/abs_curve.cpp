// The repository's Curve, instantiated over a field of which nothing is known: the functions under proof reach its operations by contract.
#include <string>
#include <cstdint>
#include <cstring>
#ifndef BIT_IS_SET
#define BIT_IS_SET(s, p) (s[p>>3] & (1 << (p & 0x7)))
#endif
struct AF {
    struct Element { uint64_t h; };
    Element fZero, fOne, fNegOne;
    Element &zero(); Element &one(); Element &negOne();
    void copy(Element &r, const Element &a);
    void add(Element &r, const Element &a, const Element &b);
    void sub(Element &r, const Element &a, const Element &b);
    void mul(Element &r, const Element &a, const Element &b);
    void div(Element &r, const Element &a, const Element &b);
    void neg(Element &r, const Element &a);
    void inv(Element &r, const Element &a);
    void square(Element &r, const Element &a);
    bool isZero(const Element &a);
    bool eq(const Element &a, const Element &b);
    void fromString(Element &r, std::string s);
    std::string toString(const Element &a, uint32_t radix = 10);
    void fromUI(Element &r, unsigned long v);
};
#include "curve.hpp"
typedef Curve<AF> G;
extern "C" {
void v_mul_point(G &g, G::Point &r, G::Point &b, uint8_t *s, unsigned n) { g.mulByScalar(r, b, s, n); }
void v_mul_affine(G &g, G::Point &r, G::PointAffine &b, uint8_t *s, unsigned n) { g.mulByScalar(r, b, s, n); }
}
