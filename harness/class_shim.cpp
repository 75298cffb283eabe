// One out-of-line function per inline member of the field class, for the term engine (compiled against the rendered header).
#include "fr.hpp"
#include <gmp.h>
typedef RawFr::Element E;
extern "C" {
void k_copy(E *r, const E *a) { RawFr::field.copy(*r, *a); }
void k_swap(E *r, E *a) { RawFr::field.swap(*r, *a); }
void k_add(E *r, const E *a, const E *b) { RawFr::field.add(*r, *a, *b); }
void k_sub(E *r, const E *a, const E *b) { RawFr::field.sub(*r, *a, *b); }
void k_mul(E *r, const E *a, const E *b) { RawFr::field.mul(*r, *a, *b); }
void k_add_v(E *r, const E *a, const E *b) { *r = RawFr::field.add(*a, *b); }
void k_sub_v(E *r, const E *a, const E *b) { *r = RawFr::field.sub(*a, *b); }
void k_mul_v(E *r, const E *a, const E *b) { *r = RawFr::field.mul(*a, *b); }
void k_neg_v(E *r, const E *a) { *r = RawFr::field.neg(*a); }
void k_square_v(E *r, const E *a) { *r = RawFr::field.square(*a); }
void k_add_ie(E *r, int i, const E *a) { *r = RawFr::field.add(i, *a); }
void k_sub_ie(E *r, int i, const E *a) { *r = RawFr::field.sub(i, *a); }
void k_mul_ie(E *r, int i, const E *a) { *r = RawFr::field.mul(i, *a); }
void k_add_ei(E *r, const E *a, int i) { *r = RawFr::field.add(*a, i); }
void k_sub_ei(E *r, const E *a, int i) { *r = RawFr::field.sub(*a, i); }
void k_mul_ei(E *r, const E *a, int i) { *r = RawFr::field.mul(*a, i); }
void k_mul1(E *r, const E *a, uint64_t b) { RawFr::field.mul1(*r, *a, b); }
void k_neg(E *r, const E *a) { RawFr::field.neg(*r, *a); }
void k_square(E *r, const E *a) { RawFr::field.square(*r, *a); }
void k_toMontgomery(E *r, const E *a) { RawFr::field.toMontgomery(*r, *a); }
void k_fromMontgomery(E *r, const E *a) { RawFr::field.fromMontgomery(*r, *a); }
int k_eq(const E *a, const E *b) { return RawFr::field.eq(*a, *b); }
int k_isZero(const E *a) { return RawFr::field.isZero(*a); }
void k_zero(E *r) { *r = RawFr::field.zero(); }
void k_one(E *r) { *r = RawFr::field.one(); }
void k_negOne(E *r) { *r = RawFr::field.negOne(); }
void k_set(E *r, int v) { RawFr::field.set(*r, v); }
void k_set_v(E *r, int v) { *r = RawFr::field.set(v); }
void k_fromUI(E *r, unsigned long v) { RawFr::field.fromUI(*r, v); }
void k_inv(E *r, const E *a) { RawFr::field.inv(*r, *a); }
void k_div(E *r, const E *a, const E *b) { RawFr::field.div(*r, *a, *b); }
void k_exp(E *r, const E *a, uint8_t *s, unsigned n) { RawFr::field.exp(*r, *a, s, n); }
void k_fromString(E *r, const std::string *s, uint32_t radix) { RawFr::field.fromString(*r, *s, radix); }
void k_toString(std::string *r, const E *a, uint32_t radix) { new (r) std::string(RawFr::field.toString(*a, radix)); }
void k_toMpz(mpz_t r, const E *a) { RawFr::field.toMpz(r, *a); }
void k_fromMpz(E *r, const mpz_t a) { RawFr::field.fromMpz(*r, a); }
int k_toRprBE(const E *a, uint8_t *d, int n) { return RawFr::field.toRprBE(*a, d, n); }
int k_fromRprBE(E *r, const uint8_t *d, int n) { return RawFr::field.fromRprBE(*r, d, n); }
}
