// C entry points over the generated field library, for replays through Python ctypes.
#include "fr.hpp"
#include <cstring>
#include <csignal>
#include <csetjmp>
typedef void (*f3)(PFrElement, PFrElement, PFrElement);
typedef void (*f2)(PFrElement, PFrElement);
extern "C" {
void t3(int op, FrElement *r, FrElement *a, FrElement *b) {
    switch (op) {
    case 0: Fr_add(r,a,b); break; case 1: Fr_sub(r,a,b); break; case 2: Fr_mul(r,a,b); break;
    case 3: Fr_band(r,a,b); break; case 4: Fr_bor(r,a,b); break; case 5: Fr_bxor(r,a,b); break;
    case 6: Fr_shl(r,a,b); break; case 7: Fr_shr(r,a,b); break;
    case 8: Fr_eq(r,a,b); break; case 9: Fr_neq(r,a,b); break; case 10: Fr_lt(r,a,b); break;
    case 11: Fr_gt(r,a,b); break; case 12: Fr_leq(r,a,b); break; case 13: Fr_geq(r,a,b); break;
    case 14: Fr_land(r,a,b); break; case 15: Fr_lor(r,a,b); break;
    case 16: Fr_idiv(r,a,b); break; case 17: Fr_mod(r,a,b); break; case 18: Fr_pow(r,a,b); break; case 19: Fr_div(r,a,b); break;
    // unary
    case 32: Fr_neg(r,a); break; case 33: Fr_square(r,a); break; case 34: Fr_bnot(r,a); break; case 35: Fr_lnot(r,a); break;
    case 36: Fr_copy(r,a); break; case 37: Fr_toNormal(r,a); break; case 38: Fr_toLongNormal(r,a); break; case 39: Fr_toMontgomery(r,a); break;
    case 40: Fr_inv(r,a); break;
    }
}
int tint(int op, FrElement *a) { return op == 0 ? Fr_isTrue(a) : Fr_toInt(a); }
struct CopyCount { int n, other; };
/* the count as a field of a struct passed by value: its register carries the other field in the upper half */
__attribute__((noinline)) void tcopyn2(FrElement *r, FrElement *a, CopyCount c) { Fr_copyn(r, a, c.n); }
void tcopyn(FrElement *r, FrElement *a, int n) { tcopyn2(r, a, CopyCount{n, 0x7531}); }
int raw3(int op, uint64_t *r, uint64_t *a, uint64_t *b, uint64_t s) {
    switch (op) {
    case 0: Fr_rawAdd(r,a,b); break; case 1: Fr_rawSub(r,a,b); break; case 2: Fr_rawMMul(r,a,b); break;
    case 3: Fr_rawMSquare(r,a); break; case 4: Fr_rawNeg(r,a); break; case 5: Fr_rawMMul1(r,a,s); break;
    case 6: Fr_rawToMontgomery(r,a); break; case 7: Fr_rawFromMontgomery(r,a); break;
    case 8: Fr_rawCopy(r,a); break; case 9: Fr_rawSwap(r,a); break;
    case 10: return Fr_rawIsEq(a,b); case 11: return Fr_rawIsZero(a);
    case 12: Fr_rawShl(r,a,s); break; case 13: Fr_rawShr(r,a,s); break;
#ifndef USE_ASM
    case 14: Fr_rawAddLS(r,a,s); break; case 15: Fr_rawSubLS(r,a,s); break; case 16: Fr_rawSubSL(r,s,b); break;
    case 17: Fr_rawNegLS(r,a,s); break; case 18: Fr_rawCopyS2L(r,(int64_t)s); break; case 19: Fr_rawAnd(r,a,b); break;
    case 20: Fr_rawOr(r,a,b); break; case 21: Fr_rawXor(r,a,b); break; case 22: Fr_rawNot(r,a); break;
    case 23: Fr_rawSubRegular(r,a,b); break; case 24: return Fr_rawCmp(a,b); case 25: Fr_rawZero(r); break;
#endif
    }
    return 0;
}
void cstr2el(FrElement *r, const char *s) { Fr_str2element(r, s); }
int cel2str(FrElement *a, char *out, int cap) { char *s = Fr_element2str(a); int n = strlen(s); if (n < cap) strcpy(out, s); return n; }
#define E(p) (*(RawFr::Element *)(p))
int fld(int op, uint64_t *r, uint64_t *a, uint64_t *b, int64_t s) {
    RawFr &F = RawFr::field;
    switch (op) {
    case 0: F.inv(E(r),E(a)); break; case 1: F.div(E(r),E(a),E(b)); break; case 2: F.fromUI(E(r),(unsigned long)s); break;
    case 3: F.set(E(r),(int)s); break; case 4: F.copy(E(r),F.zero()); break; case 5: F.copy(E(r),F.one()); break; case 6: F.copy(E(r),F.negOne()); break;
    case 7: F.add(E(r),E(a),E(b)); break; case 8: F.sub(E(r),E(a),E(b)); break; case 9: F.mul(E(r),E(a),E(b)); break;
    case 10: F.neg(E(r),E(a)); break; case 11: F.square(E(r),E(a)); break; case 12: F.mul1(E(r),E(a),(uint64_t)s); break;
    case 13: F.toMontgomery(E(r),E(a)); break; case 14: F.fromMontgomery(E(r),E(a)); break; case 15: return F.eq(E(a),E(b)); case 16: return F.isZero(E(a));
    case 17: F.swap(E(r),E(a)); break; case 18: E(r)=F.add((int)s,E(a)); break; case 19: E(r)=F.sub((int)s,E(a)); break; case 20: E(r)=F.mul((int)s,E(a)); break;
    case 21: E(r)=F.add(E(a),(int)s); break; case 22: E(r)=F.sub(E(a),(int)s); break; case 23: E(r)=F.mul(E(a),(int)s); break;
    case 24: E(r)=F.neg(E(a)); break; case 25: E(r)=F.square(E(a)); break;
    case 26: E(r)=F.add(E(a),E(b)); break; case 27: E(r)=F.sub(E(a),E(b)); break; case 28: E(r)=F.mul(E(a),E(b)); break;
    }
    return 0;
}
void ffromstr(uint64_t *r, const char *s, int radix) { RawFr::field.fromString(E(r), s, radix); }
int ftostr(uint64_t *a, int radix, char *out, int cap) { std::string s = RawFr::field.toString(E(a), radix); if ((int)s.size() < cap) strcpy(out, s.c_str()); return s.size(); }
void fexp(uint64_t *r, uint64_t *a, uint8_t *sc, int n) { RawFr::field.exp(E(r), E(a), sc, n); }
int ftobe(uint64_t *a, uint8_t *d, int n) { return RawFr::field.toRprBE(E(a), d, n); }
int ffrombe(uint64_t *r, const uint8_t *d, int n) { return RawFr::field.fromRprBE(E(r), d, n); }
void ftofrommpz(uint64_t *r, uint64_t *a, uint64_t *mid) { mpz_t z; mpz_init(z); RawFr::field.toMpz(z, E(a)); memset(mid,0,8*Fr_N64); mpz_export(mid,NULL,-1,8,-1,0,z); RawFr::field.fromMpz(E(r), z); mpz_clear(z); }
}
