// The repository's transform, instantiated over a field of which nothing is known (its operations are reached by contract).
#include <gmp.h>
#include <string>
#include <cstdint>
#include <cstring>
#include <cstddef>
#include <cassert>
#include <memory>
#include <vector>
#include <thread>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <functional>
#include <sstream>
#include <iostream>
#include <stdexcept>
struct AF {
    struct Element { uint64_t h; };
    static AF field;
    Element &zero(); Element &one(); Element &negOne();
    void copy(Element &r, const Element &a);
    void add(Element &r, const Element &a, const Element &b); void sub(Element &r, const Element &a, const Element &b);
    void mul(Element &r, const Element &a, const Element &b); void neg(Element &r, const Element &a); void square(Element &r, const Element &a);
    void exp(Element &r, const Element &b, uint8_t *s, unsigned n); void inv(Element &r, const Element &a);
    bool eq(const Element &a, const Element &b); bool isZero(const Element &a);
    void toMpz(mpz_t r, const Element &a); void fromMpz(Element &r, const mpz_t a); std::string toString(const Element &a, uint32_t radix = 10);
};
#include "misc.hpp"
#include "fft.hpp"
typedef FFT<AF> E;
extern "C" {
extern const uint64_t o_s = offsetof(E, s), o_roots = offsetof(E, roots), o_pow = offsetof(E, powTwoInv), o_pool = offsetof(E, threadPool), o_total = sizeof(E);
void v_fft(E &e, AF::Element *a, uint64_t n) { e.fft(a, n); }
void v_ifft(E &e, AF::Element *a, uint64_t n) { e.ifft(a, n); }
uint64_t v_br(uint64_t x, uint64_t d) { return BR(x, d); }
}
