// A small concrete prime field with the interface of the generated field classes, for concrete searches.
#pragma once
#include <cstdint>
#include <string>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <gmp.h>
struct Mod {
    struct Element { uint64_t v; };
    static uint64_t p;
    static Mod field;
    Element z, o, n;
    static uint64_t mulm(uint64_t a, uint64_t b) { return (unsigned __int128)a * b % p; }
    static uint64_t powm(uint64_t a, uint64_t e) { uint64_t r = 1 % p; for (; e; e >>= 1, a = mulm(a, a)) if (e & 1) r = mulm(r, a); return r; }
    Mod() { z.v = 0; o.v = 1; n.v = p - 1; }
    Mod(std::string) : Mod() {}
    Element &zero() { return z; }
    Element &one() { return o; }
    Element &negOne() { return n; }
    void copy(Element &r, const Element &a) { r.v = a.v; }
    void add(Element &r, const Element &a, const Element &b) { r.v = (unsigned __int128)(a.v + (unsigned __int128)b.v) % p; }
    void sub(Element &r, const Element &a, const Element &b) { r.v = ((unsigned __int128)a.v + p - b.v) % p; }
    void mul(Element &r, const Element &a, const Element &b) { r.v = mulm(a.v, b.v); }
    void neg(Element &r, const Element &a) { r.v = a.v ? p - a.v : 0; }
    void square(Element &r, const Element &a) { r.v = mulm(a.v, a.v); }
    void mul1(Element &r, const Element &a, uint64_t b) { r.v = mulm(a.v, b % p); }
    void inv(Element &r, const Element &a) { r.v = powm(a.v, p - 2); }
    void div(Element &r, const Element &a, const Element &b) { r.v = mulm(a.v, powm(b.v, p - 2)); }
    void exp(Element &r, const Element &b, uint8_t *s, unsigned int n) {
        Element x = b; r.v = 1 % p;
        for (unsigned i = 0; i < n * 8; i++) { if (s[i / 8] >> (i % 8) & 1) r.v = mulm(r.v, x.v); x.v = mulm(x.v, x.v); }
    }
    bool isZero(const Element &a) { return a.v == 0; }
    bool isOne(const Element &a) { return a.v == 1; }
    bool eq(const Element &a, const Element &b) { return a.v == b.v; }
    void fromString(Element &r, const std::string &s, uint32_t radix = 10) {
        bool neg = false; uint64_t v = 0;
        for (char c : s) { if (c == '-') neg = true; else if (c >= '0' && c <= '9') v = ((unsigned __int128)v * radix + (c - '0')) % p; }
        r.v = neg && v ? p - v : v;
    }
    void fromUI(Element &r, unsigned long v) { r.v = v % p; }
    void set(Element &r, int v) { r.v = v >= 0 ? v % p : (p - (uint64_t)(-(int64_t)v) % p) % p; }
    std::string toString(const Element &a, uint32_t radix = 10) { return std::to_string(a.v); }
    void toMpz(mpz_t r, const Element &a) { mpz_set_ui(r, a.v); }
    void fromMpz(Element &r, const mpz_t a) { mpz_t t; mpz_init(t); mpz_set_ui(t, p); mpz_mod(t, a, t); r.v = mpz_get_ui(t); mpz_clear(t); }
};
struct Rng { uint64_t s; uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1DULL >> 3; } uint64_t operator()(uint64_t n) { return n ? next() % n : 0; } };
