// Small reference helpers for the demonstrations.
#pragma once
#include "fr.hpp"
#include <gmp.h>
#include <cstdio>
#include <cstring>
#include <cstdlib>
static mpz_t Q;
static int fails = 0;
static inline void ref_init(const char *q) { mpz_init_set_str(Q, q, 10); }
static inline void put(FrRawElement r, const mpz_t v) { memset(r, 0, sizeof(FrRawElement)); mpz_export(r, 0, -1, 8, -1, 0, v); }
static inline void get(mpz_t v, const FrRawElement r) { mpz_import(v, Fr_N64, -1, 8, -1, 0, r); }
// value of an element, in [0, q)
static inline void val(mpz_t v, const FrElement *e) {
    if (!(e->type & 0x80000000u)) { mpz_set_si(v, e->shortVal); mpz_mod(v, v, Q); return; }
    get(v, e->longVal);
    if (e->type & 0x40000000u) {
        mpz_t R; mpz_init(R); mpz_setbit(R, Fr_N64 * 64); mpz_invert(R, R, Q); mpz_mul(v, v, R); mpz_clear(R);
    }
    mpz_mod(v, v, Q);
}
static inline void expect(const char *what, const mpz_t got, const mpz_t want) {
    if (mpz_cmp(got, want)) { gmp_printf("%s: got %Zd, want %Zd\n", what, got, want); fails++; }
}
