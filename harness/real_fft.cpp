// real_fft <seed> <maxpow>: the transforms over the generated field class
#include <gmp.h>
#include <cassert>
#include <iostream>
#include <stdexcept>
#include <vector>
#include <cstring>
#include <unistd.h>
#include "fr.hpp"
#include "misc.hpp"
#include "fft.hpp"
static long count = 0;
static uint64_t s = 88172645463325252ull; static uint64_t rnd() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
static void fail(const char *w, uint64_t n, uint64_t mx, uint64_t i) { printf("FAIL {\"op\": \"%s over RawFr\", \"size\": %llu, \"max_domain\": %llu, \"index\": %llu, \"workers\": %u}\nCOUNT %ld\n", w, (unsigned long long)n, (unsigned long long)mx, (unsigned long long)i, std::thread::hardware_concurrency(), count); fflush(stdout); _exit(0); }
int main(int argc, char **argv) {
    s += atoll(argv[1]); RawFr F; int mp = atoi(argv[2]);
    for (int m = 0; m <= mp; m++) {
        FFT<RawFr> t(1ull << m);
        for (int k = 0; k <= m; k++) {
            if (m > 6 && k + 3 < m) continue;
            uint64_t n = 1ull << k; RawFr::Element w = t.root(k, k ? 1 : 0), x = w;
            for (int i = 1; i < k; i++) F.mul(x, x, x);
            count++; if (k && !F.eq(x, F.negOne())) fail("root of unity is not primitive", n, 1ull << m, 1);
            RawFr::Element c = F.one(); for (uint64_t i = 0; i < n; i++) { count++; if (!F.eq(c, t.root(k, i))) fail("root", n, 1ull << m, i); F.mul(c, c, w); }
            std::vector<RawFr::Element> a(n + 1), b; for (auto &e : a) { uint64_t v[8] = {rnd(), rnd(), 0, 0, 0, 0, 0, 0}; F.fromUI(e, v[0]); F.square(e, e); F.square(e, e); if (rnd() % 7 == 0) e = F.zero(); }
            b = a; t.fft(b.data(), n); if (memcmp(&b[n], &a[n], sizeof(a[n]))) fail("fft writes past the vector", n, 1ull << m, n);
            RawFr::Element xp = F.one();
            for (uint64_t i = 0; i < n; i++) { if (n <= 256 || i % 61 == 0 || i == n - 1) { RawFr::Element v = F.zero(); for (uint64_t j = n; j-- > 0;) { F.mul(v, v, xp); F.add(v, v, a[j]); } count++; if (!F.eq(v, b[i])) fail("fft", n, 1ull << m, i); } F.mul(xp, xp, w); }
            t.ifft(b.data(), n); for (uint64_t i = 0; i <= n; i++) { count++; if (!F.eq(a[i], b[i])) fail("ifft after fft", n, 1ull << m, i); }
        }
    }
    printf("COUNT %ld\n", count); fflush(stdout); _exit(0);
}
