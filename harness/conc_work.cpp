// conc_work <seed> <maxcount> <maxworkers>: work partitioning and the integer logarithm
#include <gmp.h>
#include <cstdio>
#include <cstdlib>
#include <climits>
#include <string>
#include <tuple>
#include <algorithm>
#include <unistd.h>
#include "misc.hpp"
typedef std::tuple<int, int, int> Call;
static std::atomic<long> count(0); static uint64_t s; static uint64_t rnd() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
static void fail(const std::string &op, const std::string &in, const std::string &got) { printf("FAIL {\"op\": \"%s\", %s, \"observed\": \"%s\"}\nCOUNT %ld\n", op.c_str(), in.c_str(), got.c_str(), (long)count); fflush(stdout); _exit(0); }
static std::string chunks(long b, long e, long t) { return "\"begin\": " + std::to_string(b) + ", \"end\": " + std::to_string(e) + ", \"workers\": " + std::to_string(t); }
static void partition(long b, long e, unsigned t, std::vector<Call> c) {
    std::string in = chunks(b, e, t); count++;
    if (b >= e) { if (!c.empty()) fail("parallelFor", in, "called for an empty range"); return; }
    std::sort(c.begin(), c.end(), [](const Call &x, const Call &y) { return std::get<2>(x) < std::get<2>(y); });
    if (c.empty()) fail("parallelFor", in, "no call"); if (c.size() > t) fail("parallelFor", in, std::to_string(c.size()) + " calls");
    long at = b, lo = LONG_MAX, hi = 0;
    for (size_t i = 0; i < c.size(); i++) {
        if (std::get<2>(c[i]) != (int)i) fail("parallelFor", in, "calls are not numbered 0, 1, ...: number " + std::to_string(std::get<2>(c[i])));
        long x = std::get<0>(c[i]), y = std::get<1>(c[i]);
        if (x != at || y < x) fail("parallelFor", in, "call " + std::to_string(i) + " got " + std::to_string(x) + ".." + std::to_string(y) + ", expected to begin at " + std::to_string(at));
        at = y; lo = std::min(lo, y - x); hi = std::max(hi, y - x);
    }
    if (at != e) fail("parallelFor", in, "the last call ends at " + std::to_string(at));
    if (hi - lo > 1) fail("parallelFor", in, "sizes from " + std::to_string(lo) + " to " + std::to_string(hi));
}
static void divide(int n, int t) {
    std::vector<int> j = ThreadPool::divideWork(n, t); std::string in = "\"elements\": " + std::to_string(n) + ", \"workers\": " + std::to_string(t); long sum = 0; int lo = INT_MAX, hi = 0; count++;
    for (int x : j) { sum += x; lo = std::min(lo, x); hi = std::max(hi, x); if (x < 0) fail("divideWork", in, "job of size " + std::to_string(x)); }
    if (sum != n) fail("divideWork", in, "sizes sum to " + std::to_string(sum)); if ((long)j.size() > t) fail("divideWork", in, std::to_string(j.size()) + " jobs"); if (!j.size() || hi - lo > 1) fail("divideWork", in, "sizes from " + std::to_string(lo) + " to " + std::to_string(hi));
}
int main(int argc, char **argv) {
    s = atoll(argv[1]) * 7919 + 1234567; int maxn = atoi(argv[2]), maxt = atoi(argv[3]);
    for (int t = 1; t <= 200; t++) for (int n = 1; n <= 900; n++) divide(n, t);
    for (int t : {1, 2, 3, 7, 8, 16, 24, 31, 48, 64, 96, 128, 255, 256, 1000}) for (int i = 0; i < 400; i++) { int n = i < 40 ? INT_MAX - i : i < 80 ? (1 << (i % 31)) + i / 31 : i < 120 ? t * (int)(rnd() % 2000000) + (i % 3) : (int)(rnd() % INT_MAX) + 1; if (n > 0) divide(n, t); }
    for (int t = 1; t <= maxt; t++) {
        ThreadPool pool(t); std::mutex m;
        if (pool.getThreadCount() != (unsigned)t) fail("getThreadCount", chunks(0, 0, t), std::to_string(pool.getThreadCount()));
        auto one = [&](int b, int e) { std::vector<Call> c; pool.parallelFor(b, e, [&](int x, int y, int k) { std::lock_guard<std::mutex> l(m); c.push_back(Call(x, y, k)); }); std::lock_guard<std::mutex> l(m); partition(b, e, t, c); };
        for (int n = -2; n <= maxn; n++) { if (t > 12 && n > 4 * t + 2) break; one(0, n); if (n % 3 == 0) one(-n / 2, n - n / 2); one(5, 5 + n); one(-3, n - 3); }
        for (int i = 0; i < 60; i++) { int b = (int)(rnd() % 2000000000) - 1000000000; one(b, b + (int)(rnd() % (i % 2 ? 1000000000 : 200)) - 1); }
        one(0, INT_MAX); one(1, INT_MAX); one(INT_MAX - 3, INT_MAX); one(INT_MIN, INT_MIN + 17); one(INT_MIN, -1); one(7, 3); one(INT_MAX - 1, INT_MAX);
        for (int i = 0; i < 40; i++) {
            std::vector<std::pair<int, int>> c; pool.parallelBlock([&](int k, int n) { std::lock_guard<std::mutex> l(m); c.push_back({k, n}); });
            std::lock_guard<std::mutex> l(m); std::sort(c.begin(), c.end()); count++;
            if (c.size() != (size_t)t) fail("parallelBlock", chunks(0, 0, t), std::to_string(c.size()) + " calls");
            for (int k = 0; k < t; k++) if (c[k] != std::make_pair(k, t)) fail("parallelBlock", chunks(0, 0, t), "call (" + std::to_string(c[k].first) + ", " + std::to_string(c[k].second) + ")");
        }
    }
    { ThreadPool &d = ThreadPool::defaultPool(); std::vector<std::thread> th; std::atomic<uint64_t> bad(0); unsigned nt = 8;
      for (unsigned k = 0; k < nt; k++) th.emplace_back([&, k] { uint64_t lo = k ? (uint64_t)k << 29 : 1, hi = (uint64_t)(k + 1) << 29; for (uint64_t v = lo; v < hi; v++) if (log2((uint32_t)v) != (uint32_t)(31 - __builtin_clz((uint32_t)v))) { bad = v; break; } count += hi - lo; });
      for (auto &x : th) x.join(); if (bad) fail("log2", "\"value\": " + std::to_string((uint64_t)bad), std::to_string(log2((uint32_t)bad))); }
    printf("COUNT %ld\n", (long)count); fflush(stdout); _exit(0);
}
