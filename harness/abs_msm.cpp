// The repository's multi-exponentiations, instantiated over a group of which nothing is known (its operations are reached by contract).
#include <string>
#include <cstdint>
#include <cstring>
#include <cstddef>
#include <cassert>
#include <memory>
#include <vector>
#include <thread>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <functional>
#include <sstream>
#include <memory.h>
#ifdef _OPENMP
#include <omp.h>
#endif
struct AG {
    struct Point { uint64_t h; };
    struct PointAffine { uint64_t h; };
    Point &zero(); PointAffine &zeroAffine();
    void copy(Point &r, const Point &a); void copy(Point &r, const PointAffine &a); void copy(PointAffine &r, const PointAffine &a);
    void add(Point &r, const Point &a, const Point &b); void add(Point &r, const Point &a, const PointAffine &b); void add(Point &r, const PointAffine &a, const PointAffine &b);
    void sub(Point &r, const Point &a, const Point &b); void sub(Point &r, const Point &a, const PointAffine &b);
    void neg(Point &r, const Point &a); void neg(Point &r, const PointAffine &a); void neg(PointAffine &r, const PointAffine &a);
    void dbl(Point &r, const Point &a); void dbl(Point &r, const PointAffine &a);
    bool isZero(const Point &a); bool isZero(const PointAffine &a);
    bool eq(const Point &a, const Point &b);
    void mulByScalar(Point &r, const Point &b, uint8_t *s, unsigned n);
    void mulByScalar(Point &r, const PointAffine &b, uint8_t *s, unsigned n);
};
struct AB {};
#ifdef ABS_BUCKET
#include "multiexp.hpp"
typedef ParallelMultiexp<AG> E;
extern "C" {
extern const uint64_t o_scalars = offsetof(E, scalars), o_size = offsetof(E, scalarSize), o_bits = offsetof(E, bitsPerChunk), o_bases = offsetof(E, bases), o_n = offsetof(E, n), o_threads = offsetof(E, nThreads), o_cells = offsetof(E, accsPerChunk), o_chunks = offsetof(E, nChunks), o_accs = offsetof(E, accs), o_g = offsetof(E, g), o_total = sizeof(E);
uint64_t v_chunk(E &e, uint64_t i, uint64_t j) { return e.getChunk(i, j); }
void v_init(E &e) { e.initAccs(); }
void v_process(E &e, uint64_t j) { e.processChunk(j); }
void v_process_sized(E &e, uint64_t j, uint64_t nx, uint64_t *x) { e.processChunk(j, nx, x); }
void v_pack(E &e) { e.packThreads(); }
void v_reduce(E &e, AG::Point &r, uint64_t b) { e.reduce(r, b); }
void v_multiexp(E &e, AG::Point &r, AG::PointAffine *b, uint8_t *s, uint64_t size, uint64_t n, uint64_t t) { e.multiexp(r, b, s, size, n, t); }
void v_multiexp_sized(E &e, AG::Point &r, AG::PointAffine *b, uint8_t *s, uint64_t size, uint64_t n, uint64_t nx, uint64_t *x, uint64_t t) { e.multiexp(r, b, s, size, n, nx, x, t); }
}
#else
#include "msm.hpp"
typedef MSM<AG, AB> E;
extern "C" {
extern const uint64_t o_scalars = offsetof(E, scalars), o_size = offsetof(E, scalarSize), o_bits = offsetof(E, bitsPerChunk), o_total = sizeof(E);
uint64_t v_chunk(E &e, uint64_t i, uint64_t j) { return e.getBucketIndex(i, j); }
uint64_t v_bits_new(AG &g, uint64_t n, uint64_t size) { E e(g); return e.calcBitsPerChunk(n, size); }
void v_run(E &e, AG::Point &r, AG::PointAffine *b, uint8_t *s, uint64_t size, uint64_t n) { e.run(r, b, s, size, n); }
}
#endif
