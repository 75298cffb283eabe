// The repository's thread pool, its calls made to a function of which nothing is known; workers are reached by contract.
#include <cstdint>
#include <cstddef>
#include <cassert>
#include <vector>
#include <thread>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <functional>
#include "misc.hpp"
struct Job {
    __attribute__((noinline)) void operator()(int begin, int end, int number) const;
};
struct Block {
    __attribute__((noinline)) void operator()(int number, int count) const;
};
void Job::operator()(int, int, int) const {}
void Block::operator()(int, int) const {}
extern "C" {
extern const uint64_t o_count = offsetof(ThreadPool, nThreads), o_workers = offsetof(ThreadPool, workers), o_total = sizeof(ThreadPool), o_worker = sizeof(ThreadWorker), o_task = offsetof(ThreadWorker, task), o_finished = offsetof(ThreadWorker, finished), o_mutex = offsetof(ThreadWorker, mutex), o_occupied = offsetof(ThreadWorker, occupied);
void v_for(ThreadPool &p, int begin, int end) { p.parallelFor(begin, end, Job()); }
void v_for_named(ThreadPool &p, int begin, int end, Job &f) { p.parallelFor(begin, end, f); }
void v_block(ThreadPool &p) { p.parallelBlock(Block()); }
void v_divide(std::vector<int> &r, int n, int t) { r = ThreadPool::divideWork(n, t); }
uint32_t v_log2(uint32_t x) { return log2(x); }
}
