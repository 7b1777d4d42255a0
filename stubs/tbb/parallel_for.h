#pragma once
// Environment stub of tbb::parallel_for: the iterations run one after the other in an arbitrary order (a symbolic
// permutation); the engine records the memory accesses of every iteration with the locks held, and reports pairs of
// conflicting accesses of different iterations that no common lock protects. Race freedom plus every order of the
// (then atomic) critical sections covers every schedule up to the order of the sections inside one iteration.
#include <algorithm>
#include <functional>
#include <cstddef>
#include <stdexcept>
#include <tbb/blocked_range.h>
#ifdef SYM_THREADS
#include <exception>
#include <mutex>
#include <thread>
#include <vector>
#endif
extern "C" {
unsigned sym_pick(const char *, unsigned);
unsigned sym_param(const char *, unsigned);
void sym_par_begin();
void sym_task_begin(unsigned);
void sym_task_end();
}
namespace tbb
{
namespace stub
{
template <typename F>
inline void run(unsigned n, const F &f)
{
#ifdef SYM_THREADS // the native replay of a race: every iteration in a thread of its own
    std::vector<std::thread> ts;
    std::mutex em;
    std::exception_ptr ep;
    for (unsigned i = 0; i < n; ++i)
        ts.emplace_back([&f, &em, &ep, i] {
            try {
                f(i);
            } catch (...) {
                std::lock_guard<std::mutex> l(em);
                ep = std::current_exception();
            }
        });
    for (auto &t : ts) t.join();
    if (ep) std::rethrow_exception(ep);
    return;
#endif
    // sched 0: forward, 1: reverse, 2: every order
    unsigned mode = sym_param("sched", 0u);
    bool *done = new bool[n + 1u]();
    sym_par_begin();
    for (unsigned k = 0; k < n; ++k) {
        unsigned left = n - k, pick = mode == 0u ? 0u : mode == 1u ? left - 1u : left > 1u ? sym_pick("schedule", left) : 0u;
        unsigned i = 0;
        for (;; ++i)
            if (!done[i] && pick-- == 0u) break;
        done[i] = true;
        sym_task_begin(i + 1u);
        f(i);
        sym_task_end();
    }
    delete[] done;
}
} // namespace stub
template <typename I, typename F>
inline void parallel_for(I first, I last, I step, const F &f)
{
    if (step <= 0) throw std::invalid_argument("Step must be positive");
    if (last <= first) return;
    unsigned n = static_cast<unsigned>((last - first - 1) / step + 1);
    stub::run(n, [&](unsigned k) { f(static_cast<I>(first + static_cast<I>(k) * step)); });
}
template <typename I, typename F>
inline void parallel_for(I first, I last, const F &f)
{
    parallel_for(first, last, static_cast<I>(1), f);
}
template <typename R, typename F>
inline void parallel_for(const blocked_range<R> &r, const F &f)
{
    if (r.empty()) return;
    unsigned n = static_cast<unsigned>((r.size() - 1) / r.grainsize() + 1);
    stub::run(n, [&](unsigned k) {
        auto b = r.begin() + static_cast<R>(k * r.grainsize());
        auto e = std::min<std::size_t>(static_cast<std::size_t>(r.size()), (k + 1u) * r.grainsize());
        f(blocked_range<R>(b, r.begin() + static_cast<R>(e), r.grainsize()));
    });
}
} // namespace tbb
