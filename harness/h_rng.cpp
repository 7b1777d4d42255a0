// R01: the library's random device is one seedable sequence, for any number of threads.
#include <dcgp/rng.hpp>
#if WHAT == 1
#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>
#include <dcgp/expression_ann.hpp>
#include <dcgp/expression_weighted.hpp>
#include "geom.hpp"
#else
#include <thread>
#include <atomic>
#include <vector>
#endif
extern "C" {
void sym_par_begin();
void sym_task_begin(unsigned);
void sym_task_end();
}
using dcgp::random_device;
#if WHAT == 0
static void released() // natively: somebody else can use it
{
#ifdef SYM_NATIVE
    static std::atomic<int> done;
    done = 0;
    std::thread([] {
        random_device::next();
        done = 1;
    }).detach();
    for (int i = 0; i < 300 && !done; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(10));
    sym_check(done == 1, "the random device's lock is released");
#else
    sym_check(!sym_locks_held(), "the random device's lock is released");
#endif
}
static void step(unsigned t, unsigned what, unsigned s, unsigned &r)
{
    if (what) r = random_device::next();
    else random_device::set_seed(s + t);
}
static void threads(unsigned n)
{
    unsigned s = sym_any_u32("seed"), what[4], r[4];
    for (unsigned t = 0; t < n; ++t) what[t] = sym_pick("operation", 2u);
#ifdef SYM_THREADS
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < n; ++t)
        ts.emplace_back([&, t] {
            for (int k = 0; k < 50; ++k) step(t, what[t], s, r[t]);
        });
    for (auto &t : ts) t.join();
#else
    sym_par_begin();
    for (unsigned t = 0; t < n; ++t) {
        sym_task_begin(t + 1u);
        step(t, what[t], s, r[t]);
        sym_task_end();
    }
#endif
    released();
}
extern "C" void harness()
{
    unsigned mode = sym_param("mode", 0u), n = sym_param("n", 3u);
    if (mode == 0u) { // whatever was done before, the words after a seed are those of the Mersenne twister
        unsigned s = sym_any_u32("seed"), k = static_cast<unsigned>(sym_concretize(sym_u32("words before", 0u, 3u)));
        for (unsigned i = 0; i < k; ++i) random_device::next();
        random_device::set_seed(s);
        std::mt19937 e(s);
        for (unsigned i = 0; i < n; ++i) sym_check(random_device::next() == static_cast<unsigned>(e()), "the sequence after a seed is the generator's");
        released();
    } else if (mode == 1u) { // seeds among the words
        std::mt19937 e(1u);
        random_device::set_seed(1u);
        for (unsigned i = 0; i < n; ++i) {
            if (sym_pick("seed again", 2u)) {
                unsigned s = sym_any_u32("seed");
                random_device::set_seed(s);
                e.seed(s);
            }
            sym_check(random_device::next() == static_cast<unsigned>(e()), "the sequence after a seed is the generator's");
        }
        released();
    } else
        threads(n);
    sym_reach("end");
}
#else
// Objects made without a seed take the next word of the device for theirs.
static unsigned before, words[3];
static void start()
{
    random_device::set_seed(before);
    sym_rng_mode = sym_param("steps", 0u) ? 3 : 1;
    sym_fair.limit = 1u;
}
template <typename E>
static void expressions(const char *msg, E (*plain)(), E (*seeded)(unsigned))
{
    start();
    E a = plain(), b = plain();
    sym_check(random_device::next() == words[2], msg);
    E c = seeded(words[0]), d = seeded(words[1]);
    for (unsigned k = 0;; ++k) {
        sym_check(a.get() == c.get() && b.get() == d.get(), msg);
        if (k == sym_param("steps", 0u)) break;
        a.mutate_random(2u);
        c.mutate_random(2u);
        b.mutate_random(2u);
        d.mutate_random(2u);
    }
}
template <typename A>
static void algorithm(const char *msg, A (*plain)())
{
    start();
    A a = plain(), b = plain();
    sym_check(a.get_seed() == words[0] && b.get_seed() == words[1] && random_device::next() == words[2], msg);
}
typedef dcgp::expression<double> EX;
typedef dcgp::expression_weighted<double> EW;
typedef dcgp::expression_ann EA;
static dcgp::kernel_set<double> kernels() { return dcgp::kernel_set<double>({"sig", "tanh"}); }
extern "C" void harness()
{
    before = sym_param("steps", 0u) ? sym_param("seed", 5u) : sym_any_u32("seed");
    random_device::set_seed(before);
    for (auto &w : words) w = random_device::next();
    const char *m = "an expression made without a seed takes the next word of the random device", *n = "an algorithm made without a seed takes the next word of the random device";
    uvec ar{2u, 1u};
    switch (sym_param("what", 0u)) {
        case 0: expressions<EX>(m, [] { return EX(1u, 1u, 1u, 2u, 2u, 2u, uf_kernels(2u), 1u); }, [](unsigned s) { return EX(1u, 1u, 1u, 2u, 2u, 2u, uf_kernels(2u), 1u, s); }); break;
        case 1: expressions<EX>(m, [] { return EX(1u, 1u, 1u, 2u, 2u, uvec{2u, 1u}, uf_kernels(2u), 1u); }, [](unsigned s) { return EX(1u, 1u, 1u, 2u, 2u, uvec{2u, 1u}, uf_kernels(2u), 1u, s); }); break;
        case 2: expressions<EW>(m, [] { return EW(1u, 1u, 1u, 2u, 2u, 2u, uf_kernels(2u)); }, [](unsigned s) { return EW(1u, 1u, 1u, 2u, 2u, 2u, uf_kernels(2u), s); }); break;
        case 3: expressions<EW>(m, [] { return EW(1u, 1u, 1u, 2u, 2u, uvec{2u, 1u}, uf_kernels(2u)); }, [](unsigned s) { return EW(1u, 1u, 1u, 2u, 2u, uvec{2u, 1u}, uf_kernels(2u), s); }); break;
        case 4: expressions<EA>(m, [] { return EA(1u, 1u, 1u, 2u, 2u, 2u, kernels()()); }, [](unsigned s) { return EA(1u, 1u, 1u, 2u, 2u, 2u, kernels()(), s); }); break;
        case 5: expressions<EA>(m, [] { return EA(1u, 1u, 1u, 2u, 2u, uvec{2u, 1u}, kernels()()); }, [](unsigned s) { return EA(1u, 1u, 1u, 2u, 2u, uvec{2u, 1u}, kernels()(), s); }); break;
        case 6: algorithm<dcgp::es4cgp>(n, [] { return dcgp::es4cgp(1u, 4u, 0., true); }); break;
        case 7: algorithm<dcgp::mes4cgp>(n, [] { return dcgp::mes4cgp(1u, 4u, 0.); }); break;
        case 8: algorithm<dcgp::moes4cgp>(n, [] { return dcgp::moes4cgp(1u, 4u, 0., true); }); break;
        default: algorithm<dcgp::momes4cgp>(n, [] { return dcgp::momes4cgp(1u, 4u, 0.); }); break;
    }
    sym_reach("end");
}
#endif
