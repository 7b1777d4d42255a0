// Native replay of a counterexample: the harness and the real code compiled for the host, inputs read in order from a
// file written by the symbolic engine. Exit codes: 0 nothing failed, 42 a check failed, 43 sanitizer report,
// 77 the inputs do not satisfy an assumption (or do not fit this run).
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <mutex>
#include <random>
#include <string>
#include <vector>
extern "C" {
int sym_rng_mode = 0;
void harness();
}
namespace
{
struct In {
    std::string name;
    unsigned w;
    bool fp, free_;
    uint64_t v;
};
std::vector<In> ins;
size_t pos = 0;
unsigned randomise = 0; // 0: as given, 1: randomise the unconstrained fp inputs, 2: randomise every fp input, 3: random everything
std::mt19937_64 rng;
bool diverged = false;
std::recursive_mutex mtx;

double rnd()
{
    static const double nice[] = {0., 1., -1., 0.5, -0.5, 2., -2., 3., 0.25};
    uint64_t r = rng() % 10;
    if (r < 3) return nice[rng() % 9];
    std::uniform_real_distribution<double> d(-2., 2.);
    return d(rng);
}
uint64_t next(const char *name, unsigned w, bool fp, uint64_t lo, uint64_t hi)
{
    std::lock_guard<std::recursive_mutex> l(mtx);
    uint64_t v;
    bool have = false;
    if (!diverged && pos < ins.size()) {
        auto &i = ins[pos];
        if (i.name == name && i.w == w) {
            v = i.v;
            have = true;
            if (fp && ((randomise == 1 && i.free_) || randomise >= 2)) have = false;
            if (!fp && randomise >= 3) have = false;
            pos++;
        } else
            diverged = true;
    }
    if (have && !fp && (v < lo || v > hi)) have = false;
    if (!have) {
        if (fp) {
            double d = rnd();
            memcpy(&v, &d, 8);
        } else
            v = hi - lo == UINT64_MAX ? rng() : lo + rng() % (hi - lo + 1);
    }
    return v;
}
[[noreturn]] void fail(const char *msg)
{
    printf("CHECK-FAILED: %s\n", msg);
    fflush(stdout);
    _Exit(42);
}
uint64_t mix(uint64_t h, uint64_t x)
{
    uint64_t z = (h ^ x) + 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
} // namespace
extern "C" {
uint32_t sym_u32(const char *n, uint32_t lo, uint32_t hi)
{
    if (lo > hi) fail("empty range requested");
    return lo == hi ? lo : (uint32_t)next(n, 32, false, lo, hi);
}
uint64_t sym_between(const char *n, uint64_t lo, uint64_t hi)
{
    if (lo > hi) fail("empty range requested");
    return lo == hi ? lo : next(n, 64, false, lo, hi);
}
uint64_t sym_any_u64(const char *n) { return next(n, 64, false, 0, UINT64_MAX); }
uint32_t sym_any_u32(const char *n) { return (uint32_t)next(n, 32, false, 0, UINT32_MAX); }
double sym_f64(const char *n)
{
    uint64_t v = next(n, 64, true, 0, 0);
    double d;
    memcpy(&d, &v, 8);
    return d;
}
uint32_t sym_pick(const char *n, uint32_t k)
{
    if (k == 0) fail("empty range requested");
    return k == 1 ? 0 : (uint32_t)next(n, 32, false, 0, k - 1);
}
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_assume(int c)
{
    if (!c) {
        printf("ASSUME-FAILED\n");
        fflush(stdout);
        _Exit(77);
    }
}
void sym_check(int c, const char *m)
{
    if (!c) fail(m);
}
static bool same(double a, double b)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    if (std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <= 1e-6 * std::max(std::fabs(a), std::fabs(b)) + 1e-9;
}
void sym_check_same(double a, double b, const char *m)
{
    if (!same(a, b)) {
        printf("values: %.17g %.17g\n", a, b);
        fail(m);
    }
}
void sym_check_real(double a, double b, const char *m)
{
    if (std::isnan(a) || std::isnan(b) || std::isinf(a) || std::isinf(b)) return; // outside the claim
    if (std::fabs(a - b) > 1e-5 * std::max(std::fabs(a), std::fabs(b)) + 1e-6) {
        printf("values: %.17g %.17g\n", a, b);
        fail(m);
    }
}
double sym_uf(uint64_t id, const double *args, uint32_t n)
{
    uint64_t h = 0x1234567;
    h = mix(h, id);
    for (uint32_t i = 0; i < n; ++i) {
        uint64_t b;
        double x = args[i];
        memcpy(&b, &x, 8);
        h = mix(h, b);
    }
    return (double)(h >> 11) * 0x1p-53 * 4 - 2;
}
double sym_deriv(double, double) { return 0; }
void sym_reach(const char *) {}
uint32_t sym_param(const char *n, uint32_t d)
{
    auto *e = getenv((std::string("SYM_PARAM_") + n).c_str());
    return e ? (uint32_t)strtoul(e, nullptr, 0) : d;
}
int sym_mode() { return 0; }
int sym_is_symbolic(uint64_t) { return 0; }
void sym_stop() { _Exit(0); }
uint64_t sym_draw_int(uint64_t, uint64_t lo, uint64_t) { return lo; }
double sym_draw_real(uint64_t, uint64_t) { return 0; }
static unsigned long long printed = 0;
void sym_printed() { printed++; }
uint64_t sym_prints() { return printed; }
static thread_local int depth = 0;
static uint64_t taken = 0;
void sym_lock(const void *) { mtx.lock(); depth++; taken++; }
void sym_unlock(const void *) { depth--; mtx.unlock(); }
void sym_task_begin(unsigned) {}
void sym_task_end() {}
void sym_par_begin() {}
uint64_t sym_locks_taken() { return taken; }
uint64_t sym_locks_held() { return (uint64_t)depth; }
}
struct counting_buf : std::streambuf {
    int overflow(int c) override
    {
        printed++;
        return c;
    }
    std::streamsize xsputn(const char *, std::streamsize n) override
    {
        printed++;
        return n;
    }
};
int main()
{
    static counting_buf cb;
    std::cout.rdbuf(&cb);
    if (auto *f = getenv("SYM_VALUES")) {
        std::ifstream is(f);
        std::string line;
        while (std::getline(is, line)) {
            // w fp free value name...
            In i;
            unsigned fp, fr;
            unsigned long long v;
            int off = 0;
            if (sscanf(line.c_str(), "%u %u %u %llu %n", &i.w, &fp, &fr, &v, &off) < 4) continue;
            i.fp = fp;
            i.free_ = fr;
            i.v = v;
            i.name = line.substr((size_t)off);
            ins.push_back(i);
        }
    }
    if (auto *s = getenv("SYM_SEED")) rng.seed(strtoull(s, nullptr, 0));
    if (auto *s = getenv("SYM_RANDOMISE")) randomise = (unsigned)atoi(s);
    try {
        harness();
    } catch (const std::exception &e) {
        printf("CHECK-FAILED: uncaught exception: %s\n", e.what());
        fflush(stdout);
        _Exit(42);
    }
    printf("DONE%s\n", diverged ? " (diverged)" : "");
    return 0;
}
