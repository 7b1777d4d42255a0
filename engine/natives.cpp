#include "exec.hpp"
#include <cstring>
#include <cstdio>
#include <cmath>
#include <cxxabi.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Instructions.h>

using namespace llvm;

static std::string demangle(const std::string &s)
{
    int st;
    char *d = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st);
    std::string r = (st == 0 && d) ? d : s;
    free(d);
    return r;
}
static const unsigned OSHIFT = 24;

int Exec::lookupNative(const std::string &name)
{
    auto it = nativeId.find(name);
    if (it != nativeId.end()) return it->second;
    int id = -1;
    Function *F = M->getFunction(name);
    if (F && F->isDeclaration()) {
        std::string d = demangle(name);
        auto has = [&](const char *p) { return d.find(p) != std::string::npos; };
        auto starts = [&](const char *p) { return d.compare(0, strlen(p), p) == 0; };
        static const char *exc[] = {"std::invalid_argument::", "std::runtime_error::", "std::logic_error::", "std::out_of_range::",
                                    "std::domain_error::", "std::length_error::", "std::overflow_error::", "std::range_error::",
                                    "std::underflow_error::", "std::exception::", "std::bad_alloc::", "std::bad_cast::"};
        for (auto *e : exc)
            if (starts(e)) id = nativeId["$exc"];
        if (id < 0 && (has("std::ostream") || has("std::basic_ostream") || has("std::ios_base") || has("std::basic_ios") || has("stringstream")
                       || has("std::basic_streambuf") || has("stringbuf") || has("std::locale") || has("__ostream_insert") || has("std::istream")
                       || has("std::basic_istream") || has("std::__basic_file") || has("std::codecvt") || has("std::use_facet") || has("std::has_facet")
                       || has("std::ctype") || has("std::setprecision") || has("basic_filebuf") || has("fstream")))
        {
            auto ends = [&](const char *p) { return d.size() >= strlen(p) && d.compare(d.size() - strlen(p), strlen(p), p) == 0; };
            bool out = has("operator<<") || has("::_M_insert<") || has("__ostream_insert") || has("ostream::put(") || has("ostream::write(") || has("traits<char> >::put(") || has("traits<char> >::write(");
            std::string n = "$noop0";
            if (has("::str() const") || has("::str[abi:cxx11]() const") || has("::str() &&") || has("::str() const &")) n = "$os_str";
            else if (has("::str(std::")) n = "$os_set";
            else if (has("stringstream<") && (has("::basic_ostringstream(") || has("::basic_stringstream("))) n = "$os_new";
            else if (out) {
                if (ends(", char const*)") || ends("(char const*)")) n = "$os_cstr";
                else if (ends(", char const*, long)") || ends("(char const*, long)")) n = "$os_mem";
                else if (ends("std::allocator<char> > const&)")) n = "$os_string";
                else if (ends(", char)") || ends("(char)")) n = "$os_char";
                else if (ends("(unsigned int)") || ends("(unsigned short)")) n = "$os_u32";
                else if (ends("(unsigned long)") || ends("(unsigned long long)")) n = "$os_u64";
                else if (ends("(int)") || ends("(short)")) n = "$os_i32";
                else if (ends("(long)") || ends("(long long)")) n = "$os_i64";
                else if (ends("(bool)")) n = "$os_bool";
                else if (ends("(double)")) n = "$os_double";
                else if (ends("_Setw)") || ends("_Setprecision)")) n = "$noop0";
                else n = "$os_other";
            }
            id = nativeId[n];
        }
    }
    nativeId[name] = id;
    return id;
}

void Exec::registerNatives()
{
    auto reg = [&](const std::string &n, Native f) {
        nativeId[n] = (int)natives.size();
        natives.push_back({n, f});
    };
#define NAT [](Exec & E, const PInst &I, std::vector<Val> &a, std::vector<Val> &r)
#define UNUSED (void)E; (void)I; (void)a; (void)r
    reg("$noop0", NAT {
        UNUSED;
        if (!a.empty()) r.push_back(a[0]);
    });
    reg("$noop", NAT { UNUSED; });
    reg("$exc", NAT { UNUSED; });
    // ---- output streams: the bytes written, by address of the stream
#define OS(body)                                                                                                       \
    NAT {                                                                                                              \
        UNUSED;                                                                                                        \
        uint64_t os = E.concretize(a[0], 64);                                                                          \
        auto put = [&](const std::string &t) {                                                                         \
            auto &v = E.state().streams[os];                                                                           \
            for (char c : t) v.push_back(Val((uint64_t)(uint8_t)c));                                                   \
        };                                                                                                             \
        (void)put;                                                                                                     \
        E.state().kv["prints:" + std::to_string(os)]++;                                                                \
        body;                                                                                                          \
        r.push_back(a[0]);                                                                                             \
    }
    auto bytes = [](Exec &E, uint64_t os, uint64_t p, uint64_t n) {
        std::vector<Val> t;
        for (uint64_t i = 0; i < n; ++i) t.push_back(E.load(Val(p + i), 8));
        auto &v = E.state().streams[os];
        v.insert(v.end(), t.begin(), t.end());
    };
    reg("$os_cstr", [bytes](Exec &E, const PInst &, std::vector<Val> &a, std::vector<Val> &r) {
        uint64_t os = E.concretize(a[0], 64), p = E.concretize(a[1], 64), n = 0;
        E.state().kv["prints:" + std::to_string(os)]++;
        while (E.concretize(E.load(Val(p + n), 8), 8)) ++n;
        bytes(E, os, p, n);
        r.push_back(a[0]);
    });
    reg("$os_mem", [bytes](Exec &E, const PInst &, std::vector<Val> &a, std::vector<Val> &r) {
        uint64_t os = E.concretize(a[0], 64);
        E.state().kv["prints:" + std::to_string(os)]++;
        bytes(E, os, E.concretize(a[1], 64), E.concretize(a[2], 64));
        r.push_back(a[0]);
    });
    reg("$os_string", [bytes](Exec &E, const PInst &, std::vector<Val> &a, std::vector<Val> &r) {
        uint64_t os = E.concretize(a[0], 64), p = E.concretize(a[1], 64);
        E.state().kv["prints:" + std::to_string(os)]++;
        bytes(E, os, E.concretize(E.load(Val(p), 64), 64), E.concretize(E.load(Val(p + 8), 64), 64));
        r.push_back(a[0]);
    });
    reg("$os_char", OS(E.state().streams[os].push_back(Exec::mkv(P.extract(E.nd(a[1], 8), 0, 8)))));
    reg("$os_u32", OS(put(a[1].conc() ? std::to_string((uint32_t)a[1].c) : "?")));
    reg("$os_u64", OS(put(a[1].conc() ? std::to_string((uint64_t)a[1].c) : "?")));
    reg("$os_i32", OS(put(a[1].conc() ? std::to_string((int32_t)a[1].c) : "?")));
    reg("$os_i64", OS(put(a[1].conc() ? std::to_string((int64_t)a[1].c) : "?")));
    reg("$os_bool", OS(put(a[1].conc() ? (a[1].c & 1 ? "1" : "0") : "?")));
    reg("$os_other", OS(put("{}")));
    reg("$os_double", OS({
            if (a[1].conc()) {
                double x;
                uint64_t u = a[1].c;
                memcpy(&x, &u, 8);
                char b[64];
                snprintf(b, sizeof b, "%g", x);
                put(b);
            } else put("?");
        }));
    reg("$os_new", NAT {
        UNUSED;
        uint64_t p = E.concretize(a[0], 64);
        E.state().streams.erase(p);
        E.state().streams.erase(p + 16);
    });
    reg("$os_set", NAT {
        UNUSED;
        uint64_t os = E.concretize(a[0], 64), p = E.concretize(a[1], 64), n = E.concretize(E.load(Val(p + 8), 64), 64), q = E.concretize(E.load(Val(p), 64), 64);
        std::vector<Val> t;
        for (uint64_t i = 0; i < n; ++i) t.push_back(E.load(Val(q + i), 8));
        E.state().streams.erase(os + 16);
        E.state().streams[os] = t;
    });
    reg("$os_str", NAT { // sret std::string
        UNUSED;
        uint64_t p = E.concretize(a[0], 64), os = E.concretize(a[1], 64);
        auto &ss = E.state().streams;
        std::vector<Val> t = ss.count(os + 16) ? ss[os + 16] : ss.count(os) ? ss[os] : std::vector<Val>{};
        uint64_t q = p + 16;
        if (t.size() > 15) {
            q = E.alloc(t.size() + 1, 2, "heap(new)");
            E.store(Val(p + 16), Val((uint64_t)t.size()), 64);
        }
        E.store(Val(p), Val(q), 64);
        E.store(Val(p + 8), Val((uint64_t)t.size()), 64);
        for (uint64_t i = 0; i < t.size(); ++i) E.store(Val(q + i), t[i], 8);
        E.store(Val(q + t.size()), Val((uint64_t)0), 8);
    });
    // ---- allocation
    for (auto n : {"_Znwm", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t"})
        reg(n, NAT {
            UNUSED;
            r.push_back(Val(E.alloc(E.concretize(a[0], 64), 2, "heap(new)")));
        });
    for (auto n : {"_Znam", "_ZnamSt11align_val_t", "_ZnamRKSt9nothrow_t"})
        reg(n, NAT {
            UNUSED;
            r.push_back(Val(E.alloc(E.concretize(a[0], 64), 4, "heap(new[])")));
        });
    for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"})
        reg(n, NAT { UNUSED; E.freeObj(E.concretize(a[0], 64), 2); });
    for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"})
        reg(n, NAT { UNUSED; E.freeObj(E.concretize(a[0], 64), 4); });
    reg("malloc", NAT { UNUSED; r.push_back(Val(E.alloc(E.concretize(a[0], 64), 3, "heap(malloc)"))); });
    reg("aligned_alloc", NAT { UNUSED; r.push_back(Val(E.alloc(E.concretize(a[1], 64), 3, "heap(malloc)"))); });
    reg("calloc", NAT { UNUSED; r.push_back(Val(E.alloc(E.concretize(a[0], 64) * E.concretize(a[1], 64), 3, "heap(calloc)", true))); });
    reg("free", NAT { UNUSED; E.freeObj(E.concretize(a[0], 64), 3); });
    reg("realloc", NAT {
        UNUSED;
        uint64_t p = E.concretize(a[0], 64), n = E.concretize(a[1], 64);
        uint64_t q = E.alloc(n, 3, "heap(malloc)");
        if (p) {
            uint64_t off;
            Obj *o = E.objAt(p, 0, off);
            if (o) E.copyBytes(q, p, std::min<uint64_t>(n, o->size));
            E.freeObj(p, 3);
        }
        r.push_back(Val(q));
    });
    // ---- memory / strings
    Native cp = NAT {
        UNUSED;
        uint64_t n = E.concretize(a[2], 64);
        if (n) {
            uint64_t s = E.concretize(a[1], 64), d = E.concretize(a[0], 64);
            E.copyBytes(d, s, n);
        }
        r.push_back(a[0]);
    };
    reg("memcpy", cp);
    reg("memmove", cp);
    reg("memset", NAT {
        UNUSED;
        uint64_t n = E.concretize(a[2], 64), d = E.concretize(a[0], 64);
        for (uint64_t i = 0; i < n; ++i) E.store(Val(d + i), Exec::mkv(P.extract(E.nd(a[1], 32), 0, 8)), 8);
        r.push_back(a[0]);
    });
    Native mc = NAT {
        UNUSED;
        uint64_t n = E.concretize(a[2], 64);
        if (!n) { r.push_back(Val((uint64_t)0)); return; }
        uint64_t x = E.concretize(a[0], 64), y = E.concretize(a[1], 64);
        Node *res = P.cst(0, 32);
        for (uint64_t i = n; i-- > 0;) {
            Node *p = E.nd(E.load(Val(x + i), 8), 8), *q = E.nd(E.load(Val(y + i), 8), 8);
            Node *d = P.bin(O_SUB, P.zext(p, 32), P.zext(q, 32));
            res = P.ite(P.bin(O_EQ, p, q), res, d);
        }
        r.push_back(Exec::mkv(res));
    };
    reg("memcmp", mc);
    reg("bcmp", mc);
    reg("strlen", NAT {
        UNUSED;
        uint64_t x = E.concretize(a[0], 64), n = 0;
        while (E.concretize(E.load(Val(x + n), 8), 8)) ++n;
        r.push_back(Val(n));
    });
    reg("strcmp", NAT {
        UNUSED;
        std::string x = E.cstr(a[0]), y = E.cstr(a[1]);
        int c = strcmp(x.c_str(), y.c_str());
        r.push_back(Val((uint64_t)(uint32_t)c));
    });
    reg("memchr", NAT {
        UNUSED;
        uint64_t x = E.concretize(a[0], 64), n = E.concretize(a[2], 64), c = E.concretize(a[1], 32) & 0xff;
        for (uint64_t i = 0; i < n; ++i) {
            uint64_t b = E.concretize(E.load(Val(x + i), 8), 8);
            if (b == c) { r.push_back(Val(x + i)); return; }
        }
        r.push_back(Val((uint64_t)0));
    });
    // ---- exceptions
    reg("__cxa_allocate_exception", NAT { UNUSED; r.push_back(Val(E.alloc(std::max<uint64_t>(E.concretize(a[0], 64), 16), 3, "exception", true))); });
    reg("__cxa_free_exception", NAT { UNUSED; });
    reg("__cxa_throw", NAT { UNUSED; E.unwind(a[0].c, a[1].c); });
    reg("__cxa_begin_catch", NAT {
        UNUSED;
        auto &c = E.state().caught;
        c.push_back({a[0].c, E.state().exctype[a[0].c], 1});
        r.push_back(a[0]);
    });
    reg("__cxa_get_exception_ptr", NAT { UNUSED; r.push_back(a[0]); });
    reg("__cxa_end_catch", NAT {
        UNUSED;
        auto &c = E.state().caught;
        if (!c.empty()) c.pop_back();
    });
    reg("__cxa_rethrow", NAT {
        UNUSED;
        auto &c = E.state().caught;
        if (c.empty()) {
            E.violation("abort", "rethrow without an active exception", nullptr);
            throw PathEnd{"terminate"};
        }
        auto e = c.back();
        E.unwind(e.obj, e.ti);
    });
    reg("__cxa_throw_bad_array_new_length", NAT { UNUSED; E.throwStd("_ZTISt20bad_array_new_length"); });
    reg("__cxa_bad_cast", NAT { UNUSED; E.throwStd("_ZTISt8bad_cast"); });
    reg("__cxa_pure_virtual", NAT {
        UNUSED;
        E.violation("abort", "pure virtual call", nullptr);
        throw PathEnd{"abort"};
    });
    reg("__cxa_atexit", NAT { UNUSED; r.push_back(Val((uint64_t)0)); });
    reg("__cxa_guard_acquire", NAT {
        UNUSED;
        Val v = E.load(a[0], 8);
        r.push_back(Val((uint64_t)(v.conc() && v.c ? 0 : 1)));
    });
    reg("__cxa_guard_release", NAT { UNUSED; E.store(a[0], Val((uint64_t)1), 8); });
    reg("__cxa_guard_abort", NAT { UNUSED; });
    auto thr = [&](const char *n, const char *ti) {
        std::string t = ti;
        reg(n, [t](Exec &E, const PInst &, std::vector<Val> &, std::vector<Val> &) { E.throwStd(t); });
    };
    thr("_ZSt20__throw_length_errorPKc", "_ZTISt12length_error");
    thr("_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error");
    thr("_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range");
    thr("_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range");
    thr("_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument");
    thr("_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error");
    thr("_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc");
    thr("_ZSt16__throw_bad_castv", "_ZTISt8bad_cast");
    thr("_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length");
    thr("_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call");
    thr("_ZSt20__throw_system_errori", "_ZTISt12system_error");
    thr("_ZSt20__throw_domain_errorPKc", "_ZTISt12domain_error");
    thr("_ZSt19__throw_range_errorPKc", "_ZTISt11range_error");
    for (auto n : {"_ZSt9terminatev", "abort", "__cxa_call_unexpected"})
        reg(n, NAT {
            UNUSED;
            E.violation("abort", "std::terminate or abort called", nullptr);
            throw PathEnd{"abort"};
        });
    reg("__assert_fail", NAT {
        UNUSED;
        E.violation("assert", "assertion failed: " + E.cstr(a[0]), nullptr);
        throw PathEnd{"assert"};
    });
    reg("_ZSt21__glibcxx_assert_failPKciS0_S0_", NAT {
        UNUSED;
        E.violation("memory", "libstdc++ precondition violated: " + E.cstr(a[3]), nullptr);
        throw PathEnd{"assert"};
    });
    reg("exit", NAT { UNUSED; throw PathEnd{"exit"}; });
    reg("__dynamic_cast", NAT {
        UNUSED;
        uint64_t src = E.concretize(a[0], 64), dst = E.concretize(a[2], 64);
        if (!src) { r.push_back(Val((uint64_t)0)); return; }
        uint64_t vp = E.concretize(E.load(Val(src), 64), 64);
        uint64_t ti = E.concretize(E.load(Val(vp - 8), 64), 64);
        uint64_t top = E.concretize(E.load(Val(vp - 16), 64), 64);
        r.push_back(Val(E.derives(E.tinfoName[ti], E.tinfoName[dst]) ? src + top : 0));
    });
    // ---- typeinfo
    reg("_ZNKSt9type_info7__equalERKS_", NAT { UNUSED; r.push_back(Val((uint64_t)(a[0].c == a[1].c))); });
    // ---- threads
    reg("pthread_mutex_lock", NAT {
        UNUSED;
        auto &l = E.state().locks;
        if (l.count(a[0].c)) {
            E.violation("deadlock", "mutex locked twice by the same thread", nullptr);
            throw PathEnd{"deadlock"};
        }
        l.insert(a[0].c);
        E.state().kv["locks_taken"]++;
        r.push_back(Val((uint64_t)0));
    });
    reg("pthread_mutex_unlock", NAT {
        UNUSED;
        E.state().locks.erase(a[0].c);
        r.push_back(Val((uint64_t)0));
    });
    reg("pthread_mutex_trylock", NAT {
        UNUSED;
        bool busy = E.state().locks.count(a[0].c);
        if (!busy && E.state().task >= 0) { // another thread may hold it
            auto &kv = E.state().kv;
            Val v;
            auto it = kv.find("$try");
            if (it != kv.end()) v = E.simp(Val::sym(P.vars[it->second].node));
            else {
                v = E.newInput("trylock fails", 32, false, true, 0, 1);
                kv["$try"] = (uint64_t)v.n->val;
            }
            busy = E.concretize(v, 32);
            E.state().kv.erase("$try");
        }
        if (!busy) {
            E.state().locks.insert(a[0].c);
            E.state().kv["locks_taken"]++;
        }
        r.push_back(Val((uint64_t)(busy ? 16 : 0)));
    });
    for (auto n : {"__pthread_key_create", "pthread_once", "sched_yield", "pthread_self", "__gthrw___pthread_key_create", "_ZSt18uncaught_exceptionv",
                   "_ZSt19uncaught_exceptionsv", "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv",
                   "_ZNSt6chrono3_V221high_resolution_clock3nowEv", "time", "clock", "fflush", "puts", "printf", "fprintf", "putchar"})
        reg(n, NAT { UNUSED; r.push_back(Val((uint64_t)0)); });
    reg("__errno_location", NAT {
        UNUSED;
        auto &kv = E.state().kv;
        if (!kv.count("errno")) kv["errno"] = E.alloc(8, 0, "errno", true);
        r.push_back(Val(kv["errno"]));
    });
    // ---- random device
    reg("_ZNSt13random_device9_M_getvalEv", NAT { UNUSED; r.push_back(E.setup ? Val((uint64_t)12345) : E.newInput("random_device", 32, false, false, 0, 0)); });
    reg("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", NAT { UNUSED; });
    reg("_ZNSt13random_device7_M_finiEv", NAT { UNUSED; });
    // ---- libm
    for (auto n : {"exp", "log", "sin", "cos", "tan", "tanh", "sinh", "cosh", "atan", "asin", "acos", "erf", "cbrt", "floor", "ceil", "trunc", "round",
                   "rint", "exp2", "log2", "log10", "log1p", "expm1"}) {
        std::string nm = n;
        reg(n, [nm](Exec &E, const PInst &, std::vector<Val> &a, std::vector<Val> &r) { r.push_back(Exec::mkv(P.uf(nm, 64, {E.nd(a[0], 64)}))); });
    }
    reg("nan", NAT { UNUSED; r.push_back(Val((uint64_t)0x7ff8000000000000ull)); });
    reg("sqrt", NAT { UNUSED; r.push_back(Exec::mkv(P.un(O_FSQRT, E.nd(a[0], 64), 64))); });
    for (auto n : {"pow", "fmod", "hypot", "atan2"}) {
        std::string nm = n;
        reg(n, [nm](Exec &E, const PInst &, std::vector<Val> &a, std::vector<Val> &r) {
            r.push_back(Exec::mkv(P.uf(nm, 64, {E.nd(a[0], 64), E.nd(a[1], 64)})));
        });
    }
    reg("ldexp", NAT {
        UNUSED;
        int e = (int)(uint32_t)E.concretize(a[1], 32);
        double f = std::ldexp(1.0, e);
        uint64_t b;
        memcpy(&b, &f, 8);
        r.push_back(Exec::mkv(P.bin(O_FMUL, E.nd(a[0], 64), P.cst(b, 64))));
    });
    for (auto n : {"logl", "ceill", "floorl"}) {
        std::string nm = n;
        reg(n, [nm](Exec &E, const PInst &, std::vector<Val> &a, std::vector<Val> &r) {
            Node *x = E.nd(a[0], 80);
            if (x->op != O_CONST) throw EngineError{"symbolic long double"};
            long double d = 0;
            u128 v = x->val;
            memcpy(&d, &v, 10);
            d = nm == "logl" ? logl(d) : nm == "ceill" ? ceill(d) : floorl(d);
            u128 o = 0;
            memcpy(&o, &d, 10);
            r.push_back(Val::sym(P.cst(o, 80)));
        });
    }
    // ---- harness interface
    reg("sym_u32", NAT {
        UNUSED;
        std::string n = E.cstr(a[0]);
        uint64_t lo = E.concretize(a[1], 32), hi = E.concretize(a[2], 32);
        if (lo > hi) {
            E.violation("check", "empty range requested for '" + n + "'", nullptr);
            throw PathEnd{"empty range"};
        }
        r.push_back(E.newInput(n, 32, false, true, lo, hi));
    });
    // like sym_u32, but the bounds may be symbolic: an arbitrary value of the (assumed non-empty) interval
    reg("sym_between", NAT {
        UNUSED;
        std::string n = E.cstr(a[0]);
        if (a[1].conc() && a[2].conc()) {
            if (a[1].c > a[2].c) {
                E.violation("check", "empty range requested for '" + n + "'", nullptr);
                throw PathEnd{"empty range"};
            }
            r.push_back(E.newInput(n, 64, false, true, a[1].c, a[2].c));
            return;
        }
        Node *lo = E.nd(a[1], 64), *hi = E.nd(a[2], 64);
        if (!E.decide(P.bin(O_ULE, lo, hi))) {
            E.violation("check", "empty range requested for '" + n + "'", nullptr);
            throw PathEnd{"empty range"};
        }
        // bound the domain through the value sets where possible, so that dependent accesses stay enumerable
        auto *vl = P.valset(lo), *vh = P.valset(hi);
        Val v = vl && vh ? E.newInput(n, 64, false, true, vl->front(), vh->back()) : E.newInput(n, 64, false, false, 0, 0);
        Node *x = E.nd(v, 64);
        E.assume(P.bin(O_AND, P.bin(O_ULE, lo, x), P.bin(O_ULE, x, hi)));
        r.push_back(E.simp(v));
    });
    reg("sym_any_u64", NAT { UNUSED; r.push_back(E.newInput(E.cstr(a[0]), 64, false, false, 0, 0)); });
    reg("sym_any_u32", NAT { UNUSED; r.push_back(E.newInput(E.cstr(a[0]), 32, false, false, 0, 0)); });
    reg("sym_f64", NAT {
        UNUSED;
        Val v = E.newInput(E.cstr(a[0]), 64, true, false, 0, 0);
        if (E.realCmp && v.n) E.addPC(P.bnot(P.bin(O_FUNO, v.n, v.n))); // a real number
        r.push_back(v);
    });
    reg("sym_pick", NAT {
        UNUSED;
        // a value that is explored path by path; re-executions of this call find the input already created
        auto &kv = E.state().kv;
        uint64_t n = E.concretize(a[1], 32);
        Val v;
        auto it = kv.find("$pick");
        if (it != kv.end()) v = E.simp(Val::sym(P.vars[it->second].node));
        else {
            v = E.newInput(E.cstr(a[0]), 32, false, true, 0, n - 1);
            if (v.n) kv["$pick"] = (uint64_t)v.n->val;
        }
        uint64_t x = E.concretize(v, 32);
        E.state().kv.erase("$pick");
        r.push_back(Val(x));
    });
    reg("sym_concretize", NAT { UNUSED; r.push_back(Val(E.concretize(a[0], 64))); });
    reg("sym_assume", NAT { UNUSED; E.assume(P.bnot(P.bin(O_EQ, E.nd(a[0], 32), P.cst(0, 32)))); });
    reg("sym_check", NAT {
        UNUSED;
        Node *c = P.bnot(P.bin(O_EQ, E.nd(a[0], 32), P.cst(0, 32)));
        E.checkCond(c, E.cstr(a[1]), "check");
    });
    // both terms simplified under the path condition; path splits on the integer variables they depend on, unless
    // they are equal whatever the values of those
    static auto settle = [](Exec &E, Node *&x, Node *&y) {
        for (;;) {
            x = E.pinTerm(x);
            y = E.pinTerm(y);
            if (x == y || ratEqual(x, y) == 0) return true;
            Node *v = nullptr;
            for (auto *t : {x, y})
                for (auto s : P.support(t)) {
                    auto &vi = P.vars[s];
                    if (!v && !vi.isfp && vi.ranged && vi.hi - vi.lo < 4096) v = vi.node;
                }
            if (!v) {
                if (E.realCmp && (E.splitCmp(x) || E.splitCmp(y))) continue;
                if (E.splitIte(x) || E.splitIte(y)) continue;
                return false;
            }
            E.concretize(Exec::mkv(v), v->width);
        }
    };
    reg("sym_check_same", NAT {
        UNUSED;
        std::string msg = E.cstr(a[2]);
        Node *x = E.nd(a[0], 64), *y = E.nd(a[1], 64);
        if (x == y) {
            auto &st = E.checks[msg];
            st.reached++;
            st.proved++;
            st.trivially++;
            return;
        }
        if (!P.isc(x) || !P.isc(y)) settle(E, x, y);
        Node *c = P.bin(O_OR, P.bin(O_EQ, x, y), P.bin(O_AND, P.bin(O_FUNO, x, x), P.bin(O_FUNO, y, y)));
        c = P.bin(O_OR, c, P.bin(O_FOEQ, x, y));
        if (x->op == O_CONST && y->op == O_CONST) {
            double p, q;
            uint64_t xb = (uint64_t)x->val, yb = (uint64_t)y->val;
            memcpy(&p, &xb, 8);
            memcpy(&q, &yb, 8);
            if (std::fabs(p - q) <= 1e-9 * std::max(1.0, std::max(std::fabs(p), std::fabs(q)))) c = P.cst(1, 1);
        }
        auto &st = E.checks[msg];
        Val sv = E.simp(Exec::mkv(c));
        if (sv.conc()) {
            E.checkCond(P.cst(sv.c, 1), msg, "check");
            return;
        }
        bool eq = settle(E, x, y);
        st.reached++;
        if (eq) {
            SS.queries++;
            SS.realq++;
            SS.unsat++;
            st.proved++;
            st.realproved++;
            return;
        }
        Assign m;
        int r0 = E.solver().check(E.state().pc, P.bnot(c), &m);
        if (r0 == 0) {
            st.proved++;
            return;
        }
        Assign m2;
        int r1 = E.solver().checkRealEq(E.state().pc, x, y, E.realTimeout, &m2);
        if (r1 == 0) {
            st.proved++;
            st.realproved++;
            return;
        }
        if (r1 == 1) for (auto &k : m2) m[k.first] = k.second;
        Assign full = E.state().model;
        for (auto &k : m) full[k.first] = k.second;
        if (r1 == 1) st.failed++;
        else st.unknown++;
        if (getenv("SYMEX_DEBUG")) fprintf(stderr, "[same] %s r0=%d r1=%d\n  x=%s\n  y=%s\n", msg.c_str(), r0, r1, P.str(x, 12).c_str(), P.str(y, 12).c_str());
        E.violation("check", msg, nullptr, &full);
    });
    reg("sym_check_real", NAT {
        UNUSED;
        std::string msg = E.cstr(a[2]);
        Node *x = E.nd(a[0], 64), *y = E.nd(a[1], 64);
        bool triv = x == y;
        bool eq = triv || settle(E, x, y);
        auto &st = E.checks[msg];
        st.reached++;
        if (triv) {
            st.proved++;
            st.trivially++;
            return;
        }
        if (eq) {
            SS.queries++;
            SS.realq++;
            SS.unsat++;
            st.proved++;
            st.realproved++;
            return;
        }
        Assign m2;
        int r1 = E.solver().checkRealEq(E.state().pc, x, y, E.realTimeout, &m2);
        if (r1 == 0) {
            st.proved++;
            st.realproved++;
            return;
        }
        Assign full = E.state().model;
        for (auto &k : m2) full[k.first] = k.second;
        if (r1 == 1) st.failed++;
        else st.unknown++;
        if (getenv("SYMEX_DEBUG")) fprintf(stderr, "[real] %s r1=%d\n  x=%s\n  y=%s\n", msg.c_str(), r1, P.str(x, 12).c_str(), P.str(y, 12).c_str());
        E.violation("check", msg, nullptr, &full);
    });
    reg("sym_uf", NAT {
        UNUSED;
        uint64_t n = E.concretize(a[2], 32), p = E.concretize(a[1], 64);
        std::vector<Node *> as{E.nd(a[0], 64)};
        for (uint64_t i = 0; i < n; ++i) as.push_back(E.nd(E.load(Val(p + 8 * i), 64), 64));
        r.push_back(Exec::mkv(P.uf("symuf" + std::to_string(n), 64, as)));
    });
    reg("sym_deriv", NAT {
        UNUSED;
        if (!a[1].n || a[1].n->op != O_VAR) throw EngineError{"sym_deriv: second argument is not a symbolic variable"};
        if (!a[0].n) { r.push_back(Val((uint64_t)0)); return; }
        std::unordered_map<Node *, Node *> memo;
        bool ok = true;
        Node *d = P.deriv(a[0].n, a[1].n, memo, ok);
        if (!ok) throw EngineError{"sym_deriv: term is not differentiable symbolically: " + P.str(a[0].n, 4)};
        r.push_back(Exec::mkv(d));
    });
    reg("sym_reach", NAT { UNUSED; E.reach[E.cstr(a[0])]++; });
    reg("sym_param", NAT {
        UNUSED;
        std::string n = E.cstr(a[0]);
        auto it = E.params.find(n);
        r.push_back(it == E.params.end() ? a[1] : Val((uint64_t)(uint32_t)strtoul(it->second.c_str(), nullptr, 0)));
    });
    reg("sym_mode", NAT { UNUSED; r.push_back(Val((uint64_t)1)); });
    reg("sym_is_symbolic", NAT { UNUSED; r.push_back(Val((uint64_t)(a[0].n != nullptr))); });
    reg("sym_dump", NAT {
        UNUSED;
        fprintf(stderr, "[dump] %s = %s\n", E.cstr(a[0]).c_str(), P.str(E.nd(a[1], 64), 20).c_str());
    });
    reg("sym_stop", NAT { UNUSED; throw PathEnd{"stop"}; });
    reg("sym_task_begin", NAT {
        UNUSED;
        auto &s = E.state();
        s.task = (int)E.concretize(a[0], 32);
    });
    reg("sym_task_end", NAT { UNUSED; E.state().task = -1; });
    reg("sym_par_begin", NAT { UNUSED; E.state().acc.clear(); });
    reg("sym_lock", NAT {
        UNUSED;
        auto &l = E.state().locks;
        if (l.count(a[0].c)) {
            E.violation("deadlock", "mutex locked twice by the same task", nullptr);
            throw PathEnd{"deadlock"};
        }
        l.insert(a[0].c);
    });
    reg("sym_unlock", NAT { UNUSED; E.state().locks.erase(a[0].c); });
    reg("sym_printed", NAT { UNUSED; E.state().kv["prints"]++; });
    reg("sym_prints", NAT {
        UNUSED;
        uint64_t n = E.state().kv["prints"];
        for (auto c : {"_ZSt4cout", "_ZSt4cerr", "_ZSt4clog"})
            if (auto *g = E.M->getNamedGlobal(c)) n += E.state().kv["prints:" + std::to_string(E.globalAddr(g))];
        r.push_back(Val(n));
    });
    // draws as an unknown function of the engine output (and range): equal words give equal draws
    reg("sym_draw_int", NAT {
        UNUSED;
        Node *w = E.nd(a[0], 64), *lo = E.nd(a[1], 64), *hi = E.nd(a[2], 64);
        std::string key = "draw:" + std::to_string(w->id) + ":" + std::to_string(lo->id) + ":" + std::to_string(hi->id);
        auto &kv = E.state().kv;
        auto it = kv.find(key);
        if (it != kv.end()) { r.push_back(E.simp(Val::sym(P.vars[it->second].node))); return; }
        auto *vl = P.valset(lo), *vh = P.valset(hi);
        if (vl && vh && vl->front() == vh->back()) { r.push_back(Val(vl->front())); return; }
        Val v = vl && vh ? E.newInput("draw", 64, false, true, vl->front(), vh->back()) : E.newInput("draw", 64, false, false, 0, 0);
        if (v.n) E.state().kv[key] = (uint64_t)v.n->val;
        Node *x = E.nd(v, 64);
        E.assume(P.bin(O_AND, P.bin(O_ULE, lo, x), P.bin(O_ULE, x, hi)));
        r.push_back(E.simp(v));
    });
    reg("sym_draw_real", NAT { UNUSED; r.push_back(Exec::mkv(P.uf("draw_real", 64, {E.nd(a[0], 64), E.nd(a[1], 64)}))); });
    reg("sym_locks_taken", NAT { UNUSED; r.push_back(Val(E.state().kv["locks_taken"])); });
    reg("sym_locks_held", NAT { UNUSED; r.push_back(Val((uint64_t)E.state().locks.size())); });
}
