#include "exec.hpp"
#include <chrono>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <algorithm>
#include <cxxabi.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Support/raw_ostream.h>

using namespace llvm;

static double nowt()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static std::string demangle(const std::string &s)
{
    int st;
    char *d = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st);
    std::string r = (st == 0 && d) ? d : s;
    free(d);
    return r;
}
static const unsigned OSHIFT = 24; // every object lives in its own 16 MB slot
static const uint64_t FBASE = 0x700000000000ull;

Exec::Exec(Module *m) : M(m), DL(m->getDataLayout())
{
    registerNatives();
}

// ------------------------------------------------------------------------------------------- memory

uint64_t Exec::alloc(uint64_t size, uint8_t kind, const std::string &name, bool zero)
{
    if (size > (1ull << OSHIFT)) {
        if (kind >= 2) {
            violation("memory", "allocation of " + std::to_string(size) + " bytes (outside the engine's limit)", nullptr);
            throw PathEnd{"huge allocation"};
        }
        throw EngineError{"object too large: " + name};
    }
    auto o = std::make_shared<Obj>();
    o->size = size;
    o->kind = kind;
    o->name = name;
    o->data.assign(size, 0);
    o->st.assign(size, zero ? B_CONC : B_UNINIT);
    o->owner = cs->task;
    uint32_t idx = cs->mem.n;
    o->idx = idx;
    o->base = ((uint64_t)(idx + 16)) << OSHIFT;
    cs->mem.add(o);
    return o->base;
}

Obj *Exec::objAt(uint64_t a, uint64_t bytes, uint64_t &off)
{
    uint64_t i = a >> OSHIFT;
    if (i < 16) return nullptr;
    Obj *o = cs->mem.get((uint32_t)(i - 16));
    if (!o || !o->alive) return nullptr;
    off = a - o->base;
    if (off > o->size || bytes > o->size - off) return nullptr;
    return o;
}

void Exec::freeObj(uint64_t a, int kind)
{
    if (a == 0) return;
    uint64_t off;
    Obj *o = objAt(a, 0, off);
    if (!o || off != 0) {
        violation("memory", "invalid or double free", nullptr);
        throw PathEnd{"bad free"};
    }
    if (o->kind < 2 || (kind && o->kind != kind)) {
        violation("memory", "mismatched deallocation", nullptr);
        throw PathEnd{"bad free"};
    }
    cs->mem.drop(o->idx);
}

Val Exec::readObj(Obj *o, uint64_t off, unsigned width)
{
    unsigned nb = (width + 7) / 8;
    bool allc = true, anyu = false;
    for (unsigned i = 0; i < nb; ++i) {
        auto s = o->st[off + i];
        if (s != B_CONC) allc = false;
        if (s == B_UNINIT) anyu = true;
    }
    if (allc && nb <= 8) {
        uint64_t v = 0;
        memcpy(&v, &o->data[off], nb);
        if (width < 64) v &= (uint64_t)maskw(width);
        return Val(v);
    }
    if (anyu) {
        // give the uninitialised bytes an arbitrary but fixed value
        uninitReads++;
        o = cs->mem.wr(o->idx);
        if (o->sym.empty()) o->sym.resize(o->size);
        unsigned i = 0;
        while (i < nb) {
            if (o->st[off + i] != B_UNINIT) { ++i; continue; }
            unsigned j = i;
            while (j < nb && o->st[off + j] == B_UNINIT) ++j;
            Node *v = P.var("uninit", (j - i) * 8, false, false, 0, 0);
            for (unsigned k = i; k < j; ++k) {
                o->st[off + k] = B_SYM;
                o->sym[off + k] = {v, (uint16_t)(k - i)};
            }
            i = j;
        }
    }
    auto byteNode = [&](uint64_t p) -> Node * {
        if (o->st[p] == B_CONC) return P.cst(o->data[p], 8);
        return P.extract(o->sym[p].n, o->sym[p].idx * 8u, 8);
    };
    // whole-node fast path
    if (o->st[off] == B_SYM && o->sym[off].idx == 0 && o->sym[off].n->width == nb * 8) {
        bool ok = true;
        for (unsigned i = 1; i < nb && ok; ++i)
            ok = o->st[off + i] == B_SYM && o->sym[off + i].n == o->sym[off].n && o->sym[off + i].idx == i;
        if (ok) {
            Node *n = o->sym[off].n;
            if (width < nb * 8) n = P.extract(n, 0, width);
            return simp(mkv(n));
        }
    }
    Node *n = byteNode(off);
    for (unsigned i = 1; i < nb; ++i) n = P.concat(byteNode(off + i), n);
    if (width < nb * 8) n = P.extract(n, 0, width);
    return simp(mkv(n));
}

void Exec::writeObj(Obj *o, uint64_t off, Val v, unsigned width)
{
    unsigned nb = (width + 7) / 8;
    if (v.conc() && nb <= 8) {
        memcpy(&o->data[off], &v.c, nb);
        memset(&o->st[off], B_CONC, nb);
        return;
    }
    Node *n = nd(v, width);
    if (n->width < nb * 8) n = P.zext(n, nb * 8);
    if (n->op == O_CONST) {
        u128 c = n->val;
        for (unsigned i = 0; i < nb; ++i) {
            o->data[off + i] = (uint8_t)(c >> (8 * i));
            o->st[off + i] = B_CONC;
        }
        return;
    }
    if (o->sym.empty()) o->sym.resize(o->size);
    for (unsigned i = 0; i < nb; ++i) {
        o->st[off + i] = B_SYM;
        o->sym[off + i] = {n, (uint16_t)i};
    }
}

void Exec::access(uint32_t idx, uint64_t off, unsigned bytes, bool wr)
{
    if (cs->task < 0) return;
    Obj *o = cs->mem.get(idx);
    if (!o || o->owner == cs->task) return;
    auto &set = cs->acc[idx];
    uint32_t ls = 0;
    unsigned k = 0;
    for (auto l : cs->locks) { ls |= 1u << ((l * 2654435761u >> 7) & 31); (void)k; }
    for (auto &a : set) {
        if (a.task == cs->task) continue;
        if (!(a.wr || wr)) continue;
        if (a.off + a.size <= off || off + bytes <= a.off) continue;
        if (a.lockset & ls) continue;
        violation("race", "unsynchronised accesses of two parallel tasks to the same memory (" + o->name + ")", nullptr);
        throw PathEnd{"race"};
    }
    set.insert({(uint32_t)off, bytes, wr, cs->task, ls});
}

void Exec::resolve(Val p, unsigned bytes, bool wr, std::vector<Loc> &out)
{
    p = simp(p);
    if (p.conc()) {
        uint64_t off;
        Obj *o = objAt(p.c, bytes, off);
        if (!o || (wr && o->ro)) {
            uint64_t i = p.c >> OSHIFT;
            std::string d = "address 0x" + [&] { char b[32]; snprintf(b, 32, "%llx", (unsigned long long)p.c); return std::string(b); }();
            if (i >= 16) {
                Obj *q = cs->mem.get((uint32_t)(i - 16));
                if (q) d += " near object '" + q->name + "' size " + std::to_string(q->size) + (q->alive ? "" : " (dead)");
                else d += " (freed object)";
            }
            violation("memory", std::string("invalid ") + (wr ? "write" : "read") + " of " + std::to_string(bytes) + " bytes at " + d, nullptr);
            throw PathEnd{"memory error"};
        }
        out.push_back({nullptr, o->idx, off});
        return;
    }
    Node *n = p.n;
    uint64_t pinned;
    if (pinnedValue(n, pinned)) {
        resolve(Val(pinned), bytes, wr, out);
        return;
    }
    const VSet *vs = P.valset(n);
    VSet enumerated;
    if (!vs) {
        // enumerate through the solver
        std::vector<Node *> extra(cs->pc);
        bool done = false;
        for (int k = 0; k < 96; ++k) {
            Assign m;
            // sliced query: value of n
            Node *c = P.cst(1, 1);
            for (auto v : enumerated) c = P.bin(O_AND, c, P.bnot(P.bin(O_EQ, n, P.cst(v, n->width))));
            int r;
            if (c->op == O_CONST) {
                Node *t = P.bin(O_EQ, n, n);
                (void)t;
                r = S.check(cs->pc, nullptr, &m);
            } else
                r = S.check(cs->pc, c, &m);
            if (r == 0) { done = true; break; }
            if (r < 0) break;
            std::unordered_map<Node *, u128> memo;
            uint64_t v;
            Assign full = cs->model;
            for (auto &x : m) full[x.first] = x.second;
            if (!P.eval(n, full, v, memo)) break;
            if (std::find(enumerated.begin(), enumerated.end(), v) != enumerated.end()) break;
            enumerated.push_back(v);
        }
        if (!done) {
            Val c = Val(concretize(p, 64));
            resolve(c, bytes, wr, out);
            return;
        }
        std::sort(enumerated.begin(), enumerated.end());
        vs = &enumerated;
    }
    std::vector<uint64_t> bad, good;
    for (auto a : *vs) {
        uint64_t off;
        Obj *o = objAt(a, bytes, off);
        if (!o || (wr && o->ro)) bad.push_back(a);
        else good.push_back(a);
    }
    if (!bad.empty()) {
        Node *b = P.cst(0, 1);
        for (auto a : bad) b = P.bin(O_OR, b, P.bin(O_EQ, n, P.cst(a, 64)));
        if (decide(b)) {
            uint64_t a = concretize(p, 64);
            std::string d;
            char bb[32];
            snprintf(bb, 32, "%llx", (unsigned long long)a);
            violation("memory", std::string("invalid ") + (wr ? "write" : "read") + " of " + std::to_string(bytes) + " bytes at symbolic address 0x" + bb, nullptr);
            throw PathEnd{"memory error"};
        }
    }
    if (good.empty()) throw PathEnd{"infeasible address"};
    for (auto a : good) {
        uint64_t off;
        Obj *o = objAt(a, bytes, off);
        Node *g = P.bin(O_EQ, n, P.cst(a, 64));
        auto it = cs->known.find(g);
        if (it != cs->known.end() && !it->second) continue;
        out.push_back({g, o->idx, off});
    }
    if (out.empty()) throw PathEnd{"infeasible address"};
    if (out.size() == 1) out[0].guard = nullptr;
}

Val Exec::load(Val p, unsigned width)
{
    unsigned nb = (width + 7) / 8;
    if (p.conc()) {
        uint64_t off;
        Obj *o = objAt(p.c, nb, off);
        if (o) {
            if (cs->task >= 0) access(o->idx, off, nb, false);
            return readObj(o, off, width);
        }
    }
    std::vector<Loc> ls;
    resolve(p, nb, false, ls);
    if (cs->task >= 0)
        for (auto &l : ls) access(l.idx, l.off, nb, false);
    Val r = readObj(cs->mem.get(ls.back().idx), ls.back().off, width);
    for (size_t i = ls.size() - 1; i-- > 0;) {
        Val v = readObj(cs->mem.get(ls[i].idx), ls[i].off, width);
        if (v.conc() && r.conc() && v.c == r.c) continue;
        r = mkv(P.ite(ls[i].guard, nd(v, width), nd(r, width)));
    }
    return simp(r);
}

void Exec::store(Val p, Val v, unsigned width)
{
    unsigned nb = (width + 7) / 8;
    std::vector<Loc> ls;
    resolve(p, nb, true, ls);
    for (auto &l : ls) access(l.idx, l.off, nb, true);
    if (ls.size() == 1) {
        writeObj(cs->mem.wr(ls[0].idx), ls[0].off, v, width);
        return;
    }
    for (auto &l : ls) {
        Val old = readObj(cs->mem.get(l.idx), l.off, width);
        Val nv = mkv(P.ite(l.guard, nd(v, width), nd(old, width)));
        writeObj(cs->mem.wr(l.idx), l.off, nv, width);
    }
}

void Exec::copyBytes(uint64_t dst, uint64_t src, uint64_t n)
{
    if (n == 0) return;
    std::vector<Loc> a, b;
    resolve(Val(src), (unsigned)n, false, a);
    resolve(Val(dst), (unsigned)n, true, b);
    access(a[0].idx, a[0].off, (unsigned)n, false);
    access(b[0].idx, b[0].off, (unsigned)n, true);
    Obj *s = cs->mem.get(a[0].idx);
    std::vector<uint8_t> d(s->data.begin() + (long)a[0].off, s->data.begin() + (long)(a[0].off + n));
    std::vector<uint8_t> t(s->st.begin() + (long)a[0].off, s->st.begin() + (long)(a[0].off + n));
    std::vector<SymByte> y;
    bool anys = std::find(t.begin(), t.end(), (uint8_t)B_SYM) != t.end();
    if (anys) y.assign(s->sym.begin() + (long)a[0].off, s->sym.begin() + (long)(a[0].off + n));
    Obj *q = cs->mem.wr(b[0].idx);
    memcpy(&q->data[b[0].off], d.data(), n);
    memcpy(&q->st[b[0].off], t.data(), n);
    if (anys) {
        if (q->sym.empty()) q->sym.resize(q->size);
        std::copy(y.begin(), y.end(), q->sym.begin() + (long)b[0].off);
    }
}

std::string Exec::cstr(Val p)
{
    std::string s;
    uint64_t a = concretize(p, 64);
    for (int i = 0; i < 4096; ++i) {
        Val v = load(Val(a + (uint64_t)i), 8);
        if (!v.conc()) { s += '?'; continue; }
        if (!v.c) break;
        s += (char)v.c;
    }
    return s;
}

// ------------------------------------------------------------------------------------ path conditions

bool Exec::modelEval(Node *n, uint64_t &v)
{
    if (!cs->modelValid) return false;
    if (!cs->memo) cs->memo = std::make_shared<std::unordered_map<Node *, u128>>();
    return P.eval(n, cs->model, v, *cs->memo);
}

// Finite domains: the values a small variable can still take under the unary constraints of the path. A condition that
// has the same value under all of them is decided without a query (the domains over-approximate the path condition).
uint64_t Exec::domain(uint32_t v)
{
    auto it = cs->dom.find(v);
    if (it != cs->dom.end()) return it->second;
    auto &vi = P.vars[v];
    if (vi.isfp || !vi.ranged) return 0;
    uint64_t d = (uint64_t)vi.hi - (uint64_t)vi.lo;
    if (d >= 64) return 0;
    return d == 63 ? ~0ull : (1ull << (d + 1)) - 1;
}
void Exec::narrow(Node *c)
{
    auto &sup = P.support(c);
    if (sup.size() != 1) return;
    uint32_t v = *sup.begin();
    uint64_t m = domain(v), keep = 0;
    if (!m) return;
    for (uint64_t i = 0; i < 64 && (m >> i); ++i) {
        if (!(m >> i & 1)) continue;
        Assign a;
        a[v] = ((uint64_t)P.vars[v].lo + i) & (uint64_t)maskw(P.vars[v].width);
        std::unordered_map<Node *, u128> memo;
        uint64_t r;
        if (!P.eval(c, a, r, memo)) return;
        if (r) keep |= 1ull << i;
    }
    if (keep) cs->dom[v] = keep;
}
static bool outOfMemory() // an exploration that grows too big is cut short (and reported as incomplete)
{
    static unsigned n = 0;
    static bool full = false;
    if (!full && ++n % 256 == 0)
        if (FILE *f = fopen("/proc/self/statm", "r")) {
            unsigned long a = 0, r = 0;
            if (fscanf(f, "%lu %lu", &a, &r) == 2) full = r * 4096ul > 3200ul << 20;
            fclose(f);
        }
    return full;
}
bool Exec::pinnedValue(Node *n, uint64_t &r)
{
    auto &sup = P.support(n);
    if (sup.empty() || sup.size() > 64) return false;
    for (auto v : sup) {
        uint64_t m = domain(v);
        if (!m || (m & (m - 1))) return false;
    }
    return modelEval(n, r);
}
int Exec::quick(Node *c)
{
    auto &sup = P.support(c);
    if (sup.size() > 24) return -1;
    uint64_t n = 1;
    std::vector<std::pair<uint32_t, uint64_t>> open;
    Assign a;
    for (auto v : sup) {
        uint64_t m = domain(v);
        if (!m) return -1;
        if (!(m & (m - 1))) {
            a[v] = ((uint64_t)P.vars[v].lo + (uint64_t)__builtin_ctzll(m)) & (uint64_t)maskw(P.vars[v].width);
            continue;
        }
        n *= (uint64_t)__builtin_popcountll(m);
        if (n > 16) return -1;
        open.emplace_back(v, m);
    }
    uint64_t r = 0;
    if (n == 1) {
        if (modelEval(c, r)) return r != 0;
        std::unordered_map<Node *, u128> memo;
        return P.eval(c, a, r, memo) ? r != 0 : -1;
    }
    int res = -1;
    for (uint64_t k = 0; k < n; ++k) {
        uint64_t q = k;
        for (auto &o : open) {
            uint64_t m = o.second, cnt = (uint64_t)__builtin_popcountll(m);
            for (uint64_t j = q % cnt; j; --j) m &= m - 1;
            q /= cnt;
            a[o.first] = ((uint64_t)P.vars[o.first].lo + (uint64_t)__builtin_ctzll(m)) & (uint64_t)maskw(P.vars[o.first].width);
        }
        std::unordered_map<Node *, u128> memo;
        if (!P.eval(c, a, r, memo)) return -1;
        if (res < 0) res = r != 0;
        else if (res != (int)(r != 0)) return -1;
    }
    return res;
}

void Exec::addPC(Node *c)
{
    if (c->op == O_CONST) return;
    if (cs->known.count(c)) return;
    cs->pc.push_back(c);
    narrow(c);
    std::function<void(Node *, bool)> learn = [&](Node *n, bool val) {
        if (n->op == O_CONST) return;
        cs->known[n] = val;
        if (n->op == O_XOR && n->width == 1 && P.isc(n->k[1])) learn(n->k[0], val ^ (n->k[1]->val != 0));
        if (n->op == O_AND && n->width == 1 && val) { learn(n->k[0], true); learn(n->k[1], true); }
        if (n->op == O_OR && n->width == 1 && !val) { learn(n->k[0], false); learn(n->k[1], false); }
        if (n->op == O_EQ && val && P.isc(n->k[1]) && n->k[0]->width <= 64) {
            Node *x = n->k[0];
            uint64_t cv = (uint64_t)n->k[1]->val;
            cs->known[x] = cv;
            if (x->op == O_ZEXT) cs->known[x->k[0]] = cv;
        }
    };
    learn(c, true);
}

void Exec::refreshModel(const Assign &m)
{
    for (auto &x : m) cs->model[x.first] = x.second;
    cs->memo = std::make_shared<std::unordered_map<Node *, u128>>();
    cs->modelValid = true;
    for (auto *c : cs->pc) {
        uint64_t v;
        if (!modelEval(c, v) || !v) {
            cs->modelValid = false;
            return;
        }
    }
}

void Exec::fork(Node *c)
{
    auto ns = std::make_unique<State>(*cs);
    ns->pathForks++;
    forks++;
    State *save = cs;
    cs = ns.get();
    addPC(c);
    cs = save;
    work.push_back(std::move(ns));
}

bool Exec::decide(Node *c)
{
    Val sv = simp(mkv(c));
    if (sv.conc()) return sv.c != 0;
    int qk = quick(c);
    if (qk >= 0) {
        cs->known[c] = (uint64_t)qk;
        SS.folded++;
        return qk != 0;
    }
    Node *nc = P.bnot(c);
    uint64_t mv;
    bool haveT = false, haveF = false;
    Assign mt, mf;
    if (modelEval(c, mv)) {
        if (mv) haveT = true; else haveF = true;
        SS.modelhits++;
    }
    int rt = 1, rf = 1;
    if (!haveT) rt = S.check(cs->pc, c, &mt);
    if (!haveF && rt != 0) rf = S.check(cs->pc, nc, &mf);
    if (rt == 0) {
        if (haveF || true) {
            // only false feasible
            cs->known[c] = 0;
            cs->known[nc] = 1;
            return false;
        }
    }
    if (rf == 0) {
        cs->known[c] = 1;
        cs->known[nc] = 0;
        return true;
    }
    // both feasible
    {
        auto ns = std::make_unique<State>(*cs);
        ns->pathForks++;
        forks++;
        State *save = cs;
        cs = ns.get();
        addPC(nc);
        if (!haveF) {
            if (rf == 1) refreshModel(mf);
            else cs->modelValid = false;
        }
        cs = save;
        work.push_back(std::move(ns));
    }
    addPC(c);
    if (!haveT) {
        if (rt == 1) refreshModel(mt);
        else cs->modelValid = false;
    }
    return true;
}

bool Exec::feasible(Node *c)
{
    Val sv = simp(mkv(c));
    if (sv.conc()) return sv.c != 0;
    uint64_t mv;
    if (modelEval(c, mv) && mv) return true;
    int qk = quick(c);
    if (qk >= 0) {
        SS.folded++;
        return qk != 0;
    }
    return S.check(cs->pc, c, nullptr) != 0;
}

void Exec::assume(Node *c)
{
    Val sv = simp(mkv(c));
    if (sv.conc()) {
        if (!sv.c) throw PathEnd{"assume"};
        return;
    }
    uint64_t mv;
    if (modelEval(c, mv) && mv) {
        addPC(c);
        return;
    }
    Assign m;
    int r = S.check(cs->pc, c, &m);
    if (r == 0) throw PathEnd{"assume"};
    addPC(c);
    if (r == 1) refreshModel(m);
    else cs->modelValid = false;
}

static bool infinite(Node *n) { return (n->val & maskw(63)) == (u128)0x7ff << 52; }
static bool computed(Node *n) // the result of arithmetic
{
    switch (n->op) {
        case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FSQRT: return true;
        case O_AND: case O_XOR: return n->width == 64 && n->k[1]->op == O_CONST && computed(n->k[0]);
        case O_ITE: {
            auto fin = [](Node *k) { return (k->op == O_CONST && k->width == 64 && (k->val & maskw(63)) < (u128)0x7ff << 52) || computed(k); };
            return fin(n->k[1]) && fin(n->k[2]);
        }
        default: return false;
    }
}
Node *Exec::pinTerm(Node *t)
{
    if (P.isc(t)) return t;
    std::unordered_map<Node *, Node *> memo;
    std::vector<Node *> ipc; // the constraints on integer variables alone
    for (auto *c : cs->pc) {
        bool fp = false;
        for (auto v : P.support(c)) fp = fp || P.vars[v].isfp;
        if (!fp) ipc.push_back(c);
    }
    for (auto v : P.support(t)) {
        auto &vi = P.vars[v];
        if (vi.isfp) continue;
        uint64_t x = vi.ranged ? vi.lo : 0;
        if (!modelEval(vi.node, x)) {
            Assign m2;
            if (S.check(ipc, P.bnot(P.bin(O_EQ, vi.node, P.cst(vi.ranged ? vi.lo : 0, vi.width))), &m2) == 1 && m2.count(v)) x = m2[v];
        }
        Node *e = P.bin(O_EQ, vi.node, P.cst(x, vi.width));
        auto k = cs->known.find(e);
        bool pin = k != cs->known.end() && k->second;
        if (!pin && k == cs->known.end() && S.check(ipc, P.bnot(e), nullptr) == 0) {
            pin = true;
            cs->known[e] = 1;
        }
        if (pin) memo[vi.node] = P.cst(x, vi.width);
    }
    auto knows = [&](Node *c) -> int {
        if (P.isc(c)) return (int)c->val;
        auto k = cs->known.find(c);
        return k == cs->known.end() ? -1 : (int)k->second;
    };
    auto less = [&](Node *x, Node *y) -> int { // is x < y known (as real numbers)?
        Node *u, *v;
        int sg = 0, c3 = 0;
        if (!realCmp || !ratCompare(x, y, u, v, sg, c3)) return -1;
        if (!sg) return c3 < 0;
        if (sg < 0) std::swap(u, v);
        int lt = knows(P.bin(O_FOLT, u, v)), gt = knows(P.bin(O_FOLT, v, u)), eq = knows(P.bin(O_FOEQ, u, v));
        if (eq < 0) eq = knows(P.bin(O_FOEQ, v, u));
        if (lt >= 0) return lt;
        if (gt == 1 || eq == 1) return 0;
        if (gt == 0 && eq == 0) return 1;
        return -1;
    };
    std::function<Node *(Node *)> go = [&](Node *n) -> Node * {
        if (n->op == O_CONST) return n;
        auto it = memo.find(n);
        if (it != memo.end()) return it->second;
        Node *r = n;
        if (realCmp && n->op == O_AND && n->width == 64 && P.isc(n->k[1]) && n->k[1]->val == maskw(63)) {
            Node *x = go(n->k[0]), *zero = P.cst(0, 64);
            int l = less(x, zero);
            r = l == 0 ? x : l == 1 ? P.bin(O_XOR, x, P.cst((u128)1 << 63, 64)) : P.bin(O_AND, x, n->k[1]);
            memo[n] = r;
            return r;
        }
        if (n->op == O_ITE) {
            Node *c = go(n->k[0]);
            int v = -1;
            if (P.isc(c)) v = (int)c->val;
            else {
                auto k = cs->known.find(c);
                if (k != cs->known.end()) v = (int)k->second;
                else {
                    bool fp = false;
                    for (auto s : P.support(c)) fp = fp || P.vars[s].isfp;
                    if (fp && c->op == O_FOLT && c->k[0]->width == 64) v = less(c->k[0], c->k[1]);
                    if (!fp) {
                        if (S.check(ipc, c, nullptr) == 0) v = 0;
                        else if (S.check(ipc, P.bnot(c), nullptr) == 0) v = 1;
                        if (v >= 0) cs->known[c] = v;
                    }
                }
            }
            r = v == 1 ? go(n->k[1]) : v == 0 ? go(n->k[2]) : P.ite(c, go(n->k[1]), go(n->k[2]));
        } else if (n->nk) {
            std::vector<Node *> k;
            bool ch = false;
            for (unsigned i = 0; i < n->nk; ++i) {
                Node *o = n->more ? (*n->more)[i] : n->k[i];
                k.push_back(go(o));
                ch = ch || k.back() != o;
            }
            if (ch) switch (n->op) {
                    case O_UF: r = P.uf(P.ufs[(size_t)n->val].name, n->width, k); break;
                    case O_ZEXT: r = P.zext(k[0], n->width); break;
                    case O_SEXT: r = P.sext(k[0], n->width); break;
                    case O_EXTRACT: r = P.extract(k[0], (unsigned)n->val, n->width); break;
                    case O_CONCAT: r = P.concat(k[0], k[1]); break;
                    case O_FSQRT: case O_SITOFP: case O_UITOFP: case O_FPTOSI: case O_FPTOUI: case O_FPEXT: case O_FPTRUNC:
                        r = P.un(n->op, k[0], n->width);
                        break;
                    default: r = n->nk == 2 ? P.bin(n->op, k[0], k[1]) : n; break;
                }
        }
        memo[n] = r;
        return r;
    };
    return go(t);
}

// splits the path on a floating-point condition a choice in the term depends on; false if there is none
bool Exec::splitIte(Node *t)
{
    std::unordered_set<Node *> seen;
    Node *c = nullptr;
    std::function<void(Node *)> go = [&](Node *n) {
        if (c || !seen.insert(n).second) return;
        for (unsigned i = 0; i < n->nk; ++i) go(n->more ? (*n->more)[i] : n->k[i]);
        if (c || n->op != O_ITE || P.isc(n->k[0]) || cs->known.count(n->k[0])) return;
        for (auto s : P.support(n->k[0]))
            if (P.vars[s].isfp) c = n->k[0];
    };
    go(t);
    if (!c) return false;
    bool v = decide(c);
    cs->known[c] = v;
    return true;
}

// splits the path on the sign of a comparison of real numbers the term depends on; false if there is none
bool Exec::splitCmp(Node *t)
{
    std::unordered_set<Node *> seen;
    Node *a = nullptr, *b = nullptr;
    std::function<void(Node *)> go = [&](Node *n) {
        if (a || !seen.insert(n).second) return;
        for (unsigned i = 0; i < n->nk; ++i) go(n->more ? (*n->more)[i] : n->k[i]);
        if (a) return;
        Node *x = nullptr, *y = nullptr;
        if (n->op == O_ITE && n->k[0]->op == O_FOLT && n->k[0]->k[0]->width == 64) {
            x = n->k[0]->k[0];
            y = n->k[0]->k[1];
        } else if (n->op == O_AND && n->width == 64 && P.isc(n->k[1]) && n->k[1]->val == maskw(63)) {
            x = n->k[0];
            y = P.cst(0, 64);
        }
        if (!x) return;
        Node *u, *v;
        int sg = 0, c3 = 0;
        if (!ratCompare(x, y, u, v, sg, c3) || !sg) return;
        if (sg < 0) std::swap(u, v);
        auto kn = [&](Node *c) { return P.isc(c) || cs->known.count(c); };
        if (kn(P.bin(O_FOLT, u, v)) && kn(P.bin(O_FOLT, v, u))) return;
        a = u;
        b = v;
    };
    go(t);
    if (!a) return false;
    decide(P.bin(O_FOLT, a, b));
    decide(P.bin(O_FOLT, b, a));
    return true;
}

uint64_t Exec::concretize(Val v, unsigned w)
{
    v = simp(v);
    if (v.conc()) return v.c;
    Node *n = v.n;
    uint64_t x;
    if (pinnedValue(n, x)) return x;
    bool have = modelEval(n, x);
    if (!have) {
        auto *vs = P.valset(n);
        if (vs) {
            for (auto y : *vs) {
                Assign m;
                int r = S.check(cs->pc, P.bin(O_EQ, n, P.cst(y, w)), &m);
                if (r != 0) { x = y; have = true; break; }
            }
            if (!have) throw PathEnd{"infeasible"};
        } else {
            Assign m;
            int r = S.check(cs->pc, nullptr, &m);
            if (r == 0) throw PathEnd{"infeasible"};
            std::unordered_map<Node *, u128> memo;
            if (!P.eval(n, m, x, memo)) throw EngineError{"cannot concretize"};
            if (S.check(cs->pc, P.bin(O_EQ, n, P.cst(x, w)), &m) == 0) { // an artefact of uninterpreted conversions?
                int rr = S.checkMode(cs->pc, nullptr, M_FP, checkTimeout, &m);
                if (rr == 0) throw PathEnd{"infeasible"};
                memo.clear();
                if (rr != 1 || !P.eval(n, m, x, memo) || S.check(cs->pc, P.bin(O_EQ, n, P.cst(x, w)), &m) == 0)
                    throw EngineError{"cannot concretize (uf) " + P.str(n, 8)};
            }
        }
    }
    Node *e = P.bin(O_EQ, n, P.cst(x, w));
    if (decide(e)) return x;
    return concretize(v, w);
}

std::string Exec::curLoc()
{
    std::string s;
    int k = 0;
    for (size_t i = cs->st.size(); i-- > 0 && k < 6;) {
        auto &f = cs->st[i];
        std::string d = f.f->dem;
        if (d.size() > 160) d = d.substr(0, 160) + "...";
        s += (k ? " < " : "") + d;
        if (f.bb < f.f->bbs.size() && f.pc < f.f->bbs[f.bb].size()) {
            auto &dl = f.f->bbs[f.bb][f.pc].I->getDebugLoc();
            if (dl) s += ":" + std::to_string(dl.getLine());
        }
        ++k;
    }
    return s;
}

void Exec::violation(const std::string &kind, const std::string &msg, Node *extra, Assign *given)
{
    std::string key = kind + "|" + msg;
    unsigned same = 0;
    for (auto &c : cands)
        if (c.kind == kind && c.msg == msg) same++;
    if (same >= maxCand) return;
    if (getenv("SYMEX_DEBUG"))
        for (auto *n : cs->pc) fprintf(stderr, "[pc] %s\n", P.str(n, 14).c_str());
    Assign m = cs->model;
    if (given) {
        for (auto &x : *given) m[x.first] = x.second;
    } else if (extra || !cs->modelValid) {
        Assign full;
        int r = S.checkMode(cs->pc, extra, M_UF, checkTimeout, &full);
        if (r == 0) return; // the whole path is infeasible
        for (auto &x : full) m[x.first] = x.second;
    }
    Candidate c;
    c.kind = kind;
    c.msg = msg;
    c.where = curLoc();
    std::set<uint32_t> constrained;
    for (auto *n : cs->pc)
        for (auto v : P.support(n)) constrained.insert(v);
    for (auto v : cs->inputs) {
        auto it = m.find(v);
        uint64_t x = it == m.end() ? (P.vars[v].ranged ? P.vars[v].lo : 0) : it->second;
        c.inputs.push_back({v, x});
        if (P.vars[v].isfp && !constrained.count(v)) c.freevars.insert(v);
    }
    if (!quiet) fprintf(stderr, "[cand] %s: %s @ %s\n", kind.c_str(), msg.c_str(), c.where.c_str());
    cands.push_back(c);
}

void Exec::checkCond(Node *c, const std::string &msg, const std::string &kind)
{
    auto &st = checks[msg];
    st.reached++;
    Val sv = simp(mkv(c));
    if (sv.conc() && sv.c) {
        st.proved++;
        st.trivially++;
        return;
    }
    if (sv.conc()) {
        // concretely false on this path: feasible only if the path itself is
        Assign m;
        if (!cs->modelValid) {
            int r = S.checkMode(cs->pc, nullptr, M_UF, checkTimeout, &m);
            if (r == 0) throw PathEnd{"infeasible"};
            Assign mr;
            int rr = realCmp ? S.checkRealBool(cs->pc, nullptr, realTimeout, &mr) : -1;
            if (rr == 0) throw PathEnd{"infeasible"};
            if (rr == 1) {
                Assign full = cs->model;
                for (auto &x : mr) full[x.first] = x.second;
                violation(kind, msg, nullptr, &full);
            }
        }
        st.failed++;
        violation(kind, msg, nullptr);
        return;
    }
    Node *nc = P.bnot(c);
    Assign m;
    uint64_t mv;
    int r = -2;
    if (modelEval(nc, mv) && mv) {
        r = 1;
        m = cs->model;
    } else if (pinnedValue(nc, mv) && !mv) {
        SS.folded++;
        r = 0;
    } else
        r = S.check(cs->pc, nc, &m);
    if (r == 0) {
        st.proved++;
        addPC(c);
        return;
    }
    if (r == 1) {
        // confirm with exact floating point semantics when the sliced abstraction said sat
        Assign m2;
        uint64_t ok;
        Assign full = cs->model;
        for (auto &x : m) full[x.first] = x.second;
        // concrete evaluation of the whole path condition
        std::unordered_map<Node *, u128> memo;
        bool concrete = P.eval(nc, full, ok, memo) && ok;
        for (auto *p : cs->pc) {
            if (!concrete) break;
            concrete = P.eval(p, full, ok, memo) && ok;
        }
        Assign mr;
        int real = !concrete && realCmp ? S.checkRealBool(cs->pc, nc, realTimeout, &mr) : -1;
        if (real == 0) {
            st.proved++;
            st.realproved++;
            addPC(c);
            return;
        }
        if (real == 1) { // of the reals
            Assign fr = cs->model;
            for (auto &x : mr) fr[x.first] = x.second;
            violation(kind, msg, nc, &fr);
        }
        if (!concrete) {
            int rr = S.checkMode(cs->pc, nc, M_FP, checkTimeout, &m2);
            if (rr == 0) {
                st.proved++;
                st.fpproved++;
                addPC(c);
                return;
            }
            if (rr == 1) {
                st.failed++;
                violation(kind, msg, nc, &m2);
            } else {
                st.unknown++;
                violation(kind, msg, nc, &m);
            }
        } else {
            st.failed++;
            violation(kind, msg, nc, &full);
        }
    } else {
        st.unknown++;
        inconclusive.push_back(msg);
    }
    // continue on the side where it holds
    assume(c);
}

Val Exec::newInput(const std::string &name, unsigned w, bool fp, bool ranged, uint64_t lo, uint64_t hi)
{
    static std::map<std::tuple<size_t, std::string, unsigned, bool, bool, uint64_t, uint64_t>, uint32_t> reg;
    auto key = std::make_tuple(cs->inputs.size(), name, w, fp, ranged, lo, hi);
    auto it = reg.find(key);
    uint32_t idx;
    if (it == reg.end()) {
        Node *n = P.var(name, w, fp, ranged, lo, hi);
        idx = (uint32_t)n->val;
        reg[key] = idx;
    } else
        idx = it->second;
    cs->inputs.push_back(idx);
    if (ranged && lo == hi) return Val(lo);
    return Val::sym(P.vars[idx].node);
}

void Exec::checkDiv(Val d, unsigned w)
{
    if (d.conc()) {
        if (d.c == 0) {
            violation("division", "integer division by zero", nullptr);
            throw PathEnd{"div0"};
        }
        return;
    }
    Node *z = P.bin(O_EQ, d.n, P.cst(0, w));
    if (decide(z)) {
        violation("division", "integer division by zero", nullptr);
        throw PathEnd{"div0"};
    }
}

// --------------------------------------------------------------------------------------- preparation

void Exec::flatten(Type *T, unsigned off, std::vector<Scalar> &out)
{
    if (T->isVoidTy() || T->isMetadataTy() || T->isTokenTy() || T->isLabelTy()) return;
    if (auto *s = dyn_cast<StructType>(T)) {
        auto *L = DL.getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); ++i)
            flatten(s->getElementType(i), off + (unsigned)L->getElementOffset(i), out);
        return;
    }
    if (auto *a = dyn_cast<ArrayType>(T)) {
        unsigned es = (unsigned)DL.getTypeAllocSize(a->getElementType());
        for (unsigned i = 0; i < a->getNumElements(); ++i) flatten(a->getElementType(), off + i * es, out);
        return;
    }
    if (auto *v = dyn_cast<FixedVectorType>(T)) {
        unsigned es = (unsigned)DL.getTypeSizeInBits(v->getElementType()) / 8;
        if (es == 0) es = 1; // <n x i1>: only ever kept in registers
        for (unsigned i = 0; i < v->getNumElements(); ++i) flatten(v->getElementType(), off + i * es, out);
        return;
    }
    if (T->isPointerTy()) out.push_back({64, false, off});
    else if (T->isDoubleTy()) out.push_back({64, true, off});
    else if (T->isFloatTy()) out.push_back({32, true, off});
    else if (T->isX86_FP80Ty()) out.push_back({80, true, off});
    else if (T->isIntegerTy()) out.push_back({T->getIntegerBitWidth(), false, off});
    else {
        std::string s;
        raw_string_ostream os(s);
        T->print(os);
        throw EngineError{"unsupported type " + s};
    }
}

uint64_t Exec::globalAddr(const GlobalValue *G)
{
    auto it = gaddr.find(G);
    if (it != gaddr.end()) return it->second;
    if (auto *A = dyn_cast<GlobalAlias>(G)) {
        std::vector<Val> v;
        constant(A->getAliasee(), v);
        return gaddr[G] = v[0].c;
    }
    if (auto *F = dyn_cast<Function>(G)) {
        uint64_t a = FBASE + 16 * (faddr.size() + 1);
        faddr[a] = F;
        return gaddr[G] = a;
    }
    throw EngineError{"unknown global " + G->getName().str()};
}

static u128 apint(const APInt &a)
{
    u128 v = a.getRawData()[0];
    if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
    return v;
}

void Exec::constant(const Constant *C, std::vector<Val> &out)
{
    auto push = [&](u128 v, unsigned w) {
        if (w <= 64) out.push_back(Val((uint64_t)(v & maskw(w))));
        else out.push_back(Val::sym(P.cst(v, w)));
    };
    if (auto *i = dyn_cast<ConstantInt>(C)) return push(apint(i->getValue()), i->getBitWidth());
    if (auto *f = dyn_cast<ConstantFP>(C)) {
        APInt a = f->getValueAPF().bitcastToAPInt();
        return push(apint(a), a.getBitWidth());
    }
    if (isa<ConstantPointerNull>(C)) return push(0, 64);
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
        std::vector<Scalar> s;
        flatten(C->getType(), 0, s);
        for (auto &x : s) push(0, x.width);
        return;
    }
    if (auto *g = dyn_cast<GlobalValue>(C)) return push(globalAddr(g), 64);
    if (auto *a = dyn_cast<ConstantDataSequential>(C)) {
        for (unsigned i = 0; i < a->getNumElements(); ++i) constant(a->getElementAsConstant(i), out);
        return;
    }
    if (auto *a = dyn_cast<ConstantAggregate>(C)) {
        for (unsigned i = 0; i < a->getNumOperands(); ++i) constant(a->getOperand(i), out);
        return;
    }
    if (auto *e = dyn_cast<ConstantExpr>(C)) {
        switch (e->getOpcode()) {
            case Instruction::GetElementPtr: {
                std::vector<Val> b;
                constant(e->getOperand(0), b);
                APInt off(64, 0);
                if (!cast<GEPOperator>(e)->accumulateConstantOffset(DL, off)) throw EngineError{"constexpr gep"};
                return push(b[0].c + off.getZExtValue(), 64);
            }
            case Instruction::BitCast: case Instruction::AddrSpaceCast: return constant(e->getOperand(0), out);
            case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: {
                std::vector<Val> b;
                constant(e->getOperand(0), b);
                std::vector<Scalar> s;
                flatten(e->getType(), 0, s);
                return push(b[0].c, s[0].width);
            }
            case Instruction::Add: case Instruction::Sub: {
                std::vector<Val> a, b;
                constant(e->getOperand(0), a);
                constant(e->getOperand(1), b);
                unsigned w = e->getType()->getIntegerBitWidth();
                return push(e->getOpcode() == Instruction::Add ? a[0].c + b[0].c : a[0].c - b[0].c, w);
            }
            case Instruction::ICmp: {
                std::vector<Val> a, b;
                constant(e->getOperand(0), a);
                constant(e->getOperand(1), b);
                bool r;
                switch (e->getPredicate()) {
                    case CmpInst::ICMP_EQ: r = a[0].c == b[0].c; break;
                    case CmpInst::ICMP_NE: r = a[0].c != b[0].c; break;
                    case CmpInst::ICMP_ULT: r = a[0].c < b[0].c; break;
                    case CmpInst::ICMP_UGT: r = a[0].c > b[0].c; break;
                    case CmpInst::ICMP_ULE: r = a[0].c <= b[0].c; break;
                    default: r = a[0].c >= b[0].c; break;
                }
                return push(r, 1);
            }
            default: break;
        }
    }
    std::string s;
    raw_string_ostream os(s);
    C->print(os);
    throw EngineError{"unsupported constant " + s};
}

void Exec::initGlobal(const Constant *C, uint64_t addr)
{
    if (isa<ConstantAggregateZero>(C)) return; // already zero
    if (isa<UndefValue>(C)) return;
    std::vector<Scalar> sc;
    flatten(C->getType(), 0, sc);
    std::vector<Val> v;
    constant(C, v);
    uint64_t off;
    Obj *o = objAt(addr, 0, off);
    Obj *w = cs->mem.wr(o->idx);
    for (size_t i = 0; i < sc.size(); ++i) writeObj(w, off + sc[i].off, v[i], sc[i].width);
}

void Exec::operand(PFunc &pf, std::map<const Value *, int> &slots, const Value *v, std::vector<Operand> &out)
{
    if (auto *c = dyn_cast<Constant>(v)) {
        std::vector<Val> cv;
        constant(c, cv);
        for (auto &x : cv) {
            Operand o;
            o.c = x;
            out.push_back(o);
        }
        return;
    }
    if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return;
    auto it = slots.find(v);
    if (it == slots.end()) throw EngineError{"operand without slot"};
    std::vector<Scalar> s;
    flatten(v->getType(), 0, s);
    for (size_t i = 0; i < s.size(); ++i) {
        Operand o;
        o.slot = it->second + (int)i;
        out.push_back(o);
    }
}

PFunc *Exec::prep(const Function *F)
{
    auto &up = pfs[F];
    if (up) return up.get();
    up = std::make_unique<PFunc>();
    PFunc &pf = *up;
    pf.F = F;
    pf.name = F->getName().str();
    pf.dem = demangle(pf.name);
    pf.ours = pf.dem.find("dcgp::") != std::string::npos;
    std::map<const Value *, int> slots;
    unsigned n = 0;
    auto give = [&](const Value *v) {
        std::vector<Scalar> s;
        flatten(v->getType(), 0, s);
        slots[v] = (int)n;
        n += (unsigned)s.size();
    };
    for (auto &a : F->args()) {
        std::vector<Scalar> s;
        flatten(a.getType(), 0, s);
        slots[&a] = (int)n;
        for (size_t i = 0; i < s.size(); ++i) pf.argslot.push_back((int)(n + i));
        n += (unsigned)s.size();
    }
    unsigned nb = 0;
    for (auto &bb : *F) {
        pf.bbidx[&bb] = nb++;
        for (auto &I : bb)
            if (!I.getType()->isVoidTy()) give(&I);
    }
    pf.nslots = n;
    pf.bbs.resize(nb);
    auto edge = [&](const BasicBlock *from, const BasicBlock *to) {
        Edge e;
        e.target = pf.bbidx[to];
        for (auto &phi : to->phis()) {
            std::vector<Operand> src;
            operand(pf, slots, phi.getIncomingValueForBlock(from), src);
            for (size_t i = 0; i < src.size(); ++i) e.moves.push_back({slots[&phi] + (int)i, src[i]});
        }
        return e;
    };
    for (auto &bb : *F) {
        auto &vec = pf.bbs[pf.bbidx[&bb]];
        for (auto &I : bb) {
            if (isa<PHINode>(I)) continue;
            if (isa<DbgInfoIntrinsic>(I)) continue;
            PInst p;
            p.op = I.getOpcode();
            p.I = &I;
            if (!I.getType()->isVoidTy()) {
                p.dst = slots[&I];
                flatten(I.getType(), 0, p.res);
            }
            auto addops = [&](const Value *v) {
                size_t b = p.ops.size();
                operand(pf, slots, v, p.ops);
                p.opn.push_back((unsigned)(p.ops.size() - b));
            };
            switch (I.getOpcode()) {
                case Instruction::Br: {
                    auto &b = cast<BranchInst>(I);
                    if (b.isConditional()) addops(b.getCondition());
                    for (unsigned i = 0; i < b.getNumSuccessors(); ++i) p.edges.push_back(edge(&bb, b.getSuccessor(i)));
                    break;
                }
                case Instruction::Switch: {
                    auto &s = cast<SwitchInst>(I);
                    addops(s.getCondition());
                    p.w = s.getCondition()->getType()->getIntegerBitWidth();
                    p.edges.push_back(edge(&bb, s.getDefaultDest()));
                    for (auto &c : s.cases()) {
                        p.cases.push_back({apint(c.getCaseValue()->getValue()), (unsigned)p.edges.size()});
                        p.edges.push_back(edge(&bb, c.getCaseSuccessor()));
                    }
                    break;
                }
                case Instruction::GetElementPtr: {
                    auto &g = cast<GetElementPtrInst>(I);
                    if (g.getType()->isVectorTy()) throw EngineError{"vector gep"};
                    addops(g.getPointerOperand());
                    int64_t coff = 0;
                    for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                        const Value *ix = gi.getOperand();
                        if (auto *st = gi.getStructTypeOrNull()) {
                            coff += (int64_t)DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                            continue;
                        }
                        int64_t sc = (int64_t)DL.getTypeAllocSize(gi.getIndexedType());
                        if (auto *ci = dyn_cast<ConstantInt>(ix)) {
                            coff += ci->getSExtValue() * sc;
                            continue;
                        }
                        std::vector<Operand> o;
                        operand(pf, slots, ix, o);
                        p.gep.push_back({o[0], {ix->getType()->getIntegerBitWidth(), sc}});
                    }
                    p.imm = (uint64_t)coff;
                    break;
                }
                case Instruction::Alloca: {
                    auto &a = cast<AllocaInst>(I);
                    addops(a.getArraySize());
                    p.imm = DL.getTypeAllocSize(a.getAllocatedType());
                    break;
                }
                case Instruction::Call: case Instruction::Invoke: {
                    auto &c = cast<CallBase>(I);
                    const Value *cv = c.getCalledOperand()->stripPointerCasts();
                    p.callee = dyn_cast<Function>(cv);
                    if (!p.callee) {
                        if (auto *al = dyn_cast<GlobalAlias>(cv)) p.callee = dyn_cast<Function>(al->getAliaseeObject());
                    }
                    unsigned ai = 0;
                    for (unsigned i = 0; i < c.arg_size(); ++i) {
                        if (c.getArgOperand(i)->getType()->isMetadataTy()) continue;
                        if (c.isByValArgument(i)) p.byval.push_back({ai, DL.getTypeAllocSize(c.getParamByValType(i))});
                        size_t b = p.ops.size();
                        addops(c.getArgOperand(i));
                        ai += (unsigned)(p.ops.size() - b);
                    }
                    p.imm = p.ops.size(); // number of argument slots
                    if (!p.callee) {
                        if (c.isInlineAsm()) p.intrin = -1;
                        else addops(c.getCalledOperand());
                    } else {
                        if (p.callee->isIntrinsic()) p.intrin = (int)p.callee->getIntrinsicID();
                        else p.native = lookupNative(p.callee->getName().str());
                    }
                    if (!c.args().empty()) {
                        std::vector<Scalar> s0;
                        flatten(c.getArgOperand(0)->getType(), 0, s0);
                        if (!s0.empty()) p.w = s0[0].width;
                    }
                    if (auto *inv = dyn_cast<InvokeInst>(&I)) {
                        p.edges.push_back(edge(&bb, inv->getNormalDest()));
                        p.edges.push_back(edge(&bb, inv->getUnwindDest()));
                    }
                    break;
                }
                case Instruction::ExtractValue: {
                    auto &e = cast<ExtractValueInst>(I);
                    addops(e.getAggregateOperand());
                    // slot offset of the index path
                    Type *T = e.getAggregateOperand()->getType();
                    unsigned off = 0;
                    for (unsigned ix : e.indices()) {
                        for (unsigned k = 0; k < ix; ++k) {
                            std::vector<Scalar> s;
                            flatten(isa<StructType>(T) ? cast<StructType>(T)->getElementType(k) : cast<ArrayType>(T)->getElementType(), 0, s);
                            off += (unsigned)s.size();
                        }
                        T = isa<StructType>(T) ? cast<StructType>(T)->getElementType(ix) : cast<ArrayType>(T)->getElementType();
                    }
                    p.imm = off;
                    break;
                }
                case Instruction::InsertValue: {
                    auto &e = cast<InsertValueInst>(I);
                    addops(e.getAggregateOperand());
                    addops(e.getInsertedValueOperand());
                    Type *T = e.getAggregateOperand()->getType();
                    unsigned off = 0;
                    for (unsigned ix : e.indices()) {
                        for (unsigned k = 0; k < ix; ++k) {
                            std::vector<Scalar> s;
                            flatten(isa<StructType>(T) ? cast<StructType>(T)->getElementType(k) : cast<ArrayType>(T)->getElementType(), 0, s);
                            off += (unsigned)s.size();
                        }
                        T = isa<StructType>(T) ? cast<StructType>(T)->getElementType(ix) : cast<ArrayType>(T)->getElementType();
                    }
                    p.imm = off;
                    break;
                }
                case Instruction::LandingPad: break;
                default:
                    for (auto &o : I.operands()) addops(o.get());
                    if (I.getNumOperands()) {
                        std::vector<Scalar> s0;
                        flatten(I.getOperand(0)->getType(), 0, s0);
                        if (!s0.empty()) p.w = s0[0].width;
                    }
            }
            vec.push_back(std::move(p));
        }
    }
    return &pf;
}

// ----------------------------------------------------------------------------------------- execution

void Exec::pushFrame(PFunc *pf, std::vector<Val> &args, const PInst *call)
{
    if (cs->st.size() > 2000) {
        violation("nontermination", "call stack overflow", nullptr);
        throw PathEnd{"stack overflow"};
    }
    Frame f;
    f.f = pf;
    f.call = call;
    f.r.resize(pf->nslots);
    for (size_t i = 0; i < args.size() && i < pf->argslot.size(); ++i) f.r[(size_t)pf->argslot[i]] = args[i];
    cs->st.push_back(std::move(f));
    pf->calls++;
    if (pf->ours) funcs.insert(pf->dem);
}

void Exec::popFrame()
{
    for (auto i : cs->st.back().allocas) cs->mem.drop(i);
    cs->st.pop_back();
}

void Exec::gotoEdge(const Edge &e)
{
    Frame &f = cs->st.back();
    if (!e.moves.empty()) {
        std::vector<Val> tmp(e.moves.size());
        for (size_t i = 0; i < e.moves.size(); ++i) tmp[i] = get(e.moves[i].second);
        for (size_t i = 0; i < e.moves.size(); ++i) f.r[(size_t)e.moves[i].first] = tmp[i];
    }
    f.bb = e.target;
    f.pc = 0;
}

void Exec::doReturn(std::vector<Val> rv)
{
    const PInst *call = cs->st.back().call;
    popFrame();
    if (cs->st.empty()) throw PathEnd{"done"};
    if (!call) throw PathEnd{"done"}; // static initialiser boundary
    Frame &f = cs->st.back();
    for (size_t i = 0; i < rv.size() && i < call->res.size(); ++i) f.r[(size_t)call->dst + i] = rv[i];
    if (call->op == Instruction::Invoke) gotoEdge(call->edges[0]);
    else f.pc++;
}

bool Exec::derives(const std::string &t, const std::string &b)
{
    if (t == b) return true;
    auto it = tbases.find(t);
    if (it == tbases.end()) return false;
    for (auto &x : it->second)
        if (derives(x, b)) return true;
    return false;
}
bool Exec::matches(uint64_t thrown, uint64_t caught)
{
    if (caught == 0) return true;
    return derives(tinfoName[thrown], tinfoName[caught]);
}

void Exec::unwind(uint64_t obj, uint64_t ti)
{
    // the top frame is the one that raised; look for a landing pad in it first if its current instruction is an invoke
    while (!cs->st.empty()) {
        Frame &f = cs->st.back();
        const PInst *ci = (f.bb < f.f->bbs.size() && f.pc < f.f->bbs[f.bb].size()) ? &f.f->bbs[f.bb][f.pc] : nullptr;
        if (ci && ci->op == Instruction::Invoke) {
            const Edge &e = ci->edges[1];
            const PInst &lp = f.f->bbs[e.target][0];
            auto *L = dyn_cast<LandingPadInst>(lp.I);
            if (!L) throw EngineError{"unwind destination without landingpad"};
            int64_t sel = 0;
            bool enter = L->isCleanup();
            for (unsigned i = 0; i < L->getNumClauses(); ++i) {
                if (L->isCatch(i)) {
                    std::vector<Val> v;
                    constant(L->getClause(i), v);
                    if (matches(ti, v[0].c)) {
                        sel = v[0].c ? (int64_t)(v[0].c >> OSHIFT) : 1;
                        enter = true;
                        break;
                    }
                } else {
                    // filter: used for exception specifications / noexcept
                    auto *arr = cast<Constant>(L->getClause(i));
                    std::vector<Val> v;
                    constant(arr, v);
                    bool allowed = false;
                    for (auto &x : v) allowed = allowed || matches(ti, x.c);
                    if (!allowed) {
                        sel = -1;
                        enter = true;
                        break;
                    }
                }
            }
            if (enter) {
                gotoEdge(e);
                Frame &g = cs->st.back();
                g.r[(size_t)lp.dst] = Val(obj);
                g.r[(size_t)lp.dst + 1] = Val((uint64_t)(uint32_t)sel);
                g.pc = 1; // the landingpad itself is done
                cs->exctype[obj] = ti;
                return;
            }
        }
        if (f.call == nullptr && cs->st.size() > 1) {}
        popFrame();
    }
    // uncaught: rebuild a location-free report
    Candidate c;
    violation("uncaught", "uncaught exception of type " + demangle(tinfoName[ti]), nullptr);
    throw PathEnd{"uncaught exception"};
}

void Exec::throwStd(const std::string &tn)
{
    auto it = tinfoByName.find(tn);
    uint64_t ti;
    if (it == tinfoByName.end()) {
        ti = alloc(16, 0, tn, true);
        // the type is never caught by name in this module, but may be caught through a base
        tinfoName[ti] = tn;
        tinfoByName[tn] = ti;
    } else
        ti = it->second;
    uint64_t o = alloc(64, 3, "exception", true);
    cs->exctype[o] = ti;
    unwind(o, ti);
}

void Exec::call(const Function *F, const PInst &I, std::vector<Val> &args)
{
    int nat = lookupNative(F->getName().str());
    if (nat < 0 && F->isDeclaration()) {
        throw EngineError{"call to unknown external function " + demangle(F->getName().str())};
    }
    if (nat >= 0) {
        std::vector<Val> ret;
        if (F->isDeclaration()) externs.insert(natives[(size_t)nat].first);
        size_t depth = cs->st.size();
        auto *pi = &I;
        unsigned bb = cs->st.back().bb, pc = cs->st.back().pc;
        natives[(size_t)nat].second(*this, I, args, ret);
        // a native may have unwound or pushed a frame; only advance when it did not
        if (cs->st.size() == depth && cs->st.back().bb == bb && cs->st.back().pc == pc) {
            Frame &f = cs->st.back();
            for (size_t i = 0; i < pi->res.size(); ++i) {
                Val v = i < ret.size() ? ret[i] : Val(0);
                f.r[(size_t)pi->dst + i] = v;
            }
            if (pi->op == Instruction::Invoke) gotoEdge(pi->edges[0]);
            else f.pc++;
        }
        return;
    }
    PFunc *pf = prep(F);
    std::vector<uint32_t> cop;
    for (auto &b : I.byval) {
        uint64_t a = alloc(b.second, 1, "byval");
        copyBytes(a, concretize(args[b.first], 64), b.second);
        args[b.first] = Val(a);
        cop.push_back((uint32_t)((a >> OSHIFT) - 16));
    }
    pushFrame(pf, args, &I);
    for (auto c : cop) cs->st.back().allocas.push_back(c);
}

static int64_t sgn(uint64_t v, unsigned w)
{
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= (1ull << w) - 1;
    return (int64_t)((v ^ m) - m);
}

void Exec::step()
{
    Frame &f = cs->st.back();
    const PInst &I = f.f->bbs[f.bb][f.pc];
    cs->steps++;
    steps++;
    execInst(I);
}

void Exec::execInst(const PInst &I)
{
    Frame &f = cs->st.back();
    auto setr = [&](size_t i, Val v) { cs->st.back().r[(size_t)I.dst + i] = v; };
    unsigned w = I.w;
    switch (I.op) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
        case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            static const std::map<unsigned, Op> mp = {
                {Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV},
                {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::And, O_AND},
                {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR},
                {Instruction::AShr, O_ASHR}, {Instruction::FAdd, O_FADD}, {Instruction::FSub, O_FSUB}, {Instruction::FMul, O_FMUL},
                {Instruction::FDiv, O_FDIV}, {Instruction::FRem, O_FREM}};
            size_t n = I.res.size();
            std::vector<Val> rs(n);
            for (size_t i = 0; i < n; ++i) {
                Val a = get(I.ops[i]), b = get(I.ops[n + i]);
                bool isdiv = I.op == Instruction::UDiv || I.op == Instruction::SDiv || I.op == Instruction::URem || I.op == Instruction::SRem;
                if (isdiv) checkDiv(b, w);
                if (a.conc() && b.conc() && w <= 64) {
                    uint64_t r;
                    bool ok = true;
                    switch (I.op) {
                        case Instruction::Add: r = a.c + b.c; break;
                        case Instruction::Sub: r = a.c - b.c; break;
                        case Instruction::Mul: r = a.c * b.c; break;
                        case Instruction::And: r = a.c & b.c; break;
                        case Instruction::Or: r = a.c | b.c; break;
                        case Instruction::Xor: r = a.c ^ b.c; break;
                        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
                            if (w == 64) {
                                double x, y, z;
                                memcpy(&x, &a.c, 8);
                                memcpy(&y, &b.c, 8);
                                z = I.op == Instruction::FAdd ? x + y : I.op == Instruction::FSub ? x - y : I.op == Instruction::FMul ? x * y : x / y;
                                memcpy(&r, &z, 8);
                            } else
                                ok = false;
                            break;
                        default: ok = false;
                    }
                    if (ok) {
                        if (w < 64) r &= (1ull << w) - 1;
                        rs[i] = Val(r);
                        continue;
                    }
                }
                rs[i] = mkv(P.bin(mp.at(I.op), nd(a, w), nd(b, w)));
            }
            for (size_t i = 0; i < n; ++i) setr(i, rs[i]);
            f.pc++;
            break;
        }
        case Instruction::FNeg:
            for (size_t i = 0; i < I.res.size(); ++i) {
                Val a = get(I.ops[i]);
                setr(i, mkv(P.bin(O_XOR, nd(a, w), P.cst((u128)1 << (w - 1), w))));
            }
            f.pc++;
            break;
        case Instruction::ICmp: {
            auto pr = cast<ICmpInst>(I.I)->getPredicate();
            size_t n = I.res.size();
            for (size_t i = 0; i < n; ++i) {
                Val a = get(I.ops[i]), b = get(I.ops[n + i]);
                if (a.conc() && b.conc() && w <= 64) {
                    bool r;
                    switch (pr) {
                        case CmpInst::ICMP_EQ: r = a.c == b.c; break;
                        case CmpInst::ICMP_NE: r = a.c != b.c; break;
                        case CmpInst::ICMP_ULT: r = a.c < b.c; break;
                        case CmpInst::ICMP_ULE: r = a.c <= b.c; break;
                        case CmpInst::ICMP_UGT: r = a.c > b.c; break;
                        case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
                        case CmpInst::ICMP_SLT: r = sgn(a.c, w) < sgn(b.c, w); break;
                        case CmpInst::ICMP_SLE: r = sgn(a.c, w) <= sgn(b.c, w); break;
                        case CmpInst::ICMP_SGT: r = sgn(a.c, w) > sgn(b.c, w); break;
                        default: r = sgn(a.c, w) >= sgn(b.c, w); break;
                    }
                    setr(i, Val((uint64_t)r));
                    continue;
                }
                Node *x = nd(a, w), *y = nd(b, w), *r;
                switch (pr) {
                    case CmpInst::ICMP_EQ: r = P.bin(O_EQ, x, y); break;
                    case CmpInst::ICMP_NE: r = P.bnot(P.bin(O_EQ, x, y)); break;
                    case CmpInst::ICMP_ULT: r = P.bin(O_ULT, x, y); break;
                    case CmpInst::ICMP_ULE: r = P.bin(O_ULE, x, y); break;
                    case CmpInst::ICMP_UGT: r = P.bin(O_ULT, y, x); break;
                    case CmpInst::ICMP_UGE: r = P.bin(O_ULE, y, x); break;
                    case CmpInst::ICMP_SLT: r = P.bin(O_SLT, x, y); break;
                    case CmpInst::ICMP_SLE: r = P.bin(O_SLE, x, y); break;
                    case CmpInst::ICMP_SGT: r = P.bin(O_SLT, y, x); break;
                    default: r = P.bin(O_SLE, y, x); break;
                }
                setr(i, simp(mkv(r)));
            }
            f.pc++;
            break;
        }
        case Instruction::FCmp: {
            auto pr = cast<FCmpInst>(I.I)->getPredicate();
            size_t n = I.res.size();
            for (size_t i = 0; i < n; ++i) {
                Node *x = nd(get(I.ops[i]), w), *y = nd(get(I.ops[n + i]), w), *r;
                auto olt = [&](Node *a, Node *b) { return P.bin(O_FOLT, a, b); };
                auto ole = [&](Node *a, Node *b) { return P.bin(O_FOLE, a, b); };
                auto uno = [&] { return P.bin(O_FUNO, x, y); };
                auto oeq = [&] { return P.bin(O_FOEQ, x, y); };
                if (realCmp && w == 64 && (P.isc(x) ? infinite(x) && computed(y) : P.isc(y) && infinite(y) && computed(x))) {
                    // the results of arithmetic are real numbers: below infinity, above minus infinity
                    bool xi = P.isc(x), neg = ((xi ? x : y)->val >> 63) & 1, less = xi == neg; // x < y
                    bool e = false;
                    switch (pr) {
                        case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: e = less; break;
                        case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: e = !less; break;
                        case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: case CmpInst::FCMP_ORD: case CmpInst::FCMP_TRUE: e = true; break;
                        default: break;
                    }
                    setr(i, Val((uint64_t)e));
                    continue;
                }
                if (realCmp && w == 64 && !(P.isc(x) && P.isc(y))) {
                    // comparisons as comparisons of real numbers: one representative per difference up to a factor
                    Node *p = pinTerm(x), *q = pinTerm(y), *u, *v;
                    int sg = 0, cs3 = 0;
                    if (ratCompare(p, q, u, v, sg, cs3)) {
                        bool any = pr == CmpInst::FCMP_FALSE || pr == CmpInst::FCMP_TRUE || pr == CmpInst::FCMP_ORD || pr == CmpInst::FCMP_UNO;
                        if (!any) {
                            bool L = pr == CmpInst::FCMP_OLT || pr == CmpInst::FCMP_ULT, G = pr == CmpInst::FCMP_OGT || pr == CmpInst::FCMP_UGT;
                            bool Le = pr == CmpInst::FCMP_OLE || pr == CmpInst::FCMP_ULE, Ge = pr == CmpInst::FCMP_OGE || pr == CmpInst::FCMP_UGE;
                            bool Eq = pr == CmpInst::FCMP_OEQ || pr == CmpInst::FCMP_UEQ;
                            if (!sg) {
                                bool res = L ? cs3 < 0 : G ? cs3 > 0 : Le ? cs3 <= 0 : Ge ? cs3 >= 0 : Eq ? cs3 == 0 : cs3 != 0;
                                r = P.cst(res, 1);
                            } else {
                                if (sg < 0) std::swap(u, v); // now sign(x - y) = sign(u - v)
                                Node *lt = P.bin(O_FOLT, u, v), *gt = P.bin(O_FOLT, v, u), *eq = P.bin(O_FOEQ, u, v);
                                // trichotomy: what is known of two decides the third
                                auto kn = [&](Node *c) { auto it = cs->known.find(c); return P.isc(c) ? (int)c->val : it == cs->known.end() ? -1 : (int)it->second; };
                                int kl = kn(lt), kg = kn(gt), ke = kn(eq);
                                if (kl == 1 || kg == 1) ke = 0;
                                if (ke == 1 || kg == 1) kl = 0;
                                if (ke == 1 || kl == 1) kg = 0;
                                if (kl == 0 && kg == 0) ke = 1;
                                else if (kl == 0 && ke == 0) kg = 1;
                                else if (kg == 0 && ke == 0) kl = 1;
                                if (kl >= 0) cs->known[lt] = (uint64_t)kl, lt = P.cst((u128)kl, 1);
                                if (kg >= 0) cs->known[gt] = (uint64_t)kg, gt = P.cst((u128)kg, 1);
                                if (ke >= 0) {
                                    setr(i, Val((uint64_t)(L ? kl == 1 : G ? kg == 1 : Le ? (ke == 1 || kl == 1) : Ge ? (ke == 1 || kg == 1) : Eq ? ke == 1 : ke != 1)));
                                    if (Eq || !(L || G || Le || Ge) || ke == 1) continue;
                                }
                                r = L ? lt : G ? gt : Le ? P.bnot(gt) : Ge ? P.bnot(lt) : Eq ? P.bin(O_FOEQ, u, v) : P.bnot(P.bin(O_FOEQ, u, v));
                            }
                            setr(i, simp(mkv(r)));
                            continue;
                        }
                    }
                }
                switch (pr) {
                    case CmpInst::FCMP_FALSE: r = P.cst(0, 1); break;
                    case CmpInst::FCMP_TRUE: r = P.cst(1, 1); break;
                    case CmpInst::FCMP_OEQ: r = oeq(); break;
                    case CmpInst::FCMP_OGT: r = olt(y, x); break;
                    case CmpInst::FCMP_OGE: r = ole(y, x); break;
                    case CmpInst::FCMP_OLT: r = olt(x, y); break;
                    case CmpInst::FCMP_OLE: r = ole(x, y); break;
                    case CmpInst::FCMP_ONE: r = P.bin(O_OR, olt(x, y), olt(y, x)); break;
                    case CmpInst::FCMP_ORD: r = P.bnot(uno()); break;
                    case CmpInst::FCMP_UNO: r = uno(); break;
                    case CmpInst::FCMP_UEQ: r = P.bin(O_OR, uno(), oeq()); break;
                    case CmpInst::FCMP_UGT: r = P.bnot(ole(x, y)); break;
                    case CmpInst::FCMP_UGE: r = P.bnot(olt(x, y)); break;
                    case CmpInst::FCMP_ULT: r = P.bnot(ole(y, x)); break;
                    case CmpInst::FCMP_ULE: r = P.bnot(olt(y, x)); break;
                    default: r = P.bnot(oeq()); break; // UNE
                }
                setr(i, simp(mkv(r)));
            }
            f.pc++;
            break;
        }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr:
        case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt:
        case Instruction::FPTrunc: {
            for (size_t i = 0; i < I.res.size(); ++i) {
                Val a = get(I.ops[i]);
                unsigned rw = I.res[i].width;
                Node *r = nullptr;
                switch (I.op) {
                    case Instruction::ZExt:
                        if (a.conc() && rw <= 64) { setr(i, a); continue; }
                        r = P.zext(nd(a, w), rw);
                        break;
                    case Instruction::SExt:
                        if (a.conc() && rw <= 64) {
                            uint64_t v = (uint64_t)sgn(a.c, w);
                            if (rw < 64) v &= (1ull << rw) - 1;
                            setr(i, Val(v));
                            continue;
                        }
                        r = P.sext(nd(a, w), rw);
                        break;
                    case Instruction::Trunc: r = P.extract(nd(a, w), 0, rw); break;
                    case Instruction::PtrToInt: case Instruction::IntToPtr:
                        r = nd(a, w);
                        r = rw < r->width ? P.extract(r, 0, rw) : P.zext(r, rw);
                        break;
                    case Instruction::SIToFP: r = P.un(O_SITOFP, nd(a, w), rw); break;
                    case Instruction::UIToFP: r = P.un(O_UITOFP, nd(a, w), rw); break;
                    case Instruction::FPToSI: r = P.un(O_FPTOSI, nd(a, w), rw); break;
                    case Instruction::FPToUI: r = P.un(O_FPTOUI, nd(a, w), rw); break;
                    case Instruction::FPExt: r = P.un(O_FPEXT, nd(a, w), rw); break;
                    default: r = P.un(O_FPTRUNC, nd(a, w), rw); break;
                }
                setr(i, simp(mkv(r)));
            }
            f.pc++;
            break;
        }
        case Instruction::BitCast: {
            std::vector<Scalar> s0;
            flatten(I.I->getOperand(0)->getType(), 0, s0);
            if (s0.size() == I.res.size()) {
                std::vector<Val> v;
                for (size_t i = 0; i < I.res.size(); ++i) v.push_back(get(I.ops[i]));
                for (size_t i = 0; i < I.res.size(); ++i) setr(i, v[i]);
            } else {
                // vector <-> scalar
                Node *all = nullptr;
                for (size_t i = 0; i < s0.size(); ++i) {
                    Node *x = nd(get(I.ops[i]), s0[i].width);
                    all = all ? P.concat(x, all) : x;
                }
                unsigned off = 0;
                std::vector<Val> v;
                for (auto &rs : I.res) {
                    v.push_back(mkv(P.extract(all, off, rs.width)));
                    off += rs.width;
                }
                for (size_t i = 0; i < I.res.size(); ++i) setr(i, v[i]);
            }
            f.pc++;
            break;
        }
        case Instruction::Freeze: {
            std::vector<Val> v;
            for (size_t i = 0; i < I.res.size(); ++i) v.push_back(get(I.ops[i]));
            for (size_t i = 0; i < I.res.size(); ++i) setr(i, v[i]);
            f.pc++;
            break;
        }
        case Instruction::Select: {
            size_t n = I.res.size();
            size_t cn = I.opn[0];
            std::vector<Val> rs(n);
            for (size_t i = 0; i < n; ++i) {
                Val c = get(I.ops[cn == 1 ? 0 : i]);
                Val a = get(I.ops[cn + i]), b = get(I.ops[cn + n + i]);
                if (c.conc()) rs[i] = c.c ? a : b;
                else if (a.conc() && b.conc() && a.c == b.c) rs[i] = a;
                else rs[i] = simp(mkv(P.ite(c.n, nd(a, I.res[i].width), nd(b, I.res[i].width))));
            }
            for (size_t i = 0; i < n; ++i) setr(i, rs[i]);
            f.pc++;
            break;
        }
        case Instruction::GetElementPtr: {
            Val b = get(I.ops[0]);
            bool conc = b.conc();
            uint64_t acc = b.c + I.imm;
            Node *sn = nullptr;
            if (!conc) {
                sn = P.bin(O_ADD, b.n, P.cst(I.imm, 64));
                acc = 0;
            }
            for (auto &g : I.gep) {
                Val x = get(g.first);
                if (x.conc()) {
                    uint64_t d = (uint64_t)(sgn(x.c, g.second.first) * g.second.second);
                    if (sn) sn = P.bin(O_ADD, sn, P.cst(d, 64));
                    else acc += d;
                } else {
                    Node *y = g.second.first < 64 ? P.sext(x.n, 64) : g.second.first > 64 ? P.extract(x.n, 0, 64) : x.n;
                    y = P.bin(O_MUL, y, P.cst((u128)(uint64_t)g.second.second, 64));
                    if (!sn) sn = P.cst(acc, 64);
                    sn = P.bin(O_ADD, y, sn);
                }
            }
            setr(0, sn ? simp(mkv(sn)) : Val(acc));
            f.pc++;
            break;
        }
        case Instruction::Alloca: {
            uint64_t cnt = concretize(get(I.ops[0]), 64);
            uint64_t a = alloc(I.imm * cnt, 1, "stack");
            cs->st.back().allocas.push_back((uint32_t)((a >> OSHIFT) - 16));
            setr(0, Val(a));
            cs->st.back().pc++;
            break;
        }
        case Instruction::Load: {
            Val p = get(I.ops[0]);
            size_t n = I.res.size();
            std::vector<Val> v(n);
            for (size_t i = 0; i < n; ++i) {
                Val q = p;
                if (I.res[i].off) q = p.conc() ? Val(p.c + I.res[i].off) : mkv(P.bin(O_ADD, p.n, P.cst(I.res[i].off, 64)));
                v[i] = load(q, I.res[i].width);
            }
            for (size_t i = 0; i < n; ++i) setr(i, v[i]);
            cs->st.back().pc++;
            break;
        }
        case Instruction::Store: {
            auto *T = I.I->getOperand(0)->getType();
            std::vector<Scalar> s;
            flatten(T, 0, s);
            Val p = get(I.ops[s.size()]);
            if (s.size() > 1 && !p.conc()) p = Val(concretize(p, 64));
            for (size_t i = 0; i < s.size(); ++i) {
                Val q = p;
                if (s[i].off) q = p.conc() ? Val(p.c + s[i].off) : mkv(P.bin(O_ADD, p.n, P.cst(s[i].off, 64)));
                store(q, get(I.ops[i]), s[i].width);
            }
            cs->st.back().pc++;
            break;
        }
        case Instruction::AtomicRMW: {
            auto *a = cast<AtomicRMWInst>(I.I);
            Val p = Val(concretize(get(I.ops[0]), 64)), v = get(I.ops[1]);
            unsigned rw = I.res[0].width;
            Val old = load(p, rw);
            Node *o = nd(old, rw), *x = nd(v, rw), *n;
            switch (a->getOperation()) {
                case AtomicRMWInst::Xchg: n = x; break;
                case AtomicRMWInst::Add: n = P.bin(O_ADD, o, x); break;
                case AtomicRMWInst::Sub: n = P.bin(O_SUB, o, x); break;
                case AtomicRMWInst::And: n = P.bin(O_AND, o, x); break;
                case AtomicRMWInst::Or: n = P.bin(O_OR, o, x); break;
                default: throw EngineError{"atomicrmw"};
            }
            store(p, mkv(n), rw);
            setr(0, old);
            cs->st.back().pc++;
            break;
        }
        case Instruction::AtomicCmpXchg: {
            Val p = Val(concretize(get(I.ops[0]), 64)), c = get(I.ops[1]), v = get(I.ops[2]);
            unsigned rw = I.res[0].width;
            Val old = load(p, rw);
            Node *e = P.bin(O_EQ, nd(old, rw), nd(c, rw));
            store(p, mkv(P.ite(e, nd(v, rw), nd(old, rw))), rw);
            setr(0, old);
            setr(1, mkv(e));
            cs->st.back().pc++;
            break;
        }
        case Instruction::Fence: f.pc++; break;
        case Instruction::ExtractValue: {
            std::vector<Val> v;
            for (size_t i = 0; i < I.res.size(); ++i) v.push_back(get(I.ops[I.imm + i]));
            for (size_t i = 0; i < I.res.size(); ++i) setr(i, v[i]);
            f.pc++;
            break;
        }
        case Instruction::InsertValue: {
            std::vector<Val> v;
            for (size_t i = 0; i < I.opn[0]; ++i) v.push_back(get(I.ops[i]));
            for (size_t i = 0; i < I.opn[1]; ++i) v[I.imm + i] = get(I.ops[I.opn[0] + i]);
            for (size_t i = 0; i < v.size(); ++i) setr(i, v[i]);
            f.pc++;
            break;
        }
        case Instruction::ExtractElement: {
            uint64_t ix = concretize(get(I.ops[I.opn[0]]), 64);
            setr(0, get(I.ops[ix]));
            cs->st.back().pc++;
            break;
        }
        case Instruction::InsertElement: {
            uint64_t ix = concretize(get(I.ops[I.opn[0] + 1]), 64);
            std::vector<Val> v;
            for (size_t i = 0; i < I.opn[0]; ++i) v.push_back(get(I.ops[i]));
            v[ix] = get(I.ops[I.opn[0]]);
            for (size_t i = 0; i < v.size(); ++i) setr(i, v[i]);
            cs->st.back().pc++;
            break;
        }
        case Instruction::ShuffleVector: {
            auto *sv = cast<ShuffleVectorInst>(I.I);
            auto mask = sv->getShuffleMask();
            std::vector<Val> v;
            for (int m : mask) v.push_back(m < 0 ? Val(0) : get(I.ops[(size_t)m]));
            for (size_t i = 0; i < v.size(); ++i) setr(i, v[i]);
            f.pc++;
            break;
        }
        case Instruction::Br: {
            if (I.edges.size() == 1) {
                gotoEdge(I.edges[0]);
                break;
            }
            Val c = get(I.ops[0]);
            bool t = c.conc() ? (c.c & 1) : decide(c.n);
            gotoEdge(I.edges[t ? 0 : 1]);
            break;
        }
        case Instruction::Switch: {
            Val c = get(I.ops[0]);
            if (c.conc()) {
                unsigned e = 0;
                for (auto &k : I.cases)
                    if ((uint64_t)k.first == c.c) { e = k.second; break; }
                gotoEdge(I.edges[e]);
            } else {
                unsigned e = 0;
                for (auto &k : I.cases)
                    if (decide(P.bin(O_EQ, c.n, P.cst(k.first, w)))) { e = k.second; break; }
                gotoEdge(I.edges[e]);
            }
            break;
        }
        case Instruction::Ret: {
            std::vector<Val> rv;
            for (auto &o : I.ops) rv.push_back(get(o));
            doReturn(std::move(rv));
            break;
        }
        case Instruction::Unreachable:
            violation("unreachable", "unreachable code executed (undefined behaviour)", nullptr);
            throw PathEnd{"unreachable"};
        case Instruction::Resume: {
            uint64_t obj = concretize(get(I.ops[0]), 64);
            uint64_t ti = cs->exctype[obj];
            popFrame();
            if (cs->st.empty()) {
                violation("uncaught", "uncaught exception of type " + demangle(tinfoName[ti]), nullptr);
                throw PathEnd{"uncaught exception"};
            }
            unwind(obj, ti);
            break;
        }
        case Instruction::Call: case Instruction::Invoke: {
            if (I.intrin == -1) { // inline asm: only compiler barriers
                f.pc++;
                break;
            }
            const Function *F = I.callee;
            std::vector<Val> args(I.imm);
            for (size_t i = 0; i < I.imm; ++i) args[i] = get(I.ops[i]);
            if (!F) {
                Val fp = get(I.ops[I.imm]);
                uint64_t a = concretize(fp, 64);
                auto it = faddr.find(a);
                if (it == faddr.end()) {
                    violation("memory", a == 0 ? "call through a null function pointer" : "call through an invalid function pointer", nullptr);
                    throw PathEnd{"bad call"};
                }
                F = it->second;
            }
            if (!F->isIntrinsic()) {
                call(F, I, args);
                break;
            }
            // intrinsics
            unsigned rw = I.res.empty() ? 0 : I.res[0].width;
            auto one = [&](Val v) {
                cs->st.back().r[(size_t)I.dst] = simp(v);
            };
            auto adv = [&] {
                if (I.op == Instruction::Invoke) gotoEdge(I.edges[0]);
                else cs->st.back().pc++;
            };
            auto N = [&](size_t i) { return nd(args[i], i == 0 ? w : w); };
            switch (F->getIntrinsicID()) {
                case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
                case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing:
                case Intrinsic::stackrestore: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::invariant_end: case Intrinsic::prefetch:
                    break;
                case Intrinsic::invariant_start: case Intrinsic::stacksave: one(Val(0)); break;
                case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address:
                case Intrinsic::expect_with_probability:
                    one(args[0]);
                    break;
                case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
                    uint64_t n = concretize(args[2], 64);
                    if (n) {
                        uint64_t s = concretize(args[1], 64), d = concretize(args[0], 64);
                        copyBytes(d, s, n);
                    }
                    break;
                }
                case Intrinsic::memset: {
                    uint64_t n = concretize(args[2], 64);
                    if (n) {
                        uint64_t d = concretize(args[0], 64);
                        std::vector<Loc> ls;
                        resolve(Val(d), (unsigned)n, true, ls);
                        access(ls[0].idx, ls[0].off, (unsigned)n, true);
                        Obj *o = cs->mem.wr(ls[0].idx);
                        for (uint64_t i = 0; i < n; ++i) writeObj(o, ls[0].off + i, args[1], 8);
                    }
                    break;
                }
                case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
                    auto id = F->getIntrinsicID();
                    size_t nn = I.res.size();
                    std::vector<Val> rs;
                    for (size_t i = 0; i < nn; ++i) {
                        Node *a = nd(args[i], w), *b = nd(args[nn + i], w);
                        Node *lt = P.bin(id == Intrinsic::umax || id == Intrinsic::umin ? O_ULT : O_SLT, a, b);
                        rs.push_back(mkv(id == Intrinsic::umin || id == Intrinsic::smin ? P.ite(lt, a, b) : P.ite(lt, b, a)));
                    }
                    for (size_t i = 0; i < nn; ++i) setr(i, simp(rs[i]));
                    break;
                }
                case Intrinsic::abs: {
                    Node *a = N(0);
                    one(mkv(P.ite(P.bin(O_SLT, a, P.cst(0, w)), P.bin(O_SUB, P.cst(0, w), a), a)));
                    break;
                }
                case Intrinsic::uadd_sat: {
                    Node *a = N(0), *b = N(1), *s = P.bin(O_ADD, a, b);
                    one(mkv(P.ite(P.bin(O_ULT, s, a), P.cst(maskw(w), w), s)));
                    break;
                }
                case Intrinsic::usub_sat: {
                    Node *a = N(0), *b = N(1);
                    one(mkv(P.ite(P.bin(O_ULT, a, b), P.cst(0, w), P.bin(O_SUB, a, b))));
                    break;
                }
                case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
                case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
                    auto id = F->getIntrinsicID();
                    bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
                    Op op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? O_ADD
                            : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? O_SUB : O_MUL;
                    unsigned ww = std::min(128u, w * 2);
                    Node *a = N(0), *b = N(1);
                    Node *A = sg ? P.sext(a, ww) : P.zext(a, ww), *B = sg ? P.sext(b, ww) : P.zext(b, ww);
                    Node *R = P.bin(op, A, B);
                    Node *r = P.bin(op, a, b);
                    Node *ov = P.bnot(P.bin(O_EQ, R, sg ? P.sext(r, ww) : P.zext(r, ww)));
                    setr(0, simp(mkv(r)));
                    setr(1, simp(mkv(ov)));
                    break;
                }
                case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: case Intrinsic::bitreverse: {
                    uint64_t v = concretize(args[0], w), r = 0;
                    if (F->getIntrinsicID() == Intrinsic::ctpop) r = (uint64_t)__builtin_popcountll(v);
                    else if (F->getIntrinsicID() == Intrinsic::ctlz) r = v ? (uint64_t)__builtin_clzll(v) - (64 - w) : w;
                    else if (F->getIntrinsicID() == Intrinsic::cttz) r = v ? (uint64_t)__builtin_ctzll(v) : w;
                    else if (F->getIntrinsicID() == Intrinsic::bswap) r = __builtin_bswap64(v) >> (64 - w);
                    else throw EngineError{"bitreverse"};
                    one(Val(r));
                    break;
                }
                case Intrinsic::fshl: case Intrinsic::fshr: {
                    Node *a = N(0), *b = N(1), *s = N(2);
                    Node *sm = P.bin(O_UREM, s, P.cst(w, w));
                    Node *inv = P.bin(O_SUB, P.cst(w, w), sm);
                    Node *r = F->getIntrinsicID() == Intrinsic::fshl ? P.bin(O_OR, P.bin(O_SHL, a, sm), P.bin(O_LSHR, b, inv))
                                                                     : P.bin(O_OR, P.bin(O_SHL, a, inv), P.bin(O_LSHR, b, sm));
                    one(mkv(r));
                    break;
                }
                case Intrinsic::fabs: {
                    std::vector<Val> rs;
                    for (size_t i = 0; i < I.res.size(); ++i) rs.push_back(mkv(P.bin(O_AND, nd(args[i], w), P.cst(maskw(w - 1), w))));
                    for (size_t i = 0; i < I.res.size(); ++i) setr(i, simp(rs[i]));
                    break;
                }
                case Intrinsic::copysign: {
                    Node *m = P.bin(O_AND, N(0), P.cst(maskw(w - 1), w));
                    Node *s = P.bin(O_AND, N(1), P.cst((u128)1 << (w - 1), w));
                    one(mkv(P.bin(O_OR, m, s)));
                    break;
                }
                case Intrinsic::sqrt: one(mkv(P.un(O_FSQRT, N(0), w))); break;
                case Intrinsic::fmuladd: case Intrinsic::fma: one(mkv(P.bin(O_FADD, P.bin(O_FMUL, N(0), N(1)), N(2)))); break;
                case Intrinsic::maxnum: case Intrinsic::minnum: {
                    Node *a = N(0), *b = N(1);
                    Node *lt = P.bin(O_FOLT, a, b);
                    Node *pick = F->getIntrinsicID() == Intrinsic::maxnum ? P.ite(lt, b, a) : P.ite(lt, a, b);
                    one(mkv(P.ite(P.bin(O_FUNO, a, a), b, P.ite(P.bin(O_FUNO, b, b), a, pick))));
                    break;
                }
                case Intrinsic::exp: case Intrinsic::log: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::pow: case Intrinsic::floor:
                case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::exp2: case Intrinsic::log2:
                case Intrinsic::log10: {
                    std::string nm = Intrinsic::getBaseName(F->getIntrinsicID()).str().substr(5);
                    std::vector<Node *> a;
                    for (size_t i = 0; i < args.size(); ++i) a.push_back(N(i));
                    if (w != 64) {
                        if (args[0].conc() || P.isc(args[0].n)) {
                            // float / long double of constants
                            Node *c0 = nd(args[0], w);
                            Node *d = P.un(O_FPTRUNC, c0, 64);
                            if (w == 32) d = P.un(O_FPEXT, c0, 64);
                            Node *r = P.uf(nm, 64, {d});
                            one(mkv(P.un(w == 32 ? O_FPTRUNC : O_FPEXT, r, w)));
                            break;
                        }
                        throw EngineError{"non-double libm intrinsic"};
                    }
                    one(mkv(P.uf(nm, 64, a)));
                    break;
                }
                case Intrinsic::powi: {
                    uint64_t e = concretize(args[1], 32);
                    Node *r = P.uf("pow", 64, {N(0), P.cst([&] { double d = (double)(int32_t)e; uint64_t x; memcpy(&x, &d, 8); return (u128)x; }(), 64)});
                    one(mkv(r));
                    break;
                }
                case Intrinsic::is_fpclass: {
                    uint64_t mask = concretize(args[1], 32);
                    Node *a = N(0);
                    if (w != 64) throw EngineError{"is.fpclass width"};
                    Node *absx = P.bin(O_AND, a, P.cst(maskw(63), 64));
                    Node *inf = P.cst(0x7ff0000000000000ull, 64);
                    Node *isnan = P.bin(O_FUNO, a, a), *isinf = P.bin(O_EQ, absx, inf);
                    if (realCmp && computed(a)) isnan = isinf = P.cst(0, 1);
                    Node *neg = P.extract(a, 63, 1);
                    Node *zero = P.bin(O_EQ, absx, P.cst(0, 64));
                    Node *sub = P.bin(O_AND, P.bnot(zero), P.bin(O_ULT, absx, P.cst(0x0010000000000000ull, 64)));
                    Node *norm = P.bin(O_AND, P.bin(O_ULE, P.cst(0x0010000000000000ull, 64), absx), P.bin(O_ULT, absx, inf));
                    Node *r = P.cst(0, 1);
                    auto addc = [&](Node *c) { r = P.bin(O_OR, r, c); };
                    if (mask & 3) addc(isnan);
                    auto sg = [&](unsigned nb, unsigned pb, Node *c) {
                        if ((mask & nb) && (mask & pb)) addc(c);
                        else if (mask & nb) addc(P.bin(O_AND, neg, c));
                        else if (mask & pb) addc(P.bin(O_AND, P.bnot(neg), c));
                    };
                    sg(4, 512, isinf);
                    sg(8, 256, norm);
                    sg(16, 128, sub);
                    sg(32, 64, zero);
                    one(mkv(r));
                    break;
                }
                case Intrinsic::objectsize: one(Val(~0ull)); break;
                case Intrinsic::is_constant: one(Val(0)); break;
                case Intrinsic::trap: case Intrinsic::ubsantrap:
                    violation("abort", "trap", nullptr);
                    throw PathEnd{"trap"};
                case Intrinsic::eh_typeid_for: {
                    uint64_t a = args[0].c;
                    one(Val(a ? (a >> OSHIFT) & 0xffffffffu : 1));
                    break;
                }
                case Intrinsic::vector_reduce_fadd: {
                    Node *r = nd(args[0], w);
                    for (size_t i = 1; i < args.size(); ++i) r = P.bin(O_FADD, r, nd(args[i], w));
                    one(mkv(r));
                    break;
                }
                default:
                    throw EngineError{"unsupported intrinsic " + F->getName().str()};
            }
            (void)rw;
            adv();
            break;
        }
        default: throw EngineError{std::string("unsupported instruction ") + I.I->getOpcodeName()};
    }
}

// ---------------------------------------------------------------------------------------------- run

void Exec::run(const std::string &entry)
{
    auto init = std::make_unique<State>();
    cs = init.get();
    setup = true;
    static const std::map<std::string, std::vector<std::string>> stdb = {
        {"_ZTISt9exception", {}},
        {"_ZTISt9bad_alloc", {"_ZTISt9exception"}},
        {"_ZTISt20bad_array_new_length", {"_ZTISt9bad_alloc"}},
        {"_ZTISt8bad_cast", {"_ZTISt9exception"}},
        {"_ZTISt10bad_typeid", {"_ZTISt9exception"}},
        {"_ZTISt13bad_exception", {"_ZTISt9exception"}},
        {"_ZTISt17bad_function_call", {"_ZTISt9exception"}},
        {"_ZTISt11logic_error", {"_ZTISt9exception"}},
        {"_ZTISt16invalid_argument", {"_ZTISt11logic_error"}},
        {"_ZTISt12domain_error", {"_ZTISt11logic_error"}},
        {"_ZTISt12length_error", {"_ZTISt11logic_error"}},
        {"_ZTISt12out_of_range", {"_ZTISt11logic_error"}},
        {"_ZTISt13runtime_error", {"_ZTISt9exception"}},
        {"_ZTISt14overflow_error", {"_ZTISt13runtime_error"}},
        {"_ZTISt15underflow_error", {"_ZTISt13runtime_error"}},
        {"_ZTISt11range_error", {"_ZTISt13runtime_error"}},
        {"_ZTISt12system_error", {"_ZTISt13runtime_error"}}};
    tbases = stdb;
    try {
        // addresses
        for (auto &g : M->globals()) {
            uint64_t sz = g.getValueType()->isSized() ? DL.getTypeAllocSize(g.getValueType()) : 8;
            bool ext = g.isDeclaration();
            if (ext) sz = std::max<uint64_t>(sz, 512);
            gaddr[&g] = alloc(std::max<uint64_t>(sz, 1), 0, g.getName().str(), true);
        }
        for (auto &F : *M) globalAddr(&F);
        for (auto &g : M->globals()) {
            std::string n = g.getName().str();
            if (!g.isDeclaration()) initGlobal(g.getInitializer(), gaddr[&g]);
            if (n.compare(0, 4, "_ZTI") == 0) {
                tinfoByName[n] = gaddr[&g];
                tinfoName[gaddr[&g]] = n;
                if (g.isDeclaration()) { // of the C++ library: a fundamental type
                    std::string t = n.substr(4);
                    uint64_t a = alloc(t.size() + 1, 0, n + ".name", true);
                    for (size_t i = 0; i <= t.size(); ++i) store(Val(a + i), Val((uint64_t)(i < t.size() ? (unsigned char)t[i] : 0)), 8);
                    store(Val(gaddr[&g] + 8), Val(a), 64);
                }
                if (!g.isDeclaration()) {
                    std::vector<std::string> bases;
                    if (auto *cs_ = dyn_cast<ConstantStruct>(g.getInitializer())) {
                        for (unsigned i = 2; i < cs_->getNumOperands(); ++i) {
                            auto *v = cs_->getOperand(i)->stripPointerCasts();
                            if (auto *gv = dyn_cast<GlobalVariable>(v)) bases.push_back(gv->getName().str());
                        }
                    }
                    tbases[n] = bases;
                }
            }
        }
        for (auto &g : M->globals())
            if (g.isConstant() && !g.isDeclaration()) cs->mem.wr((uint32_t)((gaddr[&g] >> OSHIFT) - 16))->ro = true;
        // static initialisers, in priority order
        std::vector<std::pair<uint64_t, const Function *>> ctors;
        if (auto *g = M->getGlobalVariable("llvm.global_ctors")) {
            if (auto *arr = dyn_cast<ConstantArray>(g->getInitializer()))
                for (auto &o : arr->operands()) {
                    auto *s = cast<ConstantStruct>(o);
                    auto *f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts());
                    if (f) ctors.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), f});
                }
        }
        std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
        for (auto &c : ctors) {
            std::vector<Val> none;
            pushFrame(prep(c.second), none, nullptr);
            try {
                while (true) step();
            } catch (PathEnd &e) {
                if (e.why != "done") throw EngineError{"static initialiser ended: " + e.why};
            }
            if (!work.empty()) throw EngineError{"fork in static initialiser"};
            cs->st.clear();
        }
        setup = false;
        const Function *E = M->getFunction(entry);
        if (!E) throw EngineError{"no entry function " + entry};
        std::vector<Val> none;
        pushFrame(prep(E), none, nullptr);
    } catch (EngineError &e) {
        error = e.msg + (cs->st.empty() ? "" : " @ " + curLoc());
        return;
    }
    work.push_back(std::move(init));
    while (!work.empty()) {
        if (paths >= maxPaths || steps >= maxSteps || outOfMemory() || (deadline && nowt() > deadline)) {
            complete = false;
            break;
        }
        std::unique_ptr<State> s = std::move(work.back());
        work.pop_back();
        cs = s.get();
        try {
            uint64_t k = 0;
            while (true) {
                step();
                if (cs->steps > maxPathSteps) {
                    violation("nontermination", "path exceeded the step bound (" + std::to_string(maxPathSteps) + " instructions)", nullptr);
                    throw PathEnd{"step bound"};
                }
                if ((++k & 0xfff) == 0 && deadline && nowt() > deadline) {
                    complete = false;
                    throw PathEnd{"deadline"};
                }
            }
        } catch (PathEnd &e) {
            endreasons[e.why]++;
            if (e.why == "done") paths++;
            else killed++;
        } catch (EngineError &e) {
            error = e.msg + " @ " + curLoc();
            complete = false;
            return;
        } catch (std::string &e) {
            error = e + " @ " + curLoc();
            complete = false;
            return;
        }
    }
}
