#include "expr.hpp"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <functional>

Pool P;
SolverStats SS;

static inline double d64(u128 v)
{
    uint64_t x = (uint64_t)v;
    double d;
    memcpy(&d, &x, 8);
    return d;
}
static inline u128 b64(double d)
{
    uint64_t x;
    memcpy(&x, &d, 8);
    return x;
}
static inline float f32(u128 v)
{
    uint32_t x = (uint32_t)v;
    float d;
    memcpy(&d, &x, 4);
    return d;
}
static inline u128 b32(float d)
{
    uint32_t x;
    memcpy(&x, &d, 4);
    return x;
}
static inline long double ld80(u128 v)
{
    long double d = 0;
    memcpy(&d, &v, 10);
    return d;
}
static inline u128 b80(long double d)
{
    u128 v = 0;
    memcpy(&v, &d, 10);
    return v;
}

static inline __int128 sx(u128 v, unsigned w)
{
    if (w >= 128) return (__int128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (__int128)((v ^ m) - m);
}

Pool::Pool() {}

bool Pool::E::operator()(const Node *a, const Node *b) const
{
    if (a->op != b->op || a->width != b->width || a->nk != b->nk || a->val != b->val) return false;
    for (int i = 0; i < a->nk && i < 3; ++i)
        if (a->k[i] != b->k[i]) return false;
    if ((a->more != nullptr) != (b->more != nullptr)) return false;
    if (a->more && *a->more != *b->more) return false;
    return true;
}

Node *Pool::intern(Node &t)
{
    size_t h = (size_t)t.op * 1000003u + t.width * 7919u + (size_t)(uint64_t)t.val * 0x9E3779B97F4A7C15ull
               + (size_t)(uint64_t)(t.val >> 64);
    for (int i = 0; !t.more && i < t.nk && i < 3; ++i) h = (h ^ (size_t)(t.k[i]->id + 1) * 0xff51afd7ed558ccdull) * 31 + (h >> 29);
    if (t.more)
        for (auto *n : *t.more) h = (h ^ (size_t)(n->id + 1) * 0xff51afd7ed558ccdull) * 31 + (h >> 29);
    t.hash = h;
    auto it = tab.find(&t);
    if (it != tab.end()) return *it;
    Node *n = new Node(t);
    if (t.more) n->more = new std::vector<Node *>(*t.more);
    n->id = count++;
    tab.insert(n);
    return n;
}

Node *Pool::mk(Op op, unsigned w, std::initializer_list<Node *> kids, u128 val)
{
    Node t;
    t.op = op;
    t.width = (uint16_t)w;
    t.val = val;
    t.nk = 0;
    t.more = nullptr;
    t.k[0] = t.k[1] = t.k[2] = nullptr;
    for (auto *x : kids) t.k[t.nk++] = x;
    return intern(t);
}
Node *Pool::cst(u128 v, unsigned w) { return mk(O_CONST, w, {}, v & maskw(w)); }
Node *Pool::var(const std::string &name, unsigned w, bool fp, bool ranged, uint64_t lo, uint64_t hi)
{
    uint32_t i = (uint32_t)vars.size();
    vars.push_back({name, w, fp, ranged, lo, hi, nullptr});
    Node *n = mk(O_VAR, w, {}, i);
    vars[i].node = n;
    return n;
}
Node *Pool::uf(const std::string &name, unsigned w, const std::vector<Node *> &args)
{
    auto it = ufidx.find(name);
    uint32_t i;
    if (it == ufidx.end()) {
        i = (uint32_t)ufs.size();
        ufs.push_back({name, w});
        ufidx[name] = i;
    } else
        i = it->second;
    // constant folding of known functions
    bool allc = true;
    for (auto *a : args) allc = allc && isc(a);
    if (allc && w == 64) {
        std::vector<double> da;
        for (auto *a : args) da.push_back(d64(a->val));
        bool known;
        double r = ufEval(name, da, known);
        if (known) return cst(b64(r), 64);
    }
    // rounding to an integer what is one already
    if (args.size() == 1 && w == 64 && (name == "floor" || name == "ceil" || name == "trunc" || name == "rint" || name == "nearbyint" || name == "round")) {
        std::function<bool(Node *, int)> integral = [&](Node *a, int d) -> bool {
            if (isc(a)) return d64(a->val) == std::floor(d64(a->val)) && !std::isinf(d64(a->val));
            if (a->op == O_UITOFP || a->op == O_SITOFP) return a->k[0]->width <= 32;
            return a->op == O_ITE && d > 0 && integral(a->k[1], d - 1) && integral(a->k[2], d - 1);
        };
        if (integral(args[0], 8)) return args[0];
    }
    Node t;
    t.op = O_UF;
    t.width = (uint16_t)w;
    t.val = i;
    t.nk = (uint8_t)args.size();
    t.k[0] = t.k[1] = t.k[2] = nullptr;
    std::vector<Node *> m(args);
    t.more = nullptr;
    if (args.size() > 3)
        t.more = &m;
    else
        for (size_t j = 0; j < args.size(); ++j) t.k[j] = args[j];
    return intern(t);
}

bool Pool::fold(Op op, unsigned w, const u128 *v, const unsigned *kw, unsigned nk, u128 aux, u128 &out)
{
    u128 m = maskw(w);
    switch (op) {
        case O_ADD: out = (v[0] + v[1]) & m; return true;
        case O_SUB: out = (v[0] - v[1]) & m; return true;
        case O_MUL: out = (v[0] * v[1]) & m; return true;
        case O_UDIV: if (v[1] == 0) return false; out = v[0] / v[1]; return true;
        case O_UREM: if (v[1] == 0) return false; out = v[0] % v[1]; return true;
        case O_SDIV: {
            if (v[1] == 0) return false;
            __int128 a = sx(v[0], w), b = sx(v[1], w);
            out = (u128)(a / b) & m;
            return true;
        }
        case O_SREM: {
            if (v[1] == 0) return false;
            __int128 a = sx(v[0], w), b = sx(v[1], w);
            out = (u128)(a % b) & m;
            return true;
        }
        case O_AND: out = v[0] & v[1]; return true;
        case O_OR: out = v[0] | v[1]; return true;
        case O_XOR: out = (v[0] ^ v[1]) & m; return true;
        case O_SHL: out = v[1] >= w ? 0 : (v[0] << (unsigned)v[1]) & m; return true;
        case O_LSHR: out = v[1] >= w ? 0 : (v[0] >> (unsigned)v[1]); return true;
        case O_ASHR: {
            __int128 a = sx(v[0], w);
            unsigned s = v[1] >= w ? w - 1 : (unsigned)v[1];
            out = (u128)(a >> s) & m;
            return true;
        }
        case O_EQ: out = v[0] == v[1]; return true;
        case O_ULT: out = v[0] < v[1]; return true;
        case O_ULE: out = v[0] <= v[1]; return true;
        case O_SLT: out = sx(v[0], kw[0]) < sx(v[1], kw[1]); return true;
        case O_SLE: out = sx(v[0], kw[0]) <= sx(v[1], kw[1]); return true;
        case O_ITE: out = v[0] ? v[1] : v[2]; return true;
        case O_ZEXT: out = v[0]; return true;
        case O_SEXT: out = (u128)sx(v[0], kw[0]) & m; return true;
        case O_EXTRACT: out = (v[0] >> (unsigned)aux) & m; return true;
        case O_CONCAT: out = ((v[0] << kw[1]) | v[1]) & m; return true;
        case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FREM: {
            if (w == 64) {
                double a = d64(v[0]), b = d64(v[1]), r;
                r = op == O_FADD ? a + b : op == O_FSUB ? a - b : op == O_FMUL ? a * b : op == O_FDIV ? a / b : fmod(a, b);
                out = b64(r);
                return true;
            }
            if (w == 32) {
                float a = f32(v[0]), b = f32(v[1]), r;
                r = op == O_FADD ? a + b : op == O_FSUB ? a - b : op == O_FMUL ? a * b : op == O_FDIV ? a / b : fmodf(a, b);
                out = b32(r);
                return true;
            }
            if (w == 80) {
                long double a = ld80(v[0]), b = ld80(v[1]), r;
                r = op == O_FADD ? a + b : op == O_FSUB ? a - b : op == O_FMUL ? a * b : op == O_FDIV ? a / b : fmodl(a, b);
                out = b80(r);
                return true;
            }
            return false;
        }
        case O_FSQRT:
            if (w == 64) { out = b64(sqrt(d64(v[0]))); return true; }
            if (w == 32) { out = b32(sqrtf(f32(v[0]))); return true; }
            if (w == 80) { out = b80(sqrtl(ld80(v[0]))); return true; }
            return false;
        case O_FOLT: case O_FOLE: case O_FOEQ: case O_FUNO: {
            long double a, b;
            if (kw[0] == 64) a = d64(v[0]), b = d64(v[1]);
            else if (kw[0] == 32) a = f32(v[0]), b = f32(v[1]);
            else a = ld80(v[0]), b = ld80(v[1]);
            out = op == O_FOLT ? a < b : op == O_FOLE ? a <= b : op == O_FOEQ ? a == b : (a != a || b != b);
            return true;
        }
        case O_SITOFP: {
            __int128 a = sx(v[0], kw[0]);
            if (w == 64) out = b64((double)a);
            else if (w == 32) out = b32((float)a);
            else out = b80((long double)a);
            return true;
        }
        case O_UITOFP:
            if (w == 64) out = b64((double)v[0]);
            else if (w == 32) out = b32((float)v[0]);
            else out = b80((long double)v[0]);
            return true;
        case O_FPTOSI: case O_FPTOUI: {
            long double a = kw[0] == 64 ? d64(v[0]) : kw[0] == 32 ? f32(v[0]) : ld80(v[0]);
            if (!(a == a) || a > 1e30L || a < -1e30L) { out = op == O_FPTOSI ? ((u128)1 << (w - 1)) : 0; return true; }
            out = (u128)(__int128)a & m;
            return true;
        }
        case O_FPEXT: case O_FPTRUNC: {
            long double a = kw[0] == 64 ? (long double)d64(v[0]) : kw[0] == 32 ? (long double)f32(v[0]) : ld80(v[0]);
            if (w == 64) out = b64((double)a);
            else if (w == 32) out = b32((float)a);
            else out = b80(a);
            return true;
        }
        default: return false;
    }
}

static const size_t VLIM = 256;

const VSet *Pool::valset(Node *a)
{
    auto it = vsets.find(a);
    if (it != vsets.end()) return it->second.get();
    std::unique_ptr<VSet> r;
    if (a->width > 64) {
        vsets[a] = nullptr;
        return nullptr;
    }
    switch (a->op) {
        case O_CONST: r.reset(new VSet{(uint64_t)a->val}); break;
        case O_VAR: {
            auto &vi = vars[(size_t)a->val];
            if (vi.ranged && vi.hi - vi.lo < VLIM) {
                r.reset(new VSet);
                for (uint64_t x = vi.lo;; ++x) {
                    r->push_back(x & (uint64_t)maskw(a->width));
                    if (x == vi.hi) break;
                }
                std::sort(r->begin(), r->end());
            } else if (a->width == 1)
                r.reset(new VSet{0, 1});
            break;
        }
        case O_UF: break;
        case O_ITE: {
            auto *x = valset(a->k[1]);
            if (!x) break;
            auto *y = valset(a->k[2]);
            if (!y) break;
            VSet u;
            std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(u));
            if (u.size() <= VLIM) r.reset(new VSet(u));
            break;
        }
        default: {
            const VSet *ks[3];
            bool ok = true;
            size_t prod = 1;
            for (int i = 0; i < a->nk && ok; ++i) {
                if (a->k[i]->width > 64) { ok = false; break; }
                ks[i] = valset(a->k[i]);
                if (!ks[i]) ok = false;
                else prod *= ks[i]->size();
                if (prod > 65536) ok = false;
            }
            if (ok) {
                std::set<uint64_t> s;
                unsigned kw[3] = {};
                for (int i = 0; i < a->nk; ++i) kw[i] = a->k[i]->width;
                u128 v[3];
                std::function<bool(int)> rec = [&](int i) -> bool {
                    if (i == a->nk) {
                        u128 o;
                        if (!fold(a->op, a->width, v, kw, a->nk, a->val, o)) return true; // division by zero: infeasible
                        s.insert((uint64_t)o);
                        return s.size() <= VLIM;
                    }
                    for (auto x : *ks[i]) {
                        v[i] = x;
                        if (!rec(i + 1)) return false;
                    }
                    return true;
                };
                if (rec(0) && !s.empty()) r.reset(new VSet(s.begin(), s.end()));
            }
            if (!r && a->width == 1) r.reset(new VSet{0, 1});
        }
    }
    auto *p = r.get();
    vsets[a] = std::move(r);
    return p;
}

const std::vector<uint32_t> &Pool::support(Node *a)
{
    auto it = supp.find(a);
    if (it != supp.end()) return *it->second;
    std::set<uint32_t> s;
    if (a->op == O_VAR)
        s.insert((uint32_t)a->val);
    else if (a->more) {
        for (auto *k : *a->more) {
            auto &x = support(k);
            s.insert(x.begin(), x.end());
        }
    } else
        for (int i = 0; i < a->nk; ++i) {
            auto &x = support(a->k[i]);
            s.insert(x.begin(), x.end());
        }
    auto *v = new std::vector<uint32_t>(s.begin(), s.end());
    supp[a].reset(v);
    return *v;
}

Node *Pool::bnot(Node *a)
{
    if (isc(a)) return cst(!a->val, 1);
    if (a->op == O_XOR && isc(a->k[1]) && a->k[1]->val == 1) return a->k[0];
    return mk(O_XOR, 1, {a, cst(1, 1)});
}

Node *Pool::ite(Node *c, Node *a, Node *b)
{
    if (isc(c)) return c->val ? a : b;
    if (a == b) return a;
    if (c->op == O_XOR && c->width == 1 && isc(c->k[1]) && c->k[1]->val == 1) return ite(c->k[0], b, a);
    if (a->width == 1) {
        if (isc(a) && isc(b)) return a->val ? c : bnot(c);
        if (isc(a)) return a->val ? bin(O_OR, c, b) : bin(O_AND, bnot(c), b);
        if (isc(b)) return b->val ? bin(O_OR, bnot(c), a) : bin(O_AND, c, a);
    }
    if (a->op == O_ITE && a->k[0] == c) a = a->k[1];
    if (b->op == O_ITE && b->k[0] == c) b = b->k[2];
    if (a == b) return a;
    return mk(O_ITE, a->width, {c, a, b});
}

Node *Pool::zext(Node *a, unsigned w)
{
    if (a->width == w) return a;
    if (isc(a)) return cst(a->val, w);
    if (a->op == O_ZEXT) return zext(a->k[0], w);
    if (a->op == O_ITE && (isc(a->k[1]) || isc(a->k[2]))) return ite(a->k[0], zext(a->k[1], w), zext(a->k[2], w));
    return mk(O_ZEXT, w, {a});
}
Node *Pool::sext(Node *a, unsigned w)
{
    if (a->width == w) return a;
    if (isc(a)) return cst((u128)sx(a->val, a->width), w);
    if (a->op == O_ZEXT && a->k[0]->width < a->width) return zext(a->k[0], w);
    auto *vs = valset(a);
    if (vs && (sx(vs->back(), a->width) >= 0)) return zext(a, w); // sorted unsigned: largest has no sign bit
    if (a->op == O_ITE && (isc(a->k[1]) || isc(a->k[2]))) return ite(a->k[0], sext(a->k[1], w), sext(a->k[2], w));
    return mk(O_SEXT, w, {a});
}
Node *Pool::extract(Node *a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->width) return a;
    if (isc(a)) return cst(a->val >> lo, w);
    if (a->op == O_EXTRACT) return extract(a->k[0], lo + (unsigned)a->val, w);
    if (a->op == O_ZEXT) {
        unsigned iw = a->k[0]->width;
        if (lo >= iw) return cst(0, w);
        if (lo + w <= iw) return extract(a->k[0], lo, w);
        if (lo == 0) return zext(a->k[0], w);
    }
    if (a->op == O_SEXT) {
        unsigned iw = a->k[0]->width;
        if (lo + w <= iw) return extract(a->k[0], lo, w);
        if (lo == 0) return sext(a->k[0], w);
    }
    if (a->op == O_CONCAT) {
        unsigned lw = a->k[1]->width;
        if (lo + w <= lw) return extract(a->k[1], lo, w);
        if (lo >= lw) return extract(a->k[0], lo - lw, w);
    }
    if (a->op == O_ITE) {
        if (isc(a->k[1]) || isc(a->k[2])) return ite(a->k[0], extract(a->k[1], lo, w), extract(a->k[2], lo, w));
    }
    if (lo == 0 && (a->op == O_ADD || a->op == O_SUB || a->op == O_MUL || a->op == O_AND || a->op == O_OR || a->op == O_XOR))
        return bin(a->op, extract(a->k[0], 0, w), extract(a->k[1], 0, w));
    return mk(O_EXTRACT, w, {a}, lo);
}
Node *Pool::concat(Node *hi, Node *lo)
{
    unsigned w = hi->width + lo->width;
    if (isc(hi) && isc(lo)) return cst((hi->val << lo->width) | lo->val, w);
    if (isc(hi) && hi->val == 0) return zext(lo, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0]
        && (unsigned)hi->val == (unsigned)lo->val + lo->width)
        return extract(hi->k[0], (unsigned)lo->val, w);
    if (hi->op == O_EXTRACT && hi->k[0] == lo && (unsigned)hi->val == lo->width) return extract(lo, 0, w);
    return mk(O_CONCAT, w, {hi, lo});
}

Node *Pool::un(Op op, Node *a, unsigned w)
{
    if (isc(a)) {
        u128 v[1] = {a->val}, o;
        unsigned kw[1] = {a->width};
        if (fold(op, w, v, kw, 1, 0, o)) return cst(o, w);
    }
    if (op == O_ZEXT) return zext(a, w);
    if (op == O_SEXT) return sext(a, w);
    if ((op == O_SITOFP) && w == 64) {
        // non-negative by value set or by zext -> uitofp
        if (a->op == O_ZEXT && a->k[0]->width < a->width) return un(O_UITOFP, a->k[0], w);
        if (a->op == O_SEXT) return un(O_SITOFP, a->k[0], w);
        auto *vs = valset(a);
        if (vs && sx(vs->back(), a->width) >= 0) return un(O_UITOFP, a, w);
    }
    if (op == O_UITOFP && a->op == O_ZEXT) return un(O_UITOFP, a->k[0], w);
    if (op == O_FPTOUI || op == O_FPTOSI) {
        // value exactly representable
        if (a->op == O_UITOFP && a->k[0]->width <= 32) {
            unsigned iw = a->k[0]->width;
            if (iw <= w) return zext(a->k[0], w);
            auto *vs = valset(a->k[0]);
            if (vs && (u128)vs->back() <= maskw(w - (op == O_FPTOSI))) return extract(a->k[0], 0, w);
        }
        if (a->op == O_SITOFP && a->k[0]->width <= 32 && op == O_FPTOSI && a->k[0]->width <= w) return sext(a->k[0], w);
    }
    if (op == O_FPTRUNC && a->op == O_FPEXT && a->k[0]->width == w) return a->k[0];
    return mk(op, w, {a});
}

static bool isNeg(Node *a)
{
    return a->op == O_XOR && a->width == 64 && P.isc(a->k[1]) && a->k[1]->val == ((u128)1 << 63);
}
static Node *fneg(Node *a) { return P.bin(O_XOR, a, P.cst((u128)1 << 63, 64)); }

static bool intLike(Node *a, Node *&r, __int128 &c, bool &isconst)
{
    // a double known to equal an integer: UITOFP/SITOFP of <=32 bit or an integral constant
    if (a->op == O_UITOFP && a->k[0]->width <= 32) {
        r = P.zext(a->k[0], 64);
        isconst = false;
        return true;
    }
    if (a->op == O_SITOFP && a->k[0]->width <= 32) {
        r = P.sext(a->k[0], 64);
        isconst = false;
        return true;
    }
    if (P.isc(a)) {
        double d = d64(a->val);
        if (d == d && std::fabs(d) < 9e15) {
            isconst = true;
            c = (__int128)std::floor(d);
            r = P.cst((u128)c, 64);
            return true;
        }
    }
    return false;
}

Node *Pool::bin(Op op, Node *a, Node *b)
{
    unsigned w = a->width;
    bool cmp = op >= O_EQ && op <= O_SLE;
    bool fcmp = op >= O_FOLT && op <= O_FUNO;
    unsigned rw = (cmp || fcmp) ? 1 : w;
    if (isc(a) && isc(b)) {
        u128 v[2] = {a->val, b->val}, o;
        unsigned kw[2] = {a->width, b->width};
        if (fold(op, rw, v, kw, 2, 0, o)) return cst(o, rw);
    }
    switch (op) {
        case O_ADD: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_EQ: case O_FADD: case O_FMUL: case O_FOEQ: case O_FUNO:
            if (isc(a) || (!isc(b) && a->id > b->id)) std::swap(a, b); // constants to the right
            break;
        default: break;
    }
    u128 m = maskw(w);
    switch (op) {
        case O_ADD:
            if (isc(b)) {
                if (b->val == 0) return a;
                if (a->op == O_ADD && isc(a->k[1])) return bin(O_ADD, a->k[0], cst(a->k[1]->val + b->val, w));
                if (a->op == O_ITE && (isc(a->k[1]) || isc(a->k[2])))
                    return ite(a->k[0], bin(O_ADD, a->k[1], b), bin(O_ADD, a->k[2], b));
            }
            if (a->op == O_ADD && isc(a->k[1])) return bin(O_ADD, bin(O_ADD, a->k[0], b), a->k[1]);
            if (b->op == O_ADD && isc(b->k[1])) return bin(O_ADD, bin(O_ADD, a, b->k[0]), b->k[1]);
            break;
        case O_SUB:
            if (isc(b)) return bin(O_ADD, a, cst((~b->val + 1) & m, w));
            if (a == b) return cst(0, w);
            // (x + c) - y, x-(y+c)
            if (a->op == O_ADD && isc(a->k[1])) return bin(O_ADD, bin(O_SUB, a->k[0], b), a->k[1]);
            if (b->op == O_ADD && isc(b->k[1])) return bin(O_ADD, bin(O_SUB, a, b->k[0]), cst((~b->k[1]->val + 1) & m, w));
            if (a->op == O_ADD && a->k[0] == b) return a->k[1];
            if (a->op == O_ADD && a->k[1] == b) return a->k[0];
            break;
        case O_MUL:
            if (isc(b)) {
                if (b->val == 0) return b;
                if (b->val == 1) return a;
                if (a->op == O_MUL && isc(a->k[1])) return bin(O_MUL, a->k[0], cst(a->k[1]->val * b->val, w));
                if (a->op == O_ADD && isc(a->k[1]))
                    return bin(O_ADD, bin(O_MUL, a->k[0], b), cst(a->k[1]->val * b->val, w));
                if (a->op == O_ITE && (isc(a->k[1]) || isc(a->k[2])))
                    return ite(a->k[0], bin(O_MUL, a->k[1], b), bin(O_MUL, a->k[2], b));
            }
            break;
        case O_UDIV: case O_SDIV:
            if (isc(b) && b->val == 1) return a;
            if (isc(b) && a->op == O_MUL && isc(a->k[1]) && a->k[1]->val % (b->val ? b->val : 1) == 0 && b->val) {
                auto *vs = valset(a->k[0]);
                if (vs && (u128)vs->back() * a->k[1]->val <= (m >> 1))
                    return bin(O_MUL, a->k[0], cst(a->k[1]->val / b->val, w));
            }
            break;
        case O_AND:
            if (a == b) return a;
            if (isc(b)) {
                if (b->val == 0) return b;
                if (b->val == m) return a;
                if (a->op == O_AND && isc(a->k[1])) return bin(O_AND, a->k[0], cst(a->k[1]->val & b->val, w));
                // low mask
                u128 c = b->val;
                if (c && ((c & (c + 1)) == 0)) {
                    unsigned nb = 0;
                    while (c) { nb++; c >>= 1; }
                    if (a->op == O_ZEXT && a->k[0]->width <= nb) return a;
                    if (a->op == O_ZEXT && a->k[0]->width > nb && w <= 64 && false) return a;
                }
            }
            if (w == 1) {
                if (bnot(a) == b) return cst(0, 1);
            }
            break;
        case O_OR:
            if (a == b) return a;
            if (isc(b)) {
                if (b->val == 0) return a;
                if (b->val == m) return b;
            }
            if (w == 1) {
                if (bnot(a) == b) return cst(1, 1);
            }
            // or of disjoint halves: zext(lo) | (zext(hi) << k)
            {
                Node *x = a, *y = b;
                for (int t = 0; t < 2; ++t, std::swap(x, y)) {
                    if (x->op == O_ZEXT && y->op == O_MUL && isc(y->k[1]) && y->k[0]->op == O_ZEXT
                        && y->k[1]->val == ((u128)1 << x->k[0]->width)
                        && y->k[0]->k[0]->width + x->k[0]->width <= w)
                        return zext(concat(y->k[0]->k[0], x->k[0]), w);
                }
            }
            break;
        case O_XOR:
            if (a == b) return cst(0, w);
            if (isc(b)) {
                if (b->val == 0) return a;
                if (a->op == O_XOR && isc(a->k[1])) return bin(O_XOR, a->k[0], cst(a->k[1]->val ^ b->val, w));
            }
            break;
        case O_SHL:
            if (isc(b)) {
                if (b->val == 0) return a;
                if (b->val >= w) return cst(0, w);
                return bin(O_MUL, a, cst((u128)1 << (unsigned)b->val, w));
            }
            break;
        case O_LSHR:
            if (isc(b)) {
                if (b->val == 0) return a;
                if (b->val >= w) return cst(0, w);
                if (w <= 128 && a->op != O_MUL) return zext(extract(a, (unsigned)b->val, w - (unsigned)b->val), w);
                if (a->op == O_MUL && isc(a->k[1])) {
                    u128 d = (u128)1 << (unsigned)b->val;
                    auto *vs = valset(a->k[0]);
                    if (vs && (u128)vs->back() * a->k[1]->val <= m && a->k[1]->val % d == 0)
                        return bin(O_MUL, a->k[0], cst(a->k[1]->val / d, w));
                }
            }
            break;
        case O_ASHR:
            if (isc(b)) {
                if (b->val == 0) return a;
                auto *vs = valset(a);
                if (vs && sx(vs->back(), w) >= 0) return bin(O_LSHR, a, b);
                if (a->op == O_MUL && isc(a->k[1])) {
                    u128 d = (u128)1 << (unsigned)b->val;
                    auto *vk = valset(a->k[0]);
                    if (vk && (u128)vk->back() * a->k[1]->val <= (m >> 1) && a->k[1]->val % d == 0)
                        return bin(O_MUL, a->k[0], cst(a->k[1]->val / d, w));
                }
            }
            break;
        case O_EQ:
            if (a == b) return cst(1, 1);
            if (isc(b)) {
                if (w == 1) return b->val ? a : bnot(a);
                if (a->op == O_ADD && isc(a->k[1])) return bin(O_EQ, a->k[0], cst(b->val - a->k[1]->val, w));
                if (a->op == O_XOR && isc(a->k[1])) return bin(O_EQ, a->k[0], cst(b->val ^ a->k[1]->val, w));
                if (a->op == O_ZEXT) {
                    if (b->val > maskw(a->k[0]->width)) return cst(0, 1);
                    return bin(O_EQ, a->k[0], cst(b->val, a->k[0]->width));
                }
                if (a->op == O_SEXT) {
                    u128 lo = b->val & maskw(a->k[0]->width);
                    if (((u128)sx(lo, a->k[0]->width) & m) != b->val) return cst(0, 1);
                    return bin(O_EQ, a->k[0], cst(lo, a->k[0]->width));
                }
                if (a->op == O_CONCAT) {
                    unsigned lw = a->k[1]->width;
                    return bin(O_AND, bin(O_EQ, a->k[1], cst(b->val, lw)), bin(O_EQ, a->k[0], cst(b->val >> lw, a->k[0]->width)));
                }
                if (a->op == O_ITE && (isc(a->k[1]) || isc(a->k[2])))
                    return ite(a->k[0], bin(O_EQ, a->k[1], b), bin(O_EQ, a->k[2], b));
                if (a->op == O_MUL && isc(a->k[1])) {
                    auto *vs = valset(a->k[0]);
                    if (vs && (u128)vs->back() * a->k[1]->val <= m) {
                        if (b->val % a->k[1]->val) return cst(0, 1);
                        return bin(O_EQ, a->k[0], cst(b->val / a->k[1]->val, w));
                    }
                }
                if ((a->op == O_UITOFP) && a->k[0]->width <= 32 && w == 64) {
                    double d = d64(b->val);
                    if (!(d >= 0 && d < 4294967296.0) || d != std::floor(d) || std::signbit(d)) return cst(0, 1);
                    return bin(O_EQ, a->k[0], cst((u128)d, a->k[0]->width));
                }
                auto *vs = valset(a);
                if (vs && w <= 64) {
                    if (!std::binary_search(vs->begin(), vs->end(), (uint64_t)b->val)) return cst(0, 1);
                    if (vs->size() == 1) return cst(1, 1);
                }
            } else {
                if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->width == b->k[0]->width) return bin(O_EQ, a->k[0], b->k[0]);
                if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->width == b->k[0]->width) return bin(O_EQ, a->k[0], b->k[0]);
                if (a->op == O_UITOFP && b->op == O_UITOFP && a->k[0]->width <= 32 && b->k[0]->width <= 32)
                    return bin(O_EQ, zext(a->k[0], 64), zext(b->k[0], 64));
                if (a->op == O_ADD && b->op == O_ADD && a->k[1] == b->k[1]) return bin(O_EQ, a->k[0], b->k[0]);
                if (a->op == O_MUL && b->op == O_MUL && a->k[1] == b->k[1] && isc(a->k[1]) && a->k[1]->val) {
                    auto *va = valset(a->k[0]), *vb = valset(b->k[0]);
                    if (va && vb && (u128)va->back() * a->k[1]->val <= m && (u128)vb->back() * a->k[1]->val <= m)
                        return bin(O_EQ, a->k[0], b->k[0]);
                }
            }
            break;
        case O_ULT: case O_ULE: case O_SLT: case O_SLE: {
            if (a == b) return cst(op == O_ULE || op == O_SLE, 1);
            if (op == O_ULT && isc(b) && b->val == 0) return cst(0, 1);
            if (op == O_ULT && isc(b) && b->val == 1) return bin(O_EQ, a, cst(0, w));
            if (op == O_ULE && isc(a) && a->val == 0) return cst(1, 1);
            if (op == O_ULT && isc(a) && a->val == 0) return bnot(bin(O_EQ, b, cst(0, w)));
            if (op == O_ULE && isc(b) && b->val == 0) return bin(O_EQ, a, b);
            auto *va = w <= 64 ? valset(a) : nullptr;
            auto *vb = va ? valset(b) : nullptr;
            if (va && vb) {
                // ranges
                if (op == O_ULT || op == O_ULE) {
                    u128 amax = va->back(), amin = va->front(), bmax = vb->back(), bmin = vb->front();
                    if (op == O_ULT) {
                        if (amax < bmin) return cst(1, 1);
                        if (amin >= bmax) return cst(0, 1);
                    } else {
                        if (amax <= bmin) return cst(1, 1);
                        if (amin > bmax) return cst(0, 1);
                    }
                } else {
                    __int128 amax = sx((*va)[0], w), amin = amax, bmax = sx((*vb)[0], w), bmin = bmax;
                    for (auto x : *va) { auto s = sx(x, w); amax = std::max(amax, s); amin = std::min(amin, s); }
                    for (auto x : *vb) { auto s = sx(x, w); bmax = std::max(bmax, s); bmin = std::min(bmin, s); }
                    if (op == O_SLT) {
                        if (amax < bmin) return cst(1, 1);
                        if (amin >= bmax) return cst(0, 1);
                    } else {
                        if (amax <= bmin) return cst(1, 1);
                        if (amin > bmax) return cst(0, 1);
                    }
                    if (amin >= 0 && bmin >= 0) return bin(op == O_SLT ? O_ULT : O_ULE, a, b);
                }
            }
            if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->width == b->k[0]->width)
                return bin((op == O_ULT || op == O_SLT) ? O_ULT : O_ULE, a->k[0], b->k[0]);
            if (a->op == O_ZEXT && isc(b) && (op == O_ULT || op == O_ULE)) {
                if (b->val > maskw(a->k[0]->width)) return cst(1, 1);
                return bin(op, a->k[0], cst(b->val, a->k[0]->width));
            }
            if (b->op == O_ZEXT && isc(a) && (op == O_ULT || op == O_ULE)) {
                if (a->val > maskw(b->k[0]->width)) return cst(0, 1);
                return bin(op, cst(a->val, b->k[0]->width), b->k[0]);
            }
            break;
        }
        case O_FSUB:
            if (w == 64) return bin(O_FADD, a, isc(b) ? cst(b->val ^ ((u128)1 << 63), 64) : fneg(b));
            break;
        case O_FADD:
            if (w == 64 && isc(b) && b->val == ((u128)1 << 63)) return a; // x + -0.0 == x
            break;
        case O_FMUL:
            if (w == 64) {
                if (isc(b) && d64(b->val) == 1.0) return a;
                if (isc(b) && d64(b->val) == -1.0) return fneg(a);
                if (isNeg(a)) return fneg(bin(O_FMUL, a->k[0], b));
                if (isNeg(b)) return fneg(bin(O_FMUL, a, b->k[0]));
                if (isc(b) && std::signbit(d64(b->val)) && d64(b->val) == d64(b->val))
                    return fneg(bin(O_FMUL, a, cst(b->val ^ ((u128)1 << 63), 64)));
            }
            break;
        case O_FDIV:
            if (w == 64) {
                if (isc(b) && d64(b->val) == 1.0) return a;
                if (isNeg(a)) return fneg(bin(O_FDIV, a->k[0], b));
                if (isNeg(b)) return fneg(bin(O_FDIV, a, b->k[0]));
            }
            break;
        case O_FOLT: case O_FOLE: case O_FOEQ: {
            Node *x, *y;
            __int128 cx, cy;
            bool kx, ky;
            if (w == 64 && intLike(a, x, cx, kx) && intLike(b, y, cy, ky)) {
                auto whole = [](Node *n) { double d = d64(n->val); return d == std::floor(d); };
                if (kx && !whole(a)) {
                    if (op == O_FOEQ) return cst(0, 1);
                    return bin(O_SLT, x, y); // floor(c) < y  (c non integral)
                }
                if (ky && !whole(b)) {
                    if (op == O_FOEQ) return cst(0, 1);
                    return bin(O_SLE, x, y);
                }
                return bin(op == O_FOLT ? O_SLT : op == O_FOLE ? O_SLE : O_EQ, x, y);
            }
            if (op == O_FOLT && a == b) return cst(0, 1);
            break;
        }
        case O_FUNO: {
            Node *x;
            __int128 c;
            bool k;
            if (w == 64) {
                if (a != b) {
                    // uno(a,b) = nan(a) | nan(b)
                    return bin(O_OR, bin(O_FUNO, a, a), bin(O_FUNO, b, b));
                }
                if (intLike(a, x, c, k) || a->op == O_UITOFP || a->op == O_SITOFP) return cst(0, 1);
                if (isNeg(a)) return bin(O_FUNO, a->k[0], a->k[0]);
            }
            break;
        }
        default: break;
    }
    if (cmp && w <= 64) {
        Node *r = mk(op, 1, {a, b});
        auto *vs = valset(r);
        if (vs && vs->size() == 1) return cst(vs->front(), 1);
        return r;
    }
    return mk(op, rw, {a, b});
}

static uint64_t splitmix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
static double symuf(const std::vector<double> &a)
{
    uint64_t h = 0x1234567;
    for (double d : a) {
        uint64_t b;
        memcpy(&b, &d, 8);
        h = splitmix(h ^ b);
    }
    return (double)(h >> 11) * (1.0 / 9007199254740992.0) * 4.0 - 2.0;
}
double ufEval(const std::string &n, const std::vector<double> &a, bool &known)
{
    known = true;
    if (n == "exp") return exp(a[0]);
    if (n == "log") return log(a[0]);
    if (n == "sin") return sin(a[0]);
    if (n == "cos") return cos(a[0]);
    if (n == "tan") return tan(a[0]);
    if (n == "tanh") return tanh(a[0]);
    if (n == "sinh") return sinh(a[0]);
    if (n == "cosh") return cosh(a[0]);
    if (n == "atan") return atan(a[0]);
    if (n == "asin") return asin(a[0]);
    if (n == "acos") return acos(a[0]);
    if (n == "pow") return pow(a[0], a[1]);
    if (n == "erf") return erf(a[0]);
    if (n == "cbrt") return cbrt(a[0]);
    if (n == "floor") return floor(a[0]);
    if (n == "ceil") return ceil(a[0]);
    if (n == "trunc") return trunc(a[0]);
    if (n == "round") return round(a[0]);
    if (n == "rint") return rint(a[0]);
    if (n == "exp2") return exp2(a[0]);
    if (n == "log2") return log2(a[0]);
    if (n == "log10") return log10(a[0]);
    if (n == "log1p") return log1p(a[0]);
    if (n == "expm1") return expm1(a[0]);
    if (n == "hypot") return hypot(a[0], a[1]);
    if (n == "fmod") return fmod(a[0], a[1]);
    if (n == "atan2") return atan2(a[0], a[1]);
    if (n.compare(0, 5, "symuf") == 0) return symuf(a);
    known = false;
    return 0;
}

bool Pool::evalw(Node *a, const Assign &as, u128 &out, std::unordered_map<Node *, u128> &memo)
{
    if (a->op == O_CONST) {
        out = a->val;
        return true;
    }
    auto it = memo.find(a);
    if (it != memo.end()) {
        out = it->second;
        return true;
    }
    if (a->op == O_VAR) {
        auto j = as.find((uint32_t)a->val);
        if (j != as.end())
            out = j->second & maskw(a->width);
        else {
            auto &vi = vars[(size_t)a->val];
            out = vi.ranged ? vi.lo & maskw(a->width) : 0;
        }
        memo[a] = out;
        return true;
    }
    if (a->op == O_UF) {
        std::vector<double> da;
        size_t n = a->nk;
        for (size_t i = 0; i < n; ++i) {
            Node *k = a->more ? (*a->more)[i] : a->k[i];
            u128 v;
            if (!evalw(k, as, v, memo)) return false;
            da.push_back(d64(v));
        }
        bool known;
        double r = ufEval(ufs[(size_t)a->val].name, da, known);
        if (!known) return false;
        out = b64(r);
        memo[a] = out;
        return true;
    }
    if (a->op == O_ITE) {
        u128 c;
        if (!evalw(a->k[0], as, c, memo)) return false;
        if (!evalw(c ? a->k[1] : a->k[2], as, out, memo)) return false;
        memo[a] = out;
        return true;
    }
    u128 v[3];
    unsigned kw[3];
    for (int i = 0; i < a->nk; ++i) {
        if (!evalw(a->k[i], as, v[i], memo)) return false;
        kw[i] = a->k[i]->width;
    }
    if (!fold(a->op, a->width, v, kw, a->nk, a->val, out)) return false;
    memo[a] = out;
    return true;
}
bool Pool::eval(Node *a, const Assign &as, uint64_t &out, std::unordered_map<Node *, u128> &memo)
{
    u128 o;
    if (!evalw(a, as, o, memo)) return false;
    out = (uint64_t)o;
    return true;
}

// Symbolic derivative of a floating point term w.r.t. a variable node.
Node *Pool::deriv(Node *t, Node *v, std::unordered_map<Node *, Node *> &memo, bool &ok)
{
    Node *zero = cst(0, 64), *one = cst(b64(1.0), 64);
    if (t == v) return one;
    if (!ok) return zero;
    auto &s = support(t);
    auto &sv = support(v);
    if (sv.size() != 1) { ok = false; return zero; }
    if (!std::binary_search(s.begin(), s.end(), sv[0])) return zero;
    auto it = memo.find(t);
    if (it != memo.end()) return it->second;
    auto isz = [&](Node *n) { return isc(n) && d64(n->val) == 0; };
    auto add = [&](Node *x, Node *y) { return isz(x) ? y : isz(y) ? x : bin(O_FADD, x, y); };
    auto mul = [&](Node *x, Node *y) { return (isz(x) || isz(y)) ? zero : bin(O_FMUL, x, y); };
    Node *r = zero;
    switch (t->op) {
        case O_FADD: r = add(deriv(t->k[0], v, memo, ok), deriv(t->k[1], v, memo, ok)); break;
        case O_FMUL:
            r = add(mul(deriv(t->k[0], v, memo, ok), t->k[1]), mul(t->k[0], deriv(t->k[1], v, memo, ok)));
            break;
        case O_FDIV: {
            Node *da = deriv(t->k[0], v, memo, ok), *db = deriv(t->k[1], v, memo, ok);
            r = isz(da) ? zero : bin(O_FDIV, da, t->k[1]);
            if (!isz(db)) r = add(r, fneg(bin(O_FDIV, mul(t->k[0], db), bin(O_FMUL, t->k[1], t->k[1]))));
            break;
        }
        case O_FSQRT:
            r = bin(O_FDIV, deriv(t->k[0], v, memo, ok), bin(O_FMUL, cst(b64(2.0), 64), t));
            break;
        case O_XOR:
            if (isNeg(t)) {
                Node *d = deriv(t->k[0], v, memo, ok);
                r = isz(d) ? zero : fneg(d);
            } else
                ok = false;
            break;
        case O_AND: // |x|
            if (t->width == 64 && isc(t->k[1]) && t->k[1]->val == maskw(63)) {
                Node *d = deriv(t->k[0], v, memo, ok);
                r = isz(d) ? zero : ite(bin(O_FOLT, t->k[0], zero), fneg(d), d);
            } else
                ok = false;
            break;
        case O_ITE: r = ite(t->k[0], deriv(t->k[1], v, memo, ok), deriv(t->k[2], v, memo, ok)); break;
        case O_UF: {
            const std::string &n = ufs[(size_t)t->val].name;
            Node *x = t->k[0];
            Node *dx = t->nk == 1 ? deriv(x, v, memo, ok) : nullptr;
            if (n == "exp") r = mul(t, dx);
            else if (n == "log") r = bin(O_FDIV, dx, x);
            else if (n == "tanh") r = mul(bin(O_FSUB, one, bin(O_FMUL, t, t)), dx);
            else if (n == "sin") r = mul(uf("cos", 64, {x}), dx);
            else if (n == "cos") r = fneg(mul(uf("sin", 64, {x}), dx));
            else ok = false;
            break;
        }
        default: ok = false;
    }
    memo[t] = r;
    return r;
}

std::string Pool::str(Node *a, int depth)
{
    static const char *nm[] = {"c", "v", "uf", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "shl", "lshr", "ashr",
                               "=", "u<", "u<=", "s<", "s<=", "ite", "zext", "sext", "extract", "concat",
                               "f+", "f-", "f*", "f/", "frem", "fsqrt", "f<", "f<=", "f==", "funo",
                               "si2fp", "ui2fp", "fp2si", "fp2ui", "fpext", "fptrunc"};
    if (a->op == O_CONST) {
        char b[64];
        if (a->width == 64 && ((a->val >> 52) & 0x7ff) > 900 && ((a->val >> 52) & 0x7ff) < 1150)
            snprintf(b, sizeof b, "%.17g", d64(a->val));
        else
            snprintf(b, sizeof b, "%llu", (unsigned long long)(uint64_t)a->val);
        return b;
    }
    if (a->op == O_VAR) return vars[(size_t)a->val].name;
    if (depth == 0) return "#" + std::to_string(a->id);
    std::string s = "(" + (a->op == O_UF ? ufs[(size_t)a->val].name : std::string(nm[a->op]));
    if (a->op == O_EXTRACT) s += "[" + std::to_string((unsigned)a->val) + "+" + std::to_string(a->width) + "]";
    for (int i = 0; i < a->nk; ++i) s += " " + str(a->more ? (*a->more)[i] : a->k[i], depth - 1);
    return s + ")";
}

// ------------------------------------------------------------------------------------------ solver

static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

#define RR(x) ref(ctx, (x))
static Z3_ast ref(Z3_context c, Z3_ast a)
{
    Z3_inc_ref(c, a);
    return a;
}

static void z3err(Z3_context c, Z3_error_code e)
{
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    throw std::string("z3 error");
}

Solver::Solver()
{
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context_rc(cfg);
    Z3_set_error_handler(ctx, z3err);
    slv = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, slv);
}

Z3_ast Solver::bvconst(u128 v, unsigned w)
{
    Z3_sort s = Z3_mk_bv_sort(ctx, w);
    if (w <= 64) return RR(Z3_mk_unsigned_int64(ctx, (uint64_t)v, s));
    Z3_ast hi = bvconst(v >> 64, w - 64), lo = bvconst((uint64_t)v, 64);
    return RR(Z3_mk_concat(ctx, hi, lo));
}
Z3_ast Solver::b2bv(Z3_ast b) { return RR(Z3_mk_ite(ctx, b, bvconst(1, 1), bvconst(0, 1))); }
Z3_ast Solver::bv2b(Z3_ast b) { return RR(Z3_mk_eq(ctx, b, bvconst(1, 1))); }

Z3_ast Solver::ufapp(const std::string &name, unsigned w, const std::vector<Z3_ast> &args)
{
    std::string key = name + "/" + std::to_string(args.size());
    auto it = fdecl.find(key);
    if (it == fdecl.end()) {
        std::vector<Z3_sort> dom;
        for (auto a : args) dom.push_back(Z3_get_sort(ctx, a));
        Z3_func_decl f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, key.c_str()), (unsigned)dom.size(), dom.data(), Z3_mk_bv_sort(ctx, w));
        Z3_inc_ref(ctx, Z3_func_decl_to_ast(ctx, f));
        it = fdecl.emplace(key, f).first;
    }
    return RR(Z3_mk_app(ctx, it->second, (unsigned)args.size(), args.data()));
}
Z3_ast Solver::ufappReal(const std::string &name, const std::vector<Z3_ast> &args)
{
    std::string key = "R" + name + "/" + std::to_string(args.size());
    auto it = fdeclReal.find(key);
    if (it == fdeclReal.end()) {
        std::vector<Z3_sort> dom(args.size(), Z3_mk_real_sort(ctx));
        Z3_func_decl f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, key.c_str()), (unsigned)dom.size(), dom.data(), Z3_mk_real_sort(ctx));
        Z3_inc_ref(ctx, Z3_func_decl_to_ast(ctx, f));
        it = fdeclReal.emplace(key, f).first;
    }
    return RR(Z3_mk_app(ctx, it->second, (unsigned)args.size(), args.data()));
}
Z3_ast Solver::tofp(Z3_ast bv, unsigned w)
{
    Z3_sort s = w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx);
    return RR(Z3_mk_fpa_to_fp_bv(ctx, bv, s));
}
Z3_ast Solver::nanp(Z3_ast a, unsigned w)
{
    // exponent all ones and mantissa nonzero
    u128 absm = maskw(w - 1);
    u128 inf = w == 64 ? (u128)0x7ff0000000000000ull : (u128)0x7f800000u;
    Z3_ast x = RR(Z3_mk_bvand(ctx, a, bvconst(absm, w)));
    return RR(Z3_mk_bvugt(ctx, x, bvconst(inf, w)));
}

// returns BV ast for every node (booleans as Bool sort when width 1 handled via tr)
Z3_ast Solver::tr(Node *n, Mode m)
{
    // Bool-valued translation of width-1 nodes
    auto &mm = memo[m];
    auto it = mm.find(n);
    if (it != mm.end()) return it->second;
    Z3_ast r = nullptr;
    unsigned w = n->width;
    auto B = [&](Node *k) { return tr(k, m); };
    switch (n->op) {
        case O_CONST:
            r = w == 1 ? RR(n->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : bvconst(n->val, w);
            break;
        case O_VAR: {
            auto j = varast.find((uint32_t)n->val);
            if (j == varast.end()) {
                std::string nm = "v" + std::to_string((uint32_t)n->val) + "_" + P.vars[(size_t)n->val].name;
                auto &vi = P.vars[(size_t)n->val];
                unsigned sw = w;
                if (w > 1 && w <= 64 && vi.ranged && !vi.isfp && vi.lo <= vi.hi) { // as few bits as the range needs
                    sw = 1;
                    while (sw < w && ((vi.hi - vi.lo) >> sw)) sw++;
                }
                Z3_ast v = RR(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm.c_str()), w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, sw)));
                if (sw < w) {
                    v = RR(Z3_mk_zero_ext(ctx, w - sw, v));
                    if (vi.lo) v = RR(Z3_mk_bvadd(ctx, bvconst(vi.lo & maskw(w), w), v));
                }
                j = varast.emplace((uint32_t)n->val, v).first;
            }
            r = j->second;
            break;
        }
        case O_UF: {
            std::vector<Z3_ast> args;
            for (unsigned i = 0; i < n->nk; ++i) {
                Node *k = n->more ? (*n->more)[i] : n->k[i];
                Z3_ast a = B(k);
                if (k->width == 1) a = b2bv(a);
                args.push_back(a);
            }
            const std::string &un = P.ufs[(size_t)n->val].name;
            if (m == M_FP && w == 64 && args.size() == 1 && (un == "floor" || un == "ceil" || un == "trunc" || un == "rint" || un == "nearbyint" || un == "round")) {
                Z3_ast rm = un == "floor" ? Z3_mk_fpa_rtn(ctx) : un == "ceil" ? Z3_mk_fpa_rtp(ctx) : un == "trunc" ? Z3_mk_fpa_rtz(ctx) : un == "round" ? Z3_mk_fpa_rna(ctx)
                                                                                                                                          : Z3_mk_fpa_rne(ctx);
                RR(rm);
                Z3_ast x = RR(Z3_mk_fpa_round_to_integral(ctx, rm, tofp(args[0], 64)));
                r = RR(Z3_mk_fpa_to_ieee_bv(ctx, x));
                break;
            }
            r = ufapp(un, w, args);
            break;
        }
        case O_AND: case O_OR: case O_XOR:
            if (w == 1) {
                Z3_ast a[2] = {B(n->k[0]), B(n->k[1])};
                r = RR(n->op == O_AND ? Z3_mk_and(ctx, 2, a) : n->op == O_OR ? Z3_mk_or(ctx, 2, a) : Z3_mk_xor(ctx, a[0], a[1]));
            } else {
                Z3_ast a = B(n->k[0]), b = B(n->k[1]);
                r = RR(n->op == O_AND ? Z3_mk_bvand(ctx, a, b) : n->op == O_OR ? Z3_mk_bvor(ctx, a, b) : Z3_mk_bvxor(ctx, a, b));
            }
            break;
        case O_ADD: case O_SUB: case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_SHL: case O_LSHR: case O_ASHR: {
            Z3_ast a = B(n->k[0]), b = B(n->k[1]);
            if (w == 1) { a = b2bv(a); b = b2bv(b); }
            switch (n->op) {
                case O_ADD: r = Z3_mk_bvadd(ctx, a, b); break;
                case O_SUB: r = Z3_mk_bvsub(ctx, a, b); break;
                case O_MUL: r = Z3_mk_bvmul(ctx, a, b); break;
                case O_UDIV: r = Z3_mk_bvudiv(ctx, a, b); break;
                case O_SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break;
                case O_UREM: r = Z3_mk_bvurem(ctx, a, b); break;
                case O_SREM: r = Z3_mk_bvsrem(ctx, a, b); break;
                case O_SHL: r = Z3_mk_bvshl(ctx, a, b); break;
                case O_LSHR: r = Z3_mk_bvlshr(ctx, a, b); break;
                default: r = Z3_mk_bvashr(ctx, a, b); break;
            }
            r = RR(r);
            if (w == 1) r = bv2b(r);
            break;
        }
        case O_EQ: r = RR(Z3_mk_eq(ctx, B(n->k[0]), B(n->k[1]))); break;
        case O_ULT: case O_ULE: case O_SLT: case O_SLE: {
            Z3_ast a = B(n->k[0]), b = B(n->k[1]);
            if (n->k[0]->width == 1) { a = b2bv(a); b = b2bv(b); }
            r = RR(n->op == O_ULT ? Z3_mk_bvult(ctx, a, b) : n->op == O_ULE ? Z3_mk_bvule(ctx, a, b)
                   : n->op == O_SLT ? Z3_mk_bvslt(ctx, a, b) : Z3_mk_bvsle(ctx, a, b));
            break;
        }
        case O_ITE: r = RR(Z3_mk_ite(ctx, B(n->k[0]), B(n->k[1]), B(n->k[2]))); break;
        case O_ZEXT: {
            Z3_ast a = B(n->k[0]);
            if (n->k[0]->width == 1) a = b2bv(a);
            r = RR(Z3_mk_zero_ext(ctx, w - n->k[0]->width, a));
            break;
        }
        case O_SEXT: {
            Z3_ast a = B(n->k[0]);
            if (n->k[0]->width == 1) a = b2bv(a);
            r = RR(Z3_mk_sign_ext(ctx, w - n->k[0]->width, a));
            break;
        }
        case O_EXTRACT: {
            r = RR(Z3_mk_extract(ctx, (unsigned)n->val + w - 1, (unsigned)n->val, B(n->k[0])));
            if (w == 1) r = bv2b(r);
            break;
        }
        case O_CONCAT: {
            Z3_ast a = B(n->k[0]), b = B(n->k[1]);
            if (n->k[0]->width == 1) a = b2bv(a);
            if (n->k[1]->width == 1) b = b2bv(b);
            r = RR(Z3_mk_concat(ctx, a, b));
            break;
        }
        case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FSQRT:
            if (m == M_FP && w == 64) {
                Z3_ast rm = RR(Z3_mk_fpa_rne(ctx));
                Z3_ast a = tofp(B(n->k[0]), w), b = n->nk > 1 ? tofp(B(n->k[1]), w) : nullptr, x;
                switch (n->op) {
                    case O_FADD: x = Z3_mk_fpa_add(ctx, rm, a, b); break;
                    case O_FSUB: x = Z3_mk_fpa_sub(ctx, rm, a, b); break;
                    case O_FMUL: x = Z3_mk_fpa_mul(ctx, rm, a, b); break;
                    case O_FDIV: x = Z3_mk_fpa_div(ctx, rm, a, b); break;
                    default: x = Z3_mk_fpa_sqrt(ctx, rm, a); break;
                }
                x = RR(x);
                r = RR(Z3_mk_fpa_to_ieee_bv(ctx, x));
                break;
            }
            // fallthrough
        case O_FREM: {
            std::vector<Z3_ast> args;
            for (int i = 0; i < n->nk; ++i) args.push_back(B(n->k[i]));
            r = ufapp("fp" + std::to_string((int)n->op) + "_" + std::to_string(w), w, args);
            break;
        }
        case O_SITOFP: case O_UITOFP: case O_FPTOSI: case O_FPTOUI: case O_FPEXT: case O_FPTRUNC: {
            auto *vs = P.valset(n->k[0]);
            Z3_ast a = B(n->k[0]);
            unsigned kw = n->k[0]->width;
            if (kw == 1) a = b2bv(a);
            if (vs && vs->size() <= 64 && w <= 64) {
                unsigned kws[1] = {kw};
                u128 o = 0, v[1] = {vs->back()};
                P.fold(n->op, w, v, kws, 1, 0, o);
                r = bvconst(o, w);
                for (size_t i = vs->size() - 1; i-- > 0;) {
                    v[0] = (*vs)[i];
                    P.fold(n->op, w, v, kws, 1, 0, o);
                    r = RR(Z3_mk_ite(ctx, RR(Z3_mk_eq(ctx, a, bvconst((*vs)[i], kw))), bvconst(o, w), r));
                }
            } else if (m == M_FP && (n->op == O_SITOFP || n->op == O_UITOFP) && w == 64) {
                Z3_ast rm = RR(Z3_mk_fpa_rne(ctx));
                Z3_ast x = RR(n->op == O_SITOFP ? Z3_mk_fpa_to_fp_signed(ctx, rm, a, Z3_mk_fpa_sort_64(ctx))
                                                : Z3_mk_fpa_to_fp_unsigned(ctx, rm, a, Z3_mk_fpa_sort_64(ctx)));
                r = RR(Z3_mk_fpa_to_ieee_bv(ctx, x));
            } else if (m == M_FP && (n->op == O_FPTOSI || n->op == O_FPTOUI) && kw == 64) {
                Z3_ast rm = RR(Z3_mk_fpa_rtz(ctx));
                Z3_ast x = tofp(a, 64);
                r = RR(n->op == O_FPTOSI ? Z3_mk_fpa_to_sbv(ctx, rm, x, w) : Z3_mk_fpa_to_ubv(ctx, rm, x, w));
            } else
                r = ufapp("cv" + std::to_string((int)n->op) + "_" + std::to_string(kw) + "_" + std::to_string(w), w, {a});
            if (w == 1) r = bv2b(r);
            break;
        }
        case O_FOLT: case O_FOLE: case O_FOEQ: case O_FUNO: {
            unsigned kw = n->k[0]->width;
            Z3_ast a = B(n->k[0]), b = B(n->k[1]);
            if (kw == 80) { r = bv2b(ufapp("fcmp80_" + std::to_string((int)n->op), 1, {a, b})); break; }
            // exact bit level encoding (no rounding involved)
            Z3_ast na = nanp(a, kw), nb = nanp(b, kw);
            Z3_ast ors[2] = {na, nb};
            Z3_ast uno = RR(Z3_mk_or(ctx, 2, ors));
            if (n->op == O_FUNO) { r = uno; break; }
            Z3_ast signbit = bvconst((u128)1 << (kw - 1), kw);
            Z3_ast absm = bvconst(maskw(kw - 1), kw);
            Z3_ast za = RR(Z3_mk_eq(ctx, RR(Z3_mk_bvand(ctx, a, absm)), bvconst(0, kw)));
            Z3_ast zb = RR(Z3_mk_eq(ctx, RR(Z3_mk_bvand(ctx, b, absm)), bvconst(0, kw)));
            Z3_ast zz2[2] = {za, zb};
            Z3_ast bothz = RR(Z3_mk_and(ctx, 2, zz2));
            Z3_ast eqv;
            {
                Z3_ast t[2] = {RR(Z3_mk_eq(ctx, a, b)), bothz};
                eqv = RR(Z3_mk_or(ctx, 2, t));
            }
            // order-preserving map: key(x) = sign ? ~x : x | signbit  (unsigned order)
            auto key = [&](Z3_ast x) {
                Z3_ast s = RR(Z3_mk_eq(ctx, RR(Z3_mk_extract(ctx, kw - 1, kw - 1, x)), bvconst(1, 1)));
                return RR(Z3_mk_ite(ctx, s, RR(Z3_mk_bvnot(ctx, x)), RR(Z3_mk_bvor(ctx, x, signbit))));
            };
            Z3_ast lt = RR(Z3_mk_bvult(ctx, key(a), key(b)));
            {
                Z3_ast t[2] = {lt, RR(Z3_mk_not(ctx, bothz))};
                lt = RR(Z3_mk_and(ctx, 2, t));
            }
            Z3_ast core = lt;
            if (n->op == O_FOEQ) core = eqv;
            else if (n->op == O_FOLE) {
                Z3_ast t[2] = {lt, eqv};
                core = RR(Z3_mk_or(ctx, 2, t));
            }
            Z3_ast t[2] = {RR(Z3_mk_not(ctx, uno)), core};
            r = RR(Z3_mk_and(ctx, 2, t));
            break;
        }
        default: throw std::string("tr: unsupported op");
    }
    mm[n] = r;
    return r;
}

void Solver::collectVars(Node *n, std::set<uint32_t> &out, std::unordered_set<Node *> &seen)
{
    auto &s = P.support(n);
    out.insert(s.begin(), s.end());
}

void Solver::getModel(Z3_solver s, const std::vector<Node *> &roots, Mode m, Assign *model)
{
    if (!model) return;
    Z3_model md = Z3_solver_get_model(ctx, s);
    if (!md) return;
    Z3_model_inc_ref(ctx, md);
    std::set<uint32_t> vs;
    std::unordered_set<Node *> seen;
    for (auto *r : roots) collectVars(r, vs, seen);
    for (auto v : vs) {
        auto it = varast.find(v);
        if (it == varast.end()) continue;
        Z3_ast o = nullptr;
        if (!Z3_model_eval(ctx, md, it->second, true, &o) || !o) continue;
        Z3_inc_ref(ctx, o);
        uint64_t x = 0;
        if (P.vars[v].width == 1)
            x = Z3_get_bool_value(ctx, o) == Z3_L_TRUE;
        else if (Z3_get_ast_kind(ctx, o) == Z3_NUMERAL_AST)
            Z3_get_numeral_uint64(ctx, o, &x);
        (*model)[v] = x;
        Z3_dec_ref(ctx, o);
    }
    Z3_model_dec_ref(ctx, md);
}

bool Solver::finite(Node *n)
{
    auto it = finiteMemo.find(n);
    if (it != finiteMemo.end()) return it->second;
    bool ok = n->op < O_FADD && n->op != O_UF && n->op != O_UDIV && n->op != O_SDIV && n->op != O_UREM && n->op != O_SREM;
    for (unsigned i = 0; ok && i < n->nk; ++i) ok = finite(n->more ? (*n->more)[i] : n->k[i]);
    finiteMemo[n] = ok;
    return ok;
}

int Solver::checkInc(const std::vector<Node *> &cs, Node *extra, unsigned tmo, Assign *model)
{
    bool fd = !getenv("SYMEX_NOFD") && (!extra || finite(extra));
    for (size_t i = 0; fd && i < cs.size(); ++i) fd = finite(cs[i]);
    return checkInc(cs, extra, tmo, model, incs[fd], fd);
}
int Solver::checkInc(const std::vector<Node *> &cs, Node *extra, unsigned tmo, Assign *model, Inc &q, bool fd)
{
    double t0 = now();
    SS.queries++;
    if (q.s && q.count > 200) {
        Z3_solver_dec_ref(ctx, q.s);
        q.s = nullptr;
    }
    if (!q.s) {
        q.s = fd ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FD")) : Z3_mk_simple_solver(ctx);
        Z3_solver_inc_ref(ctx, q.s);
        q.count = 0;
        q.guards.clear();
        q.dom.clear();
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), tmo);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), 1);
        Z3_solver_set_params(ctx, q.s, p);
        Z3_params_dec_ref(ctx, p);
    }
    std::vector<Node *> roots(cs);
    if (extra) roots.push_back(extra);
    std::vector<Z3_ast> as;
    for (auto *c : roots) {
        auto it = q.guards.find(c);
        if (it == q.guards.end()) {
            Z3_ast g = RR(Z3_mk_fresh_const(ctx, "g", Z3_mk_bool_sort(ctx)));
            Z3_solver_assert(ctx, q.s, RR(Z3_mk_implies(ctx, g, tr(c, M_UF))));
            q.count++;
            it = q.guards.emplace(c, g).first;
            for (auto v : P.support(c)) {
                auto &vi = P.vars[v];
                if (!vi.ranged || vi.width == 1 || !q.dom.insert(v).second) continue;
                Z3_ast a = tr(vi.node, M_UF);
                u128 lo = vi.lo & maskw(vi.width), hi = vi.hi & maskw(vi.width);
                Z3_ast d = RR(Z3_mk_bvsub(ctx, a, bvconst(lo, vi.width)));
                Z3_solver_assert(ctx, q.s, RR(Z3_mk_bvule(ctx, d, bvconst((hi - lo) & maskw(vi.width), vi.width))));
            }
        }
        as.push_back(it->second);
    }
    int r = -1;
    try {
        Z3_lbool res = Z3_solver_check_assumptions(ctx, q.s, (unsigned)as.size(), as.data());
        if (res == Z3_L_TRUE) {
            r = 1;
            getModel(q.s, roots, M_UF, model);
        } else if (res == Z3_L_FALSE) {
            r = 0;
            if (extra) { // remember which constraints contradict it
                Z3_ast_vector core = Z3_solver_get_unsat_core(ctx, q.s);
                Z3_ast_vector_inc_ref(ctx, core);
                std::vector<uint32_t> ids;
                for (unsigned i = 0, n = Z3_ast_vector_size(ctx, core); i < n; ++i) {
                    Z3_ast a = Z3_ast_vector_get(ctx, core, i);
                    for (size_t j = 0; j < cs.size(); ++j)
                        if (as[j] == a) ids.push_back(cs[j]->id);
                }
                Z3_ast_vector_dec_ref(ctx, core);
                std::sort(ids.begin(), ids.end());
                auto &l = cores[extra->id];
                if (l.size() < 32) l.push_back(ids);
            }
        }
    } catch (std::string &) {
        r = -1;
    }
    SS.time += now() - t0;
    if (r == 1) SS.sat++;
    else if (r == 0) SS.unsat++;
    else SS.unknown++;
    return r;
}

int Solver::checkMode(const std::vector<Node *> &cs, Node *extra, Mode m, unsigned tmo, Assign *model)
{
    double t0 = now();
    SS.queries++;
    if (m == M_FP) SS.fpq++;
    Z3_solver s = slv;
    bool own = false;
    if (m == M_FP) {
        s = Z3_mk_solver(ctx);
        Z3_solver_inc_ref(ctx, s);
        own = true;
    }
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), tmo);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), 1);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
    Z3_solver_push(ctx, s);
    std::vector<Node *> roots(cs);
    if (extra) roots.push_back(extra);
    std::set<uint32_t> vs;
    std::unordered_set<Node *> seen;
    for (auto *c : roots) {
        Z3_solver_assert(ctx, s, tr(c, m));
        collectVars(c, vs, seen);
    }
    for (auto v : vs) {
        auto &vi = P.vars[v];
        if (!vi.ranged) continue;
        Z3_ast a = tr(vi.node, m);
        if (vi.width == 1) continue;
        u128 lo = vi.lo & maskw(vi.width), hi = vi.hi & maskw(vi.width);
        // lo..hi is a contiguous (possibly wrapped) range
        Z3_ast d = RR(Z3_mk_bvsub(ctx, a, bvconst(lo, vi.width)));
        Z3_solver_assert(ctx, s, RR(Z3_mk_bvule(ctx, d, bvconst((hi - lo) & maskw(vi.width), vi.width))));
    }
    int r = -1;
    try {
        Z3_lbool res = Z3_solver_check(ctx, s);
        if (res == Z3_L_TRUE) {
            r = 1;
            getModel(s, roots, m, model);
        } else if (res == Z3_L_FALSE)
            r = 0;
    } catch (std::string &) {
        r = -1;
    }
    Z3_solver_pop(ctx, s, 1);
    if (own) Z3_solver_dec_ref(ctx, s);
    SS.time += now() - t0;
    if (r == 1) SS.sat++;
    else if (r == 0) SS.unsat++;
    else SS.unknown++;
    return r;
}

int Solver::check(const std::vector<Node *> &pc, Node *extra, Assign *model)
{
    if (extra && extra->op == O_CONST && !extra->val) return 0;
    // slice the constraints that (transitively) share a variable with extra
    std::vector<Node *> sl;
    if (extra) {
        auto &s0 = P.support(extra);
        std::set<uint32_t> vs(s0.begin(), s0.end());
        std::vector<char> used(pc.size(), 0);
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < pc.size(); ++i) {
                if (used[i]) continue;
                auto &s = P.support(pc[i]);
                bool hit = false;
                for (auto v : s)
                    if (vs.count(v)) { hit = true; break; }
                if (hit) {
                    used[i] = 1;
                    ch = true;
                    vs.insert(s.begin(), s.end());
                }
            }
        }
        for (size_t i = 0; i < pc.size(); ++i)
            if (used[i]) sl.push_back(pc[i]);
    } else
        sl = pc;
    std::vector<uint32_t> key;
    for (auto *n : sl) key.push_back(n->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    std::pair<std::vector<uint32_t>, int> k{key, extra ? (int)extra->id : -1};
    auto it = cache.find(k);
    if (it != cache.end()) {
        SS.cachehits++;
        if (model) for (auto &x : it->second.second) (*model)[x.first] = x.second;
        return it->second.first;
    }
    if (extra) {
        auto cr = cores.find(extra->id);
        if (cr != cores.end())
            for (auto &c : cr->second)
                if (std::includes(key.begin(), key.end(), c.begin(), c.end())) {
                    SS.corehits++;
                    return 0;
                }
    }
    Assign md;
    if (extra && sl.empty() && P.support(extra).size() == 1) { // a number nothing is known about yet: try the obvious values
        uint32_t v = *P.support(extra).begin();
        if (P.vars[v].isfp && !P.vars[v].ranged) {
            std::vector<u128> cand;
            std::unordered_set<Node *> seen;
            std::function<void(Node *)> go = [&](Node *n) {
                if (!seen.insert(n).second || seen.size() > 64) return;
                if (n->op == O_CONST && n->width == 64) cand.push_back(n->val);
                for (unsigned i = 0; i < n->nk; ++i) go(n->more ? (*n->more)[i] : n->k[i]);
            };
            go(extra);
            size_t nc = cand.size();
            for (size_t i = 0; i < nc && i < 8; ++i)
                for (size_t j = 0; j < i; ++j) {
                    double a = d64(cand[i]), b = d64(cand[j]), c = a + (b - a) / 2.;
                    uint64_t x;
                    memcpy(&x, &c, 8);
                    cand.push_back(x);
                }
            for (auto c : cand) {
                md.clear();
                md[v] = (uint64_t)c;
                uint64_t out;
                std::unordered_map<Node *, u128> mm;
                if (d64(c) - d64(c) == 0. && P.eval(extra, md, out, mm) && out) {
                    SS.folded++;
                    cache[k] = {1, md};
                    if (model) (*model)[v] = (uint64_t)c;
                    return 1;
                }
            }
            md.clear();
        }
    }
    int r = default_mode != M_UF ? checkMode(sl, extra, (Mode)default_mode, timeout_ms, &md) : checkInc(sl, extra, timeout_ms, &md);
    cache[k] = {r, md};
    if (model) for (auto &x : md) (*model)[x.first] = x.second;
    return r;
}

// ----------------------------------------------------------------------------------- real arithmetic

static std::string rational(double d)
{
    int e;
    double m = frexp(d, &e);
    long long mi = (long long)ldexp(m, 53);
    e -= 53;
    while (mi && (mi & 1) == 0 && e < 0) { mi >>= 1; e++; }
    std::string s = std::to_string(mi);
    if (e == 0 || mi == 0) return s;
    // power of two as decimal string
    std::string p = "1";
    int n = e < 0 ? -e : e;
    for (int i = 0; i < n; ++i) {
        int c = 0;
        for (size_t j = p.size(); j-- > 0;) {
            int v = (p[j] - '0') * 2 + c;
            p[j] = (char)('0' + v % 10);
            c = v / 10;
        }
        if (c) p.insert(p.begin(), (char)('0' + c));
    }
    if (e < 0) return s + "/" + p;
    // big integer multiply: let z3 do it via "s" * p  -> represent as product string unsupported; use decimal expansion
    return s + "*" + p;
}


Z3_ast Solver::trReal(Node *n)
{
    auto &mm = memo[M_REAL];
    auto it = mm.find(n);
    if (it != mm.end()) return it->second;
    Z3_ast r = nullptr;
    Z3_sort RS = Z3_mk_real_sort(ctx);
    auto num = [&](double d) -> Z3_ast {
        if (!(d == d) || d - d != 0) throw std::string("real: non finite constant");
        std::string s = rational(d);
        size_t p = s.find('*');
        if (p != std::string::npos) {
            Z3_ast a[2] = {RR(Z3_mk_numeral(ctx, s.substr(0, p).c_str(), RS)), RR(Z3_mk_numeral(ctx, s.substr(p + 1).c_str(), RS))};
            return RR(Z3_mk_mul(ctx, 2, a));
        }
        return RR(Z3_mk_numeral(ctx, s.c_str(), RS));
    };
    switch (n->op) {
        case O_CONST: r = num(d64(n->val)); break;
        case O_VAR: {
            auto j = varreal.find((uint32_t)n->val);
            if (j == varreal.end()) {
                std::string nm = "r" + std::to_string((uint32_t)n->val) + "_" + P.vars[(size_t)n->val].name;
                j = varreal.emplace((uint32_t)n->val, RR(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm.c_str()), RS))).first;
            }
            r = j->second;
            break;
        }
        case O_FADD: case O_FSUB: case O_FMUL: {
            Z3_ast a[2] = {trReal(n->k[0]), trReal(n->k[1])};
            r = RR(n->op == O_FADD ? Z3_mk_add(ctx, 2, a) : n->op == O_FSUB ? Z3_mk_sub(ctx, 2, a) : Z3_mk_mul(ctx, 2, a));
            break;
        }
        case O_FDIV: r = RR(Z3_mk_div(ctx, trReal(n->k[0]), trReal(n->k[1]))); break;
        case O_FSQRT: r = ufappReal("sqrt", {trReal(n->k[0])}); break;
        case O_UF: {
            std::vector<Z3_ast> args;
            for (unsigned i = 0; i < n->nk; ++i) {
                Node *k = n->more ? (*n->more)[i] : n->k[i];
                args.push_back(trReal(k));
            }
            r = ufappReal(P.ufs[(size_t)n->val].name, args);
            break;
        }
        case O_XOR:
            if (isNeg(n)) { r = RR(Z3_mk_unary_minus(ctx, trReal(n->k[0]))); break; }
            throw std::string("real: unsupported xor");
        case O_AND:
            if (P.isc(n->k[1]) && n->k[1]->val == maskw(63)) {
                Z3_ast x = trReal(n->k[0]);
                r = RR(Z3_mk_ite(ctx, RR(Z3_mk_ge(ctx, x, num(0))), x, RR(Z3_mk_unary_minus(ctx, x))));
                break;
            }
            throw std::string("real: unsupported and");
        case O_ITE: r = RR(Z3_mk_ite(ctx, trBoolReal(n->k[0]), trReal(n->k[1]), trReal(n->k[2]))); break;
        case O_UITOFP: case O_SITOFP: {
            auto *vs = P.valset(n->k[0]);
            if (vs && vs->size() <= 64) {
                Z3_ast a = tr(n->k[0], M_UF);
                unsigned kw = n->k[0]->width;
                if (kw == 1) a = b2bv(a);
                auto cv = [&](uint64_t x) { return num(n->op == O_UITOFP ? (double)x : (double)sx(x, kw)); };
                r = cv(vs->back());
                for (size_t i = vs->size() - 1; i-- > 0;)
                    r = RR(Z3_mk_ite(ctx, RR(Z3_mk_eq(ctx, a, bvconst((*vs)[i], kw))), cv((*vs)[i]), r));
                break;
            }
            throw std::string("real: int conversion");
        }
        default: throw std::string("real: unsupported op " + std::to_string((int)n->op));
    }
    mm[n] = r;
    return r;
}
Z3_ast Solver::trBVReal(Node *n)
{
    bool fp = false;
    for (auto v : P.support(n)) fp = fp || P.vars[v].isfp;
    if (n->width == 1) return b2bv(trBoolReal(n));
    if (!fp) return tr(n, M_UF);
    switch (n->op) {
        case O_ZEXT: return RR(Z3_mk_zero_ext(ctx, n->width - n->k[0]->width, trBVReal(n->k[0])));
        case O_SEXT: return RR(Z3_mk_sign_ext(ctx, n->width - n->k[0]->width, trBVReal(n->k[0])));
        case O_ADD: return RR(Z3_mk_bvadd(ctx, trBVReal(n->k[0]), trBVReal(n->k[1])));
        case O_SUB: return RR(Z3_mk_bvsub(ctx, trBVReal(n->k[0]), trBVReal(n->k[1])));
        case O_ITE: return RR(Z3_mk_ite(ctx, trBoolReal(n->k[0]), trBVReal(n->k[1]), trBVReal(n->k[2])));
        case O_EXTRACT: return RR(Z3_mk_extract(ctx, (unsigned)n->val + n->width - 1, (unsigned)n->val, trBVReal(n->k[0])));
        default: throw std::string("real: bit-level term on fp value");
    }
}
Z3_ast Solver::trBoolReal(Node *n)
{
    auto it = memoRB.find(n);
    if (it != memoRB.end()) return it->second;
    Z3_ast r;
    switch (n->op) {
        case O_FOLT: r = RR(Z3_mk_lt(ctx, trReal(n->k[0]), trReal(n->k[1]))); break;
        case O_FOLE: r = RR(Z3_mk_le(ctx, trReal(n->k[0]), trReal(n->k[1]))); break;
        case O_FOEQ: r = RR(Z3_mk_eq(ctx, trReal(n->k[0]), trReal(n->k[1]))); break;
        case O_FUNO: r = RR(Z3_mk_false(ctx)); break;
        case O_AND: case O_OR: case O_XOR: {
            Z3_ast a[2] = {trBoolReal(n->k[0]), trBoolReal(n->k[1])};
            r = RR(n->op == O_AND ? Z3_mk_and(ctx, 2, a) : n->op == O_OR ? Z3_mk_or(ctx, 2, a) : Z3_mk_xor(ctx, a[0], a[1]));
            break;
        }
        case O_ITE: r = RR(Z3_mk_ite(ctx, trBoolReal(n->k[0]), trBoolReal(n->k[1]), trBoolReal(n->k[2]))); break;
        case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: {
            bool fp = false;
            for (auto v : P.support(n)) fp = fp || P.vars[v].isfp;
            if (fp && n->k[0]->width == 1 && n->op == O_EQ) r = RR(Z3_mk_iff(ctx, trBoolReal(n->k[0]), trBoolReal(n->k[1])));
            else if (fp) { // integers that count comparisons of real numbers
                Z3_ast a = trBVReal(n->k[0]), b = trBVReal(n->k[1]);
                r = RR(n->op == O_EQ ? Z3_mk_eq(ctx, a, b) : n->op == O_ULT ? Z3_mk_bvult(ctx, a, b) : n->op == O_ULE ? Z3_mk_bvule(ctx, a, b)
                       : n->op == O_SLT ? Z3_mk_bvslt(ctx, a, b) : Z3_mk_bvsle(ctx, a, b));
            } else r = tr(n, M_UF);
            break;
        }
        default: {
            // pure integer condition (or unsupported): bit-vector translation, provided no fp variable is involved
            for (auto v : P.support(n))
                if (P.vars[v].isfp) throw std::string("real: bit-level condition on fp value");
            r = tr(n, M_UF);
        }
    }
    memoRB[n] = r;
    return r;
}

// Both terms with the function applications and selections that are provably equal over the reals identified.
void Solver::sweepReal(const std::vector<Node *> &pc, Node *&a, Node *&b)
{
    std::unordered_map<Node *, Node *> map;
    std::map<std::vector<uint64_t>, std::vector<Node *>> cls;
    std::vector<uint32_t> vs;
    {
        auto &x = P.support(a), &y = P.support(b);
        std::set_union(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(vs));
    }
    std::vector<Assign> as(4);
    uint64_t seed = 88172645463325252ull;
    for (auto &m : as)
        for (auto v : vs) {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            auto &vi = P.vars[v];
            if (vi.isfp) m[v] = (uint64_t)b64((double)(seed >> 11) * 0x1p-53 * 3.5 - 1.5);
            else if (vi.ranged && vi.hi >= vi.lo && vi.hi - vi.lo < UINT64_MAX) m[v] = vi.lo + seed % (vi.hi - vi.lo + 1);
            else m[v] = seed;
        }
    unsigned budget = 60;
    std::function<Node *(Node *)> go = [&](Node *n) -> Node * {
        auto it = map.find(n);
        if (it != map.end()) return it->second;
        Node *r = n;
        std::vector<Node *> k;
        bool ch = false;
        for (unsigned i = 0; i < n->nk; ++i) {
            Node *o = n->more ? (*n->more)[i] : n->k[i];
            k.push_back(go(o));
            ch = ch || k.back() != o;
        }
        if (ch) switch (n->op) {
                case O_UF: r = P.uf(P.ufs[(size_t)n->val].name, n->width, k); break;
                case O_ITE: r = P.ite(k[0], k[1], k[2]); break;
                case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: case O_FOLT: case O_FOLE: case O_FOEQ: case O_AND: case O_OR: case O_XOR:
                    r = P.bin(n->op, k[0], k[1]);
                    break;
                case O_FSQRT: r = P.un(n->op, k[0], n->width); break;
                default: break; // keep the original (same meaning)
            }
        if (r->width == 64 && (r->op == O_UF || r->op == O_ITE) && budget) {
            std::vector<uint64_t> sig;
            bool ok = true;
            for (auto &m : as) {
                std::unordered_map<Node *, u128> memo;
                uint64_t o = 0;
                if (!P.eval(r, m, o, memo)) { ok = false; break; }
                double d = d64(o);
                sig.push_back((uint64_t)(int64_t)std::llround(std::max(-1e12, std::min(1e12, d * 1e6))));
            }
            if (ok) {
                auto &c = cls[sig];
                bool merged = false;
                for (auto *q : c) {
                    if (q == r) { merged = true; break; }
                    if (!budget) break;
                    budget--;
                    if (realEq1(pc, r, q, 1500, nullptr) == 0) {
                        r = q;
                        merged = true;
                        break;
                    }
                }
                if (!merged) c.push_back(r);
            }
        }
        map[n] = r;
        return r;
    };
    a = go(a);
    b = go(b);
}
int Solver::checkRealEq(const std::vector<Node *> &pc, Node *a, Node *b, unsigned tmo, Assign *model)
{
    double t0 = now();
    int q = ratEqual(a, b);
    SS.time += now() - t0;
    if (q == 0) {
        SS.queries++;
        SS.realq++;
        SS.unsat++;
        return 0;
    }
    int r = realEq1(pc, a, b, 0, nullptr);
    if (r == 0) return 0;
    sweepReal(pc, a, b);
    return a == b ? 0 : realEq1(pc, a, b, tmo, model);
}
// the defining facts of the functions and divisions that occur, and the ranges of the integers
void Solver::realFacts(Z3_solver s, const std::vector<Node *> &roots, const std::set<uint32_t> &need)
{
    std::unordered_set<Node *> seen;
    Z3_ast zero = RR(Z3_mk_numeral(ctx, "0", Z3_mk_real_sort(ctx)));
    std::function<void(Node *)> ax = [&](Node *n) {
        if (!seen.insert(n).second) return;
        for (unsigned i = 0; i < n->nk; ++i) ax(n->more ? (*n->more)[i] : n->k[i]);
        if (n->op == O_UF) {
            const std::string &nm = P.ufs[(size_t)n->val].name;
            if (nm == "exp") Z3_solver_assert(ctx, s, RR(Z3_mk_gt(ctx, trReal(n), zero)));
            if (nm == "exp") {
                Z3_ast x = trReal(n->k[0]), e = trReal(n), one = RR(Z3_mk_numeral(ctx, "1", Z3_mk_real_sort(ctx)));
                Z3_solver_assert(ctx, s, RR(Z3_mk_iff(ctx, RR(Z3_mk_gt(ctx, x, zero)), RR(Z3_mk_gt(ctx, e, one)))));
                Z3_solver_assert(ctx, s, RR(Z3_mk_iff(ctx, RR(Z3_mk_lt(ctx, x, zero)), RR(Z3_mk_lt(ctx, e, one)))));
            }
            if (nm == "tanh") {
                Z3_solver_assert(ctx, s, RR(Z3_mk_lt(ctx, trReal(n), RR(Z3_mk_numeral(ctx, "1", Z3_mk_real_sort(ctx))))));
                Z3_solver_assert(ctx, s, RR(Z3_mk_gt(ctx, trReal(n), RR(Z3_mk_numeral(ctx, "-1", Z3_mk_real_sort(ctx))))));
            }
        }
        if (n->op == O_FSQRT) {
            Z3_ast x = trReal(n->k[0]), r = trReal(n);
            Z3_ast mm[2] = {r, r};
            Z3_ast sq = RR(Z3_mk_eq(ctx, RR(Z3_mk_mul(ctx, 2, mm)), x));
            Z3_ast cj[2] = {sq, RR(Z3_mk_ge(ctx, r, zero))};
            Z3_solver_assert(ctx, s, RR(Z3_mk_implies(ctx, RR(Z3_mk_ge(ctx, x, zero)), RR(Z3_mk_and(ctx, 2, cj)))));
        }
        if (n->op == O_FDIV && !P.isc(n->k[1])) {
            // division by zero is outside the real-valued claim
            Z3_solver_assert(ctx, s, RR(Z3_mk_not(ctx, RR(Z3_mk_eq(ctx, trReal(n->k[1]), zero)))));
        }
    };
    for (auto *r : roots) {
        try { ax(r); } catch (std::string &) {}
    }
    for (auto v : need) {
        auto &vi = P.vars[v];
        if (!vi.ranged || vi.width == 1 || vi.isfp) continue;
        Z3_ast av = tr(vi.node, M_UF);
        Z3_ast dd = RR(Z3_mk_bvsub(ctx, av, bvconst(vi.lo & maskw(vi.width), vi.width)));
        Z3_solver_assert(ctx, s, RR(Z3_mk_bvule(ctx, dd, bvconst((vi.hi - vi.lo) & maskw(vi.width), vi.width))));
    }
}
int Solver::checkRealBool(const std::vector<Node *> &pc, Node *c, unsigned tmo, Assign *model)
{
    double t0 = now();
    SS.queries++;
    SS.realq++;
    int res = -1;
    Z3_solver s = Z3_mk_solver(ctx);
    Z3_solver_inc_ref(ctx, s);
    try {
        Z3_params q = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, q);
        Z3_params_set_uint(ctx, q, Z3_mk_string_symbol(ctx, "timeout"), tmo);
        Z3_solver_set_params(ctx, s, q);
        Z3_params_dec_ref(ctx, q);
        std::vector<Node *> roots;
        std::set<uint32_t> need;
        if (c) {
            Z3_solver_assert(ctx, s, trBoolReal(c));
            roots.push_back(c);
            for (auto v : P.support(c)) need.insert(v);
        }
        std::vector<char> used(pc.size(), 0);
        for (bool ch = true; ch;) { // whatever shares a variable, transitively
            ch = false;
            for (size_t i = 0; i < pc.size(); ++i) {
                bool hit = !c;
                for (auto v : P.support(pc[i])) hit = hit || need.count(v);
                if (used[i] || !hit) continue;
                used[i] = 1;
                ch = true;
                for (auto v : P.support(pc[i])) need.insert(v);
                try {
                    Z3_solver_assert(ctx, s, trBoolReal(pc[i]));
                    roots.push_back(pc[i]);
                } catch (std::string &) {
                }
            }
        }
        realFacts(s, roots, need);
        Z3_lbool lr = Z3_solver_check(ctx, s);
        res = lr == Z3_L_TRUE ? 1 : lr == Z3_L_FALSE ? 0 : -1;
        if (res == 1 && model) {
            Z3_model md = Z3_solver_get_model(ctx, s);
            Z3_model_inc_ref(ctx, md);
            realModel(md, need, *model);
            Z3_model_dec_ref(ctx, md);
        }
    } catch (std::string &e) {
        if (getenv("SYMEX_DEBUG")) fprintf(stderr, "checkRealBool: %s\n", e.c_str());
    }
    Z3_solver_dec_ref(ctx, s);
    SS.time += now() - t0;
    if (res == 1) SS.sat++;
    else if (res == 0) SS.unsat++;
    else SS.unknown++;
    return res;
}
void Solver::realModel(Z3_model md, const std::set<uint32_t> &need, Assign &model)
{
    for (auto v : need) {
        auto &vi = P.vars[v];
        if (vi.isfp) {
            auto j = varreal.find(v);
            if (j == varreal.end()) continue;
            Z3_ast o = nullptr;
            if (Z3_model_eval(ctx, md, j->second, true, &o) && o) {
                Z3_inc_ref(ctx, o);
                std::string ds = Z3_get_numeral_decimal_string(ctx, o, 17);
                if (!ds.empty() && ds.back() == '?') ds.pop_back();
                model[v] = (uint64_t)b64(atof(ds.c_str()));
                Z3_dec_ref(ctx, o);
            }
        } else {
            auto j = varast.find(v);
            if (j == varast.end()) continue;
            Z3_ast o = nullptr;
            uint64_t x = 0;
            if (Z3_model_eval(ctx, md, j->second, true, &o) && o && vi.width > 1) {
                Z3_inc_ref(ctx, o);
                Z3_get_numeral_uint64(ctx, o, &x);
                model[v] = x;
                Z3_dec_ref(ctx, o);
            }
        }
    }
}
int Solver::realEq1(const std::vector<Node *> &pc, Node *a, Node *b, unsigned tmo, Assign *model)
{
    double t0 = now();
    SS.queries++;
    SS.realq++;
    int res = -1;
    Z3_solver s = nullptr;
    try {
        Z3_ast za = trReal(a), zb = trReal(b);
        // 1. try the rewriter: simplify(a - b) with polynomial normal form
        Z3_ast d2[2] = {za, zb};
        Z3_ast d = RR(Z3_mk_sub(ctx, 2, d2));
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_bool(ctx, p, Z3_mk_string_symbol(ctx, "som"), true);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "som_blowup"), 1000000);
        Z3_ast sd = RR(Z3_simplify_ex(ctx, d, p));
        for (int i = 0; i < 4; ++i) { // to a fixpoint
            Z3_ast t = RR(Z3_simplify_ex(ctx, sd, p));
            if (t == sd) break;
            sd = t;
        }
        Z3_params_dec_ref(ctx, p);
        if (getenv("SYMEX_DEBUG")) fprintf(stderr, "real difference: %s\n", Z3_ast_to_string(ctx, sd));
        if (Z3_get_ast_kind(ctx, sd) == Z3_NUMERAL_AST && std::string(Z3_get_numeral_string(ctx, sd)) == "0") {
            SS.unsat++;
            SS.time += now() - t0;
            return 0;
        }
        if (!tmo) {
            SS.unknown++;
            SS.time += now() - t0;
            return -1;
        }
        // 2. solver with the definitional facts of the transcendental functions
        s = Z3_mk_solver(ctx);
        Z3_solver_inc_ref(ctx, s);
        Z3_params q = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, q);
        Z3_params_set_uint(ctx, q, Z3_mk_string_symbol(ctx, "timeout"), tmo);
        Z3_solver_set_params(ctx, s, q);
        Z3_params_dec_ref(ctx, q);
        std::vector<Node *> roots{a, b};
        std::set<uint32_t> need;
        for (auto *r : roots)
            for (auto v : P.support(r)) need.insert(v);
        for (auto *c : pc) {
            bool hit = false;
            for (auto v : P.support(c)) hit = hit || need.count(v);
            if (!hit) continue;
            try {
                Z3_solver_assert(ctx, s, trBoolReal(c));
                roots.push_back(c);
            } catch (std::string &) {
                // a constraint that cannot be expressed is dropped (weaker assumption: sound for proving)
            }
        }
        realFacts(s, roots, need);
        Z3_solver_assert(ctx, s, RR(Z3_mk_not(ctx, RR(Z3_mk_eq(ctx, za, zb)))));
        Z3_lbool lr = Z3_solver_check(ctx, s);
        res = lr == Z3_L_TRUE ? 1 : lr == Z3_L_FALSE ? 0 : -1;
        if (res == 1 && model) {
            // a model of everything connected to the terms, in which they differ by more than what rounding explains
            std::vector<bool> in(pc.size(), false);
            for (bool more = true; more;) {
                more = false;
                for (std::size_t i = 0; i < pc.size(); ++i) {
                    if (in[i]) continue;
                    bool hit = false;
                    for (auto v : P.support(pc[i])) hit = hit || need.count(v);
                    if (!hit) continue;
                    in[i] = more = true;
                    for (auto v : P.support(pc[i])) need.insert(v);
                }
            }
            Z3_solver keep = s;
            for (int margin = 2; margin >= 0 && keep == s; --margin) {
                Z3_solver t = Z3_mk_solver(ctx);
                Z3_solver_inc_ref(ctx, t);
                Z3_params tq = Z3_mk_params(ctx);
                Z3_params_inc_ref(ctx, tq);
                Z3_params_set_uint(ctx, tq, Z3_mk_string_symbol(ctx, "timeout"), tmo);
                Z3_solver_set_params(ctx, t, tq);
                Z3_params_dec_ref(ctx, tq);
                std::vector<Node *> rs{a, b};
                for (std::size_t i = 0; i < pc.size(); ++i) {
                    if (!in[i]) continue;
                    try {
                        Z3_solver_assert(ctx, t, trBoolReal(pc[i]));
                        rs.push_back(pc[i]);
                    } catch (std::string &) {
                    }
                }
                realFacts(t, rs, need);
                if (margin) {
                    Z3_ast eps = RR(Z3_mk_numeral(ctx, margin == 2 ? "1/100" : "1/10000", Z3_mk_real_sort(ctx)));
                    Z3_ast m2[2] = {za, zb}, w2[2] = {zb, za};
                    Z3_ast far[2] = {RR(Z3_mk_gt(ctx, RR(Z3_mk_sub(ctx, 2, m2)), eps)), RR(Z3_mk_gt(ctx, RR(Z3_mk_sub(ctx, 2, w2)), eps))};
                    Z3_solver_assert(ctx, t, RR(Z3_mk_or(ctx, 2, far)));
                } else
                    Z3_solver_assert(ctx, t, RR(Z3_mk_not(ctx, RR(Z3_mk_eq(ctx, za, zb)))));
                SS.queries++;
                SS.realq++;
                if (Z3_solver_check(ctx, t) == Z3_L_TRUE) s = t;
                else Z3_solver_dec_ref(ctx, t);
            }
            if (keep != s) Z3_solver_dec_ref(ctx, keep);
            Z3_model md = Z3_solver_get_model(ctx, s);
            Z3_model_inc_ref(ctx, md);
            realModel(md, need, *model);
            Z3_model_dec_ref(ctx, md);
        }
    } catch (std::string &e) {
        if (getenv("SYMEX_DEBUG")) fprintf(stderr, "checkRealEq: %s\n", e.c_str());
        res = -1;
    }
    if (s) Z3_solver_dec_ref(ctx, s);
    SS.time += now() - t0;
    if (res == 1) SS.sat++;
    else if (res == 0) SS.unsat++;
    else SS.unknown++;
    return res;
}
