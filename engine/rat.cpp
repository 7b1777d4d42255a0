// Exact equality of real-valued terms as rational functions: terms are normalised to Laurent polynomials with rational
// coefficients over atoms (variables, function applications up to equality of their arguments, reciprocal denominators).
#include "expr.hpp"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <gmpxx.h>

namespace
{
const uint64_t MOD = (1ull << 61) - 1;
uint64_t mulm(uint64_t a, uint64_t b) { return (uint64_t)((u128)a * b % MOD); }
uint64_t addm(uint64_t a, uint64_t b) { return (a + b) % MOD; }
uint64_t powm(uint64_t a, uint64_t e)
{
    uint64_t r = 1;
    for (; e; e >>= 1, a = mulm(a, a))
        if (e & 1) r = mulm(r, a);
    return r;
}
uint64_t invm(uint64_t a) { return powm(a, MOD - 2); }
uint64_t mixm(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return ((x ^ (x >> 31)) % (MOD - 1)) + 1;
}

typedef std::vector<std::pair<uint32_t, int>> Mono; // sorted by atom, exponents non zero
typedef std::map<Mono, mpq_class> Poly;
struct TooBig {
};
const size_t LIMIT = 4000;
struct Atom {
    int kind = 0; // 0: free, 1: denominator (stands for `def`), 2: square root of `def`
    std::string fn;
    Poly def;
    std::vector<Poly> args;
    std::vector<uint64_t> sigs;
    Node *cond = nullptr;
    uint64_t val = 0;
    bool bad = false; // its value modulo the prime is not consistent with its definition: signatures say nothing
};
std::vector<Atom> atoms;
std::unordered_map<Node *, Poly> memo;
std::map<std::string, std::vector<uint32_t>> byfn;

uint64_t sigOf(const Poly &p)
{
    uint64_t s = 0;
    for (auto &t : p) {
        mpz_class n = t.second.get_num() % mpz_class(std::to_string(MOD)), d = t.second.get_den() % mpz_class(std::to_string(MOD));
        if (n < 0) n += mpz_class(std::to_string(MOD));
        uint64_t v = mulm(n.get_ui(), invm(d.get_ui()));
        for (auto &f : t.first) {
            uint64_t a = atoms[f.first].val;
            v = mulm(v, f.second > 0 ? powm(a, (uint64_t)f.second) : invm(powm(a, (uint64_t)-f.second)));
        }
        s = addm(s, v);
    }
    return s;
}
void addTo(Poly &r, const Mono &m, const mpq_class &c)
{
    if (c == 0) return;
    auto it = r.find(m);
    if (it == r.end()) {
        r.emplace(m, c);
        if (r.size() > LIMIT) throw TooBig();
    } else {
        it->second += c;
        if (it->second == 0) r.erase(it);
    }
}
Mono mulMono(const Mono &a, const Mono &b)
{
    Mono r;
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
        else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
        else {
            int e = a[i].second + b[j].second;
            if (e) r.push_back({a[i].first, e});
            ++i, ++j;
        }
    }
    return r;
}
Poly add(const Poly &a, const Poly &b, int sgn = 1)
{
    Poly r(a);
    for (auto &t : b) addTo(r, t.first, sgn > 0 ? t.second : mpq_class(-t.second));
    return r;
}
Poly rawmul(const Poly &a, const Poly &b)
{
    Poly r;
    if (a.size() * b.size() > 400000) throw TooBig();
    for (auto &x : a)
        for (auto &y : b) addTo(r, mulMono(x.first, y.first), x.second * y.second);
    return r;
}
Poly cst(const mpq_class &c)
{
    Poly r;
    addTo(r, {}, c);
    return r;
}
Poly atomPoly(uint32_t a, int e = 1)
{
    Poly r;
    r.emplace(Mono{{a, e}}, 1);
    return r;
}
Poly powp(const Poly &a, unsigned e)
{
    Poly r = cst(1);
    for (unsigned i = 0; i < e; ++i) r = rawmul(r, a);
    return r;
}
// square roots to exponents 0, 1 where that needs no division
Poly reduce(const Poly &p)
{
    uint32_t best = UINT32_MAX;
    for (auto &t : p)
        for (auto &f : t.first)
            if (atoms[f.first].kind == 2 && f.second >= 2 && (best == UINT32_MAX || f.first > best)) best = f.first;
    if (best == UINT32_MAX) return p;
    Poly r;
    for (auto &t : p) {
        Mono m;
        unsigned k = 0;
        for (auto &f : t.first) {
            if (f.first == best && f.second >= 2) {
                k = (unsigned)f.second / 2;
                if (f.second % 2) m.push_back({best, 1});
            } else
                m.push_back(f);
        }
        Poly q;
        q.emplace(m, t.second);
        if (k) q = rawmul(q, powp(atoms[best].def, k));
        for (auto &u : q) addTo(r, u.first, u.second);
    }
    return reduce(r);
}
Poly mul(const Poly &a, const Poly &b) { return reduce(rawmul(a, b)); }
// is p zero as a rational function? (sufficient)
bool isZero(Poly p)
{
    for (unsigned guard = 0; guard < 200; ++guard) {
        if (p.empty()) return true;
        uint32_t best = UINT32_MAX;
        for (auto &t : p)
            for (auto &f : t.first)
                if (atoms[f.first].kind && (best == UINT32_MAX || f.first > best)
                    && (atoms[f.first].kind == 1 || f.second < 0 || f.second > 1))
                    best = f.first;
        if (best == UINT32_MAX) return false;
        int lo = 0;
        for (auto &t : p)
            for (auto &f : t.first)
                if (f.first == best) lo = std::min(lo, f.second);
        std::map<int, Poly> pw;
        Poly r;
        for (auto &t : p) {
            Mono m;
            int e = -lo;
            for (auto &f : t.first) {
                if (f.first == best) e += f.second;
                else m.push_back(f);
            }
            Poly q;
            q.emplace(m, t.second);
            int k = atoms[best].kind == 1 ? e : e / 2;
            if (atoms[best].kind == 2 && e % 2) q = rawmul(q, atomPoly(best));
            if (k) {
                auto it = pw.find(k);
                if (it == pw.end()) it = pw.emplace(k, powp(atoms[best].def, (unsigned)k)).first;
                q = rawmul(q, it->second);
            }
            for (auto &u : q) addTo(r, u.first, u.second);
        }
        p.swap(r);
    }
    return false;
}
bool polyBad(const Poly &p)
{
    for (auto &t : p)
        for (auto &f : t.first)
            if (atoms[f.first].bad) return true;
    return false;
}
bool same(const Poly &a, uint64_t sa, const Poly &b, uint64_t sb)
{
    if (sa != sb && !polyBad(a) && !polyBad(b)) return false;
    if (a == b) return true;
    return isZero(add(a, b, -1));
}
uint32_t newAtom(Atom &&a)
{
    for (auto &p : a.args) a.bad = a.bad || polyBad(p);
    a.bad = a.bad || polyBad(a.def);
    if (!a.val) a.val = mixm(atoms.size() + 77777);
    atoms.push_back(std::move(a));
    return (uint32_t)atoms.size() - 1;
}
uint32_t fnAtom(const std::string &fn, const std::vector<Poly> &args, Node *cond = nullptr)
{
    std::vector<uint64_t> sg;
    for (auto &p : args) sg.push_back(sigOf(p));
    auto &v = byfn[fn + "/" + std::to_string(args.size())];
    for (auto i : v) {
        Atom &a = atoms[i];
        if (a.cond != cond) continue;
        bool eq = true;
        for (size_t j = 0; j < args.size() && eq; ++j) eq = same(atoms[i].args[j], atoms[i].sigs[j], args[j], sg[j]);
        if (eq) return i;
    }
    Atom a;
    a.fn = fn;
    a.args = args;
    a.sigs = sg;
    a.cond = cond;
    uint32_t id = newAtom(std::move(a));
    byfn[fn + "/" + std::to_string(args.size())].push_back(id);
    return id;
}
Poly neg(const Poly &p)
{
    Poly r(p);
    for (auto &t : r) t.second = -t.second;
    return r;
}
bool negLead(const Poly &p) { return !p.empty() && p.rbegin()->second < 0; }
Poly inverse(const Poly &b)
{
    if (b.empty()) throw TooBig();
    // common monomial factor and leading coefficient out
    if (b.size() == 1) {
        Mono m = b.begin()->first;
        bool ok = true;
        for (auto &f : m) {
            f.second = -f.second;
            ok = ok && !(f.second > 1 && atoms[f.first].kind == 2);
        }
        Poly r;
        r.emplace(m, 1 / b.begin()->second);
        return ok ? r : reduce(r);
    }
    mpq_class lc = b.rbegin()->second;
    Poly n;
    for (auto &t : b) n.emplace(t.first, t.second / lc);
    uint64_t sg = sigOf(n);
    uint32_t id = UINT32_MAX;
    auto &v = byfn["1/"];
    for (auto i : v)
        if (same(atoms[i].def, atoms[i].sigs[0], n, sg)) {
            id = i;
            break;
        }
    if (id == UINT32_MAX) {
        Atom a;
        a.kind = 1;
        a.def = n;
        a.sigs = {sg};
        a.val = sg ? sg : 1;
        id = newAtom(std::move(a));
        byfn["1/"].push_back(id);
    }
    Poly r;
    r.emplace(Mono{{id, -1}}, 1 / lc);
    return r;
}
mpq_class exactq(double d)
{
    if (!(d == d) || d - d != 0) throw TooBig();
    return mpq_class(d);
}
double dv(u128 v)
{
    uint64_t x = (uint64_t)v;
    double d;
    memcpy(&d, &x, 8);
    return d;
}
const Poly &conv(Node *n);
Poly conv0(Node *n)
{
    switch (n->op) {
        case O_CONST: return cst(exactq(dv(n->val)));
        case O_FADD: return add(conv(n->k[0]), conv(n->k[1]));
        case O_FSUB: return add(conv(n->k[0]), conv(n->k[1]), -1);
        case O_FMUL: return mul(conv(n->k[0]), conv(n->k[1]));
        case O_FDIV: {
            // the factors of the denominator one by one
            Poly r = conv(n->k[0]);
            std::function<void(Node *, bool)> go = [&](Node *d, bool invert) {
                if (d->op == O_FMUL) {
                    go(d->k[0], invert);
                    go(d->k[1], invert);
                } else if (d->op == O_FDIV) {
                    go(d->k[0], invert);
                    go(d->k[1], !invert);
                } else
                    r = mul(r, invert ? inverse(conv(d)) : conv(d));
            };
            go(n->k[1], true);
            return r;
        }
        case O_XOR:
            if (n->width == 64 && P.isc(n->k[1]) && n->k[1]->val == ((u128)1 << 63)) return neg(conv(n->k[0]));
            break;
        case O_AND:
            if (n->width == 64 && P.isc(n->k[1]) && n->k[1]->val == maskw(63)) {
                Poly a = conv(n->k[0]);
                if (negLead(a)) a = neg(a);
                return atomPoly(fnAtom("abs", {a}));
            }
            break;
        case O_FSQRT: {
            const Poly &a = conv(n->k[0]);
            if (a.empty()) return a;
            uint64_t sg = sigOf(a);
            for (auto i : byfn["sqrt"])
                if (same(atoms[i].def, atoms[i].sigs[0], a, sg)) return atomPoly(i);
            Atom t;
            t.kind = 2;
            t.def = a;
            t.sigs = {sg};
            // a consistent value: a square root modulo the prime where there is one
            t.val = powm(sg, (MOD + 1) / 4);
            if (mulm(t.val, t.val) != sg) {
                t.val = 0;
                t.bad = true;
            }
            uint32_t id = newAtom(std::move(t));
            byfn["sqrt"].push_back(id);
            return atomPoly(id);
        }
        case O_ITE: return atomPoly(fnAtom("ite", {conv(n->k[1]), conv(n->k[2])}, n->k[0]));
        case O_UF: {
            const std::string &f = P.ufs[(size_t)n->val].name;
            std::vector<Poly> a;
            for (unsigned i = 0; i < n->nk; ++i) {
                Node *k = n->more ? (*n->more)[i] : n->k[i];
                if (k->width != 64) goto opaque;
                if (i == 0 && f.rfind("symuf", 0) == 0) { // the identity of the function: an integer
                    Poly id;
                    if (P.isc(k)) id = cst(mpq_class((unsigned long)k->val));
                    else id = atomPoly(fnAtom("#" + std::to_string(k->id), {}));
                    a.push_back(id);
                } else
                    a.push_back(conv(k));
            }
            if (f == "pow" && a.size() == 2 && P.isc(n->k[1])) { // a whole exponent
                double e = dv(n->k[1]->val);
                if (e >= 0. && e <= 16. && e == (double)(unsigned)e) {
                    Poly r = cst(1);
                    for (unsigned i = 0; i < (unsigned)e; ++i) r = mul(r, a[0]);
                    return r;
                }
            }
            if (f == "exp" && a.size() == 1) { // exp(-x) = 1 / exp(x)
                if (a[0].empty()) return cst(1);
                if (negLead(a[0])) return atomPoly(fnAtom(f, {neg(a[0])}), -1);
            }
            if ((f == "sin" || f == "tanh") && a.size() == 1) {
                if (a[0].empty()) return a[0];
                if (negLead(a[0])) return neg(atomPoly(fnAtom(f, {neg(a[0])})));
            }
            if (f == "cos" && a.size() == 1 && negLead(a[0])) a[0] = neg(a[0]);
            return atomPoly(fnAtom(f, a));
        }
        default: break;
    }
opaque:
    return atomPoly(fnAtom("#" + std::to_string(n->id), {}));
}
const Poly &conv(Node *n)
{
    auto it = memo.find(n);
    if (it != memo.end()) return it->second;
    Poly r;
    try {
        r = conv0(n);
    } catch (TooBig &) {
        r = atomPoly(fnAtom("#" + std::to_string(n->id), {})); // an opaque term
    }
    return memo.emplace(n, std::move(r)).first->second;
}
} // namespace

static std::string show(const Poly &p, int depth = 3)
{
    std::string r;
    for (auto &t : p) {
        r += (r.empty() ? "" : " + ") + t.second.get_str();
        for (auto &f : t.first) {
            Atom &a = atoms[f.first];
            r += "*" + std::string(a.kind == 1 ? "D" : a.kind == 2 ? "S" : a.fn) + std::to_string(f.first);
            if (f.second != 1) r += "^" + std::to_string(f.second);
            if (depth > 0 && a.kind) r += "[" + show(a.def, depth - 1) + "]";
            if (depth > 0 && !a.kind && !a.args.empty()) {
                r += "(";
                for (auto &q : a.args) r += show(q, depth - 1) + ",";
                r += ")";
            }
        }
    }
    return r.empty() ? "0" : r;
}
// 0: equal; 1: different as rational functions over the atoms (which may still be equal); -1: too big
int ratEqual(Node *a, Node *b)
{
    try {
        Poly d = add(conv(a), conv(b), -1);
        if (d.empty()) return 0;
        if (getenv("SYMEX_RAT") && !isZero(d)) fprintf(stderr, "[rat] %s\n", show(d).c_str());
        if (sigOf(d) != 0 && !polyBad(d)) return 1;
        return isZero(d) ? 0 : 1;
    } catch (TooBig &) {
        return -1;
    }
}

// sign(a - b) = sign * sign(x - y) for a representative pair (x, y); or sign = 0 and a - b is a constant of sign `cst`
bool ratCompare(Node *a, Node *b, Node *&x, Node *&y, int &sign, int &cs)
{
    struct Rep {
        Poly p;
        Node *x, *y;
    };
    static std::unordered_map<uint64_t, std::vector<Rep>> reps;
    try {
        Poly d = add(conv(a), conv(b), -1);
        if ((sigOf(d) == 0 || polyBad(d)) && isZero(d)) {
            sign = cs = 0;
            return true;
        }
        if (d.size() == 1 && d.begin()->first.empty()) {
            sign = 0;
            cs = d.begin()->second > 0 ? 1 : -1;
            return true;
        }
        // squares and exponentials are not decided here; scale by the magnitude of the leading coefficient
        mpq_class lc = d.rbegin()->second;
        bool ng = lc < 0;
        for (auto &t : d) t.second /= lc;
        uint64_t sg = sigOf(d);
        if (polyBad(d)) sg = 0;
        for (auto &r : reps[sg])
            if (same(r.p, sg, d, sg)) {
                x = r.x;
                y = r.y;
                sign = ng ? -1 : 1;
                return true;
            }
        if (ng) std::swap(a, b);
        reps[sg].push_back({d, a, b});
        x = a;
        y = b;
        sign = ng ? -1 : 1;
        return true;
    } catch (TooBig &) {
        return false;
    }
}
