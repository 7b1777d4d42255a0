// Hash-consed bit-vector / floating point terms, simplifier, value sets, z3 translation.
#pragma once
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <memory>
#include <z3.h>

typedef unsigned __int128 u128;

enum Op : uint8_t {
    O_CONST, O_VAR, O_UF,
    O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
    O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT,
    O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FSQRT, O_FOLT, O_FOLE, O_FOEQ, O_FUNO,
    O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FPEXT, O_FPTRUNC
};

struct Node {
    Op op;
    uint8_t nk;
    uint16_t width;
    uint32_t id;
    u128 val; // constant value, var index, uf id, extract low bit
    Node *k[3];
    std::vector<Node *> *more; // UF arguments
    size_t hash;
};

struct Val {
    uint64_t c;
    Node *n;
    Val() : c(0), n(nullptr) {}
    Val(uint64_t x) : c(x), n(nullptr) {}
    static Val sym(Node *n)
    {
        Val v;
        v.n = n;
        return v;
    }
    bool conc() const { return n == nullptr; }
};

struct VarInfo {
    std::string name;
    unsigned width;
    bool isfp;
    bool ranged;
    uint64_t lo, hi; // inclusive domain if ranged
    Node *node;
};

typedef std::vector<uint64_t> VSet;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

struct UFInfo {
    std::string name;
    unsigned width;
};

typedef std::unordered_map<uint32_t, uint64_t> Assign; // var index -> value

// z3 translation modes
enum Mode { M_UF = 0, M_FP = 1, M_REAL = 2 };

class Pool
{
public:
    Pool();
    Node *mk(Op op, unsigned w, std::initializer_list<Node *> kids, u128 val = 0);
    Node *cst(u128 v, unsigned w);
    Node *var(const std::string &name, unsigned w, bool fp, bool ranged, uint64_t lo, uint64_t hi);
    Node *uf(const std::string &name, unsigned w, const std::vector<Node *> &args);
    // simplifying constructors
    Node *bin(Op op, Node *a, Node *b);
    Node *ite(Node *c, Node *a, Node *b);
    Node *zext(Node *a, unsigned w);
    Node *sext(Node *a, unsigned w);
    Node *extract(Node *a, unsigned lo, unsigned w);
    Node *concat(Node *hi, Node *lo);
    Node *un(Op op, Node *a, unsigned w);
    Node *bnot(Node *a); // boolean negation (width 1)
    bool isc(Node *a) const { return a->op == O_CONST; }
    bool fold(Op op, unsigned w, const u128 *v, const unsigned *kw, unsigned nk, u128 aux, u128 &out);
    const VSet *valset(Node *a); // nullptr if too large
    // evaluation under assignment (memo per call)
    bool eval(Node *a, const Assign &as, uint64_t &out, std::unordered_map<Node *, u128> &memo);
    bool evalw(Node *a, const Assign &as, u128 &out, std::unordered_map<Node *, u128> &memo);
    // support variables
    const std::vector<uint32_t> &support(Node *a);
    Node *deriv(Node *t, Node *v, std::unordered_map<Node *, Node *> &memo, bool &ok);
    std::string str(Node *a, int depth = 6);
    std::vector<VarInfo> vars;
    std::vector<UFInfo> ufs;
    uint32_t count = 0;

private:
    struct H {
        size_t operator()(const Node *n) const { return n->hash; }
    };
    struct E {
        bool operator()(const Node *a, const Node *b) const;
    };
    std::unordered_set<Node *, H, E> tab;
    std::map<std::string, uint32_t> ufidx;
    std::unordered_map<Node *, std::unique_ptr<VSet>> vsets;
    std::unordered_map<Node *, std::unique_ptr<std::vector<uint32_t>>> supp;
    Node *intern(Node &tmp);
};

extern Pool P;
int ratEqual(Node *a, Node *b);
bool ratCompare(Node *a, Node *b, Node *&x, Node *&y, int &sign, int &cst);
double ufEval(const std::string &name, const std::vector<double> &args, bool &known);

struct SolverStats {
    uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cachehits = 0, modelhits = 0, folded = 0, corehits = 0;
    uint64_t fpq = 0, realq = 0;
    double time = 0;
};
extern SolverStats SS;

// result: 1 sat, 0 unsat, -1 unknown
class Solver
{
public:
    Solver();
    int check(const std::vector<Node *> &pc, Node *extra, Assign *model);
    int checkInc(const std::vector<Node *> &pc, Node *extra, unsigned timeout_ms, Assign *model);
    struct Inc { // an incremental solver; constraints are asserted once, each behind a guard literal
        Z3_solver s = nullptr;
        unsigned count = 0;
        std::unordered_map<Node *, Z3_ast> guards;
        std::set<uint32_t> dom;
    } incs[2]; // [1]: only Booleans and bit-vectors (finite domain solver)
    int checkInc(const std::vector<Node *> &pc, Node *extra, unsigned timeout_ms, Assign *model, Inc &q, bool fd);
    bool finite(Node *n);
    std::unordered_map<uint32_t, std::vector<std::vector<uint32_t>>> cores; // refuted condition -> sets of constraints that refute it
    std::unordered_map<Node *, bool> finiteMemo;
    int checkMode(const std::vector<Node *> &pc, Node *extra, Mode m, unsigned timeout_ms, Assign *model);
    // real-valued identity: is there an assignment with a != b (over the reals)?  0 = proved equal
    int checkRealEq(const std::vector<Node *> &pc, Node *a, Node *b, unsigned timeout_ms, Assign *model);
    int realEq1(const std::vector<Node *> &pc, Node *a, Node *b, unsigned timeout_ms, Assign *model);
    void realFacts(Z3_solver s, const std::vector<Node *> &roots, const std::set<uint32_t> &need);
    int checkRealBool(const std::vector<Node *> &pc, Node *c, unsigned timeout_ms, Assign *model = nullptr);
    void realModel(Z3_model md, const std::set<uint32_t> &need, Assign &model); // 0: c cannot be, over the reals
    void sweepReal(const std::vector<Node *> &pc, Node *&a, Node *&b);
    unsigned timeout_ms = 20000;
    unsigned default_mode = M_UF;

private:
    Z3_context ctx;
    Z3_solver slv;
    std::vector<Node *> stack; // asserted constraints in slv (each under a push)
    Z3_ast tr(Node *n, Mode m);
    Z3_ast trBV(Node *n, Mode m);
    Z3_ast trReal(Node *n);
    Z3_ast trBoolReal(Node *n), trBVReal(Node *n);
    Z3_ast ufapp(const std::string &name, unsigned w, const std::vector<Z3_ast> &args);
    Z3_ast ufappReal(const std::string &name, const std::vector<Z3_ast> &args);
    std::unordered_map<Node *, Z3_ast> memo[3];
    std::unordered_map<Node *, Z3_ast> memoRB; // booleans in real mode
    std::unordered_map<uint32_t, Z3_ast> varast, varreal;
    std::map<std::string, Z3_func_decl> fdecl, fdeclReal;
    std::map<std::pair<std::vector<uint32_t>, int>, std::pair<int, Assign>> cache;
    Z3_ast b2bv(Z3_ast b);
    Z3_ast bv2b(Z3_ast b);
    Z3_ast tofp(Z3_ast bv, unsigned w);
    Z3_ast nanp(Z3_ast a, unsigned w);
    std::vector<Z3_ast> domainAsserts;
    void collectVars(Node *n, std::set<uint32_t> &out, std::unordered_set<Node *> &seen);
    Z3_ast bvconst(u128 v, unsigned w);
    void getModel(Z3_solver s, const std::vector<Node *> &roots, Mode m, Assign *model);
};
