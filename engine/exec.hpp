#pragma once
#include "expr.hpp"
#include <functional>
#include <deque>
#include <memory>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>

struct SymByte {
    Node *n;
    uint16_t idx;
};
enum { B_UNINIT = 0, B_CONC = 1, B_SYM = 2 };

struct Obj {
    uint32_t idx = 0;
    uint64_t base = 0, size = 0;
    bool alive = true, ro = false;
    uint8_t kind = 0; // 0 global, 1 stack, 2 new, 3 malloc, 4 new[]
    int owner = -1;   // parallel task that allocated it
    std::string name;
    std::vector<uint8_t> data, st;
    std::vector<SymByte> sym;
    int nuninit = 0;
};
typedef std::shared_ptr<Obj> ObjP;

// two-level persistent vector of objects
struct Mem {
    static const unsigned PB = 6;
    struct Page {
        ObjP o[1 << PB];
    };
    std::vector<std::shared_ptr<Page>> pages;
    uint32_t n = 0;
    Obj *get(uint32_t i) const
    {
        if (i >= n) return nullptr;
        return pages[i >> PB]->o[i & ((1 << PB) - 1)].get();
    }
    Obj *wr(uint32_t i)
    {
        auto &pg = pages[i >> PB];
        if (pg.use_count() > 1) pg = std::make_shared<Page>(*pg);
        auto &o = pg->o[i & ((1 << PB) - 1)];
        if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
        return o.get();
    }
    uint32_t add(ObjP p)
    {
        uint32_t i = n++;
        if ((i >> PB) >= pages.size()) pages.push_back(std::make_shared<Page>());
        auto &pg = pages[i >> PB];
        if (pg.use_count() > 1) pg = std::make_shared<Page>(*pg);
        pg->o[i & ((1 << PB) - 1)] = p;
        return i;
    }
    void drop(uint32_t i) // forget the contents of a dead object
    {
        auto &pg = pages[i >> PB];
        if (pg.use_count() > 1) pg = std::make_shared<Page>(*pg);
        pg->o[i & ((1 << PB) - 1)] = nullptr;
    }
};

struct Operand {
    int slot = -1;
    Val c;
};
struct Scalar {
    unsigned width;
    bool fp;
    unsigned off;
};
struct PInst;
struct Edge {
    std::vector<std::pair<int, Operand>> moves;
    unsigned target = 0;
};
struct PInst {
    unsigned op = 0;
    const llvm::Instruction *I = nullptr;
    int dst = -1;
    std::vector<Scalar> res;       // flattened result
    std::vector<Operand> ops;      // flattened operands
    std::vector<unsigned> opn;     // slots per original operand
    unsigned w = 0;                // operand width for scalar ops
    uint64_t imm = 0;
    std::vector<std::pair<Operand, std::pair<unsigned, int64_t>>> gep; // operand, (width, scale)
    std::vector<Edge> edges;
    std::vector<std::pair<u128, unsigned>> cases;
    const llvm::Function *callee = nullptr;
    int native = -1; // native handler id
    int intrin = 0;
    std::vector<std::pair<unsigned, uint64_t>> byval; // arg index, size
};
struct PFunc {
    const llvm::Function *F = nullptr;
    std::string name, dem;
    unsigned nslots = 0;
    std::vector<int> argslot;
    std::vector<std::vector<PInst>> bbs;
    std::map<const llvm::BasicBlock *, unsigned> bbidx;
    uint64_t calls = 0;
    bool ours = false;
};
struct Frame {
    PFunc *f;
    unsigned bb = 0, pc = 0;
    std::vector<Val> r;
    std::vector<uint32_t> allocas;
    const PInst *call = nullptr; // call instruction in the caller
    Val curexc[2];
};
struct Exc {
    uint64_t obj, ti;
    int handlers = 0;
};
struct Access {
    uint32_t off, size;
    bool wr;
    int task;
    uint32_t lockset;
    bool operator<(const Access &o) const
    {
        return std::tie(off, size, wr, task, lockset) < std::tie(o.off, o.size, o.wr, o.task, o.lockset);
    }
};
struct State {
    std::vector<Frame> st;
    Mem mem;
    std::vector<Node *> pc;
    std::unordered_map<Node *, uint64_t> known;
    std::map<uint32_t, uint64_t> dom; // values still possible (as a mask) of the variables with at most 64 values
    Assign model;
    bool modelValid = true;
    std::shared_ptr<std::unordered_map<Node *, u128>> memo;
    std::vector<Exc> caught;       // stack of handlers
    std::map<uint64_t, uint64_t> exctype; // exception object -> typeinfo
    uint64_t steps = 0;
    std::vector<uint32_t> inputs;  // symbolic inputs in creation order
    unsigned pathForks = 0;
    int task = -1;
    uint32_t taskStart = 0;
    std::set<uint64_t> locks;
    std::map<uint32_t, std::set<Access>> acc;
    std::map<std::string, uint64_t> kv; // harness scratch
    std::map<uint64_t, std::vector<Val>> streams; // what was written to each output stream
    int uncaught = 0;
    bool infeasibleRisk = false;
};

struct PathEnd {
    std::string why;
};
struct EngineError {
    std::string msg;
};

struct Candidate {
    std::string kind, msg, where;
    std::vector<std::pair<uint32_t, uint64_t>> inputs;
    std::set<uint32_t> freevars; // fp inputs unconstrained
};

struct CheckStat {
    uint64_t reached = 0, proved = 0, failed = 0, unknown = 0, trivially = 0, fpproved = 0, realproved = 0;
};

class Exec
{
public:
    Exec(llvm::Module *m);
    void run(const std::string &entry);
    std::map<std::string, std::string> params;
    double deadline = 0;
    uint64_t maxSteps = 20000000000ull, maxPathSteps = 20000000;
    unsigned maxPaths = 1000000;
    unsigned maxCand = 6;
    bool realCmp = false;
    unsigned checkTimeout = 20000, realTimeout = 20000;
    bool exactFP = false;
    bool quiet = true;
    // results
    uint64_t paths = 0, killed = 0, forks = 0, steps = 0;
    std::vector<Candidate> cands;
    std::map<std::string, CheckStat> checks;
    std::map<std::string, uint64_t> reach;
    std::vector<std::string> inconclusive;
    std::map<std::string, uint64_t> endreasons;
    std::set<std::string> funcs, externs;
    std::string error;
    bool complete = true;
    uint64_t uninitReads = 0;

public:
    llvm::Module *M;
    const llvm::DataLayout &DL;
    Solver S;
    State *cs = nullptr; // current state
    std::vector<std::unique_ptr<State>> work;
    std::map<const llvm::GlobalValue *, uint64_t> gaddr;
    std::map<uint64_t, const llvm::Function *> faddr;
    std::unordered_map<const llvm::Function *, std::unique_ptr<PFunc>> pfs;
    std::map<std::string, int> nativeId;
    typedef std::function<void(Exec &, const PInst &, std::vector<Val> &, std::vector<Val> &)> Native;
    std::vector<std::pair<std::string, Native>> natives;
    std::map<std::string, uint64_t> tinfoByName;
    std::map<uint64_t, std::string> tinfoName;
    std::map<std::string, std::vector<std::string>> tbases;
    std::map<uint64_t, std::vector<std::string>> tnames;
    bool setup = false;
    std::string curLoc();
    friend struct NativeAccess;

    PFunc *prep(const llvm::Function *F);
    void flatten(llvm::Type *T, unsigned off, std::vector<Scalar> &out);
    void constant(const llvm::Constant *C, std::vector<Val> &out);
    void operand(PFunc &pf, std::map<const llvm::Value *, int> &slots, const llvm::Value *v, std::vector<Operand> &out);
    void initGlobal(const llvm::Constant *C, uint64_t addr);
    uint64_t globalAddr(const llvm::GlobalValue *G);
    void registerNatives();
    int lookupNative(const std::string &name);

    // state ops
    void step();
    void execInst(const PInst &I);
    void gotoEdge(const Edge &e);
    void call(const llvm::Function *F, const PInst &I, std::vector<Val> &args);
    void doReturn(std::vector<Val> rv);
    void unwind(uint64_t obj, uint64_t ti);
    bool matches(uint64_t thrown, uint64_t caught);
    bool derives(const std::string &t, const std::string &b);
    void pushFrame(PFunc *pf, std::vector<Val> &args, const PInst *call);
    void popFrame();

public:
    Val get(const Operand &o)
    {
        if (o.slot < 0) return o.c;
        Val v = cs->st.back().r[(size_t)o.slot];
        if (v.n) return simp(v);
        return v;
    }
    Val simp(Val v)
    {
        if (v.n) {
            if (v.n->op == O_CONST && v.n->width <= 64) return Val((uint64_t)v.n->val);
            auto it = cs->known.find(v.n);
            if (it != cs->known.end()) return Val(it->second);
        }
        return v;
    }
    Node *nd(Val v, unsigned w) { return v.n ? v.n : P.cst(v.c, w); }
    static Val mkv(Node *n)
    {
        if (n->op == O_CONST && n->width <= 64) return Val((uint64_t)n->val);
        return Val::sym(n);
    }
    uint64_t alloc(uint64_t size, uint8_t kind, const std::string &name, bool zero = false);
    void freeObj(uint64_t addr, int kind);
    Val load(Val p, unsigned width);
    void store(Val p, Val v, unsigned width);
    Val readObj(Obj *o, uint64_t off, unsigned width);
    void writeObj(Obj *o, uint64_t off, Val v, unsigned width);
    void copyBytes(uint64_t dst, uint64_t src, uint64_t n);
    struct Loc {
        Node *guard;
        uint32_t idx;
        uint64_t off;
    };
    void resolve(Val p, unsigned bytes, bool wr, std::vector<Loc> &out);
    Obj *objAt(uint64_t addr, uint64_t bytes, uint64_t &off);
    void access(uint32_t idx, uint64_t off, unsigned bytes, bool wr);
    bool decide(Node *c);             // branch; may fork
    bool splitCmp(Node *t);
    bool splitIte(Node *t);
    Node *pinTerm(Node *t); // the same term with everything the path condition implies about its integer variables folded in
    uint64_t concretize(Val v, unsigned w);
    bool feasible(Node *c);
    void assume(Node *c);
    void addPC(Node *c);
    void fork(Node *c);
    void checkCond(Node *c, const std::string &msg, const std::string &kind);
    void violation(const std::string &kind, const std::string &msg, Node *extra, Assign *m = nullptr);
    void refreshModel(const Assign &m);
    bool modelEval(Node *n, uint64_t &v);
    uint64_t domain(uint32_t v);
    void narrow(Node *c);
    int quick(Node *c);
    bool pinnedValue(Node *n, uint64_t &r);
    std::string cstr(Val p);
    State &state() { return *cs; }
    Solver &solver() { return S; }
    Val newInput(const std::string &name, unsigned w, bool fp, bool ranged, uint64_t lo, uint64_t hi);
    void throwStd(const std::string &ti);
    void checkDiv(Val d, unsigned w);
};
