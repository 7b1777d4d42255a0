#include "exec.hpp"
#include <chrono>
#include <cstring>
#include <cstdio>
#include <cxxabi.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/FileSystem.h>

using namespace llvm;

static double nowt()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static std::string dem(const std::string &s)
{
    int st;
    char *d = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st);
    std::string r = (st == 0 && d) ? d : s;
    free(d);
    return r;
}
static std::string js(const std::string &s)
{
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

static int prep(int argc, char **argv)
{
    LLVMContext C;
    SMDiagnostic err;
    std::unique_ptr<Module> M;
    std::string out;
    for (int i = 2; i < argc; ++i) {
        if (!strcmp(argv[i], "-o")) { out = argv[++i]; continue; }
        auto m = parseIRFile(argv[i], err, C);
        if (!m) { err.print("symex", errs()); return 2; }
        if (!M) M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m))) return 2;
    }
    for (auto &F : *M) {
        if (F.isDeclaration()) continue;
        std::string d = dem(F.getName().str());
        auto has = [&](const char *p) { return d.find(p) != std::string::npos; };
        if (F.hasAvailableExternallyLinkage()) {
            bool io = has("basic_ostream") || has("std::ostream") || has("basic_ios") || has("ios_base") || has("stringstream") || has("basic_streambuf")
                      || has("stringbuf") || has("std::locale") || has("basic_istream") || has("filebuf") || has("fstream");
            if (io) { F.deleteBody(); continue; }
            F.setLinkage(GlobalValue::LinkOnceODRLinkage);
        } else if (has("std::basic_ostream<char, std::char_traits<char> >& std::operator<<") || has("std::operator<< <std::char_traits<char> >")
                   || has("basic_stringstream<char") || has("basic_ostringstream<char") || has("basic_stringbuf<char")) {
            F.deleteBody();
            F.setComdat(nullptr);
            F.setLinkage(GlobalValue::ExternalLinkage);
            continue;
        }
        if (has("dcgp::") || d.compare(0, 4, "sym_") == 0) {
            if (!F.hasFnAttribute(Attribute::AlwaysInline)) F.addFnAttr(Attribute::NoInline);
        }
        F.removeFnAttr(Attribute::OptimizeNone);
    }
    for (auto &g : M->globals())
        if (g.hasAvailableExternallyLinkage()) { g.setLinkage(GlobalValue::LinkOnceODRLinkage); }
    PipelineTuningOptions PTO;
    PTO.LoopVectorization = false;
    PTO.SLPVectorization = false;
    PTO.LoopUnrolling = false;
    PTO.LoopInterleaving = false;
    PassBuilder PB(nullptr, PTO);
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1);
    MPM.run(*M, MAM);
    if (verifyModule(*M, &errs())) return 2;
    std::error_code ec;
    raw_fd_ostream os(out, ec);
    WriteBitcodeToFile(*M, os);
    return 0;
}

int main(int argc, char **argv)
{
    if (argc > 2 && !strcmp(argv[1], "prep")) return prep(argc, argv);
    std::string in, entry = "harness", out;
    std::map<std::string, std::string> params;
    double tlimit = 600;
    bool verbose = false, realCmp = false;
    unsigned cto = 20000, rto = 20000, maxCand = 6;
    uint64_t maxPathSteps = 20000000;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--entry") entry = argv[++i];
        else if (a == "--out") out = argv[++i];
        else if (a == "--time") tlimit = atof(argv[++i]);
        else if (a == "--verbose") verbose = true;
        else if (a == "--real-cmp") realCmp = true;
        else if (a == "--check-timeout") cto = (unsigned)atoi(argv[++i]);
        else if (a == "--real-timeout") rto = (unsigned)atoi(argv[++i]);
        else if (a == "--max-cand") maxCand = (unsigned)atoi(argv[++i]);
        else if (a == "--path-steps") maxPathSteps = strtoull(argv[++i], nullptr, 10);
        else if (a == "--param") {
            std::string kv = argv[++i];
            size_t p = kv.find('=');
            params[kv.substr(0, p)] = kv.substr(p + 1);
        } else in = a;
    }
    LLVMContext C;
    SMDiagnostic err;
    auto M = parseIRFile(in, err, C);
    if (!M) { err.print("symex", errs()); return 2; }
    double t0 = nowt();
    Exec E(M.get());
    E.params = params;
    E.deadline = t0 + tlimit;
    E.quiet = !verbose;
    E.checkTimeout = cto;
    E.realTimeout = rto;
    E.realCmp = realCmp;
    E.maxCand = maxCand;
    E.maxPathSteps = maxPathSteps;
    E.solver().timeout_ms = cto;
    try {
        E.run(entry);
    } catch (EngineError &e) {
        E.error = e.msg;
    } catch (std::string &e) {
        E.error = e;
    }
    double wall = nowt() - t0;
    FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(f, "{\n \"error\": %s,\n \"complete\": %s,\n \"paths\": %llu, \"killed\": %llu, \"forks\": %llu, \"steps\": %llu,\n", js(E.error).c_str(),
            (E.complete && E.error.empty()) ? "true" : "false", (unsigned long long)E.paths, (unsigned long long)E.killed, (unsigned long long)E.forks,
            (unsigned long long)E.steps);
    fprintf(f, " \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"cache_hits\": %llu, \"model_hits\": %llu, \"folded\": %llu, \"core_hits\": %llu, \"fp_queries\": %llu, "
               "\"real_queries\": %llu, \"solver_s\": %.3f, \"wall_s\": %.3f, \"uninit_reads\": %llu,\n",
            (unsigned long long)SS.queries, (unsigned long long)SS.sat, (unsigned long long)SS.unsat, (unsigned long long)SS.unknown,
            (unsigned long long)SS.cachehits, (unsigned long long)SS.modelhits, (unsigned long long)SS.folded, (unsigned long long)SS.corehits, (unsigned long long)SS.fpq, (unsigned long long)SS.realq, SS.time, wall,
            (unsigned long long)E.uninitReads);
    auto sep = [&](bool &first) { fprintf(f, first ? "" : ","); first = false; };
    bool first = true;
    fprintf(f, " \"ends\": {");
    for (auto &x : E.endreasons) { sep(first); fprintf(f, "%s: %llu", js(x.first).c_str(), (unsigned long long)x.second); }
    fprintf(f, "},\n \"reach\": {");
    first = true;
    for (auto &x : E.reach) { sep(first); fprintf(f, "%s: %llu", js(x.first).c_str(), (unsigned long long)x.second); }
    fprintf(f, "},\n \"checks\": {");
    first = true;
    for (auto &x : E.checks) {
        sep(first);
        auto &c = x.second;
        fprintf(f, "\n  %s: {\"reached\": %llu, \"proved\": %llu, \"structural\": %llu, \"fp\": %llu, \"real\": %llu, \"failed\": %llu, \"unknown\": %llu}",
                js(x.first).c_str(), (unsigned long long)c.reached, (unsigned long long)c.proved, (unsigned long long)c.trivially,
                (unsigned long long)c.fpproved, (unsigned long long)c.realproved, (unsigned long long)c.failed, (unsigned long long)c.unknown);
    }
    fprintf(f, "},\n \"functions\": [");
    first = true;
    for (auto &x : E.funcs) { sep(first); fprintf(f, "\n  %s", js(x).c_str()); }
    fprintf(f, "],\n \"externals\": [");
    first = true;
    for (auto &x : E.externs) { sep(first); fprintf(f, "%s", js(x).c_str()); }
    fprintf(f, "],\n \"candidates\": [");
    first = true;
    for (auto &c : E.cands) {
        sep(first);
        fprintf(f, "\n  {\"kind\": %s, \"msg\": %s, \"where\": %s, \"inputs\": [", js(c.kind).c_str(), js(c.msg).c_str(), js(c.where).c_str());
        bool f2 = true;
        for (auto &i : c.inputs) {
            sep(f2);
            auto &v = P.vars[i.first];
            fprintf(f, "{\"name\": %s, \"w\": %u, \"fp\": %d, \"free\": %d, \"value\": \"%llu\"}", js(v.name).c_str(), v.width, v.isfp ? 1 : 0,
                    c.freevars.count(i.first) ? 1 : 0, (unsigned long long)i.second);
        }
        fprintf(f, "]}");
    }
    fprintf(f, "]\n}\n");
    if (f != stdout) fclose(f);
    return E.error.empty() ? 0 : 3;
}
