#include "exec.h"
#include <cstdio>
#include <fstream>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <pthread.h>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;
static std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; }
    return r + "\"";
}
static int g_argc; static char** g_argv; static int g_rc = 0;
static void realMain()
{
    Exec& E = *new Exec(); // never destroyed: globals outlive it
    std::string entry, out; std::vector<std::string> mods, needed;
    for (int i = 1; i < g_argc; i++) {
        std::string a = g_argv[i];
        auto nx = [&]() { return std::string(g_argv[++i]); };
        if (a == "--entry") entry = nx();
        else if (a == "--out") out = nx();
        else if (a == "--time") E.timeBudget = atof(nx().c_str());
        else if (a == "--param") { std::string kv = nx(); auto p = kv.find('='); E.params[kv.substr(0, p)] = kv.substr(p + 1); }
        else if (a == "--samples") E.samples = atoi(nx().c_str());
        else if (a == "--seed") E.seed = atoi(nx().c_str());
        else if (a == "--max-path-insts") E.maxPathInsts = strtoull(nx().c_str(), 0, 0);
        else if (a == "--stop-after") E.stopAfter = atoi(nx().c_str());
        else if (a == "--query-timeout") g_queryTimeoutMs = atoi(nx().c_str());
        else if (a == "--repo-prefix") E.repoPrefix = nx();
        else if (a == "--lib") needed.push_back(nx());
        else mods.push_back(a);
    }
    E.outDir = out;
    LLVMContext& C = *new LLVMContext();
    C.setDiagnosticHandlerCallBack([](const DiagnosticInfo&, void*) {}, nullptr);
    SMDiagnostic err;
    std::unique_ptr<Module> M;
    auto parse = [&](const std::string& f) { auto m = parseIRFile(f, err, C); if (!m) { err.print("vpexec", errs()); exit(3); } return m; };
    for (auto& f : mods) { auto m = parse(f); if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) { fprintf(stderr, "link failed %s\n", f.c_str()); exit(3); } }
    for (auto& f : needed) { auto m = parse(f); if (Linker::linkModules(*M, std::move(m), Linker::LinkOnlyNeeded)) { fprintf(stderr, "link failed %s\n", f.c_str()); exit(3); } }
    E.M = M.release();
    registerHandlers();
    solverInit();
    E.setup(entry);
    E.run();
    std::string j = "{";
    auto num = [&](const char* k, double v) { char b[64]; snprintf(b, 64, "%.17g", v); j += jstr(k) + ":" + b + ","; };
    j += "\"entry\":" + jstr(entry) + ",";
    num("paths", E.paths); num("paths_done", E.pathsDone); num("assumed_out", E.assumedOut); num("insts", E.insts); num("forks", E.forks); num("branches", E.branches); num("asserts", E.asserts);
    num("queries", g_sstats.queries); num("z3_calls", g_sstats.z3calls); num("cache_hits", g_sstats.cacheHits); num("model_hits", g_sstats.modelHits); num("sat", g_sstats.satN); num("unsat", g_sstats.unsatN);
    num("unknown", g_sstats.unknown); num("solver_s", g_sstats.z3s); num("max_query_s", g_sstats.maxs); num("exprs", exprCount());
    auto mp = [&](const char* k, std::map<std::string, uint64_t>& m) { j += jstr(k) + ":{"; bool f = true; for (auto& p : m) { if (!f) j += ","; f = false; j += jstr(p.first) + ":" + std::to_string(p.second); } j += "},"; };
    mp("incomplete", E.incomplete); mp("reach", E.reach);
    j += "\"functions\":["; { bool f = true; for (auto& x : E.repoFuncs) { if (!f) j += ","; f = false; j += jstr(x); } } j += "],";
    j += "\"samples\":["; { bool f = true; for (auto& x : E.sampleFiles) { if (!f) j += ","; f = false; j += jstr(x); } } j += "],";
    j += "\"violations\":[";
    for (size_t i = 0; i < E.viols.size(); i++) {
        auto& v = E.viols[i];
        std::string fn = out + "/viol" + std::to_string(i) + ".txt";
        std::ofstream(fn) << v.witness;
        if (i) j += ",";
        j += "{\"kind\":" + jstr(v.kind) + ",\"msg\":" + jstr(v.msg) + ",\"loc\":" + jstr(v.loc) + ",\"havoc\":" + (v.havoc ? "true" : "false") + ",\"witness\":" + jstr(fn) + ",\"stack\":[";
        for (size_t k = 0; k < v.stack.size() && k < 24; k++) { if (k) j += ","; j += jstr(v.stack[k]); }
        j += "]}";
    }
    j += "]}";
    if (!out.empty()) std::ofstream(out + "/result.json") << j << "\n";
    else printf("%s\n", j.c_str());
    fflush(stdout);
    _exit(0);
}
static void* thr(void*) { realMain(); return nullptr; }
int main(int argc, char** argv)
{
    g_argc = argc; g_argv = argv;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, (size_t)2 << 30);
    pthread_t t; pthread_create(&t, &at, thr, nullptr); pthread_join(t, nullptr);
    return g_rc;
}
