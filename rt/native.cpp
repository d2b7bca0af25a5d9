// Concrete implementation of the harness API: replays a witness against the natively compiled sources.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
struct In { char k; std::string name; uint64_t v; std::vector<uint8_t> b; };
static std::vector<In> g_in; static size_t g_pos; static std::map<std::string, uint64_t> g_params;
static FILE* g_out;
static const In* next(char k, const char* name)
{
    if (g_pos >= g_in.size()) { fprintf(g_out, "X input exhausted at %s\n", name); fflush(g_out); _exit(3); }
    const In* i = &g_in[g_pos++];
    if (i->k != k) { fprintf(g_out, "X input kind mismatch at %s\n", name); fflush(g_out); _exit(3); }
    return i;
}
extern "C" {
void vp_bytes(void* p, size_t n, const char* name)
{
    const In* i = next('B', name);
    if (i->b.size() != n) { fprintf(g_out, "X size mismatch at %s\n", name); fflush(g_out); _exit(3); }
    if (n) memcpy(p, i->b.data(), n);
}
uint64_t vp_range(uint64_t lo, uint64_t hi, const char* name) { uint64_t v = next('V', name)->v; if (v < lo || v > hi) { fprintf(g_out, "X range %s\n", name); fflush(g_out); _exit(3); } return v; }
uint64_t vp_choose(uint64_t n, const char* name) { uint64_t v = next('V', name)->v; if (v >= n) { fprintf(g_out, "X choose %s\n", name); fflush(g_out); _exit(3); } return v; }
uint64_t vp_fix(uint64_t v) { return v; }
void vp_assume(bool c) { if (!c) { fprintf(g_out, "X assume\n"); fflush(g_out); _exit(3); } }
void vp_assert(bool c, const char* msg) { if (!c) { fprintf(g_out, "A %s\n", msg); fflush(g_out); _exit(1); } }
void vp_reach(const char* t) { fprintf(g_out, "R %s\n", t); }
void vp_observe(uint64_t v) { fprintf(g_out, "O %llu\n", (unsigned long long)v); }
uint64_t vp_param(const char* n, uint64_t d) { auto it = g_params.find(n); return it == g_params.end() ? d : it->second; }
uint64_t vp_symbolic() { return 0; }
void vp_fork_selects() {}
void vp_hang_limit(uint64_t) {}
void vp_uf(uint64_t, const void*, size_t, void* out, size_t n, int)
{
    const In* i = next('B', "uf");
    if (i->b.size() != n) { fprintf(g_out, "X uf size\n"); fflush(g_out); _exit(3); }
    memcpy(out, i->b.data(), n);
}
void vp_end() { fprintf(g_out, "E\n"); fflush(g_out); _exit(0); }
void HARNESS_ENTRY();
}
int main(int argc, char** argv)
{
    g_out = stdout;
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::ifstream f(argv[1]);
    std::string t;
    while (f >> t) {
        In i; i.k = t[0]; i.v = 0;
        if (t == "B") { size_t n; std::string h; f >> i.name >> n >> h; for (size_t k = 0; k < n; k++) i.b.push_back((uint8_t)strtoul(h.substr(2 * k, 2).c_str(), 0, 16)); g_in.push_back(i); }
        else if (t == "V") { f >> i.name >> i.v; g_in.push_back(i); }
        else { std::string rest; std::getline(f, rest); }
    }
    for (int k = 2; k < argc; k++) { std::string kv = argv[k]; auto p = kv.find('='); g_params[kv.substr(0, p)] = strtoull(kv.substr(p + 1).c_str(), 0, 0); }
    HARNESS_ENTRY();
    printf("E\n");
    fflush(stdout);
    _exit(0);
}
