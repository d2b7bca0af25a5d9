#include "exec.h"
#include <cmath>
#include <cstdio>
#include <cxxabi.h>
using namespace llvm;
typedef std::vector<Val> VV;
static void ret(State& s, const Inst& I, const Val& v) { if (I.dst >= 0) s.st.back().regs[I.dst] = v; }
static void ret2(State& s, const Inst& I, const Val& v, const Val& w) { s.st.back().regs[I.dst] = v; s.st.back().regs[I.dst + 1] = w; }
static std::string demangle(const std::string& n)
{
    int st; char* d = abi::__cxa_demangle(n.c_str(), 0, 0, &st);
    std::string r = d ? d : n; free(d); return r;
}
#define HND(n) static H n(Exec& E, State& s, const Inst& I, VV& a)
HND(hNop) { (void)E; (void)a; if (I.dst >= 0 && I.w && I.w <= 64) ret(s, I, Val((uint64_t)0)); return H::Ok; }
HND(hArg0) { (void)E; ret(s, I, a[0]); return H::Ok; }
HND(hTrap) { (void)I; (void)a; E.violation(s, "ubsan-trap", "undefined behaviour or abort trap"); throw PathDead(); }
HND(hAbort) { (void)a; E.violation(s, "abort", "program aborts: " + demangle(I.callee ? I.callee->name : "")); throw PathDead(); }
HND(hThrow) { (void)a; E.violation(s, "exception", "exception thrown: " + demangle(I.callee ? I.callee->name : "")); throw PathDead(); }
HND(hExit) { (void)E; (void)s; (void)I; (void)a; throw PathDead(); }
// copies cells keeping symbolic structure
static void copyBytes(Exec& E, State& s, const Val& dp, const Val& sp, uint64_t n)
{
    if (!n) return;
    Val d = Val(E.concretize(s, dp, 64)), q = Val(E.concretize(s, sp, 64));
    uint32_t di, si; Val doff, soff;
    E.resolve(s, q, n, false, si, soff, "read");
    E.resolve(s, d, n, true, di, doff, "write");
    const Obj* so = s.get(si);
    std::vector<uint8_t> tb(so->b.begin() + soff.c, so->b.begin() + soff.c + n);
    std::vector<Cell> tc;
    if (!so->s.empty()) tc.assign(so->s.begin() + soff.c, so->s.begin() + soff.c + n);
    Obj* o = s.getW(di);
    memcpy(&o->b[doff.c], tb.data(), n);
    if (!tc.empty()) { if (o->s.empty()) o->s.resize(o->size); std::copy(tc.begin(), tc.end(), o->s.begin() + doff.c); }
    else if (!o->s.empty()) for (uint64_t i = 0; i < n; i++) o->s[doff.c + i].e = nullptr;
}
HND(hMemcpy) { uint64_t n = E.concretize(s, a[2], 64); copyBytes(E, s, a[0], a[1], n); ret(s, I, a[0]); return H::Ok; }
HND(hMemset)
{
    uint64_t n = E.concretize(s, a[2], 64);
    if (n) {
        Val d = Val(E.concretize(s, a[0], 64));
        uint32_t id; Val off;
        E.resolve(s, d, n, true, id, off, "write");
        Obj* o = s.getW(id);
        Val b = a[1].e ? vTrunc(a[1], a[1].e->w, 8) : Val(a[1].c & 255);
        if (!b.e) { memset(&o->b[off.c], (int)b.c, n); if (!o->s.empty()) for (uint64_t i = 0; i < n; i++) o->s[off.c + i].e = nullptr; }
        else for (uint64_t i = 0; i < n; i++) E.storeAt(o, off.c + i, 1, 8, b);
    }
    ret(s, I, a[0]);
    return H::Ok;
}
HND(hMemcmp)
{
    uint64_t n = E.concretize(s, a[2], 64);
    VV x, y;
    E.readBytes(s, a[0], n, x); E.readBytes(s, a[1], n, y);
    Val r((uint64_t)0);
    for (uint64_t i = n; i-- > 0;) {
        Val eq = vBin(EQ, x[i], y[i], 8);
        if (!eq.e && eq.c) continue;
        Val lt = vBin(ULT, x[i], y[i], 8);
        r = vIte(eq, r, vIte(lt, Val((uint64_t)0xffffffffu), Val((uint64_t)1), 32), 32);
    }
    ret(s, I, r);
    return H::Ok;
}
HND(hBcmp)
{
    uint64_t n = E.concretize(s, a[2], 64);
    VV x, y;
    E.readBytes(s, a[0], n, x); E.readBytes(s, a[1], n, y);
    Expr* eq = mkBool(true);
    for (uint64_t i = 0; i < n; i++) eq = mkAnd(eq, toE(vBin(EQ, x[i], y[i], 8), 1));
    ret(s, I, vZExt(Val(mkNot(eq)), 1, 32));
    return H::Ok;
}
// allocation
static uint64_t allocSize(Exec& E, State& s, const Val& v)
{
    if (v.e) {
        if (E.decide(s, mkBin(ULT, mkConst(1ull << 30, 64), v.e))) { E.violation(s, "huge-alloc", "allocation of more than 1 GB"); throw PathDead(); }
        return E.concretize(s, v, 64);
    }
    if (v.c > (1ull << 30)) { E.violation(s, "huge-alloc", "allocation of more than 1 GB"); throw PathDead(); }
    return v.c;
}
static H doAlloc(Exec& E, State& s, const Inst& I, const Val& n, AllocTag t, int fill = 0xAA, uint32_t base = 0x1010)
{
    uint64_t k = allocSize(E, s, n);
    if (k > (64u << 20)) E.incompletePath("allocation over 64 MB");
    ret(s, I, Val(E.alloc(s, k, OHeap, t, base, fill)));
    return H::Ok;
}
HND(hMalloc) { return doAlloc(E, s, I, a[0], TMalloc); }
HND(hCalloc) { uint64_t k = allocSize(E, s, vBin(MUL, a[0], a[1], 64)); return doAlloc(E, s, I, Val(k), TMalloc, 0); }
HND(hNew) { return doAlloc(E, s, I, a[0], TNew); }
HND(hNewArr) { return doAlloc(E, s, I, a[0], TNewArr); }
HND(hNewAl) { return doAlloc(E, s, I, a[0], TNew, 0xAA, 0x1000); }
HND(hAlignedAlloc) { return doAlloc(E, s, I, a[1], TMalloc, 0xAA, 0x1000); }
HND(hPosixMemalign)
{
    uint64_t k = allocSize(E, s, a[2]);
    uint64_t p = E.alloc(s, k, OHeap, TMalloc, 0x1000);
    E.store(s, a[0], 8, 64, Val(p));
    ret(s, I, Val((uint64_t)0));
    return H::Ok;
}
static void doFree(Exec& E, State& s, const Val& pv, AllocTag t)
{
    uint64_t p = E.concretize(s, pv, 64);
    if (!p) return;
    uint64_t slot = p >> 32;
    if (slot < 1 || slot > s.nobj || s.get((uint32_t)slot - 1)->kind != OHeap || p != E.addrOf(s, (uint32_t)slot - 1)) {
        E.violation(s, "bad-free", "free of a pointer that is not the start of a heap block"); throw PathDead();
    }
    if (!s.get((uint32_t)slot - 1)->alive) { E.violation(s, "double-free", "block freed twice"); throw PathDead(); }
    if (s.get((uint32_t)slot - 1)->tag != t) { E.violation(s, "alloc-mismatch", "allocation and deallocation functions do not match"); throw PathDead(); }
    Obj* o = s.getW((uint32_t)slot - 1);
    o->alive = false;
    std::vector<uint8_t>().swap(o->b);
    std::vector<Cell>().swap(o->s);
}
HND(hFree) { (void)I; doFree(E, s, a[0], TMalloc); return H::Ok; }
HND(hDel) { (void)I; doFree(E, s, a[0], TNew); return H::Ok; }
HND(hDelArr) { (void)I; doFree(E, s, a[0], TNewArr); return H::Ok; }
HND(hRealloc)
{
    uint64_t p = E.concretize(s, a[0], 64);
    uint64_t k = allocSize(E, s, a[1]);
    if (!p) return doAlloc(E, s, I, Val(k), TMalloc);
    uint64_t slot = p >> 32;
    if (slot < 1 || slot > s.nobj || !s.get((uint32_t)slot - 1)->alive) { E.violation(s, "bad-free", "realloc of invalid pointer"); throw PathDead(); }
    uint64_t n = E.alloc(s, k, OHeap, TMalloc);
    copyBytes(E, s, Val(n), Val(p), std::min<uint64_t>(k, s.get((uint32_t)slot - 1)->size));
    doFree(E, s, Val(p), TMalloc);
    ret(s, I, Val(n));
    return H::Ok;
}
// ---- llvm intrinsics
static unsigned argW(const Inst& I, int i) { return (unsigned)I.x[1 + i]; }
HND(hUMin) { (void)E; unsigned w = argW(I, 0); ret(s, I, vIte(vBin(ULT, a[0], a[1], w), a[0], a[1], w)); return H::Ok; }
HND(hUMax) { (void)E; unsigned w = argW(I, 0); ret(s, I, vIte(vBin(ULT, a[0], a[1], w), a[1], a[0], w)); return H::Ok; }
HND(hSMin) { (void)E; unsigned w = argW(I, 0); ret(s, I, vIte(vBin(SLT, a[0], a[1], w), a[0], a[1], w)); return H::Ok; }
HND(hSMax) { (void)E; unsigned w = argW(I, 0); ret(s, I, vIte(vBin(SLT, a[0], a[1], w), a[1], a[0], w)); return H::Ok; }
HND(hAbs) { (void)E; unsigned w = argW(I, 0); ret(s, I, vIte(vBin(SLT, a[0], Val((uint64_t)0), w), vBin(SUB, Val((uint64_t)0), a[0], w), a[0], w)); return H::Ok; }
HND(hBswap)
{
    (void)E;
    unsigned w = argW(I, 0);
    Expr* e = toE(a[0], w); Expr* r = nullptr;
    for (unsigned i = 0; i < w; i += 8) { Expr* b = mkExtract(e, i, 8); r = r ? mkConcat(r, b) : b; }
    ret(s, I, Val(r));
    return H::Ok;
}
HND(hCtpop)
{
    (void)E; unsigned w = argW(I, 0);
    if (!a[0].e) { ret(s, I, Val((uint64_t)__builtin_popcountll(a[0].c))); return H::Ok; }
    Expr* r = mkConst(0, w);
    for (unsigned i = 0; i < w; i++) r = mkBin(ADD, r, mkZExt(mkExtract(a[0].e, i, 1), w));
    ret(s, I, Val(r)); return H::Ok;
}
HND(hCtlz)
{
    (void)E; unsigned w = argW(I, 0);
    if (!a[0].e) { uint64_t v = a[0].c; ret(s, I, Val((uint64_t)(v ? (__builtin_clzll(v) - (64 - (int)w)) : w))); return H::Ok; }
    Expr* r = mkConst(w, w);
    for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(a[0].e, i, 1), mkConst(w - 1 - i, w), r);
    ret(s, I, Val(r)); return H::Ok;
}
HND(hCttz)
{
    (void)E; unsigned w = argW(I, 0);
    if (!a[0].e) { uint64_t v = a[0].c; ret(s, I, Val((uint64_t)(v ? __builtin_ctzll(v) : w))); return H::Ok; }
    Expr* r = mkConst(w, w);
    for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(a[0].e, i, 1), mkConst(i, w), r);
    ret(s, I, Val(r)); return H::Ok;
}
HND(hFshl)
{
    (void)E; unsigned w = argW(I, 0);
    Val sh = vBin(UREM, a[2], Val((uint64_t)w), w);
    Val inv = vBin(SUB, Val((uint64_t)w), sh, w);
    Val r = vBin(OR, vBin(SHL, a[0], sh, w), vBin(LSHR, a[1], inv, w), w);
    ret(s, I, vIte(vBin(EQ, sh, Val((uint64_t)0), w), a[0], r, w)); return H::Ok;
}
HND(hFshr)
{
    (void)E; unsigned w = argW(I, 0);
    Val sh = vBin(UREM, a[2], Val((uint64_t)w), w);
    Val inv = vBin(SUB, Val((uint64_t)w), sh, w);
    Val r = vBin(OR, vBin(SHL, a[0], inv, w), vBin(LSHR, a[1], sh, w), w);
    ret(s, I, vIte(vBin(EQ, sh, Val((uint64_t)0), w), a[1], r, w)); return H::Ok;
}
template <Op OP, bool SG> static H hOvf(Exec& E, State& s, const Inst& I, VV& a)
{
    (void)E; unsigned w = argW(I, 0), w2 = w <= 64 ? (OP == MUL ? 2 * w : w + 1) : 0;
    if (!w2) E.incompletePath("overflow intrinsic width");
    Expr *x = toE(a[0], w), *y = toE(a[1], w);
    Expr *ex = SG ? mkSExt(x, w2) : mkZExt(x, w2), *ey = SG ? mkSExt(y, w2) : mkZExt(y, w2);
    Expr* r = mkBin(OP, ex, ey);
    Expr* lo = mkBin(OP, x, y);
    Expr* back = SG ? mkSExt(lo, w2) : mkZExt(lo, w2);
    ret2(s, I, Val(lo), Val(mkNot(mkEq(r, back))));
    return H::Ok;
}
HND(hUSubSat) { (void)E; unsigned w = argW(I, 0); ret(s, I, vIte(vBin(ULT, a[0], a[1], w), Val((uint64_t)0), vBin(SUB, a[0], a[1], w), w)); return H::Ok; }
HND(hUAddSat) { (void)E; unsigned w = argW(I, 0); Val r = vBin(ADD, a[0], a[1], w); ret(s, I, vIte(vBin(ULT, r, a[0], w), Val(mask64(w)), r, w)); return H::Ok; }
HND(hObjSize) { (void)E; (void)a; ret(s, I, Val(~0ull)); return H::Ok; }
HND(hExpect) { (void)E; ret(s, I, a[0]); return H::Ok; }
template <Fp K> static H hF1(Exec& E, State& s, const Inst& I, VV& a) { (void)E; unsigned w = argW(I, 0); ret(s, I, Val(mkFp(K, toE(a[0], w), nullptr, w))); return H::Ok; }
HND(hFmuladd) { (void)E; unsigned w = argW(I, 0); ret(s, I, Val(mkFp(FpAdd, mkFp(FpMul, toE(a[0], w), toE(a[1], w), w), toE(a[2], w), w))); return H::Ok; }
// ---- harness API
static std::string cstr(Exec& E, State& s, const Val& p) { return E.readCStr(s, p); }
static std::string uniq(State& s, const std::string& n) { int k = s.nameCnt[n]++; return k ? n + "#" + std::to_string(k) : n; }
HND(vpBytes)
{
    (void)I;
    uint64_t n = E.concretize(s, a[1], 64);
    uint64_t p = E.concretize(s, a[0], 64);
    std::string nm = uniq(s, cstr(E, s, a[2]));
    VV v(n);
    for (uint64_t i = 0; i < n; i++) v[i] = Val(mkVar(8, nm + "[" + std::to_string(i) + "]"));
    E.writeBytes(s, Val(p), v);
    s.inputs.push_back({'B', nm, 8, v});
    return H::Ok;
}
HND(vpRange)
{
    uint64_t lo = a[0].e ? E.concretize(s, a[0], 64) : a[0].c, hi = a[1].e ? E.concretize(s, a[1], 64) : a[1].c;
    std::string nm = uniq(s, cstr(E, s, a[2]));
    if (lo > hi) throw PathDead();
    Val v;
    if (lo == hi) v = Val(lo);
    else {
        uint64_t span = hi - lo;
        unsigned w = 64 - __builtin_clzll(span);
        Expr* x = mkVar(w, nm);
        v = Val(mkBin(ADD, mkZExt(x, 64), mkConst(lo, 64)));
        if (span != mask64(w)) {
            s.inputs.push_back({'V', nm, 64, {v}});
            if (!E.assume(s, mkNot(mkBin(ULT, mkConst(span, w), x)))) throw PathDead();
            ret(s, I, v);
            return H::Ok;
        }
    }
    s.inputs.push_back({'V', nm, 64, {v}});
    ret(s, I, v);
    return H::Ok;
}
HND(vpChoose) // forks; concrete result
{
    uint64_t n = E.concretize(s, a[0], 64);
    if (!n) throw PathDead();
    std::string base = cstr(E, s, a[1]);
    int k = s.nameCnt[base];
    std::string nm = k ? base + "#" + std::to_string(k) : base;
    uint64_t r = 0;
    if (n > 1) {
        unsigned w = 64 - __builtin_clzll(n - 1);
        Expr* x = mkVar(w, nm);
        if (n - 1 != mask64(w) && !E.assume(s, mkBin(ULT, x, mkConst(n, w)))) throw PathDead();
        r = E.concretize(s, Val(x), w);
    }
    s.nameCnt[base]++;
    s.inputs.push_back({'V', nm, 64, {Val(r)}});
    ret(s, I, Val(r));
    return H::Ok;
}
HND(vpFix) { ret(s, I, Val(E.concretize(s, a[0], 64))); return H::Ok; }
HND(vpAssume)
{
    (void)I;
    Expr* c = a[0].e ? mkNot(mkEq(a[0].e, mkConst(0, a[0].e->w))) : mkBool(a[0].c != 0);
    if (!E.assume(s, c)) { E.assumedOut++; throw PathDead(); }
    return H::Ok;
}
HND(vpAssert)
{
    (void)I;
    E.asserts++;
    Expr* c = a[0].e ? mkNot(mkEq(a[0].e, mkConst(0, a[0].e->w))) : mkBool(a[0].c != 0);
    if (c->isC()) { if (!c->val) { E.violation(s, "assert", cstr(E, s, a[1])); throw PathDead(); } return H::Ok; }
    uint64_t fv;
    if (E.fixed(s, c, &fv)) { if (!fv) { E.violation(s, "assert", cstr(E, s, a[1])); throw PathDead(); } return H::Ok; }
    if (!evalExpr(c, *s.model)) {
        E.violation(s, "assert", cstr(E, s, a[1]));
        if (!E.assume(s, c)) throw PathDead();
        return H::Ok;
    }
    ModelP m;
    Sat r = solverCheck(s.pc, mkNot(c), *s.model, &m);
    if (r == Sat::Unknown) E.incomplete["solver-unknown-assert"]++;
    if (r == Sat::Yes) E.violation(s, "assert", cstr(E, s, a[1]), m.get());
    E.addConstraint(s, c);
    return H::Ok;
}
HND(vpReach) { (void)I; s.reached.push_back(cstr(E, s, a[0])); return H::Ok; }
HND(vpObserve) { (void)I; (void)E; s.observes.push_back(a[0]); return H::Ok; }
HND(vpParam)
{
    std::string n = cstr(E, s, a[0]);
    auto it = E.params.find(n);
    ret(s, I, it == E.params.end() ? a[1] : Val((uint64_t)strtoull(it->second.c_str(), 0, 0)));
    return H::Ok;
}
HND(vpSymbolic) { (void)E; (void)a; ret(s, I, Val((uint64_t)1)); return H::Ok; }
HND(vpHang) { (void)E; (void)I; s.hangLimit = a[0].c; s.hangBase = s.insts; return H::Ok; }
HND(vpForkSelects) { (void)I; (void)a; (void)s; E.forkSelects = true; return H::Ok; }
HND(vpEnd) { (void)I; (void)a; (void)E; s.st.clear(); s.startIdx = E.startList.size(); return H::Pushed; }
// uninterpreted function: out = F_fid(in), flags&1: collision free
HND(vpUf)
{
    (void)I;
    uint64_t fid = E.concretize(s, a[0], 64), il = E.concretize(s, a[2], 64), ol = E.concretize(s, a[4], 64);
    int flags = (int)E.concretize(s, a[5], 32);
    uint64_t outp = E.concretize(s, a[3], 64);
    UFApp ap; ap.fid = fid; ap.flags = flags;
    E.readBytes(s, a[1], il, ap.in);
    uint64_t k;
    for (auto& x : ap.in) if (x.e && E.fixed(s, x.e, &k)) x = Val(k);
    auto same = [](const VV& x, const VV& y) {
        if (x.size() != y.size()) return false;
        for (size_t i = 0; i < x.size(); i++) if (x[i].e != y[i].e || (!x[i].e && x[i].c != y[i].c)) return false;
        return true;
    };
    for (auto& p : s.ufs) if (p.fid == fid && p.out.size() == ol && same(p.in, ap.in)) {
        E.writeBytes(s, Val(outp), p.out);
        s.inputs.push_back({'B', "uf", 8, p.out});
        return H::Ok;
    }
    std::string nm = uniq(s, "uf" + std::to_string(fid));
    for (uint64_t i = 0; i < ol; i++) ap.out.push_back(Val(mkVar(8, nm + "[" + std::to_string(i) + "]")));
    for (auto& p : s.ufs) {
        if (p.fid != fid || p.out.size() != ol) continue;
        Expr* oeq = mkBool(true);
        for (uint64_t i = 0; i < ol; i++) oeq = mkAnd(oeq, toE(vBin(EQ, p.out[i], ap.out[i], 8), 1));
        Expr* ieq = mkBool(p.in.size() == il);
        for (uint64_t i = 0; i < il && p.in.size() == il; i++) ieq = mkAnd(ieq, toE(vBin(EQ, p.in[i], ap.in[i], 8), 1));
        Expr* c = (flags & 1) ? mkEq(ieq, oeq) : mkOr(mkNot(ieq), oeq);
        if (!E.assume(s, c)) throw PathDead();
    }
    E.writeBytes(s, Val(outp), ap.out);
    s.inputs.push_back({'B', "uf", 8, ap.out});
    s.ufs.push_back(ap);
    return H::Ok;
}
// snprintf(b, n, fmt, ...): arguments become concrete
HND(hSnprintf)
{
    std::string f = cstr(E, s, a[2]), out;
    size_t arg = 3;
    for (size_t i = 0; i < f.size(); i++) {
        if (f[i] != '%') { out += f[i]; continue; }
        std::string sp = "%";
        bool wide = false;
        for (i++; i < f.size() && strchr("-+ #0123456789.lhz", f[i]); i++) { if (strchr("lhz", f[i])) { if (f[i] != 'h') wide = true; } else sp += f[i]; }
        char c = i < f.size() ? f[i] : '%';
        if (c == '%') { out += '%'; continue; }
        if (arg >= a.size() || !strchr("dixXucs", c)) { E.incompletePath("unsupported-call:snprintf " + f); throw PathDead(); }
        char buf[64];
        if (c == 's') { out += cstr(E, s, a[arg++]); continue; }
        uint64_t v = E.concretize(s, a[arg], argW(I, (int)arg)); arg++;
        if (c == 'c') { out += (char)v; continue; }
        if (!wide) v = c == 'd' || c == 'i' ? (uint64_t)(int64_t)(int32_t)v : (uint32_t)v;
        snprintf(buf, sizeof buf, (sp + "ll" + c).c_str(), (unsigned long long)v);
        out += buf;
    }
    uint64_t n = E.concretize(s, a[1], 64);
    if (n) {
        std::vector<Val> b;
        for (size_t i = 0; i < std::min<size_t>(out.size(), n - 1); i++) b.push_back(Val((uint64_t)(uint8_t)out[i]));
        b.push_back(Val((uint64_t)0));
        E.writeBytes(s, a[0], b);
    }
    ret(s, I, Val((uint64_t)out.size()));
    return H::Ok;
}
void registerHandlers()
{
    auto R = [](const char* n, Handler h) { g_handlers[n] = h; };
    R("memcpy", hMemcpy); R("memmove", hMemcpy); R("memset", hMemset); R("memcmp", hMemcmp); R("bcmp", hBcmp);
    R("malloc", hMalloc); R("calloc", hCalloc); R("free", hFree); R("realloc", hRealloc); R("aligned_alloc", hAlignedAlloc); R("posix_memalign", hPosixMemalign);
    R("_Znwm", hNew); R("_Znam", hNewArr); R("_ZnwmRKSt9nothrow_t", hNew); R("_ZnamRKSt9nothrow_t", hNewArr);
    R("_ZnwmSt11align_val_t", hNewAl); R("_ZdlPvSt11align_val_t", hDel); R("_ZdlPvmSt11align_val_t", hDel);
    R("_ZdlPv", hDel); R("_ZdlPvm", hDel); R("_ZdaPv", hDelArr); R("_ZdaPvm", hDelArr);
    R("abort", hAbort); R("_ZSt9terminatev", hAbort); R("__assert_fail", hAbort); R("_ZSt21__glibcxx_assert_failPKciS0_S0_", hAbort); R("__cxa_pure_virtual", hAbort);
    R("snprintf", hSnprintf); R("exit", hExit); R("_exit", hExit);
    R("__cxa_atexit", hNop); R("__cxa_throw", hThrow); R("__cxa_rethrow", hThrow);
    R("vp_bytes", vpBytes); R("vp_range", vpRange); R("vp_choose", vpChoose); R("vp_fix", vpFix); R("vp_assume", vpAssume); R("vp_assert", vpAssert);
    R("vp_reach", vpReach); R("vp_observe", vpObserve); R("vp_param", vpParam); R("vp_symbolic", vpSymbolic); R("vp_hang_limit", vpHang); R("vp_fork_selects", vpForkSelects); R("vp_uf", vpUf); R("vp_end", vpEnd);
}
static bool starts(const std::string& s, const char* p) { return s.rfind(p, 0) == 0; }
Handler intrinsicHandler(const std::string& n)
{
    if (starts(n, "_ZSt") && n.find("__throw_") != std::string::npos) return hThrow;
    if (!starts(n, "llvm.")) return nullptr;
    static const std::vector<std::pair<const char*, Handler>> t = {
        {"llvm.memcpy", hMemcpy}, {"llvm.memmove", hMemcpy}, {"llvm.memset", hMemset}, {"llvm.lifetime", hNop}, {"llvm.dbg", hNop}, {"llvm.assume", hNop},
        {"llvm.expect", hExpect}, {"llvm.umin", hUMin}, {"llvm.umax", hUMax}, {"llvm.smin", hSMin}, {"llvm.smax", hSMax}, {"llvm.abs", hAbs}, {"llvm.bswap", hBswap},
        {"llvm.ctpop", hCtpop}, {"llvm.ctlz", hCtlz}, {"llvm.cttz", hCttz}, {"llvm.fshl", hFshl}, {"llvm.fshr", hFshr},
        {"llvm.uadd.with", hOvf<ADD, false>}, {"llvm.sadd.with", hOvf<ADD, true>}, {"llvm.usub.with", hOvf<SUB, false>}, {"llvm.ssub.with", hOvf<SUB, true>},
        {"llvm.umul.with", hOvf<MUL, false>}, {"llvm.smul.with", hOvf<MUL, true>}, {"llvm.usub.sat", hUSubSat}, {"llvm.uadd.sat", hUAddSat},
        {"llvm.trap", hTrap}, {"llvm.ubsantrap", hTrap}, {"llvm.debugtrap", hTrap}, {"llvm.objectsize", hObjSize}, {"llvm.is.constant", hNop}, {"llvm.stacksave", hNop}, {"llvm.stackrestore", hNop},
        {"llvm.experimental.noalias", hNop}, {"llvm.threadlocal.address", hArg0}, {"llvm.launder", hArg0}, {"llvm.strip", hArg0}, {"llvm.prefetch", hNop}, {"llvm.va_start", hNop}, {"llvm.va_end", hNop},
        {"llvm.floor.f", hF1<FpFloor>}, {"llvm.ceil.f", hF1<FpCeil>}, {"llvm.round.f", hF1<FpRound>}, {"llvm.fabs.f", hF1<FpAbs>}, {"llvm.trunc.f", hF1<FpTrunc>}, {"llvm.fmuladd.f", hFmuladd}, {"llvm.sqrt.f", hF1<FpSqrt>},
    };
    for (auto& p : t) if (starts(n, p.first)) return p.second;
    return nullptr;
}
