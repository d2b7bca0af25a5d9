#include <tuple>
#include "exec.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/MapVector.h>
using namespace llvm;

std::unordered_map<std::string, Handler> g_handlers;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- values
Val vZExt(const Val& a, unsigned w, unsigned w2) { if (!a.e && w2 <= 64) return a; return Val(mkZExt(toE(a, w), w2)); }
Val vSExt(const Val& a, unsigned w, unsigned w2)
{
    if (!a.e && w2 <= 64) { uint64_t v = a.c; if (v >> (w - 1) & 1) v |= ~mask64(w); return Val(v & mask64(w2)); }
    return Val(mkSExt(toE(a, w), w2));
}
Val vTrunc(const Val& a, unsigned w, unsigned w2) { if (!a.e) return Val(a.c & mask64(w2)); return Val(mkExtract(a.e, 0, w2)); }
Val vBin(Op op, const Val& a, const Val& b, unsigned w)
{
    if (!a.e && !b.e && w <= 64) return Val((uint64_t)foldBin(op, a.c, b.c, w));
    return Val(mkBin(op, toE(a, w), toE(b, w)));
}
Val vIte(const Val& c, const Val& a, const Val& b, unsigned w)
{
    if (!c.e) return c.c ? a : b;
    return Val(mkIte(c.e, toE(a, w), toE(b, w)));
}
static Val vNot1(const Val& a) { if (!a.e) return Val((uint64_t)!a.c); return Val(mkNot(a.e)); }
Val vICmp(unsigned p, const Val& a, const Val& b, unsigned w)
{
    switch (p) {
    case CmpInst::ICMP_EQ: return vBin(EQ, a, b, w);
    case CmpInst::ICMP_NE: return vNot1(vBin(EQ, a, b, w));
    case CmpInst::ICMP_ULT: return vBin(ULT, a, b, w);
    case CmpInst::ICMP_UGE: return vNot1(vBin(ULT, a, b, w));
    case CmpInst::ICMP_UGT: return vBin(ULT, b, a, w);
    case CmpInst::ICMP_ULE: return vNot1(vBin(ULT, b, a, w));
    case CmpInst::ICMP_SLT: return vBin(SLT, a, b, w);
    case CmpInst::ICMP_SGE: return vNot1(vBin(SLT, a, b, w));
    case CmpInst::ICMP_SGT: return vBin(SLT, b, a, w);
    case CmpInst::ICMP_SLE: return vNot1(vBin(SLT, b, a, w));
    }
    abort();
}
// ---------------------------------------------------------------- state
static uint64_t g_stateId = 0;
State::State(const State& o)
    : id(++g_stateId), st(o.st), tab(o.tab), nobj(o.nobj), pc(o.pc), facts(o.facts), fixedVar(o.fixedVar), model(o.model), inputs(o.inputs),
      observes(o.observes), ufs(o.ufs), nameCnt(o.nameCnt), insts(o.insts), startIdx(o.startIdx), havocs(o.havocs), forks(o.forks + 1),
      hangLimit(o.hangLimit), hangBase(o.hangBase), reached(o.reached)
{
    for (Chunk* c : tab) c->ref++;
}
State::~State()
{
    for (Chunk* c : tab)
        if (--c->ref == 0) {
            for (Obj* ob : c->o) if (ob && --ob->ref == 0) delete ob;
            delete c;
        }
}
static Chunk* ownChunk(State& s, size_t i)
{
    Chunk*& c = s.tab[i];
    if (c->ref > 1) {
        Chunk* n = new Chunk(*c);
        n->ref = 1;
        for (Obj* ob : n->o) if (ob) ob->ref++;
        c->ref--;
        c = n;
    }
    return c;
}
Obj* State::getW(uint32_t id)
{
    Chunk* c = ownChunk(*this, id >> 6);
    Obj*& o = c->o[id & 63];
    if (o->ref > 1) { Obj* n = new Obj(*o); n->ref = 1; o->ref--; o = n; }
    return o;
}
uint32_t State::add(Obj* o)
{
    uint32_t id = nobj++;
    if ((id >> 6) >= tab.size()) tab.push_back(new Chunk());
    ownChunk(*this, id >> 6)->o[id & 63] = o;
    return id;
}
// ---------------------------------------------------------------- constraints
static void addFact(State& s, Expr* c)
{
    if (c->op == AND && c->w == 1) { addFact(s, c->a); addFact(s, c->b); return; }
    if (c->op == XOR && c->b->isC()) {
        Expr* in = c->a;
        s.facts[in] = 0;
        if (in->op == OR && in->w == 1) { addFact(s, mkNot(in->a)); addFact(s, mkNot(in->b)); }
        if (in->op == VAR) { uint32_t i = (uint32_t)in->val; if (s.fixedVar.size() <= i) s.fixedVar.resize(i + 1); s.fixedVar[i] = 1; }
        return;
    }
    s.facts[c] = 1;
    if (c->op == VAR) { uint32_t i = (uint32_t)c->val; if (s.fixedVar.size() <= i) s.fixedVar.resize(i + 1); s.fixedVar[i] = 1; }
    if (c->op == EQ && c->b->isC() && c->a->w <= 64) {
        s.facts[c->a] = (uint64_t)c->b->val;
        if (c->a->op == VAR) { uint32_t i = (uint32_t)c->a->val; if (s.fixedVar.size() <= i) s.fixedVar.resize(i + 1); s.fixedVar[i] = 1; }
    }
}
void Exec::addConstraint(State& s, Expr* c, bool implied)
{
    if (c->isC()) return;
    auto it = s.facts.find(c);
    if (it != s.facts.end() && it->second) return;
    if (!implied) s.pc.push_back(c);
    addFact(s, c);
}
bool Exec::fixed(State& s, Expr* e, uint64_t* v)
{
    if (e->w > 64) return false;
    auto it = s.facts.find(e);
    if (it != s.facts.end()) { *v = it->second; return true; }
    for (uint32_t i : *e->vars) if (i >= s.fixedVar.size() || !s.fixedVar[i]) {
        if (e->w == 1) { // structural shortcuts
            if (e->op == XOR && e->b->isC()) { if (fixed(s, e->a, v)) { *v ^= 1; return true; } return false; }
            if (e->op == AND) { uint64_t x, y; bool fx = fixed(s, e->a, &x); if (fx && !x) { *v = 0; return true; } bool fy = fixed(s, e->b, &y); if (fy && !y) { *v = 0; return true; } if (fx && fy) { *v = 1; return true; } return false; }
            if (e->op == OR) { uint64_t x, y; bool fx = fixed(s, e->a, &x); if (fx && x) { *v = 1; return true; } bool fy = fixed(s, e->b, &y); if (fy && y) { *v = 1; return true; } if (fx && fy) { *v = 0; return true; } return false; }
            if ((e->op == EQ || e->op == ULT || e->op == SLT)) {
                uint64_t x, y;
                auto get = [&](Expr* k, uint64_t* o) { if (k->isC() && k->w <= 64) { *o = (uint64_t)k->val; return true; } return fixed(s, k, o); };
                if (e->a->w <= 64 && e->a->w > 1 && get(e->a, &x) && get(e->b, &y)) { *v = (uint64_t)foldBin(e->op, x, y, e->a->w); return true; }
            }
        }
        return false;
    }
    *v = (uint64_t)evalExpr(e, *s.model);
    return true;
}
State* Exec::fork(State& s, Expr* cond, ModelP m)
{
    State* n = new State(s);
    n->model = m;
    addConstraint(*n, cond);
    work.push_back(n);
    forks++;
    return n;
}
bool Exec::decide(State& s, Expr* cond)
{
    if (cond->isC()) return cond->val != 0;
    uint64_t v;
    if (fixed(s, cond, &v)) return v != 0;
    branches++;
    bool t = evalExpr(cond, *s.model) != 0;
    Expr* mine = t ? cond : mkNot(cond);
    Expr* other = t ? mkNot(cond) : cond;
    ModelP m;
    Sat r = solverCheck(s.pc, other, *s.model, &m);
    if (r == Sat::Unknown) incomplete["solver-unknown"]++;
    if (r == Sat::Yes) fork(s, other, m);
    addConstraint(s, mine, r == Sat::No);
    return t;
}
uint64_t Exec::concretize(State& s, const Val& v, unsigned w)
{
    if (!v.e) return v.c;
    uint64_t k;
    if (fixed(s, v.e, &k)) return k;
    branches++;
    k = (uint64_t)evalExpr(v.e, *s.model);
    Expr* eq = mkEq(v.e, mkConst(k, v.e->w));
    Expr* ne = mkNot(eq);
    ModelP m;
    Sat r = solverCheck(s.pc, ne, *s.model, &m);
    if (r == Sat::Unknown) incomplete["solver-unknown"]++;
    if (r == Sat::Yes) fork(s, ne, m);
    addConstraint(s, eq);
    return k;
}
bool Exec::assume(State& s, Expr* c)
{
    if (c->isC()) return c->val != 0;
    uint64_t v;
    if (fixed(s, c, &v)) return v != 0;
    if (!evalExpr(c, *s.model)) {
        ModelP m;
        Sat r = solverCheck(s.pc, c, *s.model, &m);
        if (r == Sat::Unknown) { incomplete["solver-unknown"]++; return false; }
        if (r == Sat::No) return false;
        s.model = m;
    }
    addConstraint(s, c);
    return true;
}
std::string Exec::locOf(State& s, std::vector<std::string>* stack)
{
    std::string first, firstRepo;
    for (size_t i = s.st.size(); i-- > 0;) {
        Frame& f = s.st[i];
        int pc = f.pc;
        std::string l = f.f->name;
        if (pc < (int)f.f->code.size() && f.f->code[pc].src) {
            const DebugLoc& d = f.f->code[pc].src->getDebugLoc();
            for (const DILocation* x = d.get(); x; x = x->getInlinedAt()) {
                std::string p = (x->getFilename()).str();
                std::string q = p + ":" + std::to_string(x->getLine());
                if (first.empty()) first = q;
                if (firstRepo.empty() && p.rfind(repoPrefix, 0) == 0) firstRepo = q;
                if (stack) stack->push_back(q + " in " + l);
            }
            if (!d && stack) stack->push_back(l);
        }
    }
    return firstRepo.empty() ? first : firstRepo;
}
static std::string hexOf(const std::vector<Val>& v, const Model& m)
{
    std::string r; char b[4];
    for (auto& x : v) { snprintf(b, 4, "%02x", (unsigned)(x.e ? (uint64_t)evalExpr(x.e, m) : x.c) & 255); r += b; }
    return r;
}
std::string Exec::witness(State& s, const Model& m, bool obs)
{
    std::string r;
    for (auto& in : s.inputs) {
        if (in.kind == 'B') r += "B " + in.name + " " + std::to_string(in.v.size()) + " " + (in.v.empty() ? "-" : hexOf(in.v, m)) + "\n";
        else r += "V " + in.name + " " + std::to_string(in.v[0].e ? (uint64_t)evalExpr(in.v[0].e, m) : in.v[0].c) + "\n";
    }
    if (obs) {
        for (auto& t : s.reached) r += "R " + t + "\n";
        for (auto& o : s.observes) r += "O " + std::to_string(o.e ? (uint64_t)evalExpr(o.e, m) : o.c) + "\n";
    }
    return r;
}
void Exec::violation(State& s, const std::string& kind, const std::string& msg, const Model* m)
{
    Violation v;
    v.kind = kind; v.msg = msg;
    v.loc = locOf(s, &v.stack);
    v.havoc = s.havocs > 0;
    std::string key = kind + "|" + (kind == "assert" ? msg : v.loc);
    if (violCount[key]++ >= 3) return; // up to three witnesses per site
    v.witness = witness(s, m ? *m : *s.model, false);
    viols.push_back(v);
}
void Exec::incompletePath(const std::string& why) { incomplete[why]++; throw PathDead(); }
// ---------------------------------------------------------------- memory
uint64_t Exec::alloc(State& s, uint64_t size, ObjKind k, AllocTag tag, uint32_t base0, int fill)
{
    Obj* o = new Obj();
    o->kind = k; o->tag = tag; o->size = size; o->align0 = base0;
    o->b.assign(size, (uint8_t)fill);
    uint32_t id = s.add(o);
    return ((uint64_t)(id + 1) << 32) + base0;
}
Val Exec::loadAt(const Obj* o, uint64_t off, unsigned bytes, unsigned w)
{
    bool anysym = false;
    if (!o->s.empty()) for (unsigned i = 0; i < bytes; i++) if (o->s[off + i].e) { anysym = true; break; }
    if (!anysym) {
        if (bytes <= 8) {
            uint64_t v = 0;
            memcpy(&v, &o->b[off], bytes);
            return Val(v & mask64(w));
        }
        u128 v = 0;
        for (unsigned i = bytes; i-- > 0;) v = (v << 8) | o->b[off + i];
        return Val(mkConst(v, w));
    }
    // group consecutive cells of one expression
    Expr* acc = nullptr;
    unsigned i = 0;
    std::vector<Expr*> parts;
    while (i < bytes) {
        const Cell& c = o->s[off + i];
        if (!c.e) {
            u128 v = 0; unsigned j = i;
            while (j < bytes && !o->s[off + j].e) { v |= (u128)o->b[off + j] << (8 * (j - i)); j++; }
            parts.push_back(mkConst(v, 8 * (j - i)));
            i = j;
        } else {
            unsigned j = i + 1;
            while (j < bytes && o->s[off + j].e == c.e && o->s[off + j].idx == c.idx + (j - i)) j++;
            parts.push_back(mkExtract(c.e, c.idx * 8, 8 * (j - i)));
            i = j;
        }
    }
    for (size_t k = parts.size(); k-- > 0;) acc = acc ? mkConcat(acc, parts[k]) : parts[k];
    // acc built from high parts to low parts: parts.back() is most significant
    if (acc->w > w) acc = mkExtract(acc, 0, w);
    return Val(acc);
}
void Exec::storeAt(Obj* o, uint64_t off, unsigned bytes, unsigned w, const Val& v)
{
    if (!v.e) {
        memcpy(&o->b[off], &v.c, std::min(bytes, 8u));
        if (bytes > 8) memset(&o->b[off + 8], 0, bytes - 8);
        if (!o->s.empty()) for (unsigned i = 0; i < bytes; i++) o->s[off + i].e = nullptr;
        return;
    }
    Expr* e = mkZExt(v.e, bytes * 8);
    if (e->isC()) {
        for (unsigned i = 0; i < bytes; i++) o->b[off + i] = (uint8_t)(e->val >> (8 * i));
        if (!o->s.empty()) for (unsigned i = 0; i < bytes; i++) o->s[off + i].e = nullptr;
        return;
    }
    if (o->s.empty()) o->s.resize(o->size);
    if (e->op == CONCAT || e->op == ZEXT) { // keep constant bytes concrete
        for (unsigned i = 0; i < bytes; i++) {
            Expr* x = mkExtract(e, 8 * i, 8);
            if (x->isC()) { o->s[off + i].e = nullptr; o->b[off + i] = (uint8_t)x->val; }
            else if (x->op == EXTRACT && x->val % 8 == 0 && x->a->w % 8 == 0) { o->s[off + i].e = x->a; o->s[off + i].idx = (uint8_t)(x->val / 8); }
            else if (x->op == VAR || x->op == ITE) { o->s[off + i].e = x; o->s[off + i].idx = 0; }
            else { o->s[off + i].e = e; o->s[off + i].idx = i; }
        }
        return;
    }
    for (unsigned i = 0; i < bytes; i++) { o->s[off + i].e = e; o->s[off + i].idx = i; }
}
static std::string hexs(uint64_t v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
bool Exec::resolve(State& s, const Val& p, uint64_t n, bool write, uint32_t& id, Val& off, const char* what)
{
    uint64_t pv;
    Val ptr = p;
    if (ptr.e) { uint64_t k; if (fixed(s, ptr.e, &k)) ptr = Val(k); }
    pv = modelVal(s, ptr);
    uint64_t slot = pv >> 32;
    auto bad = [&](const std::string& kind, const std::string& msg) {
        violation(s, kind, msg);
        if (ptr.e) { // continue with the addresses that are fine, if any
            // handled by caller through the in-bounds constraint
        }
        throw PathDead();
    };
    const Obj* o = nullptr;
    if (slot >= 1 && slot <= s.nobj) o = s.get((uint32_t)(slot - 1));
    if (!o) {
        // neighbourhood of an object whose computed address left its slot
        if (ptr.e && ptr.e->op == ADD && ptr.e->b->isC()) {
            uint64_t bs = (uint64_t)(ptr.e->b->val >> 32);
            if (bs >= 1 && bs <= s.nobj && s.get((uint32_t)(bs - 1))->alive && n <= s.get((uint32_t)(bs - 1))->size) {
                violation(s, "oob", std::string(what) + " of " + std::to_string(n) + " bytes far outside a " + std::to_string(s.get((uint32_t)(bs - 1))->size) + "-byte object");
                const Obj* ob = s.get((uint32_t)(bs - 1));
                Expr* inb = mkNot(mkBin(ULT, mkConst(ob->size - n, 64), mkBin(SUB, ptr.e, mkConst(addrOf(s, (uint32_t)(bs - 1)), 64))));
                if (!assume(s, inb)) throw PathDead();
                return resolve(s, p, n, write, id, off, what);
            }
        }
        bad(slot == 0 ? "null-deref" : "oob", std::string(what) + " of " + std::to_string(n) + " bytes at invalid address " + hexs(pv));
    }
    id = (uint32_t)(slot - 1);
    uint64_t base = addrOf(s, id);
    if (!ptr.e) {
        uint64_t of = pv - base;
        if (!o->alive) bad("use-after-free", std::string(what) + " of " + std::to_string(n) + " bytes in freed memory");
        if (of > o->size || n > o->size - of)
            bad("oob", std::string(what) + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)of) + " of a " + std::to_string(o->size) + "-byte object");
        if (write && o->ro) bad("ro-write", "write to read-only memory");
        off = Val(of);
        return true;
    }
    Expr* offE = mkBin(SUB, ptr.e, mkConst(base, 64));
    bool sizeOk = n <= o->size;
    Expr* inb = sizeOk ? mkNot(mkBin(ULT, mkConst(o->size - n, 64), offE)) : mkBool(false);
    uint64_t f;
    bool inNow = sizeOk && o->alive && evalExpr(inb, *s.model) != 0;
    if (!inNow) {
        violation(s, !o->alive ? "use-after-free" : "oob", std::string(what) + " of " + std::to_string(n) + " bytes at symbolic offset " + std::to_string((int64_t)(pv - base)) + " of a " + std::to_string(o->size) + "-byte object");
        if (!o->alive) throw PathDead();
        if (!assume(s, inb)) throw PathDead();
    } else if (!(fixed(s, inb, &f) && f)) {
        ModelP m;
        Sat r = solverCheck(s.pc, mkNot(inb), *s.model, &m);
        if (r == Sat::Unknown) incomplete["solver-unknown"]++;
        if (r == Sat::Yes) fork(s, mkNot(inb), m);
        addConstraint(s, inb);
    }
    if (write && o->ro) bad("ro-write", "write to read-only memory");
    off = Val(offE);
    if (off.e) { uint64_t k; if (fixed(s, off.e, &k)) off = Val(k); }
    return true;
}
// splits off = var + c0; candidate values of var
static bool candidates(Expr* off, uint64_t size, uint64_t n, Expr*& idx, uint64_t& c0, unsigned& tz, unsigned& bits, unsigned maxBits)
{
    c0 = 0; Expr* v = off;
    if (v->op == ADD && v->b->isC()) { c0 = (uint64_t)v->b->val; v = v->a; }
    uint64_t um = umaxOf(v);
    if (v->w != 64) return false;
    uint64_t lim = c0 == 0 ? std::min<uint64_t>(um, size - n) : um;
    uint64_t k0 = v->known0;
    tz = k0 == ~0ull ? 64 : __builtin_ctzll(~k0);
    if (tz >= 64) return false;
    unsigned hb = lim ? 64 - __builtin_clzll(lim) : 1;
    bits = hb > tz ? hb - tz : 1;
    if (bits > maxBits) return false;
    idx = mkExtract(v, tz, bits);
    return true;
}
// results of looking up an index in a linear table: "i == c ? T[c] : T[i]" is T[i]
struct LinUse { Expr* x; std::vector<uint64_t>* basis; };
static std::unordered_map<Expr*, LinUse> g_linUse;
static bool sameLookup(Expr* cond, uint64_t v, Expr* e)
{
    auto it = g_linUse.find(e);
    if (it == g_linUse.end()) return false;
    auto& b = *it->second.basis; unsigned bits = (unsigned)b.size() - 1;
    for (uint64_t i = 0; i < (1ull << bits); i++) {
        uint64_t t = b[0];
        for (unsigned k = 0; k < bits; k++) if (i >> k & 1) t ^= b[k + 1];
        if (t == v && mkEq(it->second.x, mkConst(i, it->second.x->w)) == cond) return true;
    }
    return false;
}
// a constant table with T[i ^ j] == T[i] ^ T[j] ^ T[0] (checked for every entry) is an XOR of the index bits
Expr* Exec::linearTable(const Obj* o, Expr* idx, uint64_t c0, unsigned tz, unsigned bits, unsigned bytes, unsigned w)
{
    struct Lin { bool ok; std::vector<uint64_t> basis; std::unordered_map<Expr*, Expr*> seen; };
    static std::map<std::tuple<const Obj*, uint64_t, unsigned, unsigned, unsigned, unsigned>, Lin> memo; // read-only objects live as long as the program
    auto compute = [&]() -> Lin {
        Lin L{ false, {}, {} };
        uint64_t n = 1ull << bits;
        std::vector<uint64_t> t(n);
        for (uint64_t i = 0; i < n; i++) {
            uint64_t of = (i << tz) + c0;
            if (of > o->size || bytes > o->size - of) return L;
            Val v = loadAt(o, of, bytes, w);
            if (v.e) return L;
            t[i] = v.c;
        }
        for (uint64_t i = 1; i < n; i++) { uint64_t low = i & (i - 1); if (t[i] != (t[low] ^ t[i ^ low] ^ t[0])) return L; }
        bool trivial = true;
        for (unsigned k = 1; k < bits; k++) if ((t[1ull << k] ^ t[0]) != (t[1] ^ t[0]) << k) trivial = false;
        if (trivial) return L;
        L.ok = g_linTables = true;
        L.basis.push_back(t[0]);
        for (unsigned k = 0; k < bits; k++) L.basis.push_back(t[1ull << k] ^ t[0]);
        return L;
    };
    if (!o->ro) { Lin L = compute(); return L.ok ? linLookup(mkExtract(idx, 0, bits), L.basis, w) : nullptr; }
    auto key = std::make_tuple(o, c0, tz, bits, bytes, w);
    auto it = memo.find(key);
    if (it == memo.end()) it = memo.emplace(key, compute()).first;
    Lin& L = it->second;
    if (!L.ok) return nullptr;
    Expr* x = mkExtract(idx, 0, bits);
    Expr*& r = L.seen[x];
    if (!r) r = linLookup(x, L.basis, w);
    g_linUse[r] = { x, &L.basis }; // the latest index: different indices may have one result
    return r;
}
bool Exec::load(State& s, const Val& p, unsigned bytes, unsigned w, Val& out)
{
    uint32_t id; Val off;
    resolve(s, p, bytes, false, id, off, "read");
    const Obj* o = s.get(id);
    if (!off.e) { out = loadAt(o, off.c, bytes, w); return true; }
    Expr* idx; uint64_t c0; unsigned tz, bits;
    if (candidates(off.e, o->size, bytes, idx, c0, tz, bits, 13)) {
        std::function<Expr*(unsigned, uint64_t)> build = [&](unsigned b, uint64_t pre) -> Expr* { // nullptr: don't care
            if (b == 0) {
                uint64_t of = (pre << tz) + c0;
                if (of > o->size || bytes > o->size - of) return nullptr;
                return toE(loadAt(o, of, bytes, w), w);
            }
            Expr* hi = build(b - 1, (pre << 1) | 1);
            Expr* lo = build(b - 1, pre << 1);
            if (!hi) return lo;
            if (!lo) return hi;
            return mkIte(mkExtract(idx, b - 1, 1), hi, lo);
        };
        Expr* r = bits >= 4 && bits <= 8 && w <= 64 ? linearTable(o, idx, c0, tz, bits, bytes, w) : nullptr;
        if (!r) r = build(bits, 0);
        if (r) { out = Val(r); return true; }
    }
    uint64_t of = concretize(s, off, 64);
    out = loadAt(s.get(id), of, bytes, w);
    return true;
}
bool Exec::store(State& s, const Val& p, unsigned bytes, unsigned w, const Val& v)
{
    uint32_t id; Val off;
    resolve(s, p, bytes, true, id, off, "write");
    if (off.e) {
        const Obj* o = s.get(id);
        Expr* idx; uint64_t c0; unsigned tz, bits;
        if (o->size <= 4096 && candidates(off.e, o->size, bytes, idx, c0, tz, bits, 6)) {
            Obj* ow = s.getW(id);
            for (uint64_t k = 0; k < (1ull << bits); k++) {
                uint64_t of = (k << tz) + c0;
                if (of > ow->size || bytes > ow->size - of) continue;
                Expr* c = mkEq(idx, mkConst(k, bits));
                if (c->isC() && !c->val) continue;
                Val old = loadAt(ow, of, bytes, w);
                storeAt(ow, of, bytes, w, vIte(Val(c), v, old, w));
            }
            return true;
        }
        off = Val(concretize(s, off, 64));
    }
    storeAt(s.getW(id), off.c, bytes, w, v);
    return true;
}
bool Exec::readBytes(State& s, const Val& p, uint64_t n, std::vector<Val>& out)
{
    out.clear();
    if (!n) return true;
    Val q = p.e ? Val(concretize(s, p, 64)) : p;
    uint32_t id; Val off;
    resolve(s, q, n, false, id, off, "read");
    const Obj* o = s.get(id);
    out.resize(n);
    for (uint64_t i = 0; i < n; i++) out[i] = loadAt(o, off.c + i, 1, 8);
    return true;
}
bool Exec::writeBytes(State& s, const Val& p, const std::vector<Val>& v)
{
    if (v.empty()) return true;
    Val q = p.e ? Val(concretize(s, p, 64)) : p;
    uint32_t id; Val off;
    resolve(s, q, v.size(), true, id, off, "write");
    Obj* o = s.getW(id);
    for (uint64_t i = 0; i < v.size(); i++) storeAt(o, off.c + i, 1, 8, v[i]);
    return true;
}
std::string Exec::readCStr(State& s, const Val& p)
{
    std::string r;
    uint64_t a = p.e ? modelVal(s, p) : p.c; // a tag chosen by a symbolic condition: any one of them
    for (;;) {
        Val b;
        load(s, Val(a++), 1, 8, b);
        char c = (char)modelVal(s, b);
        if (!c) break;
        r += c;
        if (r.size() > 4096) break;
    }
    return r;
}
// ---------------------------------------------------------------- constants & lowering
static void leavesOf(Type* t, const DataLayout& DL, uint64_t off, std::vector<Leaf>& out)
{
    if (auto* st = dyn_cast<StructType>(t)) {
        const StructLayout* sl = DL.getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) leavesOf(st->getElementType(i), DL, off + sl->getElementOffset(i), out);
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL.getTypeAllocSize(at->getElementType());
        for (uint64_t i = 0; i < at->getNumElements(); i++) leavesOf(at->getElementType(), DL, off + i * es, out);
        return;
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        uint64_t es = DL.getTypeStoreSize(vt->getElementType());
        for (unsigned i = 0; i < vt->getNumElements(); i++) leavesOf(vt->getElementType(), DL, off + i * es, out);
        return;
    }
    if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) return;
    unsigned w = t->isPointerTy() ? 64 : (unsigned)DL.getTypeSizeInBits(t);
    out.push_back({(uint32_t)off, (uint16_t)w, (uint16_t)((w + 7) / 8)});
}
static std::vector<Leaf> leaves(Type* t, const DataLayout& DL) { std::vector<Leaf> r; leavesOf(t, DL, 0, r); return r; }
static int leafCount(Type* t, const DataLayout& DL)
{
    if (auto* st = dyn_cast<StructType>(t)) { int n = 0; for (auto* e : st->elements()) n += leafCount(e, DL); return n; }
    if (auto* at = dyn_cast<ArrayType>(t)) return (int)at->getNumElements() * leafCount(at->getElementType(), DL);
    if (auto* vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements();
    if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) return 0;
    return 1;
}
static Op castable(unsigned opc)
{
    switch (opc) {
    case Instruction::Add: return ADD; case Instruction::Sub: return SUB; case Instruction::Mul: return MUL;
    case Instruction::UDiv: return UDIV; case Instruction::SDiv: return SDIV; case Instruction::URem: return UREM; case Instruction::SRem: return SREM;
    case Instruction::And: return AND; case Instruction::Or: return OR; case Instruction::Xor: return XOR;
    case Instruction::Shl: return SHL; case Instruction::LShr: return LSHR; case Instruction::AShr: return ASHR;
    }
    return CONST;
}
std::vector<Val> Exec::evalConst(const Constant* c)
{
    std::vector<Val> r;
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() <= 64) return {Val(ci->getZExtValue())};
        if (ci->getBitWidth() <= 128) {
            const uint64_t* raw = ci->getValue().getRawData();
            return {Val(mkConst(((u128)raw[1] << 64) | raw[0], ci->getBitWidth()))};
        }
        return {Val((uint64_t)0)};
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) return {Val(cf->getValueAPF().bitcastToAPInt().getZExtValue())};
    if (isa<ConstantPointerNull>(c)) return {Val((uint64_t)0)};
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        for (auto& l : leaves(c->getType(), *DL)) { if (l.w > 64) r.push_back(Val(mkConst(0, l.w))); else r.push_back(Val((uint64_t)0)); }
        return r;
    }
    if (auto* gv = dyn_cast<GlobalValue>(c)) {
        if (auto* ga = dyn_cast<GlobalAlias>(gv)) return evalConst(ga->getAliasee());
        auto it = gaddr.find(gv);
        if (it != gaddr.end()) return {Val(it->second)};
        fprintf(stderr, "no address for global %s\n", gv->getName().str().c_str());
        return {Val((uint64_t)0)};
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        for (unsigned i = 0; i < cd->getNumElements(); i++) { auto v = evalConst(cd->getElementAsConstant(i)); r.insert(r.end(), v.begin(), v.end()); }
        return r;
    }
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
        for (unsigned i = 0; i < c->getNumOperands(); i++) { auto v = evalConst(cast<Constant>(c->getOperand(i))); r.insert(r.end(), v.begin(), v.end()); }
        return r;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        unsigned w = ce->getType()->isPointerTy() ? 64 : (unsigned)DL->getTypeSizeInBits(ce->getType());
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto* gep = cast<GEPOperator>(ce);
            APInt off(64, 0);
            if (!gep->accumulateConstantOffset(*DL, off)) break;
            Val b = evalConst(cast<Constant>(gep->getPointerOperand()))[0];
            return {Val(b.c + off.getZExtValue())};
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc: {
            Val b = evalConst(ce->getOperand(0))[0];
            return {Val(b.c & mask64(w))};
        }
        case Instruction::ICmp: {
            Val a = evalConst(ce->getOperand(0))[0], b = evalConst(ce->getOperand(1))[0];
            return {vICmp(ce->getPredicate(), a, b, 64)};
        }
        default: {
            Op op = castable(ce->getOpcode());
            if (op != CONST) { Val a = evalConst(ce->getOperand(0))[0], b = evalConst(ce->getOperand(1))[0]; return {vBin(op, a, b, w)}; }
        }
        }
    }
    std::string str; raw_string_ostream os(str); c->print(os);
    fprintf(stderr, "unsupported constant: %s\n", os.str().c_str());
    for (auto& l : leaves(c->getType(), *DL)) { (void)l; r.push_back(Val((uint64_t)0)); }
    return r;
}
Func* Exec::getFunc(const Function* f)
{
    // a harness may stand in for a function of the code with vp_override__<name> (symbolic execution only, replays use the real one)
    if (auto* o = M->getFunction(("vp_override__" + f->getName()).str())) if (!o->isDeclaration()) f = o;
    auto it = funcs.find(f);
    return it == funcs.end() ? nullptr : it->second;
}
void Exec::lower(Func* F)
{
    F->lowered = true;
    const Function& f = *F->f;
    if (auto* sp = f.getSubprogram()) {
        std::string fn = (sp->getFilename()).str();
        F->isRepo = fn.rfind(repoPrefix, 0) == 0;
    }
    std::unordered_map<const Value*, int> slot;
    int n = 0;
    for (auto& a : f.args()) {
        slot[&a] = n;
        int lc = leafCount(a.getType(), *DL);
        for (int i = 0; i < lc; i++) {
            F->argSlot.push_back(n + i);
            F->byvalSize.push_back(a.hasByValAttr() ? (uint64_t)DL->getTypeAllocSize(a.getParamByValType()) : 0);
        }
        n += lc;
    }
    std::unordered_map<const BasicBlock*, int> bidx;
    int nb = 0;
    for (auto& b : f) {
        bidx[&b] = nb++;
        for (auto& i : b) if (!i.getType()->isVoidTy()) { slot[&i] = n; n += leafCount(i.getType(), *DL); }
    }
    F->nregs = n;
    auto ops = [&](const Value* v) {
        std::vector<Opnd> r;
        if (auto* c = dyn_cast<Constant>(v)) { for (auto& x : evalConst(c)) { Opnd o; o.k = x; r.push_back(o); } return r; }
        auto it = slot.find(v);
        int lc = leafCount(v->getType(), *DL);
        for (int i = 0; i < lc; i++) { Opnd o; o.r = it == slot.end() ? -1 : it->second + i; r.push_back(o); }
        return r;
    };
    auto edge = [&](const BasicBlock* from, const BasicBlock* to) {
        Edge e; e.block = bidx[to];
        for (auto& p : to->phis()) {
            auto o = ops(p.getIncomingValueForBlock(from));
            int d = slot[&p];
            for (size_t i = 0; i < o.size(); i++) e.phis.push_back({d + (int)i, o[i]});
        }
        return e;
    };
    auto wOf = [&](Type* t) { return (unsigned)(t->isPointerTy() ? 64 : (t->getScalarType()->isPointerTy() ? 64 : DL->getTypeSizeInBits(t->getScalarType()))); };
    for (auto& b : f) {
        F->blockStart.push_back((int)F->code.size());
        for (auto& I : b) {
            if (isa<PHINode>(I)) continue;
            if (isa<DbgInfoIntrinsic>(I)) continue;
            Inst x;
            x.src = &I;
            if (!I.getType()->isVoidTy()) x.dst = slot[&I];
            auto push = [&](const Value* v) { auto o = ops(v); x.o.insert(x.o.end(), o.begin(), o.end()); return (int)o.size(); };
            if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
                x.w = wOf(I.getType());
                int k = push(bo->getOperand(0)); push(bo->getOperand(1));
                x.x.push_back(k);
                Op op = castable(bo->getOpcode());
                if (op != CONST) { x.op = IBin; x.sub = op; }
                else { x.op = IFBin; x.sub = bo->getOpcode(); }
            } else if (auto* ic = dyn_cast<ICmpInst>(&I)) {
                x.op = IICmp; x.sub = ic->getPredicate(); x.w = wOf(ic->getOperand(0)->getType());
                x.x.push_back(push(ic->getOperand(0))); push(ic->getOperand(1));
            } else if (auto* fc = dyn_cast<FCmpInst>(&I)) {
                x.op = IFCmp; x.sub = fc->getPredicate(); x.w = wOf(fc->getOperand(0)->getType());
                push(fc->getOperand(0)); push(fc->getOperand(1));
            } else if (auto* se = dyn_cast<SelectInst>(&I)) {
                x.op = ISelect;
                int k = push(se->getCondition()); x.x.push_back(k);
                int m = push(se->getTrueValue()); x.x.push_back(m); push(se->getFalseValue());
                x.lv = leaves(I.getType(), *DL);
            } else if (auto* ca = dyn_cast<CastInst>(&I)) {
                x.w = wOf(ca->getSrcTy()); x.w2 = wOf(ca->getDestTy());
                push(ca->getOperand(0));
                switch (ca->getOpcode()) {
                case Instruction::Trunc: x.op = ICast; x.sub = 0; break;
                case Instruction::ZExt: x.op = ICast; x.sub = 1; break;
                case Instruction::SExt: x.op = ICast; x.sub = 2; break;
                case Instruction::PtrToInt: case Instruction::IntToPtr: x.op = ICast; x.sub = x.w > x.w2 ? 0 : 1; break;
                case Instruction::BitCast: case Instruction::AddrSpaceCast:
                    if (leafCount(ca->getSrcTy(), *DL) == leafCount(ca->getDestTy(), *DL)) x.op = IMov;
                    else { x.op = IUnsupported; x.text = "vector bitcast"; }
                    break;
                default: x.op = IFCast; x.sub = ca->getOpcode();
                }
            } else if (auto* ld = dyn_cast<LoadInst>(&I)) {
                x.op = ILoad; push(ld->getPointerOperand()); x.lv = leaves(I.getType(), *DL);
            } else if (auto* stI = dyn_cast<StoreInst>(&I)) {
                x.op = IStore; push(stI->getPointerOperand()); push(stI->getValueOperand()); x.lv = leaves(stI->getValueOperand()->getType(), *DL);
            } else if (auto* gp = dyn_cast<GetElementPtrInst>(&I)) {
                x.op = IGep;
                if (I.getType()->isVectorTy()) { x.op = IUnsupported; x.text = "vector gep"; }
                else {
                    push(gp->getPointerOperand());
                    int64_t c = 0;
                    std::vector<std::pair<const Value*, int64_t>> var;
                    for (gep_type_iterator gi = gep_type_begin(gp), ge = gep_type_end(gp); gi != ge; ++gi) {
                        Value* idx = gi.getOperand();
                        if (StructType* sty = gi.getStructTypeOrNull()) c += DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                        else {
                            int64_t sz = (int64_t)DL->getTypeAllocSize(gi.getIndexedType());
                            if (auto* ci = dyn_cast<ConstantInt>(idx)) c += sz * ci->getSExtValue();
                            else var.push_back({idx, sz});
                        }
                    }
                    x.x.push_back(c);
                    for (auto& p : var) { push(p.first); x.x.push_back(p.second); x.x.push_back(wOf(p.first->getType())); }
                }
            } else if (auto* al = dyn_cast<AllocaInst>(&I)) {
                x.op = IAlloca;
                x.x.push_back((int64_t)DL->getTypeAllocSize(al->getAllocatedType()));
                x.x.push_back((int64_t)al->getAlign().value());
                push(al->getArraySize());
            } else if (auto* br = dyn_cast<BranchInst>(&I)) {
                if (br->isConditional()) {
                    x.op = ICondBr; push(br->getCondition());
                    x.edges.push_back(edge(&b, br->getSuccessor(0))); x.edges.push_back(edge(&b, br->getSuccessor(1)));
                } else { x.op = IBr; x.edges.push_back(edge(&b, br->getSuccessor(0))); }
            } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                x.op = ISwitch; push(sw->getCondition()); x.w = wOf(sw->getCondition()->getType());
                x.edges.push_back(edge(&b, sw->getDefaultDest()));
                std::map<const BasicBlock*, int> seen;
                for (auto& cs : sw->cases()) {
                    const BasicBlock* t = cs.getCaseSuccessor();
                    auto it = seen.find(t);
                    int ei;
                    if (it == seen.end()) { ei = (int)x.edges.size(); x.edges.push_back(edge(&b, t)); seen[t] = ei; } else ei = it->second;
                    x.x.push_back((int64_t)cs.getCaseValue()->getZExtValue()); x.x.push_back(ei);
                }
            } else if (auto* rt = dyn_cast<ReturnInst>(&I)) {
                x.op = IRet; if (rt->getReturnValue()) push(rt->getReturnValue());
            } else if (auto* cb = dyn_cast<CallBase>(&I)) {
                x.op = ICall;
                if (cb->isInlineAsm()) { 
                    // compiler barriers only
                    x.op = INop;
                    if (x.dst >= 0) { x.op = IUnsupported; x.text = "inline asm"; }
                } else {
                    const Function* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
                    if (!cf) if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) cf = dyn_cast<Function>(ga->getAliaseeObject());
                    if (cf) x.callee = getFunc(cf);
                    x.w = I.getType()->isVoidTy() ? 0 : (I.getType()->isSingleValueType() ? wOf(I.getType()) : 0);
                    bool dbg = cf && cf->getName().starts_with("llvm.dbg");
                    if (dbg) continue;
                    for (auto& a : cb->args()) if (!a->getType()->isMetadataTy()) push(a);
                    x.x.push_back((int64_t)x.o.size());
                    push(cb->getCalledOperand());
                    for (auto& a : cb->args()) if (!a->getType()->isMetadataTy()) { unsigned aw = a->getType()->isFirstClassType() && !a->getType()->isAggregateType() ? wOf(a->getType()) : 0; x.x.push_back(aw); }
                }
                if (auto* iv = dyn_cast<InvokeInst>(cb)) { x.op = IUnsupported; x.text = "invoke"; (void)iv; }
            } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
                x.op = IMov;
                auto o = ops(ev->getAggregateOperand());
                int start = 0; Type* t = ev->getAggregateOperand()->getType();
                for (unsigned ix : ev->indices()) {
                    if (auto* st2 = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) start += leafCount(st2->getElementType(k), *DL); t = st2->getElementType(ix); }
                    else { t = cast<ArrayType>(t)->getElementType(); start += (int)ix * leafCount(t, *DL); }
                }
                int lc = leafCount(t, *DL);
                x.o.assign(o.begin() + start, o.begin() + start + lc);
            } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
                x.op = IMov;
                x.o = ops(iv->getAggregateOperand());
                auto v = ops(iv->getInsertedValueOperand());
                int start = 0; Type* t = iv->getAggregateOperand()->getType();
                for (unsigned ix : iv->indices()) {
                    if (auto* st2 = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) start += leafCount(st2->getElementType(k), *DL); t = st2->getElementType(ix); }
                    else { t = cast<ArrayType>(t)->getElementType(); start += (int)ix * leafCount(t, *DL); }
                }
                for (size_t i = 0; i < v.size(); i++) x.o[start + i] = v[i];
            } else if (auto* ee = dyn_cast<ExtractElementInst>(&I)) {
                auto o = ops(ee->getVectorOperand());
                if (auto* ci = dyn_cast<ConstantInt>(ee->getIndexOperand())) { x.op = IMov; x.o = {o[ci->getZExtValue()]}; }
                else { x.op = IUnsupported; x.text = "extractelement"; }
            } else if (auto* ie = dyn_cast<InsertElementInst>(&I)) {
                x.o = ops(ie->getOperand(0));
                if (auto* ci = dyn_cast<ConstantInt>(ie->getOperand(2))) { x.op = IMov; x.o[ci->getZExtValue()] = ops(ie->getOperand(1))[0]; }
                else { x.op = IUnsupported; x.text = "insertelement"; }
            } else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) {
                x.op = IMov;
                auto a = ops(sv->getOperand(0)), c = ops(sv->getOperand(1));
                a.insert(a.end(), c.begin(), c.end());
                for (int m : sv->getShuffleMask()) { Opnd z; x.o.push_back(m < 0 ? z : a[m]); }
            } else if (isa<FreezeInst>(I)) { x.op = IMov; push(I.getOperand(0)); }
            else if (isa<UnreachableInst>(I)) x.op = IUnreachable;
            else if (auto* un = dyn_cast<UnaryOperator>(&I)) { x.op = IFNeg; x.w = wOf(un->getType()); push(un->getOperand(0)); }
            else if (auto* rmw = dyn_cast<AtomicRMWInst>(&I)) {
                x.op = IAtomicRMW; x.sub = rmw->getOperation(); x.w = wOf(rmw->getValOperand()->getType());
                push(rmw->getPointerOperand()); push(rmw->getValOperand());
            } else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
                x.op = ICmpXchg; x.w = wOf(cx->getNewValOperand()->getType());
                push(cx->getPointerOperand()); push(cx->getCompareOperand()); push(cx->getNewValOperand());
            } else if (isa<FenceInst>(I)) x.op = INop;
            else { x.op = IUnsupported; x.text = I.getOpcodeName(); }
            F->code.push_back(std::move(x));
        }
    }
    for (auto& i : F->code) for (auto& e : i.edges) e.target = F->blockStart[e.block];
}
static void storeConst(Exec& E, Obj* o, uint64_t off, const Constant* c)
{
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        StringRef raw = cd->getRawDataValues();
        memcpy(&o->b[off], raw.data(), raw.size());
        return;
    }
    auto lv = leaves(c->getType(), *E.DL);
    auto v = E.evalConst(c);
    for (size_t i = 0; i < lv.size(); i++) E.storeAt(o, off + lv[i].off, lv[i].bytes, lv[i].w, v[i]);
}
void Exec::initGlobals(State& s)
{
    for (auto& f : *M) {
        Func* F = new Func();
        F->f = &f; F->name = f.getName().str();
        auto it = g_handlers.find(F->name);
        if (it != g_handlers.end()) F->h = it->second;
        else F->h = intrinsicHandler(F->name);
        funcs[&f] = F;
        Obj* o = new Obj(); o->kind = OFunc; o->size = 0; o->ro = true;
        F->id = s.add(o);
        funcById[F->id] = F;
        gaddr[&f] = addrOf(s, F->id);
    }
    for (auto& g : M->globals()) {
        Obj* o = new Obj();
        o->kind = OGlobal;
        uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 0;
        if (g.isDeclaration()) sz = std::max<uint64_t>(sz, 256);
        o->size = sz;
        if (g.getAlign() && g.getAlign()->value() > 16) o->align0 = 0x1000;
        o->b.assign(sz, 0);
        uint32_t id = s.add(o);
        gaddr[&g] = addrOf(s, id);
    }
    for (auto& g : M->globals()) {
        uint32_t id = (uint32_t)(gaddr[&g] >> 32) - 1;
        Obj* o = s.getW(id);
        if (g.hasInitializer()) storeConst(*this, o, 0, g.getInitializer());
        if (g.isConstant() && g.hasInitializer()) o->ro = true;
        if (g.getName() == "__libc_single_threaded") o->b[0] = 1;
    }
}
void Exec::setup(const std::string& entry)
{
    DL = &M->getDataLayout();
    State* s = new State();
    s->id = 0;
    s->model = std::make_shared<Model>();
    s->model->epoch = newEpoch();
    initGlobals(*s);
    std::vector<std::pair<uint64_t, Func*>> ct;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors"))
        if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
            for (auto& u : ca->operands()) {
                auto* cs = cast<ConstantStruct>(u);
                if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ct.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), getFunc(f)});
            }
    std::stable_sort(ct.begin(), ct.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& p : ct) startList.push_back(p.second);
    Function* ef = M->getFunction(entry);
    if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); exit(3); }
    startList.push_back(getFunc(ef));
    work.push_back(s);
}
void Exec::enterCall(State& s, Func* f, const std::vector<Val>& args, int retDst)
{
    if (!f->lowered) lower(f);
    if (!f->seen) { f->seen = true; if (f->isRepo) repoFuncs.insert(f->name); }
    if (s.st.size() > 400) { violation(s, "stack-overflow", "call depth over 400"); throw PathDead(); }
    s.st.emplace_back();
    Frame& fr = s.st.back();
    fr.f = f; fr.pc = 0; fr.retDst = retDst;
    fr.regs.resize(f->nregs);
    for (size_t i = 0; i < f->argSlot.size() && i < args.size(); i++) {
        if (f->byvalSize[i]) {
            std::vector<Val> bytes;
            uint64_t a = alloc(s, f->byvalSize[i], OStack, TNone);
            uint32_t id; Val off;
            resolve(s, args[i], f->byvalSize[i], false, id, off, "read");
            const Obj* src = s.get(id);
            Obj* dst = s.getW((uint32_t)(a >> 32) - 1);
            for (uint64_t k = 0; k < f->byvalSize[i]; k++) { dst->b[k] = src->b[off.c + k]; if (!src->s.empty() && src->s[off.c + k].e) { if (dst->s.empty()) dst->s.resize(dst->size); dst->s[k] = src->s[off.c + k]; } }
            s.st.back().allocas.push_back((uint32_t)(a >> 32) - 1);
            fr.regs[f->argSlot[i]] = Val(a);
        } else
            fr.regs[f->argSlot[i]] = args[i];
    }
}
void Exec::freeStackFrame(State& s, Frame& f)
{
    for (uint32_t id : f.allocas) {
        Obj* o = s.getW(id);
        o->alive = false;
        std::vector<uint8_t>().swap(o->b);
        std::vector<Cell>().swap(o->s);
    }
}
bool Exec::timeUp() { return now() - startTime > timeBudget; }
static double asD(uint64_t c, unsigned w) { if (w == 32) { float f; uint32_t u = (uint32_t)c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static uint64_t fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t u; memcpy(&u, &d, 8); return u; }
static Val havoc(Exec& E, State& s, unsigned w)
{
    s.havocs++;
    E.incomplete["note:float-havoc"]++;
    return Val(mkVar(w, "havoc" + std::to_string(s.havocs)));
}
bool Exec::stepState(State& S)
{
    State& s = S;
    for (;;) {
        if (s.st.empty()) {
            if (s.startIdx >= startList.size()) return false;
            Func* f = startList[s.startIdx++];
            enterCall(s, f, {}, -1);
        }
        Frame* fr = &s.st.back();
        Func* F = fr->f;
        const Inst& I = F->code[fr->pc];
        insts++; s.insts++;
        if ((insts & 1023) == 0 && timeUp()) { incomplete["time-budget"]++; throw PathDead(); }
        if (s.insts > maxPathInsts) { incomplete["path-instruction-limit"]++; throw PathDead(); }
        if (s.hangLimit && s.insts - s.hangBase > s.hangLimit) { violation(s, "hang", "no termination within " + std::to_string(s.hangLimit) + " instructions"); throw PathDead(); }
        std::vector<Val>& R = fr->regs;
        auto G = [&](const Opnd& o) -> const Val& { return o.r >= 0 ? R[o.r] : o.k; };
        auto jump = [&](const Edge& e) {
            if (e.phis.size() == 1) { Val v = G(e.phis[0].second); R[e.phis[0].first] = v; }
            else if (!e.phis.empty()) {
                std::vector<Val> t; t.reserve(e.phis.size());
                for (auto& p : e.phis) t.push_back(G(p.second));
                for (size_t i = 0; i < t.size(); i++) R[e.phis[i].first] = t[i];
            }
            fr->pc = e.target;
        };
        switch (I.op) {
        case INop: break;
        case IBin: {
            int k = (int)I.x[0];
            for (int i = 0; i < k; i++) {
                const Val& a = G(I.o[i]); const Val& b = G(I.o[k + i]);
                if (I.sub == UDIV || I.sub == SDIV || I.sub == UREM || I.sub == SREM) {
                    if (!b.e ? b.c == 0 : false) { violation(s, "div-by-zero", "division by zero"); throw PathDead(); }
                    if (b.e) { bool z = decide(s, mkEq(b.e, mkConst(0, I.w))); if (z) { violation(s, "div-by-zero", "division by zero"); throw PathDead(); } }
                }
                R[I.dst + i] = vBin((Op)I.sub, a, b, I.w);
            }
            break;
        }
        case IICmp: {
            int k = (int)I.x[0];
            for (int i = 0; i < k; i++) R[I.dst + i] = vICmp(I.sub, G(I.o[i]), G(I.o[k + i]), I.w);
            break;
        }
        case ISelect: {
            int k = (int)I.x[0], m = (int)I.x[1];
            std::vector<Val> t(m);
            for (int i = 0; i < m; i++) {
                Val c = G(I.o[k == 1 ? 0 : i]);
                if (c.e) { uint64_t v; auto it = s.facts.find(c.e); if (it != s.facts.end()) { v = it->second; c = Val(v); } }
                if (c.e && g_linTables) { const Val &a = G(I.o[k + i]), &b = G(I.o[k + m + i]); if (!a.e && b.e && sameLookup(c.e, a.c, b.e)) { t[i] = b; continue; } }
                if (c.e && forkSelects) { const Val &a = G(I.o[k + i]), &b = G(I.o[k + m + i]); if (a.e != b.e || a.c != b.c) { t[i] = decide(s, c.e) ? G(I.o[k + i]) : G(I.o[k + m + i]); continue; } }
                t[i] = vIte(c, G(I.o[k + i]), G(I.o[k + m + i]), I.lv[i].w);
            }
            for (int i = 0; i < m; i++) R[I.dst + i] = t[i];
            break;
        }
        case ICast:
            for (size_t i = 0; i < I.o.size(); i++) {
                const Val& a = G(I.o[i]);
                R[I.dst + i] = I.sub == 0 ? vTrunc(a, I.w, I.w2) : I.sub == 1 ? vZExt(a, I.w, I.w2) : vSExt(a, I.w, I.w2);
            }
            break;
        case IMov: {
            if (I.o.size() == 1) { Val v = G(I.o[0]); R[I.dst] = v; }
            else {
                std::vector<Val> t; for (auto& o : I.o) t.push_back(G(o));
                for (size_t i = 0; i < t.size(); i++) R[I.dst + i] = t[i];
            }
            break;
        }
        case ILoad: {
            Val p = G(I.o[0]);
            if (I.lv.size() == 1) { Val v; load(s, p, I.lv[0].bytes, I.lv[0].w, v); s.st.back().regs[I.dst] = v; }
            else {
                if (p.e) p = Val(concretize(s, p, 64));
                std::vector<Val> t(I.lv.size());
                for (size_t i = 0; i < I.lv.size(); i++) load(s, Val(p.c + I.lv[i].off), I.lv[i].bytes, I.lv[i].w, t[i]);
                for (size_t i = 0; i < t.size(); i++) R[I.dst + i] = t[i];
            }
            break;
        }
        case IStore: {
            Val p = G(I.o[0]);
            if (I.lv.size() == 1) store(s, p, I.lv[0].bytes, I.lv[0].w, G(I.o[1]));
            else {
                if (p.e) p = Val(concretize(s, p, 64));
                for (size_t i = 0; i < I.lv.size(); i++) store(s, Val(p.c + I.lv[i].off), I.lv[i].bytes, I.lv[i].w, G(I.o[1 + i]));
            }
            break;
        }
        case IGep: {
            Val p = vBin(ADD, G(I.o[0]), Val((uint64_t)I.x[0]), 64);
            for (size_t i = 1; i < I.o.size(); i++) {
                Val ix = vSExt(G(I.o[i]), (unsigned)I.x[2 * i], 64);
                p = vBin(ADD, p, vBin(MUL, ix, Val((uint64_t)I.x[2 * i - 1]), 64), 64);
            }
            R[I.dst] = p;
            break;
        }
        case IAlloca: {
            uint64_t n = concretize(s, G(I.o[0]), 64);
            uint64_t a = alloc(s, n * (uint64_t)I.x[0], OStack, TNone, I.x[1] > 16 ? 0x1000 : 0x1010);
            fr->allocas.push_back((uint32_t)(a >> 32) - 1);
            R[I.dst] = Val(a);
            break;
        }
        case IBr: jump(I.edges[0]); continue;
        case ICondBr: {
            const Val& c = G(I.o[0]);
            bool t = c.e ? decide(s, c.e) : c.c != 0;
            jump(I.edges[t ? 0 : 1]);
            continue;
        }
        case ISwitch: {
            Val c = G(I.o[0]);
            if (c.e) { uint64_t k; if (fixed(s, c.e, &k)) c = Val(k); }
            if (!c.e) {
                int t = 0;
                for (size_t i = 0; i < I.x.size(); i += 2) if ((uint64_t)I.x[i] == c.c) { t = (int)I.x[i + 1]; break; }
                jump(I.edges[t]);
                continue;
            }
            // one decision per distinct target
            int chosen = 0;
            for (size_t e = 1; e < I.edges.size(); e++) {
                Expr* cond = mkBool(false);
                for (size_t i = 0; i < I.x.size(); i += 2) if (I.x[i + 1] == (int64_t)e) cond = mkOr(cond, mkEq(c.e, mkConst((uint64_t)I.x[i], I.w)));
                if (decide(s, cond)) { chosen = (int)e; break; }
            }
            jump(I.edges[chosen]);
            continue;
        }
        case IRet: {
            std::vector<Val> rv; for (auto& o : I.o) rv.push_back(G(o));
            int d = fr->retDst;
            freeStackFrame(s, *fr);
            s.st.pop_back();
            if (!s.st.empty()) {
                Frame& p = s.st.back();
                if (d >= 0) for (size_t i = 0; i < rv.size(); i++) p.regs[d + i] = rv[i];
                p.pc++;
            }
            continue;
        }
        case ICall: {
            size_t na = (size_t)I.x[0];
            Func* cf = I.callee;
            if (!cf) {
                Val t = G(I.o[na]);
                uint64_t a = concretize(s, t, 64);
                uint32_t id = (uint32_t)(a >> 32) - 1;
                auto it = funcById.find(id);
                if (a < (1ull << 32)) { violation(s, "null-call", "call through null function pointer"); throw PathDead(); }
                if (it == funcById.end()) { violation(s, "bad-call", "call through invalid function pointer"); throw PathDead(); }
                cf = it->second;
            }
            std::vector<Val> args(na);
            for (size_t i = 0; i < na; i++) args[i] = G(I.o[i]);
            if (cf->h) {
                H h = cf->h(*this, s, I, args);
                if (h == H::Pushed) continue;
                break;
            }
            if (cf->f->isDeclaration()) incompletePath("unsupported-call:" + cf->name);
            enterCall(s, cf, args, I.dst);
            continue;
        }
        case IFBin: {
            const Val &a = G(I.o[0]), &b = G(I.o[1]);
            if (I.o.size() != 2) incompletePath("vector-float");
            if ((a.e || b.e) && (I.w == 32 || I.w == 64) && I.sub != Instruction::FRem) {
                Fp k = I.sub == Instruction::FAdd ? FpAdd : I.sub == Instruction::FSub ? FpSub : I.sub == Instruction::FMul ? FpMul : FpDiv;
                R[I.dst] = Val(mkFp(k, toE(a, I.w), toE(b, I.w), I.w)); break;
            }
            if (a.e || b.e) { R[I.dst] = havoc(*this, s, I.w); break; }
            double x = asD(a.c, I.w), y = asD(b.c, I.w), r = 0;
            switch (I.sub) {
            case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break;
            case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmod(x, y); break;
            }
            if (I.w == 32) { float fx = (float)x, fy = (float)y; switch (I.sub) { case Instruction::FAdd: r = fx + fy; break; case Instruction::FSub: r = fx - fy; break; case Instruction::FMul: r = fx * fy; break; case Instruction::FDiv: r = fx / fy; break; } }
            R[I.dst] = Val(fromD(r, I.w));
            break;
        }
        case IFNeg: { const Val& a = G(I.o[0]); if (a.e) R[I.dst] = Val(mkFp(FpNeg, a.e, nullptr, I.w)); else R[I.dst] = Val(fromD(-asD(a.c, I.w), I.w)); break; }
        case IFCmp: {
            const Val &a = G(I.o[0]), &b = G(I.o[1]);
            if ((a.e || b.e) && (I.w == 32 || I.w == 64)) {
                Expr *x = toE(a, I.w), *y = toE(b, I.w), *un = mkFp(FpUno, x, y, 1), *r = nullptr;
                switch (I.sub) {
                case CmpInst::FCMP_OEQ: r = mkFp(FpEq, x, y, 1); break; case CmpInst::FCMP_OGT: r = mkFp(FpLt, y, x, 1); break; case CmpInst::FCMP_OGE: r = mkFp(FpLe, y, x, 1); break;
                case CmpInst::FCMP_OLT: r = mkFp(FpLt, x, y, 1); break; case CmpInst::FCMP_OLE: r = mkFp(FpLe, x, y, 1); break;
                case CmpInst::FCMP_ONE: r = mkAnd(mkNot(un), mkNot(mkFp(FpEq, x, y, 1))); break;
                case CmpInst::FCMP_ORD: r = mkNot(un); break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = mkOr(un, mkFp(FpEq, x, y, 1)); break;
                case CmpInst::FCMP_UGT: r = mkNot(mkFp(FpLe, x, y, 1)); break; case CmpInst::FCMP_UGE: r = mkNot(mkFp(FpLt, x, y, 1)); break;
                case CmpInst::FCMP_ULT: r = mkNot(mkFp(FpLe, y, x, 1)); break; case CmpInst::FCMP_ULE: r = mkNot(mkFp(FpLt, y, x, 1)); break;
                case CmpInst::FCMP_UNE: r = mkNot(mkFp(FpEq, x, y, 1)); break; default: r = mkBool(I.sub == CmpInst::FCMP_TRUE);
                }
                R[I.dst] = Val(r); break;
            }
            if (a.e || b.e) { R[I.dst] = havoc(*this, s, 1); break; }
            double x = asD(a.c, I.w), y = asD(b.c, I.w); bool un = std::isnan(x) || std::isnan(y), r = false;
            switch (I.sub) {
            case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break;
            case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
            case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break;
            case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break;
            case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_TRUE: r = true; break;
            }
            R[I.dst] = Val((uint64_t)r);
            break;
        }
        case IFCast: {
            const Val& a = G(I.o[0]);
            if (I.o.size() != 1) incompletePath("vector-float");
            if (a.e) {
                Fp k = FpToFp;
                switch (I.sub) { case Instruction::FPToUI: k = FpToUI; break; case Instruction::FPToSI: k = FpToSI; break; case Instruction::UIToFP: k = FpUI; break; case Instruction::SIToFP: k = FpSI; break; default: break; }
                R[I.dst] = Val(mkFp(k, a.e, nullptr, I.w2)); break;
            }
            uint64_t r = 0;
            switch (I.sub) {
            case Instruction::FPToUI: r = (uint64_t)asD(a.c, I.w) & mask64(I.w2); break;
            case Instruction::FPToSI: r = (uint64_t)(int64_t)asD(a.c, I.w) & mask64(I.w2); break;
            case Instruction::UIToFP: r = I.w2 == 32 ? fromD((float)a.c, 32) : fromD((double)a.c, 64); break;
            case Instruction::SIToFP: { int64_t v = (int64_t)vSExt(a, I.w, 64).c; r = I.w2 == 32 ? fromD((float)v, 32) : fromD((double)v, 64); break; }
            case Instruction::FPTrunc: case Instruction::FPExt: r = fromD(asD(a.c, I.w), I.w2); break;
            default: incompletePath("fp-cast");
            }
            R[I.dst] = Val(r);
            break;
        }
        case IAtomicRMW: {
            Val p = G(I.o[0]), v = G(I.o[1]), old;
            if (p.e) p = Val(concretize(s, p, 64));
            load(s, p, (I.w + 7) / 8, I.w, old);
            Val nv;
            switch (I.sub) {
            case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = vBin(ADD, old, v, I.w); break;
            case AtomicRMWInst::Sub: nv = vBin(SUB, old, v, I.w); break; case AtomicRMWInst::And: nv = vBin(AND, old, v, I.w); break;
            case AtomicRMWInst::Or: nv = vBin(OR, old, v, I.w); break; case AtomicRMWInst::Xor: nv = vBin(XOR, old, v, I.w); break;
            default: incompletePath("atomicrmw");
            }
            store(s, p, (I.w + 7) / 8, I.w, nv);
            s.st.back().regs[I.dst] = old;
            break;
        }
        case ICmpXchg: {
            Val p = G(I.o[0]), c = G(I.o[1]), n = G(I.o[2]), old;
            if (p.e) p = Val(concretize(s, p, 64));
            load(s, p, (I.w + 7) / 8, I.w, old);
            Val eq = vBin(EQ, old, c, I.w);
            store(s, p, (I.w + 7) / 8, I.w, vIte(eq, n, old, I.w));
            s.st.back().regs[I.dst] = old;
            s.st.back().regs[I.dst + 1] = eq;
            break;
        }
        case IUnreachable: violation(s, "unreachable", "undefined behaviour: unreachable code executed"); throw PathDead();
        case IUnsupported: incompletePath("unsupported-inst:" + I.text);
        }
        s.st.back().pc++;
    }
}
void Exec::finishPath(State& s)
{
    pathsDone++;
    for (auto& t : s.reached) reach[t]++;
    if (s.havocs) return;
    size_t slot = sampleFiles.size();
    if (slot >= samples) { // reservoir
        static uint64_t rng = 88172645463325252ull + seed;
        rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
        slot = rng % pathsDone;
    }
    if (slot < samples) {
        std::string fn = outDir + "/sample" + std::to_string(slot) + ".txt";
        std::ofstream(fn) << witness(s, *s.model, true);
        if (slot == sampleFiles.size()) sampleFiles.push_back(fn);
    }
}
void Exec::run()
{
    startTime = now();
    while (!work.empty()) {
        if (timeUp()) { incomplete["time-budget:states-left"] += work.size(); break; }
        if (viols.size() >= stopAfter) { incomplete["stopped-after-violations"]++; break; }
        State* s = work.back();
        work.pop_back();
        paths++;
        try {
            stepState(*s);
            finishPath(*s);
        } catch (PathDead&) {
        }
        delete s;
        if (paths >= maxPaths) { incomplete["max-paths"]++; break; }
    }
}
