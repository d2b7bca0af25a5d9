#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <set>

std::vector<VarInfo> g_vars;
static std::unordered_map<std::string, Expr*> g_varByName;
static std::vector<Expr*> g_table(1 << 20, nullptr);
static size_t g_count = 0;
size_t exprCount() { return g_count; }
static const VarSet g_empty;
static std::set<VarSet> g_varsets;
struct PairHash { size_t operator()(const std::pair<const void*, const void*>& p) const { return (size_t)p.first * 31 + (size_t)p.second; } };
static std::unordered_map<std::pair<const void*, const void*>, const VarSet*, PairHash> g_unions;

const VarSet* unionVars(const VarSet* a, const VarSet* b)
{
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    auto key = a < b ? std::make_pair((const void*)a, (const void*)b) : std::make_pair((const void*)b, (const void*)a);
    auto it = g_unions.find(key);
    if (it != g_unions.end()) return it->second;
    VarSet r;
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
    const VarSet* p = &*g_varsets.insert(r).first;
    g_unions[key] = p;
    return p;
}

static uint64_t hashKey(Op op, unsigned w, Expr* a, Expr* b, Expr* c, u128 v)
{
    uint64_t h = op * 0x9E3779B97F4A7C15ull + w;
    auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0); mix((uint64_t)v); mix((uint64_t)(v >> 64));
    return h;
}
static uint64_t computeKnown0(Op op, unsigned w, Expr* a, Expr* b, Expr* c, u128 v)
{
    if (w > 64) return 0;
    uint64_t m = mask64(w);
    auto lead = [&](uint64_t umax) -> uint64_t { // bits above highest set bit of umax
        if (umax == 0) return m;
        int hb = 63 - __builtin_clzll(umax);
        return m & ~(hb >= 63 ? ~0ull : ((1ull << (hb + 1)) - 1));
    };
    auto um = [&](Expr* e) { return mask64(e->w) & ~e->known0; };
    switch (op) {
    case CONST: return m & ~(uint64_t)v;
    case AND: return a->known0 | b->known0;
    case OR: case XOR: return a->known0 & b->known0;
    case ZEXT: return (m & ~mask64(a->w)) | a->known0;
    case EXTRACT: if (a->w <= 64) return (a->known0 >> (unsigned)v) & m; return 0;
    case CONCAT: return ((a->known0 << b->w) | b->known0) & m;
    case ITE: return b->known0 & c->known0;
    case ADD: {
        u128 s = (u128)um(a) + um(b);
        uint64_t r = 0;
        if (s <= m) r |= lead((uint64_t)s);
        uint64_t t = a->known0 & b->known0; // trailing zeros
        int tz = __builtin_ctzll(~t ? ~t : 1); if (t == ~0ull) tz = 64;
        r |= tz >= 64 ? m : (m & ((1ull << tz) - 1));
        return r;
    }
    case MUL: {
        u128 s = (u128)um(a) * um(b);
        uint64_t r = 0;
        if (s <= m) r |= lead((uint64_t)s);
        auto tzf = [](uint64_t k) { return k == ~0ull ? 64 : __builtin_ctzll(~k); };
        int tz = tzf(a->known0) + tzf(b->known0);
        if (tz > 64) tz = 64;
        r |= tz >= 64 ? m : (m & ((1ull << tz) - 1));
        return r;
    }
    case UDIV: if (b->isC() && (uint64_t)b->val) return lead(um(a) / (uint64_t)b->val); return lead(um(a)==0?0:m);
    case UREM: if (b->isC() && (uint64_t)b->val) return lead(std::min<uint64_t>(um(a), (uint64_t)b->val - 1)); return 0;
    case SHL: { if (b->isC()) { uint64_t s = (uint64_t)b->val; return s >= w ? m : (((a->known0 << s) | ((1ull << s) - 1)) & m); }
        auto t = a->known0; int tz = t == ~0ull ? 64 : __builtin_ctzll(~t); return tz >= 64 ? m : (m & ((1ull << tz) - 1)); }
    case LSHR: if (b->isC()) { uint64_t s = (uint64_t)b->val; return s >= w ? m : ((a->known0 >> s) | (m & ~(m >> s))) & m; }
        return lead(um(a));
    case SEXT: { if (a->known0 >> (a->w - 1) & 1) return (m & ~mask64(a->w)) | a->known0; return a->known0 & mask64(a->w - 1); }
    default: return 0;
    }
}
uint64_t umaxOf(Expr* e) { return mask64(e->w) & ~e->known0; }

static void rehash()
{
    std::vector<Expr*> nt(g_table.size() * 2, nullptr);
    for (Expr* e : g_table)
        while (e) {
            Expr* n = e->next;
            uint64_t h = hashKey(e->op, e->w, e->a, e->b, e->c, e->val) & (nt.size() - 1);
            e->next = nt[h]; nt[h] = e; e = n;
        }
    g_table.swap(nt);
}
static Expr* g_pool = nullptr; static size_t g_poolLeft = 0;
static Expr* intern(Op op, unsigned w, Expr* a, Expr* b, Expr* c, u128 v)
{
    uint64_t h = hashKey(op, w, a, b, c, v);
    for (Expr* e = g_table[h & (g_table.size() - 1)]; e; e = e->next)
        if (e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->val == v) return e;
    if (g_count > g_table.size()) rehash();
    if (!g_poolLeft) { g_pool = (Expr*)calloc(4096, sizeof(Expr)); g_poolLeft = 4096; }
    Expr* e = g_pool++; g_poolLeft--;
    e->op = op; e->w = w; e->a = a; e->b = b; e->c = c; e->val = v; e->id = (uint32_t)g_count++;
    e->known0 = computeKnown0(op, w, a, b, c, v);
    if (op == VAR) { VarSet s{(uint32_t)v}; e->vars = &*g_varsets.insert(s).first; }
    else {
        const VarSet* s = &g_empty;
        if (a) s = unionVars(s, a->vars);
        if (b) s = unionVars(s, b->vars);
        if (c) s = unionVars(s, c->vars);
        e->vars = s;
    }
    uint64_t slot = h & (g_table.size() - 1);
    e->next = g_table[slot]; g_table[slot] = e;
    return e;
}
Expr* mkConst(u128 v, unsigned w) { return intern(CONST, w, 0, 0, 0, v & maskW(w)); }
Expr* mkVar(unsigned w, const std::string& name)
{
    std::string key = name + "/" + std::to_string(w);
    auto it = g_varByName.find(key);
    if (it != g_varByName.end()) return it->second;
    g_vars.push_back({name, w});
    Expr* e = intern(VAR, w, 0, 0, 0, g_vars.size() - 1);
    g_varByName[key] = e;
    return e;
}
static i128 sgn(u128 v, unsigned w) { if (w < 128 && (v >> (w - 1) & 1)) return (i128)(v | ~maskW(w)); return (i128)v; }
u128 foldBin(Op op, u128 a, u128 b, unsigned w)
{
    u128 m = maskW(w);
    switch (op) {
    case ADD: return (a + b) & m;
    case SUB: return (a - b) & m;
    case MUL: return (a * b) & m;
    case UDIV: return b ? a / b : m;
    case UREM: return b ? a % b : a;
    case SDIV: { i128 x = sgn(a, w), y = sgn(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case SREM: { i128 x = sgn(a, w), y = sgn(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case AND: return a & b;
    case OR: return a | b;
    case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case LSHR: return b >= w ? 0 : (a >> (unsigned)b);
    case ASHR: { i128 x = sgn(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case EQ: return a == b;
    case ULT: return a < b;
    case SLT: return sgn(a, w) < sgn(b, w);
    default: abort();
    }
}
static bool commut(Op op) { return op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ; }
static bool isConstLeafIte(Expr* e) { return e->op == ITE && e->b->isC() && e->c->isC(); }
static int tzOf(Expr* e) { if (e->w > 64) return 0; uint64_t k = e->known0; if ((k & mask64(e->w)) == mask64(e->w)) return e->w; return __builtin_ctzll(~k); }
static int hiOf(Expr* e) { if (e->w > 64) return e->w; uint64_t u = umaxOf(e); return u ? 64 - __builtin_clzll(u) : 0; }

Expr* mkNot(Expr* a) { return mkBin(XOR, a, mkConst(maskW(a->w), a->w)); }

// a - b where both are sums: drops the terms they share
static bool addLike(Expr* e) { return e->op == ADD || e->op == SUB || (e->op == OR && e->w <= 64 && ((~e->a->known0) & (~e->b->known0) & mask64(e->w)) == 0); }
static bool terms(Expr* e, int sign, std::vector<std::pair<Expr*, int>>& out, int depth)
{
    if (out.size() > 24) return false;
    if (depth < 12 && addLike(e)) return terms(e->a, sign, out, depth + 1) && terms(e->b, e->op == SUB ? -sign : sign, out, depth + 1);
    if (e->op == CONCAT && e->w <= 64 && e->a->isC()) {
        Expr* lo = mkZExt(e->b, e->w);
        Expr* hi = mkConst(e->a->val << e->b->w, e->w);
        if (lo->op != CONCAT) { if (!terms(lo, sign, out, depth + 1)) return false; e = hi; }
    }
    for (auto& t : out) if (t.first == e) { t.second += sign; return true; }
    out.push_back({e, sign});
    return true;
}
static Expr* cancelSub(Expr* a, Expr* b)
{
    if (a->w < 8 || a->w > 64 || (!addLike(a) && !addLike(b) && a->op != CONCAT && b->op != CONCAT)) return nullptr;
    std::vector<std::pair<Expr*, int>> t;
    if (!terms(a, 1, t, 0) || !terms(b, -1, t, 0)) return nullptr;
    bool any = false;
    for (auto& p : t) { if (p.second == 0) any = true; if (p.second > 1 || p.second < -1) return nullptr; }
    if (!any) return nullptr;
    Expr* pos = mkConst(0, a->w); Expr* neg = mkConst(0, a->w);
    for (auto& p : t) { if (p.second == 1) pos = mkBin(ADD, pos, p.first); if (p.second == -1) neg = mkBin(ADD, neg, p.first); }
    return neg->isC() && !neg->val ? pos : mkBin(SUB, pos, neg);
}
// Interval of the signed value of e computed without wrap-around; full range when unknown
struct Rng { i128 lo, hi; };
static std::unordered_map<uint32_t, Rng> g_rng;
static Rng srange(Expr* e, int depth = 0)
{
    unsigned w = e->w; i128 mn = -((i128)1 << (w - 1)), mx = ((i128)1 << (w - 1)) - 1;
    if (w > 64) return {mn, mx};
    if (e->isC()) { i128 v = sgn(e->val, w); return {v, v}; }
    auto it = g_rng.find(e->id);
    if (it != g_rng.end()) return it->second;
    Rng r{mn, mx};
    if (e->known0 >> (w - 1) & 1) r = {0, (i128)umaxOf(e)};
    auto meet = [&](i128 lo, i128 hi) { if (lo >= mn && hi <= mx) { if (lo > r.lo) r.lo = lo; if (hi < r.hi) r.hi = hi; } };
    if (depth < 64) switch (e->op) {
    case ADD: { Rng a = srange(e->a, depth + 1), b = srange(e->b, depth + 1); meet(a.lo + b.lo, a.hi + b.hi); break; }
    case SUB: { Rng a = srange(e->a, depth + 1), b = srange(e->b, depth + 1); meet(a.lo - b.hi, a.hi - b.lo); break; }
    case MUL: if (e->b->isC() && w <= 62) { } if (e->b->isC()) { Rng a = srange(e->a, depth + 1); i128 c = sgn(e->b->val, w); if (a.lo > -((i128)1 << 62) && a.hi < ((i128)1 << 62)) { i128 x = a.lo * c, y = a.hi * c; meet(std::min(x, y), std::max(x, y)); } break; } break;
    case SEXT: { Rng a = srange(e->a, depth + 1); meet(a.lo, a.hi); break; }
    case ITE: { Rng a = srange(e->b, depth + 1), b = srange(e->c, depth + 1); meet(std::min(a.lo, b.lo), std::max(a.hi, b.hi)); break; }
    case SDIV: if (e->b->isC() && sgn(e->b->val, w) > 0) { Rng a = srange(e->a, depth + 1); i128 c = sgn(e->b->val, w); meet(a.lo / c, a.hi / c); } break;
    default: break;
    }
    g_rng[e->id] = r;
    return r;
}
Expr* mkBin(Op op, Expr* a, Expr* b)
{
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %d %d\n", op, a->w, b->w); abort(); }
    bool rel = op == EQ || op == ULT || op == SLT;
    if (a->isC() && b->isC()) return mkConst(foldBin(op, a->val, b->val, w), rel ? 1 : w);
    if (commut(op) && (a->isC() || (!b->isC() && a->id > b->id))) std::swap(a, b);
    // push through ite with constant leaves
    if (b->isC() && isConstLeafIte(a) && op != UDIV && op != SDIV && op != UREM && op != SREM)
        return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    if (a->isC() && isConstLeafIte(b) && (op == SUB || op == ULT || op == SLT))
        return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
    if (a->op == ITE && b->op == ITE && a->a == b->a && (isConstLeafIte(a) || isConstLeafIte(b)) && op != UDIV && op != SDIV && op != UREM && op != SREM)
        return mkIte(a->a, mkBin(op, a->b, b->b), mkBin(op, a->c, b->c));
    u128 m = maskW(w);
    if (w <= 64 && !rel) { // fully known zero
        if ((a->known0 & mask64(w)) == mask64(w) && !a->isC()) a = mkConst(0, w);
        if ((b->known0 & mask64(w)) == mask64(w) && !b->isC()) b = mkConst(0, w);
        if (a->isC() && b->isC()) return mkConst(foldBin(op, a->val, b->val, w), w);
        if (commut(op) && a->isC()) std::swap(a, b);
    }
    switch (op) {
    case ADD:
        if (w == 1) return mkBin(XOR, a, b);
        if (b->isC()) {
            if (!b->val) return a;
            if (a->op == ADD && a->b->isC()) return mkBin(ADD, a->a, mkConst(a->b->val + b->val, w));
            if (a->op == SUB && a->a->isC()) return mkBin(SUB, mkConst(a->a->val + b->val, w), a->b);
            if (a->op == XOR && a->b->isC() && a->b->val == m) // ~x + c = (c-1) - x
                return mkBin(SUB, mkConst(b->val - 1, w), a->a);
            if (a->op == CONCAT && a->a->isC() && a->b->w < 128 && !(b->val & maskW(a->b->w))) // no carry into the constant part
                return mkConcat(mkConst((a->a->val + (b->val >> a->b->w)) & maskW(a->a->w), a->a->w), a->b);
        }
        if (a->op == SUB && a->b == b) return a->a;
        if (b->op == SUB && b->b == a) return b->a;
        if (a->op == ADD && a->b->isC()) return mkBin(ADD, mkBin(ADD, a->a, b), a->b);
        if (b->op == ADD && b->b->isC()) return mkBin(ADD, mkBin(ADD, a, b->a), b->b);
        if (w <= 64) { // disjoint bits
            if (((~a->known0) & (~b->known0) & mask64(w)) == 0) return mkBin(OR, a, b);
        }
        break;
    case SUB:
        if (a == b) return mkConst(0, w);
        if (b->isC()) return mkBin(ADD, a, mkConst((~b->val) + 1, w));
        if (a->op == ADD && a->a == b) return a->b;
        if (a->op == ADD && a->b == b) return a->a;
        if (b->op == ADD && b->a == a) return mkBin(SUB, mkConst(0, w), b->b);
        if (b->op == ADD && b->b == a) return mkBin(SUB, mkConst(0, w), b->a);
        if (a->op == ADD && b->op == ADD && a->a == b->a) return mkBin(SUB, a->b, b->b);
        if (a->op == ADD && a->b->isC()) return mkBin(ADD, mkBin(SUB, a->a, b), a->b);
        if (b->op == ADD && b->b->isC()) return mkBin(ADD, mkBin(SUB, a, b->a), mkConst((~b->b->val) + 1, w));
        if (b->op == SUB && b->a->isC() && a->isC()) return mkBin(ADD, b->b, mkConst(a->val - b->a->val, w));
        if (Expr* r = cancelSub(a, b)) return r;
        break;
    case MUL:
        if (b->isC()) {
            if (b->val == 0) return b;
            if (b->val == 1) return a;
            if ((b->val & (b->val - 1)) == 0) {
                unsigned k = 0; while (!((b->val >> k) & 1)) k++;
                return mkBin(SHL, a, mkConst(k, w));
            }
            if (a->op == MUL && a->b->isC()) return mkBin(MUL, a->a, mkConst(a->b->val * b->val, w));
            if (a->op == ADD && a->b->isC()) return mkBin(ADD, mkBin(MUL, a->a, b), mkConst(a->b->val * b->val, w));
        }
        break;
    case UDIV:
        if (b->isC()) {
            if (b->val == 1) return a;
            if (b->val && (b->val & (b->val - 1)) == 0) {
                unsigned k = 0; while (!((b->val >> k) & 1)) k++;
                return mkBin(LSHR, a, mkConst(k, w));
            }
            if (w <= 64 && b->val) {
                if (umaxOf(a) < (uint64_t)b->val) return mkConst(0, w);
                unsigned h = hiOf(a);
                if (h < w && h > 0 && (uint64_t)b->val <= mask64(h))
                    return mkZExt(mkBin(UDIV, mkExtract(a, 0, h), mkConst(b->val, h)), w);
                // (x*c)/c with no overflow
                if (a->op == MUL && a->b == b && (u128)umaxOf(a->a) * (uint64_t)b->val <= mask64(w)) return a->a;
                // (x*k*c + m*c)/c with no overflow
                if (a->op == ADD && a->b->isC() && a->a->op == MUL && a->a->b->isC() && (uint64_t)a->b->val % (uint64_t)b->val == 0 && (uint64_t)a->a->b->val % (uint64_t)b->val == 0 &&
                    (u128)umaxOf(a->a->a) * (uint64_t)a->a->b->val + (uint64_t)a->b->val <= mask64(w))
                    return mkBin(ADD, mkBin(MUL, a->a->a, mkConst(a->a->b->val / b->val, w)), mkConst(a->b->val / b->val, w));
                if (a->op == MUL && a->b->isC() && (uint64_t)a->b->val % (uint64_t)b->val == 0 && (u128)umaxOf(a->a) * (uint64_t)a->b->val <= mask64(w))
                    return mkBin(MUL, a->a, mkConst(a->b->val / b->val, w));
            }
        }
        break;
    case UREM:
        if (b->isC() && b->val) {
            if (b->val == 1) return mkConst(0, w);
            if ((b->val & (b->val - 1)) == 0) return mkBin(AND, a, mkConst(b->val - 1, w));
            if (w <= 64) {
                if (umaxOf(a) < (uint64_t)b->val) return a;
                unsigned h = hiOf(a);
                if (h < w && h > 0 && (uint64_t)b->val <= mask64(h))
                    return mkZExt(mkBin(UREM, mkExtract(a, 0, h), mkConst(b->val, h)), w);
            }
        }
        break;
    case SDIV: case SREM:
        if (w <= 64 && (a->known0 >> (w - 1) & 1) && (b->known0 >> (w - 1) & 1)) return mkBin(op == SDIV ? UDIV : UREM, a, b);
        if (op == SDIV && b->isC() && b->val == 1) return a;
        if (b->isC() && b->val && w <= 64 && (b->known0 >> (w - 1) & 1)) {
            if (op == SDIV && sgn(b->val, w) > 0) { // narrow division; comparisons with it are rewritten below
                Rng r = srange(a);
                if (r.lo >= 0) { unsigned k = 1; while (r.hi >> k) k++; if (k < w) return mkZExt(mkBin(UDIV, mkExtract(a, 0, k), mkConst(b->val, k)), w); return mkBin(UDIV, a, b); }
                unsigned k = 2; while (r.lo < -((i128)1 << (k - 1)) || r.hi >= ((i128)1 << (k - 1)) || b->val >= ((u128)1 << (k - 1))) k++;
                if (k < w) return mkSExt(mkBin(SDIV, mkExtract(a, 0, k), mkConst(b->val, k)), w);
                if (w <= 48) return intern(SDIV, w, a, b, nullptr, 0);
            }
            Expr* neg = mkExtract(a, w - 1, 1);
            Op u = op == SDIV ? UDIV : UREM;
            Expr* z = mkConst(0, w);
            return mkIte(neg, mkBin(SUB, z, mkBin(u, mkBin(SUB, z, a), b)), mkBin(u, a, b));
        }
        if (op == SREM && b->isC() && b->val == 1) return mkConst(0, w);
        break;
    case AND:
        if (a == b) return a;
        if (b->isC()) {
            if (b->val == 0) return b;
            if (b->val == m) return a;
            if (a->op == AND && a->b->isC()) return mkBin(AND, a->a, mkConst(a->b->val & b->val, w));
            if (w <= 64) {
                uint64_t live = umaxOf(a) & (uint64_t)b->val;
                if (!live) return mkConst(0, w);
                if (live == umaxOf(a)) return a;
                // contiguous mask => concat(0, extract, 0)
                uint64_t mk = (uint64_t)b->val;
                // widen/narrow the mask over known-zero bits to make it contiguous
                int lo = __builtin_ctzll(live), hi = 64 - __builtin_clzll(live);
                uint64_t range = (mask64(hi)) & ~(lo ? mask64(lo) : 0);
                if ((umaxOf(a) & range & ~mk) == 0) {
                    Expr* x = mkExtract(a, lo, hi - lo);
                    if (lo) x = mkConcat(x, mkConst(0, lo));
                    return mkZExt(x, w);
                }
            }
            if ((a->op == OR || a->op == XOR) && a->b->isC()) return mkBin(a->op, mkBin(AND, a->a, b), mkConst(a->b->val & b->val, w));
        }
        if (w == 1) {
            if (a->op == XOR && a->b->isC() && a->a == b) return mkConst(0, 1);
            if (b->op == XOR && b->b->isC() && b->a == a) return mkConst(0, 1);
            // EQ(x,c1) & EQ(x,c2)
            if (a->op == EQ && b->op == EQ && a->a == b->a && a->b->isC() && b->b->isC()) return mkConst(0, 1);
            if (a->op == AND && (a->a == b || a->b == b)) return a;
            if (b->op == AND && (b->a == a || b->b == a)) return b;
        }
        if (w <= 64 && !b->isC() && (umaxOf(a) & umaxOf(b)) == 0) return mkConst(0, w);
        break;
    case OR:
        if (a == b) return a;
        if (b->isC()) {
            if (b->val == 0) return a;
            if (b->val == m) return b;
            if (a->op == OR && a->b->isC()) return mkBin(OR, a->a, mkConst(a->b->val | b->val, w));
        }
        if (w == 1) {
            if (a->op == XOR && a->b->isC() && a->a == b) return mkConst(1, 1);
            if (b->op == XOR && b->b->isC() && b->a == a) return mkConst(1, 1);
            if (a->op == OR && (a->a == b || a->b == b)) return a;
            if (b->op == OR && (b->a == a || b->b == a)) return b;
        }
        if (w <= 64 && w > 1) {
            int ta = tzOf(a), hb = hiOf(b), tb = tzOf(b), ha = hiOf(a);
            if (hb <= ta && ta < (int)w && ta > 0) return mkConcat(mkExtract(a, ta, w - ta), mkExtract(b, 0, ta));
            if (ha <= tb && tb < (int)w && tb > 0) return mkConcat(mkExtract(b, tb, w - tb), mkExtract(a, 0, tb));
        }
        break;
    case XOR:
        if (a == b) return mkConst(0, w);
        if (b->isC()) {
            if (b->val == 0) return a;
            if (a->op == XOR && a->b->isC()) return mkBin(XOR, a->a, mkConst(a->b->val ^ b->val, w));
        }
        if (a->op == XOR && a->a == b) return a->b;
        if (a->op == XOR && a->b == b) return a->a;
        if (b->op == XOR && b->a == a) return b->b;
        if (b->op == XOR && b->b == a) return b->a;
        if (w > 1 && w <= 64 && (umaxOf(a) & umaxOf(b)) == 0) return mkBin(OR, a, b);
        break;
    case SHL:
        if (b->isC()) {
            if (b->val == 0) return a;
            if (b->val >= w) return mkConst(0, w);
            unsigned k = (unsigned)b->val;
            return mkConcat(mkExtract(a, 0, w - k), mkConst(0, k));
        }
        if (a->isC() && a->val == 0) return a;
        break;
    case LSHR:
        if (b->isC()) {
            if (b->val == 0) return a;
            if (b->val >= w) return mkConst(0, w);
            unsigned k = (unsigned)b->val;
            return mkZExt(mkExtract(a, k, w - k), w);
        }
        if (a->isC() && a->val == 0) return a;
        break;
    case ASHR:
        if (b->isC()) {
            if (b->val == 0) return a;
            unsigned k = b->val >= w ? w - 1 : (unsigned)b->val;
            return mkSExt(mkExtract(a, k, w - k), w);
        }
        if (a->isC() && a->val == 0) return a;
        break;
    case EQ:
        if (a == b) return mkConst(1, 1);
        if (w == 1) {
            if (b->isC()) return b->val ? a : mkNot(a);
            return mkNot(mkBin(XOR, a, b));
        }
        if (b->isC()) {
            u128 c = b->val;
            if (w <= 64 && ((uint64_t)c & a->known0 & mask64(w))) return mkConst(0, 1);
            switch (a->op) {
            case ZEXT: return mkBin(EQ, a->a, mkConst(c, a->a->w)); // high bits checked by known0 (w<=64)
            case SEXT: { Expr* t = mkConst(c, a->a->w); if (mkSExt(t, w)->val != c) return mkConst(0, 1); return mkBin(EQ, a->a, t); }
            case CONCAT: return mkBin(AND, mkBin(EQ, a->a, mkConst(c >> a->b->w, a->a->w)), mkBin(EQ, a->b, mkConst(c, a->b->w)));
            case ADD: if (a->b->isC()) return mkBin(EQ, a->a, mkConst(c - a->b->val, w)); break;
            case SUB: if (a->a->isC()) return mkBin(EQ, a->b, mkConst(a->a->val - c, w)); if (c == 0) return mkBin(EQ, a->a, a->b); break;
            case XOR: if (a->b->isC()) return mkBin(EQ, a->a, mkConst(a->b->val ^ c, w)); if (c == 0) return mkBin(EQ, a->a, a->b); break;
            case OR: if (c == 0) return mkBin(AND, mkBin(EQ, a->a, b), mkBin(EQ, a->b, b)); break;
            case ITE:
                if (a->b->isC()) { if (a->b->val == c) return mkBin(OR, a->a, mkBin(EQ, a->c, b)); return mkBin(AND, mkNot(a->a), mkBin(EQ, a->c, b)); }
                if (isConstLeafIte(a->b) || isConstLeafIte(a->c)) return mkIte(a->a, mkBin(EQ, a->b, b), mkBin(EQ, a->c, b));
                if (a->c->isC()) { if (a->c->val == c) return mkBin(OR, mkNot(a->a), mkBin(EQ, a->b, b)); return mkBin(AND, a->a, mkBin(EQ, a->b, b)); }
                break;
            default: break;
            }
            if (a->op == ZEXT && w > 64 && (c >> a->a->w)) return mkConst(0, 1);
        } else {
            if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkBin(EQ, a->a, b->a);
            if (a->op == ZEXT && b->op == ZEXT) {
                unsigned mw = std::max(a->a->w, b->a->w);
                return mkBin(EQ, mkZExt(a->a, mw), mkZExt(b->a, mw));
            }
            if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkBin(EQ, a->a, b->a);
            if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w) return mkBin(AND, mkBin(EQ, a->a, b->a), mkBin(EQ, a->b, b->b));
            if (a->op == ADD && b->op == ADD) {
                if (a->a == b->a) return mkBin(EQ, a->b, b->b);
                if (a->b == b->b) return mkBin(EQ, a->a, b->a);
                if (a->b->isC() && b->b->isC()) return mkBin(EQ, a->a, mkBin(ADD, b->a, mkConst(b->b->val - a->b->val, w)));
            }
            if (a->op == ADD && a->b->isC() && a->a == b) return mkConst(a->b->val == 0, 1);
            if (b->op == ADD && b->b->isC() && b->a == a) return mkConst(b->b->val == 0, 1);
            if (a->op == CONCAT && b->op == CONCAT && a->b->w != b->b->w) {
                unsigned k = std::min(a->b->w, b->b->w);
                return mkBin(AND, mkBin(EQ, mkExtract(a, k, w - k), mkExtract(b, k, w - k)), mkBin(EQ, mkExtract(a, 0, k), mkExtract(b, 0, k)));
            }
            if (a->op == XOR && b->op == XOR) {
                if (a->a == b->a) return mkBin(EQ, a->b, b->b);
                if (a->b == b->b) return mkBin(EQ, a->a, b->a);
                if (a->a == b->b) return mkBin(EQ, a->b, b->a);
                if (a->b == b->a) return mkBin(EQ, a->a, b->b);
            }
        }
        break;
    case ULT:
        if (a == b) return mkConst(0, 1);
        if (w <= 64 && b->isC() && a->op == UDIV && a->b->isC() && a->b->val) { // x/C < k <=> x < k*C
            u128 t = b->val * a->b->val;
            return t > m ? mkConst(1, 1) : mkBin(ULT, a->a, mkConst(t, w));
        }
        if (w <= 64 && a->isC() && b->op == UDIV && b->b->isC() && b->b->val) { // k < x/C <=> !(x < (k+1)*C)
            u128 t = (a->val + 1) * b->b->val;
            return t > m ? mkConst(0, 1) : mkNot(mkBin(ULT, b->a, mkConst(t, w)));
        }
        if (w == 1) return mkBin(AND, mkNot(a), b);
        if (b->isC()) {
            if (b->val == 0) return mkConst(0, 1);
            if (b->val == 1) return mkBin(EQ, a, mkConst(0, w));
            if (b->val == m) return mkNot(mkBin(EQ, a, b));
            if (w <= 64) {
                if (umaxOf(a) < (uint64_t)b->val) return mkConst(1, 1);
                int h = hiOf(a);
                if (h < (int)w && h > 0) return mkBin(ULT, mkExtract(a, 0, h), mkConst(b->val, h));
                int t = tzOf(a); // low zero bits: a < c  <=> (a>>t) < ceil(c / 2^t)
                if (t > 0 && t < (int)w) {
                    u128 c2 = (b->val + (((u128)1 << t) - 1)) >> t;
                    if (c2 > maskW(w - t)) return mkConst(1, 1);
                    return mkBin(ULT, mkExtract(a, t, w - t), mkConst(c2, w - t));
                }
                if (b->val > 1 && (b->val & (b->val - 1)) == 0 && a->op == CONCAT) { // a < 2^k <=> high part == 0
                    unsigned k = 63 - __builtin_clzll((uint64_t)b->val);
                    return mkBin(EQ, mkExtract(a, k, w - k), mkConst(0, w - k));
                }
            } else if (a->op == ZEXT) {
                if (b->val >> a->a->w) return mkConst(1, 1);
                return mkBin(ULT, a->a, mkConst(b->val, a->a->w));
            }
        }
        if (a->isC()) {
            if (a->val == m) return mkConst(0, 1);
            if (a->val == 0) return mkNot(mkBin(EQ, b, a));
            if (w <= 64) {
                if (umaxOf(b) <= (uint64_t)a->val) return mkConst(0, 1);
                int h = hiOf(b);
                if (h < (int)w && h > 0) return mkBin(ULT, mkConst(a->val, h), mkExtract(b, 0, h));
                int t = tzOf(b); // c < b <=> floor(c/2^t) < b>>t
                if (t > 0 && t < (int)w) return mkBin(ULT, mkConst(a->val >> t, w - t), mkExtract(b, t, w - t));
            } else if (b->op == ZEXT) {
                if (a->val >> b->a->w) return mkConst(0, 1);
                return mkBin(ULT, mkConst(a->val, b->a->w), b->a);
            }
        }
        if (w <= 64 && !a->isC() && !b->isC()) {
            int h = std::max(hiOf(a), hiOf(b));
            if (h < (int)w && h > 0) return mkBin(ULT, mkExtract(a, 0, h), mkExtract(b, 0, h));
        }
        break;
    case SLT:
        if (a == b) return mkConst(0, 1);
        if (w > 1 && w <= 64 && (a->op == SDIV || b->op == SDIV) && (a->isC() || b->isC())) {
            Expr* d = a->isC() ? b : a;
            if (d->b->isC() && sgn(d->b->val, w) > 0) {
                i128 C = sgn(d->b->val, w), k = a->isC() ? sgn(a->val, w) + 1 : sgn(b->val, w); // d < k, negated when the constant is on the left
                i128 t = k > 0 ? k * C : (k - 1) * C + 1; // x < t
                i128 mn = -((i128)1 << (w - 1)), mx = ((i128)1 << (w - 1)) - 1;
                Expr* r = t <= mn ? mkConst(0, 1) : t > mx ? mkConst(1, 1) : mkBin(SLT, d->a, mkConst((u128)t, w));
                return a->isC() ? mkNot(r) : r;
            }
        }
        if (w <= 64 && (a->isC() || b->isC())) {
            Rng x = srange(a), y = srange(b);
            if (x.hi < y.lo) return mkConst(1, 1);
            if (x.lo >= y.hi) return mkConst(0, 1);
        }
        if (w == 1) return mkBin(AND, a, mkNot(b));
        if (w <= 64 && (a->known0 >> (w - 1) & 1) && (b->known0 >> (w - 1) & 1)) return mkBin(ULT, a, b);
        if (b->isC() && b->val == 0) return mkExtract(a, w - 1, 1);
        if (a->isC() && a->val == m) return mkNot(mkExtract(b, w - 1, 1)); // -1 < b
        if (a->op == SEXT && b->op == SEXT && a->a->w == b->a->w) return mkBin(SLT, a->a, b->a);
        if (a->op == SEXT && b->isC()) {
            unsigned k = a->a->w; i128 c = sgn(b->val, w), lo = -((i128)1 << (k - 1)), hi = ((i128)1 << (k - 1)) - 1;
            if (c <= lo) return mkConst(0, 1);
            if (c > hi) return mkConst(1, 1);
            return mkBin(SLT, a->a, mkConst(b->val, k));
        }
        if (b->op == SEXT && a->isC()) {
            unsigned k = b->a->w; i128 c = sgn(a->val, w), lo = -((i128)1 << (k - 1)), hi = ((i128)1 << (k - 1)) - 1;
            if (c >= hi) return mkConst(0, 1);
            if (c < lo) return mkConst(1, 1);
            return mkBin(SLT, mkConst(a->val, k), b->a);
        }
        if (w <= 64) { // b non-negative const, a known non-negative handled; a nonneg & b negative const
            if (b->isC() && sgn(b->val, w) < 0 && (a->known0 >> (w - 1) & 1)) return mkConst(0, 1);
            if (a->isC() && sgn(a->val, w) < 0 && (b->known0 >> (w - 1) & 1)) return mkConst(1, 1);
        }
        break;
    default: break;
    }
    return intern(op, rel ? 1 : w, a, b, nullptr, 0);
}
Expr* mkIte(Expr* c, Expr* a, Expr* b)
{
    if (c->isC()) return c->val ? a : b;
    if (a == b) return a;
    if (c->op == XOR && c->b->isC()) { c = c->a; std::swap(a, b); }
    if (a->w == 1) {
        if (a->isC() && b->isC()) return a->val ? c : mkNot(c);
        if (a->isC()) return a->val ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (b->isC()) return b->val ? mkOr(mkNot(c), a) : mkAnd(c, a);
        if (a == c) return mkOr(c, b);
        if (b == c) return mkAnd(c, a);
    }
    if (a->op == ITE && a->a == c) a = a->b;
    if (b->op == ITE && b->a == c) b = b->c;
    if (a == b) return a;
    if (a->op == ZEXT && b->op == ZEXT && a->a->w == b->a->w) return mkZExt(mkIte(c, a->a, b->a), a->w);
    if (a->op == ZEXT && b->isC() && (b->val >> a->a->w) == 0) return mkZExt(mkIte(c, a->a, mkConst(b->val, a->a->w)), a->w);
    if (b->op == ZEXT && a->isC() && (a->val >> b->a->w) == 0) return mkZExt(mkIte(c, mkConst(a->val, b->a->w), b->a), b->w);
    if (b->op == ITE && b->b == a) return mkIte(mkOr(c, b->a), a, b->c); // ite(c,a,ite(d,a,x))
    return intern(ITE, a->w, c, a, b, 0);
}
Expr* mkZExt(Expr* a, unsigned w)
{
    if (a->w == w) return a;
    if (a->w > w) abort();
    if (a->isC()) return mkConst(a->val, w);
    if (a->op == ZEXT) return mkZExt(a->a, w);
    if (isConstLeafIte(a)) return mkIte(a->a, mkConst(a->b->val, w), mkConst(a->c->val, w));
    if (a->op == CONCAT && a->a->isC() && a->a->val == 0) return mkZExt(a->b, w);
    // drop known zero high bits
    if (a->w <= 64) {
        unsigned h = hiOf(a);
        if (h == 0) return mkConst(0, w);
        if (h < a->w) { Expr* x = mkExtract(a, 0, h); if (x->op != EXTRACT || x->a != a) return mkZExt(x, w); }
    }
    return intern(ZEXT, w, a, 0, 0, 0);
}
Expr* mkSExt(Expr* a, unsigned w)
{
    if (a->w == w) return a;
    if (a->isC()) return mkConst((u128)sgn(a->val, a->w), w);
    if (a->op == SEXT) return mkSExt(a->a, w);
    if (a->op == ZEXT) return mkZExt(a->a, w);
    if (a->w <= 64 && (a->known0 >> (a->w - 1) & 1)) return mkZExt(a, w);
    if (isConstLeafIte(a)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
    return intern(SEXT, w, a, 0, 0, 0);
}
Expr* mkExtract(Expr* a, unsigned off, unsigned w)
{
    if (off == 0 && w == a->w) return a;
    if (off + w > a->w) { fprintf(stderr, "bad extract\n"); abort(); }
    if (a->w <= 64) {
        uint64_t part = (umaxOf(a) >> off) & mask64(w);
        if (!part) return mkConst(0, w);
    }
    switch (a->op) {
    case CONST: return mkConst(a->val >> off, w);
    case EXTRACT: return mkExtract(a->a, off + (unsigned)a->val, w);
    case CONCAT: {
        unsigned k = a->b->w;
        if (off >= k) return mkExtract(a->a, off - k, w);
        if (off + w <= k) return mkExtract(a->b, off, w);
        return mkConcat(mkExtract(a->a, 0, off + w - k), mkExtract(a->b, off, k - off));
    }
    case ZEXT:
        if (off >= a->a->w) return mkConst(0, w);
        if (off + w <= a->a->w) return mkExtract(a->a, off, w);
        return mkZExt(mkExtract(a->a, off, a->a->w - off), w);
    case SEXT:
        if (off + w <= a->a->w) return mkExtract(a->a, off, w);
        if (off >= a->a->w) return mkSExt(mkExtract(a->a, a->a->w - 1, 1), w);
        return mkSExt(mkExtract(a->a, off, a->a->w - off), w);
    case XOR: {
        if (a->a->op != XOR && a->b->op != XOR) return mkBin(a->op, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
        static std::unordered_map<uint64_t, Expr*> memo; // long chains (checksums) are cut up again and again
        uint64_t key = ((uint64_t)a->id << 16) | (off << 8) | w;
        auto it = memo.find(key);
        if (it != memo.end()) return it->second;
        Expr* r = mkBin(a->op, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
        memo[key] = r;
        return r;
    }
    case AND: case OR:
        return mkBin(a->op, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
    case ADD: case SUB: case MUL:
        if (off == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
        break;
    case ITE:
        if (a->b->isC() || a->c->isC() || a->b->op == CONCAT || a->c->op == CONCAT || a->b->op == ITE || a->c->op == ITE)
            return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
        break;
    default: break;
    }
    return intern(EXTRACT, w, a, 0, 0, off);
}
Expr* mkConcat(Expr* a, Expr* b)
{
    unsigned w = a->w + b->w;
    if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
    if (a->isC() && b->isC()) return mkConst((a->val << b->w) | b->val, w);
    if (a->isC() && a->val == 0) return mkZExt(b, w);
    if (a->op == ZEXT) return mkZExt(mkConcat(a->a, b), w);
    if (a->op == CONCAT) return mkConcat(a->a, mkConcat(a->b, b));
    auto adj = [](Expr* hi, Expr* lo) -> Expr* {
        if (hi->op == EXTRACT && lo->op == EXTRACT && hi->a == lo->a && (unsigned)hi->val == (unsigned)lo->val + lo->w) return mkExtract(hi->a, (unsigned)lo->val, hi->w + lo->w);
        // extract with off 0 is interned as-is; full-width handled by mkExtract
        if (hi->op == EXTRACT && lo->op != EXTRACT && hi->a == lo) return nullptr;
        if (hi->isC() && lo->isC()) return mkConst((hi->val << lo->w) | lo->val, hi->w + lo->w);
        return nullptr;
    };
    if (Expr* r = adj(a, b)) return r;
    if (b->op == CONCAT) { if (Expr* r = adj(a, b->a)) return mkConcat(r, b->b); }
    if (a->op == ITE && b->op == ITE && a->a == b->a) return mkIte(a->a, mkConcat(a->b, b->b), mkConcat(a->c, b->c));
    if (isConstLeafIte(a) && b->isC()) return mkIte(a->a, mkConcat(a->b, b), mkConcat(a->c, b));
    if (isConstLeafIte(b) && a->isC()) return mkIte(b->a, mkConcat(a, b->b), mkConcat(a, b->c));
    return intern(CONCAT, w, a, b, 0, 0);
}
static uint64_t g_epoch = 1;
uint64_t newEpoch() { return ++g_epoch; }
bool g_fpUsed = false;
static double fD(uint64_t c, unsigned w) { if (w == 32) { float f; uint32_t u = (uint32_t)c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static uint64_t fB(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; } uint64_t u; memcpy(&u, &d, 8); return u; }
uint64_t foldFp(Fp k, uint64_t a, unsigned aw, uint64_t b, unsigned w)
{
    double x = k == FpSI || k == FpUI ? 0 : fD(a, aw), y = k <= FpUno && k != FpNeg ? fD(b, aw) : 0;
    if (k <= FpDiv && aw == 32) { float p = (float)x, q = (float)y, r = k == FpAdd ? p + q : k == FpSub ? p - q : k == FpMul ? p * q : p / q; return fB(r, 32); }
    switch (k) {
    case FpAdd: return fB(x + y, w); case FpSub: return fB(x - y, w); case FpMul: return fB(x * y, w); case FpDiv: return fB(x / y, w);
    case FpNeg: return a ^ (1ull << (aw - 1));
    case FpLt: return x < y; case FpLe: return x <= y; case FpEq: return x == y; case FpUno: return std::isnan(x) || std::isnan(y);
    case FpSI: { int64_t v = (int64_t)(i128)sgn(a, aw); return w == 32 ? fB((double)(float)v, 32) : fB((double)v, 64); }
    case FpUI: return w == 32 ? fB((double)(float)a, 32) : fB((double)a, 64);
    case FpToSI: return (uint64_t)(int64_t)x & mask64(w);
    case FpToUI: return (uint64_t)x & mask64(w);
    case FpToFp: return fB(x, w);
    case FpFloor: return fB(std::floor(x), w); case FpCeil: return fB(std::ceil(x), w); case FpTrunc: return fB(std::trunc(x), w);
    case FpRound: return fB(std::round(x), w); case FpAbs: return a & ~(1ull << (aw - 1)); case FpSqrt: return w == 32 ? fB(std::sqrt((float)x), 32) : fB(std::sqrt(x), 64);
    }
    return 0;
}
Expr* mkFp(Fp k, Expr* a, Expr* b, unsigned w)
{
    if (a->isC() && (!b || b->isC())) return mkConst(foldFp(k, (uint64_t)a->val, a->w, b ? (uint64_t)b->val : 0, w), w);
    g_fpUsed = true;
    return intern(FPOP, w, a, b, nullptr, k);
}
u128 evalExpr(Expr* e, const Model& m)
{
    if (e->op == CONST) return e->val;
    if (e->op == VAR) return m.get((uint32_t)e->val) & maskW(e->w);
    if (e->evalEpoch == m.epoch) return e->evalVal;
    u128 r;
    switch (e->op) {
    case ITE: r = evalExpr(e->a, m) ? evalExpr(e->b, m) : evalExpr(e->c, m); break;
    case ZEXT: r = evalExpr(e->a, m); break;
    case SEXT: r = (u128)sgn(evalExpr(e->a, m), e->a->w) & maskW(e->w); break;
    case EXTRACT: r = (evalExpr(e->a, m) >> (unsigned)e->val) & maskW(e->w); break;
    case CONCAT: r = (evalExpr(e->a, m) << e->b->w) | evalExpr(e->b, m); break;
    case FPOP: r = foldFp((Fp)e->val, (uint64_t)evalExpr(e->a, m), e->a->w, e->b ? (uint64_t)evalExpr(e->b, m) : 0, e->w); break;
    default: {
        u128 x = evalExpr(e->a, m);
        if (e->op == AND && x == 0) { r = 0; break; }
        r = foldBin(e->op, x, evalExpr(e->b, m), e->a->w);
    }
    }
    e->evalEpoch = m.epoch;
    e->evalVal = r;
    return r;
}
static const char* opn[] = {"const","var","+","-","*","u/","s/","u%","s%","&","|","^","<<",">>","s>>","==","u<","s<","ite","zext","sext","ext","cat","fp"};
std::string exprStr(Expr* e, int d)
{
    char buf[64];
    if (e->op == CONST) { snprintf(buf, 64, "0x%llx", (unsigned long long)e->val); return buf; }
    if (e->op == VAR) return g_vars[(size_t)e->val].name;
    if (d == 0) return "...";
    std::string s = std::string("(") + opn[e->op] + std::to_string(e->w);
    if (e->op == EXTRACT) s += "@" + std::to_string((int)e->val);
    if (e->a) s += " " + exprStr(e->a, d - 1);
    if (e->b) s += " " + exprStr(e->b, d - 1);
    if (e->c) s += " " + exprStr(e->c, d - 1);
    return s + ")";
}
