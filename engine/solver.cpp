#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <set>
#include <unordered_map>
#include <z3.h>

SolverStats g_sstats;
bool g_linTables = false;
unsigned g_queryTimeoutMs = 20000;
static Z3_context ctx;
static Z3_solver s1, s2; // s2: fresh per hard query
static Z3_tactic tbv, tfp;

static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static void setTimeout(Z3_solver s, unsigned ms)
{
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
}
void solverInit()
{
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg);
    Z3_set_error_handler(ctx, errh);
    s1 = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, s1);
    setTimeout(s1, 3000);
    tbv = Z3_mk_tactic(ctx, "qfbv");
    Z3_tactic_inc_ref(ctx, tbv);
    tfp = Z3_mk_tactic(ctx, "qffp");
    Z3_tactic_inc_ref(ctx, tfp);
}
static Z3_ast bv(Expr* e);
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
// Division of x by a constant c is a fresh quotient q with q*c <= x < q*c + c (no overflow): far cheaper than bit-blasted division.
struct DivDef { Z3_ast q, rem, def; };
static std::map<std::pair<Expr*, Expr*>, DivDef> g_divs;
static bool isConstDiv(Expr* e)
{
    return (e->op == UDIV || e->op == UREM) && e->w <= 64 && e->b->op == CONST && e->b->val != 0;
}
static DivDef& divDef(Expr* e)
{
    auto k = std::make_pair(e->a, e->b);
    auto it = g_divs.find(k);
    if (it != g_divs.end()) return it->second;
    unsigned w = e->w;
    uint64_t c = (uint64_t)e->b->val, mx = w == 64 ? ~0ull : (1ull << w) - 1;
    uint64_t qm = mx / c;
    unsigned qb = 64 - __builtin_clzll(qm | 1);
    Z3_sort so = Z3_mk_bv_sort(ctx, w);
    Z3_ast x = bv(e->a), cc = keep(Z3_mk_unsigned_int64(ctx, c, so));
    Z3_ast q = Z3_mk_fresh_const(ctx, "q", Z3_mk_bv_sort(ctx, qb));
    if (qb < w) q = Z3_mk_zero_ext(ctx, w - qb, q);
    keep(q);
    Z3_ast m = Z3_mk_bvmul(ctx, q, cc); keep(m);
    Z3_ast rem = keep(Z3_mk_bvsub(ctx, x, m));
    Z3_ast d[3] = {Z3_mk_bvule(ctx, q, Z3_mk_unsigned_int64(ctx, qm, so)), Z3_mk_bvule(ctx, m, x), Z3_mk_bvult(ctx, rem, cc)};
    Z3_ast def = keep(Z3_mk_and(ctx, 3, d));
    return g_divs[k] = DivDef{q, rem, def};
}
using DivSet = std::set<Expr*>;
static const DivSet& divsOf(Expr* e)
{
    static const DivSet none;
    static std::unordered_map<Expr*, DivSet> memo;
    if (!e || e->op == CONST || e->op == VAR) return none;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    DivSet r = divsOf(e->a);
    for (Expr* k : {e->b, e->c}) { auto& d = divsOf(k); r.insert(d.begin(), d.end()); }
    if (isConstDiv(e)) r.insert(e);
    return memo[e] = std::move(r);
}
static Z3_ast linEq(Expr* e);
static Z3_ast bl(Expr* e) // w==1 as Bool
{
    if (e->z3b) return (Z3_ast)e->z3b;
    Z3_ast r = nullptr;
    if (g_linTables && e->op == EQ && e->a->w >= 8 && e->a->w <= 64 && (r = linEq(e))) { e->z3b = keep(r); return r; }
    switch (e->op) {
    case CONST: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case EQ: r = e->a->w == 1 ? Z3_mk_iff(ctx, bl(e->a), bl(e->b)) : Z3_mk_eq(ctx, bv(e->a), bv(e->b)); break;
    case ULT: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
    case SLT: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
    case AND: { Z3_ast x[2] = {bl(e->a), bl(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
    case OR: { Z3_ast x[2] = {bl(e->a), bl(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
    case XOR: r = e->b->isC() ? (e->b->val ? Z3_mk_not(ctx, bl(e->a)) : bl(e->a)) : Z3_mk_xor(ctx, bl(e->a), bl(e->b)); break;
    case ITE: r = Z3_mk_ite(ctx, bl(e->a), bl(e->b), bl(e->c)); break;
    default: r = Z3_mk_eq(ctx, bv(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
    }
    e->z3b = keep(r);
    return r;
}
static Z3_ast fpv(Expr* e) // bit pattern as floating point number
{
    Z3_sort fs = e->w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx);
    return Z3_mk_fpa_to_fp_bv(ctx, bv(e), fs);
}
static Z3_ast fpop(Expr* e)
{
    Z3_ast rne = Z3_mk_fpa_rne(ctx), r = nullptr;
    Fp k = (Fp)e->val;
    Z3_sort so = Z3_mk_bv_sort(ctx, e->w), fs = e->w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx);
    auto b1 = [&](Z3_ast c) { return Z3_mk_ite(ctx, c, Z3_mk_unsigned_int64(ctx, 1, so), Z3_mk_unsigned_int64(ctx, 0, so)); };
    switch (k) {
    case FpLt: return b1(Z3_mk_fpa_lt(ctx, fpv(e->a), fpv(e->b)));
    case FpLe: return b1(Z3_mk_fpa_leq(ctx, fpv(e->a), fpv(e->b)));
    case FpEq: return b1(Z3_mk_fpa_eq(ctx, fpv(e->a), fpv(e->b)));
    case FpUno: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(ctx, fpv(e->a)), Z3_mk_fpa_is_nan(ctx, fpv(e->b))}; return b1(Z3_mk_or(ctx, 2, x)); }
    case FpToSI: return Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), fpv(e->a), e->w);
    case FpToUI: return Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), fpv(e->a), e->w);
    case FpNeg: return Z3_mk_bvxor(ctx, bv(e->a), Z3_mk_unsigned_int64(ctx, 1ull << (e->w - 1), so));
    case FpAbs: return Z3_mk_bvand(ctx, bv(e->a), Z3_mk_unsigned_int64(ctx, (1ull << (e->w - 1)) - 1, so));
    case FpAdd: r = Z3_mk_fpa_add(ctx, rne, fpv(e->a), fpv(e->b)); break;
    case FpSub: r = Z3_mk_fpa_sub(ctx, rne, fpv(e->a), fpv(e->b)); break;
    case FpMul: r = Z3_mk_fpa_mul(ctx, rne, fpv(e->a), fpv(e->b)); break;
    case FpDiv: r = Z3_mk_fpa_div(ctx, rne, fpv(e->a), fpv(e->b)); break;
    case FpSI: r = Z3_mk_fpa_to_fp_signed(ctx, rne, bv(e->a), fs); break;
    case FpUI: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne, bv(e->a), fs); break;
    case FpToFp: r = Z3_mk_fpa_to_fp_float(ctx, rne, fpv(e->a), fs); break;
    case FpFloor: r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtn(ctx), fpv(e->a)); break;
    case FpCeil: r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtp(ctx), fpv(e->a)); break;
    case FpTrunc: r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtz(ctx), fpv(e->a)); break;
    case FpRound: r = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rna(ctx), fpv(e->a)); break;
    case FpSqrt: r = Z3_mk_fpa_sqrt(ctx, rne, fpv(e->a)); break;
    }
    return Z3_mk_fpa_to_ieee_bv(ctx, r);
}
// XOR normal form: every bit as a sorted set of atom bits and a constant, so that equal linear (CRC-like) terms become identical solver terms
struct LB { std::vector<uint64_t> s; bool c = false; };
typedef std::vector<LB> LV;
static std::unordered_map<uint32_t, Expr*> g_linAtom;
static LB lbXor(const LB& a, const LB& b)
{
    LB r; r.c = a.c != b.c; r.s.reserve(a.s.size() + b.s.size());
    std::set_symmetric_difference(a.s.begin(), a.s.end(), b.s.begin(), b.s.end(), std::back_inserter(r.s));
    return r;
}
static const LV& linOf(Expr* e)
{
    static std::unordered_map<Expr*, LV> memo;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    LV v(e->w);
    auto atom = [&] { g_linAtom[e->id] = e; for (unsigned i = 0; i < e->w; i++) { v[i] = LB(); v[i].s = {((uint64_t)e->id << 8) | i}; } };
    unsigned w = e->w;
    switch (w > 128 ? VAR : e->op) {
    case CONST: for (unsigned i = 0; i < w; i++) v[i].c = (e->val >> i) & 1; break;
    case XOR: { LV a = linOf(e->a); const LV& b = linOf(e->b); for (unsigned i = 0; i < w; i++) v[i] = lbXor(a[i], b[i]); break; }
    case EXTRACT: { const LV& a = linOf(e->a); for (unsigned i = 0; i < w; i++) v[i] = a[i + (unsigned)e->val]; break; }
    case CONCAT: { LV b = linOf(e->b); const LV& a = linOf(e->a); for (unsigned i = 0; i < w; i++) v[i] = i < e->b->w ? b[i] : a[i - e->b->w]; break; }
    case ZEXT: case SEXT: { const LV& a = linOf(e->a); for (unsigned i = 0; i < w; i++) if (i < e->a->w) v[i] = a[i]; else if (e->op == SEXT) v[i] = a[e->a->w - 1]; break; }
    case AND: if (e->b->isC()) { const LV& a = linOf(e->a); for (unsigned i = 0; i < w; i++) if ((e->b->val >> i) & 1) v[i] = a[i]; } else atom(); break;
    case OR: if (w <= 64 && ((e->a->known0 | e->b->known0) & mask64(w)) == mask64(w)) { LV a = linOf(e->a); const LV& b = linOf(e->b); for (unsigned i = 0; i < w; i++) v[i] = lbXor(a[i], b[i]); } else atom(); break;
    case SHL: case LSHR:
        if (e->b->isC()) {
            const LV& a = linOf(e->a); u128 k = e->b->val;
            for (unsigned i = 0; i < w; i++) { if (e->op == SHL ? i >= k : i + k < w) v[i] = a[(unsigned)(e->op == SHL ? i - k : i + k)]; }
        } else atom();
        break;
    case ITE:
        {
            const LV &c = linOf(e->a), &x = linOf(e->b), &y = linOf(e->c);
            bool ok = true;
            for (unsigned i = 0; i < w && ok; i++) {
                LB d = lbXor(x[i], y[i]);
                if (!d.s.empty()) ok = false;
                else v[i] = d.c ? lbXor(y[i], c[0]) : y[i];
            }
            if (!ok) atom();
        }
        break;
    default: atom();
    }
    return memo[e] = std::move(v);
}
// basis[0] ^ (XOR of basis[k+1] over the set bits k of idx), flat over the atom bits idx depends on
Expr* linLookup(Expr* idx, const std::vector<uint64_t>& basis, unsigned w)
{
    const LV& v = linOf(idx);
    std::map<uint64_t, uint64_t> m;
    uint64_t c = basis[0];
    for (size_t k = 0; k + 1 < basis.size(); k++) {
        if (v[k].c) c ^= basis[k + 1];
        for (uint64_t a : v[k].s) m[a] ^= basis[k + 1];
    }
    Expr* r = mkConst(c, w);
    for (auto& [k, mask] : m) if (mask) r = mkBin(XOR, mkIte(mkExtract(g_linAtom[(uint32_t)(k >> 8)], (unsigned)(k & 255), 1), mkConst(mask, w), mkConst(0, w)), r);
    return r;
}
static Z3_ast linBit(uint64_t k)
{
    static std::map<uint64_t, Z3_ast> bitOf;
    auto& z = bitOf[k];
    if (!z) z = keep(Z3_mk_extract(ctx, (unsigned)(k & 255), (unsigned)(k & 255), bv(g_linAtom[(uint32_t)(k >> 8)])));
    return z;
}
// equality of XOR-linear terms: the reduced (Gaussian) form of the equation system
static Z3_ast linEq(Expr* e)
{
    LV a = linOf(e->a); const LV& b = linOf(e->b);
    bool multi = e->a->op == XOR || e->b->op == XOR;
    for (const LV* v : {(const LV*)&a, &b}) for (auto& x : *v) if (x.s.size() > 1) multi = true;
    if (!multi) return nullptr;
    LV rows;
    for (unsigned i = 0; i < e->a->w; i++) {
        LB r = lbXor(a[i], b[i]);
        for (auto& q : rows) if (std::binary_search(r.s.begin(), r.s.end(), q.s[0])) r = lbXor(r, q);
        if (r.s.empty()) { if (r.c) return Z3_mk_false(ctx); continue; }
        for (auto& q : rows) if (std::binary_search(q.s.begin(), q.s.end(), r.s[0])) q = lbXor(q, r);
        rows.push_back(r);
    }
    std::vector<Z3_ast> f;
    Z3_sort b1 = Z3_mk_bv_sort(ctx, 1);
    for (auto& q : rows) {
        Z3_ast x = nullptr;
        for (uint64_t k : q.s) x = x ? keep(Z3_mk_bvxor(ctx, x, linBit(k))) : linBit(k);
        f.push_back(keep(Z3_mk_eq(ctx, x, Z3_mk_unsigned_int64(ctx, q.c, b1))));
    }
    if (f.empty()) return Z3_mk_true(ctx);
    return Z3_mk_and(ctx, (unsigned)f.size(), f.data());
}
static Z3_ast linZ3(Expr* e) // nullptr: nothing to normalise
{
    if (e->op != XOR && e->op != EXTRACT && e->op != CONCAT && e->op != LSHR && e->op != SHL && e->op != OR) return nullptr;
    const LV& v = linOf(e);
    bool multi = e->op == XOR;
    for (auto& b : v) if (b.s.size() > 1) multi = true;
    if (!multi) return nullptr;
    Z3_sort b1 = Z3_mk_bv_sort(ctx, 1);
    Z3_ast r = nullptr;
    LV copy = v;
    for (unsigned i = e->w; i-- > 0;) {
        Z3_ast x = nullptr;
        for (uint64_t k : copy[i].s) {
            Z3_ast z = linBit(k);
            x = x ? keep(Z3_mk_bvxor(ctx, x, z)) : z;
        }
        if (!x) x = keep(Z3_mk_unsigned_int64(ctx, copy[i].c, b1));
        else if (copy[i].c) x = keep(Z3_mk_bvnot(ctx, x));
        r = r ? keep(Z3_mk_concat(ctx, r, x)) : x;
    }
    return r;
}
static Z3_ast bv(Expr* e)
{
    if (e->z3) return (Z3_ast)e->z3;
    Z3_ast r = nullptr;
    if (g_linTables && e->w >= 8 && e->w <= 64) if ((r = linZ3(e))) { e->z3 = keep(r); return r; }
    Z3_sort so = Z3_mk_bv_sort(ctx, e->w);
    switch (e->op) {
    case CONST:
        if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, (uint64_t)e->val, so);
        else {
            Z3_ast hi = Z3_mk_unsigned_int64(ctx, (uint64_t)(e->val >> 64), Z3_mk_bv_sort(ctx, e->w - 64));
            Z3_ast lo = Z3_mk_unsigned_int64(ctx, (uint64_t)e->val, Z3_mk_bv_sort(ctx, 64));
            r = Z3_mk_concat(ctx, hi, lo);
        }
        break;
    case VAR: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->val), so); break;
    case ADD: r = Z3_mk_bvadd(ctx, bv(e->a), bv(e->b)); break;
    case SUB: r = Z3_mk_bvsub(ctx, bv(e->a), bv(e->b)); break;
    case MUL: r = Z3_mk_bvmul(ctx, bv(e->a), bv(e->b)); break;
    case UDIV: r = isConstDiv(e) ? divDef(e).q : Z3_mk_bvudiv(ctx, bv(e->a), bv(e->b)); break;
    case SDIV: r = Z3_mk_bvsdiv(ctx, bv(e->a), bv(e->b)); break;
    case UREM: r = isConstDiv(e) ? divDef(e).rem : Z3_mk_bvurem(ctx, bv(e->a), bv(e->b)); break;
    case SREM: r = Z3_mk_bvsrem(ctx, bv(e->a), bv(e->b)); break;
    case SHL: r = Z3_mk_bvshl(ctx, bv(e->a), bv(e->b)); break;
    case LSHR: r = Z3_mk_bvlshr(ctx, bv(e->a), bv(e->b)); break;
    case ASHR: r = Z3_mk_bvashr(ctx, bv(e->a), bv(e->b)); break;
    case ZEXT: if (e->a->w == 1 && e->a->op != VAR) r = Z3_mk_ite(ctx, bl(e->a), Z3_mk_unsigned_int64(ctx, 1, so), Z3_mk_unsigned_int64(ctx, 0, so));
        else r = Z3_mk_zero_ext(ctx, e->w - e->a->w, bv(e->a)); break;
    case SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, bv(e->a)); break;
    case EXTRACT: r = Z3_mk_extract(ctx, (unsigned)e->val + e->w - 1, (unsigned)e->val, bv(e->a)); break;
    case CONCAT: r = Z3_mk_concat(ctx, bv(e->a), bv(e->b)); break;
    case FPOP: r = fpop(e); break;
    case ITE: if (e->w > 1) { r = Z3_mk_ite(ctx, bl(e->a), bv(e->b), bv(e->c)); break; } // fallthrough
    default: // 1-bit AND/OR/XOR/EQ/ULT/SLT or wide logic
        if (e->w > 1) {
            Z3_ast x = bv(e->a), y = bv(e->b);
            r = e->op == AND ? Z3_mk_bvand(ctx, x, y) : e->op == OR ? Z3_mk_bvor(ctx, x, y) : Z3_mk_bvxor(ctx, x, y);
        } else
            r = Z3_mk_ite(ctx, bl(e), Z3_mk_unsigned_int64(ctx, 1, so), Z3_mk_unsigned_int64(ctx, 0, so));
    }
    e->z3 = keep(r);
    return r;
}
static bool hasFp(Expr* e)
{
    static std::unordered_map<Expr*, bool> memo;
    if (!e || e->op == CONST || e->op == VAR) return false;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    bool r = e->op == FPOP || hasFp(e->a) || hasFp(e->b) || hasFp(e->c);
    return memo[e] = r;
}
struct CacheEnt { Sat r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::map<std::vector<uint32_t>, CacheEnt> g_cache;
static std::deque<ModelP> g_recent;

static bool overlap(const VarSet* a, const VarSet* b)
{
    if (a == b) return !a->empty();
    auto i = a->begin(); auto j = b->begin();
    while (i != a->end() && j != b->end()) { if (*i == *j) return true; if (*i < *j) ++i; else ++j; }
    return false;
}
static bool hasDiv(Expr* e)
{
    static std::unordered_map<Expr*, bool> memo;
    if (!e || e->op == CONST || e->op == VAR) return false;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    bool r = e->op == UDIV || e->op == SDIV || e->op == UREM || e->op == SREM || hasDiv(e->a) || hasDiv(e->b) || hasDiv(e->c);
    return memo[e] = r;
}
// Linear integer translation of formulas whose sums cannot wrap (time arithmetic): every term is an integer congruent to the
// bit-vector value, with an interval; comparisons are translated only when the interval fixes the representative.
namespace lia {
// A term is a linear combination of atoms: variables, quotients floor(L / c), conditionals.
using Lin = std::vector<std::pair<int, i128>>; // atom, coefficient; sorted
struct T { bool ok = false; Lin l; i128 k = 0, lo = 0, hi = 0; };
struct B { bool ok = false; Z3_ast z = nullptr; int k = -1; }; // k: known value
struct Atom { Z3_ast z; i128 lo, hi, c; Lin l; i128 k; };
struct St {
    std::vector<Atom> atoms; std::map<uint32_t, int> varAtom; std::map<std::pair<std::pair<Lin, i128>, i128>, int> divAtom, wrapAtom; std::unordered_map<uint32_t, int> iteAtom;
    std::unordered_map<uint32_t, T> t; std::unordered_map<uint32_t, B> b;
    std::map<Lin, std::pair<i128, i128>> bounds; // of linear forms, by the path condition; only in full mode
};
static St* g_st;
#define g_atoms (g_st->atoms)
static bool g_full; // formulas with divisions: divisions and reductions modulo a power of two are translated as well, with a state for each query
static Z3_solver sol; static Z3_sort is;
static Z3_ast num(i128 v) { bool n = v < 0; u128 u = n ? -(u128)v : (u128)v; std::string s; if (!u) s = "0"; while (u) { s.insert(s.begin(), (char)('0' + (int)(u % 10))); u /= 10; } if (n) s.insert(s.begin(), '-'); return keep(Z3_mk_numeral(ctx, s.c_str(), is)); }
static const i128 LIM = (i128)1 << 100;
static Z3_ast zl(const Lin& l, i128 k)
{
    std::vector<Z3_ast> v;
    for (auto& p : l) { if (p.second == 1) v.push_back(g_atoms[p.first].z); else { Z3_ast m[2] = {num(p.second), g_atoms[p.first].z}; v.push_back(keep(Z3_mk_mul(ctx, 2, m))); } }
    if (k || v.empty()) v.push_back(num(k));
    return v.size() == 1 ? v[0] : keep(Z3_mk_add(ctx, (unsigned)v.size(), v.data()));
}
static Z3_ast Z(const T& t) { return zl(t.l, t.k); }
static Lin comb(const Lin& a, const Lin& b, i128 m) // a + m * b
{
    Lin r; size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
        else if (i == a.size() || b[j].first < a[i].first) { r.push_back({b[j].first, b[j].second * m}); j++; }
        else { i128 c = a[i].second + b[j].second * m; if (c) r.push_back({a[i].first, c}); i++; j++; }
    }
    return r;
}
static void interval(const Lin& l, i128 k, i128& lo, i128& hi, int depth = 0)
{
    lo = hi = k;
    for (auto& p : l) { auto& a = g_atoms[p.first]; i128 x = a.lo * p.second, y = a.hi * p.second; lo += std::min(x, y); hi += std::max(x, y); }
    if (!l.empty() && !g_st->bounds.empty()) {
        bool neg = l[0].second < 0;
        auto it = g_st->bounds.find(neg ? comb({}, l, -1) : l);
        if (it != g_st->bounds.end()) {
            lo = std::max(lo, k + (neg ? -it->second.second : it->second.first)); hi = std::min(hi, k + (neg ? -it->second.first : it->second.second));
        }
    }
    if (!l.empty()) { // values are congruent to k modulo the common divisor of the coefficients
        i128 g = 0;
        for (auto& p : l) { i128 a = g, b = p.second < 0 ? -p.second : p.second; while (b) { i128 t = a % b; a = b; b = t; } g = a; }
        if (g > 1) { i128 x = ((k - lo) % g + g) % g, y = ((hi - k) % g + g) % g; lo += x; hi -= y; }
    }
    if (depth > 8) return;
    for (size_t i = l.size(); i-- > 0;) {
        auto& a = g_atoms[l[i].first];
        if (!a.c || l[i].second % a.c) continue;
        i128 m = -(l[i].second / a.c), lo2, hi2; // l = l' + m * (L - c * q)
        if (m > LIM || m < -LIM) continue;
        Lin l2 = comb(l, {{l[i].first, 1}}, -l[i].second); l2 = comb(l2, a.l, -m);
        interval(l2, k - m * a.k, lo2, hi2, depth + 1);
        i128 r = m * (a.c - 1); lo2 += std::min<i128>(0, r); hi2 += std::max<i128>(0, r);
        lo = std::max(lo, lo2); hi = std::min(hi, hi2);
        break;
    }
}
static T mk(Lin l, i128 k)
{
    T r; i128 t = 0;
    for (auto& p : l) { i128 c = p.second < 0 ? -p.second : p.second; i128 w = std::max(g_atoms[p.first].hi < 0 ? -g_atoms[p.first].hi : g_atoms[p.first].hi, g_atoms[p.first].lo < 0 ? -g_atoms[p.first].lo : g_atoms[p.first].lo) + 1; if (c > LIM || c > LIM / w) return r; t += c * w; if (t > LIM) return r; }
    if (k > LIM || k < -LIM) return r;
    r.l = std::move(l); r.k = k; interval(r.l, r.k, r.lo, r.hi);
    r.ok = true;
    return r;
}
static T addT(const T& a, const T& b, i128 m) { return mk(comb(a.l, b.l, m), a.k + m * b.k); }
static T scale(const T& a, i128 m) { if (!m) return mk({}, 0); return mk(comb({}, a.l, m), a.k * m); }
static i128 fdiv(i128 a, i128 c) { i128 q = a / c; if (a % c && a < 0) q--; return q; }
static T atomT(int i) { return mk({{i, 1}}, 0); }
static T divT(const T& a, i128 c) // floor
{
    if (fdiv(a.lo, c) == fdiv(a.hi, c)) return mk({}, fdiv(a.lo, c));
    // multiples of c move out
    Lin in, out; i128 k0 = fdiv(a.k, c);
    for (auto& p : a.l) { i128 q = fdiv(p.second, c), rm = p.second - q * c; if (q) out.push_back({p.first, q}); if (rm) in.push_back({p.first, rm}); }
    i128 k = a.k - k0 * c;
    T base = mk(out, k0); if (!base.ok) return base;
    T x = mk(in, k);
    // keep the interval of the original when nothing moved out
    if (out.empty() && !k0) x = a;
    if (!x.ok) return x;
    if (fdiv(x.lo, c) == fdiv(x.hi, c)) { T z = mk({}, fdiv(x.lo, c)); return addT(base, z, 1); }
    auto key = std::make_pair(std::make_pair(x.l, x.k), c);
    auto it = g_st->divAtom.find(key);
    if (it == g_st->divAtom.end()) { g_atoms.push_back({keep(Z3_mk_div(ctx, zl(x.l, x.k), num(c))), fdiv(x.lo, c), fdiv(x.hi, c), c, x.l, x.k}); it = g_st->divAtom.emplace(key, (int)g_atoms.size() - 1).first; }
    return addT(base, atomT(it->second), 1);
}
static T varOf(Expr* e)
{
    auto it = g_st->varAtom.find((uint32_t)e->val);
    if (it == g_st->varAtom.end()) { g_atoms.push_back({keep(Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, 1000000 + (int)e->val), is)), 0, ((i128)1 << e->w) - 1, 0, {}, 0}); it = g_st->varAtom.emplace((uint32_t)e->val, (int)g_atoms.size() - 1).first; }
    return atomT(it->second);
}
static T iteT(Expr* e, Z3_ast c, const T& a, const T& b)
{
    auto it = g_st->iteAtom.find(e->id);
    if (it == g_st->iteAtom.end()) { g_atoms.push_back({keep(Z3_mk_ite(ctx, c, Z(a), Z(b))), std::min(a.lo, b.lo), std::max(a.hi, b.hi), 0, {}, 0}); it = g_st->iteAtom.emplace(e->id, (int)g_atoms.size() - 1).first; }
    return atomT(it->second);
}
// brings the interval into [mn, mn + 2^w)
static bool norm(T& t, unsigned w, bool sg)
{
    i128 m = (i128)1 << w, mn = sg ? -(m >> 1) : 0, mx = mn + m - 1;
    if (t.lo >= mn && t.hi <= mx) return true;
    i128 k = fdiv(t.lo - mn, m);
    if (t.hi - k * m > mx) return false;
    t.k -= k * m; t.lo -= k * m; t.hi -= k * m;
    return true;
}
static T term(Expr* e);
static B form(Expr* e);
// the value itself, reduced if the interval doesn't fix it
static bool value(T& t, unsigned w, bool sg)
{
    if (norm(t, w, sg)) return true;
    if (!g_full) return false;
    i128 m = (i128)1 << w, h = sg ? m >> 1 : 0;
    if (i128 k = fdiv(t.lo + h, m); fdiv(t.hi + h, m) == k + 1) { // two representatives
        auto key = std::make_pair(std::make_pair(t.l, t.k), sg ? -m : m);
        auto it = g_st->wrapAtom.find(key);
        if (it == g_st->wrapAtom.end()) {
            Z3_ast z = Z(t), c = keep(Z3_mk_ge(ctx, z, num((k + 1) * m - h)));
            g_atoms.push_back({keep(Z3_mk_ite(ctx, c, zl(t.l, t.k - (k + 1) * m), zl(t.l, t.k - k * m))), -h, m - 1 - h, 0, {}, 0});
            it = g_st->wrapAtom.emplace(key, (int)g_atoms.size() - 1).first;
        }
        t = atomT(it->second);
        return true;
    }
    T x = t; x.k += h; x.lo += h; x.hi += h;
    T q = divT(x, m); if (!q.ok) return false;
    T r = addT(t, q, -m); if (!r.ok) return false;
    r.lo = std::max(r.lo, -h); r.hi = std::min(r.hi, m - 1 - h);
    t = r;
    return true;
}
static T term0(Expr* e)
{
    T r; unsigned w = e->w;
    if (w > 64) return r;
    switch (e->op) {
    case CONST: { i128 v = (i128)e->val; if (w > 1 && (e->val >> (w - 1) & 1)) v -= (i128)1 << w; return mk({}, v); }
    case VAR: return w >= 2 ? varOf(e) : r;
    case ADD: case SUB: case OR: {
        if (e->op == OR && ((~e->a->known0) & (~e->b->known0) & mask64(w))) return r;
        T a = term(e->a), b = term(e->b); if (!a.ok || !b.ok) return r;
        return addT(a, b, e->op == SUB ? -1 : 1);
    }
    case MUL: case SHL: {
        if (!e->b->isC()) return r;
        T a = term(e->a); if (!a.ok || (e->op == SHL && e->b->val >= w)) return r;
        i128 c = e->op == SHL ? (i128)1 << (int)e->b->val : (i128)e->b->val;
        if (e->op == MUL && (e->b->val >> (w - 1) & 1)) c -= (i128)1 << w;
        if (a.lo < -((i128)1 << 62) || a.hi > ((i128)1 << 62)) return r;
        return scale(a, c);
    }
    case ZEXT: case SEXT: { T a = term(e->a); if (!a.ok || !value(a, e->a->w, e->op == SEXT)) return r; return a; }
    case EXTRACT: {
        if (w < 2) return r;
        if (e->val == 0) return term(e->a);
        if (!g_full || e->a->w > 64) return r;
        T a = term(e->a); if (!a.ok) return r;
        norm(a, e->a->w, false);
        return divT(a, (i128)1 << (int)e->val);
    }
    case UDIV: case SDIV: case UREM: case SREM: {
        if (!g_full || !e->b->isC()) return r;
        bool sg = e->op == SDIV || e->op == SREM;
        i128 c = (i128)e->b->val; if (!c || (sg && (e->b->val >> (w - 1) & 1))) return r;
        T a = term(e->a); if (!a.ok || !value(a, w, sg)) return r;
        T q;
        if (a.lo >= 0) q = divT(a, c);
        else {
            T x = scale(a, -1); if (!x.ok) return r;
            T n = divT(x, c); if (!n.ok) return r;
            n = scale(n, -1); if (!n.ok) return r;
            if (a.hi <= 0) q = n;
            else { T p = divT(a, c); if (!p.ok) return r; q = iteT(e, keep(Z3_mk_ge(ctx, Z(a), num(0))), p, n); }
        }
        if (!q.ok || e->op == UDIV || e->op == SDIV) return q;
        T m = addT(a, q, -c); if (!m.ok) return m;
        m.lo = std::max(m.lo, a.lo < 0 ? -(c - 1) : (i128)0); m.hi = std::min(m.hi, a.hi > 0 ? c - 1 : (i128)0);
        return m;
    }
    case LSHR: case ASHR: {
        if (!g_full || !e->b->isC() || e->b->val >= w) return r;
        T a = term(e->a); if (!a.ok || !value(a, w, e->op == ASHR)) return r;
        return divT(a, (i128)1 << (int)e->b->val);
    }
    case ITE: {
        if (!g_full) return r;
        B c = form(e->a); if (c.ok && c.k >= 0) return term(c.k ? e->b : e->c);
        T a = term(e->b), b = term(e->c); if (!c.ok || !a.ok || !b.ok) return r;
        return iteT(e, c.z, a, b);
    }
    case AND: {
        if (!g_full || !e->b->isC()) return r;
        uint64_t m = (uint64_t)e->b->val, low = ~m & mask64(w);
        if (m && !(m & (m + 1)) && m != ~0ull) { T a = term(e->a); if (!a.ok || !value(a, (unsigned)__builtin_ctzll(~m), false)) return r; return a; }
        if (low && !(low & (low + 1))) {
            T a = term(e->a); if (!a.ok) return r;
            norm(a, w, true);
            T q = divT(a, (i128)low + 1); if (!q.ok) return r;
            return scale(q, (i128)low + 1);
        }
        return r;
    }
    case CONCAT: {
        T a = term(e->a), b = term(e->b); if (!a.ok || !b.ok || !value(b, e->b->w, false)) return r;
        T h = scale(a, (i128)1 << e->b->w); if (!h.ok) return r;
        return addT(h, b, 1);
    }
    default: return r;
    }
}
static T term(Expr* e)
{
    auto& memo = g_st->t;
    auto it = memo.find(e->id);
    if (it != memo.end()) return it->second;
    T t = term0(e);
    return memo[e->id] = t;
}
static B form0(Expr* e)
{
    B r;
    if (e->w != 1) return r;
    auto ok = [&](Z3_ast z) { r.ok = true; r.z = keep(z); return r; };
    auto cst = [&](bool v) { r.k = v; return ok(v ? Z3_mk_true(ctx) : Z3_mk_false(ctx)); };
    if (e->isC()) return cst(e->val != 0);
    switch (e->op) {
    case AND: case OR: case XOR: {
        B a = form(e->a), b = form(e->b); if (!a.ok || !b.ok) return r;
        if (a.k >= 0 && b.k >= 0) return cst(e->op == AND ? a.k & b.k : e->op == OR ? a.k | b.k : a.k ^ b.k);
        if (e->op == AND && (a.k == 0 || b.k == 0)) return cst(false);
        if (e->op == OR && (a.k == 1 || b.k == 1)) return cst(true);
        Z3_ast v[2] = {a.z, b.z};
        return ok(e->op == AND ? Z3_mk_and(ctx, 2, v) : e->op == OR ? Z3_mk_or(ctx, 2, v) : Z3_mk_xor(ctx, a.z, b.z));
    }
    case ITE: { B a = form(e->a), b = form(e->b), c = form(e->c); if (!a.ok || !b.ok || !c.ok) return r; return ok(Z3_mk_ite(ctx, a.z, b.z, c.z)); }
    case EQ: case ULT: case SLT: {
        if (e->a->w == 1) { if (e->op != EQ) return r; B a = form(e->a), b = form(e->b); if (!a.ok || !b.ok) return r; return ok(Z3_mk_iff(ctx, a.z, b.z)); }
        T a = term(e->a), b = term(e->b); if (!a.ok || !b.ok) return r;
        unsigned w = e->a->w;
        if (e->op == EQ) {
            T x = a, y = b;
            if (norm(x, w, false) && norm(y, w, false)) return ok(Z3_mk_eq(ctx, Z(x), Z(y)));
            if (norm(a, w, true) && norm(b, w, true)) return ok(Z3_mk_eq(ctx, Z(a), Z(b)));
            if (value(x, w, false) && value(y, w, false)) return ok(Z3_mk_eq(ctx, Z(x), Z(y)));
            return r;
        }
        if (g_full && b.l.empty()) { // only one representative can be below the constant
            T x = a, c = b; bool sg = e->op == SLT; i128 m = (i128)1 << w, h = sg ? m >> 1 : 0;
            if (!norm(x, w, sg) && norm(c, w, sg)) {
                i128 k = fdiv(x.lo + h, m);
                if (fdiv(x.hi + h, m) == k + 1 && c.k <= x.lo - k * m) {
                    Z3_ast v[2] = {Z3_mk_ge(ctx, Z(x), num((k + 1) * m - h)), Z3_mk_lt(ctx, Z(x), num(c.k + (k + 1) * m))};
                    return ok(Z3_mk_and(ctx, 2, v));
                }
            }
        }
        if (!value(a, w, e->op == SLT) || !value(b, w, e->op == SLT)) return r;
        if (g_full) { if (a.hi < b.lo) return cst(true); if (a.lo >= b.hi) return cst(false); }
        return ok(Z3_mk_lt(ctx, Z(a), Z(b)));
    }
    case EXTRACT: {
        if (e->val + 1 != e->a->w || e->a->w > 64) return r; // sign bit
        T a = term(e->a); if (!a.ok || !value(a, e->a->w, true)) return r;
        if (g_full) { if (a.hi < 0) return cst(true); if (a.lo >= 0) return cst(false); }
        return ok(Z3_mk_lt(ctx, Z(a), num(0)));
    }
    default: return r;
    }
}
static B form(Expr* e)
{
    auto& memo = g_st->b;
    auto it = memo.find(e->id);
    if (it != memo.end()) return it->second;
    B t = form0(e);
    return memo[e->id] = t;
}
static void bound(const T& t, bool upper, i128 c) // t <= c or t >= c
{
    if (t.l.empty()) return;
    bool neg = t.l[0].second < 0; Lin l = neg ? comb({}, t.l, -1) : t.l;
    auto it = g_st->bounds.emplace(l, std::make_pair(-LIM, LIM)).first;
    c -= t.k;
    if (neg) { c = -c; upper = !upper; }
    if (upper) it->second.second = std::min(it->second.second, c); else it->second.first = std::max(it->second.first, c);
}
// bounds which follow from a condition, given those from the conditions before it
static void learn(Expr* e, bool pos = true)
{
    if (e->op == XOR && e->w == 1 && e->b->isC() && e->b->val) return learn(e->a, !pos);
    if (e->op == AND && e->w == 1 && pos) { learn(e->a); learn(e->b); return; }
    if (e->op == OR && e->w == 1 && !pos) { learn(e->a, false); learn(e->b, false); return; }
    if ((e->op == EQ || e->op == ULT || e->op == SLT) && e->a->w > 1) {
        T a = term(e->a), b = term(e->b); if (!a.ok || !b.ok) return;
        unsigned w = e->a->w; bool sg = e->op == SLT;
        if (e->op == EQ) {
            if (!pos || !norm(a, w, false) || !norm(b, w, false)) return;
            T d = addT(a, b, -1); if (d.ok) { bound(d, true, 0); bound(d, false, 0); }
            return;
        }
        if (b.l.empty() && norm(b, w, sg) && !norm(a, w, sg) && pos) {
            i128 m = (i128)1 << w, h = sg ? m >> 1 : 0, k = fdiv(a.lo + h, m);
            if (fdiv(a.hi + h, m) == k + 1 && b.k <= a.lo - k * m) { bound(a, false, (k + 1) * m - h); bound(a, true, b.k - 1 + (k + 1) * m); }
            return;
        }
        if (!norm(a, w, sg) || !norm(b, w, sg)) return;
        T d = addT(a, b, -1); if (!d.ok) return;
        if (pos) bound(d, true, -1); else bound(d, false, 0);
        // and against the limits of the other side
        if (pos) { bound(a, true, b.hi - 1); bound(b, false, a.lo + 1); } else { bound(a, false, b.lo); bound(b, true, a.hi); }
        return;
    }
    if (e->op == EXTRACT && e->w == 1 && e->val + 1 == e->a->w && e->a->w <= 64) {
        T a = term(e->a); if (!a.ok || !norm(a, e->a->w, true)) return;
        if (pos) bound(a, true, -1); else bound(a, false, 0);
    }
}
static Z3_lbool check(const std::vector<Expr*>& slice, Expr* cond, const VarSet& vs, std::vector<std::pair<uint32_t, uint64_t>>* mv)
{
    bool wide = false, wider = false;
    for (uint32_t v : vs) { if (g_vars[v].w >= 15) wide = true; if (g_vars[v].w >= 15) wider = true; if (g_vars[v].w < 2) return Z3_L_UNDEF; }
    if (!wide) return Z3_L_UNDEF;
    if (!sol) { is = Z3_mk_int_sort(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, is)); sol = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, sol); setTimeout(sol, 2000); }
    std::vector<Z3_ast> fs;
    bool divs = hasDiv(cond);
    for (Expr* e : slice) divs = divs || hasDiv(e);
    static St plain; static std::unique_ptr<St> full;
    auto translate = [&](bool f) {
        g_full = f; fs.clear();
        if (g_full) { full = std::make_unique<St>(); g_st = full.get(); } else g_st = &plain;
        for (Expr* e : slice) {
            B b = form(e); if (!b.ok) return false; fs.push_back(b.z);
            if (g_full) { learn(e); g_st->t.clear(); g_st->b.clear(); g_st->iteAtom.clear(); g_st->wrapAtom.clear(); }
        }
        B b = form(cond); if (!b.ok) return false; fs.push_back(b.z);
        return true;
    };
    if (divs || !translate(false)) { if (!wider) return Z3_L_UNDEF; if (!translate(true)) return Z3_L_UNDEF; }
    setTimeout(sol, divs ? 5000 : 2000);
    Z3_solver_reset(ctx, sol);
    for (uint32_t v : vs) {
        Z3_ast x = keep(Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, 1000000 + (int)v), is));
        Z3_solver_assert(ctx, sol, Z3_mk_le(ctx, num(0), x)); Z3_solver_assert(ctx, sol, Z3_mk_lt(ctx, x, num((i128)1 << g_vars[v].w)));
    }
    for (Z3_ast f : fs) Z3_solver_assert(ctx, sol, f);
    Z3_lbool r = Z3_solver_check(ctx, sol);
    if (r == Z3_L_UNDEF && getenv("VP_DUMP")) {
        static int k; char fn[256]; snprintf(fn, 256, "%s/lia%04d.smt2", getenv("VP_DUMP"), k++);
        if (FILE* f = fopen(fn, "w")) { fprintf(f, "%s", Z3_solver_to_string(ctx, sol)); fprintf(f, "(check-sat)\n"); fclose(f); }
    }
    if (r == Z3_L_TRUE) {
        Z3_model zm = Z3_solver_get_model(ctx, sol); Z3_model_inc_ref(ctx, zm);
        for (uint32_t v : vs) {
            Z3_ast x = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, 1000000 + (int)v), is), val; uint64_t u = 0;
            if (Z3_model_eval(ctx, zm, x, true, &val)) Z3_get_numeral_uint64(ctx, val, &u);
            mv->push_back({v, u});
        }
        Z3_model_dec_ref(ctx, zm);
    }
    return r;
}
}
static ModelP extend(const Model& base, const std::vector<std::pair<uint32_t, uint64_t>>& m)
{
    ModelP r = std::make_shared<Model>();
    r->v = base.v;
    for (auto& p : m) { if (p.first >= r->v.size()) r->v.resize(std::max<size_t>(g_vars.size(), p.first + 1)); r->v[p.first] = p.second; }
    r->epoch = newEpoch();
    return r;
}
Sat solverCheck(const std::vector<Expr*>& pc, Expr* cond, const Model& base, ModelP* out)
{
    g_sstats.queries++;
    if (cond->isC()) {
        if (!cond->val) return Sat::No;
        if (out) { *out = std::make_shared<Model>(base); (*out)->epoch = newEpoch(); }
        return Sat::Yes;
    }
    // slice
    const VarSet* vs = cond->vars;
    std::vector<Expr*> slice; std::vector<char> used(pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); i++)
            if (!used[i] && overlap(pc[i]->vars, vs)) { used[i] = 1; const VarSet* n = unionVars(vs, pc[i]->vars); if (n != vs) { vs = n; ch = true; } slice.push_back(pc[i]); }
    }
    slice.clear();
    for (size_t i = 0; i < pc.size(); i++) if (used[i]) slice.push_back(pc[i]);
    std::vector<uint32_t> key;
    for (Expr* e : slice) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    key.push_back(cond->id);
    auto it = g_cache.find(key);
    if (it != g_cache.end()) {
        g_sstats.cacheHits++;
        if (it->second.r == Sat::Yes && out) *out = extend(base, it->second.m);
        return it->second.r;
    }
    auto record = [&](Sat r, const Model* m) {
        CacheEnt& ce = g_cache[key];
        ce.r = r;
        if (r == Sat::Yes) for (uint32_t v : *vs) ce.m.push_back({v, m->get(v)});
        return &ce;
    };
    for (auto& m : g_recent) {
        bool ok = evalExpr(cond, *m) != 0;
        for (size_t i = 0; ok && i < slice.size(); i++) ok = evalExpr(slice[i], *m) != 0;
        if (ok) {
            g_sstats.modelHits++;
            auto* ce = record(Sat::Yes, m.get());
            if (out) *out = extend(base, ce->m);
            return Sat::Yes;
        }
    }
    g_sstats.z3calls++;
    auto t0 = std::chrono::steady_clock::now();
    Z3_lbool liaR = Z3_L_UNDEF;
    {
        std::vector<std::pair<uint32_t, uint64_t>> mv;
        Z3_lbool q = lia::check(slice, cond, *vs, &mv);
        static bool cmp = getenv("VP_LIACHECK") != nullptr; // development: compare with the bit-vector verdict
        if (cmp) liaR = q;
        else if (q != Z3_L_UNDEF) {
            double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            g_sstats.z3s += dt; if (dt > g_sstats.maxs) g_sstats.maxs = dt;
            if (q == Z3_L_FALSE) { g_sstats.unsatN++; record(Sat::No, nullptr); return Sat::No; }
            ModelP m = extend(base, mv);
            bool ok = evalExpr(cond, *m) != 0;
            for (Expr* e : slice) ok = ok && evalExpr(e, *m) != 0;
            if (!ok) { fprintf(stderr, "internal: integer model does not satisfy the query\n"); abort(); }
            g_sstats.satN++;
            g_recent.push_front(m); if (g_recent.size() > 12) g_recent.pop_back();
            record(Sat::Yes, m.get());
            if (out) *out = m;
            return Sat::Yes;
        }
    }
    Z3_lbool r = Z3_L_UNDEF;
    Z3_solver used_s = s1;
    DivSet dv = divsOf(cond);
    for (Expr* e : slice) { auto& d = divsOf(e); dv.insert(d.begin(), d.end()); }
    bool fp = g_fpUsed && (hasFp(cond) || std::any_of(slice.begin(), slice.end(), hasFp));
    for (int k = fp ? 1 : 0; k < 2 && r == Z3_L_UNDEF; k++) {
        if (k == 1) {
            if (s2) Z3_solver_dec_ref(ctx, s2);
            s2 = Z3_mk_solver_from_tactic(ctx, fp ? tfp : tbv);
            Z3_solver_inc_ref(ctx, s2);
        }
        Z3_solver s = k == 0 ? s1 : s2;
        used_s = s;
        if (k == 1) setTimeout(s, g_queryTimeoutMs);
        if (k == 0) Z3_solver_reset(ctx, s);
        for (Expr* e : slice) Z3_solver_assert(ctx, s, bl(e));
        Z3_solver_assert(ctx, s, bl(cond));
        for (Expr* e : dv) Z3_solver_assert(ctx, s, divDef(e).def);
        r = Z3_solver_check(ctx, s);
    }
    if (liaR != Z3_L_UNDEF && r != Z3_L_UNDEF && liaR != r) { fprintf(stderr, "internal: integer and bit-vector verdicts differ\n"); abort(); }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_sstats.z3s += dt;
    if (const char* dd = getenv("VP_DUMP"); dd && dt > 1.0) {
        char fn[256]; snprintf(fn, 256, "%s/q%04d_%d_%d.smt2", dd, (int)g_sstats.z3calls, (int)(dt * 1000), (int)r);
        if (FILE* f = fopen(fn, "w")) { fprintf(f, "%s", Z3_solver_to_string(ctx, used_s)); fprintf(f, "(check-sat)\n"); fclose(f); }
    }
    if (dt > g_sstats.maxs) g_sstats.maxs = dt;
    Sat res;
    if (r == Z3_L_TRUE) {
        g_sstats.satN++;
        Z3_model zm = Z3_solver_get_model(ctx, used_s);
        Z3_model_inc_ref(ctx, zm);
        std::vector<std::pair<uint32_t, uint64_t>> mv;
        for (uint32_t v : *vs) {
            Z3_ast c = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)v), Z3_mk_bv_sort(ctx, g_vars[v].w));
            Z3_ast val; uint64_t u = 0;
            if (Z3_model_eval(ctx, zm, c, true, &val)) Z3_get_numeral_uint64(ctx, val, &u);
            mv.push_back({v, u});
        }
        Z3_model_dec_ref(ctx, zm);
        ModelP m = extend(base, mv);
        // sanity: the model really satisfies what was asked (guards against translation bugs)
        bool ok = evalExpr(cond, *m) != 0;
        for (Expr* e : slice) ok = ok && evalExpr(e, *m) != 0;
        if (!ok && g_fpUsed) { // NaN payloads and out-of-range conversions are unspecified in the FP theory
            g_sstats.unknown++; record(Sat::Unknown, nullptr);
            return Sat::Unknown;
        }
        if (!ok) { fprintf(stderr, "internal: z3 model does not satisfy the query\n"); abort(); }
        g_recent.push_front(m);
        if (g_recent.size() > 12) g_recent.pop_back();
        record(Sat::Yes, m.get());
        if (out) *out = m;
        res = Sat::Yes;
    } else if (r == Z3_L_FALSE) { g_sstats.unsatN++; record(Sat::No, nullptr); res = Sat::No; }
    else { g_sstats.unknown++; record(Sat::Unknown, nullptr); res = Sat::Unknown; }
    return res;
}
