// Hash-consed bit-vector expression DAG with a strong simplifier.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
                    EQ, ULT, SLT, ITE, ZEXT, SEXT, EXTRACT, CONCAT, FPOP };
// FPOP sub-operations (Expr::val); operands are IEEE bit patterns
enum Fp : uint8_t { FpAdd = 1, FpSub, FpMul, FpDiv, FpNeg, FpLt = 10, FpLe, FpEq, FpUno, FpSI = 20, FpUI, FpToSI, FpToUI, FpToFp, FpFloor = 30, FpCeil, FpTrunc, FpRound, FpAbs, FpSqrt };

typedef std::vector<uint32_t> VarSet; // sorted

struct Expr {
    Op op;
    uint16_t w;
    uint32_t id;
    Expr *a, *b, *c;
    u128 val;         // CONST: value, VAR: index, EXTRACT: offset
    uint64_t known0;  // for w<=64: bits known to be zero
    const VarSet* vars;
    uint64_t evalEpoch = 0;
    u128 evalVal = 0;
    void* z3 = nullptr;  // as bit-vector
    void* z3b = nullptr; // as Bool (w==1)
    Expr* next;
    bool isC() const { return op == CONST; }
};

inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline uint64_t mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

Expr* mkConst(u128 v, unsigned w);
Expr* mkVar(unsigned w, const std::string& name); // same name => same var
Expr* mkBin(Op op, Expr* a, Expr* b);
Expr* mkNot(Expr* a);    // bitwise
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkZExt(Expr* a, unsigned w);
Expr* mkSExt(Expr* a, unsigned w);
Expr* mkExtract(Expr* a, unsigned off, unsigned w);
Expr* mkConcat(Expr* hi, Expr* lo);
inline Expr* mkEq(Expr* a, Expr* b) { return mkBin(EQ, a, b); }
inline Expr* mkAnd(Expr* a, Expr* b) { return mkBin(AND, a, b); }
inline Expr* mkOr(Expr* a, Expr* b) { return mkBin(OR, a, b); }
inline Expr* mkBool(bool b) { return mkConst(b ? 1 : 0, 1); }
Expr* mkFp(Fp k, Expr* a, Expr* b, unsigned w);
uint64_t foldFp(Fp k, uint64_t a, unsigned aw, uint64_t b, unsigned w);
extern bool g_fpUsed, g_linTables;
Expr* linLookup(Expr* idx, const std::vector<uint64_t>& basis, unsigned w);
u128 foldBin(Op op, u128 a, u128 b, unsigned w);
uint64_t umaxOf(Expr* e); // w<=64
struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> g_vars;
const VarSet* unionVars(const VarSet* a, const VarSet* b);
size_t exprCount();

// Assignment: value per variable index
struct Model {
    std::vector<uint64_t> v;
    uint64_t epoch = 0;
    uint64_t get(uint32_t i) const { return i < v.size() ? v[i] : 0; }
};
typedef std::shared_ptr<Model> ModelP;
uint64_t newEpoch();
u128 evalExpr(Expr* e, const Model& m);
std::string exprStr(Expr* e, int depth = 4);
