// Symbolic executor for LLVM-18 bitcode.
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <set>
#include <unordered_map>

struct Val {
    Expr* e = nullptr;
    uint64_t c = 0;
    Val() {}
    Val(uint64_t v) : c(v) {}
    Val(Expr* x) { if (x->isC() && x->w <= 64) c = (uint64_t)x->val; else e = x; }
    bool sym() const { return e != nullptr; }
};
inline Expr* toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

struct Cell { Expr* e = nullptr; uint8_t idx = 0; };
enum ObjKind : uint8_t { OGlobal, OHeap, OStack, OFunc };
enum AllocTag : uint8_t { TNone, TMalloc, TNew, TNewArr };
struct Obj {
    int ref = 1;
    ObjKind kind = OGlobal;
    AllocTag tag = TNone;
    bool alive = true, ro = false;
    uint64_t size = 0;
    uint32_t align0 = 0x1010; // base offset inside the object's 4 GB slot
    std::vector<uint8_t> b;
    std::vector<Cell> s;
};
struct Chunk { int ref = 1; Obj* o[64] = {}; };

struct Func;
struct Opnd { int32_t r = -1; Val k; };
struct Edge { int target = -1; int block = -1; std::vector<std::pair<int, Opnd>> phis; };
struct Leaf { uint32_t off; uint16_t w; uint16_t bytes; };
enum IOp : uint8_t { IBin, IICmp, ISelect, ICast, ILoad, IStore, IGep, IAlloca, IBr, ICondBr, ISwitch, IRet, ICall, IMov, IFBin, IFCmp, IFCast, IFNeg,
                     IAtomicRMW, ICmpXchg, IUnreachable, IUnsupported, INop };
struct Inst {
    IOp op = INop;
    uint16_t sub = 0;
    uint16_t w = 0, w2 = 0;
    int32_t dst = -1;
    std::vector<Opnd> o;
    std::vector<int64_t> x;
    std::vector<Leaf> lv;
    std::vector<Edge> edges;
    Func* callee = nullptr;
    const llvm::Instruction* src = nullptr;
    std::string text;
};
struct State;
struct Exec;
enum class H { Ok, Fork, Dead, Pushed }; // Fork: state was forked & must re-execute? (see exec)
typedef H (*Handler)(Exec&, State&, const Inst&, std::vector<Val>&);
struct Func {
    const llvm::Function* f = nullptr;
    std::string name;
    uint32_t id = 0; // object id
    bool lowered = false, isRepo = false, seen = false;
    Handler h = nullptr;
    int nregs = 0;
    std::vector<Inst> code;
    std::vector<int> blockStart;
    std::vector<int> argSlot;
    std::vector<uint64_t> byvalSize; // per leaf arg
    int nargs = 0;
};
struct Frame {
    Func* f;
    int pc = 0;
    std::vector<Val> regs;
    std::vector<uint32_t> allocas;
    int retDst = -1;
};
struct Input { char kind; std::string name; unsigned w; std::vector<Val> v; }; // 'B' bytes, 'V' scalar
struct UFApp { uint64_t fid; std::vector<Val> in; std::vector<Val> out; int flags; };
struct State {
    uint64_t id = 0;
    std::vector<Frame> st;
    std::vector<Chunk*> tab;
    uint32_t nobj = 0;
    std::vector<Expr*> pc;
    std::unordered_map<Expr*, uint64_t> facts;
    std::vector<char> fixedVar;
    ModelP model;
    std::vector<Input> inputs;
    std::vector<Val> observes;
    std::vector<UFApp> ufs;
    std::map<std::string, int> nameCnt;
    uint64_t insts = 0;
    size_t startIdx = 0;
    uint32_t havocs = 0;
    int forks = 0;
    uint64_t hangLimit = 0, hangBase = 0;
    std::vector<std::string> reached;
    State() {}
    State(const State& o);
    ~State();
    State& operator=(const State&) = delete;
    const Obj* get(uint32_t id) const { return id < nobj ? tab[id >> 6]->o[id & 63] : nullptr; }
    Obj* getW(uint32_t id);
    uint32_t add(Obj* o);
};
struct Violation {
    std::string kind, msg, loc, witness;
    std::vector<std::string> stack;
    bool havoc = false;
};
struct Exec {
    llvm::Module* M = nullptr;
    const llvm::DataLayout* DL = nullptr;
    std::unordered_map<const llvm::Function*, Func*> funcs;
    std::unordered_map<uint32_t, Func*> funcById;
    std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr;
    std::map<std::string, std::string> params;
    std::vector<State*> work;
    std::vector<Func*> startList;
    // results
    std::vector<Violation> viols;
    std::map<std::string, uint64_t> violCount;
    std::map<std::string, uint64_t> incomplete; // reason -> count
    std::map<std::string, uint64_t> reach;
    std::set<std::string> repoFuncs;
    uint64_t paths = 0, pathsDone = 0, assumedOut = 0, insts = 0, forks = 0, branches = 0, asserts = 0;
    // limits
    bool forkSelects = false; // a choice between two values is a branch
    double timeBudget = 60;
    uint64_t maxPathInsts = 20000000, maxPaths = ~0ull;
    unsigned stopAfter = 4, samples = 0;
    std::string outDir, repoPrefix = "/repo/";
    unsigned seed = 1;
    std::vector<std::string> sampleFiles;

    void setup(const std::string& entry);
    void run();
    Expr* linearTable(const Obj* o, Expr* idx, uint64_t c0, unsigned tz, unsigned bits, unsigned bytes, unsigned w);
    Func* getFunc(const llvm::Function* f);
    void lower(Func* f);
    std::vector<Val> evalConst(const llvm::Constant* c);
    void initGlobals(State& s);
    // state helpers
    void addConstraint(State& s, Expr* c, bool implied = false);
    bool fixed(State& s, Expr* e, uint64_t* v);
    uint64_t modelVal(State& s, const Val& v) { return v.e ? (uint64_t)evalExpr(v.e, *s.model) : v.c; }
    State* fork(State& s, Expr* cond, ModelP m);
    // 1: true only, 0: false only; forks when both (other side pushed to the worklist re-executing this instruction)
    bool decide(State& s, Expr* cond);
    uint64_t concretize(State& s, const Val& v, unsigned w);
    bool assume(State& s, Expr* c); // false: infeasible
    void violation(State& s, const std::string& kind, const std::string& msg, const Model* m = nullptr);
    void incompletePath(const std::string& why);
    std::string locOf(State& s, std::vector<std::string>* stack = nullptr);
    std::string witness(State& s, const Model& m, bool obs);
    // memory
    uint64_t addrOf(State& s, uint32_t id) const { return ((uint64_t)(id + 1) << 32) + s.get(id)->align0; }
    uint64_t alloc(State& s, uint64_t size, ObjKind k, AllocTag tag, uint32_t base0 = 0x1010, int fill = 0xAA);
    // resolves a pointer to one object & in-bounds offset. false => state is dead
    bool resolve(State& s, const Val& p, uint64_t n, bool write, uint32_t& id, Val& off, const char* what);
    Val loadAt(const Obj* o, uint64_t off, unsigned bytes, unsigned w);
    void storeAt(Obj* o, uint64_t off, unsigned bytes, unsigned w, const Val& v);
    bool load(State& s, const Val& p, unsigned bytes, unsigned w, Val& out);
    bool store(State& s, const Val& p, unsigned bytes, unsigned w, const Val& v);
    bool readBytes(State& s, const Val& p, uint64_t n, std::vector<Val>& out); // one Val per byte
    bool writeBytes(State& s, const Val& p, const std::vector<Val>& v);
    std::string readCStr(State& s, const Val& p);
    bool stepState(State& s); // runs until end; false when finished
    void enterCall(State& s, Func* f, const std::vector<Val>& args, int retDst);
    void freeStackFrame(State& s, Frame& f);
    bool timeUp();
    double startTime = 0;
    void finishPath(State& s);
};
extern std::unordered_map<std::string, Handler> g_handlers;
void registerHandlers();
Handler intrinsicHandler(const std::string& name);
Val vBin(Op op, const Val& a, const Val& b, unsigned w);
Val vICmp(unsigned pred, const Val& a, const Val& b, unsigned w);
Val vIte(const Val& c, const Val& a, const Val& b, unsigned w);
Val vZExt(const Val& a, unsigned w, unsigned w2);
Val vSExt(const Val& a, unsigned w, unsigned w2);
Val vTrunc(const Val& a, unsigned w, unsigned w2);
struct PathDead { };
