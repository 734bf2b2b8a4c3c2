// Symbolic executor for LLVM IR: shared declarations.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "llvm/ADT/DenseMap.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"

extern Z3_context Z;

struct Ex {  // ref-counted Z3 term
    Z3_ast a = nullptr;
    Ex() {}
    Ex(Z3_ast x) : a(x) { if (a) Z3_inc_ref(Z, a); }
    Ex(const Ex& o) : a(o.a) { if (a) Z3_inc_ref(Z, a); }
    Ex(Ex&& o) noexcept : a(o.a) { o.a = nullptr; }
    Ex& operator=(const Ex& o) { if (o.a) Z3_inc_ref(Z, o.a); if (a) Z3_dec_ref(Z, a); a = o.a; return *this; }
    Ex& operator=(Ex&& o) noexcept { std::swap(a, o.a); return *this; }
    ~Ex() { if (a) Z3_dec_ref(Z, a); }
    operator Z3_ast() const { return a; }
    explicit operator bool() const { return a != nullptr; }
};

// Kind of a scalar value.  KC: concrete bits in c.  KBV: Z3 bit-vector (Bool for i1).  KIFP: a float/double known to be
// an exact small integer, held as signed BV64 with range [lo,hi].  KFPA: Z3 floating-point term.  KREAL: exact real
// (or integer of unbounded range when the LLVM type is an integer), used by harnesses that opt into real arithmetic.
enum K : uint8_t { KC, KBV, KIFP, KFPA, KREAL };

struct Val {
    uint64_t c = 0;
    Ex e;
    K k = KC;
    bool ud = false;  // depends on uninitialised memory
    int64_t lo = 0, hi = 0;
    Val() {}
    explicit Val(uint64_t x) : c(x) {}
    bool conc() const { return k == KC; }
};
struct RV {
    Val v;
    std::shared_ptr<std::vector<RV>> agg;
    RV() {}
    RV(const Val& x) : v(x) {}
};

struct Sym { uint32_t size; Val v; };
struct Data {
    std::vector<uint8_t> b, st;  // st: 0 uninitialised, 1 concrete, 2 start of symbolic entry, 3 continuation
    std::map<uint32_t, Sym> sym;
};
enum OK : uint8_t { OGLOBAL, OSTACK, OMALLOC, ONEW, ONEWARR, OFUNC, OEXC };
struct Obj {
    uint64_t base = 0, size = 0;
    OK kind = OGLOBAL;
    bool alive = true, ro = false;
    uint32_t seq = 0;
    std::shared_ptr<Data> d;
    const llvm::Instruction* site = nullptr;
};

struct Opnd { int reg; RV* c; };
struct PI {
    const llvm::Instruction* I;
    unsigned opc;
    int dest;
    std::vector<Opnd> ops;
};
struct FuncInfo {
    const llvm::Function* F;
    int nregs = 0;
    std::vector<std::vector<PI>> bbs;
    llvm::DenseMap<const llvm::BasicBlock*, int> bbid;
    llvm::DenseMap<const llvm::Value*, int> reg;
};
struct Frame {
    FuncInfo* f = nullptr;
    int bb = 0, pc = 0, prev = -1;
    std::vector<RV> regs;
    std::vector<uint64_t> allocas;
    std::vector<Val> varargs;
    std::vector<int> varsz;
};
struct Model {
    Z3_model m;
    explicit Model(Z3_model x) : m(x) { Z3_model_inc_ref(Z, m); }
    ~Model() { Z3_model_dec_ref(Z, m); }
};
struct SymRec { std::string name; Val v; int bits; bool fp; };
struct DecRec { Ex val; std::vector<Ex> dg; };   // a 64-bit number and its decimal digits (4-bit terms, most significant first)
struct Access { uint64_t a; uint32_t n; bool w; const llvm::Instruction* I; };
struct OmpState {            // one parallel region being run thread by thread
    bool active = false;
    int nthreads = 0, tid = 0, next = 0;
    uint64_t fn = 0;
    std::vector<Val> args;
    int depth = 0;           // frame depth of the caller
    int crit = 0;            // inside reduction combine / critical
    std::vector<std::vector<std::map<uint64_t, std::pair<uint8_t, const llvm::Instruction*>>>> log;  // [thread][epoch]
    int epoch = 0;
    std::vector<int64_t> disp;   // loop with a dynamic schedule: first, last, step, taken
};
struct State {
    std::vector<Frame> st;
    std::map<uint64_t, Obj> mem;
    uint64_t next = 0;
    uint32_t seq = 0;
    int64_t failAfter = -1;
    std::vector<Ex> pc;
    struct Range { Ex x; uint64_t lo; unsigned w; };
    std::unordered_map<unsigned, Range> range;      // see narrowDiv
    std::unordered_map<unsigned, std::pair<Ex, bool>> known;
    std::shared_ptr<Model> model;
    bool nonbv = false;
    std::vector<SymRec> syms;
    std::map<std::string, int> symcnt;
    std::vector<std::pair<std::string, Val>> obs;
    std::vector<std::string> reach;
    uint64_t nchk = 0, hchk = 1469598103934665603ull;   // assertions passed so far: how many, and a hash of their names
    // exceptions
    uint64_t excObj = 0, excTy = 0;
    std::vector<std::pair<uint64_t, uint64_t>> caught;
    uint64_t nsteps = 0;
    OmpState omp;
    std::vector<DecRec> dec;
    std::vector<Ex> links;       // number == Horner(digits) of dec entries, used when a counterexample needs it
    int depth = 0;
    uint64_t trail = 1469598103934665603ull;
};
