// Symbolic executor for LLVM IR (KLEE-style), deciding branches and assertions with Z3.
#include "sx.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <cfenv>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
using namespace llvm;
using std::string;
using std::vector;

Z3_context Z;
static const DataLayout* DL;
static Module* M;

// ------------------------------------------------------------------ options
static double optTime = 300;         // wall seconds
static int optWorkers = 1;
static string optOut = "sxout";
static bool optRealFork = false;     // in real mode: conversions to integers are enumerated (one path for each value)
static bool optReal = false;         // real arithmetic for floating point
static uint64_t optRlimit = 40000000;
static int optMaxErr = 80;
static int optThreads = 4;           // OpenMP model threads
static int optOrder = 0;             // OpenMP thread order (0 forward, 1 reverse)
static long optMaxSteps = 20000000;  // instructions per path
static int optSamples = 4;
static bool optUninit = true;
static bool optOverflow = false;
static std::map<string, int64_t> optParams;

struct Shared { volatile int live; volatile int stop; volatile long errs; volatile int maxlive; volatile long paths; };
static Shared* SH;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double T0, Deadline;

struct Stats {
    uint64_t paths = 0, infeasible = 0, instrs = 0, forks = 0, queries = 0, sat = 0, unsat = 0, unknown = 0,
             checksConc = 0, checksSolver = 0, incomplete = 0, unsupported = 0, modelhits = 0;
    double solver = 0;
    std::map<string, uint64_t> checks, reach;
    std::map<string, string> unsup;
    std::set<string> funcs;
} S;
static FILE* outf = nullptr;
static string jesc(const string& s) {
    string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static void openOut() {
    string p = optOut + "." + std::to_string(getpid()) + ".jsonl";
    outf = fopen(p.c_str(), "w");
    if (!outf) { perror(p.c_str()); _exit(3); }
}

struct PathEnd { int why; };  // thrown to end the current path
struct Restart {};            // re-execute the current instruction
enum { PE_DONE, PE_INFEASIBLE, PE_ERROR, PE_UNSUP, PE_LIMIT };

// ------------------------------------------------------------------ sorts and terms
static Z3_sort sBool, sF32, sF64, sReal, sInt;
static Z3_ast RNE, RTZ;
static std::unordered_map<unsigned, Z3_sort> bvs;
static Z3_sort sBV(unsigned n) {
    auto& s = bvs[n];
    if (!s) { s = Z3_mk_bv_sort(Z, n); Z3_inc_ref(Z, Z3_sort_to_ast(Z, s)); }
    return s;
}
static Ex bvc(uint64_t v, unsigned n) {
    if (n < 64) v &= (1ull << n) - 1;
    return Ex(Z3_mk_unsigned_int64(Z, v, sBV(n)));
}
static Ex eTrue, eFalse;
static inline uint64_t mask(uint64_t v, unsigned n) { return n >= 64 ? v : v & ((1ull << n) - 1); }
static inline int64_t sx64(uint64_t v, unsigned n) { return n >= 64 ? (int64_t)v : ((int64_t)(v << (64 - n))) >> (64 - n); }
static double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static float asF(uint64_t v) { float f; uint32_t x = v; memcpy(&f, &x, 4); return f; }
static uint64_t ofD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static uint64_t ofF(float f) { uint32_t v; memcpy(&v, &f, 4); return v; }
static unsigned astid(Z3_ast a) { return Z3_get_ast_id(Z, a); }

static Z3_error_code lastErr = Z3_OK;
static void zerr(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    lastErr = e;
}

static State* CS = nullptr;  // current state
[[noreturn]] static void unsupported(const string& m) {
    string where;
    if (CS && !CS->st.empty()) {
        where = " in " + demangle(CS->st.back().f->F->getName().str());
    }
    S.unsupported++;
    if (S.unsup.size() < 30) S.unsup[m.substr(0, 200)] = where;
    throw PathEnd{PE_UNSUP};
}

static Ex boolNot(const Ex& b) {
    if (Z3_get_ast_kind(Z, b) == Z3_APP_AST) {
        Z3_app ap = Z3_to_app(Z, b);
        Z3_decl_kind k = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap));
        if (k == Z3_OP_NOT) return Ex(Z3_get_app_arg(Z, ap, 0));
        if (k == Z3_OP_TRUE) return eFalse;
        if (k == Z3_OP_FALSE) return eTrue;
    }
    return Ex(Z3_mk_not(Z, b));
}
static Ex mkEq(const Ex& a, const Ex& b) { return Ex(Z3_mk_eq(Z, a, b)); }
static Ex mkIte(const Ex& c, const Ex& a, const Ex& b) { return a.a == b.a ? a : Ex(Z3_mk_ite(Z, c, a, b)); }
static Ex mkAnd(const Ex& a, const Ex& b) { Z3_ast x[2] = {a, b}; return Ex(Z3_mk_and(Z, 2, x)); }
static Ex mkOr(const Ex& a, const Ex& b) { Z3_ast x[2] = {a, b}; return Ex(Z3_mk_or(Z, 2, x)); }

static bool isNum(const Ex& e, uint64_t& v) {
    if (Z3_get_ast_kind(Z, e) != Z3_NUMERAL_AST) return false;
    return Z3_get_numeral_uint64(Z, e, (__uint64_t*)&v);
}
static Val V(uint64_t c) { return Val(c); }
// wrap a BV/Bool term of width n, folding constants
static Val vBV(const Ex& e, unsigned n, bool ud = false) {
    Val r;
    if (n == 1) {
        Z3_lbool b = Z3_get_bool_value(Z, e);
        if (b != Z3_L_UNDEF) { r.c = b == Z3_L_TRUE; return r; }
    } else {
        uint64_t v;
        if (n <= 64 && isNum(e, v)) { r.c = v; return r; }
    }
    r.k = KBV; r.e = e; r.ud = ud;
    return r;
}
static Z3_sort fps(bool dbl) { return dbl ? sF64 : sF32; }
static int64_t fpExactLim(bool dbl) { return dbl ? (1ll << 53) : (1ll << 24); }
static Val vIFP(const Ex& e, int64_t lo, int64_t hi, bool dbl, bool ud = false) {
    uint64_t v;
    Val r;
    if (isNum(e, v)) { int64_t s = (int64_t)v; r.c = dbl ? ofD((double)s) : ofF((float)s); return r; }
    r.k = KIFP; r.e = e; r.lo = lo; r.hi = hi; r.ud = ud;
    return r;
}
static Val vFPA(const Ex& e, bool ud = false) { Val r; r.k = KFPA; r.e = e; r.ud = ud; return r; }
static Val vREAL(const Ex& e, bool ud = false) { Val r; r.k = KREAL; r.e = e; r.ud = ud; return r; }

// bits of a value as BV(n) (or Bool when n==1)
static bool fpBool(Z3_ast) { return false; }
static Ex bits(const Val& v, unsigned n) {
    switch (v.k) {
    case KC: return n == 1 ? (v.c & 1 ? eTrue : eFalse) : bvc(v.c, n);
    case KBV: return v.e;
    case KIFP: {
        bool dbl = n == 64;
        Ex f(Z3_mk_fpa_to_fp_signed(Z, RNE, v.e, fps(dbl)));
        return Ex(Z3_mk_fpa_to_ieee_bv(Z, f));
    }
    case KFPA: return Ex(Z3_mk_fpa_to_ieee_bv(Z, v.e));
    case KREAL: unsupported("bits of a real-mode value");
    }
    return Ex();
}
static Ex boolOf(const Val& v) { return bits(v, 1); }
static Ex fpaOf(const Val& v, bool dbl) {
    switch (v.k) {
    case KC: return Ex(dbl ? Z3_mk_fpa_to_fp_bv(Z, bvc(v.c, 64), sF64) : Z3_mk_fpa_to_fp_bv(Z, bvc(v.c, 32), sF32));
    case KBV: return Ex(Z3_mk_fpa_to_fp_bv(Z, v.e, fps(dbl)));
    case KIFP: return Ex(Z3_mk_fpa_to_fp_signed(Z, RNE, v.e, fps(dbl)));
    case KFPA: return v.e;
    case KREAL: unsupported("mixing real-mode and floating-point values");
    }
    return Ex();
}
static Ex realNum(double d) {
    if (!std::isfinite(d)) unsupported("non-finite constant in real mode");
    int ex; double m = std::frexp(d, &ex);
    int64_t mi = (int64_t)std::ldexp(m, 53); ex -= 53;
    while (mi && !(mi & 1)) { mi /= 2; ex++; }
    if (!mi) ex = 0;
    Ex r(Z3_mk_int64(Z, mi, sInt));
    r = Ex(Z3_mk_int2real(Z, r));
    string s = std::to_string(mi);
    // numeral mi * 2^ex as decimal string via Z3 rational "a/b"
    if (ex >= 0) {
        Ex p(Z3_mk_numeral(Z, "1", sReal));
        Z3_ast two = Z3_mk_numeral(Z, "2", sReal);
        Ex t(two);
        for (int i = 0; i < ex; i++) { Z3_ast a[2] = {p, t}; p = Ex(Z3_simplify(Z, Ex(Z3_mk_mul(Z, 2, a)))); }
        Z3_ast a[2] = {Z3_mk_numeral(Z, s.c_str(), sReal), p};
        Ex q(Z3_mk_mul(Z, 2, a));
        return Ex(Z3_simplify(Z, q));
    }
    if (ex > -62) return Ex(Z3_mk_numeral(Z, (s + "/" + std::to_string(1ull << -ex)).c_str(), sReal));
    Ex p(Z3_mk_numeral(Z, s.c_str(), sReal));
    Ex h(Z3_mk_numeral(Z, "1/2", sReal));
    for (int i = 0; i < -ex; i++) { Z3_ast a[2] = {p, h}; p = Ex(Z3_simplify(Z, Ex(Z3_mk_mul(Z, 2, a)))); }
    return p;
}
static Ex realOfFP(const Val& v, bool dbl) {
    if (v.k == KC) return realNum(dbl ? asD(v.c) : (double)asF(v.c));
    if (v.k == KREAL) return v.e;
    if (v.k == KIFP) return Ex(Z3_mk_int2real(Z, Ex(Z3_mk_bv2int(Z, v.e, true))));
    unsupported("floating-point bits used in real mode");
}
static Ex realOfInt(const Val& v, unsigned n) {
    if (v.k == KC) return Ex(Z3_mk_int2real(Z, Ex(Z3_mk_int64(Z, sx64(v.c, n), sInt))));
    if (v.k == KREAL) return v.e;
    if (v.k == KBV && n > 1) return Ex(Z3_mk_int2real(Z, Ex(Z3_mk_bv2int(Z, v.e, true))));
    unsupported("boolean used in real mode");
}

// ------------------------------------------------------------------ solver
static Z3_solver solBV, solGen;
static vector<Ex> assertedBV, assertedGen;
static bool nonBVterm(Z3_ast root) {
    static std::unordered_map<unsigned, std::pair<Ex, bool>> memo;
    vector<Z3_ast> stk{root};
    // iterative post-order
    std::function<bool(Z3_ast)> rec = [&](Z3_ast a) -> bool {
        auto it = memo.find(astid(a));
        if (it != memo.end()) return it->second.second;
        bool r = false;
        Z3_sort s = Z3_get_sort(Z, a);
        Z3_sort_kind sk = Z3_get_sort_kind(Z, s);
        if (sk != Z3_BV_SORT && sk != Z3_BOOL_SORT) r = true;
        else if (Z3_get_ast_kind(Z, a) == Z3_APP_AST) {
            Z3_app ap = Z3_to_app(Z, a);
            unsigned n = Z3_get_app_num_args(Z, ap);
            if (n && Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_UNINTERPRETED) r = true;
            for (unsigned i = 0; i < n && !r; i++) r = rec(Z3_get_app_arg(Z, ap, i));
        }
        memo[astid(a)] = {Ex(a), r};
        return r;
    };
    if (memo.size() > 2000000) memo.clear();
    return rec(root);
}
static Z3_tactic tactic(std::initializer_list<const char*> ns) {
    Z3_tactic r = nullptr;
    for (auto n : ns) {
        Z3_tactic t = Z3_mk_tactic(Z, n); Z3_tactic_inc_ref(Z, t);
        if (r) { t = Z3_tactic_and_then(Z, r, t); Z3_tactic_inc_ref(Z, t); }
        r = t;
    }
    return r;
}
static Z3_solver mkBV() {
    Z3_solver s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
    Z3_solver_inc_ref(Z, s);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), 0);
    Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p);
    return s;
}
static void setRlimit(Z3_solver s, uint64_t l) {
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "rlimit"), (unsigned)std::min<uint64_t>(l, 4000000000u));
    Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p);
}
static void syncSolver(Z3_solver s, vector<Ex>& as, const vector<Ex>& pc) {
    size_t i = 0;
    while (i < as.size() && i < pc.size() && as[i].a == pc[i].a) i++;
    if (as.size() > i) { Z3_solver_pop(Z, s, as.size() - i); as.resize(i); }
    for (; i < pc.size(); i++) { Z3_solver_push(Z, s); Z3_solver_assert(Z, s, pc[i]); as.push_back(pc[i]); }
}
static bool termNonBV(const Ex& e) { return e && nonBVterm(e); }

// check PC /\ extra; on sat store model
static Z3_lbool solve(State& st, const Ex& extra, std::shared_ptr<Model>* mdl) {
    bool nb = st.nonbv || termNonBV(extra);
    double t = now();
    Z3_lbool r = Z3_L_UNDEF;
    S.queries++;
    if (!nb) {
        syncSolver(solBV, assertedBV, st.pc);
        setRlimit(solBV, optRlimit / 25);
        if (extra) { Z3_ast x[1] = {extra}; 
            // assumptions must be literals: use push/assert
            Z3_solver_push(Z, solBV); Z3_solver_assert(Z, solBV, x[0]); }
        r = Z3_solver_check(Z, solBV);
        if (r == Z3_L_TRUE && mdl) *mdl = std::make_shared<Model>(Z3_solver_get_model(Z, solBV));
        if (extra) Z3_solver_pop(Z, solBV, 1);
        if (r == Z3_L_UNDEF && now() < Deadline + 5) {  // fresh, non-incremental solver with full preprocessing
            static Z3_tactic tac = nullptr;
            if (!tac) tac = tactic({"simplify", "qfbv"});
            Z3_solver f = Z3_mk_solver_from_tactic(Z, tac);
            Z3_solver_inc_ref(Z, f);
            setRlimit(f, optRlimit);
            for (auto& c : st.pc) Z3_solver_assert(Z, f, c);
            if (extra) Z3_solver_assert(Z, f, extra);
            r = Z3_solver_check(Z, f);
            if (r == Z3_L_TRUE && mdl) *mdl = std::make_shared<Model>(Z3_solver_get_model(Z, f));
            Z3_solver_dec_ref(Z, f);
        }
    } else {
        syncSolver(solGen, assertedGen, st.pc);
        setRlimit(solGen, optRlimit / 10);
        if (extra) { Z3_solver_push(Z, solGen); Z3_solver_assert(Z, solGen, extra); }
        r = Z3_solver_check(Z, solGen);
        if (r == Z3_L_TRUE && mdl) *mdl = std::make_shared<Model>(Z3_solver_get_model(Z, solGen));
        if (extra) Z3_solver_pop(Z, solGen, 1);
        if (r == Z3_L_UNDEF && now() < Deadline) {  // fresh, non-incremental (tactic) solver with the full budget
            static Z3_tactic tac = nullptr;
            if (!tac) tac = optReal ? tactic({"qfnra"}) : tactic({"simplify", "solve-eqs", "qffpbv"});
            Z3_solver f = Z3_mk_solver_from_tactic(Z, tac);
            Z3_solver_inc_ref(Z, f);
            setRlimit(f, optRlimit);
            for (auto& c : st.pc) Z3_solver_assert(Z, f, c);
            if (extra) Z3_solver_assert(Z, f, extra);
            r = Z3_solver_check(Z, f);
            if (r == Z3_L_TRUE && mdl) *mdl = std::make_shared<Model>(Z3_solver_get_model(Z, f));
            Z3_solver_dec_ref(Z, f);
        }
    }
    double dt = now() - t;
    S.solver += dt;
    static bool verify = getenv("SX_VERIFY") != nullptr;
    if (verify && r == Z3_L_TRUE && mdl) {
        auto bad = [&](const Ex& c) { Z3_ast o; Z3_model_eval(Z, (*mdl)->m, c, true, &o); Ex k(o); return Z3_get_bool_value(Z, k) != Z3_L_TRUE; };
        for (auto& c : st.pc) if (bad(c)) fprintf(stderr, "MODEL WRONG nb=%d %s\n", nb, string(Z3_ast_to_string(Z, c)).substr(0, 400).c_str());
        if (extra && bad(extra)) fprintf(stderr, "MODEL WRONG extra nb=%d\n", nb);
    }
    static const char* slow = getenv("SX_SLOW");
    if (slow && dt > atof(slow)) {
        fprintf(stderr, "slow query %.2fs r=%d nb=%d pc=%zu fn=%s\n", dt, r, nb, st.pc.size(),
                st.st.empty() ? "" : demangle(st.st.back().f->F->getName().str()).c_str());
        if (getenv("SX_DUMP")) {
            static int k = 0;
            Z3_solver f = Z3_mk_solver(Z); Z3_solver_inc_ref(Z, f);
            for (auto& c : st.pc) Z3_solver_assert(Z, f, c);
            if (extra) Z3_solver_assert(Z, f, extra);
            string fn = string(getenv("SX_DUMP")) + "." + std::to_string(getpid()) + "." + std::to_string(k++) + ".smt2";
            if (FILE* o = fopen(fn.c_str(), "w")) { fprintf(o, "%s\n(check-sat)\n", Z3_solver_to_string(Z, f)); fclose(o); }
            Z3_solver_dec_ref(Z, f);
        }
    }
    if (r == Z3_L_TRUE) S.sat++; else if (r == Z3_L_FALSE) S.unsat++; else S.unknown++;
    return r;
}
static int evalBool(State& st, const Ex& c) {
    if (!st.model) return -1;
    Z3_ast o = nullptr;
    if (!Z3_model_eval(Z, st.model->m, c, true, &o)) return -1;
    Ex r(o);
    Z3_lbool b = Z3_get_bool_value(Z, r);
    if (b == Z3_L_UNDEF) return -1;
    return b == Z3_L_TRUE;
}
static bool evalBV(const std::shared_ptr<Model>& m, const Ex& e, uint64_t& v) {
    Z3_ast o = nullptr;
    if (!m || !Z3_model_eval(Z, m->m, e, true, &o)) return false;
    Ex r(o);
    if (isNum(r, v)) return true;
    r = Ex(Z3_simplify(Z, r));
    return isNum(r, v);
}
static void addPC(State& st, const Ex& c) {
    Z3_lbool b = Z3_get_bool_value(Z, c);
    if (b == Z3_L_TRUE) return;
    if (b == Z3_L_FALSE) throw PathEnd{PE_INFEASIBLE};
    auto it = st.known.find(astid(c));
    if (it != st.known.end() && it->second.second) return;
    st.pc.push_back(c);
    if (!st.nonbv && nonBVterm(c)) st.nonbv = true;
    st.known[astid(c)] = {c, true};
    Ex n = boolNot(c);
    st.known[astid(n)] = {n, false};
}
static void ensureModel(State& st) {
    if (st.model) return;
    Z3_lbool r = solve(st, Ex(), &st.model);
    if (r == Z3_L_FALSE) throw PathEnd{PE_INFEASIBLE};
    if (r == Z3_L_UNDEF) { S.incomplete++; throw PathEnd{PE_LIMIT}; }
}

static vector<std::unique_ptr<State>> work;
static void spawnMaybe();

struct Forked { std::shared_ptr<Model> mF; };
// decide condition c in state st: 1 only true, 0 only false, 2 both (model of the state satisfies `mval`, other model in om)
static int decide(State& st, const Ex& c0, bool& mval, std::shared_ptr<Model>& om) {
    Ex c = c0;
    Z3_lbool b = Z3_get_bool_value(Z, c);
    if (b != Z3_L_UNDEF) return b == Z3_L_TRUE;
    auto it = st.known.find(astid(c));
    if (it != st.known.end()) return it->second.second;
    c = Ex(Z3_simplify(Z, c0));
    b = Z3_get_bool_value(Z, c);
    if (b != Z3_L_UNDEF) return b == Z3_L_TRUE;
    it = st.known.find(astid(c));
    if (it != st.known.end()) return it->second.second;
    ensureModel(st);
    int v = evalBool(st, c);
    if (v < 0) {
        st.model.reset();
        Z3_lbool r = solve(st, c, &st.model);
        if (r == Z3_L_TRUE) v = 1;
        else if (r == Z3_L_FALSE) { return 0; }
        else { S.incomplete++; throw PathEnd{PE_LIMIT}; }
    } else S.modelhits++;
    mval = v;
    Z3_lbool r = solve(st, v ? boolNot(c) : c, &om);
    if (r == Z3_L_FALSE) {
        st.known[astid(c)] = {c, (bool)v};
        st.known[astid(c0)] = {c0, (bool)v};
        return v;
    }
    if (r == Z3_L_UNDEF) { S.incomplete++; /* explore only the known-feasible side; recorded as incomplete */
        addPC(st, v ? c : boolNot(c)); return v; }
    return 2;
}
static void reportError(State& st, const string& kind, const string& id, const string& msg, const std::shared_ptr<Model>& m);

// Branch: returns the truth value taken in the current state; pushes the other side (which will re-execute the current
// instruction with the opposite literal known).
static string stackStr(State& st);
static bool branch(State& st, const Ex& c) {
    bool mv = true; std::shared_ptr<Model> om;
    int d = decide(st, c, mv, om);
    if (d != 2) return d;
    S.forks++;
    static const bool showForks = getenv("SX_FORKS") != nullptr;
    if (showForks) fprintf(stderr, "fork %s\n", stackStr(st).c_str());
    auto o = std::make_unique<State>(st);
    o->model = om;
    o->depth++; st.depth++;
    st.trail = (st.trail ^ (mv ? 3 : 5)) * 1099511628211ull;
    o->trail = (o->trail ^ (mv ? 5 : 3)) * 1099511628211ull;
    addPC(*o, mv ? boolNot(c) : c);
    addPC(st, mv ? c : boolNot(c));
    // simplified form may differ from c: remember both
    st.known[astid(c)] = {c, mv};
    o->known[astid(c)] = {c, !mv};
    work.push_back(std::move(o));
    spawnMaybe();
    return mv;
}
static bool branchVal(State& st, const Val& v, const char* what = "branch") {
    if (v.k == KC) return v.c & 1;
    if (v.ud && optUninit) {
        bool mv; std::shared_ptr<Model> om;
        int d = decide(st, v.e, mv, om);
        if (d != 2) return d;
        reportError(st, "uninit", "memory", string("decision depends on uninitialised memory (") + what + ")", st.model);
        throw PathEnd{PE_ERROR};
    }
    return branch(st, v.e);
}
// fork over all feasible values of an integer value; returns the value in this state
static uint64_t concretize(State& st, const Val& v, unsigned n) {
    if (v.k == KC) return mask(v.c, n);
    if (v.k == KREAL) {
        for (;;) {
            ensureModel(st);
            Z3_ast o; if (!Z3_model_eval(Z, st.model->m, v.e, true, &o)) unsupported("eval real");
            Ex r(o);
            int64_t num, den;
            if (Z3_get_ast_kind(Z, r) != Z3_NUMERAL_AST || !Z3_get_numeral_rational_int64(Z, r, (__int64_t*)&num, (__int64_t*)&den) || den != 1) unsupported("non-integer real as integer");
            Ex c = mkEq(v.e, Ex(Z3_mk_int2real(Z, Ex(Z3_mk_int64(Z, num, sInt)))));
            if (branch(st, c)) return mask((uint64_t)num, n);
        }
    }
    if (n == 1) return branchVal(st, v, "value");
    Ex e = bits(v, n);
    for (;;) {
        ensureModel(st);
        uint64_t x;
        if (!evalBV(st.model, e, x)) {
            st.model.reset(); ensureModel(st);
            if (!evalBV(st.model, e, x)) unsupported("cannot evaluate value in model");
        }
        if (branch(st, mkEq(e, bvc(x, n)))) return x;
    }
}

// ------------------------------------------------------------------ reporting
static string hex(uint64_t v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
static string modelJson(State& st, const std::shared_ptr<Model>& m) {
    string r = "{";
    bool first = true;
    for (auto& s : st.syms) {
        uint64_t v = 0;
        bool ok = true;
        if (s.v.k == KC) v = s.v.c;
        else if (!m) ok = false;
        else if (s.v.k == KBV && Z3_get_sort_kind(Z, Z3_get_sort(Z, s.v.e)) == Z3_BOOL_SORT) {
            Z3_ast o; ok = Z3_model_eval(Z, m->m, s.v.e, true, &o);
            if (ok) { Ex e(o); v = Z3_get_bool_value(Z, e) == Z3_L_TRUE; }
        } else if (s.v.k == KBV) ok = evalBV(m, s.v.e, v);
        else if (s.v.k == KIFP) {
            ok = evalBV(m, s.v.e, v);
            if (ok) v = s.bits == 64 ? ofD((double)(int64_t)v) : ofF((float)(int64_t)v);
        } else if (s.v.k == KREAL) {
            Z3_ast o; ok = Z3_model_eval(Z, m->m, s.v.e, true, &o);
            if (ok) {
                Ex e(o);
                if (Z3_get_ast_kind(Z, e) != Z3_NUMERAL_AST && Z3_is_algebraic_number(Z, e)) e = Ex(Z3_get_algebraic_number_lower(Z, e, 20));
                string ns = Z3_get_numeral_decimal_string(Z, e, 30);
                double d = atof(ns.c_str());
                v = s.fp ? (s.bits == 64 ? ofD(d) : ofF((float)d)) : (uint64_t)(int64_t)d;
            }
        } else ok = false;
        if (!ok) continue;
        if (!first) r += ",";
        first = false;
        r += "\"" + jesc(s.name) + "\":\"" + hex(v) + "\"";
    }
    return r + "}";
}
static string stackStr(State& st) {
    string r;
    int n = 0;
    for (int i = (int)st.st.size() - 1; i >= 0 && n < 12; i--, n++) {
        Frame& fr = st.st[i];
        const Instruction* I = fr.bb < (int)fr.f->bbs.size() && fr.pc < (int)fr.f->bbs[fr.bb].size() ? fr.f->bbs[fr.bb][fr.pc].I : nullptr;
        if (I && I->getDebugLoc()) {
            const DILocation* L = I->getDebugLoc().get();
            while (L && n < 12) {
                string fn = L->getFilename().str();
                size_t sl = fn.rfind('/');
                string nm = L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : "?";
                r += nm + "@" + (sl == string::npos ? fn : fn.substr(sl + 1)) + ":" + std::to_string(L->getLine()) + " < ";
                L = L->getInlinedAt(); n++;
            }
            continue;
        }
        r += demangle(st.st[i].f->F->getName().str()).substr(0, 160) + " < ";
    }
    return r;
}
// With decimal links outstanding a model may pair numbers with wrong digits: look for one that does not.
// 1: model found (or none needed), 0: there is none, so the situation is impossible, -1: not decided
static int linked(State& st, const Ex& extra, std::shared_ptr<Model>& m) {
    if (st.links.empty()) return 1;
    auto keepPC = st.pc; bool nb = st.nonbv;
    for (auto& l : st.links) st.pc.push_back(l);
    std::shared_ptr<Model> mm;
    Z3_lbool r = solve(st, extra, &mm);
    st.pc = keepPC; st.nonbv = nb;
    if (r == Z3_L_TRUE) { m = mm; return 1; }
    return r == Z3_L_FALSE ? 0 : -1;
}
static std::set<string> seenErr;
static void reportError(State& st, const string& kind, const string& id, const string& msg, const std::shared_ptr<Model>& m) {
    // two reports per (kind, check id, message) per process are enough
    string key = kind + "|" + id + "|" + msg;
    static std::map<string, int> cnt;
    if (cnt[key]++ >= 2) return;
    std::shared_ptr<Model> mm = m;
    if (!mm) { try { ensureModel(st); mm = st.model; } catch (PathEnd&) {} }
    if (kind != "check" && linked(st, Ex(), mm) == 0) { cnt[key]--; return; }
    fprintf(outf, "{\"t\":\"err\",\"kind\":\"%s\",\"id\":\"%s\",\"msg\":\"%s\",\"stack\":\"%s\",\"model\":%s}\n", jesc(kind).c_str(),
            jesc(id).c_str(), jesc(msg).c_str(), jesc(stackStr(st)).c_str(), modelJson(st, mm).c_str());
    fflush(outf);
    if (__sync_add_and_fetch(&SH->errs, 1) >= optMaxErr) SH->stop = 1;
}
[[noreturn]] static void memError(State& st, const string& msg, const std::shared_ptr<Model>& m = nullptr) {
    reportError(st, "memory", "memory", msg, m);
    throw PathEnd{PE_ERROR};
}

// ------------------------------------------------------------------ memory
static std::map<uint64_t, Obj> gconst;  // read-only globals, shared by all states
static Obj* findObj(State& st, uint64_t a, bool write) {
    auto it = st.mem.upper_bound(a);
    if (it != st.mem.begin()) {
        --it;
        if (a - it->second.base < it->second.size || (a == it->second.base)) return &it->second;
    }
    auto g = gconst.upper_bound(a);
    if (g != gconst.begin()) {
        --g;
        if (a - g->second.base < g->second.size) return &g->second;
    }
    (void)write;
    return nullptr;
}
static Obj& allocObj(State& st, uint64_t size, OK kind, const Instruction* site = nullptr, uint64_t align = 16) {
    if (size > (1ull << 28)) unsupported("allocation larger than 256 MB");
    if (align < 16) align = 16;
    uint64_t base = (st.next + align - 1) / align * align;
    st.next = base + size + 64;
    Obj o;
    o.base = base; o.size = size; o.kind = kind; o.site = site; o.seq = st.seq++;
    o.d = std::make_shared<Data>();
    o.d->b.resize(size); o.d->st.resize(size);
    return st.mem[base] = std::move(o);
}
static Data& wdata(Obj& o) {
    if (o.d.use_count() > 1) o.d = std::make_shared<Data>(*o.d);
    return *o.d;
}
static Ex extractByte(const Val& v, unsigned sizeBytes, unsigned i) {
    Ex e = bits(v, sizeBytes * 8);
    return Ex(Z3_mk_extract(Z, i * 8 + 7, i * 8, e));
}
static void splitSym(Data& d, uint32_t off) {  // entry starting at off -> byte entries
    auto it = d.sym.find(off);
    Sym s = it->second;
    d.sym.erase(it);
    for (unsigned i = 0; i < s.size; i++) {
        Val b = vBV(extractByte(s.v, s.size, i), 8, s.v.ud);
        if (b.conc()) { d.b[off + i] = b.c; d.st[off + i] = 1; }
        else { d.sym[off + i] = Sym{1, b}; d.st[off + i] = 2; }
    }
}
static void clearRange(Data& d, uint32_t off, uint32_t n) {  // no symbolic entry overlaps [off,off+n) afterwards
    if (d.sym.empty()) return;
    uint32_t s = off;
    while (s > 0 && d.st[s] == 3) s--;
    if (s < off && d.st[off] == 3) splitSym(d, s);
    uint32_t e = off + n;
    if (e < d.st.size() && d.st[e] == 3) {
        s = e;
        while (s > 0 && d.st[s] == 3) s--;
        if (s >= off) splitSym(d, s); else splitSym(d, s);
    }
    auto it = d.sym.lower_bound(off);
    while (it != d.sym.end() && it->first < e) it = d.sym.erase(it);
}
static unsigned undefCnt = 0;
static void storeAt(Obj& o, uint64_t off, const Val& v, uint32_t n, unsigned nbits) {
    Data& d = wdata(o);
    clearRange(d, off, n);
    if (v.k == KC) {
        uint64_t c = v.c;
        for (uint32_t i = 0; i < n; i++) { d.b[off + i] = i < 8 ? (c >> (8 * i)) : 0; d.st[off + i] = 1; }
        return;
    }
    Val w = v;
    if (v.k == KBV && nbits == 1) w.e = mkIte(v.e, bvc(1, n * 8), bvc(0, n * 8));
    else if (v.k == KBV && nbits < n * 8) w.e = Ex(Z3_mk_zero_ext(Z, n * 8 - nbits, v.e));
    d.sym[off] = Sym{n, w};
    d.st[off] = 2;
    for (uint32_t i = 1; i < n; i++) d.st[off + i] = 3;
}
static Val loadAt(Obj& o, uint64_t off, uint32_t n, unsigned nbits) {
    Data& d = *o.d;
    bool allc = true;
    for (uint32_t i = 0; i < n; i++) if (d.st[off + i] != 1) { allc = false; break; }
    if (allc) {
        uint64_t c = 0;
        for (uint32_t i = 0; i < n && i < 8; i++) c |= (uint64_t)d.b[off + i] << (8 * i);
        if (n > 8) unsupported("wide load");
        return Val(mask(c, nbits));
    }
    if (d.st[off] == 2) {
        auto it = d.sym.find(off);
        if (it != d.sym.end() && it->second.size == n) {
            Val v = it->second.v;
            if (nbits < n * 8 && v.k != KC) {
                if (v.k != KBV) v = vBV(bits(v, n * 8), n * 8, v.ud);
                if (nbits == 1) {
                    Ex b(Z3_mk_extract(Z, 0, 0, v.e));
                    return vBV(Ex(Z3_simplify(Z, mkEq(b, bvc(1, 1)))), 1, v.ud);
                }
                return vBV(Ex(Z3_simplify(Z, Ex(Z3_mk_extract(Z, nbits - 1, 0, v.e)))), nbits, v.ud);
            }
            return v;
        }
    }
    // general: assemble bytes, most significant first
    bool anyu = false, allu = true;
    for (uint32_t i = 0; i < n; i++) { if (d.st[off + i] == 0) anyu = true; else allu = false; }
    if (allu) {
        Data& w = wdata(o);
        string nm = "undef!" + std::to_string(getpid()) + "_" + std::to_string(undefCnt++);
        Val v;
        if (n <= 8) {
            v.k = KBV; v.ud = true;
            v.e = Ex(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), sBV(n * 8)));
            w.sym[off] = Sym{n, v};
            w.st[off] = 2;
            for (uint32_t i = 1; i < n; i++) w.st[off + i] = 3;
            return loadAt(o, off, n, nbits);
        }
        unsupported("wide uninitialised load");
    }
    (void)anyu;
    Ex acc; bool ud = false;
    for (int i = (int)n - 1; i >= 0; i--) {
        Ex b;
        uint32_t p = off + i;
        if (d.st[p] == 1) b = bvc(d.b[p], 8);
        else if (d.st[p] == 0) {
            Data& w = wdata(o);
            string nm = "undef!" + std::to_string(getpid()) + "_" + std::to_string(undefCnt++);
            Val v; v.k = KBV; v.ud = true;
            v.e = Ex(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), sBV(8)));
            w.sym[p] = Sym{1, v}; w.st[p] = 2;
            return loadAt(o, off, n, nbits);
        } else {
            uint32_t s = p;
            while (d.st[s] == 3) s--;
            auto& sy = d.sym.at(s);
            ud |= sy.v.ud;
            b = extractByte(sy.v, sy.size, p - s);
        }
        acc = acc ? Ex(Z3_mk_concat(Z, acc, b)) : b;
    }
    acc = Ex(Z3_simplify(Z, acc));
    if (nbits < n * 8) {
        if (nbits == 1) return vBV(Ex(Z3_simplify(Z, mkEq(Ex(Z3_mk_extract(Z, 0, 0, acc)), bvc(1, 1)))), 1, ud);
        acc = Ex(Z3_mk_extract(Z, nbits - 1, 0, acc));
    }
    return vBV(acc, nbits, ud);
}
static const char* kindName(OK k) {
    static const char* n[] = {"global", "stack", "malloc", "new", "new[]", "function", "exception"};
    return n[k];
}
static string describe(State& st, uint64_t a) {
    if (a < 4096) return "null pointer (address " + hex(a) + ")";
    auto it = st.mem.upper_bound(a);
    if (it != st.mem.begin()) {
        --it;
        Obj& o = it->second;
        if (a - o.base <= o.size + 64) {
            string s = string(kindName(o.kind)) + " block of " + std::to_string(o.size) + " bytes, offset " + std::to_string((int64_t)(a - o.base));
            if (!o.alive) s += ", already freed";
            return s;
        }
    }
    return "unmapped address";
}
static void ompLog(State& st, uint64_t a, uint32_t n, bool w, Obj* o, const Instruction* I);
// resolve address for an access of n bytes; returns the object (all feasible addresses lie in it)
static Obj* access(State& st, const Val& p, uint64_t n, bool write, uint64_t& off, Ex* symoff) {
    if (p.k == KC) {
        Obj* o = findObj(st, p.c, write);
        if (!o || !o->alive || p.c - o->base + n > o->size || (write && o->ro))
            memError(st, string(write ? "invalid write" : "invalid read") + " of " + std::to_string(n) + " bytes: " + describe(st, p.c));
        if (o->kind == OFUNC) memError(st, "access to code");
        off = p.c - o->base;
        if (symoff) *symoff = Ex();
        return o;
    }
    // symbolic address
    if (p.ud && optUninit) {
        reportError(st, "uninit", "memory", "address depends on uninitialised memory", st.model);
        throw PathEnd{PE_ERROR};
    }
    Ex e = bits(p, 64);
    for (;;) {
        ensureModel(st);
        uint64_t a;
        if (!evalBV(st.model, e, a)) unsupported("address evaluation");
        Obj* o = findObj(st, a, write);
        if (!o || !o->alive || a - o->base + n > o->size || (write && o->ro) || o->size < n) {
            reportError(st, "memory", "memory", string(write ? "invalid write" : "invalid read") + " of " + std::to_string(n) + " bytes: " + describe(st, a), st.model);
            // continue on the paths where this address is not used: constrain to the neighbourhood being valid
            // restrict to some valid object if possible
            Ex ne = boolNot(mkEq(e, bvc(a, 64)));
            // try to exclude the whole invalid region quickly: require an in-bounds address of the nearest object
            (void)ne;
            throw PathEnd{PE_ERROR};
        }
        uint64_t lo = o->base, hi = o->base + o->size - n;
        Ex inb = mkAnd(Ex(Z3_mk_bvuge(Z, e, bvc(lo, 64))), Ex(Z3_mk_bvule(Z, e, bvc(hi, 64))));
        uint64_t base = o->base;
        if (!branch(st, inb)) continue;
        o = findObj(st, base, write);
        if (symoff) { *symoff = Ex(Z3_simplify(Z, Ex(Z3_mk_bvsub(Z, e, bvc(base, 64))))); off = 0; return o; }
        uint64_t c = concretize(st, p, 64);
        o = findObj(st, c, write);
        off = c - o->base;
        return o;
    }
}
static Val mkSelect(const Ex& c, const Val& a, const Val& b, unsigned n, int fp);
static unsigned storeSize(Type* t) { return DL->getTypeStoreSize(t); }
static unsigned bitsOf(Type* t) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isX86_FP80Ty()) return 80;
    string s; raw_string_ostream os(s); t->print(os);
    unsupported("type " + s);
}
static int fpKind(Type* t) { return t->isDoubleTy() ? 2 : t->isFloatTy() ? 1 : 0; }

static RV loadRV(State& st, const Val& p, Type* t, const Instruction* I);
static void storeRV(State& st, const Val& p, const RV& v, Type* t, const Instruction* I);

static Val addOff(const Val& p, uint64_t o) {
    if (o == 0) return p;
    if (p.k == KC) return Val(p.c + o);
    return vBV(Ex(Z3_mk_bvadd(Z, bits(p, 64), bvc(o, 64))), 64, p.ud);
}
static Val loadScalar(State& st, const Val& p, unsigned nb, int fp, const Instruction* I) {
    uint32_t n = (nb + 7) / 8;
    uint64_t off; Ex so;
    Obj* o = access(st, p, n, false, off, &so);
    if (!so) {
        if (st.omp.active) ompLog(st, o->base + off, n, false, o, I);
        return loadAt(*o, off, n, nb);
    }
    // symbolic offset within one object: enumerate feasible offsets into an ite chain
    if (st.omp.active) { uint64_t c = concretize(st, p, 64); o = findObj(st, c, false); ompLog(st, c, n, false, o, I); return loadAt(*o, c - o->base, n, nb); }
    vector<uint64_t> offs;
    State& s2 = st;
    size_t mark = s2.pc.size();
    Ex block = eTrue;
    bool ok = true;
    for (;;) {
        std::shared_ptr<Model> m;
        Z3_lbool r = solve(st, block, &m);
        if (r == Z3_L_FALSE) break;
        uint64_t x;
        if (r == Z3_L_UNDEF || !evalBV(m, so, x) || offs.size() >= 300) { ok = false; break; }
        offs.push_back(x);
        block = mkAnd(block, boolNot(mkEq(so, bvc(x, 64))));
    }
    (void)mark;
    if (!ok || offs.empty()) {
        uint64_t c = concretize(st, p, 64);
        o = findObj(st, c, false);
        return loadAt(*o, c - o->base, n, nb);
    }
    std::sort(offs.begin(), offs.end());
    uint64_t base = o->base;
    Val acc = loadAt(*o, offs[0], n, nb);
    for (size_t i = 1; i < offs.size(); i++) {
        o = findObj(st, base, false);
        Val v = loadAt(*o, offs[i], n, nb);
        acc = mkSelect(mkEq(so, bvc(offs[i], 64)), v, acc, nb, fp);
    }
    return acc;
}
static void storeScalar(State& st, const Val& p, const Val& v, unsigned nb, const Instruction* I) {
    uint32_t n = (nb + 7) / 8;
    uint64_t off;
    Obj* o = access(st, p, n, true, off, nullptr);
    if (st.omp.active) ompLog(st, o->base + off, n, true, o, I);
    storeAt(*o, off, v, n, nb);
}
static RV loadRV(State& st, const Val& p, Type* t, const Instruction* I) {
    if (auto* s = dyn_cast<StructType>(t)) {
        RV r; r.agg = std::make_shared<vector<RV>>();
        auto* L = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) r.agg->push_back(loadRV(st, addOff(p, L->getElementOffset(i)), s->getElementType(i), I));
        return r;
    }
    if (t->isArrayTy() || t->isVectorTy()) {
        Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        RV r; r.agg = std::make_shared<vector<RV>>();
        for (unsigned i = 0; i < n; i++) r.agg->push_back(loadRV(st, addOff(p, i * DL->getTypeAllocSize(et)), et, I));
        return r;
    }
    return RV(loadScalar(st, p, bitsOf(t), fpKind(t), I));
}
static void storeRV(State& st, const Val& p, const RV& v, Type* t, const Instruction* I) {
    if (auto* s = dyn_cast<StructType>(t)) {
        auto* L = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); i++) storeRV(st, addOff(p, L->getElementOffset(i)), (*v.agg)[i], s->getElementType(i), I);
        return;
    }
    if (t->isArrayTy() || t->isVectorTy()) {
        Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; i++) storeRV(st, addOff(p, i * DL->getTypeAllocSize(et)), (*v.agg)[i], et, I);
        return;
    }
    storeScalar(st, p, v.v, bitsOf(t), I);
}
static void ompLog(State& st, uint64_t a, uint32_t n, bool w, Obj* o, const Instruction* I) {
    if (o->kind == OSTACK && o->seq >= (uint32_t)st.omp.epoch) return;  // allocated inside the region: thread private
    auto& lg = st.omp.log[st.omp.tid];
    if (lg.empty()) lg.emplace_back();
    for (uint32_t i = 0; i < n; i++) {
        auto& e = lg.back()[a + i];
        e.first |= (w ? 2 : 1) << (st.omp.crit ? 2 : 0);  // accesses under a lock, or atomic ones, conflict only with the others
        if (!e.second || w) e.second = I;
    }
}

// ------------------------------------------------------------------ arithmetic
static Val mkSelect(const Ex& c, const Val& a, const Val& b, unsigned n, int fp) {
    bool ud = a.ud || b.ud;
    if (a.k == KC && b.k == KC && a.c == b.c) return a;
    if (a.k == KREAL || b.k == KREAL) {
        Ex x = fp ? realOfFP(a, n == 64) : realOfInt(a, n), y = fp ? realOfFP(b, n == 64) : realOfInt(b, n);
        return vREAL(mkIte(c, x, y), ud);
    }
    bool dbl = n == 64;
    auto asI = [&](const Val& v, Ex& e, int64_t& lo, int64_t& hi) {
        if (v.k == KIFP) { e = v.e; lo = v.lo; hi = v.hi; return true; }
        if (v.k == KC) {
            double d = dbl ? asD(v.c) : (double)asF(v.c);
            if (std::isfinite(d) && d == std::floor(d) && std::fabs(d) < (double)fpExactLim(dbl) && !(d == 0 && std::signbit(d))) {
                lo = hi = (int64_t)d; e = bvc((uint64_t)lo, 64); return true;
            }
        }
        return false;
    };
    if (a.k == KIFP || b.k == KIFP) {
        Ex x, y; int64_t l1, h1, l2, h2;
        if (asI(a, x, l1, h1) && asI(b, y, l2, h2)) return vIFP(mkIte(c, x, y), std::min(l1, l2), std::max(h1, h2), dbl, ud);
        return vFPA(mkIte(c, fpaOf(a, dbl), fpaOf(b, dbl)), ud);
    }
    if (a.k == KFPA || b.k == KFPA) return vFPA(mkIte(c, fpaOf(a, dbl), fpaOf(b, dbl)), ud);
    if (n == 1) {
        if (a.k == KC && b.k == KC) return vBV(a.c ? c : boolNot(c), 1, ud);
        if (a.k == KC) return vBV(a.c ? mkOr(c, b.e) : mkAnd(boolNot(c), b.e), 1, ud);
        if (b.k == KC) return vBV(b.c ? mkOr(boolNot(c), a.e) : mkAnd(c, a.e), 1, ud);
    }
    return vBV(mkIte(c, bits(a, n), bits(b, n)), n, ud);
}
static bool isITE(const Ex& e, Ex& c, Ex& x, Ex& y) {
    if (Z3_get_ast_kind(Z, e) != Z3_APP_AST) return false;
    Z3_app ap = Z3_to_app(Z, e);
    if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) != Z3_OP_ITE) return false;
    c = Ex(Z3_get_app_arg(Z, ap, 0)); x = Ex(Z3_get_app_arg(Z, ap, 1)); y = Ex(Z3_get_app_arg(Z, ap, 2));
    return true;
}
// Division of x by the constant c when x is known (by the path condition) to lie in a small non-negative interval: the
// division is then done on the offset into the interval, with few bits.
static bool narrowDiv(State& st, unsigned opc, const Ex& x, uint64_t c, unsigned n, Ex& r) {
    if (c < 2 || c >= (1ull << 31) || st.nonbv) return false;
    if ((c & (c - 1)) == 0 && (opc == Instruction::UDiv || opc == Instruction::URem)) return false;
    auto it = st.range.find(astid(x));
    if (it == st.range.end()) {
        State::Range g{x, 0, 0};
        uint64_t v;
        ensureModel(st);
        if (evalBV(st.model, x, v) && (n == 64 ? (int64_t)v >= 0 : v < (1ull << (n - 1)))) {
            for (unsigned w : {32u, 20u, 12u}) {
                if (w >= n) continue;
                uint64_t half = 1ull << (w - 1), lo = v < half ? 0 : v - half;
                if (lo + (1ull << w) >= (1ull << (n - 1))) continue;
                Ex in(Z3_mk_bvult(Z, Ex(Z3_mk_bvsub(Z, x, bvc(lo, n))), bvc(1ull << w, n)));
                if (solve(st, boolNot(in), nullptr) != Z3_L_FALSE) break;
                g.lo = lo; g.w = w;
            }
        }
        it = st.range.emplace(astid(x), g).first;
    }
    const auto& g = it->second;
    if (!g.w) return false;
    unsigned m = g.w + 1; while (m < 63 && (g.lo % c + (1ull << g.w)) >> m) m++;
    unsigned k = m; while (c >> k) k++;
    if (k >= n) return false;
    Ex y(Z3_mk_extract(Z, g.w - 1, 0, Ex(Z3_mk_bvsub(Z, x, bvc(g.lo, n)))));
    y = Ex(Z3_mk_bvadd(Z, Ex(Z3_mk_zero_ext(Z, k - g.w, y)), bvc(g.lo % c, k)));
    if (opc == Instruction::UDiv || opc == Instruction::SDiv)
        r = Ex(Z3_mk_bvadd(Z, bvc(g.lo / c, n), Ex(Z3_mk_zero_ext(Z, n - k, Ex(Z3_mk_bvudiv(Z, y, bvc(c, k)))))));
    else r = Ex(Z3_mk_zero_ext(Z, n - k, Ex(Z3_mk_bvurem(Z, y, bvc(c, k)))));
    return true;
}
static Val intBin(State& st, unsigned opc, const Val& a, const Val& b, unsigned n) {
    if (a.k == KC && b.k == KC) {
        uint64_t x = mask(a.c, n), y = mask(b.c, n);
        int64_t sx = sx64(x, n), sy = sx64(y, n);
        switch (opc) {
        case Instruction::Add: return V(mask(x + y, n));
        case Instruction::Sub: return V(mask(x - y, n));
        case Instruction::Mul: return V(mask(x * y, n));
        case Instruction::And: return V(x & y);
        case Instruction::Or: return V(x | y);
        case Instruction::Xor: return V(x ^ y);
        case Instruction::Shl: return V(y >= n ? 0 : mask(x << y, n));
        case Instruction::LShr: return V(y >= n ? 0 : x >> y);
        case Instruction::AShr: return V(y >= n ? 0 : mask((uint64_t)(sx >> y), n));
        case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
            if (y == 0) { reportError(st, "div0", "arith", "integer division by zero", nullptr); throw PathEnd{PE_ERROR}; }
            if (opc == Instruction::UDiv) return V(x / y);
            if (opc == Instruction::URem) return V(x % y);
            if (sy == -1) return V(opc == Instruction::SDiv ? mask((uint64_t)0 - (uint64_t)sx, n) : 0);
            return V(mask((uint64_t)(opc == Instruction::SDiv ? sx / sy : sx % sy), n));
        }
    }
    bool ud = a.ud || b.ud;
    if (a.k == KREAL || b.k == KREAL) {
        Ex x = realOfInt(a, n), y = realOfInt(b, n);
        Z3_ast v[2] = {x, y};
        switch (opc) {
        case Instruction::Add: return vREAL(Ex(Z3_mk_add(Z, 2, v)), ud);
        case Instruction::Sub: return vREAL(Ex(Z3_mk_sub(Z, 2, v)), ud);
        case Instruction::Mul: return vREAL(Ex(Z3_mk_mul(Z, 2, v)), ud);
        }
        // fall back: make it concrete
        uint64_t ca = concretize(st, a, n), cb = concretize(st, b, n);
        return intBin(st, opc, Val(ca), Val(cb), n);
    }
    if (n == 1) {
        Ex x = boolOf(a), y = boolOf(b);
        switch (opc) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Xor:
            if (a.k == KC) return vBV(a.c ? boolNot(y) : y, 1, ud);
            if (b.k == KC) return vBV(b.c ? boolNot(x) : x, 1, ud);
            return vBV(Ex(Z3_mk_xor(Z, x, y)), 1, ud);
        case Instruction::Mul: case Instruction::And:
            if (a.k == KC) return a.c ? b : V(0);
            if (b.k == KC) return b.c ? a : V(0);
            return vBV(mkAnd(x, y), 1, ud);
        case Instruction::Or:
            if (a.k == KC) return a.c ? V(1) : b;
            if (b.k == KC) return b.c ? V(1) : a;
            return vBV(mkOr(x, y), 1, ud);
        default: unsupported("i1 arithmetic");
        }
    }
    if (b.k == KC) {
        uint64_t y = mask(b.c, n);
        if (y == 0) switch (opc) {
            case Instruction::Add: case Instruction::Sub: case Instruction::Or: case Instruction::Xor:
            case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: return a;
            case Instruction::Mul: case Instruction::And: return V(0);
            }
        if (y == 1 && (opc == Instruction::Mul || opc == Instruction::UDiv || opc == Instruction::SDiv)) return a;
        if (opc == Instruction::And && y == mask(~0ull, n)) return a;
    }
    if (a.k == KC && mask(a.c, n) == 0) switch (opc) {
        case Instruction::Add: case Instruction::Or: case Instruction::Xor: return b;
        case Instruction::Mul: case Instruction::And: return V(0);
        }
    Ex x = bits(a, n), y = bits(b, n), r;
    switch (opc) {
    case Instruction::Add: r = Ex(Z3_mk_bvadd(Z, x, y)); break;
    case Instruction::Sub: r = Ex(Z3_mk_bvsub(Z, x, y)); break;
    case Instruction::Mul: r = Ex(Z3_mk_bvmul(Z, x, y)); break;
    case Instruction::And: r = Ex(Z3_mk_bvand(Z, x, y)); break;
    case Instruction::Or: r = Ex(Z3_mk_bvor(Z, x, y)); break;
    case Instruction::Xor: r = Ex(Z3_mk_bvxor(Z, x, y)); break;
    case Instruction::Shl: r = Ex(Z3_mk_bvshl(Z, x, y)); break;
    case Instruction::LShr: r = Ex(Z3_mk_bvlshr(Z, x, y)); break;
    case Instruction::AShr: r = Ex(Z3_mk_bvashr(Z, x, y)); break;
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        if (b.k != KC) {
            Val z = vBV(mkEq(y, bvc(0, n)), 1, b.ud);
            if (branchVal(st, z)) { reportError(st, "div0", "arith", "integer division by zero", nullptr); throw PathEnd{PE_ERROR}; }
        } else if (b.c == 0) { reportError(st, "div0", "arith", "integer division by zero", nullptr); throw PathEnd{PE_ERROR}; }
        if (b.k == KC && n >= 24 && narrowDiv(st, opc, x, mask(b.c, n), n, r)) return vBV(Ex(Z3_simplify(Z, r)), n, ud);
        if (opc == Instruction::UDiv) r = Ex(Z3_mk_bvudiv(Z, x, y));
        else if (opc == Instruction::URem) r = Ex(Z3_mk_bvurem(Z, x, y));
        else if (opc == Instruction::SDiv) r = Ex(Z3_mk_bvsdiv(Z, x, y));
        else r = Ex(Z3_mk_bvsrem(Z, x, y));
        break;
    default: unsupported("integer operation");
    }
    if (Z3_get_ast_kind(Z, x) == Z3_NUMERAL_AST || Z3_get_ast_kind(Z, y) == Z3_NUMERAL_AST) r = Ex(Z3_simplify(Z, r));
    return vBV(r, n, ud);
}
static Val icmp(State& st, CmpInst::Predicate p, const Val& a, const Val& b, unsigned n) {
    if (a.k == KC && b.k == KC) {
        uint64_t x = mask(a.c, n), y = mask(b.c, n);
        int64_t sx = sx64(x, n), sy = sx64(y, n);
        bool r = false;
        switch (p) {
        case CmpInst::ICMP_EQ: r = x == y; break;
        case CmpInst::ICMP_NE: r = x != y; break;
        case CmpInst::ICMP_UGT: r = x > y; break;
        case CmpInst::ICMP_UGE: r = x >= y; break;
        case CmpInst::ICMP_ULT: r = x < y; break;
        case CmpInst::ICMP_ULE: r = x <= y; break;
        case CmpInst::ICMP_SGT: r = sx > sy; break;
        case CmpInst::ICMP_SGE: r = sx >= sy; break;
        case CmpInst::ICMP_SLT: r = sx < sy; break;
        case CmpInst::ICMP_SLE: r = sx <= sy; break;
        default: unsupported("icmp");
        }
        return V(r);
    }
    bool ud = a.ud || b.ud;
    if (a.k == KREAL || b.k == KREAL) {
        Ex x = realOfInt(a, n), y = realOfInt(b, n), r;
        switch (p) {
        case CmpInst::ICMP_EQ: r = mkEq(x, y); break;
        case CmpInst::ICMP_NE: r = boolNot(mkEq(x, y)); break;
        case CmpInst::ICMP_SGT: r = Ex(Z3_mk_gt(Z, x, y)); break;
        case CmpInst::ICMP_SGE: r = Ex(Z3_mk_ge(Z, x, y)); break;
        case CmpInst::ICMP_SLT: r = Ex(Z3_mk_lt(Z, x, y)); break;
        case CmpInst::ICMP_SLE: r = Ex(Z3_mk_le(Z, x, y)); break;
        default: {
            uint64_t ca = concretize(st, a, n), cb = concretize(st, b, n);
            return icmp(st, p, Val(ca), Val(cb), n);
        }
        }
        return vBV(Ex(Z3_simplify(Z, r)), 1, ud);
    }
    if (n == 1) {
        Ex x = boolOf(a), y = boolOf(b);
        if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) {
            bool ne = p == CmpInst::ICMP_NE;
            if (a.k == KC) return vBV((bool)(a.c & 1) != ne ? y : boolNot(y), 1, ud);
            if (b.k == KC) return vBV((bool)(b.c & 1) != ne ? x : boolNot(x), 1, ud);
            Ex r(Z3_mk_xor(Z, x, y));
            return vBV(ne ? r : boolNot(r), 1, ud);
        }
        auto ex = [&](const Ex& q) { return mkIte(q, bvc(1, 2), bvc(0, 2)); };  // unsigned view
        bool sgn = CmpInst::isSigned(p);
        auto exs = [&](const Ex& q) { return mkIte(q, bvc(sgn ? 3 : 1, 2), bvc(0, 2)); };
        (void)ex;
        Val x2 = vBV(exs(x), 2), y2 = vBV(exs(y), 2);
        return icmp(st, p, x2, y2, 2);
    }
    Ex x = bits(a, n), y = bits(b, n), r;
    // (ite c k1 k2) == k : keep booleans shallow
    if ((p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) && b.k == KC && a.k == KBV) {
        Ex c, t, f; uint64_t tv, fv;
        if (isITE(x, c, t, f) && isNum(t, tv) && isNum(f, fv)) {
            uint64_t bv = mask(b.c, n);
            bool te = tv == bv, fe = fv == bv, ne = p == CmpInst::ICMP_NE;
            if (ne) { te = !te; fe = !fe; }
            if (te && fe) return V(1);
            if (!te && !fe) return V(0);
            return vBV(te ? c : boolNot(c), 1, ud);
        }
    }
    switch (p) {
    case CmpInst::ICMP_EQ: r = mkEq(x, y); break;
    case CmpInst::ICMP_NE: r = boolNot(mkEq(x, y)); break;
    case CmpInst::ICMP_UGT: r = Ex(Z3_mk_bvugt(Z, x, y)); break;
    case CmpInst::ICMP_UGE: r = Ex(Z3_mk_bvuge(Z, x, y)); break;
    case CmpInst::ICMP_ULT: r = Ex(Z3_mk_bvult(Z, x, y)); break;
    case CmpInst::ICMP_ULE: r = Ex(Z3_mk_bvule(Z, x, y)); break;
    case CmpInst::ICMP_SGT: r = Ex(Z3_mk_bvsgt(Z, x, y)); break;
    case CmpInst::ICMP_SGE: r = Ex(Z3_mk_bvsge(Z, x, y)); break;
    case CmpInst::ICMP_SLT: r = Ex(Z3_mk_bvslt(Z, x, y)); break;
    case CmpInst::ICMP_SLE: r = Ex(Z3_mk_bvsle(Z, x, y)); break;
    default: unsupported("icmp");
    }
    return vBV(Ex(Z3_simplify(Z, r)), 1, ud);
}
static double fpd(const Val& v, bool dbl) { return dbl ? asD(v.c) : (double)asF(v.c); }
static bool ifpOf(const Val& v, bool dbl, Ex& e, int64_t& lo, int64_t& hi) {
    if (v.k == KIFP) { e = v.e; lo = v.lo; hi = v.hi; return true; }
    if (v.k == KC) {
        double d = fpd(v, dbl);
        if (std::isfinite(d) && d == std::floor(d) && std::fabs(d) < (double)fpExactLim(dbl)) { lo = hi = (int64_t)d; e = bvc((uint64_t)lo, 64); return true; }
    }
    return false;
}
static Ex realSqrt(State& st, const Ex& x) {
    static int n = 0;
    string nm = "sqrt!" + std::to_string(getpid()) + "_" + std::to_string(n++);
    Ex r(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), sReal));
    Z3_ast m[2] = {r, r};
    Ex z(Z3_mk_numeral(Z, "0", sReal));
    st.model.reset();
    addPC(st, Ex(Z3_mk_ge(Z, r, z)));
    addPC(st, mkEq(Ex(Z3_mk_mul(Z, 2, m)), x));
    return r;
}
static Val fpBin(State& st, unsigned opc, const Val& a, const Val& b, bool dbl) {
    if (a.k == KC && b.k == KC) {
        if (dbl) {
            double x = asD(a.c), y = asD(b.c), r = 0;
            switch (opc) {
            case Instruction::FAdd: r = x + y; break;
            case Instruction::FSub: r = x - y; break;
            case Instruction::FMul: r = x * y; break;
            case Instruction::FDiv: r = x / y; break;
            case Instruction::FRem: r = std::fmod(x, y); break;
            }
            return V(ofD(r));
        }
        float x = asF(a.c), y = asF(b.c), r = 0;
        switch (opc) {
        case Instruction::FAdd: r = x + y; break;
        case Instruction::FSub: r = x - y; break;
        case Instruction::FMul: r = x * y; break;
        case Instruction::FDiv: r = x / y; break;
        case Instruction::FRem: r = std::fmod(x, y); break;
        }
        return V(ofF(r));
    }
    bool ud = a.ud || b.ud;
    if (optReal || a.k == KREAL || b.k == KREAL) {
        if ((a.k == KC && !std::isfinite(fpd(a, dbl))) || (b.k == KC && !std::isfinite(fpd(b, dbl)))) unsupported("non-finite in real mode");
        if (opc == Instruction::FMul && ((a.k == KC && fpd(a, dbl) == 0) || (b.k == KC && fpd(b, dbl) == 0))) return V(0);
        Ex x = realOfFP(a, dbl), y = realOfFP(b, dbl);
        Z3_ast v[2] = {x, y};
        switch (opc) {
        case Instruction::FAdd: return vREAL(Ex(Z3_mk_add(Z, 2, v)), ud);
        case Instruction::FSub: return vREAL(Ex(Z3_mk_sub(Z, 2, v)), ud);
        case Instruction::FMul: return vREAL(Ex(Z3_mk_mul(Z, 2, v)), ud);
        case Instruction::FDiv: {
            if (b.k != KC) {
                Ex z(Z3_mk_numeral(Z, "0", sReal));
                if (branch(st, mkEq(y, z))) unsupported("division by zero in real mode");
            } else if (fpd(b, dbl) == 0) unsupported("division by zero in real mode");
            return vREAL(Ex(Z3_mk_div(Z, x, y)), ud);
        }
        default: unsupported("frem in real mode");
        }
    }
    Ex x, y; int64_t l1, h1, l2, h2;
    if (opc != Instruction::FDiv && opc != Instruction::FRem && ifpOf(a, dbl, x, l1, h1) && ifpOf(b, dbl, y, l2, h2)) {
        __int128 lo, hi;
        Ex r;
        if (opc == Instruction::FAdd) { lo = (__int128)l1 + l2; hi = (__int128)h1 + h2; r = Ex(Z3_mk_bvadd(Z, x, y)); }
        else if (opc == Instruction::FSub) { lo = (__int128)l1 - h2; hi = (__int128)h1 - l2; r = Ex(Z3_mk_bvsub(Z, x, y)); }
        else {
            __int128 c[4] = {(__int128)l1 * l2, (__int128)l1 * h2, (__int128)h1 * l2, (__int128)h1 * h2};
            lo = std::min(std::min(c[0], c[1]), std::min(c[2], c[3])); hi = std::max(std::max(c[0], c[1]), std::max(c[2], c[3]));
            r = Ex(Z3_mk_bvmul(Z, x, y));
        }
        __int128 L = fpExactLim(dbl);
        if (lo >= -L && hi <= L) return vIFP(Ex(Z3_simplify(Z, r)), (int64_t)lo, (int64_t)hi, dbl, ud);
    }
    // An integer too small to change a huge constant (rounding is monotonic)
    if ((opc == Instruction::FAdd || opc == Instruction::FSub) && ((a.k == KIFP && b.k == KC) || (a.k == KC && b.k == KIFP))) {
        const Val& i = a.k == KIFP ? a : b;
        double c = fpd(a.k == KIFP ? b : a, dbl), lo = (double)i.lo, hi = (double)i.hi;
        if (opc == Instruction::FSub) { if (a.k == KIFP) c = -c; else { double t = lo; lo = -hi; hi = -t; } }
        volatile double dl = c + lo, dh = c + hi;
        volatile float fl = (float)c + (float)lo, fh = (float)c + (float)hi;
        if (std::isfinite(c) && c != 0 && (dbl ? dl == c && dh == c : (double)fl == c && (double)fh == c)) { Val k = V(dbl ? ofD(c) : ofF((float)c)); k.ud = ud; return k; }
    }
    if (opc == Instruction::FDiv && b.k == KC && fpd(b, dbl) == 1.0) return a;
    if (opc == Instruction::FMul && b.k == KC && fpd(b, dbl) == 1.0) return a;
    if (opc == Instruction::FMul && a.k == KC && fpd(a, dbl) == 1.0) return b;
    Val as = a, bs = b;
    if (as.k == KIFP) as.e = Ex(Z3_simplify(Z, as.e));
    if (bs.k == KIFP) bs.e = Ex(Z3_simplify(Z, bs.e));
    Ex p = fpaOf(as, dbl), q = fpaOf(bs, dbl);
    switch (opc) {
    case Instruction::FAdd: return vFPA(Ex(Z3_mk_fpa_add(Z, RNE, p, q)), ud);
    case Instruction::FSub: return vFPA(Ex(Z3_mk_fpa_sub(Z, RNE, p, q)), ud);
    case Instruction::FMul: return vFPA(Ex(Z3_mk_fpa_mul(Z, RNE, p, q)), ud);
    case Instruction::FDiv: return vFPA(Ex(Z3_mk_fpa_div(Z, RNE, p, q)), ud);
    default: unsupported("frem");
    }
}
// Certainly neither NaN nor infinite: integers, and integers scaled by a moderate constant
static bool isFPnum(const Ex& t) { return Z3_get_ast_kind(Z, t) == Z3_NUMERAL_AST || (Z3_get_ast_kind(Z, t) == Z3_APP_AST && Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, t))) == Z3_OP_FPA_NUM); }
static bool finiteFP(const Ex& t, int depth) {
    if (Z3_get_ast_kind(Z, t) != Z3_APP_AST) return isFPnum(t) && Z3_fpa_is_numeral_normal(Z, t);
    Z3_app ap = Z3_to_app(Z, t);
    Z3_decl_kind k = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap));
    if (k == Z3_OP_FPA_TO_FP && Z3_get_app_num_args(Z, ap) == 2 && Z3_get_sort_kind(Z, Z3_get_sort(Z, Z3_get_app_arg(Z, ap, 1))) == Z3_BV_SORT) return true;
    if (isFPnum(t)) return Z3_fpa_is_numeral_normal(Z, t) || Z3_fpa_is_numeral_zero(Z, t);
    if (depth > 5) return false;
    if (k == Z3_OP_FPA_NEG) return finiteFP(Ex(Z3_get_app_arg(Z, ap, 0)), depth + 1);
    if (k == Z3_OP_FPA_SUB || k == Z3_OP_FPA_ADD) return finiteFP(Ex(Z3_get_app_arg(Z, ap, 1)), depth + 1) && finiteFP(Ex(Z3_get_app_arg(Z, ap, 2)), depth + 1);
    if (k == Z3_OP_FPA_DIV || k == Z3_OP_FPA_MUL) {
        Ex x(Z3_get_app_arg(Z, ap, 1)), y(Z3_simplify(Z, Z3_get_app_arg(Z, ap, 2)));
        if (!finiteFP(x, depth + 1) || depth > 3) return false;
        if (!isFPnum(y) || !Z3_fpa_is_numeral_normal(Z, y)) return false;
        int64_t e = 0;
        Z3_fpa_get_numeral_exponent_int64(Z, y, &e, false);
        return e > -200 && e < 200;
    }
    return false;
}
// e is a narrower value sign-extended to 64 bits (also in the form the simplifier gives it)?  The narrow value, or null
static Ex unSext(const Ex& e) {
    if (Z3_get_ast_kind(Z, e) != Z3_APP_AST) return Ex();
    Z3_app ap = Z3_to_app(Z, e);
    Z3_decl_kind k = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap));
    if (k == Z3_OP_SIGN_EXT) return Ex(Z3_get_app_arg(Z, ap, 0));
    if (k != Z3_OP_CONCAT) return Ex();
    unsigned n = Z3_get_app_num_args(Z, ap);
    Z3_ast last = Z3_get_app_arg(Z, ap, n - 1);
    unsigned w = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, last));
    if (n < 2 || w + n - 1 != 64) return Ex();
    Z3_ast top = Z3_get_app_arg(Z, ap, 0);
    for (unsigned i = 1; i + 1 < n; i++) if (Z3_get_app_arg(Z, ap, i) != top) return Ex();
    if (Ex(Z3_simplify(Z, Ex(Z3_mk_extract(Z, w - 1, w - 1, last)))).a != top) return Ex();
    return Ex(last);
}
static Ex eq64(const Ex& x, const Ex& y) {
    Ex a = unSext(x), b = unSext(y);
    uint64_t v;
    if (a.a && b.a && Z3_get_sort(Z, a) == Z3_get_sort(Z, b)) return mkEq(a, b);
    for (int i = 0; i < 2; i++) {
        const Ex& p = i ? b : a; const Ex& q = i ? x : y;
        if (!p.a || !isNum(q, v)) continue;
        unsigned w = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, p));
        if (sx64(mask(v, w), w) != (int64_t)v) return eFalse;
        return mkEq(p, bvc(mask(v, w), w));
    }
    return mkEq(x, y);
}
// d == 0 for an exact (never overflowing) integer difference
static Ex zero64(const Ex& d) {
    Ex s(Z3_simplify(Z, d));
    if (Z3_get_ast_kind(Z, s) == Z3_APP_AST) {
        Z3_app ap = Z3_to_app(Z, s);
        if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_BADD && Z3_get_app_num_args(Z, ap) == 2) {
            Ex t[2] = {Ex(Z3_get_app_arg(Z, ap, 0)), Ex(Z3_get_app_arg(Z, ap, 1))};
            for (int i = 0; i < 2; i++) {
                Ex n(Z3_simplify(Z, Ex(Z3_mk_bvneg(Z, t[i]))));
                uint64_t v;
                if (isNum(n, v) || unSext(n).a) return eq64(n, t[1 - i]);
            }
        }
    }
    return eq64(s, bvc(0, 64));
}
// e = |d| written as a choice?  d, or null
static Ex absOf(const Ex& e0) {
    Ex e(Z3_simplify(Z, e0));
    if (Z3_get_ast_kind(Z, e) != Z3_APP_AST) return Ex();
    Z3_app ap = Z3_to_app(Z, e);
    if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) != Z3_OP_ITE) return Ex();
    Ex c(Z3_get_app_arg(Z, ap, 0)), t(Z3_get_app_arg(Z, ap, 1)), f(Z3_get_app_arg(Z, ap, 2));
    if (Ex(Z3_simplify(Z, Ex(Z3_mk_bvneg(Z, t)))).a != Ex(Z3_simplify(Z, f)).a) return Ex();
    Ex z = bvc(0, 64);
    Ex pos[4] = {Ex(Z3_mk_bvsge(Z, t, z)), Ex(Z3_mk_bvsle(Z, z, t)), Ex(Z3_mk_bvsgt(Z, t, z)), Ex(Z3_mk_bvslt(Z, z, t))};
    for (auto& p : pos) if (Ex(Z3_simplify(Z, p)).a == c.a) return t;
    Ex neg[4] = {Ex(Z3_mk_bvsge(Z, f, z)), Ex(Z3_mk_bvsle(Z, z, f)), Ex(Z3_mk_bvsgt(Z, f, z)), Ex(Z3_mk_bvslt(Z, z, f))};
    for (auto& p : neg) { Ex q(Z3_simplify(Z, p)); if (Ex(Z3_simplify(Z, Ex(Z3_mk_not(Z, q)))).a == c.a) return t; }
    return Ex();
}
static Val fcmp(State& st, CmpInst::Predicate p, const Val& a, const Val& b, bool dbl) {
    if (p == CmpInst::FCMP_TRUE) return V(1);
    if (p == CmpInst::FCMP_FALSE) return V(0);
    if (a.k == KC && b.k == KC) {
        double x = fpd(a, dbl), y = fpd(b, dbl);
        bool un = std::isnan(x) || std::isnan(y), r = false;
        switch (p) {
        case CmpInst::FCMP_OEQ: r = !un && x == y; break;
        case CmpInst::FCMP_OGT: r = x > y; break;
        case CmpInst::FCMP_OGE: r = x >= y; break;
        case CmpInst::FCMP_OLT: r = x < y; break;
        case CmpInst::FCMP_OLE: r = x <= y; break;
        case CmpInst::FCMP_ONE: r = !un && x != y; break;
        case CmpInst::FCMP_ORD: r = !un; break;
        case CmpInst::FCMP_UNO: r = un; break;
        case CmpInst::FCMP_UEQ: r = un || x == y; break;
        case CmpInst::FCMP_UGT: r = un || x > y; break;
        case CmpInst::FCMP_UGE: r = un || x >= y; break;
        case CmpInst::FCMP_ULT: r = un || x < y; break;
        case CmpInst::FCMP_ULE: r = un || x <= y; break;
        case CmpInst::FCMP_UNE: r = un || x != y; break;
        default: unsupported("fcmp");
        }
        return V(r);
    }
    bool ud = a.ud || b.ud;
    bool unord = p & CmpInst::FCMP_UNO;   // bit 3
    unsigned rel = p & 7;                 // 1 eq, 2 gt, 4 lt
    if (optReal || a.k == KREAL || b.k == KREAL) {
        if (rel == 7) return V(1);
        if (rel == 0) return V(0);
        for (int s = 0; s < 2; s++) {
            const Val& c = s ? a : b;
            if (c.k == KC && !std::isfinite(fpd(c, dbl))) {
                double d = fpd(c, dbl);
                if (std::isnan(d)) return V(unord);
                bool big = d > 0;
                if (s) big = !big;  // b-side infinity: a<b iff +inf
                return V(big ? !!(rel & 4) : !!(rel & 2));
            }
        }
        Ex x = realOfFP(a, dbl), y = realOfFP(b, dbl), r;
        switch (rel) {
        case 1: r = mkEq(x, y); break;
        case 2: r = Ex(Z3_mk_gt(Z, x, y)); break;
        case 3: r = Ex(Z3_mk_ge(Z, x, y)); break;
        case 4: r = Ex(Z3_mk_lt(Z, x, y)); break;
        case 5: r = Ex(Z3_mk_le(Z, x, y)); break;
        default: r = boolNot(mkEq(x, y));
        }
        return vBV(Ex(Z3_simplify(Z, r)), 1, ud);
    }
    if (a.k == KIFP || b.k == KIFP) {
        const Val& i = a.k == KIFP ? a : b;
        const Val& o = a.k == KIFP ? b : a;
        unsigned rr = rel;
        if (a.k != KIFP) rr = (rel & 1) | ((rel & 2) ? 4 : 0) | ((rel & 4) ? 2 : 0);
        auto cmp = [&](const Ex& x, const Ex& y, unsigned r) -> Ex {
            switch (r) {
            case 0: return eFalse;
            case 1: return eq64(x, y);
            case 2: return Ex(Z3_mk_bvsgt(Z, x, y));
            case 3: return Ex(Z3_mk_bvsge(Z, x, y));
            case 4: return Ex(Z3_mk_bvslt(Z, x, y));
            case 5: return Ex(Z3_mk_bvsle(Z, x, y));
            case 6: return boolNot(eq64(x, y));
            default: return eTrue;
            }
        };
        if (o.k == KIFP) {
            if (i.hi < o.lo) return V(!!(rr & 4));
            if (i.lo > o.hi) return V(!!(rr & 2));
            return vBV(Ex(Z3_simplify(Z, cmp(i.e, o.e, rr))), 1, ud);
        }
        if (o.k == KC) {
            double d = fpd(o, dbl);
            if (std::isnan(d)) return V(unord);
            if (d > (double)i.hi) return V(!!(rr & 4));
            if (d < (double)i.lo) return V(!!(rr & 2));
            double fl = std::floor(d);
            if (fl == d) return vBV(Ex(Z3_simplify(Z, cmp(i.e, bvc((uint64_t)(int64_t)d, 64), rr))), 1, ud);
            // i < d  <=> i <= floor(d); i > d <=> i > floor(d); never equal
            Ex f = bvc((uint64_t)(int64_t)fl, 64);
            Ex lt(Z3_mk_bvsle(Z, i.e, f));
            if (fl == 0) { Ex d0 = absOf(i.e); if (d0.a) lt = zero64(d0); }   // |d| < 1e-32
            bool L = rr & 4, G = rr & 2;
            if (L && G) return V(1);
            if (!L && !G) return V(0);
            return vBV(Ex(Z3_simplify(Z, L ? lt : boolNot(lt))), 1, ud);
        }
    }
    if (a.k == KFPA && b.k == KFPA && (a.e.a == b.e.a || Ex(Z3_simplify(Z, a.e)).a == Ex(Z3_simplify(Z, b.e)).a)) {
        if (finiteFP(a.e, 0)) return V(rel & 1);
        Ex nan(Z3_mk_fpa_is_nan(Z, a.e));
        if (rel & 1) return unord ? V(1) : vBV(boolNot(nan), 1, ud);
        return unord ? vBV(nan, 1, ud) : V(0);
    }
    unsigned n = dbl ? 64 : 32;
    if (a.k != KFPA && b.k != KFPA && a.k != KIFP && b.k != KIFP) {
        // pure bit-vector encoding of IEEE comparison
        Ex x = bits(a, n), y = bits(b, n);
        uint64_t inf = dbl ? 0x7ff0000000000000ull : 0x7f800000ull;
        Ex absm = bvc(dbl ? 0x7fffffffffffffffull : 0x7fffffffull, n);
        Ex ax(Z3_mk_bvand(Z, x, absm)), ay(Z3_mk_bvand(Z, y, absm));
        Ex nanx(Z3_mk_bvugt(Z, ax, bvc(inf, n))), nany(Z3_mk_bvugt(Z, ay, bvc(inf, n)));
        Ex un = mkOr(nanx, nany);
        Ex zz = mkAnd(mkEq(ax, bvc(0, n)), mkEq(ay, bvc(0, n)));
        Ex eq = mkOr(mkEq(x, y), zz);
        // order key: negative -> ~x, positive -> x | signbit
        auto key = [&](const Ex& v) {
            Ex neg(Z3_mk_bvslt(Z, v, bvc(0, n)));
            return mkIte(neg, Ex(Z3_mk_bvnot(Z, v)), Ex(Z3_mk_bvor(Z, v, bvc(1ull << (n - 1), n))));
        };
        Ex lt0(Z3_mk_bvult(Z, key(x), key(y)));
        Ex lt = mkAnd(lt0, boolNot(zz));
        Ex r;
        switch (rel) {
        case 0: r = eFalse; break;
        case 1: r = eq; break;
        case 2: r = mkAnd(boolNot(eq), boolNot(lt)); break;
        case 3: r = boolNot(lt); break;
        case 4: r = lt; break;
        case 5: r = mkOr(lt, eq); break;
        case 6: r = boolNot(eq); break;
        default: r = eTrue;
        }
        r = unord ? mkOr(un, r) : mkAnd(boolNot(un), r);
        return vBV(Ex(Z3_simplify(Z, r)), 1, ud);
    }
    Ex x = fpaOf(a, dbl), y = fpaOf(b, dbl), r;
    Ex un = mkOr(Ex(Z3_mk_fpa_is_nan(Z, x)), Ex(Z3_mk_fpa_is_nan(Z, y)));
    switch (rel) {
    case 0: r = eFalse; break;
    case 1: r = Ex(Z3_mk_fpa_eq(Z, x, y)); break;
    case 2: r = Ex(Z3_mk_fpa_gt(Z, x, y)); break;
    case 3: r = Ex(Z3_mk_fpa_geq(Z, x, y)); break;
    case 4: r = Ex(Z3_mk_fpa_lt(Z, x, y)); break;
    case 5: r = Ex(Z3_mk_fpa_leq(Z, x, y)); break;
    case 6: r = mkOr(Ex(Z3_mk_fpa_lt(Z, x, y)), Ex(Z3_mk_fpa_gt(Z, x, y))); break;
    default: r = boolNot(un);
    }
    if (unord) r = mkOr(un, r);
    return vBV(Ex(Z3_simplify(Z, r)), 1, ud);
}
// signed range of a BV term under the path condition, within +-lim?
static bool fitsRange(State& st, const Ex& e64, int64_t lim) {
    Ex in = mkAnd(Ex(Z3_mk_bvsle(Z, e64, bvc((uint64_t)lim, 64))), Ex(Z3_mk_bvsge(Z, e64, bvc((uint64_t)-lim, 64))));
    in = Ex(Z3_simplify(Z, in));
    Z3_lbool b = Z3_get_bool_value(Z, in);
    if (b != Z3_L_UNDEF) return b == Z3_L_TRUE;
    auto it = st.known.find(astid(in));
    if (it != st.known.end()) return it->second.second;
    if (st.model && evalBool(st, in) == 0) return false;
    Z3_lbool r = solve(st, boolNot(in), nullptr);
    if (r == Z3_L_FALSE) { st.known[astid(in)] = {in, true}; return true; }
    return false;
}
static void bvRange(const Ex& e, unsigned n, int64_t& lo, int64_t& hi) {  // cheap syntactic bounds
    lo = n >= 64 ? INT64_MIN : -(1ll << (n - 1));
    hi = n >= 64 ? INT64_MAX : (1ll << (n - 1)) - 1;
    if (Z3_get_ast_kind(Z, e) == Z3_APP_AST) {
        Z3_app ap = Z3_to_app(Z, e);
        Z3_decl_kind k = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap));
        if (k == Z3_OP_SIGN_EXT || k == Z3_OP_ZERO_EXT) {
            Ex s(Z3_get_app_arg(Z, ap, 0));
            unsigned w = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, s));
            if (k == Z3_OP_SIGN_EXT) bvRange(s, w, lo, hi);
            else { lo = 0; hi = w >= 63 ? INT64_MAX : (1ll << w) - 1; }
        } else if (k == Z3_OP_ITE) {
            int64_t l1, h1, l2, h2;
            bvRange(Ex(Z3_get_app_arg(Z, ap, 1)), n, l1, h1);
            bvRange(Ex(Z3_get_app_arg(Z, ap, 2)), n, l2, h2);
            lo = std::min(l1, l2); hi = std::max(h1, h2);
        } else if (k == Z3_OP_CONCAT) {
            Ex s(Z3_get_app_arg(Z, ap, 0)); uint64_t v;
            unsigned w = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, s));
            if (isNum(s, v) && v == 0 && n - w < 63) { lo = 0; hi = (1ll << (n - w)) - 1; }
        }
    } else {
        uint64_t v;
        if (isNum(e, v)) lo = hi = sx64(v, n);
    }
}
static Val intToFP(State& st, const Val& v, unsigned n, bool sgn, bool dbl) {
    if (v.k == KC) {
        if (sgn) { int64_t x = sx64(v.c, n); return V(dbl ? ofD((double)x) : ofF((float)x)); }
        uint64_t x = mask(v.c, n);
        return V(dbl ? ofD((double)x) : ofF((float)x));
    }
    if (v.k == KREAL) return vREAL(v.e, v.ud);
    if (optReal) return vREAL(realOfInt(v, n), v.ud);
    if (n == 1) {
        Ex c = v.e;
        return vIFP(mkIte(c, bvc(sgn ? ~0ull : 1, 64), bvc(0, 64)), sgn ? -1 : 0, sgn ? 0 : 1, dbl, v.ud);
    }
    Ex e = bits(v, n), w = e;
    int64_t lo, hi;
    if (sgn) {
        bvRange(e, n, lo, hi);
        if (n < 64) w = Ex(Z3_mk_sign_ext(Z, 64 - n, e));
    } else {
        if (n < 64) { w = Ex(Z3_mk_zero_ext(Z, 64 - n, e)); lo = 0; hi = n >= 63 ? INT64_MAX : (1ll << n) - 1;
            int64_t l2, h2; bvRange(e, n, l2, h2); if (l2 >= 0) { lo = l2; hi = h2; } }
        else { lo = INT64_MIN; hi = INT64_MAX; int64_t l2, h2; bvRange(e, n, l2, h2); if (l2 >= 0) { lo = l2; hi = h2; } }
    }
    w = Ex(Z3_simplify(Z, w));
    { int64_t l2, h2; bvRange(w, 64, l2, h2); lo = std::max(lo, l2); hi = std::min(hi, h2); }
    int64_t L = fpExactLim(dbl);
    if (lo >= -L && hi <= L) return vIFP(w, lo, hi, dbl, v.ud);
    if (fitsRange(st, w, 1 << 20)) return vIFP(w, -(1 << 20), 1 << 20, dbl, v.ud);
    if (fitsRange(st, w, L)) return vIFP(w, -L, L, dbl, v.ud);
    return vFPA(Ex(sgn ? Z3_mk_fpa_to_fp_signed(Z, RNE, e, fps(dbl)) : Z3_mk_fpa_to_fp_unsigned(Z, RNE, e, fps(dbl))), v.ud);
}
static Val fpToInt(State& st, const Val& v, bool dbl, unsigned n, bool sgn) {
    if (v.k == KC) {
        double d = fpd(v, dbl);
        // out of range: x86 result of cvttsd2si for the width the compiler uses
        if (sgn) {
            if (std::isnan(d) || d >= 9.3e18 || d <= -9.3e18) return V(mask(0x8000000000000000ull >> (64 - (n < 32 ? 32 : n)), n));
            if (n <= 32 && (d >= 2147483648.0 || d <= -2147483649.0)) return V(mask(0x80000000ull, n));
            return V(mask((uint64_t)(int64_t)d, n));
        }
        if (std::isnan(d) || d <= -9.3e18 || d >= 1.85e19) return V(mask(0x8000000000000000ull, n));
        return V(mask(d < 0 ? (uint64_t)(int64_t)d : (uint64_t)d, n));
    }
    if (v.k == KREAL && optRealFork) {   // truncation towards zero, one path for each result
        Ex z(Z3_mk_numeral(Z, "0", sReal));
        auto num = [](int64_t i) { return Ex(Z3_mk_int2real(Z, Ex(Z3_mk_int64(Z, i, sInt)))); };
        for (;;) {
            ensureModel(st);
            Z3_ast o; if (!Z3_model_eval(Z, st.model->m, v.e, true, &o)) unsupported("eval real");
            Ex q(Z3_simplify(Z, o));
            if (Z3_get_ast_kind(Z, q) != Z3_NUMERAL_AST) unsupported("irrational value as integer");
            double d = Z3_get_numeral_double(Z, q);
            if (!(std::fabs(d) < 1e15)) unsupported("large real as integer");
            Ex f(Z3_simplify(Z, Z3_mk_real2int(Z, q)));
            int64_t i; if (!Z3_get_numeral_int64(Z, f, (__int64_t*)&i)) unsupported("real as integer");
            if (i < 0 && Z3_get_bool_value(Z, Ex(Z3_simplify(Z, mkEq(num(i), q)))) != Z3_L_TRUE) i++;
            Ex c = mkAnd(Ex(i > 0 ? Z3_mk_ge(Z, v.e, num(i)) : Z3_mk_gt(Z, v.e, num(i - 1))), Ex(i < 0 ? Z3_mk_le(Z, v.e, num(i)) : Z3_mk_lt(Z, v.e, num(i + 1))));
            if (branch(st, Ex(Z3_simplify(Z, c)))) return V(mask((uint64_t)i, n));
        }
    }
    if (v.k == KREAL) {
        Ex z(Z3_mk_numeral(Z, "0", sReal));
        Ex fl(Z3_mk_int2real(Z, Ex(Z3_mk_real2int(Z, v.e))));
        Ex ng(Z3_mk_unary_minus(Z, v.e));
        Ex cl(Z3_mk_unary_minus(Z, Ex(Z3_mk_int2real(Z, Ex(Z3_mk_real2int(Z, ng))))));
        return vREAL(mkIte(Ex(Z3_mk_ge(Z, v.e, z)), fl, cl), v.ud);
    }
    if (v.k == KIFP) {
        Ex r = n == 64 ? v.e : Ex(Z3_mk_extract(Z, n - 1, 0, v.e));
        return vBV(Ex(Z3_simplify(Z, r)), n, v.ud);
    }
    Ex f = fpaOf(v, dbl);
    // model x86 semantics exactly for the in-range case; out-of-range yields the "integer indefinite" value
    unsigned w = n < 32 ? 32 : n;
    if (!sgn && n == 32) w = 64;  // compiled as a 64-bit signed conversion
    if (sgn || w > n || n < 32) {
        Ex r(Z3_mk_fpa_to_sbv(Z, RTZ, f, w));
        double lim = std::ldexp(1.0, w - 1);
        Ex hi(dbl ? Z3_mk_fpa_numeral_double(Z, lim, sF64) : Z3_mk_fpa_numeral_double(Z, lim, sF32));
        Ex lo(dbl ? Z3_mk_fpa_numeral_double(Z, w < 53 ? -lim - 1 : -lim, sF64) : Z3_mk_fpa_numeral_double(Z, -lim, sF32));
        Ex inr = mkAnd(Ex(Z3_mk_fpa_lt(Z, f, hi)), Ex((dbl && w < 53) ? Z3_mk_fpa_gt(Z, f, lo) : Z3_mk_fpa_geq(Z, f, lo)));
        Ex x = mkIte(inr, r, bvc(1ull << (w - 1), w));
        if (w > n) x = Ex(Z3_mk_extract(Z, n - 1, 0, x));
        return vBV(x, n, v.ud);
    }
    Ex r(Z3_mk_fpa_to_ubv(Z, RTZ, f, n));
    return vBV(r, n, v.ud);
}
static Val fpExt(const Val& v) {  // float -> double
    if (v.k == KC) return V(ofD((double)asF(v.c)));
    if (v.k == KREAL || v.k == KIFP) return v;
    return vFPA(Ex(Z3_mk_fpa_to_fp_float(Z, RNE, fpaOf(v, false), sF64)), v.ud);
}
static Val fpTrunc(const Val& v) {
    if (v.k == KC) return V(ofF((float)asD(v.c)));
    if (v.k == KREAL) return v;
    if (v.k == KIFP && v.lo >= -(1 << 24) && v.hi <= (1 << 24)) return v;
    if (v.k == KIFP) {
        Ex e(Z3_simplify(Z, v.e));
        int64_t lo, hi;
        bvRange(e, 64, lo, hi);
        if (lo >= -(1 << 24) && hi <= (1 << 24)) return vIFP(e, lo, hi, false, v.ud);
    }
    return vFPA(Ex(Z3_mk_fpa_to_fp_float(Z, RNE, fpaOf(v, true), sF32)), v.ud);
}
static Val fneg(const Val& v, bool dbl) {
    if (v.k == KC) return V(dbl ? v.c ^ (1ull << 63) : (v.c ^ 0x80000000ull));
    if (v.k == KREAL) return vREAL(Ex(Z3_mk_unary_minus(Z, v.e)), v.ud);
    if (v.k == KIFP) return vIFP(Ex(Z3_mk_bvneg(Z, v.e)), -v.hi, -v.lo, dbl, v.ud);
    if (v.k == KFPA) return vFPA(Ex(Z3_mk_fpa_neg(Z, v.e)), v.ud);
    unsigned n = dbl ? 64 : 32;
    return vBV(Ex(Z3_mk_bvxor(Z, v.e, bvc(1ull << (n - 1), n))), n, v.ud);
}
static Val fabs_(State& st, const Val& v, bool dbl) {
    if (v.k == KC) return V(dbl ? v.c & ~(1ull << 63) : (v.c & 0x7fffffffull));
    if (v.k == KREAL) {
        Ex z(Z3_mk_numeral(Z, "0", sReal));
        return vREAL(mkIte(Ex(Z3_mk_ge(Z, v.e, z)), v.e, Ex(Z3_mk_unary_minus(Z, v.e))), v.ud);
    }
    if (v.k == KIFP) {
        if (v.lo >= 0) return v;
        Ex neg(Z3_mk_bvslt(Z, v.e, bvc(0, 64)));
        int64_t h = std::max(std::llabs(v.lo), std::llabs(v.hi));
        return vIFP(mkIte(neg, Ex(Z3_mk_bvneg(Z, v.e)), v.e), 0, h, dbl, v.ud);
    }
    if (v.k == KFPA) return vFPA(Ex(Z3_mk_fpa_abs(Z, v.e)), v.ud);
    unsigned n = dbl ? 64 : 32;
    return vBV(Ex(Z3_mk_bvand(Z, v.e, bvc(dbl ? ~(1ull << 63) : 0x7fffffffull, n))), n, v.ud);
}
#include "exec.inc"
