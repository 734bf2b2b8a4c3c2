// ------------------------------------------------------------------ globals, constants, functions
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<uint64_t, const Function*> faddr;
static std::unordered_map<string, uint64_t> extTI;   // external typeinfo objects by name
static uint64_t gnext = 0x10000;
static State* initState = nullptr;
static std::unordered_map<const Constant*, RV*> ccache;
static RV evalConst(const Constant* c);
static uint64_t gaddrOf(const GlobalValue* g) {
    auto it = gaddr.find(g);
    if (it == gaddr.end()) {
        if (auto* a = dyn_cast<GlobalAlias>(g)) return gaddrOf(cast<GlobalValue>(a->getAliasee()->stripPointerCasts()));
        fprintf(stderr, "no address for global %s\n", g->getName().str().c_str());
        return 0;
    }
    return it->second;
}
static uint64_t constGEP(const GEPOperator* g) {
    RV b = evalConst(cast<Constant>(g->getPointerOperand()));
    APInt off(64, 0);
    if (!g->accumulateConstantOffset(*DL, off)) unsupported("constant gep");
    return b.v.c + off.getZExtValue();
}
static RV zeroOf(Type* t) {
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        RV r; r.agg = std::make_shared<vector<RV>>();
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; i++)
            r.agg->push_back(zeroOf(t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType()));
        return r;
    }
    return RV(V(0));
}
static RV evalConst(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() > 64) {
            if (ci->getValue().getActiveBits() > 64) unsupported("wide integer constant");
        }
        return RV(V(ci->getValue().extractBitsAsZExtValue(std::min(64u, ci->getBitWidth()), 0)));
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        if (c->getType()->isX86_FP80Ty()) return RV(V(0));
        return RV(V(cf->getValueAPF().bitcastToAPInt().getZExtValue()));
    }
    if (isa<ConstantPointerNull>(c)) return RV(V(0));
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
    if (auto* g = dyn_cast<GlobalValue>(c)) return RV(V(gaddrOf(g)));
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
        RV r; r.agg = std::make_shared<vector<RV>>();
        for (auto& o : c->operands()) r.agg->push_back(evalConst(cast<Constant>(o)));
        return r;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        RV r; r.agg = std::make_shared<vector<RV>>();
        for (unsigned i = 0; i < cd->getNumElements(); i++) r.agg->push_back(evalConst(cd->getElementAsConstant(i)));
        return r;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (auto* g = dyn_cast<GEPOperator>(ce)) return RV(V(constGEP(g)));
        auto op = [&](unsigned i) { return evalConst(ce->getOperand(i)).v.c; };
        unsigned n = ce->getType()->isPointerTy() ? 64 : ce->getType()->isIntegerTy() ? ce->getType()->getIntegerBitWidth() : 64;
        switch (ce->getOpcode()) {
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt:
            return RV(V(mask(op(0), n)));
        case Instruction::Add: return RV(V(mask(op(0) + op(1), n)));
        case Instruction::Sub: return RV(V(mask(op(0) - op(1), n)));
        case Instruction::Xor: return RV(V(mask(op(0) ^ op(1), n)));
        case Instruction::And: return RV(V(mask(op(0) & op(1), n)));
        case Instruction::ICmp: {
            uint64_t a = op(0), b = op(1);
            auto p = (CmpInst::Predicate)ce->getPredicate();
            bool r = p == CmpInst::ICMP_EQ ? a == b : p == CmpInst::ICMP_NE ? a != b : p == CmpInst::ICMP_UGT ? a > b : p == CmpInst::ICMP_ULT ? a < b : p == CmpInst::ICMP_UGE ? a >= b : a <= b;
            return RV(V(r));
        }
        default: unsupported(string("constant expression ") + ce->getOpcodeName());
        }
    }
    string s; raw_string_ostream os(s); c->print(os);
    unsupported("constant " + s.substr(0, 80));
}
static RV* constRV(const Constant* c) {
    auto& p = ccache[c];
    if (!p) p = new RV(evalConst(c));
    return p;
}
static void initGlobalData(Obj& o, const Constant* c, uint64_t off) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) {
        uint64_t n = DL->getTypeAllocSize(t);
        for (uint64_t i = 0; i < n && off + i < o.size; i++) o.d->st[off + i] = 1;
        return;
    }
    if (auto* cs = dyn_cast<ConstantStruct>(c)) {
        auto* L = DL->getStructLayout(cast<StructType>(t));
        for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobalData(o, cs->getOperand(i), off + L->getElementOffset(i));
        return;
    }
    if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
        uint64_t es = DL->getTypeAllocSize(c->getOperand(0)->getType());
        for (unsigned i = 0; i < c->getNumOperands(); i++) initGlobalData(o, cast<Constant>(c->getOperand(i)), off + i * es);
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t es = cd->getElementByteSize();
        StringRef raw = cd->getRawDataValues();
        for (size_t i = 0; i < raw.size(); i++) { o.d->b[off + i] = raw[i]; o.d->st[off + i] = 1; }
        (void)es;
        return;
    }
    uint64_t n = DL->getTypeStoreSize(t);
    if (t->isX86_FP80Ty() || (t->isIntegerTy() && t->getIntegerBitWidth() > 64)) {
        for (uint64_t i = 0; i < n; i++) o.d->st[off + i] = 1;
        return;
    }
    RV v = evalConst(c);
    for (uint64_t i = 0; i < n; i++) { o.d->b[off + i] = i < 8 ? v.v.c >> (8 * i) : 0; o.d->st[off + i] = 1; }
}
static void setupGlobals(State& st) {
    for (auto& F : *M) {
        gaddr[&F] = gnext; faddr[gnext] = &F;
        Obj o; o.base = gnext; o.size = 16; o.kind = OFUNC; o.ro = true; o.d = std::make_shared<Data>();
        o.d->b.resize(16); o.d->st.resize(16, 1);
        gconst[gnext] = o;
        gnext += 32;
    }
    struct G { GlobalVariable* g; uint64_t a; };
    vector<GlobalVariable*> gs;
    for (auto& g : M->globals()) gs.push_back(&g);
    for (auto* g : gs) {
        uint64_t sz = DL->getTypeAllocSize(g->getValueType());
        if (g->isDeclaration() && sz < 256) sz = 256;
        gnext = (gnext + 63) / 64 * 64;
        gaddr[g] = gnext;
        gnext += sz + 64;
    }
    for (auto* g : gs) {
        uint64_t sz = DL->getTypeAllocSize(g->getValueType());
        bool ext = g->isDeclaration();
        if (ext && sz < 256) sz = 256;
        Obj o; o.base = gaddr[g]; o.size = sz; o.kind = OGLOBAL; o.d = std::make_shared<Data>();
        o.d->b.resize(sz); o.d->st.resize(sz, 0);
        if (g->hasInitializer()) {
            initGlobalData(o, g->getInitializer(), 0);
            for (auto& x : o.d->st) if (!x) x = 1;
        } else for (auto& x : o.d->st) x = 1;
        string nm = g->getName().str();
        if (ext && nm.compare(0, 4, "_ZTI") == 0) {  // external typeinfo: give it a name string
            string s = nm.substr(4);
            uint64_t na = gnext; gnext = (gnext + s.size() + 1 + 127) / 64 * 64;
            Obj so; so.base = na; so.size = s.size() + 1; so.kind = OGLOBAL; so.ro = true; so.d = std::make_shared<Data>();
            so.d->b.assign(s.begin(), s.end()); so.d->b.push_back(0); so.d->st.assign(s.size() + 1, 1);
            gconst[na] = so;
            for (int i = 0; i < 8; i++) o.d->b[8 + i] = na >> (8 * i);
        }
        if (g->isConstant() || ext) { o.ro = g->isConstant(); }
        if (g->isConstant()) gconst[o.base] = o; else st.mem[o.base] = o;
    }
    gnext = (gnext + 0xfffff) / 0x100000 * 0x100000;
    st.next = gnext + 0x100000;
}
static std::unordered_map<const Function*, FuncInfo*> finfo;
static FuncInfo* info(const Function* F) {
    auto& fi = finfo[F];
    if (fi) return fi;
    fi = new FuncInfo;
    fi->F = F;
    int r = 0;
    for (auto& a : F->args()) fi->reg[&a] = r++;
    int b = 0;
    for (auto& BB : *F) {
        fi->bbid[&BB] = b++;
        for (auto& I : BB) if (!I.getType()->isVoidTy()) fi->reg[&I] = r++;
    }
    fi->nregs = r;
    auto rec = [](const DISubprogram* sp) {
        if (!sp) return;
        string n = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str());
        S.funcs.insert(sp->getFilename().str() + "|" + n.substr(0, 200));
    };
    rec(F->getSubprogram());
    for (auto& BB : *F) for (auto& I : BB)
        for (const DILocation* L = I.getDebugLoc().get(); L; L = L->getInlinedAt()) if (L->getInlinedAt()) rec(L->getScope()->getSubprogram());
    for (auto& BB : *F) {
        vector<PI> v;
        for (auto& I : BB) {
            PI p; p.I = &I; p.opc = I.getOpcode();
            p.dest = I.getType()->isVoidTy() ? -1 : fi->reg[&I];
            for (auto& o : I.operands()) {
                Opnd x{-1, nullptr};
                Value* q = o.get();
                auto it = fi->reg.find(q);
                if (it != fi->reg.end()) x.reg = it->second;
                else if (auto* c = dyn_cast<Constant>(q)) {
                    try { x.c = constRV(c); } catch (PathEnd&) { x.c = nullptr; }
                } else { static RV dummy; x.c = &dummy; }
                p.ops.push_back(x);
            }
            v.push_back(std::move(p));
        }
        fi->bbs.push_back(std::move(v));
    }
    return fi;
}
static RV& opv(Frame& f, const Opnd& o) {
    if (o.reg >= 0) return f.regs[o.reg];
    if (!o.c) {
        string s; raw_string_ostream os(s); f.f->bbs[f.bb][f.pc].I->print(os);
        unsupported("operand constant: " + s.substr(0, 200));
    }
    return *o.c;
}

// ------------------------------------------------------------------ calls
static void enterBlock(State& st, int bb) {
    Frame& f = st.st.back();
    f.prev = f.bb; f.bb = bb; f.pc = 0;
    // evaluate phis simultaneously
    auto& ins = f.f->bbs[bb];
    vector<std::pair<int, RV>> upd;
    const BasicBlock* pb = nullptr;
    int i = 0;
    for (; i < (int)ins.size() && ins[i].opc == Instruction::PHI; i++) {
        auto* ph = cast<PHINode>(ins[i].I);
        if (!pb) {
            for (unsigned k = 0; k < ph->getNumIncomingValues(); k++)
                if (f.f->bbid[ph->getIncomingBlock(k)] == f.prev) { pb = ph->getIncomingBlock(k); break; }
        }
        int idx = ph->getBasicBlockIndex(pb);
        upd.emplace_back(ins[i].dest, opv(f, ins[i].ops[idx]));
    }
    for (auto& u : upd) f.regs[u.first] = std::move(u.second);
    f.pc = i;
}
static void pushFrame(State& st, const Function* F, const vector<RV>& args, const vector<int>& vsz = {}) {
    if (st.st.size() > 400) { reportError(st, "stack", "memory", "call stack deeper than 400 frames", nullptr); throw PathEnd{PE_ERROR}; }
    Frame f;
    f.f = info(F);
    f.regs.resize(f.f->nregs);
    size_t i = 0;
    for (; i < F->arg_size() && i < args.size(); i++) {
        f.regs[i] = args[i];
        if (F->hasParamAttribute(i, Attribute::ByVal)) {
            Type* t = F->getParamByValType(i);
            uint64_t sz = DL->getTypeAllocSize(t);
            Obj& o = allocObj(st, sz, OSTACK, nullptr, 16);
            uint64_t b = o.base;
            uint64_t off;
            Obj* src = access(st, args[i].v, sz, false, off, nullptr);
            Obj* dst = findObj(st, b, true);
            Data& d = wdata(*dst);
            // copy
            for (uint64_t k = 0; k < sz; k++) { d.b[k] = src->d->b[off + k]; d.st[k] = src->d->st[off + k]; }
            for (auto& s : src->d->sym) if (s.first >= off && s.first + s.second.size <= off + sz) d.sym[s.first - off] = s.second;
            f.regs[i] = RV(V(b));
            f.allocas.push_back(b);
        }
    }
    for (; i < args.size(); i++) { f.varargs.push_back(args[i].v); f.varsz.push_back(8); }
    f.bb = 0; f.pc = 0; f.prev = -1;
    st.st.push_back(std::move(f));
}
static void popFrame(State& st) {
    for (uint64_t a : st.st.back().allocas) st.mem.erase(a);
    st.st.pop_back();
}
static void advance(State& st) { st.st.back().pc++; }
static void finishCall(State& st, const RV& r) {  // return to the frame now on top, whose current instruction is the call
    Frame& f = st.st.back();
    PI& p = f.f->bbs[f.bb][f.pc];
    if (p.dest >= 0) f.regs[p.dest] = r;
    if (auto* iv = dyn_cast<InvokeInst>(p.I)) enterBlock(st, f.f->bbid[iv->getNormalDest()]);
    else f.pc++;
}
// exceptions -----------------------------------------------------------------
static int typeIdFor(uint64_t ti) { return ti == 0 ? 0x7fff0001 : (int)(ti & 0x7ffffff0); }
static uint64_t rd64(State& st, uint64_t a) { return loadScalar(st, V(a), 64, 0, nullptr).c; }
static string tiName(State& st, uint64_t ti) {
    if (!ti) return "...";
    string s;
    uint64_t p = rd64(st, ti + 8);
    for (int i = 0; i < 200; i++) { char c = loadScalar(st, V(p + i), 8, 0, nullptr).c; if (!c) break; s += c; }
    return s;
}
static const GlobalValue* globalAt(uint64_t a) {
    for (auto& kv : gaddr) if (kv.second == a) return kv.first;
    return nullptr;
}
static bool tiMatches(State& st, uint64_t thrown, uint64_t want, int depth = 0) {
    if (want == 0 || thrown == want) return true;
    if (depth > 6) return false;
    if (tiName(st, thrown) == tiName(st, want)) return true;
    auto* g = dyn_cast_or_null<GlobalVariable>(globalAt(thrown));
    if (g && g->hasInitializer()) {
        if (auto* cs = dyn_cast<ConstantStruct>(g->getInitializer()))
            if (cs->getNumOperands() >= 3) {
                auto* b = cs->getOperand(2)->stripPointerCasts();
                if (auto* bg = dyn_cast<GlobalValue>(b)) return tiMatches(st, gaddrOf(bg), want, depth + 1);
            }
    } else if (g) {
        // external standard exception type: every one used here derives from std::exception
        static std::map<string, vector<string>> bases = {
            {"_ZTISt12out_of_range", {"St11logic_error", "St9exception"}}, {"_ZTISt12length_error", {"St11logic_error", "St9exception"}},
            {"_ZTISt16invalid_argument", {"St11logic_error", "St9exception"}}, {"_ZTISt11logic_error", {"St9exception"}},
            {"_ZTISt13runtime_error", {"St9exception"}}, {"_ZTISt9bad_alloc", {"St9exception"}}, {"_ZTISt8bad_cast", {"St9exception"}}};
        string w = tiName(st, want);
        for (auto& b : bases[g->getName().str()]) if (b == w) return true;
    }
    return false;
}
static void unwind(State& st) {
    // current top frame: its current instruction threw
    for (;;) {
        if (st.st.empty()) {
            throw PathEnd{PE_ERROR};
        }
        Frame& f = st.st.back();
        PI& p = f.f->bbs[f.bb][f.pc];
        if (auto* iv = dyn_cast<InvokeInst>(p.I)) {
            const LandingPadInst* lp = iv->getLandingPadInst();
            int sel = 0; bool take = lp->isCleanup();
            for (unsigned i = 0; i < lp->getNumClauses(); i++) {
                if (!lp->isCatch(i)) continue;  // filters: dynamic exception specifications, treated as not matching
                uint64_t ti = evalConst(lp->getClause(i)).v.c;
                if (tiMatches(st, st.excTy, ti)) { sel = typeIdFor(ti); take = true; break; }
            }
            if (take) {
                int bb = f.f->bbid[iv->getUnwindDest()];
                enterBlock(st, bb);
                Frame& g = st.st.back();
                while (g.f->bbs[bb][g.pc].opc != Instruction::LandingPad) g.pc++;
                RV r; r.agg = std::make_shared<vector<RV>>();
                r.agg->push_back(RV(V(st.excObj)));
                r.agg->push_back(RV(V((uint32_t)sel)));
                g.regs[g.f->bbs[bb][g.pc].dest] = r;
                g.pc++;
                return;
            }
        }
        if (st.st.size() == 1) {
            reportError(st, "exception", "exception", "uncaught exception of type " + demangle("_Z" + tiName(st, st.excTy)), nullptr);
            throw PathEnd{PE_ERROR};
        }
        popFrame(st);
    }
}
static void throwStd(State& st, const char* ti) {
    // throw a standard exception by typeinfo name; the object is opaque
    uint64_t t = 0;
    if (auto* g = M->getNamedValue(ti)) t = gaddrOf(g);
    else {
        auto it = extTI.find(ti);
        if (it != extTI.end()) t = it->second;
    }
    if (!t) {
        // no typeinfo in the module: cannot be caught by type; only catch-all
        string s = string(ti).substr(4);
        Obj& so = allocObj(st, s.size() + 1, OGLOBAL);
        for (size_t i = 0; i <= s.size(); i++) { so.d->b[i] = i < s.size() ? s[i] : 0; so.d->st[i] = 1; }
        uint64_t sb = so.base;
        Obj& o = allocObj(st, 24, OGLOBAL);
        for (int i = 0; i < 24; i++) o.d->st[i] = 1;
        for (int i = 0; i < 8; i++) o.d->b[8 + i] = sb >> (8 * i);
        t = o.base;
    }
    Obj& o = allocObj(st, 64, OEXC);
    for (auto& x : o.d->st) x = 1;
    st.excObj = o.base; st.excTy = t;
    unwind(st);
}
#include "builtins.inc"

// ------------------------------------------------------------------ interpreter
static void doCall(State& st, const CallBase* cb, PI& p) {
    Frame& f = st.st.back();
    unsigned na = cb->arg_size();
    const Value* cv = cb->getCalledOperand()->stripPointerCasts();
    const Function* F = dyn_cast<Function>(cv);
    if (!F) {
        if (auto* al = dyn_cast<GlobalAlias>(cv)) F = dyn_cast<Function>(al->getAliaseeObject());
    }
    if (isa<InlineAsm>(cb->getCalledOperand())) { finishCall(st, RV()); return; }
    if (!F) {
        RV& t = opv(f, p.ops[p.ops.size() - 1]);
        uint64_t a = concretize(st, t.v, 64);
        auto it = faddr.find(a);
        if (it == faddr.end()) memError(st, "call through an invalid function pointer: " + describe(st, a));
        F = it->second;
    }
    vector<RV> args;
    args.reserve(na);
    for (unsigned i = 0; i < na; i++) args.push_back(opv(f, p.ops[i]));
    RV ret;
    int b = builtin(st, F, cb, args, ret);
    if (b == 1) { finishCall(st, ret); return; }
    if (b == 2) return;  // control already transferred
    if (F->isDeclaration()) unsupported("external function " + demangle(F->getName().str()));
    pushFrame(st, F, args);
}
static void runPath(State& st) {
    CS = &st;
    long steps = 0;
    struct Tail { long& n; ~Tail() { S.instrs += n & 1023; } } tail{steps};
    for (;;) {
        if ((++steps & 1023) == 0) {
            if (SH->stop || now() > Deadline) throw PathEnd{PE_LIMIT};
            S.instrs += 1024;
            if ((long)(st.nsteps += 1024) > optMaxSteps) { reportError(st, "hang", "step bound", "the run does not end within the step bound", nullptr); S.incomplete++; S.unsup["path longer than the step bound"] = ""; throw PathEnd{PE_LIMIT}; }
            spawnMaybe();
        }
        Frame& f = st.st.back();
        PI& p = f.f->bbs[f.bb][f.pc];
        const Instruction* I = p.I;
        switch (p.opc) {
        case Instruction::Ret: {
            RV r;
            if (!p.ops.empty()) r = opv(f, p.ops[0]);
            if (st.st.size() == 1) { popFrame(st); throw PathEnd{PE_DONE}; }
            popFrame(st);
            if (st.omp.active && (int)st.st.size() == st.omp.depth) { ompThreadDone(st); break; }
            finishCall(st, r);
            break;
        }
        case Instruction::Br: {
            auto* br = cast<BranchInst>(I);
            if (br->isUnconditional()) { enterBlock(st, f.f->bbid[br->getSuccessor(0)]); break; }
            bool t = branchVal(st, opv(f, p.ops[0]).v);
            enterBlock(st, f.f->bbid[br->getSuccessor(t ? 0 : 1)]);
            break;
        }
        case Instruction::Switch: {
            auto* sw = cast<SwitchInst>(I);
            const Val v = opv(f, p.ops[0]).v;
            unsigned n = sw->getCondition()->getType()->getIntegerBitWidth();
            const BasicBlock* d = nullptr;
            if (v.k == KC) {
                for (auto& c : sw->cases()) if (c.getCaseValue()->getZExtValue() == mask(v.c, n)) { d = c.getCaseSuccessor(); break; }
                if (!d) d = sw->getDefaultDest();
            } else {
                if (v.k == KREAL) { concretize(st, v, n); }
                // group the cases by successor
                vector<std::pair<const BasicBlock*, Ex>> g;
                Ex x = bits(v, n);
                for (auto& c : sw->cases()) {
                    Ex e = n == 1 ? (c.getCaseValue()->isOne() ? x : boolNot(x)) : mkEq(x, bvc(c.getCaseValue()->getZExtValue(), n));
                    bool done = false;
                    for (auto& q : g) if (q.first == c.getCaseSuccessor()) { q.second = mkOr(q.second, e); done = true; break; }
                    if (!done) g.emplace_back(c.getCaseSuccessor(), e);
                }
                for (auto& q : g) {
                    if (q.first == sw->getDefaultDest()) continue;
                    Val cv = vBV(Ex(Z3_simplify(Z, q.second)), 1, v.ud);
                    if (branchVal(st, cv, "switch")) { d = q.first; break; }
                }
                if (!d) d = sw->getDefaultDest();
            }
            enterBlock(st, st.st.back().f->bbid[d]);
            break;
        }
        case Instruction::Unreachable:
            reportError(st, "unreachable", "memory", "undefined behaviour: control reaches unreachable code", nullptr);
            throw PathEnd{PE_ERROR};
        case Instruction::Call: {
            doCall(st, cast<CallBase>(I), p);
            break;
        }
        case Instruction::Invoke: doCall(st, cast<CallBase>(I), p); break;
        case Instruction::Resume: {
            RV r = opv(f, p.ops[0]);
            st.excObj = (*r.agg)[0].v.c;
            popFrame(st);
            if (st.st.empty()) {
                reportError(st, "exception", "exception", "uncaught exception of type " + demangle("_Z" + tiName(st, st.excTy)), nullptr);
                throw PathEnd{PE_ERROR};
            }
            unwind(st);
            break;
        }
        case Instruction::LandingPad: f.pc++; break;
        case Instruction::Alloca: {
            auto* al = cast<AllocaInst>(I);
            uint64_t n = concretize(st, opv(f, p.ops[0]).v, al->getArraySize()->getType()->getIntegerBitWidth());
            uint64_t sz = DL->getTypeAllocSize(al->getAllocatedType()) * n;
            Obj& o = allocObj(st, sz, OSTACK, I, al->getAlign().value());
            Frame& g = st.st.back();
            g.allocas.push_back(o.base);
            g.regs[p.dest] = RV(V(o.base));
            g.pc++;
            break;
        }
        case Instruction::Load: {
            Val a = opv(f, p.ops[0]).v;
            RV r = loadRV(st, a, I->getType(), I);
            Frame& g = st.st.back();
            g.regs[p.dest] = std::move(r);
            g.pc++;
            break;
        }
        case Instruction::Store: {
            RV v = opv(f, p.ops[0]);
            Val a = opv(f, p.ops[1]).v;
            storeRV(st, a, v, I->getOperand(0)->getType(), I);
            advance(st);
            break;
        }
        case Instruction::GetElementPtr: {
            auto* g = cast<GetElementPtrInst>(I);
            Val base = opv(f, p.ops[0]).v;
            if (I->getType()->isVectorTy()) unsupported("vector gep");
            unsigned k = 1;
            uint64_t off = 0;
            Ex so; bool ud = base.ud;
            for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++k) {
                const Val& ix = opv(f, p.ops[k]).v;
                if (StructType* stt = it.getStructTypeOrNull()) { off += DL->getStructLayout(stt)->getElementOffset(ix.c); continue; }
                uint64_t es = DL->getTypeAllocSize(it.getIndexedType());
                unsigned n = I->getOperand(k)->getType()->getIntegerBitWidth();
                if (ix.k == KC) { off += (uint64_t)(sx64(ix.c, n)) * es; continue; }
                if (ix.k == KREAL) { off += (uint64_t)sx64(concretize(st, ix, n), n) * es; continue; }
                Ex x = bits(ix, n);
                if (n < 64) x = Ex(Z3_mk_sign_ext(Z, 64 - n, x));
                if (es != 1) x = Ex(Z3_mk_bvmul(Z, x, bvc(es, 64)));
                so = so ? Ex(Z3_mk_bvadd(Z, so, x)) : x;
                ud |= ix.ud;
            }
            Val r;
            if (!so) r = addOff(base, off);
            else r = vBV(Ex(Z3_simplify(Z, Ex(Z3_mk_bvadd(Z, so, bits(addOff(base, off), 64))))), 64, ud);
            f.regs[p.dest] = RV(r);
            f.pc++;
            break;
        }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
        case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        case Instruction::And: case Instruction::Or: case Instruction::Xor: {
            RV A = opv(f, p.ops[0]), B = opv(f, p.ops[1]);
            RV r;
            if (A.agg) {
                r.agg = std::make_shared<vector<RV>>();
                unsigned n = bitsOf(I->getType()->getScalarType());
                for (size_t i = 0; i < A.agg->size(); i++) r.agg->push_back(RV(intBin(st, p.opc, (*A.agg)[i].v, (*B.agg)[i].v, n)));
            } else {
                unsigned n = I->getType()->getIntegerBitWidth();
                if (n > 64) unsupported("wide integer arithmetic");
                r = RV(intBin(st, p.opc, A.v, B.v, n));
            }
            Frame& g = st.st.back();
            g.regs[p.dest] = std::move(r); g.pc++;
            break;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            RV A = opv(f, p.ops[0]), B = opv(f, p.ops[1]);
            Type* t = I->getType()->getScalarType();
            if (t->isX86_FP80Ty()) unsupported("long double arithmetic");
            RV r;
            if (A.agg) {
                r.agg = std::make_shared<vector<RV>>();
                for (size_t i = 0; i < A.agg->size(); i++) r.agg->push_back(RV(fpBin(st, p.opc, (*A.agg)[i].v, (*B.agg)[i].v, t->isDoubleTy())));
            } else r = RV(fpBin(st, p.opc, A.v, B.v, t->isDoubleTy()));
            Frame& g = st.st.back();
            g.regs[p.dest] = std::move(r); g.pc++;
            break;
        }
        case Instruction::FNeg: {
            RV A = opv(f, p.ops[0]);
            f.regs[p.dest] = RV(fneg(A.v, I->getType()->isDoubleTy())); f.pc++;
            break;
        }
        case Instruction::ICmp: {
            auto* c = cast<ICmpInst>(I);
            RV A = opv(f, p.ops[0]), B = opv(f, p.ops[1]);
            if (A.agg) unsupported("vector icmp");
            unsigned n = bitsOf(I->getOperand(0)->getType());
            Val r = icmp(st, c->getPredicate(), A.v, B.v, n);
            Frame& g = st.st.back();
            g.regs[p.dest] = RV(r); g.pc++;
            break;
        }
        case Instruction::FCmp: {
            auto* c = cast<FCmpInst>(I);
            RV A = opv(f, p.ops[0]), B = opv(f, p.ops[1]);
            if (A.agg) unsupported("vector fcmp");
            if (I->getOperand(0)->getType()->isX86_FP80Ty()) unsupported("long double comparison");
            f.regs[p.dest] = RV(fcmp(st, c->getPredicate(), A.v, B.v, I->getOperand(0)->getType()->isDoubleTy())); f.pc++;
            break;
        }
        case Instruction::Trunc: {
            Val a = opv(f, p.ops[0]).v;
            unsigned from = I->getOperand(0)->getType()->getIntegerBitWidth(), to = I->getType()->getIntegerBitWidth();
            Val r;
            if (from > 64 && a.k != KC) unsupported("wide trunc");
            if (a.k == KC) r = V(mask(a.c, to));
            else if (a.k == KREAL) r = a;
            else {
                Ex x = bits(a, from);
                if (to == 1) {
                    Ex c, t, e; uint64_t tv, ev;
                    if (isITE(x, c, t, e) && isNum(t, tv) && isNum(e, ev)) {
                        bool tb = tv & 1, eb = ev & 1;
                        r = tb == eb ? V(tb) : vBV(tb ? c : boolNot(c), 1, a.ud);
                    } else r = vBV(Ex(Z3_simplify(Z, mkEq(Ex(Z3_mk_extract(Z, 0, 0, x)), bvc(1, 1)))), 1, a.ud);
                } else r = vBV(Ex(Z3_simplify(Z, Ex(Z3_mk_extract(Z, to - 1, 0, x)))), to, a.ud);
            }
            f.regs[p.dest] = RV(r); f.pc++;
            break;
        }
        case Instruction::ZExt: case Instruction::SExt: {
            Val a = opv(f, p.ops[0]).v;
            unsigned from = I->getOperand(0)->getType()->getIntegerBitWidth(), to = I->getType()->getIntegerBitWidth();
            Val r;
            bool sg = p.opc == Instruction::SExt;
            if (a.k == KC) r = V(sg ? mask((uint64_t)sx64(a.c, from), to) : mask(a.c, from));
            else if (a.k == KREAL) r = a;
            else if (from == 1) r = vBV(mkIte(a.e, bvc(sg ? ~0ull : 1, to), bvc(0, to)), to, a.ud);
            else {
                Ex x = bits(a, from);
                r = vBV(Ex(sg ? Z3_mk_sign_ext(Z, to - from, x) : Z3_mk_zero_ext(Z, to - from, x)), to, a.ud);
            }
            f.regs[p.dest] = RV(r); f.pc++;
            break;
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Freeze: {
            RV a = opv(f, p.ops[0]);
            if (p.opc == Instruction::PtrToInt && I->getType()->getIntegerBitWidth() < 64) {
                unsigned to = I->getType()->getIntegerBitWidth();
                a = a.v.k == KC ? RV(V(mask(a.v.c, to))) : RV(vBV(Ex(Z3_mk_extract(Z, to - 1, 0, bits(a.v, 64))), to, a.v.ud));
            } else if (p.opc == Instruction::BitCast && (I->getType()->isVectorTy() != I->getOperand(0)->getType()->isVectorTy())) unsupported("vector bitcast");
            f.regs[p.dest] = a; f.pc++;
            break;
        }
        case Instruction::FPToUI: case Instruction::FPToSI: {
            Val a = opv(f, p.ops[0]).v;
            f.regs[p.dest] = RV(fpToInt(st, a, I->getOperand(0)->getType()->isDoubleTy(), I->getType()->getIntegerBitWidth(), p.opc == Instruction::FPToSI)); f.pc++;
            break;
        }
        case Instruction::UIToFP: case Instruction::SIToFP: {
            Val a = opv(f, p.ops[0]).v;
            if (I->getType()->isX86_FP80Ty()) unsupported("long double");
            Val r = intToFP(st, a, I->getOperand(0)->getType()->getIntegerBitWidth(), p.opc == Instruction::SIToFP, I->getType()->isDoubleTy());
            Frame& g = st.st.back();
            g.regs[p.dest] = RV(r); g.pc++;
            break;
        }
        case Instruction::FPExt: {
            if (I->getType()->isX86_FP80Ty()) unsupported("long double");
            f.regs[p.dest] = RV(fpExt(opv(f, p.ops[0]).v)); f.pc++; break;
        }
        case Instruction::FPTrunc: {
            if (I->getOperand(0)->getType()->isX86_FP80Ty()) unsupported("long double");
            f.regs[p.dest] = RV(fpTrunc(opv(f, p.ops[0]).v)); f.pc++; break;
        }
        case Instruction::Select: {
            Val c = opv(f, p.ops[0]).v;
            RV A = opv(f, p.ops[1]), B = opv(f, p.ops[2]);
            RV r;
            if (opv(f, p.ops[0]).agg) unsupported("vector select");
            if (c.k == KC) r = (c.c & 1) ? A : B;
            else if (A.agg) { r = branchVal(st, c, "select") ? A : B; }
            else {
                Val x = mkSelect(c.e, A.v, B.v, bitsOf(I->getType()), fpKind(I->getType()));
                x.ud = (x.k != KC) && (c.ud || A.v.ud || B.v.ud);
                r = RV(x);
            }
            Frame& g = st.st.back();
            g.regs[p.dest] = std::move(r); g.pc++;
            break;
        }
        case Instruction::ExtractValue: {
            auto* ev = cast<ExtractValueInst>(I);
            RV r = opv(f, p.ops[0]);
            for (unsigned i : ev->indices()) { RV t = (*r.agg)[i]; r = t; }
            f.regs[p.dest] = r; f.pc++;
            break;
        }
        case Instruction::InsertValue: {
            auto* iv = cast<InsertValueInst>(I);
            RV r = opv(f, p.ops[0]);
            RV v = opv(f, p.ops[1]);
            std::function<void(RV&, unsigned)> ins = [&](RV& x, unsigned d) {
                if (d == iv->getNumIndices()) { x = v; return; }
                x.agg = std::make_shared<vector<RV>>(*x.agg);
                ins((*x.agg)[iv->getIndices()[d]], d + 1);
            };
            ins(r, 0);
            f.regs[p.dest] = r; f.pc++;
            break;
        }
        case Instruction::ExtractElement: {
            RV r = opv(f, p.ops[0]);
            uint64_t i = concretize(st, opv(f, p.ops[1]).v, I->getOperand(1)->getType()->getIntegerBitWidth());
            st.st.back().regs[p.dest] = (*r.agg)[i]; advance(st);
            break;
        }
        case Instruction::InsertElement: {
            RV r = opv(f, p.ops[0]);
            r.agg = std::make_shared<vector<RV>>(*r.agg);
            (*r.agg)[opv(f, p.ops[2]).v.c] = opv(f, p.ops[1]);
            f.regs[p.dest] = r; f.pc++;
            break;
        }
        case Instruction::ShuffleVector: {
            auto* sv = cast<ShuffleVectorInst>(I);
            RV a = opv(f, p.ops[0]), b = opv(f, p.ops[1]), r;
            r.agg = std::make_shared<vector<RV>>();
            int n = a.agg->size();
            for (int m : sv->getShuffleMask()) r.agg->push_back(m < 0 ? RV(V(0)) : m < n ? (*a.agg)[m] : (*b.agg)[m - n]);
            f.regs[p.dest] = r; f.pc++;
            break;
        }
        case Instruction::AtomicRMW: {
            auto* rm = cast<AtomicRMWInst>(I);
            Val a = opv(f, p.ops[0]).v, v = opv(f, p.ops[1]).v;
            Type* t = rm->getValOperand()->getType();
            st.omp.crit++;
            RV old = loadRV(st, a, t, I);
            Val nv;
            switch (rm->getOperation()) {
            case AtomicRMWInst::Add: nv = intBin(st, Instruction::Add, old.v, v, bitsOf(t)); break;
            case AtomicRMWInst::Sub: nv = intBin(st, Instruction::Sub, old.v, v, bitsOf(t)); break;
            case AtomicRMWInst::Xchg: nv = v; break;
            case AtomicRMWInst::FAdd: nv = fpBin(st, Instruction::FAdd, old.v, v, t->isDoubleTy()); break;
            case AtomicRMWInst::Or: nv = intBin(st, Instruction::Or, old.v, v, bitsOf(t)); break;
            case AtomicRMWInst::And: nv = intBin(st, Instruction::And, old.v, v, bitsOf(t)); break;
            default: unsupported("atomicrmw");
            }
            storeRV(st, a, RV(nv), t, I);
            st.omp.crit--;
            Frame& g = st.st.back();
            g.regs[p.dest] = old; g.pc++;
            break;
        }
        case Instruction::AtomicCmpXchg: {
            auto* cx = cast<AtomicCmpXchgInst>(I);
            Val a = opv(f, p.ops[0]).v, c = opv(f, p.ops[1]).v, n = opv(f, p.ops[2]).v;
            Type* t = cx->getCompareOperand()->getType();
            st.omp.crit++;
            RV old = loadRV(st, a, t, I);
            Val eq = icmp(st, CmpInst::ICMP_EQ, old.v, c, bitsOf(t));
            bool b = branchVal(st, eq);
            if (b) storeRV(st, a, RV(n), t, I);
            st.omp.crit--;
            RV r; r.agg = std::make_shared<vector<RV>>();
            r.agg->push_back(old); r.agg->push_back(RV(V(b)));
            Frame& g = st.st.back();
            g.regs[p.dest] = r; g.pc++;
            break;
        }
        case Instruction::Fence: f.pc++; break;
        default: unsupported(string("instruction ") + I->getOpcodeName());
        }
    }
}

// ------------------------------------------------------------------ exploration, workers
static vector<pid_t> kids;
static void flushStats();
static void pathSample(State& st) {
    static int n = 0;
    // a deterministic spread of samples: first few, then by trail hash
    if (n >= optSamples) return;
    if (n >= optSamples / 2 && (st.trail & 7) != 3) return;
    n++;
    std::shared_ptr<Model> m = st.model;
    if (!m) { if (solve(st, Ex(), &m) != Z3_L_TRUE) return; }
    if (linked(st, Ex(), m) != 1) return;
    string obs = "[";
    bool first = true;
    for (auto& o : st.obs) {
        uint64_t v = 0; bool ok = true;
        if (o.second.k == KC) v = o.second.c;
        else if (o.second.k == KBV) {
            if (Z3_get_sort_kind(Z, Z3_get_sort(Z, o.second.e)) == Z3_BOOL_SORT) { Z3_ast r; ok = Z3_model_eval(Z, m->m, o.second.e, true, &r); if (ok) { Ex e(r); v = Z3_get_bool_value(Z, e) == Z3_L_TRUE; } }
            else ok = evalBV(m, o.second.e, v);
        } else if (o.second.k == KIFP) { ok = evalBV(m, o.second.e, v); v = ofD((double)(int64_t)v); }
        else if (o.second.k == KFPA) ok = evalBV(m, Ex(Z3_mk_fpa_to_ieee_bv(Z, o.second.e)), v);
        else ok = false;
        obs += string(first ? "" : ",") + "[\"" + jesc(o.first) + "\"," + (ok ? "\"" + hex(v) + "\"" : "null") + "]";
        first = false;
    }
    obs += string(first ? "" : ",") + "[\"#assertions\",\"" + hex(st.nchk) + "\"],[\"#names\",\"" + hex(st.hchk) + "\"]]";
    fprintf(outf, "{\"t\":\"sample\",\"model\":%s,\"obs\":%s}\n", modelJson(st, m).c_str(), obs.c_str());
}
static void exploreAll() {
    while (!work.empty()) {
        if (SH->stop || now() > Deadline) {
            S.incomplete += work.size();
            if (now() > Deadline) S.unsup["time limit reached"] = "";
            work.clear(); break;
        }
        std::unique_ptr<State> st = std::move(work.back());
        work.pop_back();
        try { runPath(*st); }
        catch (PathEnd& e) {
            if (e.why == PE_DONE) {
                S.paths++;
                for (auto& r : st->reach) S.reach[r]++;
                try { pathSample(*st); } catch (PathEnd&) {}
            } else if (e.why == PE_INFEASIBLE) S.infeasible++;
            else if (e.why == PE_ERROR) S.paths++;
            else if (e.why == PE_LIMIT && (SH->stop || now() > Deadline)) { S.incomplete++; if (now() > Deadline) S.unsup["time limit reached"] = ""; }
        }
        CS = nullptr;
    }
}
static void childMain() {
    exploreAll();
    __sync_fetch_and_sub(&SH->live, 1);
    for (pid_t k : kids) { int w; waitpid(k, &w, 0); if (!WIFEXITED(w) || WEXITSTATUS(w)) { S.incomplete++; S.unsup["a worker process died"] = ""; } }
    kids.clear();
    flushStats();
    _exit(0);
}
static void spawnMaybe() {
    if (optWorkers <= 1 || work.empty()) return;
    if (SH->live >= optWorkers) return;
    if (work.size() < 1) return;
    if (__sync_add_and_fetch(&SH->live, 1) > optWorkers) { __sync_fetch_and_sub(&SH->live, 1); return; }
    fflush(outf);
    pid_t pid = fork();
    if (pid < 0) { __sync_fetch_and_sub(&SH->live, 1); return; }
    if (pid == 0) {
        std::unique_ptr<State> st = std::move(work.front());
        for (auto& w : work) if (w) w.release();   // leak the others: cheap
        work.clear();
        work.push_back(std::move(st));
        kids.clear();
        S = Stats();
        openOut();
        childMain();
    }
    kids.push_back(pid);
    work.erase(work.begin());
}
static void flushStats() {
    fprintf(outf, "{\"t\":\"stats\",\"paths\":%lu,\"infeasible\":%lu,\"instrs\":%lu,\"forks\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,"
            "\"checks_concrete\":%lu,\"checks_solver\":%lu,\"incomplete\":%lu,\"unsupported\":%lu,\"modelhits\":%lu,\"solver_s\":%.3f,\"checks\":{",
            S.paths, S.infeasible, S.instrs, S.forks, S.queries, S.sat, S.unsat, S.unknown, S.checksConc, S.checksSolver, S.incomplete, S.unsupported, S.modelhits, S.solver);
    bool f = true;
    for (auto& c : S.checks) { fprintf(outf, "%s\"%s\":%lu", f ? "" : ",", jesc(c.first).c_str(), c.second); f = false; }
    fprintf(outf, "},\"reach\":{"); f = true;
    for (auto& c : S.reach) { fprintf(outf, "%s\"%s\":%lu", f ? "" : ",", jesc(c.first).c_str(), c.second); f = false; }
    fprintf(outf, "},\"unsup\":{"); f = true;
    for (auto& c : S.unsup) { fprintf(outf, "%s\"%s\":\"%s\"", f ? "" : ",", jesc(c.first).c_str(), jesc(c.second).c_str()); f = false; }
    fprintf(outf, "},\"funcs\":["); f = true;
    for (auto& c : S.funcs) { fprintf(outf, "%s\"%s\"", f ? "" : ",", jesc(c).c_str()); f = false; }
    fprintf(outf, "]}\n");
    fclose(outf);
}
int main(int argc, char** argv) {
    string bc, entry = "main";
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        auto nx = [&]() { return string(argv[++i]); };
        if (a == "--time") optTime = atof(nx().c_str());
        else if (a == "--workers") optWorkers = atoi(nx().c_str());
        else if (a == "--out") optOut = nx();
        else if (a == "--entry") entry = nx();
        else if (a == "--real") optReal = true;
        else if (a == "--realfork") optReal = optRealFork = true;
        else if (a == "--rlimit") optRlimit = atoll(nx().c_str());
        else if (a == "--max-errors") optMaxErr = atoi(nx().c_str());
        else if (a == "--max-steps") optMaxSteps = atol(nx().c_str());
        else if (a == "--omp-threads") optThreads = atoi(nx().c_str());
        else if (a == "--omp-reverse") optOrder = 1;
        else if (a == "--samples") optSamples = atoi(nx().c_str());
        else if (a == "--no-uninit") optUninit = false;
        else if (a == "--param") { string kv = nx(); size_t k = kv.find('='); optParams[kv.substr(0, k)] = atoll(kv.c_str() + k + 1); }
        else bc = a;
    }
    T0 = now(); Deadline = T0 + optTime;
    SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)SH, 0, sizeof(Shared));
    SH->live = 1;
    Z3_global_param_set("memory_max_size", "3500");
    Z3_config cfg = Z3_mk_config();
    Z = Z3_mk_context_rc(cfg);
    Z3_set_error_handler(Z, zerr);
    sBool = Z3_mk_bool_sort(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, sBool));
    sF32 = Z3_mk_fpa_sort_32(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, sF32));
    sF64 = Z3_mk_fpa_sort_64(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, sF64));
    sReal = Z3_mk_real_sort(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, sReal));
    sInt = Z3_mk_int_sort(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, sInt));
    RNE = Z3_mk_fpa_rne(Z); Z3_inc_ref(Z, RNE);
    RTZ = Z3_mk_fpa_rtz(Z); Z3_inc_ref(Z, RTZ);
    eTrue = Ex(Z3_mk_true(Z)); eFalse = Ex(Z3_mk_false(Z));
    solBV = mkBV();
    solGen = Z3_mk_solver(Z); Z3_solver_inc_ref(Z, solGen);
    openOut();
    LLVMContext ctx;
    SMDiagnostic err;
    std::unique_ptr<Module> mod = parseIRFile(bc, err, ctx);
    if (!mod) { err.print("sx", errs()); return 3; }
    M = mod.get();
    DL = &M->getDataLayout();
    auto st = std::make_unique<State>();
    setupGlobals(*st);
    Function* mainF = M->getFunction(entry);
    if (!mainF || mainF->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    // static constructors run first: chain them as frames below main
    vector<RV> margs;
    for (unsigned i = 0; i < mainF->arg_size(); i++) margs.push_back(RV(V(0)));
    pushFrame(*st, mainF, margs);
    vector<std::pair<uint64_t, Function*>> ctors;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors"))
        if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
            for (auto& o : ca->operands()) {
                auto* cs = cast<ConstantStruct>(o);
                if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.emplace_back(cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F);
            }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    // run constructors to completion one by one (they must not fork)
    for (auto& c : ctors) {
        State tmp(*st);
        tmp.st.clear();
        pushFrame(tmp, c.second, {});
        try { runPath(tmp); } catch (PathEnd& e) {
            if (e.why != PE_DONE || !work.empty()) { fprintf(stderr, "static constructor did not finish\n"); S.incomplete++; S.unsup["static constructor"] = c.second->getName().str(); }
            work.clear();
        }
        auto keep = std::move(st->st);
        *st = std::move(tmp);
        st->st = std::move(keep);
        st->nsteps = 0;
    }
    if (M->getGlobalVariable("llvm.global_ctors")) {}
    work.push_back(std::move(st));
    try { exploreAll(); } catch (PathEnd&) {}
    __sync_fetch_and_sub(&SH->live, 1);
    for (pid_t k : kids) { int w; waitpid(k, &w, 0); if (!WIFEXITED(w) || WEXITSTATUS(w)) { S.incomplete++; S.unsup["a worker process died"] = ""; } }
    flushStats();
    fprintf(stderr, "sx: wall %.1fs\n", now() - T0);
    _exit(0);
}
