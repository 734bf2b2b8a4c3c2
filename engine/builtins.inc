// ------------------------------------------------------------------ builtin functions
static void ompThreadDone(State& st);
static string cstr(State& st, const Val& p) {
    string s;
    uint64_t a = concretize(st, p, 64);
    for (int i = 0; i < 4096; i++) {
        Val b = loadScalar(st, V(a + i), 8, 0, nullptr);
        uint64_t c = b.k == KC ? b.c : concretize(st, b, 8);
        if (!c) break;
        s += (char)c;
    }
    return s;
}
static string symName(State& st, const string& base) {
    int k = st.symcnt[base]++;
    return base + "#" + std::to_string(k);
}
static void doCopy(State& st, uint64_t dst, uint64_t src, uint64_t n, bool move, const Instruction* I) {
    if (n == 0) return;
    uint64_t so, dofs;
    Obj* s = access(st, V(src), n, false, so, nullptr);
    Obj* d0 = access(st, V(dst), n, true, dofs, nullptr);
    if (st.omp.active) { ompLog(st, src, n, false, s, I); ompLog(st, dst, n, true, d0, I); }
    if (!move && src != dst && ((src < dst && src + n > dst) || (dst < src && dst + n > src)))
        memError(st, "memcpy with overlapping blocks");
    std::shared_ptr<Data> sd = s->d;  // keep alive, immutable copy semantics
    vector<uint8_t> b(sd->b.begin() + so, sd->b.begin() + so + n), t(sd->st.begin() + so, sd->st.begin() + so + n);
    std::map<uint32_t, Sym> syms;
    // make boundary entries byte-wise
    if (!sd->sym.empty()) {
        bool cutL = t[0] == 3, cutR = so + n < sd->st.size() && sd->st[so + n] == 3;
        if (cutL || cutR) {
            Data& w = wdata(*s);
            if (cutL) { uint32_t x = so; while (w.st[x] == 3) x--; splitSym(w, x); }
            if (so + n < w.st.size() && w.st[so + n] == 3) { uint32_t x = so + n; while (w.st[x] == 3) x--; splitSym(w, x); }
            sd = s->d;
            b.assign(sd->b.begin() + so, sd->b.begin() + so + n); t.assign(sd->st.begin() + so, sd->st.begin() + so + n);
        }
        for (auto it = sd->sym.lower_bound(so); it != sd->sym.end() && it->first < so + n; ++it) syms[it->first - so] = it->second;
    }
    d0 = findObj(st, dst, true);
    Data& d = wdata(*d0);
    clearRange(d, dofs, n);
    memcpy(&d.b[dofs], b.data(), n);
    memcpy(&d.st[dofs], t.data(), n);
    for (auto& x : syms) d.sym[x.first + dofs] = x.second;
}
static void doSet(State& st, uint64_t dst, const Val& v, uint64_t n, const Instruction* I) {
    if (n == 0) return;
    uint64_t off;
    Obj* o = access(st, V(dst), n, true, off, nullptr);
    if (st.omp.active) ompLog(st, dst, n, true, o, I);
    Data& d = wdata(*o);
    clearRange(d, off, n);
    if (v.k == KC) { memset(&d.b[off], v.c & 0xff, n); memset(&d.st[off], 1, n); return; }
    for (uint64_t i = 0; i < n; i++) { d.sym[off + i] = Sym{1, v}; d.st[off + i] = 2; }
}
static void doFree(State& st, uint64_t p, OK kind) {
    if (!p) return;
    auto it = st.mem.find(p);
    if (it == st.mem.end()) memError(st, "free of an address that is not the start of an allocation: " + describe(st, p));
    Obj& o = it->second;
    if (!o.alive) memError(st, "double free: " + describe(st, p));
    if (o.kind != kind) memError(st, string("mismatched release: block from ") + kindName(o.kind) + " released as " + kindName(kind));
    o.alive = false;
    o.d = std::make_shared<Data>();
}
static Val ufApp(State& st, const char* nm, const vector<Val>& a, bool dbl) {
    (void)st;
    unsigned n = dbl ? 64 : 32;
    Z3_sort dom[3]; Z3_ast av[3]; vector<Ex> keep;
    for (size_t i = 0; i < a.size(); i++) { dom[i] = sBV(n); keep.push_back(bits(a[i], n)); av[i] = keep.back(); }
    string f = string("uf_") + nm + (dbl ? "" : "f");
    Z3_func_decl d = Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, f.c_str()), a.size(), dom, sBV(n));
    Val r; r.k = KBV; r.e = Ex(Z3_mk_app(Z, d, a.size(), av));
    for (auto& x : a) r.ud |= x.ud;
    return r;
}
static Val roundFP(State& st, const Val& v, bool dbl, int mode) {  // 0 floor 1 ceil 2 trunc 3 nearest-even 4 round-away
    if (v.k == KC) {
        double d = fpd(v, dbl);
        double r = mode == 0 ? std::floor(d) : mode == 1 ? std::ceil(d) : mode == 2 ? std::trunc(d) : mode == 3 ? std::nearbyint(d) : std::round(d);
        return V(dbl ? ofD(r) : ofF((float)r));
    }
    if (v.k == KIFP) return v;
    if (v.k == KREAL) {
        Ex fl(Z3_mk_int2real(Z, Ex(Z3_mk_real2int(Z, v.e))));
        if (mode == 0) return vREAL(fl, v.ud);
        Ex ng(Z3_mk_unary_minus(Z, v.e));
        Ex ce(Z3_mk_unary_minus(Z, Ex(Z3_mk_int2real(Z, Ex(Z3_mk_real2int(Z, ng))))));
        if (mode == 1) return vREAL(ce, v.ud);
        if (mode == 2) { Ex z(Z3_mk_numeral(Z, "0", sReal)); return vREAL(mkIte(Ex(Z3_mk_ge(Z, v.e, z)), fl, ce), v.ud); }
        unsupported("rounding in real mode");
    }
    Ex rm = mode == 0 ? Ex(Z3_mk_fpa_rtn(Z)) : mode == 1 ? Ex(Z3_mk_fpa_rtp(Z)) : mode == 2 ? Ex(RTZ) : mode == 3 ? Ex(RNE) : Ex(Z3_mk_fpa_rna(Z));
    (void)st;
    return vFPA(Ex(Z3_mk_fpa_round_to_integral(Z, rm, fpaOf(v, dbl))), v.ud);
}
static Val sqrtFP(State& st, const Val& v, bool dbl) {
    if (v.k == KC) return V(dbl ? ofD(std::sqrt(asD(v.c))) : ofF(std::sqrt(asF(v.c))));
    if (optReal || v.k == KREAL) {
        Ex x = realOfFP(v, dbl);
        Ex z(Z3_mk_numeral(Z, "0", sReal));
        if (!branch(st, Ex(Z3_simplify(Z, Ex(Z3_mk_ge(Z, x, z)))))) unsupported("square root of a negative value in real mode");
        return vREAL(realSqrt(st, x), v.ud);
    }
    return vFPA(Ex(Z3_mk_fpa_sqrt(Z, RNE, fpaOf(v, dbl))), v.ud);
}
static void doCheck(State& st, const string& id, const Val& c) {
    S.checks[id]++;
    if (c.k == KC) {
        S.checksConc++;
        if (!(c.c & 1)) {
            auto m = st.model;
            if (linked(st, Ex(), m) == 0) throw PathEnd{PE_INFEASIBLE};
            reportError(st, "check", id, "assertion can fail", m); throw PathEnd{PE_ERROR};
        }
        return;
    }
    S.checksSolver++;
    bool mv; std::shared_ptr<Model> om;
    if (c.ud) { /* still decide it */ }
    Ex s(Z3_simplify(Z, c.e));
    int d = decide(st, s, mv, om);
    if (d == 1) return;
    if (d == 0) {
        ensureModel(st);
        auto m = st.model;
        if (linked(st, Ex(), m) == 0) throw PathEnd{PE_INFEASIBLE};
        reportError(st, "check", id, "assertion fails on this path", m); throw PathEnd{PE_ERROR};
    }
    if (!st.links.empty()) {
        std::shared_ptr<Model> m = mv ? om : st.model;
        int k = linked(st, boolNot(s), m);
        if (k != 0) reportError(st, "check", id, k < 0 ? "assertion not decided" : "assertion can fail", m);
    } else
    reportError(st, "check", id, "assertion can fail", mv ? om : st.model);
    // continue on the side where it holds
    if (!mv) st.model = om;
    addPC(st, s);
}
// ---- OpenMP
static void ompStartThread(State& st) {
    int t = st.omp.next++;
    if (optOrder) t = st.omp.nthreads - 1 - t;
    st.omp.tid = t;
    const Function* F = faddr[st.omp.fn];
    Obj& g = allocObj(st, 4, OSTACK);
    uint64_t ga = g.base;
    storeAt(g, 0, V((uint64_t)t), 4, 32);
    vector<RV> a{RV(V(ga)), RV(V(ga))};
    for (auto& x : st.omp.args) a.push_back(RV(x));
    pushFrame(st, F, a);
}
static void ompFinish(State& st) {
    // conflicts between different threads
    auto& L = st.omp.log;
    for (size_t i = 0; i < L.size(); i++)
        for (size_t j = i + 1; j < L.size(); j++) {
            if (L[i].empty() || L[j].empty()) continue;
            auto& a = L[i][0]; auto& b = L[j][0];
            auto ia = a.begin(); auto ib = b.begin();
            while (ia != a.end() && ib != b.end()) {
                if (ia->first < ib->first) ++ia;
                else if (ib->first < ia->first) ++ib;
                else {
                    int x = ia->second.first, y = ib->second.first;
                    if (((x | y) & 2) || ((x & 8) && (y & 1)) || ((y & 8) && (x & 1))) {
                        string fn = demangle(faddr[st.omp.fn]->getName().str());
                        reportError(st, "race", "race", "two threads access the same memory, one of them writing, in a parallel loop: " + describe(st, ia->first), st.model);
                        throw PathEnd{PE_ERROR};
                    }
                    ++ia; ++ib;
                }
            }
        }
    st.omp = OmpState();
}
static void ompThreadDone(State& st) {
    if (st.omp.next < st.omp.nthreads) { ompStartThread(st); return; }
    ompFinish(st);
    S.reach["omp-region"]++;
    finishCall(st, RV());
}

typedef int (*BF)(State&, const Function*, const CallBase*, vector<RV>&, RV&);
static std::unordered_map<string, std::function<int(State&, const CallBase*, vector<RV>&, RV&)>> BT;
static std::unordered_map<const Function*, std::function<int(State&, const CallBase*, vector<RV>&, RV&)>*> BC;

#define B(nm) BT[nm] = [](State & st, const CallBase* cb, vector<RV>& a, RV& r) -> int
#define U (void)st; (void)cb; (void)a; (void)r;
static int newImpl(State& st, vector<RV>& a, RV& r, OK k, const CallBase* cb, bool throws) {
    // allocation sizes beyond 2^28 make the real operator throw / malloc fail or succeed lazily; the size is made concrete
    Val n = a[0].v;
    if (n.k != KC) {
        Ex big(Z3_mk_bvugt(Z, bits(n, 64), bvc(1ull << 28, 64)));
        if (branch(st, Ex(Z3_simplify(Z, big)))) {
            if (throws) { throwStd(st, "_ZTISt9bad_alloc"); return 2; }
            r = RV(V(0)); return 1;
        }
    } else if (n.c > (1ull << 28)) {
        if (throws) { throwStd(st, "_ZTISt9bad_alloc"); return 2; }
        r = RV(V(0)); return 1;
    }
    uint64_t s = concretize(st, n, 64);
    if (!throws && k != OMALLOC && st.failAfter >= 0 && st.failAfter-- == 0) { r = RV(V(0)); return 1; }
    Obj& o = allocObj(st, s, k, cb);
    r = RV(V(o.base));
    return 1;
}
static double hostFn(const string& n, double x) {
    if (n == "exp") return exp(x); if (n == "log") return log(x); if (n == "log10") return log10(x); if (n == "log2") return log2(x);
    if (n == "sin") return sin(x); if (n == "cos") return cos(x); if (n == "tan") return tan(x); if (n == "atan") return atan(x);
    if (n == "asin") return asin(x); if (n == "acos") return acos(x); if (n == "exp2") return exp2(x); if (n == "tanh") return tanh(x);
    if (n == "cbrt") return cbrt(x); if (n == "sinh") return sinh(x); if (n == "cosh") return cosh(x);
    return 0;
}
// Ties rec.val to its digits: exactly when there are few of them, otherwise by injectivity against the numbers of the
// same length seen so far, the arithmetic link being kept aside for counterexamples.
static void decLink(State& st, const DecRec& rec, const Ex& h, Ex ok) {
    Ex link = mkEq(h, rec.val);
    if (rec.dg.size() <= 4) ok = mkAnd(ok, link);
    else {
        for (auto& d : st.dec) if (d.dg.size() == rec.dg.size()) {
            Ex all = eTrue;
            for (size_t i = 0; i < d.dg.size(); i++) all = mkAnd(all, mkEq(d.dg[i], rec.dg[i]));
            ok = mkAnd(ok, mkEq(all, mkEq(d.val, rec.val)));
        }
        st.links.push_back(link);
    }
    ok = Ex(Z3_simplify(Z, ok));
    std::shared_ptr<Model> m;
    Z3_lbool q = solve(st, ok, &m);
    if (q == Z3_L_FALSE) throw PathEnd{PE_INFEASIBLE};
    if (q == Z3_L_UNDEF) { S.incomplete++; S.unsup["solver gave up on a decimal conversion"] = ""; throw PathEnd{PE_LIMIT}; }
    st.model = m;
    addPC(st, ok);
}
static void initBuiltins() {
    // --- symbolic inputs: uint64_t sx_bits(const char* name, int bits)
    B("sx_bits") { U
        string nm = symName(st, cstr(st, a[0].v));
        unsigned n = a[1].v.c;
        Val v; v.k = KBV; v.e = Ex(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), sBV(n)));
        st.syms.push_back({nm, v, (int)n, false});
        if (n < 64) v = vBV(Ex(Z3_mk_zero_ext(Z, 64 - n, v.e)), 64);
        r = RV(v); return 1; };
    B("sx_ifp") { U  // double sx_ifp(name, lo, hi): integer-valued double
        string nm = symName(st, cstr(st, a[0].v));
        int64_t lo = a[1].v.c, hi = a[2].v.c;
        // as few bits as the range needs
        unsigned w = 1; while (w < 64 && ((hi - lo) >> w)) w++;
        Ex raw(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), sBV(w)));
        Ex e(Z3_mk_bvadd(Z, Ex(Z3_mk_zero_ext(Z, 64 - w, raw)), bvc((uint64_t)lo, 64)));
        if (w < 63 && (uint64_t)(hi - lo) != (1ull << w) - 1) { st.model.reset(); addPC(st, Ex(Z3_mk_bvule(Z, raw, bvc((uint64_t)(hi - lo), w)))); }
        Val v = vIFP(e, lo, hi, true);
        st.syms.push_back({nm, v, 64, true});
        r = RV(v); return 1; };
    B("sx_real") { U
        string nm = symName(st, cstr(st, a[0].v));
        Ex e(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), sReal));
        Val v = vREAL(e); st.syms.push_back({nm, v, 64, true}); r = RV(v); return 1; };
    B("sx_realint") { U
        string nm = symName(st, cstr(st, a[0].v));
        Ex e(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), sInt));
        Val v = vREAL(Ex(Z3_mk_int2real(Z, e))); st.syms.push_back({nm, v, 64, false});
        st.model.reset();
        addPC(st, Ex(Z3_mk_ge(Z, e, Ex(Z3_mk_int64(Z, (int64_t)a[1].v.c, sInt)))));
        addPC(st, Ex(Z3_mk_le(Z, e, Ex(Z3_mk_int64(Z, (int64_t)a[2].v.c, sInt)))));
        r = RV(v); return 1; };
    B("sx_assume") { U
        Val c = a[0].v;
        if (c.k == KC) { if (!(c.c & 1)) throw PathEnd{PE_INFEASIBLE}; return 1; }
        Ex e = Z3_get_sort_kind(Z, Z3_get_sort(Z, c.e)) == Z3_BOOL_SORT ? c.e : boolNot(mkEq(c.e, bvc(0, 32)));
        e = Ex(Z3_simplify(Z, e));
        Z3_lbool b = Z3_get_bool_value(Z, e);
        if (b == Z3_L_FALSE) throw PathEnd{PE_INFEASIBLE};
        if (b == Z3_L_TRUE) return 1;
        auto it = st.known.find(astid(e));
        if (it != st.known.end()) { if (it->second.second) return 1; throw PathEnd{PE_INFEASIBLE}; }
        int v = evalBool(st, e);
        if (v != 1) {
            std::shared_ptr<Model> m;
            Z3_lbool q = solve(st, e, &m);
            if (q == Z3_L_FALSE) throw PathEnd{PE_INFEASIBLE};
            if (q == Z3_L_UNDEF) { S.incomplete++; S.unsup["solver gave up on an assumption"] = ""; throw PathEnd{PE_LIMIT}; }
            st.model = m;
        }
        addPC(st, e);
        return 1; };
    B("sx_check") { U
        string id = cstr(st, a[0].v);
        Val c = a[1].v;
        if (c.k != KC && Z3_get_sort_kind(Z, Z3_get_sort(Z, c.e)) != Z3_BOOL_SORT) c = vBV(boolNot(mkEq(c.e, bvc(0, 32))), 1, c.ud);
        else if (c.k == KC) c.c = c.c != 0;
        st.nchk++;
        for (char x : id + "\n") st.hchk = (st.hchk ^ (unsigned char)x) * 1099511628211ull;
        doCheck(st, id, c); return 1; };
    B("sx_reach") { U st.reach.push_back(cstr(st, a[0].v)); return 1; };
    B("sx_observe") { U st.obs.emplace_back(cstr(st, a[0].v), a[1].v); return 1; };
    B("sx_observe_d") { U st.obs.emplace_back(cstr(st, a[0].v), a[1].v); return 1; };
    B("sx_valid") { U                                  // is the condition true for every value on this path?  (no fork)
        if (a[0].v.k == KC) { r = RV(V(a[0].v.c & 1)); return 1; }
        Ex c = boolOf(a[0].v);
        bool v = evalBool(st, c) != 0 && solve(st, boolNot(c), nullptr) == Z3_L_FALSE;
        r = RV(V(v)); return 1; };
    B("sx_fork") { U r = RV(V(concretize(st, a[0].v, 64))); return 1; };
    B("sx_param") { U
        string k = cstr(st, a[0].v);
        if (!optParams.count(k)) unsupported("no parameter " + k);
        r = RV(V(optParams[k])); return 1; };
    B("sx_native") { U r = RV(V(0)); return 1; };
    B("sx_print") { U fprintf(stderr, "[sx] %s %s\n", cstr(st, a[0].v).c_str(), a[1].v.k == KC ? hex(a[1].v.c).c_str() : "sym"); return 1; };
    B("sx_fail") { U string m = cstr(st, a[0].v); unsupported("model: " + m); return 1; };
    B("sx_alloc_fail") { U st.failAfter = (int64_t)sx64(concretize(st, a[0].v, 32), 32); return 1; };  // the n-th "new (nothrow)" from now on gives null
    B("sx_heap_mark") { U r = RV(V(st.seq)); return 1; };
    B("sx_heap_check") { U  // every heap block allocated since the mark has been released
        uint64_t mk = a[1].v.c;
        for (auto& kv : st.mem) {
            Obj& o = kv.second;
            if ((o.kind == OMALLOC || o.kind == ONEW || o.kind == ONEWARR) && o.alive && o.seq >= mk) {
                string fn = o.site ? demangle(o.site->getFunction()->getName().str()) : "";
                S.checks[cstr(st, a[0].v)]++;
                reportError(st, "leak", cstr(st, a[0].v), string("memory leak: ") + kindName(o.kind) + " block of " + std::to_string(o.size) + " bytes allocated in " + fn.substr(0, 160), st.model);
                throw PathEnd{PE_ERROR};
            }
        }
        S.checks[cstr(st, a[0].v)]++; S.checksConc++;
        return 1; };
    B("sx_ptr_ok") { U  // is [p, p+n) inside one live block?
        uint64_t p = concretize(st, a[0].v, 64), n = concretize(st, a[1].v, 64);
        Obj* o = findObj(st, p, false);
        r = RV(V(o && o->alive && p - o->base + n <= o->size)); return 1; };
    B("sx_bytes_init") { U  // are all n bytes at p initialised?
        uint64_t p = concretize(st, a[0].v, 64), n = concretize(st, a[1].v, 64), off;
        Obj* o = access(st, V(p), n, false, off, nullptr);
        bool ok = true;
        for (uint64_t i = 0; i < n; i++) if (o->d->st[off + i] == 0) ok = false;
        r = RV(V(ok)); return 1; };
    // --- memory
    auto nw = [](OK k, bool thr) { return [k, thr](State& st, const CallBase* cb, vector<RV>& a, RV& r) -> int { return newImpl(st, a, r, k, cb, thr); }; };
    BT["_Znwm"] = nw(ONEW, true); BT["_Znam"] = nw(ONEWARR, true); BT["malloc"] = nw(OMALLOC, false);
    BT["_ZnwmRKSt9nothrow_t"] = nw(ONEW, false); BT["_ZnamRKSt9nothrow_t"] = nw(ONEWARR, false);
    B("calloc") { U
        uint64_t n = concretize(st, a[0].v, 64) * concretize(st, a[1].v, 64);
        if (n > (1ull << 28)) { r = RV(V(0)); return 1; }
        Obj& o = allocObj(st, n, OMALLOC, cb);
        for (auto& x : o.d->st) x = 1;
        r = RV(V(o.base)); return 1; };
    B("realloc") { U
        uint64_t p = concretize(st, a[0].v, 64), n = concretize(st, a[1].v, 64);
        if (n > (1ull << 28)) { r = RV(V(0)); return 1; }
        uint64_t nb = allocObj(st, n, OMALLOC, cb).base;
        if (p) {
            auto it = st.mem.find(p);
            if (it == st.mem.end() || !it->second.alive || it->second.kind != OMALLOC) memError(st, "realloc of an invalid block");
            doCopy(st, nb, p, std::min<uint64_t>(n, it->second.size), false, cb);
            doFree(st, p, OMALLOC);
        }
        r = RV(V(nb)); return 1; };
    auto fr = [](OK k) { return [k](State& st, const CallBase*, vector<RV>& a, RV&) -> int { doFree(st, concretize(st, a[0].v, 64), k); return 1; }; };
    BT["_ZdlPv"] = fr(ONEW); BT["_ZdlPvm"] = fr(ONEW); BT["_ZdaPv"] = fr(ONEWARR); BT["_ZdaPvm"] = fr(ONEWARR); BT["free"] = fr(OMALLOC);
    BT["_ZdlPvRKSt9nothrow_t"] = fr(ONEW); BT["_ZdaPvRKSt9nothrow_t"] = fr(ONEWARR);
    B("memcpy") { U uint64_t d = concretize(st, a[0].v, 64), s = concretize(st, a[1].v, 64), n = concretize(st, a[2].v, 64); doCopy(st, d, s, n, false, cb); r = RV(V(d)); return 1; };
    B("memmove") { U uint64_t d = concretize(st, a[0].v, 64), s = concretize(st, a[1].v, 64), n = concretize(st, a[2].v, 64); doCopy(st, d, s, n, true, cb); r = RV(V(d)); return 1; };
    B("memset") { U
        uint64_t d = concretize(st, a[0].v, 64), n = concretize(st, a[2].v, 64);
        Val v = a[1].v;
        if (v.k != KC) v = vBV(Ex(Z3_mk_extract(Z, 7, 0, bits(v, 32))), 8, v.ud);
        doSet(st, d, v, n, cb); r = RV(V(d)); return 1; };
    B("memcmp") { U
        uint64_t p = concretize(st, a[0].v, 64), q = concretize(st, a[1].v, 64), n = concretize(st, a[2].v, 64), po, qo;
        if (n == 0) { r = RV(V(0)); return 1; }
        Obj* x = access(st, V(p), n, false, po, nullptr); Obj* y = access(st, V(q), n, false, qo, nullptr);
        if (st.omp.active) { ompLog(st, p, n, false, x, cb); ompLog(st, q, n, false, y, cb); }
        Val res = V(0);
        for (uint64_t i = n; i-- > 0;) {
            Val c = loadAt(*x, po + i, 1, 8), d = loadAt(*y, qo + i, 1, 8);
            if (c.k == KC && d.k == KC) {
                if (c.c != d.c) res = V(mask((uint64_t)((int64_t)c.c - (int64_t)d.c), 32));
                continue;
            }
            Val eq = icmp(st, CmpInst::ICMP_EQ, c, d, 8);
            Ex c32(Z3_mk_zero_ext(Z, 24, bits(c, 8))), d32(Z3_mk_zero_ext(Z, 24, bits(d, 8)));
            Val df = vBV(Ex(Z3_mk_bvsub(Z, c32, d32)), 32);
            bool ud = c.ud || d.ud || res.ud;
            if (eq.k == KC) { if (!(eq.c & 1)) res = df; }
            else res = mkSelect(eq.e, res, df, 32, 0);
            if (res.k != KC) res.ud = ud;
        }
        r = RV(res); return 1; };
    B("memchr") { U
        uint64_t p = concretize(st, a[0].v, 64), n = concretize(st, a[2].v, 64), po;
        if (n == 0) { r = RV(V(0)); return 1; }
        Obj* x = access(st, V(p), n, false, po, nullptr);
        if (st.omp.active) ompLog(st, p, n, false, x, cb);
        Val ch = a[1].v.k == KC ? V(a[1].v.c & 255) : vBV(Ex(Z3_mk_extract(Z, 7, 0, bits(a[1].v, 32))), 8, a[1].v.ud);
        Val res = V(0);
        for (uint64_t i = n; i-- > 0;) {
            Val eq = icmp(st, CmpInst::ICMP_EQ, loadAt(*x, po + i, 1, 8), ch, 8);
            bool ud = eq.ud || res.ud;
            if (eq.k == KC) { if (eq.c & 1) res = V(p + i); }
            else res = mkSelect(eq.e, V(p + i), res, 64, 0);
            if (res.k != KC) res.ud = ud;
        }
        r = RV(res); return 1; };
    B("strlen") { U
        uint64_t p = concretize(st, a[0].v, 64);
        for (uint64_t i = 0;; i++) {
            Val c = loadScalar(st, V(p + i), 8, 0, cb);
            Val z = icmp(st, CmpInst::ICMP_EQ, c, V(0), 8);
            if (branchVal(st, z)) { r = RV(V(i)); return 1; }
        } };
    // --- services for the runtime model
    B("sx_sysalloc") { U Obj& o = allocObj(st, concretize(st, a[0].v, 64), OGLOBAL, cb); r = RV(V(o.base)); return 1; };
    // Decimal digits.  bool sx_dec_print(uint64_t m, int n, char* end): writes the n digits of m before end.
    // bool sx_dec_parse(const void* p, int stride, int n, uint64_t* out): the number of the n digit characters at p.
    B("sx_dec_print") { U
        Ex e(Z3_simplify(Z, bits(a[0].v, 64)));
        int n = a[1].v.c; uint64_t end = concretize(st, a[2].v, 64);
        const DecRec* hit = nullptr;
        for (auto& d : st.dec) if ((int)d.dg.size() == n && d.val.a == e.a) { hit = &d; break; }
        if (!hit) for (auto& d : st.dec) if ((int)d.dg.size() == n) {
            Ex eq = mkEq(d.val, e);
            if (evalBool(st, eq) == 0) continue;
            if (solve(st, boolNot(eq), nullptr) == Z3_L_FALSE) { hit = &d; break; }
        }
        DecRec rec;
        if (!hit) {
            rec.val = e;
            Ex h = bvc(0, 64), ok = eTrue;
            for (int i = 0; i < n; i++) {
                string nm = symName(st, "digit");
                Ex d(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), sBV(4)));
                rec.dg.push_back(d);
                ok = mkAnd(ok, Ex(Z3_mk_bvule(Z, d, bvc(n == 20 && i == 0 ? 1 : 9, 4))));
                if (n > 1 && i == 0) ok = mkAnd(ok, boolNot(mkEq(d, bvc(0, 4))));
                h = Ex(Z3_mk_bvadd(Z, Ex(Z3_mk_bvmul(Z, h, bvc(10, 64))), Ex(Z3_mk_zero_ext(Z, 60, d))));
            }
            decLink(st, rec, h, ok);
            hit = &rec;
        }
        for (int i = 0; i < n; i++) storeScalar(st, V(end - n + i), vBV(Ex(Z3_mk_concat(Z, bvc(3, 4), hit->dg[i])), 8), 8, cb);
        if (hit == &rec) st.dec.push_back(rec);
        r = RV(V(1)); return 1; };
    B("sx_dec_parse") { U
        uint64_t p = concretize(st, a[0].v, 64); int stride = a[1].v.c, n = a[2].v.c;
        r = RV(V(0));
        if (n > 20) return 1;
        DecRec rec; bool sym = false;
        for (int i = 0; i < n; i++) {
            Val c = loadScalar(st, V(p + i * stride), stride * 8, 0, cb);
            sym |= c.k != KC;
            rec.dg.push_back(Ex(Z3_simplify(Z, Ex(Z3_mk_extract(Z, 3, 0, bits(c, stride * 8))))));
        }
        if (!sym) return 1;
        for (auto& d : st.dec) if (d.dg.size() == rec.dg.size()) {
            bool same = true;
            for (int i = 0; i < n && same; i++) same = d.dg[i].a == rec.dg[i].a;
            if (same) { storeScalar(st, a[3].v, vBV(d.val, 64), 64, cb); r = RV(V(1)); return 1; }
        }
        if (n < 5 || n > 18) return 1;
        if (branch(st, mkEq(rec.dg[0], bvc(0, 4)))) return 1;
        uint64_t lim = 1; for (int i = 0; i < n; i++) lim *= 10;
        unsigned w = 1; while ((lim - 1) >> w) w++;
        string nm = symName(st, "decimal");
        Ex x(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), sBV(w)));
        rec.val = Ex(Z3_mk_zero_ext(Z, 64 - w, x));
        Ex h = bvc(0, 64), ok = mkAnd(Ex(Z3_mk_bvult(Z, x, bvc(lim, w))), Ex(Z3_mk_bvuge(Z, x, bvc(lim / 10, w))));
        for (auto& d : rec.dg) h = Ex(Z3_mk_bvadd(Z, Ex(Z3_mk_bvmul(Z, h, bvc(10, 64))), Ex(Z3_mk_zero_ext(Z, 60, d))));
        decLink(st, rec, h, ok);
        st.dec.push_back(rec);
        storeScalar(st, a[3].v, vBV(rec.val, 64), 64, cb);
        r = RV(V(1)); return 1; };
    B("sx_is_conc_u") { U r = RV(V(a[0].v.k == KC)); return 1; };
    B("sx_is_conc_d") { U r = RV(V(a[0].v.k == KC)); return 1; };
    B("sx_is_int_d") { U
        if (a[0].v.k != KIFP) { r = RV(V(0)); return 1; }
        storeScalar(st, a[1].v, vBV(a[0].v.e, 64, a[0].v.ud), 64, cb);
        r = RV(V(1)); return 1; };
    B("sx_host_fmt") { U
        char fm[16], out[512]; int k = 0; fm[k++] = '%';
        int fl = a[5].v.c, conv = a[3].v.c;
        if (fl & 1) fm[k++] = '#'; if (fl & 2) fm[k++] = '+';
        fm[k++] = '.'; fm[k++] = '*'; fm[k++] = (fl & 4) ? toupper(conv) : conv; fm[k] = 0;
        int n = snprintf(out, sizeof out, fm, (int)a[4].v.c, asD(a[2].v.c));
        uint64_t dst = concretize(st, a[0].v, 64);
        for (int i = 0; i <= n && i < (int)a[1].v.c; i++) storeScalar(st, V(dst + i), V((uint8_t)out[i]), 8, cb);
        r = RV(V(n)); return 1; };
    B("sx_conc_bytes") { U
        uint64_t p = concretize(st, a[0].v, 64), n = concretize(st, a[1].v, 64), off;
        if (n) { Obj* o = access(st, V(p), n, false, off, nullptr); for (uint64_t i = 0; i < n; i++) if (o->d->st[off + i] != 1) { r = RV(V(0)); return 1; } }
        r = RV(V(1)); return 1; };
    B("sx_host_strtod") { U
        uint64_t p = concretize(st, a[0].v, 64), n = concretize(st, a[1].v, 64);
        string s; for (uint64_t i = 0; i < n; i++) s += (char)loadScalar(st, V(p + i), 8, 0, cb).c;
        r = RV(V(ofD(strtod(s.c_str(), nullptr)))); return 1; };
    B("__cxa_atexit") { U r = RV(V(0)); return 1; };
    B("__cxa_guard_acquire") { U
        Val g = loadScalar(st, a[0].v, 8, 0, cb); bool done = concretize(st, g, 8) & 1;
        r = RV(V(!done)); return 1; };
    B("__cxa_guard_release") { U storeScalar(st, a[0].v, V(1), 8, cb); return 1; };
    B("__cxa_guard_abort") { U return 1; };
    // --- exceptions
    B("__cxa_allocate_exception") { U Obj& o = allocObj(st, concretize(st, a[0].v, 64), OEXC, cb); r = RV(V(o.base)); return 1; };
    B("__cxa_free_exception") { U return 1; };
    B("__cxa_throw") { U st.excObj = concretize(st, a[0].v, 64); st.excTy = concretize(st, a[1].v, 64); unwind(st); return 2; };
    B("__cxa_begin_catch") { U st.caught.emplace_back(st.excObj, st.excTy); r = RV(V(concretize(st, a[0].v, 64))); return 1; };
    B("__cxa_end_catch") { U if (!st.caught.empty()) st.caught.pop_back(); return 1; };
    B("__cxa_rethrow") { U if (!st.caught.empty()) { st.excObj = st.caught.back().first; st.excTy = st.caught.back().second; } unwind(st); return 2; };
    B("__cxa_get_exception_ptr") { U r = a[0]; return 1; };
    B("_ZSt9terminatev") { U reportError(st, "exception", "exception", "std::terminate called", st.model); throw PathEnd{PE_ERROR}; };
    B("abort") { U reportError(st, "abort", "abort", "abort called", st.model); throw PathEnd{PE_ERROR}; };
    B("__assert_fail") { U reportError(st, "abort", "abort", "assert failed: " + cstr(st, a[0].v), st.model); throw PathEnd{PE_ERROR}; };
    B("exit") { U throw PathEnd{PE_DONE}; };
    B("_exit") { U throw PathEnd{PE_DONE}; };
    B("__cxa_pure_virtual") { U reportError(st, "abort", "abort", "pure virtual call", st.model); throw PathEnd{PE_ERROR}; };
    static const std::pair<const char*, const char*> thr[] = {
        {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"}, {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"},
        {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"}, {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"},
        {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt9bad_alloc"},
        {"__cxa_throw_bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"},
        {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"}, {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"},
        {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"}, {"_ZSt21__throw_bad_exceptionv", "_ZTISt13bad_exception"}};
    for (auto& t : thr) { const char* ti = t.second; BT[t.first] = [ti](State& st, const CallBase*, vector<RV>&, RV&) -> int { throwStd(st, ti); return 2; }; }
    // --- math
    for (const char* nm : {"exp", "log", "log10", "log2", "sin", "cos", "tan", "atan", "asin", "acos", "exp2", "tanh", "cbrt", "sinh", "cosh"}) {
        string s = nm;
        BT[s] = [s](State& st, const CallBase*, vector<RV>& a, RV& r) -> int { r = RV(a[0].v.k == KC ? V(ofD(hostFn(s, asD(a[0].v.c)))) : ufApp(st, s.c_str(), {a[0].v}, true)); return 1; };
        BT[s + "f"] = [s](State& st, const CallBase*, vector<RV>& a, RV& r) -> int { r = RV(a[0].v.k == KC ? V(ofF((float)hostFn(s, asF(a[0].v.c)))) : ufApp(st, s.c_str(), {a[0].v}, false)); return 1; };
    }
    B("expf") { U r = RV(a[0].v.k == KC ? V(ofF(expf(asF(a[0].v.c)))) : ufApp(st, "exp", {a[0].v}, false)); return 1; };
    B("logf") { U r = RV(a[0].v.k == KC ? V(ofF(logf(asF(a[0].v.c)))) : ufApp(st, "log", {a[0].v}, false)); return 1; };
    B("pow") { U
        if (a[0].v.k == KC && a[1].v.k == KC) { r = RV(V(ofD(pow(asD(a[0].v.c), asD(a[1].v.c))))); return 1; }
        if (a[1].v.k == KC && asD(a[1].v.c) == 2.0) { r = RV(fpBin(st, Instruction::FMul, a[0].v, a[0].v, true)); return 1; }
        if (a[1].v.k == KC && asD(a[1].v.c) == 1.0) { r = a[0]; return 1; }
        if (a[1].v.k == KC && asD(a[1].v.c) == 0.5) { r = RV(sqrtFP(st, a[0].v, true)); return 1; }
        if (optReal) unsupported("pow in real mode");
        r = RV(ufApp(st, "pow", {a[0].v, a[1].v}, true)); return 1; };
    B("powf") { U
        if (a[0].v.k == KC && a[1].v.k == KC) { r = RV(V(ofF(powf(asF(a[0].v.c), asF(a[1].v.c))))); return 1; }
        if (optReal) unsupported("pow in real mode");
        r = RV(ufApp(st, "pow", {a[0].v, a[1].v}, false)); return 1; };
    B("sqrt") { U r = RV(sqrtFP(st, a[0].v, true)); return 1; };
    B("sqrtf") { U r = RV(sqrtFP(st, a[0].v, false)); return 1; };
    B("fabs") { U r = RV(fabs_(st, a[0].v, true)); return 1; };
    B("fabsf") { U r = RV(fabs_(st, a[0].v, false)); return 1; };
    static const std::pair<const char*, int> rnd[] = {{"floor", 0}, {"ceil", 1}, {"trunc", 2}, {"rint", 3}, {"nearbyint", 3}, {"round", 4}};
    for (auto& q : rnd) {
        int m = q.second;
        BT[q.first] = [m](State& st, const CallBase*, vector<RV>& a, RV& r) -> int { r = RV(roundFP(st, a[0].v, true, m)); return 1; };
        BT[string(q.first) + "f"] = [m](State& st, const CallBase*, vector<RV>& a, RV& r) -> int { r = RV(roundFP(st, a[0].v, false, m)); return 1; };
    }
    B("fmod") { U if (a[0].v.k == KC && a[1].v.k == KC) r = RV(V(ofD(fmod(asD(a[0].v.c), asD(a[1].v.c))))); else unsupported("fmod"); return 1; };
    for (int dbl = 0; dbl < 2; dbl++)
        BT[dbl ? "ldexp" : "ldexpf"] = [dbl](State& st, const CallBase*, vector<RV>& a, RV& r) -> int {
            int n = (int)concretize(st, a[1].v, 32);
            const Val& x = a[0].v;
            if (x.k == KC) r = RV(V(dbl ? ofD(ldexp(asD(x.c), n)) : ofF(ldexpf(asF(x.c), n))));
            else if (x.k == KREAL && n > -1000 && n < 1000) {
                Z3_ast m[2] = {x.e, nullptr};
                Ex two(Z3_mk_numeral(Z, "2", sReal)), e(Z3_mk_int2real(Z, Ex(Z3_mk_int64(Z, n, sInt))));
                Ex p(Z3_simplify(Z, Ex(Z3_mk_power(Z, two, e))));
                m[1] = p;
                r = RV(vREAL(Ex(Z3_mk_mul(Z, 2, m)), x.ud));
            } else unsupported("ldexp");
            return 1; };
    B("modf") { U
        Val ip = roundFP(st, a[0].v, true, 2);
        Val fp = fpBin(st, Instruction::FSub, a[0].v, ip, true);
        storeScalar(st, a[1].v, ip, 64, cb); r = RV(fp); return 1; };
    // --- OpenMP runtime
    B("__kmpc_fork_call") { U
        if (st.omp.active) {  // nested region: one thread
            unsupported("nested parallel region");
        }
        st.omp = OmpState();
        st.omp.active = true; st.omp.nthreads = optThreads; st.omp.fn = concretize(st, a[2].v, 64);
        for (size_t i = 3; i < a.size(); i++) st.omp.args.push_back(a[i].v);
        st.omp.depth = st.st.size(); st.omp.epoch = st.seq;
        st.omp.log.resize(optThreads);
        ompStartThread(st);
        return 2; };
    B("__kmpc_global_thread_num") { U r = RV(V(st.omp.active ? st.omp.tid : 0)); return 1; };
    B("__kmpc_for_static_init_4") { U
        auto ld = [&](int i) { return (int64_t)sx64(concretize(st, loadScalar(st, a[i].v, 32, 0, cb), 32), 32); };
        st.omp.crit++;
        int64_t lo = ld(4), up = ld(5), inc = sx64(a[7].v.c, 32);
        int64_t trip = inc > 0 ? (up - lo) / inc + 1 : (lo - up) / -inc + 1;
        if ((inc > 0 && up < lo) || (inc < 0 && lo < up)) trip = 0;
        int nt = st.omp.active ? st.omp.nthreads : 1, t = st.omp.active ? st.omp.tid : 0;
        int64_t small = trip / nt, ex = trip % nt;
        int64_t b = t * small + std::min<int64_t>(t, ex), n = small + (t < ex ? 1 : 0);
        storeScalar(st, a[4].v, V(mask(lo + b * inc, 32)), 32, cb);
        storeScalar(st, a[5].v, V(mask(lo + (b + n - 1) * inc, 32)), 32, cb);
        storeScalar(st, a[6].v, V(mask(trip * inc, 32)), 32, cb);
        storeScalar(st, a[3].v, V(n > 0 && b + n == trip), 32, cb);
        st.omp.crit--;
        if (trip > nt) S.reach["omp-iterations-share-a-thread"]++;
        return 1; };
    B("__kmpc_for_static_init_8") { U
        auto ld = [&](int i) { return (int64_t)concretize(st, loadScalar(st, a[i].v, 64, 0, cb), 64); };
        st.omp.crit++;
        int64_t lo = ld(4), up = ld(5), inc = (int64_t)a[7].v.c;
        int64_t trip = inc > 0 ? (up - lo) / inc + 1 : (lo - up) / -inc + 1;
        if ((inc > 0 && up < lo) || (inc < 0 && lo < up)) trip = 0;
        int nt = st.omp.active ? st.omp.nthreads : 1, t = st.omp.active ? st.omp.tid : 0;
        int64_t small = trip / nt, ex = trip % nt;
        int64_t b = t * small + std::min<int64_t>(t, ex), n = small + (t < ex ? 1 : 0);
        storeScalar(st, a[4].v, V(lo + b * inc), 64, cb);
        storeScalar(st, a[5].v, V(lo + (b + n - 1) * inc), 64, cb);
        storeScalar(st, a[6].v, V(trip * inc), 64, cb);
        storeScalar(st, a[3].v, V(n > 0 && b + n == trip), 32, cb);
        st.omp.crit--;
        return 1; };
    BT["__kmpc_for_static_init_4u"] = BT["__kmpc_for_static_init_4"];
    BT["__kmpc_for_static_init_8u"] = BT["__kmpc_for_static_init_8"];
    B("__kmpc_for_static_fini") { U return 1; };
    // dynamic and guided schedules: every thread takes its share in one piece (which iterations share a thread differs, the accesses do not)
    B("__kmpc_dispatch_init_4") { U
        st.omp.disp = {(int64_t)sx64(concretize(st, a[3].v, 32), 32), (int64_t)sx64(concretize(st, a[4].v, 32), 32), (int64_t)sx64(concretize(st, a[5].v, 32), 32), 0}; return 1; };
    B("__kmpc_dispatch_next_4") { U
        auto& D = st.omp.disp;
        int64_t lo = D[0], up = D[1], inc = D[2];
        int64_t trip = inc > 0 ? (up - lo) / inc + 1 : (lo - up) / -inc + 1;
        if ((inc > 0 && up < lo) || (inc < 0 && lo < up)) trip = 0;
        int nt = st.omp.active ? st.omp.nthreads : 1, t = st.omp.active ? st.omp.tid : 0;
        int64_t small = trip / nt, ex = trip % nt;
        int64_t b = t * small + std::min<int64_t>(t, ex), n = small + (t < ex ? 1 : 0);
        bool more = !D[3] && n > 0;
        D[3] = 1;
        if (more) {
            storeScalar(st, a[2].v, V(n > 0 && b + n == trip), 32, cb);
            storeScalar(st, a[3].v, V(mask(lo + b * inc, 32)), 32, cb);
            storeScalar(st, a[4].v, V(mask(lo + (b + n - 1) * inc, 32)), 32, cb);
            storeScalar(st, a[5].v, V(mask(inc, 32)), 32, cb);
        }
        if (trip > nt) S.reach["omp-iterations-share-a-thread"]++;
        r = RV(V(more)); return 1; };
    B("__kmpc_dispatch_deinit") { U return 1; };
    B("__kmpc_dispatch_fini_4") { U return 1; };
    B("__kmpc_barrier") { U if (st.omp.active) unsupported("barrier inside a parallel region"); return 1; };
    B("__kmpc_push_num_threads") { U return 1; };
    B("__kmpc_critical") { U st.omp.crit++; return 1; };
    B("__kmpc_end_critical") { U st.omp.crit--; return 1; };
    B("__kmpc_reduce_nowait") { U st.omp.crit++; r = RV(V(1)); return 1; };
    B("__kmpc_end_reduce_nowait") { U st.omp.crit--; return 1; };
    B("__kmpc_reduce") { U st.omp.crit++; r = RV(V(1)); return 1; };
    B("__kmpc_end_reduce") { U st.omp.crit--; return 1; };
    B("omp_get_num_threads") { U r = RV(V(st.omp.active ? st.omp.nthreads : 1)); return 1; };
    B("omp_get_max_threads") { U r = RV(V(optThreads)); return 1; };
    B("omp_get_num_procs") { U r = RV(V(optThreads)); return 1; };
    B("omp_get_thread_num") { U r = RV(V(st.omp.active ? st.omp.tid : 0)); return 1; };
    B("omp_set_num_threads") { U return 1; };
    B("omp_set_nested") { U return 1; };
    B("omp_in_parallel") { U r = RV(V(st.omp.active)); return 1; };
}
static int intrinsic(State& st, const Function* F, const CallBase* cb, vector<RV>& a, RV& r) {
    auto W = [&]() { return F->getReturnType()->getIntegerBitWidth(); };
    bool dbl = F->getReturnType()->isDoubleTy();
    switch (F->getIntrinsicID()) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start:
    case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch:
    case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl:
    case Intrinsic::stackrestore: case Intrinsic::pseudoprobe:
        if (!F->getReturnType()->isVoidTy()) r = RV(V(0));
        return 1;
    case Intrinsic::stacksave: r = RV(V(0)); return 1;
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: {
        uint64_t d = concretize(st, a[0].v, 64), s = concretize(st, a[1].v, 64), n = concretize(st, a[2].v, bitsOf(cb->getArgOperand(2)->getType()));
        doCopy(st, d, s, n, false, cb); return 1;
    }
    case Intrinsic::memmove: {
        uint64_t d = concretize(st, a[0].v, 64), s = concretize(st, a[1].v, 64), n = concretize(st, a[2].v, bitsOf(cb->getArgOperand(2)->getType()));
        doCopy(st, d, s, n, true, cb); return 1;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
        uint64_t d = concretize(st, a[0].v, 64), n = concretize(st, a[2].v, bitsOf(cb->getArgOperand(2)->getType()));
        doSet(st, d, a[1].v, n, cb); return 1;
    }
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::expect_with_probability:
        r = a[0]; return 1;
    case Intrinsic::is_constant: r = RV(V(0)); return 1;
    case Intrinsic::objectsize: r = RV(V(~0ull)); return 1;
    case Intrinsic::trap: reportError(st, "abort", "abort", "trap", st.model); throw PathEnd{PE_ERROR};
    case Intrinsic::eh_typeid_for: r = RV(V((uint32_t)typeIdFor(concretize(st, a[0].v, 64)))); return 1;
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
        auto p = F->getIntrinsicID() == Intrinsic::umin ? CmpInst::ICMP_ULT : F->getIntrinsicID() == Intrinsic::umax ? CmpInst::ICMP_UGT : F->getIntrinsicID() == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
        Val c = icmp(st, p, a[0].v, a[1].v, W());
        r = c.k == KC ? (c.c ? a[0] : a[1]) : RV(mkSelect(c.e, a[0].v, a[1].v, W(), 0));
        return 1;
    }
    case Intrinsic::abs: {
        Val z = V(0), c = icmp(st, CmpInst::ICMP_SLT, a[0].v, z, W());
        Val n = intBin(st, Instruction::Sub, z, a[0].v, W());
        r = c.k == KC ? (c.c ? RV(n) : a[0]) : RV(mkSelect(c.e, n, a[0].v, W(), 0));
        return 1;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned n = F->getReturnType()->getStructElementType(0)->getIntegerBitWidth();
        auto id = F->getIntrinsicID();
        bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
        unsigned op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Instruction::Add : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Instruction::Sub : Instruction::Mul;
        Val v = intBin(st, op, a[0].v, a[1].v, n), o;
        if (a[0].v.k == KC && a[1].v.k == KC) {
            __int128 x = sg ? (__int128)sx64(a[0].v.c, n) : (__int128)mask(a[0].v.c, n), y = sg ? (__int128)sx64(a[1].v.c, n) : (__int128)mask(a[1].v.c, n);
            __int128 z = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y;
            __int128 w = sg ? (__int128)sx64(v.c, n) : (__int128)mask(v.c, n);
            o = V(z != w);
        } else {
            Ex x = bits(a[0].v, n), y = bits(a[1].v, n), ok;
            if (op == Instruction::Add) ok = sg ? mkAnd(Ex(Z3_mk_bvadd_no_overflow(Z, x, y, true)), Ex(Z3_mk_bvadd_no_underflow(Z, x, y))) : Ex(Z3_mk_bvadd_no_overflow(Z, x, y, false));
            else if (op == Instruction::Sub) ok = sg ? mkAnd(Ex(Z3_mk_bvsub_no_overflow(Z, x, y)), Ex(Z3_mk_bvsub_no_underflow(Z, x, y, true))) : Ex(Z3_mk_bvsub_no_underflow(Z, x, y, false));
            else ok = sg ? mkAnd(Ex(Z3_mk_bvmul_no_overflow(Z, x, y, true)), Ex(Z3_mk_bvmul_no_underflow(Z, x, y))) : Ex(Z3_mk_bvmul_no_overflow(Z, x, y, false));
            o = vBV(Ex(Z3_simplify(Z, boolNot(ok))), 1);
        }
        r.agg = std::make_shared<vector<RV>>();
        r.agg->push_back(RV(v)); r.agg->push_back(RV(o));
        return 1;
    }
    case Intrinsic::usub_sat: {
        Val c = icmp(st, CmpInst::ICMP_ULT, a[0].v, a[1].v, W());
        Val d = intBin(st, Instruction::Sub, a[0].v, a[1].v, W());
        r = c.k == KC ? RV(c.c ? V(0) : d) : RV(mkSelect(c.e, V(0), d, W(), 0));
        return 1;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        unsigned n = W();
        uint64_t s = concretize(st, a[2].v, n) % n;
        bool L = F->getIntrinsicID() == Intrinsic::fshl;
        if (s == 0) { r = L ? a[0] : a[1]; return 1; }
        Val x = intBin(st, Instruction::Shl, a[0].v, V(L ? s : n - s), n), y = intBin(st, Instruction::LShr, a[1].v, V(L ? n - s : s), n);
        r = RV(intBin(st, Instruction::Or, x, y, n));
        return 1;
    }
    case Intrinsic::bswap: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
        unsigned n = W();
        uint64_t x = concretize(st, a[0].v, n), y = 0;
        switch (F->getIntrinsicID()) {
        case Intrinsic::bswap: for (unsigned i = 0; i < n / 8; i++) y |= ((x >> (8 * i)) & 0xff) << (n - 8 - 8 * i); break;
        case Intrinsic::ctpop: y = __builtin_popcountll(x); break;
        case Intrinsic::ctlz: y = x ? __builtin_clzll(x) - (64 - n) : n; break;
        default: y = x ? __builtin_ctzll(x) : n;
        }
        r = RV(V(y)); return 1;
    }
    case Intrinsic::fabs: r = RV(fabs_(st, a[0].v, dbl)); return 1;
    case Intrinsic::floor: r = RV(roundFP(st, a[0].v, dbl, 0)); return 1;
    case Intrinsic::ceil: r = RV(roundFP(st, a[0].v, dbl, 1)); return 1;
    case Intrinsic::trunc: r = RV(roundFP(st, a[0].v, dbl, 2)); return 1;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: r = RV(roundFP(st, a[0].v, dbl, 3)); return 1;
    case Intrinsic::round: r = RV(roundFP(st, a[0].v, dbl, 4)); return 1;
    case Intrinsic::sqrt: r = RV(sqrtFP(st, a[0].v, dbl)); return 1;
    case Intrinsic::fmuladd: case Intrinsic::fma: {
        Val m = fpBin(st, Instruction::FMul, a[0].v, a[1].v, dbl);
        r = RV(fpBin(st, Instruction::FAdd, m, a[2].v, dbl)); return 1;
    }
    case Intrinsic::maxnum: case Intrinsic::minnum: {
        Val c = fcmp(st, F->getIntrinsicID() == Intrinsic::maxnum ? CmpInst::FCMP_OGT : CmpInst::FCMP_OLT, a[0].v, a[1].v, dbl);
        r = c.k == KC ? (c.c ? a[0] : a[1]) : RV(mkSelect(c.e, a[0].v, a[1].v, dbl ? 64 : 32, dbl ? 2 : 1));
        return 1;
    }
    case Intrinsic::copysign: {
        unsigned n = dbl ? 64 : 32;
        if (a[0].v.k == KC && a[1].v.k == KC) { uint64_t s = 1ull << (n - 1); r = RV(V((a[0].v.c & ~s) | (a[1].v.c & s))); return 1; }
        Val ab = fabs_(st, a[0].v, dbl), ng = fneg(ab, dbl), neg = fcmp(st, CmpInst::FCMP_OLT, a[1].v, V(0), dbl);
        r = neg.k == KC ? RV(neg.c ? ng : ab) : RV(mkSelect(neg.e, ng, ab, n, dbl ? 2 : 1));
        return 1;
    }
    case Intrinsic::is_fpclass: {
        uint64_t cls = a[1].v.c;
        bool d = cb->getArgOperand(0)->getType()->isDoubleTy();
        if (a[0].v.k == KIFP || a[0].v.k == KREAL) {
            if ((cls & ~0x3ull) == 0) { r = RV(V(0)); return 1; }
            if (cls == 0x204) { r = RV(V(0)); return 1; }
        }
        Val v = a[0].v;
        unsigned n = d ? 64 : 32;
        uint64_t inf = d ? 0x7ff0000000000000ull : 0x7f800000ull;
        Val b = v.k == KC ? v : vBV(bits(v, n), n, v.ud);
        Val ab = intBin(st, Instruction::And, b, V(d ? ~(1ull << 63) : 0x7fffffff), n);
        if (cls == 3) { r = RV(icmp(st, CmpInst::ICMP_UGT, ab, V(inf), n)); return 1; }
        if (cls == 0x204) { r = RV(icmp(st, CmpInst::ICMP_EQ, ab, V(inf), n)); return 1; }
        if (cls == 0x1f8) { r = RV(icmp(st, CmpInst::ICMP_ULT, ab, V(inf), n)); return 1; }
        unsupported("is.fpclass " + std::to_string(cls));
    }
    case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log10: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::pow: case Intrinsic::exp2: case Intrinsic::log2: {
        auto id = F->getIntrinsicID();
        string n = id == Intrinsic::exp ? "exp" : id == Intrinsic::log ? "log" : id == Intrinsic::log10 ? "log10" : id == Intrinsic::sin ? "sin" : id == Intrinsic::cos ? "cos" : id == Intrinsic::pow ? "pow" : id == Intrinsic::exp2 ? "exp2" : "log2";
        if (!dbl) n += "f";
        return BT[n](st, cb, a, r);
    }
    case Intrinsic::vastart: {
        Frame& f = st.st.back();
        uint64_t n = f.varargs.size();
        vector<Val> va = f.varargs;
        Obj& o = allocObj(st, n * 8 + 8, OSTACK, cb);
        uint64_t base = o.base;
        for (uint64_t i = 0; i < n; i++) storeAt(o, i * 8, va[i], 8, 64);
        st.st.back().allocas.push_back(base);
        uint64_t p = concretize(st, a[0].v, 64);
        storeScalar(st, V(p), V(48), 32, cb);
        storeScalar(st, V(p + 4), V(304), 32, cb);
        storeScalar(st, V(p + 8), V(base), 64, cb);
        storeScalar(st, V(p + 16), V(0), 64, cb);
        return 1;
    }
    case Intrinsic::vaend: return 1;
    case Intrinsic::vacopy: { uint64_t d = concretize(st, a[0].v, 64), s = concretize(st, a[1].v, 64); doCopy(st, d, s, 24, false, cb); return 1; }
    case Intrinsic::vector_reduce_add: {
        Val s = V(0);
        for (auto& x : *a[0].agg) s = intBin(st, Instruction::Add, s, x.v, W());
        r = RV(s); return 1;
    }
    default: unsupported("intrinsic " + F->getName().str());
    }
}
static int builtin(State& st, const Function* F, const CallBase* cb, vector<RV>& a, RV& r) {
    if (F->isIntrinsic()) return intrinsic(st, F, cb, a, r);
    auto it = BC.find(F);
    if (it == BC.end()) {
        if (BT.empty()) initBuiltins();
        auto b = BT.find(F->getName().str());
        it = BC.emplace(F, b == BT.end() ? nullptr : &b->second).first;
    }
    if (!it->second) return 0;
    // a varargs int argument promoted to i32 stored as 8 bytes etc. is handled by the callee
    return (*it->second)(st, cb, a, r);
}
