    // models of intrinsics, of the C/C++ runtime, and of the harness interface (included inside Engine)
    typedef std::function<int(PInst&, vector<Val>&)> Handler;     // 0 not handled, 1 done (advance), 2 done (do not advance)
    std::unordered_map<string, Handler> ext;
    vector<std::pair<string, Handler>> extPrefix;
    DenseMap<const Function*, Handler*> extCache;
    std::set<uint64_t> dummy;

    bool shared(const Val& a)
    {
        if (S->threads.size() < 2 || !a.conc()) return false;
        auto it = S->counters.lower_bound("");
        (void)it;
        for (auto& [lo, hi] : sharedRanges) if (a.c >= lo && a.c < hi) return true;
        return false;
    }
    vector<std::pair<uint64_t, uint64_t>> sharedRanges;
    std::map<std::pair<State*, int>, bool> dummyArmed;
    bool schedPoint()
    {
        auto& c = S->counters["armed" + std::to_string(S->cur)];
        if (c) { c = 0; return false; }
        c = 1;
        int before = S->cur;
        schedule(false);
        if (S->cur != before) return true;
        S->counters["armed" + std::to_string(S->cur)] = 0;
        return false;
    }

    bool external(PInst& p, const Function* F, vector<Val>& args)
    {
        auto it = extCache.find(F);
        Handler* h = nullptr;
        if (it != extCache.end()) h = it->second;
        else
        {
            string n = F->getName().str();
            auto e = ext.find(n);
            if (e != ext.end()) h = &e->second;
            else if (F->isDeclaration())
                for (auto& [pre, hd] : extPrefix) if (n.compare(0, pre.size(), pre) == 0) { h = &hd; break; }
            extCache[F] = h;
        }
        if (!h) return false;
        int r = (*h)(p, args);
        if (r == 0) return false;
        if (r == 1) advance(p);
        return true;
    }

    uint64_t concU(const Val& v, const char* what)
    {
        if (!v.conc()) throw EngineError{string("symbolic ") + what};
        return v.c;
    }
    // size of an allocation or block operation: symbolic values are split
    uint64_t concretize(const Val& v, unsigned w, const char* what)
    {
        if (v.conc()) return v.c;
        if (!v.e) throw EngineError{string("aggregate ") + what};
        for (int i = 0; i < 64; i++)
        {
            z3::model m(*zctx);
            if (fullCheck(S->pc, {}, &m, opt.queryMs, true) != z3::sat) throw Terminate{"infeasible", true};
            z3::expr x = m.eval(zx(v.e), true);
            uint64_t u = 0;
            if (w == 1) u = x.is_true(); else x.is_numeral_u64(u);
            if (decide(mkBin(K_EQ, v.e, mkConst(u, w)))) return u;
        }
        throw EngineError{string("too many values for ") + what};
    }
    int allocate(PInst& p, const Val& size, int kind)
    {
        uint64_t n;
        if (!size.conc())
        {
            // -p strictalloc=1: the harness holds that nothing of such a size may be built
            auto strict = opt.params.find("strictalloc");
            if (strict != opt.params.end() && strict->second) { memError("memory of a refused size is requested"); }
            E small = mkBin(K_ULT, size.e, mkConst(1ull << 26, 64));
            if (!decide(small)) throw Terminate{"huge allocation", true};
            throw Terminate{"allocation of symbolic size", true};
        }
        n = size.c;
        if (n > (1ull << 31))
        {
            if (auto* f = M->getFunction("snn_rt_bad_alloc")) { pushFrame(S->threads[S->cur], f, {}); return 2; }
            throw Terminate{"huge allocation", true};
        }
        if (n > (1ull << 26)) throw Terminate{"huge allocation", true};
        set(p, Val(alloc(*S, n, kind, "heap")));
        return 1;
    }
    string uniq(const string& n)
    {
        int k = S->counters["in:" + n]++;
        return k ? n + "#" + std::to_string(k) : n;
    }
    int math1(PInst& p, vector<Val>& a, Fn fn, const char* name)
    {
        if (fn == FN_EXP) expArgument(a[0].e);
        set(p, Val(mkFun(fn, a[0].e, nullptr, name)));
        return 1;
    }
    // with -p expmax: exact reals do not overflow, single precision does
    void expArgument(E x)
    {
        if (realMode && opt.params.count("expmax")) check(mkFCmp(K_FLE, mkFCast(x, S_F64), mkFConst(88.5, S_F64)), "assertion", "an exponential overflows", false);
    }
    E fmaxmin(E a, E b, bool mx)
    {
        if (isFC(a) && a->f->special == 1) return b;
        if (isFC(b) && b->f->special == 1) return a;
        E r = mx ? mkIte(mkFCmp(K_FLT, a, b), b, a) : mkIte(mkFCmp(K_FLT, b, a), b, a);
        return r;
    }

    void buildExternTable()
    {
        auto noop = [](PInst&, vector<Val>&) { return 1; };
        auto zero = [this](PInst& p, vector<Val>&) { set(p, Val((uint64_t)0)); return 1; };
        // ---- harness interface
        ext["snn_symbolic"] = [this](PInst& p, vector<Val>&) { set(p, Val((uint64_t)1)); return 1; };
        ext["snn_float"] = [this](PInst& p, vector<Val>& a)
        {
            string n = uniq(cstr(a[0]));
            E v = mkFVar(n, S_F32);
            S->inputs.push_back({n, v, 0, 0, 0});
            set(p, Val(v));
            return 1;
        };
        ext["snn_double"] = [this](PInst& p, vector<Val>& a)
        {
            string n = uniq(cstr(a[0]));
            E v = mkFVar(n, S_F64);
            S->inputs.push_back({n, v, 0, 0, 0});
            set(p, Val(v));
            return 1;
        };
        ext["snn_int"] = [this](PInst& p, vector<Val>& a)
        {
            string n = uniq(cstr(a[0]));
            E v = mkVar(n, 32);
            long lo = signedOf(concU(a[1], "range"), 32), hi = signedOf(concU(a[2], "range"), 32);
            S->inputs.push_back({n, v, 1, lo, hi});
            assume(*S, mkBin(K_SLE, mkConst(lo, 32), v));
            assume(*S, mkBin(K_SLE, v, mkConst(hi, 32)));
            set(p, Val(v));
            return 1;
        };
        ext["snn_bool"] = [this](PInst& p, vector<Val>& a)
        {
            string n = uniq(cstr(a[0]));
            E v = mkVar(n, 1);
            S->inputs.push_back({n, v, 1, 0, 1});
            set(p, Val(v));
            return 1;
        };
        ext["snn_choose"] = [this](PInst& p, vector<Val>& a)
        {
            string base = cstr(a[0]);
            int k = S->counters["in:" + base];
            string n = k ? base + "#" + std::to_string(k) : base;
            E v = mkVar(n, 32);
            long lo = signedOf(concU(a[1], "range"), 32), hi = signedOf(concU(a[2], "range"), 32);
            if (hi < lo) throw Terminate{"assumption", true};
            if (!S->pcset.count(mkBin(K_SLE, mkConst(lo, 32), v)))
            {
                assume(*S, mkBin(K_SLE, mkConst(lo, 32), v));
                assume(*S, mkBin(K_SLE, v, mkConst(hi, 32)));
            }
            long x = lo;
            for (; x < hi; x++) if (decide(mkBin(K_EQ, v, mkConst(x, 32)))) break;
            if (x == hi) assume(*S, mkBin(K_EQ, v, mkConst(x, 32)));
            S->counters["in:" + base]++;
            S->inputs.push_back({n, mkConst(x, 32), 2, lo, hi});
            set(p, Val((uint64_t)x & maskW(32)));
            return 1;
        };
        // makes an integer concrete, splitting over its feasible values
        ext["snn_concrete"] = [this](PInst& p, vector<Val>& a) { set(p, Val(concretize(a[0], 32, "snn_concrete"))); return 1; };
        ext["snn_param"] = [this](PInst& p, vector<Val>& a)
        {
            string n = cstr(a[0]);
            auto it = opt.params.find(n);
            set(p, Val((it == opt.params.end() ? concU(a[1], "default") : (uint64_t)it->second) & maskW(32)));
            return 1;
        };
        ext["snn_assume"] = [this](PInst&, vector<Val>& a)
        {
            E c = boolOf(a[0]);
            if (isC(c)) { if (!c->c) throw Terminate{"assumption", true}; return 1; }
            if (!feasible(*S, c)) throw Terminate{"assumption", true};
            assume(*S, c);
            return 1;
        };
        ext["snn_check"] = [this](PInst&, vector<Val>& a) { check(boolOf(a[0]), "assertion", cstr(a[1]), true); return 1; };
        ext["snn_check_eq"] = [this](PInst&, vector<Val>& a)
        {
            E x = a[0].e, y = a[1].e;
            string msg = cstr(a[2]);
            if (x == y) { nChecks++; nCheckTrivial++; return 1; }
            if ((isFC(x) && x->f->special) || (isFC(y) && y->f->special))
            {
                bool same = isFC(x) && isFC(y) && x->f->special == y->f->special;
                check(mkConst(same, 1), "assertion", msg, true);
                return 1;
            }
            E eq = mkFCmp(K_FEQ, x, y);
            E margin = nullptr;
            if (realMode)
            {
                E d = mkFBin(K_FSUB, x, y), h = mkFConst(0.5, x->s), mh = mkFConst(-0.5, x->s);
                margin = mkOrB(mkFCmp(K_FLE, h, d), mkFCmp(K_FLE, d, mh));
                h = mkFConst(1.0 / 200, x->s); mh = mkFConst(-1.0 / 200, x->s);
                closer = mkOrB(mkFCmp(K_FLE, h, d), mkFCmp(K_FLE, d, mh));
                // equality as "difference is zero" lets the rewriter cancel equal polynomials
                eq = mkFCmp(K_FEQ, d, mkFConst(0, x->s));
            }
            else eq = mkOrB(eq, mkAndB(mkFCmp(K_FUNO, x, x), mkFCmp(K_FUNO, y, y)));
            check(eq, "assertion", msg, true, margin);
            closer = nullptr;
            return 1;
        };
        ext["snn_finding"] = [this](PInst&, vector<Val>& a) { finding(boolOf(a[0]), cstr(a[1])); return 1; };
        ext["snn_near"] = [this](PInst& p, vector<Val>& a)
        {
            E x = a[0].e, y = a[1].e;
            E r;
            if (x == y) r = mkConst(1, 1);
            else if ((isFC(x) && x->f->special) || (isFC(y) && y->f->special)) r = mkConst(isFC(x) && isFC(y) && x->f->special == y->f->special, 1);
            else if (realMode) r = mkFCmp(K_FEQ, mkFBin(K_FSUB, x, y), mkFConst(0, x->s));
            else r = mkOrB(mkFCmp(K_FEQ, x, y), mkAndB(mkFCmp(K_FUNO, x, x), mkFCmp(K_FUNO, y, y)));
            set(p, Val(r));
            return 1;
        };
        ext["snn_fpclass_f"] = [this](PInst& p, vector<Val>& a)
        {
            E x = a[0].e, z = mkFConst(0, S_F32);
            auto k = [](int v) { return mkConst(v, 32); };
            if (isFC(x) && x->f->special) { set(p, Val((uint64_t)(x->f->special == 1 ? FP_NAN : FP_INFINITE))); return 1; }
            E r = mkIte(mkFCmp(K_FEQ, x, z), k(FP_ZERO), k(FP_NORMAL));
            if (!realMode)
            {
                E ab = mkFAbs(x), inf = mkFConst(INFINITY, S_F32);
                r = mkIte(mkFCmp(K_FEQ, x, z), k(FP_ZERO), mkIte(mkFCmp(K_FLT, ab, mkFConst(1.17549435082228750797e-38, S_F32)), k(FP_SUBNORMAL), mkIte(mkFCmp(K_FLT, ab, inf), k(FP_NORMAL), mkIte(mkFCmp(K_FUNO, x, x), k(FP_NAN), k(FP_INFINITE)))));
            }
            set(p, Val(r));
            return 1;
        };
        ext["snn_reach"] = [this](PInst&, vector<Val>& a) { S->reached.push_back(cstr(a[0])); return 1; };
        ext["snn_stop"] = [this](PInst&, vector<Val>& a) -> int { throw Terminate{"stop: " + cstr(a[0]), true}; };
        ext["snn_observe_f"] = [this](PInst&, vector<Val>& a) { if (S->obs.size() < 200) S->obs.push_back({cstr(a[0]), a[1].e}); return 1; };
        ext["snn_observe_i"] = [this](PInst&, vector<Val>& a) { if (S->obs.size() < 200) S->obs.push_back({cstr(a[0]), toE(a[1], 32)}); return 1; };
        ext["snn_diff"] = [this](PInst& p, vector<Val>& a) { set(p, Val(mkDiff(a[0].e, a[1].e))); return 1; };
        ext["snn_depends"] = [this](PInst& p, vector<Val>& a)
        {
            // does the value syntactically contain the variable?
            std::unordered_set<E> seen; vector<E> st{a[0].e}; bool r = false;
            E x = a[1].e; while (x->k == K_FEXT) x = x->a[0];
            while (!st.empty()) { E e = st.back(); st.pop_back(); if (!seen.insert(e).second) continue; if (e == x) { r = true; break; } for (E c : e->a) if (c) st.push_back(c); }
            set(p, Val((uint64_t)r));
            return 1;
        };
        ext["snn_shared"] = [this](PInst&, vector<Val>& a) { sharedRanges.push_back({concU(a[0], "shared"), a[0].c + concU(a[1], "shared")}); return 1; };
        ext["snn_yield"] = [this](PInst&, vector<Val>&) -> int { if (S->threads.size() < 2) return 1; return schedPoint() ? 2 : 1; };
        ext["snn_threads_running"] = [this](PInst& p, vector<Val>&) { uint64_t n = 0; for (size_t i = 1; i < S->threads.size(); i++) n += S->threads[i].status != 2; set(p, Val(n)); return 1; };
        ext["snn_counter"] = [this](PInst& p, vector<Val>& a) { set(p, Val((uint64_t)(S->counters["user:" + cstr(a[0])] += (int)a[1].c) & maskW(32))); return 1; };
        ext["snn_print_f"] = [this](PInst&, vector<Val>& a) { fprintf(stderr, "%s = %s\n", cstr(a[0]).c_str(), show(a[1].e, 12).c_str()); return 1; };
        ext["snn_print_i"] = [this](PInst&, vector<Val>& a) { fprintf(stderr, "%s = %s\n", cstr(a[0]).c_str(), show(toE(a[1], 32), 12).c_str()); return 1; };
        // 1: random numbers are a fixed sequence (for values the harness overwrites); 0: arbitrary
        ext["snn_rng_mode"] = [this](PInst&, vector<Val>& a) { S->counters["rng fixed"] = (int)a[0].c; return 1; };
        ext["snn_rng_canonical"] = [this](PInst& p, vector<Val>&)
        {
            const int mode = S->counters["rng fixed"];
            if (mode == 1) { set(p, Val(mkFConst(((S->counters["rng k"]++ * 7919u + 13u) % 1024u) / 1024.0, S_F32))); return 1; }
            string n = "rng" + std::to_string(S->rngCount++);
            E v = mkFVar(n, S_F32);
            S->inputs.push_back({n, v, 0, 0, 0});
            if (!realMode) assume(*S, mkNot(mkFCmp(K_FUNO, v, v)));
            assume(*S, mkFCmp(K_FLE, mkFConst(0, S_F32), v));
            assume(*S, mkFCmp(K_FLT, v, mkFConst(1, S_F32)));
            // 2: a fixed sequence, whose draws can be asked for
            if (mode == 2) assume(*S, mkFCmp(K_FEQ, v, mkFConst(((S->counters["rng k"]++ * 7919u + 13u) % 1024u) / 1024.0, S_F32)));
            set(p, Val(v));
            return 1;
        };
        ext["snn_rng_draws"] = [this](PInst& p, vector<Val>&) { set(p, Val((uint64_t)S->rngCount)); return 1; };
        ext["snn_rng_draw"] = [this](PInst& p, vector<Val>& a)
        {
            string n = "rng" + std::to_string(a[0].c);
            for (auto& i : S->inputs) if (i.name == n) { set(p, Val(i.e)); return 1; }
            throw Terminate{"no such draw", true};
        };
        ext["snn_rng_int"] = [this](PInst& p, vector<Val>& a)
        {
            // arbitrary 64-bit integer between the two bounds (inclusive, unsigned comparison of the offset)
            uint64_t lo = concU(a[0], "random range"), hi = concU(a[1], "random range");
            if (S->counters["rng fixed"]) { uint64_t r = S->counters["rng k"]++ * 7919u + 13u; set(p, Val(hi - lo + 1 ? lo + r % (hi - lo + 1) : r)); return 1; }
            string n = "rngi" + std::to_string(S->rngCount);
            E v = mkVar(n, 64);
            if (lo == hi) { set(p, Val(lo)); S->rngCount++; S->inputs.push_back({n, mkConst(lo, 64), 2, 0, 0}); return 1; }
            if (!opt.forkRng || hi - lo > 64)
            {
                S->rngCount++;
                S->inputs.push_back({n, v, 1, (long)lo, (long)hi});
                assume(*S, mkBin(K_ULE, mkBin(K_SUB, v, mkConst(lo, 64)), mkConst(hi - lo, 64)));
                set(p, Val(v));
                return 1;
            }
            E inr = mkBin(K_ULE, mkBin(K_SUB, v, mkConst(lo, 64)), mkConst(hi - lo, 64));
            if (!S->pcset.count(inr)) assume(*S, inr);
            uint64_t x = lo;
            for (; x < hi; x++) if (decide(mkBin(K_EQ, v, mkConst(x, 64)))) break;
            S->rngCount++;
            S->inputs.push_back({n, mkConst(x, 64), 2, (long)lo, (long)hi});
            set(p, Val(x));
            return 1;
        };
        // ---- memory
        for (const char* n : {"_Znwm", "_ZnwmRKSt9nothrow_t"}) ext[n] = [this](PInst& p, vector<Val>& a) { return allocate(p, a[0], 1); };
        for (const char* n : {"_Znam", "_ZnamRKSt9nothrow_t"}) ext[n] = [this](PInst& p, vector<Val>& a) { return allocate(p, a[0], 2); };
        ext["_ZnwmSt11align_val_t"] = [this](PInst& p, vector<Val>& a) { return allocate(p, a[0], 1); };
        for (const char* n : {"_ZnamSt11align_val_t", "_ZnamSt11align_val_tRKSt9nothrow_t"}) ext[n] = [this](PInst& p, vector<Val>& a) { return allocate(p, a[0], 2); };
        ext["_ZnwmSt11align_val_tRKSt9nothrow_t"] = [this](PInst& p, vector<Val>& a) { return allocate(p, a[0], 1); };
        ext["aligned_alloc"] = [this](PInst& p, vector<Val>& a) { return allocate(p, a[1], 0); };
        ext["malloc"] = [this](PInst& p, vector<Val>& a) { return allocate(p, a[0], 0); };
        ext["calloc"] = [this](PInst& p, vector<Val>& a) { uint64_t n = concU(a[0], "size") * concU(a[1], "size"); set(p, Val(alloc(*S, n, 0, "heap", true))); return 1; };
        for (const char* n : {"_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"})
            ext[n] = [this](PInst&, vector<Val>& a) { freeMem(a[0], 0, "free"); return 1; };
        for (const char* n : {"memcpy", "memmove"}) ext[n] = [this](PInst& p, vector<Val>& a) { copyMem(a[0], a[1], concretize(a[2], 64, "copy size")); set(p, a[0]); return 1; };
        ext["memset"] = [this](PInst& p, vector<Val>& a) { setMem(a[0], a[1].conc() ? Val(a[1].c & 255) : Val(mkExtract(a[1].e, 0, 8)), concretize(a[2], 64, "set size")); set(p, a[0]); return 1; };
        auto memcmpH = [this](PInst& p, vector<Val>& a)
        {
            uint64_t n = concretize(a[2], 64, "compare size");
            Type* i8 = Type::getInt8Ty(ctx);
            for (uint64_t i = 0; i < n; i++)
            {
                E x = toE(load(addOff(a[0], i), i8), 8), y = toE(load(addOff(a[1], i), i8), 8);
                if (!decide(mkBin(K_EQ, x, y))) { set(p, Val(decide(mkBin(K_ULT, x, y)) ? maskW(32) : 1)); return 1; }
            }
            set(p, Val((uint64_t)0));
            return 1;
        };
        ext["memcmp"] = memcmpH; ext["bcmp"] = memcmpH;
        ext["strcmp"] = [this](PInst& p, vector<Val>& a)
        {
            Type* i8 = Type::getInt8Ty(ctx);
            for (uint64_t n = 0;; n++)
            {
                const uint64_t x = concU(load(addOff(a[0], n), i8), "compared byte"), y = concU(load(addOff(a[1], n), i8), "compared byte");
                if (x != y || x == 0) { set(p, Val((uint64_t)(uint32_t)(int32_t)((int)x - (int)y))); return 1; }
            }
        };
        ext["strlen"] = [this](PInst& p, vector<Val>& a)
        {
            uint64_t n = 0; Type* i8 = Type::getInt8Ty(ctx);
            while (true) { E x = toE(load(addOff(a[0], n), i8), 8); if (decide(mkBin(K_EQ, x, mkConst(0, 8)))) break; n++; }
            set(p, Val(n));
            return 1;
        };
        ext["_ZSt11_Hash_bytesPKvmm"] = [this](PInst& p, vector<Val>& a)
        {
            uint64_t n = concU(a[1], "hash size"), h = 1469598103934665603ull;
            for (uint64_t i = 0; i < n; i++) h = (h ^ concU(load(addOff(a[0], i), Type::getInt8Ty(ctx)), "hashed byte")) * 1099511628211ull;
            set(p, Val(h));
            return 1;
        };
        // ---- exceptions
        ext["__cxa_allocate_exception"] = [this](PInst& p, vector<Val>& a) { set(p, Val(alloc(*S, concU(a[0], "size"), 6, "exception"))); return 1; };
        ext["__cxa_free_exception"] = noop;
        ext["__cxa_throw"] = [this](PInst&, vector<Val>& a) { S->excStack.push_back({a[0].c, a[1].c, a[2].c, 0}); unwind(a[0].c); return 2; };
        ext["__cxa_begin_catch"] = [this](PInst& p, vector<Val>& a)
        {
            for (auto& e : S->excStack) if (e.obj == a[0].c) e.handlers++;
            S->counters["caught"]++;
            set(p, a[0]);
            return 1;
        };
        ext["__cxa_end_catch"] = [this](PInst&, vector<Val>&)
        {
            for (size_t i = S->excStack.size(); i-- > 0;)
                if (S->excStack[i].handlers > 0) { if (--S->excStack[i].handlers == 0) S->excStack.erase(S->excStack.begin() + i); break; }
            return 1;
        };
        ext["__cxa_rethrow"] = [this](PInst&, vector<Val>&) -> int
        {
            for (size_t i = S->excStack.size(); i-- > 0;)
                if (S->excStack[i].handlers > 0) { S->excStack[i].handlers--; unwind(S->excStack[i].obj); return 2; }
            memError("rethrow without exception");
        };
        ext["__cxa_get_exception_ptr"] = [this](PInst& p, vector<Val>& a) { set(p, a[0]); return 1; };
        ext["_ZSt9terminatev"] = [this](PInst&, vector<Val>&) -> int { memError("std::terminate called"); };
        ext["__cxa_pure_virtual"] = [this](PInst&, vector<Val>&) -> int { memError("pure virtual function called"); };
        ext["__assert_fail"] = [this](PInst&, vector<Val>&) -> int { memError("an assertion of the code fails"); };
        ext["abort"] = [this](PInst&, vector<Val>&) -> int { memError("abort called"); };
        ext["exit"] = [this](PInst&, vector<Val>&) -> int { memError("exit called"); };
        ext["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = [this](PInst&, vector<Val>&) -> int { memError("library assertion failed"); };
        for (const char* c : {"13runtime_error", "11logic_error", "12out_of_range", "12length_error", "16invalid_argument", "12domain_error", "11range_error", "14overflow_error", "9exception", "9bad_alloc", "20bad_array_new_length", "8bad_cast", "17bad_function_call", "12system_error"})
        {
            // an exception made from a text keeps a copy of it after its pointer to the table of functions
            const bool text = !std::set<string>{"9exception", "9bad_alloc", "20bad_array_new_length", "8bad_cast", "17bad_function_call", "12system_error"}.count(c);
            for (const char* k : {"C1E", "C2E"})
            {
                const string n = string("_ZNSt") + c + k;
                if (text)
                    for (int kind = 0; kind < 3; kind++)
                        extPrefix.push_back({n + (kind == 0 ? "PKc" : kind == 1 ? "RKNSt7__cxx1112basic_string" : "RKS_"), [this, kind](PInst&, vector<Val>& a)
                        {
                            Type* pt = PointerType::get(ctx, 0);
                            if (kind == 2) { store(a[0], load(a[1], pt), pt); store(addOff(a[0], 8), load(addOff(a[1], 8), pt), pt); return 1; }
                            store(a[0], Val(globalByName["snn_rt_exception"] + 16), pt);
                            Val from = kind ? load(a[1], pt) : a[1], to(globalByName["snn_rt_empty"]);
                            uint64_t n = 0;
                            Type* i8 = Type::getInt8Ty(ctx);
                            if (kind) { Val v = load(addOff(a[1], 8), Type::getInt64Ty(ctx)); if (v.conc()) n = v.c; }
                            else if (from.conc() && from.c) while (n < 4096) { Val v = load(addOff(from, n), i8); if (!v.conc() || v.c == 0) break; n++; }
                            if (n && n < 100000)
                            {
                                to = Val(alloc(*S, n + 1, 4, "text of an exception", true));
                                copyMem(to, from, n);
                            }
                            store(addOff(a[0], 8), to, pt);
                            return 1;
                        }});
                extPrefix.push_back({n, noop});
            }
            for (const char* k : {"D0E", "D1E", "D2E"}) extPrefix.push_back({string("_ZNSt") + c + k, noop});
            extPrefix.push_back({string("_ZNSt") + c + "aSE", [this](PInst& p, vector<Val>& a) { set(p, a[0]); return 1; }});
            if (text) extPrefix.push_back({string("_ZNKSt") + c + "4whatEv", [this](PInst& p, vector<Val>& a) { Type* pt = PointerType::get(ctx, 0); set(p, load(addOff(a[0], 8), pt)); return 1; }});
            else extPrefix.push_back({string("_ZNKSt") + c + "4whatEv", [this](PInst& p, vector<Val>&) { set(p, Val(globalByName.count("snn_rt_empty") ? globalByName["snn_rt_empty"] : 0)); return 1; }});
        }
        ext["__dynamic_cast"] = [this](PInst& p, vector<Val>& a)
        {
            if (a[0].conc() && a[0].c == 0) { set(p, Val((uint64_t)0)); return 1; }
            Type* pt = PointerType::get(ctx, 0);
            uint64_t src = a[0].c;
            if (!a[0].conc()) { E x = a[0].e; while (x->k == K_ITE) x = decide(x->a[0]) ? x->a[1] : x->a[2]; if (!isC(x)) throw EngineError{"dynamic_cast of a symbolic pointer"}; src = x->c; if (!src) { set(p, Val((uint64_t)0)); return 1; } }
            uint64_t vptr = concU(load(Val(src), pt), "vptr");
            int64_t top = concU(load(Val(vptr - 16), Type::getInt64Ty(ctx)), "offset to top");
            uint64_t ti = concU(load(Val(vptr - 8), pt), "typeinfo");
            string most = typeInfo(ti).name, dst = typeInfo(a[2].c).name;
            int64_t off;
            if (!findBase(most, dst, off)) set(p, Val((uint64_t)0));
            else set(p, Val(src + top + off));
            return 1;
        };
        ext["__cxa_bad_cast"] = [this](PInst&, vector<Val>&) -> int
        {
            if (auto* f = M->getFunction("snn_rt_bad_cast")) { pushFrame(S->threads[S->cur], f, {}); return 2; }
            memError("bad_cast");
        };
        ext["__cxa_atexit"] = zero;
        ext["__cxa_thread_atexit"] = zero;
        ext["atexit"] = zero;
        ext["__cxa_guard_acquire"] = [this](PInst& p, vector<Val>& a)
        {
            Val g = load(a[0], Type::getInt8Ty(ctx));
            set(p, Val((uint64_t)(concU(g, "guard") == 0)));
            return 1;
        };
        ext["__cxa_guard_release"] = [this](PInst&, vector<Val>& a) { store(a[0], Val((uint64_t)1), Type::getInt8Ty(ctx)); return 1; };
        ext["__cxa_guard_abort"] = noop;
        extPrefix.push_back({"_ZNSt8ios_base4Init", noop});
        ext["_ZSt17current_exceptionv"] = [](PInst&, vector<Val>&) -> int { throw EngineError{"current_exception"}; };
        ext["_ZSt18uncaught_exceptionv"] = zero;
        ext["_ZSt19uncaught_exceptionsv"] = zero;
        ext["__errno_location"] = [this](PInst& p, vector<Val>&) { set(p, Val(globalByName["snn_rt_errno"])); return 1; };
        // ---- mathematics
        auto m1 = [this](const char* n, Fn fn) { ext[n] = [this, fn, n](PInst& p, vector<Val>& a) { return math1(p, a, fn, n); }; };
        m1("expf", FN_EXP); m1("exp", FN_EXP); m1("tanhf", FN_TANH); m1("tanh", FN_TANH); m1("logf", FN_LOG); m1("log", FN_LOG);
        m1("sqrtf", FN_SQRT); m1("sqrt", FN_SQRT); m1("erf", FN_ERF); m1("erff", FN_ERF); m1("cosh", FN_OTHER); m1("coshf", FN_OTHER); m1("sinh", FN_OTHER); m1("sinhf", FN_OTHER); m1("atan", FN_OTHER); m1("atanf", FN_OTHER); m1("log2", FN_OTHER); m1("log2f", FN_OTHER); m1("log10", FN_OTHER); m1("log10f", FN_OTHER);
        for (const char* n : {"cosh", "coshf", "sinh", "sinhf"})
            ext[n] = [this, n](PInst& p, vector<Val>& a)
            {
                if (!realMode) return math1(p, a, FN_OTHER, n);
                E x = a[0].e, e1 = mkFun(FN_EXP, x, nullptr, "exp"), e2 = mkFun(FN_EXP, mkFNeg(x), nullptr, "exp");
                set(p, Val(mkFBin(K_FMUL, mkFConst(0.5, x->s), mkFBin(n[0] == 'c' ? K_FADD : K_FSUB, e1, e2))));
                return 1;
            };
        for (const char* n : {"pow", "powf"}) ext[n] = [this](PInst& p, vector<Val>& a) { set(p, Val(mkFun(FN_POW, a[0].e, a[1].e, "pow"))); return 1; };
        for (const char* n : {"exp2", "exp2f"}) ext[n] = [this](PInst& p, vector<Val>& a) { set(p, Val(mkFun(FN_POW, mkFConst(2, a[0].e->s), a[0].e, "pow"))); return 1; };
        for (const char* n : {"tan", "asin", "acos", "asinh", "acosh", "atanh", "cbrt", "tgamma", "lgamma"})
            for (const char* f : {"", "f"})
            {
                const string name = string(n) + f;
                ext[name] = [this, name](PInst& p, vector<Val>& a) { set(p, Val(mkFun(FN_OTHER, a[0].e, nullptr, name.c_str()))); return 1; };
            }
        m1("sin", FN_SIN); m1("sinf", FN_SIN); m1("cos", FN_COS); m1("cosf", FN_COS);
        for (const char* n : {"fabs", "fabsf"}) ext[n] = [this](PInst& p, vector<Val>& a) { set(p, Val(mkFAbs(a[0].e))); return 1; };
        for (const char* n : {"floor", "floorf"}) ext[n] = [this](PInst& p, vector<Val>& a) { set(p, Val(mkFloor(a[0].e))); return 1; };
        for (const char* n : {"ceil", "ceilf"}) ext[n] = [this](PInst& p, vector<Val>& a) { set(p, Val(mkFNeg(mkFloor(mkFNeg(a[0].e))))); return 1; };
        for (const char* n : {"round", "roundf"}) ext[n] = [this](PInst& p, vector<Val>& a)
        {
            E x = a[0].e, h = mkFConst(0.5, x->s);
            set(p, Val(mkIte(mkFCmp(K_FLT, x, mkFConst(0, x->s)), mkFNeg(mkFloor(mkFBin(K_FADD, mkFNeg(x), h))), mkFloor(mkFBin(K_FADD, x, h)))));
            return 1;
        };
        for (const char* n : {"fmax", "fmaxf"}) ext[n] = [this](PInst& p, vector<Val>& a) { set(p, Val(fmaxmin(a[0].e, a[1].e, true))); return 1; };
        for (const char* n : {"fmin", "fminf"}) ext[n] = [this](PInst& p, vector<Val>& a) { set(p, Val(fmaxmin(a[0].e, a[1].e, false))); return 1; };
        // ---- threads and time
        ext["_ZNSt6thread4joinEv"] = [this](PInst&, vector<Val>& a)
        {
            Type* i64 = Type::getInt64Ty(ctx);
            uint64_t id = concU(load(a[0], i64), "thread id");
            if (id == 0) memError("join of a thread that is not joinable");
            int t = id - 1;
            if (S->threads[t].status == 2) { store(a[0], Val((uint64_t)0), i64); return 1; }
            auto& me = S->threads[S->cur];
            me.status = 1; me.target = t;
            for (auto& th : S->threads) th.steps = 0;
            schedule(true);
            return 2;
        };
        ext["_ZNSt6thread6detachEv"] = [this](PInst&, vector<Val>& a)
        {
            Type* i64 = Type::getInt64Ty(ctx);
            if (concU(load(a[0], i64), "thread id") == 0) memError("detach of a thread that is not joinable");
            store(a[0], Val((uint64_t)0), i64);
            return 1;
        };
        extPrefix.push_back({"_ZNSt6thread15_M_start_thread", [this](PInst& p, vector<Val>& a)
        {
            Type* pt = PointerType::get(ctx, 0);
            uint64_t st = concU(load(a[1], pt), "thread state");
            uint64_t vptr = concU(load(Val(st), pt), "vptr");
            uint64_t run = concU(load(Val(vptr + 16), pt), "thread function");
            store(a[1], Val((uint64_t)0), pt);
            store(a[0], Val((uint64_t)S->threads.size() + 1), Type::getInt64Ty(ctx));
            advance(p);
            S->threads.emplace_back();
            pushFrame(S->threads.back(), funcAt.at(run), {Val(st)});
            schedule(false);
            return 2;
        }});
        ext["_ZNSt6thread6_StateD2Ev"] = noop;
        ext["_ZNSt6thread6_StateD1Ev"] = noop;
        ext["pthread_self"] = [this](PInst& p, vector<Val>&) { set(p, Val((uint64_t)S->cur + 1)); return 1; };
        for (const char* n : {"nanosleep", "clock_nanosleep"})
            ext[n] = [this](PInst& p, vector<Val>&)
            {
                set(p, Val((uint64_t)0));
                advance(p);
                auto r = runnable();
                if (r.size() > 1) schedule(true);
                return 2;
            };
        ext["sched_yield"] = ext["nanosleep"];
        for (const char* n : {"pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_broadcast", "pthread_cond_signal", "pthread_cond_init", "pthread_cond_destroy"})
            ext[n] = zero;
        // mutexes: the owner and the depth by address; a thread that has to wait runs the call again
        auto lock = [this](PInst& p, vector<Val>& a, bool wait) -> int
        {
            const uint64_t m = concU(a[0], "mutex");
            const bool recursive = (concU(load(addOff(a[0], 16), Type::getInt32Ty(ctx)), "kind of mutex") & 3) == 1;
            auto it = S->mutexes.find(m);
            if (it == S->mutexes.end()) { S->mutexes[m] = {S->cur, 1}; set(p, Val((uint64_t)0)); return 1; }
            if (it->second.first == S->cur && recursive) { it->second.second++; set(p, Val((uint64_t)0)); return 1; }
            if (!wait) { set(p, Val((uint64_t)16)); return 1; }
            if (it->second.first == S->cur) { report("liveness", "deadlock: a thread locks its own mutex again", nullptr); throw Terminate{"deadlock", false}; }
            S->threads[S->cur].status = 4;
            S->threads[S->cur].mutex = m;
            schedule(true);
            return 2;
        };
        ext["pthread_mutex_lock"] = [lock](PInst& p, vector<Val>& a) { return lock(p, a, true); };
        ext["pthread_mutex_trylock"] = [lock](PInst& p, vector<Val>& a) { return lock(p, a, false); };
        ext["pthread_mutex_unlock"] = [this](PInst& p, vector<Val>& a)
        {
            auto it = S->mutexes.find(concU(a[0], "mutex"));
            if (it == S->mutexes.end() || it->second.first != S->cur) memError("unlock of a mutex that is not locked");
            if (--it->second.second == 0) S->mutexes.erase(it);
            set(p, Val((uint64_t)0));
            return 1;
        };
        for (const char* n : {"lround", "lroundf", "llround", "llroundf"}) ext[n] = [this](PInst& p, vector<Val>& a)
        {
            E x = a[0].e, h = mkFConst(0.5, x->s);
            E r = mkIte(mkFCmp(K_FLT, x, mkFConst(0, x->s)), mkFNeg(mkFloor(mkFBin(K_FADD, mkFNeg(x), h))), mkFloor(mkFBin(K_FADD, x, h)));
            set(p, Val(mkFToInt(r, true, 64)));
            return 1;
        };
        for (const char* n : {"hypot", "hypotf"}) ext[n] = [this, n](PInst& p, vector<Val>& a)
        {
            E q = mkFBin(K_FADD, mkFBin(K_FMUL, a[0].e, a[0].e), mkFBin(K_FMUL, a[1].e, a[1].e));
            set(p, Val(mkFun(FN_SQRT, q, nullptr, n[5] ? "sqrtf" : "sqrt")));
            return 1;
        };
        ext["realloc"] = [this](PInst& p, vector<Val>& a)
        {
            const uint64_t old = concU(a[0], "realloc");
            const uint64_t n = concretize(a[1], 64, "size");
            Val r(alloc(*S, n, 0, "heap"));
            if (old)
            {
                Obj* o = S->mem.get(old >> ADDR_SHIFT);
                if (!o || (old & ((1ull << ADDR_SHIFT) - 1))) memError("realloc of something that was not allocated");
                copyMem(r, a[0], std::min<uint64_t>(n, o->size));
                freeMem(a[0], 0, "realloc");
            }
            set(p, r);
            return 1;
        };
        for (const char* n : {"fmod", "fmodf", "remainder", "remainderf"}) ext[n] = [this, n](PInst& p, vector<Val>& a)
        {
            E q = mkFBin(K_FDIV, a[0].e, a[1].e), z = mkFConst(0, q->s);
            E down = mkFloor(q), half = mkFloor(mkFBin(K_FADD, q, mkFConst(0.5, q->s)));
            E k = n[0] == 'f' ? mkIte(mkFCmp(K_FLT, q, z), mkFNeg(mkFloor(mkFNeg(q))), down) : half;
            set(p, Val(mkFBin(K_FSUB, a[0].e, mkFBin(K_FMUL, k, a[1].e))));
            return 1;
        };
        for (const char* n : {"rint", "rintf", "nearbyint", "nearbyintf"}) ext[n] = [this](PInst& p, vector<Val>& a) { set(p, Val(roundEven(a[0].e))); return 1; };
        for (const char* n : {"lrint", "lrintf", "llrint", "llrintf"}) ext[n] = [this](PInst& p, vector<Val>& a) { set(p, Val(mkFToInt(roundEven(a[0].e), true, 64))); return 1; };
        ext["memchr"] = [this](PInst& p, vector<Val>& a)
        {
            const uint64_t n = concretize(a[2], 64, "search size"), c = concU(a[1], "searched byte") & 255;
            for (uint64_t i = 0; i < n; i++)
                if (decide(mkBin(K_EQ, toE(load(addOff(a[0], i), Type::getInt8Ty(ctx)), 8), mkConst(c, 8)))) { set(p, addOff(a[0], i)); return 1; }
            set(p, Val((uint64_t)0));
            return 1;
        };
        ext["snn_rt_double"] = [this](PInst& p, vector<Val>& a)
        {
            char b[512];
            if (!isFC(a[1].e))
            {
                // an arbitrary number is written as a name of its own
                const int n = snprintf(b, sizeof b, "<number %u as %u %u>", (unsigned)a[1].e->id, (unsigned)concU(a[2], "precision"), (unsigned)concU(a[3], "format") & 260);
                for (int i = 0; i <= n; i++) store(addOff(a[0], i), Val((uint64_t)(unsigned char)b[i]), Type::getInt8Ty(ctx));
                set(p, Val((uint64_t)n));
                return 1;
            }
            double v;
            if (!fconstAsDouble(a[1].e, v)) v = a[1].e->f->special == 2 ? INFINITY : a[1].e->f->special == 3 ? -INFINITY : a[1].e->f->special ? NAN : a[1].e->f->q.get_d();
            const int n = snprintf(b, sizeof b, [&] { const auto f = concU(a[3], "format") & 260; return f == 4 ? "%.*f" : f == 256 ? "%.*e" : "%.*g"; }(), (int)concU(a[2], "precision"), v);
            for (int i = 0; i <= n; i++) store(addOff(a[0], i), Val((uint64_t)(unsigned char)b[i]), Type::getInt8Ty(ctx));
            set(p, Val((uint64_t)n));
            return 1;
        };
        ext["snn_rt_chars"] = [this](PInst& p, vector<Val>& a)
        {
            char b[512];
            const int single = (int)concU(a[2], "width"), precision = (int)(int32_t)concU(a[4], "precision");
            const auto format = (std::chars_format)concU(a[3], "format");
            int n;
            if (!isFC(a[1].e)) n = snprintf(b, sizeof b, "<number %u as %d %u>", (unsigned)a[1].e->id, precision, (unsigned)format);
            else
            {
                double v;
                if (!fconstAsDouble(a[1].e, v)) v = a[1].e->f->special == 2 ? INFINITY : a[1].e->f->special == 3 ? -INFINITY : a[1].e->f->special ? NAN : a[1].e->f->q.get_d();
                std::to_chars_result r;
                if (precision >= 0) r = single ? std::to_chars(b, b + 500, (float)v, format, precision) : std::to_chars(b, b + 500, v, format, precision);
                else if ((int)format) r = single ? std::to_chars(b, b + 500, (float)v, format) : std::to_chars(b, b + 500, v, format);
                else r = single ? std::to_chars(b, b + 500, (float)v) : std::to_chars(b, b + 500, v);
                n = r.ptr - b;
            }
            for (int i = 0; i < n; i++) store(addOff(a[0], i), Val((uint64_t)(unsigned char)b[i]), Type::getInt8Ty(ctx));
            set(p, Val((uint64_t)n));
            return 1;
        };
        for (const char* n : {"f", "d"})
            ext[string("_ZNSt7__cxx119to_stringE") + n] = [this, n](PInst&, vector<Val>& a)
            {
                pushFrame(S->threads[S->cur], M->getFunction(string("snn_rt_to_string_") + n), a);
                return 2;
            };
        // what is printed is not looked at
        for (const char* n : {"puts", "printf", "fprintf", "fflush", "fputs", "putchar", "fputc", "fwrite"}) ext[n] = zero;
        // an arbitrary, non-decreasing clock, in nanoseconds
        for (const char* n : {"_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv"})
            ext[n] = [this](PInst& p, vector<Val>&)
            {
                if (!opt.params.count("clock")) { set(p, Val((uint64_t)(1000000000ull * 1000 + 1000 * S->counters["clock"]++ + S->clockOffset))); return 1; }
                string nm = uniq("clock");
                E v = mkVar(nm, 64);
                int k = S->counters["clockn"]++;
                if (k == 0) assume(*S, mkBin(K_EQ, v, mkConst(1000000000ull, 64)));
                else
                {
                    E prev = mkVar(k == 1 ? "clock" : "clock#" + std::to_string(k - 1), 64);
                    assume(*S, mkBin(K_SLE, prev, v));
                    assume(*S, mkBin(K_SLE, v, mkConst(1000000000ull * 2100000, 64)));
                }
                S->inputs.push_back({nm, v, 1, 0, 0});
                set(p, Val(v));
                return 1;
            };
        ext["snn_pass_time"] = [this](PInst&, vector<Val>& a) { S->clockOffset += concU(a[0], "time"); return 1; };
        ext["snn_clock"] = [this](PInst& p, vector<Val>& a)
        {
            uint64_t k = concU(a[0], "clock index");
            set(p, Val(mkVar(k == 0 ? "clock" : "clock#" + std::to_string(k), 64)));
            return 1;
        };
        ext["__gxx_personality_v0"] = noop;
    }

    // returns true when the caller has to advance
    bool intrinsic(PInst& p, const Function* F, vector<Val>& a)
    {
        Type* rt = p.I->getType();
        switch (F->getIntrinsicID())
        {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
            copyMem(a[0], a[1], concretize(a[2], 64, "copy size")); return true;
        case Intrinsic::memset:
            setMem(a[0], a[1].conc() ? Val(a[1].c & 255) : a[1], concretize(a[2], 64, "set size")); return true;
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::var_annotation:
            if (p.dst >= 0) set(p, Val((uint64_t)0));
            return true;
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect: case Intrinsic::expect_with_probability:
        case Intrinsic::ptr_annotation: case Intrinsic::annotation:
            set(p, a[0]); return true;
        case Intrinsic::threadlocal_address: set(p, a[0]); return true;
        case Intrinsic::stacksave: set(p, Val((uint64_t)0)); return true;
        case Intrinsic::stackrestore: return true;
        case Intrinsic::trap: case Intrinsic::ubsantrap: memError("trap executed");
        case Intrinsic::is_constant: set(p, Val((uint64_t)0)); return true;
        case Intrinsic::objectsize: set(p, Val(maskW(p.w))); return true;
        case Intrinsic::eh_typeid_for:
        {
            auto* c = cast<CallBase>(p.I)->getArgOperand(0)->stripPointerCasts();
            string n = isa<ConstantPointerNull>(c) ? "..." : c->getName().str();
            set(p, Val((uint64_t)typeId(n)));
            return true;
        }
        case Intrinsic::fabs: set(p, Val(mkFAbs(a[0].e))); return true;
        case Intrinsic::exp2: return ext["exp2"](p, a), true;
        case Intrinsic::sin: return ext["sin"](p, a), true;
        case Intrinsic::cos: return ext["cos"](p, a), true;
        case Intrinsic::log2: return ext["log2"](p, a), true;
        case Intrinsic::log10: return ext["log10"](p, a), true;
        case Intrinsic::ldexp: { double k = 1; for (int n = (int)signedOf(concU(a[1], "ldexp"), 32); n; n += n > 0 ? -1 : 1) k *= n > 0 ? 2 : 0.5; set(p, floatOp(Instruction::FMul, a[0], Val(mkFConst(k, a[0].e->s)))); return true; }
        case Intrinsic::sqrt: set(p, Val(mkFun(FN_SQRT, a[0].e, nullptr, rt->isFloatTy() ? "sqrtf" : "sqrt"))); return true;
        case Intrinsic::exp: expArgument(a[0].e); set(p, Val(mkFun(FN_EXP, a[0].e, nullptr, rt->isFloatTy() ? "expf" : "exp"))); return true;
        case Intrinsic::log: set(p, Val(mkFun(FN_LOG, a[0].e, nullptr, rt->isFloatTy() ? "logf" : "log"))); return true;
        case Intrinsic::pow: set(p, Val(mkFun(FN_POW, a[0].e, a[1].e, "pow"))); return true;
        case Intrinsic::floor: set(p, Val(mkFloor(a[0].e))); return true;
        case Intrinsic::ceil: set(p, Val(mkFNeg(mkFloor(mkFNeg(a[0].e))))); return true;
        case Intrinsic::trunc:
        {
            E x = a[0].e;
            set(p, Val(mkIte(mkFCmp(K_FLT, x, mkFConst(0, x->s)), mkFNeg(mkFloor(mkFNeg(x))), mkFloor(x)))); return true;
        }
        case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: set(p, Val(roundEven(a[0].e))); return true;
        case Intrinsic::lrint: case Intrinsic::llrint: set(p, Val(mkFToInt(roundEven(a[0].e), true, p.w))); return true;
        case Intrinsic::lround: case Intrinsic::llround: return ext["lround"](p, a), true;
        case Intrinsic::round: return ext["round"](p, a), true;
        case Intrinsic::fmuladd: case Intrinsic::fma: set(p, floatOp(Instruction::FAdd, floatOp(Instruction::FMul, a[0], a[1]), a[2])); return true;
        case Intrinsic::maxnum: case Intrinsic::maximum: set(p, Val(fmaxmin(a[0].e, a[1].e, true))); return true;
        case Intrinsic::minnum: case Intrinsic::minimum: set(p, Val(fmaxmin(a[0].e, a[1].e, false))); return true;
        case Intrinsic::copysign:
        {
            E x = mkFAbs(a[0].e), z = mkFConst(0, x->s);
            if (!realMode) throw EngineError{"copysign"};
            set(p, Val(mkIte(mkFCmp(K_FLT, a[1].e, z), mkFNeg(x), x)));
            return true;
        }
        case Intrinsic::is_fpclass:
        {
            unsigned mask = a[1].c;
            E x = a[0].e, z = mkFConst(0, x->s), r = mkConst(0, 1);
            E nan = mkFCmp(K_FUNO, x, x), inf = mkFConst(INFINITY, x->s), ninf = mkFConst(-INFINITY, x->s);
            E isPInf = mkFCmp(K_FEQ, x, inf), isNInf = mkFCmp(K_FEQ, x, ninf), isZ = mkFCmp(K_FEQ, x, z);
            E mn = mkFConst(x->s == S_F32 ? 1.17549435082228750797e-38 : 2.2250738585072014e-308, x->s);
            E ab = mkFAbs(x);
            E fin = mkFCmp(K_FLT, ab, inf), normal = mkAndB(fin, mkFCmp(K_FLE, mn, ab)), sub = mkAndB(mkNot(isZ), mkFCmp(K_FLT, ab, mn));
            E neg = mkFCmp(K_FLT, x, z);
            if (mask & (fcQNan | fcSNan)) r = mkOrB(r, nan);
            if (mask & fcNegInf) r = mkOrB(r, isNInf);
            if (mask & fcPosInf) r = mkOrB(r, isPInf);
            if (mask & fcNegNormal) r = mkOrB(r, mkAndB(neg, normal));
            if (mask & fcPosNormal) r = mkOrB(r, mkAndB(mkNot(neg), normal));
            if (mask & fcNegSubnormal) r = mkOrB(r, mkAndB(neg, sub));
            if (mask & fcPosSubnormal) r = mkOrB(r, mkAndB(mkNot(neg), sub));
            if (mask & (fcNegZero | fcPosZero)) r = mkOrB(r, isZ);
            set(p, Val(r));
            return true;
        }
        case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin:
        {
            auto id = F->getIntrinsicID();
            E x = toE(a[0], p.w), y = toE(a[1], p.w);
            E lt = mkBin(id == Intrinsic::umax || id == Intrinsic::umin ? K_ULT : K_SLT, x, y);
            set(p, Val(id == Intrinsic::umax || id == Intrinsic::smax ? mkIte(lt, y, x) : mkIte(lt, x, y)));
            return true;
        }
        case Intrinsic::abs:
        {
            E x = toE(a[0], p.w), z = mkConst(0, p.w);
            set(p, Val(mkIte(mkBin(K_SLT, x, z), mkBin(K_SUB, z, x), x)));
            return true;
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
        {
            auto id = F->getIntrinsicID();
            unsigned w = rt->getStructElementType(0)->getIntegerBitWidth();
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            Kind k = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow ? K_ADD : id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow ? K_SUB : K_MUL;
            Val r; r.agg = std::make_shared<vector<Val>>();
            if (a[0].conc() && a[1].conc())
            {
                bool ov; uint64_t v;
                if (sg)
                {
                    __int128 x = signedOf(a[0].c, w), y = signedOf(a[1].c, w), z = k == K_ADD ? x + y : k == K_SUB ? x - y : x * y, lim = (__int128)1 << (w - 1);
                    ov = z >= lim || z < -lim; v = (uint64_t)z & maskW(w);
                }
                else
                {
                    unsigned __int128 x = a[0].c, y = a[1].c, z = k == K_ADD ? x + y : k == K_SUB ? x - y : x * y;
                    v = (uint64_t)z & maskW(w); ov = k == K_SUB ? y > x : z > maskW(w);
                }
                *r.agg = {Val(v), Val((uint64_t)ov)};
            }
            else
            {
                E x = toE(a[0], w), y = toE(a[1], w);
                if (w > 32)
                {
                    // new T[n] with a symbolic n: small counts only
                    if (k != K_MUL || sg || !isC(y)) throw EngineError{"wide overflow intrinsic"};
                    *r.agg = {Val(mkBin(k, x, y)), Val(mkBin(K_ULT, mkConst(maskW(w) / y->c, w), x))};
                }
                else
                {
                    E wx = sg ? mkSExt(x, 64) : mkZExt(x, 64), wy = sg ? mkSExt(y, 64) : mkZExt(y, 64), wz = mkBin(k, wx, wy), v = mkBin(k, x, y);
                    *r.agg = {Val(v), Val(mkNot(mkBin(K_EQ, wz, sg ? mkSExt(v, 64) : mkZExt(v, 64))))};
                }
            }
            set(p, r);
            return true;
        }
        case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop:
        {
            uint64_t v = concU(a[0], "bit count"); unsigned w = p.w, n = 0;
            if (F->getIntrinsicID() == Intrinsic::ctpop) n = __builtin_popcountll(v);
            else if (F->getIntrinsicID() == Intrinsic::cttz) { while (n < w && !((v >> n) & 1)) n++; }
            else { while (n < w && !((v >> (w - 1 - n)) & 1)) n++; }
            set(p, Val((uint64_t)n));
            return true;
        }
        case Intrinsic::fshl: case Intrinsic::fshr:
        {
            const unsigned w = p.w;
            const uint64_t hi = concU(a[0], "funnel shift"), lo = concU(a[1], "funnel shift"), n = concU(a[2], "funnel shift") % w;
            const unsigned left = F->getIntrinsicID() == Intrinsic::fshl ? n : w - n;
            set(p, Val(left == 0 ? hi & maskW(w) : left == w ? lo & maskW(w) : ((hi << left) | ((lo & maskW(w)) >> (w - left))) & maskW(w)));
            return true;
        }
        case Intrinsic::bswap: case Intrinsic::bitreverse:
        {
            const uint64_t v = concU(a[0], "byte swap"); const unsigned w = p.w, step = F->getIntrinsicID() == Intrinsic::bswap ? 8 : 1;
            uint64_t r = 0;
            for (unsigned i = 0; i < w; i += step) r |= ((v >> i) & maskW(step)) << (w - step - i);
            set(p, Val(r));
            return true;
        }
        default:
            if (F->getName() == "llvm.x86.sse2.pause") return true;
            throw EngineError{"intrinsic " + F->getName().str()};
        }
    }
