// A symbolic executor for LLVM IR: see DESIGN.md.
#include "state.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/DenseMap.h>
#include <charconv>
#include <chrono>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <random>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>

using namespace llvm;
using std::string;
using std::vector;

static double now()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}
static string jstr(const string& s)
{
    string r = "\"";
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if (ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
        else r += ch;
    }
    return r + "\"";
}

struct Options
{
    string bc, entry, out, repo = "/repo";
    std::map<string, long> params;
    double timeLimit = 600;
    unsigned queryMs = 20000, branchMs = 3000;
    unsigned maxPaths = 100000, witnesses = 3, maxViolations = 3;
    uint64_t maxSteps = 50000000, hangSteps = 3000000;
    bool overflow = true, verbose = false, forkRng = false;
    unsigned seed = 1;
} opt;

struct Terminate { string why; bool ok; };      // ends the current path
struct Forked {};                               // current state was replaced

struct Violation { string kind, msg, loc; vector<string> inputs; bool confirmed; };

struct Engine
{
    LLVMContext ctx;
    std::unique_ptr<Module> M;
    const DataLayout* DL = nullptr;
    DenseMap<const Function*, PFunc*> funcs;
    std::unordered_map<uint64_t, const Function*> funcAt;
    DenseMap<const Value*, uint64_t> globalAddr;
    std::map<string, uint64_t> globalByName;
    std::map<string, int> typeIds;

    vector<std::unique_ptr<State>> work;
    State* S = nullptr;

    // statistics
    uint64_t nPaths = 0, nOk = 0, nForks = 0, nInstr = 0, nBranchQ = 0, nCheckQ = 0, nCheckTrivial = 0, nMemQ = 0, nOvfQ = 0, nUnsat = 0, nSat = 0, nUnknown = 0, nChecks = 0, nInfeasible = 0;
    double solverTime = 0, t0 = 0;
    vector<Violation> violations;
    std::map<string, int> violKeys;
    vector<string> errors;
    std::map<string, uint64_t> reachedTags;
    std::map<string, uint64_t> endReasons;
    vector<string> witnessJson;
    std::set<string> assumptions;
    std::set<string> repoFuncs;
    PInst* curInst = nullptr;
    bool bounded = false;

    // -------------------------------------------------------------------------------------------- solver
    std::unique_ptr<z3::solver> inc;
    vector<E> incStack;
    vector<size_t> incFuns;
    vector<E> incFunList;
    std::unordered_set<E> incSeenFun;

    static void unaryAxioms(E e, vector<E>& out)
    {
        if (e->k != K_FUN) return;
        E x = e->a[0];
        if (!realMode)
        {
            // what every implementation keeps: invalid only for an invalid argument, range, and side of the fixed point
            auto cf = [&](double d) { return mkFConst(d, e->s); };
            auto cx = [&](double d) { return mkFConst(d, x->s); };
            E nan = mkFCmp(K_FUNO, x, x);
            if (e->fn == FN_EXP)
            {
                out.push_back(mkOrB(nan, mkFCmp(K_FLE, cf(0), e)));
                out.push_back(mkOrB(mkNot(mkFCmp(K_FLE, x, cx(0))), mkFCmp(K_FLE, e, cf(1))));
                out.push_back(mkOrB(mkNot(mkFCmp(K_FLE, cx(0), x)), mkFCmp(K_FLE, cf(1), e)));
            }
            else if (e->fn == FN_TANH)
            {
                out.push_back(mkOrB(nan, mkAndB(mkFCmp(K_FLE, cf(-1), e), mkFCmp(K_FLE, e, cf(1)))));
                out.push_back(mkOrB(mkNot(mkFCmp(K_FLE, x, cx(0))), mkFCmp(K_FLE, e, cf(0))));
                out.push_back(mkOrB(mkNot(mkFCmp(K_FLE, cx(0), x)), mkFCmp(K_FLE, cf(0), e)));
            }
            return;
        }
        auto cst = [](double d) { return mkFConst(d, S_F64); };
        E X = mkFCast(x, S_F64);
        switch (e->fn)
        {
        case FN_EXP:
            out.push_back(mkFCmp(K_FLT, cst(0), e));
            out.push_back(mkBin(K_EQ, mkFCmp(K_FLT, cst(0), X), mkFCmp(K_FLT, cst(1), e)));
            out.push_back(mkBin(K_EQ, mkFCmp(K_FLT, X, cst(0)), mkFCmp(K_FLT, e, cst(1))));
            break;
        case FN_TANH:
            out.push_back(mkFCmp(K_FLT, cst(-1), e));
            out.push_back(mkFCmp(K_FLT, e, cst(1)));
            out.push_back(mkBin(K_EQ, mkFCmp(K_FLT, cst(0), X), mkFCmp(K_FLT, cst(0), e)));
            out.push_back(mkBin(K_EQ, mkFCmp(K_FLT, X, cst(0)), mkFCmp(K_FLT, e, cst(0))));
            break;
        case FN_SQRT:
            out.push_back(mkOrB(mkFCmp(K_FLT, X, cst(0)), mkAndB(mkFCmp(K_FLE, cst(0), e), mkFCmp(K_FEQ, mkFBin(K_FMUL, e, e), X))));
            break;
        default: break;
        }
    }
    // tanh in terms of exp, when a query talks about both
    static void linkAxioms(const vector<E>& fs, vector<E>& out)
    {
        bool e = false, t = false;
        for (E f : fs) { e |= f->fn == FN_EXP; t |= f->fn == FN_TANH; }
        if (!e || !t) return;
        E one = mkFConst(1, S_F64);
        vector<E> more;
        for (E f : fs)
            if (f->fn == FN_TANH)
            {
                E x = mkFun(FN_EXP, mkFBin(K_FMUL, mkFConst(2, S_F64), mkFCast(f->a[0], S_F64)), nullptr, "exp");
                more.push_back(mkFCmp(K_FEQ, mkFBin(K_FMUL, f, mkFBin(K_FADD, x, one)), mkFBin(K_FSUB, x, one)));
            }
        vector<E> nf;
        std::unordered_set<E> seen(fs.begin(), fs.end());
        for (E m : more) collectFuns(m, nf, seen);
        for (E f : nf) if (std::find(fs.begin(), fs.end(), f) == fs.end()) unaryAxioms(f, out);
        out.insert(out.end(), more.begin(), more.end());
    }
    static void pairAxioms(const vector<E>& fs, vector<E>& out)
    {
        for (size_t i = 0; i < fs.size(); i++)
            for (size_t j = 0; j < fs.size(); j++)
                if (i != j && fs[i]->fn == fs[j]->fn && (fs[i]->fn == FN_EXP || fs[i]->fn == FN_TANH))
                    out.push_back(mkBin(K_EQ, mkFCmp(K_FLT, mkFCast(fs[i]->a[0], S_F64), mkFCast(fs[j]->a[0], S_F64)), mkFCmp(K_FLT, fs[i], fs[j])));
    }
    z3::expr zx(E e) { return z3::expr(*zctx, lower(e)); }

    void resetInc() { inc.reset(); incStack.clear(); incFuns.clear(); incFunList.clear(); incSeenFun.clear(); }
    void incPush(E e)
    {
        inc->push();
        incStack.push_back(e);
        incFuns.push_back(incFunList.size());
        vector<E> fs, ax;
        collectFuns(e, fs, incSeenFun);
        for (E f : fs) { incFunList.push_back(f); unaryAxioms(f, ax); }
        inc->add(zx(e));
        for (E a : ax) inc->add(zx(a));
    }
    void incPop()
    {
        inc->pop();
        incStack.pop_back();
        size_t n = incFuns.back(); incFuns.pop_back();
        if (incFunList.size() > n) { incFunList.resize(n); incSeenFun.clear(); }
    }
    unsigned curMs = 0;
    z3::check_result branchCheck(State& s, E extra)
    {
        double t = now();
        if (!inc)
        {
            inc.reset(new z3::solver(*zctx));
            curMs = 0;
        }
        size_t k = 0;
        while (k < incStack.size() && k < s.pc.size() && incStack[k] == s.pc[k]) k++;
        while (incStack.size() > k) incPop();
        for (; k < s.pc.size(); k++) incPush(s.pc[k]);
        incPush(extra);
        if (curMs != opt.branchMs)
        {
            z3::params p(*zctx); p.set("timeout", opt.branchMs); p.set("random_seed", opt.seed); inc->set(p); curMs = opt.branchMs;
        }
        z3::check_result r = inc->check();
        incPop();
        nBranchQ++;
        solverTime += now() - t;
        (r == z3::sat ? nSat : r == z3::unsat ? nUnsat : nUnknown)++;
        return r;
    }
    static void flattenPc(const vector<E>& in, vector<E>& out)
    {
        out = in;
    }
    // full query: path condition, axioms, extra constraints
    z3::check_result fullCheck(const vector<E>& pc, const vector<E>& extra, z3::model* mod, unsigned ms, bool wantModel)
    {
        double t = now();
        vector<E> all(pc);
        all.insert(all.end(), extra.begin(), extra.end());
        // with many applications, only the comparisons of pairs that a model gets wrong are added
        vector<E> lazy;
        axiomsOf(all, lazy);
        z3::check_result r = z3::unknown;
        string why;
        for (int round = 0; round < 12; round++)
        {
        r = z3::unknown;
        z3::model found(*zctx);
        for (int attempt = 0; attempt < 3 && r == z3::unknown; attempt++)
        {
            unsigned lim = attempt == 0 ? ms / 4 : attempt == 1 ? ms / 2 : ms / 4;
            try
            {
                z3::context& c = *zctx;
                z3::tactic tac(c, "skip");
                z3::params sp(c);
                sp.set("som", true);
                if (attempt == 0) tac = z3::with(z3::tactic(c, "simplify"), sp) & z3::tactic(c, "propagate-values") & z3::tactic(c, "solve-eqs") & z3::with(z3::tactic(c, "simplify"), sp) & z3::tactic(c, "smt");
                else if (attempt == 1)
                {
                    if (!realMode) continue;
                    tac = z3::with(z3::tactic(c, "simplify"), sp) & z3::tactic(c, "propagate-values") & z3::tactic(c, "elim-term-ite") & z3::tactic(c, "purify-arith") & z3::tactic(c, "qfnra-nlsat");
                }
                z3::solver so = attempt == 2 ? z3::solver(c) : z3::try_for(tac, lim).mk_solver();
                z3::params p(c); p.set("timeout", lim); so.set(p);
                for (E e : all) so.add(zx(e));
                r = so.check();
                if (r == z3::sat && ((mod && wantModel) || !lazy.empty())) found = so.get_model();
            }
            catch (z3::exception& ex) { why = ex.msg(); }
        }
        if (r != z3::sat) break;
        size_t before = lazy.size();
        if (!lazy.empty())
        {
            vector<E> rest;
            for (E a : lazy)
            {
                bool holds = true;
                try { holds = !found.eval(zx(a), true).is_false(); } catch (z3::exception&) {}
                (holds ? rest : all).push_back(a);
            }
            lazy = rest;
        }
        if (lazy.size() == before)
        {
            if (mod && wantModel) *mod = found;
            break;
        }
        if (now() - t > ms / 500.0) { r = z3::unknown; break; }
        }
        solverTime += now() - t;
        (r == z3::sat ? nSat : r == z3::unsat ? nUnsat : nUnknown)++;
        return r;
    }
    bool feasible(State& s, E c)
    {
        if (isC(c)) return c->c;
        if (s.pcset.count(c)) return true;
        if (s.pcset.count(mkNot(c))) return false;
        auto r = branchCheck(s, c);
        if (r == z3::unknown) s.lenient = true;
        return r != z3::unsat;
    }
    void assume(State& s, E c)
    {
        if (isC(c)) return;
        if (c->k == K_AND && c->w == 1) { assume(s, c->a[0]); assume(s, c->a[1]); return; }
        if (s.pcset.insert(c).second) s.pc.push_back(c);
    }
    std::unique_ptr<State> fork(State& s, E c)
    {
        nForks++;
        auto n = std::make_unique<State>(s);
        assume(*n, c);
        n->depth++;
        return n;
    }
    // decides a condition on the current state, forking when both outcomes are possible; the other side restarts
    // the current instruction
    bool decide(E c)
    {
        if (isC(c)) return c->c;
        if (S->pcset.count(c)) return true;
        E nc = mkNot(c);
        if (S->pcset.count(nc)) return false;
        bool t = feasible(*S, c);
        bool f = t ? feasible(*S, nc) : true;
        if (t && f)
        {
            work.push_back(fork(*S, nc));
            assume(*S, c);
            return true;
        }
        if (!t && !f) throw Terminate{"infeasible", true};
        assume(*S, t ? c : nc);   // implied: keeps later queries short and the decision replayable
        return t;
    }

    // -------------------------------------------------------------------------------------------- models
    struct InputVal { bool isFloat; double d; long i; string text; };
    bool evalReal(z3::model& m, E e, double& d)
    {
        z3::expr v = m.eval(zx(e), true);
        if (realMode)
        {
            if (v.is_numeral()) { mpq_class q(v.numerator().get_decimal_string(0)), r(v.denominator().get_decimal_string(0)); q /= r; d = q.get_d(); return true; }
            if (v.is_algebraic()) { d = atof(v.get_decimal_string(20).c_str()); return true; }
            return false;
        }
        z3::expr b = z3::expr(*zctx, Z3_mk_fpa_to_ieee_bv(*zctx, v)).simplify();
        uint64_t u;
        if (!b.is_numeral_u64(u)) { d = NAN; return true; }
        if (e->s == S_F32) { uint32_t x = u; float f; memcpy(&f, &x, 4); d = f; }
        else memcpy(&d, &u, 8);
        return true;
    }
    vector<string> inputsOf(State& s, z3::model& m)
    {
        vector<string> r;
        char buf[128];
        for (auto& in : s.inputs)
        {
            string t;
            if (in.kind == 0)
            {
                double d = 0;
                if (!evalReal(m, in.e, d)) d = 0;
                if (std::isnan(d)) t = "f nan"; else if (std::isinf(d)) t = d > 0 ? "f inf" : "f -inf";
                else { snprintf(buf, sizeof buf, "f %.17g", d); t = buf; }
            }
            else
            {
                long v;
                if (isC(in.e)) v = signedOf(in.e->c, in.e->w);
                else
                {
                    z3::expr x = m.eval(zx(in.e), true);
                    uint64_t u = 0;
                    if (in.e->w == 1) u = x.is_true();
                    else x.is_numeral_u64(u);
                    v = signedOf(u, in.e->w);
                    if (in.e->w == 1) v = u;
                }
                snprintf(buf, sizeof buf, "i %ld", v);
                t = buf;
            }
            r.push_back(t + " " + in.name);
        }
        return r;
    }
    // some arithmetic procedures of the solver do not heed their time limits: queries of products or of functions are put
    // to it in a child process, which is ended when its time is over
    std::unordered_map<E, bool> hardMemo;
    bool hard(E root)
    {
        if (root->hasUF) return true;
        vector<E> st{root};
        while (!st.empty())
        {
            E e = st.back();
            if (hardMemo.count(e)) { st.pop_back(); continue; }
            bool open = false, r = (e->k == K_FMUL && !isFC(e->a[0]) && !isFC(e->a[1])) || (e->k == K_FDIV && !isFC(e->a[1]));
            if (!r)
                for (E x : e->a)
                    if (x)
                    {
                        auto it = hardMemo.find(x);
                        if (it == hardMemo.end()) { st.push_back(x); open = true; }
                        else r |= it->second;
                    }
            if (open) continue;
            hardMemo[e] = r;
            st.pop_back();
        }
        return hardMemo[root];
    }
    bool hard(const vector<E>& a, const vector<E>& b)
    {
        if (!realMode) return false;
        for (E e : a) if (hard(e)) return true;
        for (E e : b) if (hard(e)) return true;
        return false;
    }
    template <class F> bool inChild(double seconds, F f, string& out)
    {
        int fd[2];
        if (pipe(fd)) return false;
        fflush(nullptr);
        pid_t pid = ::fork();
        if (pid < 0) { close(fd[0]); close(fd[1]); return false; }
        if (pid == 0)
        {
            close(fd[0]);
            rlimit rl{6ull << 30, 6ull << 30};
            setrlimit(RLIMIT_AS, &rl);
            alarm((unsigned)seconds + 5);
            string r;
            try { r = f(); } catch (...) { _exit(1); }
            for (size_t at = 0; at < r.size();)
            {
                ssize_t k = write(fd[1], r.data() + at, r.size() - at);
                if (k <= 0) _exit(1);
                at += k;
            }
            _exit(0);
        }
        close(fd[1]);
        out.clear();
        const double end = now() + seconds;
        bool done = false;
        char buf[65536];
        for (;;)
        {
            const double left = end - now();
            if (left <= 0) break;
            pollfd p{fd[0], POLLIN, 0};
            int k = poll(&p, 1, (int)(left * 1000) + 1);
            if (k < 0 && errno == EINTR) continue;
            if (k <= 0) break;
            ssize_t n = read(fd[0], buf, sizeof buf);
            if (n <= 0) { done = n == 0; break; }
            out.append(buf, n);
        }
        close(fd[0]);
        if (!done) kill(pid, SIGKILL);
        int status = 0;
        waitpid(pid, &status, 0);
        return done && WIFEXITED(status) && WEXITSTATUS(status) == 0;
    }
    // in the child: one query by one procedure (3: after the values of variables are put in), without any timer
    z3::check_result plainQuery(const vector<E>& given, const vector<E>& lazyGiven, int how, z3::model& m)
    {
        z3::context& c = *zctx;
        vector<E> all(given), lazy(lazyGiven);
        for (;;)
        {
            z3::params sp(c);
            sp.set("som", true);
            z3::solver so(c);
            if (how == 0) so = (z3::with(z3::tactic(c, "simplify"), sp) & z3::tactic(c, "propagate-values") & z3::tactic(c, "solve-eqs") & z3::with(z3::tactic(c, "simplify"), sp) & z3::tactic(c, "smt")).mk_solver();
            if (how == 1) so = (z3::with(z3::tactic(c, "simplify"), sp) & z3::tactic(c, "propagate-values") & z3::tactic(c, "elim-term-ite") & z3::tactic(c, "purify-arith") & z3::tactic(c, "qfnra-nlsat")).mk_solver();
            if (how == 3) so = (z3::tactic(c, "simplify") & z3::tactic(c, "propagate-values") & z3::tactic(c, "simplify") & z3::tactic(c, "solve-eqs") & z3::tactic(c, "smt")).mk_solver();
            for (E e : all) so.add(zx(e));
            auto r = so.check();
            if (r != z3::sat) return r;
            m = so.get_model();
            vector<E> rest;
            size_t before = lazy.size();
            for (E a : lazy)
            {
                bool holds = true;
                try { holds = !m.eval(zx(a), true).is_false(); } catch (z3::exception&) {}
                (holds ? rest : all).push_back(a);
            }
            lazy = rest;
            if (lazy.size() == before) return r;
        }
    }
    void axiomsOf(vector<E>& all, vector<E>& lazy)
    {
        vector<E> fs, ax;
        std::unordered_set<E> seen;
        for (E e : all) collectFuns(e, fs, seen);
        for (E f : fs) unaryAxioms(f, ax);
        if (fs.size() <= 12) pairAxioms(fs, ax);
        else if (fs.size() <= 60) pairAxioms(fs, lazy);
        if (realMode) linkAxioms(fs, ax);
        all.insert(all.end(), ax.begin(), ax.end());
    }
    z3::check_result hardCheck(const vector<E>& pc, const vector<E>& extra, unsigned ms, int from = 0, int to = 2)
    {
        const double t = now();
        vector<E> all(pc), lazy;
        all.insert(all.end(), extra.begin(), extra.end());
        axiomsOf(all, lazy);
        for (E e : all) lower(e);
        for (E e : lazy) lower(e);
        z3::check_result r = z3::unknown;
        for (int how = from; how <= to && r == z3::unknown; how++)
        {
            string out;
            inChild((how == 1 ? ms / 2 : ms / 4) * 0.001 + 0.25, [&]() { z3::model m(*zctx); auto v = plainQuery(all, lazy, how, m); return string(v == z3::sat ? "sat" : v == z3::unsat ? "unsat" : "unknown"); }, out);
            if (out == "sat") r = z3::sat;
            if (out == "unsat") r = z3::unsat;
        }
        solverTime += now() - t;
        (r == z3::sat ? nSat : r == z3::unsat ? nUnsat : nUnknown)++;
        return r;
    }
    // value of a term for given values of the inputs, in doubles
    struct NoValue {};
    double valueOf(E e, std::unordered_map<E, double>& known)
    {
        auto it = known.find(e);
        if (it != known.end()) return it->second;
        auto v = [&](int i) { return valueOf(e->a[i], known); };
        double r;
        switch (e->k)
        {
        case K_CONST: r = e->w == 1 ? (double)(e->c & 1) : (double)signedOf(e->c, e->w); break;
        case K_FCONST: if (e->f->special) throw NoValue{}; r = e->f->q.get_d(); break;
        case K_FADD: r = v(0) + v(1); break;
        case K_FSUB: r = v(0) - v(1); break;
        case K_FMUL: r = v(0) * v(1); break;
        case K_FDIV: r = v(0) / v(1); break;
        case K_FNEG: r = -v(0); break;
        case K_FEXT: case K_FTRUNC: r = v(0); break;
        case K_FFLOOR: r = std::floor(v(0)); break;
        case K_FEQ: r = v(0) == v(1); break;
        case K_FLT: r = v(0) < v(1); break;
        case K_FLE: r = v(0) <= v(1); break;
        case K_FUNO: r = 0; break;
        case K_ITE: r = v(0) != 0 ? v(1) : v(2); break;
        case K_AND: if (e->w != 1) throw NoValue{}; r = v(0) != 0 && v(1) != 0; break;
        case K_OR: if (e->w != 1) throw NoValue{}; r = v(0) != 0 || v(1) != 0; break;
        case K_XOR: if (e->w != 1) throw NoValue{}; r = (v(0) != 0) != (v(1) != 0); break;
        case K_EQ: if (e->a[0]->w != 1) throw NoValue{}; r = (v(0) != 0) == (v(1) != 0); break;
        case K_FUN:
            switch (e->fn)
            {
            case FN_EXP: r = exp(v(0)); break;
            case FN_TANH: r = tanh(v(0)); break;
            case FN_LOG: r = log(v(0)); break;
            case FN_SQRT: r = sqrt(v(0)); break;
            case FN_POW: r = pow(v(0), v(1)); break;
            case FN_SIN: r = sin(v(0)); break;
            case FN_COS: r = cos(v(0)); break;
            case FN_ERF: r = erf(v(0)); break;
            default: throw NoValue{};
            }
            // rounded: arguments that are equal up to the rounding of their sums have equal values
            if (std::fabs(r) < 1e6) r = std::nearbyint(r * (1 << 30)) / (1 << 30);
            break;
        default: throw NoValue{};
        }
        if (!std::isfinite(r)) throw NoValue{};
        return known[e] = r;
    }
    bool hardInputs(State& s, const vector<E>& extra, unsigned ms, int how, vector<string>& inputs, std::unordered_map<E, double>* given = nullptr, bool exact = false)
    {
        const double t = now();
        vector<E> all(s.pc), lazy;
        all.insert(all.end(), extra.begin(), extra.end());
        vector<E> fs;
        if (given)
        {
            std::unordered_set<E> seen;
            for (E e : all) collectFuns(e, fs, seen);
        }
        if (!fs.empty())
        {
            if (how == 3 && exact) return false;      // equal values computed in two orders differ as doubles
            // functions of known values: the nearest double stands for their value (native runs decide what it is worth)
            std::unordered_set<Z3_ast> seen;
            try
            {
                for (E f : fs)
                    if (seen.insert(lower(f)).second) all.push_back(mkFCmp(K_FEQ, f, mkFConst(valueOf(f, *given), f->s)));
            }
            catch (NoValue&) { return false; }
        }
        else axiomsOf(all, lazy);
        for (E e : all) lower(e);
        string out;
        inChild(ms * 0.001, [&]()
        {
            z3::model m(*zctx);
            if (plainQuery(all, lazy, how, m) != z3::sat) return string("no");
            string r = "sat";
            for (auto& l : inputsOf(s, m)) r += "\n" + l;
            return r;
        }, out);
        solverTime += now() - t;
        if (out.compare(0, 3, "sat")) return false;
        inputs.clear();
        std::istringstream is(out.substr(3));
        string l;
        std::getline(is, l);
        while (std::getline(is, l)) inputs.push_back(l);
        return true;
    }
    // values that show a violation: first with the inputs, or most of them, given some short values (the solver then only
    // has the rest to find), then in a box, then anywhere
    E closer = nullptr;     // a smaller margin than the one asked for first
    bool hardGuess(State& s, const vector<E>& extra, unsigned ms, E margin, vector<string>& inputs)
    {
        vector<E> reals;
        for (auto& in : s.inputs) if (in.kind == 0 && !isFC(in.e)) reals.push_back(in.e);
        std::mt19937 gen(opt.seed);
        const double end = now() + ms * 0.001;
        for (int g = 0; g < (reals.empty() ? 2 : 78) && now() < end; g++)
        {
            vector<E> q(extra);
            std::unordered_map<E, double> given;
            for (E e : reals)
                if (g < 72 || gen() % 10 < (g < 75 ? 8u : 5u))
                {
                    const int range = reals.size() <= 3 && g % 3 == 2 ? 256 : g % 3 == 0 ? 12 : g % 3 == 1 ? 5 : 32;
                    int n = (int)(gen() % (2 * range)) - range;
                    if (n >= 0) n++;
                    q.push_back(mkFCmp(K_FEQ, e, mkFConst(0.125 * n, e->s)));
                    given[e] = 0.125 * n;
                }
            const bool apart = margin && (g < 60 || g >= 72);
            if (apart) q.push_back(closer && (g % 4 == 1 || (g && reals.empty())) ? closer : margin);
            if (hardInputs(s, q, 1000, 3, inputs, g < 72 ? &given : nullptr, margin && !apart)) return true;
        }
        return false;
    }
    bool hardModel(State& s, const vector<E>& extra, unsigned ms, E margin, vector<string>& inputs)
    {
        vector<E> reals;
        for (auto& in : s.inputs) if (in.kind == 0 && !isFC(in.e)) reals.push_back(in.e);
        for (int stage = 0; stage < 4; stage++)
        {
            vector<E> q(extra);
            if (stage < 2)
                for (E e : reals)
                {
                    q.push_back(mkFCmp(K_FLE, mkFConst(-8, e->s), e));
                    q.push_back(mkFCmp(K_FLE, e, mkFConst(8, e->s)));
                }
            if (stage % 2 == 0) { if (!margin) continue; q.push_back(margin); }
            for (int how = 0; how < 3; how++) if (hardInputs(s, q, std::max(ms / 8, 1000u), how, inputs)) return true;
        }
        return false;
    }
    // a model of the path condition (plus extra) with small, exactly representable inputs whenever possible
    z3::check_result niceModel(State& s, vector<E> extra, z3::model& m, unsigned ms, E margin = nullptr)
    {
        if (realMode)
        {
            vector<E> nice(extra);
            bool any = false;
            int k = 0;
            for (auto& in : s.inputs)
                if (in.kind == 0 && !isFC(in.e))
                {
                    any = true;
                    // value = n/8 with n an 8-bit integer
                    E n = mkVar("nice!" + std::to_string(k++), 7);
                    nice.push_back(mkFCmp(K_FEQ, mkFCast(in.e, S_F64), mkFBin(K_FMUL, mkIntToF(n, true, S_F64), mkFConst(0.125, S_F64))));
                }
            if (any && k <= 24)
            {
                if (margin)
                {
                    vector<E> n2(nice); n2.push_back(margin);
                    if (fullCheck(s.pc, n2, &m, 2500, true) == z3::sat) return z3::sat;
                }
                if (fullCheck(s.pc, nice, &m, 2500, true) == z3::sat) return z3::sat;
            }
            if (any)
            {
                vector<E> box(extra);
                for (auto& in : s.inputs)
                    if (in.kind == 0 && !isFC(in.e))
                    {
                        box.push_back(mkFCmp(K_FLE, mkFConst(-8, in.e->s), in.e));
                        box.push_back(mkFCmp(K_FLE, in.e, mkFConst(8, in.e->s)));
                    }
                if (margin)
                {
                    vector<E> n2(box); n2.push_back(margin);
                    if (fullCheck(s.pc, n2, &m, ms, true) == z3::sat) return z3::sat;
                }
                if (fullCheck(s.pc, box, &m, ms, true) == z3::sat) return z3::sat;
            }
        }
        return fullCheck(s.pc, extra, &m, ms, true);
    }
    string whereAmI()
    {
        string r;
        if (!S || S->threads.empty()) return r;
        auto& st = S->threads[S->cur].stack;
        for (int i = (int)st.size() - 1, n = 0; i >= 0 && n < 6; i--)
        {
            auto& fr = st[i];
            if (fr.bb >= (int)fr.f->blocks.size() || fr.pc >= fr.f->blocks[fr.bb].insts.size()) continue;
            auto* I = fr.f->blocks[fr.bb].insts[fr.pc].I;
            string fn = fr.f->name;
            if (!fr.f->repo && i != (int)st.size() - 1 && i != 0) continue;
            if (auto& dl = I->getDebugLoc())
            {
                auto* sc = cast<DILocation>(dl.get());
                string f = sc->getFilename().str();
                auto p = f.rfind('/');
                r += (r.empty() ? "" : " <- ") + fn + " " + (p == string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(sc->getLine());
            }
            else r += (r.empty() ? "" : " <- ") + fn;
            n++;
        }
        return r;
    }
    // condition `bad` must be unsatisfiable on the current path
    void report(const string& kind, const string& msg, E bad, E margin = nullptr, const vector<string>* given = nullptr)
    {
        z3::model m(*zctx);
        vector<E> ex;
        if (bad && !isC(bad)) ex.push_back(bad);
        string loc = whereAmI();
        string key = kind + "|" + msg;
        if (violKeys.count(key) && violKeys[key] >= 2) { violKeys[key]++; return; }
        vector<string> found;
        z3::check_result r;
        if (given) { found = *given; r = z3::sat; }
        else if (hard(S->pc, ex))
        {
            r = hardGuess(*S, ex, opt.queryMs, margin, found) || hardModel(*S, ex, opt.queryMs, margin, found) ? z3::sat : z3::unknown;
            if (r != z3::sat && hardCheck(S->pc, ex, opt.queryMs) == z3::unsat) return;
        }
        else
        {
            r = niceModel(*S, ex, m, opt.queryMs, margin);
            if (r == z3::unsat) return;
            if (r == z3::sat) found = inputsOf(*S, m);
        }
        if (r == z3::unknown)
        {
            errors.push_back("undecided: " + kind + ": " + msg + " at " + loc);
            return;
        }
        violKeys[key]++;
        Violation v{kind, msg, loc, found, true};
        violations.push_back(v);
        if (opt.verbose)
        {
            fprintf(stderr, "VIOLATION %s: %s at %s\n", kind.c_str(), msg.c_str(), loc.c_str());
            for (auto& t : v.inputs) fprintf(stderr, "    %s\n", t.c_str());
            if (getenv("SNN_DUMP"))
            {
                for (E e : S->pc) fprintf(stderr, "  assumed %s\n", zx(e).to_string().c_str());
                if (bad) fprintf(stderr, "  bad %s\n  model %s\n", zx(bad).to_string().c_str(), (std::ostringstream() << m).str().c_str());
            }
        }
    }
    // a deviation the harness can tell from any other: reported once, the path goes on without assuming it away
    void finding(E cond, const string& msg)
    {
        nChecks++;
        if (isC(cond) && cond->c) { nCheckTrivial++; return; }
        if (violKeys.count("finding|" + msg) || S->pcset.count(cond)) return;
        E bad = isC(cond) ? nullptr : mkNot(cond);
        if (bad)
        {
            nCheckQ++;
            if ((hard(S->pc, {bad}) ? hardCheck(S->pc, {bad}, opt.queryMs) : fullCheck(S->pc, {bad}, nullptr, opt.queryMs, false)) == z3::unsat) return;
        }
        report("finding", msg, bad);
    }
    void check(E cond, const string& kind, const string& msg, bool stopOnFail, E margin = nullptr)
    {
        nChecks++;
        if (isC(cond) && cond->c) { nCheckTrivial++; return; }
        if (isC(cond)) { report(kind, msg, nullptr); if (stopOnFail) throw Terminate{"violation", false}; return; }
        if (S->pcset.count(cond)) { nCheckTrivial++; return; }
        E bad = mkNot(cond);
        nCheckQ++;
        if (hard(S->pc, {bad}))
        {
            const double left = opt.timeLimit + 2 - (now() - t0);
            const unsigned ms = (unsigned)std::max(500.0, std::min((double)opt.queryMs, left * 1000));
            const string key = kind + "|" + msg;
            if (violKeys.count(key) && violKeys[key] >= 2) return;      // would not be reported again
            vector<string> values;
            if (left <= 0) { errors.push_back("undecided: " + kind + ": " + msg + " at " + whereAmI()); return; }
            E same = canonical(bad);
            if (isC(same) && !same->c) { nCheckTrivial++; return; }
            auto r = hardCheck(S->pc, {bad}, ms, 0, 0);
            bool known = false;
            if (r == z3::unknown && (known = hardGuess(*S, {bad}, ms / 2, margin, values))) r = z3::sat;
            if (r == z3::unknown) r = hardCheck(S->pc, {bad}, ms, 1, 2);
            if (r == z3::unsat) return;
            if (r == z3::unknown && !(known = hardModel(*S, {bad}, ms / 2, margin, values)))
            {
                errors.push_back("undecided: " + kind + ": " + msg + " at " + whereAmI());
                return;
            }
            report(kind, msg, bad, margin, known ? &values : nullptr);
            return;                                 // the path goes on without assuming it away: that would make every later query as hard
        }
        auto r = fullCheck(S->pc, {bad}, nullptr, opt.queryMs, false);
        if (r == z3::unsat) { return; }
        if (r == z3::unknown)
        {
            // one more try: a counterexample with nice values settles it too
            vector<string> values;
            if (realMode && hardGuess(*S, {bad}, opt.queryMs / 2, margin, values))
            {
                report(kind, msg, bad, margin, &values);
                if (stopOnFail) throw Terminate{"violation", false};
                return;
            }
            z3::model m(*zctx);
            if (niceModel(*S, {bad}, m, opt.queryMs / 2, margin) != z3::sat)
            {
                errors.push_back("undecided: " + kind + ": " + msg + " at " + whereAmI());
                return;
            }
        }
        report(kind, msg, bad, margin);
        if (stopOnFail)
        {
            if (!feasible(*S, cond)) throw Terminate{"violation", false};
            assume(*S, cond);
        }
    }

    // -------------------------------------------------------------------------------------------- memory
    // to the nearest integer, halves to the even one
    static E roundEven(E x)
    {
        E h = mkFConst(0.5, x->s), r = mkFloor(mkFBin(K_FADD, x, h));
        E odd = mkNot(mkFCmp(K_FEQ, mkFBin(K_FMUL, mkFConst(2, x->s), mkFloor(mkFBin(K_FMUL, r, h))), r));
        E tie = mkFCmp(K_FEQ, mkFBin(K_FSUB, r, x), h);
        return mkIte(tie, mkIte(odd, mkFBin(K_FSUB, r, mkFConst(1, x->s)), r), r);
    }
    uint64_t alloc(State& s, uint64_t size, int kind, const string& name, bool zero = false)
    {
        auto o = std::make_shared<Obj>();
        o->size = size; o->kind = kind; o->name = name;
        o->bytes.resize(size, 0);
        o->tag.resize(size, zero ? 1 : 0);
        return s.mem.add(std::move(o));
    }
    [[noreturn]] void memError(const string& msg, E cond = nullptr)
    {
        report("memory", msg, cond);
        throw Terminate{"memory error: " + msg, false};
    }
    static void splitCell(Obj& o, uint32_t off)
    {
        // make `off` the start of a cell (or plain byte)
        if (off >= o.size || o.tag[off] != 3) return;
        auto it = o.sym.upper_bound(off);
        --it;
        uint32_t st = it->first;
        E e = it->second;
        unsigned n = e->w / 8;
        E bits = e->s == S_BV ? e : mkFBits(e);
        o.sym.erase(it);
        for (unsigned i = 0; i < n; i++)
        {
            E b = mkExtract(bits, i * 8, 8);
            o.sym[st + i] = b;
            o.tag[st + i] = 2;
        }
    }
    static void clearRange(Obj& o, uint32_t off, uint32_t n)
    {
        splitCell(o, off);
        splitCell(o, off + n);
        auto it = o.sym.lower_bound(off);
        while (it != o.sym.end() && it->first < off + n) it = o.sym.erase(it);
    }
    static void storeBytes(Obj& o, uint32_t off, uint64_t v, unsigned n)
    {
        clearRange(o, off, n);
        memcpy(&o.bytes[off], &v, std::min(n, 8u));
        if (n > 8) memset(&o.bytes[off + 8], 0, n - 8);
        memset(&o.tag[off], 1, n);
    }
    static void storeExpr(Obj& o, uint32_t off, E e, unsigned n)
    {
        double d;
        if (e->k == K_CONST) { storeBytes(o, off, e->c, n); return; }
        if (fconstAsDouble(e, d))
        {
            if (e->s == S_F32) { float f = d; uint32_t b; memcpy(&b, &f, 4); storeBytes(o, off, b, 4); }
            else { uint64_t b; memcpy(&b, &d, 8); storeBytes(o, off, b, 8); }
            return;
        }
        if (e->s == S_BV && e->w < n * 8) e = mkZExt(e, n * 8);
        clearRange(o, off, n);
        o.sym[off] = e;
        o.tag[off] = 2;
        for (unsigned i = 1; i < n; i++) o.tag[off + i] = 3;
    }
    uint64_t uninitCount = 0;
    // value of n bytes at off, as an integer of n*8 bits or as the float stored there
    Val loadRaw(Obj& o0, uint64_t id, uint32_t off, unsigned n)
    {
        Obj* o = &o0;
        bool conc = true;
        for (unsigned i = 0; i < n; i++) if (o->tag[off + i] != 1) { conc = false; break; }
        if (conc && n <= 8)
        {
            uint64_t v = 0;
            memcpy(&v, &o->bytes[off], n);
            return Val(v);
        }
        if (o->tag[off] == 2)
        {
            auto it = o->sym.find(off);
            if (it->second->w == n * 8) return Val(it->second);
        }
        bool allUninit = true;
        for (unsigned i = 0; i < n; i++) if (o->tag[off + i] != 0) { allUninit = false; break; }
        if (allUninit && n <= 8)
        {
            o = S->mem.writable(id);
            E v = mkVar("uninit!" + std::to_string(uninitCount++), n * 8);
            storeExpr(*o, off, v, n);
            S->notes.push_back("uninitialised read at " + whereAmI());
            return Val(v);
        }
        o = S->mem.writable(id);
        splitCell(*o, off);
        splitCell(*o, off + n);
        E r = nullptr;
        if (n > 8) throw EngineError{"wide partial load"};
        for (unsigned i = 0; i < n;)
        {
            E part;
            if (o->tag[off + i] == 2)
            {
                E c = o->sym[off + i];
                part = c->s == S_BV ? c : mkFBits(c);
            }
            else if (o->tag[off + i] == 1) part = mkConst(o->bytes[off + i], 8);
            else { part = mkVar("uninit!" + std::to_string(uninitCount++), 8); storeExpr(*o, off + i, part, 1); }
            i += part->w / 8;
            r = r ? mkConcat(part, r) : part;
        }
        return Val(r);
    }
    E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

    struct Loc { uint64_t id; Obj* o; E off; uint32_t coff; bool sym; };
    Loc resolve(const Val& addr, uint64_t n, bool write, const char* what)
    {
        if (addr.conc())
        {
            uint64_t id = addr.c >> ADDR_SHIFT;
            uint64_t off = addr.c & ((1ull << ADDR_SHIFT) - 1);
            Obj* o = S->mem.get(id);
            if (!o)
            {
                // large objects span several slots
                for (uint64_t back = 1; back < 64 && id >= back; back++)
                {
                    o = S->mem.get(id - back);
                    if (o) { if (o->size > (back << ADDR_SHIFT)) { off += back << ADDR_SHIFT; id -= back; } else o = nullptr; break; }
                }
            }
            if (!o)
            {
                if (addr.c < (1ull << ADDR_SHIFT)) memError(string("null pointer ") + what);
                memError(string("wild pointer ") + what);
            }
            if (o->freed) memError(string("use after free (") + what + ")");
            if (o->kind == 5) memError(string("function accessed as data ") + what);
            if (off + n > o->size) memError(string("out-of-bounds ") + what);
            if (write && o->readonly) memError("write to constant");
            return Loc{id, o, nullptr, (uint32_t)off, false};
        }
        E a = addr.e;
        if (!a) throw EngineError{"aggregate used as an address"};
        // fork on pointers that are chosen between alternatives
        for (int guard = 0; a->k == K_ITE && guard < 200; guard++) a = decide(a->a[0]) ? a->a[1] : a->a[2];
        if (isC(a)) return resolve(Val(a), n, write, what);
        vector<E> adds{a}, leafs;
        while (!adds.empty())
        {
            E x = adds.back(); adds.pop_back();
            if (x->k == K_ADD) { adds.push_back(x->a[0]); adds.push_back(x->a[1]); }
            else if (x->k == K_ITE && isC(x->a[1]) && isC(x->a[2]) && x->a[1]->c >= (1ull << ADDR_SHIFT) && x->a[1]->c < (1ull << 62) && x->a[2]->c < (1ull << 62))
            {
                bool t = decide(x->a[0]);
                // substitute by re-adding
                leafs.push_back(t ? x->a[1] : x->a[2]);
            }
            else leafs.push_back(x);
        }
        E sum = nullptr;
        uint64_t cst = 0;
        for (E x : leafs) { if (isC(x)) cst += x->c; else sum = sum ? mkBin(K_ADD, sum, x) : x; }
        if (!sum) return resolve(Val(cst), n, write, what);
        a = mkBin(K_ADD, sum, mkConst(cst, 64));
        uint64_t id = cst >> ADDR_SHIFT;
        Obj* o = cst < (1ull << 62) ? S->mem.get(id) : nullptr;
        if (cst < (1ull << ADDR_SHIFT)) o = nullptr;
        auto inB = [&](uint64_t i, Obj* ob) -> E
        {
            if (ob->size < n) return mkConst(0, 1);
            return mkBin(K_ULE, mkBin(K_SUB, a, mkConst(i << ADDR_SHIFT, 64)), mkConst(ob->size - n, 64));
        };
        if (!o)
        {
            // no constant base: ask the solver which object it can be, and split on it
            z3::model m(*zctx);
            auto r = fullCheck(S->pc, {}, &m, opt.queryMs, true);
            if (r != z3::sat) throw Terminate{"infeasible", true};
            uint64_t v = 0;
            m.eval(zx(a), true).is_numeral_u64(v);
            id = v >> ADDR_SHIFT;
            o = S->mem.get(id);
            if (!o) memError(string("wild pointer ") + what, mkBin(K_EQ, a, mkConst(v, 64)));
            E c = inB(id, o);
            if (!decide(c)) throw EngineError{"pointer split"};
        }
        else
        {
            E c = inB(id, o);
            nMemQ++;
            if (!isC(c) || !c->c)
            {
                if (feasible(*S, mkNot(c)))
                {
                    report("memory", string("out-of-bounds ") + what, mkNot(c));
                    if (isC(c) || !feasible(*S, c)) throw Terminate{"memory error", false};
                }
                assume(*S, c);
            }
        }
        if (o->freed) memError(string("use after free (") + what + ")");
        if (write && o->readonly) memError("write to constant");
        return Loc{id, o, mkBin(K_SUB, a, mkConst(id << ADDR_SHIFT, 64)), 0, true};
    }
    vector<uint32_t> candidates(Loc& l, unsigned n)
    {
        vector<uint32_t> r;
        // enumerate the feasible offsets
        vector<E> block;
        double t = now();
        while (true)
        {
            if (r.size() > 128) throw EngineError{"symbolic offset with too many values"};
            if (!inc) resetInc();
            if (!inc) { inc.reset(new z3::solver(*zctx)); curMs = 0; }
            size_t k = 0;
            while (k < incStack.size() && k < S->pc.size() && incStack[k] == S->pc[k]) k++;
            while (incStack.size() > k) incPop();
            for (; k < S->pc.size(); k++) incPush(S->pc[k]);
            inc->push();
            E off = l.off;
            for (uint32_t v : r) inc->add(zx(mkNot(mkBin(K_EQ, off, mkConst(v, 64)))));
            auto q = inc->check();
            nMemQ++;
            if (q != z3::sat) { inc->pop(); if (q == z3::unknown) throw EngineError{"offset undecided"}; break; }
            uint64_t v = 0;
            inc->get_model().eval(zx(off), true).is_numeral_u64(v);
            inc->pop();
            if (v + n > l.o->size) throw EngineError{"offset enumeration out of bounds"};
            r.push_back(v);
        }
        solverTime += now() - t;
        std::sort(r.begin(), r.end());
        return r;
    }
    Val typed(Val v, Type* t, unsigned n)
    {
        if (t->isFloatTy() || t->isDoubleTy())
        {
            Sort s = t->isFloatTy() ? S_F32 : S_F64;
            if (!v.e) return Val(mkBitsF(mkConst(v.c, n * 8), s));
            if (v.e->s != S_BV) { if (v.e->s != s) throw EngineError{"float width mismatch"}; return v; }
            return Val(mkBitsF(v.e, s));
        }
        if (v.e && v.e->s != S_BV) return Val(mkFBits(v.e));
        if (t->isIntegerTy() && t->getIntegerBitWidth() < n * 8)
        {
            unsigned w = t->getIntegerBitWidth();
            if (v.e) return Val(mkExtract(v.e, 0, w));
            return Val(v.c & maskW(w));
        }
        return v;
    }
    Val loadScalar(const Val& addr, Type* t)
    {
        unsigned n = DL->getTypeStoreSize(t);
        Loc l = resolve(addr, n, false, "read");
        if (!l.sym) return typed(loadRaw(*l.o, l.id, l.coff, n), t, n);
        auto c = candidates(l, n);
        if (c.empty()) throw Terminate{"infeasible", true};
        Val r;
        E acc = nullptr;
        bool isF = t->isFloatTy() || t->isDoubleTy();
        for (uint32_t o : c)
        {
            Val v = typed(loadRaw(*S->mem.get(l.id), l.id, o, n), t, n);
            E e = isF ? v.e : toE(v, t->isIntegerTy() ? t->getIntegerBitWidth() : 64);
            acc = acc ? mkIte(mkBin(K_EQ, l.off, mkConst(o, 64)), e, acc) : e;
        }
        return Val(acc);
    }
    Val load(const Val& addr, Type* t)
    {
        if (t->isStructTy() || t->isArrayTy() || t->isVectorTy())
        {
            Val r;
            r.agg = std::make_shared<vector<Val>>();
            unsigned cnt = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
            for (unsigned i = 0; i < cnt; i++)
            {
                Type* et = t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
                uint64_t off = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (uint64_t)DL->getTypeAllocSize(et);
                r.agg->push_back(load(addOff(addr, off), et));
            }
            return r;
        }
        return loadScalar(addr, t);
    }
    Val addOff(const Val& a, int64_t off)
    {
        if (a.conc()) return Val(a.c + off);
        return Val(mkBin(K_ADD, a.e, mkConst(off, 64)));
    }
    void storeScalar(const Val& addr, const Val& v, Type* t)
    {
        unsigned n = DL->getTypeStoreSize(t);
        Loc l = resolve(addr, n, true, "write");
        if (!l.sym)
        {
            Obj* o = S->mem.writable(l.id);
            if (!v.e) storeBytes(*o, l.coff, t->isIntegerTy(1) ? (v.c & 1) : v.c, n); else storeExpr(*o, l.coff, v.e, n);
            return;
        }
        auto c = candidates(l, n);
        bool isF = t->isFloatTy() || t->isDoubleTy();
        E nv = isF ? v.e : toE(v, t->isIntegerTy() ? t->getIntegerBitWidth() : 64);
        vector<E> nw;
        for (uint32_t o : c)
        {
            Val old = typed(loadRaw(*S->mem.get(l.id), l.id, o, n), t, n);
            E e = isF ? old.e : toE(old, nv->w);
            nw.push_back(mkIte(mkBin(K_EQ, l.off, mkConst(o, 64)), nv, e));
        }
        Obj* o = S->mem.writable(l.id);
        for (size_t i = 0; i < c.size(); i++) storeExpr(*o, c[i], nw[i], n);
    }
    void store(const Val& addr, const Val& v, Type* t)
    {
        if (v.agg || t->isStructTy() || t->isArrayTy() || t->isVectorTy())
        {
            unsigned cnt = v.agg->size();
            for (unsigned i = 0; i < cnt; i++)
            {
                Type* et = t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
                uint64_t off = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (uint64_t)DL->getTypeAllocSize(et);
                store(addOff(addr, off), (*v.agg)[i], et);
            }
            return;
        }
        storeScalar(addr, v, t);
    }
    void copyMem(const Val& dst, const Val& src, uint64_t n)
    {
        if (n == 0) return;
        Loc s = resolve(src, n, false, "read"), d = resolve(dst, n, true, "write");
        if (s.sym || d.sym)
        {
            // concretise symbolic addresses of block copies by splitting on their value
            Loc& l = s.sym ? s : d;
            auto c = candidates(l, n);
            for (size_t i = 0; i + 1 < c.size(); i++)
                if (decide(mkBin(K_EQ, l.off, mkConst(c[i], 64))))
                { Val a((l.id << ADDR_SHIFT) + c[i]); copyMem(s.sym ? dst : a, s.sym ? a : src, n); return; }
            Val a((l.id << ADDR_SHIFT) + c.back());
            if (s.sym) copyMem(dst, a, n); else copyMem(a, src, n);
            return;
        }
        Obj* so = S->mem.writable(s.id);
        splitCell(*so, s.coff);
        splitCell(*so, s.coff + n);
        vector<uint8_t> b(so->bytes.begin() + s.coff, so->bytes.begin() + s.coff + n), t(so->tag.begin() + s.coff, so->tag.begin() + s.coff + n);
        vector<std::pair<uint32_t, E>> sy;
        for (auto it = so->sym.lower_bound(s.coff); it != so->sym.end() && it->first < s.coff + n; ++it) sy.push_back({it->first - s.coff, it->second});
        Obj* o = S->mem.writable(d.id);
        clearRange(*o, d.coff, n);
        std::copy(b.begin(), b.end(), o->bytes.begin() + d.coff);
        std::copy(t.begin(), t.end(), o->tag.begin() + d.coff);
        for (auto& [off, e] : sy) o->sym[d.coff + off] = e;
    }
    void setMem(const Val& dst, const Val& v, uint64_t n)
    {
        if (n == 0) return;
        Loc d = resolve(dst, n, true, "write");
        if (d.sym) throw EngineError{"memset at a symbolic address"};
        Obj* o = S->mem.writable(d.id);
        if (v.e) { for (uint64_t i = 0; i < n; i++) storeExpr(*o, d.coff + i, v.e, 1); return; }
        clearRange(*o, d.coff, n);
        memset(&o->bytes[d.coff], v.c, n);
        memset(&o->tag[d.coff], 1, n);
    }
    void freeMem(const Val& p, int kind, const char* what)
    {
        if (!p.conc()) { Loc l = resolve(p, 1, false, what); (void)l; throw EngineError{"free of a symbolic pointer"}; }
        if (p.c == 0) return;
        uint64_t id = p.c >> ADDR_SHIFT;
        Obj* o = S->mem.get(id);
        if (!o || (p.c & ((1ull << ADDR_SHIFT) - 1)) || (o->kind > 2 && o->kind != 6)) memError(string("invalid ") + what);
        if (o->freed) memError(string("double ") + what);
        (void)kind;
        o = S->mem.writable(id);
        o->freed = true;
        o->bytes.clear(); o->tag.clear(); o->sym.clear();
    }
    string cstr(const Val& p)
    {
        if (!p.conc() || p.c == 0) return "";
        string r;
        uint64_t a = p.c;
        while (r.size() < 4096)
        {
            Loc l = resolve(Val(a), 1, false, "read");
            if (l.o->tag[l.coff] != 1) break;
            char ch = l.o->bytes[l.coff];
            if (!ch) break;
            r += ch; a++;
        }
        return r;
    }

    // -------------------------------------------------------------------------------------------- preparation
    Opnd constant(const Constant* c)
    {
        Opnd o;
        o.v = constVal(c);
        return o;
    }
    Val constVal(const Constant* c)
    {
        Type* t = c->getType();
        if (auto* ci = dyn_cast<ConstantInt>(c)) return ci->getBitWidth() <= 64 ? Val(ci->getZExtValue()) : Val(ci->getValue().getRawData()[0]);
        if (auto* cf = dyn_cast<ConstantFP>(c))
        {
            if (t->isFloatTy()) return Val(mkFConst(cf->getValueAPF().convertToFloat(), S_F32));
            if (t->isDoubleTy()) return Val(mkFConst(cf->getValueAPF().convertToDouble(), S_F64));
            APFloat a = cf->getValueAPF(); bool li;
            a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
            return Val(mkFConst(a.convertToDouble(), S_F64));
        }
        if (isa<ConstantPointerNull>(c)) return Val((uint64_t)0);
        if (auto* gv = dyn_cast<GlobalValue>(c))
        {
            if (auto* ga = dyn_cast<GlobalAlias>(gv)) return constVal(cast<Constant>(ga->getAliasee()));
            return Val(addrOf(gv));
        }
        if (isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c) || (isa<UndefValue>(c) && (t->isAggregateType() || t->isVectorTy())))
        {
            Val r; r.agg = std::make_shared<vector<Val>>();
            unsigned cnt = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
            for (unsigned i = 0; i < cnt; i++) r.agg->push_back(constVal(c->getAggregateElement(i)));
            return r;
        }
        if (isa<UndefValue>(c))
        {
            if (t->isFloatTy()) return Val(mkFConst(0, S_F32));
            if (t->isDoubleTy()) return Val(mkFConst(0, S_F64));
            return Val((uint64_t)0);
        }
        if (auto* ce = dyn_cast<ConstantExpr>(c))
        {
            switch (ce->getOpcode())
            {
            case Instruction::GetElementPtr:
            {
                APInt off(64, 0);
                if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw EngineError{"constant gep"};
                Val b = constVal(ce->getOperand(0));
                return Val(b.c + off.getSExtValue());
            }
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
                return constVal(ce->getOperand(0));
            case Instruction::Sub: return Val(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c);
            case Instruction::Add: return Val(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c);
            case Instruction::ICmp:
            {
                auto a = constVal(ce->getOperand(0)).c, b = constVal(ce->getOperand(1)).c;
                return Val((uint64_t)(ce->getPredicate() == CmpInst::ICMP_EQ ? a == b : a != b));
            }
            default: throw EngineError{string("constant expression ") + ce->getOpcodeName()};
            }
        }
        throw EngineError{"constant kind"};
    }
    State* init = nullptr;
    uint64_t addrOf(const GlobalValue* g)
    {
        auto it = globalAddr.find(g);
        if (it != globalAddr.end()) return it->second;
        uint64_t a;
        if (auto* f = dyn_cast<Function>(g))
        {
            a = alloc(*init, 16, 5, f->getName().str());
            funcAt[a] = f;
        }
        else
        {
            auto* v = cast<GlobalVariable>(g);
            uint64_t sz = v->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(v->getValueType()) : 64;
            if (!v->hasInitializer()) sz = std::max<uint64_t>(sz, 64);
            a = alloc(*init, sz, 4, v->getName().str(), true);
            if (v->getName() == "__libc_single_threaded") init->mem.writable(a >> ADDR_SHIFT)->bytes[0] = 1;
        }
        globalAddr[g] = a;
        globalByName[g->getName().str()] = a;
        return a;
    }
    void initGlobals()
    {
        for (auto& g : M->globals()) addrOf(&g);
        for (auto& g : M->globals())
            if (g.hasInitializer())
            {
                uint64_t a = addrOf(&g);
                initStore(a, g.getInitializer());
                if (g.isConstant()) init->mem.writable(a >> ADDR_SHIFT)->readonly = true;
            }
        // tables of functions of the library's exceptions: two destructors and what()
        auto *gone = M->getFunction("snn_rt_gone"), *none = M->getFunction("snn_rt_what_none"), *text = M->getFunction("snn_rt_what_text");
        if (gone && none && text)
            for (auto& g : M->globals())
            {
                const bool own = g.getName() == "snn_rt_exception";
                if (!own && (g.hasInitializer() || !g.getName().starts_with("_ZTVSt") || g.getName().ends_with("E"))) continue;
                auto* o = init->mem.writable(addrOf(&g) >> ADDR_SHIFT);
                if (o->size < 40) continue;
                const bool keeps = own || g.getName().contains("error") || g.getName().contains("invalid_argument") || g.getName().contains("out_of_range");
                const uint64_t f[3] = {addrOf(gone), addrOf(gone), addrOf(keeps ? text : none)};
                memcpy(&o->bytes[16], f, 24);
            }
    }
    void initStore(uint64_t a, const Constant* c)
    {
        Type* t = c->getType();
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
        if (auto* cd = dyn_cast<ConstantDataSequential>(c))
        {
            unsigned es = cd->getElementByteSize();
            Obj* o = init->mem.writable(a >> ADDR_SHIFT);
            uint32_t off = a & ((1ull << ADDR_SHIFT) - 1);
            StringRef raw = cd->getRawDataValues();
            (void)es;
            memcpy(&o->bytes[off], raw.data(), raw.size());
            return;
        }
        if (isa<ConstantAggregate>(c))
        {
            unsigned cnt = c->getNumOperands();
            for (unsigned i = 0; i < cnt; i++)
            {
                Type* et = t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
                uint64_t off = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * (uint64_t)DL->getTypeAllocSize(et);
                initStore(a + off, cast<Constant>(c->getOperand(i)));
            }
            return;
        }
        Val v = constVal(c);
        Obj* o = init->mem.writable(a >> ADDR_SHIFT);
        uint32_t off = a & ((1ull << ADDR_SHIFT) - 1);
        unsigned n = DL->getTypeStoreSize(t);
        if (v.e) storeExpr(*o, off, v.e, n); else storeBytes(*o, off, v.c, n);
    }

    static bool shortDemangle(const string& m, string& out)
    {
        string d = demangle(m);
        auto p = d.find('(');
        out = p == string::npos ? d : d.substr(0, p);
        return true;
    }
    PFunc* prep(const Function* F)
    {
        auto it = funcs.find(F);
        if (it != funcs.end()) return it->second;
        PFunc* P = new PFunc();
        funcs[F] = P;
        P->F = F;
        shortDemangle(F->getName().str(), P->name);
        if (auto* sp = F->getSubprogram())
        {
            string dir = sp->getDirectory().str(), fn = sp->getFilename().str();
            P->file = fn.size() && fn[0] == '/' ? fn : dir + "/" + fn;
            P->repo = P->file.find(opt.repo + "/src/") == 0 || P->file.find(opt.repo + "/include/") == 0;
            if (P->file.find("external_library") != string::npos && P->file.find("boost") != string::npos) P->repo = false;
        }
        DenseMap<const Value*, int> reg;
        int n = 0;
        for (auto& a : F->args()) reg[&a] = n++;
        DenseMap<const BasicBlock*, int> bid;
        int bn = 0;
        for (auto& b : *F)
        {
            bid[&b] = bn++;
            for (auto& i : b) if (!i.getType()->isVoidTy()) reg[&i] = n++;
        }
        P->nregs = n;
        P->blocks.resize(bn);
        P->phiIn.resize(bn);
        auto opnd = [&](const Value* v) -> Opnd
        {
            Opnd o;
            auto it = reg.find(v);
            if (it != reg.end()) { o.reg = it->second; return o; }
            if (auto* c = dyn_cast<Constant>(v)) return constant(c);
            if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return o;
            throw EngineError{"operand kind"};
        };
        auto width = [&](Type* t) -> unsigned { return t->isIntegerTy() ? t->getIntegerBitWidth() : t->isPointerTy() ? 64 : 0; };
        bn = 0;
        for (auto& b : *F)
        {
            PBlock& B = P->blocks[bn];
            for (auto& i : b)
            {
                if (isa<DbgInfoIntrinsic>(i)) continue;
                PInst p;
                p.I = &i;
                p.op = i.getOpcode();
                p.repo = P->repo;
                if (!i.getType()->isVoidTy()) p.dst = reg[&i];
                p.w = width(i.getType());
                if (auto* phi = dyn_cast<PHINode>(&i))
                {
                    B.phis.push_back(p);
                    for (unsigned k = 0; k < phi->getNumIncomingValues(); k++)
                    {
                        auto& v = P->phiIn[bn][bid[phi->getIncomingBlock(k)]];
                        if (v.size() < B.phis.size()) v.push_back(opnd(phi->getIncomingValue(k)));
                    }
                    continue;
                }
                for (auto& u : i.operands())
                {
                    if (isa<BasicBlock>(u)) continue;
                    if (auto* cb = dyn_cast<CallBase>(&i)) if (&u == &cb->getCalledOperandUse() && isa<Function>(u)) { p.ops.push_back(Opnd()); continue; }
                    if (isa<LandingPadInst>(i)) continue;
                    p.ops.push_back(opnd(u));
                }
                if (isa<ICmpInst>(i)) p.w = width(i.getOperand(0)->getType());
                if (auto* br = dyn_cast<BranchInst>(&i))
                {
                    p.t0 = bid[br->getSuccessor(0)];
                    if (br->isConditional()) p.t1 = bid[br->getSuccessor(1)];
                }
                if (auto* inv = dyn_cast<InvokeInst>(&i)) { p.t0 = bid[inv->getNormalDest()]; p.t1 = bid[inv->getUnwindDest()]; }
                if (auto* sw = dyn_cast<SwitchInst>(&i))
                {
                    p.t0 = bid[sw->getDefaultDest()];
                    p.w = width(sw->getCondition()->getType());
                    p.ops.resize(1);
                    for (auto& cs : sw->cases()) p.gepVar.push_back({(int)bid[cs.getCaseSuccessor()], (int64_t)cs.getCaseValue()->getZExtValue()});
                }
                if (auto* g = dyn_cast<GetElementPtrInst>(&i))
                {
                    int k = 1;
                    for (auto gi = gep_type_begin(g); gi != gep_type_end(g); ++gi, ++k)
                    {
                        const Value* ix = gi.getOperand();
                        if (auto* st = gi.getStructTypeOrNull())
                            p.gepConst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                        else
                        {
                            int64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
                            if (auto* ci = dyn_cast<ConstantInt>(ix)) p.gepConst += sc * ci->getSExtValue();
                            else p.gepVar.push_back({k, sc});
                        }
                    }
                }
                B.insts.push_back(std::move(p));
            }
            bn++;
        }
        return P;
    }

    // -------------------------------------------------------------------------------------------- execution
    Frame& fr() { return S->threads[S->cur].stack.back(); }
    const Val& get(const Opnd& o) { return o.reg >= 0 ? fr().regs[o.reg] : o.v; }
    void set(const PInst& p, Val v) { if (p.dst >= 0) fr().regs[p.dst] = std::move(v); }

    void jump(int to)
    {
        Frame& f = fr();
        PFunc* P = f.f;
        int from = f.bb;
        auto& B = P->blocks[to];
        if (!B.phis.empty())
        {
            auto& in = P->phiIn[to][from];
            if (B.phis.size() == 1) { Val v = get(in[0]); f.regs[B.phis[0].dst] = v; }
            else
            {
                vector<Val> tmp;
                for (auto& o : in) tmp.push_back(get(o));
                for (size_t i = 0; i < B.phis.size(); i++) f.regs[B.phis[i].dst] = tmp[i];
            }
        }
        f.bb = to;
        f.pc = 0;
    }
    void pushFrame(Thread& t, const Function* F, vector<Val> args)
    {
        if (t.stack.size() > 2000) memError("stack overflow (recursion)");
        PFunc* P = prep(F);
        P->calls++;
        Frame f;
        f.f = P;
        f.regs.resize(P->nregs);
        size_t na = F->arg_size();
        for (size_t i = 0; i < args.size(); i++) { if (i < na) f.regs[i] = args[i]; else f.varargs.push_back(args[i]); }
        if (P->repo) repoFuncs.insert(P->name);
        t.stack.push_back(std::move(f));
    }
    void freeFrame(Frame& f)
    {
        for (auto a : f.allocas)
        {
            Obj* o = S->mem.writable(a >> ADDR_SHIFT);
            o->freed = true; o->bytes.clear(); o->tag.clear(); o->sym.clear();
        }
    }
    void doReturn(Val v, bool has)
    {
        auto& st = S->threads[S->cur].stack;
        freeFrame(st.back());
        st.pop_back();
        if (st.empty())
        {
            S->threads[S->cur].status = 2;
            if (S->cur == 0) throw Terminate{"done", true};
            schedule(true);
            return;
        }
        Frame& f = st.back();
        PInst& p = f.f->blocks[f.bb].insts[f.pc];
        if (has && p.dst >= 0) f.regs[p.dst] = std::move(v);
        if (p.op == Instruction::Invoke) jump(p.t0); else f.pc++;
    }

    // ---- exceptions
    struct TI { string name; vector<std::pair<string, int64_t>> bases; };
    std::map<string, TI> tis;
    std::map<uint64_t, string> tiByAddr;
    const TI& typeInfo(uint64_t addr)
    {
        string nm;
        auto it = tiByAddr.find(addr);
        if (it == tiByAddr.end())
        {
            Obj* o = init->mem.get(addr >> ADDR_SHIFT);
            nm = o ? o->name : "?";
            tiByAddr[addr] = nm;
        }
        else nm = it->second;
        return tiOf(nm);
    }
    const TI& tiOf(const string& nm)
    {
        auto f = tis.find(nm);
        if (f != tis.end()) return f->second;
        TI t; t.name = nm;
        auto* g = M->getNamedGlobal(nm);
        static const std::map<string, string> ext = {
            {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
            {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
            {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
            {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
            {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}};
        if (g && g->hasInitializer())
        {
            if (auto* cs = dyn_cast<ConstantStruct>(g->getInitializer()))
            {
                auto nameOf = [&](const Value* v) { return v->stripPointerCasts()->getName().str(); };
                if (cs->getNumOperands() == 3) t.bases.push_back({nameOf(cs->getOperand(2)), 0});
                else if (cs->getNumOperands() > 4)
                    for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2)
                    {
                        int64_t fl = cast<ConstantInt>(cs->getOperand(i + 1))->getSExtValue();
                        if (fl & 1) t.bases.push_back({nameOf(cs->getOperand(i)), INT64_MIN}); // virtual base
                        else t.bases.push_back({nameOf(cs->getOperand(i)), fl >> 8});
                    }
            }
        }
        else if (ext.count(nm)) t.bases.push_back({ext.at(nm), 0});
        return tis[nm] = t;
    }
    bool findBase(const string& from, const string& to, int64_t& off)
    {
        if (from == to) { off = 0; return true; }
        for (auto& [b, o] : tiOf(from).bases)
        {
            int64_t r;
            if (findBase(b, to, r)) { off = o == INT64_MIN ? 0 : o + r; return true; }
        }
        return false;
    }
    int typeId(const string& n) { auto it = typeIds.find(n); if (it != typeIds.end()) return it->second; int k = typeIds.size() + 1; return typeIds[n] = k; }
    uint64_t inflightOf(State& s) { return s.excStack.empty() ? 0 : s.excStack.back().obj; }

    bool lpadSelector(const LandingPadInst* lp, const string& thrown, int& sel)
    {
        for (unsigned i = 0; i < lp->getNumClauses(); i++)
        {
            if (lp->isCatch(i))
            {
                Constant* c = lp->getClause(i);
                if (isa<ConstantPointerNull>(c)) { sel = typeId("..."); return true; }
                string n = c->stripPointerCasts()->getName().str();
                int64_t off;
                if (findBase(thrown, n, off)) { sel = typeId(n); return true; }
            }
            else
            {
                auto* arr = cast<Constant>(lp->getClause(i));
                bool found = false;
                for (unsigned k = 0; k < arr->getNumOperands(); k++)
                {
                    int64_t off;
                    if (findBase(thrown, arr->getOperand(k)->stripPointerCasts()->getName().str(), off)) found = true;
                }
                if (!found) { sel = -1; return true; }
            }
        }
        sel = 0;
        return lp->isCleanup();
    }
    struct Exc { uint64_t obj; string ti; };
    // unwinds the current thread with exception object `obj`
    void unwind(uint64_t obj)
    {
        string ti;
        for (auto& e : S->excStack) if (e.obj == obj) ti = typeInfo(e.ti).name;
        auto& st = S->threads[S->cur].stack;
        while (!st.empty())
        {
            Frame& f = st.back();
            PInst& p = f.f->blocks[f.bb].insts[f.pc];
            if (p.op == Instruction::Invoke)
            {
                auto* inv = cast<InvokeInst>(p.I);
                auto* lp = inv->getUnwindDest()->getLandingPadInst();
                int sel;
                if (lpadSelector(lp, ti, sel))
                {
                    jump(p.t1);
                    Frame& g = st.back();
                    // the landing pad is the first instruction after the phis
                    PInst& q = g.f->blocks[g.bb].insts[0];
                    Val v; v.agg = std::make_shared<vector<Val>>(vector<Val>{Val(obj), Val((uint64_t)(uint32_t)sel)});
                    if (q.op != Instruction::LandingPad) throw EngineError{"landing pad expected"};
                    g.regs[q.dst] = v;
                    g.pc = 1;
                    return;
                }
            }
            freeFrame(f);
            st.pop_back();
        }
        string d = demangle(ti.size() > 4 ? "_Z" + ti.substr(4) : ti);
        if (S->cur == 0 && S->threads.size() == 1 && allowUncaught) throw Terminate{"exception", true};
        // keep a frame-less state: report without location
        report("exception", "uncaught exception " + ti, nullptr);
        throw Terminate{"uncaught exception", false};
    }
    bool allowUncaught = false;

    // ---- threads
    vector<int> runnable()
    {
        vector<int> r;
        for (size_t i = 0; i < S->threads.size(); i++)
        {
            auto& t = S->threads[i];
            if (t.status == 1 && S->threads[t.target].status == 2) t.status = 0;
            if (t.status == 4 && !S->mutexes.count(t.mutex)) t.status = 0;
            if (t.status == 0) r.push_back(i);
        }
        return r;
    }
    // picks the thread that runs next; `must` = the current one cannot continue
    void schedule(bool must)
    {
        if (S->threads.size() == 1) { if (must && (S->threads[0].status == 1 || S->threads[0].status == 4)) { report("liveness", "deadlock", nullptr); throw Terminate{"deadlock", false}; } return; }
        auto r = runnable();
        if (r.empty()) { report("liveness", "deadlock: every thread waits", nullptr); throw Terminate{"deadlock", false}; }
        int maxSw = opt.params.count("switches") ? opt.params["switches"] : 4;
        bool curOk = std::find(r.begin(), r.end(), S->cur) != r.end();
        if (must || !curOk)
        {
            // alternatives among the others
            vector<int> c;
            for (int i : r) if (i != S->cur || r.size() == 1) c.push_back(i);
            for (size_t i = 0; i + 1 < c.size(); i++)
            {
                E b = mkVar("sched!" + std::to_string(S->counters["sched"]++), 1);
                if (decideSched(b, c[i])) return;
            }
            S->cur = c.back();
            return;
        }
        // every thread gets its turn
        int quantum = opt.params.count("quantum") ? opt.params["quantum"] : 12;
        if (r.size() > 1 && ++S->turn >= quantum)
        {
            S->turn = 0;
            if (++S->turns > 300) { report("liveness", "threads keep waiting for one another", nullptr); throw Terminate{"hang", false}; }
            S->cur = r[(std::find(r.begin(), r.end(), S->cur) - r.begin() + 1) % r.size()];
            S->threads[S->cur].steps = 0;
            return;
        }
        if (S->switches >= maxSw) return;
        for (int i : r)
            if (i != S->cur)
            {
                E b = mkVar("sched!" + std::to_string(S->counters["sched"]++), 1);
                if (decideSched(b, i)) { return; }
            }
    }
    bool decideSched(E b, int to)
    {
        // a schedule bit is a fresh solver variable: both values are always possible
        auto n = std::make_unique<State>(*S);
        nForks++;
        assume(*n, b);
        n->cur = to;
        n->switches++;
        n->turn = 0;
        n->inputs.push_back({"switch_to_thread_" + std::to_string(to), mkConst(to, 32), 2, 0, 0});
        n->threads[n->cur].steps = 0;
        work.push_back(std::move(n));
        assume(*S, mkNot(b));
        return false;
    }

#include "externs.inc"

    // ---- one instruction
    void callFunction(PInst& p, const CallBase* cb)
    {
        const Function* F = cb->getCalledFunction();
        unsigned na = cb->arg_size();
        vector<Val> args;
        args.reserve(na);
        for (unsigned i = 0; i < na; i++) args.push_back(get(p.ops[i]));
        if (!F)
        {
            auto* callee = cb->getCalledOperand();
            if (isa<InlineAsm>(callee)) { fr().pc++; return; }
            if (auto* c = dyn_cast<Constant>(callee)) if (auto* f2 = dyn_cast<Function>(c->stripPointerCastsAndAliases())) F = f2;
            if (!F)
            {
                Val t = get(p.ops[p.ops.size() - 1]);
                if (!t.conc())
                {
                    E a = t.e;
                    while (a && a->k == K_ITE) a = decide(a->a[0]) ? a->a[1] : a->a[2];
                    if (!a || !isC(a)) memError("call through an arbitrary pointer");
                    t = Val(a);
                }
                auto it = funcAt.find(t.c);
                if (it == funcAt.end()) memError(t.c == 0 ? "call of a null function" : "call of something that is not a function");
                F = it->second;
            }
        }
        if (F->isIntrinsic()) { if (intrinsic(p, F, args)) advance(p); return; }
        // overridden by a model, or external
        if (external(p, F, args)) return;
        if (F->isDeclaration()) throw EngineError{"call of unmodelled function " + demangle(F->getName().str()) + " [" + F->getName().str() + "]"};
        // byval arguments
        for (unsigned i = 0; i < na; i++)
            if (cb->isByValArgument(i))
            {
                Type* t = cb->getParamByValType(i);
                uint64_t sz = DL->getTypeAllocSize(t);
                uint64_t a = alloc(*S, sz, 3, "byval");
                fr().allocas.push_back(a);
                copyMem(Val(a), args[i], sz);
                args[i] = Val(a);
            }
        pushFrame(S->threads[S->cur], F, std::move(args));
    }
    void advance(PInst& p)
    {
        if (p.op == Instruction::Invoke) jump(p.t0); else fr().pc++;
    }

    E boolOf(const Val& v) { return toE(v, 1); }

    void overflowCheck(PInst& p, unsigned op, const Val& a, const Val& b)
    {
        unsigned w = p.w;
        if (a.conc() && b.conc())
        {
            __int128 x = signedOf(a.c, w), y = signedOf(b.c, w), r = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : x * y;
            __int128 lim = (__int128)1 << (w - 1);
            if (r >= lim || r < -lim)
            {
                nChecks++;
                report("overflow", "signed integer overflow", nullptr);
            }
            return;
        }
        E x = toE(a, w), y = toE(b, w);
        E ok;
        unsigned W = op == Instruction::Mul ? 2 * w : w + 1;
        if (W > 64)
        {
            return; // 64-bit products are not checked
        }
        Kind k = op == Instruction::Add ? K_ADD : op == Instruction::Sub ? K_SUB : K_MUL;
        E wide = mkBin(k, mkSExt(x, W), mkSExt(y, W)), narrow = mkSExt(mkBin(k, x, y), W);
        ok = mkBin(K_EQ, wide, narrow);
        nOvfQ++;
        nChecks++;
        if (isC(ok) && ok->c) return;
        if (feasible(*S, mkNot(ok)))
        {
            report("overflow", "signed integer overflow", mkNot(ok));
            if (!feasible(*S, ok)) throw Terminate{"overflow", false};
        }
        assume(*S, ok);
    }

    void step()
    {
        Frame& f = fr();
        PInst& p = f.f->blocks[f.bb].insts[f.pc];
        const Instruction* I = p.I;
        curInst = &p;
        nInstr++;
        S->steps++;
        if (S->threads.size() > 1 && ++S->threads[S->cur].steps > opt.hangSteps)
        {
            report("liveness", "a thread keeps running although it has been asked to stop (no progress of the others possible)", nullptr);
            throw Terminate{"hang", false};
        }
        if (S->steps > opt.maxSteps) { bounded = true; throw Terminate{"step bound", false}; }
        switch (p.op)
        {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
        case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        {
            Val a = get(p.ops[0]), b = get(p.ops[1]);
            if (p.w == 0 || p.w > 64)
            {
                if (a.agg && b.agg) { vectorOp(p, a, b); f.pc++; return; }
                throw EngineError{"integer operation on width " + std::to_string(p.w)};
            }
            static const std::map<unsigned, Kind> km = {{Instruction::Add, K_ADD}, {Instruction::Sub, K_SUB}, {Instruction::Mul, K_MUL}, {Instruction::UDiv, K_UDIV}, {Instruction::SDiv, K_SDIV}, {Instruction::URem, K_UREM}, {Instruction::SRem, K_SREM}, {Instruction::And, K_AND}, {Instruction::Or, K_OR}, {Instruction::Xor, K_XOR}, {Instruction::Shl, K_SHL}, {Instruction::LShr, K_LSHR}, {Instruction::AShr, K_ASHR}};
            if (p.op == Instruction::UDiv || p.op == Instruction::SDiv || p.op == Instruction::URem || p.op == Instruction::SRem)
            {
                E nz = mkNot(mkBin(K_EQ, toE(b, p.w), mkConst(0, p.w)));
                nChecks++;
                if (isC(nz) ? !nz->c : feasible(*S, mkNot(nz)))
                {
                    report("division", "integer division by zero", isC(nz) ? nullptr : mkNot(nz));
                    if (isC(nz) || !feasible(*S, nz)) throw Terminate{"division by zero", false};
                }
                assume(*S, nz);
            }
            if (opt.overflow && p.repo && (p.op == Instruction::Add || p.op == Instruction::Sub || p.op == Instruction::Mul) && cast<OverflowingBinaryOperator>(I)->hasNoSignedWrap() && p.w <= 32)
                overflowCheck(p, p.op, a, b);
            if (a.conc() && b.conc())
            {
                uint64_t r, x = a.c, y = b.c; unsigned w = p.w;
                switch (p.op)
                {
                case Instruction::Add: r = x + y; break;
                case Instruction::Sub: r = x - y; break;
                case Instruction::Mul: r = x * y; break;
                case Instruction::And: r = x & y; break;
                case Instruction::Or: r = x | y; break;
                case Instruction::Xor: r = x ^ y; break;
                default: r = mkBin(km.at(p.op), mkConst(x, w), mkConst(y, w))->c;
                }
                set(p, Val(r & maskW(w)));
            }
            else set(p, Val(mkBin(km.at(p.op), toE(a, p.w), toE(b, p.w))));
            fr().pc++;
            return;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
        {
            Val a = get(p.ops[0]), b = get(p.ops[1]);
            if (a.agg) { vectorOp(p, a, b); f.pc++; return; }
            set(p, floatOp(p.op, a, b));
            fr().pc++;
            return;
        }
        case Instruction::FNeg: { Val a = get(p.ops[0]); if (a.agg) throw EngineError{"vector fneg"}; set(p, Val(mkFNeg(a.e))); f.pc++; return; }
        case Instruction::ICmp:
        {
            const Val &a = get(p.ops[0]), &b = get(p.ops[1]);
            auto pr = cast<ICmpInst>(I)->getPredicate();
            unsigned w = p.w;
            if (a.agg || b.agg) throw EngineError{"vector icmp"};
            if (a.conc() && b.conc())
            {
                uint64_t x = a.c, y = b.c; int64_t sx = signedOf(x, w), sy = signedOf(y, w);
                bool r;
                switch (pr)
                {
                case CmpInst::ICMP_EQ: r = x == y; break;
                case CmpInst::ICMP_NE: r = x != y; break;
                case CmpInst::ICMP_UGT: r = x > y; break;
                case CmpInst::ICMP_UGE: r = x >= y; break;
                case CmpInst::ICMP_ULT: r = x < y; break;
                case CmpInst::ICMP_ULE: r = x <= y; break;
                case CmpInst::ICMP_SGT: r = sx > sy; break;
                case CmpInst::ICMP_SGE: r = sx >= sy; break;
                case CmpInst::ICMP_SLT: r = sx < sy; break;
                default: r = sx <= sy; break;
                }
                set(p, Val((uint64_t)r));
                f.pc++;
                return;
            }
            E x = toE(a, w), y = toE(b, w), r;
            switch (pr)
            {
            case CmpInst::ICMP_EQ: r = mkBin(K_EQ, x, y); break;
            case CmpInst::ICMP_NE: r = mkNot(mkBin(K_EQ, x, y)); break;
            case CmpInst::ICMP_UGT: r = mkBin(K_ULT, y, x); break;
            case CmpInst::ICMP_UGE: r = mkBin(K_ULE, y, x); break;
            case CmpInst::ICMP_ULT: r = mkBin(K_ULT, x, y); break;
            case CmpInst::ICMP_ULE: r = mkBin(K_ULE, x, y); break;
            case CmpInst::ICMP_SGT: r = mkBin(K_SLT, y, x); break;
            case CmpInst::ICMP_SGE: r = mkBin(K_SLE, y, x); break;
            case CmpInst::ICMP_SLT: r = mkBin(K_SLT, x, y); break;
            default: r = mkBin(K_SLE, x, y); break;
            }
            set(p, Val(r));
            f.pc++;
            return;
        }
        case Instruction::FCmp:
        {
            Val a = get(p.ops[0]), b = get(p.ops[1]);
            if (a.agg) throw EngineError{"vector fcmp"};
            set(p, Val(fcmp(cast<FCmpInst>(I)->getPredicate(), a.e, b.e)));
            f.pc++;
            return;
        }
        case Instruction::Br:
        {
            if (p.t1 < 0) { jump(p.t0); return; }
            const Val& c = get(p.ops[0]);
            bool t;
            if (c.conc()) t = c.c & 1;
            else t = decide(c.e);
            jump(t ? p.t0 : p.t1);
            return;
        }
        case Instruction::Switch:
        {
            Val c = get(p.ops[0]);
            if (c.conc())
            {
                int to = p.t0;
                for (auto& [b, v] : p.gepVar) if ((uint64_t)v == c.c) { to = b; break; }
                jump(to);
                return;
            }
            for (auto& [b, v] : p.gepVar)
                if (decide(mkBin(K_EQ, c.e, mkConst(v, p.w)))) { jump(b); return; }
            jump(p.t0);
            return;
        }
        case Instruction::Ret:
        {
            if (p.ops.empty()) doReturn(Val(), false);
            else { Val v = get(p.ops[0]); doReturn(v, true); }
            return;
        }
        case Instruction::Call: case Instruction::Invoke: callFunction(p, cast<CallBase>(I)); return;
        case Instruction::Alloca:
        {
            auto* ai = cast<AllocaInst>(I);
            uint64_t n = DL->getTypeAllocSize(ai->getAllocatedType());
            if (ai->isArrayAllocation()) { Val c = get(p.ops[0]); if (!c.conc()) throw EngineError{"symbolic alloca"}; n *= c.c; }
            uint64_t a = alloc(*S, n, 3, ai->getName().str());
            f.allocas.push_back(a);
            set(p, Val(a));
            f.pc++;
            return;
        }
        case Instruction::Load:
        {
            Val a = get(p.ops[0]);
            if (shared(a)) { if (schedPoint()) return; }
            Val v = load(a, I->getType());
            set(p, std::move(v));
            fr().pc++;
            return;
        }
        case Instruction::Store:
        {
            Val v = get(p.ops[0]), a = get(p.ops[1]);
            if (shared(a)) { if (schedPoint()) return; }
            store(a, v, I->getOperand(0)->getType());
            fr().pc++;
            return;
        }
        case Instruction::GetElementPtr:
        {
            const Val& base = get(p.ops[0]);
            if (base.agg) throw EngineError{"vector gep"};
            if (p.gepVar.empty()) { set(p, addOff(base, p.gepConst)); f.pc++; return; }
            bool conc = base.conc();
            uint64_t off = p.gepConst;
            E se = nullptr;
            for (auto& [k, sc] : p.gepVar)
            {
                const Val& ix = get(p.ops[k]);
                unsigned iw = I->getOperand(k)->getType()->getIntegerBitWidth();
                if (ix.conc()) off += (uint64_t)(signedOf(ix.c, iw) * sc);
                else
                {
                    E t = mkBin(K_MUL, mkSExt(ix.e, 64), mkConst(sc, 64));
                    se = se ? mkBin(K_ADD, se, t) : t;
                }
            }
            if (conc && !se) set(p, Val(base.c + off));
            else
            {
                E b = mkBin(K_ADD, toE(base, 64), mkConst(off, 64));
                set(p, Val(se ? mkBin(K_ADD, se, b) : b));
            }
            f.pc++;
            return;
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze:
        {
            Val v = get(p.ops[0]);
            if (p.op == Instruction::BitCast)
            {
                Type *st = I->getOperand(0)->getType(), *dt = I->getType();
                if (st->isFloatingPointTy() && dt->isIntegerTy()) v = Val(mkFBits(v.e));
                else if (st->isIntegerTy() && dt->isFloatingPointTy()) v = Val(mkBitsF(toE(v, st->getIntegerBitWidth()), dt->isFloatTy() ? S_F32 : S_F64));
                else if (st != dt && (st->isVectorTy() || dt->isVectorTy())) throw EngineError{"vector bitcast"};
            }
            else if (p.op != Instruction::Freeze)
            {
                unsigned iw = p.op == Instruction::PtrToInt ? p.w : I->getOperand(0)->getType()->getIntegerBitWidth();
                if (iw < 64) v = v.e ? Val(mkExtract(v.e, 0, iw)) : Val(v.c & maskW(iw));
            }
            set(p, v);
            f.pc++;
            return;
        }
        case Instruction::Trunc:
        {
            const Val& v = get(p.ops[0]);
            if (v.conc()) set(p, Val(v.c & maskW(p.w)));
            else if (v.agg) throw EngineError{"vector trunc"};
            else set(p, Val(mkExtract(v.e, 0, p.w)));
            f.pc++;
            return;
        }
        case Instruction::ZExt:
        {
            const Val& v = get(p.ops[0]);
            if (v.conc()) set(p, v);
            else { E r = mkZExt(v.e, p.w); set(p, Val(r)); }
            f.pc++;
            return;
        }
        case Instruction::SExt:
        {
            const Val& v = get(p.ops[0]);
            unsigned sw = I->getOperand(0)->getType()->getIntegerBitWidth();
            if (v.conc()) set(p, Val((uint64_t)signedOf(v.c, sw) & maskW(p.w)));
            else { E r = mkSExt(v.e, p.w); set(p, Val(r)); }
            f.pc++;
            return;
        }
        case Instruction::FPExt: case Instruction::FPTrunc:
        {
            Type* t = I->getType();
            if (t->isVectorTy()) throw EngineError{"vector fpext"};
            set(p, Val(mkFCast(get(p.ops[0]).e, t->isFloatTy() ? S_F32 : S_F64)));
            f.pc++;
            return;
        }
        case Instruction::SIToFP: case Instruction::UIToFP:
        {
            Type* t = I->getType();
            if (t->isVectorTy()) throw EngineError{"vector sitofp"};
            set(p, Val(mkIntToF(toE(get(p.ops[0]), I->getOperand(0)->getType()->getIntegerBitWidth()), p.op == Instruction::SIToFP, t->isFloatTy() ? S_F32 : S_F64)));
            f.pc++;
            return;
        }
        case Instruction::FPToSI: case Instruction::FPToUI:
        {
            set(p, Val(mkFToInt(get(p.ops[0]).e, p.op == Instruction::FPToSI, p.w)));
            f.pc++;
            return;
        }
        case Instruction::Select:
        {
            Val c = get(p.ops[0]), a = get(p.ops[1]), b = get(p.ops[2]);
            if (c.agg) throw EngineError{"vector select"};
            if (c.conc()) { set(p, c.c & 1 ? a : b); f.pc++; return; }
            bool special = (a.e && isFC(a.e) && a.e->f->special) || (b.e && isFC(b.e) && b.e->f->special);
            if (a.agg || b.agg || (realMode && special)) set(p, decide(c.e) ? a : b);
            else
            {
                Type* t = I->getType();
                if (t->isFloatingPointTy()) set(p, Val(mkIte(c.e, a.e, b.e)));
                else set(p, Val(mkIte(c.e, toE(a, p.w), toE(b, p.w))));
            }
            fr().pc++;
            return;
        }
        case Instruction::ExtractValue:
        {
            Val v = get(p.ops[0]);
            for (unsigned k : cast<ExtractValueInst>(I)->indices()) { if (!v.agg) throw EngineError{"extractvalue"}; Val t = (*v.agg)[k]; v = t; }
            set(p, v);
            f.pc++;
            return;
        }
        case Instruction::InsertValue:
        {
            Val v = get(p.ops[0]), x = get(p.ops[1]);
            auto ix = cast<InsertValueInst>(I)->getIndices();
            set(p, insertAt(v, x, ix, 0, cast<InsertValueInst>(I)->getAggregateOperand()->getType()));
            f.pc++;
            return;
        }
        case Instruction::ExtractElement:
        {
            Val v = get(p.ops[0]), k = get(p.ops[1]);
            if (!k.conc()) throw EngineError{"symbolic extractelement"};
            set(p, (*v.agg)[k.c]);
            f.pc++;
            return;
        }
        case Instruction::InsertElement:
        {
            Val v = get(p.ops[0]), x = get(p.ops[1]), k = get(p.ops[2]);
            Val r; r.agg = std::make_shared<vector<Val>>(*v.agg);
            (*r.agg)[k.c] = x;
            set(p, r);
            f.pc++;
            return;
        }
        case Instruction::LandingPad: f.pc++; return;
        case Instruction::Resume:
        {
            Val v = get(p.ops[0]);
            uint64_t obj = (*v.agg)[0].c;
            // continue unwinding from the caller
            auto& st = S->threads[S->cur].stack;
            freeFrame(st.back());
            st.pop_back();
            unwind(obj);
            return;
        }
        case Instruction::Unreachable: memError("unreachable code executed");
        case Instruction::AtomicRMW:
        {
            auto* rmw = cast<AtomicRMWInst>(I);
            Val a = get(p.ops[0]), v = get(p.ops[1]);
            if (shared(a)) { if (schedPoint()) return; }
            Val old = load(a, I->getType());
            E x = toE(old, p.w), y = toE(v, p.w), r;
            switch (rmw->getOperation())
            {
            case AtomicRMWInst::Add: r = mkBin(K_ADD, x, y); break;
            case AtomicRMWInst::Sub: r = mkBin(K_SUB, x, y); break;
            case AtomicRMWInst::Xchg: r = y; break;
            case AtomicRMWInst::And: r = mkBin(K_AND, x, y); break;
            case AtomicRMWInst::Or: r = mkBin(K_OR, x, y); break;
            default: throw EngineError{"atomicrmw"};
            }
            store(a, Val(r), I->getType());
            set(p, old);
            fr().pc++;
            return;
        }
        case Instruction::AtomicCmpXchg:
        {
            Val a = get(p.ops[0]), c = get(p.ops[1]), n = get(p.ops[2]);
            if (shared(a)) { if (schedPoint()) return; }
            Type* t = I->getOperand(1)->getType();
            unsigned w = t->isPointerTy() ? 64 : t->getIntegerBitWidth();
            Val old = load(a, t);
            bool eq = decide(mkBin(K_EQ, toE(old, w), toE(c, w)));
            if (eq) store(a, n, t);
            Val r; r.agg = std::make_shared<vector<Val>>(vector<Val>{old, Val((uint64_t)eq)});
            set(p, r);
            fr().pc++;
            return;
        }
        case Instruction::Fence: f.pc++; return;
        default: throw EngineError{string("instruction ") + I->getOpcodeName()};
        }
    }
    Val insertAt(const Val& v, const Val& x, ArrayRef<unsigned> ix, unsigned d, Type* t)
    {
        Val r; r.agg = std::make_shared<vector<Val>>();
        if (v.agg) *r.agg = *v.agg;
        unsigned cnt = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        r.agg->resize(cnt);
        Type* et = t->isStructTy() ? t->getStructElementType(ix[d]) : t->getArrayElementType();
        (*r.agg)[ix[d]] = d + 1 == ix.size() ? x : insertAt((*r.agg)[ix[d]], x, ix, d + 1, et);
        return r;
    }
    Val floatOp(unsigned op, const Val& a, const Val& b)
    {
        Kind k = op == Instruction::FAdd ? K_FADD : op == Instruction::FSub ? K_FSUB : op == Instruction::FMul ? K_FMUL : K_FDIV;
        if (k == K_FDIV && realMode && !isFC(b.e))
        {
            E z = mkFCmp(K_FEQ, b.e, mkFConst(0, b.e->s));
            if (!isC(z) && !divisorKnownNonZero(b.e) && decide(z))
            {
                if (isFC(a.e) && a.e->f->special) return Val(a.e);
                if (decide(mkFCmp(K_FEQ, a.e, mkFConst(0, a.e->s)))) return Val(mkFConst(NAN, a.e->s));
                return Val(mkFConst(decide(mkFCmp(K_FLT, mkFConst(0, a.e->s), a.e)) ? INFINITY : -INFINITY, a.e->s));
            }
        }
        return Val(mkFBin(k, a.e, b.e));
    }
    static bool positive(E e)
    {
        switch (e->k)
        {
        case K_FCONST: return !e->f->special && e->f->q > 0;
        case K_FUN: return e->fn == FN_EXP;
        case K_FADD: return positive(e->a[0]) && positive(e->a[1]);
        case K_FMUL: return (positive(e->a[0]) && positive(e->a[1])) ;
        case K_FDIV: return positive(e->a[0]) && positive(e->a[1]);
        case K_FEXT: return positive(e->a[0]);
        case K_ITE: return positive(e->a[1]) && positive(e->a[2]);
        default: return false;
        }
    }
    bool divisorKnownNonZero(E e) { return positive(e); }
    void vectorOp(PInst& p, const Val& a, const Val& b)
    {
        Val r; r.agg = std::make_shared<vector<Val>>();
        for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(floatOp(p.op, (*a.agg)[i], (*b.agg)[i]));
        set(p, r);
    }
    E fcmp(CmpInst::Predicate pr, E a, E b)
    {
        switch (pr)
        {
        case CmpInst::FCMP_FALSE: return mkConst(0, 1);
        case CmpInst::FCMP_TRUE: return mkConst(1, 1);
        case CmpInst::FCMP_OEQ: return mkFCmp(K_FEQ, a, b);
        case CmpInst::FCMP_UNE: return mkNot(mkFCmp(K_FEQ, a, b));
        case CmpInst::FCMP_OLT: return mkFCmp(K_FLT, a, b);
        case CmpInst::FCMP_OLE: return mkFCmp(K_FLE, a, b);
        case CmpInst::FCMP_OGT: return mkFCmp(K_FLT, b, a);
        case CmpInst::FCMP_OGE: return mkFCmp(K_FLE, b, a);
        case CmpInst::FCMP_ULT: return mkNot(fcmp(CmpInst::FCMP_OGE, a, b));
        case CmpInst::FCMP_ULE: return mkNot(fcmp(CmpInst::FCMP_OGT, a, b));
        case CmpInst::FCMP_UGT: return mkNot(fcmp(CmpInst::FCMP_OLE, a, b));
        case CmpInst::FCMP_UGE: return mkNot(fcmp(CmpInst::FCMP_OLT, a, b));
        case CmpInst::FCMP_UNO: return mkFCmp(K_FUNO, a, b);
        case CmpInst::FCMP_ORD: return mkNot(mkFCmp(K_FUNO, a, b));
        case CmpInst::FCMP_UEQ: return mkOrB(mkFCmp(K_FEQ, a, b), mkFCmp(K_FUNO, a, b));
        case CmpInst::FCMP_ONE: return mkAndB(mkNot(mkFCmp(K_FEQ, a, b)), mkNot(mkFCmp(K_FUNO, a, b)));
        default: throw EngineError{"fcmp"};
        }
    }

    // -------------------------------------------------------------------------------------------- driver
    void finishPath(const Terminate& t)
    {
        nPaths++;
        endReasons[t.why]++;
        if (t.ok && t.why != "infeasible" && t.why != "assumption") nOk++;
        if (t.why == "infeasible") { nInfeasible++; return; }
        if (t.why == "assumption") return;
        for (auto& r : S->reached) reachedTags[r]++;
        for (auto& n : S->notes) assumptions.insert(n);
        if (t.ok && witnessJson.size() < opt.witnesses)
        {
            z3::model m(*zctx);
            unsigned ms = std::min(opt.queryMs, 4000u);
            if (niceModel(*S, {}, m, ms) == z3::sat)
            {
                std::ostringstream o;
                o << "{\"inputs\":[";
                auto in = inputsOf(*S, m);
                for (size_t i = 0; i < in.size(); i++) o << (i ? "," : "") << jstr(in[i]);
                o << "],\"obs\":[";
                bool first = true;
                for (auto& ob : S->obs)
                {
                    double d = 0;
                    string v = "null";
                    char b[64];
                    if (ob.e->s == S_BV)
                    {
                        uint64_t u = 0;
                        if (isC(ob.e)) u = ob.e->c;
                        else { z3::expr x = m.eval(zx(ob.e), true); if (ob.e->w == 1) u = x.is_true(); else x.is_numeral_u64(u); }
                        snprintf(b, sizeof b, "%ld", ob.e->w == 1 ? (long)u : (long)signedOf(u, ob.e->w));
                        v = b;
                    }
                    else if (isFC(ob.e) && ob.e->f->special) v = "\"special\"";
                    else if (realMode && ob.e->hasUF) v = "null";
                    else if (evalReal(m, ob.e, d) && std::isfinite(d)) { snprintf(b, sizeof b, "%.9g", d); v = b; }
                    o << (first ? "" : ",") << "[" << jstr(ob.name) << "," << v << "]";
                    first = false;
                }
                o << "]}";
                witnessJson.push_back(o.str());
            }
        }
    }
    bool runState()
    {
        try
        {
            while (true)
            {
                step();
                if ((nInstr & 0xfff) == 0)
                {
                    if (now() - t0 > opt.timeLimit) { errors.push_back("time limit reached with paths left"); return false; }
                }
            }
        }
        catch (Terminate& t) { finishPath(t); }
        catch (EngineError& e)
        {
            errors.push_back("engine: " + e.msg + " at " + whereAmI());
            return errors.size() < 20;
        }
        catch (z3::exception& e)
        {
            errors.push_back(string("z3: ") + e.msg() + " at " + whereAmI());
            resetInc();
            return errors.size() < 20;
        }
        return true;
    }
    int run()
    {
        t0 = now();
        SMDiagnostic err;
        M = parseIRFile(opt.bc, err, ctx);
        if (!M) { fprintf(stderr, "cannot read %s: %s\n", opt.bc.c_str(), err.getMessage().str().c_str()); return 2; }
        DL = &M->getDataLayout();
        auto st = std::make_unique<State>();
        init = st.get();
        S = st.get();
        st->threads.resize(1);
        buildExternTable();
        try
        {
            initGlobals();
            for (auto& F : *M) addrOf(&F);
            const Function* entry = M->getFunction(opt.entry);
            if (!entry) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 2; }
            // constructors, then the harness: frames are pushed in reverse order of execution
            vector<std::pair<uint64_t, const Function*>> ctors;
            if (auto* g = M->getNamedGlobal("llvm.global_ctors"))
                if (auto* arr = dyn_cast<ConstantArray>(g->getInitializer()))
                    for (unsigned i = 0; i < arr->getNumOperands(); i++)
                    {
                        auto* cs = cast<ConstantStruct>(arr->getOperand(i));
                        if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
                    }
            std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& [pr, f] : ctors)
            {
                pushFrame(st->threads[0], f, {});
                try { while (true) step(); }
                catch (Terminate& t) { if (t.why != "done") { errors.push_back("static initialisation: " + t.why); break; } }
                st->threads[0].status = 0;
            }
            st->steps = 0;
            pushFrame(st->threads[0], entry, {});
        }
        catch (EngineError& e) { errors.push_back("engine: " + e.msg + " at " + whereAmI()); }
        S = nullptr;
        repoFuncs.clear();
        auto initial = std::make_unique<State>(*st);   // what typeInfo() and vtables refer to, whatever becomes of the paths
        init = initial.get();
        if (errors.empty()) work.push_back(std::move(st));
        std::unique_ptr<State> cur;
        while (!work.empty())
        {
            if (nPaths >= opt.maxPaths) { errors.push_back("path limit reached"); break; }
            if (std::count_if(violations.begin(), violations.end(), [](auto& v) { return v.kind != "finding"; }) >= (long)opt.maxViolations) break;
            if (now() - t0 > opt.timeLimit) { errors.push_back("time limit reached with paths left"); break; }
            cur = std::move(work.back());
            work.pop_back();
            S = cur.get();
            if (!runState()) break;
        }
        if (bounded) errors.push_back("step bound reached");
        writeReport();
        return violations.empty() ? (errors.empty() ? 0 : 2) : 1;
    }
    void writeReport()
    {
        std::ostringstream o;
        o << "{\"entry\":" << jstr(opt.entry) << ",\"params\":{";
        bool first = true;
        for (auto& [k, v] : opt.params) { o << (first ? "" : ",") << jstr(k) << ":" << v; first = false; }
        o << "},\"mode\":\"" << (realMode ? "real" : "ieee") << "\"";
        o << ",\"paths\":" << nPaths << ",\"paths_ok\":" << nOk << ",\"infeasible\":" << nInfeasible << ",\"forks\":" << nForks << ",\"instructions\":" << nInstr;
        o << ",\"checks\":" << nChecks << ",\"checks_trivial\":" << nCheckTrivial << ",\"check_queries\":" << nCheckQ << ",\"branch_queries\":" << nBranchQ << ",\"memory_queries\":" << nMemQ << ",\"overflow_queries\":" << nOvfQ;
        o << ",\"sat\":" << nSat << ",\"unsat\":" << nUnsat << ",\"unknown\":" << nUnknown << ",\"solver_s\":" << solverTime << ",\"wall_s\":" << now() - t0;
        o << ",\"ends\":{";
        first = true;
        for (auto& [k, v] : endReasons) { o << (first ? "" : ",") << jstr(k) << ":" << v; first = false; }
        o << "},\"reached\":{";
        first = true;
        for (auto& [k, v] : reachedTags) { o << (first ? "" : ",") << jstr(k) << ":" << v; first = false; }
        o << "},\"functions\":[";
        first = true;
        for (auto& f : repoFuncs) { o << (first ? "" : ",") << jstr(f); first = false; }
        o << "],\"notes\":[";
        first = true;
        for (auto& f : assumptions) { o << (first ? "" : ",") << jstr(f); first = false; }
        o << "],\"errors\":[";
        first = true;
        for (auto& f : errors) { o << (first ? "" : ",") << jstr(f); first = false; }
        o << "],\"witnesses\":[";
        for (size_t i = 0; i < witnessJson.size(); i++) o << (i ? "," : "") << witnessJson[i];
        o << "],\"violations\":[";
        first = true;
        for (auto& v : violations)
        {
            o << (first ? "" : ",") << "{\"kind\":" << jstr(v.kind) << ",\"msg\":" << jstr(v.msg) << ",\"loc\":" << jstr(v.loc) << ",\"inputs\":[";
            for (size_t i = 0; i < v.inputs.size(); i++) o << (i ? "," : "") << jstr(v.inputs[i]);
            o << "]}";
            first = false;
        }
        o << "]}\n";
        if (opt.out.empty()) std::cout << o.str();
        else { std::ofstream f(opt.out); f << o.str(); }
    }
};

int main(int argc, char** argv)
{
    for (int i = 1; i < argc; i++)
    {
        string a = argv[i];
        auto val = [&]() { return string(argv[++i]); };
        if (a == "--bc") opt.bc = val();
        else if (a == "--entry") opt.entry = val();
        else if (a == "--out") opt.out = val();
        else if (a == "--repo") opt.repo = val();
        else if (a == "--ieee") realMode = false;
        else if (a == "--time") opt.timeLimit = atof(argv[++i]);
        else if (a == "--query-ms") opt.queryMs = atoi(argv[++i]);
        else if (a == "--branch-ms") opt.branchMs = atoi(argv[++i]);
        else if (a == "--max-paths") opt.maxPaths = atoi(argv[++i]);
        else if (a == "--max-steps") opt.maxSteps = atoll(argv[++i]);
        else if (a == "--hang-steps") opt.hangSteps = atoll(argv[++i]);
        else if (a == "--witnesses") opt.witnesses = atoi(argv[++i]);
        else if (a == "--max-violations") opt.maxViolations = atoi(argv[++i]);
        else if (a == "--no-overflow") opt.overflow = false;
        else if (a == "--fork-rng") opt.forkRng = true;
        else if (a == "--seed") opt.seed = atoi(argv[++i]);
        else if (a == "-v") opt.verbose = true;
        else if (a == "-p") { string s = val(); auto e = s.find('='); opt.params[s.substr(0, e)] = atol(s.c_str() + e + 1); }
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    rlimit rl{12ull << 30, 12ull << 30};
    setrlimit(RLIMIT_AS, &rl);
    z3::context c;
    zctx = &c;
    auto* en = new Engine();
    int r = en->run();
    fflush(stdout);
    _exit(r);
}
