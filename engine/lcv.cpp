// lcv: LLVM contract verifier.  Generates verification conditions for the harness functions of a
// bitcode module compiled from the real sources, and discharges them syntactically or with SMT.
#include "term.h"
#include <bitset>
#include <llvm/ADT/SmallString.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <optional>
#include <random>
#include <regex>
#include <sstream>
#include <fcntl.h>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;
using lcv::mkConst; using lcv::mkVar; using lcv::mkIte; using lcv::mkEq; using lcv::mkAnd; using lcv::mkOr; using lcv::mkNot;
using lcv::mkAdd; using lcv::mkSub; using lcv::mkExtract; using lcv::mkConcatV; using lcv::mkZExt; using lcv::mkSExt; using lcv::mkTrunc;
using lcv::mkUlt; using lcv::mkUle; using lcv::isC; using lcv::isTrue; using lcv::isFalse;
using lcv::tTrue; using lcv::tFalse;
using Term = lcv::T;
using clk = std::chrono::steady_clock;

static double now() { return std::chrono::duration<double>(clk::now().time_since_epoch()).count(); }

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

// ------------------------------------------------------------------------------------------------
// options
static double optQueryTimeout = 20, optUnitTimeout = 120;
static bool optInline = false, optVerbose = false;
static std::string optDumpDir;
static unsigned optMaxIter = 6000, optMaxDepth = 400;

// ------------------------------------------------------------------------------------------------
// solver
struct SolveRes { enum { SAT, UNSAT, UNKNOWN } r = UNKNOWN; std::map<std::string, APInt> model; };
struct SolverStats { double time = 0; unsigned queries = 0; std::map<std::string, unsigned> unsatBy, satBy; } gStats;

static std::string runProc(const std::vector<std::string> &argv, const std::string &input, double timeout) {
    char tn[] = "/tmp/lcvXXXXXX";
    int tf = mkstemp(tn);
    size_t off = 0;
    while (off < input.size()) { ssize_t k = write(tf, input.data() + off, input.size() - off); if (k <= 0) break; off += k; }
    lseek(tf, 0, SEEK_SET);
    unlink(tn);
    int p[2]; if (pipe(p)) { close(tf); return ""; }
    pid_t pid = fork();
    if (pid == 0) {
        setpgid(0, 0);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        dup2(tf, 0); dup2(p[1], 1); int dn = open("/dev/null", O_WRONLY); dup2(dn, 2);
        close(p[0]); close(p[1]);
        std::vector<char *> a; for (auto &s : argv) a.push_back(const_cast<char *>(s.c_str())); a.push_back(nullptr);
        execvp(a[0], a.data()); _exit(127);
    }
    close(tf); close(p[1]);
    std::string out; double end = now() + timeout; char buf[65536]; bool killed = false;
    for (;;) {
        double left = end - now();
        if (left <= 0) { kill(-pid, SIGKILL); kill(pid, SIGKILL); killed = true; break; }
        struct pollfd f = {p[0], POLLIN, 0};
        int k = poll(&f, 1, std::min<int>(left * 1000 + 1, 1000));
        if (k > 0) { ssize_t n = read(p[0], buf, sizeof buf); if (n <= 0) break; out.append(buf, n); }
    }
    close(p[0]); waitpid(pid, nullptr, 0);
    return killed ? "timeout" : out;
}

static SolveRes parseSolver(const std::string &out, const std::vector<Term> &vars) {
    SolveRes r;
    if (out.compare(0, 5, "unsat") == 0) { r.r = SolveRes::UNSAT; return r; }
    if (out.compare(0, 3, "sat") != 0) return r;
    r.r = SolveRes::SAT;
    size_t pos = 0;
    for (auto v : vars) {
        std::string key = "(|" + v->name + "| #";
        size_t q = out.find(key);
        if (q == std::string::npos) { key = "(" + v->name + " #"; q = out.find(key); }
        if (q == std::string::npos) continue;
        size_t st = q + key.size(); size_t e = out.find(')', st);
        std::string d = out.substr(st, e - st);
        while (!d.empty() && isspace(d.back())) d.pop_back();
        if (d[0] == 'b') r.model[v->name] = APInt(v->w, StringRef(d).drop_front(1), 2);
        else if (d[0] == 'x') { APInt x(v->w + 8, StringRef(d).drop_front(1), 16); r.model[v->name] = x.trunc(v->w); }
    }
    (void)pos;
    return r;
}

static unsigned dumpNo = 0;
static SolveRes solveWith(const std::string &which, const std::vector<Term> &as, double timeout, bool wantModel) {
    std::vector<Term> vars;
    std::string body = lcv::toSmt(as, vars);
    std::string q;
    q += "(set-option :produce-models true)\n";
    q += std::string("(set-logic ") + (body.find("declare-fun") != std::string::npos ? "QF_UFBV" : "QF_BV") + ")\n";
    q += body + "(check-sat)\n";
    if (wantModel && !vars.empty()) {
        q += "(get-value (";
        for (auto v : vars) q += "|" + v->name + "| ";
        q += "))\n";
    }
    if (!optDumpDir.empty()) { std::ofstream f(optDumpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(dumpNo++) + ".smt2"); f << q; }
    double t0 = now();
    std::vector<std::string> cmd;
    if (which == "z3") cmd = {"z3-new", "-in", "-memory:3000"};
    else cmd = {"cvc5", "--lang=smt2", "--bitblast=eager", "-"};
    if (which == "cvc5" && q.find("QF_UFBV") != std::string::npos) cmd = {"cvc5", "--lang=smt2", "-"};
    std::string out = runProc(cmd, q, timeout);
    double t = now() - t0;
    gStats.time += t; gStats.queries++;
    auto r = parseSolver(out, vars);
    if (optVerbose) fprintf(stderr, "    [%s] %s %.2fs (%zu bytes)\n", which.c_str(), r.r == SolveRes::SAT ? "sat" : r.r == SolveRes::UNSAT ? "unsat" : "unknown", t, q.size());
    if (r.r == SolveRes::UNSAT) gStats.unsatBy[which]++;
    if (r.r == SolveRes::SAT) gStats.satBy[which]++;
    return r;
}
static SolveRes solve(const std::vector<Term> &as, double timeout, bool wantModel, bool second = true) {
    for (auto a : as) if (isFalse(a)) { SolveRes r; r.r = SolveRes::UNSAT; return r; }
    lcv::absArith = true; lcv::sawArith = false;
    SolveRes r;
    { std::vector<Term> vs; lcv::toSmt(as, vs); }
    if (lcv::sawArith) { r = solveWith("z3", as, std::min(timeout, 10.0), false); if (r.r == SolveRes::UNSAT) { lcv::absArith = false; return r; } }
    lcv::absArith = false;
    r = solveWith("z3", as, timeout, wantModel);
    if (r.r == SolveRes::UNKNOWN && second) r = solveWith("cvc5", as, timeout, wantModel);
    return r;
}

// the conjunction is contradictory, after simplification and case splits on the conditions in the goal
static const char *optLines = getenv("LCV_LINES");  // development aid: the source lines that were verified
static std::unordered_set<const DILocation *> seenLines;
static bool provedBySplitting(std::vector<Term> lits, Term goal, double timeout, int depth = 0) {
    lits = lcv::simplifyConj(lits);
    for (auto l : lits) if (isFalse(l)) return true;
    if (getenv("LCV_SHOW")) { fprintf(stderr, "---- goal %s\n", lcv::shortStr(goal, atoi(getenv("LCV_SHOW")) ? atoi(getenv("LCV_SHOW")) : 6).c_str()); for (auto l : lits) fprintf(stderr, "  %s\n", lcv::shortStr(l, atoi(getenv("LCV_SHOW"))).c_str()); }
    Term c = depth < 3 ? lcv::someCond(goal) : nullptr;
    if (c) {
        for (int v = 0; v < 2; v++) {
            auto x = lits;
            x.push_back(v ? c : mkNot(c));
            std::unordered_map<Term, Term> m{{c, v ? tTrue() : tFalse()}};
            for (auto &l : x) if (&l != &x.back()) l = lcv::rebuild(l, m);
            if (!provedBySplitting(x, lcv::rebuild(goal, m), timeout, depth + 1)) return false;
        }
        return true;
    }
    return solve(lits, timeout, false).r == SolveRes::UNSAT;
}

// ------------------------------------------------------------------------------------------------
// state
struct Cell { Term t; unsigned idx; };  // byte idx of t
using Bytes = std::vector<Cell>;
struct ObjInfo { std::string name; uint64_t size; enum { STACK, GLOBAL, HEAP, FUNC } kind; bool ro; Function *fn = nullptr; Term base; };
using Val = std::vector<Term>;

struct State {
    std::vector<Term> pc;
    std::map<int, std::shared_ptr<Bytes>> mem;
    bool dead = false;
    void assume(Term c) {
        if (isTrue(c)) return;
        if (isFalse(c)) { dead = true; return; }
        if (c->op == lcv::AND) { for (auto x : c->k) assume(x); return; }
        Term n = mkNot(c);
        for (auto p : pc) { if (p == c) return; if (p == n) { dead = true; return; } }
        pc.push_back(c);
    }
};
struct Edge { BasicBlock *from; State st; std::vector<Val> phis; };

struct Oblig { std::string kind, clause, loc; std::vector<Term> pc; Term cond; };

struct FnInfo { LoopInfo *LI; DominatorTree *DT; std::vector<BasicBlock *> rpo; };
static std::map<Function *, FnInfo> fnInfo;
static FnInfo &info(Function *F) {
    auto it = fnInfo.find(F);
    if (it != fnInfo.end()) return it->second;
    auto *DT = new DominatorTree(*F);
    auto *LI = new LoopInfo(*DT);
    FnInfo fi{LI, DT, {}};
    ReversePostOrderTraversal<Function *> R(F);
    for (auto *B : R) fi.rpo.push_back(B);
    return fnInfo[F] = fi;
}

struct Frame { Function *F; std::map<Value *, Val> env; std::vector<int> allocas; std::vector<Edge> rets; std::vector<Val> args; std::string callsite; };

static Module *M;
static const DataLayout *DL;

struct Sym { std::string name; unsigned bits; };
struct ModRange { int obj; uint64_t off, len; };
// evaluation of the annotations at a loop header
struct InvCtx { enum { NONE, CHECK, ASSUME } mode = NONE; bool entry = false; std::vector<ModRange> mods; Term variant = nullptr; };

class Exec {
public:
    std::vector<ObjInfo> objs;
    std::map<const GlobalValue *, int> globals;
    std::map<int, std::shared_ptr<Bytes>> globalInit;
    std::vector<Oblig> obligs;
    unsigned trivially = 0;  // obligations discharged by normalisation
    std::map<std::string, unsigned> trivKinds;
    std::vector<Sym> syms;
    std::map<Function *, Function *> repl;    // callee contract substitutions
    std::set<std::string> usedContracts, executed, external;
    unsigned fresh = 0, depth = 0;
    double deadline = 0;
    const Instruction *curI = nullptr;
    std::vector<Frame *> stack;
    bool coverOk = false;
    uint64_t steps = 0;
    InvCtx inv;
    unsigned cutLoops = 0;

    // -------------------------------------------------------------------------------- objects
    int newObj(const std::string &nm, uint64_t size, decltype(ObjInfo::STACK) k, bool ro) {
        int id = objs.size();
        ObjInfo o{nm, size, k, ro};
        o.base = mkVar(64, "obj" + std::to_string(id), id);
        objs.push_back(o);
        return id;
    }
    Term freshVar(unsigned w, const std::string &nm) { return mkVar(w, nm + "!" + std::to_string(fresh++)); }
    std::shared_ptr<Bytes> uninit(uint64_t size, const std::string &nm) {
        auto b = std::make_shared<Bytes>();
        if (!size) return b;
        Term v = freshVar(size * 8, "undef_" + nm);
        for (unsigned i = 0; i < size; i++) b->push_back({v, i});
        return b;
    }
    int globalObj(State &st, const GlobalValue *G) {
        auto it = globals.find(G);
        int id;
        if (it != globals.end()) id = it->second;
        else if (auto *F = dyn_cast<Function>(G)) {
            id = newObj(F->getName().str(), 1, ObjInfo::FUNC, true);
            objs[id].fn = const_cast<Function *>(F);
            globals[G] = id;
            globalInit[id] = uninit(1, "fn");
        } else {
            auto *GV = cast<GlobalVariable>(G);
            uint64_t sz = DL->getTypeAllocSize(GV->getValueType());
            id = newObj(GV->getName().str(), sz, ObjInfo::GLOBAL, GV->isConstant());
            globals[G] = id;
            auto b = uninit(sz, GV->getName().str());
            globalInit[id] = b;
            if (GV->hasInitializer()) initBytes(st, *b, 0, GV->getInitializer());
        }
        if (!st.mem.count(id)) st.mem[id] = globalInit[id];
        return id;
    }
    void put(Bytes &b, uint64_t off, Term t) {
        unsigned n = (t->w + 7) / 8;
        if (t->w % 8) t = mkZExt(t, n * 8);
        for (unsigned i = 0; i < n; i++) b[off + i] = {t, i};
    }
    void initBytes(State &st, Bytes &b, uint64_t off, const Constant *c) {
        Type *ty = c->getType();
        if (isa<ConstantAggregateZero>(c) || c->isNullValue()) {
            uint64_t n = DL->getTypeAllocSize(ty);
            for (uint64_t i = 0; i < n; i++) b[off + i] = {mkConst(8, 0), 0};
            return;
        }
        if (isa<UndefValue>(c)) return;
        if (auto *A = dyn_cast<ConstantDataSequential>(c)) {
            uint64_t es = DL->getTypeAllocSize(A->getElementType());
            for (unsigned i = 0; i < A->getNumElements(); i++) initBytes(st, b, off + i * es, A->getElementAsConstant(i));
            return;
        }
        if (auto *A = dyn_cast<ConstantArray>(c)) {
            uint64_t es = DL->getTypeAllocSize(A->getType()->getElementType());
            for (unsigned i = 0; i < A->getNumOperands(); i++) initBytes(st, b, off + i * es, A->getOperand(i));
            return;
        }
        if (auto *S = dyn_cast<ConstantStruct>(c)) {
            auto *SL = DL->getStructLayout(S->getType());
            for (unsigned i = 0; i < S->getNumOperands(); i++) initBytes(st, b, off + SL->getElementOffset(i), S->getOperand(i));
            return;
        }
        Val v = constVal(st, c);
        put(b, off, v[0]);
    }

    // -------------------------------------------------------------------------------- obligations
    std::string locStr() {
        std::string s;
        if (curI) {
            if (auto &d = curI->getDebugLoc()) {
                std::string f = d->getScope()->getFilename().str();
                auto p = f.rfind('/');
                s = (p == std::string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(d.getLine());
            }
            s += " in " + curI->getFunction()->getName().str();
        }
        return s;
    }
    void oblige(State &st, const std::string &kind, const std::string &clause, Term cond) {
        if (st.dead) return;
        bool triv = isTrue(cond);
        if (!triv) for (auto p : st.pc) if (p == cond) triv = true;
        if (triv) { trivially++; trivKinds[kind]++; return; }
        obligs.push_back({kind, clause, locStr(), st.pc, cond});
    }
    // the leaves of a conjunct, to split a path condition into independent groups
    const std::vector<Term> &leavesOf(Term t) {
        static std::unordered_map<Term, std::vector<Term>> memo;
        auto it = memo.find(t);
        if (it != memo.end()) return it->second;
        std::vector<Term> out, st{t};
        std::unordered_set<Term> seen{t};
        while (!st.empty()) {
            Term x = st.back(); st.pop_back();
            if (x->op == lcv::VAR) out.push_back(x);
            for (auto k : x->k) if (seen.insert(k).second) st.push_back(k);
        }
        return memo[t] = out;
    }
    // the values of its only variable (of at most 8 bits) for which t is true; nullptr if t is not of that kind
    const std::bitset<256> *tableOf(Term t) {
        static std::unordered_map<Term, std::unique_ptr<std::bitset<256>>> memo;
        auto it = memo.find(t);
        if (it != memo.end()) return it->second.get();
        auto &slot = memo[t];
        auto &lv = leavesOf(t);
        if (lv.size() != 1 || lv[0]->w > 8 || lv[0]->base >= 0) return nullptr;
        size_t n = 0;
        std::vector<Term> st{t};
        std::unordered_set<Term> seen{t};
        while (!st.empty()) {
            Term x = st.back(); st.pop_back();
            if (x->op == lcv::UF || ++n > 200) return nullptr;
            for (auto k : x->k) if (seen.insert(k).second) st.push_back(k);
        }
        slot.reset(new std::bitset<256>);
        for (unsigned v = 0; v < (1u << lv[0]->w); v++) (*slot)[v] = lcv::evalTerm(t, {{lv[0]->name, APInt(lv[0]->w, v)}}).getBoolValue();
        return slot.get();
    }
    // a condition on one small variable that the path condition decides (by enumerating the values of that variable)
    Term decide(State &st, Term c) {
        if (isC(c)) return c;
        auto *tc = tableOf(c);
        if (!tc) return c;
        Term v = leavesOf(c)[0];
        std::bitset<256> dom;
        for (unsigned i = 0; i < (1u << v->w); i++) dom[i] = true;
        for (auto p : st.pc) {
            auto &lv = leavesOf(p);
            if (lv.size() == 1 && lv[0] == v) if (auto *tp = tableOf(p)) dom &= *tp;
        }
        if ((dom & *tc).none()) return tFalse();
        if ((dom & ~*tc).none()) return tTrue();
        return c;
    }
    // false only if the path condition is contradictory: groups of conjuncts without a common variable are checked apart
    bool feasible(State &st) {
        if (st.dead) return false;
        if (st.pc.empty()) return true;
        std::unordered_map<Term, int> owner;
        std::vector<int> up(st.pc.size());
        for (size_t i = 0; i < up.size(); i++) up[i] = i;
        std::function<int(int)> root = [&](int i) { while (up[i] != i) i = up[i] = up[up[i]]; return i; };
        for (size_t i = 0; i < st.pc.size(); i++)
            for (auto v : leavesOf(st.pc[i])) {
                auto r = owner.emplace(v, (int)i);
                if (!r.second) up[root(i)] = root(r.first->second);
            }
        std::map<int, std::vector<Term>> groups;
        for (size_t i = 0; i < st.pc.size(); i++) groups[root(i)].push_back(st.pc[i]);
        static std::map<std::vector<Term>, bool> known;
        for (auto &g : groups) {
            auto key = g.second;
            std::sort(key.begin(), key.end());
            auto it = known.find(key);
            bool sat;
            if (it != known.end()) sat = it->second;
            else {
                auto r = solve(g.second, std::min(optQueryTimeout, 10.0), false, false);
                sat = known[key] = r.r != SolveRes::UNSAT;
            }
            if (!sat) return false;
        }
        return true;
    }

    // -------------------------------------------------------------------------------- pointers
    struct Loc { Term cond; int obj; Term off; };
    // a pointer into some object, possibly a choice of several (terms are shared, hence the memo)
    static bool hasBase(Term t) {
        if (t->w != 64) return false;
        if (t->op == lcv::VAR) return t->base >= 0;
        if (t->op != lcv::LIN && t->op != lcv::ITE) return false;
        static std::unordered_map<Term, bool> memo;
        auto it = memo.find(t);
        if (it != memo.end()) return it->second;
        bool r = false;
        if (t->op == lcv::LIN) { for (auto k : t->k) if (hasBase(k)) { r = true; break; } }
        else r = hasBase(t->k[1]) || hasBase(t->k[2]);
        return memo[t] = r;
    }
    void resolve(Term p, Term cond, Term add, std::vector<Loc> &out) {
        if (isFalse(cond)) return;
        if (p->op == lcv::VAR && p->base >= 0) { out.push_back({cond, p->base, add}); return; }
        if (p->op == lcv::ITE) {
            resolve(p->k[1], mkAnd(cond, p->k[0]), add, out);
            resolve(p->k[2], mkAnd(cond, mkNot(p->k[0])), add, out);
            return;
        }
        if (p->op == lcv::LIN) {
            for (size_t i = 0; i < p->k.size(); i++)
                if (p->co[i].isOne() && hasBase(p->k[i])) {
                    resolve(p->k[i], cond, mkAdd(add, mkSub(p, p->k[i])), out);
                    return;
                }
        }
        out.push_back({cond, -1, p});  // not a pointer to a known object
    }
    std::vector<Loc> resolve(Term p) {
        std::vector<Loc> r;
        resolve(p, tTrue(), mkConst(64, 0), r);
        return r;
    }
    // candidate concrete offsets for a (possibly symbolic) offset
    std::vector<uint64_t> candidates(Term off, uint64_t size, uint64_t len) {
        std::vector<uint64_t> v;
        if (len > size) return v;
        if (isC(off)) { if (off->c.ule(size - len)) v.push_back(off->c.getZExtValue()); return v; }
        APInt c(64, 0);
        if (off->op == lcv::LIN) c = off->c;
        Term rest = mkSub(off, mkConst(c));
        unsigned z = std::min(lcv::knownLowZeros(rest), 20u);
        uint64_t stride = 1ull << z, base = c.getZExtValue() % stride;
        APInt lo = lcv::uminOf(off), hi = lcv::umaxOf(off);
        for (uint64_t o = base; o + len <= size; o += stride) {
            if (lo.ugt(o) || hi.ult(o)) continue;
            v.push_back(o);
        }
        return v;
    }
    std::shared_ptr<Bytes> &objBytes(State &st, int id) { return st.mem[id]; }
    bool alive(State &st, int id) {
        if (st.mem.count(id)) return true;
        if (globalInit.count(id)) { st.mem[id] = globalInit[id]; return true; }
        return false;
    }
    Term loadConst(const Bytes &b, uint64_t off, unsigned n) {
        std::vector<Term> parts;  // LSB first
        unsigned i = 0;
        while (i < n) {
            const Cell &c = b[off + i];
            unsigned j = 1;
            while (i + j < n && b[off + i + j].t == c.t && b[off + i + j].idx == c.idx + j) j++;
            parts.push_back(mkExtract(c.t, (c.idx + j) * 8 - 1, c.idx * 8));
            i += j;
        }
        std::reverse(parts.begin(), parts.end());
        return mkConcatV(parts);
    }
    Bytes &wr(State &st, int id) {
        auto &p = st.mem[id];
        if (p.use_count() > 1) p = std::make_shared<Bytes>(*p);
        return *p;
    }
    Term rangeOk(Term off, uint64_t size, uint64_t len) {
        if (len > size) return tFalse();
        return mkUle(off, mkConst(64, size - len));
    }
    Term load(State &st, Term ptr, unsigned n) {
        auto locs = resolve(ptr);
        Term res = nullptr;
        for (size_t k = locs.size(); k-- > 0;) {
            auto &L = locs[k];
            Term v = nullptr;
            if (L.obj < 0 || !alive(st, L.obj)) {
                oblige(st, "memory", "valid pointer for load", mkNot(L.cond));
                v = freshVar(n * 8, "bad");
            } else {
                uint64_t sz = objs[L.obj].size;
                oblige(st, "memory", "load in bounds of " + objs[L.obj].name, mkOr(mkNot(L.cond), rangeOk(L.off, sz, n)));
                auto cs = candidates(L.off, sz, n);
                auto &b = *st.mem[L.obj];
                if (cs.size() > 4096) throw Unsupported("symbolic load with too many candidates");
                for (size_t q = cs.size(); q-- > 0;) {
                    Term x = loadConst(b, cs[q], n);
                    v = v ? mkIte(mkEq(L.off, mkConst(64, cs[q])), x, v) : x;
                }
                if (!v) v = freshVar(n * 8, "oob");
            }
            res = res ? mkIte(L.cond, v, res) : v;
        }
        return res;
    }
    void store(State &st, Term ptr, Term v) {
        unsigned n = v->w / 8;
        auto locs = resolve(ptr);
        for (auto &L : locs) {
            if (L.obj < 0 || !alive(st, L.obj)) { oblige(st, "memory", "valid pointer for store", mkNot(L.cond)); continue; }
            uint64_t sz = objs[L.obj].size;
            oblige(st, "memory", "store in bounds of " + objs[L.obj].name, mkOr(mkNot(L.cond), rangeOk(L.off, sz, n)));
            if (objs[L.obj].ro) oblige(st, "memory", "store to constant " + objs[L.obj].name, mkNot(L.cond));
            auto cs = candidates(L.off, sz, n);
            if (cs.size() > 4096) throw Unsupported("symbolic store with too many candidates");
            Bytes &b = wr(st, L.obj);
            // read all old values first (candidates may overlap)
            std::vector<std::pair<uint64_t, Term>> upd;
            if (cs.size() == 1) {
                Term c = L.cond;
                if (!isC(L.off)) c = mkAnd(c, mkEq(L.off, mkConst(64, cs[0])));
                Term x = isTrue(c) ? v : mkIte(c, v, loadConst(b, cs[0], n));
                put(b, cs[0], x);
                continue;
            }
            bool overlap = false;
            for (size_t q = 1; q < cs.size(); q++) if (cs[q] - cs[q - 1] < n) overlap = true;
            if (!overlap) {
                for (auto o : cs) put(b, o, mkIte(mkAnd(L.cond, mkEq(L.off, mkConst(64, o))), v, loadConst(b, o, n)));
            } else {
                Bytes old = b;
                for (uint64_t byte = 0; byte < sz; byte++) {
                    Term x = loadConst(old, byte, 1);
                    for (auto o : cs) if (o <= byte && byte < o + n)
                        x = mkIte(mkAnd(L.cond, mkEq(L.off, mkConst(64, o))), mkExtract(v, (byte - o) * 8 + 7, (byte - o) * 8), x);
                    b[byte] = {x, 0};
                }
            }
        }
    }
    std::vector<Cell> readCells(State &st, Term ptr, uint64_t n) {
        std::vector<Cell> r;
        if (!n) return r;
        auto locs = resolve(ptr);
        if (locs.size() == 1 && locs[0].obj >= 0 && isC(locs[0].off) && alive(st, locs[0].obj)) {
            auto &L = locs[0];
            uint64_t sz = objs[L.obj].size, o = L.off->c.getZExtValue();
            Term ok = rangeOk(L.off, sz, n);
            oblige(st, "memory", "memcpy source in bounds of " + objs[L.obj].name, ok);
            if (isTrue(ok)) { auto &b = *st.mem[L.obj]; for (uint64_t i = 0; i < n; i++) r.push_back(b[o + i]); return r; }
            Term v = freshVar(n * 8, "oob");
            for (uint64_t i = 0; i < n; i++) r.push_back({v, (unsigned)i});
            return r;
        }
        Term v = load(st, ptr, n);
        for (uint64_t i = 0; i < n; i++) r.push_back({v, (unsigned)i});
        return r;
    }
    void writeCells(State &st, Term ptr, const std::vector<Cell> &c) {
        if (c.empty()) return;
        auto locs = resolve(ptr);
        uint64_t n = c.size();
        if (locs.size() == 1 && locs[0].obj >= 0 && isC(locs[0].off) && alive(st, locs[0].obj)) {
            auto &L = locs[0];
            uint64_t sz = objs[L.obj].size, o = L.off->c.getZExtValue();
            Term ok = rangeOk(L.off, sz, n);
            oblige(st, "memory", "memcpy destination in bounds of " + objs[L.obj].name, ok);
            if (objs[L.obj].ro) oblige(st, "memory", "memcpy to constant " + objs[L.obj].name, tFalse());
            if (isTrue(ok)) { Bytes &b = wr(st, L.obj); for (uint64_t i = 0; i < n; i++) b[o + i] = c[i]; }
            return;
        }
        Bytes tmp(c.begin(), c.end());
        store(st, ptr, loadConst(tmp, 0, n));
    }
    std::string readCStr(State &st, Term ptr) {
        std::string s;
        for (;;) {
            Term b = load(st, ptr, 1);
            if (!isC(b)) throw Unsupported("symbolic string passed to intrinsic");
            char ch = (char)b->c.getZExtValue();
            if (!ch) return s;
            s += ch;
            ptr = mkAdd(ptr, mkConst(64, 1));
            if (s.size() > 4096) throw Unsupported("string too long");
        }
    }

    // -------------------------------------------------------------------------------- values
    static unsigned leaves(Type *t) {
        if (t->isVoidTy()) return 0;
        if (auto *S = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto *e : S->elements()) n += leaves(e); return n; }
        if (auto *A = dyn_cast<ArrayType>(t)) return A->getNumElements() * leaves(A->getElementType());
        if (t->isVectorTy()) throw Unsupported("vector type");
        return 1;
    }
    unsigned bitsOf(Type *t) {
        if (t->isPointerTy()) return 64;
        if (t->isIntegerTy()) return t->getIntegerBitWidth();
        if (t->isDoubleTy()) return 64;
        if (t->isFloatTy()) return 32;
        std::string s; raw_string_ostream o(s); t->print(o);
        throw Unsupported("type " + o.str());
    }
    Val undefVal(Type *t) {
        if (auto *S = dyn_cast<StructType>(t)) { Val r; for (auto *e : S->elements()) for (auto x : undefVal(e)) r.push_back(x); return r; }
        if (auto *A = dyn_cast<ArrayType>(t)) { Val r; for (unsigned i = 0; i < A->getNumElements(); i++) for (auto x : undefVal(A->getElementType())) r.push_back(x); return r; }
        return {freshVar(bitsOf(t), "undef")};
    }
    Val zeroVal(Type *t) {
        if (auto *S = dyn_cast<StructType>(t)) { Val r; for (auto *e : S->elements()) for (auto x : zeroVal(e)) r.push_back(x); return r; }
        if (auto *A = dyn_cast<ArrayType>(t)) { Val r; for (unsigned i = 0; i < A->getNumElements(); i++) for (auto x : zeroVal(A->getElementType())) r.push_back(x); return r; }
        return {mkConst(bitsOf(t), 0)};
    }
    Val constVal(State &st, const Constant *c) {
        if (auto *I = dyn_cast<ConstantInt>(c)) return {mkConst(I->getValue())};
        if (auto *F = dyn_cast<ConstantFP>(c)) return {mkConst(F->getValueAPF().bitcastToAPInt())};
        if (isa<ConstantPointerNull>(c)) return {mkConst(64, 0)};
        if (isa<UndefValue>(c)) return undefVal(c->getType());
        if (isa<ConstantAggregateZero>(c)) return zeroVal(c->getType());
        if (auto *G = dyn_cast<GlobalAlias>(c)) return constVal(st, G->getAliasee());
        if (auto *G = dyn_cast<GlobalValue>(c)) return {objs[globalObj(st, G)].base};
        if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) {
            Val r; for (auto &o : c->operands()) for (auto x : constVal(st, cast<Constant>(o))) r.push_back(x); return r;
        }
        if (auto *A = dyn_cast<ConstantDataSequential>(c)) {
            Val r; for (unsigned i = 0; i < A->getNumElements(); i++) for (auto x : constVal(st, A->getElementAsConstant(i))) r.push_back(x); return r;
        }
        if (auto *E = dyn_cast<ConstantExpr>(c)) {
            if (auto *G = dyn_cast<GEPOperator>(E)) {
                APInt off(64, 0);
                if (!G->accumulateConstantOffset(*DL, off)) throw Unsupported("constant gep");
                return {mkAdd(constVal(st, cast<Constant>(G->getPointerOperand()))[0], mkConst(off))};
            }
            switch (E->getOpcode()) {
                case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
                    Val v = constVal(st, E->getOperand(0));
                    unsigned w = bitsOf(E->getType());
                    return {w <= v[0]->w ? mkTrunc(v[0], w) : mkZExt(v[0], w)};
                }
                case Instruction::Sub: return {mkSub(constVal(st, E->getOperand(0))[0], constVal(st, E->getOperand(1))[0])};
                case Instruction::Add: return {mkAdd(constVal(st, E->getOperand(0))[0], constVal(st, E->getOperand(1))[0])};
                default: break;
            }
        }
        std::string s; raw_string_ostream o(s); c->print(o);
        throw Unsupported("constant " + o.str());
    }
    Val &ev(Frame &f, State &st, Value *v) {
        if (auto *c = dyn_cast<Constant>(v)) { static std::vector<std::unique_ptr<Val>> pool; pool.push_back(std::make_unique<Val>(constVal(st, c))); if (pool.size() > 4096) { auto k = std::move(pool.back()); pool.erase(pool.begin(), pool.begin() + 2048); pool.back() = std::move(k); } return *pool.back(); }
        auto it = f.env.find(v);
        if (it == f.env.end()) throw Unsupported("use of undefined value in " + f.F->getName().str());
        return it->second;
    }
    Term e1(Frame &f, State &st, Value *v) { return ev(f, st, v)[0]; }

    // -------------------------------------------------------------------------------- merging
    static Term conj(const std::vector<Term> &v, size_t from) {
        Term r = tTrue();
        for (size_t i = from; i < v.size(); i++) r = mkAnd(r, v[i]);
        return r;
    }
    std::shared_ptr<Bytes> mergeBytes(Term c, const std::shared_ptr<Bytes> &a, const std::shared_ptr<Bytes> &b) {
        if (a == b) return a;
        auto r = std::make_shared<Bytes>(a->size());
        size_t n = a->size(), i = 0;
        while (i < n) {
            const Cell &x = (*a)[i], &y = (*b)[i];
            if (x.t == y.t && x.idx == y.idx) { (*r)[i] = x; i++; continue; }
            size_t j = 1;
            while (i + j < n && (*a)[i + j].t == x.t && (*a)[i + j].idx == x.idx + j && (*b)[i + j].t == y.t && (*b)[i + j].idx == y.idx + j) j++;
            Term va = mkExtract(x.t, (x.idx + j) * 8 - 1, x.idx * 8), vb = mkExtract(y.t, (y.idx + j) * 8 - 1, y.idx * 8);
            Term m = mkIte(c, va, vb);
            for (size_t k = 0; k < j; k++) (*r)[i + k] = {m, (unsigned)k};
            i += j;
        }
        return r;
    }
    Edge merge2(Edge &&a, Edge &&b) {
        size_t p = 0;
        while (p < a.st.pc.size() && p < b.st.pc.size() && a.st.pc[p] == b.st.pc[p]) p++;
        Term ca = conj(a.st.pc, p), cb = conj(b.st.pc, p);
        Edge r; r.from = nullptr;
        r.st.pc.assign(a.st.pc.begin(), a.st.pc.begin() + p);
        r.st.assume(mkOr(ca, cb));
        r.st.dead = false;
        for (auto &kv : a.st.mem) {
            auto it = b.st.mem.find(kv.first);
            if (it == b.st.mem.end()) { r.st.mem[kv.first] = kv.second; continue; }
            r.st.mem[kv.first] = mergeBytes(ca, kv.second, it->second);
        }
        for (auto &kv : b.st.mem) if (!a.st.mem.count(kv.first)) r.st.mem[kv.first] = kv.second;
        for (size_t i = 0; i < a.phis.size(); i++) {
            Val v;
            for (size_t j = 0; j < a.phis[i].size(); j++) v.push_back(mkIte(ca, a.phis[i][j], b.phis[i][j]));
            r.phis.push_back(v);
        }
        return r;
    }
    Edge mergeAll(std::vector<Edge> &&v) {
        Edge r = std::move(v.back());
        v.pop_back();
        while (!v.empty()) { r = merge2(std::move(v.back()), std::move(r)); v.pop_back(); }
        return r;
    }

    // -------------------------------------------------------------------------------- control
    using Outs = std::map<BasicBlock *, std::vector<Edge>>;
    void pushEdge(Frame &f, Outs &outs, BasicBlock *from, BasicBlock *to, State &&st) {
        if (st.dead) return;
        Edge e; e.from = from;
        for (auto &phi : to->phis()) {
            Value *v = phi.getIncomingValueForBlock(from);
            if (isa<UndefValue>(v)) e.phis.push_back(undefVal(phi.getType()));
            else e.phis.push_back(ev(f, st, v));
        }
        e.st = std::move(st);
        outs[to].push_back(std::move(e));
    }
    void checkTime() { if (now() > deadline) throw Unsupported("symbolic execution time limit"); }
    void runRegion(Frame &f, Loop *L, BasicBlock *entry, std::vector<Edge> in, Outs &outs) {
        auto &fi = info(f.F);
        Outs pend;
        pend[entry] = std::move(in);
        bool started = false;
        for (auto *B : fi.rpo) {
            if (B == entry) started = true;
            if (!started) continue;
            if (L && !L->contains(B)) continue;
            Loop *IL = fi.LI->getLoopFor(B);
            auto it = pend.find(B);
            if (it == pend.end() || it->second.empty()) continue;
            Outs o;
            if (IL == L) {
                auto es = std::move(it->second); pend.erase(it);
                runBlock(f, B, mergeAll(std::move(es)), o);
            } else {
                if (!(IL->getHeader() == B && IL->getParentLoop() == L)) {
                    throw Unsupported("irreducible control flow in " + f.F->getName().str());
                }
                auto es = std::move(it->second); pend.erase(it);
                runLoop(f, IL, mergeAll(std::move(es)), o);
            }
            for (auto &kv : o) {
                bool inside = (!L || L->contains(kv.first)) && !(L && kv.first == L->getHeader());
                auto &dst = inside ? pend[kv.first] : outs[kv.first];
                for (auto &e : kv.second) dst.push_back(std::move(e));
            }
        }
    }
    static bool annotated(BasicBlock *H) {
        for (auto &I : *H)
            if (auto *C = dyn_cast<CallBase>(&I))
                if (auto *F = C->getCalledFunction()) if (F->getName().starts_with("_ZN15logic_contracts")) return true;
        return false;
    }
    Term freshLike(Type *t, const std::string &nm) { return freshVar(bitsOf(t), nm); }
    // an annotated loop: the invariant holds on entry, and the body preserves it from an arbitrary state that satisfies it
    void runCutLoop(Frame &f, Loop *L, Edge in, Outs &outs) {
        BasicBlock *H = L->getHeader();
        InvCtx save = inv;
        cutLoops++;
        auto header = [&](Edge e, InvCtx c) {
            inv = c;
            Outs dummy;
            runBlock(f, H, std::move(e), dummy);
            InvCtx r = inv;
            inv = save;
            return r;
        };
        InvCtx c0; c0.mode = InvCtx::CHECK; c0.entry = true;
        c0 = header(in, c0);
        // variables that live inside the loop only
        for (auto &kv : f.env)
            if (auto *A = dyn_cast<AllocaInst>(kv.first)) {
                if (L->contains(A->getParent())) continue;
                bool local = true;
                for (auto *U : A->users()) {
                    auto *I = dyn_cast<Instruction>(U);
                    if (!I || !L->contains(I->getParent())) local = false;
                }
                if (!local || kv.second.size() != 1) continue;
                auto l = resolve(kv.second[0]);
                if (l.size() == 1 && l[0].obj >= 0) c0.mods.push_back({l[0].obj, 0, objs[l[0].obj].size});
            }
        // havoc
        Edge h; h.from = nullptr; h.st = in.st;
        for (auto &phi : H->phis()) {
            if (leaves(phi.getType()) != 1) throw Unsupported("aggregate phi at an annotated loop");
            h.phis.push_back({freshLike(phi.getType(), "loop_" + phi.getName().str())});
        }
        for (auto &m : c0.mods) {
            Bytes &b = wr(h.st, m.obj);
            Term v = freshVar(m.len * 8, "loop_" + objs[m.obj].name.substr(0, 12));
            for (uint64_t i = 0; i < m.len; i++) b[m.off + i] = {v, (unsigned)i};
        }
        auto memStart = h.st.mem;
        std::vector<Edge> es; es.push_back(std::move(h));
        Outs o;
        inv = InvCtx(); inv.mode = InvCtx::ASSUME; inv.mods = c0.mods;
        runRegion(f, L, H, std::move(es), o);
        Term v0 = inv.variant;
        inv = save;
        for (auto &kv : o) {
            if (kv.first != H) { for (auto &e : kv.second) outs[kv.first].push_back(std::move(e)); continue; }
            Edge e = mergeAll(std::move(kv.second));
            // frame: nothing else was modified
            for (auto &m : memStart) {
                auto it = e.st.mem.find(m.first);
                if (it == e.st.mem.end() || it->second == m.second) continue;
                for (size_t i = 0; i < m.second->size(); i++) {
                    bool in = false;
                    for (auto &r : c0.mods) if (r.obj == m.first && i >= r.off && i < r.off + r.len) in = true;
                    if (in) continue;
                    Term a = loadConst(*m.second, i, 1), b = loadConst(*it->second, i, 1);
                    if (a != b) oblige(e.st, "invariant", "loop frame: " + objs[m.first].name + " is not modified", mkEq(a, b));
                }
            }
            InvCtx c1; c1.mode = InvCtx::CHECK; c1.mods = c0.mods; c1.variant = v0;
            header(std::move(e), c1);
        }
    }
    void runLoop(Frame &f, Loop *L, Edge in, Outs &outs) {
        BasicBlock *H = L->getHeader();
        if (!optInline && annotated(H)) { runCutLoop(f, L, std::move(in), outs); return; }
        std::vector<Edge> cur;
        cur.push_back(std::move(in));
        unsigned iter = 0;
        size_t basePc = cur[0].st.pc.size();
        std::vector<Term> entryPc = cur[0].st.pc;
        while (!cur.empty()) {
            checkTime();
            if (++iter > optMaxIter) throw Unsupported("loop iteration limit in " + f.F->getName().str());
            Outs o;
            runRegion(f, L, H, std::move(cur), o);
            cur.clear();
            for (auto &kv : o) {
                if (kv.first == H) {
                    Edge e = mergeAll(std::move(kv.second));
                    bool sym = e.st.pc.size() > basePc || (e.st.pc != entryPc);
                    if (sym && !feasible(e.st)) continue;
                    cur.push_back(std::move(e));
                } else for (auto &e : kv.second) outs[kv.first].push_back(std::move(e));
            }
        }
    }
    std::optional<std::pair<State, Val>> call(Function *F, std::vector<Val> args, State st) {
        if (depth > optMaxDepth) throw Unsupported("call depth limit in " + F->getName().str());
        if (depth > 40) {
            unsigned rec = 0;
            for (auto *fr : stack) if (fr->F == F) rec++;
            if (rec > 2 && !feasible(st)) return std::nullopt;
            if (rec > 300) throw Unsupported("recursion limit in " + F->getName().str());
        }
        executed.insert(F->getName().str());
        depth++;
        Frame f; f.F = F;
        stack.push_back(&f);
        unsigned i = 0;
        for (auto &a : F->args()) {
            Val v = args[i++];
            if (a.hasByValAttr()) {
                uint64_t sz = DL->getTypeAllocSize(a.getParamByValType());
                int id = newObj("byval", sz, ObjInfo::STACK, false);
                st.mem[id] = uninit(sz, "byval");
                f.allocas.push_back(id);
                writeCells(st, objs[id].base, readCells(st, v[0], sz));
                v = {objs[id].base};
            }
            f.env[&a] = v;
        }
        if (F->isVarArg()) throw Unsupported("vararg function " + F->getName().str());
        Outs outs;
        Edge e; e.from = nullptr; e.st = std::move(st);
        std::vector<Edge> in; in.push_back(std::move(e));
        auto *saveI = curI;
        runRegion(f, nullptr, &F->getEntryBlock(), std::move(in), outs);
        curI = saveI;
        stack.pop_back();
        depth--;
        if (f.rets.empty()) return std::nullopt;
        Edge r = mergeAll(std::move(f.rets));
        for (int id : f.allocas) r.st.mem.erase(id);
        Val v; if (!r.phis.empty()) v = r.phis[0];
        return std::make_pair(std::move(r.st), v);
    }
    static bool isTrapBlock(BasicBlock *B) {
        for (auto &I : *B) {
            if (I.isDebugOrPseudoInst()) continue;
            if (auto *II = dyn_cast<IntrinsicInst>(&I)) return II->getIntrinsicID() == Intrinsic::ubsantrap || II->getIntrinsicID() == Intrinsic::trap;
            return false;
        }
        return false;
    }
    static std::string trapKind(BasicBlock *B) {
        static const char *n[] = {"add-overflow", "builtin-unreachable", "cfi", "divrem-overflow", "dynamic-type-cache-miss", "float-cast-overflow", "function-type-mismatch", "implicit-conversion", "invalid-builtin", "invalid-objc-cast", "load-invalid-value", "missing-return", "mul-overflow", "negate-overflow", "nullability-arg", "nullability-return", "nonnull-arg", "nonnull-return", "out-of-bounds", "pointer-overflow", "shift-out-of-bounds", "sub-overflow", "type-mismatch", "alignment-assumption", "vla-bound"};
        for (auto &I : *B) if (auto *II = dyn_cast<IntrinsicInst>(&I)) if (II->getIntrinsicID() == Intrinsic::ubsantrap) {
            unsigned k = cast<ConstantInt>(II->getArgOperand(0))->getZExtValue();
            if (k < sizeof n / sizeof *n) return n[k];
        }
        return "trap";
    }
    void runBlock(Frame &f, BasicBlock *B, Edge in, Outs &outs) {
        State st = std::move(in.st);
        if (st.dead) return;
        size_t k = 0;
        for (auto &phi : B->phis()) f.env[&phi] = in.phis[k++];
        for (auto &I : *B) {
            if (isa<PHINode>(I)) continue;
            if (I.isDebugOrPseudoInst()) continue;
            curI = &I;
            if (optLines) if (auto *l = I.getDebugLoc().get()) seenLines.insert(l);
            if ((++steps & 1023) == 0) checkTime();
            if (I.isTerminator()) {
                if (auto *br = dyn_cast<BranchInst>(&I)) {
                    if (br->isUnconditional()) { pushEdge(f, outs, B, br->getSuccessor(0), std::move(st)); return; }
                    Term c = e1(f, st, br->getCondition());
                    branch(f, outs, B, c, br->getSuccessor(0), br->getSuccessor(1), std::move(st));
                    return;
                }
                if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                    Term v = e1(f, st, sw->getCondition());
                    for (auto &c : sw->cases()) {
                        Term eq = mkEq(v, mkConst(c.getCaseValue()->getValue()));
                        State s2 = st; s2.assume(eq);
                        pushEdge(f, outs, B, c.getCaseSuccessor(), std::move(s2));
                        st.assume(mkNot(eq));
                        if (st.dead) break;
                    }
                    pushEdge(f, outs, B, sw->getDefaultDest(), std::move(st));
                    return;
                }
                if (auto *r = dyn_cast<ReturnInst>(&I)) {
                    Edge e; e.from = B;
                    if (r->getReturnValue()) e.phis.push_back(ev(f, st, r->getReturnValue()));
                    e.st = std::move(st);
                    f.rets.push_back(std::move(e));
                    return;
                }
                if (isa<UnreachableInst>(I)) { oblige(st, "reach", "unreachable code is not reached", tFalse()); return; }
                throw Unsupported(std::string("terminator ") + I.getOpcodeName());
            }
            if (!step(f, st, I)) return;
            if (st.dead) return;
        }
    }
    void branch(Frame &f, Outs &outs, BasicBlock *B, Term c, BasicBlock *t, BasicBlock *e, State &&st) {
        for (auto p : st.pc) { if (p == c) { c = tTrue(); break; } if (p == mkNot(c)) { c = tFalse(); break; } }
        c = decide(st, c);
        if (isTrue(c)) { pushEdge(f, outs, B, t, std::move(st)); return; }
        if (isFalse(c)) { pushEdge(f, outs, B, e, std::move(st)); return; }
        if (isTrapBlock(e)) { oblige(st, "ub", "no " + trapKind(e), c); pushEdge(f, outs, B, t, std::move(st)); return; }
        if (isTrapBlock(t)) { oblige(st, "ub", "no " + trapKind(t), mkNot(c)); pushEdge(f, outs, B, e, std::move(st)); return; }
        State s2 = st;
        s2.assume(c);
        pushEdge(f, outs, B, t, std::move(s2));
        st.assume(mkNot(c));
        pushEdge(f, outs, B, e, std::move(st));
    }
    static double asD(Term t) { if (!isC(t)) throw Unsupported("symbolic floating point"); if (t->w == 64) return t->c.bitsToDouble(); return t->c.bitsToFloat(); }
    static Term mkD(Type *ty, double d) { return ty->isDoubleTy() ? mkConst(APInt::doubleToBits(d)) : mkConst(APInt::floatToBits((float)d)); }

    bool step(Frame &f, State &st, Instruction &I) {
        auto set = [&](Term t) { f.env[&I] = Val{t}; };
        if (auto *A = dyn_cast<AllocaInst>(&I)) {
            Term n = e1(f, st, A->getArraySize());
            if (!isC(n)) throw Unsupported("vla");
            uint64_t sz = DL->getTypeAllocSize(A->getAllocatedType()) * n->c.getZExtValue();
            int id = newObj(A->getName().str() + "@" + f.F->getName().str().substr(0, 40), sz, ObjInfo::STACK, false);
            st.mem[id] = uninit(sz, A->getName().str());
            f.allocas.push_back(id);
            set(objs[id].base);
            return true;
        }
        if (auto *Ld = dyn_cast<LoadInst>(&I)) {
            Term p = e1(f, st, Ld->getPointerOperand());
            f.env[&I] = loadTy(st, p, Ld->getType());
            return true;
        }
        if (auto *S = dyn_cast<StoreInst>(&I)) {
            Term p = e1(f, st, S->getPointerOperand());
            Val v = ev(f, st, S->getValueOperand());
            unsigned k = 0;
            storeTy(st, p, S->getValueOperand()->getType(), v, k);
            return true;
        }
        if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
            Term p = e1(f, st, G->getPointerOperand());
            for (auto it = gep_type_begin(G), en = gep_type_end(G); it != en; ++it) {
                if (auto *STy = it.getStructTypeOrNull()) {
                    unsigned fld = cast<ConstantInt>(it.getOperand())->getZExtValue();
                    p = mkAdd(p, mkConst(64, DL->getStructLayout(STy)->getElementOffset(fld)));
                } else {
                    Term ix = e1(f, st, it.getOperand());
                    ix = ix->w < 64 ? mkSExt(ix, 64) : mkTrunc(ix, 64);
                    uint64_t es = DL->getTypeAllocSize(it.getIndexedType());
                    p = mkAdd(p, lcv::mkMul(ix, mkConst(64, es)));
                }
            }
            set(p);
            return true;
        }
        if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
            Term a = e1(f, st, BO->getOperand(0)), b = e1(f, st, BO->getOperand(1));
            auto nz = [&] { oblige(st, "ub", "divisor is not zero", mkNot(mkEq(b, mkConst(b->w, 0)))); };
            switch (BO->getOpcode()) {
                case Instruction::Add: set(mkAdd(a, b)); break;
                case Instruction::Sub: set(mkSub(a, b)); break;
                case Instruction::Mul: set(lcv::mkMul(a, b)); break;
                case Instruction::UDiv: nz(); set(lcv::mkUDiv(a, b)); break;
                case Instruction::URem: nz(); set(lcv::mkURem(a, b)); break;
                case Instruction::SDiv: nz(); set(lcv::mkSDiv(a, b)); break;
                case Instruction::SRem: nz(); set(lcv::mkSRem(a, b)); break;
                case Instruction::And: set(mkAnd(a, b)); break;
                case Instruction::Or: set(mkOr(a, b)); break;
                case Instruction::Xor: set(lcv::mkXor(a, b)); break;
                case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
                    Term ok = mkUlt(b, mkConst(APInt(std::max(b->w, 16u), b->w < 16 ? std::min<uint64_t>(a->w, (1ull << b->w)) : a->w).trunc(b->w)));
                    if (b->w < 16 && (1ull << b->w) <= a->w) ok = tTrue();
                    oblige(st, "ub", "shift amount below the width of the shifted type", ok);
                    set(BO->getOpcode() == Instruction::Shl ? lcv::mkShl(a, b) : BO->getOpcode() == Instruction::LShr ? lcv::mkLShr(a, b) : lcv::mkAShr(a, b));
                    break;
                }
                case Instruction::FAdd: set(mkD(I.getType(), asD(a) + asD(b))); break;
                case Instruction::FSub: set(mkD(I.getType(), asD(a) - asD(b))); break;
                case Instruction::FMul: set(mkD(I.getType(), asD(a) * asD(b))); break;
                case Instruction::FDiv: set(mkD(I.getType(), asD(a) / asD(b))); break;
                default: throw Unsupported(std::string("binop ") + I.getOpcodeName());
            }
            return true;
        }
        if (auto *C = dyn_cast<ICmpInst>(&I)) {
            Term a = e1(f, st, C->getOperand(0)), b = e1(f, st, C->getOperand(1));
            set(icmp(C->getPredicate(), a, b));
            return true;
        }
        if (auto *C = dyn_cast<FCmpInst>(&I)) {
            double a = asD(e1(f, st, C->getOperand(0))), b = asD(e1(f, st, C->getOperand(1)));
            bool r;
            switch (C->getPredicate()) {
                case CmpInst::FCMP_OEQ: r = a == b; break;
                case CmpInst::FCMP_UNE: case CmpInst::FCMP_ONE: r = a != b; break;
                case CmpInst::FCMP_OLT: r = a < b; break;
                case CmpInst::FCMP_OLE: r = a <= b; break;
                case CmpInst::FCMP_OGT: r = a > b; break;
                case CmpInst::FCMP_OGE: r = a >= b; break;
                default: throw Unsupported("fcmp");
            }
            set(mkConst(1, r));
            return true;
        }
        if (auto *C = dyn_cast<CastInst>(&I)) {
            Term a = e1(f, st, C->getOperand(0));
            switch (C->getOpcode()) {
                case Instruction::Trunc: set(mkTrunc(a, bitsOf(I.getType()))); break;
                case Instruction::ZExt: set(mkZExt(a, bitsOf(I.getType()))); break;
                case Instruction::SExt: set(mkSExt(a, bitsOf(I.getType()))); break;
                case Instruction::PtrToInt: { unsigned w = bitsOf(I.getType()); set(w <= 64 ? mkTrunc(a, w) : mkZExt(a, w)); break; }
                case Instruction::IntToPtr: set(a->w < 64 ? mkZExt(a, 64) : mkTrunc(a, 64)); break;
                case Instruction::BitCast: set(a); break;
                case Instruction::UIToFP: { if (!isC(a)) throw Unsupported("symbolic floating point"); set(mkD(I.getType(), a->c.roundToDouble(false))); break; }
                case Instruction::SIToFP: { if (!isC(a)) throw Unsupported("symbolic floating point"); set(mkD(I.getType(), a->c.roundToDouble(true))); break; }
                case Instruction::FPToUI: case Instruction::FPToSI: { double d = asD(a); set(mkConst(APInt(bitsOf(I.getType()), (uint64_t)(int64_t)d, true))); break; }
                case Instruction::FPExt: case Instruction::FPTrunc: set(mkD(I.getType(), asD(a))); break;
                default: throw Unsupported(std::string("cast ") + I.getOpcodeName());
            }
            return true;
        }
        if (auto *S = dyn_cast<SelectInst>(&I)) {
            Term c = e1(f, st, S->getCondition());
            Val a = ev(f, st, S->getTrueValue()), b = ev(f, st, S->getFalseValue()), r;
            for (size_t i = 0; i < a.size(); i++) r.push_back(mkIte(c, a[i], b[i]));
            f.env[&I] = r;
            return true;
        }
        if (auto *F = dyn_cast<FreezeInst>(&I)) { f.env[&I] = ev(f, st, F->getOperand(0)); return true; }
        if (auto *E = dyn_cast<ExtractValueInst>(&I)) {
            Val a = ev(f, st, E->getAggregateOperand());
            unsigned lo = leafIndex(E->getAggregateOperand()->getType(), E->getIndices());
            f.env[&I] = Val(a.begin() + lo, a.begin() + lo + leaves(I.getType()));
            return true;
        }
        if (auto *E = dyn_cast<InsertValueInst>(&I)) {
            Val a = ev(f, st, E->getAggregateOperand());
            Val v = ev(f, st, E->getInsertedValueOperand());
            unsigned lo = leafIndex(E->getAggregateOperand()->getType(), E->getIndices());
            for (size_t i = 0; i < v.size(); i++) a[lo + i] = v[i];
            f.env[&I] = a;
            return true;
        }
        if (auto *C = dyn_cast<CallInst>(&I)) return doCall(f, st, *C);
        if (auto *U = dyn_cast<UnaryOperator>(&I)) { if (U->getOpcode() == Instruction::FNeg) { set(mkD(I.getType(), -asD(e1(f, st, U->getOperand(0))))); return true; } }
        throw Unsupported(std::string("instruction ") + I.getOpcodeName());
    }
    unsigned leafIndex(Type *t, ArrayRef<unsigned> idx) {
        unsigned lo = 0;
        for (unsigned i : idx) {
            if (auto *S = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) lo += leaves(S->getElementType(j)); t = S->getElementType(i); }
            else { auto *A = cast<ArrayType>(t); lo += i * leaves(A->getElementType()); t = A->getElementType(); }
        }
        return lo;
    }
    Val loadTy(State &st, Term p, Type *t) {
        if (auto *S = dyn_cast<StructType>(t)) {
            Val r; auto *SL = DL->getStructLayout(S);
            for (unsigned i = 0; i < S->getNumElements(); i++) for (auto x : loadTy(st, mkAdd(p, mkConst(64, SL->getElementOffset(i))), S->getElementType(i))) r.push_back(x);
            return r;
        }
        if (auto *A = dyn_cast<ArrayType>(t)) {
            Val r; uint64_t es = DL->getTypeAllocSize(A->getElementType());
            for (unsigned i = 0; i < A->getNumElements(); i++) for (auto x : loadTy(st, mkAdd(p, mkConst(64, es * i)), A->getElementType())) r.push_back(x);
            return r;
        }
        unsigned w = bitsOf(t);
        return {mkTrunc(load(st, p, (w + 7) / 8), w)};
    }
    void storeTy(State &st, Term p, Type *t, const Val &v, unsigned &k) {
        if (auto *S = dyn_cast<StructType>(t)) {
            auto *SL = DL->getStructLayout(S);
            for (unsigned i = 0; i < S->getNumElements(); i++) storeTy(st, mkAdd(p, mkConst(64, SL->getElementOffset(i))), S->getElementType(i), v, k);
            return;
        }
        if (auto *A = dyn_cast<ArrayType>(t)) {
            uint64_t es = DL->getTypeAllocSize(A->getElementType());
            for (unsigned i = 0; i < A->getNumElements(); i++) storeTy(st, mkAdd(p, mkConst(64, es * i)), A->getElementType(), v, k);
            return;
        }
        Term x = v[k++];
        store(st, p, mkZExt(x, (x->w + 7) / 8 * 8));
    }
    Term icmp(CmpInst::Predicate p, Term a, Term b) {
        bool pa = hasBase(a), pb = hasBase(b);
        if (pa || pb) {
            Term r = ptrEq(a, b, p);
            if (r) return r;
        }
        switch (p) {
            case CmpInst::ICMP_EQ: return mkEq(a, b);
            case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
            case CmpInst::ICMP_ULT: return mkUlt(a, b);
            case CmpInst::ICMP_ULE: return mkUle(a, b);
            case CmpInst::ICMP_UGT: return mkUlt(b, a);
            case CmpInst::ICMP_UGE: return mkUle(b, a);
            case CmpInst::ICMP_SLT: return lcv::mkSlt(a, b);
            case CmpInst::ICMP_SLE: return lcv::mkSle(a, b);
            case CmpInst::ICMP_SGT: return lcv::mkSlt(b, a);
            case CmpInst::ICMP_SGE: return lcv::mkSle(b, a);
            default: throw Unsupported("icmp");
        }
    }
    // pointer comparison by case analysis on the objects pointed to (assumes offsets within [0, size])
    Term ptrEq(Term a, Term b, CmpInst::Predicate p) {
        auto la = resolve(a), lb = resolve(b);
        Term r = tFalse();
        for (auto &x : la) for (auto &y : lb) {
            Term c = mkAnd(x.cond, y.cond);
            if (isFalse(c)) continue;
            Term q;
            if (x.obj >= 0 && x.obj == y.obj) q = icmp(p, x.off, y.off);
            else if (x.obj < 0 && y.obj < 0) q = icmp(p, x.off, y.off);
            else if (p == CmpInst::ICMP_EQ) q = tFalse();
            else if (p == CmpInst::ICMP_NE) q = tTrue();
            else throw Unsupported("relational comparison of pointers to different objects");
            r = mkOr(r, mkAnd(c, q));
        }
        return r;
    }
    Term popcnt(Term a) {
        Term r = mkConst(a->w, 0);
        for (unsigned i = 0; i < a->w; i++) r = mkAdd(r, mkZExt(mkExtract(a, i, i), a->w));
        return r;
    }
    Term clz(Term a, bool trail) {
        Term r = mkConst(a->w, a->w);
        for (unsigned i = 0; i < a->w; i++) {
            // last write wins: highest set bit for clz, lowest for ctz
            unsigned bit = trail ? a->w - 1 - i : i;
            r = mkIte(mkExtract(a, bit, bit), mkConst(a->w, trail ? bit : a->w - 1 - bit), r);
        }
        return r;
    }
    bool doCall(Frame &f, State &st, CallInst &C) {
        auto set = [&](Term t) { f.env[&C] = Val{t}; };
        Function *F = C.getCalledFunction();
        if (!F) {
            if (C.isInlineAsm()) throw Unsupported("inline asm");
            Term p = e1(f, st, C.getCalledOperand());
            auto ls = resolve(p);
            if (ls.size() != 1 || ls[0].obj < 0 || !objs[ls[0].obj].fn) throw Unsupported("indirect call");
            F = objs[ls[0].obj].fn;
        }
        if (auto *II = dyn_cast<IntrinsicInst>(&C)) {
            auto arg = [&](unsigned i) { return e1(f, st, C.getArgOperand(i)); };
            auto pr = [&](Term v, Term o) { f.env[&C] = Val{v, o}; };
            switch (II->getIntrinsicID()) {
                case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
                    Term n = arg(2);
                    if (!isC(n)) throw Unsupported("memcpy of symbolic length");
                    writeCells(st, arg(0), readCells(st, arg(1), n->c.getZExtValue()));
                    return true;
                }
                case Intrinsic::memset: {
                    Term n = arg(2), v = arg(1);
                    if (!isC(n)) throw Unsupported("memset of symbolic length");
                    writeCells(st, arg(0), std::vector<Cell>(n->c.getZExtValue(), Cell{v, 0}));
                    return true;
                }
                case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
                case Intrinsic::experimental_noalias_scope_decl: return true;
                case Intrinsic::expect: set(arg(0)); return true;
                case Intrinsic::is_constant: set(tFalse()); return true;
                case Intrinsic::ctpop: set(popcnt(arg(0))); return true;
                case Intrinsic::ctlz: case Intrinsic::cttz: {
                    if (isTrue(arg(1))) oblige(st, "ub", "count of leading/trailing zeros of zero", mkNot(mkEq(arg(0), mkConst(arg(0)->w, 0))));
                    set(clz(arg(0), II->getIntrinsicID() == Intrinsic::cttz));
                    return true;
                }
                case Intrinsic::umax: set(mkIte(mkUlt(arg(0), arg(1)), arg(1), arg(0))); return true;
                case Intrinsic::umin: set(mkIte(mkUlt(arg(0), arg(1)), arg(0), arg(1))); return true;
                case Intrinsic::smax: set(mkIte(lcv::mkSlt(arg(0), arg(1)), arg(1), arg(0))); return true;
                case Intrinsic::smin: set(mkIte(lcv::mkSlt(arg(0), arg(1)), arg(0), arg(1))); return true;
                case Intrinsic::abs: set(mkIte(lcv::mkSlt(arg(0), mkConst(arg(0)->w, 0)), lcv::mkNeg(arg(0)), arg(0))); return true;
                case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
                    Term a = arg(0), b = arg(1); unsigned w = a->w;
                    bool add = II->getIntrinsicID() == Intrinsic::sadd_with_overflow;
                    Term r = add ? mkAdd(a, b) : mkSub(a, b);
                    Term wa = mkSExt(a, w + 1), wb = mkSExt(b, w + 1);
                    Term wr = add ? mkAdd(wa, wb) : mkSub(wa, wb);
                    pr(r, lcv::mkXor(mkExtract(wr, w, w), mkExtract(wr, w - 1, w - 1)));
                    if (isC(a) && isC(b)) return true;
                    return true;
                }
                case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: {
                    Term a = arg(0), b = arg(1);
                    if (II->getIntrinsicID() == Intrinsic::uadd_with_overflow) { Term r = mkAdd(a, b); pr(r, mkUlt(r, a)); }
                    else pr(mkSub(a, b), mkUlt(a, b));
                    return true;
                }
                case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
                    Term a = arg(0), b = arg(1); unsigned w = a->w;
                    bool s = II->getIntrinsicID() == Intrinsic::smul_with_overflow;
                    Term wr = lcv::mkMul(s ? mkSExt(a, 2 * w) : mkZExt(a, 2 * w), s ? mkSExt(b, 2 * w) : mkZExt(b, 2 * w));
                    Term r = lcv::mkMul(a, b);
                    Term back = s ? mkSExt(mkTrunc(wr, w), 2 * w) : mkZExt(mkTrunc(wr, w), 2 * w);
                    pr(r, mkNot(mkEq(back, wr)));
                    return true;
                }
                case Intrinsic::fshl: case Intrinsic::fshr: throw Unsupported("funnel shift");
                case Intrinsic::ubsantrap: oblige(st, "ub", "no " + trapKind(C.getParent()), tFalse()); st.dead = true; return false;
                case Intrinsic::trap: oblige(st, "ub", "trap not reached", tFalse()); st.dead = true; return false;
                case Intrinsic::ceil: set(mkD(C.getType(), std::ceil(asD(arg(0))))); return true;
                case Intrinsic::floor: set(mkD(C.getType(), std::floor(asD(arg(0))))); return true;
                case Intrinsic::fmuladd: set(mkD(C.getType(), asD(arg(0)) * asD(arg(1)) + asD(arg(2)))); return true;
                default: throw Unsupported("intrinsic " + F->getName().str());
            }
        }
        std::string nm = F->getName().str();
        std::vector<Val> args;
        for (auto &a : C.args()) args.push_back(ev(f, st, a.get()));
        if (nm == "vp_sym") {
            std::string name = readCStr(st, args[2][0]);
            if (!isC(args[1][0])) throw Unsupported("symbolic width");
            unsigned bits = args[1][0]->c.getZExtValue();
            if (name[0] == '*') {  // an arbitrary value, not an input of the unit
                store(st, args[0][0], mkZExt(freshVar(bits, name.substr(1)), (bits + 7) / 8 * 8));
                return true;
            }
            Term v = mkVar(bits, name);
            bool known = false;
            for (auto &s : syms) if (s.name == name) known = true;
            if (known) throw Unsupported("duplicate symbol " + name);
            syms.push_back({name, bits});
            store(st, args[0][0], mkZExt(v, (bits + 7) / 8 * 8));
            return true;
        }
        if (nm == "vp_assume") { st.assume(args[0][0]); return !st.dead; }
        if (nm == "vp_assert") { oblige(st, "post", readCStr(st, args[1][0]), args[0][0]); return true; }
        if (nm == "vp_requires") { oblige(st, "pre", readCStr(st, args[1][0]), args[0][0]); st.assume(args[0][0]); return !st.dead; }
        if (nm == "vp_invariant") {
            if (inv.mode == InvCtx::CHECK) {
                oblige(st, "invariant", std::string(inv.entry ? "on entry: " : "preserved: ") + readCStr(st, args[1][0]), args[0][0]);
                st.assume(args[0][0]);  // for the clauses after it
            } else if (inv.mode == InvCtx::ASSUME) st.assume(args[0][0]);
            return !st.dead;
        }
        if (nm == "vp_variant") {
            if (inv.mode == InvCtx::ASSUME) inv.variant = args[0][0];
            else if (inv.mode == InvCtx::CHECK && !inv.entry) oblige(st, "invariant", "the loop variant decreases", inv.variant ? mkUlt(args[0][0], inv.variant) : tFalse());
            return true;
        }
        if (nm == "vp_modifies") {
            if (inv.mode == InvCtx::CHECK && inv.entry) {
                auto l = resolve(args[0][0]);
                if (l.size() != 1 || l[0].obj < 0 || !isC(l[0].off) || !isC(args[1][0])) throw Unsupported("vp_modifies of a symbolic location");
                inv.mods.push_back({l[0].obj, l[0].off->c.getZExtValue(), args[1][0]->c.getZExtValue()});
                if (inv.mods.back().off + inv.mods.back().len > objs[l[0].obj].size) throw Unsupported("vp_modifies out of bounds");
            }
            return true;
        }
        if (nm == "vp_cut") { set(mkConst(1, optInline ? 0 : 1)); return true; }
        if (nm == "vp_uf") {
            // vp_uf(name, in, inbits, out, outbits): an uninterpreted function of the input
            if (!isC(args[2][0]) || !isC(args[4][0])) throw Unsupported("vp_uf width");
            unsigned ib = args[2][0]->c.getZExtValue(), ob = args[4][0]->c.getZExtValue();
            Term x = mkTrunc(load(st, args[1][0], (ib + 7) / 8), ib);
            store(st, args[3][0], mkZExt(lcv::mkUF(readCStr(st, args[0][0]) + "_" + std::to_string(ib) + "_" + std::to_string(ob), ob, {x}), (ob + 7) / 8 * 8));
            return true;
        }
        if (nm == "vp_use") {
            if (optInline) return true;
            auto a = resolve(args[0][0]), b = resolve(args[1][0]);
            if (a.size() != 1 || b.size() != 1 || a[0].obj < 0 || b[0].obj < 0 || !objs[a[0].obj].fn || !objs[b[0].obj].fn) throw Unsupported("vp_use arguments");
            Function *from = objs[a[0].obj].fn, *to = objs[b[0].obj].fn;
            if (from->getFunctionType() != to->getFunctionType() && from->arg_size() != to->arg_size()) throw Unsupported("contract signature mismatch for " + from->getName().str());
            repl[from] = to;
            return true;
        }
        if (nm == "vp_unuse") { repl.clear(); return true; }
        if (nm == "vp_symbolic") { set(tTrue()); return true; }
        if (nm == "_Znwm" || nm == "_Znam" || nm == "malloc") {
            Term n = args[0][0];
            if (!isC(n)) throw Unsupported("allocation of symbolic size");
            int id = newObj("heap", n->c.getZExtValue(), ObjInfo::HEAP, false);
            st.mem[id] = uninit(n->c.getZExtValue(), "heap");
            set(objs[id].base);
            return true;
        }
        if (nm == "_ZdlPv" || nm == "_ZdlPvm" || nm == "_ZdaPv" || nm == "free") return true;
        if (nm == "memcmp" || nm == "bcmp") {
            Term n = args[2][0];
            if (!isC(n)) throw Unsupported("memcmp of symbolic length");
            unsigned k = n->c.getZExtValue();
            if (!k) { set(mkConst(32, 0)); return true; }
            Term r = mkConst(32, 0);
            for (unsigned i = k; i-- > 0;) {
                Term x = load(st, mkAdd(args[0][0], mkConst(64, i)), 1), y = load(st, mkAdd(args[1][0], mkConst(64, i)), 1);
                r = mkIte(mkEq(x, y), r, mkIte(mkUlt(x, y), mkConst(APInt(32, -1, true)), mkConst(32, 1)));
            }
            set(r);
            return true;
        }
        if (nm == "strlen") { std::string s = readCStr(st, args[0][0]); set(mkConst(64, s.size())); return true; }
        if (nm == "ceil") { set(mkD(C.getType(), std::ceil(asD(args[0][0])))); return true; }
        if (nm == "__cxa_guard_acquire") { Term g = load(st, args[0][0], 1); set(mkZExt(mkEq(g, mkConst(8, 0)), 32)); return true; }
        if (nm == "__cxa_guard_release") { store(st, args[0][0], mkConst(8, 1)); return true; }
        if (nm == "__cxa_atexit") { set(mkConst(32, 0)); return true; }
        auto rp = repl.find(F);
        if (rp != repl.end()) {
            usedContracts.insert(nm);
            F = rp->second;
        }
        if (F->isDeclaration()) {
            if (nm.find("__throw_") != std::string::npos || nm == "abort" || nm == "_ZSt9terminatev" || nm == "__assert_fail" || nm.find("__glibcxx_assert") != std::string::npos) {
                oblige(st, "ub", "no call of " + nm, tFalse());
                st.dead = true;
                return false;
            }
            external.insert(nm);
            throw Unsupported("call of external function " + nm);
        }
        auto save = &C;
        auto r = call(F, args, std::move(st));
        curI = save;
        if (!r) { st.dead = true; return false; }
        st = std::move(r->first);
        f.env[&C] = r->second;
        return true;
    }
};

// ------------------------------------------------------------------------------------------------
static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

static void verifyUnit(Function *F, std::ostream &out) {
    double t0 = now();
    auto s0 = gStats;
    Exec ex;
    ex.deadline = t0 + optUnitTimeout;
    std::string status = "proved", reason;
    bool finished = false;
    std::vector<Term> finalPc;
    try {
        State st;
        auto r = ex.call(F, {}, std::move(st));
        finished = r.has_value();
        if (finished) finalPc = r->first.pc;
    } catch (Unsupported &e) { status = "error"; reason = e.what(); reason += " at " + ex.locStr(); }
    double tExec = now() - t0;
    unsigned smt = 0, failed = 0, unknown = 0;
    std::vector<std::pair<Oblig *, SolveRes>> bad;
    std::string cover = "n/a";
    if (status != "error") {
        // deduplicate
        std::map<Term, Oblig *> uniq;
        std::vector<std::pair<Term, Oblig *>> goals;
        for (auto &o : ex.obligs) {
            Term g = mkNot(o.cond);
            for (size_t i = o.pc.size(); i-- > 0;) g = mkAnd(o.pc[i], g);
            if (isFalse(g)) { ex.trivially++; ex.trivKinds[o.kind]++; continue; }
            if (uniq.count(g)) { smt++; continue; }
            uniq[g] = &o;
            goals.push_back({g, &o});
        }
        auto left = [&] { return std::max(1.0, t0 + optUnitTimeout - now()); };
        if (!goals.empty()) {
            bool done = false;
            if (goals.size() > 1 && !ex.cutLoops) {
                Term any = tFalse();
                for (auto &g : goals) any = mkOr(any, g.first);
                auto r = solve({any}, std::min(optQueryTimeout, left()), false, false);
                if (r.r == SolveRes::UNSAT) { smt += goals.size(); done = true; }
            }
            if (!done) for (auto &g : goals) {
                if (now() > t0 + optUnitTimeout) { unknown++; bad.push_back({g.second, SolveRes()}); continue; }
                if ((ex.cutLoops || getenv("LCV_SPLIT")) && provedBySplitting({g.first}, g.second->cond, std::min(optQueryTimeout, left()))) { smt++; continue; }
                auto r = solve({g.first}, std::min(optQueryTimeout, left()), true);
                if (r.r == SolveRes::UNSAT) smt++;
                else if (r.r == SolveRes::SAT) {
                    failed++; bad.push_back({g.second, r});
                    if (failed >= 3) break;
                } else { unknown++; bad.push_back({g.second, r}); }
            }
        }
        if (failed) status = "failed";
        else if (unknown) { status = "unknown"; }
        // vacuity: the end of the harness must be reachable
        if (!finished) cover = "unreachable";
        else if (finalPc.empty()) cover = "reached";
        else {
            auto r = solve(finalPc, optQueryTimeout, false);
            cover = r.r == SolveRes::UNSAT ? "unreachable" : r.r == SolveRes::SAT ? "reached" : "unknown";
        }
        if (status == "proved" && cover == "unreachable") { status = "vacuous"; }
        if (status == "proved" && ex.trivially + smt == 0) status = "vacuous";
    }
    out << "{\"unit\":" << jstr(F->getName().str()) << ",\"status\":" << jstr(status) << ",\"mode\":" << jstr(optInline ? "inline" : "modular")
        << ",\"reason\":" << jstr(reason) << ",\"cover\":" << jstr(cover) << ",\"obligations\":" << (ex.trivially + smt + failed + unknown)
        << ",\"by_normalisation\":" << ex.trivially << ",\"by_smt\":" << smt << ",\"failed\":" << failed << ",\"unknown\":" << unknown
        << ",\"exec_s\":" << tExec << ",\"solver_s\":" << (gStats.time - s0.time) << ",\"queries\":" << (gStats.queries - s0.queries)
        << ",\"wall_s\":" << (now() - t0);
    out << ",\"solvers\":{";
    bool first = true;
    for (auto &kv : gStats.unsatBy) { unsigned d = kv.second - (s0.unsatBy.count(kv.first) ? s0.unsatBy[kv.first] : 0); if (!d) continue; out << (first ? "" : ",") << jstr(kv.first) << ":" << d; first = false; }
    out << "},\"functions\":[";
    first = true;
    for (auto &n : ex.executed) { if (n.rfind("vp", 0) == 0) continue; if (n.find("5logic") == std::string::npos) continue; out << (first ? "" : ",") << jstr(n); first = false; }
    out << "],\"contracts_used\":[";
    first = true;
    for (auto &n : ex.usedContracts) { out << (first ? "" : ",") << jstr(n); first = false; }
    out << "],\"syms\":{";
    first = true;
    for (auto &s : ex.syms) { out << (first ? "" : ",") << jstr(s.name) << ":" << s.bits; first = false; }
    out << "},\"bad\":[";
    first = true;
    for (auto &b : bad) {
        out << (first ? "" : ",") << "{\"kind\":" << jstr(b.first->kind) << ",\"clause\":" << jstr(b.first->clause) << ",\"loc\":" << jstr(b.first->loc)
            << ",\"result\":" << jstr(b.second.r == SolveRes::SAT ? "sat" : "unknown") << ",\"model\":{";
        bool f2 = true;
        if (b.second.r == SolveRes::SAT) for (auto &s : ex.syms) {
            APInt v(s.bits, 0);
            auto it = b.second.model.find(s.name);
            if (it != b.second.model.end()) v = it->second;
            SmallString<64> str; v.toString(str, 16, false);
            out << (f2 ? "" : ",") << jstr(s.name) << ":" << jstr(std::string(str.str())); f2 = false;
        }
        out << "}}";
        first = false;
    }
    out << "]}" << std::endl;
    if (optVerbose) {
        fprintf(stderr, "%s: %s %s  obl=%u triv=%u smt=%u failed=%u unknown=%u exec=%.2fs total=%.2fs\n", F->getName().str().c_str(), status.c_str(), reason.c_str(), ex.trivially + smt + failed + unknown, ex.trivially, smt, failed, unknown, tExec, now() - t0);
        for (auto &b : bad) {
            fprintf(stderr, "   %s: %s [%s] %s\n", b.second.r == SolveRes::SAT ? "FAILED" : "UNKNOWN", b.first->clause.c_str(), b.first->kind.c_str(), b.first->loc.c_str());
            for (auto &s : ex.syms) { auto it = b.second.model.find(s.name); if (it != b.second.model.end()) { SmallString<64> str; it->second.toString(str, 16, false); fprintf(stderr, "      %s = %s\n", s.name.c_str(), std::string(str.str()).c_str()); } }
        }
    }
}

int main(int argc, char **argv) {
    signal(SIGPIPE, SIG_IGN);
    std::string file, outp, units = ".*", list;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&] { return std::string(argv[++i]); };
        if (a == "-o") outp = val();
        else if (a == "--units") units = val();
        else if (a == "--inline") optInline = true;
        else if (a == "-v") optVerbose = true;
        else if (a == "--query-timeout") optQueryTimeout = std::stod(val());
        else if (a == "--unit-timeout") optUnitTimeout = std::stod(val());
        else if (a == "--dump") optDumpDir = val();
        else file = a;
    }
    LLVMContext ctx;
    SMDiagnostic err;
    auto m = parseIRFile(file, err, ctx);
    if (!m) { err.print("lcv", errs()); return 2; }
    M = m.get(); DL = &M->getDataLayout();
    std::ofstream fo;
    if (!outp.empty()) fo.open(outp);
    std::ostream &out = outp.empty() ? std::cout : fo;
    std::regex re(units);
    for (auto &F : *M) {
        if (F.isDeclaration() || !F.getName().starts_with("vph_")) continue;
        if (!std::regex_match(F.getName().str(), re)) continue;
        verifyUnit(&F, out);
    }
    out.flush();
    if (optLines) if (FILE *f = fopen(optLines, "a")) {
        std::set<std::string> ls;
        for (auto *l : seenLines) ls.insert(l->getFilename().str() + ":" + std::to_string(l->getLine()) + "\n");
        std::string all;
        for (auto &x : ls) if (x.find("logic/") != std::string::npos || x.find("src/") != std::string::npos) all += x;
        fputs(all.c_str(), f);
        fclose(f);
    }
    _exit(0);
}
