// msym - a small forking symbolic executor for LLVM bitcode, deciding branches and assertions with Z3.
//
// Values are concrete machine words, or symbolic in one of two encodings:
//   * guarded value tables (a multi-valued decision diagram whose leaves are machine words, over finite input choices):
//     every operation, including IEEE arithmetic and libm calls, is applied to the leaves with the host's own
//     arithmetic, so the encoding is exact; a condition over such values becomes a formula over the choice variables;
//   * Z3 bit-vector / floating-point terms, for inputs whose domain is large.
// Every branch whose condition is symbolic is put to the solver (both sides), and the process forks when both are
// satisfiable.  Memory is a set of objects with bounds, lifetime and per-byte initialisation state.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <z3++.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <semaphore.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <cmath>
#include <cstring>
#include <ctime>
#include <functional>
#include <map>
#include <unordered_map>
#include <set>
#include <string>
#include <vector>
#include <memory>
#include <algorithm>
#include <atomic>
using namespace llvm;

static z3::context *Z;
static z3::solver *S;
static std::vector<z3::expr> *asserted;
static void addS(const z3::expr &e) { asserted->push_back(e); S->add(e); }
// finite-domain solver until a floating-point unknown appears
static void need_general_solver()
{
    static bool done = false;
    if (done) return;
    done = true;
    S = new z3::solver(*Z);
    for (auto &e : *asserted) S->add(e);
}
static const DataLayout *DL;

// ---------------------------------------------------------------- shared statistics
struct Shared {
    std::atomic<long> paths, killed, forks, queries, asserts, fails, instrs, timeouts, unsupported, assumed_out, samples;
    std::atomic<long> solver_us;
    sem_t slots;
};
static Shared *SH;
static int OUTFD;
static double DEADLINE;
static long MAXINSTR = 200000000;
static int MAXFAIL = 12;
static long MAXNODES = 400000;
static long MAXSAMPLES = 6;
static bool OPT_OVERFLOW = true;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static void emit(const std::string &s) { std::string t = s + "\n"; if (write(OUTFD, t.data(), t.size()) < 0) {} }
static long instrs = 0;

static std::vector<pid_t> kids;
static bool own_slot = true;
static void finish(int code)
{
    SH->instrs += instrs;
    // let the children use this core before waiting for them
    sem_post(&SH->slots);
    for (pid_t p : kids) {
        int st; waitpid(p, &st, 0);
        if (WIFSIGNALED(st)) { SH->unsupported++; emit("UNSUPPORTED\tworker died on signal " + std::to_string(WTERMSIG(st)) + "\t"); }
    }
    if (!own_slot) sem_wait(&SH->slots);    // hand the borrowed slot back to the waiting parent
    _exit(code);
}
static const char *curloc();
static void unsupported(const std::string &what)
{
    SH->unsupported++;
    emit("UNSUPPORTED\t" + what + "\t" + curloc());
    finish(0);
}

// ---------------------------------------------------------------- values
struct V { uint8_t k = 0; uint8_t undef = 0; uint64_t c = 0; };   // k: 0 concrete, 1 table (c = node), 2 z3 (c = pool index)
static V C(uint64_t x) { V v; v.c = x; return v; }
static std::vector<z3::expr> pool;
static V Zv(z3::expr e) { V v; v.k = 2; v.c = pool.size(); pool.push_back(e); return v; }

enum TK { TI, TF, TD, TP, TX };
struct Ty { TK t; unsigned w; };
static Ty tyof(Type *t)
{
    if (t->isIntegerTy()) return {TI, t->getIntegerBitWidth()};
    if (t->isFloatTy()) return {TF, 32};
    if (t->isDoubleTy()) return {TD, 64};
    if (t->isPointerTy()) return {TP, 64};
    if (t->isX86_FP80Ty()) return {TX, 128};   // long double is computed in double precision storage: flagged unsupported on use
    return {TI, 0};
}
static uint64_t mask(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static int64_t sx(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ULL << (w - 1); v &= mask(w); return (int64_t)((v ^ m) - m); }
static float asf(uint64_t c) { uint32_t b = (uint32_t)c; float f; memcpy(&f, &b, 4); return f; }
static double asd(uint64_t c) { double f; memcpy(&f, &c, 8); return f; }
static uint64_t ff(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static uint64_t fd(double f) { uint64_t b; memcpy(&b, &f, 8); return b; }

// ---------------------------------------------------------------- guarded value tables (MDD)
struct MNode { uint32_t var; uint64_t leaf; std::vector<uint32_t> kid; };
static const uint32_t LEAF = 0xffffffffu;
static std::vector<MNode> mdn;
static long softlimit = 0;
static std::unordered_map<uint64_t, uint32_t> leaftab;
struct VH { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = 1469598103934665603ULL; for (auto x : v) { h ^= x; h *= 1099511628211ULL; } return h; } };
static std::unordered_map<std::vector<uint32_t>, uint32_t, VH> uniq;
struct Var { int64_t lo; int n; int w; int zi; uint64_t allowed; std::string nm; };
static std::vector<Var> vars;
static uint32_t mkleaf(uint64_t c)
{
    auto it = leaftab.find(c);
    if (it != leaftab.end()) return it->second;
    mdn.push_back({LEAF, c, {}});
    return leaftab[c] = mdn.size() - 1;
}
static uint32_t mknode(uint32_t var, const std::vector<uint32_t> &kid)
{
    bool same = true;
    for (auto k : kid) if (k != kid[0]) { same = false; break; }
    if (same) return kid[0];
    std::vector<uint32_t> key(kid); key.push_back(var);
    auto it = uniq.find(key);
    if (it != uniq.end()) return it->second;
    if (softlimit && (long)mdn.size() > softlimit) throw 1;
    if ((long)mdn.size() > MAXNODES) unsupported("guarded value table larger than the node budget");
    mdn.push_back({var, 0, kid});
    return uniq[key] = mdn.size() - 1;
}
static V mkV(uint32_t n) { if (mdn[n].var == LEAF) return C(mdn[n].leaf); V v; v.k = 1; v.c = n; return v; }
static uint32_t nodeOf(const V &v) { return v.k == 1 ? (uint32_t)v.c : mkleaf(v.c); }
static std::unordered_map<uint32_t, uint32_t> normmemo;
static bool restricted = false;
static uint32_t norm(uint32_t n)
{
    if (!restricted || mdn[n].var == LEAF) return n;
    auto it = normmemo.find(n);
    if (it != normmemo.end()) return it->second;
    uint32_t var = mdn[n].var;
    std::vector<uint32_t> kid = mdn[n].kid;
    uint64_t al = vars[var].allowed;
    uint32_t def = 0; bool have = false;
    for (size_t i = 0; i < kid.size(); i++) if (al >> i & 1) { kid[i] = norm(kid[i]); if (!have) { def = kid[i]; have = true; } }
    for (size_t i = 0; i < kid.size(); i++) if (!(al >> i & 1)) kid[i] = def;
    uint32_t r = mknode(var, kid);
    normmemo[n] = r;
    return r;
}
static V normV(const V &v) { if (v.k != 1 || !restricted) return v; V r = mkV(norm(v.c)); r.undef = v.undef; return r; }

template <class F> static uint32_t ap1(uint32_t a, F &f, std::unordered_map<uint32_t, uint32_t> &memo)
{
    if (mdn[a].var == LEAF) return mkleaf(f(mdn[a].leaf));
    auto it = memo.find(a);
    if (it != memo.end()) return it->second;
    uint32_t var = mdn[a].var;
    std::vector<uint32_t> kid = mdn[a].kid;
    for (auto &k : kid) k = ap1(k, f, memo);
    uint32_t r = mknode(var, kid);
    memo[a] = r;
    return r;
}
template <class F> static V apply1(const V &a, F f)
{
    if (a.k == 0) { V r = C(f(a.c)); r.undef = a.undef; return r; }
    std::unordered_map<uint32_t, uint32_t> memo;
    V r = mkV(ap1(a.c, f, memo)); r.undef = a.undef; return r;
}
template <class F> static uint32_t ap2(uint32_t a, uint32_t b, F &f, std::unordered_map<uint64_t, uint32_t> &memo)
{
    uint32_t va = mdn[a].var, vb = mdn[b].var;
    if (va == LEAF && vb == LEAF) return mkleaf(f(mdn[a].leaf, mdn[b].leaf));
    uint64_t key = (uint64_t)a << 32 | b;
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    uint32_t var = va < vb ? va : vb;
    std::vector<uint32_t> ka = va == var ? mdn[a].kid : std::vector<uint32_t>(mdn[b].kid.size(), a);
    std::vector<uint32_t> kb = vb == var ? mdn[b].kid : std::vector<uint32_t>(ka.size(), b);
    uint64_t al = vars[var].allowed;
    std::vector<uint32_t> r(ka.size());
    uint32_t def = 0; bool have = false;
    for (size_t i = 0; i < ka.size(); i++) if (al >> i & 1) { r[i] = ap2(ka[i], kb[i], f, memo); if (!have) { def = r[i]; have = true; } }
    for (size_t i = 0; i < ka.size(); i++) if (!(al >> i & 1)) r[i] = def;
    uint32_t n = mknode(var, r);
    memo[key] = n;
    return n;
}
template <class F> static V apply2(const V &a, const V &b, F f)
{
    V r;
    if (a.k == 0 && b.k == 0) r = C(f(a.c, b.c));
    else { std::unordered_map<uint64_t, uint32_t> memo; r = mkV(ap2(nodeOf(a), nodeOf(b), f, memo)); }
    r.undef = a.undef | b.undef;
    return r;
}
static void leaves(uint32_t n, std::set<uint64_t> &out, std::set<uint32_t> &seen)
{
    if (!seen.insert(n).second) return;
    if (mdn[n].var == LEAF) { out.insert(mdn[n].leaf); return; }
    uint64_t al = vars[mdn[n].var].allowed;
    for (size_t i = 0; i < mdn[n].kid.size(); i++) if (al >> i & 1) leaves(mdn[n].kid[i], out, seen);
}

// ---------------------------------------------------------------- translation to Z3
static std::unordered_map<uint32_t, int> boolmemo;
static z3::expr nodeBool(uint32_t n)     // leaf != 0
{
    if (mdn[n].var == LEAF) return Z->bool_val((mdn[n].leaf & 1) != 0 || mdn[n].leaf != 0);
    auto it = boolmemo.find(n);
    if (it != boolmemo.end()) return pool[it->second];
    const Var v = vars[mdn[n].var];
    z3::expr x = pool[v.zi];
    // group equal children
    std::map<uint32_t, std::vector<int>> g;
    for (size_t i = 0; i < mdn[n].kid.size(); i++) g[mdn[n].kid[i]].push_back(i);
    z3::expr_vector ors(*Z);
    for (auto &p : g) {
        if (mdn[p.first].var == LEAF && mdn[p.first].leaf == 0) continue;
        z3::expr_vector eq(*Z);
        for (int i : p.second) eq.push_back(x == Z->bv_val((int)i, v.w));
        z3::expr e = z3::mk_or(eq);
        if (!(mdn[p.first].var == LEAF)) e = e && nodeBool(p.first);
        ors.push_back(e);
    }
    z3::expr r = ors.size() == 0 ? Z->bool_val(false) : z3::mk_or(ors);
    pool.push_back(r);
    boolmemo[n] = pool.size() - 1;
    return r;
}
static z3::expr constZ(uint64_t c, Ty t)
{
    switch (t.t) {
    case TF: return z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, Z->bv_val((uint64_t)(uint32_t)c, 32), Z->fpa_sort<32>()));
    case TD: return z3::expr(*Z, Z3_mk_fpa_to_fp_bv(*Z, Z->bv_val((uint64_t)c, 64), Z->fpa_sort<64>()));
    default: return Z->bv_val((uint64_t)(c & mask(t.w)), t.w);
    }
}
static z3::expr nodeZ(uint32_t n, Ty t, std::unordered_map<uint32_t, int> &memo)
{
    if (mdn[n].var == LEAF) return constZ(mdn[n].leaf, t);
    auto it = memo.find(n);
    if (it != memo.end()) return pool[it->second];
    const Var v = vars[mdn[n].var];
    z3::expr x = pool[v.zi];
    std::vector<uint32_t> kid = mdn[n].kid;
    z3::expr r = nodeZ(kid.back(), t, memo);
    for (int i = (int)kid.size() - 2; i >= 0; i--)
        r = z3::ite(x == Z->bv_val((int)i, v.w), nodeZ(kid[i], t, memo), r);
    pool.push_back(r);
    memo[n] = pool.size() - 1;
    return r;
}
// Wide symbolic floating-point values that are provably dyadic rationals n / 2^s inside the exactly representable range are kept as
// the bit-vector n: comparisons and exact arithmetic on them become integer queries.  FW bits, |n| < 2^53 (2^24 for binary32).
static const unsigned FW = 56;
// n is a linear form over atoms (other bit-vector terms), so equal sums written in different orders are the same value.
struct Lin { int64_t k = 0; std::map<unsigned, std::pair<int, int64_t>> m; };       // atom's ast id -> (pool index, coefficient)
static Lin linK(int64_t k) { Lin l; l.k = k; return l; }
static z3::expr linExpr(const Lin &l)
{
    z3::expr e = Z->bv_val(l.k, FW);
    bool first = l.k == 0;
    for (auto &q : l.m) {
        const z3::expr &a = pool[q.second.first];
        int64_t c = q.second.second;
        z3::expr t = c == 1 ? a : c == -1 ? -a : a * Z->bv_val(c, FW);
        e = first ? t : e + t;
        first = false;
    }
    return e;
}
static Lin linAtom(const z3::expr &x)
{
    z3::expr e = x.simplify();
    Lin l;
    int64_t v;
    uint64_t u;
    if (e.is_numeral_u64(u)) { v = (int64_t)(u << (64 - FW)) >> (64 - FW); return linK(v); }
    pool.push_back(e);              // keeps the id alive
    l.m[e.id()] = {(int)pool.size() - 1, 1};
    return l;
}
static Lin linScale(Lin l, int64_t f) { if (!f) return Lin(); l.k *= f; for (auto &q : l.m) q.second.second *= f; return l; }
static Lin linAdd(const Lin &a, const Lin &b, int64_t f = 1)
{
    Lin l = a;
    l.k += f * b.k;
    for (auto &q : b.m) {
        auto it = l.m.find(q.first);
        if (it == l.m.end()) l.m[q.first] = {q.second.first, f * q.second.second};
        else if ((it->second.second += f * q.second.second) == 0) l.m.erase(it);
    }
    return l;
}
static Lin linMul(const Lin &a, const Lin &b)
{
    if (a.m.empty()) return linScale(b, a.k);
    if (b.m.empty()) return linScale(a, b.k);
    if (a.m.size() * b.m.size() > 64) return linAtom(linExpr(a) * linExpr(b));
    Lin l = linK(a.k * b.k);
    for (auto &p : a.m) l = linAdd(l, linScale(linAtom(pool[p.second.first]), p.second.second * b.k));
    for (auto &q : b.m) l = linAdd(l, linScale(linAtom(pool[q.second.first]), q.second.second * a.k));
    for (auto &p : a.m) for (auto &q : b.m) {
        const z3::expr &x = pool[p.second.first], &y = pool[q.second.first];
        l = linAdd(l, linScale(linAtom(p.first <= q.first ? x * y : y * x), p.second.second * q.second.second));
    }
    return l;
}
static int linTz(const Lin &l)                          // common power of two
{
    uint64_t o = (uint64_t)l.k;
    for (auto &q : l.m) o |= (uint64_t)q.second.second;
    return o ? __builtin_ctzll(o) : 60;
}
struct IF { Lin n; int s; int64_t lo, hi; };
static std::unordered_map<uint64_t, IF> iforms;         // pool index of the value -> its integer form
static std::unordered_map<uint64_t, std::pair<int64_t, int64_t>> ibound;    // pool index of an integer term -> value range
static z3::expr rne();
static z3::expr toZ(const V &v, Ty t)
{
    if (v.k == 2 && (t.t == TF || t.t == TD)) {
        auto it = iforms.find(v.c);
        if (it != iforms.end()) {
            z3::expr n = linExpr(it->second.n);
            z3::sort so = t.t == TF ? Z->fpa_sort<32>() : Z->fpa_sort<64>();
            z3::expr e(*Z, Z3_mk_fpa_to_fp_signed(*Z, rne(), n, so));
            if (it->second.s) { double q = std::ldexp(1.0, -it->second.s); e = z3::expr(*Z, Z3_mk_fpa_mul(*Z, rne(), e, t.t == TF ? constZ(ff((float)q), t) : constZ(fd(q), t))); }
            return e;
        }
    }
    if (v.k == 2) return pool[v.c];
    if (v.k == 0) return constZ(v.c, t);
    std::unordered_map<uint32_t, int> memo;
    return nodeZ(v.c, t, memo);
}
static z3::expr toBool(const V &v, unsigned w)
{
    if (v.k == 0) return Z->bool_val((v.c & mask(w)) != 0);
    if (v.k == 1) return nodeBool(v.c);
    return pool[v.c] != Z->bv_val(0, w);
}

// ---------------------------------------------------------------- solver
// a model of the current path condition (values of the choice variables), used to know one feasible side of a branch for free
static std::vector<int64_t> curm, lastm;
static bool curok = false;
static std::unordered_map<unsigned, int> litmemo;
static z3::expr lit(const z3::expr &e)
{
    if (e.is_not()) return !lit(e.arg(0));
    if (e.is_true() || e.is_false() || (e.is_const() && e.is_bool())) return e;
    auto it = litmemo.find(e.id());
    if (it != litmemo.end()) return pool[it->second];
    z3::expr b = Z->bool_const(("b" + std::to_string(litmemo.size())).c_str());
    addS(b == e);
    pool.push_back(e);              // keeps the id alive
    pool.push_back(b);
    litmemo[e.id()] = pool.size() - 1;
    return b;
}
static z3::check_result check(const z3::expr &e, bool want = false)
{
    double t = now();
    z3::expr_vector as(*Z);
    as.push_back(lit(e));
    z3::check_result r = S->check(as);
    if (want && r == z3::sat) {
        z3::model m = S->get_model();
        lastm.clear();
        for (auto &v : vars) lastm.push_back((int64_t)m.eval(pool[v.zi], true).get_numeral_uint64());
    }
    SH->queries++;
    SH->solver_us += (long)((now() - t) * 1e6);
    if (r == z3::unknown) unsupported("solver answered unknown");
    return r;
}
struct Input { V v; Ty t; };
static std::vector<Input> inputs;
static std::string model_inputs(const z3::expr &extra)
{
    S->push();
    S->add(extra);
    std::string r;
    if (S->check() == z3::sat) {
        z3::model m = S->get_model();
        char buf[40];
        for (auto &in : inputs) {
            z3::expr e = toZ(in.v, in.t);
            uint64_t val = 0;
            if (in.t.t == TF || in.t.t == TD) {
                z3::expr b(*Z, Z3_mk_fpa_to_ieee_bv(*Z, e));
                z3::expr q = m.eval(b, true).simplify();
                val = q.is_numeral() ? q.get_numeral_uint64() : (in.t.t == TF ? 0x7fc00000u : 0x7ff8000000000000ull);
            } else {
                z3::expr q = m.eval(e, true);
                val = q.get_numeral_uint64();
            }
            snprintf(buf, sizeof buf, "%llx ", (unsigned long long)val);
            r += buf;
        }
    }
    S->pop();
    return r;
}
static void fail(const std::string &kind, const std::string &msg, const z3::expr &extra)
{
    long n = SH->fails++;
    if (n < MAXFAIL) emit("FAIL\t" + kind + "\t" + msg + "\t" + curloc() + "\t" + model_inputs(extra));
}
static void die(const std::string &kind, const std::string &msg)
{
    fail(kind, msg, Z->bool_val(true));
    finish(0);
}
static void overtime()
{
    if (now() > DEADLINE) { SH->timeouts++; finish(0); }
    if (SH->fails.load() >= MAXFAIL) { SH->killed++; finish(0); }
}
// single-variable conditions narrow the variable's remaining domain
static int supportVar(uint32_t n, int cur)
{
    if (cur == -2 || mdn[n].var == LEAF) return cur;
    if (cur >= 0 && (uint32_t)cur != mdn[n].var) return -2;
    cur = mdn[n].var;
    for (auto k : mdn[n].kid) if (mdn[k].var != LEAF) return -2;
    return cur;
}
// the path condition as one guarded table, while it stays small: prunes infeasible branch sides without a query.
// Assertions are always put to the solver.
static uint32_t P;
static bool Pok = true, Ppure = true;
static bool pand(const V &c, bool val, uint32_t &out)
{
    if (!Pok) return false;
    std::unordered_map<uint64_t, uint32_t> memo;
    auto f = [=](uint64_t x, uint64_t y) -> uint64_t { return x && ((y != 0) == val); };
    softlimit = mdn.size() + 20000;
    try { out = ap2(norm(P), nodeOf(c), f, memo); } catch (int) { softlimit = 0; Pok = false; return false; }
    softlimit = 0;
    return true;
}
static bool isfalse(uint32_t n) { return mdn[n].var == LEAF && mdn[n].leaf == 0; }
static uint64_t evalm(uint32_t n)
{
    while (mdn[n].var != LEAF) n = mdn[n].kid[curm[mdn[n].var]];
    return mdn[n].leaf;
}
static bool modelok(uint32_t n)
{
    if (!curok || curm.size() > vars.size()) return false;
    while (curm.size() < vars.size()) {          // inputs created since: unconstrained so far, any value extends the model
        const Var &v = vars[curm.size()];
        if (v.allowed != mask(v.n)) return false;
        curm.push_back(0);
    }
    return true;
}
static void assume(const V &c, unsigned w, bool val)
{
    z3::expr e = lit(toBool(c, w));
    if (c.k == 1 && modelok(c.c)) { if ((evalm(c.c) != 0) != val) curok = false; }
    else curok = false;
    if (c.k == 1) { uint32_t q; if (pand(c, val, q)) P = q; }
    else if (c.k == 2) Ppure = false;
    addS(val ? e : !e);
    if (c.k == 1) {
        int v = supportVar(c.c, -1);
        if (v >= 0) {
            uint64_t m = 0;
            for (size_t i = 0; i < mdn[c.c].kid.size(); i++) if ((mdn[mdn[c.c].kid[i]].leaf != 0) == val) m |= 1ULL << i;
            if ((vars[v].allowed & m) != vars[v].allowed) { vars[v].allowed &= m; restricted = true; normmemo.clear(); }
        }
    }
}
// decide a symbolic condition; forks when both sides are satisfiable
static bool decide(V c, unsigned w)
{
    c = normV(c);
    if (c.undef) die("uninit", "a branch depends on an uninitialised value");
    if (c.k == 0) return (c.c & mask(w)) != 0;
    overtime();
    z3::expr e = toBool(c, w);
    std::vector<int64_t> mt, mf;
    bool bt = false, bf = false;
    uint32_t pt = 0, pf = 0;
    if (c.k == 1 && pand(c, true, pt) && pand(c, false, pf) && (Ppure || isfalse(pt) || isfalse(pf))) {
        if (isfalse(pt)) return false;
        if (isfalse(pf)) return true;
    } else if (c.k == 1) {
        if (modelok(c.c)) { if (evalm(c.c)) { mt = curm; bt = true; } else { mf = curm; bf = true; } }
        if (!bt) { if (check(e, true) != z3::sat) return false; mt = lastm; }
        if (!bf) { if (check(!e, true) != z3::sat) { curm = mt; curok = true; return true; } mf = lastm; }
    } else {
        if (check(e) != z3::sat) return false;
        if (check(!e) != z3::sat) return true;
    }
    SH->forks++;
    bool par = sem_trywait(&SH->slots) == 0;
    SH->instrs += instrs; instrs = 0;
    pid_t p = fork();
    if (p < 0) { if (par) sem_post(&SH->slots); SH->unsupported++; emit("UNSUPPORTED\tfork failed\t"); finish(0); }
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        kids.clear();
        own_slot = par;
        assume(c, w, true);
        if (c.k == 1 && mt.size()) { curm = mt; curok = true; }
        return true;
    }
    if (par) kids.push_back(p);
    else { int st; waitpid(p, &st, 0); if (WIFSIGNALED(st)) { SH->unsupported++; emit("UNSUPPORTED\tworker died on signal " + std::to_string(WTERMSIG(st)) + "\t"); } }
    overtime();
    assume(c, w, false);
    if (c.k == 1 && mf.size()) { curm = mf; curok = true; }
    return false;
}
// make a value concrete, forking over its feasible values
static uint64_t concretize(V v, Ty t)
{
    v = normV(v);
    if (v.undef) die("uninit", "an address, size or loop bound depends on an uninitialised value");
    while (v.k == 1) {
        std::set<uint64_t> ls; std::set<uint32_t> seen;
        leaves(v.c, ls, seen);
        uint64_t x = *ls.begin();
        V c = apply1(v, [&](uint64_t a) -> uint64_t { return a == x; });
        if (decide(c, 1)) return x;
        // drop this leaf
        V rest = apply1(v, [&](uint64_t a) -> uint64_t { return a; });
        rest = normV(rest);
        uint64_t other = 0; for (auto l : ls) if (l != x) { other = l; break; }
        if (ls.size() < 2) die("engine", "concretisation ran out of values");
        v = apply1(rest, [&](uint64_t a) -> uint64_t { return a == x ? other : a; });
    }
    if (v.k == 0) return v.c;
    z3::expr e = pool[v.c];
    for (int n = 0; n < 4096; n++) {
        z3::check_result r = S->check();
        SH->queries++;
        if (r != z3::sat) die("engine", "path condition became unsatisfiable");
        z3::model m = S->get_model();
        uint64_t x = m.eval(e, true).get_numeral_uint64();
        V c = Zv(z3::ite(e == Z->bv_val((uint64_t)x, t.w), Z->bv_val(1, 1), Z->bv_val(0, 1)));
        if (decide(c, 1)) return x;
    }
    unsupported("more than 4096 values for one address");
    return 0;
}

// ---------------------------------------------------------------- memory
struct SB { V v; uint8_t idx, sz; Ty t; };
struct Obj {
    uint64_t size = 0; bool freed = false, heap = false, ro = false;
    std::vector<uint8_t> b, init;
    std::unordered_map<uint32_t, SB> sym;
    std::string nm;
};
static std::vector<Obj *> objs;
static uint64_t newobj(uint64_t size, const std::string &nm, bool heap, bool init)
{
    if (size > (1u << 28)) unsupported("object larger than 256 MB");
    Obj *o = new Obj;
    o->size = size; o->heap = heap; o->nm = nm;
    o->b.assign(size, 0); o->init.assign(size, init);
    objs.push_back(o);
    return (uint64_t)objs.size() << 32;
}
static Obj *at(uint64_t addr, uint64_t n, uint32_t &off, const char *what)
{
    uint64_t id = addr >> 32;
    if (addr < 0x1000) { die("memory", std::string(what) + " through a null pointer"); }
    if (id == 0 || id > objs.size()) die("memory", std::string(what) + " through a wild pointer");
    Obj *o = objs[id - 1];
    off = (uint32_t)addr;
    if (o->freed) die("memory", std::string(what) + " of released memory (" + o->nm + ")");
    if ((uint64_t)off + n > o->size)
        die("memory", std::string(what) + " out of bounds: offset " + std::to_string((int32_t)off) + " size " + std::to_string(n) + " of a " +
            std::to_string(o->size) + "-byte object (" + o->nm + ")");
    return o;
}
static V load(uint64_t addr, Ty t, unsigned bytes)
{
    uint32_t off;
    Obj *o = at(addr, bytes, off, "read");
    V r;
    for (unsigned i = 0; i < bytes; i++) if (!o->init[off + i]) { r.undef = 1; break; }
    bool anysym = false;
    if (!o->sym.empty()) for (unsigned i = 0; i < bytes; i++) if (o->sym.count(off + i)) { anysym = true; break; }
    if (!anysym) {
        uint64_t x = 0;
        memcpy(&x, &o->b[off], bytes > 8 ? 8 : bytes);
        r.c = x & (t.t == TI ? mask(t.w) : ~0ULL);
        return r;
    }
    auto it = o->sym.find(off);
    if (it != o->sym.end() && it->second.idx == 0 && it->second.sz == bytes && (it->second.t.t == t.t || it->second.v.k == 1)) {
        bool ok = true;
        for (unsigned i = 1; i < bytes; i++) {
            auto j = o->sym.find(off + i);
            if (j == o->sym.end() || j->second.idx != i || j->second.sz != bytes || j->second.v.c != it->second.v.c || j->second.v.k != it->second.v.k) { ok = false; break; }
        }
        if (ok) { V v = it->second.v; v.undef |= r.undef; return v; }
    }
    // assemble bytes
    V acc = C(0);
    for (unsigned i = 0; i < bytes; i++) {
        auto j = o->sym.find(off + i);
        V b;
        if (j == o->sym.end()) b = C(o->b[off + i]);
        else if (j->second.v.k == 1) { unsigned sh = 8 * j->second.idx; b = apply1(j->second.v, [=](uint64_t x) -> uint64_t { return x >> sh & 255; }); }
        else unsupported("partial read of a wide symbolic value");
        unsigned sh = 8 * i;
        acc = apply2(acc, b, [=](uint64_t x, uint64_t y) -> uint64_t { return x | y << sh; });
    }
    acc.undef = r.undef;
    return acc;
}
static void store(uint64_t addr, V v, Ty t, unsigned bytes)
{
    uint32_t off;
    Obj *o = at(addr, bytes, off, "write");
    if (o->ro) die("memory", "write to constant memory (" + o->nm + ")");
    if (!o->sym.empty()) for (unsigned i = 0; i < bytes; i++) o->sym.erase(off + i);
    memset(&o->init[off], v.undef ? 0 : 1, bytes);
    if (v.k == 0) {
        uint64_t x = v.c;
        if (bytes <= 8) memcpy(&o->b[off], &x, bytes);
        else { memset(&o->b[off], 0, bytes); memcpy(&o->b[off], &x, 8); }
    } else for (unsigned i = 0; i < bytes; i++) o->sym[off + i] = {v, (uint8_t)i, (uint8_t)bytes, t};
}
static void copybytes(uint64_t d, uint64_t s, uint64_t n)
{
    if (!n) return;
    uint32_t od, os;
    Obj *a = at(d, n, od, "copy write"), *b = at(s, n, os, "copy read");
    std::vector<uint8_t> tb(b->b.begin() + os, b->b.begin() + os + n), ti(b->init.begin() + os, b->init.begin() + os + n);
    std::vector<std::pair<uint32_t, SB>> ts;
    if (!b->sym.empty()) for (uint64_t i = 0; i < n; i++) { auto j = b->sym.find(os + i); if (j != b->sym.end()) ts.push_back({(uint32_t)i, j->second}); }
    if (!a->sym.empty()) for (uint64_t i = 0; i < n; i++) a->sym.erase(od + i);
    memcpy(&a->b[od], tb.data(), n); memcpy(&a->init[od], ti.data(), n);
    for (auto &p : ts) a->sym[od + p.first] = p.second;
}
static std::string cstr(uint64_t a)
{
    std::string s;
    if (!a) return "(null)";
    for (;; a++) { V v = load(a, {TI, 8}, 1); if (v.k || !v.c) break; s += (char)v.c; if (s.size() > 4000) break; }
    return s;
}

// ---------------------------------------------------------------- interpreter
struct FInfo { std::unordered_map<const Value *, unsigned> slot; unsigned n = 0; bool listed = false; };
static std::unordered_map<const Function *, FInfo *> finfo;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::unordered_map<uint64_t, Function *> faddr;
static std::unordered_map<const Constant *, V> ccache;
static const Instruction *CUR;
static int depth = 0;
static const char *curloc()
{
    static char buf[400];
    buf[0] = 0;
    if (CUR) {
        const DILocation *l = CUR->getDebugLoc().get();
        std::string f = CUR->getFunction()->getName().str();
        if (l) snprintf(buf, sizeof buf, "%s:%u (%s)", l->getFilename().str().c_str(), l->getLine(), f.c_str());
        else snprintf(buf, sizeof buf, "%s", f.c_str());
    }
    return buf;
}
static V evalConst(const Constant *c);
static V gepOff(const GEPOperator *g, std::function<V(const Value *)> ev);
static V binop(unsigned op, const V &a, const V &b, Ty t, bool nsw);
static V castop(unsigned op, const V &a, Ty s, Ty d);

static V evalConst(const Constant *c)
{
    auto it = ccache.find(c);
    if (it != ccache.end()) return it->second;
    V r;
    if (auto *i = dyn_cast<ConstantInt>(c)) r = C(i->getBitWidth() > 64 ? i->getValue().getRawData()[0] : i->getZExtValue());
    else if (auto *f = dyn_cast<ConstantFP>(c)) {
        if (f->getType()->isFloatTy()) r = C(ff(f->getValueAPF().convertToFloat()));
        else if (f->getType()->isDoubleTy()) r = C(fd(f->getValueAPF().convertToDouble()));
        else { APFloat a = f->getValueAPF(); bool li; a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); r = C(fd(a.convertToDouble())); }
    } else if (isa<ConstantPointerNull>(c)) r = C(0);
    else if (isa<UndefValue>(c)) { r = C(0); r.undef = 1; }
    else if (isa<ConstantAggregateZero>(c)) r = C(0);
    else if (auto *g = dyn_cast<GlobalValue>(c)) {
        auto j = gaddr.find(g);
        if (j == gaddr.end()) unsupported("unknown global " + g->getName().str());
        r = C(j->second);
    } else if (auto *e = dyn_cast<ConstantExpr>(c)) {
        if (auto *g = dyn_cast<GEPOperator>(e)) r = gepOff(g, [](const Value *v) { return evalConst(cast<Constant>(v)); });
        else if (e->isCast()) r = castop(e->getOpcode(), evalConst(e->getOperand(0)), tyof(e->getOperand(0)->getType()), tyof(e->getType()));
        else r = binop(e->getOpcode(), evalConst(e->getOperand(0)), evalConst(e->getOperand(1)), tyof(e->getType()), false);
    } else unsupported("constant kind");
    ccache[c] = r;
    return r;
}
static V add64(const V &a, const V &b);
static V gepOff(const GEPOperator *g, std::function<V(const Value *)> ev)
{
    V p = ev(g->getPointerOperand());
    for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
        if (StructType *st = gi.getStructTypeOrNull()) {
            unsigned f = cast<ConstantInt>(gi.getOperand())->getZExtValue();
            uint64_t o = DL->getStructLayout(st)->getElementOffset(f);
            if (o) p = add64(p, C(o));
        } else {
            V i = ev(gi.getOperand());
            unsigned w = gi.getOperand()->getType()->getIntegerBitWidth();
            uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
            if (i.k == 0 && i.c == 0 && !i.undef) continue;
            V off;
            if (i.k == 2) off = Zv((w < 64 ? z3::sext(pool[i.c], 64 - w) : pool[i.c]) * Z->bv_val((uint64_t)sz, 64));
            else off = apply1(i, [=](uint64_t x) -> uint64_t { return (uint64_t)(sx(x, w) * (int64_t)sz); });
            off.undef = i.undef;
            p = add64(p, off);
        }
    }
    return p;
}
static V add64(const V &a, const V &b)
{
    if (a.k == 2 || b.k == 2) { V r = Zv(toZ(a, {TP, 64}) + toZ(b, {TP, 64})); r.undef = a.undef | b.undef; return r; }
    return apply2(a, b, [](uint64_t x, uint64_t y) -> uint64_t { return x + y; });
}
static int64_t limit(Ty t) { return t.t == TF ? 1LL << 24 : 1LL << 52; }
// integer form of a value, if it has one
static bool dyadic(double d, int &s, int64_t &n)
{
    if (!(std::fabs(d) < 9e15)) return false;
    for (s = 0; s <= 12; s++, d *= 2) if (d == std::floor(d) && std::fabs(d) < 4503599627370496.0) { n = (int64_t)d; return true; }
    return false;
}
static double leafval(uint64_t c, Ty t) { return t.t == TF ? (double)asf(c) : asd(c); }
struct IForm { Lin n; int s; int64_t lo, hi; };
static z3::expr nodeN(uint32_t n, Ty t, int s, std::unordered_map<uint32_t, int> &memo)
{
    if (mdn[n].var == LEAF) return Z->bv_val((int64_t)std::ldexp(leafval(mdn[n].leaf, t), s), FW);
    auto it = memo.find(n);
    if (it != memo.end()) return pool[it->second];
    const Var v = vars[mdn[n].var];
    z3::expr x = pool[v.zi];
    std::vector<uint32_t> kid = mdn[n].kid;
    z3::expr r = nodeN(kid.back(), t, s, memo);
    for (int i = (int)kid.size() - 2; i >= 0; i--) r = z3::ite(x == Z->bv_val(i, v.w), nodeN(kid[i], t, s, memo), r);
    pool.push_back(r);
    memo[n] = pool.size() - 1;
    return r;
}
static bool toIF(const V &v, Ty t, std::unique_ptr<IForm> &o)
{
    if (t.t != TF && t.t != TD) return false;
    if (v.k == 2) {
        auto it = iforms.find(v.c);
        if (it == iforms.end()) return false;
        o.reset(new IForm{it->second.n, it->second.s, it->second.lo, it->second.hi});
        return true;
    }
    std::set<uint64_t> ls; std::set<uint32_t> seen;
    if (v.k == 0) ls.insert(v.c); else leaves(v.c, ls, seen);
    int S_ = 0, s; int64_t n, lo = INT64_MAX, hi = INT64_MIN;
    for (auto c : ls) { if (!dyadic(leafval(c, t), s, n)) return false; S_ = std::max(S_, s); }
    // leaves masked out of the domain may still sit in the table
    if (v.k == 1) { std::function<bool(uint32_t)> all = [&](uint32_t q) { if (mdn[q].var == LEAF) { bool k = dyadic(leafval(mdn[q].leaf, t), s, n); if (k) S_ = std::max(S_, s); return k; } for (auto c : mdn[q].kid) if (!all(c)) return false; return true; }; if (ls.size() > 200 || !all(v.c)) return false; }
    for (auto c : ls) { double d = std::ldexp(leafval(c, t), S_); if (std::fabs(d) >= 4503599627370496.0) return false; lo = std::min(lo, (int64_t)d); hi = std::max(hi, (int64_t)d); }
    std::unordered_map<uint32_t, int> memo;
    o.reset(new IForm{v.k == 0 ? linK((int64_t)std::ldexp(leafval(v.c, t), S_)) : linAtom(nodeN(v.c, t, S_, memo)), S_, lo, hi});
    return true;
}
static bool mulok(int64_t a, int64_t b) { __int128 p = (__int128)a * b; return p < ((__int128)1 << 53) && p > -((__int128)1 << 53); }
static void align(IForm &a, IForm &b)
{
    while (a.s < b.s) { if (!mulok(a.lo, 2) || !mulok(a.hi, 2)) break; a.n = linScale(a.n, 2); a.lo *= 2; a.hi *= 2; a.s++; }
    while (b.s < a.s) { if (!mulok(b.lo, 2) || !mulok(b.hi, 2)) break; b.n = linScale(b.n, 2); b.lo *= 2; b.hi *= 2; b.s++; }
}
// the value n / 2^s is exactly representable: |n| stripped of common powers of two fits the significand
static bool ifits(const Lin &n, int64_t lo, int64_t hi, int64_t L)
{
    int z = std::min(linTz(n), 30);
    int64_t m = std::max(lo < 0 ? -lo : lo, hi < 0 ? -hi : hi);
    return (m >> z) <= L && m < (1LL << 53);
}
static V ifV(Lin n, int s, int64_t lo, int64_t hi)
{
    if (n.m.empty()) lo = hi = n.k;
    for (int z = linTz(n); s > 0 && z > 0; s--, z--) {
        n.k /= 2; for (auto &q : n.m) q.second.second /= 2;
        lo = lo < 0 ? -((-lo + 1) / 2) : lo / 2; hi = hi > 0 ? (hi + 1) / 2 : hi / 2;
    }
    V v; v.k = 2; v.c = pool.size(); pool.push_back(linExpr(n));
    iforms[v.c] = {n, s, lo, hi};
    return v;
}
static bool ifop(unsigned op, const V &a, const V &b, Ty t, V &r)
{
    std::unique_ptr<IForm> x, y;
    if (!toIF(a, t, x) || !toIF(b, t, y)) return false;
    int64_t L = limit(t);
    if (op == Instruction::FDiv) {
        if (!y->n.m.empty() || y->n.k == 0) return false;
        int64_t d = y->n.k < 0 ? -y->n.k : y->n.k; int k = 0, sg = y->n.k < 0 ? -1 : 1;
        while (!(d & 1)) { d >>= 1; k++; }
        if (x->n.k % d) return false;
        for (auto &q : x->n.m) if (q.second.second % d) return false;
        Lin l = x->n;
        l.k = l.k / d * sg; for (auto &q : l.m) q.second.second = q.second.second / d * sg;
        int64_t lo = sg > 0 ? x->lo / d : -(x->hi / d), hi = sg > 0 ? x->hi / d : -(x->lo / d);
        int s2 = x->s + k - y->s;
        while (s2 < 0) { if (!mulok(lo, 2) || !mulok(hi, 2)) return false; l = linScale(l, 2); lo *= 2; hi *= 2; s2++; }
        if (s2 > 20 || !ifits(l, lo, hi, L)) return false;
        r = ifV(l, s2, lo, hi);
        r.undef = a.undef | b.undef;
        return true;
    }
    if (op == Instruction::FMul) {
        if (x->s + y->s > 20) return false;
        if (!mulok(x->lo, y->lo) || !mulok(x->lo, y->hi) || !mulok(x->hi, y->lo) || !mulok(x->hi, y->hi)) return false;
        int64_t c[4] = {x->lo * y->lo, x->lo * y->hi, x->hi * y->lo, x->hi * y->hi};
        int64_t lo = *std::min_element(c, c + 4), hi = *std::max_element(c, c + 4);
        Lin l = linMul(x->n, y->n);
        if (!ifits(l, lo, hi, L)) return false;
        r = ifV(l, x->s + y->s, lo, hi);
        r.undef = a.undef | b.undef;
        return true;
    }
    if (op != Instruction::FAdd && op != Instruction::FSub) return false;
    align(*x, *y);
    if (x->s != y->s) return false;
    int64_t lo = op == Instruction::FAdd ? x->lo + y->lo : x->lo - y->hi, hi = op == Instruction::FAdd ? x->hi + y->hi : x->hi - y->lo;
    Lin l = linAdd(x->n, y->n, op == Instruction::FAdd ? 1 : -1);
    if (!ifits(l, lo, hi, L)) return false;
    r = ifV(l, x->s, lo, hi);
    r.undef = a.undef | b.undef;
    return true;
}
static bool irange(const V &a, Ty t, int64_t &lo, int64_t &hi)
{
    if (a.k == 0) { lo = hi = sx(a.c, t.w); return true; }
    if (a.k == 1) {
        std::set<uint64_t> ls; std::set<uint32_t> seen; leaves(a.c, ls, seen);
        lo = INT64_MAX; hi = INT64_MIN;
        for (auto c : ls) { lo = std::min(lo, sx(c, t.w)); hi = std::max(hi, sx(c, t.w)); }
        return true;
    }
    auto it = ibound.find(a.c);
    if (it == ibound.end()) return false;
    lo = it->second.first; hi = it->second.second;
    return true;
}
static z3::expr rne() { return z3::expr(*Z, Z3_mk_fpa_rne(*Z)); }
static bool ovf_hit;
static V binop(unsigned op, const V &a, const V &b, Ty t, bool nsw)
{
    V r;
    if (t.t == TX) unsupported("long double arithmetic");
    if ((a.k == 2 || b.k == 2) && (t.t == TF || t.t == TD) && ifop(op, a, b, t, r)) return r;
    if (a.k == 2 || b.k == 2) {
        z3::expr x = toZ(a, t), y = toZ(b, t), e = x;
        int64_t al, ah, bl, bh, rl = 1, rh = 0;
        if (t.t == TI && t.w <= 64 && (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Mul) && irange(a, t, al, ah) && irange(b, t, bl, bh) &&
            std::max(std::max(std::llabs(al), std::llabs(ah)), std::max(std::llabs(bl), std::llabs(bh))) < (1LL << 31)) {
            if (op == Instruction::Add) { rl = al + bl; rh = ah + bh; }
            else if (op == Instruction::Sub) { rl = al - bh; rh = ah - bl; }
            else { int64_t c[4] = {al * bl, al * bh, ah * bl, ah * bh}; rl = *std::min_element(c, c + 4); rh = *std::max_element(c, c + 4); }
            if (t.w < 64 && (rl < -(1LL << (t.w - 1)) || rh >= (1LL << (t.w - 1)))) { rl = 1; rh = 0; }
        }
        switch (op) {
        case Instruction::Add: e = x + y; break;
        case Instruction::Sub: e = x - y; break;
        case Instruction::Mul: e = x * y; break;
        case Instruction::SDiv: case Instruction::UDiv: case Instruction::SRem: case Instruction::URem:
            if (check(y == Z->bv_val(0, t.w)) == z3::sat) die("arith", "integer division by zero");
            e = op == Instruction::SDiv ? x / y : op == Instruction::UDiv ? z3::udiv(x, y) : op == Instruction::SRem ? z3::srem(x, y) : z3::urem(x, y);
            break;
        case Instruction::Shl: e = z3::shl(x, y); break;
        case Instruction::LShr: e = z3::lshr(x, y); break;
        case Instruction::AShr: e = z3::ashr(x, y); break;
        case Instruction::And: e = x & y; break;
        case Instruction::Or: e = x | y; break;
        case Instruction::Xor: e = x ^ y; break;
        case Instruction::FAdd: need_general_solver(); e = z3::expr(*Z, Z3_mk_fpa_add(*Z, rne(), x, y)); break;
        case Instruction::FSub: need_general_solver(); e = z3::expr(*Z, Z3_mk_fpa_sub(*Z, rne(), x, y)); break;
        case Instruction::FMul: need_general_solver(); e = z3::expr(*Z, Z3_mk_fpa_mul(*Z, rne(), x, y)); break;
        case Instruction::FDiv: need_general_solver(); e = z3::expr(*Z, Z3_mk_fpa_div(*Z, rne(), x, y)); break;
        default: unsupported("binary operator");
        }
        if (rl > rh && nsw && OPT_OVERFLOW && t.t == TI && t.w >= 32 && (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Mul)) {
            unsigned w = t.w;
            z3::expr X = z3::sext(x, w), Y = z3::sext(y, w), E = op == Instruction::Add ? X + Y : op == Instruction::Sub ? X - Y : X * Y;
            z3::expr bad = z3::sext(e, w) != E;
            if (check(bad) == z3::sat) { fail("overflow", "signed integer overflow", bad); addS(!bad); Ppure = false; if (S->check() != z3::sat) finish(0); }
        }
        r = Zv(e);
        r.undef = a.undef | b.undef;
        if (rl <= rh) ibound[r.c] = {rl, rh};
        return r;
    }
    unsigned w = t.w;
    ovf_hit = false;
    bool isf = t.t == TF, isd = t.t == TD;
    switch (op) {
    case Instruction::Add: r = apply2(a, b, [=](uint64_t x, uint64_t y) -> uint64_t { uint64_t z = (x + y) & mask(w); if (nsw) { __int128 q = (__int128)sx(x, w) + sx(y, w); if (q != sx(z, w)) ovf_hit = true; } return z; }); break;
    case Instruction::Sub: r = apply2(a, b, [=](uint64_t x, uint64_t y) -> uint64_t { uint64_t z = (x - y) & mask(w); if (nsw) { __int128 q = (__int128)sx(x, w) - sx(y, w); if (q != sx(z, w)) ovf_hit = true; } return z; }); break;
    case Instruction::Mul: r = apply2(a, b, [=](uint64_t x, uint64_t y) -> uint64_t { uint64_t z = (x * y) & mask(w); if (nsw) { __int128 q = (__int128)sx(x, w) * sx(y, w); if (q != sx(z, w)) ovf_hit = true; } return z; }); break;
    case Instruction::SDiv: case Instruction::UDiv: case Instruction::SRem: case Instruction::URem: {
        V z = normV(apply1(b, [=](uint64_t y) -> uint64_t { return (y & mask(w)) == 0; }));
        if (!(z.k == 0 && z.c == 0)) {
            if (z.k == 0 || check(toBool(z, 1)) == z3::sat) { fail("arith", "integer division by zero", toBool(z, 1)); if (z.k == 0) finish(0); assume(z, 1, false); if (S->check() != z3::sat) finish(0); }
        }
        r = apply2(a, b, [=](uint64_t x, uint64_t y) -> uint64_t {
            if ((y & mask(w)) == 0) return 0;
            int64_t p = sx(x, w), q = sx(y, w);
            if (q == -1 && (op == Instruction::SDiv || op == Instruction::SRem)) return op == Instruction::SDiv ? (uint64_t)(-(uint64_t)p) & mask(w) : 0;
            switch (op) {
            case Instruction::SDiv: return (uint64_t)(p / q) & mask(w);
            case Instruction::SRem: return (uint64_t)(p % q) & mask(w);
            case Instruction::UDiv: return (x & mask(w)) / (y & mask(w));
            default: return (x & mask(w)) % (y & mask(w));
            }
        });
        break;
    }
    case Instruction::Shl: r = apply2(a, b, [=](uint64_t x, uint64_t y) -> uint64_t { return y >= w ? 0 : (x << y) & mask(w); }); break;
    case Instruction::LShr: r = apply2(a, b, [=](uint64_t x, uint64_t y) -> uint64_t { return y >= w ? 0 : (x & mask(w)) >> y; }); break;
    case Instruction::AShr: r = apply2(a, b, [=](uint64_t x, uint64_t y) -> uint64_t { return (uint64_t)(sx(x, w) >> (y >= w ? w - 1 : y)) & mask(w); }); break;
    case Instruction::And: r = apply2(a, b, [=](uint64_t x, uint64_t y) -> uint64_t { return x & y; }); break;
    case Instruction::Or: r = apply2(a, b, [=](uint64_t x, uint64_t y) -> uint64_t { return x | y; }); break;
    case Instruction::Xor: r = apply2(a, b, [=](uint64_t x, uint64_t y) -> uint64_t { return x ^ y; }); break;
#define FOP(O) r = isf ? apply2(a, b, [](uint64_t x, uint64_t y) -> uint64_t { return ff(asf(x) O asf(y)); }) : apply2(a, b, [](uint64_t x, uint64_t y) -> uint64_t { return fd(asd(x) O asd(y)); })
    case Instruction::FAdd: FOP(+); break;
    case Instruction::FSub: FOP(-); break;
    case Instruction::FMul: FOP(*); break;
    case Instruction::FDiv: FOP(/); break;
    default: unsupported("binary operator");
    }
    (void)isd;
    if (ovf_hit && OPT_OVERFLOW && t.t == TI && w >= 32 && !(a.undef | b.undef)) {
        V bad = apply2(a, b, [=](uint64_t x, uint64_t y) -> uint64_t {
            __int128 p = sx(x, w), q = sx(y, w), z = op == Instruction::Add ? p + q : op == Instruction::Sub ? p - q : p * q;
            return z != (__int128)sx((uint64_t)z & mask(w), w);
        });
        bad = normV(bad);
        z3::expr e = toBool(bad, 1);
        if ((bad.k == 0 && bad.c) || (bad.k == 1 && check(e) == z3::sat)) {
            fail("overflow", "signed integer overflow", e);
            if (bad.k == 0) finish(0);
            assume(bad, 1, false);
            if (S->check() != z3::sat) finish(0);
        }
    }
    return r;
}
static V castop(unsigned op, const V &a0, Ty s, Ty d)
{
    V a = a0, r;
    if (s.t == TX || d.t == TX) unsupported("long double conversion");
    if (a.k == 2) {
        if (op == Instruction::SIToFP) {
            auto it = ibound.find(a.c);
            if (it != ibound.end() && it->second.first >= -limit(d) && it->second.second <= limit(d)) {
                z3::expr q = pool[a.c];
                q = s.w < FW ? z3::sext(q, FW - s.w) : s.w > FW ? q.extract(FW - 1, 0) : q;
                r = ifV(linAtom(q), 0, it->second.first, it->second.second);
                r.undef = a.undef;
                return r;
            }
        }
        if (op == Instruction::FPExt || op == Instruction::FPTrunc) {
            auto it = iforms.find(a.c);
            if (it != iforms.end() && ifits(it->second.n, it->second.lo, it->second.hi, limit(d))) return a;
        }
        if (op == Instruction::FPToSI) {
            auto it = iforms.find(a.c);
            if (it != iforms.end() && d.w <= 64) {
                int64_t lo = it->second.lo >> it->second.s, hi = (it->second.hi >> it->second.s) + 1;
                if (d.w >= 32 ? (d.w == 64 || (lo >= INT32_MIN && hi <= INT32_MAX)) : (lo >= INT32_MIN && hi <= INT32_MAX)) {
                    z3::expr q = linExpr(it->second.n);
                    if (it->second.s) q = q / Z->bv_val((int64_t)1 << it->second.s, FW);       // signed division truncates towards zero
                    q = d.w < FW ? q.extract(d.w - 1, 0) : d.w > FW ? z3::sext(q, d.w - FW) : q;
                    r = Zv(q); r.undef = a.undef;
                    if (d.w >= 32 || (lo >= -(1LL << (d.w - 1)) && hi < (1LL << (d.w - 1)))) ibound[r.c] = {lo, hi};
                    return r;
                }
            }
        }
        z3::expr x = toZ(a, s), e = x;
        switch (op) {
        case Instruction::Trunc: e = x.extract(d.w - 1, 0); break;
        case Instruction::ZExt: e = z3::zext(x, d.w - s.w); break;
        case Instruction::SExt: e = z3::sext(x, d.w - s.w); break;
        case Instruction::SIToFP: need_general_solver(); e = z3::expr(*Z, Z3_mk_fpa_to_fp_signed(*Z, rne(), x, d.t == TF ? Z->fpa_sort<32>() : Z->fpa_sort<64>())); break;
        case Instruction::UIToFP: need_general_solver(); e = z3::expr(*Z, Z3_mk_fpa_to_fp_unsigned(*Z, rne(), x, d.t == TF ? Z->fpa_sort<32>() : Z->fpa_sort<64>())); break;
        case Instruction::FPToSI: need_general_solver(); e = z3::expr(*Z, Z3_mk_fpa_to_sbv(*Z, z3::expr(*Z, Z3_mk_fpa_rtz(*Z)), x, d.w)); break;
        case Instruction::FPTrunc: case Instruction::FPExt: e = z3::expr(*Z, Z3_mk_fpa_to_fp_float(*Z, rne(), x, d.t == TF ? Z->fpa_sort<32>() : Z->fpa_sort<64>())); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: if (s.w == d.w && s.t != TF && s.t != TD && d.t != TF && d.t != TD) break; [[fallthrough]];
        default: unsupported("cast of a wide symbolic value");
        }
        r = Zv(e); r.undef = a.undef;
        auto ib = ibound.find(a.c);
        if (ib != ibound.end()) {
            int64_t lo = ib->second.first, hi = ib->second.second;
            if (op == Instruction::SExt || (op == Instruction::ZExt && lo >= 0) || (op == Instruction::Trunc && lo >= -(1LL << (d.w - 1)) && hi < (1LL << (d.w - 1)))) ibound[r.c] = {lo, hi};
        }
        return r;
    }
    switch (op) {
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
        unsigned w = s.w < d.w ? s.w : d.w;
        return apply1(a, [=](uint64_t x) -> uint64_t { return x & mask(w); });
    }
    case Instruction::SExt: return apply1(a, [=](uint64_t x) -> uint64_t { return (uint64_t)sx(x, s.w) & mask(d.w); });
    case Instruction::SIToFP: return apply1(a, [=](uint64_t x) -> uint64_t { int64_t v = sx(x, s.w); return d.t == TF ? ff((float)v) : fd((double)v); });
    case Instruction::UIToFP: return apply1(a, [=](uint64_t x) -> uint64_t { uint64_t v = x & mask(s.w); return d.t == TF ? ff((float)v) : fd((double)v); });
    case Instruction::FPTrunc: return apply1(a, [=](uint64_t x) -> uint64_t { return ff((float)asd(x)); });
    case Instruction::FPExt: return apply1(a, [=](uint64_t x) -> uint64_t { return fd((double)asf(x)); });
    case Instruction::FPToSI: case Instruction::FPToUI: {
        auto val = [=](uint64_t x) -> double { return s.t == TF ? (double)asf(x) : asd(x); };
        auto bad = [=](uint64_t x) -> uint64_t {
            double v = val(x);
            if (op == Instruction::FPToUI) return !(v > -1.0 && v < ldexp(1.0, d.w));
            unsigned w = d.w < 32 ? 32 : d.w;   // narrow targets are first converted to int by the hardware
            return !(v > -ldexp(1.0, w - 1) - 1.0 && v < ldexp(1.0, w - 1));
        };
        V nb = normV(apply1(a, [=](uint64_t x) -> uint64_t { return bad(x); }));
        if (!a.undef && !(nb.k == 0 && nb.c == 0)) {
            z3::expr e = toBool(nb, 1);
            if (nb.k == 0 || check(e) == z3::sat) {
                fail("fpcast", "floating-point value does not fit the integer it is converted to", e);
                if (nb.k == 0) finish(0);
                assume(nb, 1, false);
                if (S->check() != z3::sat) finish(0);
            }
        }
        return apply1(a, [=](uint64_t x) -> uint64_t { if (bad(x)) return 0; double v = val(x); return (op == Instruction::FPToUI ? (uint64_t)v : (uint64_t)(int64_t)v) & mask(d.w); });
    }
    }
    unsupported("cast");
    return r;
}
static V b2v(const z3::expr &e) { return Zv(z3::ite(e, Z->bv_val(1, 1), Z->bv_val(0, 1))); }
static V icmp(CmpInst::Predicate p, const V &a, const V &b, Ty t)
{
    unsigned w = t.w;
    if (a.k == 2 || b.k == 2) {
        z3::expr x = toZ(a, t), y = toZ(b, t), e = x == y;
        switch (p) {
        case CmpInst::ICMP_EQ: break;
        case CmpInst::ICMP_NE: e = x != y; break;
        case CmpInst::ICMP_SLT: e = x < y; break;
        case CmpInst::ICMP_SLE: e = x <= y; break;
        case CmpInst::ICMP_SGT: e = x > y; break;
        case CmpInst::ICMP_SGE: e = x >= y; break;
        case CmpInst::ICMP_ULT: e = z3::ult(x, y); break;
        case CmpInst::ICMP_ULE: e = z3::ule(x, y); break;
        case CmpInst::ICMP_UGT: e = z3::ugt(x, y); break;
        default: e = z3::uge(x, y); break;
        }
        V r = b2v(e); r.undef = a.undef | b.undef; return r;
    }
    return apply2(a, b, [=](uint64_t x, uint64_t y) -> uint64_t {
        int64_t i = sx(x, w), j = sx(y, w); x &= mask(w); y &= mask(w);
        switch (p) {
        case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y;
        case CmpInst::ICMP_SLT: return i < j; case CmpInst::ICMP_SLE: return i <= j;
        case CmpInst::ICMP_SGT: return i > j; case CmpInst::ICMP_SGE: return i >= j;
        case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_ULE: return x <= y;
        case CmpInst::ICMP_UGT: return x > y; default: return x >= y;
        }
    });
}
// both sides are the same linear form up to a constant: have the solver confirm it (the first times on every path)
static int confirms = 24;
static void confirmEq(const Lin &a, const Lin &b, int64_t k)
{
    if (a.m.empty() || confirms-- <= 0) return;
    double t = now();
    z3::solver s(*Z);
    s.add(linExpr(a) - linExpr(b) != Z->bv_val(k, FW));
    z3::check_result r = s.check();
    SH->queries++; SH->solver_us += (long)((now() - t) * 1e6);
    if (r == z3::sat) unsupported("normal form disagrees with the solver");
}
static V fcmp(CmpInst::Predicate p, const V &a, const V &b, Ty t)
{
    if (t.t == TX) unsupported("long double comparison");
    if (a.k == 2 || b.k == 2) {
        std::unique_ptr<IForm> p1, p2;
        if (toIF(a, t, p1) && toIF(b, t, p2)) {
            align(*p1, *p2);
            if (p1->s == p2->s) {
                unsigned q = (unsigned)p;
                z3::expr e = Z->bool_val(false);
                bool l = q & 4, g = q & 2, eq = q & 1;
                Lin d = linAdd(p1->n, p2->n, -1);
                int64_t dlo = p1->lo - p2->hi, dhi = p1->hi - p2->lo;
                if (d.m.empty()) { dlo = dhi = d.k; confirmEq(p1->n, p2->n, d.k); }
                if (dlo == dhi) { V r; r.k = 0; r.c = dlo < 0 ? l : dlo > 0 ? g : eq; r.undef = a.undef | b.undef; return r; }
                if (dlo > 0) { V r; r.k = 0; r.c = g; r.undef = a.undef | b.undef; return r; }
                if (dhi < 0) { V r; r.k = 0; r.c = l; r.undef = a.undef | b.undef; return r; }
                // constant on the right, common factor removed
                int64_t k = d.k; d.k = 0;
                if (d.m.begin()->second.second < 0) { d = linScale(d, -1); k = -k; std::swap(l, g); }
                z3::expr L_ = linExpr(d), R_ = Z->bv_val(-k, FW);
                if (l && g && eq) e = Z->bool_val(true);
                else if (l && g) e = !(L_ == R_);
                else if (l && eq) e = L_ <= R_;
                else if (g && eq) e = !(L_ <= R_) || L_ == R_;
                else if (l) e = L_ <= R_ && !(L_ == R_);
                else if (g) e = !(L_ <= R_);
                else if (eq) e = L_ == R_;
                V r = b2v(e); r.undef = a.undef | b.undef; return r;
            }
        }
        need_general_solver();
        z3::expr x = toZ(a, t), y = toZ(b, t);
        z3::expr lt(*Z, Z3_mk_fpa_lt(*Z, x, y)), gt(*Z, Z3_mk_fpa_gt(*Z, x, y)), eq(*Z, Z3_mk_fpa_eq(*Z, x, y));
        z3::expr un = z3::expr(*Z, Z3_mk_fpa_is_nan(*Z, x)) || z3::expr(*Z, Z3_mk_fpa_is_nan(*Z, y));
        z3::expr_vector o(*Z);
        unsigned q = (unsigned)p;       // FCMP predicate bits: 1 equal, 2 greater, 4 less, 8 unordered
        if (q & 1) o.push_back(eq);
        if (q & 2) o.push_back(gt);
        if (q & 4) o.push_back(lt);
        if (q & 8) o.push_back(un);
        V r = b2v(o.size() ? z3::mk_or(o) : Z->bool_val(false)); r.undef = a.undef | b.undef; return r;
    }
    bool isf = t.t == TF;
    return apply2(a, b, [=](uint64_t x, uint64_t y) -> uint64_t {
        double u = isf ? asf(x) : asd(x), v = isf ? asf(y) : asd(y);
        unsigned q = (unsigned)p;
        if (u != u || v != v) return (q & 8) != 0;
        return u == v ? (q & 1) != 0 : u > v ? (q & 2) != 0 : (q & 4) != 0;
    });
}
static V sel(const V &c, const V &a, const V &b)
{
    if (c.k == 0) return c.c & 1 ? a : b;
    // two-step table apply: pick(c, pair)
    std::unordered_map<uint64_t, uint32_t> m1;
    struct R {
        static uint32_t go(uint32_t c, uint32_t a, uint32_t b, std::map<std::tuple<uint32_t, uint32_t, uint32_t>, uint32_t> &memo) {
            if (mdn[c].var == LEAF) return mdn[c].leaf ? a : b;
            if (a == b) return a;
            auto key = std::make_tuple(c, a, b);
            auto it = memo.find(key);
            if (it != memo.end()) return it->second;
            uint32_t var = std::min(mdn[c].var, std::min(mdn[a].var, mdn[b].var));
            size_t n = vars[var].n;
            std::vector<uint32_t> r(n);
            for (size_t i = 0; i < n; i++)
                r[i] = go(mdn[c].var == var ? mdn[c].kid[i] : c, mdn[a].var == var ? mdn[a].kid[i] : a, mdn[b].var == var ? mdn[b].kid[i] : b, memo);
            return memo[key] = mknode(var, r);
        }
    };
    std::map<std::tuple<uint32_t, uint32_t, uint32_t>, uint32_t> memo;
    return mkV(R::go(c.c, nodeOf(a), nodeOf(b), memo));
}

// if-then-else over wide values, without forking
static bool selwide(const V &c, const V &a, const V &b, Ty t, V &r)
{
    if (t.t == TX || t.t == TP) return false;
    z3::expr ce = toBool(c, 1);
    if (t.t == TI) {
        r = Zv(z3::ite(ce, toZ(a, t), toZ(b, t)));
        int64_t al, ah, bl, bh;
        if (irange(a, t, al, ah) && irange(b, t, bl, bh)) ibound[r.c] = {std::min(al, bl), std::max(ah, bh)};
        return true;
    }
    std::unique_ptr<IForm> x, y;
    if (toIF(a, t, x) && toIF(b, t, y)) {
        align(*x, *y);
        if (x->s == y->s) { r = ifV(linAtom(z3::ite(ce, linExpr(x->n), linExpr(y->n))), x->s, std::min(x->lo, y->lo), std::max(x->hi, y->hi)); return true; }
    }
    return false;
}

struct Frame { FInfo *fi; std::vector<V> s; std::vector<uint64_t> allocas; };
static V get(Frame &f, const Value *v)
{
    if (auto *c = dyn_cast<Constant>(v)) return evalConst(c);
    auto it = f.fi->slot.find(v);
    if (it == f.fi->slot.end()) unsupported("operand");
    return normV(f.s[it->second]);
}
static std::set<std::string> usedExt;
static V call(Function *fn, std::vector<V> &args, const CallBase *cb);
static V m1(const V &a, bool isf, double (*fd_)(double), float (*ff_)(float), const char *nm)
{
    if (a.k == 2) {
        std::string n = nm;
        auto it = iforms.find(a.c);
        if (n == "fabs" && it != iforms.end()) {
            z3::expr q = linExpr(it->second.n);
            int64_t m = std::max(std::llabs(it->second.lo), std::llabs(it->second.hi));
            V r = ifV(linAtom(z3::ite(q < Z->bv_val(0, FW), -q, q)), it->second.s, 0, m); r.undef = a.undef; return r;
        }
        need_general_solver();
        if (n == "fabs") { V r = Zv(z3::expr(*Z, Z3_mk_fpa_abs(*Z, toZ(a, isf ? Ty{TF, 32} : Ty{TD, 64})))); r.undef = a.undef; return r; }
        if (n == "sqrt") { V r = Zv(z3::expr(*Z, Z3_mk_fpa_sqrt(*Z, rne(), toZ(a, isf ? Ty{TF, 32} : Ty{TD, 64})))); r.undef = a.undef; return r; }
        unsupported("libm call on a wide symbolic value: " + n);
    }
    if (isf) return apply1(a, [=](uint64_t x) -> uint64_t { return ff(ff_(asf(x))); });
    return apply1(a, [=](uint64_t x) -> uint64_t { return fd(fd_(asd(x))); });
}

static V newchoice(int64_t lo, int64_t hi)
{
    if (hi < lo) die("engine", "empty input range");
    std::string nm = "in" + std::to_string(inputs.size());
    if (hi - lo + 1 == 1) { inputs.push_back({C((uint64_t)lo & mask(32)), {TI, 32}}); return inputs.back().v; }
    if (hi - lo + 1 > 48) {
        z3::expr x = Z->bv_const(nm.c_str(), 32);
        if (!(lo <= -2147483647LL - 1 && hi >= 2147483647LL)) addS(x >= Z->bv_val((int)lo, 32) && x <= Z->bv_val((int)hi, 32));
        V v = Zv(x); inputs.push_back({v, {TI, 32}});
        ibound[v.c] = {lo, hi};
        return v;
    }
    Var var; var.lo = lo; var.n = hi - lo + 1; var.w = 1;
    while ((1 << var.w) < var.n) var.w++;
    z3::expr y = Z->bv_const((nm + "c").c_str(), var.w);
    if ((1 << var.w) != var.n) addS(z3::ule(y, Z->bv_val(var.n - 1, var.w)));
    pool.push_back(y);
    var.zi = pool.size() - 1; var.allowed = mask(var.n); var.nm = nm;
    vars.push_back(var);
    std::vector<uint32_t> kid;
    for (int i = 0; i < var.n; i++) kid.push_back(mkleaf((uint64_t)(lo + i) & mask(32)));
    V v = mkV(mknode(vars.size() - 1, kid));
    inputs.push_back({v, {TI, 32}});
    return v;
}
static void path_end()
{
    SH->paths++;
    if (SH->samples.fetch_add(1) < MAXSAMPLES) emit("SAMPLE\t" + model_inputs(Z->bool_val(true)));
    finish(0);
}
static bool builtin(const std::string &n, std::vector<V> &a, const CallBase *cb, V &r)
{
    auto conc = [&](int i, unsigned w = 64) { return concretize(a[i], {TI, w}); };
    if (n == "vhi_range") { r = newchoice(sx(conc(0, 32), 32), sx(conc(1, 32), 32)); return true; }
    if (n == "vhi_pick") {     // tab[k] for a fresh choice k in [0, n-1]
        uint64_t tab = conc(0); int cnt = (int)conc(1, 32);
        V k = newchoice(0, cnt - 1);
        r = apply1(k, [=](uint64_t i) -> uint64_t { return load(tab + 8 * i, {TD, 64}, 8).c; });
        return true;
    }
    if (n == "vhi_int") { r = newchoice(-2147483648LL, 2147483647LL); return true; }
    if (n == "vhi_long") { z3::expr x = Z->bv_const(("in" + std::to_string(inputs.size())).c_str(), 64); r = Zv(x); inputs.push_back({r, {TI, 64}}); return true; }
    if (n == "vhi_float" || n == "vhi_double") {
        bool f = n == "vhi_float";
        need_general_solver();
        z3::expr x = Z->constant(("in" + std::to_string(inputs.size())).c_str(), f ? Z->fpa_sort<32>() : Z->fpa_sort<64>());
        r = Zv(x); inputs.push_back({r, f ? Ty{TF, 32} : Ty{TD, 64}}); return true;
    }
    if (n == "vhi_assume") {
        V c = normV(a[0]);
        if (c.undef) die("uninit", "assumption on an uninitialised value");
        if (c.k == 0) { if (!(c.c & mask(32))) { SH->assumed_out++; finish(0); } return true; }
        assume(c, 32, true);
        SH->queries++;
        if (S->check() != z3::sat) { SH->assumed_out++; finish(0); }
        return true;
    }
    if (n == "vhi_assert") {
        V c = normV(a[0]);
        SH->asserts++;
        if (c.undef) { fail("uninit", "asserted value is uninitialised: " + cstr(a[1].c), Z->bool_val(true)); return true; }
        if (c.k == 0) { if (!(c.c & mask(32))) { fail("assert", cstr(a[1].c), Z->bool_val(true)); finish(0); } return true; }
        z3::expr e = toBool(c, 32);
        if (check(!e) == z3::sat) {
            fail("assert", cstr(a[1].c), !e);
            if (check(e) != z3::sat) finish(0);
            assume(c, 32, true);
        }
        return true;
    }
    if (n == "vhi_reach") { emit("REACH\t" + cstr(a[0].c)); return true; }
    if (n == "vhi_stop" || n == "exit" || n == "_exit") path_end();
    if (n == "abort") die("abort", "abort called");
    if (n == "vhi_initialised") {
        uint64_t p = conc(0), len = conc(1);
        uint32_t off; Obj *o = at(p, len, off, "read");
        SH->asserts++;
        for (uint64_t i = 0; i < len; i++) if (!o->init[off + i]) { die("uninit", "byte " + std::to_string(i) + " is uninitialised: " + cstr(a[2].c)); }
        return true;
    }
    if (n == "vhi_live_heap") { long c = 0; for (auto *o : objs) if (o->heap && !o->freed) c++; r = C((uint64_t)c); return true; }
    if (n == "vhi_concrete") { r = C(concretize(a[0], {TI, 32})); return true; }
    if (n == "malloc" || n == "valloc") { r = C(newobj(conc(0), std::string("malloc at ") + curloc(), true, false)); return true; }
    if (n == "calloc") { r = C(newobj(conc(0) * conc(1), std::string("calloc at ") + curloc(), true, true)); return true; }
    if (n == "free" || n == "realloc") {
        uint64_t p = conc(0);
        if (n == "free" && !p) return true;
        if (p) {
            uint64_t id = p >> 32;
            if (!id || id > objs.size()) die("memory", n + " of a wild pointer");
            Obj *o = objs[id - 1];
            if (!o->heap || (uint32_t)p) die("memory", n + " of memory that was not obtained from the allocator (" + o->nm + ")");
            if (o->freed) die("memory", "double free (" + o->nm + ")");
        }
        if (n == "free") { Obj *o = objs[(p >> 32) - 1]; o->freed = true; o->b.clear(); o->b.shrink_to_fit(); o->init.clear(); o->sym.clear(); return true; }
        uint64_t sz = conc(1), q = newobj(sz, std::string("realloc at ") + curloc(), true, false);
        if (p) { Obj *o = objs[(p >> 32) - 1]; copybytes(q, p, std::min<uint64_t>(sz, o->size)); objs[(p >> 32) - 1]->freed = true; }
        r = C(q); return true;
    }
    if (n == "memcpy" || n == "memmove" || n.rfind("llvm.memcpy", 0) == 0 || n.rfind("llvm.memmove", 0) == 0) { uint64_t d = conc(0); copybytes(d, conc(1), conc(2)); r = C(d); return true; }
    if (n == "memset" || n.rfind("llvm.memset", 0) == 0) {
        uint64_t d = conc(0), len = conc(2), c = conc(1, 8);
        for (uint64_t i = 0; i < len; i++) store(d + i, C(c & 255), {TI, 8}, 1);
        r = C(d); return true;
    }
    if (n == "strcpy") { uint64_t d = conc(0), s = conc(1); for (uint64_t i = 0;; i++) { V v = load(s + i, {TI, 8}, 1); uint64_t c = concretize(v, {TI, 8}); store(d + i, C(c), {TI, 8}, 1); if (!c) break; } r = C(d); return true; }
    if (n == "strncpy") { uint64_t d = conc(0), s = conc(1), len = conc(2); bool z = false; for (uint64_t i = 0; i < len; i++) { uint64_t c = z ? 0 : concretize(load(s + i, {TI, 8}, 1), {TI, 8}); if (!c) z = true; store(d + i, C(c), {TI, 8}, 1); } r = C(d); return true; }
    if (n == "strlen") { uint64_t s = conc(0), i = 0; while (concretize(load(s + i, {TI, 8}, 1), {TI, 8})) i++; r = C(i); return true; }
    if (n == "strcmp" || n == "strncmp") { uint64_t s = conc(0), t = conc(1), len = n == "strncmp" ? conc(2) : ~0ULL; int64_t d = 0; for (uint64_t i = 0; i < len; i++) { uint64_t x = concretize(load(s + i, {TI, 8}, 1), {TI, 8}), y = concretize(load(t + i, {TI, 8}, 1), {TI, 8}); if (x != y) { d = x < y ? -1 : 1; break; } if (!x) break; } r = C((uint64_t)d & mask(32)); return true; }
    if (n == "atoi") { std::string s; uint64_t p = conc(0); for (;; p++) { uint64_t c = concretize(load(p, {TI, 8}, 1), {TI, 8}); if (!c) break; s += (char)c; } r = C((uint64_t)atoi(s.c_str()) & mask(32)); return true; }
    if (n == "abs" || n.rfind("llvm.abs.i32", 0) == 0) {
        if (a[0].k == 2) { z3::expr x = pool[a[0].c]; r = Zv(z3::ite(x < Z->bv_val(0, 32), -x, x)); r.undef = a[0].undef; auto ib = ibound.find(a[0].c); if (ib != ibound.end() && ib->second.first > INT32_MIN) ibound[r.c] = {0, std::max(std::llabs(ib->second.first), std::llabs(ib->second.second))}; }
        else r = apply1(a[0], [](uint64_t x) -> uint64_t { int64_t v = sx(x, 32); return (uint64_t)(v < 0 ? -v : v) & mask(32); });
        return true;
    }
    if (n == "labs" || n.rfind("llvm.abs.i64", 0) == 0) {
        if (a[0].k == 2) {
            z3::expr x = pool[a[0].c]; r = Zv(z3::ite(x < Z->bv_val(0, 64), -x, x)); r.undef = a[0].undef;
            auto ib = ibound.find(a[0].c); if (ib != ibound.end() && ib->second.first > INT64_MIN) ibound[r.c] = {0, std::max(std::llabs(ib->second.first), std::llabs(ib->second.second))};
        } else r = apply1(a[0], [](uint64_t x) -> uint64_t { int64_t v = (int64_t)x; return (uint64_t)(v < 0 ? -v : v); }); 
        return true;
    }
    struct M { const char *n; double (*d)(double); float (*f)(float); };
    static const M ms[] = {{"sqrt", ::sqrt, ::sqrtf}, {"fabs", ::fabs, ::fabsf}, {"sin", ::sin, ::sinf}, {"cos", ::cos, ::cosf}, {"acos", ::acos, ::acosf},
        {"asin", ::asin, ::asinf}, {"exp", ::exp, ::expf}, {"log", ::log, ::logf}, {"floor", ::floor, ::floorf}, {"ceil", ::ceil, ::ceilf}, {"round", ::round, ::roundf},
        {"tan", ::tan, ::tanf}, {"atan", ::atan, ::atanf}, {"log10", ::log10, ::log10f}, {"lgamma", ::lgamma, ::lgammaf}, {"erf", ::erf, ::erff}, {"trunc", ::trunc, ::truncf}};
    std::string q = n;
    bool isf = false;
    if (q.rfind("llvm.", 0) == 0) {
        q = q.substr(5);
        size_t dot = q.find('.');
        if (dot != std::string::npos) { isf = q.substr(dot) == ".f32"; q = q.substr(0, dot); }
    } else if (cb && cb->getType()->isFloatTy() && q.size() > 1 && q.back() == 'f') { isf = true; q.pop_back(); }
    for (auto &m : ms) if (q == m.n) { r = m1(a[0], isf, m.d, m.f, m.n); return true; }
    if (q == "pow" && !isf) { r = apply2(a[0], a[1], [](uint64_t x, uint64_t y) -> uint64_t { return fd(::pow(asd(x), asd(y))); }); return true; }
    if (q == "pow" && isf) { r = apply2(a[0], a[1], [](uint64_t x, uint64_t y) -> uint64_t { return ff(::powf(asf(x), asf(y))); }); return true; }
    if (q == "fmuladd") {
        Ty t = isf ? Ty{TF, 32} : Ty{TD, 64};
        r = binop(Instruction::FAdd, binop(Instruction::FMul, a[0], a[1], t, false), a[2], t, false);
        return true;
    }
    if (q == "minnum") q = "fmin";
    if (q == "maxnum") q = "fmax";
    if (q == "fmin" || q == "fmax") {
        bool mx = q == "fmax";
        if (isf) r = apply2(a[0], a[1], [=](uint64_t x, uint64_t y) -> uint64_t { return ff(mx ? ::fmaxf(asf(x), asf(y)) : ::fminf(asf(x), asf(y))); });
        else r = apply2(a[0], a[1], [=](uint64_t x, uint64_t y) -> uint64_t { return fd(mx ? ::fmax(asd(x), asd(y)) : ::fmin(asd(x), asd(y))); });
        return true;
    }
    if (q == "fmod" || q == "hypot" || q == "atan2" || q == "copysign") {
        int w = q == "fmod" ? 0 : q == "hypot" ? 1 : q == "atan2" ? 2 : 3;
        auto fo = [w](double x, double y) -> double { return w == 0 ? ::fmod(x, y) : w == 1 ? ::hypot(x, y) : w == 2 ? ::atan2(x, y) : ::copysign(x, y); };
        auto fof = [w](float x, float y) -> float { return w == 0 ? ::fmodf(x, y) : w == 1 ? ::hypotf(x, y) : w == 2 ? ::atan2f(x, y) : ::copysignf(x, y); };
        if (isf) r = apply2(a[0], a[1], [=](uint64_t x, uint64_t y) -> uint64_t { return ff(fof(asf(x), asf(y))); });
        else r = apply2(a[0], a[1], [=](uint64_t x, uint64_t y) -> uint64_t { return fd(fo(asd(x), asd(y))); });
        return true;
    }
    if (q == "lroundf" || q == "lrintf") q.pop_back();
    if (q == "lround" || q == "lrint") {
        bool lr = q == "lround";
        if (cb && cb->arg_size() && cb->getArgOperand(0)->getType()->isFloatTy()) r = apply1(a[0], [=](uint64_t x) -> uint64_t { return (uint64_t)(lr ? ::lroundf(asf(x)) : ::lrintf(asf(x))); });
        else r = apply1(a[0], [=](uint64_t x) -> uint64_t { return (uint64_t)(lr ? ::lround(asd(x)) : ::lrint(asd(x))); });
        return true;
    }
    if (n == "isnan" || n == "__isnan") { r = apply1(a[0], [](uint64_t x) -> uint64_t { return std::isnan(asd(x)); }); return true; }
    if (n == "printf" || n == "fprintf" || n == "puts" || n == "putchar" || n == "fflush" || n == "perror" || n == "fputs") { r = C(0); return true; }
    if (n == "sprintf" || n == "snprintf") { uint64_t d = conc(0); store(d, C('?'), {TI, 8}, 1); store(d + 1, C(0), {TI, 8}, 1); r = C(1); return true; }
    if (n == "time" || n == "getpid" || n == "strftime") { r = C(1); return true; }
    if (n == "localtime") { r = C(newobj(64, "tm", false, true)); return true; }
    if (n == "__xpg_basename") { r = a[0]; return true; }
    if (n.rfind("llvm.dbg", 0) == 0 || n.rfind("llvm.lifetime", 0) == 0 || n == "llvm.stackrestore" || n == "llvm.stackrestore.p0" || n.rfind("llvm.assume", 0) == 0 || n.rfind("llvm.donothing", 0) == 0) return true;
    if (n == "llvm.stacksave" || n == "llvm.stacksave.p0") { r = C(0); return true; }
    return false;
}
static std::string REPLDIR;
static V run(Function *fn, std::vector<V> &args);
static V call(Function *fn, std::vector<V> &args, const CallBase *cb)
{
    if (!fn->isDeclaration()) return run(fn, args);
    V r;
    std::string n = fn->getName().str();
    if (builtin(n, args, cb, r)) return r;
    unsupported("call of a function without a body: " + n);
    return r;
}
static FInfo *info(Function *fn)
{
    FInfo *&fi = finfo[fn];
    if (!fi) {
        fi = new FInfo;
        for (auto &a : fn->args()) fi->slot[&a] = fi->n++;
        for (auto &b : *fn) for (auto &i : b) if (!i.getType()->isVoidTy()) fi->slot[&i] = fi->n++;
    }
    if (!fi->listed) { fi->listed = true; emit("FUNC\t" + fn->getName().str() + "\t" + (fn->getSubprogram() ? fn->getSubprogram()->getFilename().str() : std::string("?"))); }
    return fi;
}
static V run(Function *fn, std::vector<V> &args)
{
    if (++depth > 400) die("hang", "call depth above 400");
    Frame f;
    f.fi = info(fn);
    f.s.resize(f.fi->n);
    unsigned k = 0;
    for (auto &a : fn->args()) { f.s[f.fi->slot[&a]] = k < args.size() ? args[k] : C(0); k++; }
    BasicBlock *bb = &fn->getEntryBlock(), *prev = nullptr;
    V ret;
    for (;;) {
        // phis first, in parallel
        std::vector<std::pair<unsigned, V>> ph;
        auto it = bb->begin();
        for (; auto *p = dyn_cast<PHINode>(&*it); ++it) { CUR = p; ph.push_back({f.fi->slot[p], get(f, p->getIncomingValueForBlock(prev))}); }
        for (auto &p : ph) f.s[p.first] = p.second;
        BasicBlock *next = nullptr;
        for (; it != bb->end(); ++it) {
            Instruction *i = &*it;
            CUR = i;
            if ((++instrs & 0xffff) == 0) { overtime(); if (instrs > MAXINSTR) die("hang", "instruction budget of one path exceeded (non-termination?)"); }
            unsigned op = i->getOpcode();
            switch (op) {
            case Instruction::Ret:
                if (cast<ReturnInst>(i)->getReturnValue()) ret = get(f, cast<ReturnInst>(i)->getReturnValue());
                for (auto a : f.allocas) { Obj *o = objs[(a >> 32) - 1]; o->freed = true; o->b.clear(); o->b.shrink_to_fit(); o->init.clear(); o->init.shrink_to_fit(); o->sym.clear(); }
                depth--;
                return ret;
            case Instruction::Br: {
                auto *b = cast<BranchInst>(i);
                if (!b->isConditional()) { next = b->getSuccessor(0); break; }
                V c = get(f, b->getCondition());
                bool t = (c.k == 0 && !c.undef) ? (c.c & 1) : decide(c, 1);
                next = b->getSuccessor(t ? 0 : 1);
                break;
            }
            case Instruction::Switch: {
                auto *s = cast<SwitchInst>(i);
                V c = get(f, s->getCondition());
                Ty t = tyof(s->getCondition()->getType());
                next = s->getDefaultDest();
                for (auto &cs : s->cases()) {
                    V e = icmp(CmpInst::ICMP_EQ, c, C(cs.getCaseValue()->getZExtValue()), t);
                    if (decide(e, 1)) { next = cs.getCaseSuccessor(); break; }
                }
                break;
            }
            case Instruction::Unreachable: die("unreachable", "unreachable code executed");
            case Instruction::Alloca: {
                auto *a = cast<AllocaInst>(i);
                uint64_t n = concretize(get(f, a->getArraySize()), {TI, 64}) * DL->getTypeAllocSize(a->getAllocatedType());
                if ((int64_t)n < 0) die("memory", "negative array size");
                uint64_t p = newobj(n, "local " + a->getName().str() + " of " + fn->getName().str(), false, false);
                f.allocas.push_back(p);
                f.s[f.fi->slot[i]] = C(p);
                break;
            }
            case Instruction::Load: {
                uint64_t p = concretize(get(f, i->getOperand(0)), {TP, 64});
                CUR = i;
                Ty t = tyof(i->getType());
                f.s[f.fi->slot[i]] = load(p, t, DL->getTypeStoreSize(i->getType()));
                break;
            }
            case Instruction::Store: {
                uint64_t p = concretize(get(f, i->getOperand(1)), {TP, 64});
                CUR = i;
                Type *ty = i->getOperand(0)->getType();
                store(p, get(f, i->getOperand(0)), tyof(ty), DL->getTypeStoreSize(ty));
                break;
            }
            case Instruction::GetElementPtr: f.s[f.fi->slot[i]] = gepOff(cast<GEPOperator>(i), [&](const Value *v) { return get(f, v); }); break;
            case Instruction::ICmp: f.s[f.fi->slot[i]] = icmp(cast<ICmpInst>(i)->getPredicate(), get(f, i->getOperand(0)), get(f, i->getOperand(1)), tyof(i->getOperand(0)->getType())); break;
            case Instruction::FCmp: f.s[f.fi->slot[i]] = fcmp(cast<FCmpInst>(i)->getPredicate(), get(f, i->getOperand(0)), get(f, i->getOperand(1)), tyof(i->getOperand(0)->getType())); break;
            case Instruction::FNeg: {
                V a = get(f, i->getOperand(0));
                Ty t = tyof(i->getType());
                V r;
                if (a.k == 2) {
                    auto q = iforms.find(a.c);
                    if (q != iforms.end()) r = ifV(linScale(q->second.n, -1), q->second.s, -q->second.hi, -q->second.lo);
                    else { need_general_solver(); r = Zv(z3::expr(*Z, Z3_mk_fpa_neg(*Z, pool[a.c]))); }
                    r.undef = a.undef;
                }
                else r = t.t == TF ? apply1(a, [](uint64_t x) -> uint64_t { return x ^ 0x80000000ull; }) : apply1(a, [](uint64_t x) -> uint64_t { return x ^ 0x8000000000000000ull; });
                f.s[f.fi->slot[i]] = r;
                break;
            }
            case Instruction::Select: {
                V c = get(f, i->getOperand(0));
                if (c.undef) die("uninit", "a selection depends on an uninitialised value");
                V a = get(f, i->getOperand(1)), b = get(f, i->getOperand(2)), r;
                if (c.k == 0) r = c.c & 1 ? a : b;
                else if (c.k == 1 && a.k != 2 && b.k != 2 && a.undef == b.undef) { r = sel(c, a, b); r.undef = a.undef; }
                else if (a.undef == b.undef && selwide(c, a, b, tyof(i->getType()), r)) r.undef = a.undef;
                else r = decide(c, 1) ? a : b;
                f.s[f.fi->slot[i]] = r;
                break;
            }
            case Instruction::Freeze: f.s[f.fi->slot[i]] = get(f, i->getOperand(0)); break;
            case Instruction::Call: {
                auto *cb = cast<CallBase>(i);
                Function *cal = cb->getCalledFunction();
                if (!cal) {
                    Value *cv = cb->getCalledOperand()->stripPointerCasts();
                    cal = dyn_cast<Function>(cv);
                    if (!cal) { uint64_t p = concretize(get(f, cv), {TP, 64}); auto j = faddr.find(p); if (j == faddr.end()) die("memory", "call through a wild pointer"); cal = j->second; }
                }
                if (isa<DbgInfoIntrinsic>(cb)) break;
                std::vector<V> av;
                for (auto &a : cb->args()) { if (a->getType()->isMetadataTy()) { av.push_back(C(0)); continue; } av.push_back(get(f, a)); }
                V r = call(cal, av, cb);
                CUR = i;
                if (!i->getType()->isVoidTy()) f.s[f.fi->slot[i]] = r;
                break;
            }
            default:
                if (auto *bo = dyn_cast<BinaryOperator>(i)) {
                    bool nsw = isa<OverflowingBinaryOperator>(bo) && cast<OverflowingBinaryOperator>(bo)->hasNoSignedWrap();
                    f.s[f.fi->slot[i]] = binop(op, get(f, i->getOperand(0)), get(f, i->getOperand(1)), tyof(i->getType()), nsw);
                } else if (isa<CastInst>(i)) f.s[f.fi->slot[i]] = castop(op, get(f, i->getOperand(0)), tyof(i->getOperand(0)->getType()), tyof(i->getType()));
                else unsupported(std::string("instruction ") + i->getOpcodeName());
            }
        }
        prev = bb;
        bb = next;
    }
}
static void initmem(uint64_t p, const Constant *c)
{
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t es = DL->getTypeAllocSize(d->getElementType());
        for (unsigned i = 0; i < d->getNumElements(); i++) store(p + i * es, evalConst(d->getElementAsConstant(i)), tyof(d->getElementType()), es);
        return;
    }
    if (auto *a = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initmem(p + i * es, a->getOperand(i)); return; }
    if (auto *s = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initmem(p + sl->getElementOffset(i), s->getOperand(i)); return; }
    store(p, evalConst(c), tyof(t), DL->getTypeStoreSize(t));
}

int main(int argc, char **argv)
{
    // msym FILE.bc OUT deadline_s workers [-nooverflow] [-maxinstr N] [-maxnodes N] [-maxfail N]
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("msym", errs()); return 3; }
    OUTFD = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    DEADLINE = now() + atof(argv[3]);
    int workers = atoi(argv[4]);
    for (int i = 5; i < argc; i++) {
        std::string o = argv[i];
        if (o == "-nooverflow") OPT_OVERFLOW = false;
        else if (o == "-maxinstr") MAXINSTR = atol(argv[++i]);
        else if (o == "-maxnodes") MAXNODES = atol(argv[++i]);
        else if (o == "-maxfail") MAXFAIL = atoi(argv[++i]);
        else if (o == "-maxsamples") MAXSAMPLES = atoi(argv[++i]);
    }
    struct rlimit rl = {1024UL << 20, 1024UL << 20};
    setrlimit(RLIMIT_STACK, &rl);
    DL = &M->getDataLayout();
    SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void *)SH, 0, sizeof(Shared));
    sem_init(&SH->slots, 1, workers - 1);
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        z3::context z; Z = &z;
        std::vector<z3::expr> as; asserted = &as;
        P = mkleaf(1);
        z3::solver s(z, getenv("MSYM_GENERAL") ? "QF_BV" : "QF_FD"); S = &s;
        uint64_t fa = 0x7f00000000000000ull;
        for (auto &g : M->functions()) { gaddr[&g] = fa; faddr[fa] = &g; fa += 16; }
        std::vector<GlobalVariable *> gv;
        for (auto &g : M->globals()) {
            if (g.getName().startswith("llvm.")) continue;
            gaddr[&g] = newobj(DL->getTypeAllocSize(g.getValueType()), "global " + g.getName().str(), false, true);
            gv.push_back(&g);
        }
        for (auto *g : gv) if (g->hasInitializer()) initmem(gaddr[g], g->getInitializer());
        for (auto *g : gv) if (g->isConstant()) objs[(gaddr[g] >> 32) - 1]->ro = true;
        Function *mn = M->getFunction("main");
        if (!mn) { emit("UNSUPPORTED\tno main\t"); _exit(3); }
        std::vector<V> args = {C(0), C(0)};
        run(mn, args);
        CUR = nullptr;
        path_end();
    }
    int st;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) { SH->unsupported++; emit("UNSUPPORTED\troot worker died on signal " + std::to_string(WTERMSIG(st)) + "\t"); }
    char buf[600];
    snprintf(buf, sizeof buf, "STATS\tpaths=%ld\tforks=%ld\tqueries=%ld\tsolver_us=%ld\tasserts=%ld\tfails=%ld\tinstrs=%ld\ttimeouts=%ld\tunsupported=%ld\tassumed_out=%ld\tkilled=%ld",
             SH->paths.load(), SH->forks.load(), SH->queries.load(), SH->solver_us.load(), SH->asserts.load(), SH->fails.load(), SH->instrs.load(), SH->timeouts.load(), SH->unsupported.load(), SH->assumed_out.load(), SH->killed.load());
    emit(buf);
    return 0;
}
