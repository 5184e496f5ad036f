// Symbolic runtime: shadow memory, Z3 expression building, fork-based exploration.
#include "vt.h"
#include <z3.h>
#include <algorithm>
#include <atomic>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <malloc.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <cxxabi.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

// ---- ABI shared with the instrumented code ---------------------------------
#define EXPORT extern "C" __attribute__((visibility("default"), used))
extern "C" {
__attribute__((visibility("default"))) Z3_ast vt_aslot[64];
__attribute__((visibility("default"))) void* vt_arg_tag = nullptr;
__attribute__((visibility("default"))) Z3_ast vt_ret[16];
__attribute__((visibility("default"))) void* vt_ret_tag = nullptr;
__attribute__((visibility("default"))) unsigned char vt_page[1 << 20];
}

// ---- shared statistics -------------------------------------------------------
struct Label { char name[64]; std::atomic<long> n; };
struct Shared {
    std::atomic<int> tokens;
    std::atomic<int> stop;
    std::atomic<long> paths, infeasible, truncated, skipped, crashed;
    std::atomic<long> forks, branches, queries, unknowns, solver_ns, queries_sat, queries_unsat;
    std::atomic<long> asserts, asserts_const, asserts_syntactic, asserts_rounding, asserts_outside, asserts_proved, asserts_unknown, violations;
    std::atomic<long> unsupported, realconc, conc, divassume;
    std::atomic<long> programs;
    std::atomic<int> nviol, npath;
    std::atomic<int> lock;
    int nlabels;
    Label labels[64];
    int nsamples;
    char samples[12][600];
    int nunsup;
    char unsup[12][200];
    unsigned long funcs[1 << 15];
    std::atomic<long> maxdepth;
    std::atomic<long> undecided_files;
};
static Shared* sh;
static double deadline;
static double t0;
static int maxViol = 6;
static std::string outDir, scratchBase, scratchDir;
static unsigned rlimitBranch = 3000000, rlimitAssert = 40000000;
static long maxConc = 2000;

static double now() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
struct Lk {
    Lk() { int z = 0; while (!sh->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(50); } }
    ~Lk() { sh->lock = 0; }
};

static Z3_context ctx;
static Z3_solver solver;
static Z3_sort sBool, sReal;
static std::map<int, Z3_sort> sBV;
static std::unordered_map<Z3_ast, uint64_t> fixedVal;   // concretised bit-vectors
static std::unordered_map<Z3_ast, int> fixedBool;       // decided conditions
static std::vector<Z3_ast> pc;                          // path condition
static std::vector<Z3_ast> divNZ;                       // divisors assumed nonzero
static std::unordered_set<Z3_ast> divSeen;
static std::vector<pid_t> kids;
static bool ownToken = false;
static Z3_model lastModel = nullptr;
static bool realsUsed = false;
static long depth = 0;
struct Input { std::string name; Z3_ast ast; int kind; long lo, hi; };  // kind 0 real 1 int
static std::vector<Input> inputs;
static std::map<std::string, int> nameCount;
static std::vector<std::string> notes;
static bool inRt = false;

static Z3_sort bv(int w) {
    auto& s = sBV[w];
    if (!s) s = Z3_mk_bv_sort(ctx, w);
    return s;
}
static void die(const char* m) {
    fprintf(stderr, "vtrt: %s\n", m);
    sh->crashed++;
    _exit(9);
}
static void zerr(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "vtrt: z3 error %s\n", Z3_get_error_msg(c, e));
    { Lk l; if (sh->nunsup < 12) snprintf(sh->unsup[sh->nunsup++], 200, "z3 error: %s", Z3_get_error_msg(c, e)); }
    sh->unsupported++;
    sh->truncated++;
    _exit(9);
}
extern "C" char __executable_start, etext;
static void hit(void* ra) {
    unsigned long a = (unsigned long) ra;
    if (a < (unsigned long) &__executable_start || a > (unsigned long) &etext) return;
    unsigned h = (a * 0x9E3779B97F4A7C15ull) >> 49;
    for (int i = 0; i < 16; ++i) {
        unsigned long& s = sh->funcs[(h + i) & 0x7fff];
        if (s == a) return;
        if (s == 0) { s = a; return; }
    }
}
#define HIT hit(__builtin_return_address(0))

static void finish(int code);
static void unsupported(const char* what, bool end = false) {
    sh->unsupported++;
    { Lk l;
      bool f = false;
      for (int i = 0; i < sh->nunsup; ++i) if (!strcmp(sh->unsup[i], what)) f = true;
      if (!f && sh->nunsup < 12) snprintf(sh->unsup[sh->nunsup++], 200, "%s", what); }
    if (getenv("VT_UNSUP_ABORT")) abort();
    if (end) { sh->truncated++; finish(0); }
}

// ---- helpers ------------------------------------------------------------------
static Z3_sort_kind kindOf(Z3_ast a) { return Z3_get_sort_kind(ctx, Z3_get_sort(ctx, a)); }
static bool isReal(Z3_ast a) { return kindOf(a) == Z3_REAL_SORT; }
static int bvw(Z3_ast a) {
    Z3_sort s = Z3_get_sort(ctx, a);
    if (Z3_get_sort_kind(ctx, s) == Z3_BV_SORT) return Z3_get_bv_sort_size(ctx, s);
    return 0;
}
static bool isTrue(Z3_ast a) { return Z3_get_bool_value(ctx, a) == Z3_L_TRUE; }
static bool isFalse(Z3_ast a) { return Z3_get_bool_value(ctx, a) == Z3_L_FALSE; }
static Z3_ast mkBV(uint64_t v, int w) {
    if (w < 64) v &= (1ull << w) - 1;
    return Z3_mk_unsigned_int64(ctx, v, bv(w));
}
static std::string dbl2(std::string s) {
    int c = 0;
    for (int i = s.size() - 1; i >= 0; --i) {
        int d = (s[i] - '0') * 2 + c;
        s[i] = '0' + d % 10;
        c = d / 10;
    }
    if (c) s.insert(s.begin(), '0' + c);
    return s;
}
static std::unordered_map<uint64_t, Z3_ast> realConst;
static Z3_ast mkReal(double d) {
    uint64_t bits;
    memcpy(&bits, &d, 8);
    auto it = realConst.find(bits);
    if (it != realConst.end()) return it->second;
    std::string s;
    if (d == 0) s = "0";
    else {
        int e;
        double m = frexp(fabs(d), &e);
        uint64_t im = (uint64_t) ldexp(m, 53);
        e -= 53;
        while (!(im & 1)) { im >>= 1; ++e; }
        s = std::to_string(im);
        if (e >= 0) { for (int i = 0; i < e; ++i) s = dbl2(s); }
        else {
            std::string den = "1";
            for (int i = 0; i < -e; ++i) den = dbl2(den);
            s += "/" + den;
        }
        if (d < 0) s = "-" + s;
    }
    return realConst[bits] = Z3_mk_numeral(ctx, s.c_str(), sReal);
}
static bool isNum(Z3_ast a) { return Z3_get_ast_kind(ctx, a) == Z3_NUMERAL_AST; }
static bool isZero(Z3_ast a) { return isNum(a) && !strcmp(Z3_get_numeral_string(ctx, a), "0"); }
static bool isOne(Z3_ast a) { return isNum(a) && !strcmp(Z3_get_numeral_string(ctx, a), "1"); }
static double numToDouble(Z3_ast a) {
    // rational numeral -> nearest-ish double through long double
    Z3_string s = Z3_get_numeral_decimal_string(ctx, a, 40);
    std::string t = s;
    if (!t.empty() && t.back() == '?') t.pop_back();
    double dec = strtod(t.c_str(), nullptr);
    std::string q = Z3_get_numeral_string(ctx, a);
    auto p = q.find('/');
    if (p != std::string::npos && std::fabs(dec) < 1e-20) {
        return (double) (strtold(q.substr(0, p).c_str(), nullptr) / strtold(q.substr(p + 1).c_str(), nullptr));
    }
    return dec;
}
static Z3_ast toBool(Z3_ast a) {
    int w = bvw(a);
    if (!w) return a;
    return Z3_mk_eq(ctx, Z3_mk_extract(ctx, 0, 0, a), mkBV(1, 1));
}
static Z3_ast boolToBV(Z3_ast b, int w) {
    if (isTrue(b)) return mkBV(1, w);
    if (isFalse(b)) return mkBV(0, w);
    return Z3_mk_ite(ctx, b, mkBV(1, w), mkBV(0, w));
}
static Z3_ast mkBoolC(bool b) { return b ? Z3_mk_true(ctx) : Z3_mk_false(ctx); }
// integer operand: w==1 -> Bool sort
static Z3_ast iop(Z3_ast s, uint64_t v, int w) {
    if (!s) return w == 1 ? mkBoolC(v & 1) : mkBV(v, w);
    if (isReal(s)) { unsupported("bit-level operation on a symbolic real", true); }
    if (w == 1) return toBool(s);
    if (kindOf(s) == Z3_BOOL_SORT) return boolToBV(s, w);
    int k = bvw(s);
    if (k == w) return s;
    if (k > w) return Z3_mk_extract(ctx, w - 1, 0, s);
    return Z3_mk_zero_ext(ctx, w - k, s);
}
static Z3_ast rop(Z3_ast s, double v) {
    if (s) {
        if (!isReal(s)) { unsupported("floating point operation on symbolic integer bits", true); }
        return s;
    }
    if (!std::isfinite(v)) return nullptr;
    return mkReal(v);
}
static Z3_ast simp(Z3_ast a) { return Z3_simplify(ctx, a); }

// ---- solver ---------------------------------------------------------------------
static Z3_lbool check(Z3_solver s, int nass = 0, Z3_ast const* ass = nullptr) {
    timespec a, b;
    clock_gettime(CLOCK_MONOTONIC, &a);
    Z3_lbool r = nass ? Z3_solver_check_assumptions(ctx, s, nass, ass) : Z3_solver_check(ctx, s);
    clock_gettime(CLOCK_MONOTONIC, &b);
    sh->queries++;
    sh->solver_ns += (b.tv_sec - a.tv_sec) * 1000000000l + (b.tv_nsec - a.tv_nsec);
    if (r == Z3_L_UNDEF) sh->unknowns++;
    else if (r == Z3_L_TRUE) sh->queries_sat++;
    else sh->queries_unsat++;
    return r;
}
static void setRlimit(Z3_solver s, unsigned n) {
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), n);
    Z3_solver_set_params(ctx, s, p);
}
static void addPC(Z3_ast c) {
    pc.push_back(c);
    Z3_solver_assert(ctx, solver, c);
    if (lastModel) {
        Z3_ast v;
        if (!Z3_model_eval(ctx, lastModel, c, true, &v) || !isTrue(v)) lastModel = nullptr;
    }
}
static Z3_lbool feasible(Z3_ast c, Z3_model* m) {
    Z3_solver_push(ctx, solver);
    Z3_solver_assert(ctx, solver, c);
    Z3_lbool r = check(solver);
    if (r == Z3_L_TRUE && m) {
        *m = Z3_solver_get_model(ctx, solver);
        Z3_model_inc_ref(ctx, *m);
    }
    Z3_solver_pop(ctx, solver, 1);
    return r;
}

static void writeModel(const char* fn, Z3_model m, const char* kind, const char* msg) {
    FILE* f = fopen(fn, "w");
    if (!f) return;
    fprintf(f, "# kind %s\n# msg %s\n", kind, msg);
    for (auto& s : notes) fprintf(f, "# note %s\n", s.c_str());
    for (auto& i : inputs) {
        Z3_ast v = nullptr;
        if (m && Z3_model_eval(ctx, m, i.ast, true, &v) && v) {
            if (i.kind == 1) {
                uint64_t u = 0;
                Z3_get_numeral_uint64(ctx, v, &u);
                fprintf(f, "%s %ld\n", i.name.c_str(), (long) u);
            } else {
                double d = 0;
                if (isNum(v)) d = numToDouble(v);
                else {
                    Z3_ast lo = Z3_is_algebraic_number(ctx, v) ? Z3_get_algebraic_number_lower(ctx, v, 30) : nullptr;
                    if (lo) d = numToDouble(lo);
                }
                fprintf(f, "%s %.17g\n", i.name.c_str(), d);
            }
        }
    }
    fclose(f);
}

static void saveModel(Z3_model m, const char* kind, const char* msg, bool confirmed) {
    int n = sh->nviol++;
    if (n >= maxViol) return;
    char fn[600];
    snprintf(fn, sizeof fn, "%s/cex_%d.%s", outDir.c_str(), n, confirmed ? "viol" : "cand");
    writeModel(fn, m, kind, msg);
}

static int wantPaths = 0;
static void savePath() {
    if (sh->npath >= wantPaths) return;
    // spread the samples: the first few paths and then every 2^k-th
    long k = sh->paths;
    if (k > 4 && (k & (k - 1))) return;
    int n = sh->npath++;
    if (n >= wantPaths) return;
    inRt = true;
    Z3_model m = lastModel;
    if (!m) {
        if (check(solver) != Z3_L_TRUE) return;
        m = Z3_solver_get_model(ctx, solver);
        Z3_model_inc_ref(ctx, m);
    }
    char fn[600];
    snprintf(fn, sizeof fn, "%s/path_%d.txt", outDir.c_str(), n);
    writeModel(fn, m, "path", "completed path");
}
static void finish(int) {
    fflush(0);
    if (ownToken) { sh->tokens++; ownToken = false; }
    for (pid_t k : kids) {
        int st;
        while (waitpid(k, &st, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(st) || WEXITSTATUS(st) == 9) { if (!WIFEXITED(st)) sh->crashed++; }
    }
    _exit(0);
}
static void savePath();
static void endPath(std::atomic<long>& c) {
    long n = c++;
    if (&c == &sh->paths && !inRt) savePath();
    (void) n;
    long d = sh->maxdepth;
    while (depth > d && !sh->maxdepth.compare_exchange_weak(d, depth)) {}
    finish(0);
}
static void setAlarm();
// true in the child
static bool vfork_() {
    sh->forks++;
    fflush(0);
    int t = sh->tokens;
    bool got = false;
    while (t > 0 && !(got = sh->tokens.compare_exchange_weak(t, t - 1))) {}
    pid_t p = fork();
    if (p < 0) {
        if (got) sh->tokens++;
        sh->truncated++;
        return false;
    }
    if (p == 0) {
        ownToken = got;
        kids.clear();
        scratchDir.clear();
        setAlarm();
        return true;
    }
    if (got) kids.push_back(p);
    else {
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(st)) sh->crashed++;
        setAlarm();
    }
    return false;
}
static void checkStop() {
    if (sh->stop || now() > deadline) {
        sh->stop = 1;
        endPath(sh->truncated);
    }
    if (sh->nviol >= maxViol) { sh->stop = 1; endPath(sh->truncated); }
}

// decide a Boolean condition on this path, forking when both sides are feasible
static bool decide(Z3_ast c0) {
    sh->branches++;
    Z3_ast c = simp(c0);
    if (isTrue(c)) return true;
    if (isFalse(c)) return false;
    auto it = fixedBool.find(c);
    if (it != fixedBool.end()) return it->second;
    checkStop();
    inRt = true;
    Z3_ast nc = simp(Z3_mk_not(ctx, c));
    int know = -1;  // side known feasible from the cached model
    if (lastModel) {
        Z3_ast v;
        if (Z3_model_eval(ctx, lastModel, c, true, &v)) {
            if (isTrue(v)) know = 1;
            else if (isFalse(v)) know = 0;
        }
    }
    Z3_model mT = nullptr, mF = nullptr;
    bool fT, fF;
    if (know == 1) { fT = true; mT = lastModel; }
    else fT = feasible(c, &mT) != Z3_L_FALSE;
    if (know == 0) { fF = true; mF = lastModel; }
    else fF = feasible(nc, &mF) != Z3_L_FALSE;
    bool r;
    if (fT && fF) {
        ++depth;
        bool child = vfork_();
        r = !child;
        addPC(r ? c : nc);
        lastModel = r ? mT : mF;
    } else if (fT) { r = true; lastModel = mT; }
    else if (fF) { r = false; lastModel = mF; }
    else endPath(sh->infeasible), r = false;
    fixedBool[c] = r;
    fixedBool[nc] = !r;
    inRt = false;
    checkStop();
    return r;
}
static uint64_t concBV(Z3_ast e0) {
    Z3_ast e = simp(e0);
    int w = bvw(e);
    uint64_t v = 0;
    if (isNum(e)) { Z3_get_numeral_uint64(ctx, e, &v); return v; }
    auto it = fixedVal.find(e);
    if (it != fixedVal.end()) return it->second;
    inRt = true;
    sh->conc++;
    for (long n = 0;; ++n) {
        checkStop();
        if (!lastModel) {
            Z3_lbool r = check(solver);
            if (r == Z3_L_FALSE) endPath(sh->infeasible);
            if (r == Z3_L_UNDEF) { unsupported("solver gave up while concretising", true); }
            lastModel = Z3_solver_get_model(ctx, solver);
            Z3_model_inc_ref(ctx, lastModel);
        }
        Z3_ast mv;
        if (!Z3_model_eval(ctx, lastModel, e, true, &mv) || !isNum(mv)) { unsupported("no model value", true); }
        Z3_get_numeral_uint64(ctx, mv, &v);
        Z3_ast eq = Z3_mk_eq(ctx, e, mkBV(v, w));
        Z3_ast ne = Z3_mk_not(ctx, eq);
        Z3_model m2 = nullptr;
        Z3_lbool o = feasible(ne, &m2);
        if (o == Z3_L_FALSE) break;
        if (n > maxConc) { unsupported("too many values while concretising"); sh->truncated++; Z3_model k = lastModel; addPC(eq); lastModel = k; break; }
        ++depth;
        if (vfork_()) {  // child takes the value
            Z3_model k = lastModel;
            addPC(eq);
            lastModel = k;
            break;
        }
        addPC(ne);
        lastModel = m2;
    }
    fixedVal[e] = v;
    fixedVal[e0] = v;
    inRt = false;
    return v;
}

// ---- entry points called by instrumented code -------------------------------------
EXPORT int vt_branch(int, Z3_ast s) { HIT; return decide(toBool(s)); }
EXPORT uint64_t vt_conc(uint64_t, Z3_ast s, int w) {
    HIT;
    if (isReal(s)) unsupported("bits of a symbolic real used as an integer", true);
    if (w == 1) return decide(toBool(s));
    if (kindOf(s) == Z3_BOOL_SORT) return decide(s);
    return concBV(s);
}
EXPORT double vt_conc_real(double, Z3_ast s) {
    if (!isReal(s)) { unsupported("integer bits used as a real", true); }
    Z3_ast e = simp(s);
    if (isNum(e)) return numToDouble(e);
    sh->realconc++;
    if (!lastModel) {
        Z3_lbool r = check(solver);
        if (r == Z3_L_FALSE) endPath(sh->infeasible);
        if (r != Z3_L_TRUE) unsupported("solver gave up on a real value", true);
        lastModel = Z3_solver_get_model(ctx, solver);
        Z3_model_inc_ref(ctx, lastModel);
    }
    Z3_ast mv;
    Z3_model_eval(ctx, lastModel, e, true, &mv);
    if (!isNum(mv)) unsupported("irrational value needed", true);
    Z3_ast eq = Z3_mk_eq(ctx, e, mv);
    if (feasible(Z3_mk_not(ctx, eq), nullptr) != Z3_L_FALSE) {
        unsupported("symbolic real passed to uninstrumented code (restricted to one value)");
        sh->truncated++;
        Z3_model k = lastModel;
        addPC(eq);
        lastModel = k;
    }
    return numToDouble(mv);
}
EXPORT void vt_unsupported(int n) {
    char b[64];
    snprintf(b, 64, "unsupported instruction class %d", n);
    unsupported(b, true);
}
enum { IAdd = 13, IFAdd, ISub, IFSub, IMul, IFMul, IUDiv, ISDiv, IFDiv, IURem, ISRem, IFRem, IShl, ILShr, IAShr, IAnd, IOr, IXor };
EXPORT Z3_ast vt_ibin(int op, int w, uint64_t a, uint64_t b, Z3_ast sa, Z3_ast sb) {
    HIT;
    // moving a real through integer registers must not hit this
    Z3_ast x = iop(sa, a, w), y = iop(sb, b, w);
    if (w == 1) {
        Z3_ast ar[2] = {x, y};
        switch (op) {
            case IAnd: case IMul: return simp(Z3_mk_and(ctx, 2, ar));
            case IOr: return simp(Z3_mk_or(ctx, 2, ar));
            case IXor: case IAdd: case ISub: return simp(Z3_mk_xor(ctx, x, y));
            default: break;
        }
        x = boolToBV(x, 1);
        y = boolToBV(y, 1);
    }
    Z3_ast r = nullptr;
    switch (op) {
        case IAdd: r = Z3_mk_bvadd(ctx, x, y); break;
        case ISub: r = Z3_mk_bvsub(ctx, x, y); break;
        case IMul: r = Z3_mk_bvmul(ctx, x, y); break;
        case IUDiv: case ISDiv: case IURem: case ISRem: {
            if (sb) {
                if (!decide(Z3_mk_not(ctx, Z3_mk_eq(ctx, y, mkBV(0, w))))) {
                    // division by zero on this path: real code would trap
                    raise(SIGFPE);
                }
            }
            r = op == IUDiv ? Z3_mk_bvudiv(ctx, x, y) : op == ISDiv ? Z3_mk_bvsdiv(ctx, x, y)
                : op == IURem ? Z3_mk_bvurem(ctx, x, y) : Z3_mk_bvsrem(ctx, x, y);
            break;
        }
        case IShl: r = Z3_mk_bvshl(ctx, x, y); break;
        case ILShr: r = Z3_mk_bvlshr(ctx, x, y); break;
        case IAShr: r = Z3_mk_bvashr(ctx, x, y); break;
        case IAnd: r = Z3_mk_bvand(ctx, x, y); break;
        case IOr: r = Z3_mk_bvor(ctx, x, y); break;
        case IXor: r = Z3_mk_bvxor(ctx, x, y); break;
        case 100: r = Z3_mk_ite(ctx, Z3_mk_bvult(ctx, x, y), x, y); break;
        case 101: r = Z3_mk_ite(ctx, Z3_mk_bvugt(ctx, x, y), x, y); break;
        case 102: r = Z3_mk_ite(ctx, Z3_mk_bvslt(ctx, x, y), x, y); break;
        case 103: r = Z3_mk_ite(ctx, Z3_mk_bvsgt(ctx, x, y), x, y); break;
        case 104: { Z3_ast s = Z3_mk_bvadd(ctx, x, y); r = Z3_mk_ite(ctx, Z3_mk_bvult(ctx, s, x), mkBV(~0ull, w), s); break; }
        case 105: r = Z3_mk_ite(ctx, Z3_mk_bvult(ctx, x, y), mkBV(0, w), Z3_mk_bvsub(ctx, x, y)); break;
        case 106: r = Z3_mk_ite(ctx, Z3_mk_bvslt(ctx, x, mkBV(0, w)), Z3_mk_bvneg(ctx, x), x); break;
        default: unsupported("integer opcode", true);
    }
    if (w == 1) return toBool(r);
    return simp(r);
}
EXPORT Z3_ast vt_ovf(int k, int which, int w, uint64_t a, uint64_t b, Z3_ast sa, Z3_ast sb) {
    HIT;
    Z3_ast x = iop(sa, a, w), y = iop(sb, b, w);
    Z3_ast r = k % 3 == 0 ? Z3_mk_bvmul(ctx, x, y) : k % 3 == 1 ? Z3_mk_bvadd(ctx, x, y) : Z3_mk_bvsub(ctx, x, y);
    if (!which) return simp(r);
    Z3_ast no;
    switch (k) {
        case 0: no = Z3_mk_bvmul_no_overflow(ctx, x, y, false); break;
        case 1: no = Z3_mk_bvadd_no_overflow(ctx, x, y, false); break;
        case 2: no = Z3_mk_bvuge(ctx, x, y); break;
        case 3: { Z3_ast t[2] = {Z3_mk_bvmul_no_overflow(ctx, x, y, true), Z3_mk_bvmul_no_underflow(ctx, x, y)}; no = Z3_mk_and(ctx, 2, t); break; }
        case 4: { Z3_ast t[2] = {Z3_mk_bvadd_no_overflow(ctx, x, y, true), Z3_mk_bvadd_no_underflow(ctx, x, y)}; no = Z3_mk_and(ctx, 2, t); break; }
        default: { Z3_ast t[2] = {Z3_mk_bvsub_no_overflow(ctx, x, y), Z3_mk_bvsub_no_underflow(ctx, x, y, true)}; no = Z3_mk_and(ctx, 2, t); break; }
    }
    return simp(Z3_mk_not(ctx, no));
}
static bool lessId(Z3_ast a, Z3_ast b) { return Z3_get_ast_id(ctx, a) < Z3_get_ast_id(ctx, b); }
EXPORT Z3_ast vt_icmp(int p, int w, uint64_t a, uint64_t b, Z3_ast sa, Z3_ast sb) {
    HIT;
    Z3_ast x = iop(sa, a, w), y = iop(sb, b, w);
    if (w == 1) {
        if (p == 32) return simp(Z3_mk_eq(ctx, x, y));
        if (p == 33) return simp(Z3_mk_not(ctx, Z3_mk_eq(ctx, x, y)));
        x = boolToBV(x, 1);
        y = boolToBV(y, 1);
    }
    Z3_ast r;
    switch (p) {
        case 32: r = Z3_mk_eq(ctx, x, y); break;
        case 33: r = Z3_mk_not(ctx, Z3_mk_eq(ctx, x, y)); break;
        case 34: r = Z3_mk_bvugt(ctx, x, y); break;
        case 35: r = Z3_mk_bvuge(ctx, x, y); break;
        case 36: r = Z3_mk_bvult(ctx, x, y); break;
        case 37: r = Z3_mk_bvule(ctx, x, y); break;
        case 38: r = Z3_mk_bvsgt(ctx, x, y); break;
        case 39: r = Z3_mk_bvsge(ctx, x, y); break;
        case 40: r = Z3_mk_bvslt(ctx, x, y); break;
        default: r = Z3_mk_bvsle(ctx, x, y); break;
    }
    return simp(r);
}
EXPORT Z3_ast vt_cast(int w0, int w1, int sg, Z3_ast s) {
    HIT;
    if (isReal(s)) { unsupported("width change on the bits of a symbolic real", true); }
    if (w0 == 1) {
        Z3_ast b = toBool(s);
        if (!sg) return boolToBV(b, w1);
        return simp(Z3_mk_ite(ctx, b, mkBV(~0ull, w1), mkBV(0, w1)));
    }
    Z3_ast x = iop(s, 0, w0);
    if (w1 == 1) return simp(toBool(x));
    if (w1 < w0) return simp(Z3_mk_extract(ctx, w1 - 1, 0, x));
    return simp(sg ? Z3_mk_sign_ext(ctx, w1 - w0, x) : Z3_mk_zero_ext(ctx, w1 - w0, x));
}
EXPORT Z3_ast vt_ite(Z3_ast c, int w, uint64_t a, uint64_t b, Z3_ast sa, Z3_ast sb) {
    HIT;
    if ((sa && isReal(sa)) || (sb && isReal(sb))) {
        bool t = decide(toBool(c));
        Z3_ast s = t ? sa : sb;
        if (s) return s;
        double d;
        uint64_t v = t ? a : b;
        memcpy(&d, &v, 8);
        return mkReal(d);
    }
    return simp(Z3_mk_ite(ctx, toBool(c), iop(sa, a, w), iop(sb, b, w)));
}
EXPORT Z3_ast vt_gep(uint64_t base, Z3_ast sb, uint64_t idx, Z3_ast si, int w, int64_t scale) {
    HIT;
    Z3_ast b = iop(sb, base, 64);
    Z3_ast i;
    if (si) {
        i = iop(si, 0, w);
        if (w < 64) i = Z3_mk_sign_ext(ctx, 64 - w, i);
    } else i = mkBV(idx, 64);
    return simp(Z3_mk_bvadd(ctx, b, Z3_mk_bvmul(ctx, i, mkBV(scale, 64))));
}

// ---- reals -------------------------------------------------------------------------
static std::map<std::string, Z3_func_decl> ufs;
static Z3_func_decl uf(const std::string& n, int ar) {
    auto& d = ufs[n];
    if (!d) {
        Z3_sort dom[2] = {sReal, sReal};
        d = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, n.c_str()), ar, dom, sReal);
    }
    return d;
}
static Z3_ast rmul(Z3_ast a, Z3_ast b);
static Z3_ast radd(Z3_ast a, Z3_ast b) {
    if (isZero(a)) return b;
    if (isZero(b)) return a;
    if (isNum(a) && isNum(b)) { Z3_ast t[2] = {a, b}; return simp(Z3_mk_add(ctx, 2, t)); }
    if (lessId(b, a)) std::swap(a, b);
    Z3_ast t[2] = {a, b};
    return Z3_mk_add(ctx, 2, t);
}
static bool isApp(Z3_ast a, Z3_decl_kind k, Z3_app* app) {
    if (Z3_get_ast_kind(ctx, a) != Z3_APP_AST) return false;
    *app = Z3_to_app(ctx, a);
    return Z3_get_decl_kind(ctx, Z3_get_app_decl(ctx, *app)) == k;
}
static Z3_ast rneg(Z3_ast a) {
    if (isNum(a)) return simp(Z3_mk_unary_minus(ctx, a));
    Z3_app ap;
    if (isApp(a, Z3_OP_UMINUS, &ap)) return Z3_get_app_arg(ctx, ap, 0);
    return Z3_mk_unary_minus(ctx, a);
}
static Z3_ast rsub(Z3_ast a, Z3_ast b) {
    if (isZero(b)) return a;
    if (isZero(a)) return rneg(b);
    if (a == b) return mkReal(0);
    if (isNum(b)) return radd(a, simp(Z3_mk_unary_minus(ctx, b)));
    return radd(a, rneg(b));
}
static Z3_ast rmul(Z3_ast a, Z3_ast b) {
    if (isZero(a) || isZero(b)) return mkReal(0);
    if (isOne(a)) return b;
    if (isOne(b)) return a;
    if (isNum(a) && isNum(b)) { Z3_ast t[2] = {a, b}; return simp(Z3_mk_mul(ctx, 2, t)); }
    Z3_app ap;
    bool neg = false;
    if (isApp(a, Z3_OP_UMINUS, &ap)) { a = Z3_get_app_arg(ctx, ap, 0); neg = !neg; }
    if (isApp(b, Z3_OP_UMINUS, &ap)) { b = Z3_get_app_arg(ctx, ap, 0); neg = !neg; }
    if (lessId(b, a)) std::swap(a, b);
    Z3_ast t[2] = {a, b};
    Z3_ast r = Z3_mk_mul(ctx, 2, t);
    return neg ? rneg(r) : r;
}
// sum-of-monomials form (bounded growth): equal arguments of uninterpreted functions become identical
static Z3_params somParams(unsigned blow) {
    static std::map<unsigned, Z3_params> c;
    Z3_params& p = c[blow];
    if (!p) {
        p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_bool(ctx, p, Z3_mk_string_symbol(ctx, "som"), true);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "som_blowup"), blow);
    }
    return p;
}
static Z3_ast cancelInv(Z3_ast d);
static Z3_ast canon(Z3_ast a) {
    if (!a || isNum(a)) return a;
    static std::unordered_map<Z3_ast, Z3_ast> memo;
    auto it = memo.find(a);
    if (it != memo.end()) return it->second;
    Z3_ast r = cancelInv(Z3_simplify_ex(ctx, a, somParams(20)));
    memo[a] = r;
    return r;
}
static bool negLead(Z3_ast a) {
    Z3_app ap;
    if (isNum(a)) return numToDouble(a) < 0;
    if (isApp(a, Z3_OP_UMINUS, &ap)) return true;
    if (isApp(a, Z3_OP_ADD, &ap)) { // the first non-constant monomial decides
        for (unsigned i = 0; i < Z3_get_app_num_args(ctx, ap); ++i) {
            Z3_ast x = Z3_get_app_arg(ctx, ap, i);
            if (!isNum(x)) return negLead(x);
        }
        return false;
    }
    if (isApp(a, Z3_OP_MUL, &ap)) return isNum(Z3_get_app_arg(ctx, ap, 0)) && negLead(Z3_get_app_arg(ctx, ap, 0));
    return false;
}
static void assumeNZ(Z3_ast b) {
    if (!divSeen.insert(b).second) return;
    sh->divassume++;
    divNZ.push_back(b);
    addPC(Z3_mk_not(ctx, Z3_mk_eq(ctx, b, mkReal(0))));
}
static Z3_ast rinv(Z3_ast b) {
    if (isNum(b)) return simp(Z3_mk_div(ctx, mkReal(1), b));
    Z3_app ap;
    if (isApp(b, Z3_OP_UMINUS, &ap)) return rneg(rinv(Z3_get_app_arg(ctx, ap, 0)));
    if (isApp(b, Z3_OP_MUL, &ap) && Z3_get_app_num_args(ctx, ap) == 2)
        return rmul(rinv(Z3_get_app_arg(ctx, ap, 0)), rinv(Z3_get_app_arg(ctx, ap, 1)));
    if (isApp(b, Z3_OP_UNINTERPRETED, &ap) && Z3_get_app_decl(ctx, ap) == uf("inv", 1))
        return Z3_get_app_arg(ctx, ap, 0);
    Z3_ast cb = canon(b);
    if (cb != b && (isNum(cb) || (isApp(cb, Z3_OP_UMINUS, &ap)))) {
        if (isZero(cb)) endPath(sh->skipped);
        return rinv(cb);
    }
    b = cb;
    if (negLead(b)) return rneg(rinv(canon(Z3_mk_unary_minus(ctx, b))));
    assumeNZ(b);
    return Z3_mk_app(ctx, uf("inv", 1), 1, &b);
}
EXPORT Z3_ast vt_fneg(Z3_ast s) {
    HIT;
    if (!isReal(s)) unsupported("fneg on integer bits", true);
    return rneg(s);
}
EXPORT Z3_ast vt_fbin(int op, double a, double b, Z3_ast sa, Z3_ast sb) {
    HIT;
    Z3_ast x = rop(sa, a), y = rop(sb, b);
    if (!x || !y) {
        unsupported("arithmetic between a symbolic real and inf/nan", true);
        return nullptr;
    }
    switch (op) {
        case IFAdd: return radd(x, y);
        case IFSub: return rsub(x, y);
        case IFMul: return rmul(x, y);
        case IFDiv:
            if (isZero(y)) { endPath(sh->skipped); }   // 1/0: outside the claim
            if (x == y) { rinv(y); return mkReal(1); }
            return rmul(x, rinv(y));
        default: { Z3_ast t[2] = {x, y}; return Z3_mk_app(ctx, uf("fmod", 2), 2, t); }
    }
}
EXPORT Z3_ast vt_fma(double a, double b, double c, Z3_ast sa, Z3_ast sb, Z3_ast sc) {
    HIT;
    Z3_ast x = rop(sa, a), y = rop(sb, b), z = rop(sc, c);
    if (!x || !y || !z) unsupported("fma with inf/nan", true);
    return radd(rmul(x, y), z);
}
EXPORT Z3_ast vt_fcmp(int p, double a, double b, Z3_ast sa, Z3_ast sb) {
    HIT;
    // predicates: bits E=1 G=2 L=4 U=8 of LLVM's encoding (OEQ=1,OGT=2,OGE=3,OLT=4,..,ORD=7,UNO=8)
    if (p == 0) return Z3_mk_false(ctx);
    if (p == 15) return Z3_mk_true(ctx);
    Z3_ast x = rop(sa, a), y = rop(sb, b);
    if (!x || !y) {
        double cst = x ? b : a;
        if (std::isnan(cst)) return mkBoolC(p & 8);
        bool xgt = (x ? (cst < 0) : (cst > 0));  // left greater than right?
        return mkBoolC(p & (xgt ? 2 : 4));
    }
    int q = p & 7;
    if (q == 7) return Z3_mk_true(ctx);
    if (q == 0) return Z3_mk_false(ctx);
    if (!isNum(x)) x = canon(x);
    if (!isNum(y)) y = canon(y);
    Z3_ast r;
    switch (q) {
        case 1: r = Z3_mk_eq(ctx, x, y); break;
        case 2: r = Z3_mk_gt(ctx, x, y); break;
        case 3: r = Z3_mk_ge(ctx, x, y); break;
        case 4: r = Z3_mk_lt(ctx, x, y); break;
        case 5: r = Z3_mk_le(ctx, x, y); break;
        default: r = Z3_mk_not(ctx, Z3_mk_eq(ctx, x, y)); break;
    }
    return simp(r);
}
EXPORT Z3_ast vt_fpclass(Z3_ast s, int mask) {
    // symbolic reals: finite; classes 0x1f8 = neg/pos normal/subnormal/zero
    if ((mask & 0x1f8) == 0x1f8) return Z3_mk_true(ctx);
    if ((mask & 0x1f8) == 0) return Z3_mk_false(ctx);
    if (!isReal(s)) unsupported("fpclass", true);
    Z3_ast z = mkReal(0);
    int m = mask & 0x1f8;
    if (m == 0x38) return simp(Z3_mk_lt(ctx, s, z));
    unsupported("fpclass", true);
    return nullptr;
}
EXPORT Z3_ast vt_math(const char* n, int nargs, double a, double b, Z3_ast sa, Z3_ast sb) {
    HIT;
    Z3_ast x = rop(sa, a), y = nargs > 1 ? rop(sb, b) : nullptr;
    if (!x || (nargs > 1 && !y)) { unsupported("math function with inf/nan", true); }
    std::string f = n;
    if (f != "fabs" && f != "fmin" && f != "fmax") { x = canon(x); y = canon(y); }
    if (f == "fabs") {
        if (isNum(x)) return mkReal(fabs(numToDouble(x)));
        return decide(Z3_mk_ge(ctx, x, mkReal(0))) ? x : rneg(x);
    }
    if (f == "fmin") return decide(Z3_mk_le(ctx, x, y)) ? x : y;
    if (f == "fmax") return decide(Z3_mk_ge(ctx, x, y)) ? x : y;
    if (f == "copysign") {
        Z3_ast ax = decide(Z3_mk_ge(ctx, x, mkReal(0))) ? x : rneg(x);
        return decide(Z3_mk_ge(ctx, y, mkReal(0))) ? ax : rneg(ax);
    }
    if (f == "pow" && isNum(y)) {
        double e = numToDouble(y);
        if (e == std::floor(e) && fabs(e) <= 6) {
            int k = (int) fabs(e);
            Z3_ast r = mkReal(1);
            for (int i = 0; i < k; ++i) r = rmul(r, x);
            return e < 0 ? rinv(r) : r;
        }
    }
    if (f == "exp2") { Z3_ast t[2] = {mkReal(2), x}; return Z3_mk_app(ctx, uf("pow", 2), 2, t); }
    if (isNum(x) && nargs == 1) {
        double d = numToDouble(x);
        if (d == 0) {
            static const std::set<std::string> z = {"sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh", "erf", "expm1", "log1p", "sqrt", "floor", "ceil", "trunc", "round", "rint", "nearbyint", "cbrt"};
            static const std::set<std::string> o = {"cos", "cosh", "exp", "erfc"};
            if (z.count(f)) return mkReal(0);
            if (o.count(f)) return mkReal(1);
        }
        if (d == 1) { if (f == "log" || f == "log10" || f == "acos" || f == "acosh") return mkReal(0); if (f == "sqrt") return mkReal(1); }
    }
    if (isNum(x) && (nargs == 1 || isNum(y))) { // constants: as the C library computes them
        typedef double (*F1)(double);
        static const std::map<std::string, F1> f1 = {{"sin", sin}, {"cos", cos}, {"tan", tan}, {"asin", asin}, {"acos", acos}, {"atan", atan},
            {"sinh", sinh}, {"cosh", cosh}, {"tanh", tanh}, {"asinh", asinh}, {"acosh", acosh}, {"atanh", atanh}, {"exp", exp}, {"log", log},
            {"log10", log10}, {"log2", log2}, {"sqrt", sqrt}, {"cbrt", cbrt}, {"erf", erf}, {"erfc", erfc}, {"expm1", expm1}, {"log1p", log1p}};
        double v = std::nan("");
        if (nargs == 1) { auto it = f1.find(f); if (it != f1.end()) v = it->second(numToDouble(x)); }
        else if (f == "pow") v = std::pow(numToDouble(x), numToDouble(y));
        else if (f == "atan2") v = std::atan2(numToDouble(x), numToDouble(y));
        if (std::isfinite(v)) return mkReal(v);
    }
    if (nargs == 1) { // inverse pairs
        Z3_app ap;
        auto is = [&](const char* g) { return isApp(x, Z3_OP_UNINTERPRETED, &ap) && Z3_get_app_decl(ctx, ap) == uf(g, 1); };
        if (f == "log" && is("exp")) return Z3_get_app_arg(ctx, ap, 0);
        if ((f == "exp" || f == "sinh" || f == "cosh") && is("log")) {
            Z3_ast t = Z3_get_app_arg(ctx, ap, 0), half = mkReal(0.5);
            addPC(Z3_mk_gt(ctx, t, mkReal(0)));  // domain of the logarithm
            if (f == "exp") return t;
            Z3_ast u[2] = {t, rinv(t)};
            return rmul(half, f == "sinh" ? Z3_mk_sub(ctx, 2, u) : Z3_mk_add(ctx, 2, u));
        }
    }
    if (nargs == 1) { // odd and even functions: one representative for x and -x
        static const std::set<std::string> odd = {"sin", "tan", "asin", "atan", "sinh", "tanh", "erf", "asinh", "atanh", "cbrt"}, even = {"cos", "cosh"};
        bool o = odd.count(f), e = even.count(f);
        if ((o || e) && negLead(x)) {
            Z3_ast nx = canon(Z3_mk_unary_minus(ctx, x)), r = Z3_mk_app(ctx, uf(f, 1), 1, &nx);
            return o ? rneg(r) : r;
        }
    }
    Z3_ast t[2] = {x, y};
    Z3_ast r = Z3_mk_app(ctx, uf(f, nargs), nargs, t);
    return r;
}

// ---- memory -------------------------------------------------------------------------
struct Cell { Z3_ast e; uint16_t off, size; };
struct Page { Cell c[4096]; };
static std::unordered_map<uint64_t, Page*> pages;
static inline Page* pageOf(uint64_t a, bool mk) {
    uint64_t k = a >> 12;
    static uint64_t ck = ~0ull;
    static Page* cp = nullptr;
    if (k == ck && (cp || !mk)) return cp;
    auto it = pages.find(k);
    Page* p = nullptr;
    if (it != pages.end()) p = it->second;
    else if (mk) {
        p = (Page*) calloc(1, sizeof(Page));
        pages[k] = p;
    }
    ck = k;
    cp = p;
    return p;
}
static inline Cell* cell(uint64_t a) {
    Page* p = pageOf(a, false);
    return p ? &p->c[a & 4095] : nullptr;
}
static void mark(uint64_t a) {
    vt_page[(a >> 12) & 0xFFFFF] = 1;
    vt_page[((a >> 12) - 1) & 0xFFFFF] = 1;
}
EXPORT void vt_clear(void* p, uint64_t n) {
    uint64_t a = (uint64_t) p;
    uint64_t e = a + n;
    while (a < e) {
        uint64_t pe = std::min(e, (a | 4095) + 1);
        if (vt_page[(a >> 12) & 0xFFFFF]) {
            if (Page* pg = pageOf(a, false)) memset(&pg->c[a & 4095], 0, (pe - a) * sizeof(Cell));
        }
        a = pe;
    }
}
EXPORT void vt_free_clear(void* p) {
    if (p) vt_clear(p, malloc_usable_size(p));
}
EXPORT void vt_store(uint64_t a, uint64_t n, Z3_ast s, int w) {
    if (!s) { vt_clear((void*) a, n); return; }
    if (kindOf(s) == Z3_BOOL_SORT) s = boolToBV(s, 8 * n);
    else if (!isReal(s) && bvw(s) != (int) (8 * n)) s = iop(s, 0, 8 * n);
    for (uint64_t i = 0; i < n; ++i) {
        Page* p = pageOf(a + i, true);
        Cell& c = p->c[(a + i) & 4095];
        c.e = s;
        c.off = i;
        c.size = n;
        mark(a + i);
    }
}
EXPORT Z3_ast vt_load(uint64_t a, uint64_t n, int kind, int w) {
    Cell* c0 = cell(a);
    bool whole = c0 && c0->e && c0->off == 0 && c0->size == n;
    bool any = false;
    for (uint64_t i = 0; i < n; ++i) {
        Cell* c = cell(a + i);
        if (c && c->e) any = true;
        if (whole && !(c && c->e == c0->e && c->off == i && c->size == n)) whole = false;
    }
    if (!any) return nullptr;
    HIT;
    if (whole) {
        Z3_ast s = c0->e;
        bool fp = kind >= 1 && kind <= 3;
        if (fp && !isReal(s)) { unsupported("integer bits loaded as a real", true); }
        if (kind == 0 && w == 1) return toBool(s);
        return s;
    }
    if (kind >= 1 && kind <= 3) { unsupported("partially symbolic real in memory", true); }
    Z3_ast r = nullptr;
    for (uint64_t i = 0; i < n; ++i) {
        Cell* c = cell(a + i);
        Z3_ast b;
        if (c && c->e) {
            if (isReal(c->e)) { unsupported("bytes of a symbolic real accessed", true); }
            b = Z3_mk_extract(ctx, c->off * 8 + 7, c->off * 8, c->e);
        } else b = mkBV(*(unsigned char*) (a + i), 8);
        r = r ? Z3_mk_concat(ctx, b, r) : b;
    }
    r = simp(r);
    if (kind == 0 && w == 1) return toBool(r);
    return r;
}
EXPORT void vt_copy(void* d, void* s, uint64_t n) {
    uint64_t da = (uint64_t) d, sa = (uint64_t) s;
    if (!n || da == sa) return;
    bool any = false;
    for (uint64_t p = sa >> 12; p <= (sa + n - 1) >> 12 && !any; ++p) any = vt_page[p & 0xFFFFF];
    if (!any) { vt_clear(d, n); return; }
    auto one = [&](uint64_t i) {
        Cell* c = cell(sa + i);
        if (c && c->e) {
            Cell v = *c;
            Page* p = pageOf(da + i, true);
            p->c[(da + i) & 4095] = v;
            mark(da + i);
        } else if (vt_page[((da + i) >> 12) & 0xFFFFF]) {
            Cell* q = cell(da + i);
            if (q) q->e = nullptr;
        }
    };
    if (da < sa) for (uint64_t i = 0; i < n; ++i) one(i);
    else for (uint64_t i = n; i-- > 0;) one(i);
}
EXPORT void* vt_realloc_pre(void* p, uint64_t n) {
    if (!p) return nullptr;
    uint64_t m = std::min<uint64_t>(malloc_usable_size(p), n);
    auto* v = new std::vector<Cell>(m);
    for (uint64_t i = 0; i < m; ++i) { Cell* c = cell((uint64_t) p + i); if (c) (*v)[i] = *c; else (*v)[i].e = nullptr; }
    vt_free_clear(p);
    return v;
}
EXPORT void vt_realloc_post(void* p, uint64_t n, void* tok) {
    if (!p) return;
    vt_clear(p, n);
    auto* v = (std::vector<Cell>*) tok;
    if (!v) return;
    for (uint64_t i = 0; i < v->size(); ++i)
        if ((*v)[i].e) { Page* q = pageOf((uint64_t) p + i, true); q->c[((uint64_t) p + i) & 4095] = (*v)[i]; mark((uint64_t) p + i); }
    delete v;
}
EXPORT Z3_ast vt_memcmp(void* a, void* b, uint64_t n, int w) {
    bool any = false;
    for (uint64_t i = 0; i < n; ++i) {
        Cell *x = cell((uint64_t) a + i), *y = cell((uint64_t) b + i);
        if ((x && x->e) || (y && y->e)) { any = true; if ((x && x->e && isReal(x->e)) || (y && y->e && isReal(y->e))) unsupported("memcmp on symbolic reals", true); }
    }
    if (!any) return nullptr;
    // decide byte by byte (forks)
    for (uint64_t i = 0; i < n; ++i) {
        Z3_ast x = vt_load((uint64_t) a + i, 1, 0, 8), y = vt_load((uint64_t) b + i, 1, 0, 8);
        Z3_ast X = iop(x, ((unsigned char*) a)[i], 8), Y = iop(y, ((unsigned char*) b)[i], 8);
        if (decide(Z3_mk_eq(ctx, X, Y))) continue;
        return mkBV(decide(Z3_mk_bvult(ctx, X, Y)) ? ~0ull : 1, w);
    }
    return mkBV(0, w);
}

// ---- harness primitives ------------------------------------------------------------------
static Z3_ast argShadow(void* self, int i) {
    if (vt_arg_tag == self) return vt_aslot[i];
    return nullptr;
}
static void clrTag() { vt_arg_tag = nullptr; }
static void retShadow(void* self, Z3_ast a) {
    vt_ret[0] = a;
    vt_ret_tag = self;
}
static std::string key(const char* n) {
    int k = nameCount[n]++;
    return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
extern "C" {
double vt_real(const char* name) {
    clrTag();
    std::string k = key(name);
    Z3_ast a = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, k.c_str()), sReal);
    inputs.push_back({k, a, 0, 0, 0});
    realsUsed = true;
    lastModel = nullptr;
    retShadow((void*) &vt_real, a);
    return 0.625 + 0.125 * inputs.size();
}
static Z3_ast mkInt(const char* name, long lo, long hi) {
    std::string k = key(name);
    Z3_ast a = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, k.c_str()), bv(64));
    inputs.push_back({k, a, 1, lo, hi});
    if (lo >= 0) {
        // keep small domains narrow: easier for the solver
        if (lo > 0) addPC(Z3_mk_bvuge(ctx, a, mkBV(lo, 64)));
        addPC(Z3_mk_bvule(ctx, a, mkBV(hi, 64)));
    } else {
        addPC(Z3_mk_bvsge(ctx, a, mkBV(lo, 64)));
        addPC(Z3_mk_bvsle(ctx, a, mkBV(hi, 64)));
    }
    return a;
}
long vt_int(const char* name, long lo, long hi) {
    clrTag();
    lastModel = nullptr;
    Z3_ast a = mkInt(name, lo, hi);
    retShadow((void*) &vt_int, a);
    return lo;
}
long vt_choice(const char* name, long n) {
    clrTag();
    lastModel = nullptr;
    Z3_ast a = mkInt(name, 0, n - 1);
    uint64_t v = concBV(a);
    vt_ret_tag = nullptr;
    return (long) v;
}
long vt_conc_int(long v) {
    Z3_ast s = argShadow((void*) &vt_conc_int, 0);
    clrTag();
    vt_ret_tag = nullptr;
    if (!s) return v;
    return (long) concBV(s);
}
void vt_assume(bool c) {
    Z3_ast s = argShadow((void*) &vt_assume, 0);
    clrTag();
    if (!s) { if (!c) endPath(sh->infeasible); return; }
    Z3_ast b = simp(toBool(s));
    if (isTrue(b)) return;
    Z3_model m = nullptr;
    if (isFalse(b) || feasible(b, &m) == Z3_L_FALSE) endPath(sh->infeasible);
    addPC(b);
    lastModel = m;
    fixedBool[b] = 1;
}

// collect uninterpreted applications for lemma instantiation
static void collect(Z3_ast a, std::unordered_set<Z3_ast>& seen, std::vector<Z3_ast>& out) {
    std::vector<Z3_ast> st{a};
    while (!st.empty()) {
        Z3_ast x = st.back();
        st.pop_back();
        if (!seen.insert(x).second) continue;
        if (Z3_get_ast_kind(ctx, x) != Z3_APP_AST) continue;
        Z3_app ap = Z3_to_app(ctx, x);
        unsigned n = Z3_get_app_num_args(ctx, ap);
        if (n > 0 && Z3_get_decl_kind(ctx, Z3_get_app_decl(ctx, ap)) == Z3_OP_UNINTERPRETED) out.push_back(x);
        for (unsigned i = 0; i < n; ++i) st.push_back(Z3_get_app_arg(ctx, ap, i));
    }
}
static std::string declName(Z3_ast x) {
    return Z3_get_symbol_string(ctx, Z3_get_decl_name(ctx, Z3_get_app_decl(ctx, Z3_to_app(ctx, x))));
}
static Z3_ast and_(std::vector<Z3_ast> v) { return v.size() == 1 ? v[0] : Z3_mk_and(ctx, v.size(), v.data()); }
static std::vector<Z3_ast> lemmas(const std::vector<Z3_ast>& apps) {
    std::vector<Z3_ast> r;
    std::map<std::string, std::map<Z3_ast, Z3_ast>> by;
    Z3_ast zero = mkReal(0), one = mkReal(1);
    for (Z3_ast x : apps) by[declName(x)][Z3_get_app_arg(ctx, Z3_to_app(ctx, x), 0)] = x;
    for (Z3_ast x : apps) {
        std::string f = declName(x);
        Z3_ast a = Z3_get_app_arg(ctx, Z3_to_app(ctx, x), 0);
        Z3_ast xx[2] = {x, x}, xa[2] = {x, a};
        if (f == "inv") r.push_back(Z3_mk_eq(ctx, Z3_mk_mul(ctx, 2, xa), one));
        else if (f == "sqrt") {
            r.push_back(Z3_mk_ge(ctx, x, zero));
            r.push_back(Z3_mk_eq(ctx, Z3_mk_mul(ctx, 2, xx), a));
        } else if (f == "exp") r.push_back(Z3_mk_gt(ctx, x, zero));
        else if (f == "cosh") r.push_back(Z3_mk_ge(ctx, x, one));
        static const std::set<std::string> at0is0 = {"sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh", "erf", "expm1", "log1p", "sqrt", "cbrt"};
        static const std::set<std::string> at0is1 = {"cos", "cosh", "exp", "erfc"};
        static const std::set<std::string> at1is0 = {"log", "log10", "log2", "acos", "acosh"};
        auto at = [&](int v, Z3_ast w) { r.push_back(Z3_mk_implies(ctx, Z3_mk_eq(ctx, a, v ? one : zero), Z3_mk_eq(ctx, x, w))); };
        if (at0is0.count(f)) at(0, zero);
        if (at0is1.count(f)) at(0, one);
        if (at1is0.count(f)) at(1, zero);
        if (f == "pow") {
            Z3_ast b = Z3_get_app_arg(ctx, Z3_to_app(ctx, x), 1), aa[2] = {a, a};
            auto imp = [&](Z3_ast l, Z3_ast rr) { r.push_back(Z3_mk_implies(ctx, l, rr)); };
            imp(Z3_mk_eq(ctx, b, zero), Z3_mk_eq(ctx, x, one));
            imp(Z3_mk_eq(ctx, b, one), Z3_mk_eq(ctx, x, a));
            imp(Z3_mk_eq(ctx, b, mkReal(2)), Z3_mk_eq(ctx, x, Z3_mk_mul(ctx, 2, aa)));
            imp(Z3_mk_eq(ctx, a, one), Z3_mk_eq(ctx, x, one));
            Z3_ast a0[2] = {Z3_mk_eq(ctx, a, zero), Z3_mk_gt(ctx, b, zero)};
            imp(Z3_mk_and(ctx, 2, a0), Z3_mk_eq(ctx, x, zero));
            imp(Z3_mk_gt(ctx, a, zero), Z3_mk_gt(ctx, x, zero));
        }
        if (f == "sin" && by["cos"].count(a)) {
            Z3_ast c = by["cos"][a];
            Z3_ast cc[2] = {c, c};
            Z3_ast s[2] = {Z3_mk_mul(ctx, 2, xx), Z3_mk_mul(ctx, 2, cc)};
            r.push_back(Z3_mk_eq(ctx, Z3_mk_add(ctx, 2, s), one));
        }
        if (f == "sinh" && by["cosh"].count(a)) {
            Z3_ast c = by["cosh"][a];
            Z3_ast cc[2] = {c, c};
            Z3_ast s[2] = {Z3_mk_mul(ctx, 2, cc), Z3_mk_mul(ctx, 2, xx)};
            r.push_back(Z3_mk_eq(ctx, Z3_mk_sub(ctx, 2, s), one));
        }
        if (f == "tan" && by["cos"].count(a) && by["sin"].count(a)) {
            Z3_ast t[2] = {x, by["cos"][a]};
            r.push_back(Z3_mk_eq(ctx, Z3_mk_mul(ctx, 2, t), by["sin"][a]));
        }
    }
    return r;
}
// 0 proved, 1 counterexample (model in *m), 2 unknown
static int prove(Z3_ast claim, Z3_model* m, unsigned rl) {
    // (1) path condition + negated claim, uninterpreted functions
    Z3_ast neg = Z3_mk_not(ctx, claim);
    std::unordered_set<Z3_ast> seen;
    std::vector<Z3_ast> apps;
    collect(neg, seen, apps);
    for (Z3_ast p : pc) collect(p, seen, apps);
    std::vector<Z3_ast> lem = lemmas(apps);
    Z3_solver s = Z3_mk_solver(ctx);
    Z3_solver_inc_ref(ctx, s);
    setRlimit(s, rl);
    for (Z3_ast p : pc) Z3_solver_assert(ctx, s, p);
    for (Z3_ast p : lem) Z3_solver_assert(ctx, s, p);
    Z3_solver_assert(ctx, s, neg);
    Z3_lbool r = check(s);
    if (r == Z3_L_FALSE) { Z3_solver_dec_ref(ctx, s); return 0; }
    if (r == Z3_L_UNDEF) {
        // (2) abstract the applications by fresh variables (sound for proving) -> nlsat
        std::vector<Z3_ast> fs = pc;
        fs.insert(fs.end(), lem.begin(), lem.end());
        fs.push_back(neg);
        // substitute outermost-last: order by ast id descending so that bigger terms go first
        std::vector<Z3_ast> from = apps, to;
        std::sort(from.begin(), from.end(), [](Z3_ast a, Z3_ast b) { return Z3_get_ast_id(ctx, a) > Z3_get_ast_id(ctx, b); });
        for (size_t i = 0; i < from.size(); ++i) to.push_back(Z3_mk_fresh_const(ctx, "ab", sReal));
        for (auto& f : fs) if (!from.empty()) f = Z3_substitute(ctx, f, from.size(), from.data(), to.data());
        Z3_tactic t = Z3_mk_tactic(ctx, "qfnra-nlsat");
        Z3_tactic_inc_ref(ctx, t);
        Z3_tactic t1 = Z3_mk_tactic(ctx, "simplify"), t2 = Z3_mk_tactic(ctx, "purify-arith");
        Z3_tactic_inc_ref(ctx, t1);
        Z3_tactic_inc_ref(ctx, t2);
        Z3_tactic tt = Z3_tactic_and_then(ctx, t1, Z3_tactic_and_then(ctx, t2, t));
        Z3_tactic_inc_ref(ctx, tt);
        Z3_solver s2 = Z3_mk_solver_from_tactic(ctx, tt);
        Z3_solver_inc_ref(ctx, s2);
        setRlimit(s2, rl);
        bool bvs = false;
        for (Z3_ast f : fs) {
            (void) bvs;
            Z3_solver_assert(ctx, s2, f);
        }
        Z3_lbool r2 = check(s2);
        Z3_solver_dec_ref(ctx, s2);
        if (r2 == Z3_L_FALSE) { Z3_solver_dec_ref(ctx, s); return 0; }
        Z3_solver_dec_ref(ctx, s);
        return 2;
    }
    // prefer counterexamples that are easy to replay in doubles
    *m = Z3_solver_get_model(ctx, s);
    Z3_model_inc_ref(ctx, *m);
    std::vector<Z3_ast> pref;
    for (auto& i : inputs)
        if (i.kind == 0) {
            pref.push_back(Z3_mk_le(ctx, i.ast, mkReal(3)));
            pref.push_back(Z3_mk_ge(ctx, i.ast, mkReal(-3)));
            Z3_ast o[2] = {Z3_mk_ge(ctx, i.ast, mkReal(0.125)), Z3_mk_le(ctx, i.ast, mkReal(-0.125))};
            pref.push_back(Z3_mk_or(ctx, 2, o));
        }
    if (!pref.empty()) {
        setRlimit(s, rlimitBranch);
        Z3_solver_push(ctx, s);
        for (Z3_ast p : pref) Z3_solver_assert(ctx, s, p);
        if (check(s) == Z3_L_TRUE) {
            *m = Z3_solver_get_model(ctx, s);
            Z3_model_inc_ref(ctx, *m);
        }
        Z3_solver_pop(ctx, s, 1);
    }
    return 1;
}
static Z3_model anyModel() {
    if (lastModel) return lastModel;
    if (check(solver) == Z3_L_TRUE) {
        lastModel = Z3_solver_get_model(ctx, solver);
        Z3_model_inc_ref(ctx, lastModel);
    }
    return lastModel;
}
static void claimCheck(Z3_ast b, const char* msg) {
    sh->asserts++;
    b = simp(b);
    if (isTrue(b)) { sh->asserts_syntactic++; sh->asserts_proved++; return; }
    inRt = true;
    Z3_model m = nullptr;
    int r = isFalse(b) ? (m = anyModel(), 1) : prove(b, &m, rlimitAssert);
    if (r == 0) { sh->asserts_proved++; addPC(b); }
    else if (r == 1) {
        sh->violations++;
        if (getenv("VT_DEBUG")) fprintf(stderr, "CLAIM %s\n%s\n", msg, Z3_ast_to_string(ctx, b));
        saveModel(m, "assert", msg, true);
        // continue on the executions where the claim holds, if any
        if (isFalse(b)) endPath(sh->paths);
        if (feasible(b, nullptr) == Z3_L_FALSE) endPath(sh->paths);
        addPC(b);
    } else {
        sh->asserts_unknown++;
        if (sh->undecided_files++ < 3) saveModel(anyModel(), "undecided", msg, false);
    }
    inRt = false;
    checkStop();
}
void vt_assert(bool c, const char* msg) {
    Z3_ast s = argShadow((void*) &vt_assert, 0);
    clrTag();
    if (!s) {
        sh->asserts++;
        sh->asserts_const++;
        if (c) { sh->asserts_proved++; return; }
        sh->violations++;
        inRt = true;
        saveModel(anyModel(), "assert", msg, true);
        endPath(sh->paths);
    }
    claimCheck(toBool(s), msg);
}
// largest numeric coefficient of a sum of monomials (-1 + huge if it has another form)
static double maxCoef(Z3_ast d) {
    Z3_app ap;
    double r = 0;
    std::vector<Z3_ast> t;
    if (isApp(d, Z3_OP_ADD, &ap)) for (unsigned i = 0; i < Z3_get_app_num_args(ctx, ap); ++i) t.push_back(Z3_get_app_arg(ctx, ap, i));
    else t.push_back(d);
    for (Z3_ast a : t) {
        double c = 1;
        if (isNum(a)) c = numToDouble(a);
        else if (isApp(a, Z3_OP_MUL, &ap)) {
            for (unsigned i = 0; i < Z3_get_app_num_args(ctx, ap); ++i) if (isNum(Z3_get_app_arg(ctx, ap, i))) c *= numToDouble(Z3_get_app_arg(ctx, ap, i));
        }
        r = std::max(r, std::fabs(c));
    }
    return r;
}
// cancels t * inv(t) in the monomials of a sum of monomials (the divisors are assumed not to be zero)
static Z3_ast cancelInv(Z3_ast d) {
    Z3_app ap;
    std::vector<Z3_ast> t;
    if (isApp(d, Z3_OP_ADD, &ap)) for (unsigned i = 0; i < Z3_get_app_num_args(ctx, ap); ++i) t.push_back(Z3_get_app_arg(ctx, ap, i));
    else t.push_back(d);
    bool any = false;
    for (Z3_ast& a : t) {
        if (!isApp(a, Z3_OP_MUL, &ap)) continue;
        std::vector<Z3_ast> f{a}, keep;
        for (size_t k = 0; k < f.size();) {
            if (!isApp(f[k], Z3_OP_MUL, &ap)) { ++k; continue; }
            for (unsigned i = 1; i < Z3_get_app_num_args(ctx, ap); ++i) f.push_back(Z3_get_app_arg(ctx, ap, i));
            f[k] = Z3_get_app_arg(ctx, ap, 0);
        }
        bool ch = false;
        for (size_t i = 0; i < f.size(); ++i) {
            Z3_app iv;
            if (!f[i] || !isApp(f[i], Z3_OP_UNINTERPRETED, &iv) || Z3_get_app_decl(ctx, iv) != uf("inv", 1)) continue;
            Z3_ast arg = Z3_get_app_arg(ctx, iv, 0);
            for (size_t j = 0; j < f.size(); ++j)
                if (f[j] && f[j] == arg) { f[i] = f[j] = nullptr; ch = true; break; }
        }
        if (!ch) continue;
        any = true;
        for (Z3_ast x : f) if (x) keep.push_back(x);
        a = keep.empty() ? mkReal(1) : keep.size() == 1 ? keep[0] : Z3_mk_mul(ctx, keep.size(), keep.data());
    }
    if (!any) return d;
    return Z3_simplify_ex(ctx, t.size() == 1 ? t[0] : Z3_mk_add(ctx, t.size(), t.data()), somParams(1000));
}
void vt_assert_eq(double a, double b, const char* msg) {
    Z3_ast x = argShadow((void*) &vt_assert_eq, 0), y = argShadow((void*) &vt_assert_eq, 1);
    clrTag();
    if (!x && !y) {
        sh->asserts++;
        sh->asserts_const++;
        if (!std::isfinite(b)) { sh->asserts_proved++; sh->asserts_outside++; return; } // outside the domain of the reference
        bool ok = (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= 1e-9 * (1 + std::max(std::fabs(a), std::fabs(b)));
        if (ok) { sh->asserts_proved++; return; }
        sh->violations++;
        inRt = true;
        char t[400];
        snprintf(t, 400, "%s (%.17g vs %.17g)", msg, a, b);
        saveModel(anyModel(), "assert_eq", t, true);
        endPath(sh->paths);
    }
    if (!y && !std::isfinite(b)) { sh->asserts++; sh->asserts_proved++; sh->asserts_outside++; return; }
    Z3_ast X = rop(x, a), Y = rop(y, b);
    if (!X || !Y) {
        sh->asserts++;
        sh->violations++;
        inRt = true;
        saveModel(anyModel(), "assert_eq nonfinite", msg, true);
        return;
    }
    if (X == Y) { sh->asserts++; sh->asserts_syntactic++; sh->asserts_proved++; return; }
    // sum-of-monomials normal form of the difference
    Z3_ast dxy[2] = {X, Y};
    Z3_ast d = Z3_simplify_ex(ctx, Z3_mk_sub(ctx, 2, dxy), somParams(1000));
    d = cancelInv(d);
    if (isNum(d)) {
        double v = numToDouble(d);
        if (v == 0) { sh->asserts++; sh->asserts_syntactic++; sh->asserts_proved++; return; }
    }
    // rounding of concrete constants (e.g. 1/log(10) folded in a different order): the normal form of the
    // difference has only coefficients below 1e-13 of those of the compared value
    double lim = 1e-13 * std::max(maxCoef(Z3_simplify_ex(ctx, X, somParams(1000))), maxCoef(Z3_simplify_ex(ctx, Y, somParams(1000))));
    Z3_app ap;
    std::vector<Z3_ast> keep;
    unsigned total = 1;
    if (isApp(d, Z3_OP_ADD, &ap)) {
        total = Z3_get_app_num_args(ctx, ap);
        for (unsigned i = 0; i < total; ++i) { Z3_ast t = Z3_get_app_arg(ctx, ap, i); if (maxCoef(t) > lim) keep.push_back(t); }
    } else if (maxCoef(d) > lim) keep.push_back(d);
    if (keep.size() < total) sh->asserts_rounding++;
    if (keep.empty()) { sh->asserts++; sh->asserts_proved++; return; }
    d = keep.size() == 1 ? keep[0] : Z3_mk_add(ctx, keep.size(), keep.data());
    claimCheck(Z3_mk_eq(ctx, d, mkReal(0)), msg);
}
void vt_reach(const char* l) {
    clrTag();
    for (int i = 0; i < sh->nlabels; ++i) if (!strcmp(sh->labels[i].name, l)) { sh->labels[i].n++; return; }
    Lk k;
    for (int i = 0; i < sh->nlabels; ++i) if (!strcmp(sh->labels[i].name, l)) { sh->labels[i].n++; return; }
    if (sh->nlabels < 64) {
        snprintf(sh->labels[sh->nlabels].name, 64, "%s", l);
        sh->labels[sh->nlabels].n = 1;
        sh->nlabels++;
    }
}
void vt_program(const char* t) {
    clrTag();
    sh->programs++;
    notes.push_back(t);
    if (sh->nsamples < 12) {
        Lk k;
        if (sh->nsamples < 12) snprintf(sh->samples[sh->nsamples++], 600, "%s", t);
    }
}
void vt_skip(void) { clrTag(); endPath(sh->skipped); }
bool vt_symbolic(void) { clrTag(); vt_ret_tag = nullptr; return true; }
const char* vt_scratch(void) {
    clrTag();
    vt_ret_tag = nullptr;
    static pid_t owner = 0;
    if (scratchDir.empty() || owner != getpid()) { // forked paths get their own folder
        owner = getpid();
        scratchDir = scratchBase + "/s" + std::to_string(getpid());
        mkdir(scratchDir.c_str(), 0755);
    }
    return scratchDir.c_str();
}
const char* vt_arg(const char* k, const char* d) {
    clrTag();
    vt_ret_tag = nullptr;
    const char* e = getenv((std::string("VT_OPT_") + k).c_str());
    return e ? e : d;
}
}

static int alarmS = 120;
static void setAlarm() {
    itimerval t{};
    t.it_value.tv_sec = alarmS;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
static void onsig(int s) {
    static int nest = 0;
    if (nest++) _exit(9);
    if (inRt) {
        // inside the runtime/solver: not a property of the code under test
        sh->truncated++;
        sh->unsupported++;
        { if (sh->nunsup < 12) snprintf(sh->unsup[sh->nunsup++], 200, "signal %d inside the solver", s); }
        finish(0);
    }
    sh->violations++;
    char m[300];
    std::string ex;
    if (s == SIGABRT)
        if (std::type_info* ti = abi::__cxa_current_exception_type()) {
            int st;
            char* d = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st);
            ex = std::string(" exception ") + (d ? d : ti->name());
            try { throw; } catch (const std::exception& e) { ex += std::string(": ") + e.what(); } catch (...) {}
        }
    snprintf(m, 300, "%s signal %d%s", s == SIGVTALRM ? "timeout" : "crash", s, ex.c_str());
    inRt = true;
    saveModel(anyModel(), s == SIGVTALRM ? "timeout" : "crash", m, true);
    endPath(sh->paths);
}
static void esc(FILE* f, const char* s) {
    fputc('"', f);
    for (; *s; ++s) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}
int main(int argc, char** argv) {
    // usage: prog OUTDIR SECONDS JOBS
    outDir = argc > 1 ? argv[1] : "/tmp";
    double secs = argc > 2 ? atof(argv[2]) : 60;
    int jobs = argc > 3 ? atoi(argv[3]) : 8;
    if (getenv("VT_ALARM")) alarmS = atoi(getenv("VT_ALARM"));
    if (getenv("VT_MAXVIOL")) maxViol = atoi(getenv("VT_MAXVIOL"));
    if (getenv("VT_PATHS")) wantPaths = atoi(getenv("VT_PATHS"));
    if (getenv("VT_RL_BRANCH")) rlimitBranch = atoi(getenv("VT_RL_BRANCH"));
    if (getenv("VT_RL_ASSERT")) rlimitAssert = atoi(getenv("VT_RL_ASSERT"));
    scratchBase = getenv("VT_SCRATCH") ? getenv("VT_SCRATCH") : outDir;
    std::string shf = outDir + "/shared.bin";
    sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->tokens = jobs - 1;
    t0 = now();
    deadline = t0 + secs;
    if (chdir(outDir.c_str())) {}
    pid_t p = fork();
    if (p == 0) {
        stack_t ss{};
        ss.ss_size = 1 << 20;
        ss.ss_sp = malloc(ss.ss_size);
        sigaltstack(&ss, nullptr);
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGVTALRM}) {
            struct sigaction sa{};
            sa.sa_handler = onsig;
            sa.sa_flags = SA_ONSTACK | SA_NODEFER;
            sigaction(s, &sa, nullptr);
        }
        Z3_global_param_set("smt.random_seed", "1");
        Z3_config cfg = Z3_mk_config();
        ctx = Z3_mk_context(cfg);
        Z3_set_error_handler(ctx, zerr);
        sBool = Z3_mk_bool_sort(ctx);
        sReal = Z3_mk_real_sort(ctx);
        solver = Z3_mk_simple_solver(ctx);
        Z3_solver_inc_ref(ctx, solver);
        setRlimit(solver, rlimitBranch);
        setAlarm();
        vt_harness();
        if (getenv("VT_NO_PATHS")) {}
        endPath(sh->paths);
    }
    int st = 0;
    // the exploration may not outlive its budget by much even if a query is stuck
    bool killed = false;
    for (;;) {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() > deadline + 45) { killed = true; kill(p, SIGKILL); waitpid(p, &st, 0); break; }
        usleep(5000);
    }
    if (!WIFEXITED(st)) sh->crashed++;
    FILE* f = fopen((outDir + "/result.json").c_str(), "w");
    fprintf(f, "{\n");
#define J(x) fprintf(f, "\"%s\": %ld,\n", #x, (long) sh->x)
    J(paths); J(infeasible); J(truncated); J(skipped); J(crashed); J(forks); J(branches); J(queries); J(queries_sat); J(queries_unsat);
    J(unknowns); J(asserts); J(asserts_const); J(asserts_syntactic); J(asserts_rounding); J(asserts_outside); J(asserts_proved); J(asserts_unknown); J(violations);
    J(unsupported); J(realconc); J(conc); J(divassume); J(programs); J(maxdepth);
    fprintf(f, "\"solver_s\": %.3f,\n\"wall_s\": %.3f,\n\"killed\": %s,\n\"stopped\": %s,\n", sh->solver_ns * 1e-9, now() - t0,
            killed ? "true" : "false", sh->stop ? "true" : "false");
    fprintf(f, "\"labels\": {");
    for (int i = 0; i < sh->nlabels; ++i) { if (i) fprintf(f, ", "); esc(f, sh->labels[i].name); fprintf(f, ": %ld", (long) sh->labels[i].n); }
    fprintf(f, "},\n\"samples\": [");
    for (int i = 0; i < sh->nsamples; ++i) { if (i) fprintf(f, ", "); esc(f, sh->samples[i]); }
    fprintf(f, "],\n\"unsupported_kinds\": [");
    for (int i = 0; i < sh->nunsup; ++i) { if (i) fprintf(f, ", "); esc(f, sh->unsup[i]); }
    fprintf(f, "],\n\"addrs\": [");
    bool first = true;
    for (unsigned long a : sh->funcs) if (a) { fprintf(f, "%s%lu", first ? "" : ",", a); first = false; }
    fprintf(f, "]\n}\n");
    fclose(f);
    return 0;
}
