// Index reduction of differential-algebraic systems: Pantelides, Soares-Secchi and dummy derivatives.
#define EIGEN_DONT_VECTORIZE
#include "hmodel.hpp"
#include <cppad/cg/dae_index_reduction/pantelides.hpp>
#include <cppad/cg/dae_index_reduction/soares_secchi.hpp>
#include <cppad/cg/dae_index_reduction/dummy_deriv.hpp>
using namespace vt;
static int argi(const char* k, int d) { return atoi(vt_arg(k, std::to_string(d).c_str())); }
static std::string S(size_t i) { return std::to_string(i); }
typedef AD<double> ADD;
typedef std::vector<ADCG> VC;
typedef std::vector<ADD> VD;
typedef std::vector<CGD> VG;

// ---- systems --------------------------------------------------------------------
// variables of the tape, in tape order
struct Var { char kind; int of; }; // 'x' variable, 'd' derivative of variable 'of', 't' time, 'c' constant
struct Dae {
    std::string name;
    std::vector<Var> vars;
    size_t m;
    std::function<void(const VC&, VC&)> c;
    std::function<void(const VD&, VD&)> d;
    DV typical;
};
#define VT_DAE(F) {[=](const VC& x, VC& y) { F(x, y); }, [=](const VD& x, VD& y) { F(x, y); }}
struct Both { std::function<void(const VC&, VC&)> c; std::function<void(const VD&, VD&)> d; };
static Dae make(const std::string& name, const std::vector<Var>& v, size_t m, const Both& b, DV typ = {}) {
    Dae r{name, v, m, b.c, b.d, typ};
    if (r.typical.empty()) for (size_t j = 0; j < v.size(); ++j) r.typical.push_back(v[j].kind == 't' ? 0.0 : 0.75 + 0.5 * j * (j % 3 == 1 ? -1 : 1));
    return r;
}
static Dae pendulum() {
    auto f = [](const auto& u, auto& z) {
        z[0] = u[7] - u[2];
        z[1] = u[8] - u[3];
        z[2] = u[9] - u[4] * u[0];
        z[3] = u[10] - (u[4] * u[1] - 9.5);
        z[4] = u[0] * u[0] + u[1] * u[1] - u[5] * u[5];
    };
    return make("pendulum", {{'x'}, {'x'}, {'x'}, {'x'}, {'x'}, {'c'}, {'t'}, {'d', 0}, {'d', 1}, {'d', 2}, {'d', 3}}, 5, VT_DAE(f),
                {-0.75, 0.5, 0.25, 0.125, 1, 1, 0, 0.25, 0.125, -0.75, 10});
}
static Dae pendulum3() { // no time variable, other order of variables
    auto f = [](const auto& u, auto& z) {
        z[0] = u[0] * u[0] + u[1] * u[1] + u[2] * u[2] - 1.0;
        for (int k = 0; k < 3; ++k) {
            z[1 + k] = u[10 + k] - u[3 + k];
            z[4 + k] = u[7 + k] - u[6] * u[k];
        }
        z[6] += 9.5;
    };
    return make("pendulum3d", {{'x'}, {'x'}, {'x'}, {'x'}, {'x'}, {'x'}, {'x'}, {'d', 3}, {'d', 4}, {'d', 5}, {'d', 0}, {'d', 1}, {'d', 2}}, 7, VT_DAE(f),
                {-0.5, 0.25, 0.75, 0.125, 0.5, 1, 1, 1, 2, -1, 0.125, 0.5, 1});
}
static Dae mattsson() {
    auto f = [](const auto& u, auto& z) {
        z[0] = u[0] + u[1] + u[7];
        z[1] = u[0] + u[1] + u[2] + u[8];
        z[2] = u[0] + u[14] + u[3] + u[9];
        z[3] = 2.0 * u[16] + u[17] + u[18] + u[15] + u[10];
        z[4] = u[12] - u[4];
        z[5] = u[13] - u[5];
        z[6] = u[14] - u[6];
    };
    return make("mattsson", {{'x'}, {'x'}, {'x'}, {'x'}, {'x'}, {'x'}, {'x'}, {'c'}, {'c'}, {'c'}, {'c'}, {'t'}, {'d', 0}, {'d', 1}, {'d', 2}, {'d', 3}, {'d', 4}, {'d', 5}, {'d', 6}}, 7, VT_DAE(f));
}
static Dae chain() { // x3 = sin(t), x1' = x2, x2' = x3 + z (three differentiations), time used
    auto f = [](const auto& u, auto& z) {
        z[0] = u[4] - u[1];
        z[1] = u[5] - u[2] * u[6];
        z[2] = u[0] - sin(u[3]) * u[3];
    };
    return make("chain", {{'x'}, {'x'}, {'x'}, {'t'}, {'d', 0}, {'d', 1}, {'c'}}, 3, VT_DAE(f), {0.5, 0.25, 1, 0.5, 0.25, 2, 1.5});
}
static Dae coupled() { // two constraints, derivatives before their variables in the tape
    auto f = [](const auto& u, auto& z) {
        z[0] = u[0] + u[1] * u[4] - exp(u[3]);
        z[1] = u[2] * u[5] + u[4] - u[3];
        z[2] = u[3] - u[4] * u[4] * u[6];
        z[3] = u[1] + u[2] * u[3];
    };
    return make("coupled", {{'d', 3}, {'d', 4}, {'x'}, {'x'}, {'x'}, {'c'}, {'c'}, {'x'}}, 4, Both{[=](const VC& x, VC& y) { f(x, y); y[0] += x[7]; }, [=](const VD& x, VD& y) { f(x, y); y[0] += x[7]; }},
                {1, 0.5, 0.25, 0.75, 1.5, 2, 0.5, 3});
}
static Dae circuit() { // algebraic variables that get derivatives
    auto f = [](const auto& u, auto& z) {
        z[0] = u[5] * u[7] - u[2];            // C v1' = i1
        z[1] = u[6] - u[3] + u[4] * u[0];     // v2' = i2 - ..
        z[2] = u[0] - u[1] - u[4];            // v1 - v2 = e
        z[3] = u[2] + u[3] * 3.0 - u[0];
        z[4] = u[4] - cos(u[8]);              // e = cos(t)
    };
    return make("circuit", {{'x'}, {'x'}, {'x'}, {'x'}, {'x'}, {'d', 0}, {'d', 1}, {'c'}, {'t'}}, 5, VT_DAE(f), {1.5, 0.5, 1, 2, 1, 0.5, 0.25, 2, 0});
}
static Dae ode() {
    auto f = [](const auto& u, auto& z) { z[0] = u[2] - u[0] * u[1]; z[1] = u[3] + u[0]; };
    return make("ode", {{'x'}, {'x'}, {'d', 0}, {'d', 1}}, 2, VT_DAE(f));
}
static Dae index1() {
    auto f = [](const auto& u, auto& z) { z[0] = u[2] - u[0] * u[1]; z[1] = u[1] + u[0]; };
    return make("index1", {{'x'}, {'x'}, {'d', 0}}, 2, VT_DAE(f));
}
static std::vector<Dae> systems() { return {pendulum(), mattsson(), chain(), coupled(), circuit(), ode(), index1(), pendulum3()}; }

// one of all systems with n unknown functions whose equations use given variables
static Dae generic(size_t n, const std::vector<bool>& diff, bool time, const std::vector<unsigned>& uses, const std::vector<int>& form) {
    std::vector<Var> v;
    for (size_t j = 0; j < n; ++j) v.push_back({'x', 0});
    for (size_t j = 0; j < n; ++j) if (diff[j]) v.push_back({'d', (int) j});
    size_t nu = v.size();
    if (time) v.push_back({'t', 0});
    auto f = [=](const auto& u, auto& z) {
        for (size_t i = 0; i < n; ++i) {
            z[i] = -1.5 - double(i);
            int last = -1;
            for (size_t k = 0; k < nu; ++k) if (uses[i] >> k & 1) {
                z[i] += u[k] * double(1 << (k * k + 2 * i + k * i * (i + 1)) % 5); // exact quotients
                if (form[i] == 1) z[i] += last >= 0 ? u[last] * u[k] * 0.5 : u[k] * u[k];
                last = k;
            }
            if (form[i] == 2 && time) z[i] += u[nu] * u[nu];
        }
    };
    std::string nm = "generic";
    for (size_t i = 0; i < n; ++i) nm += " " + S(uses[i]) + (form[i] ? "'" : "");
    for (size_t i = 0; i < n; ++i) nm += diff[i] ? "d" : "a";
    return make(nm, v, n, VT_DAE(f));
}

// ---- tapes ----------------------------------------------------------------------
static std::unique_ptr<ADFun<CGD>> tapeC(const Dae& s) {
    VC u(s.vars.size()), z(s.m);
    for (size_t j = 0; j < u.size(); ++j) u[j] = s.typical[j];
    CppAD::Independent(u);
    s.c(u, z);
    return std::unique_ptr<ADFun<CGD>>(new ADFun<CGD>(u, z));
}
static std::unique_ptr<ADFun<double>> tapeDD(const Dae& s) {
    VD u(s.vars.size()), z(s.m);
    for (size_t j = 0; j < u.size(); ++j) u[j] = s.typical[j];
    CppAD::Independent(u);
    s.d(u, z);
    return std::unique_ptr<ADFun<double>>(new ADFun<double>(u, z));
}
static std::vector<DaeVarInfo> info(const Dae& s) {
    std::vector<DaeVarInfo> r(s.vars.size());
    for (size_t j = 0; j < r.size(); ++j) {
        if (s.vars[j].kind == 'd') r[j] = DaeVarInfo(s.vars[j].of);
        else if (s.vars[j].kind == 't') r[j].makeIntegratedVariable();
        else if (s.vars[j].kind == 'c') r[j].makeConstant();
    }
    return r;
}
// the value of a recorded function of code-generation values
static DV eval(ADFun<CGD>& f, const DV& x) {
    CodeHandler<double> h;
    VG u(f.Domain());
    h.makeVariables(u);
    VG z = f.Forward(0, u);
    Evaluator<double, double, double> e(h);
    return e.evaluate(x, z);
}
static double fact(int k) { return k <= 1 ? 1 : k * fact(k - 1); }

// ---- structure oracle --------------------------------------------------------------
// unknown functions: variables of kind 'x'; order of differentiation of each in each equation (-1: absent)
struct Struct {
    std::vector<size_t> fun; // tape index of the unknown functions
    std::vector<int> tapeOrder;
    std::vector<std::vector<int>> sigma;
    std::vector<int> c, d; // number of differentiations of every equation, highest order of every variable
    bool regular;
    static bool match(const std::vector<std::vector<bool>>& a) {
        std::vector<size_t> p(a.size());
        for (size_t i = 0; i < p.size(); ++i) p[i] = i;
        do {
            bool ok = true;
            for (size_t i = 0; i < p.size() && ok; ++i) ok = a[i][p[i]];
            if (ok) return true;
        } while (std::next_permutation(p.begin(), p.end()));
        return false;
    }
    Struct(const Dae& s, const std::vector<bool>& sparsity) {
        size_t n = s.vars.size();
        std::vector<int> ix(n, -1), ord(n, 0);
        for (size_t j = 0; j < n; ++j) if (s.vars[j].kind == 'x') { ix[j] = fun.size(); fun.push_back(j); tapeOrder.push_back(0); }
        for (size_t j = 0; j < n; ++j) if (s.vars[j].kind == 'd') { ix[j] = ix[s.vars[j].of]; ord[j] = 1; tapeOrder[ix[j]] = 1; }
        sigma.assign(s.m, std::vector<int>(fun.size(), -1));
        for (size_t i = 0; i < s.m; ++i)
            for (size_t j = 0; j < n; ++j)
                if (sparsity[i * n + j] && ix[j] >= 0) sigma[i][ix[j]] = std::max(sigma[i][ix[j]], ord[j]);
        std::vector<std::vector<bool>> a(s.m, std::vector<bool>(fun.size()));
        for (size_t i = 0; i < s.m; ++i) for (size_t j = 0; j < fun.size(); ++j) a[i][j] = sigma[i][j] >= 0;
        regular = match(a);
        c.assign(s.m, 0);
        if (!regular) return;
        // the smallest number of differentiations for which the highest derivatives can be matched
        for (int total = 0;; ++total) if (search(0, total)) break;
    }
    bool good() {
        d = tapeOrder;
        for (size_t i = 0; i < c.size(); ++i) for (size_t j = 0; j < d.size(); ++j) if (sigma[i][j] >= 0) d[j] = std::max(d[j], sigma[i][j] + c[i]);
        std::vector<std::vector<bool>> a(c.size(), std::vector<bool>(d.size()));
        for (size_t i = 0; i < c.size(); ++i) for (size_t j = 0; j < d.size(); ++j) a[i][j] = sigma[i][j] >= 0 && sigma[i][j] + c[i] == d[j];
        return match(a);
    }
    bool search(size_t i, int left) {
        if (i + 1 == c.size()) { c[i] = left; return good(); }
        for (int k = 0; k <= left; ++k) { c[i] = k; if (search(i + 1, left - k)) return true; }
        return false;
    }
    int total() const { int t = 0; for (int k : c) t += k; return t; }
};

// ---- a reduced system, and the values it must have ----------------------------------
struct Values {
    DV v;                     // values of all variables of the reduced system
    std::vector<DV> deriv;    // deriv[i][k]: k-th total derivative of original equation i
};
static Values reference(const Dae& s, const std::vector<DaeVarInfo>& vi, int maxOrder) {
    // values of the unknown functions and all their derivatives
    size_t n = s.vars.size();
    std::vector<DV> val(n);
    for (size_t j = 0; j < n; ++j) {
        if (s.vars[j].kind == 'x') for (int k = 0; k <= maxOrder + 1; ++k) val[j].push_back(vt_real(("u" + S(j) + "_" + S(k)).c_str()));
        else if (s.vars[j].kind != 'd') val[j].push_back(vt_real(("u" + S(j)).c_str()));
    }
    for (size_t j = 0; j < n; ++j) if (s.vars[j].kind == 'd') val[j].assign(val[s.vars[j].of].begin() + 1, val[s.vars[j].of].end());
    auto f = tapeDD(s);
    Values r;
    r.deriv.assign(s.m, DV());
    for (int k = 0; k <= maxOrder; ++k) {
        DV x(n);
        for (size_t j = 0; j < n; ++j) {
            if (s.vars[j].kind == 't') x[j] = k == 0 ? val[j][0] : k == 1 ? 1 : 0;
            else if (s.vars[j].kind == 'c') x[j] = k == 0 ? val[j][0] : 0;
            else x[j] = val[j][k] / fact(k);
        }
        DV y = f->Forward(k, x);
        for (size_t i = 0; i < s.m; ++i) r.deriv[i].push_back(y[i] * fact(k));
    }
    // the variables of the reduced system
    for (size_t j = 0; j < vi.size(); ++j) {
        size_t k = 0;
        int b = j;
        while (b >= (int) n) { b = vi[b].getAntiDerivative(); ++k; vt_assert(b >= 0, "a new variable is a derivative"); }
        vt_assert(k < val[b].size(), "derivative of a variable that has none");
        r.v.push_back(val[b][k]);
    }
    return r;
}

static std::string label(const Dae& s, const std::string& m) { return s.name + " " + m; }

// keeps a copy of what the structural method returned
struct Result {
    std::unique_ptr<ADFun<CGD>> red;
    std::vector<DaeVarInfo> vi;
    std::vector<DaeEquationInfo> ei;
};
template<class A> struct Recorder : public A {
    Result& r;
    Recorder(Result& r, ADFun<CGD>& f, const std::vector<DaeVarInfo>& v, const std::vector<double>& x) : A(f, v, {}, x), r(r) {}
    std::unique_ptr<ADFun<CGD>> reduceIndex(std::vector<DaeVarInfo>& vi, std::vector<DaeEquationInfo>& ei) override {
        auto f = A::reduceIndex(vi, ei);
        r.red.reset();
        if (f) { r.red.reset(new ADFun<CGD>()); *r.red = *f; }
        r.vi = vi;
        r.ei = ei;
        return f;
    }
};
struct Reduced {
    Result last;
    std::unique_ptr<ADFun<CGD>> fun; // owned original
    std::unique_ptr<DaeStructuralIndexReduction<double>> alg;
    std::unique_ptr<ADFun<CGD>> red;
    std::vector<DaeVarInfo> vi;
    std::vector<DaeEquationInfo> ei;
    bool failed;
};
static void start(const Dae& s, int method, Reduced& r) {
    r.fun = tapeC(s);
    if (method == 0) r.alg.reset(new Recorder<Pantelides<double>>(r.last, *r.fun, info(s), s.typical));
    else r.alg.reset(new Recorder<SoaresSecchi<double>>(r.last, *r.fun, info(s), s.typical));
}
static bool reduce(const Dae& s, int method, Reduced& r) {
    start(s, method, r);
    try {
        r.red = r.alg->reduceIndex(r.vi, r.ei);
    } catch (const CGException&) { return false; }
    return true;
}
// information about variables and equations is consistent
static void consistent(const std::string& nm, const std::vector<DaeVarInfo>& vi, const std::vector<DaeEquationInfo>& ei) {
    std::set<std::string> names;
    for (size_t j = 0; j < vi.size(); ++j) {
        int a = vi[j].getAntiDerivative(), d = vi[j].getDerivative();
        vt_assert(a < (int) vi.size() && d < (int) vi.size(), (nm + "variable indexes in range").c_str());
        if (a >= 0) vt_assert(vi[a].getDerivative() == (int) j, (nm + "the derivative of the antiderivative is the variable").c_str());
        if (d >= 0) vt_assert(vi[d].getAntiDerivative() == (int) j, (nm + "the antiderivative of the derivative is the variable").c_str());
        vt_assert(names.insert(vi[j].getName()).second, (nm + "variable names are different").c_str());
    }
    std::set<int> used;
    for (size_t i = 0; i < ei.size(); ++i) {
        vt_assert(ei[i].getAntiDerivative() < (int) ei.size() && ei[i].getAssignedVarIndex() < (int) vi.size(), (nm + "equation indexes in range").c_str());
    }
}
static void structural(const Dae& s, int method) {
    Reduced r;
    auto sp = jacobianSparsity<std::vector<bool>, CGD>(*tapeC(s));
    Struct o(s, sp);
    std::string nm = label(s, method == 0 ? "pantelides: " : "soares-secchi: ");
    bool ok = reduce(s, method, r);
    if (!o.regular) {
        vt_assert(!ok, (nm + "a structurally singular system is refused").c_str());
        vt_reach("singular");
        return;
    }
    vt_assert(ok, (nm + "a structurally regular system is reduced").c_str());
    size_t n = s.vars.size(), index = r.alg->getStructuralIndex();
    if (method == 0) {
        int mx = 0;
        for (int k : o.c) mx = std::max(mx, k);
        bool alg = false;
        for (int k : o.tapeOrder) alg |= k == 0;
        vt_assert(index == (mx ? size_t(mx + 1) : alg ? 1u : 0u), (nm + "structural index").c_str());
        vt_assert((r.red == nullptr) == (mx == 0), (nm + "reduced only if needed").c_str());
    }
    if (!r.red) { vt_reach("structural"); return; }
    vt_assert(r.red->Domain() == r.vi.size() && r.red->Range() == r.ei.size(), (nm + "dimensions of the reduced system").c_str());
    if (argi("show", 0)) {
        for (auto& v : r.vi) fprintf(stderr, "var %s anti %d der %d\n", v.getName().c_str(), v.getAntiDerivative(), v.getDerivative());
        for (auto& e : r.ei) fprintf(stderr, "eq orig %d anti %d var %d\n", e.getOriginalIndex(), e.getAntiDerivative(), e.getAssignedVarIndex());
        r.alg->getGraph().printModel(std::cerr, *r.red, r.vi, r.ei);
    }
    consistent(nm, r.vi, r.ei);
    std::vector<int> org(r.ei.size()), k(r.ei.size()), cnt(s.m, 0);
    for (size_t i = 0; i < r.ei.size(); ++i) {
        int b = i;
        while (r.ei[b].getAntiDerivative() >= 0) { b = r.ei[b].getAntiDerivative(); ++k[i]; vt_assert(k[i] < 20, "no cycles"); }
        org[i] = b;
        vt_assert(b < (int) s.m && r.ei[b].getOriginalIndex() == b, (nm + "every equation derives from an original one").c_str());
        if (i < s.m) vt_assert(k[i] == 0, (nm + "the original equations come first").c_str());
        cnt[b] = std::max(cnt[b], k[i]);
    }
    for (size_t i = 0; i < r.ei.size(); ++i)
        for (size_t j = 0; j < i; ++j) vt_assert(org[i] != org[j] || k[i] != k[j], (nm + "no equation twice").c_str());
    int maxOrder = 0;
    for (size_t i = 0; i < s.m; ++i) maxOrder = std::max(maxOrder, cnt[i]);
    if (method == 0) {
        for (size_t i = 0; i < s.m; ++i) vt_assert(cnt[i] == o.c[i], (nm + "differentiations of equation " + S(i)).c_str());
        for (size_t j = 0; j < o.fun.size(); ++j) {
            int b = o.fun[j], q = 0;
            while (r.vi[b].getDerivative() >= 0) { b = r.vi[b].getDerivative(); ++q; }
            vt_assert(q == o.d[j], (nm + "derivatives of variable " + S(j)).c_str());
        }
        // the highest derivatives are matched to the most differentiated equations
        std::set<int> used;
        for (size_t i = 0; i < r.ei.size(); ++i) {
            if (k[i] != cnt[org[i]]) continue;
            int v = r.ei[i].getAssignedVarIndex();
            vt_assert(v >= 0 && used.insert(v).second, (nm + "every most differentiated equation has its own variable").c_str());
            vt_assert(r.vi[v].getDerivative() < 0 && r.vi[v].isFunctionOfIntegrated(), (nm + "the assigned variable is a highest derivative").c_str());
            int b = v, q = 0;
            while (r.vi[b].getAntiDerivative() >= 0) { b = r.vi[b].getAntiDerivative(); ++q; }
            size_t j = std::find(o.fun.begin(), o.fun.end(), (size_t) b) - o.fun.begin();
            vt_assert(j < o.fun.size() && o.sigma[org[i]][j] >= 0 && o.sigma[org[i]][j] + k[i] == q, (nm + "the assigned variable occurs in the equation").c_str());
        }
    }
    for (size_t j = 0; j < n; ++j) vt_assert(r.vi[j].getOriginalIndex() == (int) j, (nm + "the original variables come first").c_str());
    Values ref = reference(s, r.vi, maxOrder);
    DV y = eval(*r.red, ref.v);
    for (size_t i = 0; i < r.ei.size(); ++i) vt_assert_eq(y[i], ref.deriv[org[i]][k[i]], (nm + "equation " + S(org[i]) + " differentiated " + S(k[i]) + " times").c_str());
    vt_reach("structural");
    if (method == 1) vt_reach("soares");
}
static void known() {
    static auto all = systems();
    int only = argi("only", -1);
    size_t q = only >= 0 ? only : vt_choice("system", all.size());
    int method = vt_choice("method", 2);
    vt_program((all[q].name + " method " + S(method)).c_str());
    structural(all[q], method);
}
static Dae chooseGeneric() {
    size_t n = argi("n", 2);
    int nd = argi("diffs", -1);
    std::vector<bool> diff(n);
    if (nd >= 0) for (int j = 0; j < nd; ++j) diff[j] = true;
    else for (size_t j = 0; j < n; ++j) diff[j] = vt_choice("differential", 2);
    size_t nu = n;
    for (bool b : diff) nu += b;
    int most = argi("most", 9);
    std::vector<unsigned> sets;
    for (unsigned k = 1; k < (1u << nu); ++k) if (__builtin_popcount(k) <= most) sets.push_back(k);
    bool time = argi("time", 0);
    std::vector<unsigned> uses(n);
    std::vector<int> form(n);
    for (size_t i = 0; i < n; ++i) {
        uses[i] = sets[vt_choice("uses", sets.size())];
        form[i] = argi("forms", 1) ? vt_choice("form", time ? 3 : 2) : (i + uses[i]) % 2;
    }
    return generic(n, diff, time, uses, form);
}
static void any() {
    int method = vt_choice("method", 2);
    Dae s = chooseGeneric();
    vt_program((s.name + " method " + S(method)).c_str());
    structural(s, method);
}

// ---- dummy derivatives -----------------------------------------------------------------
static bool zero(double a) { return a == 0; }
static bool dummy(const Dae& s, int method, bool reduceEq, bool semi, bool reorder, bool avoidConv, int avoid, bool strict) {
    std::string nm = label(s, std::string(method == 0 ? "pantelides" : "soares-secchi") + (reduceEq ? " reduce" : "") + (semi ? " semi-explicit" : "") + (reorder ? " reorder" : "") + (avoidConv ? " avoid" : "") + (avoid >= 0 ? " not " + S(avoid) : "") + ": ");
    Reduced b;
    Result& a = b.last;
    start(s, method, b);
    std::vector<DaeVarInfo> vi;
    std::vector<DaeEquationInfo> ei;
    std::unique_ptr<ADFun<CGD>> f;
    std::vector<std::string> avoided;
    try {
        DummyDerivatives<double> dd(*b.alg, s.typical, DV(s.vars.size(), 1.0), DV(s.m, 1.0));
        if (argi("show", 0)) dd.setVerbosity(Verbosity::High);
        dd.setReduceEquations(reduceEq);
        dd.setGenerateSemiExplicitDae(semi);
        dd.setReorder(reorder);
        dd.setAvoidConvertAlg2DifVars(avoidConv);
        if (avoid >= 0) dd.setAvoidVarsAsDummies({"dx" + S(avoid) + "dt", "ddx" + S(avoid) + "dtdt"});
        f = dd.reduceIndex(vi, ei);
    } catch (const CGException& e) {
        if (argi("show", 0)) fprintf(stderr, "EXC %s%s\n", nm.c_str(), e.what());
        if (strict) { fprintf(stderr, "%s\n", e.what()); vt_assert(false, (nm + "the reduction succeeds").c_str()); }
        return false;
    }
    if (!a.red) { vt_assert(f == nullptr, (nm + "nothing to do").c_str()); return false; }
    vt_assert(f != nullptr, (nm + "a system is returned").c_str());
    vt_assert(f->Domain() == vi.size() && f->Range() == ei.size(), (nm + "dimensions of the system").c_str());
    consistent(nm, vi, ei);
    // variables and equations keep their identity
    std::map<size_t, size_t> kept, keptEq; // identifier -> index
    for (size_t j = 0; j < vi.size(); ++j) {
        vt_assert(vi[j].getId() < a.vi.size() && kept.insert({vi[j].getId(), j}).second, (nm + "variables are variables of the reduced system, each once").c_str());
        vt_assert(vi[j].getName() == a.vi[vi[j].getId()].getName(), (nm + "variable names are kept").c_str());
    }
    for (size_t i = 0; i < ei.size(); ++i)
        vt_assert(ei[i].getId() < a.ei.size() && keptEq.insert({ei[i].getId(), i}).second, (nm + "equations are equations of the reduced system, each once").c_str());
    // classify
    size_t unknowns = 0, differential = 0, explicitEq = 0, algebraic = 0;
    for (auto& e : ei) explicitEq += e.isExplicit();
    for (size_t j = 0; j < vi.size(); ++j) {
        if (!vi[j].isFunctionOfIntegrated()) continue;
        if (vi[j].getAntiDerivative() >= 0) ++differential;
        else if (vi[j].getDerivative() < 0) ++algebraic;
    }
    if (!semi) {
        unknowns = differential + algebraic;
        vt_assert(unknowns == ei.size(), (nm + "as many unknowns as equations").c_str());
        vt_assert(explicitEq == 0, (nm + "no explicit equations").c_str());
    } else {
        vt_assert(differential == 0, (nm + "no derivatives in a semi-explicit system").c_str());
        vt_assert(algebraic == ei.size(), (nm + "as many variables as equations").c_str());
        std::set<int> as;
        for (auto& e : ei) if (e.isExplicit()) vt_assert(e.getAssignedVarIndex() >= 0 && as.insert(e.getAssignedVarIndex()).second, (nm + "every explicit equation has its own variable").c_str());
    }
    if (reorder) { // sorted: variables with derivatives, algebraic, derivatives, ... ; differential equations first
        bool alg = false;
        for (auto& e : ei) {
            int v = e.getAssignedVarIndex();
            bool dif = e.isExplicit() || (v >= 0 && vi[v].getAntiDerivative() >= 0);
            if (!dif) alg = true;
            else vt_assert(!alg, (nm + "differential equations before algebraic ones").c_str());
        }
    }
    // values: those of the remaining variables are free, those of the eliminated ones follow from the eliminated equations
    size_t n = a.vi.size();
    DV v(n);
    std::vector<bool> have(n, false);
    for (size_t j = 0; j < n; ++j) if (kept.count(j)) { v[j] = vt_real(("v" + S(j)).c_str()); have[j] = true; }
    std::vector<size_t> eqs; // equations that determine them
    for (size_t i = 0; i < a.ei.size(); ++i) if (!keptEq.count(i) || ei[keptEq[i]].isExplicit()) eqs.push_back(i);
    auto sp = jacobianSparsity<std::vector<bool>, CGD>(*a.red);
    size_t missing = n - vi.size();
    vt_assert(eqs.size() == missing, (nm + "one equation for each eliminated variable").c_str());
    while (missing) {
        bool any = false;
        for (size_t e = 0; e < eqs.size(); ++e) {
            std::vector<size_t> u;
            for (size_t j = 0; j < n; ++j) if (!have[j] && sp[eqs[e] * n + j]) u.push_back(j);
            if (u.size() != 1) continue;
            v[u[0]] = 0;
            double r0 = eval(*a.red, v)[eqs[e]];
            v[u[0]] = 1;
            double r1 = eval(*a.red, v)[eqs[e]];
            v[u[0]] = 2;
            vt_assume(eval(*a.red, v)[eqs[e]] - r1 == r1 - r0);
            v[u[0]] = -r0 / (r1 - r0);
            have[u[0]] = true;
            eqs.erase(eqs.begin() + e);
            --missing;
            any = true;
            break;
        }
        if (any) continue;
        // all that remain together
        std::vector<size_t> u;
        for (size_t j = 0; j < n; ++j) if (!have[j]) u.push_back(j);
        size_t q = u.size();
        vt_assert(q == eqs.size(), "square");
        std::vector<DV> M(q, DV(q + 1));
        for (size_t j = 0; j < q; ++j) v[u[j]] = 0;
        DV r0 = eval(*a.red, v);
        for (size_t j = 0; j < q; ++j) {
            v[u[j]] = 1;
            DV r1 = eval(*a.red, v);
            for (size_t i = 0; i < q; ++i) M[i][j] = sp[eqs[i] * n + u[j]] ? r1[eqs[i]] - r0[eqs[i]] : 0;
            v[u[j]] = 0;
        }
        DV all(n);
        for (size_t i = 0; i < q; ++i) M[i][q] = -r0[eqs[i]];
        std::vector<std::vector<bool>> nz(q, std::vector<bool>(q + 1, true));
        for (size_t i = 0; i < q; ++i) for (size_t j = 0; j < q; ++j) nz[i][j] = sp[eqs[i] * n + u[j]];
        for (size_t p = 0; p < q; ++p) {
            size_t w = p;
            while (w < q && !nz[w][p]) ++w;
            vt_assert(w < q, "the eliminated equations determine the eliminated variables");
            std::swap(M[w], M[p]);
            std::swap(nz[w], nz[p]);
            for (size_t i = p + 1; i < q; ++i) if (nz[i][p]) {
                double g = M[i][p] / M[p][p];
                for (size_t j = p + 1; j <= q; ++j) if (nz[p][j]) { M[i][j] = M[i][j] - g * M[p][j]; nz[i][j] = true; }
            }
        }
        for (size_t p = q; p-- > 0;) {
            double t = M[p][q];
            for (size_t j = p + 1; j < q; ++j) if (nz[p][j]) t = t - M[p][j] * v[u[j]];
            v[u[p]] = t / M[p][p];
            have[u[p]] = true;
        }
        missing = 0;
        vt_reach("block");
    }
    DV w(vi.size());
    for (size_t j = 0; j < vi.size(); ++j) w[j] = v[vi[j].getId()];
    DV R = eval(*a.red, v), y = eval(*f, w);
    for (size_t i = 0; i < ei.size(); ++i) {
        if (ei[i].isExplicit()) {
            int x = ei[i].getAssignedVarIndex(), d = a.vi[vi[x].getId()].getDerivative();
            vt_assert(d >= 0, (nm + "an explicit equation is for a variable with a derivative").c_str());
            vt_assert_eq(y[i], v[d], (nm + "explicit equation for " + vi[x].getName()).c_str());
        } else
            vt_assert_eq(y[i], R[ei[i].getId()], (nm + "equation " + S(ei[i].getId())).c_str());
    }
    vt_reach("dummy");
    if (semi) vt_reach("semi-explicit");
    if (reduceEq && ei.size() < a.ei.size()) vt_reach("fewer equations");
    return true;
}
static void dummies() {
    static auto all = systems();
    int only = argi("only", -1);
    size_t q = only >= 0 ? only : vt_choice("system", all.size());
    int method = vt_choice("method", 2), opt = vt_choice("options", 16), avoid = argi("avoid", 0) ? (int) vt_choice("not", 12) - 1 : -1;
    vt_program((all[q].name + " method " + S(method) + " options " + S(opt)).c_str());
    dummy(all[q], method, opt & 1, opt & 2, opt & 4, opt & 8, avoid, false);
}
static void anyDummies() {
    int method = vt_choice("method", argi("methods", 1)), opt = argi("options", 0) ? (int) vt_choice("options", 16) : -1;
    Dae s = chooseGeneric();
    if (opt < 0) { opt = 0; for (char ch : s.name) opt = opt * 7 + ch; opt &= 15; }
    vt_program((s.name + " method " + S(method) + " options " + S(opt)).c_str());
    dummy(s, method, opt & 1, opt & 2, opt & 4, opt & 8, -1, false);
}
extern "C" void vt_harness() {
    std::string c = vt_arg("case", "known");
    if (c == "known") known();
    else if (c == "any") any();
    else if (c == "dummy") dummies();
    else anyDummies();
    vt_reach("end");
}
