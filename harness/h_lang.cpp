// Source code written directly with CodeHandler and LanguageC: names, assignment forms, reuse of temporaries, several generations.
#include "hprogs.hpp"
#include "hgraph.hpp"
#include <dlfcn.h>
using namespace vt;
static int argi(const char* k, int d) { return atoi(vt_arg(k, std::to_string(d).c_str())); }
static std::string S(size_t i) { return std::to_string(i); }
typedef std::vector<CGD> VG;
typedef void (*Fun)(double const* const*, double* const*, LangCAtomicFun);

static Fun load(const std::map<std::string, std::string>& src, const std::string& name) {
    static int cnt = 0;
    GccCompiler<double> comp(modelCompiler());
    sandbox(comp);
    comp.setCompileFlags({"-O1"});
    std::string lib = std::string(vt_scratch()) + "/g" + S(cnt++) + ".so";
    comp.compileSources(src, true, nullptr);
    comp.buildDynamic(lib, nullptr);
    void* h = dlopen(lib.c_str(), RTLD_NOW);
    if (!h) fprintf(stderr, "%s\n", dlerror());
    vt_assert(h != nullptr, "the library can be loaded");
    Fun f = (Fun) dlsym(h, name.c_str());
    vt_assert(f != nullptr, "the function is in the library");
    return f;
}
static void runShape(int k, const VG& x, VG& y) {
    switch (k) {
        case 0: Shapes::shared()(x, y); break;
        case 1: Shapes::chain()(x, y); break;
        case 2: Shapes::cond()(x, y); break;
        case 3: Shapes::cond2()(x, y); break;
        case 4: Shapes::reuse()(x, y); break;
        case 5: Shapes::rational()(x, y); break;
        case 6: Shapes::wide()(x, y); break;
        case 7: Shapes::consts()(x, y); break;
        case 8: Shapes::single()(x, y); break;
        case 9: Shapes::lin()(x, y); break;
        case 10: Shapes::precedence()(x, y); break;
        default: Shapes::unused()(x, y);
    }
}
// one piece of generated code, ready to be called
struct Gen {
    CodeHandler<double>& h;
    int names, assign;
    bool func;
    Gen(CodeHandler<double>& h, int names, int assign, bool func) : h(h), names(names), assign(assign), func(func) {}
    std::unique_ptr<VariableNameGenerator<double>> nameGen(size_t n, size_t m) {
        if (names == 0) return std::unique_ptr<VariableNameGenerator<double>>(new LangCDefaultVariableNameGenerator<double>());
        if (names == 1) return std::unique_ptr<VariableNameGenerator<double>>(new LangCDefaultVariableNameGenerator<double>("res", "x", "aux", "arr"));
        // own names for some of the variables
        std::vector<std::string> dn(m), in(n);
        for (size_t i = 0; i < m; i += 2) dn[i] = "out_" + S(i);
        for (size_t i = 1; i < n; i += 2) in[i] = "in_" + S(i);
        return std::unique_ptr<VariableNameGenerator<double>>(new LangCCustomVariableNameGenerator<double>(dn, in));
    }
    // own language object for every generation, or one used repeatedly
    Fun make(LanguageC<double>& lang, VG& dep, size_t n, const std::string& fname) {
        size_t m = dep.size();
        auto ng = nameGen(n, m);
        lang.setParameterPrecision(17);
        lang.setDependentAssignOperation(assign == 1 ? "+=" : "=");
        lang.setIgnoreZeroDepAssign(assign == 2);
        h.setZeroDependents(assign == 1);
        lang.setGenerateFunction(func ? fname : "");
        std::ostringstream code;
        h.generateCode(code, lang, dep, *ng);
        std::string src;
        if (func) src = code.str();
        else {
            std::string Y = names == 1 ? "res" : "y", X = "x";
            src = "#include <math.h>\nstruct LangCAtomicFun { void* a; void* b; void* c; };\nvoid " + fname + "(double const*const* in, double*const* out, struct LangCAtomicFun atomicFun) {\n";
            src += "const double* " + X + " = in[0];\ndouble* " + Y + " = out[0];\n" + (assign == 1 ? "" : "unsigned long i;\n");
            std::string dcl = lang.generateTemporaryVariableDeclaration();
            if (assign == 1) src += "unsigned long i;\n";
            src += dcl;
            if (names == 2) {
                for (size_t j = 1; j < n; j += 2) src += "const double in_" + S(j) + " = x[" + S(j) + "];\n";
                for (size_t j = 0; j < m; j += 2) src += "double out_" + S(j) + (assign == 0 ? "" : " = 0") + ";\n";
            }
            src += code.str();
            if (names == 2) for (size_t j = 0; j < m; j += 2) src += "y[" + S(j) + "] = out_" + S(j) + ";\n";
            src += "}\n";
        }
        if (getenv("VT_SHOW")) fprintf(stderr, "%s\n", src.c_str());
        return load({{fname + ".c", src}}, fname);
    }
    void check(Fun f, const DV& X, const DV& ref, const std::string& what) {
        DV y(ref.size() + 1, assign ? 0.0 : 3.0), x = X;
        y.back() = 11.0;
        const double* in[] = {x.data()};
        double* out[] = {y.data()};
        LangCAtomicFun at{};
        f(in, out, at);
        for (size_t i = 0; i < ref.size(); ++i) vt_assert_eq(y[i], ref[i], (what + " " + S(i)).c_str());
        vt_assert_eq(y.back(), 11.0, (what + ": nothing written after the results").c_str());
        for (size_t i = 0; i < x.size(); ++i) vt_assert_eq(x[i], X[i], (what + ": inputs unchanged").c_str());
    }
};
static void gen() {
    static auto sh = shapes();
    int only = argi("only", -1);
    static const int Q[] = {0, 3, 4, 7, 11};
    int k = only >= 0 ? only : argi("all", 0) ? vt_choice("shape", sh.size()) : Q[vt_choice("shape", 5)];
    const Prog& p = sh[k];
    bool all = argi("all", 0);
    int names = vt_choice("names", 3), assign = vt_choice("assign", 3), reuse = vt_choice("reuse ids", 2), func = all ? vt_choice("function", 2) : (names + assign + reuse) % 2, second = argi("then", -1) >= 0 ? argi("then", 0) : vt_choice("then", 5);
    if (names == 2) func = 0;  // individual names need their own declarations
    if (names == 2 && assign == 1) assign = 2;
    std::string nm = p.name + " names " + S(names) + " assign " + S(assign) + " reuse " + S(reuse) + (func ? " function" : " body") + " then " + S(second);
    vt_program(nm.c_str());
    CodeHandler<double> h;
    h.setReuseVariableIDs(reuse);
    VG x(p.n), y(p.m);
    h.makeVariables(x);
    runShape(k, x, y);
    auto f = tapeD(p);
    DV X = reals("x", p.n), ref = f->Forward(0, X);
    Gen g(h, names, assign, func);
    LanguageC<double> lang("double"), lang2("double");
    // everything is generated before anything runs
    struct Job { Gen g; Fun f; DV X, ref; std::string what; };
    std::vector<Job> jobs;
    auto add = [&](Gen gg, LanguageC<double>& l, VG& dep, size_t n, const char* fn, const DV& in, const DV& r, const std::string& what) {
        Fun ff = gg.make(l, dep, n, fn);
        jobs.push_back({gg, ff, in, r, nm + what});
    };
    add(g, lang, y, p.n, "f1", X, ref, " value");
    CodeHandler<double> h2;
    VG z; DV r;
    if (second == 1) { // the same results in another order, some of them twice, with the same language object
        for (size_t i = p.m; i-- > 0;) { z.push_back(y[i]); r.push_back(ref[i]); }
        z.push_back(y[0]); r.push_back(ref[0]); z.push_back(x[p.n - 1]); r.push_back(X[p.n - 1]); z.push_back(CGD(-1.5)); r.push_back(-1.5);
        add(g, lang, z, p.n, "f2", X, r, " reordered");
    } else if (second == 2) { // further operations on the results
        z = {y[0] * y[p.m - 1] + x[0], y[p.m - 1], y[0] * y[p.m - 1]};
        r = {ref[0] * ref[p.m - 1] + X[0], ref[p.m - 1], ref[0] * ref[p.m - 1]};
        Gen g2(h, names == 2 ? 2 : 1 - names, names == 2 ? 0 : assign ? 0 : 1, names != 2); // the names given to independents stay
        add(g2, lang2, z, p.n, "f2", X, r, " continued");
        add(g, lang, y, p.n, "f3", X, ref, " the first results again");
    } else if (second == 3) { // only one of them
        z = {y[p.m - 1]};
        r = {ref[p.m - 1]};
        add(Gen(h, names == 2 ? 2 : 0, 0, names != 2 && !func), lang2, z, p.n, "f2", X, r, " one result");
    } else if (second == 4) { // the operations, once generated, evaluated for the independents of another handler
        VG u(p.n + 1), in(p.n);
        h2.makeVariables(u);
        DV U = reals("u", p.n + 1), I(p.n);
        for (size_t j = 0; j < p.n; ++j) { in[j] = u[p.n - j]; I[j] = U[p.n - j]; }
        Evaluator<double, double, CGD> e(h);
        z = e.evaluate(ArrayView<const CGD>(in), ArrayView<const CGD>(y));
        add(Gen(h2, names == 2 ? 0 : names, assign, func), lang2, z, p.n + 1, "f2", U, f->Forward(0, I), " evaluated in another handler");
    }
    for (auto& j : jobs) j.g.check(j.f, j.X, j.ref, j.what);
    vt_reach("gen");
}
// an independent variable is replaced by the solution of an equation, with or without a generation before and after
static void subst() {
    static auto sh = shapes();
    int only = argi("only", -1);
    bool all = argi("all", 0);
    static const int Q[] = {0, 3, 4, 5};
    int k = only >= 0 ? only : all ? vt_choice("shape", sh.size()) : Q[vt_choice("shape", 4)];
    const Prog& p = sh[k];
    int names = vt_choice("names", 2), assign = vt_choice("assign", 3), func = (names + assign) % 2;
    int form = vt_choice("value", 7), before = vt_choice("generated before", 2), remove = vt_choice("removed", 3);
    size_t j = vt_choice("variable", p.n);
    if (p.n < 2 && form >= 3) vt_skip();
    if (remove && before) vt_skip();  // names given to independents stay: variables are removed before anything is generated
    if (names != (k + form) % 2 || assign != (int) (k + form + j) % 3) vt_skip();
    if (!all && !remove && before != (int) (form + j) % 2) vt_skip();
    if (!all && remove && (form + j + k) % 2 != (size_t) remove - 1) vt_skip();
    size_t o = (j + 1) % p.n;
    static const char* FN[] = {"2", "-4", "0.5", "-x", "x*x+1", "x", "result"};
    std::string nm = p.name + " x" + S(j) + ":=" + FN[form] + " names " + S(names) + " assign " + S(assign) + (func ? " function" : " body") + (before ? " generated before" : "") + (remove == 0 ? " kept" : remove == 1 ? " removed" : " removed later");
    vt_program(nm.c_str());
    CodeHandler<double> h;
    VG x(p.n), y(p.m);
    h.makeVariables(x);
    runShape(k, x, y);
    auto f = tapeD(p);
    DV X = reals("x", p.n), ref = f->Forward(0, X);
    Gen g(h, names, assign, func);
    LanguageC<double> lang("double");
    struct Job { Gen g; Fun f; DV X, ref; std::string what; };
    std::vector<Job> jobs;
    auto add = [&](VG& dep, size_t n, const char* fn, const DV& in, const DV& r, const std::string& what) {
        Fun ff = g.make(lang, dep, n, fn);
        jobs.push_back({g, ff, in, r, nm + what});
    };
    if (before) add(y, p.n, "f1", X, ref, " value");
    CGD e;
    double v;
    switch (form) {
        case 0: e = 2; v = 2; break;
        case 1: e = -4; v = -4; break;
        case 2: e = 0.5; v = 0.5; break;
        case 3: e = -x[o]; v = -X[o]; break;
        case 4: e = x[o] * x[o] + 1.0; v = X[o] * X[o] + 1.0; break;
        case 5: e = x[o]; v = X[o]; break;
        default: e = 2.0 * x[o]; v = 2.0 * X[o];
    }
    DV X2 = X;
    X2[j] = v;
    DV ref2 = f->Forward(0, X2);
    CGD eq = form == 6 ? e - x[j] : x[j] - e;
    h.substituteIndependent(x[j], eq, remove == 1);
    DV in = X;
    size_t n2 = p.n;
    if (remove == 1) { in.erase(in.begin() + j); --n2; }
    if (in.empty()) in.push_back(0.0);
    if (remove == 2) {
        h.removeIndependent(*x[j].getOperationNode());
        if (p.n > 1) in.erase(in.begin() + j);
        --n2;
    }
    add(y, n2, "f2", in, ref2, " substituted");
    VG z = {x[j] * 2.0, y[0] + x[j], -x[j], x[j], sign(x[j]) + 1.0, x[j] * x[j] - x[j], sign(-x[j])};
    double sg = v > 0 ? 1 : v < 0 ? -1 : 0;
    DV rz = {v * 2.0, ref2[0] + v, -v, v, sg + 1, v * v - v, -sg};
    if (argi("further", 1)) add(z, n2, "f3", in, rz, " further operations");
    if (remove == 0) {
        h.undoSubstituteIndependent(*x[j].getOperationNode());
        add(y, p.n, "f4", X, ref, " undone");
        VG q = {y[0], x[j]};
        add(q, p.n, "f5", X, {ref[0], X[j]}, " undone, other results");
    }
    for (auto& jb : jobs) jb.g.check(jb.f, jb.X, jb.ref, jb.what);
    vt_reach("subst");
}
extern "C" void vt_harness() {
    std::string c = vt_arg("case", "gen");
    if (c == "gen") gen();
    if (c == "subst") subst();
    vt_reach("end");
}
