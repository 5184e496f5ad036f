// CG values: arithmetic, folding, conditionals, comparisons, evaluators, solver, substitution.
#include "hprogs.hpp"
#include "hgraph.hpp"
using namespace vt;
static int argi(const char* k, int d) { return atoi(vt_arg(k, std::to_string(d).c_str())); }
static std::string S(size_t i) { return std::to_string(i); }

// ---- operands ------------------------------------------------------------------
// the value of an expression for the inputs it is evaluated with (v) and for the inputs its author recorded with setValue() (r):
// recorded values are one sample, the meaning must not depend on them
struct D2 { double v, r; };
static D2 c2(double c) { return {c, c}; }
static D2 operator+(D2 a, D2 b) { return {a.v + b.v, a.r + b.r}; }
static D2 operator-(D2 a, D2 b) { return {a.v - b.v, a.r - b.r}; }
static D2 operator*(D2 a, D2 b) { return {a.v * b.v, a.r * b.r}; }
static D2 operator/(D2 a, D2 b) { return {a.v / b.v, a.r / b.r}; }
static D2 operator-(D2 a) { return {-a.v, -a.r}; }
static D2 pow2(D2 a, D2 b) { return {std::pow(a.v, b.v), std::pow(a.r, b.r)}; }
struct Val { CGD g; D2 v; bool par, known; std::string nm; };
struct World {
    CodeHandler<double> h;
    std::vector<CGD> x;
    DV X, R;
    int valdef; // 0 no values, 1 all independents have values, 2 only the first
    World(size_t n, int vd) : x(n), valdef(vd) {
        h.makeVariables(x);
        X = reals("x", n);
        R = vd ? reals("recorded", n) : X;
        for (size_t i = 0; i < n; ++i) if (vd == 1 || (vd == 2 && i == 0)) x[i].setValue(R[i]);
    }
    bool known(size_t i) { return valdef == 1 || (valdef == 2 && i == 0); }
    D2 in(size_t i) { return {X[i], R[i]}; }
    enum { N = 8 };
    Val operand(int k, const char* cname) {
        switch (k) {
            case 0: return {x[0], in(0), false, known(0), "x0"};
            case 1: return {x[1], in(1), false, known(1), "x1"};
            case 2: { double c = vt_real(cname); return {CGD(c), c2(c), true, true, "c"}; }
            case 3: return {CGD(0.0), c2(0.0), true, true, "0"};
            case 4: return {CGD(1.0), c2(1.0), true, true, "1"};
            case 5: { CGD t = x[0] * x[1]; return {t, in(0) * in(1), false, known(0) && known(1), "x0*x1"}; }
            case 6: { CGD t = -x[1]; return {t, -in(1), false, known(1), "-x1"}; }
            default: return {CGD(-1.0), c2(-1.0), true, true, "-1"};
        }
    }
};
static void means(World& w, const CGD& r, D2 v, bool known, const std::string& what) {
    Interp I(w.h, w.X);
    vt_assert(r.isVariable() != r.isParameter(), "variable or parameter");
    vt_assert_eq(I(r), v.v, (what + " meaning").c_str());
    if (r.isParameter()) {
        vt_assert(r.isValueDefined(), (what + ": parameters have a value").c_str());
        vt_assert(r.getCodeHandler() == nullptr, (what + ": parameters belong to no handler").c_str());
    } else {
        vt_assert(r.getCodeHandler() == &w.h, (what + " handler").c_str());
        vt_assert(!r.isIdenticalZero() && !r.isIdenticalOne() && !CppAD::IdenticalCon(r) && !CppAD::IdenticalZero(r) && !CppAD::IdenticalOne(r), (what + ": a variable is never identical to a parameter").c_str());
    }
    if (known) vt_assert(r.isValueDefined(), (what + ": value known when both operands have one").c_str());
    if (r.isValueDefined()) vt_assert_eq(r.getValue(), v.r, (what + " value").c_str());
}
enum { NAR = 17 };
static const char* arName(int k) {
    static const char* s[NAR] = {"+", "-", "*", "/", "+=", "-=", "*=", "/=", "pow", "base+", "base-", "base*", "base/", "+base", "-base", "*base", "/base"};
    return s[k];
}
static bool applyAr(int k, const Val& l, const Val& r, CGD& g, D2& v) {
    switch (k) {
        case 0: g = l.g + r.g; v = l.v + r.v; break;
        case 1: g = l.g - r.g; v = l.v - r.v; break;
        case 2: g = l.g * r.g; v = l.v * r.v; break;
        case 3: g = l.g / r.g; v = l.v / r.v; break;
        case 4: g = l.g; g += r.g; v = l.v + r.v; break;
        case 5: g = l.g; g -= r.g; v = l.v - r.v; break;
        case 6: g = l.g; g *= r.g; v = l.v * r.v; break;
        case 7: g = l.g; g /= r.g; v = l.v / r.v; break;
        case 8: g = CppAD::pow(l.g, r.g); v = pow2(l.v, r.v); break;
        case 9: if (!l.par) return false; g = l.v.v + r.g; v = l.v + r.v; break;
        case 10: if (!l.par) return false; g = l.v.v - r.g; v = l.v - r.v; break;
        case 11: if (!l.par) return false; g = l.v.v * r.g; v = l.v * r.v; break;
        case 12: if (!l.par) return false; g = l.v.v / r.g; v = l.v / r.v; break;
        case 13: if (!r.par) return false; g = l.g; g += r.v.v; v = l.v + r.v; { CGD q = l.g + r.v.v; (void) q; } break;
        case 14: if (!r.par) return false; g = l.g - r.v.v; v = l.v - r.v; break;
        case 15: if (!r.par) return false; g = l.g * r.v.v; v = l.v * r.v; break;
        default: if (!r.par) return false; g = l.g / r.v.v; v = l.v / r.v; break;
    }
    return true;
}
static void nonzeroDivisor(int k, const Val& l, const Val& r) {
    bool div = k == 3 || k == 7 || k == 12 || k == 16;
    if (div) { vt_assume(r.v.v != 0.0); vt_assume(r.v.r != 0.0); }           // x/0 is outside the claim
    if (k == 8) { vt_assume(l.v.v > 0.0); vt_assume(l.v.r > 0.0); }     // pow is taken on positive bases
}
static void arith() {
    World w(2, vt_choice("values", 3));
    int k = vt_choice("op", NAR), a = vt_choice("left", World::N), b = vt_choice("right", World::N);
    Val l = w.operand(a, "c"), r = w.operand(b, "d");
    nonzeroDivisor(k, l, r);
    CGD g; D2 v;
    if (!applyAr(k, l, r, g, v)) vt_skip();
    std::string nm = l.nm + arName(k) + r.nm;
    vt_program(nm.c_str());
    means(w, g, v, l.known && r.known, nm);
    means(w, l.g, l.v, l.known, nm + " left operand");
    means(w, r.g, r.v, r.known, nm + " right operand");
    if (argi("deep", 0)) { // combine the result again
        int k2 = vt_choice("op2", 9), c = vt_choice("third", World::N), side = vt_choice("side", 2);
        Val o = w.operand(c, "e"), res{g, v, g.isParameter(), l.known && r.known, "r"};
        Val& L = side ? o : res; Val& R = side ? res : o;
        nonzeroDivisor(k2, L, R);
        CGD g2; D2 v2;
        if (!applyAr(k2, L, R, g2, v2)) vt_skip();
        means(w, g2, v2, L.known && R.known, nm + " then " + L.nm + arName(k2) + R.nm);
    } else { // an operand used on both sides, and the result assigned over an operand
        CGD q = g;
        q += q; means(w, q, v + v, false, nm + " added to itself");
        q = g; q -= q; means(w, q, c2(0.0), false, nm + " subtracted from itself");
        q = g; q *= q; means(w, q, v * v, false, nm + " times itself");
        CGD mv(std::move(q)); means(w, mv, v * v, false, nm + " moved");
        q = 5.0; means(w, q, c2(5.0), true, "assigned parameter");
        q = g; means(w, q, v, l.known && r.known, nm + " assigned");
        q = CGD(); means(w, q, c2(0.0), true, "default value");
        means(w, -g, -v, false, nm + " negated");
        means(w, +g, v, false, nm + " unary plus");
    }
    vt_reach("arith");
}
static double unValue(int k, double a) {
    // the domain of the function
    if (k == 2) vt_assume(a >= 0.0);
    if (k == 10 || k == 11) vt_assume(a > 0.0);
    if (k == 6 || k == 7) vt_assume(a >= -1.0 && a <= 1.0);
    if (k == 18) vt_assume(a > -1.0);
    if (k == 20) vt_assume(a >= 1.0);
    if (k == 21) vt_assume(a > -1.0 && a < 1.0);
    double v;
    switch (k) {
        case 0: v = -a; break;
        case 1: v = a < 0 ? -a : a; break;
        case 2: v = std::sqrt(a); break;
        case 3: v = std::sin(a); break;
        case 4: v = std::cos(a); break;
        case 5: v = std::tan(a); break;
        case 6: v = std::asin(a); break;
        case 7: v = std::acos(a); break;
        case 8: v = std::atan(a); break;
        case 9: v = std::exp(a); break;
        case 10: v = std::log(a); break;
        case 11: v = std::log(a) / std::log(10.0); break;
        case 12: v = std::sinh(a); break;
        case 13: v = std::cosh(a); break;
        case 14: v = std::tanh(a); break;
        case 15: v = a > 0 ? 1.0 : a < 0 ? -1.0 : 0.0; break;
        case 16: v = std::erf(a); break;
        case 17: v = std::expm1(a); break;
        case 18: v = std::log1p(a); break;
        case 19: v = std::asinh(a); break;
        case 20: v = std::acosh(a); break;
        default: v = std::atanh(a); break;
    }
    return v;
}
static void unary() {
    World w(2, vt_choice("values", 3));
    int k = vt_choice("op", NUN), a = vt_choice("operand", World::N);
    Val l = w.operand(a, "c");
    D2 v{unValue(k, l.v.v), unValue(k, l.v.r)};
    std::string nm = std::string(unName(k)) + "(" + l.nm + ")";
    vt_program(nm.c_str());
    CGD g = un(k, l.g);
    means(w, g, v, l.known, nm);
    means(w, l.g, l.v, l.known, nm + " operand");
    if (k == 16) { CGD e = CppAD::erfc(l.g); means(w, e, D2{std::erfc(l.v.v), std::erfc(l.v.r)}, l.known, "erfc"); }
    if (k == 1) means(w, CppAD::fabs(l.g), v, l.known, "fabs");
    vt_reach("unary");
}
static void cond() {
    World w(2, vt_choice("values", 3));
    bool all = argi("all", 0);
    static const int LQ[] = {0, 2, 5}, RQ[] = {0, 1, 2, 3}, TQ[] = {0, 1, 2, 4, 5}, FQ[] = {0, 1, 2, 3, 5};
    int k = vt_choice("op", 5), a = all ? vt_choice("left", World::N) : LQ[vt_choice("left", 3)], b = all ? vt_choice("right", 6) : RQ[vt_choice("right", 4)],
        t = all ? vt_choice("true", 6) : TQ[vt_choice("true", 5)], f = all ? vt_choice("false", 6) : FQ[vt_choice("false", 5)];
    Val l = w.operand(a, "c"), r = w.operand(b, "d"), p = w.operand(t, "e"), q = w.operand(f, "g");
    static const CppAD::CompareOp cop[] = {CppAD::CompareLt, CppAD::CompareLe, CppAD::CompareEq, CppAD::CompareGe, CppAD::CompareGt};
    static const char* cn[] = {"lt", "le", "eq", "ge", "gt"};
    auto holds = [k](double a, double b) { return k == 0 ? a < b : k == 1 ? a <= b : k == 2 ? a == b : k == 3 ? a >= b : a > b; };
    D2 v{holds(l.v.v, r.v.v) ? p.v.v : q.v.v, holds(l.v.r, r.v.r) ? p.v.r : q.v.r};
    std::string nm = std::string("condexp ") + cn[k] + "(" + l.nm + "," + r.nm + "," + p.nm + "," + q.nm + ")";
    vt_program(nm.c_str());
    CGD g = CondExpOp(cop[k], l.g, r.g, p.g, q.g);
    means(w, g, v, l.known && r.known && p.known && q.known, nm);
    vt_reach("cond");
}
template<class F> static bool throws(F f) {
    try { f(); } catch (const CGException&) { return true; }
    return false;
}
static void compare() {
    World w(2, vt_choice("values", 2));
    int a = vt_choice("left", World::N), b = vt_choice("right", World::N);
    Val l = w.operand(a, "c"), r = w.operand(b, "d");
    std::string nm = l.nm + " compared with " + r.nm;
    vt_program(nm.c_str());
    if (l.par && r.par) {
        vt_assert((l.g == r.g) == (l.v.v == r.v.v), (nm + " ==").c_str());
        vt_assert((l.g != r.g) == (l.v.v != r.v.v), (nm + " !=").c_str());
        vt_assert((l.g < r.g) == (l.v.v < r.v.v), (nm + " <").c_str());
        vt_assert((l.g <= r.g) == (l.v.v <= r.v.v), (nm + " <=").c_str());
        vt_assert((l.g > r.g) == (l.v.v > r.v.v), (nm + " >").c_str());
        vt_assert((l.g >= r.g) == (l.v.v >= r.v.v), (nm + " >=").c_str());
        vt_assert(CppAD::abs_geq(l.g, r.g) == ((l.v.v < 0 ? -l.v.v : l.v.v) >= (r.v.v < 0 ? -r.v.v : r.v.v)), (nm + " abs_geq").c_str());
        vt_assert(CppAD::IdenticalEqualCon(l.g, r.g) == (l.v.v == r.v.v), (nm + " IdenticalEqualPar").c_str());
    } else {
        bool same = !l.par && !r.par && l.g.getOperationNode() == r.g.getOperationNode();
        vt_assert((l.g == r.g) == same, (nm + " ==").c_str());
        vt_assert((l.g != r.g) == !same, (nm + " !=").c_str());
        vt_assert(throws([&] { (void) (l.g < r.g); }) && throws([&] { (void) (l.g <= r.g); }) && throws([&] { (void) (l.g > r.g); }) && throws([&] { (void) (l.g >= r.g); }) && throws([&] { CppAD::abs_geq(l.g, r.g); }),
                  (nm + ": ordering of variables is refused").c_str());
        vt_assert(!CppAD::IdenticalEqualCon(l.g, r.g), (nm + " IdenticalEqualPar").c_str());
    }
    if (l.par) {
        vt_assert((l.g == r.v.v) == (l.v.v == r.v.v), (nm + " == base").c_str());
        vt_assert((r.v.v == l.g) == (l.v.v == r.v.v) && (r.v.v != l.g) == (l.v.v != r.v.v), (nm + " base ==").c_str());
        vt_assert(CppAD::GreaterThanZero(l.g) == (l.v.v > 0) && CppAD::GreaterThanOrZero(l.g) == (l.v.v >= 0) && CppAD::LessThanZero(l.g) == (l.v.v < 0) && CppAD::LessThanOrZero(l.g) == (l.v.v <= 0), (nm + " sign tests").c_str());
        vt_assert(CppAD::IdenticalCon(l.g) && CppAD::IdenticalZero(l.g) == (l.v.v == 0) && CppAD::IdenticalOne(l.g) == (l.v.v == 1), (nm + " identical tests").c_str());
        vt_assert(l.g.isIdenticalZero() == (l.v.v == 0) && l.g.isIdenticalOne() == (l.v.v == 1), (nm + " isIdentical").c_str());
    } else {
        vt_assert(throws([&] { CppAD::GreaterThanZero(l.g); }) && throws([&] { CppAD::GreaterThanOrZero(l.g); }) && throws([&] { CppAD::LessThanZero(l.g); }) && throws([&] { CppAD::LessThanOrZero(l.g); }), (nm + ": sign tests of variables are refused").c_str());
        vt_assert(!(l.g == r.v.v) && !(r.v.v == l.g) && r.v.v != l.g, (nm + ": a variable differs from every base value").c_str());
    }
    vt_reach("compare");
}
// operations over the variables of two handlers are refused
static void mixing() {
    int vd = vt_choice("values", 2);
    World w(2, vd);
    CodeHandler<double> h2;
    CGD z; h2.makeVariable(z);
    if (vd) z.setValue(0.5);
    int k = vt_choice("op", 9 + 5), s = vt_choice("side", 2), pos = vt_choice("operand", 2);
    CGD o = pos ? CGD(w.x[0] * w.x[1]) : w.x[0];
    CGD l = s ? z : o, r = s ? o : z, keep = l;
    std::string nm = std::string("two handlers ") + (k < 9 ? arName(k) : "condexp");
    vt_program(nm.c_str());
    bool t = throws([&] {
        switch (k) {
            case 0: l + r; break;
            case 1: l - r; break;
            case 2: l * r; break;
            case 3: l / r; break;
            case 4: l += r; break;
            case 5: l -= r; break;
            case 6: l *= r; break;
            case 7: l /= r; break;
            case 8: CppAD::pow(l, r); break;
            case 9: CondExpLt(l, r, CGD(1.0), CGD(2.0)); break;
            case 10: CondExpLe(l, CGD(3.0), r, CGD(2.0)); break;
            case 11: CondExpEq(l, CGD(3.0), CGD(1.0), r); break;
            case 12: CondExpGe(CGD(1.5), l, r, CGD(2.0)); break;
            default: CondExpGt(CGD(1.5), CGD(2.0) * l, l, r); break;
        }
    });
    vt_assert(t, (nm + " is refused").c_str());
    vt_assert(l.getOperationNode() == keep.getOperationNode(), (nm + ": the left operand is unchanged").c_str());
    vt_reach("mixing");
}

// ---- expressions built from a small grammar ------------------------------------
static const int EOPS[] = {22, 23, 24, 25, 0, 3, 9, 4, 27, 31, 1, 15, 26, 2, 34, 36}; // op() codes, cheap ones first
template<class T> static std::vector<T> build(const std::vector<std::array<int, 3>>& st, std::vector<T> v) {
    for (auto& s : st) v.push_back(op(s[0], v[s[1]], v[s[2]]));
    return v;
}
static std::vector<std::array<int, 3>> steps(size_t n, int k, int nops, std::string& nm) {
    std::vector<std::array<int, 3>> st;
    for (int i = 0; i < k; ++i) {
        std::array<int, 3> s;
        s[0] = EOPS[vt_choice(("o" + S(i)).c_str(), nops)];
        s[1] = vt_choice(("a" + S(i)).c_str(), n + i);
        bool bin = s[0] >= 22 && s[0] < 34;
        s[2] = bin || s[0] == 34 ? vt_choice(("b" + S(i)).c_str(), n + i) : 0;
        nm += " v" + S(n + i) + "=" + opName(s[0]) + "(v" + S(s[1]) + (bin ? ",v" + S(s[2]) : "") + ")";
        st.push_back(s);
    }
    return st;
}
// reprocess a graph for other independents: CG (another handler), AD, AD<CG>
static void evaluators() {
    int kind = vt_choice("kind", 5);
    std::string nm;
    World w(2, kind == 4);
    std::vector<CGD> g, dep;
    if (argi("conds", 0)) { // every comparison, operands and branches of every kind
        int k = vt_choice("cmp", 5), all = argi("all", 0), swap = all ? vt_choice("swap", 2) : 1, l = vt_choice("left", all ? 3 : 2), r = vt_choice("right", 4), t = vt_choice("true", 3), f = vt_choice("false", 3);
        static const CppAD::CompareOp cop[] = {CppAD::CompareLt, CppAD::CompareLe, CppAD::CompareEq, CppAD::CompareGe, CppAD::CompareGt};
        CGD v[5] = {w.x[swap], w.x[0] * w.x[1], CGD(1.5), w.x[1 - swap], w.x[1] + w.x[0]};
        g = w.x;
        g.push_back(CondExpOp(cop[k], v[l], v[r == 0 ? 3 : r], t == 0 ? v[0] : t == 1 ? v[4] : CGD(2.25), f == 0 ? v[3] : f == 1 ? v[1] : CGD(-0.5)));
        if (all) g.push_back(CondExpOp(cop[k], v[4], v[3], g.back(), v[0]));
        else g.push_back(g.back() + v[0]);
        nm = "conditional " + S(k) + S(swap) + S(l) + S(r) + S(t) + S(f);
    } else {
        auto st = steps(2, argi("steps", 2), argi("nops", 16), nm);
        g = build<CGD>(st, w.x);
    }
    for (size_t i = 2; i < g.size(); ++i) dep.push_back(g[i]);
    dep.push_back(g.back()); dep.push_back(w.x[1]); dep.push_back(CGD(2.5)); dep.push_back(g.back() * g[g.size() - 2] + w.x[0]);
    auto value = [&](const DV& X) {
        Interp I(w.h, X);
        DV r;
        for (auto& d : dep) r.push_back(I(d));
        return r;
    };
    static const char* kn[] = {"CG", "CG with parameters and shared expressions", "AD", "AD<CG>", "CG with values"};
    vt_program((nm + " evaluated with " + kn[kind]).c_str());
    DV Y = reals("y", 2);
    if (kind == 0 || kind == 1 || kind == 4) {
        CodeHandler<double> h2;
        std::vector<CGD> u(2);
        h2.makeVariables(u);
        if (kind == 4) for (int i = 0; i < 2; ++i) u[i].setValue(Y[i]);
        std::vector<CGD> in{u[1], u[0]};
        DV inv{Y[1], Y[0]};
        if (kind == 1) vt_assume(Y[0] != 0);  // may be a divisor
        if (kind == 1) { in[0] = CGD(Y[0]); in[1] = u[0] * u[1]; inv = {Y[0], Y[0] * Y[1]}; }
        Evaluator<double, double, CGD> e(w.h);
        std::vector<CGD> out = e.evaluate(ArrayView<const CGD>(in), ArrayView<const CGD>(dep));
        DV ref = value(inv);
        vt_assert(out.size() == dep.size(), "evaluator size");
        Interp I2(h2, Y);
        for (size_t i = 0; i < out.size(); ++i) {
            vt_assert_eq(I2(out[i]), ref[i], (nm + " evaluated " + S(i)).c_str());
            if (out[i].isValueDefined()) vt_assert_eq(out[i].getValue(), ref[i], (nm + " evaluated value " + S(i)).c_str());
            else vt_assert(kind != 4, "values carried over by the evaluator");
        }
        // the same evaluator again, other independents
        std::vector<CGD> in2{u[0], u[0]};
        std::vector<CGD> out2(dep.size());
        e.evaluate(ArrayView<const CGD>(in2), ArrayView<CGD>(out2), ArrayView<const CGD>(dep));
        DV ref2 = value({Y[0], Y[0]});
        Interp I3(h2, Y);
        for (size_t i = 0; i < out2.size(); ++i) vt_assert_eq(I3(out2[i]), ref2[i], (nm + " evaluated again " + S(i)).c_str());
        // and the source graph is as it was
        Interp I4(w.h, w.X);
        DV r0 = value(w.X);
        for (size_t i = 0; i < dep.size(); ++i) vt_assert_eq(I4(dep[i]), r0[i], "source graph unchanged");
    } else if (kind == 2) {
        std::vector<AD<double>> ax(2);
        ax[0] = 0.5; ax[1] = 1.5;
        CppAD::Independent(ax);
        Evaluator<double, double, AD<double>> e(w.h);
        std::vector<AD<double>> ay = e.evaluate(ArrayView<const AD<double>>(ax), ArrayView<const CGD>(dep));
        CppAD::ADFun<double> f;
        f.Dependent(ax, ay);
        DV y = f.Forward(0, Y), ref = value(Y);
        for (size_t i = 0; i < ref.size(); ++i) vt_assert_eq(y[i], ref[i], (nm + " taped " + S(i)).c_str());
    } else {
        std::vector<ADCG> ax(2);
        ax[0] = 0.5; ax[1] = 1.5;
        CppAD::Independent(ax);
        Evaluator<double, CGD, ADCG> e(w.h);
        std::vector<ADCG> ay = e.evaluate(ArrayView<const ADCG>(ax), ArrayView<const CGD>(dep));
        CppAD::ADFun<CGD> f;
        f.Dependent(ax, ay);
        CodeHandler<double> h2;
        std::vector<CGD> u(2);
        h2.makeVariables(u);
        std::vector<CGD> y = f.Forward(0, u);
        DV ref = value(Y);
        Interp I2(h2, Y);
        for (size_t i = 0; i < ref.size(); ++i) vt_assert_eq(I2(y[i]), ref[i], (nm + " taped with CG " + S(i)).c_str());
    }
    vt_reach("eval");
}
// solve expression = 0 for a variable; substitute it
static bool bad(double v) { return !std::isfinite(v); } // outside the domain
static void solve() {
    std::string nm;
    int k = argi("steps", 3);
    static const int SOPS[] = {22, 23, 24, 25, 0, 37, 9, 10, 2, 38};
    int nops = argi("nops", 5), nv = argi("vars", 3);
    bool canon = argi("canon", 0);
    std::vector<std::array<int, 3>> st;
    for (int i = 0; i < k; ++i) {
        std::array<int, 3> s;
        s[0] = SOPS[vt_choice(("o" + S(i)).c_str(), nops)];
        bool bin = s[0] >= 22 && s[0] < 34;
        if (i == 0 || bin) s[1] = vt_choice(("a" + S(i)).c_str(), nv + i);
        else s[1] = nv - 1 + i;                       // unary: on the previous value
        s[2] = bin ? vt_choice(("b" + S(i)).c_str(), nv + i) : 0;
        if (bin && i > 0 && i + 1 == k && s[1] != nv - 1 + i && s[2] != nv - 1 + i) vt_skip(); // the last step uses the previous one
        if (canon && bin && (s[0] == 22 || s[0] == 24) && s[1] < s[2]) vt_skip();
        nm += " v" + S(nv + i) + "=" + opName(s[0]) + "(v" + S(s[1]) + (bin ? ",v" + S(s[2]) : "") + ")";
        st.push_back(s);
    }
    if (canon) { // every value is used
        for (int j = 0; j + 1 < nv + k; ++j) {
            bool used = false;
            for (auto& s : st) used |= s[1] == j || s[2] == j;
            if (!used) vt_skip();
        }
    }
    int mode = argi("subst", 1) ? vt_choice("mode", 3) : 0; // 0 solve, 1 substitute and remove, 2 substitute and undo
    vt_program((nm + (mode ? " = 0 substituted for v0" : " = 0 solved for v0")).c_str());
    World w(nv, 0);
    std::vector<CGD> g = build<CGD>(st, w.x);
    CGD e = g.back();
    if (e.isParameter()) vt_skip();
    OperationNode<double>& var = *w.x[0].getOperationNode();
    OperationNode<double>& en = *e.getOperationNode();
    if (&en == &var) vt_skip();
    { Interp I(w.h, w.X); for (auto& v : g) if (bad(I(v))) vt_skip(); }
    CGD q = w.x[0] * w.x[1] + w.x[nv - 1] * w.x[0];   // another expression of the variable
    if (mode == 0) {
        bool could = w.h.isSolvable(en, var);
        CGD sol; bool ok = true;
        try { sol = w.h.solveFor(en, var); } catch (const CGException&) { ok = false; }
        if (!ok) { vt_reach("unsolvable"); vt_assert(!could, (nm + ": isSolvable() said yes but solveFor() refused").c_str()); vt_skip(); }
        vt_assert(could, (nm + ": isSolvable() said no but solveFor() found a solution").c_str());
        Interp I(w.h, w.X);
        double s = I(sol);
        DV X2 = w.X; X2[0] = s;
        if (bad(s)) vt_skip();
        Interp J(w.h, X2);
        if (bad(J(e))) vt_skip();
        vt_assert_eq(J(e), 0.0, (nm + ": the solution satisfies the equation").c_str());
        DV X3 = w.X; X3[0] = X3[0] + 1.0;        // the solution does not depend on the variable
        Interp K(w.h, X3);
        vt_assert_eq(K(sol), s, (nm + ": the solution is independent of the variable").c_str());
        vt_reach("solved");
    } else {
        try { w.h.substituteIndependent(w.x[0], e, mode == 1); } catch (const CGException&) { vt_skip(); }
        vt_assert(w.h.getIndependentVariableSize() == (mode == 1 ? nv - 1 : nv), "number of independents after a substitution");
        DV Xr = w.X; if (mode == 1) Xr.erase(Xr.begin());
        Interp I(w.h, Xr);
        double s = I(w.x[0]);
        if (bad(s) || bad(I(e))) vt_skip();
        vt_assert_eq(I(e), 0.0, (nm + ": the equation holds after the substitution").c_str());
        vt_assert_eq(I(q), s * w.X[1] + w.X[nv - 1] * s, (nm + ": the variable is replaced everywhere").c_str());
        if (mode == 2) {
            w.h.undoSubstituteIndependent(var);
            Interp J(w.h, w.X);
            vt_assert_eq(J(w.x[0]), w.X[0], (nm + ": the substitution is undone").c_str());
            vt_assert_eq(J(q), w.X[0] * w.X[1] + w.X[nv - 1] * w.X[0], (nm + ": the variable is independent again").c_str());
        }
        vt_reach("substituted");
    }
}
extern "C" void vt_harness() {
    std::string c = vt_arg("case", "arith");
    if (c == "arith") arith();
    else if (c == "unary") unary();
    else if (c == "cond") cond();
    else if (c == "compare") compare();
    else if (c == "mixing") mixing();
    else if (c == "eval") evaluators();
    else if (c == "solve") solve();
    vt_reach("end");
}
