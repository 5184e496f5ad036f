// Families of model functions used by the full-pipeline harnesses.
#pragma once
#include "hmodel.hpp"
namespace vt {
typedef AD<double> ADD;
typedef std::vector<ADCG> VC;
typedef std::vector<ADD> VD;
struct Prog {
    std::string name;
    size_t n, m;
    std::function<void(const VC&, VC&)> c;
    std::function<void(const VD&, VD&)> d;
    std::vector<std::set<size_t>> related; // equations that may form loops
};
#define VT_PROG(name, n, m, F) Prog{name, n, m, [=](const VC& x, VC& y) { F(x, y); }, [=](const VD& x, VD& y) { F(x, y); }}

// ---- every operation ----------------------------------------------------------
enum { NUN = 22 };
inline const char* unName(int k) {
    static const char* s[NUN] = {"neg", "abs", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log10",
        "sinh", "cosh", "tanh", "sign", "erf", "expm1", "log1p", "asinh", "acosh", "atanh"};
    return s[k];
}
template<class T> T un(int k, const T& a) {
    switch (k) {
        case 0: return -a;
        case 1: return CppAD::abs(a);
        case 2: return sqrt(a);
        case 3: return sin(a);
        case 4: return cos(a);
        case 5: return tan(a);
        case 6: return asin(a);
        case 7: return acos(a);
        case 8: return atan(a);
        case 9: return exp(a);
        case 10: return log(a);
        case 11: return log10(a);
        case 12: return sinh(a);
        case 13: return cosh(a);
        case 14: return tanh(a);
        case 15: return sign(a);
        case 16: return erf(a);
        case 17: return expm1(a);
        case 18: return log1p(a);
        case 19: return asinh(a);
        case 20: return acosh(a);
        default: return atanh(a);
    }
}
enum { NBI = 12 };
inline const char* biName(int k) {
    static const char* s[NBI] = {"add", "sub", "mul", "div", "pow", "lt", "le", "eq", "ge", "gt", "addas", "mulas"};
    return s[k];
}
template<class T> T bi(int k, const T& a, const T& b) {
    switch (k) {
        case 0: return a + b;
        case 1: return a - b;
        case 2: return a * b;
        case 3: return a / b;
        case 4: return pow(a, b);
        case 5: return CondExpLt(a, b, a * 2.0, b + 1.0);
        case 6: return CondExpLe(a, b, a, b * b);
        case 7: return CondExpEq(a, b, a * b, a - b);
        case 8: return CondExpGe(a, b, b, a * a * a);
        case 9: return CondExpGt(a, b, a * b, T(0.5));
        case 10: { T r = a; r += b; r -= b * b; return r; }
        default: { T r = a; r *= b; r /= b + a; return r; }
    }
}
enum { NOPS = NUN + NBI + 5 };
inline std::string opName(int k) {
    if (k < NUN) return unName(k);
    if (k < NUN + NBI) return biName(k - NUN);
    static const char* s[] = {"const-b", "c/a", "pow(a,2.5)", "c*a", "a-c"};
    return s[k - NUN - NBI];
}
template<class T> T op(int k, const T& a, const T& b) {
    if (k < NUN) return un(k, a);
    if (k < NUN + NBI) return bi(k - NUN, a, b);
    switch (k - NUN - NBI) {
        case 0: return 1.25 - b;
        case 1: return 3.0 / a;
        case 2: return pow(a, T(2.5));
        case 3: return 0.75 * a;
        default: return a - 2.5;
    }
}
// inner operation: like op() but never outside the differentiable domain of a later log/pow
template<class T> T inop(int p, int k, const T& a, const T& b) { return k == 15 ? T(sign(a) * 0.125 + (p == 20 ? 1.75 : 0.75)) : op(k, a, b); }
// outer operation p applied to each operation q applied to the inputs
inline Prog opsProg(int p, int lo, int hi) {
    Prog r;
    r.name = "ops[" + opName(p) + "(q(x0,x1),x1)";
    r.name += ", q=" + opName(lo) + ".." + opName(hi - 1) + "]";
    r.n = 2; r.m = hi - lo;
    r.c = [=](const VC& x, VC& y) { for (int q = lo; q < hi; ++q) y[q - lo] = op(p, inop(p, q, x[0], x[1]), x[1]); };
    r.d = [=](const VD& x, VD& y) { for (int q = lo; q < hi; ++q) y[q - lo] = op(p, inop(p, q, x[0], x[1]), x[1]); };
    return r;
}

// ---- shapes --------------------------------------------------------------------
struct Shapes {
    struct shared { template<class V> void operator()(const V& x, V& y) const {
        typedef typename V::value_type T;
        T a = x[0] * x[1];
        y[0] = x[0]; y[1] = 3.5; y[2] = a; y[3] = a; y[4] = -x[1]; y[5] = a + a; y[6] = -a; y[7] = sin(a) * a + x[2]; y[8] = x[0];
    } };
    struct chain { template<class V> void operator()(const V& x, V& y) const {
        typedef typename V::value_type T;
        T t = x[0];
        for (int i = 0; i < 3; ++i) { t = t * x[1] + sin(t); if (i == 1) y[1] = t; }
        y[0] = t; y[2] = t / x[1];
    } };
    struct cond { template<class V> void operator()(const V& x, V& y) const {
        typedef typename V::value_type T;
        T s = x[0] * x[1], u = exp(x[2]) * s;
        T a = CondExpLt(x[0], x[1], x[0] * x[2] + s, u * x[1]);
        T b = CondExpGt(a, x[2], a * a, CondExpEq(x[0], x[2], x[1], a - u));
        y[0] = a; y[1] = b; y[2] = CondExpLe(x[1], T(0.0), b + s, T(2.0));
        y[3] = CondExpGe(x[0], x[1], CondExpLt(x[2], x[1], s * s, s + a), u);
    } };
    struct cond2 { template<class V> void operator()(const V& x, V& y) const {
        typedef typename V::value_type T;
        // values used in both branches, in one branch and after the selection
        T s = x[0] * x[1];
        T c1 = CondExpLt(x[0], x[1], s * x[0], s * x[1]);
        T c2 = CondExpLt(x[0], x[1], s + c1, sin(s) - c1);
        T c3 = CondExpLt(x[1], x[2], c1 * c2, c1 + sin(s));
        y[0] = c1 + s; y[1] = c2; y[2] = c3 * sin(s);
    } };
    struct reuse { template<class V> void operator()(const V& x, V& y) const {
        typedef typename V::value_type T;
        T p = x[0] + x[1], q = x[1] * x[2], r = x[2] - x[0];
        for (int i = 0; i < 3; ++i) {
            T a = p * x[1] + r, b = q - r, c = a + b * x[i];
            y[i] = c + a * 2.0;
            p = b * 0.5; q = c + a; r = a - x[i % 3];
        }
        y[3] = p + q * x[0];
    } };
    struct rational { template<class V> void operator()(const V& x, V& y) const {
        typedef typename V::value_type T;
        T d = x[0] * x[0] + 1.0;
        y[0] = x[0] / x[1] + x[1] / d; y[1] = 1.0 / (1.0 / x[0]) - x[2] / (x[1] / x[0]); y[2] = (x[0] - x[1]) / (x[1] - x[0]);
    } };
    struct wide { template<class V> void operator()(const V& x, V& y) const {
        typedef typename V::value_type T;
        y[0] = x[0] * x[1]; y[1] = x[1] * x[2]; y[2] = x[2] * x[3] * x[3]; y[3] = x[3] + x[4]; y[4] = x[4] * x[4]; y[5] = x[0] * x[4];
    } };
    struct consts { template<class V> void operator()(const V& x, V& y) const {
        typedef typename V::value_type T;
        T z(0.0), o(1.0);
        y[0] = (2.0 * x[0]) * z + o * x[1] + x[0] / o + z; y[1] = z - x[0]; y[2] = z / x[1]; y[3] = x[0] * 0.1 + 1e-17; y[4] = x[1] * 1e300 - 123456789.123456789; y[5] = x[0] - z; y[6] = -1.0 * x[1] + (-3.0);
        y[7] = z * x[0] + 5.0;
    } };
    struct single { template<class V> void operator()(const V& x, V& y) const { y[0] = x[0] * x[0] * x[0]; } };
    struct lin { template<class V> void operator()(const V& x, V& y) const {
        y[0] = 2.0 * x[0] - x[2]; y[1] = x[1] + x[2]; y[2] = 4.0;
    } };
    struct precedence { template<class V> void operator()(const V& x, V& y) const {
        y[0] = x[0] - (x[1] - x[2]); y[1] = x[0] - (x[1] + x[2]); y[2] = x[0] / (x[1] / x[2]); y[3] = x[0] / (x[1] * x[2]); y[4] = x[0] * (x[1] + x[2]);
        y[5] = -(x[0] + x[1]); y[6] = -(-x[0]); y[7] = x[0] - (-x[1]); y[8] = (x[0] - x[1]) * (x[1] - x[2]); y[9] = -(x[0] - x[1]) / -(x[2]); y[10] = x[0] - (-(x[1] - x[2]));
        y[11] = x[0] * -2.0 - (-3.0) - (x[1] - -1.5);
    } };
    struct unused { template<class V> void operator()(const V& x, V& y) const { y[0] = x[3] * x[3]; y[1] = sin(x[1]); } };
};
inline std::vector<Prog> shapes() {
    return {
        VT_PROG("shared", 3, 9, Shapes::shared()), VT_PROG("chain", 2, 3, Shapes::chain()), VT_PROG("cond", 3, 4, Shapes::cond()),
        VT_PROG("cond2", 3, 3, Shapes::cond2()), VT_PROG("reuse", 3, 4, Shapes::reuse()), VT_PROG("rational", 3, 3, Shapes::rational()),
        VT_PROG("wide", 5, 6, Shapes::wide()), VT_PROG("consts", 2, 8, Shapes::consts()), VT_PROG("single", 1, 1, Shapes::single()),
        VT_PROG("lin", 3, 3, Shapes::lin()), VT_PROG("precedence", 3, 12, Shapes::precedence()), VT_PROG("unused", 5, 2, Shapes::unused()),
    };
}

// ---- generated straight-line programs: every program of a small grammar ------------
// k steps; step i applies one of a few operations to two earlier values
inline Prog randProg(int steps) {
    struct St { int o, a, b; };
    auto st = std::make_shared<std::vector<St>>();
    std::string nm = "line:";
    for (int i = 0; i < steps; ++i) {
        St s;
        static const int ops[] = {0, 1, 2, 3, 5};
        s.o = ops[vt_choice(("o" + std::to_string(i)).c_str(), 5)];
        s.a = vt_choice(("a" + std::to_string(i)).c_str(), 2 + i);
        s.b = vt_choice(("b" + std::to_string(i)).c_str(), 2 + i);
        st->push_back(s);
        nm += std::string(" v") + std::to_string(i + 2) + "=" + biName(s.o) + "(v" + std::to_string(s.a) + ",v" + std::to_string(s.b) + ")";
    }
    Prog r;
    r.name = nm; r.n = 2; r.m = 2;
    r.c = [=](const VC& x, VC& y) { std::vector<ADCG> v{x[0], x[1]}; for (auto& s : *st) v.push_back(bi(s.o, v[s.a], v[s.b])); y[0] = v.back(); y[1] = v[v.size() - 2] * v.back(); };
    r.d = [=](const VD& x, VD& y) { std::vector<ADD> v{x[0], x[1]}; for (auto& s : *st) v.push_back(bi(s.o, v[s.a], v[s.b])); y[0] = v.back(); y[1] = v[v.size() - 2] * v.back(); };
    return r;
}

inline std::unique_ptr<ADFun<CGD>> tapeC(const Prog& p) {
    VC x(p.n), y(p.m);
    for (size_t i = 0; i < p.n; ++i) x[i] = 0.25 + 0.5 * i;
    CppAD::Independent(x);
    p.c(x, y);
    return std::unique_ptr<ADFun<CGD>>(new ADFun<CGD>(x, y));
}
inline std::unique_ptr<ADFun<double>> tapeD(const Prog& p) {
    VD x(p.n), y(p.m);
    for (size_t i = 0; i < p.n; ++i) x[i] = 0.25 + 0.5 * i;
    CppAD::Independent(x);
    p.d(x, y);
    return std::unique_ptr<ADFun<double>>(new ADFun<double>(x, y));
}
}
