// Models that call atomic functions which are themselves generated models, in every way the library offers.
#pragma once
#include "hprogs.hpp"
namespace vt {
// inner functions; the last one has independents without any influence on some outputs
struct Inner {
    struct f0 { template<class V> void operator()(const V& u, V& v) const { v[0] = u[0] * u[1]; v[1] = sin(u[0]) + u[1] * u[1]; } };
    struct f1 { template<class V> void operator()(const V& u, V& v) const { v[0] = u[0] * u[1] * u[2] + u[3] * u[4]; v[1] = u[4] - 2.0 * u[0]; v[2] = 7.0; } };
    struct f3 { template<class V> void operator()(const V& u, V& v) const { v[0] = u[0] * u[1]; v[1] = u[0] * u[0] + u[1]; } };
    struct f2 { template<class V> void operator()(const V& u, V& v) const { v[0] = u[0] * u[0] * u[1]; v[1] = u[1]; } }; // u2 unused
};
// outer functions, F is the call
struct Outer {
    // plain use
    struct g0 { template<class V, class F> void operator()(const V& x, V& y, F f) const {
        V u(2), v(2); u[0] = x[0]; u[1] = x[1]; f(u, v); y[0] = v[0] + 2.0 * v[1]; y[1] = v[1] * x[0]; } };
    // two calls, the second takes the first's results
    struct g1 { template<class V, class F> void operator()(const V& x, V& y, F f) const {
        V u(2), v(2), w(2); u[0] = x[0] * x[1]; u[1] = x[1]; f(u, v); f(v, w); y[0] = w[0]; y[1] = w[1] - v[0]; y[2] = x[1] * v[1]; } };
    // equal and constant arguments, one output unused
    struct g2 { template<class V, class F> void operator()(const V& x, V& y, F f) const {
        typedef typename V::value_type T;
        V u(5), v(3); u[0] = x[0]; u[1] = T(0.123456789012345); u[2] = T(0.123456789012345); u[3] = T(0.123456789012345); u[4] = x[0]; f(u, v); y[0] = v[0]; y[1] = v[1] + v[2]; } };
    // many equal constants, several calls with overlapping arrays
    struct g3 { template<class V, class F> void operator()(const V& x, V& y, F f) const {
        typedef typename V::value_type T;
        T s = x[0] + x[1];
        V u(5), v(3), w(3), z(3);
        u[0] = x[0]; u[1] = x[1]; u[2] = T(0.375); u[3] = T(0.375); u[4] = T(0.375); f(u, v);
        u[1] = v[0]; f(u, w);
        u[0] = s; u[1] = T(2.5); u[2] = s; u[4] = w[1]; f(u, z);
        y[0] = z[0] + v[0]; y[1] = z[1] * w[0]; y[2] = v[1] - s; } };
    // result selected by a condition, an argument without influence
    struct g4 { template<class V, class F> void operator()(const V& x, V& y, F f) const {
        V u(3), v(2); u[0] = x[0]; u[1] = x[1] + 1.0; u[2] = x[2]; f(u, v);
        y[0] = CondExpLt(x[0], x[1], v[0], x[2] * v[1]); y[1] = v[0] * x[2]; } };
    // zero and repeated arguments
    struct g5 { template<class V, class F> void operator()(const V& x, V& y, F f) const {
        typedef typename V::value_type T;
        V u(2), v(2), w(2); u[0] = x[0]; u[1] = x[0]; f(u, v); u[1] = T(0.0); f(u, w); y[0] = v[0] * x[1]; y[1] = w[1] + v[1]; y[2] = w[0]; } };
    // results which are outputs themselves, used by other outputs, passed on to another call and repeated
    struct g6 { template<class V, class F> void operator()(const V& x, V& y, F f) const {
        V u(2), v(2), w(2); u[0] = x[1]; u[1] = x[0]; f(u, v); f(v, w); y[0] = w[0] * v[1]; y[1] = v[0]; y[2] = w[1]; y[3] = v[0]; y[4] = v[1] + y[0]; } };
    // calls inside a loop
    struct g7 { template<class V, class F> void operator()(const V& x, V& y, F f) const {
        for (int i = 0; i < 3; ++i) { V u(2), v(2); u[0] = x[i]; u[1] = x[3]; f(u, v); y[i] = v[0] * x[i]; y[3 + i] = v[1]; } } };
};
template<class I, class O> struct Inlined {
    template<class V> void operator()(const V& x, V& y) const { O()(x, y, [](const V& u, V& v) { I()(u, v); }); }
};
struct AtomProg {
    Prog p;                      // outer function with the inner one inlined
    Prog in;                     // inner function
    std::function<void(const VC&, VC&, std::function<void(const VC&, VC&)>)> outer;
    std::function<void(const VD&, VD&, std::function<void(const VD&, VD&)>)> outerD;
};
template<class I, class O> AtomProg atomProg(const char* nm, size_t n, size_t m, size_t in, size_t im) {
    AtomProg a;
    Inlined<I, O> all; I inner;
    a.p = VT_PROG(nm, n, m, all);
    a.in = VT_PROG("inner", in, im, inner);
    a.outer = [](const VC& x, VC& y, std::function<void(const VC&, VC&)> f) { O()(x, y, f); };
    a.outerD = [](const VD& x, VD& y, std::function<void(const VD&, VD&)> f) { O()(x, y, f); };
    return a;
}
inline std::vector<AtomProg> atomProgs() {
    AtomProg loop = atomProg<Inner::f3, Outer::g7>("atom in a loop", 4, 6, 2, 2);
    loop.p.related = {{0, 1, 2}, {3, 4, 5}};
    return {
        atomProg<Inner::f0, Outer::g0>("atom plain", 2, 2, 2, 2), atomProg<Inner::f3, Outer::g1>("atom chained", 2, 3, 2, 2),
        atomProg<Inner::f1, Outer::g2>("atom constants", 1, 2, 5, 3), atomProg<Inner::f1, Outer::g3>("atom arrays", 2, 3, 5, 3),
        atomProg<Inner::f2, Outer::g4>("atom cond", 3, 2, 3, 2), atomProg<Inner::f0, Outer::g5>("atom repeated", 2, 3, 2, 2),
        atomProg<Inner::f3, Outer::g6>("atom outputs", 2, 5, 2, 2),
        loop,
    };
}
inline DV refJac(ADFun<double>& f, const DV& x, size_t m) {
    size_t n = x.size();
    DV J(m * n, 0);
    f.Forward(0, x);
    for (size_t j = 0; j < n; ++j) {
        DV dx(n, 0.0); dx[j] = 1.0;
        DV dy = f.Forward(1, dx);
        for (size_t i = 0; i < m; ++i) J[i * n + j] = dy[i];
    }
    return J;
}
// Hessians of each dependent from second order forward sweeps along concrete directions
// (no zero tests on symbolic multipliers, and independent of every reverse mode)
inline std::vector<DV> refHessAll(ADFun<double>& f, const DV& x, size_t m) {
    size_t n = x.size();
    std::vector<DV> H(m, DV(n * n));
    auto second = [&](size_t i, size_t j) {
        f.Forward(0, x);
        DV d(n, 0.0); d[i] = 1.0; d[j] = 1.0;
        f.Forward(1, d);
        return f.Forward(2, DV(n, 0.0));
    };
    std::vector<DV> diag(n);
    for (size_t i = 0; i < n; ++i) {
        diag[i] = second(i, i);
        for (size_t k = 0; k < m; ++k) H[k][i * n + i] = 2.0 * diag[i][k];
    }
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < i; ++j) {
            DV s = second(i, j);
            for (size_t k = 0; k < m; ++k) H[k][i * n + j] = H[k][j * n + i] = s[k] - diag[i][k] - diag[j][k];
        }
    return H;
}
// an atomic function with every order and no restriction on the weights, straight from CppAD's own tape
struct TapeAtomic : public CppAD::atomic_base<double> {
    std::unique_ptr<ADFun<double>> f;
    size_t n, m;
    TapeAtomic(const std::string& nm, const Prog& p) : CppAD::atomic_base<double>(nm), f(tapeD(p)), n(p.n), m(p.m) {}
    bool forward(size_t q, size_t p, const CppAD::vector<bool>& vx, CppAD::vector<bool>& vy, const CppAD::vector<double>& tx, CppAD::vector<double>& ty) override {
        for (size_t k = 0; k <= p; ++k) {
            DV xk(n);
            for (size_t j = 0; j < n; ++j) xk[j] = tx[j * (p + 1) + k];
            DV yk = f->Forward(k, xk);
            for (size_t i = 0; i < m; ++i) ty[i * (p + 1) + k] = yk[i];
        }
        for (size_t i = 0; i < vy.size(); ++i) vy[i] = true;
        return true;
    }
    bool reverse(size_t p, const CppAD::vector<double>& tx, const CppAD::vector<double>& ty, CppAD::vector<double>& px, const CppAD::vector<double>& py) override {
        // from forward sweeps along concrete directions: no zero tests on symbolic weights
        DV x(n), w0(m), w1(m);
        for (size_t j = 0; j < n; ++j) x[j] = tx[j * (p + 1)];
        for (size_t i = 0; i < m; ++i) { w0[i] = py[i * (p + 1)]; if (p) w1[i] = py[i * (p + 1) + 1]; }
        DV J = refJac(*f, x, m);
        std::vector<DV> H;
        if (p) H = refHessAll(*f, x, m);
        for (size_t j = 0; j < n; ++j) {
            double s0 = 0, s1 = 0;
            for (size_t i = 0; i < m; ++i) {
                s0 += w0[i] * J[i * n + j];
                if (!p) continue;
                s1 += w1[i] * J[i * n + j];
                for (size_t l = 0; l < n; ++l) s0 += w1[i] * H[i][j * n + l] * tx[l * 2 + 1];
            }
            px[j * (p + 1)] = s0;
            if (p) px[j * 2 + 1] = s1;
        }
        return true;
    }
};
// errors the library reports through CppAD's handler, as an exception
struct Refused { std::string msg; };
inline void refuse(bool known, int line, const char* file, const char* exp, const char* msg) { throw Refused{msg}; }
// how the atomic function is provided
enum { VIA_BRIDGE_TAPE, VIA_BRIDGE_ATOMIC, VIA_BRIDGE_EXTERNAL, VIA_BRIDGE_NOT_STANDALONE, VIA_LIBRARY, NVIA };
inline const char* viaName(int v) {
    static const char* s[] = {"bridge+tape", "bridge", "bridge+external model", "bridge, not stand-alone", "compiled library"};
    return s[v];
}
struct AtomCtx {
    AtomProg a;
    int via;
    std::unique_ptr<ADFun<CGD>> innerFun;
    std::unique_ptr<ModelCSourceGen<double>> innerGen;
    Lib innerLib;
    std::unique_ptr<CGAtomicFunBridge<double>> bridge;
    std::unique_ptr<CGAtomicFun<double>> libFun;
    std::unique_ptr<TapeAtomic> tapeAtomic;
    // derivative functions of the inner model: all
    void prepareInner(int flags) {
        innerFun = tapeC(a.in);
        innerGen.reset(new ModelCSourceGen<double>(*innerFun, "inner"));
        innerGen->setParameterPrecision(17);
        innerGen->setCreateForwardZero(true);
        innerGen->setCreateForwardOne(true);
        innerGen->setCreateReverseOne(true);
        innerGen->setCreateReverseTwo(true);
        innerGen->setCreateSparseJacobian(flags != 0);
        innerGen->setCreateSparseHessian(flags != 0);
        innerGen->setCreateJacobian(flags != 0);
        innerGen->setCreateHessian(flags != 0);
        if (via == VIA_LIBRARY) {
            ModelLibraryCSourceGen<double> lg(*innerGen);
            innerLib = buildLib(lg, "inner");
        }
    }
    std::unique_ptr<ADFun<CGD>> tape() {
        VC x(a.p.n), y(a.p.m);
        for (size_t i = 0; i < a.p.n; ++i) x[i] = 0.25 + 0.5 * i;
        if (via == VIA_LIBRARY) libFun.reset(new CGAtomicFun<double>(innerLib.model->asAtomic(), DV(a.in.n, 0.5), true));
        else bridge.reset(new CGAtomicFunBridge<double>("inner", *innerFun, via != VIA_BRIDGE_NOT_STANDALONE));
        CppAD::Independent(x);
        a.outer(x, y, [&](const VC& u, VC& v) { if (libFun) (*libFun)(u, v); else (*bridge)(u, v); });
        return std::unique_ptr<ADFun<CGD>>(new ADFun<CGD>(x, y));
    }
    Lib build(ModelCSourceGen<double>& g, const std::string& name) {
        Lib L;
        if (via == VIA_LIBRARY) {
            ModelLibraryCSourceGen<double> lg(g);
            L = buildLib(lg, name);
        } else if (via == VIA_BRIDGE_TAPE) {
            ModelLibraryCSourceGen<double> lg(g);
            L = buildLib(lg, name);
            tapeAtomic.reset(new TapeAtomic("inner", a.in));
        } else {
            ModelLibraryCSourceGen<double> lg(*innerGen, g);
            L = buildLib(lg, name);
            innerLib.model = L.lib->model("inner");
        }
        auto names = L.model->getAtomicFunctionNames();
        vt_assert(names.size() <= 1 && (names.empty() || names[0] == "inner"), "atomic functions the model needs");
        bool used = via == VIA_BRIDGE_EXTERNAL ? L.model->addExternalModel(*innerLib.model)
                  : via == VIA_BRIDGE_TAPE ? L.model->addAtomicFunction(*tapeAtomic) : L.model->addAtomicFunction(innerLib.model->asAtomic());
        vt_assert(used == !names.empty(), "an atomic function is accepted exactly when it is needed");
        return L;
    }
};
}
