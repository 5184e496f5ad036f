// Generated C against CppAD, for every input value.
#include "hatomic.hpp"
#include "hloops.hpp"
using namespace vt;
static int argi(const char* k, int d) { return atoi(vt_arg(k, std::to_string(d).c_str())); }
static std::string args(const char* k, const char* d) { return vt_arg(k, d); }

static std::string S1(size_t i) { return std::to_string(i); }
static std::unique_ptr<AtomCtx> atom;
static Prog pick() {
    std::string f = args("progs", "shapes");
    if (f == "atomic") {
        auto l = atomProgs();
        int only = argi("only", -1), via = argi("via", -1);
        atom.reset(new AtomCtx);
        atom->a = l[only >= 0 ? only : vt_choice("atomic", argi("natom", l.size()))];
        atom->via = via >= 0 ? via : vt_choice("via", argi("vias", NVIA));
        atom->prepareInner(argi("innerall", 0));
        Prog p = atom->a.p;
        p.name += std::string(" via ") + viaName(atom->via);
        return p;
    }
    if (f == "ops") {
        // outer operation x half of the inner operations
        int step = argi("step", 20), nb = (NOPS + step - 1) / step;
        int po = argi("outer", -1), pi = argi("inner", -1);
        int p = po >= 0 ? po : vt_choice("outer", NOPS), d = argi("diag", 0);
        int h = pi >= 0 ? pi : nb > 1 && d ? (p + vt_choice("part", d) * nb / d) % nb : nb > 1 ? vt_choice("part", nb) : 0;
        return opsProg(p, h * step, std::min<int>(NOPS, (h + 1) * step));
    }
    if (f == "single") { // each operation on its own
        int p = vt_choice("op", NOPS);
        Prog r;
        r.name = "op " + opName(p); r.n = 2; r.m = 2;
        r.c = [=](const VC& x, VC& y) { y[0] = op(p, x[0], x[1]); y[1] = op(p, x[1], x[0] * x[0]); };
        r.d = [=](const VD& x, VD& y) { y[0] = op(p, x[0], x[1]); y[1] = op(p, x[1], x[0] * x[0]); };
        return r;
    }
    if (f == "line") return randProg(argi("steps", 2));
    auto s = f == "loops" ? loopProgs() : shapes();
    std::string only = args("only", "");
    if (!only.empty()) for (auto& p : s) if (p.name == only || std::to_string(&p - &s[0]) == only) return p;
    return s[vt_choice("shape", s.size())];
}
// reference values, once per path
struct Ref {
    std::unique_ptr<ADFun<double>> f;
    DV x, y, J;
    size_t n, m;
    Ref(const Prog& p) : f(tapeD(p)), x(reals("x", p.n)), n(p.n), m(p.m) {}
    void zero() { y = f->Forward(0, x); }
    void jac() { J = refJac(*f, x, m); }
};
static void config(ModelCSourceGen<double>& g, const Prog& p) {
    if (!p.related.empty()) g.setRelatedDependents(p.related);
    g.setParameterPrecision(17);
    if (argi("typical", 0)) { // values recorded with the independents must not change what is generated
        DV t(p.n);
        for (size_t j = 0; j < p.n; ++j) t[j] = argi("typical", 0) == 1 ? 1.0 : 0.5 + 0.75 * ((j * 2 + 1) % p.n);
        g.setTypicalIndependentValues(t);
    }
    if (argi("maxassign", 0)) g.setMaxAssignmentsPerFunc(argi("maxassign", 0));
    if (argi("maxops", 0)) g.setMaxOperationsPerAssignment(argi("maxops", 0));
}

static std::unique_ptr<ADFun<CGD>> tape(const Prog& p) { return atom ? atom->tape() : tapeC(p); }
static Lib compile(ModelCSourceGen<double>& g) {
    if (atom) return atom->build(g, "m");
    ModelLibraryCSourceGen<double> lg(g);
    return buildLib(lg, "m");
}

static void zero() {
    Prog p = pick();
    vt_program(p.name.c_str());
    auto fun = tape(p);
    ModelCSourceGen<double> g(*fun, "m");
    config(g, p);
    g.setCreateForwardZero(true);
    Lib L = compile(g);
    Ref r(p);
    r.zero();
    vt_assert(L.model->Domain() == p.n && L.model->Range() == p.m, "model dimensions");
    sameVec(L.model->ForwardZero(r.x), r.y, p.name + " value");
    // calling again must give the same results (no state kept between calls)
    DV y2(p.m, 77.0);
    L.model->ForwardZero(r.x, y2);
    sameVec(y2, r.y, p.name + " value, second call");
    vt_reach("zero");
}

static void checkSparseJac(GenericModel<double>& M, Ref& r, const std::string& nm, const std::vector<std::set<size_t>>* custom) {
    DV jv; std::vector<size_t> row, col;
    M.SparseJacobian(r.x, jv, row, col);
    vt_assert(jv.size() == row.size() && row.size() == col.size(), "sparse Jacobian sizes");
    std::vector<int> seen(r.m * r.n, 0);
    for (size_t e = 0; e < row.size(); ++e) {
        vt_assert(row[e] < r.m && col[e] < r.n, "sparse Jacobian position");
        seen[row[e] * r.n + col[e]]++;
        if (custom) vt_assert((*custom)[row[e]].count(col[e]) == 1, "only requested Jacobian elements are evaluated");
        vt_assert_eq(jv[e], r.J[row[e] * r.n + col[e]], (nm + " sparse J(" + std::to_string(row[e]) + "," + std::to_string(col[e]) + ")").c_str());
    }
    for (size_t k = 0; k < seen.size(); ++k) {
        vt_assert(seen[k] <= 1, "no repeated Jacobian element");
        if (!seen[k]) {
            if (custom && !(*custom)[k / r.n].count(k % r.n)) continue;
            vt_assert_eq(r.J[k], 0.0, (nm + " Jacobian element outside the pattern is zero " + std::to_string(k)).c_str());
        }
    }
    // pointer interface
    DV jv2(row.size(), 9.0); size_t const *r2, *c2;
    M.SparseJacobian(ArrayView<const double>(r.x), ArrayView<double>(jv2), &r2, &c2);
    for (size_t e = 0; e < row.size(); ++e) {
        vt_assert(r2[e] == row[e] && c2[e] == col[e], "same pattern from both interfaces");
        vt_assert_eq(jv2[e], jv[e], "same values from both interfaces");
    }
    // dense result of the sparse function
    DV d(r.m * r.n, 5.0);
    M.SparseJacobian(ArrayView<const double>(r.x), ArrayView<double>(d));
    for (size_t k = 0; k < seen.size(); ++k)
        vt_assert_eq(d[k], seen[k] ? r.J[k] : 0.0, (nm + " sparse J as dense " + std::to_string(k)).c_str());
}
static std::vector<std::set<size_t>> someElements(size_t m, size_t n, int k) {
    // subsets: 0 a diagonal, 1 all but one column, 2 only the last row, 3 everything
    std::vector<std::set<size_t>> s(m);
    for (size_t i = 0; i < m; ++i)
        for (size_t j = 0; j < n; ++j) {
            bool in = k == 0 ? i % n == j : k == 1 ? j != 0 : k == 2 ? i + 1 == m : true;
            if (in) s[i].insert(j);
        }
    return s;
}
static void jac() {
    Prog p = pick();
    int mode = vt_choice("mode", argi("modes", 4)), cust = argi("custom", 1) ? vt_choice("elements", 4) : 0;
    static const char* mn[] = {"forward", "reverse", "automatic", "for1/rev1 reuse"};
    vt_program((p.name + " jac " + mn[mode] + " elements " + std::to_string(cust)).c_str());
    auto fun = tape(p);
    ModelCSourceGen<double> g(*fun, "m");
    config(g, p);
    g.setCreateForwardZero(false);
    g.setCreateJacobian(cust == 0);
    g.setCreateSparseJacobian(true);
    g.setJacobianADMode(mode == 0 ? JacobianADMode::Forward : mode == 1 ? JacobianADMode::Reverse : JacobianADMode::Automatic);
    if (mode == 3) { if (p.m > p.n) g.setCreateForwardOne(true); else g.setCreateReverseOne(true); g.setSparseJacobianReuse1stOrderPasses(true); }
    std::vector<std::set<size_t>> el;
    if (cust) {
        el = someElements(p.m, p.n, cust - 1);
        if (cust == 2) { // given as lists, out of order
            std::vector<size_t> r, c;
            // columns backwards, rows interleaved
            for (size_t j = p.n; j-- > 0;) for (size_t i = 0; i < p.m; ++i) if (el[i].count(j)) { r.push_back(i); c.push_back(j); }
            g.setCustomSparseJacobianElements(r, c);
        } else g.setCustomSparseJacobianElements(el);
    }
    Lib L = compile(g);
    Ref r(p);
    r.jac();
    if (cust == 0) sameVec(L.model->Jacobian(r.x), r.J, p.name + " J");
    checkSparseJac(*L.model, r, p.name, cust ? &el : nullptr);
    vt_reach("jac");
}

static DV weigh(const std::vector<DV>& H, const DV& w) {
    DV r(H[0].size(), 0.0);
    for (size_t k = 0; k < H.size(); ++k)
        for (size_t e = 0; e < r.size(); ++e) r[e] += w[k] * H[k][e];
    return r;
}
static DV mulJ(const DV& J, size_t m, size_t n, const DV& dx) {
    DV r(m, 0.0);
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) r[i] += J[i * n + j] * dx[j];
    return r;
}
static DV mulJt(const DV& J, size_t m, size_t n, const DV& w) {
    DV r(n, 0.0);
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) r[j] += w[i] * J[i * n + j];
    return r;
}
// symbolic reals; from the k-th on assumed nonzero (the code under test tests them for zero)
static DV realsNZ(const char* nm, size_t n, size_t k) {
    DV v = reals(nm, n);
    for (size_t i = k; i < n; ++i) vt_assume(v[i] != 0.0);
    return v;
}
static void hes() {
    Prog p = pick();
    int mode = vt_choice("mode", argi("modes", 2)), cust = argi("custom", 1) ? vt_choice("elements", 3) : 0;
    vt_program((p.name + " hes " + (mode ? "via rev2" : "direct") + " elements " + std::to_string(cust)).c_str());
    auto fun = tape(p);
    ModelCSourceGen<double> g(*fun, "m");
    config(g, p);
    g.setCreateForwardZero(false);
    g.setCreateHessian(cust == 0);
    g.setCreateSparseHessian(true);
    if (mode) { g.setCreateReverseTwo(true); g.setSparseHessianReusesRev2(true); }
    g.setCreateHessianSparsityByEquation(mode == 0);
    std::vector<std::set<size_t>> el;
    if (cust == 1) { el.resize(p.n); for (size_t i = 0; i < p.n; ++i) for (size_t j = 0; j <= i; ++j) el[i].insert(j); g.setCustomSparseHessianElements(el); }
    if (cust == 2) {
        el.resize(p.n); std::vector<size_t> r, c;
        for (size_t j = 0; j < p.n; ++j) for (size_t i = p.n; i-- > 0;) if ((i + j) % 2 == 1 || i == 0) { el[i].insert(j); r.push_back(i); c.push_back(j); }
        g.setCustomSparseHessianElements(r, c);
    }
    Lib L = compile(g);
    Ref r(p);
    DV w = reals("w", p.m);
    DV H = weigh(refHessAll(*r.f, r.x, p.m), w);
    if (cust == 0) sameVec(L.model->Hessian(r.x, w), H, p.name + " H");
    DV hv; std::vector<size_t> row, col;
    L.model->SparseHessian(r.x, w, hv, row, col);
    vt_assert(hv.size() == row.size() && row.size() == col.size(), "sparse Hessian sizes");
    std::vector<int> seen(p.n * p.n, 0);
    for (size_t e = 0; e < row.size(); ++e) {
        vt_assert(row[e] < p.n && col[e] < p.n, "sparse Hessian position");
        seen[row[e] * p.n + col[e]]++;
        if (cust) vt_assert(el[row[e]].count(col[e]) == 1, "only requested Hessian elements are evaluated");
        vt_assert_eq(hv[e], H[row[e] * p.n + col[e]], (p.name + " sparse H(" + std::to_string(row[e]) + "," + std::to_string(col[e]) + ")").c_str());
    }
    for (size_t k = 0; k < seen.size(); ++k) {
        vt_assert(seen[k] <= 1, "no repeated Hessian element");
        if (!seen[k] && (!cust || el[k / p.n].count(k % p.n)))
            vt_assert_eq(H[k], 0.0, (p.name + " Hessian element outside the pattern is zero " + std::to_string(k)).c_str());
    }
    DV hv2(row.size(), 3.0); size_t const *r2, *c2;
    L.model->SparseHessian(ArrayView<const double>(r.x), ArrayView<const double>(w), ArrayView<double>(hv2), &r2, &c2);
    for (size_t e = 0; e < row.size(); ++e) {
        vt_assert(r2[e] == row[e] && c2[e] == col[e], "same pattern from both interfaces");
        vt_assert_eq(hv2[e], hv[e], "same values from both interfaces");
    }
    DV d(p.n * p.n, 5.0);
    L.model->SparseHessian(ArrayView<const double>(r.x), ArrayView<const double>(w), ArrayView<double>(d));
    for (size_t k = 0; k < seen.size(); ++k)
        vt_assert_eq(d[k], seen[k] ? H[k] : 0.0, (p.name + " sparse H as dense " + std::to_string(k)).c_str());
    vt_reach("hes");
}

static void fr() {
    Prog p = pick();
    vt_program((p.name + " for1/rev1/rev2").c_str());
    auto fun = tape(p);
    ModelCSourceGen<double> g(*fun, "m");
    config(g, p);
    g.setCreateForwardZero(false);
    g.setCreateForwardOne(true); g.setCreateReverseOne(true); g.setCreateReverseTwo(true);
    Lib L = compile(g);
    Ref r(p);
    size_t n = p.n, m = p.m;
    int z = argi("zeros", 2);
    DV dx = realsNZ("dx", n, z), py = realsNZ("py", m, z);
    r.zero();
    r.jac();
    std::vector<DV> H = refHessAll(*r.f, r.x, m);
    DV dy = mulJ(r.J, m, n, dx), px = mulJt(r.J, m, n, py);
    // dense forward
    DV tx(2 * n);
    for (size_t j = 0; j < n; ++j) { tx[2 * j] = r.x[j]; tx[2 * j + 1] = dx[j]; }
    sameVec(L.model->ForwardOne(tx), dy, p.name + " forward one");
    // sparse forward: a subset of the directions
    {
        std::vector<size_t> idx; DV v; DV dxs(n, 0.0);
        for (size_t j = n; j-- > 0;) if (n == 1 || j % 2 == 1 || j + 1 == n) { idx.push_back(j); v.push_back(dx[j]); dxs[j] = dx[j]; }
        DV ty(m, 4.0);
        L.model->ForwardOne(ArrayView<const double>(r.x), idx.size(), idx.data(), v.data(), ArrayView<double>(ty));
        sameVec(ty, mulJ(r.J, m, n, dxs), p.name + " sparse forward one");
        L.model->ForwardOne(ArrayView<const double>(r.x), 0, nullptr, nullptr, ArrayView<double>(ty));
        sameVec(ty, DV(m, 0.0), p.name + " sparse forward one, no direction");
    }
    // dense reverse
    sameVec(L.model->ReverseOne(r.x, r.y, py), px, p.name + " reverse one");
    {
        std::vector<size_t> idx; DV v; DV pys(m, 0.0);
        for (size_t i = m; i-- > 0;) if (i % 2 == 0) { idx.push_back(i); v.push_back(py[i]); pys[i] = py[i]; }
        DV g1(n, 4.0);
        L.model->ReverseOne(ArrayView<const double>(r.x), ArrayView<double>(g1), idx.size(), idx.data(), v.data());
        sameVec(g1, mulJt(r.J, m, n, pys), p.name + " sparse reverse one");
        L.model->ReverseOne(ArrayView<const double>(r.x), ArrayView<double>(g1), 0, nullptr, nullptr);
        sameVec(g1, DV(n, 0.0), p.name + " sparse reverse one, no weight");
    }
    // second order reverse
    DV w(2 * m, 0.0), ty(2 * m), Hw = weigh(H, py);
    for (size_t i = 0; i < m; ++i) { w[2 * i + 1] = py[i]; ty[2 * i] = r.y[i]; ty[2 * i + 1] = dy[i]; }
    DV q = L.model->ReverseTwo(tx, ty, w), hd = mulJ(Hw, n, n, dx);
    for (size_t j = 0; j < n; ++j) vt_assert_eq(q[2 * j], hd[j], (p.name + " reverse two " + std::to_string(j)).c_str());
    {
        std::vector<size_t> idx; DV v; DV dxs(n, 0.0);
        for (size_t j = n; j-- > 0;) if (n == 1 || j % 2 == 0) { idx.push_back(j); v.push_back(dx[j]); dxs[j] = dx[j]; }
        DV px2(n, 4.0);
        L.model->ReverseTwo(ArrayView<const double>(r.x), idx.size(), idx.data(), v.data(), ArrayView<double>(px2), ArrayView<const double>(py));
        sameVec(px2, mulJ(Hw, n, n, dxs), p.name + " sparse reverse two");
        L.model->ReverseTwo(ArrayView<const double>(r.x), 0, nullptr, nullptr, ArrayView<double>(px2), ArrayView<const double>(py));
        sameVec(px2, DV(n, 0.0), p.name + " sparse reverse two, no direction");
    }
    vt_reach("fr");
}

// ---- sparsity patterns reported by the model ------------------------------------
typedef std::vector<std::set<size_t>> Sets;
static Sets toSets(const std::vector<size_t>& r, const std::vector<size_t>& c, size_t m, size_t n, const std::string& nm) {
    Sets s(m);
    vt_assert(r.size() == c.size(), (nm + ": rows and columns have the same size").c_str());
    for (size_t e = 0; e < r.size(); ++e) {
        vt_assert(r[e] < m && c[e] < n, (nm + ": position inside the matrix").c_str());
        vt_assert(s[r[e]].insert(c[e]).second, (nm + ": no repeated position").c_str());
    }
    return s;
}
static Sets toSets(const std::vector<bool>& b, size_t m, size_t n, const std::string& nm) {
    Sets s(m);
    vt_assert(b.size() == m * n, (nm + ": size").c_str());
    for (size_t k = 0; k < b.size(); ++k) if (b[k]) s[k / n].insert(k % n);
    return s;
}
static std::string show(const Sets& s) {
    std::string r;
    for (auto& q : s) { r += "{"; for (size_t j : q) r += S1(j) + " "; r += "}"; }
    return r;
}
static void samePattern(const Sets& a, const Sets& b, const std::string& what) { vt_assert(a == b, (what + ": " + show(a) + " expected " + show(b)).c_str()); }
// every position outside the pattern is identically zero, every one inside is structurally possible
static void covers(const Sets& s, const DV& M, size_t n, const std::string& nm) {
    for (size_t k = 0; k < M.size(); ++k)
        if (!s[k / n].count(k % n)) vt_assert_eq(M[k], 0.0, (nm + ": a position outside the pattern is zero " + S1(k)).c_str());
}
static void spars() {
    Prog p = pick();
    int cust = argi("custom", 1) ? vt_choice("elements", 4) : 0, byEq = vt_choice("by equation", 2);
    std::string nm = p.name + " patterns " + S1(cust);
    vt_program(nm.c_str());
    size_t n = p.n, m = p.m;
    auto fun = tape(p);
    ModelCSourceGen<double> g(*fun, "m");
    config(g, p);
    g.setCreateForwardZero(false);
    g.setCreateSparseJacobian(true); g.setCreateSparseHessian(true);
    g.setCreateHessianSparsityByEquation(byEq);
    Sets ej, eh;
    if (cust == 1) { ej = someElements(m, n, 0); g.setCustomSparseJacobianElements(ej); eh.resize(n); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) eh[i].insert(j); g.setCustomSparseHessianElements(eh); }
    if (cust == 2) { ej = someElements(m, n, 2); g.setCustomSparseJacobianElements(ej); eh.resize(n); for (size_t j = 0; j < n; ++j) eh[j].insert(j); g.setCustomSparseHessianElements(eh); }
    std::vector<size_t> orow, ocol;
    if (cust == 3) { // lists in an arbitrary order, which has to be kept
        for (size_t j = 0; j < n; ++j) for (size_t i = m; i-- > 0;) if ((i + j) % 2 == 0) { orow.push_back(i); ocol.push_back(j); }
        g.setCustomSparseJacobianElements(orow, ocol);
        ej = toSets(orow, ocol, m, n, "request");
    }
    Lib L = compile(g);
    GenericModel<double>& M = *L.model;
    // what CppAD derives for the same function
    Ref r(p);
    r.zero(); r.jac();
    Sets I(n), fj;
    for (size_t j = 0; j < n; ++j) I[j].insert(j);
    fj = r.f->ForSparseJac(n, I);
    std::vector<DV> H = refHessAll(*r.f, r.x, m);
    bool exact = !atom;   // CppAD's own pattern of the function written in line
    vt_assert(M.isJacobianSparsityAvailable() && M.isHessianSparsityAvailable(), "patterns available");
    vt_assert(M.isEquationHessianSparsityAvailable() == bool(byEq), "patterns by equation available when requested");
    // Jacobian
    std::vector<size_t> row, col;
    M.JacobianSparsity(row, col);
    Sets sj = toSets(row, col, m, n, nm + " Jacobian");
    samePattern(M.JacobianSparsitySet(), sj, nm + " Jacobian sets");
    samePattern(toSets(M.JacobianSparsityBool(), m, n, nm), sj, nm + " Jacobian flags");
    if (cust) samePattern(sj, ej, nm + " Jacobian as requested");
    else { covers(sj, r.J, n, nm + " Jacobian"); if (exact) samePattern(sj, fj, nm + " Jacobian pattern"); }
    if (cust == 3) vt_assert(row == orow && col == ocol, (nm + ": requested order kept").c_str());
    { DV v; std::vector<size_t> r2, c2; M.SparseJacobian(r.x, v, r2, c2); vt_assert(r2 == row && c2 == col, "the sparse Jacobian has the reported positions, in the reported order"); }
    // Hessian
    DV one(m, 1.0);
    M.HessianSparsity(row, col);
    Sets sh = toSets(row, col, n, n, nm + " Hessian");
    samePattern(M.HessianSparsitySet(), sh, nm + " Hessian sets");
    samePattern(toSets(M.HessianSparsityBool(), n, n, nm), sh, nm + " Hessian flags");
    if (cust == 1 || cust == 2) samePattern(sh, eh, nm + " Hessian as requested");
    else {
        for (size_t i = 0; i < m; ++i) covers(sh, H[i], n, nm + " Hessian");
        Sets all(1); for (size_t i = 0; i < m; ++i) all[0].insert(i);
        r.f->ForSparseJac(n, I);
        if (exact) samePattern(sh, r.f->RevSparseHes(n, all), nm + " Hessian pattern");
    }
    { DV v, w = reals("w", m); std::vector<size_t> r2, c2; M.SparseHessian(r.x, w, v, r2, c2); vt_assert(r2 == row && c2 == col, "the sparse Hessian has the reported positions, in the reported order"); }
    if (byEq) for (size_t i = 0; i < m; ++i) {
        std::string q = nm + " Hessian of equation " + S1(i);
        M.HessianSparsity(i, row, col);
        Sets s = toSets(row, col, n, n, q);
        samePattern(M.HessianSparsitySet(i), s, q + " sets");
        samePattern(toSets(M.HessianSparsityBool(i), n, n, q), s, q + " flags");
        Sets w = cust == 1 || cust == 2 ? s : Sets(); // with requested elements only those are reported
        if (w.empty()) covers(s, H[i], n, q);
        else for (size_t k = 0; k < n * n; ++k) {
            if (s[k / n].count(k % n)) vt_assert(eh[k / n].count(k % n), (q + ": only requested positions").c_str());
            else if (eh[k / n].count(k % n)) vt_assert_eq(H[i][k], 0.0, (q + ": requested position outside the pattern is zero").c_str());
        }
        Sets only(1); only[0].insert(i);
        r.f->ForSparseJac(n, I);
        if (exact && w.empty()) samePattern(s, r.f->RevSparseHes(n, only), q + " pattern");
    }
    vt_reach("spars");
}

// ---- what a model offers, and every order of calls --------------------------------
static bool refused(const std::function<void()>& f) {
    try { f(); } catch (const Refused&) { return true; } catch (const CGException&) { return true; }
    return false;
}
// one call of the model's interface, result compared with the reference
struct Caller {
    GenericModel<double>& M;
    std::string nm;
    ADFun<double>& f;
    size_t n, m;
    enum { N = 12 };
    static const char* name(int k) {
        static const char* s[N] = {"ForwardZero", "ForwardZero(pointers)", "Jacobian", "Hessian", "ForwardOne", "sparse ForwardOne", "ReverseOne", "sparse ReverseOne", "ReverseTwo", "sparse ReverseTwo", "SparseJacobian", "SparseHessian"};
        return s[k];
    }
    bool available(int k) {
        switch (k) {
            case 0: case 1: return M.isForwardZeroAvailable();
            case 2: return M.isJacobianAvailable();
            case 3: return M.isHessianAvailable();
            case 4: return M.isForwardOneAvailable();
            case 5: return M.isSparseForwardOneAvailable();
            case 6: return M.isReverseOneAvailable();
            case 7: return M.isSparseReverseOneAvailable();
            case 8: return M.isReverseTwoAvailable();
            case 9: return M.isSparseReverseTwoAvailable();
            case 10: return M.isSparseJacobianAvailable();
            default: return M.isSparseHessianAvailable();
        }
    }
    // dn, dm: how much too long (or short) the arrays are
    void call(int k, const DV& x, const DV& d, const DV& w, bool check, int which = 0, int delta = 0) {
        DV y, J, Hw;
        if (check) {
            y = f.Forward(0, x); J = refJac(f, x, m);
            if (k == 3 || k == 8 || k == 9 || k == 11) Hw = weigh(refHessAll(f, x, m), w);
        }
        std::string q = nm + " " + name(k);
        auto sz = [&](int a, size_t s) { return which == a ? s + delta : s; };
        DV X = x; X.resize(sz(0, n), 0.0);
        size_t i1 = m > 1 ? 1 : 0, j1 = n > 1 ? 1 : 0;
        switch (k) {
            case 0: { DV r(sz(1, m), 7.0); M.ForwardZero(ArrayView<const double>(X), ArrayView<double>(r)); if (check) sameVec(r, y, q); break; }
            case 1: { DV r(sz(1, m), 7.0); std::vector<const double*> in{X.data()}; if (which == 0 && delta) in.push_back(X.data()); M.ForwardZero(in, ArrayView<double>(r)); if (check) sameVec(r, y, q); break; }
            case 2: { DV r(sz(1, m * n), 7.0); M.Jacobian(ArrayView<const double>(X), ArrayView<double>(r)); if (check) sameVec(r, J, q); break; }
            case 3: { DV r(sz(1, n * n), 7.0), W = w; W.resize(sz(2, m), 0.0); M.Hessian(ArrayView<const double>(X), ArrayView<const double>(W), ArrayView<double>(r)); if (check) sameVec(r, Hw, q); break; }
            case 4: {
                DV tx(sz(0, 2 * n)), ty(sz(1, 2 * m), 7.0);
                for (size_t j = 0; j < n && 2 * j + 1 < tx.size(); ++j) { tx[2 * j] = x[j]; tx[2 * j + 1] = d[j]; }
                M.ForwardOne(ArrayView<const double>(tx), ArrayView<double>(ty));
                if (check) { DV e = mulJ(J, m, n, d); for (size_t i = 0; i < m; ++i) vt_assert_eq(ty[2 * i + 1], e[i], (q + " " + S1(i)).c_str()); }
                break;
            }
            case 5: {
                DV r(sz(1, m), 7.0), ds(n, 0.0); size_t idx[1] = {j1}; ds[j1] = d[j1];
                M.ForwardOne(ArrayView<const double>(X), 1, idx, &d[j1], ArrayView<double>(r));
                if (check) sameVec(r, mulJ(J, m, n, ds), q);
                break;
            }
            case 6: {
                DV W = w, Y(sz(3, m), 0.0), r(sz(1, n), 7.0); W.resize(sz(2, m), 0.0);
                if (check) Y = y;
                M.ReverseOne(ArrayView<const double>(X), ArrayView<const double>(Y), ArrayView<double>(r), ArrayView<const double>(W));
                if (check) sameVec(r, mulJt(J, m, n, w), q);
                break;
            }
            case 7: {
                DV r(sz(1, n), 7.0), ws(m, 0.0); size_t idx[1] = {i1}; ws[i1] = w[i1];
                M.ReverseOne(ArrayView<const double>(X), ArrayView<double>(r), 1, idx, &w[i1]);
                if (check) sameVec(r, mulJt(J, m, n, ws), q);
                break;
            }
            case 8: {
                DV tx(sz(0, 2 * n)), ty(sz(3, 2 * m), 0.0), py(sz(2, 2 * m), 0.0), r(sz(1, 2 * n), 7.0);
                for (size_t j = 0; j < n && 2 * j + 1 < tx.size(); ++j) { tx[2 * j] = x[j]; tx[2 * j + 1] = d[j]; }
                for (size_t i = 0; i < m && 2 * i + 1 < py.size(); ++i) py[2 * i + 1] = w[i];
                M.ReverseTwo(ArrayView<const double>(tx), ArrayView<const double>(ty), ArrayView<double>(r), ArrayView<const double>(py));
                if (check) { DV e = mulJ(Hw, n, n, d); for (size_t j = 0; j < n; ++j) vt_assert_eq(r[2 * j], e[j], (q + " " + S1(j)).c_str()); }
                break;
            }
            case 9: {
                DV W = w, r(sz(1, n), 7.0), ds(n, 0.0); size_t idx[1] = {j1}; ds[j1] = d[j1]; W.resize(sz(2, m), 0.0);
                M.ReverseTwo(ArrayView<const double>(X), 1, idx, &d[j1], ArrayView<double>(r), ArrayView<const double>(W));
                if (check) sameVec(r, mulJ(Hw, n, n, ds), q);
                break;
            }
            case 10: {
                DV r(sz(1, m * n), 7.0);
                M.SparseJacobian(ArrayView<const double>(X), ArrayView<double>(r));
                if (check) sameVec(r, J, q);
                break;
            }
            default: {
                DV W = w, r(sz(1, n * n), 7.0); W.resize(sz(2, m), 0.0);
                M.SparseHessian(ArrayView<const double>(X), ArrayView<const double>(W), ArrayView<double>(r));
                if (check) sameVec(r, Hw, q);
            }
        }
    }
    // which arrays of call k have a size that is checked
    bool has(int k, int a) {
        if (a == 0 || a == 1) return true;
        if (a == 2) return k == 3 || k == 6 || k == 8 || k == 9 || k == 11;
        return k == 6 || k == 8;
    }
};
static void createAll(ModelCSourceGen<double>& g) {
    g.setCreateForwardZero(true); g.setCreateForwardOne(true); g.setCreateReverseOne(true); g.setCreateReverseTwo(true);
    g.setCreateJacobian(true); g.setCreateHessian(true); g.setCreateSparseJacobian(true); g.setCreateSparseHessian(true);
}
static void api() {
    Prog p = pick();
    auto fun = tape(p);
    ModelCSourceGen<double> g(*fun, "m");
    config(g, p);
    createAll(g);
    vt_program((p.name + " calls").c_str());
    Lib L = compile(g);
    auto f = tapeD(p);
    Caller c{*L.model, p.name, *f, p.n, p.m};
    int k = vt_choice("call", Caller::N), mode = vt_choice("then", 2);
    DV x = reals("x", p.n), d = reals("d", p.n), w = reals("w", p.m);
    for (size_t j = 1; j < p.n; ++j) vt_assume(d[j] != 0.0);
    for (size_t j = 0; j < p.m; ++j) vt_assume(w[j] != 0.0);
    if (mode == 0) { // a second call, maybe the same one, with other arguments, and the first one again
        int k2 = vt_choice("second call", Caller::N);
        vt_program((p.name + " calls " + Caller::name(k) + ", " + Caller::name(k2)).c_str());
        DV x2(p.n), w2(p.m, 0.75), d2(p.n, -0.5);
        for (size_t j = 0; j < p.n; ++j) x2[j] = 0.625 + 0.25 * j;
        c.call(k, x2, d2, w2, false);
        c.call(k2, x, d, w, true);
        c.call(k, x, d, w, true);
        vt_reach("histories");
    } else { // sizes that don't fit the model
        int a = vt_choice("array", 4), delta = vt_choice("size", 3) - 1;
        if (!c.has(k, a) || delta == 0) vt_skip();
        bool exact = k <= 3 || k >= 10;  // the directional functions also accept longer arrays
        if (!exact && delta > 0) vt_skip();
        if (k == 1 && a == 0 && delta < 0) vt_skip(); // only the number of arrays is known there
        std::string q = p.name + " " + Caller::name(k) + " with array " + S1(a) + (delta < 0 ? " too short" : " too long");
        vt_program(q.c_str());
        vt_assert(refused([&] { c.call(k, x, d, w, false, a, delta); }), (q + " is refused").c_str());
        c.call(k, x, d, w, true); // and the model can still be used
        vt_reach("sizes");
    }
}
static void flags() {
    Prog p = pick();
    auto fun = tape(p);
    ModelCSourceGen<double> g(*fun, "m");
    config(g, p);
    bool tie = !argi("all", 0);
    bool z = vt_choice("zero", 2), j = tie ? z : vt_choice("jacobian", 2), h = tie ? !z : vt_choice("hessian", 2), f1 = vt_choice("forward one", 2), r1 = vt_choice("reverse one", 2),
         r2 = vt_choice("reverse two", 2), sj = vt_choice("sparse jacobian", 2), sh = vt_choice("sparse hessian", 2), reuse = vt_choice("reuse", 2);
    if (reuse && !(sj && (f1 || r1)) && !(sh && r2)) vt_skip();
    std::string nm = p.name + " flags " + S1(z) + S1(j) + S1(h) + S1(f1) + S1(r1) + S1(r2) + S1(sj) + S1(sh) + S1(reuse);
    vt_program(nm.c_str());
    g.setCreateForwardZero(z); g.setCreateJacobian(j); g.setCreateHessian(h); g.setCreateForwardOne(f1); g.setCreateReverseOne(r1); g.setCreateReverseTwo(r2);
    g.setCreateSparseJacobian(sj); g.setCreateSparseHessian(sh);
    g.setSparseJacobianReuse1stOrderPasses(reuse); g.setSparseHessianReusesRev2(reuse);
    Lib L = compile(g);
    auto f = tapeD(p);
    Caller c{*L.model, nm, *f, p.n, p.m};
    bool want[Caller::N] = {z, z, j, h, f1, f1, r1, r1, r2, r2, sj, sh};
    DV x = reals("x", p.n), d = reals("d", p.n), w = reals("w", p.m);
    for (size_t i = 0; i < p.n; ++i) vt_assume(d[i] != 0.0);
    for (size_t i = 0; i < p.m; ++i) vt_assume(w[i] != 0.0);
    for (int k = 0; k < Caller::N; ++k) {
        vt_assert(c.available(k) == want[k], (nm + ": " + Caller::name(k) + " is available exactly when requested").c_str());
        if (want[k]) c.call(k, x, d, w, true);
        else vt_assert(refused([&] { c.call(k, x, d, w, false); }), (nm + ": " + Caller::name(k) + " is refused when it was not requested").c_str());
    }
    vt_assert(c.M.isJacobianSparsityAvailable() == (sj || f1 || r1), (nm + ": Jacobian pattern available").c_str());
    vt_assert(c.M.isHessianSparsityAvailable() == (sh || r2), (nm + ": Hessian pattern available").c_str());
    vt_reach("flags");
}

// a compiled model called as an atomic function from a CppAD tape of plain numbers
static void adfun() {
    auto l = atomProgs();
    int only = argi("only", -1);
    atom.reset(new AtomCtx);
    atom->a = l[only >= 0 ? only : vt_choice("atomic", argi("natom", l.size()))];
    atom->via = VIA_LIBRARY;
    atom->prepareInner(1);
    Prog& p = atom->a.p;
    vt_program((p.name + " compiled model in a CppAD tape").c_str());
    size_t n = p.n, m = p.m;
    auto& at = atom->innerLib.model->asAtomic();
    VD X(n), Y(m);
    for (size_t j = 0; j < n; ++j) X[j] = 0.25 + 0.5 * j;
    CppAD::Independent(X);
    atom->a.outerD(X, Y, [&](const VD& u, VD& v) { at(u, v); });
    ADFun<double> F(X, Y);
    Ref r(p);
    r.zero(); r.jac();
    DV dx = reals("dx", n), w = realsNZ("w", m, 0);
    sameVec(F.Forward(0, r.x), r.y, p.name + " value");
    sameVec(F.Forward(1, dx), mulJ(r.J, m, n, dx), p.name + " forward one");
    sameVec(F.Reverse(1, w), mulJt(r.J, m, n, w), p.name + " reverse one");
    // patterns CppAD derives through the compiled model cover every element that can be nonzero
    std::vector<std::set<size_t>> I(n), s;
    for (size_t j = 0; j < n; ++j) I[j].insert(j);
    s = F.ForSparseJac(n, I);
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) if (!s[i].count(j)) vt_assert_eq(r.J[i * n + j], 0.0, (p.name + " forward pattern").c_str());
    std::vector<std::set<size_t>> Im(m), sr;
    for (size_t i = 0; i < m; ++i) Im[i].insert(i);
    sr = F.RevSparseJac(m, Im);
    for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) if (!sr[i].count(j)) vt_assert_eq(r.J[i * n + j], 0.0, (p.name + " reverse pattern").c_str());
    std::vector<DV> H = refHessAll(*r.f, r.x, m);
    for (size_t i = 0; i < m; ++i) {
        F.ForSparseJac(n, I);
        std::vector<std::set<size_t>> one(1); one[0].insert(i);
        auto h = F.RevSparseHes(n, one);
        for (size_t j = 0; j < n; ++j) for (size_t k = 0; k < n; ++k) if (!h[j].count(k)) vt_assert_eq(H[i][j * n + k], 0.0, (p.name + " Hessian pattern of an equation").c_str());
    }
    vt_reach("adfun");
}

extern "C" void vt_harness() {
    CppAD::ErrorHandler handler(refuse);
    std::string c = vt_arg("case", "zero");
    try {
        if (c == "zero") zero();
        else if (c == "jac") jac();
        else if (c == "hes") hes();
        else if (c == "fr") fr();
        else if (c == "adfun") adfun();
        else if (c == "spars") spars();
        else if (c == "api") api();
        else if (c == "flags") flags();
    } catch (const Refused& e) {
        // nothing but the documented restriction of second order reverse in generated atomic functions
        bool known = atom && atom->via != VIA_BRIDGE_TAPE && (e.msg.find("must be zero") != std::string::npos);
        // arrays (atomic functions) needed by several branches of a loop are not supported and refused
        if (atom && !atom->a.p.related.empty() && e.msg == "Not supported yet") known = true;
        vt_assert(known, ("a valid call was refused: " + e.msg).c_str());
        vt_reach("refused");
    }
    atom.reset();
    vt_reach("end");
}
