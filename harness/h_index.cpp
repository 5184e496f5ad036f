// Index patterns: the pattern chosen for a list of indexes must reproduce every index.
#include "vt.h"
#include <cppad/cg/cppadcg.hpp>
#include <dlfcn.h>
#include <fstream>
using namespace CppAD::cg;
template<class T> using vec_t = std::vector<T>;
using std::string; using std::to_string; using std::map;

static long evalP(const IndexPattern* ip, long x) {
    switch (ip->getType()) {
        case IndexPatternType::Linear: {
            // the meaning given to a linear pattern by the generated code
            auto* l = static_cast<const LinearIndexPattern*>(ip);
            return ((x - l->getXOffset()) / l->getLinearSlopeDx()) * l->getLinearSlopeDy() + l->getLinearConstantTerm();
        }
        case IndexPatternType::Sectioned: {
            // generated code: (x < start[1])? p0 : (x < start[2])? p1 : ... 
            auto& s = static_cast<const SectionedIndexPattern*>(ip)->getLinearSections();
            vt_assert(s.size() > 1, "a sectioned pattern has several sections");
            auto it = s.begin();
            const IndexPattern* p = it->second;
            for (++it; it != s.end(); ++it) {
                if (x < (long) it->first) break;
                p = it->second;
            }
            return evalP(p, x);
        }
        case IndexPatternType::Random1D: {
            auto& v = static_cast<const Random1DIndexPattern*>(ip)->getValues();
            for (auto& e : v) if ((long) e.first == x) return e.second;
            vt_assert(false, "index table has the position");
            return -1;
        }
        default:
            vt_assert(false, "unexpected pattern type");
            return -1;
    }
}

static int argi(const char* k, int d) { return atoi(vt_arg(k, to_string(d).c_str())); }
static size_t sym(const string& n, long lo, long hi) { return (size_t) vt_int(n.c_str(), lo, hi); }

static void label(const IndexPattern* p) {
    switch (p->getType()) {
        case IndexPatternType::Linear: vt_reach("linear"); break;
        case IndexPatternType::Sectioned: vt_reach("sectioned"); break;
        case IndexPatternType::Random1D: vt_reach("random"); break;
        default: vt_reach("other");
    }
}

// consecutive positions
static void vec() {
    int N = argi("n", 5), V = argi("v", 40);
    size_t n = 1 + vt_choice("size", N);
    vec_t<size_t> y(n);
    for (size_t i = 0; i < n; ++i) y[i] = sym("y" + to_string(i), 0, V);
    std::unique_ptr<IndexPattern> p(IndexPattern::detect(y));
    label(p.get());
    for (size_t i = 0; i < n; ++i)
        vt_assert(evalP(p.get(), i) == (long) y[i], "index pattern reproduces the index at every position");
}

// any positions
static void mp() {
    int N = argi("n", 4), V = argi("v", 40), G = argi("g", 4);
    size_t n = 1 + vt_choice("size", N);
    map<size_t, size_t> y;
    vec_t<size_t> xs(n), ys(n);
    size_t x = vt_choice("x0", G + 1);
    for (size_t i = 0; i < n; ++i) {
        xs[i] = x; ys[i] = sym("y" + to_string(i), 0, V);
        y.insert(y.end(), std::make_pair(xs[i], ys[i]));
        x += 1 + vt_choice(("gap" + to_string(i)).c_str(), G);
    }
    std::unique_ptr<IndexPattern> p(IndexPattern::detect(y));
    label(p.get());
    for (size_t i = 0; i < n; ++i)
        vt_assert(evalP(p.get(), xs[i]) == (long) ys[i], "index pattern reproduces the index at every position (map)");
}

// two indexes
static void plane() {
    int NX = argi("nx", 2), NY = argi("ny", 2), V = argi("v", 20);
    size_t nx = 1 + vt_choice("nx", NX);
    map<size_t, map<size_t, size_t>> d;
    struct P { size_t x, y, z; };
    vec_t<P> ps;
    for (size_t i = 0; i < nx; ++i) {
        size_t k = 1 + vt_choice("ny", NY);
        size_t y = vt_choice("y", NY);
        map<size_t, size_t> row;
        for (size_t j = 0; j < k; ++j) {
            P q{i, y, sym("z" + to_string(i) + "_" + to_string(j), 0, V)};
            ps.push_back(q);
            row[q.y] = q.z;
            y += 1 + vt_choice("gap", 2);
        }
        d[i] = row;
    }
    std::unique_ptr<Plane2DIndexPattern> p(Plane2DIndexPattern::detectPlane2D(d));
    if (!p) { vt_reach("noplane"); return; }
    vt_reach("plane");
    for (auto& q : ps) {
        long z = 0;
        if (p->getPattern1()) z += evalP(p->getPattern1(), q.x);
        if (p->getPattern2()) z += evalP(p->getPattern2(), q.y);
        vt_assert(z == (long) q.z, "plane pattern reproduces the index at every position");
    }
}

// the C expression written for a pattern, compiled, for every value of the index
struct LC : LanguageC<double> { using LanguageC<double>::indexPattern2String; using LanguageC<double>::U_INDEX_TYPE;
    using LanguageC<double>::printRandomIndexPatternDeclaration; };
static void* compile(const string& src) {
    static int c = 0;
    string b = string(vt_scratch()) + "/e" + to_string(c++);
    std::ofstream(b + ".c") << src;
    string cmd = string(getenv("VT_CC_DIR")) + (vt_symbolic() ? "/vtcc" : "/natcc") + " -shared -fPIC " + b + ".c -o " + b + ".so";
    if (::system(cmd.c_str())) { vt_assert(false, "index expression compiles"); }
    void* h = dlopen((b + ".so").c_str(), RTLD_NOW);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); abort(); }
    return h;
}
typedef unsigned long (*F1)(unsigned long);
typedef unsigned long (*F2)(unsigned long, unsigned long);
static void ctext() {
    const string ix = "j";
    static const long bs[] = {0, 1, 7}, dys[] = {0, 1, 2, 5}, dxs[] = {1, 2, 3};
    long kind = vt_choice("kind", 3);
    auto mkLin = [&](const string& p, bool full) {
        long dy = dys[vt_choice((p + "dy").c_str(), 4)], dx = full ? dxs[vt_choice((p + "dx").c_str(), 3)] : 1;
        long xo = dx == 1 ? 0 : vt_choice((p + "xo").c_str(), dx), b = bs[vt_choice((p + "b").c_str(), 3)];
        // descending patterns: b large enough for the indexes to stay non-negative
        if (dy != 0 && vt_choice((p + "neg").c_str(), 2)) { dy = -dy; b += 1000; }
        return new LinearIndexPattern(xo, dy, dx, b);
    };
    std::unique_ptr<IndexPattern> p;
    if (kind == 0) p.reset(mkLin("a", true));
    else if (kind == 1) {
        map<size_t, IndexPattern*> s;
        s[0] = mkLin("a", false); s[3] = mkLin("b", false);
        if (vt_choice("three", 2)) s[8] = new LinearIndexPattern(0, 3, 1, 2);
        p.reset(new SectionedIndexPattern(s));
    } else {
        map<size_t, size_t> v; v[0] = 3; v[2] = 1; v[3] = 9; v[6] = 0;
        auto* r = new Random1DIndexPattern(v); r->setName("tab"); p.reset(r);
    }
    string e = LC::indexPattern2String(*p, ix), decl;
    if (kind == 2) { std::ostringstream os; LC::printRandomIndexPatternDeclaration(os, "", {static_cast<RandomIndexPattern*>(p.get())}); decl = os.str(); }
    F1 f = (F1) dlsym(compile(decl + LC::U_INDEX_TYPE + " ev(" + LC::U_INDEX_TYPE + " j){ return " + e + "; }\n"), "ev");
    vt_program((decl + e).c_str());
    if (kind == 2) {
        auto& vals = static_cast<const Random1DIndexPattern*>(p.get())->getValues();
        for (auto& q : vals) vt_assert(f(q.first) == q.second, "index table entry");
        vt_reach("ctable");
        return;
    }
    long x = vt_int("x", 0, 150);
    if (kind == 0) vt_assume(x >= static_cast<LinearIndexPattern*>(p.get())->getXOffset());
    vt_assert((long) f(x) == evalP(p.get(), x), "C expression of an index pattern");
    vt_reach("clin");
}
// two-index expressions and tables
static void ctext2() {
    long kind = vt_choice("kind", 2);
    string a = "i", b = "j";
    std::unique_ptr<IndexPattern> p;
    string decl, e;
    if (kind == 0) {
        long w = vt_choice("which", 3);
        auto sec = [&](long c) -> IndexPattern* {
            map<size_t, IndexPattern*> s; s[0] = new LinearIndexPattern(0, 2, 1, c); s[4] = new LinearIndexPattern(0, 0, 1, 5 + c);
            return new SectionedIndexPattern(s);
        };
        auto mk = [&](const char* n) -> IndexPattern* {
            long k = vt_choice(n, 3);
            if (k == 0) return new LinearIndexPattern(0, 3, 1, 2);
            if (k == 1) return new LinearIndexPattern(0, 0, 1, 0);
            return sec(1);
        };
        IndexPattern* p1 = w != 1 ? mk("p1") : nullptr;
        IndexPattern* p2 = w != 0 ? mk("p2") : nullptr;
        p.reset(new Plane2DIndexPattern(p1, p2));
        e = LC::indexPattern2String(*p, vec_t<const string*>{&a, &b});
        F2 f = (F2) dlsym(compile(string() + LC::U_INDEX_TYPE + " ev(" + LC::U_INDEX_TYPE + " i, " + LC::U_INDEX_TYPE + " j){ return " + e + "; }\n"), "ev");
        vt_program(e.c_str());
        long x = vt_int("x", 0, 20), y = vt_int("y", 0, 20);
        long z = 0;
        if (p1) z += evalP(p1, x);
        if (p2) z += evalP(p2, y);
        vt_assert((long) f(x, y) == z, "C expression of a plane pattern");
        vt_reach("cplane");
    } else {
        // table with gaps: which cells exist is chosen, all are read back
        map<size_t, map<size_t, size_t>> v;
        long c = 0;
        for (size_t x = 0; x < 3; ++x)
            for (size_t y = 0; y < 3; ++y, ++c)
                if (vt_choice("cell", 2)) v[x][y] = 3 + c * 7;
        if (v.empty()) vt_skip();
        auto* r = new Random2DIndexPattern(v); r->setName("tab"); p.reset(r);
        std::ostringstream os; LC::printRandomIndexPatternDeclaration(os, "", {static_cast<RandomIndexPattern*>(p.get())});
        e = LC::indexPattern2String(*p, vec_t<const string*>{&a, &b});
        F2 f = (F2) dlsym(compile(os.str() + LC::U_INDEX_TYPE + " ev(" + LC::U_INDEX_TYPE + " i, " + LC::U_INDEX_TYPE + " j){ return " + e + "; }\n"), "ev");
        for (auto& r2 : v) for (auto& q : r2.second) vt_assert(f(r2.first, q.first) == q.second, "index matrix entry");
        vt_reach("cmatrix");
    }
}

extern "C" void vt_harness() {
    string c = vt_arg("case", "vec");
    if (c == "vec") vec();
    else if (c == "map") mp();
    else if (c == "plane") plane();
    else if (c == "ctext") ctext();
    else if (c == "ctext2") ctext2();
    vt_reach("end");
}
