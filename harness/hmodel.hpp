// Shared by the full-pipeline harnesses: record -> generate C -> compile (with the
// instrumented compiler wrapper) -> load -> compare with CppAD for symbolic inputs.
#pragma once
#include "vt.h"
#include <cppad/cg/cppadcg.hpp>
#include <unistd.h>
#include <sys/stat.h>
#include <functional>
namespace vt {
using CppAD::AD;
using CppAD::ADFun;
using CppAD::vector;
using namespace CppAD::cg;
using CppAD::CondExpLt; using CppAD::CondExpLe; using CppAD::CondExpEq; using CppAD::CondExpGe; using CppAD::CondExpGt; using CppAD::CondExpOp;
using CppAD::sign; using CppAD::pow;
typedef CG<double> CGD;
typedef AD<CGD> ADCG;
typedef std::vector<double> DV;

inline std::string modelCompiler() {
    std::string d = getenv("VT_CC_DIR");
    return d + (vt_symbolic() ? "/vtcc" : "/natcc");
}
inline void sandbox(AbstractCCompiler<double>& c) {
    std::string s = vt_scratch();
    c.setTemporaryFolder(s + "/tmp");
    c.setSourcesFolder(s + "/src");
}
inline DV reals(const char* n, size_t k) {
    DV v;
    for (size_t i = 0; i < k; ++i) v.push_back(vt_real((std::string(n) + std::to_string(i)).c_str()));
    return v;
}
inline void sameVec(const DV& a, const DV& b, const std::string& what) {
    vt_assert(a.size() == b.size(), (what + ": size").c_str());
    for (size_t i = 0; i < a.size(); ++i)
        vt_assert_eq(a[i], b[i], (what + "[" + std::to_string(i) + "]").c_str());
}
struct Lib {
    std::unique_ptr<DynamicLib<double>> lib;
    std::unique_ptr<GenericModel<double>> model;
};
inline Lib buildLib(ModelLibraryCSourceGen<double>& lg, const std::string& name) {
    static int cnt = 0;
    std::string s = vt_scratch();
    std::string ln = s + "/lib" + std::to_string(cnt++);
    DynamicModelLibraryProcessor<double> p(lg, ln);
    GccCompiler<double> comp(modelCompiler());
    sandbox(comp);
    comp.setCompileFlags({"-O1"});
    if (*vt_arg("save", "")) comp.setSaveToDiskFirst(true);
    Lib r;
    r.lib = p.createDynamicLibrary(comp);
    r.model = r.lib->model(name);
    vt_assert(r.model != nullptr, "model found in the library");
    return r;
}
}
