// An interpreter of operation graphs that shares no code with the library's
// evaluators or code generators: the meaning of a CG value.
#pragma once
#include "hmodel.hpp"
namespace vt {
struct Interp {
    CodeHandler<double>& h;
    DV x;                                       // independents, by index
    std::map<const OperationNode<double>*, double> memo;
    std::map<const OperationNode<double>*, double> own; // explicit values of some nodes (e.g. removed independents)
    Interp(CodeHandler<double>& h_, const DV& x_) : h(h_), x(x_) {}
    double arg(const Argument<double>& a) {
        if (a.getOperation() != nullptr) return node(*a.getOperation());
        vt_assert(a.getParameter() != nullptr, "argument is neither an operation nor a parameter");
        return *a.getParameter();
    }
    double node(const OperationNode<double>& n) {
        auto it = memo.find(&n);
        if (it != memo.end()) return it->second;
        vt_assert(n.getCodeHandler() == &h, "every node of an expression belongs to its code handler");
        double r = eval(n);
        memo[&n] = r;
        return r;
    }
    double eval(const OperationNode<double>& n) {
        auto o = own.find(&n);
        if (o != own.end()) return o->second;
        const auto& a = n.getArguments();
        auto A = [&](size_t i) { return arg(a.at(i)); };
        switch (n.getOperationType()) {
            case CGOpCode::Inv: return x.at(h.getIndependentVariableIndex(n));
            case CGOpCode::Assign: case CGOpCode::Alias: return A(0);
            case CGOpCode::Abs: { double v = A(0); return v < 0 ? -v : v; }
            case CGOpCode::Acos: return std::acos(A(0));
            case CGOpCode::Acosh: return std::acosh(A(0));
            case CGOpCode::Add: return A(0) + A(1);
            case CGOpCode::Asin: return std::asin(A(0));
            case CGOpCode::Asinh: return std::asinh(A(0));
            case CGOpCode::Atan: return std::atan(A(0));
            case CGOpCode::Atanh: return std::atanh(A(0));
            case CGOpCode::ComLt: return A(0) < A(1) ? A(2) : A(3);
            case CGOpCode::ComLe: return A(0) <= A(1) ? A(2) : A(3);
            case CGOpCode::ComEq: return A(0) == A(1) ? A(2) : A(3);
            case CGOpCode::ComGe: return A(0) >= A(1) ? A(2) : A(3);
            case CGOpCode::ComGt: return A(0) > A(1) ? A(2) : A(3);
            case CGOpCode::ComNe: return A(0) != A(1) ? A(2) : A(3);
            case CGOpCode::Cosh: return std::cosh(A(0));
            case CGOpCode::Cos: return std::cos(A(0));
            case CGOpCode::Div: return A(0) / A(1);
            case CGOpCode::Erf: return std::erf(A(0));
            case CGOpCode::Erfc: return std::erfc(A(0));
            case CGOpCode::Exp: return std::exp(A(0));
            case CGOpCode::Expm1: return std::expm1(A(0));
            case CGOpCode::Log: return std::log(A(0));
            case CGOpCode::Log1p: return std::log1p(A(0));
            case CGOpCode::Mul: return A(0) * A(1);
            case CGOpCode::Pow: return std::pow(A(0), A(1));
            case CGOpCode::Pri: return A(0);
            case CGOpCode::Sign: { double v = A(0); return v > 0 ? 1.0 : v < 0 ? -1.0 : 0.0; }
            case CGOpCode::Sinh: return std::sinh(A(0));
            case CGOpCode::Sin: return std::sin(A(0));
            case CGOpCode::Sqrt: return std::sqrt(A(0));
            case CGOpCode::Sub: return A(0) - A(1);
            case CGOpCode::Tanh: return std::tanh(A(0));
            case CGOpCode::Tan: return std::tan(A(0));
            case CGOpCode::UnMinus: return -A(0);
            default: vt_assert(false, "unexpected operation in an expression"); return 0;
        }
    }
    double operator()(const CGD& v) { return v.isParameter() ? v.getValue() : node(*v.getOperationNode()); }
};
}
