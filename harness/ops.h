// One operation of every class of the library, on symbolic arguments, successful or failing: shared by C33 and C34.
#pragma once
#include "gen.h"
#include <sstream>

namespace ops {
using namespace tomsolver;
using ref::R;
enum { CORE, VALUE, SIMPLIFY, DIFF, SUBS, ARITH, TEXT, TOKENS, NAMES, MATRIX, LINEAR, TABLE, SYMMAT, JACOBIAN, NEWTON, DAMPED, SOLVE, SEARCH, ERRORS, COUNT };

struct In {
    int what;
    R *t = nullptr, *u = nullptr;
    std::string s;
    double d[10];
    int k[4] = {0, 0, 0, 0};
};
static double number(const char *n, double lo, double hi) {
    double v = tsx_double(n);
    tsx_assume(v >= lo);
    tsx_assume(v <= hi);
    return v;
}
static In inputs(int what) {
    In in;
    in.what = what;
    int n = tsx_param("ops", 1);
    ref::Gen g;
    g.vars = tsx_param("vars", 2);
    for (int i = 0; i < 10; i++) in.d[i] = i + 1;
    switch (what) {
    case CORE: case ARITH: case SUBS: in.t = g.tree(n); in.u = g.tree(tsx_param("ops2", 1)); in.k[0] = tsx_choice("form", what == ARITH ? 10 : 6); break;
    case VALUE: g.vars = tsx_param("vars", 1); in.t = g.tree(n); break;
    case SIMPLIFY: g.constants = true; g.numbers = false; in.t = g.tree(n); break;
    case DIFF: g.constants = tsx_param("consts", 0); g.numbers = !g.constants; in.t = g.tree(n); in.k[0] = tsx_choice("form", 4); break;
    case TEXT: for (int i = 0, l = tsx_param("len", 2); i < l; i++) in.s += (char)tsx_byte("byte"); break;
    case TOKENS: {
        static const char *tok[] = {"x", "1.5", "sin", "-", "*", "(", ")", "@", "2e999"};
        for (int i = 0, l = tsx_param("len", 3); i < l; i++) { in.s += tok[tsx_choice("token", 9)]; in.s += " "; }
        break;
    }
    case NAMES: for (int i = 0, l = tsx_param("len", 2); i < l; i++) in.s += (char)tsx_byte("byte"); in.k[0] = tsx_int("op", -2, (int)MathOperator::MATH_MOD); break;
    case MATRIX: for (int i = 0; i < 4; i++) in.d[i] = number("m", -9, 9); in.k[0] = tsx_choice("form", 8); break;
    case LINEAR: for (int i = 0; i < 4; i++) in.d[i] = tsx_choice("a", 3) - 1; in.d[4] = tsx_choice("b", 2); in.d[5] = tsx_choice("b", 2); in.k[0] = tsx_choice("form", 4); break;
    case TABLE: for (int i = 0; i < 3; i++) in.d[i] = number("v", -9, 9); in.k[0] = tsx_choice("form", 6); break;
    case SYMMAT: in.t = g.tree(n); in.d[0] = number("v", -9, 9); in.k[0] = tsx_choice("form", 10); break;
    case JACOBIAN: in.t = g.tree(n); break;
    default: {
        static const double st[] = {1, -0.5, 0, 4};
        in.k[0] = tsx_choice("family", 6);
        in.d[0] = st[tsx_choice("start", 4)];
        break;
    }
    }
    return in;
}
static Node tree(const R *t) { return ref::build(t); }
static SymVec system(int f) {
    SymVec e(f == 5 ? 2 : 1);
    switch (f) {
    case 0: e[0] = Var("x") * Num(2) - Num(3); break;             // solved in one step
    case 1: e[0] = (Var("x") ^ Num(2)) + Num(1); break;           // no solution
    case 2: e[0] = log(Var("x")); break;                          // not defined everywhere
    case 3: e[0] = (Var("x") - Var("x")) + Num(1); break;         // singular
    case 4: e[0] = internal::BinaryOperator(MathOperator::MATH_AND, Var("x"), Num(3)); break; // no derivative
    default: e[0] = Var("x") + Var("x1") - Num(1); e[1] = Var("x") * Var("x1") + Num(2); break;
    }
    return e;
}
// Returns something about the result; -1 after an error.
static double perform1(const In &in) {
    double r = 0;
    switch (in.what) {
    case CORE: {
        Node t = tree(in.t), u = tree(in.u);
        switch (in.k[0]) {
        case 0: { Node c = Clone(t); r = c->Equal(t); break; }
        case 1: { *t = *u; internal::NodeImpl n(*t); r = n.Equal(u); break; }
        case 2: r = t->ToString().size(); break;
        case 3: { std::stringstream ss; ss << t << u; r = ss.str().size(); break; }
        case 4: r = t->GetAllVarNames().size(); break;
        default: { *t = std::move(*u); Node c = Move(t); r = c->Equal(tree(in.u)); break; }
        }
        break;
    }
    case VALUE: {
        Node t = tree(in.t);
        try { r = t->Vpa(); } catch (const std::runtime_error &) { r = -1; }
        t->Calc();
        break;
    }
    case SIMPLIFY: { Node t = tree(in.t); Simplify(t); r = t->GetAllVarNames().size(); break; }
    case DIFF: {
        Node t = tree(in.t), d;
        switch (in.k[0]) {
        case 0: d = Diff(t, "x"); break;
        case 1: d = Diff(Move(t), "x"); break;
        case 2: d = Diff(t, "x", 2); break;
        default: d = Diff(t, "zz"); break;
        }
        r = d->GetAllVarNames().size();
        break;
    }
    case SUBS: {
        Node t = tree(in.t), u = tree(in.u), n;
        switch (in.k[0]) {
        case 0: n = Subs(t, "x", u); break;
        case 1: n = Subs(Move(t), "x", u); break;
        case 2: { SymVec v(2); v[0] = Move(u); v[1] = Num(2); n = Subs(t, {"x", "x1"}, v); break; }
        case 3: { std::map<std::string, Node> m; m.emplace("x1", Move(u)); m.emplace("x", Num(3)); n = Subs(t, m); break; }
        case 4: { std::map<std::string, double> m{{"x", 2}}; n = Subs(Move(t), m); break; }
        default: n = Subs(t, VarsTable{{"x", 2}, {"y", 3}}); break;
        }
        r = n->GetAllVarNames().size();
        break;
    }
    case ARITH: {
        Node t = tree(in.t), u = tree(in.u), n;
        switch (in.k[0]) {
        case 0: n = t + u; break;
        case 1: n = Move(t) * u; break;
        case 2: n = t - Move(u); break;
        case 3: n = Move(t) / Move(u); break;
        case 4: t += t; n = Clone(t); break;
        case 5: t ^= u; n = Move(t); break;
        case 6: t *= Move(u); t -= Num(1); n = Clone(t); break;
        case 7: n = sin(t) + cos(Move(u)); break;
        case 8: n = -(-t); n = +Move(n); break;
        default: t /= t; n = t * t; break;
        }
        r = n->GetAllVarNames().size();
        break;
    }
    case TEXT: case TOKENS: { Node n = Parse(in.s); r = n->GetAllVarNames().size(); break; }
    case NAMES: {
        bool bad = false;
        try { Node v = Var(in.s); } catch (const std::runtime_error &) { bad = true; }
        if (in.k[0] >= 0) Node o = Op((MathOperator)in.k[0]);
        r = bad;
        break;
    }
    case MATRIX: {
        Mat a{{in.d[0], in.d[1]}, {in.d[2], in.d[3]}}, b{{1, 2}, {3, 4}};
        switch (in.k[0]) {
        case 0: a = a * b + b; r = a.Value(0, 0); break;
        case 1: r = a.Inverse().Value(1, 1); break;
        case 2: r = a.ToVec()[0]; break;
        case 3: r = Det(a.Transpose(), 2); break;
        case 4: a.Resize(3, 1); a += a; r = a.Value(0, 0); break;
        case 5: r = Vec({in.d[0], 1}) < Vec({in.d[1], 2}); break;
        case 6: r = a.PositiveDetermine(); break;
        default: { Mat c = std::move(a); a = c; a.SwapRow(0, 1); r = (a == c); break; }
        }
        break;
    }
    case LINEAR: {
        Config::Get();
        switch (in.k[0]) {
        case 0: r = SolveLinear(Mat{{in.d[0], in.d[1]}, {in.d[2], in.d[3]}}, Vec{in.d[4], in.d[5]})[0]; break;
        case 1: r = SolveLinear(Mat{{in.d[0]}, {in.d[1]}}, Vec{in.d[4], in.d[5]})[0]; break;
        case 2: r = SolveLinear(Mat{{in.d[0], in.d[1]}}, Vec{in.d[4]})[0]; break;
        default: r = SolveLinear(Mat{{in.d[0], in.d[1], in.d[2]}, {in.d[3], 1, 0}}, Vec{in.d[4], in.d[5]})[0]; break;
        }
        break;
    }
    case TABLE: {
        VarsTable t({"x", "a"}, in.d[0]);
        switch (in.k[0]) {
        case 0: t.SetValues(Vec{in.d[1], in.d[2]}); r = t["a"]; break;
        case 1: r = t["nothing"]; break;
        case 2: { VarsTable u = t; u.SetValues(Vec{in.d[1], in.d[0]}); r = u == t; break; }
        case 3: { VarsTable u(std::map<std::string, double>{{"b", in.d[1]}}); t = u; r = t.Has("x"); break; }
        case 4: { VarsTable u{{"x", in.d[1]}, {"a", in.d[2]}}; t = std::move(u); r = t["x"]; break; }
        default: for (auto &p : t) r += p.first.size(); break;
        }
        break;
    }
    case SYMMAT: {
        SymMat m(2, 2), v(1, 2);
        m.Value(0, 0) = tree(in.t);
        m.Value(0, 1) = Var("x");
        m.Value(1, 0) = Num(in.d[0]);
        m.Value(1, 1) = Var("x1");
        v.Value(0, 0) = tree(in.t);
        v.Value(0, 1) = Num(1);
        switch (in.k[0]) {
        case 0: r = (v * m).Cols(); break;
        case 1: r = (m * v).Cols(); break;
        case 2: r = (m - m.Clone()).Rows(); break;
        case 3: r = m.ToMat().Rows(); break;
        case 4: r = m.ToSymVec().Rows(); break;
        case 5: r = m.ToSymVecOneByOne().Rows(); break;
        case 6: r = m.Subs(VarsTable{{"x", 1}, {"x1", 2}}).Calc().ToMat().Value(0, 1); break;
        case 7: r = m.Calc().Rows(); break;
        case 8: r = m.ToString().size() + m.GetAllVarNames().size(); break;
        default: { SymMat w = m.Clone(); v = std::move(w); r = v == m; break; }
        }
        break;
    }
    case JACOBIAN: {
        SymVec e(2);
        e[0] = Var("x") * Var("x1");
        e[1] = tree(in.t);
        r = Jacobian(e, {"x", "x1"}).Cols();
        break;
    }
    case NEWTON: r = SolveByNewtonRaphson(system(in.k[0]), in.k[0] == 5 ? VarsTable({"x1", "x"}, in.d[0]) : VarsTable({"x"}, in.d[0]))["x"]; break;
    case DAMPED: r = SolveByLM(system(in.k[0]), in.k[0] == 5 ? VarsTable({"x1", "x"}, in.d[0]) : VarsTable({"x"}, in.d[0]))["x"]; break;
    case SOLVE: r = Solve(system(in.k[0]))["x"]; break;
    case SEARCH:
        r = Armijo(Vec{in.d[0]}, Vec{1}, [](Vec v) { return Vec{v[0] * v[0]}; }, [](Vec v) { return Mat{{2 * v[0]}}; });
        r += FindAlpha(Vec{in.d[0]}, Vec{1}, [&](Vec v) { return Vec{in.k[0] < 2 ? v[0] : v[0] * v[0]}; });
        break;
    default: {
        MathError e(ErrorType::SIZE_NOT_MATCH, "text");
        try { throw MathError(e); } catch (const std::exception &x) { r = std::string(x.what()).size(); }
        throw MathError(ErrorType::ERROR_SINGULAR_MATRIX);
    }
    }
    return r;
}
static double perform(const In &in) {
    try {
        double r = perform1(in);
        tsx_cover("done");
        return r;
    } catch (const std::exception &) {
        tsx_cover("failed");
        return -1;
    }
}
} // namespace ops
