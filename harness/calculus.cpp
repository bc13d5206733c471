// C07-C11: simplification and differentiation of every tree with a given number of operators.
#include "gen.h"
using namespace tomsolver;
using namespace ref;

static bool isZero(const R *t) { return t->k == NUM && t->v == 0; }

// Value and derivative with respect to variable "wrt", forward mode.  Paths on which the original has no value, or is not
// differentiable at the point, are assumed away.
struct D { double v, d; };
static D dual(const R *t, const double *env, int wrt) {
    if (t->k == NUM) return {t->v, 0};
    if (t->k == VAR) return {env[t->var], t->var == wrt ? 1.0 : 0.0};
    D a = dual(t->l, env, wrt), b = {0, 0};
    if (t->k == BIN) b = dual(t->r, env, wrt);
    double u = a.v, du = a.d;
    switch (t->op) {
    case MathOperator::MATH_POSITIVE: return {u, du};
    case MathOperator::MATH_NEGATIVE: return {-u, -du};
    case MathOperator::MATH_SIN: { double s = std::sin(u), c = std::cos(u); return {s, c * du}; }
    case MathOperator::MATH_COS: { double s = std::sin(u), c = std::cos(u); return {c, -(s * du)}; }
    case MathOperator::MATH_TAN: { double v = std::tan(u); return {v, (1 + v * v) * du}; }
    case MathOperator::MATH_ARCSIN: {
        tsx_assume(u > -1); tsx_assume(u < 1);
        double v = std::asin(u), s = std::sqrt(1 - u * u);
        return {v, du / s};
    }
    case MathOperator::MATH_ARCCOS: {
        tsx_assume(u > -1); tsx_assume(u < 1);
        double v = std::acos(u), s = std::sqrt(1 - u * u);
        return {v, -(du / s)};
    }
    case MathOperator::MATH_ARCTAN: { double v = std::atan(u); return {v, du / (1 + u * u)}; }
    case MathOperator::MATH_SQRT: {
        tsx_assume(u > 0);
        double v = std::sqrt(u);
        return {v, du / (v + v)};
    }
    case MathOperator::MATH_LOG: { tsx_assume(u > 0); double v = std::log(u); return {v, du / u}; }
    case MathOperator::MATH_LOG2: { tsx_assume(u > 0); double v = std::log2(u), k = std::log(2.0); return {v, du / k / u}; }
    case MathOperator::MATH_LOG10: { tsx_assume(u > 0); double v = std::log10(u), k = std::log(10.0); return {v, du / k / u}; }
    case MathOperator::MATH_EXP: { double v = std::exp(u); return {v, v * du}; }
    case MathOperator::MATH_ADD: return {u + b.v, du + b.d};
    case MathOperator::MATH_SUB: return {u - b.v, du - b.d};
    case MathOperator::MATH_MULTIPLY: return {u * b.v, u * b.d + du * b.v};
    case MathOperator::MATH_DIVIDE: {
        tsx_assume(b.v != 0);
        double q = u / b.v;
        return {q, (du - q * b.d) / b.v};
    }
    case MathOperator::MATH_POWER: {
        if (t->r->k == NUM) { // number exponent: also a base that is not positive, where the power is smooth
            double n = b.v;
            if (u == 0) {
                tsx_assume(n >= 1);
                if (n == 1) return {u, du};
                return {0, 0};
            }
            double v = std::pow(u, n);
            tsx_assume(!invalid(v));
            return {v, n * v * du / u};
        }
        tsx_assume(u > 0);
        double v = std::pow(u, b.v), l = std::log(u);
        return {v, v * (b.d * l + b.v * du / u)};
    }
    default: tsx_outside("not differentiable"); return {0, 0};
    }
}
static bool hasInteger(const R *t) {
    if (t->k == UN) return hasInteger(t->l);
    if (t->k != BIN) return false;
    if (t->op == MathOperator::MATH_AND || t->op == MathOperator::MATH_OR || t->op == MathOperator::MATH_MOD) return true;
    return hasInteger(t->l) || hasInteger(t->r);
}
// Is a part without a value removed because zero times, zero over, or zero to the power of anything is zero?
static bool zeroAbsorbs(const R *t, const double *env, bool &bad) {
    if (t->k == UN) return zeroAbsorbs(t->l, env, bad);
    if (t->k != BIN) return false;
    if (t->op == MathOperator::MATH_MULTIPLY || t->op == MathOperator::MATH_DIVIDE || t->op == MathOperator::MATH_POWER) {
        bool b = false;
        double l = eval(t->l, env, b);
        if (l == 0) return true;
        if (t->op == MathOperator::MATH_MULTIPLY) {
            double r = eval(t->r, env, b);
            if (r == 0) return true;
        }
    }
    return zeroAbsorbs(t->l, env, bad) || zeroAbsorbs(t->r, env, bad);
}
// eval() with paths without a value assumed away as early as possible; 0^0 counts as having no value
static double evalValid(const R *t, const double *env) {
    if (t->k == NUM) return t->v;
    if (t->k == VAR) return env[t->var];
    double a = evalValid(t->l, env), b = 0;
    if (t->k == BIN) b = evalValid(t->r, env);
    if (t->k == BIN && t->op == MathOperator::MATH_POWER && a == 0) tsx_assume(b != 0);
    double r = apply(t->op, a, b);
    tsx_assume(!invalid(r));
    return r;
}
static std::map<std::string, double> table(const double *env, int vars) {
    std::map<std::string, double> m;
    for (int i = 0; i < vars; i++) m[varName(i)] = env[i];
    return m;
}

extern "C" void harness_main() {
    int what = tsx_param("what", 9), ops = tsx_param("ops", 1), vars = tsx_param("vars", 2);
    Gen g;
    g.vars = vars;
    g.numbers = tsx_param("nums", 1);
    g.constants = tsx_param("consts", 0);
    R *t = g.tree(ops);
    Node n = build(t);

    if (what == 7) { // simplification preserves the value
        double env[12];
        for (int i = 0; i < vars; i++) {
            env[i] = tsx_double("x");
            if (!tsx_is_real()) { tsx_assume(env[i] >= -1.7976931348623157e308); tsx_assume(env[i] <= 1.7976931348623157e308); }
        }
        double want = evalValid(t, env);
        bool keep = tsx_param("keep", 0);
        Node s = keep ? Clone(n) : std::move(n);
        Simplify(s);
        s->CheckParent();
        auto before = build(t)->GetAllVarNames();
        for (auto &v : s->GetAllVarNames()) tsx_check(before.count(v) == 1, "simplification introduces no variable");
        Config::Get().throwOnInvalidValue = true;
        double got = 0;
        bool threw = false;
        try {
            got = Subs(s, table(env, vars))->Vpa();
        } catch (const std::runtime_error &) { threw = true; }
        tsx_check(!threw, "the simplified expression has a value where the original has");
        tsx_check(tsx_same(got, want), "simplification preserves the value");
        Node again = Clone(s);
        Simplify(again);
        double got2 = 0;
        try {
            got2 = Subs(again, table(env, vars))->Vpa();
        } catch (const std::runtime_error &) { threw = true; }
        tsx_check(!threw && tsx_same(got2, want), "simplifying again preserves the value");
        if (keep) tsx_check(n->Equal(build(t)), "simplifying a copy leaves the original alone");
        tsx_cover("value");
        return;
    }
    if (what == 8) { // constant folding
        bool throwing = tsx_choice("throwOnInvalidValue", 2);
        Config::Get().throwOnInvalidValue = throwing;
        static const double env[12] = {0};
        bool bad = false;
        double want = eval(t, env, bad);
        Node s = Clone(n);
        Simplify(s);
        s->CheckParent();
        Config::Get().throwOnInvalidValue = true;
        if (!bad) {
            // 0^0 is the one case left out: the simplifier takes zero to any power as zero
            tsx_cover("folded");
            tsx_check(s->Equal(Num(want)), "an expression without variables folds to its value");
        } else if (throwing) {
            bool b;
            if (zeroAbsorbs(t, env, b)) return;
            tsx_cover("kept");
            bool threw = false;
            try {
                s->Vpa();
            } catch (const MathError &e) { threw = e.GetErrorType() == ErrorType::ERROR_INVALID_NUMBER; }
            tsx_check(threw, "an expression without a value stays without a value");
        }
        return;
    }
    if (what == 9) { // first derivative
        double env[12];
        for (int i = 0; i < vars; i++) env[i] = tsx_double("x");
        int wrt = tsx_choice("wrt", vars + tsx_param("absent", 1));
        D want = dual(t, env, wrt);
        Node d = Diff(n, varName(wrt));
        d->CheckParent();
        Config::Get().throwOnInvalidValue = true;
        double got = 0;
        bool threw = false;
        try {
            got = Subs(d, table(env, vars))->Vpa();
        } catch (const std::runtime_error &) { threw = true; }
        tsx_check(!threw, "the derivative has a value where the original is differentiable");
        tsx_check(tsx_same(got, want.d), "the derivative's value is the derivative of the value");
        tsx_cover("derivative");
        return;
    }
    if (what == 10) { // higher order
        int order = tsx_param("order", 2);
        double env[12];
        for (int i = 0; i < vars; i++) env[i] = tsx_double("x");
        Config::Get().throwOnInvalidValue = true;
        Node once = build(t);
        for (int i = 0; i < order; i++) once = Diff(once, varName(0));
        double want = 0, got = 0;
        bool have = true, threw = false;
        try {
            want = Subs(once, table(env, vars))->Vpa();
        } catch (const std::runtime_error &) { have = false; }
        if (!have) tsx_outside("no value");
        Node d = tsx_param("move", 0) ? Diff(std::move(n), varName(0), order) : Diff(n, varName(0), order);
        d->CheckParent();
        try {
            got = Subs(d, table(env, vars))->Vpa();
        } catch (const std::runtime_error &) { threw = true; }
        // a step-by-step derivative is simplified in between, which may remove parts without a value
        dual(t, env, 0);
        if (threw) tsx_outside("no value");
        tsx_check(tsx_same(got, want), "the i-th derivative is the first derivative taken i times");
        tsx_cover("derivative");
        return;
    }
    // C11: failure, success, and the argument
    Config::Get().throwOnInvalidValue = tsx_choice("throwOnInvalidValue", 2);
    bool want = hasInteger(t), runErr = false, other = false;
    int order = tsx_param("order", 1), wrt = tsx_choice("wrt", vars + 1);
    Node d;
    try {
        d = Diff(n, varName(wrt), order);
    } catch (const MathError &) {
        other = true;
    } catch (const std::runtime_error &) {
        runErr = true;
    } catch (...) {
        other = true;
    }
    tsx_check(!other, "no other kind of error");
    tsx_check(runErr == want, "differentiation fails exactly when there is an operator that cannot be differentiated");
    tsx_check(n->Equal(build(t)), "the original is left as it was");
    n->CheckParent();
    if (!runErr) {
        tsx_cover("differentiated");
        Node c = Clone(d);
        n = nullptr;
        d->CheckParent();
        // (a folded part that is not a number equals nothing)
        if (Config::Get().throwOnInvalidValue) tsx_check(d->Equal(c), "the derivative does not depend on the original");
        for (auto &v : d->GetAllVarNames()) tsx_check(build(t)->GetAllVarNames().count(v) == 1, "no new variable");
    } else {
        tsx_cover("refused");
        tsx_check(d == nullptr, "no result after an error");
    }
}
