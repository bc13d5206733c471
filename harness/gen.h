// Shared by the harnesses: expression trees with symbolic operators and leaves, built twice — through the library's
// interface and as a plain reference tree — and the reference semantics.
#pragma once
#include "tsx.h"
#include <tomsolver/tomsolver.h>
#if __has_include(<tomsolver/config.h>)
#include <tomsolver/config.h>
#endif
#if __has_include(<tomsolver/error_type.h>)
#include <tomsolver/error_type.h>
#endif
#if __has_include(<tomsolver/functions.h>)
#include <tomsolver/functions.h>
#endif
#if __has_include(<tomsolver/parse.h>)
#include <tomsolver/parse.h>
#endif
#if __has_include(<tomsolver/diff.h>)
#include <tomsolver/diff.h>
#endif
#if __has_include(<tomsolver/simplify.h>)
#include <tomsolver/simplify.h>
#endif
#if __has_include(<tomsolver/subs.h>)
#include <tomsolver/subs.h>
#endif
#if __has_include(<tomsolver/mat.h>)
#include <tomsolver/mat.h>
#endif
#if __has_include(<tomsolver/symmat.h>)
#include <tomsolver/symmat.h>
#endif
#if __has_include(<tomsolver/linear.h>)
#include <tomsolver/linear.h>
#endif
#if __has_include(<tomsolver/nonlinear.h>)
#include <tomsolver/nonlinear.h>
#endif
#if __has_include(<tomsolver/vars_table.h>)
#include <tomsolver/vars_table.h>
#endif

#include <cmath>
#include <limits>
#include <map>
#include <string>
#include <vector>

namespace ref {
using tomsolver::MathOperator;
using tomsolver::Node;

enum Kind { NUM, VAR, UN, BIN };
struct R {
    Kind k;
    double v;
    int var;
    MathOperator op;
    R *l, *r;
};
inline R *fresh() {
    static R pool[4000];
    static int n = 0;
    R *p = &pool[n++];
    p->l = p->r = nullptr;
    p->v = 0;
    p->var = 0;
    p->op = MathOperator::MATH_NULL;
    return p;
}
inline R *num(double v) { R *p = fresh(); p->k = NUM; p->v = v; return p; }
inline R *var(int i) { R *p = fresh(); p->k = VAR; p->var = i; return p; }
inline R *un(MathOperator o, R *l) { R *p = fresh(); p->k = UN; p->op = o; p->l = l; return p; }
inline R *bin(MathOperator o, R *l, R *r) { R *p = fresh(); p->k = BIN; p->op = o; p->l = l; p->r = r; return p; }

inline std::string &extraName(int i) { // names read from a text: variables 100, 101, ...
    static std::string s[256];
    return s[i];
}
inline const char *varName(int i) {
    if (i >= 100) return extraName(i - 100).c_str();
    static const char *names[] = {"x", "x1", "_z9", "y", "w", "X", "x10", "a", "quite_a_long_name_1", "quite_a_long_name_2"};
    if (i >= 10) { // x12, x13, ...
        static std::string more[90];
        if (more[i - 10].empty()) more[i - 10] = "x" + std::to_string(i + 2);
        return more[i - 10].c_str();
    }
    return names[i];
}

const int FIRST_UNARY = (int)MathOperator::MATH_POSITIVE, LAST_UNARY = (int)MathOperator::MATH_EXP;
const int FIRST_BINARY = (int)MathOperator::MATH_ADD, LAST_BINARY = (int)MathOperator::MATH_MOD;
const int FIRST_FUNC = (int)MathOperator::MATH_SIN;

// The library's tree for a reference tree (operators may be symbolic: no branch on them here).
inline Node build(const R *t) {
    switch (t->k) {
    case NUM: return tomsolver::Num(t->v);
    case VAR: return tomsolver::Var(varName(t->var));
    case UN: return tomsolver::internal::UnaryOperator(t->op, build(t->l));
    default: return tomsolver::internal::BinaryOperator(t->op, build(t->l), build(t->r));
    }
}

inline bool sameTree(const R *a, const R *b) {
    if (a->k != b->k) return false;
    switch (a->k) {
    case NUM: return a->v == b->v;
    case VAR: return a->var == b->var;
    case UN: return a->op == b->op && sameTree(a->l, b->l);
    default: return a->op == b->op && sameTree(a->l, b->l) && sameTree(a->r, b->r);
    }
}

// Number of tree shapes with exactly n operators, and the k-th of them.
inline int shapes(int n) {
    static int memo[12];
    if (n == 0) return 1;
    if (memo[n]) return memo[n];
    int s = shapes(n - 1);
    for (int i = 0; i < n; i++) s += shapes(i) * shapes(n - 1 - i);
    return memo[n] = s;
}

// What a generated tree may contain.
struct Gen {
    Gen() { // other settings, for what must not depend on them
        if (!tsx_param("cfg", 0)) return;
        tomsolver::Config &c = tomsolver::Config::Get();
        c.throwOnInvalidValue = false;
        c.epsilon = 0.75;
        c.logLevel = tomsolver::LogLevel::OFF;
        c.maxIterations = 0;
        c.nonlinearMethod = tomsolver::NonlinearMethod::LM;
        c.initialValue = -3;
        c.allowIndeterminateEquation = true;
    }
    int vars = 2;              // variables x, y, ...
    bool numbers = tsx_param("nums", 1); // symbolic numbers as leaves
    int constants = 0;         // leaves 0, 1, 2, -1 as well; 2: 0.5, too; 3: numbers that print alike; 4: infinities
    // operators (all of them unless the job's parameters say otherwise)
    int unLo = tsx_param("unlo", FIRST_UNARY), unHi = tsx_param("unhi", LAST_UNARY);
    int binLo = tsx_param("binlo", FIRST_BINARY), binHi = tsx_param("binhi", LAST_BINARY);
    // the operator at the root, when it is to range over something else
    int rootUnLo = tsx_param("rootunlo", unLo), rootUnHi = tsx_param("rootunhi", unHi);
    int rootBinLo = tsx_param("rootbinlo", binLo), rootBinHi = tsx_param("rootbinhi", binHi);
    R *leaf() {
        int nk = vars + (numbers ? 1 : 0) + (constants == 0 ? 0 : constants == 2 ? 5 : constants == 3 ? 3 : 4);
        int c = nk == 1 ? 0 : tsx_choice("leaf", nk);
        if (c == 0 && vars && padin) return wrap(var(0), padin);
        if (c < vars) return var(c);
        c -= vars;
        if (numbers) {
            if (c == 0) {
                double v = tsx_double("num");
                tsx_assume(v >= -1.7976931348623157e308 && v <= 1.7976931348623157e308);
                return num(v);
            }
            c--;
        }
        static const double k[] = {0, 1, 2, -1, 0.5}, tiny[] = {1.23456789e-12, 1.234567899e-12, 1.0000000000000002}, inf[] = {HUGE_VAL, -HUGE_VAL, 0, 2};
        return num(constants == 3 ? tiny[c] : constants == 4 ? inf[c] : k[c]);
    }
    R *shape(int n, int k, bool root = false) {
        if (n == 0) return leaf();
        if (k < shapes(n - 1)) {
            MathOperator o = (MathOperator)tsx_int("unary", root ? rootUnLo : unLo, root ? rootUnHi : unHi);
            return un(o, shape(n - 1, k));
        }
        k -= shapes(n - 1);
        for (int i = 0; i < n; i++) {
            int c = shapes(i) * shapes(n - 1 - i);
            if (k < c) {
                MathOperator o = (MathOperator)tsx_int("binary", root ? rootBinLo : binLo, root ? rootBinHi : binHi);
                int j = n - 1 - i;
                R *l = shape(i, k / shapes(j));
                R *r = shape(j, k % shapes(j));
                return bin(o, l, r);
            }
            k -= c;
        }
        return leaf();
    }
    // all trees with exactly "ops" operators; the parameter "shape" selects one shape (-1: all of them)
    R *tree(int ops) {
        int s = tsx_param("shape", -1);
        if (s < 0) s = shapes(ops) == 1 ? 0 : tsx_choice("shape", shapes(ops));
        return wrap(shape(ops, s, true), tsx_param("pad", 0));
    }
    // Large trees: n fixed operators on top of a tree (its symbolic part stays where it is), n of them below it.
    R *some(int i) { return vars && i % 3 ? var(i % vars) : num(i % 2 ? 2 : 0.5); }
    R *wrap(R *t, int n) {
        for (int i = 0; i < n; i++) {
            switch (i % 5) {
            case 0: t = bin(MathOperator::MATH_ADD, t, some(i)); break;
            case 1: t = un(MathOperator::MATH_NEGATIVE, t); break;
            case 2: t = bin(MathOperator::MATH_SUB, some(i), t); break;
            case 3: t = bin(MathOperator::MATH_SUB, t, some(i)); break;
            default: t = bin(MathOperator::MATH_ADD, some(i), t); break;
            }
        }
        return t;
    }
    int padin = tsx_param("padin", 0);
};

// Documented meaning of one operator on numbers.  invalid: the result is not a finite number.
inline double apply(MathOperator op, double a, double b) {
    switch (op) {
    case MathOperator::MATH_POSITIVE: return a;
    case MathOperator::MATH_NEGATIVE: return -a;
    case MathOperator::MATH_SIN: return std::sin(a);
    case MathOperator::MATH_COS: return std::cos(a);
    case MathOperator::MATH_TAN: return std::tan(a);
    case MathOperator::MATH_ARCSIN: return std::asin(a);
    case MathOperator::MATH_ARCCOS: return std::acos(a);
    case MathOperator::MATH_ARCTAN: return std::atan(a);
    case MathOperator::MATH_SQRT: return std::sqrt(a);
    case MathOperator::MATH_LOG: return std::log(a);
    case MathOperator::MATH_LOG2: return std::log2(a);
    case MathOperator::MATH_LOG10: return std::log10(a);
    case MathOperator::MATH_EXP: return std::exp(a);
    case MathOperator::MATH_ADD: return a + b;
    case MathOperator::MATH_SUB: return a - b;
    case MathOperator::MATH_MULTIPLY: return a * b;
    case MathOperator::MATH_DIVIDE: return a / b;
    case MathOperator::MATH_POWER: return std::pow(a, b);
    default: break;
    }
    // & | %: defined on the integer parts, which have to fit into an int
    const double lim = 2147483648.0;
    if (!(a > -lim - 1 && a < lim && b > -lim - 1 && b < lim)) return std::numeric_limits<double>::quiet_NaN();
    int i = (int)a, j = (int)b;
    switch (op) {
    case MathOperator::MATH_AND: return i & j;
    case MathOperator::MATH_OR: return i | j;
    default: break;
    }
    if (j == 0) return std::numeric_limits<double>::quiet_NaN();
    if (j == -1) return 0;
    return i % j;
}
inline bool invalid(double v) { return v != v || v == std::numeric_limits<double>::infinity() || v == -std::numeric_limits<double>::infinity(); }

inline double eval(const R *t, const double *env, bool &bad) {
    switch (t->k) {
    case NUM: return t->v;
    case VAR: return env[t->var];
    case UN: {
        double a = eval(t->l, env, bad);
        double r = apply(t->op, a, 0);
        if (invalid(r)) bad = true;
        return r;
    }
    default: {
        double a = eval(t->l, env, bad), b = eval(t->r, env, bad);
        double r = apply(t->op, a, b);
        if (invalid(r)) bad = true;
        return r;
    }
    }
}
inline bool hasVar(const R *t) {
    if (t->k == VAR) return true;
    if (t->k == NUM) return false;
    return hasVar(t->l) || (t->k == BIN && hasVar(t->r));
}
} // namespace ref
