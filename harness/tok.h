// Reference grammar for expression text, over an array of tokens:
//   primary := NUMBER | NAME | '(' expr ')'
//   prefix  := ('+' | '-' | FUNCTION) prefix | primary              (binds tighter than every binary operator)
//   expr    := prefix (BINARY prefix)*    with  % > & | > ^ (right to left) > * / > + -
#pragma once
#include "gen.h"

namespace ref {
enum TK { T_NUM, T_VAR, T_FUNC, T_SIGN, T_BIN, T_LP, T_RP };
struct Tok {
    TK k;
    double v;
    int var;
    char c;          // T_SIGN, T_BIN: the character (may be symbolic)
    MathOperator f;  // T_FUNC
};
inline int prec(char c) {
    switch (c) {
    case '%': return 5;
    case '&': case '|': return 4;
    case '^': return 3;
    case '*': case '/': return 2;
    default: return 1;
    }
}
inline MathOperator binOf(char c) {
    switch (c) {
    case '%': return MathOperator::MATH_MOD;
    case '&': return MathOperator::MATH_AND;
    case '|': return MathOperator::MATH_OR;
    case '^': return MathOperator::MATH_POWER;
    case '*': return MathOperator::MATH_MULTIPLY;
    case '/': return MathOperator::MATH_DIVIDE;
    case '+': return MathOperator::MATH_ADD;
    default: return MathOperator::MATH_SUB;
    }
}
struct Parser {
    const Tok *t;
    int n, p = 0;
    bool ok = true;
    Parser(const Tok *t, int n) : t(t), n(n) {}
    R *fail() { ok = false; return nullptr; }
    R *prefix() {
        if (p >= n) return fail();
        const Tok &k = t[p];
        switch (k.k) {
        case T_NUM: p++; return num(k.v);
        case T_VAR: p++; return var(k.var);
        case T_LP: {
            p++;
            R *e = expr(1);
            if (!ok) return nullptr;
            if (p >= n || t[p].k != T_RP) return fail();
            p++;
            return e;
        }
        case T_SIGN: {
            p++;
            R *e = prefix();
            if (!ok) return nullptr;
            return un(k.c == '+' ? MathOperator::MATH_POSITIVE : MathOperator::MATH_NEGATIVE, e);
        }
        case T_FUNC: {
            p++;
            R *e = prefix();
            if (!ok) return nullptr;
            return un(k.f, e);
        }
        case T_BIN: // a sign in operator position that became a prefix
            if (k.c == '+' || k.c == '-') {
                p++;
                R *e = prefix();
                if (!ok) return nullptr;
                return un(k.c == '+' ? MathOperator::MATH_POSITIVE : MathOperator::MATH_NEGATIVE, e);
            }
            return fail();
        default: return fail();
        }
    }
    R *expr(int min) {
        R *l = prefix();
        while (ok && p < n && (t[p].k == T_BIN || t[p].k == T_SIGN) && prec(t[p].c) >= min) {
            char c = t[p].c;
            p++;
            R *r = expr(c == '^' ? prec(c) : prec(c) + 1);
            if (!ok) return nullptr;
            l = bin(binOf(c), l, r);
        }
        return l;
    }
    R *all() {
        R *e = expr(1);
        if (!ok) return nullptr;
        if (p != n) return fail();
        return e;
    }
};
inline char signChar() {
    char c = (char)tsx_byte("sign");
    tsx_assume((c == '+') | (c == '-'));
    return c;
}
inline char binChar() {
    char c = (char)tsx_byte("op");
    if (tsx_param("rep", 0)) {
        tsx_assume((c == '/') | (c == '^') | (c == '&') | (c == '%'));
        return c;
    }
    tsx_assume((c == '*') | (c == '/') | (c == '^') | (c == '&') | (c == '|') | (c == '%'));
    return c;
}
inline char anyBinChar() {
    char c = (char)tsx_byte("op");
    if (tsx_param("rep", 0)) { // one operator of every level
        tsx_assume((c == '/') | (c == '^') | (c == '&') | (c == '%') | (c == '-'));
        return c;
    }
    tsx_assume((c == '*') | (c == '/') | (c == '^') | (c == '&') | (c == '|') | (c == '%') | (c == '+') | (c == '-'));
    return c;
}
} // namespace ref
