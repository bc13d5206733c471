// C01, C03: longer texts.  P op P op ... with symbolic operators, where every P is a number, a name, a signed, called or
// parenthesised operand; optionally one token deleted, doubled or replaced, so that most texts leave the grammar.
#include "tok.h"
using namespace tomsolver;
using namespace ref;

static Tok tok[64];
static int n, nums, vars;

static void operand() {
    Tok &t = tok[n++];
    if (tsx_choice("operand", 2)) {
        t.k = T_VAR;
        t.var = vars++ % 4;
    } else {
        static const double val[] = {1, 2.5, 30, 4};
        t.k = T_NUM;
        t.v = val[nums++ & 3];
    }
}
static void alt() { // fixed kind, cheaper
    Tok &t = tok[n++];
    if (n & 2) { t.k = T_VAR; t.var = vars++ % 4; }
    else { static const double val[] = {1, 2.5, 30, 4}; t.k = T_NUM; t.v = val[nums++ & 3]; }
}
static void binary(bool sign) {
    Tok &t = tok[n++];
    t.k = T_BIN;
    t.c = sign ? anyBinChar() : binChar();
}
static void tk(TK k) {
    Tok &t = tok[n++];
    t.k = k;
    if (k == T_SIGN) t.c = signChar();
    if (k == T_BIN) t.c = binChar();
    if (k == T_FUNC) t.f = (n & 1) ? MathOperator::MATH_LOG10 : MathOperator::MATH_SIN;
    if (k == T_NUM) t.v = 4;
    if (k == T_VAR) t.var = 3;
}
static void P(int kind) {
    switch (kind) {
    case 0: alt(); break;
    case 1: tk(T_SIGN); alt(); break;
    case 2: tk(T_FUNC); alt(); break;
    case 3: tk(T_LP); alt(); binary(true); alt(); tk(T_RP); break;
    case 4: tk(T_SIGN); tk(T_LP); alt(); binary(true); alt(); tk(T_RP); break;
    case 5: tk(T_FUNC); tk(T_LP); alt(); binary(true); alt(); tk(T_RP); break;
    case 6: tk(T_LP); tk(T_LP); alt(); tk(T_RP); tk(T_RP); break;
    case 7: tk(T_FUNC); tk(T_SIGN); tk(T_FUNC); alt(); break;
    default: tk(T_SIGN); tk(T_SIGN); alt(); break;
    }
}
static void text(std::string &s, const Tok &t, int i) {
    switch (t.k) {
    case T_NUM: s += t.v == 1 ? "1" : t.v == 2.5 ? "2.5" : t.v == 30 ? "3e1" : "4"; break;
    case T_VAR: s += varName(t.var); break;
    case T_FUNC: s += t.f == MathOperator::MATH_SIN ? "sin" : "log10"; break;
    case T_SIGN: case T_BIN: s += t.c; break;
    case T_LP: s += '('; break;
    case T_RP: s += ')'; break;
    }
}
static bool word(const Tok &t) { return t.k == T_NUM || t.k == T_VAR || t.k == T_FUNC; }
extern "C" void harness_main() {
    int N = tsx_param("N", 3);            // operands
    int kinds = tsx_param("kinds", 9);
    int mutate = tsx_param("mutate", 0);  // 0 none, 1 delete, 2 double, 3 replace by an arbitrary token
    int what = tsx_param("what", 3);
    // a fixed beginning: operands and operators that wait for each other, signs, opened parentheses
    int opened = 0;
    static const char *const begin[] = {"", "x-x*x^x&x%", "x+x/x^x|x%-", "x^x^x^x^x^x^x^", "-x*-x^-x&-x%-", "(x-(x*(x^(x&(x%(", "x%x&x%x^x&x*x^x-x*x+", "x-x-x*x*x^x^x|x|x%x%", "--sx*s-x^ss(x&x%s"};
    for (const char *p = begin[tsx_param("begin", 0)]; *p; p++) {
        if (*p == 'x') { alt(); continue; }
        Tok &t = tok[n++];
        if (*p == '(') { t.k = T_LP; opened++; continue; }
        if (*p == 's') { t.k = T_FUNC; t.f = (n & 1) ? MathOperator::MATH_LOG10 : MathOperator::MATH_SIN; continue; }
        bool sign = n == 1 || (tok[n - 2].k != T_NUM && tok[n - 2].k != T_VAR && tok[n - 2].k != T_RP);
        t.k = sign ? T_SIGN : T_BIN;
        t.c = *p;
    }
    for (int i = 0; i < N; i++) {
        if (i) binary(true);
        char nm[3] = {'k', (char)('0' + i), 0};
        int k = tsx_param(nm, -1);
        if (k < 0) k = kinds == 1 ? 0 : tsx_choice("kind", kinds);
        P(k);
        if (opened && i == N / 2) for (; opened > 1; opened--) tk(T_RP);
    }
    for (; opened; opened--) tk(T_RP);
    if (mutate) {
        int at = tsx_choice("at", n);
        if (mutate == 1) {
            for (int i = at; i + 1 < n; i++) tok[i] = tok[i + 1];
            n--;
        } else if (mutate == 2) {
            for (int i = n; i > at; i--) tok[i] = tok[i - 1];
            n++;
        } else {
            int save = n;
            n = at;
            tk((TK)tsx_choice("token", 7));
            n = save;
        }
    }
    std::string s;
    for (int i = 0; i < n; i++) {
        if (i && word(tok[i]) && word(tok[i - 1])) s += ' ';
        text(s, tok[i], i);
    }
    Parser rp(tok, n);
    R *want = rp.all();
    Node got;
    try {
        got = Parse(s);
    } catch (const std::exception &) {
        got = nullptr;
    }
    tsx_note(s.c_str());
    if (want) {
        tsx_cover("accepted");
        if (what & 1) {
            tsx_check(got != nullptr, "text of the grammar is accepted");
            Node w = build(want);
            tsx_check(got->Equal(w), "the parsed tree is the grammar's tree");
            got->CheckParent();
        }
    } else {
        tsx_cover("rejected");
        if (what & 2) tsx_check(got == nullptr, "text outside the grammar is rejected with an exception");
    }
}
