// C15: printing and parsing back preserves the value, the printed text is a fixed point, and streaming prints the same.
#include "gen.h"
#include <sstream>
using namespace tomsolver;
using namespace ref;

struct G : Gen {
    int nums = tsx_param("nums", 1);
    R *leaf2() {
        int c = tsx_choice("leaf", vars + (nums ? 5 : 0));
        if (c == 0 && vars && padin) return wrap(var(0), padin);
        if (c < vars) return var(c);
        static const double k[] = {2, -1.5, 1e20, -1e-20, 0};
        return num(k[c - vars]);
    }
    // as Gen::shape, with these leaves
    R *tree2(int n, int k, bool root) {
        if (n == 0) return leaf2();
        if (k < shapes(n - 1)) {
            MathOperator o = (MathOperator)tsx_int("unary", root ? rootUnLo : unLo, root ? rootUnHi : unHi);
            return un(o, tree2(n - 1, k, false));
        }
        k -= shapes(n - 1);
        for (int i = 0; i < n; i++) {
            int c = shapes(i) * shapes(n - 1 - i);
            if (k < c) {
                MathOperator o = (MathOperator)tsx_int("binary", root ? rootBinLo : binLo, root ? rootBinHi : binHi);
                int j = n - 1 - i;
                R *l = tree2(i, k / shapes(j), false);
                R *r = tree2(j, k % shapes(j), false);
                return bin(o, l, r);
            }
            k -= c;
        }
        return leaf2();
    }
};

static bool negative(const R *t) {
    if (t->k == NUM) return t->v < 0;
    return (t->l && negative(t->l)) || (t->r && negative(t->r));
}
static double evalValid(const R *t, const double *env) {
    if (t->k == NUM) return t->v;
    if (t->k == VAR) return env[t->var];
    double a = evalValid(t->l, env), b = 0;
    if (t->k == BIN) b = evalValid(t->r, env);
    double r = apply(t->op, a, b);
    tsx_assume(!invalid(r));
    return r;
}

extern "C" void harness_main() {
    G g;
    g.vars = tsx_param("vars", 1);
    int ops = tsx_param("ops", 2);
    int s = tsx_param("shape", -1);
    if (s < 0) s = tsx_choice("shape", shapes(ops));
    R *t = g.wrap(g.tree2(ops, s, true), tsx_param("pad", 0));
    Node n = build(t);
    std::string text = n->ToString();
    tsx_note(text.c_str());
    std::stringstream ss;
    ss << n;
    tsx_check(ss.str() == text, "streaming an expression prints its text");
    Node back;
    bool threw = false;
    try {
        back = Parse(text);
    } catch (const std::exception &) { threw = true; }
    tsx_check(!threw, "the printed text parses");
    if (threw) return;
    // a negative number is read back as a sign and a number, which may be written with other parentheses
    if (!negative(t)) tsx_check(back->ToString() == text, "printing what was parsed gives the same text");
    else {
        std::string text2 = back->ToString();
        try {
            tsx_check(Parse(text2)->ToString() == text2, "printing what was parsed gives the same text from the second time on");
        } catch (const std::exception &) { threw = true; }
        tsx_check(!threw, "the text printed for the parsed expression parses");
    }
    tsx_check(n->Equal(build(t)), "printing changes nothing");
    double env[12];
    std::map<std::string, double> m;
    for (int i = 0; i < g.vars; i++) m[varName(i)] = env[i] = tsx_double("x");
    double want = evalValid(t, env), got = 0;
    Config::Get().throwOnInvalidValue = false;
    try {
        got = Subs(back, m)->Vpa();
    } catch (const std::exception &) { threw = true; }
    tsx_check(!threw, "what was parsed can be evaluated");
    tsx_check(tsx_same(got, want), "the printed text has the expression's value");
    tsx_cover("value");
}
