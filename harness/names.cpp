// C17: the set of variable names of an expression (and of a matrix of expressions), every operator symbolic.
#include "gen.h"
using namespace tomsolver;
using namespace ref;

static int total = 10; // how many names there are
static void collect(const R *t, bool *seen) {
    if (t->k == VAR) seen[t->var] = true;
    if (t->k == UN || t->k == BIN) collect(t->l, seen);
    if (t->k == BIN) collect(t->r, seen);
}
static void checkSet(const std::set<std::string> &s, const bool *seen) {
    size_t n = 0;
    for (int i = 0; i < total; i++) {
        bool in = s.count(varName(i)) > 0;
        tsx_check(in == seen[i], "a name is in the set exactly when the variable occurs");
        if (seen[i]) n++;
    }
    tsx_check(s.size() == n, "the set has no other names");
    tsx_cover(n ? "some" : "none");
}

extern "C" void harness_main() {
    Gen g;
    g.vars = tsx_param("vars", 3);
    g.numbers = tsx_param("nums", 1);
    int m = tsx_param("mat", 0);
    if (g.vars > 10) total = 50;
    if (!m) {
        R *t = g.tree(tsx_param("ops", 2));
        Node n = build(t);
        bool seen[50] = {};
        collect(t, seen);
        checkSet(n->GetAllVarNames(), seen);
        tsx_check(n->Equal(build(t)), "the expression is unchanged");
        return;
    }
    if (m == 2) { // many names: each of most entries has one of its own
        int r = tsx_param("r", 4), c = tsx_param("c", 3), at = tsx_param("at", 0), to = tsx_param("distinct", 9);
        SymMat A(r, c);
        bool seen[50] = {};
        for (int k = 0; k < r * c; k++) {
            R *t = k == at ? g.tree(1) : k < to ? un(MathOperator::MATH_SIN, var((7 * k + 3) % total)) : k % 2 ? num(k) : var((7 * (k - to) + 3) % total);
            collect(t, seen);
            A.Value(k / c, k % c) = build(t);
        }
        checkSet(A.GetAllVarNames(), seen);
        return;
    }
    // 2 x 2 entries
    SymMat A(2, 2);
    bool seen[50] = {};
    for (int i = 0; i < 2; i++)
        for (int j = 0; j < 2; j++) {
            R *t = g.tree(i == 0 && j == 1 ? 1 : 0);
            collect(t, seen);
            A.Value(i, j) = build(t);
        }
    checkSet(A.GetAllVarNames(), seen);
}
