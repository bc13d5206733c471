// C14: structural equality of two expressions, every operator and every number symbolic.
#include "gen.h"
using namespace tomsolver;
using namespace ref;

extern "C" void harness_main() {
    Gen g;
    g.vars = tsx_param("vars", 2);
    int na = tsx_param("a", 1), nb = tsx_param("b", 1);
    R *a = g.tree(na), *b = g.tree(nb);
    Node x = build(a), y = build(b);
    bool want = sameTree(a, b);
    tsx_check(x->Equal(y) == want, "equal exactly when the trees are the same");
    tsx_check(y->Equal(x) == want, "equality is symmetric");
    tsx_check(x->Equal(x) && y->Equal(y), "equality is reflexive");
    tsx_check(x->Equal(build(a)) && y->Equal(build(b)), "comparing changes nothing");
    Node c = Clone(x);
    tsx_check(c->Equal(x) && x->Equal(c), "a clone is equal to the original");
    tsx_check(c->Equal(y) == want, "a clone compares like the original");
    tsx_cover(want ? "equal" : "different");
}
