// C12: substitution is simultaneous, exact and independent of its arguments; all overloads agree.
#include "gen.h"
using namespace tomsolver;
using namespace ref;

static R *substitute(const R *t, R *const *by) {
    switch (t->k) {
    case NUM: return num(t->v);
    case VAR: return by[t->var] ? by[t->var] : var(t->var);
    case UN: return un(t->op, substitute(t->l, by));
    default: {
        R *l = substitute(t->l, by), *r = substitute(t->r, by);
        return bin(t->op, l, r);
    }
    }
}

extern "C" void harness_main() {
    Gen g;
    g.vars = tsx_param("vars", 3);
    R *t = g.tree(tsx_param("ops", 2));
    int form = tsx_param("form", 0), move = tsx_param("move", 0);
    // which of x, x1, _z9 are replaced (w is replaced as well: it does not occur)
    int mask = form == 0 ? 1 << tsx_choice("replaced", 3) : tsx_choice("replaced", 8);
    R *by[5] = {};
    Gen h;
    h.vars = 2; // replacements mention the replaced variables themselves
    h.numbers = tsx_param("rnum", 0);
    int rops = tsx_param("rops", 1);
    bool numbers = form >= 3;
    for (int i = 0; i < 3; i++)
        if (mask >> i & 1) by[i] = numbers ? num(tsx_double("value")) : h.tree(i == 0 ? rops : 0);
    if (numbers) for (int i = 0; i < 3; i++) if (by[i]) tsx_assume(by[i]->v >= -1e308 && by[i]->v <= 1e308);
    R *want = substitute(t, by);
    Node n = build(t);
    Node got;
    if (form == 0) { // one variable, by name
        tsx_cover("one variable");
        int i = mask == 1 ? 0 : mask == 2 ? 1 : 2;
        Node r = build(by[i]);
        got = move ? Subs(std::move(n), varName(i), r) : Subs(n, varName(i), r);
        tsx_check(r->Equal(build(by[i])), "the replacement is left as it was");
        r->CheckParent();
    } else if (form == 1) { // lists
        std::vector<std::string> names;
        int k = 0;
        for (int i = 0; i < 3; i++) if (by[i]) k++;
        // more names than occur, before and after the others; their replacements mention what is replaced
        int before = tsx_param("extra", 0) / 2, after = tsx_param("extra", 0) - before;
        SymVec v(k + 1 + before + after);
        for (k = 0; k < before; k++) { names.push_back("n" + std::to_string(k)); v[k] = Var("x") + Var("x1"); }
        for (int i = 2; i >= 0; i--)
            if (by[i]) {
                names.push_back(varName(i));
                v[k++] = build(by[i]);
            }
        names.push_back("w");
        v[k++] = Num(5);
        for (int i = 0; i < after; i++) { names.push_back("a" + std::to_string(i)); v[k++] = Var(i ? "x" : "_z9"); }
        got = move ? Subs(std::move(n), names, v) : Subs(n, names, v);
        k = before;
        for (int i = 2; i >= 0; i--)
            if (by[i]) tsx_check(v[k++]->Equal(build(by[i])), "the replacement is left as it was");
        tsx_cover("lists");
    } else if (form == 2) {
        std::map<std::string, Node> d;
        d["w"] = Num(5);
        for (int i = 0; i < tsx_param("extra", 0); i++) d[(i % 2 ? "zz" : "a") + std::to_string(i)] = i % 3 ? Var("x") + Var("_z9") : Num(i);
        for (int i = 0; i < 3; i++) if (by[i]) d[varName(i)] = build(by[i]);
        got = move ? Subs(std::move(n), d) : Subs(n, d);
        for (int i = 0; i < 3; i++) if (by[i]) tsx_check(d[varName(i)]->Equal(build(by[i])), "the replacement is left as it was");
        tsx_cover("map of expressions");
    } else if (form == 3) {
        std::map<std::string, double> d;
        d["w"] = 5;
        for (int i = 0; i < tsx_param("extra", 0); i++) d[(i % 2 ? "zz" : "a") + std::to_string(i)] = i;
        for (int i = 0; i < 3; i++) if (by[i]) d[varName(i)] = by[i]->v;
        got = move ? Subs(std::move(n), d) : Subs(n, d);
        tsx_cover("map of numbers");
    } else {
        // names in the order x1, w, x, _z9: neither sorted nor reversed
        static const int order[4] = {1, -1, 0, 2};
        std::vector<std::string> names;
        std::vector<double> values;
        for (int i : order)
            if (i < 0 || by[i]) {
                names.push_back(i < 0 ? "w" : varName(i));
                values.push_back(i < 0 ? 5 : by[i]->v);
            }
        VarsTable vt(names, 0);
        Vec all((int)values.size());
        for (int i = 0; i < (int)values.size(); i++) all[i] = values[i];
        vt.SetValues(all);
        got = move ? Subs(std::move(n), vt) : Subs(n, vt);
        for (int i = 0; i < (int)names.size(); i++) tsx_check(tsx_same(vt[names[i]], values[i]), "the table is left as it was");
        tsx_cover("table");
    }
    tsx_check(got->Equal(build(want)), "every occurrence is replaced, at once, and nothing else changes");
    got->CheckParent();
    if (move) tsx_check(n == nullptr, "a moved expression is empty afterwards");
    else tsx_check(n->Equal(build(t)), "the original is left as it was");
    // the result shares nothing with its arguments
    n = nullptr;
    got->CheckParent();
    tsx_check(got->Equal(build(want)), "the result does not depend on the original");
}
