// C25, C26: matrices of expressions.
#include "gen.h"
#include <sstream>
using namespace tomsolver;
using namespace ref;

static Gen *g;
static double env[8];
static int vars;
struct S { // reference: expression trees and their values
    int r, c;
    R *t[40][40];
    double v[40][40];
};
// entry (i, j) gets an operator when it is the one the job asks for
static S fresh(int r, int c, int opAt) {
    S s;
    s.r = r; s.c = c;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
        // numbers that differ little, and numbers that are the same in short texts
        static const double near[] = {1.23456789e-10, 1.234567891e-10, 0.1, 0.10000000000000002, 3, 3.0000000000000004, 1e20, 1e20 + 16384, 0, 1e-320, -0.1};
        int only = tsx_param("only", -2); // the only place with a variable (-1: nowhere)
        R *t = only > -2 && i * c + j != opAt ? i * c + j == only ? var(0) : (i + j) % 3 ? bin(MathOperator::MATH_SUB, num(i * c), num(j * 0.5)) : num(i - j) : tsx_param("plain", 0) && i * c + j != opAt ? vars && (2 * i + j) % 3 == 0 ? var((i + j) % vars) : num(tsx_double("a")) // larger matrices
             : i + j == 0 && tsx_param("near", 0) ? num(near[tsx_choice("near", 11)]) : g->tree(i * c + j == opAt ? tsx_param("ops", 1) : 0);
        s.t[i][j] = t;
        bool bad = false;
        s.v[i][j] = eval(t, env, bad);
        if (bad) tsx_outside("no value");
    }
    return s;
}
static SymMat make(const S &s) {
    SymMat m(s.r, s.c);
    for (int i = 0; i < s.r; i++) for (int j = 0; j < s.c; j++) m.Value(i, j) = build(s.t[i][j]);
    return m;
}
static SymVec makeV(const S &s) {
    SymVec m(s.r);
    for (int i = 0; i < s.r; i++) m[i] = build(s.t[i][0]);
    return m;
}
static void unchanged(const SymMat &m, const S &s) {
    tsx_check(m.Rows() == s.r && m.Cols() == s.c, "size unchanged");
    for (int i = 0; i < s.r; i++) for (int j = 0; j < s.c; j++) {
        tsx_check(m.Value(i, j)->Equal(build(s.t[i][j])), "entries unchanged");
        m.Value(i, j)->CheckParent();
    }
}
static std::map<std::string, double> table() {
    std::map<std::string, double> m;
    for (int i = 0; i < vars; i++) m[varName(i)] = env[i];
    return m;
}
// the matrix with all variables replaced evaluates, entry by entry, to v
static void values(const SymMat &m, int r, int c, const double (*v)[40], const char *msg) {
    tsx_check(m.Rows() == r && m.Cols() == c, "the size of the result");
    SymMat k = m.Clone();
    if (vars && tsx_choice("table", 2)) k.Subs(VarsTable(table()));
    else k.Subs(table());
    Mat x = k.Calc().ToMat();
    tsx_check(x.Rows() == r && x.Cols() == c, "the size of the evaluated result");
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) tsx_check(tsx_same(x.Value(i, j), v[i][j]), msg);
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m.Value(i, j)->CheckParent();
}

static void product(int r, int k, int c) {
    S a = fresh(r, k, tsx_param("opa", -1)), b = fresh(k, c, tsx_param("opb", -1));
    SymMat A = make(a), B = make(b);
    SymMat P = A * B;
    double v[40][40];
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
        double s = a.v[i][0] * b.v[0][j];
        for (int l = 1; l < k; l++) s = s + a.v[i][l] * b.v[l][j];
        v[i][j] = s;
    }
    values(P, r, c, v, "the value of an entry of the product");
    unchanged(A, a);
    unchanged(B, b);
}
static void mismatch(int r, int k, int k2, int c) {
    S a = fresh(r, k, -1), b = fresh(k2, c, -1);
    SymMat A = make(a), B = make(b);
    bool threw = false;
    try {
        SymMat P = A * B;
    } catch (const MathError &e) {
        threw = e.GetErrorType() == ErrorType::SIZE_NOT_MATCH;
    }
    tsx_check(threw == (k != k2), "a product of matrices that do not fit throws");
    unchanged(A, a);
    unchanged(B, b);
    tsx_cover(threw ? "mismatch" : "match");
}
static void difference(int r, int c) {
    S a = fresh(r, c, tsx_param("opa", -1)), b = fresh(r, c, tsx_param("opb", -1));
    double v[40][40];
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) v[i][j] = a.v[i][j] - b.v[i][j];
    SymMat A = make(a), B = make(b);
    if (c == 1 && tsx_choice("vector", 2)) {
        SymVec x = makeV(a), y = makeV(b);
        SymVec d = x - y;
        values(d, r, 1, v, "the value of an entry of the difference of vectors");
        unchanged(x, a);
        unchanged(y, b);
        return;
    }
    values(A - B, r, c, v, "the value of an entry of the difference");
    unchanged(A, a);
    unchanged(B, b);
}
static void evaluate(int r, int c) {
    S a = fresh(r, c, tsx_param("opa", -1));
    SymMat A = make(a);
    values(A, r, c, a.v, "the value of an entry");
    unchanged(A, a);
    bool any = false, number = true;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { any |= hasVar(a.t[i][j]); number &= a.t[i][j]->k == NUM; }
    bool threw = false;
    try {
        Mat m = A.ToMat();
        for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) tsx_check(tsx_same(m.Value(i, j), a.v[i][j]), "conversion of numbers");
    } catch (const std::runtime_error &) { threw = true; }
    tsx_check(threw == !number, "conversion to numbers works exactly when every entry is a number");
    tsx_cover(threw ? "not numbers" : "numbers");
    unchanged(A, a);
    threw = false;
    try {
        A.Calc();
    } catch (const std::runtime_error &) { threw = true; }
    tsx_check(threw == any, "evaluation works exactly when no entry has a variable");
    if (!any)
        for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) tsx_check(A.Value(i, j)->Equal(Num(a.v[i][j])), "evaluation in place");
    // replacing only one of the variables
    if (vars == 2) {
        SymMat B = make(a);
        std::map<std::string, double> part;
        part[varName(1)] = env[1];
        B.Subs(part);
        for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
            auto names = B.Value(i, j)->GetAllVarNames();
            tsx_check(names.count(varName(1)) == 0, "no replaced variable is left");
            tsx_check(names == [&] { auto n = build(a.t[i][j])->GetAllVarNames(); n.erase(varName(1)); return n; }(), "the other variables are left");
        }
        values(B, r, c, a.v, "replacing in two steps");
    }
}
// replacing and evaluating where entries need not have a value: the same as entry by entry
static void invalid(int r, int c) {
    Config::Get().throwOnInvalidValue = tsx_choice("throw", 2);
    S a;
    a.r = r; a.c = c;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) a.t[i][j] = g->tree(i * c + j == tsx_param("opa", 0) ? tsx_param("ops", 2) : 0);
    SymMat A = make(a);
    if (tsx_choice("table", 2)) A.Subs(VarsTable(table()));
    else A.Subs(table());
    bool wrong = false, mathErr = false;
    double want[40][40];
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
        Node e = Subs(build(a.t[i][j]), table());
        tsx_check(A.Value(i, j)->Equal(e), "replacing in a matrix is replacing in every entry");
        A.Value(i, j)->CheckParent();
        try {
            want[i][j] = e->Vpa();
        } catch (const std::runtime_error &) { wrong = true; want[i][j] = 0; }
    }
    try {
        A.Calc();
    } catch (const std::runtime_error &) { mathErr = true; }
    tsx_check(mathErr == wrong, "evaluation of a matrix fails exactly when an entry's does");
    if (!wrong) {
        Mat x = A.ToMat();
        for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) tsx_check(tsx_same(x.Value(i, j), want[i][j]), "the value of an entry, number or not");
    }
    tsx_cover(wrong ? "no value" : "value");
}
static void copies(int r, int c) {
    S a = fresh(r, c, tsx_param("opa", -1));
    SymMat A = make(a);
    tsx_check(!A.Empty(), "not empty");
    SymMat K = A.Clone();
    unchanged(K, a);
    tsx_check(A == K && K == A, "a copy is equal");
    int i = tsx_choice("i", r), j = tsx_choice("j", c);
    K.Value(i, j) = Num(4) * Move(K.Value(i, j));
    tsx_check(!(A == K), "not equal after a change of one entry");
    unchanged(A, a);
    bool threw = false;
    try {
        SymVec v = A.ToSymVec();
        unchanged(v, a);
        v[0] = Num(1);
    } catch (const std::runtime_error &) { threw = true; }
    tsx_check(threw == (c != 1), "conversion to a vector works exactly for one column");
    unchanged(A, a);
    SymVec w = A.ToSymVecOneByOne();
    tsx_check(w.Rows() == r * c && w.Cols() == 1, "one by one: size");
    for (int x = 0; x < r; x++) for (int y = 0; y < c; y++) {
        const SymVec &cw = w;
        tsx_check(cw[x * c + y]->Equal(build(a.t[x][y])), "one by one: row by row");
    }
    w[0] = Var("changed");
    unchanged(A, a);
    SymMat B(std::move(w));
    tsx_check(B.Rows() == r * c, "moved");
}
static void equality(int r, int c) {
    S a = fresh(r, c, tsx_param("opa", -1)), b = fresh(r, c, tsx_param("opb", -1));
    SymMat A = make(a), B = make(b);
    bool same = true;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) same = same && A.Value(i, j)->Equal(B.Value(i, j));
    tsx_check((A == B) == same && (B == A) == same, "equal exactly when all entries are");
    tsx_cover(same ? "equal" : "not equal");
    S k = a;
    if (r != c) { // other size, same number of entries
        SymMat T(c, r);
        for (int i = 0; i < r * c; i++) T.Value(i / r, i % r) = build(a.t[i / c][i % c]);
        tsx_check(!(A == T) && !(T == A), "matrices of different size are not equal");
    }
    SymMat L(r + 1, c);
    for (int i = 0; i <= r; i++) for (int j = 0; j < c; j++) L.Value(i, j) = build(a.t[i % r][j]);
    tsx_check(!(A == L) && !(L == A), "matrices of different size are not equal");
}
static void lists(int which) {
    double p[6];
    for (double &d : p) d = tsx_double("a");
    R *x = var(0), *z = num(0), *q[6];
    for (int i = 0; i < 6; i++) q[i] = num(p[i]);
    q[1] = x;
    auto chk = [&](const SymMat &m, int r, int c, std::vector<R *> w) {
        tsx_check(m.Rows() == r && m.Cols() == c, "size of a matrix from a list");
        for (int i = 0; i < r * c; i++) {
            tsx_check(m.Value(i / c, i % c)->Equal(build(w[i])), "entries of a matrix from a list");
            m.Value(i / c, i % c)->CheckParent();
        }
    };
    switch (which) {
    case 0: chk(SymMat{{Num(p[0]), Var("x")}, {Num(p[2])}}, 2, 2, {q[0], x, q[2], z}); break;
    case 1: chk(SymMat{{Num(p[0])}, {Var("x"), Num(p[2]), Num(p[3])}}, 2, 3, {q[0], z, z, x, q[2], q[3]}); break;
    case 2: chk(SymVec{Num(p[0]), Var("x"), Num(p[2])}, 3, 1, {q[0], x, q[2]}); break;
    case 3: {
        Mat m(2, 3);
        for (int i = 0; i < 6; i++) m.Value(i / 3, i % 3) = p[i];
        q[1] = num(p[1]);
        chk(SymMat(m), 2, 3, {q[0], q[1], q[2], q[3], q[4], q[5]});
        for (int i = 0; i < 6; i++) tsx_check(tsx_same(m.Value(i / 3, i % 3), p[i]), "operand unchanged");
        break;
    }
    case 4: {
        Mat m(3, 2);
        for (int i = 0; i < 6; i++) m.Value(i / 2, i % 2) = p[i];
        Mat b = SymMat(m).ToMat();
        for (int i = 0; i < 6; i++) tsx_check(tsx_same(b.Value(i / 2, i % 2), p[i]), "there and back");
        break;
    }
    case 5: {
        SymMat m(2, 2);
        for (int i = 0; i < 4; i++) m.Value(i / 2, i % 2) = i == 1 ? Var("x") : Num(i + 1);
        std::string s, t = m.ToString();
        for (char ch : t) if (ch != ' ') s += ch;
        tsx_check(s == "[1,x\n3,4]\n", "the text lists the entries row by row");
        std::ostringstream os;
        os << m;
        tsx_check(os.str() == t, "streaming prints the same text");
        break;
    }
    default: chk(SymMat{{Num(p[0]), Var("x"), Num(p[2])}}, 1, 3, {q[0], x, q[2]});
    }
}
static bool hasInteger(const R *t) {
    if (t->k == UN) return hasInteger(t->l);
    if (t->k != BIN) return false;
    if (t->op == MathOperator::MATH_AND || t->op == MathOperator::MATH_OR || t->op == MathOperator::MATH_MOD) return true;
    return hasInteger(t->l) || hasInteger(t->r);
}
static void jacobian(int r, int nv) {
    S a;
    a.r = r; a.c = 1;
    bool integer = false;
    for (int i = 0; i < r; i++) {
        if (tsx_param("plain", 0) && i != tsx_param("opa", 0)) a.t[i][0] = bin(MathOperator::MATH_MULTIPLY, var(i % vars), bin(MathOperator::MATH_ADD, var((3 * i + 1) % vars), num(i)));
        else a.t[i][0] = g->tree(tsx_param("op0", 1) == 2 ? (i == tsx_param("opa", 0)) : 1);
        integer = integer || hasInteger(a.t[i][0]);
    }
    SymVec e = makeV(a);
    std::vector<std::string> names;
    int w[40];
    for (int j = 0; j < nv; j++) {
        w[j] = tsx_param("plain", 0) ? (5 * j + 2) % (vars + 1) : tsx_choice("wrt", vars + 1);
        names.push_back(varName(w[j]));
    }
    bool threw = false;
    SymMat J(1, 1);
    try {
        J = Jacobian(e, names);
    } catch (const MathError &) {
        tsx_check(0, "no mathematical error");
    } catch (const std::runtime_error &) { threw = true; }
    tsx_check(threw == (integer && nv > 0), "the Jacobian fails exactly when there is an operator that cannot be differentiated");
    unchanged(e, a);
    if (threw) { tsx_cover("refused"); return; }
    tsx_check(J.Rows() == r && J.Cols() == nv, "one row per equation, one column per variable");
    for (int i = 0; i < r; i++) for (int j = 0; j < nv; j++) {
        Node d = Diff(build(a.t[i][0]), varName(w[j]));
        J.Value(i, j)->CheckParent();
        if (J.Value(i, j)->Equal(d)) { tsx_cover("entry"); continue; }
        double x = 0, y = 0;
        bool no = false;
        try {
            y = Subs(d, table())->Vpa();
        } catch (const std::runtime_error &) { no = true; }
        if (no) continue;
        try {
            x = Subs(J.Value(i, j), table())->Vpa();
        } catch (const std::runtime_error &) { no = true; }
        tsx_check(!no && tsx_same(x, y), "the entry is the derivative of its equation with respect to its variable");
    }
}

extern "C" void harness_main() {
    int what = tsx_param("what", 0), r = tsx_param("r", 2), c = tsx_param("c", 2), k = tsx_param("k", 2);
    static Gen gen;
    g = &gen;
    vars = tsx_param("vars", 1);
    g->vars = vars;
    g->numbers = tsx_param("nums", 1);
    g->constants = tsx_param("consts", 0);
    for (int i = 0; i < vars; i++) {
        env[i] = tsx_double("x");
        if (!tsx_is_real()) { tsx_assume(env[i] >= -1.7976931348623157e308); tsx_assume(env[i] <= 1.7976931348623157e308); }
    }
    switch (what) {
    case 0: product(r, k, c); break;
    case 1: mismatch(r, k, tsx_param("k2", 1), c); break;
    case 2: difference(r, c); break;
    case 3: evaluate(r, c); break;
    case 4: copies(r, c); break;
    case 5: equality(r, c); break;
    case 8: invalid(r, c); break;
    case 6: lists(tsx_param("list", 0)); break;
    default: jacobian(r, c); break;
    }
}
