// C19-C21: matrices with symbolic entries; every operation against its definition, entry by entry.
//   what 0 construction, 1 entrywise arithmetic, 2 product, 3 transpose, swaps, rows and columns, 4 resizing and filling, 5 text,
//        6 norms and products of vectors (real), 7 comparisons (fp), 8 row of the largest magnitude, minimum, conversion (fp),
//        9 determinant, 10 adjugate, 11 inverse, 12 positive definiteness
#include "gen.h"
#include <sstream>
using namespace tomsolver;

static const int MAXN = 40;
struct G { // reference matrix
    int r, c;
    double a[MAXN][MAXN];
};
static G fresh(int r, int c, const char *name) {
    G g;
    if (tsx_param("special", 0)) { // zero, one, infinities and NaN: sums of products do not depend on their order
        static const double k[] = {0, 1, HUGE_VAL, -HUGE_VAL, NAN};
        g.r = r; g.c = c;
        for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) g.a[i][j] = k[tsx_choice(name, 5)];
        return g;
    }
    g.r = r; g.c = c;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) g.a[i][j] = tsx_double(name);
    return g;
}
static Mat make(const G &g) {
    Mat m(g.r, g.c);
    for (int i = 0; i < g.r; i++) for (int j = 0; j < g.c; j++) m.Value(i, j) = g.a[i][j];
    return m;
}
static Vec makeV(const G &g) {
    Vec v(g.r);
    for (int i = 0; i < g.r; i++) v[i] = g.a[i][0];
    return v;
}
static void same(const Mat &m, const G &g, const char *msg) {
    tsx_check(m.Rows() == g.r, "the number of rows");
    tsx_check(m.Cols() == g.c, "the number of columns");
    for (int i = 0; i < g.r; i++) for (int j = 0; j < g.c; j++) tsx_check(tsx_same(m.Value(i, j), g.a[i][j]), msg);
}

static void construct(int r, int c) {
    double v = tsx_double("v");
    G g;
    g.r = r; g.c = c;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) g.a[i][j] = v;
    same(Mat(r, c, v), g, "filled with the initial value");
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) g.a[i][j] = 0;
    same(Mat(r, c), g, "zero without an initial value");
    G h = fresh(r, c, "a");
    std::valarray<double> d(r * c);
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) d[i * c + j] = h.a[i][j];
    Mat m(r, c, d);
    same(m, h, "row by row from an array");
    const Mat &cm = m;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) tsx_check(tsx_same(cm.Value(i, j), h.a[i][j]), "element access");
    m.Value(r - 1, 0) = v;
    h.a[r - 1][0] = v;
    same(m, h, "element assignment changes only that element");
    Mat k(m);
    k.Value(0, c - 1) = v + 1;
    same(m, h, "a copy is independent");
    if (c == 1) {
        Vec x(r, v);
        for (int i = 0; i < r; i++) g.a[i][0] = v;
        same(x, g, "a vector filled with the initial value");
        for (int i = 0; i < r; i++) g.a[i][0] = 0;
        same(Vec(r), g, "a vector is zero without an initial value");
        std::valarray<double> e(r);
        for (int i = 0; i < r; i++) e[i] = h.a[i][0];
        Vec y(e);
        same(y, h, "a vector from an array");
        const Vec &cy = y;
        for (int i = 0; i < r; i++) tsx_check(tsx_same(cy[i], h.a[i][0]), "vector element access");
        same(y.AsMat(), h, "a vector as a matrix");
    }
}
static void lists(int which) {
    double a = tsx_double("a"), b = tsx_double("b"), c = tsx_double("c"), d = tsx_double("d"), e = tsx_double("e"), f = tsx_double("f");
    switch (which) {
    case 0: same(Mat{{a}}, G{1, 1, {{a}}}, "list"); break;
    case 1: same(Mat{{a, b}, {c, d}}, G{2, 2, {{a, b}, {c, d}}}, "list"); break;
    case 2: same(Mat{{a, b}, {c}}, G{2, 2, {{a, b}, {c, 0}}}, "list with a short last row"); break;
    case 3: same(Mat{{a}, {b, c}}, G{2, 2, {{a, 0}, {b, c}}}, "list with a short first row"); break;
    case 4: same(Mat{{a}, {b, c, d}, {e, f}}, G{3, 3, {{a, 0, 0}, {b, c, d}, {e, f, 0}}}, "list with short rows"); break;
    case 5: same(Mat{{a, b, c}, {d}, {e, f}}, G{3, 3, {{a, b, c}, {d, 0, 0}, {e, f, 0}}}, "list with short rows"); break;
    case 6: same(Mat{{a, b, c, d}}, G{1, 4, {{a, b, c, d}}}, "list of one row"); break;
    case 7: same(Mat{{a}, {b}, {c}}, G{3, 1, {{a}, {b}, {c}}}, "list of one column"); break;
    case 8: same(Mat{{a, b}, {c, d}, {e, f}}, G{3, 2, {{a, b}, {c, d}, {e, f}}}, "list"); break;
    case 9: same(Mat{{a, b, c}, {d, e, f}}, G{2, 3, {{a, b, c}, {d, e, f}}}, "list"); break;
    case 10: same(Vec{a, b, c}, G{3, 1, {{a}, {b}, {c}}}, "list"); break;
    case 11: same(Vec{a}, G{1, 1, {{a}}}, "list"); break;
    case 12: same(Mat{{}, {a, b}, {c}}, G{3, 2, {{0, 0}, {a, b}, {c, 0}}}, "list with an empty row"); break;
    default: same(Mat{{a, b}, {}}, G{2, 2, {{a, b}, {0, 0}}}, "list with an empty row"); break;
    }
}
static void entrywise(int r, int c) {
    G a = fresh(r, c, "a"), b = fresh(r, c, "b"), s, d, n, k;
    double f = tsx_double("f");
    s = d = n = k = a;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
        s.a[i][j] = a.a[i][j] + b.a[i][j];
        d.a[i][j] = a.a[i][j] - b.a[i][j];
        n.a[i][j] = -a.a[i][j];
        k.a[i][j] = a.a[i][j] * f;
    }
    Mat A = make(a), B = make(b);
    const Mat &cA = A;
    same(cA + B, s, "sum");
    same(cA - B, d, "difference");
    same(-A, n, "negation");
    same(cA * f, k, "product with a number");
    same(f * cA, k, "product with a number from the left");
    same(A, a, "operand unchanged");
    same(B, b, "operand unchanged");
    A += B;
    same(A, s, "sum in place");
    same(B, b, "operand unchanged");
    if (c == 1) {
        Vec x = makeV(a), y = makeV(b);
        same(x + y, s, "sum of vectors");
        same(x - y, d, "difference of vectors");
        same(-x, n, "negation of a vector");
        same(x * f, k, "product of a vector with a number");
        same(f * x, k, "product of a number with a vector");
        same(x, a, "operand unchanged");
        same(y, b, "operand unchanged");
        x += y;
        same(x, s, "sum of vectors in place");
    }
    A = make(a);
    A += A;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) s.a[i][j] = a.a[i][j] + a.a[i][j];
    same(A, s, "sum with itself in place");
}
static void product(int r, int k, int c) {
    G a = fresh(r, k, "a"), b = fresh(k, c, "b"), p;
    p.r = r; p.c = c;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
        double v = a.a[i][0] * b.a[0][j];
        for (int l = 1; l < k; l++) v = v + a.a[i][l] * b.a[l][j];
        p.a[i][j] = v;
    }
    Mat A = make(a), B = make(b);
    same(A * B, p, "product");
    same(A, a, "operand unchanged");
    same(B, b, "operand unchanged");
    if (c == 1) {
        Vec x = makeV(b);
        same(A * x, p, "product with a vector");
    }
}
static void moveAround(int r, int c) {
    G a = fresh(r, c, "a"), t;
    Mat A = make(a);
    const Mat &cA = A;
    t.r = c; t.c = r;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) t.a[j][i] = a.a[i][j];
    same(cA.Transpose(), t, "transpose");
    same(A, a, "operand unchanged");
    int what = tsx_choice("what", 6);
    if (what == 0) {
        int i = tsx_choice("i", r), k = tsx_choice("k", r);
        A.SwapRow(i, k);
        G s = a;
        for (int j = 0; j < c; j++) { s.a[i][j] = a.a[k][j]; s.a[k][j] = a.a[i][j]; }
        same(A, s, "rows swapped");
    } else if (what == 1) {
        int i = tsx_choice("i", c), k = tsx_choice("k", c);
        A.SwapCol(i, k);
        G s = a;
        for (int j = 0; j < r; j++) { s.a[j][i] = a.a[j][k]; s.a[j][k] = a.a[j][i]; }
        same(A, s, "columns swapped");
    } else if (what == 2) {
        int i = tsx_choice("i", r), o = tsx_choice("o", c);
        std::valarray<double> v = cA.Row(i, o), w = A.Row(i, o);
        tsx_check((int)v.size() == c - o && (int)w.size() == c - o, "length of a row");
        for (int j = o; j < c; j++) { tsx_check(tsx_same(v[j - o], a.a[i][j]), "row"); tsx_check(tsx_same(w[j - o], a.a[i][j]), "row"); }
    } else if (what == 3) {
        int j = tsx_choice("j", c), o = tsx_choice("o", r);
        std::valarray<double> v = cA.Col(j, o), w = A.Col(j, o);
        tsx_check((int)v.size() == r - o && (int)w.size() == r - o, "length of a column");
        for (int i = o; i < r; i++) { tsx_check(tsx_same(v[i - o], a.a[i][j]), "column"); tsx_check(tsx_same(w[i - o], a.a[i][j]), "column"); }
    } else if (what == 4) {
        int i = tsx_choice("i", r), o = tsx_choice("o", c);
        double v = tsx_double("v");
        A.Row(i, o) = v;
        G s = a;
        for (int j = o; j < c; j++) s.a[i][j] = v;
        same(A, s, "assignment to a row");
    } else {
        int j = tsx_choice("j", c), o = tsx_choice("o", r);
        std::valarray<double> v(r - o);
        for (int i = o; i < r; i++) v[i - o] = tsx_double("v");
        A.Col(j, o) += v;
        G s = a;
        for (int i = o; i < r; i++) s.a[i][j] = a.a[i][j] + v[i - o];
        same(A, s, "addition to a column");
    }
}
static void resize(int r, int c) {
    G a = fresh(r, c, "a");
    Mat A = make(a);
    int what = tsx_choice("what", r == c ? 4 : 3);
    G s = a;
    if (what == 0) {
        int nr = 1 + tsx_choice("rows", 4), nc = 1 + tsx_choice("cols", 4);
        A.Resize(nr, nc);
        s.r = nr; s.c = nc;
        for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) s.a[i][j] = i < r && j < c ? a.a[i][j] : 0;
        same(A, s, "resizing keeps the common part and fills up with zeros");
        if (c == 1) {
            Vec x = makeV(a);
            x.Resize(nr);
            s.c = 1;
            same(x, s, "resizing a vector");
        }
    } else if (what == 1) {
        Mat &z = A.Zero();
        for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) s.a[i][j] = 0;
        same(A, s, "all zeros");
        tsx_check(&z == &A, "returns the matrix itself");
    } else if (what == 2) {
        double v = tsx_double("v");
        A.SetValue(v);
        for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) s.a[i][j] = v;
        same(A, s, "filled");
    } else {
        Mat &z = A.Ones();
        for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) s.a[i][j] = i == j;
        same(A, s, "the identity");
        tsx_check(&z == &A, "returns the matrix itself");
    }
}
static void text(int r, int c) {
    Mat A(r, c);
    std::string want = "[";
    static const double num[4] = {0, 1, -2.5, 100};
    static const char *txt[4] = {"0", "1", "-2.5", "100"};
    int first = tsx_choice("first", 4);
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
        int k = (first + 3 * i + j) % 4;
        A.Value(i, j) = num[k];
        if (i || j) want += " ";
        want += txt[k];
        want += j < c - 1 ? ", " : i < r - 1 ? "\n" : "]\n";
    }
    std::string s = A.ToString(), w2, s2;
    for (char ch : want) if (ch != ' ') w2 += ch;
    for (char ch : s) if (ch != ' ') s2 += ch;
    tsx_check(s2 == w2, "the text of a matrix lists the entries row by row");
    std::ostringstream os;
    os << A;
    tsx_check(os.str() == s, "streaming prints the same text");
}
static void norms(int r, int c) {
    G a = fresh(r, c, "a"), b = fresh(r, c, "b");
    Mat A = make(a), B = make(b);
    double s = 0;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) s = s + a.a[i][j] * a.a[i][j];
    tsx_check(tsx_same(A.Norm2(), s), "sum of the squares");
    int what = tsx_choice("what", 2);
    if (what == 0) {
        for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) tsx_assume(b.a[i][j] != 0);
        G q = a;
        for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) q.a[i][j] = a.a[i][j] / b.a[i][j];
        same(EachDivide(A, B), q, "entry by entry quotient");
        if (c == 1) same(makeV(a) / makeV(b), q, "quotient of vectors");
    } else if (c == 1) {
        Vec x = makeV(a), y = makeV(b);
        double d = 0;
        G q = a;
        for (int i = 0; i < r; i++) { q.a[i][0] = a.a[i][0] * b.a[i][0]; d = d + q.a[i][0]; }
        tsx_check(tsx_same(Dot(x, y), d), "dot product");
        same(x * y, q, "product of vectors");
        same(x, a, "operand unchanged");
        same(y, b, "operand unchanged");
    }
    same(A, a, "operand unchanged");
    same(B, b, "operand unchanged");
}
static void compare(int r, int c) {
    double eps = tsx_double("eps");
    tsx_assume(eps >= 0);
    Config::Get().epsilon = eps;
    G a = fresh(r, c, "a");
    Mat A = make(a);
    int what = tsx_choice("what", 4);
    if (what == 0) {
        bool z = true;
        for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) z &= std::fabs(a.a[i][j]) <= eps;
        tsx_check(IsZero(A) == z, "zero: no magnitude above the tolerance");
        tsx_cover(z ? "zero" : "not zero");
    } else if (what == 1) {
        double v = tsx_double("v");
        bool z = true;
        for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) z &= std::fabs(a.a[i][j] - v) < eps;
        tsx_check((A == v) == z, "equal to a number: every difference below the tolerance");
    } else {
        G b = fresh(r, c, "b");
        Mat B = make(b);
        if (what == 2) {
            bool z = true;
            for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) z &= std::fabs(a.a[i][j] - b.a[i][j]) < eps;
            tsx_check((A == B) == z, "equal: every difference below the tolerance");
            tsx_cover(z ? "equal" : "not equal");
        } else {
            bool z = true;
            for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) z &= a.a[i][j] < b.a[i][j];
            tsx_check(AllIsLessThan(A, B) == z, "less: every entry is less");
            tsx_cover(z ? "less" : "not less");
            if (c == 1) {
                Vec x = makeV(a), y = makeV(b);
                tsx_check((x < y) == z, "less: every entry of the vector is less");
            }
        }
    }
    same(A, a, "operand unchanged");
}
static void extrema(int r, int c) {
    G a = fresh(r, c, "a");
    Mat A = make(a);
    int what = tsx_choice("what", 4);
    if (what == 0) {
        int j = tsx_choice("j", c), s = tsx_choice("s", r), e = s + tsx_choice("e", r - s);
        int k = GetMaxAbsRowIndex(A, s, e, j);
        tsx_check(k >= s && k <= e, "a row of the range");
        for (int i = s; i <= e; i++) tsx_assume(a.a[i][j] == a.a[i][j]);
        for (int i = s; i <= e; i++) tsx_check(std::fabs(a.a[i][j]) <= std::fabs(a.a[k][j]), "no row of the range has a larger magnitude");
        return;
    }
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) tsx_assume(a.a[i][j] == a.a[i][j]);
    if (what == 1) {
        double v = A.Min();
        bool is = false, le = true;
        for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { is |= v == a.a[i][j]; le &= v <= a.a[i][j]; }
        tsx_check(is && le, "minimum");
    } else if (what == 2) {
        double v = A.NormInfinity(), w = A.NormNegInfinity();
        bool is = false, le = true, is2 = false, le2 = true;
        for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
            double m = std::fabs(a.a[i][j]);
            is |= v == m; le &= v >= m; is2 |= w == m; le2 &= w <= m;
        }
        tsx_check(is && le, "largest magnitude");
        tsx_check(is2 && le2, "smallest magnitude");
    } else {
        try {
            Vec v = A.ToVec();
            tsx_check(c == 1, "only one column converts to a vector");
            same(v, a, "conversion to a vector");
            tsx_cover("vector");
        } catch (const std::runtime_error &) {
            tsx_check(c != 1, "one column converts to a vector");
            tsx_cover("no vector");
        }
    }
    same(A, a, "operand unchanged");
}
// Leibniz formula over the rows/columns not yet used
static double leibniz(const G &a, int n, int row, unsigned used) {
    if (row == n) return 1;
    double s = 0;
    int sign = 1;
    for (int j = 0; j < n; j++) {
        if (used >> j & 1) continue;
        double d = leibniz(a, n, row + 1, used | 1u << j) * a.a[row][j];
        s = sign > 0 ? s + d : s - d;
        sign = -sign;
    }
    return s;
}
static void square(int what, int n) {
    G a = fresh(n, n, "a");
    int free = tsx_param("free", n * n); // all but "free" entries are fixed numbers
    static const double fix[16] = {2, -1, 3, 1, 1, 4, -2, 1, 5, -3, 2, 2, 1, 1, -1, 3};
    if (free < n * n)
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if ((i * n + j) * tsx_param("stride", 1) % (n * n) >= free) a.a[i][j] = fix[(i * n + j) % 16];
    Mat A = make(a);
    double d = leibniz(a, n, 0, 0);
    if (what == 9) {
        tsx_check(tsx_same(Det(A, n), d), "determinant");
        if (n > 1) { // leading minor of a larger matrix
            int m = 1 + tsx_choice("m", n - 1);
            tsx_check(tsx_same(Det(A, m), leibniz(a, m, 0, 0)), "leading minor");
        }
    } else if (what == 10) {
        Mat C(n, n, 7);
        Adjoint(A, C);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
            double s = 0, t = 0;
            for (int k = 0; k < n; k++) { s = s + a.a[i][k] * C.Value(k, j); t = t + C.Value(i, k) * a.a[k][j]; }
            tsx_check(tsx_same(s, i == j ? d : 0), "matrix times adjugate is the determinant times the identity");
            tsx_check(tsx_same(t, i == j ? d : 0), "adjugate times matrix is the determinant times the identity");
        }
    } else if (what == 11) {
        double eps = 1e-9;
        if (tsx_param("eps", 0)) {
            eps = tsx_double("eps");
            tsx_assume(eps >= 0);
            Config::Get().epsilon = eps;
        }
        try {
            Mat I = A.Inverse();
            tsx_cover("inverse");
            tsx_check(!(std::fabs(d) <= eps), "no inverse when the determinant's magnitude is at most the tolerance");
            tsx_check(I.Rows() == n && I.Cols() == n, "size of the inverse");
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
                double s = 0, t = 0;
                for (int k = 0; k < n; k++) { s = s + a.a[i][k] * I.Value(k, j); t = t + I.Value(i, k) * a.a[k][j]; }
                tsx_check(tsx_same(s, i == j ? 1 : 0), "matrix times inverse is the identity");
                tsx_check(tsx_same(t, i == j ? 1 : 0), "inverse times matrix is the identity");
            }
        } catch (const MathError &e) {
            tsx_cover("singular");
            tsx_check(std::fabs(d) <= eps, "an inverse when the determinant's magnitude is above the tolerance");
            tsx_check(e.GetErrorType() == ErrorType::ERROR_SINGULAR_MATRIX, "the singular-matrix error");
        }
    } else {
        bool p = A.PositiveDetermine(), w = true;
        for (int m = 1; m <= n; m++) w = w && leibniz(a, m, 0, 0) > 0;
        tsx_check(p == w, "positive definite exactly when all leading principal minors are positive");
        tsx_cover(p ? "positive" : "not positive");
    }
    same(A, a, "operand unchanged");
}

extern "C" void harness_main() {
    int what = tsx_param("what", 0), r = tsx_param("r", 2), c = tsx_param("c", 2), k = tsx_param("k", 2);
    int l = tsx_param("list", -1);
    if (l >= 0) return lists(l);
    switch (what) {
    case 0: construct(r, c); break;
    case 1: entrywise(r, c); break;
    case 2: product(r, k, c); break;
    case 3: moveAround(r, c); break;
    case 4: resize(r, c); break;
    case 5: text(r, c); break;
    case 6: norms(r, c); break;
    case 7: compare(r, c); break;
    case 8: extrema(r, c); break;
    default: square(what, r); break;
    }
}
