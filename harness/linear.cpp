// C22, C23: linear systems.  Coefficients are small integers chosen by the engine or symbolic reals, right-hand sides are
// symbolic reals.  The reference decides rank and consistency by fraction-free elimination; quantities the solver compares with
// the tolerance are assumed to be zero or clearly away from it.
#include "gen.h"
using namespace tomsolver;

static const int N = 10;
static double wide = 1; // minors are products of entries up to this
static double a[N][N + 1], w[N][N + 1];
static bool larger; // the concrete matrices of pattern(): eliminate with quotients

// zero or clearly not (one assumption, without deciding which)
static double clear = 0.001;
static void away(double v, double scale = 1) {
    int z = v == 0, p = v >= clear * scale, n = v <= -clear * scale;
    tsx_assume(z | p | n);
}
static void within(double v, double m) {
    int p = v <= m, n = v >= -m;
    tsx_assume(p & n);
}
// every minor of the coefficients is zero or clearly not: so are the pivots of any elimination
static void minors(int r, int c) {
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) away(a[i][j]);
    for (int i = 0; i < r; i++) for (int k = i + 1; k < r; k++)
        for (int j = 0; j < c; j++) for (int l = j + 1; l < c; l++) away(a[i][j] * a[k][l] - a[i][l] * a[k][j], wide);
    if (r >= 3)
        for (int j = 0; j < c; j++) for (int l = j + 1; l < c; l++) for (int m = l + 1; m < c; m++)
            away(a[0][j] * (a[1][l] * a[2][m] - a[1][m] * a[2][l]) - a[0][l] * (a[1][j] * a[2][m] - a[1][m] * a[2][j]) + a[0][m] * (a[1][j] * a[2][l] - a[1][l] * a[2][j]));
}
// rank of the coefficients; consistent: no leftover right-hand side
static int reference(int r, int c, bool &consistent) {
    for (int i = 0; i < r; i++) for (int j = 0; j <= c; j++) w[i][j] = a[i][j];
    int y = 0;
    for (int x = 0; x < c && y < r; x++) {
        int p = -1;
        for (int i = y; i < r && p < 0; i++) {
            if (w[i][x] != 0) p = i;
        }
        if (p < 0) continue;
        for (int j = 0; j <= c; j++) { double t = w[y][j]; w[y][j] = w[p][j]; w[p][j] = t; }
        for (int i = y + 1; i < r; i++) {
            double f = w[i][x], g = w[y][x];
            if (tsx_is_const(f) && f == 0) continue;
            for (int j = x; j <= c; j++) w[i][j] = larger ? w[i][j] - w[y][j] * f / g : w[i][j] * g - w[y][j] * f;
            w[i][x] = 0;
        }
        y++;
    }
    consistent = true;
    for (int i = y; i < r; i++) {
        away(w[i][c], wide);
        if (w[i][c] != 0) consistent = false;
    }
    return y;
}

// A larger concrete matrix: unit lower triangular times echelon form with "drop" zero rows, rows and columns shuffled.
static void pattern(int r, int c, int drop, int seed) {
    unsigned x = 12345u + 977u * seed;
    double L[N][N], U[N][N];
    auto rnd = [&](int lo, int hi) { x = x * 1103515245u + 12345u; return lo + (int)(x >> 16 & 0x7fff) % (hi - lo + 1); };
    int rank = (r < c ? r : c) - drop, shift = rnd(0, c - 1);
    for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) L[i][j] = i == j ? 1 : i > j ? rnd(-1, 1) : 0;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) U[i][j] = i >= rank ? 0 : i == j ? 1 : j > i ? rnd(-1, 1) : 0;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
        double v = 0;
        for (int k = 0; k < r; k++) v += L[i][k] * U[k][j];
        a[(i + seed) % r][seed % 2 ? c - 1 - j : (j + shift) % c] = v;
    }
}

extern "C" void harness_main() {
    int r = tsx_param("r", 2), c = tsx_param("c", 2), lo = tsx_param("lo", -1), hi = tsx_param("hi", 1);
    int what = tsx_param("what", 22), sym = tsx_param("sym", 0), symrow = tsx_param("symrow", -1), symcol = tsx_param("symcol", -1), bconst = tsx_param("bconst", 0), free = tsx_param("free", 9);
    int pat = tsx_param("pat", 0);
    larger = pat > 0;
    if (pat) {
        int drop = tsx_choice("drop", 3), seed = tsx_choice("pattern", pat);
        pattern(r, c, drop, seed);
    } else for (int i = 0; i < r; i++)
        for (int j = 0; j < c; j++) {
            double v;
            if (sym || (i == symrow && (symcol < 0 || j == symcol))) {
                v = tsx_double("a");
                within(v, 8);
            } else {
                int h = i < free ? hi : 1;
                int l = i < free ? lo : 0;
                v = l + tsx_choice("k", h - l + 1);
            }
            a[i][j] = v;
        }
    for (int i = 0; i < r; i++) {
        if (bconst) { a[i][c] = bconst == 1 ? tsx_choice("kb", 2) : i + 1; continue; }
        a[i][c] = tsx_double("b");
        within(a[i][c], 8);
    }
    if (int e = tsx_param("eps", 0)) { // a large tolerance, in hundredths
        Config::Get().epsilon = e / 100.0;
        clear = e / 50.0;
        wide = 8;
    }
    if (sym || symrow >= 0) minors(r, c);
    // (symbolic without a fork: only systems with more unknowns than equations may depend on the setting)
    bool allow = r < c ? tsx_choice("allow", 2) == 1 : (tsx_byte("allowed") & 1) == 1, consistent = true;
    Config::Get().allowIndeterminateEquation = allow;
    int rank = 0;
    if (r <= c) rank = reference(r, c, consistent);
    Mat A(r, c);
    Vec b(r);
    for (int i = 0; i < r; i++) {
        b[i] = a[i][c];
        for (int j = 0; j < c; j++) A.Value(i, j) = a[i][j];
    }
    int got = -1; // kind of error
    try {
        Vec x = SolveLinear(A, b);
        tsx_cover("solved");
        if (what == 22) {
            tsx_check(x.Rows() == c && x.Cols() == 1, "one entry per unknown");
            for (int i = 0; i < r; i++) {
                double s = a[i][0] * x[0];
                for (int j = 1; j < c; j++) s = s + a[i][j] * x[j];
                tsx_check(tsx_same(s, a[i][c]), "the equation holds");
            }
        }
    } catch (const MathError &e) {
        got = (int)e.GetErrorType();
    }
    if (what == 22) {
        for (int i = 0; i < r; i++) {
            tsx_check(tsx_same(b[i], a[i][c]), "right-hand side unchanged");
            for (int j = 0; j < c; j++) tsx_check(tsx_same(A.Value(i, j), a[i][j]), "coefficients unchanged");
        }
        return;
    }
    int want = -1;
    const char *cv = "solvable";
    if (r > c) { want = (int)ErrorType::ERROR_OVER_DETERMINED_EQUATIONS; cv = "over"; }
    else if (!consistent) { want = (int)ErrorType::ERROR_SINGULAR_MATRIX; cv = "inconsistent"; }
    else if (r == c && rank < c) { want = (int)ErrorType::ERROR_INFINITY_SOLUTIONS; cv = "infinite"; }
    else if (r < c && !allow) { want = (int)ErrorType::ERROR_INDETERMINATE_EQUATION; cv = "indeterminate"; }
    tsx_cover(cv);
    tsx_check(got == want, "the kind of system is reported as it is");
}
