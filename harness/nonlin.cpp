// C27-C31: nonlinear solving.
//   what 27/28: a returned table solves the system (Newton / damped); 127: iteration limit of Newton; 29: affine systems;
//        30: dispatch and start values; 31: backtracking search; 131: secant search
#include "gen.h"
using namespace tomsolver;
using namespace ref;

static R *N(double v) { return num(v); }
static R *V(int i) { return var(i); }
static R *A(R *a, R *b) { return bin(MathOperator::MATH_ADD, a, b); }
static R *S(R *a, R *b) { return bin(MathOperator::MATH_SUB, a, b); }
static R *M(R *a, R *b) { return bin(MathOperator::MATH_MULTIPLY, a, b); }
static R *D(R *a, R *b) { return bin(MathOperator::MATH_DIVIDE, a, b); }
static R *P(R *a, double n) { return bin(MathOperator::MATH_POWER, a, N(n)); }
static R *U(MathOperator o, R *a) { return un(o, a); }

static double wide() { // bound of coefficients and start values
    double w = 10;
    for (int i = tsx_param("wide", 1); i > 1; i--) w = w * 10;
    return w;
}
static double coef(const char *n) {
    if (tsx_param("ccoef", tsx_param("concrete", 0))) {
        static const double k[4] = {1, -2, 0.5, 3};
        return k[tsx_choice(n, tsx_param("coefs", 2))];
    }
    double v = tsx_double(n), w = wide();
    tsx_assume(v >= -w);
    tsx_assume(v <= w);
    return v;
}
static double start(const char *n) {
    if (tsx_param("concrete", 0)) {
        static const double k[4] = {1, -0.5, 4, 0};
        return k[tsx_choice(n, tsx_param("starts", 4))];
    }
    if (tsx_param("zero", 0)) return 0;
    double v = tsx_double(n), w = wide();
    tsx_assume(v >= -w);
    tsx_assume(v <= w);
    return v;
}
static const int MAXU = 16;
struct Sys {
    int m, n; // equations, unknowns
    R *e[MAXU];
};
static Sys family(int f) {
    Sys s;
    s.m = s.n = 1;
    switch (f) {
    case 0: { double a = coef("a"), b = coef("b"); s.e[0] = A(M(N(a), V(0)), N(b)); break; }
    case 1: { double p = coef("p"), q = coef("q"); s.e[0] = A(A(P(V(0), 2), M(N(p), V(0))), N(q)); break; }
    case 2: { double a = coef("a"), b = coef("b"); s.m = s.n = 2; s.e[0] = S(A(V(0), M(N(a), V(1))), N(b)); s.e[1] = S(M(V(0), V(1)), N(coef("c"))); break; }
    case 3: s.e[0] = S(U(MathOperator::MATH_SIN, V(0)), N(coef("c"))); break;
    case 4: s.e[0] = S(P(V(0), 3), N(coef("c"))); break;
    case 5: s.n = 2; s.e[0] = S(A(V(0), V(1)), N(coef("c"))); break; // fewer equations than unknowns
    case 6: s.m = 2; s.e[0] = S(V(0), N(coef("c"))); s.e[1] = S(M(N(2), V(0)), N(coef("d"))); break; // more equations
    case 7: s.n = 1; s.e[0] = S(A(V(0), V(1)), N(1)); break; // a variable that is not in the table
    case 8: s.n = 2; s.m = 2; s.e[0] = S(V(0), N(coef("c"))); s.e[1] = S(M(N(2), V(0)), N(coef("d"))); break; // a variable that does not occur
    case 9: s.e[0] = S(U(MathOperator::MATH_EXP, V(0)), N(coef("c"))); break;
    case 10: s.e[0] = A(P(V(0), 2), N(1)); break; // no solution
    case 11: s.e[0] = S(D(N(1), V(0)), N(coef("c"))); break;
    case 12: s.e[0] = bin(MathOperator::MATH_MOD, V(0), N(2)); break; // cannot be differentiated
    case 14: s.e[0] = S(U(MathOperator::MATH_SQRT, V(0)), N(coef("c"))); break; // no value for negative numbers
    case 15: s.e[0] = S(U(MathOperator::MATH_LOG, V(0)), N(coef("c"))); break;
    case 16: s.m = s.n = 2; s.e[0] = S(V(1), N(coef("d"))); s.e[1] = S(U(MathOperator::MATH_SQRT, V(0)), N(coef("c"))); break;
    case 17: s.m = s.n = 3; s.e[0] = S(A(A(V(0), V(1)), V(2)), N(coef("c"))); s.e[1] = S(M(V(0), V(1)), N(coef("a"))); s.e[2] = S(S(V(2), V(0)), N(1)); break;
    case 18: s.m = s.n = 4; s.e[0] = S(V(1), P(V(0), 2)); s.e[1] = S(V(2), A(V(1), N(1))); s.e[2] = A(S(V(3), V(2)), V(0)); s.e[3] = S(A(V(0), V(3)), N(coef("c"))); break;
    case 19: s.m = s.n = 2; s.e[0] = S(U(MathOperator::MATH_LOG, V(0)), N(coef("c"))); s.e[1] = S(D(V(0), V(1)), N(2)); break;
    case 20: { double c = coef("c"); tsx_assume(c >= 0.1); s.e[0] = A(P(V(0), 2), N(c)); break; } // no solution, whatever c
    case 21: { double c = coef("c"); tsx_assume(c >= 0.1); s.m = s.n = 2; s.e[0] = A(M(V(0), V(1)), N(c)); s.e[1] = A(P(V(0), 2), P(V(1), 2)); break; }
    case 22: { // a larger system; one equation of it is not linear
        double c = coef("c");
        int k = tsx_choice("k", s.m = s.n = tsx_param("size", 9));
        for (int i = 0; i < s.n; i++) s.e[i] = i == k ? S(P(V(i), 3), N(8)) : i ? S(V(i), A(V(i - 1), N(c))) : S(V(0), N(c));
        break;
    }
    default: s.m = s.n = 2; s.e[0] = A(P(V(0), 2), S(P(V(1), 2), N(coef("r")))); s.e[1] = S(V(0), V(1)); break;
    }
    return s;
}
static SymVec make(const Sys &s) {
    SymVec e(s.m);
    for (int i = 0; i < s.m; i++) e[i] = build(s.e[i]);
    return e;
}
static VarsTable table(int n, const double *v, bool reversed) {
    std::vector<std::string> names(n);
    Vec x(n);
    for (int i = 0; i < n; i++) {
        int k = reversed ? n - 1 - i : i;
        names[i] = varName(k);
        x[i] = v[k];
    }
    VarsTable t(names, 0);
    t.SetValues(x);
    return t;
}
static void sound(bool lm) {
    Sys s = family(tsx_param("family", 0));
    double env[MAXU] = {};
    for (int i = 0; i < s.n; i++) env[i] = i && s.n > 4 ? env[i - 1] : start("start");
    int it = tsx_param("it", -1);
    Config::Get().maxIterations = it >= 0 ? it : tsx_choice("it", 3);
    double eps = 1e-9;
    if (tsx_param("eps", 0)) {
        eps = tsx_double("eps");
        tsx_assume(eps >= 1e-12);
        tsx_assume(eps <= 1e3);
        Config::Get().epsilon = eps;
    }
    if (tsx_param("invalid", 0)) Config::Get().throwOnInvalidValue = false; // then values that are no numbers may come up on the way
    if (s.m < s.n) Config::Get().allowIndeterminateEquation = tsx_choice("allow", 2);
    bool rev = s.n > 1 && tsx_choice("reversed", 2);
    SymVec e = make(s);
    VarsTable t = table(s.n, env, rev);
    try {
        VarsTable r = lm ? SolveByLM(e, t) : SolveByNewtonRaphson(e, t);
        tsx_cover("returned");
        tsx_check(r.VarNums() == s.n && r.Vars() == t.Vars(), "the result has exactly the given variables");
        double x[MAXU] = {};
        for (int i = 0; i < s.n; i++) {
            tsx_check(r.Has(varName(i)), "the result has the given variables");
            x[i] = r[varName(i)];
        }
        for (int i = 0; i < s.n; i++) tsx_check(tsx_same(r.Values()[i], r[r.Vars()[i]]), "values and names agree");
        for (int i = 0; i < s.m; i++) {
            bool bad = false;
            double f = eval(s.e[i], x, bad);
            tsx_check(!bad, "the equations have a value at the result");
            double u = tsx_is_real() ? f : f * 0.999999 - 1e-12, l = tsx_is_real() ? -f : -f * 0.999999 - 1e-12;
            int p = u <= eps, n = l <= eps; // (room for evaluating in another way in floating point)
            tsx_check(p & n, "every equation is within the tolerance of zero at the result");
        }
    } catch (const std::runtime_error &) {
        tsx_cover("gave up");
    }
    for (int i = 0; i < s.m; i++) tsx_check(e[i]->Equal(build(s.e[i])), "the equations are unchanged");
    for (int i = 0; i < s.n; i++) tsx_check(tsx_same(t[varName(i)], env[i]), "the start table is unchanged");
}
// x^2 = 0 from s: every step halves x, so the number of steps needed is known
static void limit() {
    int n = tsx_choice("it", tsx_param("its", 4));
    double s = tsx_double("start"), eps = 1e-9;
    tsx_assume(s >= 0.0001);
    tsx_assume(s <= 1);
    Config::Get().maxIterations = n;
    SymVec e(1);
    e[0] = build(P(V(0), 2));
    double in[1] = {s}, f = s * s;
    bool returned = false;
    try {
        VarsTable r = SolveByNewtonRaphson(e, table(1, in, false));
        returned = true;
        (void)r;
    } catch (const std::runtime_error &) {}
    for (int i = 0; i < n; i++) f = f / 4;
    double g = f / 4;
    if (returned) {
        tsx_check(g < eps, "no more steps than the limit (and the one that finds out)");
        tsx_cover("returned");
    } else {
        tsx_check(!(f < eps), "gives up only after the configured number of steps");
        tsx_cover("gave up");
    }
}
static void affine(int n) {
    double a[8][8], b[8], x0[8] = {0, 0, 0, 0, 0, 0, 0, 0};
    int lo = tsx_param("lo", -1), hi = tsx_param("hi", 2), form = tsx_param("form", 0);
    if (!tsx_param("pat", 0)) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[i][j] = i * n + j < tsx_param("free", 9) ? lo + tsx_choice("a", hi - lo + 1) : (i * 2 + j * j + 1) % 3;
    if (tsx_param("pat", 0)) { // a larger matrix: unit triangular matrices multiplied, rows shuffled
        unsigned x = 4321u + 71u * tsx_choice("pattern", tsx_param("pat", 0));
        double L[8][8], W[8][8];
        auto rnd = [&] { x = x * 1103515245u + 12345u; return (double)((int)(x >> 16 & 0x7fff) % 3 - 1); };
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double k = rnd(); L[i][j] = i == j ? 1 : i > j ? k : 0; W[i][j] = i == j ? 1 : i < j ? k : 0; }
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
            double v = 0;
            for (int k = 0; k < n; k++) v += L[i][k] * W[k][j];
            a[n % 3 ? (3 * i + 1) % n : n - 1 - i][j] = v;
        }
    }
    double det = tsx_param("pat", 0) ? 1 : n == 1 ? a[0][0] : n == 2 ? a[0][0] * a[1][1] - a[0][1] * a[1][0]
               : a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
    tsx_assume(det != 0);
    for (int i = 0; i < n; i++) b[i] = coef("b");
    for (int i = 0; i < n; i++) x0[i] = start("start");
    SymVec e(n);
    R *ref[8];
    for (int i = 0; i < n; i++) {
        R *t = form == 1 ? N(b[i]) : M(N(a[i][0]), V(0));
        for (int j = form == 1 ? 0 : 1; j < n; j++) t = A(t, form == 2 ? M(V(j), N(a[i][j])) : M(N(a[i][j]), V(j)));
        if (form != 1) t = A(t, N(b[i]));
        ref[i] = t;
        e[i] = build(t);
    }
    Config::Get().maxIterations = 1;
    bool rev = n > 1 && tsx_choice("reversed", 2);
    bool near = true; // already solved by the start values
    for (int i = 0; i < n; i++) {
        double f = b[i];
        for (int j = 0; j < n; j++) f = f + a[i][j] * x0[j];
        int p = f < 1e-9, m = f > -1e-9;
        near = near && (p & m);
    }
    try {
        VarsTable r = SolveByNewtonRaphson(e, table(n, x0, rev));
        for (int i = 0; i < n; i++) {
            if (near) { tsx_check(tsx_same(r[varName(i)], x0[i]), "start values that solve the system are the result"); continue; }
            double f = b[i];
            for (int j = 0; j < n; j++) f = f + a[i][j] * r[varName(j)];
            tsx_check(tsx_same(f, 0), "one step solves an affine system");
        }
        tsx_cover(near ? "start" : "step");
    } catch (const std::runtime_error &) {
        tsx_check(0, "an affine system with an invertible matrix is solved in one step");
    }
    (void)ref;
}
struct Out { bool threw = false; bool mathErr = false; std::string what; VarsTable t{std::vector<std::string>{"none"}, 0}; };
template <typename F> static Out run(F f) {
    Out o;
    try {
        o.t = f();
    } catch (const MathError &e) {
        o.threw = o.mathErr = true;
        o.what = std::to_string((int)e.GetErrorType());
    } catch (const std::runtime_error &e) {
        o.threw = true;
        o.what = e.what();
    }
    return o;
}
static void sameOut(const Out &a, const Out &b) {
    tsx_check(a.threw == b.threw, "both give up or both return");
    if (a.threw) {
        tsx_check(a.mathErr == b.mathErr && a.what == b.what, "the same error");
        return;
    }
    tsx_check(a.t.Vars() == b.t.Vars(), "the same variables");
    for (auto &v : a.t.Vars()) tsx_check(tsx_same(a.t[v], b.t[v]), "the same values");
}
static void dispatch() {
    Sys s = family(tsx_param("family", 0));
    bool given = tsx_choice("table", 2);
    double env[MAXU] = {}, init = start("initialValue");
    for (int i = 0; i < s.n; i++) env[i] = given ? start("start") : init;
    int method = tsx_choice("method", 4);
    static const int M[4] = {0, 1, 2, -1};
    Config &c = Config::Get();
    c.nonlinearMethod = (NonlinearMethod)M[method];
    c.initialValue = init;
    c.maxIterations = tsx_param("it", 1);
    SymVec e = make(s);
    std::vector<std::string> all;
    for (auto &n : e.GetAllVarNames()) all.push_back(n);
    VarsTable t = given ? table(s.n, env, s.n > 1 && tsx_choice("reversed", 2)) : VarsTable(all, init);
    if (method == 1 && s.m != t.VarNums()) tsx_outside("the damped solver needs as many equations as unknowns (known finding)");
    if (tsx_param("again", 0)) { // solved before, with other settings
        int before = tsx_choice("method0", 2);
        if (before == 1 && s.m != (int)all.size()) tsx_outside("the damped solver needs as many equations as unknowns (known finding)");
        c.nonlinearMethod = (NonlinearMethod)M[before];
        c.initialValue = init + 1;
        run([&] { return tsx_choice("table0", 2) ? Solve(e, VarsTable(all, init + 2)) : Solve(e); });
        c.nonlinearMethod = (NonlinearMethod)M[method];
        c.initialValue = init;
    }
    Out got = run([&] { return given ? Solve(e, t) : Solve(e); });
    if (method >= 2) {
        tsx_check(got.threw && !got.mathErr, "an unknown method throws a runtime error");
        tsx_cover("unknown");
        return;
    }
    Out want = run([&] { return method == 0 ? SolveByNewtonRaphson(e, t) : SolveByLM(e, t); });
    sameOut(got, want);
    if (given) for (int i = 0; i < s.n; i++) tsx_check(tsx_same(t[varName(i)], env[i]), "the start table is unchanged");
    tsx_cover(method == 0 ? "newton" : "damped");
    tsx_cover(got.threw ? "gave up" : "returned");
}
// an arbitrary scalar function along the search direction: one unknown value per point
static double keys[200], vals[200];
static int known, calls, symbolicCalls;
static double at(double k) {
    calls++;
    for (int i = 0; i < known; i++) if (keys[i] == k) return vals[i];
    keys[known] = k;
    double v;
    if (known && known <= tsx_param("far", 0)) v = 1000; // no power of one half down to this one is short enough
    else if (known < symbolicCalls) {
        v = tsx_double("f");
        tsx_assume(v >= -100);
        tsx_assume(v <= 100);
    } else v = 0;
    return vals[known++] = v;
}
static void armijo() {
    int n = tsx_param("n", 1);
    symbolicCalls = tsx_param("K", 4);
    double slope = tsx_double("slope");
    tsx_assume(slope >= -100);
    tsx_assume(slope <= 100);
    Vec x(n), d(n);
    for (int i = 0; i < n; i++) { x[i] = i; d[i] = i == 0 ? 1 : -2; }
    double f0 = at(0);
    double a = Armijo(
        x, d, [&](Vec v) -> Vec { return Vec{at(v[0])}; },
        [&](Vec v) -> Mat {
            tsx_check(v.Rows() == n, "the gradient is taken at a point");
            Mat g(n, 1);
            for (int i = 0; i < n; i++) g.Value(i, 0) = i == 0 ? slope : 1;
            if (n > 1) g.Value(0, 0) = slope;
            return g;
        });
    double df = slope;
    for (int i = 1; i < n; i++) df = df - 2; // gradient times direction
    auto holds = [&](double s) {
        double l = at(s), r = f0 + 0.4 * s * df;
        return l * l <= r * r;
    };
    double s = 1;
    int k = 0;
    while (s != a && k < 40) {
        tsx_check(!holds(s), "no larger power of one half satisfies the condition");
        s = s / 2;
        k++;
    }
    tsx_check(s == a, "the step is a power of one half");
    tsx_check(holds(a), "the condition holds at the step");
    tsx_cover(k == 0 ? "full step" : "shortened");
}
static void armijoStops() {
    static const double odd[4] = {NAN, INFINITY, -INFINITY, 1e308};
    double v = odd[tsx_choice("value", 4)], w = odd[tsx_choice("gradient", 4)];
    int first = tsx_choice("first", 2);
    int c = 0;
    double a = Armijo(
        Vec{1}, Vec{1}, [&](Vec) -> Vec { c++; return Vec{first && c < 2 ? 0 : v}; }, [&](Vec) -> Mat { return Mat(1, 1, w); });
    tsx_check(a >= 0 && a <= 1, "a step between zero and one");
    tsx_cover("stopped");
}
// a function that leads the secants to an arbitrary periodic sequence of steps
static double aim(double cur) {
    static double old = 0, g = 1;
    static int k = 0;
    if (k++ == 0) return g;
    static const double steps[4] = {0.5, 1, 2, 3};
    static double target[3];
    if (k == 2) for (int i = 0; i < 3; i++) target[i] = steps[tsx_choice("step", 4)];
    double T = target[k % 3], h = old != T ? (cur - T) / (old - T) : (cur + T) / (old + T);
    if (h > 0 && h < 1e-3) h = 1e-3; // (not zero)
    if (h == 0) h = 0.5;
    g = g * h;
    if (g > 1e3 || g < -1e3 || (g < 1e-3 && g > -1e-3)) g = g > 0 ? 1 : -1;
    old = cur;
    return g;
}
static void secant() {
    int K = tsx_param("K", 1), n = tsx_param("n", 1);
    static const double odd[6] = {NAN, INFINITY, 0, 1, -3, 1e308};
    int c = 0, kind = tsx_param("kind", -1);
    if (kind < 0) kind = tsx_choice("kind", tsx_param("kinds", 5));
    double base = kind == 5 ? 1 : odd[tsx_choice("value", 6)];
    double a = FindAlpha(Vec(n, 0.5), Vec(n, 1), [&](Vec v) -> Vec {
        c++;
        if (c > 400) tsx_check(0, "the search does not stop");
        Vec r(n);
        for (int i = 0; i < n; i++) {
            if (c <= K) { r[i] = tsx_double("f"); continue; }
            switch (kind) {
            case 0: r[i] = base; break;
            case 1: r[i] = v[i] * base; break;
            case 2: r[i] = c * (i + 1.0); break;
            case 3: r[i] = (c % 2 ? base : 2) + i; break;
            case 5: r[i] = i ? 1 : aim(v[0] - 0.5); break;
            default: r[i] = v[i] * v[i] + base; break;
            }
        }
        return r;
    });
    (void)a;
    tsx_check(c <= 110, "the search stops within its iteration limit");
    tsx_cover("stopped");
}

extern "C" void harness_main() {
    switch (tsx_param("what", 27)) {
    case 27: sound(false); break;
    case 28: sound(true); break;
    case 127: limit(); break;
    case 29: affine(tsx_param("n", 1)); break;
    case 30: dispatch(); break;
    case 31: armijo(); break;
    case 231: armijoStops(); break;
    default: secant(); break;
    }
}
