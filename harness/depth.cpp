// C32: the call depth of an operation does not grow with the depth of the expression.
// Chains of n and of 2n operators are built without recursion; the executor counts call frames (natively: the
// instrumented functions entered and not left), and the deeper chain may not need more than the shallow one.
#include "gen.h"
using namespace tomsolver;

static MathOperator ops[2];  // operators at even and odd levels
static int shapeOf, leafOf;
static bool unary(int i) { return shapeOf == 3 || (shapeOf == 4 && i % 2 == 0); }
static bool left(int i) { return shapeOf == 0 || ((shapeOf == 2 || shapeOf == 4) && i % 4 < 2); }

static Node leaf() {
    if (leafOf == 0) return Var("x");
    if (leafOf == 1) return Var("y");
    if (leafOf == 4) return Var("x") * Var("y");
    if (leafOf == 5) return cos(Var("x"));
    return Num(leafOf == 2 ? 1 : 0.5);
}
// (no recursion, and the library's own move operations)
static Node chain(int n) {
    Node t = leaf();
    for (int i = 0; i < n; i++) {
        MathOperator o = ops[i % 2];
        if (unary(i)) t = internal::UnaryOperator(o, std::move(t));
        else if (left(i)) t = internal::BinaryOperator(o, std::move(t), leaf());
        else t = internal::BinaryOperator(o, leaf(), std::move(t));
    }
    return t;
}
static std::string text(int n) {
    static const char *un[] = {"", "+", "-", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "sqrt", "log", "log2", "log10", "exp"};
    static const char *bi[] = {"+", "-", "*", "/", "^", "&", "|", "%"};
    const char *l = leafOf == 0 ? "x" : leafOf == 1 ? "y" : leafOf == 4 ? "(x*y)" : leafOf == 5 ? "cos(x)" : leafOf == 2 ? "1" : "0.5";
    std::string pre, post;
    bool paren = tsx_param("paren", 1);
    for (int i = n - 1; i >= 0; i--) { // outermost first
        int o = (int)ops[i % 2];
        if (unary(i)) {
            pre += un[o];
            pre += "(";
            post = ")" + post;
        } else if (left(i)) {
            if (paren) { pre += "("; post = std::string(")") + bi[o - 14] + l + post; }
            else post = std::string(bi[o - 14]) + l + post;
        } else {
            if (paren) { pre += std::string(l) + bi[o - 14] + "("; post = ")" + post; }
            else pre += std::string(l) + bi[o - 14];
        }
    }
    return pre + l + post;
}
struct Job {
    Node t, u;
    std::string s;
    std::map<std::string, Node> dict;
};
static void prepare(Job &j, int what, int n) {
    if (what == 0) { j.s = text(n); return; }
    j.t = chain(n);
    if (what == 2 || what == 3) j.u = chain(n);
    if (what == 3) j.u = internal::UnaryOperator(MathOperator::MATH_SIN, std::move(j.u));
    if (what == 3) j.t = internal::UnaryOperator(MathOperator::MATH_COS, std::move(j.t));
    if (what == 8) j.dict.emplace("x", Var("y") + Num(1));
}
__attribute__((noinline)) static void operate(Job &j, int what) {
    switch (what) {
    case 0: j.t = Parse(j.s); break;
    case 1: j.u = Clone(j.t); break;
    case 2: j.s = j.t->Equal(j.u) ? "1" : "0"; break;
    case 3: j.s = j.t->Equal(j.u) ? "1" : "0"; break;
    case 4: try { (void)j.t->Vpa(); } catch (const std::runtime_error &) {} break;
    case 5: try { j.t->Calc(); } catch (const std::runtime_error &) {} break;
    case 6: j.s = j.t->ToString(); break;
    case 7: Simplify(j.t); break;
    case 8: j.u = Subs(j.t, j.dict); break;
    case 9: j.s = *j.t->GetAllVarNames().begin(); break;
    case 10: try { j.u = Diff(j.t, "x"); } catch (const std::runtime_error &) {} break;
    case 11: j.t.reset(); break;
    case 12: j.t->CheckParent(); break;
    case 13: { std::stringstream ss; ss << j.t; break; }
    case 14: *j.t = *Num(1); break;
    case 15: { internal::NodeImpl c(*j.t); break; }
    case 16: j.t += Var("y"); break;
    case 17: j.u = j.t * j.t; break;
    case 18: { SymVec v(2); v[0] = Move(j.t); v[1] = Var("x"); SymMat w = v.Clone(); try { w.Subs(std::map<std::string, double>{{"x", 1}}).Calc(); } catch (const std::runtime_error &) {} break; }
    default: j.u = Diff(std::move(j.t), "x"); break;
    }
}
__attribute__((noinline)) static int measure(int what, int n) {
    Job j;
    prepare(j, what, n);
    tsx_depth_reset();
    operate(j, what);
    return tsx_depth_max();
}

extern "C" void harness_main() {
    int what = tsx_param("what", 0), n = tsx_param("n", 32);
    shapeOf = tsx_param("shape", 0);
    leafOf = what == 10 || what == 19 ? 0 : tsx_choice("leaf", what == 4 || what == 5 ? 4 : what == 9 ? 2 : 3);
    if (int side = tsx_param("side", 0)) leafOf = side + 3; // operands that are expressions themselves
    for (int i = 0; i < 2; i++) {
        bool u = unary(i);
        int lo = u ? ref::FIRST_UNARY : ref::FIRST_BINARY, hi = u ? ref::LAST_UNARY : ref::LAST_BINARY;
        if (what == 19) hi = u ? ref::LAST_UNARY : (int)MathOperator::MATH_POWER;
        if (i == 1 && shapeOf != 4 && tsx_param("same", 0)) ops[i] = ops[0];
        else ops[i] = (MathOperator)(lo + (what == 0 ? tsx_choice("op", hi - lo + 1) : tsx_int("op", 0, hi - lo)));
    }
    Config::Get().throwOnInvalidValue = false;
    int a = measure(what, n / 4); // (warms up whatever is created once)
    a = measure(what, n);
    int b = measure(what, 2 * n);
    if (a > b) b = a;
    tsx_check(b - a < n / 2, "the call depth does not grow with the depth of the expression");
    tsx_cover("chain");
}
