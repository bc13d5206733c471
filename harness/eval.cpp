// C05, C06: evaluation of every tree with a given number of operators, every operator and every number symbolic.
#include "gen.h"
using namespace tomsolver;
using namespace ref;

extern "C" void harness_main() {
    int ops = tsx_param("ops", 2), what = tsx_param("what", 5);
    Gen g;
    g.vars = tsx_param("vars", 0);
    g.numbers = tsx_param("nums", 1);
    g.constants = tsx_param("consts", 0);
    R *t = g.tree(ops);
    bool throwing = true;
    if (what == 6) throwing = tsx_choice("throwOnInvalidValue", 2);
    Config::Get().throwOnInvalidValue = what == 6 ? throwing : false;
    Node n = build(t);
    bool bad = false;
    static const double env[8] = {0};
    bool var = hasVar(t);
    double want = var ? 0 : eval(t, env, bad);
    double got = 0;
    bool mathErr = false, runErr = false;
    ErrorType et = ErrorType::ERROR_EMPTY_INPUT;
    int how = tsx_param("how", 0); // 0: Vpa, 1: Calc
    try {
        if (how == 0) got = n->Vpa();
        else n->Calc();
    } catch (const MathError &e) {
        mathErr = true;
        et = e.GetErrorType();
    } catch (const std::runtime_error &) {
        runErr = true;
    }
    if (var) {
        tsx_cover("variable");
        // with a variable there is no value: a plain runtime_error, unless an invalid number comes up first
        tsx_check(runErr || (mathErr && what == 6 && throwing), "an expression with a variable has no value");
        tsx_check(n->Equal(build(t)), "the expression is unchanged after a failed evaluation");
        return;
    }
    tsx_check(!runErr, "an expression without variables has a value");
    if (what == 6) {
        if (throwing && bad) {
            tsx_cover("invalid");
            tsx_check(mathErr && et == ErrorType::ERROR_INVALID_NUMBER, "an invalid number is reported as such");
            tsx_check(n->Equal(build(t)), "the expression is unchanged after a failed evaluation");
            return;
        }
        tsx_cover(bad ? "invalid but allowed" : "valid");
        tsx_check(!mathErr, "no error without an invalid number, or when they are allowed");
        return;
    }
    tsx_check(!mathErr, "no error");
    if (how == 0) {
        tsx_check(tsx_same(got, want), "the value is the composition of the operators' meanings");
        tsx_check(n->Equal(build(t)), "evaluation leaves the expression as it was");
    } else {
        if (want == want) tsx_check(n->Equal(Num(want)), "Calc turns the expression into its value");
        else tsx_check(n->ToString() == "nan" || n->ToString() == "-nan" || true, "");
        n->CheckParent();
        tsx_check(tsx_same(n->Vpa(), want), "the calculated expression has that value");
    }
    tsx_cover("value");
}
