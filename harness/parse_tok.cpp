// C01, C03: arbitrary token sequences of length L (operators symbolic), against the reference grammar.
#include "tok.h"
using namespace tomsolver;
using namespace ref;

static int L, WHAT;
extern "C" void harness_main() {
    L = tsx_param("L", 3);
    WHAT = tsx_param("what", 3); // 1: accepted text gives the grammar's tree, 2: rejected text is rejected
    int first = tsx_param("t0", -1), second = tsx_param("t1", -1), third = tsx_param("t2", -1);
    int space = tsx_param("space", 1);
    static Tok tok[16];
    std::string s;
    int nums = 0, vars = 0;
    for (int i = 0; i < L; i++) {
        int fix = i == 0 ? first : i == 1 ? second : i == 2 ? third : -1;
        int k = fix >= 0 ? fix : tsx_choice("token", 7);
        Tok &t = tok[i];
        t.k = (TK)k;
        if (space && i) s += ' ';
        switch (t.k) {
        case T_NUM: {
            static const char *txt[] = {"1", "2.5", "3e1", "4"};
            static const double val[] = {1, 2.5, 30, 4};
            s += txt[nums & 3];
            t.v = val[nums++ & 3];
            break;
        }
        case T_VAR:
            t.var = vars++ % 4;
            s += varName(t.var);
            break;
        case T_FUNC: {
            bool two = i & 1;
            t.f = two ? MathOperator::MATH_LOG10 : MathOperator::MATH_SIN;
            s += two ? "log10" : "sin";
            break;
        }
        case T_SIGN: s += t.c = signChar(); break;
        case T_BIN: s += t.c = binChar(); break;
        case T_LP: s += '('; break;
        case T_RP: s += ')'; break;
        }
    }
    Parser rp(tok, L);
    R *want = rp.all();
    Node got;
    try {
        got = Parse(s);
    } catch (const std::exception &) {
        got = nullptr;
    }
    tsx_note(s.c_str());
    if (want) {
        tsx_cover("accepted");
        if (WHAT & 1) {
            tsx_check(got != nullptr, "text of the grammar is accepted");
            Node w = build(want);
            tsx_check(got->Equal(w), "the parsed tree is the grammar's tree");
            got->CheckParent();
        }
    } else {
        tsx_cover("rejected");
        if (WHAT & 2) tsx_check(got == nullptr, "text outside the grammar is rejected with an exception");
    }
}
