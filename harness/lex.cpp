// C04: one word of arbitrary word characters, in context: number, function name, variable name, or an error that
// points at it.
#include "tok.h"
#include <cstdlib>
#include <cerrno>
using namespace tomsolver;
using namespace ref;

extern "C" void harness_main() {
    int n = tsx_param("n", 3), set = tsx_param("set", 0), ctx = tsx_param("ctx", 0);
    static char w[400];
    // a long word: this many fixed characters come before the symbolic ones (letters and digits, or digits only)
    int fixed = tsx_param("fixed", 0);
    for (int i = 0; i < fixed; i++) w[i] = tsx_param("digits", 0) ? "1730592846"[i % 10] : "qZ_0a9"[i % 6];
    n += fixed;
    for (int i = fixed; i < n; i++) {
        unsigned char c = tsx_byte("char");
        bool digit = (c >= '0') & (c <= '9'), alpha = ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '_');
        switch (set) {
        case 0: tsx_assume(digit | alpha | (c == '.')); break;                      // word characters
        case 1: tsx_assume(digit | (c == '.') | (c == 'e') | (c == 'E')); break;     // numbers
        case 2: tsx_assume((c >= 'a') & (c <= 'z')); break;                          // names
        case 3: tsx_assume((c == '1') | (c == '9') | (c == '0') | (c == '.') | (c == 'e') | (c == 'E') | (c == '-') | (c == '+') | (c == 'x')); break;
        case 4: // anything that is neither an operator nor white space
            tsx_assume((c != '(') & (c != ')') & (c != '+') & (c != '-') & (c != '*') & (c != '/') & (c != '^') & (c != '&') & (c != '|') & (c != '%') & (c != ' ') &
                       !((c >= 9) & (c <= 13)));
            break;
        }
        w[i] = (char)c;
    }
    // a word of any length in a range, in one of several forms
    int form = tsx_param("form", 0);
    if (form) {
        int k = tsx_param("len0", 1) + tsx_choice("len", tsx_param("lens", 60));
        int tail = n; // the symbolic characters follow
        char save[8];
        for (int i = 0; i < tail; i++) save[i] = w[i];
        n = 0;
        if (form == 1) w[n++] = '0', w[n++] = '.';                 // a small fraction
        if (form == 2) w[n++] = '3';                               // a large whole number
        for (int i = 0; i < k; i++) {
            switch (form) {
            case 1: case 2: w[n++] = '0'; break;
            case 3: w[n++] = "31415926535897932384626433832795"[i % 32]; break;
            case 4: w[n++] = i == 1 ? '.' : "2718281828459045235360287"[i % 25]; break;
            case 5: w[n++] = i == k / 2 ? '.' : "9999999999999999"[i % 16]; break;
            case 6: w[n++] = "_aZq09"[i % 6]; break;
            case 7: w[n++] = i ? 'b' : '4'; break;                 // neither number nor name
            }
        }
        if (form == 1) w[n++] = '7';
        for (int i = 0; i < tail; i++) w[n++] = save[i];
    }
    w[n] = 0;
    std::string word(w, (size_t)n), pre, post;
    switch (ctx) {
    case 1: pre = "2*"; post = "+y"; break;
    case 2: pre = "sin( "; post = " )"; break;
    case 3: pre = "x- "; break;
    }
    tsx_note(word.c_str());
    // the reference lexer
    bool legal = true;
    for (int i = 0; i < n; i++) {
        char c = w[i];
        bool digit = c >= '0' && c <= '9', alpha = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
        if (!alpha && !(digit && i)) legal = false;
    }
    bool number = false, hasSign = false;
    double value = 0;
    // [digits][.digits][e[sign]digits], at least one digit in the mantissa
    {
        int i = 0, digits = 0;
        while (i < n && w[i] >= '0' && w[i] <= '9') i++, digits++;
        if (i < n && w[i] == '.') {
            i++;
            while (i < n && w[i] >= '0' && w[i] <= '9') i++, digits++;
        }
        if (digits) {
            if (i == n) number = true;
            else if (w[i] == 'e' || w[i] == 'E') {
                i++;
                if (i < n && (w[i] == '+' || w[i] == '-')) i++, hasSign = true;
                int k = i;
                while (i < n && w[i] >= '0' && w[i] <= '9') i++;
                if (i > k && i == n) number = true;
            }
        }
    }
    for (int i = 0; i < n; i++)
        if ((w[i] == '+' || w[i] == '-') && !number) tsx_outside("a sign that is not an exponent's splits the word");
    // strtod's further spellings: inf, nan, infinity, nan(...), hexadecimal (documented as accepted)
    if (!number) {
        char c0 = n > 0 ? (char)(w[0] | 32) : 0, c1 = n > 1 ? (char)(w[1] | 32) : 0, c2 = n > 2 ? (char)(w[2] | 32) : 0;
        if (c0 == 'i' && c1 == 'n' && c2 == 'f') tsx_outside("spelling of infinity");
        if (c0 == 'n' && c1 == 'a' && c2 == 'n') tsx_outside("spelling of not-a-number");
        if (w[0] == '0' && c1 == 'x') tsx_outside("hexadecimal number");
    }
    if (number) {
        errno = 0;
        value = strtod(w, nullptr);
        if (value > 1.7976931348623157e308) number = false; // too large for a double
    }
    static const char *fn[] = {"sin", "cos", "tan", "arcsin", "arccos", "arctan", "asin", "acos", "atan", "sqrt", "log", "log2", "log10", "exp"};
    static const MathOperator fo[] = {MathOperator::MATH_SIN, MathOperator::MATH_COS, MathOperator::MATH_TAN, MathOperator::MATH_ARCSIN, MathOperator::MATH_ARCCOS,
                                      MathOperator::MATH_ARCTAN, MathOperator::MATH_ARCSIN, MathOperator::MATH_ARCCOS, MathOperator::MATH_ARCTAN, MathOperator::MATH_SQRT,
                                      MathOperator::MATH_LOG, MathOperator::MATH_LOG2, MathOperator::MATH_LOG10, MathOperator::MATH_EXP};
    MathOperator f = MathOperator::MATH_NULL;
    for (int i = 0; i < 14; i++)
        if (word == fn[i]) f = fo[i];

    Node got;
    bool single = false;
    int line = -1, pos = -1;
    bool callIt = f != MathOperator::MATH_NULL;
    std::string s = pre + word + (callIt ? "(7)" : "") + post;
    try {
        got = Parse(s);
    } catch (const SingleParseError &e) {
        single = true;
        line = e.GetLine();
        pos = e.GetPos();
    } catch (const std::exception &) {
    }
    if (number || callIt || legal) {
        tsx_cover(number ? "number" : callIt ? "function" : "name");
        tsx_check(got != nullptr, "a number, a call or a name is accepted");
        Node leaf = number ? Num(value) : callIt ? internal::UnaryOperator(f, Num(7)) : Var(word);
        Node want;
        switch (ctx) {
        case 0: want = std::move(leaf); break;
        case 1: want = Num(2) * std::move(leaf) + Var("y"); break;
        case 2: want = internal::UnaryOperator(MathOperator::MATH_SIN, std::move(leaf)); break;
        case 3: want = Var("x") - std::move(leaf); break;
        }
        tsx_check(got->Equal(want), "the word means that number, function or name");
    } else {
        tsx_cover("bad word");
        tsx_check(got == nullptr, "a word that is neither number nor name is rejected");
        tsx_check(single && line == 0 && pos == (int)pre.size(), "the error points at the word");
    }
}
