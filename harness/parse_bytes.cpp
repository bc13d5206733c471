// C02: arbitrary bytes.  Parse ends, touches only memory it owns (engine and sanitizers watch every access; the text
// is a block of exactly its length without a terminator), and either returns a well-formed tree or throws an exception
// derived from std::exception; nothing is leaked.
// C01, C03 (what & 1, 2): the same bytes against a reference lexer and the reference grammar.
#include "tok.h"
#include <cstdlib>
using namespace tomsolver;
using namespace ref;

static char buf[1024];
static int len;
static Tok tok[1024];
static int ntok;

static bool isDig(char c) { return (c >= '0') & (c <= '9'); }
static bool isSp(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static bool isOper(char c) {
    return (c == '(') | (c == ')') | (c == '+') | (c == '-') | (c == '*') | (c == '/') | (c == '^') | (c == '&') | (c == '|') | (c == '%');
}
// length of the decimal literal at the start of w, 0 if there is none
static int literal(const char *w, int n) {
    int i = 0, digits = 0;
    while (i < n && isDig(w[i])) i++, digits++;
    if (i < n && w[i] == '.') {
        i++;
        while (i < n && isDig(w[i])) i++, digits++;
    }
    if (!digits) return 0;
    if (i < n && (w[i] == 'e' || w[i] == 'E')) {
        int k = i + 1;
        if (k < n && (w[k] == '+' || w[k] == '-')) k++;
        int f = k;
        while (k < n && isDig(w[k])) k++;
        if (k > f) i = k;
    }
    return i;
}
// the reference lexer; false: some word is neither number nor name
static bool scan() {
    int i = 0, nv = 0;
    while (i < len) {
        char c = buf[i];
        Tok &t = tok[ntok];
        t = Tok();
        if (isSp(c)) { i++; continue; }
        if (isOper(c)) {
            t.k = c == '(' ? T_LP : c == ')' ? T_RP : c == '+' || c == '-' ? T_SIGN : T_BIN;
            t.c = c;
            ntok++;
            i++;
            continue;
        }
        int e = i + literal(buf + i, len - i);
        while (e < len && !isSp(buf[e]) && !isOper(buf[e])) e++;
        int n = e - i;
        if (literal(buf + i, n) == n) {
            char w[1024];
            for (int k = 0; k < n; k++) w[k] = buf[i + k];
            w[n] = 0;
            t.k = T_NUM;
            t.v = strtod(w, nullptr);
        } else {
            // strtod's further spellings: inf, nan, infinity, nan(...), hexadecimal (documented as accepted)
            char c0 = (char)(buf[i] | 32), c1 = n > 1 ? (char)(buf[i + 1] | 32) : 0, c2 = n > 2 ? (char)(buf[i + 2] | 32) : 0;
            if (c0 == 'i' && c1 == 'n' && c2 == 'f') tsx_outside("spelling of infinity");
            if (c0 == 'n' && c1 == 'a' && c2 == 'n') tsx_outside("spelling of not-a-number");
            if (buf[i] == '0' && c1 == 'x') tsx_outside("hexadecimal number");
            static const char *fn[] = {"sin", "cos", "tan", "log", "exp", "asin", "sqrt", "log2", "log10"};
            static const MathOperator fo[] = {MathOperator::MATH_SIN, MathOperator::MATH_COS, MathOperator::MATH_TAN, MathOperator::MATH_LOG, MathOperator::MATH_EXP,
                                              MathOperator::MATH_ARCSIN, MathOperator::MATH_SQRT, MathOperator::MATH_LOG2, MathOperator::MATH_LOG10};
            t.k = T_VAR;
            for (int f = 0; f < 9; f++) {
                int k = 0;
                while (k < n && fn[f][k] && buf[i + k] == fn[f][k]) k++;
                if (k == n && !fn[f][k]) t.k = T_FUNC, t.f = fo[f];
            }
            if (t.k == T_VAR) {
                for (int k = i; k < e; k++) {
                    char d = buf[k];
                    bool alpha = ((d >= 'a') & (d <= 'z')) | ((d >= 'A') & (d <= 'Z')) | (d == '_');
                    if (!(alpha | (isDig(d) & (k > i)))) return false;
                }
                t.var = 100 + nv++;
                extraName(t.var - 100) = std::string(buf + i, (size_t)n);
            }
        }
        ntok++;
        i = e;
    }
    return true;
}

extern "C" void harness_main() {
    int n = tsx_param("n", 3), set = tsx_param("set", 0), what = tsx_param("what", 0);
    const char *pre = "", *post = "";
    switch (tsx_param("ctx", 0)) {
    case 1: pre = "2*"; break;
    case 2: pre = "sin("; post = ")"; break;
    case 3: post = "+x"; break;
    case 4: pre = "("; break;
    case 5: pre = "x"; post = "y"; break;
    case 6: pre = "x"; post = "2"; break;
    case 7: pre = "(.5e"; post = ")"; break;
    case 8: pre = "-"; post = "^2"; break;
    case 9: pre = "x^y"; post = "z"; break;
    case 10: pre = "abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789_abcdefgh"; break; // a long word
    case 11: pre = "((((((((((((((((((((((((((((((((((((((((x+"; post = "))))))))))))))))))))))))))))))))))))))))"; break; // a long text
    case 12: pre = "x+2*(y-sin(3.5)/z1)^k%7|-q&m*x+2*(y-sin(3.5)/z1)^k%7|-q&m*x+2*(y-sin(3.5)/z1)^k%7|-q&m*x+2*(y-sin(3.5)/z1)^k%7|-q&m*x+2*(y-sin(3.5)/z1)^k%7|-q&m*x+2*(y-sin(3.5)/z1)^k%7|-q&m*x+2*(y-sin(3.5)/z1)^k%7|-q&m*x+2*(y-sin(3.5)/z1)^k%7|-q&m*x+2*(y-sin(3.5)/z1)^k%7|-q&m*"; break; // many words
    case 13: post = "+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1+1-x*y*z^2^3^w/8-x*y*z^2^3^w/8-x*y*z^2^3^w/8-x*y*z^2^3^w/8-x*y*z^2^3^w/8-x*y*z^2^3^w/8"; break;
    case 14: pre = "2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^2^"; post = "^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x^x"; break;
    }
    for (const char *p = pre; *p; p++) buf[len++] = *p;
    // a long run: a word, a number, white space, parentheses, an operator chain, signs or calls of any length in a range
    int run = tsx_param("run", 0), count = run ? tsx_param("len0", 0) + tsx_choice("len", tsx_param("lens", 70)) : 0;
    for (int i = 0; i < count; i++) {
        switch (run) {
        case 1: buf[len++] = "qZ_a9"[i % 5]; break;
        case 2: buf[len++] = "1730592846"[i % 10]; break;
        case 3: buf[len++] = " \t\n"[i % 3]; break;
        case 4: buf[len++] = '('; break;
        case 5: buf[len++] = i % 2 ? "*-^+/&%|"[i / 2 % 8] : '2'; break;
        case 6: buf[len++] = "-+"[i / 3 % 2]; break;
        case 7: buf[len++] = "exp("[i % 4]; break;
        case 8: buf[len++] = i == 1 ? '.' : i == 0 || i % 7 == 6 ? '5' : '0'; break;
        case 9: buf[len++] = "x^(-y%"[i % 6]; break;
        }
    }
    if (run == 4 || run == 7 || run == 9) {
        buf[len++] = '7';
        for (int i = 0; i < count; i++) if (run == 4 || i % (run == 7 ? 4 : 6) == (run == 7 ? 3 : 2)) buf[len++] = ')';
    }
    for (int i = 0; i < n; i++) {
        unsigned char c = tsx_byte("byte");
        if (set == 1) tsx_assume((c == '(') | (c == ')') | (c == '+') | (c == '*') | (c == '1') | (c == 'x') | (c == ' ') | (c == '.'));
        if (set == 2) tsx_assume((c == '(') | (c == ')') | (c == '-') | (c == '^') | (c == '2') | (c == 'e'));
        buf[len++] = (char)c;
    }
    for (const char *p = post; *p; p++) buf[len++] = *p;
    tsx_note(std::string(buf, (size_t)len).c_str());
    if (what) {
        Node got;
        bool plain = true; // without zero byte: also given as a C string
        for (int i = 0; i < len; i++) plain = plain & (buf[i] != 0);
        bool cstr = tsx_param("cstr", 0);
        if (cstr) tsx_assume(plain);
        try {
            got = cstr ? Parse(buf) : Parse(std::string(buf, (size_t)len));
        } catch (const std::exception &) {
        }
        R *want = nullptr;
        if (scan()) {
            Parser rp(tok, ntok);
            want = rp.all();
        }
        if (want) {
            tsx_cover("accepted");
            if (what & 1) {
                tsx_check(got != nullptr, "text of the grammar is accepted");
                tsx_check(got->Equal(build(want)), "the parsed tree is the grammar's tree");
                got->CheckParent();
            }
        } else {
            tsx_cover("rejected");
            if (what & 2) tsx_check(got == nullptr, "text outside the grammar is rejected with an exception");
        }
        return;
    }
    {
        std::string warm = "sin(x)";
        Parse(warm);
        try { Parse(std::string("1 1")); } catch (const std::exception &) {}
    }
    int before = tsx_live();
    {
        bool ok = false, threw = false;
        {
            char *text = new char[len ? len : 1];
            for (int i = 0; i < len; i++) text[i] = buf[i];
            try {
                Node t = Parse(internal::StringView(text, (size_t)len));
                ok = true;
                tsx_check(t != nullptr, "an accepted text gives an expression");
                t->CheckParent();
                t->ToString();
            } catch (const std::exception &e) {
                threw = true;
                tsx_check(e.what() != nullptr, "the exception has a message");
            } catch (...) {
                tsx_check(0, "rejection is an exception derived from std::exception");
            }
            delete[] text;
        }
        if (ok) tsx_cover("accepted");
        if (threw) tsx_cover("rejected");
    }
    tsx_check(tsx_live() == before, "parsing leaves nothing allocated");
}
