// C35: errors carry their kind, their text and their position.
#include "gen.h"
using namespace tomsolver;

static const int KINDS = (int)ErrorType::SIZE_NOT_MATCH + 1;

static void kinds() {
    int k = tsx_int("kind", 0, KINDS - 1), n = tsx_param("n", 2);
    std::string ext;
    for (int i = 0; i < n; i++) {
        char c = (char)tsx_byte("byte");
        tsx_assume(c != 0);
        ext += c;
    }
    ErrorType t = (ErrorType)k;
    std::string text = GetErrorInfo(t);
    tsx_check(!text.empty(), "every kind has a text");
    for (int j = 0; j < KINDS; j++)
        if (j != k) tsx_check(GetErrorInfo((ErrorType)j) != text, "different kinds have different texts");
    std::string want = ext.empty() ? text : text + ": \"" + ext + "\"";
    try {
        if (n == 0) throw MathError(t);
        throw MathError(t, ext);
    } catch (const std::runtime_error &e) {
        tsx_check(want == e.what(), "the message is the kind's text and the extra information in quotes");
        const MathError *m = dynamic_cast<const MathError *>(&e);
        tsx_check(m != nullptr, "a mathematical error is a runtime error");
        if (m) {
            tsx_check(m->GetErrorType() == t, "the error reports its kind");
            MathError copy = *m;
            tsx_check(want == copy.what() && copy.GetErrorType() == t, "a copy says the same");
        }
    }
    tsx_cover("kind");
}

static void positions() {
    int n = tsx_param("n", 3);
    int pre = tsx_param("pre", 0);
    std::string s((size_t)pre, ' ');
    for (int i = 0; i < n; i++) {
        char c = (char)tsx_byte("byte");
        tsx_assume((c == '(') | (c == ')') | (c == '*') | (c == '1') | (c == 'x') | (c == ' ') | (tsx_param("plus", 0) & (c == '+'))
                   | (tsx_param("ws", 0) & (c == '\t' | c == '\n' | c == '\r')) | (tsx_param("high", 0) & (c == '\xc3' | c == '#')));
        s += c;
    }
    n += pre;
    enum { NONE, SINGLE, MULTI, MATH } kind = NONE;
    int pos = -1, line = -1;
    std::string what;
    try {
        Parse(s);
    } catch (const SingleParseError &e) {
        kind = SINGLE;
        pos = e.GetPos();
        line = e.GetLine();
        what = e.what();
    } catch (const MultiParseError &e) {
        kind = MULTI;
        what = e.what();
    } catch (const MathError &e) {
        kind = MATH;
        what = e.what();
    }
    tsx_note(what.c_str());
    // where the text is wrong
    int lexical = -1, closing = -1, adjacent = -1;
    std::vector<int> open;
    bool operand = true; // an operand is wanted
    for (int i = 0; i < n;) {
        char c = s[i];
        if (c == ' ' || c == '\t' || c == '\n' || c == '\r') { i++; continue; }
        if (c == '*' || c == '+') { operand = true; i++; continue; }
        if (c == '(') {
            if (!operand && adjacent < 0) adjacent = i;
            operand = true;
            open.push_back(i++);
            continue;
        }
        if (c == ')') {
            if (open.empty()) { if (closing < 0) closing = i; }
            else open.pop_back();
            operand = false;
            i++;
            continue;
        }
        int j = i;
        bool number = true;
        bool other = false; // a character no word has
        for (; j < n && (s[j] == '1' || s[j] == 'x' || s[j] == '\xc3' || s[j] == '#'); j++) {
            if (s[j] != '1') number = false;
            if (s[j] != '1' && s[j] != 'x') other = true;
        }
        if (((!number && s[i] == '1') || other) && lexical < 0) lexical = i;
        if (!operand && adjacent < 0) adjacent = i;
        operand = false;
        i = j;
    }
    if (n == 0) {
        tsx_check(kind == SINGLE && pos == 0 && line == 0, "empty text is an error at its beginning");
        return;
    }
    auto shown = [&](int p) {
        std::string mark = " at(0, " + std::to_string(p) + "):\n" + s + "\n" + std::string((size_t)p, ' ') + "^";
        return what.find(mark) != std::string::npos;
    };
    if (lexical >= 0) {
        tsx_cover("word");
        tsx_check(kind == SINGLE, "a word that is nothing is an error of its own");
        tsx_check(line == 0 && pos == lexical, "it carries the position of the word");
        tsx_check(shown(lexical), "its message shows the text with a marker under the word");
    } else if (closing >= 0) {
        tsx_cover("closing");
        tsx_check(kind == SINGLE, "a closing parenthesis without an opening one is an error of its own");
        tsx_check(line == 0 && pos == closing, "it carries the position of the parenthesis");
        tsx_check(shown(closing), "its message shows the text with a marker under the parenthesis");
    } else if (!open.empty()) {
        tsx_cover("opening");
        tsx_check(kind == SINGLE, "an opening parenthesis without a closing one is an error of its own");
        bool at = false;
        for (int p : open) at |= p == pos;
        tsx_check(line == 0 && at, "it carries the position of such a parenthesis");
        tsx_check(shown(pos), "its message shows the text with a marker under the parenthesis");
    } else if (adjacent >= 0) {
        tsx_cover("adjacent");
        tsx_check(kind != NONE && kind != SINGLE, "an operand after an operand is an error");
        if (kind == MULTI) tsx_check(shown(adjacent), "the message shows the text with a marker under the operand");
    } else {
        tsx_check(kind == NONE || kind == MATH, "any other text is fine or lacks an operand");
        if (kind == MATH) tsx_check(what == GetErrorInfo(ErrorType::ERROR_WRONG_EXPRESSION), "a lacking operand is reported as a wrong expression");
    }
}

extern "C" void harness_main() {
    if (tsx_param("what", 0)) positions();
    else kinds();
}
