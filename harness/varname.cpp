// C18: exactly the legal names are accepted for variables; every byte symbolic over all 256 values.
#include "gen.h"
using namespace tomsolver;

static bool letter(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static bool legal(const std::string &s) {
    if (s.empty() || !letter(s[0])) return false;
    for (unsigned i = 1; i < s.size(); i++)
        if (!letter(s[i]) && !(s[i] >= '0' && s[i] <= '9')) return false;
    return true;
}

// two names one after the other: the first one must not matter to the second
static void two(int n, int m) {
    std::string a, b;
    for (int i = 0; i < n; i++) a += (char)tsx_byte("first");
    for (int i = 0; i < m; i++) b += (char)tsx_byte("second");
    if (tsx_param("front", 0)) b = a + b;
    bool ok[2] = {false, false};
    for (int i = 0; i < 2; i++) {
        try {
            Node v = Var(i ? b : a);
            ok[i] = true;
            tsx_check(v->ToString() == (i ? b : a), "the variable prints as its name");
        } catch (const std::runtime_error &) {
        }
    }
    tsx_check(ok[0] == legal(a), "a variable can be created exactly with a legal name");
    tsx_check(ok[1] == legal(b), "a variable can be created exactly with a legal name, whatever came before");
    tsx_check(VarNameIsLegal(a) == legal(a), "a name is legal exactly by the documented rule, whatever came before");
    tsx_cover(ok[0] && !ok[1] ? "legal, then illegal" : "other");
}

extern "C" void harness_main() {
    if (tsx_param("two", 0)) { two(tsx_param("n", 1), tsx_param("m", 1)); return; }
    int n = tsx_param("n", 2), pre = tsx_param("pre", 0), post = tsx_param("post", 0);
    std::string s;
    // a legal beginning and a legal end of the given lengths around the symbolic bytes
    for (int i = 0; i < pre; i++) s += "qZ_0a9"[i % 6];
    for (int i = 0; i < n; i++) s += (char)tsx_byte("byte");
    for (int i = 0; i < post; i++) s += "9_aQ"[i % 4];
    bool want = legal(s);
    tsx_check(VarNameIsLegal(s) == want, "a name is legal exactly by the documented rule");
    bool threw = false;
    Node v;
    try {
        v = Var(s);
    } catch (const std::runtime_error &) {
        threw = true;
    }
    tsx_check(threw == !want, "a variable can be created exactly with a legal name");
    if (!threw) {
        tsx_cover("legal");
        tsx_check(v->ToString() == s, "the variable prints as its name");
        tsx_check(v->GetAllVarNames() == std::set<std::string>{s}, "the variable reports its name");
        v->CheckParent();
    } else {
        tsx_cover("illegal");
        tsx_check(v == nullptr, "no variable after an error");
    }
}
