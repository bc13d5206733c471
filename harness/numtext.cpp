// C16: the text of a number is the formatted text with trailing zeros of the fraction removed.
#include "gen.h"
#include <cstdio>
#include <cstring>
using namespace tomsolver;

// removes the trailing zeros of the fraction, and the point if nothing follows it
static std::string trimmed(const std::string &s) {
    size_t e = s.find('e');
    std::string exp = e == std::string::npos ? "" : s.substr(e), m = e == std::string::npos ? s : s.substr(0, e);
    size_t dot = m.find('.');
    if (dot != std::string::npos) {
        size_t k = m.size();
        while (k > dot + 1 && m[k - 1] == '0') k--;
        if (k == dot + 1) k = dot;
        m = m.substr(0, k);
    }
    return m + exp;
}

extern "C" void harness_main() {
    int what = tsx_param("what", 0);
    if (what == 0) {
        double x = tsx_double("x");
        int range = tsx_param("range", 0); // 0: below 100, 1: large, 2: scientific, 3: tiny, 4: 100 to 10^6
        int neg = tsx_choice("negative", 2);
        double a = neg ? -x : x;
        if (range == 0) { tsx_assume(a > 1e-16); tsx_assume(a < 100); }
        else if (range == 1) { tsx_assume(a >= 1e6); tsx_assume(a < 1e16); }
        else if (range == 2) { tsx_assume(a >= 1e16); tsx_assume(a <= 1.7976931348623157e308); }
        else if (range == 4) { tsx_assume(a >= 100); tsx_assume(a < 1e6); }
        else { tsx_assume(a > 0); tsx_assume(a <= 1e-16); }
        bool sci = range == 2 || range == 3;
        char buf[64];
        snprintf(buf, sizeof buf, sci ? "%.16e" : "%.16f", x);
        std::string want = trimmed(buf);
        std::string got = ToString(x);
        tsx_check(got == want, "the text is the shortened 16-decimal text");
        tsx_check(Num(x)->ToString() == got, "a number node prints as its number");
        tsx_cover(sci ? "scientific" : "fixed");
        return;
    }
    static const double k[] = {0.0, -0.0, 1, -1, 10, 100, 1e6, 1e15, 9999999999999998.0, 1e16, -1e16, 1e17, 1e22, 1e100, 1e300, 1.7976931348623157e308,
        0.1, 0.5, 0.25, -0.001, 1e-15, 1.5e-16, 1e-16, 1.0000000000000001e-16, -1e-16, 9e-17, 1e-20, 5e-324, 123456.789, 1020304050607080.0, 2.5e-200, 100.5, 1000000.25, 1234567890123456.0,
        // the longest texts
        -34359738368.0000076293945312, -17179869184.000003814697265625, -123456789.1, -8589934592.0000019073486328125, -1.7976931348623157e308, -2.2250738585072014e-308, -1.2345678901234567e-300};
    static const char *const t[] = {"0", "0", "1", "-1", "10", "100", "1000000", "1000000000000000", "9999999999999998", "1e+16", "-1e+16", "1e+17", "1e+22", "1e+100", nullptr, nullptr,
        nullptr, "0.5", "0.25", nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, "1020304050607080", nullptr, "100.5", "1000000.25", "1234567890123456",
        "-34359738368.0000076293945312", "-17179869184.0000038146972656", nullptr, nullptr, "-1.7976931348623157e+308", nullptr, nullptr};
    int i = tsx_choice("number", sizeof k / sizeof k[0]);
    double x = k[i];
    std::string got = ToString(x);
    char buf[64];
    double a = x < 0 ? -x : x;
    snprintf(buf, sizeof buf, a >= 1e16 || a <= 1e-16 ? "%.16e" : "%.16f", x);
    tsx_check(got == (x == 0 ? "0" : trimmed(buf)), "the text is the shortened 16-decimal text");
    if (t[i]) tsx_check(got == t[i], "the text is the documented one");
    bool threw = false;
    try {
        double back = Parse(got)->Vpa();
        double d = back - x;
        tsx_check((d < 0 ? -d : d) <= (a >= 1e16 || a <= 1e-16 ? a * 1e-16 : 1e-16), "the text parses back to the number, up to the digits printed");
    } catch (const std::exception &) { threw = true; }
    tsx_check(!threw, "the text parses");
    tsx_cover("concrete");
}
