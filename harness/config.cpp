// C34: reset restores the documented defaults; no operation changes a setting; the log level changes no result.
#include "ops.h"
using namespace tomsolver;

static bool defaults(const Config &c) {
    return c.throwOnInvalidValue && c.epsilon == 1e-9 && c.logLevel == LogLevel::WARN && c.maxIterations == 100 &&
           c.nonlinearMethod == NonlinearMethod::NEWTON_RAPHSON && c.initialValue == 1 && !c.allowIndeterminateEquation;
}
static void same(const Config &a, const Config &b) {
    tsx_check(a.throwOnInvalidValue == b.throwOnInvalidValue, "the error switch is unchanged");
    tsx_check(tsx_same(a.epsilon, b.epsilon), "the tolerance is unchanged");
    tsx_check(a.logLevel == b.logLevel, "the log level is unchanged");
    tsx_check(a.maxIterations == b.maxIterations, "the iteration limit is unchanged");
    tsx_check(a.nonlinearMethod == b.nonlinearMethod, "the method is unchanged");
    tsx_check(tsx_same(a.initialValue, b.initialValue), "the initial value is unchanged");
    tsx_check(a.allowIndeterminateEquation == b.allowIndeterminateEquation, "the indeterminate switch is unchanged");
}
static void arbitrary(Config &c, bool all) {
    c.throwOnInvalidValue = tsx_int("throw", 0, 1);
    c.allowIndeterminateEquation = tsx_int("indeterminate", 0, 1);
    c.logLevel = (LogLevel)(all ? tsx_int("log", 0, 7) : tsx_param("log", 3));
    c.nonlinearMethod = (NonlinearMethod)(all ? tsx_int("method", -1000, 1000) : tsx_int("method", -1, 2));
    if (all) {
        c.maxIterations = tsx_int("limit", -1000000, 1000000);
        c.epsilon = tsx_double("epsilon");
        c.initialValue = tsx_double("initial");
    } else {
        c.maxIterations = tsx_int("limit", 0, tsx_param("it", 1));
        if (tsx_param("eps", 1)) c.epsilon = ops::number("epsilon", 1e-12, 1e-3);
        static const double st[] = {1, -0.5, 0, 4};
        c.initialValue = st[tsx_choice("initial", 4)];
    }
}
extern "C" void harness_main() {
    int what = tsx_param("what", 0);
    tsx_check(defaults(Config::Get()), "the settings start with their defaults");
    if (tsx_param("reset", 0)) {
        Config &c = Config::Get();
        tsx_check(&c == &Config::Get(), "there is one configuration");
        arbitrary(c, true);
        c.Reset();
        tsx_check(defaults(c) && defaults(Config::Get()), "reset restores every default");
        Config d;
        tsx_check(defaults(d), "a new configuration has the defaults");
        tsx_cover("reset");
        return;
    }
    ops::In in = ops::inputs(what);
    arbitrary(Config::Get(), false);
    if (what == ops::DAMPED && in.k[0] == 5) tsx_cover("two unknowns");
    Config before = Config::Get();
    double r = ops::perform(in);
    same(before, Config::Get());
    int level = tsx_param("level", -1);
    if (level >= 0) {
        Config::Get().logLevel = (LogLevel)level;
        double s = ops::perform(in);
        tsx_check(tsx_same(r, s), "the log level does not change the result");
        Config::Get().logLevel = before.logLevel;
        same(before, Config::Get());
        tsx_cover("level");
    }
    tsx_cover("unchanged");
}
