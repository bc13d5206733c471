// C24: histories of variable tables, against a plain list of (name, value) pairs.
#include "gen.h"
#include <sstream>
using namespace tomsolver;

static const char *NAME[48] = {"b", "a", "_c", "b1", "v10", "v2", "V2", "zz", "a_long_name_that_does_not_fit_into_a_short_string", "x", "y", "z", "x1", "x10", "x2", "X", "_", "__", "k", "B", "c", "w", "u9", "t", "b10", "b2", "A", "AA", "aa", "ab", "a1", "a10", "a9", "Z", "yy", "x3", "x20", "x11", "u10", "u8", "m", "l", "_1", "__1", "w1", "w0", "q", "p"};
static int names = 4; // how many of them are in use
struct M { // the mapping, in the order the table lists its names
    int n = 0;
    int name[48];
    double v[48];
    int find(int k) const {
        for (int i = 0; i < n; i++) if (name[i] == k) return i;
        return -1;
    }
};
static void sortNames(M &m) {
    for (int i = 0; i < m.n; i++)
        for (int j = i + 1; j < m.n; j++)
            if (std::string(NAME[m.name[j]]) < NAME[m.name[i]]) {
                int t = m.name[i]; m.name[i] = m.name[j]; m.name[j] = t;
                double d = m.v[i]; m.v[i] = m.v[j]; m.v[j] = d;
            }
}
static void agree(const VarsTable &t, const M &m, bool text) {
    tsx_check(t.VarNums() == m.n, "the number of variables");
    tsx_check((int)t.Vars().size() == m.n && t.Values().Rows() == m.n && t.Values().Cols() == 1, "as many names and values as variables");
    for (int i = 0; i < m.n; i++) {
        tsx_check(t.Vars()[i] == NAME[m.name[i]], "the names in their order");
        tsx_check(tsx_same(t.Values()[i], m.v[i]), "each value stands at the place of its name");
    }
    for (int k = 0; k < names; k++) {
        int at = m.find(k);
        tsx_check(t.Has(NAME[k]) == (at >= 0), "membership");
        double v = 0;
        bool threw = false;
        try {
            v = t[NAME[k]];
        } catch (const std::out_of_range &) { threw = true; }
        tsx_check(threw == (at < 0), "looking up an unknown name throws, a known one does not");
        if (at >= 0 && !threw) tsx_check(tsx_same(v, m.v[at]), "the value of a name");
    }
    M s = m;
    sortNames(s);
    int i = 0;
    std::string want;
    for (auto &p : t) {
        tsx_check(i < s.n && p.first == NAME[s.name[i]] && tsx_same(p.second, s.v[i]), "iteration lists the mapping in name order");
        i++;
    }
    tsx_check(i == s.n, "iteration lists every variable once");
    tsx_check(t.cbegin() == t.begin() && t.cend() == t.end(), "iterators");
    if (text) {
        for (i = 0; i < s.n; i++) want += std::string(NAME[s.name[i]]) + " = " + ToString(s.v[i]) + "\n";
        tsx_check(t.ToString() == want, "the text lists the mapping in name order");
        std::ostringstream os;
        os << t;
        tsx_check(os.str() == want, "streaming prints the same text");
    }
}
static bool text;
static double value(const char *n) {
    static const double k[3] = {1, -2.5, 30};
    if (text) return k[tsx_choice(n, 3)];
    double v = tsx_double(n);
    tsx_assume(v >= -1.7976931348623157e308);
    tsx_assume(v <= 1.7976931348623157e308);
    return v;
}
// a table of n distinct names in any order, made in one of the ways; m: what it should be
static VarsTable make(int n, M &m) {
    m.n = n;
    unsigned used = 0;
    int pool = tsx_param("pool", 4);
    if (n > 4) { // a larger table: the names in a fixed order
        names = n > 20 ? 48 : 24;
        int off = tsx_choice("first", 2) * 11;
        for (int i = 0; i < n; i++) m.name[i] = (7 * i + off) % names;
    }
    else for (int i = 0; i < n; i++) {
        m.name[i] = tsx_choice("name", pool);
        if (used >> m.name[i] & 1) tsx_assume(0);
        used |= 1u << m.name[i];
    }
    int how = tsx_choice("how", n > 4 ? 2 : 3);
    if (how == 0) {
        double init = value("init");
        std::vector<std::string> v;
        for (int i = 0; i < n; i++) { m.v[i] = init; v.push_back(NAME[m.name[i]]); }
        return VarsTable(v, init);
    }
    for (int i = 0; i < n; i++) m.v[i] = value("v");
    M o = m;
    sortNames(m);
    if (how == 1) {
        std::map<std::string, double> v;
        for (int i = 0; i < n; i++) v[NAME[o.name[i]]] = o.v[i];
        return VarsTable(v);
    }
    if (n == 1) return VarsTable{{NAME[o.name[0]], o.v[0]}};
    if (n == 2) return VarsTable{{NAME[o.name[0]], o.v[0]}, {NAME[o.name[1]], o.v[1]}};
    return VarsTable{{NAME[o.name[0]], o.v[0]}, {NAME[o.name[1]], o.v[1]}, {NAME[o.name[2]], o.v[2]}};
}
static bool equalTables(const M &a, const M &b, double eps) {
    if (a.n != b.n) return false;
    bool r = true;
    for (int i = 0; i < a.n; i++) {
        int j = b.find(a.name[i]);
        if (j < 0) return false;
        r &= std::fabs(a.v[i] - b.v[j]) <= eps;
    }
    return r;
}

extern "C" void harness_main() {
    int n = tsx_param("n", 2), steps = tsx_param("steps", 1);
    text = tsx_param("text", 0);
    M m;
    VarsTable t = make(n, m);
    if (tsx_param("cmp", -1) >= 0) {
        double eps = tsx_double("eps");
        tsx_assume(eps >= 0);
        Config::Get().epsilon = eps;
        M k;
        VarsTable u = make(tsx_param("cmp", 1), k);
        bool want = equalTables(m, k, eps);
        tsx_check((t == u) == want, "equal exactly when the names are the same and the values within the tolerance");
        tsx_check((u == t) == want, "equality is symmetric");
        tsx_check(t == t, "a table equals itself");
        VarsTable c(t);
        tsx_check(t == c, "a table equals its copy");
        tsx_cover(want ? "equal" : "not equal");
        return;
    }
    agree(t, m, text);
    VarsTable u(t);
    M k = m;
    for (int s = 0; s < steps; s++) {
        switch (tsx_choice("step", 5)) {
        case 0: {
            Vec v(n);
            for (int i = 0; i < n; i++) { m.v[i] = value("new"); v[i] = m.v[i]; }
            t.SetValues(v);
            v[0] = 7;
            break;
        }
        case 1: {
            t.SetValues(t.Values());
            break;
        }
        case 2:
            t = u;
            m = k;
            break;
        case 3: {
            VarsTable c(t);
            Vec v(n, value("fill"));
            c.SetValues(v);
            for (int i = 0; i < n; i++) { k.n = m.n; k.name[i] = m.name[i]; k.v[i] = v[i]; }
            u = std::move(c);
            break;
        }
        default: {
            VarsTable c(std::map<std::string, double>(t.begin(), t.end()));
            t = c;
            sortNames(m);
            break;
        }
        }
        agree(t, m, text);
        agree(u, k, false);
    }
    tsx_cover("history");
}
