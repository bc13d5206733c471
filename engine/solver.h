#pragma once
#include "expr.h"
#include <z3++.h>

enum Res { SAT, UNSAT, UNKNOWN };
struct Model {
    std::unordered_map<u32, u64> v; // symbol -> bits (doubles as IEEE bits, approximated in real mode)
    int seed = -1;                  // witnesses: selects the values of symbols without an entry
    u64 get(u32 s) const {
        auto it = v.find(s);
        if (it != v.end()) return it->second;
        if (!symTab[s].isF) return 0;
        if (seed < 0) return asB(1.0);
        static const double d[] = {0.5, 2, -1.5, 3, 1, 0, -0.25, 7, 1e300, -4, 0.75, 100.5};
        return asB(d[((u32)seed * 5 + s * 7) % 12]);
    }
};
struct SolverStats {
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, checkQueries = 0, modelHits = 0;
    double time = 0, maxTime = 0;
    u64 escalated = 0, cvc5 = 0;
};
class Solver {
public:
    Solver();
    // precise: interpret IEEE arithmetic exactly (otherwise + - * / are uninterpreted: UNSAT is still sound)
    Res check(const std::vector<E> &cs, Model *m, int timeoutMs, bool precise);
    std::string smt2(const std::vector<E> &cs, bool precise);
    SolverStats st;
    std::string dumpDir;
    int useCvc5 = 1;

private:
    z3::context c;
    z3::sort fp64;
    std::unordered_map<u32, z3::expr> bvCache_[2], fpCache[2];
    struct Frac { z3::expr n, d; bool one; };
    std::unordered_map<u32, Frac> reCache;
    std::unordered_map<u32, std::vector<E>> ufsCache;
    int precise_ = 0;
    z3::expr bv(E e);
    z3::expr bvRaw(E e);
    z3::expr asBv(E e); // width-1 as bit-vector
    z3::expr fp(E e);
    Frac re(E e);
    z3::expr reEq(E a, E b);
    z3::expr toZ(double d);
    void collectUFs(E e, std::vector<E> &out, std::unordered_set<E> &seen);
    void axioms(const std::vector<E> &cs, z3::solver &s);
    void extract(const std::vector<E> &cs, z3::model &m, Model *out);
    Res runCvc5(z3::solver &s, int timeoutMs);
};
