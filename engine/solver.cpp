#include "solver.h"
#include <chrono>
#include <unistd.h>
static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
Solver::Solver() : fp64(c) { fp64 = c.fpa_sort<64>(); }

static std::string ratStr(double d) {
    // exact rational of a finite double
    int ex;
    double m = std::frexp(d, &ex);
    i64 mi = (i64)std::ldexp(m, 53);
    ex -= 53;
    while (mi && !(mi & 1) && ex < 0) { mi >>= 1; ex++; }
    if (mi == 0) return "0";
    bool neg = mi < 0;
    unsigned __int128 num = (unsigned __int128)(neg ? -mi : mi);
    std::string s;
    auto mulPow2 = [](std::string dec, int k) {
        for (int i = 0; i < k; i++) {
            int carry = 0;
            for (int j = (int)dec.size() - 1; j >= 0; j--) {
                int x = (dec[j] - '0') * 2 + carry;
                dec[j] = (char)('0' + x % 10);
                carry = x / 10;
            }
            if (carry) dec = std::string(1, (char)('0' + carry)) + dec;
        }
        return dec;
    };
    std::string n;
    while (num) { n = std::string(1, (char)('0' + (int)(num % 10))) + n; num /= 10; }
    std::string den = "1";
    if (ex > 0) n = mulPow2(n, ex); else den = mulPow2(den, -ex);
    return (neg ? "-" : "") + n + (den == "1" ? "" : "/" + den);
}
z3::expr Solver::toZ(double d) {
    return c.real_val(ratStr(d).c_str());
}

z3::expr Solver::asBv(E e) {
    z3::expr x = bv(e);
    if (e->w == 1) return z3::ite(x, c.bv_val(1, 1), c.bv_val(0, 1));
    return x;
}
z3::expr Solver::bv(E e) {
    auto it = bvCache_[precise_].find(e->id);
    if (it != bvCache_[precise_].end()) return it->second;
    // children first (iteratively) to bound recursion
    std::vector<E> stk{e};
    while (!stk.empty()) {
        E x = stk.back();
        if (x->isF || bvCache_[precise_].count(x->id)) { stk.pop_back(); continue; }
        bool ready = true;
        if (x->op != O_UP)
            for (E ch : x->a)
                if (ch && !ch->isF && !bvCache_[precise_].count(ch->id)) { stk.push_back(ch); ready = false; }
        if (!ready) continue;
        stk.pop_back();
        bvCache_[precise_].emplace(x->id, bvRaw(x));
    }
    return bvCache_[precise_].find(e->id)->second;
}
z3::expr Solver::bvRaw(E e) {
    auto A = [&](int i) { return bv(e->a[i]); };
    bool b1 = e->w == 1;
    switch (e->op) {
    case O_CONST: return b1 ? c.bool_val(e->val) : c.bv_val((uint64_t)e->val, e->w);
    case O_SYM: {
        std::string n = "s" + std::to_string(e->val);
        return b1 ? c.bool_const(n.c_str()) : c.bv_const(n.c_str(), e->w);
    }
    case O_AND: return b1 ? (A(0) && A(1)) : (A(0) & A(1));
    case O_OR: return b1 ? (A(0) || A(1)) : (A(0) | A(1));
    case O_XOR:
        if (b1) return isTrue(e->a[1]) ? !A(0) : (A(0) != A(1));
        return A(0) ^ A(1);
    case O_EQ: return A(0) == A(1);
    case O_ITE: return z3::ite(A(0), A(1), A(2));
    case O_ULT: return z3::ult(asBv(e->a[0]), asBv(e->a[1]));
    case O_ULE: return z3::ule(asBv(e->a[0]), asBv(e->a[1]));
    case O_SLT: return z3::slt(asBv(e->a[0]), asBv(e->a[1]));
    case O_SLE: return z3::sle(asBv(e->a[0]), asBv(e->a[1]));
    case O_ZEXT: return z3::zext(asBv(e->a[0]), e->w - e->a[0]->w);
    case O_SEXT: return z3::sext(asBv(e->a[0]), e->w - e->a[0]->w);
    case O_CONCAT: return z3::concat(asBv(e->a[0]), asBv(e->a[1]));
    case O_EXTRACT: {
        z3::expr r = asBv(e->a[0]).extract((unsigned)e->val + e->w - 1, (unsigned)e->val);
        if (b1) return r == c.bv_val(1, 1);
        return r;
    }
    case O_FLT: case O_FLE: case O_FEQ: {
        if (REALMODE) {
            Frac x = re(e->a[0]), y = re(e->a[1]);
            if (x.one && y.one) return e->op == O_FLT ? x.n < y.n : e->op == O_FLE ? x.n <= y.n : x.n == y.n;
            if (e->op == O_FEQ) return x.n * y.d == y.n * x.d;
            z3::expr lhs = (x.n * y.d - y.n * x.d) * (x.d * y.d);
            return e->op == O_FLT ? lhs < 0 : lhs <= 0;
        }
        z3::expr x = fp(e->a[0]), y = fp(e->a[1]);
        return e->op == O_FLT ? z3::expr(c, Z3_mk_fpa_lt(c, x, y))
               : e->op == O_FLE ? z3::expr(c, Z3_mk_fpa_leq(c, x, y))
                                : z3::expr(c, Z3_mk_fpa_eq(c, x, y));
    }
    case O_FISNAN: return z3::expr(c, Z3_mk_fpa_is_nan(c, fp(e->a[0])));
    case O_FSAME: return fp(e->a[0]) == fp(e->a[1]);
    case O_FTOBITS: return z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, fp(e->a[0])));
    case O_FPTOSI: case O_FPTOUI:
        if (REALMODE) return c.bv_const(("toint" + std::to_string(e->id)).c_str(), e->w);
        if (!precise_) return c.function((std::string(opName[e->op]) + std::to_string(e->w)).c_str(), fp64, c.bv_sort(e->w))(fp(e->a[0]));
        if (e->op == O_FPTOSI) return z3::expr(c, Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), fp(e->a[0]), e->w));
        return z3::expr(c, Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), fp(e->a[0]), e->w));
    case O_UP: return c.bool_const(("up" + std::to_string(e->id)).c_str());
    default: break;
    }
    z3::expr x = asBv(e->a[0]), y = asBv(e->a[1]);
    z3::expr r(c);
    if (!precise_ && !REALMODE && e->w >= 16 && !isC(e->a[1]) && (e->op == O_UDIV || e->op == O_SDIV || e->op == O_UREM || e->op == O_SREM)) {
        z3::sort w = c.bv_sort(e->w);
        return c.function((std::string(opName[e->op]) + std::to_string(e->w)).c_str(), w, w, w)(x, y);
    }
    switch (e->op) {
    case O_ADD: r = x + y; break;
    case O_SUB: r = x - y; break;
    case O_MUL: r = x * y; break;
    case O_UDIV: r = z3::udiv(x, y); break;
    case O_SDIV: r = x / y; break;
    case O_UREM: r = z3::urem(x, y); break;
    case O_SREM: r = z3::srem(x, y); break;
    case O_SHL: r = z3::shl(x, y); break;
    case O_LSHR: r = z3::lshr(x, y); break;
    case O_ASHR: r = z3::ashr(x, y); break;
    default: fprintf(stderr, "bvRaw: op %s\n", opName[e->op]); abort();
    }
    if (b1) return r == c.bv_val(1, 1);
    return r;
}
z3::expr Solver::fp(E e) {
    auto &cache = fpCache[precise_];
    auto it = cache.find(e->id);
    if (it != cache.end()) return it->second;
    z3::expr r(c);
    auto F = [&](const char *nm, int n) {
        std::string name = nm;
        if (n == 1) return c.function(name.c_str(), fp64, fp64)(fp(e->a[0]));
        return c.function(name.c_str(), fp64, fp64, fp64)(fp(e->a[0]), fp(e->a[1]));
    };
    z3::expr rne(c, Z3_mk_fpa_rne(c));
    switch (e->op) {
    case O_CONST: {
        double d = asD(e->val);
        r = d != d ? c.fpa_nan(fp64) : z3::expr(c, Z3_mk_fpa_numeral_double(c, d, fp64));
        if (d == 0 && std::signbit(d)) r = z3::expr(c, Z3_mk_fpa_zero(c, fp64, true));
        break;
    }
    case O_SYM: r = c.constant(("s" + std::to_string(e->val)).c_str(), fp64); break;
    case O_FADD: r = precise_ ? z3::expr(c, Z3_mk_fpa_add(c, rne, fp(e->a[0]), fp(e->a[1]))) : F("fadd", 2); break;
    case O_FSUB: r = precise_ ? z3::expr(c, Z3_mk_fpa_sub(c, rne, fp(e->a[0]), fp(e->a[1]))) : F("fsub", 2); break;
    case O_FMUL: r = precise_ ? z3::expr(c, Z3_mk_fpa_mul(c, rne, fp(e->a[0]), fp(e->a[1]))) : F("fmul", 2); break;
    case O_FDIV: r = precise_ ? z3::expr(c, Z3_mk_fpa_div(c, rne, fp(e->a[0]), fp(e->a[1]))) : F("fdiv", 2); break;
    case O_FNEG: r = z3::expr(c, Z3_mk_fpa_neg(c, fp(e->a[0]))); break;
    case O_FABS: r = z3::expr(c, Z3_mk_fpa_abs(c, fp(e->a[0]))); break;
    case O_FFROMBITS: r = z3::expr(c, Z3_mk_fpa_to_fp_bv(c, bv(e->a[0]), fp64)); break;
    case O_SITOFP: case O_UITOFP:
        if (!precise_) {
            z3::expr x = asBv(e->a[0]);
            r = c.function((std::string(opName[e->op]) + std::to_string(x.get_sort().bv_size())).c_str(), x.get_sort(), fp64)(x);
        } else if (e->op == O_SITOFP) r = z3::expr(c, Z3_mk_fpa_to_fp_signed(c, rne, asBv(e->a[0]), fp64));
        else r = z3::expr(c, Z3_mk_fpa_to_fp_unsigned(c, rne, asBv(e->a[0]), fp64)); break;
    case O_FITE: r = z3::ite(bv(e->a[0]), fp(e->a[1]), fp(e->a[2])); break;
    case O_UF: r = F(("uf_" + ufNames[e->val]).c_str(), e->a[1] ? 2 : 1); break;
    default: fprintf(stderr, "fp: op %s\n", opName[e->op]); abort();
    }
    cache.emplace(e->id, r);
    return r;
}
Solver::Frac Solver::re(E e) {
    auto it = reCache.find(e->id);
    if (it != reCache.end()) return it->second;
    z3::expr one = c.real_val(1);
    Frac r{one, one, true};
    auto mul = [&](const z3::expr &x, const z3::expr &y) {
        if (x.is_numeral() && x.get_decimal_string(1) == "1") return y;
        if (y.is_numeral() && y.get_decimal_string(1) == "1") return x;
        return x * y;
    };
    switch (e->op) {
    case O_CONST: r.n = toZ(asD(e->val)); break;
    case O_SYM: r.n = c.real_const(("s" + std::to_string(e->val)).c_str()); break;
    case O_UF: r.n = c.real_const(("uf_" + ufNames[e->val] + std::to_string(e->id)).c_str()); break;
    case O_FADD: case O_FSUB: {
        Frac x = re(e->a[0]), y = re(e->a[1]);
        bool add = e->op == O_FADD;
        if (x.one && y.one) { r.n = add ? x.n + y.n : x.n - y.n; }
        else if (z3::eq(x.d, y.d)) { r.n = add ? x.n + y.n : x.n - y.n; r.d = x.d; r.one = false; }
        else {
            z3::expr l = mul(x.n, y.d), q = mul(y.n, x.d);
            r.n = add ? l + q : l - q;
            r.d = mul(x.d, y.d);
            r.one = false;
        }
        break;
    }
    case O_FMUL: {
        Frac x = re(e->a[0]), y = re(e->a[1]);
        r.n = mul(x.n, y.n); r.d = mul(x.d, y.d); r.one = x.one && y.one;
        break;
    }
    case O_FDIV: {
        Frac x = re(e->a[0]), y = re(e->a[1]);
        r.n = mul(x.n, y.d); r.d = mul(x.d, y.n); r.one = false;
        break;
    }
    case O_FNEG: { Frac x = re(e->a[0]); r = x; r.n = -x.n; break; }
    case O_SITOFP: case O_UITOFP:
        r.n = z3::to_real(z3::bv2int(asBv(e->a[0]), e->op == O_SITOFP));
        break;
    case O_FITE: {
        Frac x = re(e->a[1]), y = re(e->a[2]);
        z3::expr cnd = bv(e->a[0]);
        r.n = z3::ite(cnd, x.n, y.n);
        r.one = x.one && y.one;
        r.d = r.one ? one : z3::ite(cnd, x.d, y.d);
        break;
    }
    default: fprintf(stderr, "re: op %s\n", opName[e->op]); abort();
    }
    reCache.emplace(e->id, r);
    return r;
}
void Solver::collectUFs(E e, std::vector<E> &out, std::unordered_set<E> &seen) {
    std::vector<E> st{e};
    while (!st.empty()) {
        E x = st.back(); st.pop_back();
        if (!seen.insert(x).second) continue;
        if (x->op == O_UF || x->op == O_UP || (x->op == O_FPTOSI || x->op == O_FPTOUI)) out.push_back(x);
        for (E ch : x->a) if (ch) st.push_back(ch);
    }
}
z3::expr Solver::reEq(E a, E b) {
    Frac x = re(a), y = re(b);
    if (x.one && y.one) return x.n == y.n;
    return x.n * y.d == y.n * x.d;
}
void Solver::axioms(const std::vector<E> &cs, z3::solver &s) {
    if (!REALMODE) return;
    std::vector<E> ap;
    std::unordered_set<E> seen;
    for (E e : cs) collectUFs(e, ap, seen);
    static int SIN = ufId("sin"), COS = ufId("cos"), EXP = ufId("exp"), SQRT = ufId("sqrt"), POW = ufId("pow"), LOG = ufId("log");
    for (size_t i = 0; i < ap.size(); i++) {
        E x = ap[i];
        if (x->op == O_FPTOSI || x->op == O_FPTOUI) {
            for (int k : {0, 1, 2, -1, -2})
                if (k >= 0 || x->op == O_FPTOSI) s.add(z3::implies(reEq(x->a[0], mkD(k)), bv(x) == bv(mkC(x->w, (u64)(i64)k))));
        }
        if (x->op == O_UF) {
            z3::expr xn = re(x).n;
            int f = (int)x->val;
            // values at the points where the executor folds the function
            static const struct { const char *f; double at, is; } points[] = {{"exp", 0, 1}, {"sin", 0, 0}, {"cos", 0, 1},
                {"asin", 0, 0}, {"acos", 1, 0}, {"atan", 0, 0}, {"log", 1, 0}};
            for (auto &pt : points)
                if (ufNames[f] == pt.f)
                    s.add(z3::implies(reEq(x->a[0], mkD(pt.at)), xn == c.real_val((int)pt.is)));
            if (f == EXP) s.add(xn > 0);
            else if (f == SQRT) {
                Frac a = re(x->a[0]);
                s.add(xn >= 0);
                if (a.one) s.add(xn * xn == a.n); else s.add(xn * xn * a.d == a.n);
            } else if (f == SIN || f == COS) {
                s.add(xn >= -1 && xn <= 1);
            } else if (f == POW) {
                // recorded only for a non-negative base or an integer exponent: positive base gives a positive value
                s.add(z3::implies(bv(mkFCmp(O_FLT, mkD(0), x->a[0])), xn > 0));
                z3::expr p = re(x).n;
                Frac b = re(x->a[0]);
                s.add(z3::implies(reEq(x->a[1], mkD(1)), b.one ? p == b.n : p * b.d == b.n));
                s.add(z3::implies(reEq(x->a[1], mkD(2)), b.one ? p == b.n * b.n : p * b.d * b.d == b.n * b.n));
                s.add(z3::implies(reEq(x->a[1], mkD(-1)), p * b.n == b.d));
                s.add(z3::implies(reEq(x->a[1], mkD(0)) || reEq(x->a[0], mkD(1)), p == 1));
            } else if (f == LOG && !isC(x->a[0])) {
                E lt = mkFCmp(O_FLT, x->a[0], mkD(1)), gt = mkFCmp(O_FLT, mkD(1), x->a[0]);
                s.add(z3::implies(bv(lt), xn < 0) && z3::implies(bv(gt), xn > 0));
            } else if (f == LOG && isC(x->a[0])) {
                double v = std::log(asD(x->a[0]->val)); // the constant log(k) bracketed by neighbouring doubles
                s.add(xn > toZ(std::nextafter(v, -1e308)) && xn < toZ(std::nextafter(v, 1e308)));
            }
        }
        for (size_t j = 0; j < i; j++) {
            E y = ap[j];
            if (y->op == O_UF && x->op == O_UF && y->val != x->val) {
                if ((x->val == (u64)SIN && y->val == (u64)COS) || (x->val == (u64)COS && y->val == (u64)SIN))
                    s.add(z3::implies(reEq(x->a[0], y->a[0]), re(x).n * re(x).n + re(y).n * re(y).n == 1));
                continue;
            }
            if (y->op != x->op || y->val != x->val || y->w != x->w) continue;
            z3::expr same = reEq(x->a[0], y->a[0]);
            if (x->a[1]) same = same && reEq(x->a[1], y->a[1]);
            if (x->op == O_UF) s.add(z3::implies(same, re(x).n == re(y).n));
            else {
                s.add(z3::implies(same, bv(x) == bv(y)));
                static int ISINT = ufId("isint");
                if (x->op == O_UP && (int)x->val == ISINT) {
                    E one = mkD(1);
                    s.add(z3::implies(reEq(x->a[0], mkF2(O_FADD, y->a[0], one)) || reEq(y->a[0], mkF2(O_FADD, x->a[0], one)), bv(x) == bv(y)));
                }
            }
            if (x->op == O_UF && (int)x->val == POW) {
                // u^(v+1) = u^v * u
                z3::expr base = reEq(x->a[0], y->a[0]);
                E one = mkD(1);
                Frac b = re(x->a[0]);
                auto rel = [&](E big, E small) {
                    z3::expr step = reEq(big->a[1], mkF2(O_FADD, small->a[1], one));
                    s.add(z3::implies(base && step, re(big).n * b.d == re(small).n * b.n));
                };
                rel(x, y);
                rel(y, x);
            }
        }
    }
}
void Solver::extract(const std::vector<E> &cs, z3::model &m, Model *out) {
    std::set<u32> syms;
    for (E e : cs)
        for (u32 s : symsOf(e))
            if (!(s & 0x80000000u)) syms.insert(s);
    for (u32 s : syms) {
        E se = mkRaw(O_SYM, symTab[s].isF, symTab[s].w, 0, 0, 0, s);
        u64 bits = 0;
        if (se->isF) {
            if (REALMODE) {
                z3::expr v = m.eval(re(se).n, true);
                std::string ds;
                if (v.is_numeral()) {
                    ds = v.get_decimal_string(30);
                } else { // algebraic number
                    z3::expr lo = v.is_algebraic() ? v.algebraic_lower(20) : c.real_val(0);
                    ds = lo.get_decimal_string(30);
                }
                if (!ds.empty() && ds.back() == '?') ds.pop_back();
                bits = asB(strtod(ds.c_str(), nullptr));
            } else {
                z3::expr v = m.eval(fp(se), true);
                // the bits of a NaN are unspecified in the theory: any NaN will do
                z3::expr isn = m.eval(z3::expr(c, Z3_mk_fpa_is_nan(c, v)), true).simplify();
                z3::expr b = m.eval(z3::expr(c, Z3_mk_fpa_to_ieee_bv(c, v)), true).simplify();
                bits = !isn.is_true() && b.is_numeral() ? b.get_numeral_uint64() : asB(std::nan(""));
            }
        } else {
            z3::expr v = m.eval(bv(se), true);
            if (se->w == 1) bits = v.is_true();
            else if (v.is_numeral()) bits = v.get_numeral_uint64();
        }
        out->v[s] = bits;
    }
}
std::string Solver::smt2(const std::vector<E> &cs, bool precise) {
    precise_ = precise && !REALMODE;
    z3::solver s(c);
    axioms(cs, s);
    for (E e : cs) s.add(bv(e));
    return s.to_smt2();
}
Res Solver::runCvc5(z3::solver &s, int timeoutMs) {
    st.cvc5++;
    char fn[64];
    snprintf(fn, sizeof fn, "/tmp/tsx_q_%d.smt2", (int)getpid());
    FILE *f = fopen(fn, "w");
    if (!f) return UNKNOWN;
    std::string t = s.to_smt2();
    fprintf(f, "(set-logic ALL)\n%s\n", t.c_str());
    fclose(f);
    char cmd[256];
    snprintf(cmd, sizeof cmd, "cvc5 -q --tlimit=%d %s 2>/dev/null", timeoutMs, fn);
    FILE *p = popen(cmd, "r");
    char buf[256] = {0};
    Res r = UNKNOWN;
    if (p) {
        if (fgets(buf, sizeof buf, p)) {
            if (!strncmp(buf, "unsat", 5)) r = UNSAT;
        }
        pclose(p);
    }
    unlink(fn);
    return r;
}
Res Solver::check(const std::vector<E> &cs, Model *m, int timeoutMs, bool precise) {
    double t0 = now();
    precise_ = precise && !REALMODE;
    st.queries++;
    Res res = UNKNOWN;
    bool anyF = false;
    try {
        z3::params pr(c);
        pr.set("timeout", (unsigned)timeoutMs);
        z3::solver s(c);
        s.set(pr);
        axioms(cs, s);
        for (E e : cs) s.add(bv(e));
        z3::check_result r = s.check();
        if (r == z3::unknown && REALMODE) {
            st.escalated++;
            z3::solver s2 = z3::tactic(c, "qfnra-nlsat").mk_solver();
            z3::params p2(c);
            p2.set("timeout", (unsigned)timeoutMs);
            s2.set(p2);
            for (auto a : s.assertions()) s2.add(a);
            try { r = s2.check(); } catch (z3::exception &) { r = z3::unknown; }
            if (r == z3::sat && m) { z3::model mm = s2.get_model(); extract(cs, mm, m); }
        } else if (r == z3::sat && m) {
            z3::model mm = s.get_model();
            extract(cs, mm, m);
        }
        res = r == z3::sat ? SAT : r == z3::unsat ? UNSAT : UNKNOWN;
        if (res == UNKNOWN && useCvc5 && timeoutMs >= 3000) res = runCvc5(s, timeoutMs);
        if (res == UNKNOWN && !dumpDir.empty()) {
            static int k = 0;
            FILE *f = fopen((dumpDir + "/unk" + std::to_string(k++) + ".smt2").c_str(), "w");
            if (f) { fputs(s.to_smt2().c_str(), f); fclose(f); }
        }
    } catch (z3::exception &ex) {
        fprintf(stderr, "z3: %s\n", ex.msg());
        res = UNKNOWN;
    }
    (void)anyF;
    double dt = now() - t0;
    st.time += dt;
    st.maxTime = std::max(st.maxTime, dt);
    (res == SAT ? st.sat : res == UNSAT ? st.unsat : st.unknown)++;
    return res;
}
