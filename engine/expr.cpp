#include "expr.h"
#include <functional>

bool REALMODE = false;
std::vector<SymInfo> symTab;
std::vector<std::string> ufNames;
std::unordered_set<const Expr *, KeyHash, KeyEq> exprTab;
std::deque<Expr> exprPool;

int ufId(const std::string &name) {
    for (size_t i = 0; i < ufNames.size(); i++)
        if (ufNames[i] == name) return (int)i;
    ufNames.push_back(name);
    return (int)ufNames.size() - 1;
}
E mkSym(const std::string &name, int w, bool isF, bool undef) {
    SymInfo s; s.name = name; s.w = w; s.isF = isF; s.undef = undef;
    symTab.push_back(s);
    return mkRaw(O_SYM, isF, w, 0, 0, 0, symTab.size() - 1);
}
E mkNot(E a) {
    if (isC(a)) return mkB(!a->val);
    if (a->op == O_XOR && isTrue(a->a[1])) return a->a[0];
    return mkRaw(O_XOR, false, 1, a, mkB(true));
}
static bool isNotOf(E a, E b) { return a->op == O_XOR && a->w == 1 && isTrue(a->a[1]) && a->a[0] == b; }
E mkAnd(E a, E b) { return mkBin(O_AND, a, b); }
E mkOr(E a, E b) { return mkBin(O_OR, a, b); }

static u64 mulInv(u64 a, int w) {
    u64 x = a;
    for (int i = 0; i < 7; i++) x *= 2 - a * x;
    return x & maskw(w);
}

E mkBin(Op op, E a, E b) {
    int w = a->w;
    assert(!a->isF && !b->isF && a->w == b->w);
    bool ca = isC(a), cb = isC(b);
    if (ca && cb) {
        u64 x = a->val, y = b->val;
        i64 sxv = sx(x, w), sy = sx(y, w);
        switch (op) {
        case O_ADD: return mkC(w, x + y);
        case O_SUB: return mkC(w, x - y);
        case O_MUL: return mkC(w, x * y);
        case O_UDIV: if (y) return mkC(w, x / y); break;
        case O_UREM: if (y) return mkC(w, x % y); break;
        case O_SDIV: if (y && !(sy == -1)) return mkC(w, (u64)(sxv / sy)); if (sy == -1) return mkC(w, 0 - x); break;
        case O_SREM: if (y && !(sy == -1)) return mkC(w, (u64)(sxv % sy)); if (sy == -1) return mkC(w, 0); break;
        case O_AND: return mkC(w, x & y);
        case O_OR: return mkC(w, x | y);
        case O_XOR: return mkC(w, x ^ y);
        case O_SHL: return mkC(w, y >= (u64)w ? 0 : x << y);
        case O_LSHR: return mkC(w, y >= (u64)w ? 0 : x >> y);
        case O_ASHR: return mkC(w, (u64)(sxv >> (y >= (u64)w ? w - 1 : y)));
        case O_ULT: return mkB(x < y);
        case O_ULE: return mkB(x <= y);
        case O_SLT: return mkB(sxv < sy);
        case O_SLE: return mkB(sxv <= sy);
        case O_EQ: return mkB(x == y);
        default: break;
        }
    }
    // constants to the right for commutative operators
    if (op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ) {
        if (ca || (!cb && a->id > b->id)) { std::swap(a, b); std::swap(ca, cb); }
    }
    switch (op) {
    case O_ADD:
        if (cb && b->val == 0) return a;
        if (cb && a->op == O_ADD && isC(a->a[1])) return mkBin(O_ADD, a->a[0], mkC(w, a->a[1]->val + b->val));
        break;
    case O_SUB:
        if (cb) return mkBin(O_ADD, a, mkC(w, 0 - b->val));
        if (a == b) return mkC(w, 0);
        if (a->op == O_ADD && a->a[0] == b) return a->a[1];
        if (a->op == O_ADD && a->a[1] == b) return a->a[0];
        break;
    case O_MUL:
        if (cb && b->val == 0) return b;
        if (cb && b->val == 1) return a;
        break;
    case O_AND:
        if (cb && b->val == 0) return b;
        if (cb && b->val == maskw(w)) return a;
        if (a == b) return a;
        if (w == 1 && (isNotOf(a, b) || isNotOf(b, a))) return mkB(false);
        if (cb && a->op == O_ZEXT && (b->val & maskw(a->a[0]->w)) == maskw(a->a[0]->w)) return a;
        break;
    case O_OR:
        if (cb && b->val == 0) return a;
        if (cb && b->val == maskw(w)) return b;
        if (a == b) return a;
        if (w == 1 && (isNotOf(a, b) || isNotOf(b, a))) return mkB(true);
        break;
    case O_XOR:
        if (cb && b->val == 0) return a;
        if (a == b) return mkC(w, 0);
        if (w == 1 && cb) return mkNot(a);
        if (cb && a->op == O_XOR && isC(a->a[1])) return mkBin(O_XOR, a->a[0], mkC(w, a->a[1]->val ^ b->val));
        break;
    case O_SHL: case O_LSHR: case O_ASHR:
        if (cb && b->val == 0) return a;
        break;
    case O_UDIV: case O_SDIV:
        if (cb && b->val == 1) return a;
        break;
    case O_ULT:
        if (a == b) return mkB(false);
        if (cb && b->val == 0) return mkB(false);
        if (cb && b->val == 1) return mkEq(a, mkC(w, 0));
        if (cb && a->op == O_ZEXT) {
            int iw = a->a[0]->w;
            if (b->val > maskw(iw)) return mkB(true);
            return mkBin(O_ULT, a->a[0], mkC(iw, b->val));
        }
        if (ca && b->op == O_ZEXT) {
            int iw = b->a[0]->w;
            if (a->val >= maskw(iw)) return mkB(false);
            return mkBin(O_ULT, mkC(iw, a->val), b->a[0]);
        }
        break;
    case O_ULE:
        return mkNot(mkBin(O_ULT, b, a));
    case O_SLT:
        if (a == b) return mkB(false);
        if (cb && a->op == O_ZEXT) {
            i64 c = sx(b->val, w); int iw = a->a[0]->w;
            if (c <= 0) return mkB(false);
            if ((u64)c > maskw(iw)) return mkB(true);
            return mkBin(O_ULT, a->a[0], mkC(iw, (u64)c));
        }
        if (ca && b->op == O_ZEXT) {
            i64 c = sx(a->val, w); int iw = b->a[0]->w;
            if (c < 0) return mkB(true);
            if ((u64)c >= maskw(iw)) return mkB(false);
            return mkBin(O_ULT, mkC(iw, (u64)c), b->a[0]);
        }
        if (cb && a->op == O_SEXT) {
            i64 c = sx(b->val, w); int iw = a->a[0]->w;
            i64 lo = -(1ll << (iw - 1)), hi = (1ll << (iw - 1)) - 1;
            if (c > hi) return mkB(true);
            if (c <= lo) return mkB(false);
            return mkBin(O_SLT, a->a[0], mkC(iw, (u64)c));
        }
        if (ca && b->op == O_SEXT) {
            i64 c = sx(a->val, w); int iw = b->a[0]->w;
            i64 lo = -(1ll << (iw - 1)), hi = (1ll << (iw - 1)) - 1;
            if (c >= hi) return mkB(false);
            if (c < lo) return mkB(true);
            return mkBin(O_SLT, mkC(iw, (u64)c), b->a[0]);
        }
        break;
    case O_SLE:
        return mkNot(mkBin(O_SLT, b, a));
    case O_EQ:
        if (a == b) return mkB(true);
        if (w == 1) {
            if (cb) return b->val ? a : mkNot(a);
            if (isNotOf(a, b) || isNotOf(b, a)) return mkB(false);
        }
        if (cb) {
            if (a->op == O_ZEXT) {
                int iw = a->a[0]->w;
                if (b->val > maskw(iw)) return mkB(false);
                return mkEq(a->a[0], mkC(iw, b->val));
            }
            if (a->op == O_SEXT) {
                int iw = a->a[0]->w;
                if ((u64)(sx(b->val, iw) & (i64)maskw(w)) != b->val) return mkB(false);
                return mkEq(a->a[0], mkC(iw, b->val));
            }
            if (a->op == O_ITE) {
                E t = a->a[1], f = a->a[2];
                if (isC(t) || isC(f)) {
                    E et = mkEq(t, b), ef = mkEq(f, b);
                    return mkOr(mkAnd(a->a[0], et), mkAnd(mkNot(a->a[0]), ef));
                }
            }
            if (a->op == O_ADD && isC(a->a[1])) return mkEq(a->a[0], mkC(w, b->val - a->a[1]->val));
            if (a->op == O_XOR && isC(a->a[1])) return mkEq(a->a[0], mkC(w, b->val ^ a->a[1]->val));
            if (a->op == O_MUL && isC(a->a[1]) && (a->a[1]->val & 1))
                return mkEq(a->a[0], mkC(w, b->val * mulInv(a->a[1]->val, w)));
            if (a->op == O_CONCAT) {
                int lw = a->a[1]->w;
                return mkAnd(mkEq(a->a[0], mkC(a->a[0]->w, b->val >> lw)), mkEq(a->a[1], mkC(lw, b->val)));
            }
        }
        if ((a->op == O_ZEXT && b->op == O_ZEXT) || (a->op == O_SEXT && b->op == O_SEXT))
            if (a->a[0]->w == b->a[0]->w) return mkEq(a->a[0], b->a[0]);
        break;
    default: break;
    }
    int rw = (op == O_EQ || op == O_ULT || op == O_SLT) ? 1 : w;
    return mkRaw(op, false, rw, a, b);
}
E mkEq(E a, E b) { return mkBin(O_EQ, a, b); }
E mkIte(E c, E a, E b) {
    if (isTrue(c)) return a;
    if (isFalse(c)) return b;
    if (a == b) return a;
    assert(a->isF == b->isF && a->w == b->w);
    if (!a->isF && a->w == 1) {
        if (isTrue(a)) return mkOr(c, b);
        if (isFalse(a)) return mkAnd(mkNot(c), b);
        if (isTrue(b)) return mkOr(mkNot(c), a);
        if (isFalse(b)) return mkAnd(c, a);
    }
    if (c->op == O_XOR && isTrue(c->a[1])) return mkIte(c->a[0], b, a);
    return mkRaw(a->isF ? O_FITE : O_ITE, a->isF, a->w, c, a, b);
}
E mkZext(E a, int w) {
    if (a->w == w) return a;
    if (isC(a)) return mkC(w, a->val);
    if (a->op == O_ZEXT) return mkZext(a->a[0], w);
    if (a->op == O_ITE && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mkZext(a->a[1], w), mkZext(a->a[2], w));
    return mkRaw(O_ZEXT, false, w, a);
}
E mkSext(E a, int w) {
    if (a->w == w) return a;
    if (isC(a)) return mkC(w, (u64)sx(a->val, a->w));
    if (a->op == O_SEXT) return mkSext(a->a[0], w);
    if (a->op == O_ZEXT) return mkZext(a->a[0], w);
    if (a->op == O_ITE && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mkSext(a->a[1], w), mkSext(a->a[2], w));
    return mkRaw(O_SEXT, false, w, a);
}
E mkExtract(E a, int lo, int w) {
    if (lo == 0 && a->w == w) return a;
    if (isC(a)) return mkC(w, a->val >> lo);
    if (a->op == O_EXTRACT) return mkExtract(a->a[0], lo + (int)a->val, w);
    if (a->op == O_ZEXT || a->op == O_SEXT) {
        int iw = a->a[0]->w;
        if (lo + w <= iw) return mkExtract(a->a[0], lo, w);
        if (lo >= iw && a->op == O_ZEXT) return mkC(w, 0);
        if (lo == 0) return a->op == O_ZEXT ? mkZext(a->a[0], w) : mkSext(a->a[0], w);
    }
    if (a->op == O_CONCAT) {
        int lw = a->a[1]->w;
        if (lo + w <= lw) return mkExtract(a->a[1], lo, w);
        if (lo >= lw) return mkExtract(a->a[0], lo - lw, w);
    }
    if (a->op == O_ITE && isC(a->a[1]) && isC(a->a[2]))
        return mkIte(a->a[0], mkExtract(a->a[1], lo, w), mkExtract(a->a[2], lo, w));
    if (lo == 0 && (a->op == O_AND || a->op == O_OR || a->op == O_XOR))
        return mkBin(a->op, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w));
    return mkRaw(O_EXTRACT, false, w, a, 0, 0, lo);
}
E mkTrunc(E a, int w) { return mkExtract(a, 0, w); }
E mkConcat(E hi, E lo) {
    int w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return mkC(w, hi->val << lo->w | lo->val);
    if (isC(hi) && hi->val == 0) return mkZext(lo, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a[0] == lo->a[0] && hi->val == lo->val + lo->w)
        return mkExtract(hi->a[0], (int)lo->val, w);
    if (hi->op == O_EXTRACT && hi->a[0] == lo && hi->val == (u64)lo->w) return mkExtract(lo, 0, w);
    return mkRaw(O_CONCAT, false, w, hi, lo);
}
// ---- doubles -------------------------------------------------------------------------------------------------
static bool exactSum(double x, double y, double s) {
    if (!std::isfinite(s)) return true;
    volatile double bb = s - x;
    volatile double err = (x - (s - bb)) + (y - bb);
    return err == 0;
}
E mkF2(Op op, E a, E b) {
    if (isC(a) && isC(b)) {
        double x = asD(a->val), y = asD(b->val), r = 0;
        bool exact = false;
        bool nonfin = !std::isfinite(x) || !std::isfinite(y);
        switch (op) {
        case O_FADD: r = x + y; exact = exactSum(x, y, r); break;
        case O_FSUB: r = x - y; exact = exactSum(x, -y, r); break;
        case O_FMUL: r = x * y; exact = std::fma(x, y, -r) == 0 && !(r == 0 && x != 0 && y != 0); break;
        case O_FDIV: r = x / y; exact = y == 0 || std::fma(r, y, -x) == 0; break;
        default: abort();
        }
        if (!REALMODE || nonfin || exact) return mkD(r);
    }
    if (REALMODE) {
        auto isZ = [](E e) { return isC(e) && asD(e->val) == 0; };
        auto isOne = [](E e) { return isC(e) && asD(e->val) == 1; };
        switch (op) {
        case O_FADD: if (isZ(a)) return b; if (isZ(b)) return a; break;
        case O_FSUB: if (isZ(b)) return a; if (isZ(a)) return mkFNeg(b); if (a == b) return mkD(0); break;
        case O_FMUL: if (isZ(a)) return mkD(0); if (isZ(b)) return mkD(0); if (isOne(a)) return b; if (isOne(b)) return a; break;
        case O_FDIV: if (isOne(b)) return a; break; // 0/b is decided by the executor (b may be 0)
        default: break;
        }
    }
    if (op == O_FADD || op == O_FMUL)
        if (a->id > b->id && !isC(b)) std::swap(a, b); // IEEE + and * are commutative (NaN payloads are not observed)
    if ((op == O_FADD || op == O_FMUL) && isC(b) && !isC(a)) std::swap(a, b);
    return mkRaw(op, true, 64, a, b);
}
E mkFNeg(E a) {
    if (isC(a)) return mkDB(a->val ^ (1ull << 63));
    if (a->op == O_FNEG) return a->a[0];
    return mkRaw(O_FNEG, true, 64, a);
}
E mkFAbs(E a) {
    if (isC(a)) return mkDB(a->val & ~(1ull << 63));
    if (a->op == O_FABS) return a;
    if (a->op == O_FNEG) return mkFAbs(a->a[0]);
    if (a->op == O_FSUB && a->a[1]->id < a->a[0]->id) a = mkF2(O_FSUB, a->a[1], a->a[0]); // |x-y| is |y-x|, rounding included
    return mkRaw(O_FABS, true, 64, a);
}
E mkFCmp(Op op, E a, E b) {
    if (isC(a) && isC(b)) {
        double x = asD(a->val), y = asD(b->val);
        return mkB(op == O_FLT ? x < y : op == O_FLE ? x <= y : x == y);
    }
    if (REALMODE) {
        auto special = [](E e) { return isC(e) && !std::isfinite(asD(e->val)); };
        if (special(a) || special(b)) {
            E s = special(a) ? a : b;
            double v = asD(s->val);
            if (v != v || op == O_FEQ) return mkB(false);
            return mkB(s == a ? v < 0 : v > 0);
        }
        if (a == b) return mkB(op != O_FLT);
    }
    if (op == O_FEQ && a->id > b->id) std::swap(a, b);
    if (a == b) {
        if (op == O_FLT) return mkB(false);
        return mkNot(mkFIsNan(a));
    }
    if (isC(a) && asD(a->val) != asD(a->val)) return mkB(false);
    if (isC(b) && asD(b->val) != asD(b->val)) return mkB(false);
    // converted integers: compare with constants as integers
    for (int k = 0; k < 2; k++) {
        E x = k ? b : a, y = k ? a : b;
        if (!(x->op == O_SITOFP || x->op == O_UITOFP) || !isC(y)) continue;
        double d = asD(y->val);
        if (std::fabs(d) > 1e20) {
            if (op == O_FEQ) return mkB(false);
            return mkB((d > 0) == (k == 0)); // x < +big, or -big < x
        }
        if (op == O_FEQ && x->op == O_SITOFP && x->a[0]->w <= 53) {
            if (d != std::floor(d) || std::fabs(d) > 9e15) return mkB(false);
            i64 v = (i64)d;
            int w = x->a[0]->w;
            if (v < -(1ll << (w - 1)) || v >= (1ll << (w - 1))) return mkB(false);
            return mkEq(x->a[0], mkC(w, (u64)v));
        }
    }
    return mkRaw(op, false, 1, a, b);
}
E mkFIsNan(E a) {
    if (isC(a)) return mkB(asD(a->val) != asD(a->val));
    if (REALMODE) return mkB(false);
    if (a->op == O_SITOFP || a->op == O_UITOFP) return mkB(false);
    if (a->op == O_FNEG || a->op == O_FABS) return mkFIsNan(a->a[0]);
    return mkRaw(O_FISNAN, false, 1, a);
}
E mkFSame(E a, E b) {
    if (a == b) return mkB(true);
    if (isC(a) && isC(b)) {
        double x = asD(a->val), y = asD(b->val);
        if (x != x && y != y) return mkB(true);
        if (REALMODE) return mkB(x == y);
        return mkB(a->val == b->val);
    }
    if (REALMODE) return mkFCmp(O_FEQ, a, b);
    if (a->id > b->id) std::swap(a, b);
    return mkRaw(O_FSAME, false, 1, a, b);
}
E mkToBits(E a) {
    if (isC(a)) return mkC(64, a->val);
    if (a->op == O_FFROMBITS) return a->a[0];
    return mkRaw(O_FTOBITS, false, 64, a);
}
E mkFromBits(E a) {
    if (isC(a)) return mkDB(a->val);
    if (a->op == O_FTOBITS) return a->a[0];
    return mkRaw(O_FFROMBITS, true, 64, a);
}
E mkSIToFP(E a) {
    if (isC(a)) return mkD((double)sx(a->val, a->w));
    if (a->op == O_ITE && isC(a->a[1]) && isC(a->a[2]) && !REALMODE) return mkIte(a->a[0], mkSIToFP(a->a[1]), mkSIToFP(a->a[2]));
    return mkRaw(O_SITOFP, true, 64, a);
}
E mkUIToFP(E a) {
    if (isC(a)) return mkD((double)a->val);
    return mkRaw(O_UITOFP, true, 64, a);
}
E mkFPToI(E a, int w, bool sgn) {
    if (isC(a)) {
        double d = asD(a->val);
        return mkC(w, sgn ? (u64)(i64)d : (u64)d);
    }
    if (a->op == O_SITOFP && sgn && a->a[0]->w <= 53) {
        int iw = a->a[0]->w;
        if (iw <= w) return mkSext(a->a[0], w);
    }
    if (a->op == O_UITOFP && a->a[0]->w <= 53 && a->a[0]->w < w) return mkZext(a->a[0], w);
    return mkRaw(sgn ? O_FPTOSI : O_FPTOUI, false, w, a);
}
E mkUF(int fn, E a, E b) { return mkRaw(O_UF, true, 64, a, b, nullptr, (u64)fn); }
E mkUP(int fn, E a) { return mkRaw(O_UP, false, 1, a, nullptr, nullptr, (u64)fn); }

static std::set<std::vector<u32>> symSets;
const std::vector<u32> &symsOf(E e) {
    if (e->symsDone) return *e->syms;
    // iterative post-order to survive deep expressions
    std::vector<E> st{e};
    while (!st.empty()) {
        E x = st.back();
        if (x->symsDone) { st.pop_back(); continue; }
        bool ready = true;
        for (E c : x->a)
            if (c && !c->symsDone) { st.push_back(c); ready = false; }
        if (!ready) continue;
        st.pop_back();
        if (x->op == O_SYM) {
            x->syms = &*symSets.insert(std::vector<u32>{(u32)x->val}).first;
        } else {
            std::vector<u32> r;
            const std::vector<u32> *only = nullptr;
            for (E c : x->a) {
                if (!c || c->syms->empty()) continue;
                if (!only) { only = c->syms; r = *c->syms; }
                else if (c->syms != only) {
                    std::vector<u32> m;
                    std::set_union(r.begin(), r.end(), c->syms->begin(), c->syms->end(), std::back_inserter(m));
                    r.swap(m);
                }
            }
            if (x->op == O_UF || x->op == O_UP) { // two applications of one function are related by congruence
                u32 tag = 0x80000000u + (u32)x->val;
                r.insert(std::lower_bound(r.begin(), r.end(), tag), tag);
                r.erase(std::unique(r.begin(), r.end()), r.end());
            }
            x->syms = &*symSets.insert(std::move(r)).first;
        }
        x->symsDone = true;
    }
    return *e->syms;
}
std::string exprStr(E e, int depth) {
    char b[64];
    if (e->op == O_CONST) {
        if (e->isF) snprintf(b, sizeof b, "%.17g", asD(e->val));
        else snprintf(b, sizeof b, "%lld", (long long)sx(e->val, e->w));
        return b;
    }
    if (e->op == O_SYM) return symTab[e->val].name;
    if (depth == 0) return "..";
    std::string s = "(";
    s += (e->op == O_UF || e->op == O_UP) ? ufNames[e->val] : opName[e->op];
    if (e->op == O_EXTRACT) { snprintf(b, sizeof b, "[%d+:%d]", (int)e->val, e->w); s += b; }
    for (E c : e->a)
        if (c) s += " " + exprStr(c, depth - 1);
    return s + ")";
}
