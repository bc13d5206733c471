// Hash-consed expression DAG for the symbolic executor.
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op : u8 {
    O_CONST, O_SYM,
    // bit-vectors (width 1 is also the boolean sort)
    O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
    O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_ITE,
    O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
    // doubles
    O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FABS,
    O_FLT, O_FLE, O_FEQ, O_FISNAN, O_FSAME,
    O_FTOBITS, O_FFROMBITS, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI,
    O_FITE,
    O_UF,   // uninterpreted double -> double function; val = function id
    O_UP,   // uninterpreted predicate on doubles; val = id
};
static const char *opName[] = {"const", "sym", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor",
                               "shl", "lshr", "ashr", "concat", "extract", "zext", "sext", "ite", "eq", "ult", "ule",
                               "slt", "sle", "fadd", "fsub", "fmul", "fdiv", "fneg", "fabs", "flt", "fle", "feq",
                               "fisnan", "fsame", "ftobits", "ffrombits", "sitofp", "uitofp", "fptosi", "fptoui",
                               "fite", "uf", "up"};

struct Expr {
    Op op;
    u8 isF;     // sort: 0 bit-vector, 1 double
    uint16_t w; // width of a bit-vector, 64 for double
    u32 id;
    const Expr *a[3];
    u64 val; // constant bits / symbol number / extract low bit / function id
    mutable const std::vector<u32> *syms = nullptr; // sorted symbols reachable (UF applications do not count)
    mutable bool symsDone = false;
};
typedef const Expr *E;

struct SymInfo {
    std::string name;
    int w;
    bool isF;
    bool undef = false; // stands for an uninitialised read
};

extern bool REALMODE;
extern std::vector<SymInfo> symTab;
extern std::vector<std::string> ufNames;

inline u64 maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sx(u64 v, int w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
inline double asD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
inline u64 asB(double d) { u64 b; memcpy(&b, &d, 8); return b; }

struct KeyHash {
    size_t operator()(const Expr *e) const {
        u64 h = e->op * 0x9E3779B97F4A7C15ull ^ (u64)e->w * 0xBF58476D1CE4E5B9ull ^ e->isF;
        for (int i = 0; i < 3; i++) h = (h ^ (u64)(uintptr_t)e->a[i]) * 0x94D049BB133111EBull + (h >> 29);
        h = (h ^ e->val) * 0xBF58476D1CE4E5B9ull;
        return h ^ (h >> 31);
    }
};
struct KeyEq {
    bool operator()(const Expr *x, const Expr *y) const {
        return x->op == y->op && x->w == y->w && x->isF == y->isF && x->val == y->val && x->a[0] == y->a[0] &&
               x->a[1] == y->a[1] && x->a[2] == y->a[2];
    }
};
extern std::unordered_set<const Expr *, KeyHash, KeyEq> exprTab;
extern std::deque<Expr> exprPool;

inline E mkRaw(Op op, bool isF, int w, E a = nullptr, E b = nullptr, E c = nullptr, u64 val = 0) {
    Expr k;
    k.op = op; k.isF = isF; k.w = (uint16_t)w; k.id = 0; k.a[0] = a; k.a[1] = b; k.a[2] = c; k.val = val;
    auto it = exprTab.find(&k);
    if (it != exprTab.end()) return *it;
    k.id = (u32)exprPool.size();
    exprPool.push_back(k);
    exprTab.insert(&exprPool.back());
    return &exprPool.back();
}
inline E mkC(int w, u64 v) { return mkRaw(O_CONST, false, w, 0, 0, 0, v & maskw(w)); }
inline E mkD(double d) { return mkRaw(O_CONST, true, 64, 0, 0, 0, asB(d)); }
inline E mkDB(u64 bits) { return mkRaw(O_CONST, true, 64, 0, 0, 0, bits); }
inline E mkB(bool b) { return mkC(1, b); }
inline bool isC(E e) { return e->op == O_CONST; }
inline bool isTrue(E e) { return e->op == O_CONST && e->val == 1; }
inline bool isFalse(E e) { return e->op == O_CONST && e->val == 0; }
E mkSym(const std::string &name, int w, bool isF, bool undef = false);
E mkBin(Op op, E a, E b);
E mkEq(E a, E b);
E mkIte(E c, E a, E b);
E mkNot(E a);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkZext(E a, int w);
E mkSext(E a, int w);
E mkTrunc(E a, int w);
E mkExtract(E a, int lo, int w);
E mkConcat(E hi, E lo);
E mkF2(Op op, E a, E b);
E mkFNeg(E a);
E mkFAbs(E a);
E mkFCmp(Op op, E a, E b);
E mkFIsNan(E a);
E mkFSame(E a, E b);
E mkToBits(E a);
E mkFromBits(E a);
E mkSIToFP(E a);
E mkUIToFP(E a);
E mkFPToI(E a, int w, bool sgn);
E mkUF(int fn, E a, E b = nullptr);
E mkUP(int fn, E a);
int ufId(const std::string &name);
const std::vector<u32> &symsOf(E e);
std::string exprStr(E e, int depth = 6);
