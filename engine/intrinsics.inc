    // ---- calls, environment model, harness interface (included into class Engine) -----------------------------
    typedef std::vector<std::vector<Val>> Args;
    typedef std::function<void(Engine &, const Inst &, Args &)> Handler;
    std::unordered_map<std::string, Handler> H;
    std::unordered_map<const Function *, const Handler *> hcache;

    void ret(const Val &v) { finishCall({v}); }
    void retVoid() { finishCall({}); }
    u64 conc(Args &a, size_t i, int w, const char *what) { return concretize(a[i][0], w, what); }
    static bool sw(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }

    u64 allocHeap(u64 n, u8 tag) {
        if (n > (1u << 22)) throw Bug{"bigalloc", "allocation of " + std::to_string(n) + " bytes"};
        u32 id = S->mem.alloc(n, K_HEAP, false);
        S->mem.getW(id)->allocTag = tag;
        return addrOf(id);
    }
    void freeHeap(u64 p, u8 tag) {
        if (!p) return;
        u32 id = (u32)(p >> OFFBITS);
        Obj *o = S->mem.get(id);
        if (!o) throw Bug{"dfree", id < S->mem.next ? "double free" : "free of a wild pointer"};
        if (o->kind != K_HEAP || p != addrOf(id)) throw Bug{"badfree", "free of a pointer that was not allocated"};
        if (o->allocTag != tag) throw Bug{"badfree", "mismatched allocation and deallocation functions"};
        S->mem.free(id);
    }
    E memcmpE(u64 a, u64 b, u64 n) {
        u32 o1, o2;
        if (n) { resolve(a, n, false, o1); resolve(b, n, false, o2); }
        E r = mkC(32, 0);
        for (u64 i = n; i-- > 0;) {
            E x = loadByteE(a + i), y = loadByteE(b + i);
            if (x == y) continue;
            E d = mkIte(mkBin(O_ULT, x, y), mkC(32, ~0ull), mkC(32, 1));
            r = mkIte(mkEq(x, y), r, d);
        }
        return r;
    }

    // -- math functions --
    E uf(const char *n, E x, E y = nullptr) { return mkUF(ufId(n), x, y); }
    E realFn(const std::string &n, E x, E y) {
        x = simp(x);
        if (y) y = simp(y);
        auto num = [&](double d) { return mkD(d); };
        auto lt = [&](E a, E b) { return decide(mkFCmp(O_FLT, a, b)); };
        auto eq = [&](E a, E b) { return decide(mkFCmp(O_FEQ, a, b)); };
        E nan = mkD(std::nan("")), zero = num(0), one = num(1);
        bool cx = isC(x);
        double dx = cx ? asD(x->val) : 0;
        if (cx && dx != dx) return n == "pow" && y && isC(y) && asD(y->val) == 0 ? one : nan;
        bool infx = cx && std::isinf(dx);
        if (n == "sin" || n == "cos") {
            if (infx) return nan;
            if (cx && dx == 0) return n == "sin" ? zero : one;
            return uf(n.c_str(), x);
        }
        if (n == "tan") {
            if (infx) return nan;
            if (cx && dx == 0) return zero;
            E c = uf("cos", x);
            if (eq(c, zero)) { stubsUsed["tan at a pole of the real tangent is outside the claim"]++; throw PathEnd(); }
            return mkF2(O_FDIV, uf("sin", x), c);
        }
        if (n == "asin" || n == "acos") {
            if (infx) return nan;
            if (lt(x, num(-1)) || lt(one, x)) return nan;
            if (cx && dx == 0 && n == "asin") return zero;
            if (cx && dx == 1 && n == "acos") return zero;
            return uf(n.c_str(), x);
        }
        if (n == "atan") {
            if (infx) return num(std::atan(dx));
            if (cx && dx == 0) return zero;
            return uf("atan", x);
        }
        if (n == "exp") {
            if (infx) return dx > 0 ? x : zero;
            if (cx && dx == 0) return one;
            return uf("exp", x);
        }
        if (n == "log" || n == "log2" || n == "log10") {
            if (infx) return dx > 0 ? x : nan;
            if (lt(x, zero)) return nan;
            if (eq(x, zero)) return num(-INFINITY);
            if (cx && dx == 1) return zero;
            if (n == "log") return uf("log", x);
            if (cx && dx == (n == "log2" ? 2 : 10)) return one;
            return mkF2(O_FDIV, uf("log", x), uf("log", num(n == "log2" ? 2 : 10)));
        }
        if (n == "sqrt") {
            if (infx) return dx > 0 ? x : nan;
            if (lt(x, zero)) return nan;
            if (cx) { double r = std::sqrt(dx); if (std::fma(r, r, -dx) == 0) return num(r); }
            return uf("sqrt", x);
        }
        if (n == "pow") {
            bool cy = isC(y);
            double dy = cy ? asD(y->val) : 0;
            if (cx && cy && (!std::isfinite(dx) || !std::isfinite(dy))) return num(std::pow(dx, dy));
            if (cy && dy == 0) return one;
            if (cx && dx == 1) return one;
            if (infx || (cy && !std::isfinite(dy))) unsupportedHere("pow with infinity and a symbol");
            if (!cy && eq(y, zero)) return one;
            if (cy && dy == std::floor(dy) && std::fabs(dy) <= 6) {
                int k = (int)std::fabs(dy);
                if (dy < 0 && eq(x, zero)) return num(INFINITY);
                E r = x;
                for (int i = 1; i < k; i++) r = mkF2(O_FMUL, r, x);
                return dy < 0 ? mkF2(O_FDIV, one, r) : r;
            }
            if (lt(zero, x)) {
                if (eq(x, one)) return one;
                return uf("pow", x, y);
            }
            if (eq(x, zero)) return lt(zero, y) ? zero : num(INFINITY);
            // negative base
            bool isint;
            if (cy) isint = dy == std::floor(dy);
            else isint = decide(mkUP(ufId("isint"), y));
            return isint ? uf("pow", x, y) : nan;
        }
        if (n == "fabs" && opt.params.count("iteabs") && opt.params["iteabs"]) return mkIte(mkFCmp(O_FLT, x, zero), mkFNeg(x), x);
        if (n == "fabs") return lt(x, zero) ? mkFNeg(x) : x;
        unsupportedHere("real function " + n);
    }
    static double libmImpl(const std::string &n, double x, double y) {
        if (n == "sin") return std::sin(x);
        if (n == "cos") return std::cos(x);
        if (n == "tan") return std::tan(x);
        if (n == "asin") return std::asin(x);
        if (n == "acos") return std::acos(x);
        if (n == "atan") return std::atan(x);
        if (n == "exp") return std::exp(x);
        if (n == "log") return std::log(x);
        if (n == "log2") return std::log2(x);
        if (n == "log10") return std::log10(x);
        if (n == "sqrt") return std::sqrt(x);
        if (n == "pow") return std::pow(x, y);
        if (n == "fabs") return std::fabs(x);
        if (n == "floor") return std::floor(x);
        if (n == "ceil") return std::ceil(x);
        if (n == "trunc") return std::trunc(x);
        if (n == "round") return std::round(x);
        if (n == "fmod") return std::fmod(x, y);
        if (n == "atan2") return std::atan2(x, y);
        if (n == "sinh") return std::sinh(x);
        if (n == "cosh") return std::cosh(x);
        if (n == "tanh") return std::tanh(x);
        if (n == "hypot") return std::hypot(x, y);
        if (n == "cbrt") return std::cbrt(x);
        if (n == "exp2") return std::exp2(x);
        if (n == "expm1") return std::expm1(x);
        if (n == "log1p") return std::log1p(x);
        if (n == "nearbyint" || n == "rint") return std::nearbyint(x);
        if (n == "copysign") return std::copysign(x, y);
        if (n == "fmax") return std::fmax(x, y);
        if (n == "fmin") return std::fmin(x, y);
        abort();
    }
    void mathCall(const std::string &n, Args &a) {
        Val vx = a[0][0], vy = a.size() > 1 && !a[1].empty() ? a[1][0] : Val();
        bool two = n == "pow" || n == "fmod" || n == "atan2" || n == "hypot" || n == "copysign" || n == "fmax" || n == "fmin";
        if (n == "fabs" && !REALMODE) { ret(fromE(mkFAbs(toEF(vx)))); return; }
        if (REALMODE && (n == "fmax" || n == "fmin")) {
            E x = toEF(vx), y = toEF(vy);
            bool l = decide(mkFCmp(O_FLT, x, y));
            ret(fromE((n == "fmax") == l ? y : x));
            return;
        }
        bool known = n == "floor" || n == "ceil" || n == "trunc" || n == "round" || n == "rint" || n == "nearbyint" || n == "fmax" || n == "fmin" || n == "copysign" || n == "fmod";
        if (!vx.e && (!two || !vy.e) && (!REALMODE || known)) {
            ret(Val(asB(libm(n, asD(vx.c), asD(vy.c)))));
            return;
        }
        E x = toEF(vx), y = two ? toEF(vy) : nullptr;
        if (REALMODE) { E r = realFn(n, x, y); ret(fromE(r)); return; }
        stubsUsed["libm " + n + " as an uninterpreted function"]++;
        ret(fromE(uf(n.c_str(), simp(x), y ? simp(y) : nullptr)));
    }

    // -- snprintf --
    void emitStr(std::vector<Val> &out, const std::string &s) { for (char c : s) out.push_back(Val((u64)(u8)c)); }
    void fmtSymDouble(std::vector<Val> &out, const std::string &spec, char conv, int prec, E x) {
        // environment stub: the C library prints some decimal text of the documented shape
        auto key = std::make_pair(spec, x);
        auto it = S->stub.find(key);
        if (it != S->stub.end()) { for (auto &v : it->second) out.push_back(v); return; }
        x = simp(x);
        if (!opt.params.count("fmt") || !opt.params["fmt"]) { // the text is not the subject: some fixed text of the right shape
            stubsUsed["snprintf of a symbolic double: a fixed placeholder text"]++;
            std::string t = "7";
            if (prec > 0) t += "." + std::string((size_t)prec, '7');
            if (conv == 'e') t += "e+77";
            emitStr(out, t);
            return;
        }
        if (decide(mkFIsNan(x))) { emitStr(out, "nan"); return; }
        bool neg = decide(mkFCmp(O_FLT, x, mkD(0)));
        E ax = mkFAbs(x);
        if (!REALMODE && decide(mkFCmp(O_FEQ, ax, mkD(INFINITY)))) { emitStr(out, neg ? "-inf" : "inf"); return; }
        if (REALMODE) ax = neg ? mkFNeg(x) : x;
        int nint = 1, nexp = 2;
        bool eneg = false;
        if (conv == 'f') {
            double lim = 10;
            while (nint < 17 && !decide(mkFCmp(O_FLT, ax, mkD(lim)))) { nint++; lim *= 10; }
        } else {
            eneg = decide(mkFCmp(O_FLT, ax, mkD(1)));
            if (!decide(mkAnd(mkFCmp(O_FLT, mkD(1e-99), ax), mkFCmp(O_FLT, ax, mkD(1e100))))) nexp = 3;
        }
        stubsUsed["snprintf of a symbolic double: arbitrary digits of the requested shape"]++;
        std::vector<Val> t;
        int mode = opt.params["fmt"]; // 1: every digit is arbitrary; 2, 3: the outer ones, the others are 5 or 0
        auto dig = [&](bool nonzero, bool arbitrary = true) {
            if (mode >= 2 && !arbitrary) { emitStr(t, nonzero || mode == 2 ? "5" : "0"); return; }
            E d = mkSym("digit", 8, false);
            E lo = mkC(8, nonzero ? '1' : '0'), hi = mkC(8, '9');
            addPC(*S, mkBin(O_ULE, lo, d));
            addPC(*S, mkBin(O_ULE, d, hi));
            t.push_back(fromE(d));
        };
        S->model.reset();
        if (neg) emitStr(t, "-");
        if (conv == 'f') for (int i = 0; i < nint; i++) dig(i == 0 && nint > 1, i >= nint - 2);
        else dig(true);
        if (prec > 0) { emitStr(t, "."); for (int i = 0; i < prec; i++) dig(false, i == 0 || i == 5 || i >= prec - 3); }
        if (conv == 'e') {
            emitStr(t, eneg ? "e-" : "e+");
            for (int i = 0; i < nexp; i++) dig(i == 0 && nexp == 3);
        }
        S->stub[key] = t;
        for (auto &v : t) out.push_back(v);
    }
    void doSnprintf(u64 buf, u64 size, const std::string &fmt, const std::vector<Val> &va) {
        std::vector<Val> out;
        size_t ai = 0;
        for (size_t i = 0; i < fmt.size(); i++) {
            if (fmt[i] != '%') { out.push_back(Val((u64)(u8)fmt[i])); continue; }
            std::string spec = "%";
            i++;
            std::string len;
            while (i < fmt.size() && strchr("-+ #0123456789.*lhzjtL", fmt[i])) {
                if (fmt[i] == '*') { spec += std::to_string((int)(i64)va[ai++].c); }
                else if (strchr("lhzjtL", fmt[i])) len += fmt[i];
                else spec += fmt[i];
                i++;
            }
            char cv = fmt[i];
            char b[512];
            if (cv == '%') { out.push_back(Val((u64)'%')); continue; }
            if (strchr("diuxXoc", cv)) {
                Val v = va[ai++];
                i64 x = (i64)concretize(v, 64, "printf integer");
                if (cv == 'c') snprintf(b, sizeof b, (spec + "c").c_str(), (int)x);
                else {
                    if (len.empty()) { if (cv == 'd' || cv == 'i') x = (int)x; else x = (i64)(u32)x; }
                    snprintf(b, sizeof b, (spec + "ll" + cv).c_str(), (long long)x);
                }
                emitStr(out, b);
            } else if (strchr("eEfFgG", cv)) {
                Val v = va[ai++];
                int prec = 6;
                size_t dot = spec.find('.');
                if (dot != std::string::npos) prec = atoi(spec.c_str() + dot + 1);
                if (v.e) {
                    E x = simp(v.e);
                    if (!isC(x)) {
                        if (REALMODE && symsOf(x).empty()) { // ground real
                        }
                        if (cv != 'e' && cv != 'f' ) unsupportedHere("printf of a symbolic double with %g");
                        fmtSymDouble(out, spec + cv, cv, prec, x);
                        continue;
                    }
                    v = fromE(x);
                }
                snprintf(b, sizeof b, (spec + cv).c_str(), asD(v.c));
                emitStr(out, b);
            } else if (cv == 's') {
                u64 p = va[ai++].c;
                size_t maxn = (size_t)-1;
                size_t dot = spec.find('.');
                if (dot != std::string::npos) maxn = (size_t)atoi(spec.c_str() + dot + 1);
                for (size_t k = 0; k < maxn; k++) {
                    Val c = loadScalar(p + k, 8, false);
                    if (c.e) { if (decide(mkEq(c.e, mkC(8, 0)))) break; }
                    else if (!c.c) break;
                    out.push_back(c);
                }
            } else if (cv == 'p') { emitStr(out, "0x0"); ai++; }
            else unsupportedHere(std::string("printf conversion %") + cv);
        }
        if (size) {
            u64 n = std::min<u64>(out.size(), size - 1);
            for (u64 k = 0; k < n; k++) storeScalar(buf + k, out[k], 8, false);
            storeScalar(buf + n, Val((u64)0), 8, false);
        }
        ret(Val((u64)(u32)out.size()));
    }

    void terminateBug(const char *how) {
        std::string m = how;
        u64 ex = S->caught.empty() ? 0 : S->caught.back();
        if (ex) if (Exc *x = findExc(ex)) m += " with an exception of type " + typeName(x->tinfo);
        throw Bug{"terminate", m};
    }
    void addInput(const std::string &n, char k, E e) { S->inputs.push_back({n, k, e}); }
    std::string inName(u64 p) {
        std::string n = cstr(p);
        int k = 0;
        for (auto &i : S->inputs) if (i.name == n || sw(i.name, (n + "#").c_str())) k++;
        return k ? n + "#" + std::to_string(k) : n;
    }
    // deterministic symbols: the n-th input of a path with the same name shares its symbol between paths
    std::map<std::pair<std::string, int>, E> inSyms;
    E inputSym(const std::string &n, int w, bool isF) {
        auto &e = inSyms[{n, isF ? -1 : w}];
        if (!e) e = mkSym(n, w, isF);
        return e;
    }

    void installHandlers() {
        auto add = [&](const char *n, Handler h) { H[n] = std::move(h); };
        // allocation
        for (const char *n : {"_Znwm", "_ZnwmRKSt9nothrow_t"}) add(n, [](Engine &g, const Inst &, Args &a) { g.ret(Val(g.allocHeap(g.conc(a, 0, 64, "size"), 1))); });
        for (const char *n : {"_Znam", "_ZnamRKSt9nothrow_t"}) add(n, [](Engine &g, const Inst &, Args &a) { g.ret(Val(g.allocHeap(g.conc(a, 0, 64, "size"), 2))); });
        add("malloc", [](Engine &g, const Inst &, Args &a) { g.ret(Val(g.allocHeap(g.conc(a, 0, 64, "size"), 0))); });
        add("calloc", [](Engine &g, const Inst &, Args &a) {
            u64 n = g.conc(a, 0, 64, "size") * g.conc(a, 1, 64, "size");
            u64 p = g.allocHeap(n, 0);
            Obj *o = g.S->mem.getW((u32)(p >> OFFBITS));
            o->allInit = true;
            g.ret(Val(p));
        });
        for (const char *n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvRKSt9nothrow_t"}) add(n, [](Engine &g, const Inst &, Args &a) { g.freeHeap(g.conc(a, 0, 64, "pointer"), 1); g.retVoid(); });
        for (const char *n : {"_ZdaPv", "_ZdaPvm"}) add(n, [](Engine &g, const Inst &, Args &a) { g.freeHeap(g.conc(a, 0, 64, "pointer"), 2); g.retVoid(); });
        add("free", [](Engine &g, const Inst &, Args &a) { g.freeHeap(g.conc(a, 0, 64, "pointer"), 0); g.retVoid(); });
        // memory
        Handler cpy = [](Engine &g, const Inst &in, Args &a) {
            u64 n = g.conc(a, 2, 64, "length"), d = g.conc(a, 0, 64, "address"), s = g.conc(a, 1, 64, "address");
            g.copyMem(d, s, n);
            g.ret(Val(d));
        };
        for (const char *n : {"memcpy", "memmove", "llvm.memcpy", "llvm.memmove"}) add(n, cpy);
        Handler set = [](Engine &g, const Inst &, Args &a) {
            u64 n = g.conc(a, 2, 64, "length"), d = g.conc(a, 0, 64, "address");
            if (n) {
                u32 off;
                Obj *o = g.resolve(d, n, true, off);
                Val v = a[1][0];
                if (!v.e) {
                    g.clearRange(o, off, (u32)n);
                    memset(&o->bytes[off], (int)(v.c & 255), n);
                    if (!o->allInit) memset(&o->init[off], 1, n);
                } else {
                    E b = v.e->w > 8 ? mkTrunc(v.e, 8) : v.e;
                    for (u64 k = 0; k < n; k++) g.storeTo(o, off + (u32)k, fromE(b), 8, false);
                }
            }
            g.ret(Val(d));
        };
        add("memset", set);
        add("llvm.memset", set);
        for (const char *n : {"memcmp", "bcmp"}) add(n, [](Engine &g, const Inst &, Args &a) {
            u64 n = g.conc(a, 2, 64, "length"), p = g.conc(a, 0, 64, "address"), q = g.conc(a, 1, 64, "address");
            g.ret(fromE(g.memcmpE(p, q, n)));
        });
        // exceptions
        add("__cxa_allocate_exception", [](Engine &g, const Inst &, Args &a) {
            u64 p = g.allocHeap(g.conc(a, 0, 64, "size"), 3);
            g.ret(Val(p));
        });
        add("__cxa_free_exception", [](Engine &g, const Inst &, Args &a) { g.freeHeap(a[0][0].c, 3); g.retVoid(); });
        add("__cxa_throw", [](Engine &g, const Inst &, Args &a) {
            Exc x;
            x.obj = a[0][0].c; x.tinfo = a[1][0].c; x.dtor = a[2][0].c;
            g.S->excs.push_back(x);
            g.unwind(x.obj);
        });
        add("__cxa_rethrow", [](Engine &g, const Inst &, Args &) {
            if (g.S->caught.empty()) throw Bug{"terminate", "rethrow without an exception"};
            u64 o = g.S->caught.back();
            g.findExc(o)->rethrown = true;
            g.unwind(o);
        });
        add("__cxa_begin_catch", [](Engine &g, const Inst &, Args &a) {
            u64 o = a[0][0].c;
            Exc *x = g.findExc(o);
            if (!x) throw Bug{"engine", "begin_catch"};
            x->handlers++;
            x->rethrown = false;
            g.S->caught.push_back(o);
            g.ret(Val(o));
        });
        add("__cxa_get_exception_ptr", [](Engine &g, const Inst &, Args &a) { g.ret(a[0][0]); });
        add("tsx_exc_pop", [](Engine &g, const Inst &, Args &a) { // used by __cxa_end_catch in the runtime model
            if (g.S->caught.empty()) throw Bug{"engine", "end_catch"};
            u64 o = g.S->caught.back();
            g.S->caught.pop_back();
            Exc *x = g.findExc(o);
            x->handlers--;
            if (x->handlers > 0 || x->rethrown) { g.ret(Val((u64)0)); return; }
            g.storeScalar(a[0][0].c, Val(x->dtor), 64, false);
            g.ret(Val(o));
        });
        add("tsx_exc_free", [](Engine &g, const Inst &, Args &a) {
            u64 o = a[0][0].c;
            for (size_t i = 0; i < g.S->excs.size(); i++) if (g.S->excs[i].obj == o) { g.S->excs.erase(g.S->excs.begin() + i); break; }
            g.freeHeap(o, 3);
            g.retVoid();
        });
        add("_ZSt18uncaught_exceptionv", [](Engine &g, const Inst &, Args &) { g.ret(Val((u64)0)); });
        add("_ZSt19uncaught_exceptionsv", [](Engine &g, const Inst &, Args &) { g.ret(Val((u64)0)); });
        add("_ZSt9terminatev", [](Engine &g, const Inst &, Args &) { g.terminateBug("std::terminate"); });
        add("abort", [](Engine &g, const Inst &, Args &) { g.terminateBug("abort"); });
        add("exit", [](Engine &g, const Inst &, Args &) { g.terminateBug("exit"); });
        add("__cxa_call_unexpected", [](Engine &g, const Inst &, Args &) { g.terminateBug("unexpected exception"); });
        add("__cxa_pure_virtual", [](Engine &g, const Inst &, Args &) { throw Bug{"pure", "pure virtual call"}; });
        add("__assert_fail", [](Engine &g, const Inst &, Args &a) { throw Bug{"assert", "assertion failed: " + g.cstr(a[0][0].c)}; });
        add("_ZSt21__glibcxx_assert_failPKciS0_S0_", [](Engine &g, const Inst &, Args &a) { throw Bug{"assert", "library assertion failed: " + (a[3][0].c ? g.cstr(a[3][0].c) : std::string("?"))}; });
        add("llvm.trap", [](Engine &g, const Inst &, Args &) { throw Bug{"trap", "trap"}; });
        add("llvm.eh.typeid.for", [](Engine &g, const Inst &, Args &a) { g.ret(Val(g.typeId(a[0][0].c))); });
        add("__cxa_atexit", [](Engine &g, const Inst &, Args &) { g.ret(Val((u64)0)); });
        add("__cxa_guard_acquire", [](Engine &g, const Inst &, Args &a) {
            Val v = g.loadScalar(a[0][0].c, 8, false);
            g.ret(Val((u64)(v.c == 0)));
        });
        add("__cxa_guard_release", [](Engine &g, const Inst &, Args &a) { g.storeScalar(a[0][0].c, Val((u64)1), 8, false); g.retVoid(); });
        add("__cxa_guard_abort", [](Engine &g, const Inst &, Args &) { g.retVoid(); });
        add("__dynamic_cast", [](Engine &g, const Inst &, Args &a) {
            u64 src = a[0][0].c, dst = a[2][0].c;
            if (!src) { g.ret(Val((u64)0)); return; }
            u64 vp = g.rd64(src);
            i64 top = (i64)g.rd64(vp - 16);
            u64 ti = g.rd64(vp - 8);
            i64 adj;
            if (g.derives(ti, dst, adj)) g.ret(Val(src + (u64)top + (u64)adj));
            else g.ret(Val((u64)0));
        });
        // math
        for (const char *n : {"sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log2", "log10", "sqrt", "pow", "fabs", "floor", "ceil", "trunc", "round", "fmod", "atan2", "sinh", "cosh", "tanh", "hypot", "cbrt", "exp2", "expm1", "log1p", "rint", "nearbyint", "copysign", "fmax", "fmin"}) {
            std::string nm = n;
            Handler h = [nm](Engine &g, const Inst &, Args &a) { g.mathCall(nm, a); };
            H[nm] = h;
            H["llvm." + nm] = h;
        }
        H["llvm.maxnum"] = H["fmax"];
        H["llvm.minnum"] = H["fmin"];
        add("llvm.fmuladd", [](Engine &g, const Inst &, Args &a) { g.ret(g.fbin(O_FADD, g.fbin(O_FMUL, a[0][0], a[1][0]), a[2][0])); });
        add("llvm.is.fpclass", [](Engine &g, const Inst &, Args &a) {
            u64 m = a[1][0].c;
            E x = toEF(a[0][0]);
            E nan = mkFIsNan(x);
            E pinf = mkFCmp(O_FEQ, x, mkD(INFINITY)), ninf = mkFCmp(O_FEQ, x, mkD(-INFINITY));
            E r = mkB(false);
            if ((m & 3) == 3) r = mkOr(r, nan);
            else if (m & 3) g.unsupportedHere("fpclass nan kind");
            if (m & 4) r = mkOr(r, ninf);
            if (m & 0x200) r = mkOr(r, pinf);
            u64 fin = m & 0x1f8;
            if (fin == 0x1f8) r = mkOr(r, mkNot(mkOr(nan, mkOr(pinf, ninf))));
            else if (fin == 0x60) r = mkOr(r, mkFCmp(O_FEQ, x, mkD(0)));
            else if (fin) g.unsupportedHere("fpclass mask");
            g.ret(fromE(r));
        });
        // integer intrinsics
        auto minmax = [&](const char *n, bool sgn, bool mx) {
            add(n, [sgn, mx](Engine &g, const Inst &in, Args &a) {
                E x = toE(a[0][0], in.w), y = toE(a[1][0], in.w);
                E l = mkBin(sgn ? O_SLT : O_ULT, x, y);
                g.ret(fromE(mx ? mkIte(l, y, x) : mkIte(l, x, y)));
            });
        };
        minmax("llvm.smax", true, true); minmax("llvm.smin", true, false); minmax("llvm.umax", false, true); minmax("llvm.umin", false, false);
        add("llvm.abs", [](Engine &g, const Inst &in, Args &a) {
            E x = toE(a[0][0], in.w), z = mkC(in.w, 0);
            g.ret(fromE(mkIte(mkBin(O_SLT, x, z), mkBin(O_SUB, z, x), x)));
        });
        for (const char *n : {"llvm.ctlz", "llvm.cttz", "llvm.ctpop", "llvm.bswap"}) {
            std::string nm = n;
            add(n, [nm](Engine &g, const Inst &in, Args &a) {
                u64 v = g.concretize(a[0][0], in.w, "bit operation") & maskw(in.w), r;
                if (nm == "llvm.ctlz") r = v ? (u64)__builtin_clzll(v) - (64 - in.w) : (u64)in.w;
                else if (nm == "llvm.cttz") r = v ? (u64)__builtin_ctzll(v) : (u64)in.w;
                else if (nm == "llvm.ctpop") r = (u64)__builtin_popcountll(v);
                else r = __builtin_bswap64(v) >> (64 - in.w);
                g.ret(Val(r));
            });
        }
        auto ovfI = [&](const char *n, Op op, bool sgn) {
            add(n, [op, sgn](Engine &g, const Inst &in, Args &a) {
                int w = g.widthOf(in.I->getOperand(0)->getType());
                E x = toE(a[0][0], w), y = toE(a[1][0], w);
                E r = mkBin(op, x, y), o;
                if (isC(x) && isC(y)) {
                    __int128 p = sgn ? (__int128)sx(x->val, w) : (__int128)x->val, q = sgn ? (__int128)sx(y->val, w) : (__int128)y->val;
                    __int128 t = op == O_ADD ? p + q : op == O_SUB ? p - q : p * q;
                    __int128 back = sgn ? (__int128)sx(r->val, w) : (__int128)r->val;
                    o = mkB(t != back);
                } else if (!sgn && op == O_MUL && isC(y)) o = y->val == 0 ? mkB(false) : mkBin(O_ULT, mkC(w, maskw(w) / y->val), x);
                else if (!sgn && op == O_ADD) o = mkBin(O_ULT, r, x);
                else if (!sgn && op == O_SUB) o = mkBin(O_ULT, x, y);
                else g.unsupportedHere("overflow intrinsic on symbols");
                g.finishCall({fromE(r), fromE(o)});
            });
        };
        ovfI("llvm.umul.with.overflow", O_MUL, false); ovfI("llvm.smul.with.overflow", O_MUL, true);
        ovfI("llvm.uadd.with.overflow", O_ADD, false); ovfI("llvm.sadd.with.overflow", O_ADD, true);
        ovfI("llvm.usub.with.overflow", O_SUB, false); ovfI("llvm.ssub.with.overflow", O_SUB, true);
        for (const char *n : {"llvm.lifetime.start", "llvm.lifetime.end", "llvm.assume", "llvm.experimental.noalias.scope.decl", "llvm.donothing", "llvm.prefetch", "llvm.va_end", "llvm.stackrestore", "llvm.invariant.start", "llvm.invariant.end"})
            add(n, [](Engine &g, const Inst &, Args &) { g.retVoid(); });
        add("llvm.stacksave", [](Engine &g, const Inst &, Args &) { g.ret(Val((u64)0)); });
        for (const char *n : {"llvm.expect", "llvm.launder.invariant.group", "llvm.strip.invariant.group", "llvm.ptr.annotation", "llvm.threadlocal.address"})
            add(n, [](Engine &g, const Inst &, Args &a) { g.ret(a[0][0]); });
        add("llvm.is.constant", [](Engine &g, const Inst &, Args &) { g.ret(Val((u64)0)); });
        add("llvm.objectsize", [](Engine &g, const Inst &, Args &) { g.ret(Val(~0ull)); });
        add("llvm.va_start", [](Engine &g, const Inst &, Args &a) { // the va_list then points to the frame's variadic arguments
            g.storeScalar(a[0][0].c, Val((u64)48), 32, false);
            g.storeScalar(a[0][0].c + 4, Val((u64)304), 32, false);
            auto &va = g.S->st.back().varargs;
            u32 id = g.S->mem.alloc(va.size() * 8 + 8, K_STACK, true);
            g.S->st.back().allocas.push_back(id);
            for (size_t i = 0; i < va.size(); i++) g.storeScalar(addrOf(id) + 8 * i, va[i], 64, va[i].e && va[i].e->isF);
            g.storeScalar(a[0][0].c + 8, Val(addrOf(id)), 64, false);
            g.storeScalar(a[0][0].c + 16, Val(addrOf(id)), 64, false);
            g.retVoid();
        });
        // libc
        add("snprintf", [](Engine &g, const Inst &, Args &a) {
            std::vector<Val> va;
            for (size_t i = 3; i < a.size(); i++) va.push_back(a[i][0]);
            std::string f = g.cstr(a[2][0].c);
            g.doSnprintf(a[0][0].c, g.conc(a, 1, 64, "size"), f, va);
        });
        add("sprintf", [](Engine &g, const Inst &, Args &a) {
            std::vector<Val> va;
            for (size_t i = 2; i < a.size(); i++) va.push_back(a[i][0]);
            std::string f = g.cstr(a[1][0].c);
            g.doSnprintf(a[0][0].c, ~0ull >> 1, f, va);
        });
        add("vsnprintf", [](Engine &g, const Inst &, Args &a) {
            std::string f = g.cstr(a[2][0].c);
            u64 vl = a[3][0].c;
            u64 area = g.rd64(vl + 8);
            std::vector<Val> va;
            u32 off;
            Obj *o = g.resolve(area, 8, false, off);
            size_t n = (o->size - 8) / 8;
            // doubles were stored whole
            for (size_t i = 0; i < n; i++) {
                bool isF = false;
                size_t ci = cellLB(o, off + (u32)(8 * i));
                if (ci < o->cells.size() && o->cells[ci].off == off + 8 * i && o->cells[ci].e->isF) isF = true;
                va.push_back(g.loadScalar(area + 8 * i, 64, isF));
            }
            g.doSnprintf(a[0][0].c, g.conc(a, 1, 64, "size"), f, va);
        });
        add("tsx_strtod_concrete", [](Engine &g, const Inst &, Args &a) { // (const char*, char** end, double* out, int *range) -> 1 when all bytes are concrete
            u64 p = a[0][0].c;
            std::string s;
            for (;;) {
                Val v = g.loadScalar(p + s.size(), 8, false);
                if (v.e) { v = fromE(g.simp(v.e)); if (v.e) { g.ret(Val((u64)0)); return; } }
                if (!v.c) break;
                s += (char)v.c;
            }
            char *e;
            errno = 0;
            double d = strtod(s.c_str(), &e);
            int er = errno == ERANGE;
            g.storeScalar(a[1][0].c, Val(p + (u64)(e - s.c_str())), 64, false);
            g.storeScalar(a[2][0].c, Val(asB(d)), 64, true);
            g.storeScalar(a[3][0].c, Val((u64)er), 32, false);
            g.ret(Val((u64)1));
        });
        // std::regex stand-in (runtime/shim/regex)
        add("tsx_in_set", [](Engine &g, const Inst &, Args &a) { // (const unsigned char set[256], unsigned char c) -> 0/1
            u64 set = a[0][0].c;
            auto has = [&](int i) { return (g.loadScalar(set + (u64)i, 8, false).c & 255) != 0; };
            Val v = a[1][0];
            if (v.e) v = fromE(g.simp(v.e));
            if (!v.e) { g.ret(Val((u64)has((int)(v.c & 255)))); return; }
            E c = v.e, r = mkB(false);
            if (c->w != 8) c = mkTrunc(c, 8);
            for (int i = 0; i < 256;) {
                if (!has(i)) { i++; continue; }
                int j = i;
                while (j + 1 < 256 && has(j + 1)) j++;
                r = mkOr(r, i == j ? mkEq(c, mkC(8, (u64)i)) : mkAnd(mkBin(O_ULE, mkC(8, (u64)i), c), mkBin(O_ULE, c, mkC(8, (u64)j))));
                i = j + 1;
            }
            g.ret(fromE(mkZext(r, 32)));
        });
        // (kind, pattern, text, length, format, first only, out, capacity) -> result, or -1 when the text is not concrete
        add("tsx_regex_native", [](Engine &g, const Inst &, Args &a) {
            int kind = (int)a[0][0].c;
            std::string pat = g.cstr(a[1][0].c), fmt = g.cstr(a[4][0].c), s;
            u64 p = a[2][0].c, n = g.conc(a, 3, 64, "regex text length");
            for (u64 i = 0; i < n; i++) {
                Val v = g.loadScalar(p + i, 8, false);
                if (v.e) v = fromE(g.simp(v.e));
                if (v.e) { g.ret(Val((u64)0xffffffffu)); return; }
                s += (char)v.c;
            }
            static std::map<std::string, std::regex> cache;
            try {
                auto it = cache.find(pat);
                if (it == cache.end()) it = cache.emplace(pat, std::regex(pat)).first;
                if (kind == 0) { g.ret(Val((u64)std::regex_match(s, it->second))); return; }
                if (kind == 1) { g.ret(Val((u64)std::regex_search(s, it->second))); return; }
                std::string r = std::regex_replace(s, it->second, fmt, a[5][0].c ? std::regex_constants::format_first_only : std::regex_constants::match_default);
                if (r.size() > a[7][0].c) { g.ret(Val((u64)0xffffffffu)); return; }
                for (size_t i = 0; i < r.size(); i++) g.storeScalar(a[6][0].c + i, Val((u64)(u8)r[i]), 8, false);
                g.ret(Val((u64)r.size()));
            } catch (std::regex_error &) { g.ret(Val((u64)0xffffffffu)); }
        });
        // harness interface
        add("tsx_double", [](Engine &g, const Inst &, Args &a) {
            std::string n = g.inName(a[0][0].c);
            E e = g.inputSym(n, 64, true);
            g.addInput(n, 'd', e);
            g.ret(fromE(e));
        });
        add("tsx_int", [](Engine &g, const Inst &, Args &a) {
            std::string n = g.inName(a[0][0].c);
            i64 lo = sx(a[1][0].c, 32), hi = sx(a[2][0].c, 32);
            if (lo == hi) { E c = mkC(32, (u64)lo); g.addInput(n, 'i', c); g.ret(fromE(c)); return; }
            E e = g.inputSym(n, 32, false);
            g.addPC(*g.S, mkBin(O_SLE, mkC(32, (u64)lo), e));
            g.addPC(*g.S, mkBin(O_SLE, e, mkC(32, (u64)hi)));
            if (g.S->model) {
                auto nm = std::make_shared<Model>(*g.S->model);
                nm->v[(u32)e->val] = (u64)lo & 0xffffffff;
                g.S->model = nm;
            }
            int k = 0;
            for (auto &w : g.S->wits) {
                auto nm = std::make_shared<Model>(*w.m);
                nm->v[(u32)e->val] = (u64)(lo + (k++ * 5) % (hi - lo + 1)) & 0xffffffff;
                w.m = nm;
            }
            g.addInput(n, 'i', e);
            g.ret(fromE(e));
        });
        add("tsx_byte", [](Engine &g, const Inst &, Args &a) {
            std::string n = g.inName(a[0][0].c);
            E e = g.inputSym(n, 8, false);
            g.addInput(n, 'i', e);
            g.ret(fromE(e));
        });
        add("tsx_choice", [](Engine &g, const Inst &, Args &a) { // concrete choice: one path per value
            std::string n = g.inName(a[0][0].c);
            i64 k = sx(a[1][0].c, 32);
            E e = g.inputSym(n, 32, false);
            E dom = mkBin(O_ULT, e, mkC(32, (u64)k));
            g.addPC(*g.S, dom);
            if (g.S->model) { auto nm = std::make_shared<Model>(*g.S->model); nm->v[(u32)e->val] = 0; g.S->model = nm; }
            for (i64 i = 0; i < k - 1; i++)
                if (g.decide(mkEq(e, mkC(32, (u64)i)))) { g.addInput(n, 'i', e); g.ret(Val((u64)i)); return; }
            g.addPC(*g.S, mkEq(e, mkC(32, (u64)(k - 1))));
            g.addInput(n, 'i', e);
            g.ret(Val((u64)(k - 1)));
        });
        add("tsx_assume", [](Engine &g, const Inst &, Args &a) {
            E c = mkNot(mkEq(toE(a[0][0], 32), mkC(32, 0)));
            c = g.simp(c);
            if (isFalse(c)) throw PathEnd();
            if (!isTrue(c)) {
                g.lastModel.reset();
                g.lastWit.reset();
                bool have = false;
                if (!REALMODE && hasF(c, g.hasFMemo)) {
                    g.refreshWits(*g.S);
                    for (auto &w : g.S->wits) if (g.satisfies(*w.m, {c})) { have = true; break; }
                }
                Res r = have ? SAT : g.feasible(*g.S, c);
                if (r == UNSAT) throw PathEnd();
                if (g.lastWit) g.addWit(*g.S, g.lastWit);
                if (g.lastModel) g.S->model = g.lastModel;
                else {
                    bool fl = hasF(c, g.hasFMemo);
                    u64 v;
                    g.evMemo.clear();
                    if (!fl && !(g.S->model && g.evalM(c, *g.S->model, v) && v)) g.S->model.reset();
                }
                g.addPC(*g.S, c);
            }
            g.retVoid();
        });
        add("tsx_check", [](Engine &g, const Inst &, Args &a) {
            std::string msg = g.cstr(a[1][0].c);
            E c = mkNot(mkEq(toE(a[0][0], 32), mkC(32, 0)));
            g.checkProp(c, msg);
            g.retVoid();
        });
        add("tsx_same", [](Engine &g, const Inst &, Args &a) { // equal as numbers; two NaNs are the same
            E x = toEF(a[0][0]), y = toEF(a[1][0]);
            g.ret(fromE(mkZext(mkFSame(g.simp(x), g.simp(y)), 32)));
        });
        add("tsx_param", [](Engine &g, const Inst &, Args &a) {
            std::string n = g.cstr(a[0][0].c);
            auto it = opt.params.find(n);
            g.ret(it == opt.params.end() ? Val(a[1][0].c & 0xffffffff) : Val((u64)it->second & 0xffffffff));
        });
        add("tsx_cover", [](Engine &g, const Inst &, Args &a) {
            g.covers[g.cstr(a[0][0].c)]++;
            g.retVoid();
        });
        add("tsx_note", [](Engine &g, const Inst &, Args &a) {
            u64 p = a[0][0].c;
            std::string s;
            for (int k = 0; k < 200; k++) {
                Val v = g.loadScalar(p + k, 8, false);
                if (v.e) v = fromE(g.simp(v.e));
                if (v.e) s += '?';
                else if (!v.c) break;
                else s += (char)v.c;
            }
            g.S->note = s;
            if (opt.verbose) fprintf(stderr, "note: %s\n", s.c_str());
            g.retVoid();
        });
        add("tsx_show", [](Engine &g, const Inst &, Args &a) {
            fprintf(stderr, "show: %s\n", exprStr(toEF(a[0][0]), 12).c_str());
            g.retVoid();
        });
        add("tsx_is_real", [](Engine &g, const Inst &, Args &) { g.ret(Val((u64)REALMODE)); });
        add("tsx_symbolic", [](Engine &g, const Inst &, Args &) { g.ret(Val((u64)1)); });
        add("tsx_depth_reset", [](Engine &g, const Inst &, Args &) { g.S->maxDepth = (int)g.S->st.size(); g.retVoid(); });
        add("tsx_depth_max", [](Engine &g, const Inst &, Args &) { g.ret(Val((u64)(g.S->maxDepth - (int)g.S->st.size()))); });
        add("tsx_live", [](Engine &g, const Inst &, Args &) { g.ret(Val((u64)g.S->mem.liveHeap)); });
        add("tsx_skip", [](Engine &g, const Inst &, Args &a) { // an unmodelled corner reached by the runtime model
            g.unsupportedHere("model: " + g.cstr(a[0][0].c));
        });
        add("tsx_outside", [](Engine &g, const Inst &, Args &a) { // inputs the property does not speak about
            g.outside[g.cstr(a[0][0].c)]++;
            throw PathEnd();
        });
        add("tsx_is_zero_const", [](Engine &g, const Inst &, Args &a) { g.ret(Val((u64)(!a[0][0].e && (u32)a[0][0].c == 0))); });
        add("tsx_is_const", [](Engine &g, const Inst &, Args &a) {
            E e = toEF(a[0][0]);
            g.ret(Val((u64)isC(g.simp(e))));
        });
    }
    void checkProp(E c, const std::string &msg) {
        checkHits[msg]++;
        checks++;
        c = simp(c);
        if (isTrue(c)) { checksTrivial++; return; }
        E nc = mkNot(c);
        if (S->pcSet.count(c)) { checksTrivial++; return; }
        if (usesUndef(c)) throw Bug{"uninit", "the checked value is uninitialised: " + msg};
        if (isFalse(c)) {
            bool real = report("check", msg, nullptr);
            (void)real;
            throw PathEnd();
        }
        std::vector<E> cs = slice(*S, nc);
        bool fl = false;
        for (E e : cs) if (hasF(e, hasFMemo)) fl = true;
        if (!REALMODE && fl) {
            // a concrete input that breaks the assertion settles it; only a solver verdict settles that it holds
            refreshWits(*S);
            bool broken = false;
            for (auto &w : S->wits) if (satisfies(*w.m, {nc})) { broken = true; break; }
            if (!broken) broken = searchWit(*S, nc, cs) != nullptr;
            if (broken) {
                report("check", msg, nc);
                addPC(*S, c);
                if (feasible(*S, c) == UNSAT) throw PathEnd();
                return;
            }
        }
        sol.st.checkQueries++;
        Res r = query(cs, nullptr, opt.checkTimeout, fl && !REALMODE && opt.precise);
        if (r == UNSAT) { addPC(*S, c); return; }
        if (r == SAT && fl && !REALMODE) {
            Res r2 = query(cs, nullptr, opt.checkTimeout, true);
            if (r2 == UNSAT) { addPC(*S, c); return; }
            if (r2 == UNKNOWN) r = UNKNOWN;
        }
        if (r == SAT || REALMODE) {
            if (r == SAT) report("check", msg, nc);
            else { checksUnknown++; }
        } else checksUnknown++;
        if (r == UNKNOWN) unknownChecks[msg + " at " + where()]++;
        addPC(*S, c);
        // the path continues under the checked condition if that is possible
        if (r == SAT && feasible(*S, c) == UNSAT) throw PathEnd();
    }
    std::map<std::string, u64> unknownChecks;

    const Handler *handlerFor(const Function *F) {
        auto it = hcache.find(F);
        if (it != hcache.end()) return it->second;
        if (H.empty()) installHandlers();
        std::string n = F->getName().str();
        const Handler *h = nullptr;
        auto f = H.find(n);
        if (f != H.end()) h = &f->second;
        else if (sw(n, "llvm.")) {
            // strip type suffixes: llvm.memcpy.p0.p0.i64
            std::string m = n;
            while (!h) {
                auto g = H.find(m);
                if (g != H.end()) { h = &g->second; break; }
                size_t d = m.rfind('.');
                if (d == std::string::npos || d <= 4) break;
                m = m.substr(0, d);
            }
        }
        // bodies win over the models, except for the harness interface and the C library
        if (!F->isDeclaration() && !sw(n, "llvm.")) {
            bool keep = n == "_Znwm" || n == "_ZdlPv" || n == "_Znam" || n == "_ZdaPv";
            if (!keep) h = nullptr;
        }
        hcache[F] = h;
        return h;
    }
    void doCall(const Inst &in) {
        Frame &f = S->st.back();
        const Function *F = in.callee;
        size_t nargs = cast<CallBase>(in.I)->arg_size();
        auto *cb = cast<CallBase>(in.I);
        if (!F) {
            if (cb->isInlineAsm()) { retVoid(); return; }
            Val fp = get(f, in.ops.back());
            u64 a = concretize(fp, 64, "function pointer");
            auto it = fnById.find((u32)(a >> OFFBITS));
            if (a == 0) throw Bug{"null", "call through a null function pointer"};
            if (it == fnById.end() || a != addrOf((u32)(a >> OFFBITS))) throw Bug{"wild", "call through a wild function pointer"};
            F = it->second;
        }
        const Handler *h = handlerFor(F);
        Args args(nargs);
        for (size_t i = 0; i < nargs; i++) for (u32 k = 0; k < in.ops[i].n; k++) args[i].push_back(get(f, in.ops[i], k));
        if (h) { (*h)(*this, in, args); return; }
        if (F->isDeclaration()) {
            std::string n = F->getName().str();
            if (sw(n, "llvm.dbg") || sw(n, "llvm.var.annotation")) { retVoid(); return; }
            unsupportedHere("external function " + n);
        }
        std::vector<u32> copies;
        for (size_t i = 0; i < nargs; i++)
            if (cb->isByValArgument((unsigned)i)) {
                u64 sz = DL->getTypeAllocSize(cb->getParamByValType((unsigned)i));
                u32 id = S->mem.alloc(sz, K_STACK, false);
                copyMem(addrOf(id), args[i][0].c, sz);
                args[i][0] = Val(addrOf(id));
                copies.push_back(id);
            }
        pushCall(F, args);
        for (u32 id : copies) S->st.back().allocas.push_back(id);
    }
