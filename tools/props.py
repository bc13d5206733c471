"""What each check runs: jobs (cubes) for the engine."""
import itertools
PROPS = {}


def prop(pid, **kw):
    PROPS[pid] = kw


def cubes(harness, base=None, **ranges):
    out = []
    ks = list(ranges)
    for t in itertools.product(*[ranges[k] for k in ks]):
        p = dict(base or {})
        p.update(zip(ks, t))
        out.append(dict(harness=harness, p=p))
    return out


def with_(jobs, **kw):
    for j in jobs:
        j.update(kw)
    return jobs


def tok_jobs(L, what, split=1, time=120):
    out = []
    for t in itertools.product(range(7), repeat=split):
        p = {"L": L, "what": what}
        for i, x in enumerate(t):
            p["t%d" % i] = x
        out.append(dict(harness="parse_tok", p=p, time=time))
    return out


def bytes_(what, tier):
    q = cubes("parse_bytes", dict(what=what), n=[1, 2, 3]) + cubes("parse_bytes", dict(what=what), n=[1, 2], ctx=[12, 13, 14]) + cubes("parse_bytes", dict(what=what), n=[2], ctx=range(1, 12)) + cubes("parse_bytes", dict(what=what, cstr=1), n=[1, 2])
    if tier == "thorough":
        q += with_(cubes("parse_bytes", dict(what=what), n=[4]) + cubes("parse_bytes", dict(what=what), n=[3], ctx=range(1, 10)) + cubes("parse_bytes", dict(what=what), n=[5], set=[1, 2]), time=1500)
    return q


def c01(tier):
    q = tok_jobs(4, 1, 1)
    q += cubes("parse_expr", dict(what=1, N=2), k1=range(9))
    q += cubes("parse_expr", dict(N=3, what=1, rep=1, kinds=3), k1=range(3), k2=range(3))
    for h in (3, 4, 5):
        for at in range(3):
            p = dict(N=3, what=1, rep=1, k0=0, k1=0, k2=0)
            p["k%d" % at] = h
            q += cubes("parse_expr", p)
    q += cubes("parse_expr", dict(kinds=1, what=1, rep=1), N=[4, 5])
    q += cubes("parse_expr", dict(kinds=1, what=1, N=3), begin=range(1, 9))
    q += bytes_(1, tier)
    if tier == "thorough":
        q = tok_jobs(5, 1, 2, time=900) + bytes_(1, tier)
        q += cubes("parse_expr", dict(N=3, what=1), k1=range(9), k2=range(9))
        q += cubes("parse_expr", dict(kinds=1, what=1), N=[4]) + cubes("parse_expr", dict(kinds=1, what=1, rep=1), N=[5, 6])
        with_(q, time=900)
    return q


def c03(tier):
    q = tok_jobs(4, 2, 1) + cubes("parse_expr", dict(N=2, rep=1, what=2, kinds=3), mutate=[1, 2, 3], k1=range(9)) + bytes_(2, tier)
    if tier == "thorough":
        q = tok_jobs(5, 2, 2, time=900) + bytes_(2, tier) + with_(cubes("parse_expr", dict(N=2, what=2), mutate=[1, 2, 3], k1=range(9)) + cubes("parse_expr", dict(N=3, rep=1, what=2, kinds=3), mutate=[1, 2, 3], k1=range(9), k2=range(9)), time=900)
    return q


prop("C01", jobs=c01)
def c02(tier):
    q = cubes("parse_bytes", n=[0, 1, 2, 3]) + cubes("parse_bytes", n=[2], ctx=range(1, 15)) + cubes("parse_bytes", n=[1], ctx=[12, 13, 14])
    q += cubes("parse_bytes", dict(n=0, lens=135), run=range(1, 10)) + cubes("parse_bytes", dict(n=1, lens=35), run=[1, 3, 4, 5, 6, 7, 9]) + cubes("parse_bytes", dict(n=1, lens=14), run=[2, 8]) + cubes("parse_bytes", dict(n=0, len0=250, lens=10), run=range(1, 10))
    if tier == "thorough":
        q += with_(cubes("parse_bytes", n=[4]) + cubes("parse_bytes", n=[3], ctx=range(1, 10)) + cubes("parse_bytes", n=[5], set=[1, 2]), time=1500)
    return q


prop("C02", jobs=c02)
prop("C03", jobs=c03)
prop("C04", jobs=lambda tier: cubes("lex", n=[1, 2, 3], set=[0]) + cubes("lex", n=[4], set=[2]) + cubes("lex", n=[1, 2], set=[4]) + cubes("lex", n=[3], set=[3], ctx=[1, 2, 3]) + cubes("lex", dict(n=2, set=0), fixed=[8, 80, 300]) + cubes("lex", dict(n=2, set=0, digits=1), fixed=[4, 12])
     + cubes("lex", dict(n=0, lens=60), form=range(1, 8)) + cubes("lex", dict(n=0, len0=120, lens=12), form=range(1, 8)) + cubes("lex", dict(n=0, len0=250, lens=10), form=range(1, 8)) + cubes("lex", dict(n=1, lens=40), form=[6, 7])
     + (with_(cubes("lex", n=[4], set=[0, 1, 3, 4], ctx=[0]) + cubes("lex", n=[5], set=[1, 2]) + cubes("lex", n=[2, 3], set=[0], ctx=[1, 2, 3]), time=1500) if tier == "thorough" else []))
REP = dict(unlo=9, unhi=10, binlo=16, binhi=18)  # square root, logarithm; product, quotient, power


def evals(what):
    def f(tier):
        q = cubes("eval", dict(ops=1, what=what, vars=1), how=[0, 1])
        q += cubes("eval", dict(ops=1, what=what, vars=1, pad=40), how=[0, 1]) + cubes("eval", dict(ops=1, what=what, vars=0, nums=0, consts=1), pad=[150, 800], how=[0, 1])
        q += cubes("eval", dict(what=what, vars=0, nums=0, consts=4), ops=[1, 2], how=[0, 1])
        if what == 5:
            q += cubes("eval", dict(ops=2, what=5, vars=1), how=[0, 1], shape=range(6))
        else:
            q += cubes("eval", dict(ops=2, what=6, **REP), how=[0], shape=range(6))
            q += cubes("eval", dict(ops=3, what=6, vars=0, nums=0, consts=2, unlo=9, unhi=10, binlo=16, binhi=17), how=[1], shape=range(22))
            q += cubes("eval", dict(ops=3, what=6, vars=1, nums=0, consts=2, unlo=2, unhi=3, binlo=16, binhi=17), how=[1], shape=range(22))
        if tier == "thorough":
            q += with_(cubes("eval", dict(ops=2, what=what, vars=1), how=[0, 1], shape=range(6)) + cubes("eval", dict(ops=3, what=what, **REP), how=[0], shape=range(22)), time=1200)
        return q
    return f


prop("C05", jobs=evals(5))
prop("C06", jobs=evals(6))
prop("C12", jobs=lambda tier: cubes("subs", dict(ops=2, rops=0), form=[0, 1, 2], move=[1]) + cubes("subs", dict(ops=2, rops=0), form=[3, 4], move=[0]) + cubes("subs", dict(ops=1, rops=0), form=range(5), move=[0, 1]) + cubes("subs", dict(ops=1, rops=1, rnum=1), form=[0, 1, 2], move=[0])
     + cubes("subs", dict(ops=1, rops=0, pad=30), form=[0, 3, 4], move=[0]) + cubes("subs", dict(cfg=1, ops=1, rops=0), form=range(5), move=[0]) + cubes("subs", dict(ops=1, rops=0, pad=12), form=[1, 2], move=[1]) + cubes("subs", dict(ops=1, rops=0, move=0), form=[1, 2, 3], extra=[3, 11]) + cubes("subs", dict(ops=1, rops=0, vars=1, pad=60), form=range(5), move=[0])
     + (with_(cubes("subs", dict(ops=2, rops=1, rnum=1), form=[0, 1, 2], move=[0, 1], shape=range(6)) + cubes("subs", dict(ops=3, rops=0), form=range(5), move=[0]), time=1200) if tier == "thorough" else []))
prop("C13", jobs=lambda tier: cubes("algebra", dict(steps=2), first=range(13)) + cubes("algebra", dict(steps=1, allops=1, nums=1)) + cubes("algebra", dict(steps=1, pad=40)) + cubes("algebra", dict(steps=1, cfg=1))
     + (with_(cubes("algebra", dict(steps=3), first=range(13)), time=600) if tier == "thorough" else []))
prop("C14", jobs=lambda tier: cubes("equal", dict(), a=[0, 1], b=[0, 1, 2]) + cubes("equal", dict(a=2, b=2, vars=1, **REP)) + cubes("equal", dict(a=1, b=1, pad=40)) + cubes("equal", dict(cfg=1, a=1, b=1)) + cubes("equal", dict(nums=0, vars=10, a=1, b=1, unlo=1, unhi=3, binlo=16, binhi=17)) + (with_(cubes("equal", dict(), a=[2], b=[2, 3]), time=1500) if tier == "thorough" else []))
prop("C17", jobs=lambda tier: cubes("names", dict(), ops=[0, 1, 2, 3] + ([4] if tier == "thorough" else [])) + cubes("names", dict(mat=1)) + cubes("names", dict(vars=8, nums=0, ops=3), shape=[9, 11, 15, 19, 21]) + cubes("names", dict(ops=2, pad=40)) + cubes("names", dict(ops=1, vars=8, nums=0, pad=40)) + cubes("names", dict(ops=2, vars=10, nums=0, cfg=1)) + cubes("names", dict(mat=2, vars=10, nums=0), at=[0, 5, 11], distinct=[7, 9, 10]) + cubes("names", dict(mat=2, vars=50, nums=0, r=6, c=10), at=[0, 59], distinct=[31, 50]))

prop("C18", jobs=lambda tier: cubes("varname", dict(), n=range(0, 5)) + cubes("varname", dict(), n=[1, 2], pre=[1, 5, 17, 70, 300], post=[0, 3])
     + cubes("varname", dict(two=1), n=[0, 1, 2], m=[1, 2]) + cubes("varname", dict(two=1, front=1), n=[1, 2], m=[1, 2])
     + (with_(cubes("varname", dict(), n=[5, 6]) + cubes("varname", dict(), n=[3], pre=[15, 64], post=[0, 20]), time=1500) if tier == "thorough" else []),
     covers=["legal", "illegal"])

ALLBIN = range(14, 22)


def c07(tier):
    b = dict(what=7, vars=2, nums=1, ops=2)
    q = cubes("calculus", dict(what=7, vars=2), ops=[1])
    q += [j for r in ALLBIN for j in cubes("calculus", dict(b, rootbinlo=r, rootbinhi=r), shape=[5, 3])] + cubes("calculus", b, shape=[0, 1, 2, 4])
    q += cubes("calculus", dict(what=7, vars=1, consts=2, nums=0, ops=2), shape=[5, 3, 0, 1, 2, 4])
    q += cubes("calculus", dict(what=7, vars=1, nums=0, ops=3, unlo=1, unhi=3, binlo=14, binhi=18), shape=range(22))
    q += cubes("calculus", dict(what=7, vars=2, nums=0, ops=1, pad=30)) + cubes("calculus", dict(what=7, vars=1, nums=0, ops=1, padin=30)) + cubes("calculus", dict(what=7, vars=1, nums=0, ops=1, padin=7, pad=6)) + cubes("calculus", dict(what=7, vars=2, ops=1, cfg=1)) + cubes("calculus", dict(what=7, vars=1, nums=0, consts=1, cfg=1, ops=2, binhi=18, unlo=1, unhi=3), shape=range(6))
    q += cubes("calculus", dict(what=7, vars=2, nums=0, ops=4, rootunlo=3, rootunhi=13, unlo=2, unhi=3, binlo=16, binhi=18), shape=[12])
    q += with_(cubes("calculus", dict(what=7, vars=1, nums=0, consts=3, ops=3, unlo=2, unhi=3, binlo=14, binhi=17, rootbinlo=15, rootbinhi=17), shape=[15]) + cubes("calculus", dict(what=7, vars=1, nums=0, consts=3, unlo=2, unhi=2, binlo=14, binhi=18), ops=[1, 2]), candidates=[1e12, 1e13, 3e12, 1e15])
    if tier == "thorough":
        q += with_([j for r in ALLBIN for j in cubes("calculus", dict(what=7, vars=1, nums=1, ops=3, rootbinlo=r, rootbinhi=r), shape=range(9, 22))]
                   + cubes("calculus", dict(what=7, vars=1, nums=1, ops=3), shape=range(9))
                   + cubes("calculus", dict(what=7, vars=1, nums=0, consts=2, ops=3, unlo=2, unhi=3, binlo=14, binhi=18), shape=range(22)), time=1500)
    return q


prop("C07", mode="real", harness="calculus", jobs=c07, covers=["value"],
     bounds="every tree with 1 or 2 operators over two variables and symbolic real numbers, all 21 operators; the same with the constants 0, 1, 2, -1, 1/2 as leaves; every tree with 3 operators out of + - sin and + - * / ^ over one variable, numbers with the same text (thorough: all operators, numbers and constants as leaves); functions of a binary operator over two functions")
prop("C08", harness="calculus", jobs=lambda tier: cubes("calculus", dict(what=8, vars=0), ops=[1]) + cubes("calculus", dict(what=8, vars=0, nums=0, consts=2, ops=1, pad=60)) + with_(cubes("calculus", dict(what=8, vars=0, ops=2, **REP), shape=[0, 2, 4]) + [dict(harness="calculus", p=dict(what=8, vars=0, ops=2, unlo=u, unhi=u, binlo=b, binhi=b, shape=1)) for u in (9, 10) for b in (16, 17, 18)] + [dict(harness="calculus", p=dict(what=8, vars=0, ops=2, binlo=b, binhi=b, rootbinlo=c, rootbinhi=c, shape=s)) for b in (16, 17, 18) for c in (16, 17, 18) for s in (3, 5)], branch_ms=500))

def c09(tier):
    q = [j for r in range(14, 19) for j in cubes("calculus", dict(what=9, vars=1, ops=2, rootbinlo=r, rootbinhi=r), shape=[3, 5])]
    q += cubes("calculus", dict(what=9, vars=2), ops=[0, 1]) + cubes("calculus", dict(what=9, vars=1, ops=2, binhi=18), shape=[0, 1, 2, 4])
    q += cubes("calculus", dict(what=9, vars=1, nums=0, ops=3, absent=0, binhi=18), shape=range(22))
    q += cubes("calculus", dict(what=9, vars=2, pad=30, nums=0, binhi=18, ops=1)) + cubes("calculus", dict(what=9, vars=1, padin=30, nums=0, binhi=18, ops=1)) + cubes("calculus", dict(what=9, vars=2, cfg=1, ops=1, binhi=18)) + cubes("calculus", dict(what=9, vars=1, nums=0, consts=1, cfg=1, ops=2, binhi=18, unlo=2, unhi=3), shape=range(6))
    q += cubes("calculus", dict(what=9, vars=2, nums=0, ops=3, absent=0, unlo=2, unhi=3, binlo=14, binhi=16, rootbinlo=16, rootbinhi=18), shape=range(8, 22))
    if tier == "thorough":
        q += with_([j for r in range(14, 19) for j in cubes("calculus", dict(what=9, vars=2, ops=2, rootbinlo=r, rootbinhi=r), shape=[3, 5])]
                   + cubes("calculus", dict(what=9, vars=2, nums=0, ops=3, binhi=18), shape=range(22))
                   + cubes("calculus", dict(what=9, vars=1, nums=1, ops=3, unlo=2, unhi=3, binhi=18), shape=range(22)), time=1500)
    return q


def c10(tier):
    q = cubes("calculus", dict(what=10, vars=2, binhi=18), ops=[0, 1], order=[2, 3, 4], move=[0, 1])
    q += cubes("calculus", dict(what=10, vars=1, binhi=17, ops=1, nums=0), order=[5], move=[0, 1]) + cubes("calculus", dict(what=10, vars=1, nums=0, unlo=1, unhi=4, binlo=14, binhi=17, ops=1), order=[6], move=[0, 1])
    q += cubes("calculus", dict(what=10, vars=1, nums=0, unlo=1, unhi=4, binlo=14, binhi=16, ops=1), order=[7, 8, 9, 10, 11, 12], move=[0]) + cubes("calculus", dict(what=10, vars=1, nums=0, unlo=1, unhi=4, binlo=14, binhi=15, ops=1), order=[16, 17, 20, 33], move=[1]) + cubes("calculus", dict(what=10, vars=1, nums=0, unlo=13, unhi=13, binlo=14, binhi=16, ops=1), order=[7, 9, 12], move=[0])
    q += cubes("calculus", dict(what=10, vars=1, nums=0, binhi=18, ops=2), order=[2], shape=range(6)) + cubes("calculus", dict(what=10, vars=1, nums=0, binhi=18, unlo=2, unhi=3, ops=2), order=[3], shape=range(6))
    q += cubes("calculus", dict(what=10, vars=1, nums=1, binhi=18, unlo=2, unhi=3, ops=2), order=[2], shape=[0, 1, 2, 4])
    q += cubes("calculus", dict(what=10, vars=2, pad=20, nums=0, binhi=18, order=2, ops=1)) + cubes("calculus", dict(what=10, vars=1, padin=8, nums=0, binhi=18, ops=1, order=2)) + cubes("calculus", dict(what=10, vars=1, cfg=1, ops=1, binhi=18, order=2))
    if tier == "thorough":
        q += with_([j for r in range(14, 19) for j in cubes("calculus", dict(what=10, vars=1, nums=1, binhi=18, ops=2, rootbinlo=r, rootbinhi=r), order=[2], shape=[3, 5])]
                   + cubes("calculus", dict(what=10, vars=1, nums=1, binhi=18, ops=2), order=[2], shape=[0, 1, 2, 4])
                   + cubes("calculus", dict(what=10, vars=1, nums=0, binhi=18, ops=2), order=[3], shape=range(6)), time=1500)
    return q


def c11(tier):
    q = cubes("calculus", dict(what=11, vars=1), ops=[0, 1], order=[1]) + cubes("calculus", dict(what=11, vars=2, consts=1, nums=0), ops=[1], order=[2, 3]) + cubes("calculus", dict(what=11, vars=1, ops=2, consts=1, nums=0), shape=range(6))
    q += cubes("calculus", dict(what=11, vars=1, nums=0, unlo=2, unhi=3, ops=3), shape=range(22))
    q += cubes("calculus", dict(what=11, vars=2, pad=20, nums=0, order=1, ops=1)) + cubes("calculus", dict(what=11, vars=1, padin=8, nums=0, ops=1, order=2))
    if tier == "thorough":
        q += with_(cubes("calculus", dict(what=11, vars=1, nums=1, ops=2), shape=range(6)) + cubes("calculus", dict(what=11, vars=1, consts=1, nums=0, unlo=2, unhi=3, ops=3), shape=range(22)), time=2500)
    return q


prop("C09", mode="real", harness="calculus", jobs=c09, covers=["derivative"],
     bounds="every tree with up to 1 operator over two variables and symbolic real numbers, with 2 operators over one variable and symbolic numbers, with 3 operators over one variable (thorough: two variables; numbers as leaves with representative operators); all 18 differentiable operators; derivative with respect to every variable and one that does not occur")
prop("C10", mode="real", harness="calculus", jobs=c10, covers=["derivative"],
     bounds="every tree with up to 1 operator over two variables and symbolic numbers, orders 2 to 4; trees with 2 operators over one variable, orders 2 (all operators) and 3 (representative; thorough: all); signs, sine, cosine, exponential, sums and products up to order 12, some to 33")
prop("C11", harness="calculus", jobs=c11, covers=["differentiated", "refused"],
     bounds="every tree with 1 operator over a variable and symbolic doubles, orders 2 and 3 with constants; 2 operators with the constants 0, 1, 2, -1 (thorough: symbolic doubles); 3 operators with two unary and all binary operators; both settings of error raising")
prop("C15", mode="real", harness="roundtrip", jobs=lambda tier: cubes("roundtrip", dict(vars=2), ops=[0, 1]) + cubes("roundtrip", dict(vars=1, ops=2), shape=range(6))
     + cubes("roundtrip", dict(vars=1, nums=0, ops=3, unlo=2, unhi=3, binlo=14, binhi=19), shape=range(22)) + cubes("roundtrip", dict(ops=1, vars=2, pad=30)) + cubes("roundtrip", dict(ops=1, vars=1, padin=30)) + cubes("roundtrip", dict(ops=1, vars=2, cfg=1)) + cubes("roundtrip", dict(ops=1, vars=10, nums=0)) + (with_(cubes("roundtrip", dict(vars=1, nums=0, ops=3, unlo=1, unhi=3), shape=range(22)), time=1200) if tier == "thorough" else []))

# numbers whose texts end in zeros in different places: candidates for the native confirmation of a text counterexample
NUMS = [0.5, 1.5, 10.5, 2.0, 10.0, 20.25, 0.1, 0.001, 0.7, 1.0000001, 1e6, 1000000.5, 1020300.0, 1e15, 2.5e15, 123456789.125, 1e16, 1e17, 1.5e20, 1e100, 2e200, 1e22, 1e30, 1e-16, 1e-17, 2e-20, 1.5e-30, 1e-100, 2.5e-200, 1e-300,
        # the longest texts: eleven digits before the point and all sixteen behind it, three digits of the exponent
        34359738368.0000076293945312, 17179869184.000003814697265625, 123456789.1, 100000000.1, 1234567.7, 123.45, 54321.123, 1048576.00000011, 1.2345678901234567e-300, 1.7976931348623157e308, 2.2250738585072014e-308, 1.2345678901234567e+17]
prop("C16", harness="numtext", jobs=lambda tier: [dict(harness="numtext", p=dict(what=0, range=r, fmt=f), candidates=NUMS) for r in range(5) for f in (2, 3)]
     + ([dict(harness="numtext", p=dict(what=0, range=r, fmt=1), candidates=NUMS, time=1500) for r in ((0, 1, 2, 3, 4) if tier == "thorough" else (0, 2, 3))]) + cubes("numtext", dict(what=1)))

prop("C35", harness="errors", jobs=lambda tier: cubes("errors", dict(what=0), n=[0, 1, 2, 5]) + cubes("errors", dict(what=1), n=[0, 1, 2, 3, 4, 5]) + cubes("errors", dict(what=1, plus=1), n=[3]) + cubes("errors", dict(what=1, ws=1), n=[3, 4]) + cubes("errors", dict(what=1, high=1), n=[1, 2, 3, 4]) + cubes("errors", dict(what=1), n=[1, 2], pre=[250, 33000]) + cubes("errors", dict(what=1, n=1, pre=70000)) + (with_(cubes("errors", dict(what=1), n=[6]) + cubes("errors", dict(what=1, plus=1), n=[4, 5]), time=1200) if tier == "thorough" else []),
     covers=["kind", "word", "closing", "opening", "adjacent"])

# matrices: sizes r x c
def mats(what, sizes, **kw):
    out = []
    for s in sizes:
        p = dict(what=what, r=s[0], c=s[1], iteabs=1)
        if len(s) > 2:
            p["k"] = s[2]
        out.append(dict(harness="mat", p=p, **kw))
    return out


LARGE = [(5, 5), (9, 1), (1, 9)]
HUGE = [(40, 1), (1, 40), (20, 20)]
SZ = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3)]
BIG = [(1, 4), (4, 1), (4, 4), (3, 4), (4, 3)]
prop("C19", mode="real", harness="mat", jobs=lambda tier: mats(0, SZ) + cubes("mat", dict(), list=range(14)) + mats(1, SZ) + mats(2, [(1, 1, 1), (2, 2, 2), (2, 3, 2), (3, 2, 3), (1, 3, 2), (3, 1, 3), (1, 1, 3), (3, 3, 3), (3, 1, 1), (2, 1, 3)])
     + mats(3, SZ) + mats(4, SZ) + with_(mats(0, SZ[:6]) + mats(1, SZ[:4]) + mats(3, SZ[:6]) + mats(4, SZ[:6]) + cubes("mat", dict(), list=[3, 4]) + [dict(harness="mat", p=dict(what=2, r=1, k=2, c=1, special=1)), dict(harness="mat", p=dict(what=2, r=2, k=1, c=2, special=1)), dict(harness="mat", p=dict(what=1, r=1, c=2, special=1)), dict(harness="mat", p=dict(what=6, r=2, c=1, special=1))], mode="fp") + mats(5, [(1, 1), (2, 2), (1, 3), (3, 1), (2, 3)])
     + mats(0, LARGE + [(12, 3)]) + mats(1, LARGE + [(12, 3), (3, 12)]) + mats(2, [(5, 5, 5), (1, 9, 1), (9, 1, 9), (2, 12, 3), (7, 7, 7)]) + mats(3, LARGE) + mats(4, LARGE) + mats(5, [(5, 5), (1, 12)]) + mats(0, HUGE) + mats(1, HUGE) + mats(2, [(1, 40, 1), (40, 1, 40), (20, 20, 20), (3, 2, 33)] + [(1, 1, k) for k in range(4, 41)]) + mats(3, HUGE) + mats(4, HUGE) + mats(5, [(18, 18)]) + (mats(0, BIG) + mats(1, BIG) + mats(2, [(4, 4, 4), (2, 4, 3), (4, 1, 4)]) + mats(3, BIG) + mats(4, BIG) if tier == "thorough" else []))
prop("C20", harness="mat", jobs=lambda tier: mats(6, SZ, mode="real") + mats(7, [(1, 1), (1, 3), (3, 1), (2, 2)]) + mats(8, [(1, 1), (1, 3), (3, 1)]) + mats(8, [(2, 2), (3, 2), (2, 3), (4, 1), (7, 1)], mode="real") + mats(6, LARGE, mode="real") + mats(7, LARGE, mode="real") + mats(6, [(n, 1) for n in range(10, 41, 3)] + [(1, 40)], mode="real") + mats(7, HUGE[:2], mode="real") + (mats(6, BIG, mode="real") + mats(7, [(3, 2), (2, 3)], time=900) + mats(8, [(3, 2), (2, 2)], time=900) + mats(8, [(3, 3), (4, 3)], mode="real") if tier == "thorough" else []),
     covers=["zero", "not zero", "equal", "not equal", "less", "not less", "vector", "no vector"])
prop("C21", mode="real", harness="mat", jobs=lambda tier: mats(9, [(n, n) for n in (1, 2, 3, 4)]) + mats(10, [(n, n) for n in (1, 2, 3)]) + mats(11, [(n, n) for n in (1, 2, 3)]) + mats(12, [(n, n) for n in (1, 2, 3)]) + cubes("mat", dict(iteabs=1, free=5, r=5), what=[9, 10, 11, 12], stride=[1, 7]) + cubes("mat", dict(iteabs=1, free=4, r=6), what=[9, 10, 11, 12], stride=[1, 5]) + (mats(9, [(5, 5)], time=900) + mats(10, [(4, 4)], time=900) + mats(11, [(4, 4)], time=900) if tier == "thorough" else []),
     covers=["inverse", "singular", "positive", "not positive"])


def lin(what):
    def f(tier):
        b = dict(what=what, iteabs=1)
        q = cubes("linear", dict(b, sym=1), r=[1], c=[1, 2, 3]) + cubes("linear", dict(b, sym=1, r=2), c=[2])
        s = dict(b, bconst=2)
        q += cubes("linear", dict(s, r=3, c=3, lo=0, hi=1), symrow=[0, 1, 2], symcol=[2]) + cubes("linear", dict(s, r=2, c=3, lo=-1, hi=1), symrow=[0, 1], symcol=[1, 2])
        q += cubes("linear", dict(b, lo=-1, hi=2), r=[1, 2], c=[2]) + cubes("linear", dict(b, lo=0, hi=2, r=2, c=3)) + cubes("linear", dict(b, r=3, c=3, lo=0, hi=1))
        q += cubes("linear", dict(b, lo=0, hi=1), r=[2, 3], c=[4])
        q += cubes("linear", dict(b, sym=1, eps=12), r=[1], c=[1, 2]) + cubes("linear", dict(b, sym=1, eps=12, r=2), c=[2])
        if what == 23:
            q += cubes("linear", dict(b), r=[2], c=[1]) + cubes("linear", dict(b, lo=0, hi=1), r=[3], c=[1, 2])
        q += cubes("linear", dict(b, pat=12, r=6, c=6)) + cubes("linear", dict(b, pat=6, r=4, c=4)) + cubes("linear", dict(b, pat=6, r=7, c=7)) + cubes("linear", dict(b, pat=4, r=4, c=6)) + cubes("linear", dict(b, pat=6, r=8, c=7))
        if what == 23:
            q += cubes("linear", dict(b, pat=6, r=8, c=8))
        if tier == "thorough":
            q += with_(cubes("linear", dict(b, pat=6), r=[5, 6], c=[6, 8]), time=900)
            q += with_(cubes("linear", dict(s, r=3, c=3, lo=0, hi=1), symrow=[0, 1, 2], symcol=[0, 1]) + cubes("linear", dict(s, r=2, c=3, lo=-1, hi=1), symrow=[0, 1], symcol=[0]) + cubes("linear", dict(b, sym=1, r=2), c=[3]) + cubes("linear", dict(b, r=3, c=3, lo=0, hi=1), symrow=[0, 1, 2]) + cubes("linear", dict(b, r=3, c=3, lo=-1, hi=1)) + cubes("linear", dict(b, r=2, c=5, lo=0, hi=1)), time=1500)
        return q
    return f


prop("C22", mode="real", harness="linear", jobs=lin(22), covers=["solved"])
prop("C23", mode="real", harness="linear", jobs=lin(23), covers=["solvable", "over", "inconsistent", "infinite", "indeterminate"])
prop("C24", harness="table", jobs=lambda tier: cubes("table", dict(steps=1), n=[1, 2, 3]) + cubes("table", dict(steps=2, pool=2), n=[1, 2]) + cubes("table", dict(steps=1, text=1, pool=3), n=[1, 2]) + cubes("table", dict(pool=3), n=[1], cmp=[1, 2]) + cubes("table", dict(pool=3), n=[2], cmp=[1]) + with_(cubes("table", dict(pool=3, iteabs=1), n=[2], cmp=[2]) + cubes("table", dict(iteabs=1), n=[5, 12], cmp=[5, 12]), mode="real") + cubes("table", dict(steps=1), n=[5, 9, 20, 40]) + cubes("table", dict(steps=2), n=[9])
     + (with_(cubes("table", dict(steps=2, pool=3), n=[2, 3]) + cubes("table", dict(pool=3), n=[3], cmp=[3]) + cubes("table", dict(steps=3, pool=2), n=[2]), time=1200) if tier == "thorough" else []),
     covers=["history", "equal", "not equal"])
ARI = dict(unlo=1, unhi=3, binlo=14, binhi=16)  # sign, sine; sum, difference, product
prop("C25", mode="real", harness="symmat", jobs=lambda tier: [dict(harness="symmat", p=dict(what=0, r=r, k=k, c=c)) for r, k, c in ((1, 1, 1), (1, 2, 1), (2, 1, 2), (1, 2, 2), (2, 2, 1), (1, 3, 1))] + [dict(harness="symmat", p=dict(what=0, r=2, k=3, c=2, nums=0, vars=1)), dict(harness="symmat", p=dict(what=0, r=2, k=2, c=3, nums=1, vars=0)), dict(harness="symmat", p=dict(what=0, r=3, k=2, c=2, nums=1, vars=0)), dict(harness="symmat", p=dict(what=0, r=1, k=2, c=1, opa=1, opb=0, **ARI))]
     + [dict(harness="symmat", p=dict(what=1, r=1, k=k, k2=l, c=1)) for k in (1, 2, 3) for l in (1, 2, 3)] + cubes("symmat", dict(what=2), r=[1, 2], c=[1, 2]) + cubes("symmat", dict(what=2, opa=0, opb=1, **ARI), r=[1, 2], c=[1])
     + cubes("symmat", dict(what=3, vars=2), r=[1, 2], c=[1, 2]) + cubes("symmat", dict(what=3, vars=1, opa=0, **ARI), r=[1, 2], c=[1, 2]) + cubes("symmat", dict(what=4), r=[1, 2, 3], c=[1, 2]) + cubes("symmat", dict(what=5), r=[1, 2], c=[1, 2]) + cubes("symmat", dict(what=5, opa=0, opb=0, vars=1, nums=0, **ARI), r=[1], c=[1, 2]) + cubes("symmat", dict(what=6), list=range(7))
     + with_(cubes("symmat", dict(near=1), what=[4, 5], r=[1, 2], c=[1]), mode="fp") + cubes("symmat", dict(near=1, vars=0, nums=0), what=[2, 3], r=[1], c=[1])
     + with_(cubes("symmat", dict(what=8, vars=1, r=1, c=2, ops=1), opa=[0, 1]) + cubes("symmat", dict(what=8, vars=1, r=1, c=1, ops=2, consts=1, nums=0, unlo=9, unhi=10, binlo=16, binhi=18), shape=[2, 4]) + cubes("symmat", dict(what=8, vars=1, r=1, c=1, ops=2, consts=1, nums=0, binlo=16, binhi=17), shape=[3, 5]), mode="fp")
     + [dict(harness="symmat", p=dict(what=0, r=r, k=k, c=c, plain=1, vars=2)) for r, k, c in ((3, 3, 3), (5, 5, 5), (4, 2, 6), (1, 8, 1), (8, 1, 8), (1, 40, 1), (20, 2, 20), (12, 12, 12))] + cubes("symmat", dict(what=1, plain=1, vars=1, r=2, c=2), k=[4, 6], k2=[4, 6]) + cubes("symmat", dict(plain=1, vars=2), what=[2, 3, 4, 5], r=[3, 5], c=[4, 6]) + cubes("symmat", dict(plain=1, vars=2), what=[2, 3, 4, 5], r=[8], c=[1]) + cubes("symmat", dict(plain=1, vars=2), what=[2, 3, 4, 5], r=[12], c=[20]) + cubes("symmat", dict(vars=2, what=3, r=12, c=20), only=[-1, 0, 100, 239]) + cubes("symmat", dict(vars=2, what=3, r=5, c=4), only=[-1, 3, 19]) + cubes("symmat", dict(vars=2, what=3, r=12, c=20, opa=200, unlo=1, unhi=3, binlo=16, binhi=16), only=[-1])
     + cubes("symmat", dict(what=0, r=1, k=2, c=1, cfg=1, vars=1)) + cubes("symmat", dict(cfg=1, vars=1, r=2, c=1), what=[2, 3, 4, 5]),
     covers=["mismatch", "match", "not numbers", "numbers", "equal", "not equal"])
prop("C26", mode="real", harness="symmat", jobs=lambda tier: cubes("symmat", dict(what=7, vars=2, nums=0), r=[1], c=[1, 2, 3]) + cubes("symmat", dict(what=7, vars=2, nums=0, unlo=2, unhi=3, binlo=16, binhi=19), r=[2], c=[1, 2]) + cubes("symmat", dict(what=7, vars=2, nums=0, op0=2), r=[2, 3], c=[1, 2], opa=[0, 1]) + cubes("symmat", dict(what=7, vars=6, nums=0, op0=1, plain=1, r=4, c=5), opa=[0, 3]) + cubes("symmat", dict(what=7, vars=6, nums=0, op0=1, plain=1, r=8, c=8), opa=[5]) + cubes("symmat", dict(what=7, vars=6, nums=0, op0=1, plain=1, r=18, c=18, unlo=3, unhi=4, binlo=16, binhi=17), opa=[5]),
     covers=["entry", "refused"])
nl = lambda what, **kw: cubes("nonlin", dict(what=what), **kw)
HARD = [1, 2, 4, 13]  # families for which symbolic coefficients and a symbolic start together are too much after one step


def newton(tier):
    q = nl(27, family=[f for f in range(14) if f not in HARD], it=[0, 1]) + nl(27, family=[1, 4], it=[0]) + nl(27, family=[1], it=[1], ccoef=[1], coefs=[2])
    q += with_(nl(27, family=[f for f in range(14) if f != 2], concrete=[1], eps=[1], it=[2, 8]) + nl(27, family=[2], concrete=[1], eps=[1], it=[2]), mode="fp", time=60)
    q += with_(nl(27, family=[14, 15, 16, 19], concrete=[1], eps=[1], it=[2, 8], coefs=[1], invalid=[0, 1]) + nl(27, family=[3, 9, 11], concrete=[1], eps=[1], invalid=[1], it=[8], coefs=[1]) + nl(27, family=[17, 18], concrete=[1], eps=[1], it=[2], coefs=[1]), mode="fp")
    q += with_(nl(27, family=[22], concrete=[1], starts=[2], coefs=[1], it=[3, 12]), mode="fp") + nl(27, family=[22], it=[0], size=[9])
    if tier == "thorough":
        q += with_(nl(27, family=HARD, it=[0, 1]) + nl(27, family=HARD, it=[1, 2], ccoef=[1], coefs=[4]) + nl(27, family=[f for f in range(14) if f not in HARD], it=[2]), time=900)
        q += with_(nl(27, family=range(14), concrete=[1], eps=[1], it=[5, 20], coefs=[4]), mode="fp", time=900)
    return q


EASY = [0, 5, 6, 7, 12]


def damped(tier):
    q = nl(28, family=EASY, it=[0, 1]) + nl(28, family=[10, 11], it=[0])
    q += with_(nl(28, family=[f for f in range(14) if f != 2], concrete=[1], eps=[1], it=[2]) + nl(28, family=[2], concrete=[1], coefs=[1], eps=[1], it=[2]) + nl(28, family=EASY + [3, 9, 10, 11], concrete=[1], eps=[1], it=[6]), mode="fp", time=60)
    q += nl(28, family=[20, 21], zero=[1], it=[40])
    q += with_(nl(28, family=[10, 20], concrete=[1], starts=[4], coefs=[1], it=[40]), mode="fp")
    q += with_(nl(28, family=[14, 15, 16, 19], concrete=[1], eps=[1], it=[2], coefs=[1]) + nl(28, family=[3, 4, 9, 14, 15], concrete=[1], eps=[1], invalid=[1], it=[1], coefs=[1]) + nl(28, family=[17, 18], concrete=[1], eps=[1], it=[1], coefs=[1], starts=[2]), mode="fp")
    q += with_(nl(28, family=[22], concrete=[1], starts=[2], coefs=[1], it=[2], size=[6]) + nl(28, family=[22], concrete=[1], starts=[2], coefs=[1], it=[8], size=[5]), mode="fp")
    if tier == "thorough":
        q += with_(nl(28, family=[1, 2, 3, 4, 8, 9, 13], it=[0]) + nl(28, family=[10, 11, 1, 3], it=[1]) + nl(28, family=[1, 2, 3, 4, 8, 9, 13], it=[0, 1], ccoef=[1], coefs=[2]), time=900)
        q += with_(nl(28, family=range(14), concrete=[1], eps=[1], it=[5, 20], coefs=[4]), mode="fp", time=900)
    return q


def dispatch(tier):
    q = nl(30, family=[0], it=[0, 1]) + nl(30, family=[7, 12], it=[1]) + nl(30, family=[0], it=[0], again=[1])
    q += with_(nl(30, family=[f for f in range(14) if f not in (2, 8, 13)], concrete=[1], it=[0, 5]) + nl(30, family=[2, 8, 13], concrete=[1], it=[0, 1], coefs=[1]), mode="fp")
    q += with_(nl(30, family=[0, 1, 3, 7], concrete=[1], it=[3], coefs=[1], again=[1]), mode="fp")
    q += with_(nl(30, family=[14, 16], concrete=[1], it=[2], coefs=[1]) + nl(30, family=[17], concrete=[1], it=[2], coefs=[1], starts=[2]), mode="fp")
    if tier == "thorough":
        q += with_(nl(30, family=[1, 2, 3, 8, 9, 13], it=[0, 1]), time=900) + with_(nl(30, family=range(14), concrete=[1], it=[12], coefs=[4]), mode="fp", time=900)
    return q


prop("C27", mode="real", harness="nonlin", jobs=lambda tier: nl(127) + newton(tier), covers=["returned", "gave up"])
prop("C28", mode="real", harness="nonlin", jobs=damped, covers=["returned", "gave up"])
prop("C29", mode="real", harness="nonlin", jobs=lambda tier: nl(29, n=[1], form=[0, 1, 2]) + nl(29, n=[2]) + nl(29, n=[2], form=[1, 2], lo=[0], hi=[1]) + nl(29, n=[3], lo=[0], hi=[1], free=[6]) + nl(29, n=[1, 2], wide=[12], form=[0, 2], lo=[0], hi=[2]) + nl(29, n=[4], pat=[2], form=[0, 1, 2]) + nl(29, n=[5, 6], pat=[2]) + (with_(nl(29, n=[5, 6], pat=[4]) + nl(29, n=[7, 8], pat=[2]), time=600) if tier == "thorough" else []), covers=["start", "step"])
prop("C30", mode="real", harness="nonlin", jobs=dispatch, covers=["unknown", "newton", "damped", "gave up", "returned"])
prop("C31", harness="nonlin", jobs=lambda tier: with_(nl(31, n=[1, 2], K=[2, 3, 4, 8, 20]) + nl(31, n=[1], K=[36], far=[32]) + nl(31, n=[1], K=[28], far=[24]), mode="real") + nl(231) + nl(131, K=[0], n=[1, 2]) + nl(131, K=[0], n=[2], kind=[5]) + with_(nl(131, K=[1], n=[1, 2], kinds=[1]) + nl(131, K=[2], n=[1], kinds=[1]), mode="real", time=20), covers=["full step", "shortened", "stopped"])


def depth(tier):
    q = cubes("depth", dict(n=16), what=[0], shape=[0, 1, 3]) + cubes("depth", dict(n=16, same=1), what=[10, 19], shape=[0, 1, 3])
    q += cubes("depth", dict(), what=[w for w in range(1, 19) if w != 10], shape=[0, 1, 3, 4])
    q += cubes("depth", dict(n=16, side=1), what=[0, 6], shape=[0, 1]) + cubes("depth", dict(n=12, same=1, side=1), what=[10, 19], shape=[0, 1]) + cubes("depth", dict(side=1), what=[1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 14, 15, 16, 17], shape=[0, 1])
    if tier == "thorough":
        q += with_(cubes("depth", dict(side=2), what=[w for w in range(1, 19) if w != 10], shape=[0, 1]) + cubes("depth", dict(n=64), what=range(19), shape=[0, 1, 2, 3, 4]) + cubes("depth", dict(n=16), what=[10, 19], shape=[0, 1, 2, 3, 4]) + cubes("depth", dict(n=64, paren=0), what=[0], shape=[0, 1]), time=900)
    return q


prop("C32", harness="depth", jobs=depth, covers=["chain"])


def leaks(tier):
    q = cubes("leak", dict(ops2=0), what=[0], ops=[0, 1]) + cubes("leak", dict(consts=1), what=[3]) + cubes("leak", dict(), what=[w for w in range(19) if w not in (0, 1, 3, 6, 8)]) + cubes("leak", dict(what=1, vars=0), ops=[1]) + cubes("leak", dict(what=1, vars=0, unlo=8, unhi=10), ops=[2]) + cubes("leak", dict(what=1, vars=1), ops=[1]) + cubes("leak", dict(), what=[6, 8], len=[0, 1, 2])
    q += cubes("leak", dict(), what=[14, 15], it=[4]) + cubes("leak", dict(ops=1, pad=30), what=[1, 2]) + cubes("leak", dict(ops=0, pad=30), what=[0, 3, 4, 5, 12, 13])
    if tier == "thorough":
        q += with_(cubes("leak", dict(ops=2), what=[0, 1, 2, 3, 4, 5, 12, 13]) + cubes("leak", dict(len=3), what=[6, 8]) + cubes("leak", dict(len=4), what=[7]), time=900)
    return q


def config(tier):
    q = cubes("config", dict(reset=1)) + cubes("config", dict(ops2=0), what=[0], ops=[1]) + cubes("config", dict(consts=1), what=[3]) + cubes("config", dict(), what=[w for w in range(1, 19) if w not in (3, 15, 16)]) + cubes("config", dict(it=0), what=[15, 16])
    q += cubes("config", dict(eps=0, it=0), level=[0, 5, 6, 7], what=[10, 14, 15, 16])
    if tier == "thorough":
        q += with_(cubes("config", dict(ops=2), what=[1, 2, 3, 4, 5, 12]) + cubes("config", dict(it=3), what=[14, 15, 16]) + cubes("config", dict(eps=0, it=2), level=range(8), what=[14, 15, 16]), time=900)
    return q


prop("C33", harness="leak", jobs=leaks, covers=["done", "failed"])
prop("C34", harness="config", jobs=config, covers=["reset", "unchanged", "level", "done", "failed"])

# what each check explores, in words (the evidence names every job)
LARGE_TREES = "; one operator below a chain of 30 to 40 fixed operators and above one of the same length; changed settings (tolerance, iteration limit, start value, method, log level)"
BOUNDS = {
    "C01": "every sequence of 4 tokens (thorough 5); every byte string of up to 3 bytes (thorough 4, over some alphabets 5) and of 2 bytes in 14 contexts, three of them with very long words or many tokens; infix expressions with 2 operators and every leaf and prefix, with 3 to 5 operators one per precedence level (thorough: all, up to 6), behind eight fixed beginnings with waiting operators, signs and parentheses",
    "C02": "every byte string of up to 3 bytes (thorough 4, over some alphabets 5) and of 2 bytes in 14 contexts (thorough 3); words, numbers, blanks, parentheses, chains, signs and calls of every length up to 134 and from 250 to 259, up to 34 with a symbolic byte behind them",
    "C03": "every sequence of 4 tokens (thorough 5); infix expressions with 2 operators (thorough 3) of which one token is dropped, doubled or replaced; every byte string of up to 3 bytes (thorough 4) and of 2 bytes in 14 contexts",
    "C04": "words of up to 3 word characters, 4 letters, any 2 bytes; words with signs in three contexts; words behind 8, 80 and 300 fixed letters and behind 4 and 12 digits (thorough: 4 and 5 symbolic characters); numbers and names of every length up to 60, from 120 to 131 and from 250 to 259",
    "C05": "every tree with up to 2 operators over one variable and symbolic doubles, all operators (thorough: 3, representative); one operator below 40 fixed operators, constants below 150 and 800; infinite constants; recursive and in-place evaluation",
    "C06": "as C05 with both settings of error raising; 2 operators representative (thorough: all); 3 operators with constants and one variable, evaluation in place that fails",
    "C08": "every variable-free tree with 1 operator and symbolic doubles, 2 operators representative (thorough: all), with representative constants below 60 fixed operators",
    "C12": "trees with 2 operators, replacements with 0 or 1 operator, all five forms, copied and moved arguments; up to 11 names that do not occur beside the others; one operator below 30 fixed operators; changed settings (thorough: 3 operators)",
    "C13": "histories of 2 actions out of 13 over 3 slots with any aliasing (thorough 3); 1 action with every operator and function, on trees below 40 fixed operators, with changed settings",
    "C14": "pairs of trees with up to 2 operators; pairs below 40 fixed operators; ten names, two of them long; changed settings (thorough: 3)",
    "C15": "every tree with up to 2 operators and symbolic numbers, 3 operators representative" + LARGE_TREES,
    "C16": "every number of the ranges (0, 1e-16], (1e-16, 100), [100, 1e6), [1e6, 1e16), [1e16, largest], both signs: every digit of the text symbolic below 100 and in the scientific notation (thorough: everywhere), otherwise the last three, two of the first and two before the point; 41 concrete numbers, among them those with the longest texts",
    "C17": "trees with up to 3 operators (thorough 4), up to ten names, below 40 fixed operators, matrices of up to 12 entries and of 60 entries with 50 names; changed settings",
    "C18": "every byte string of up to 4 bytes (thorough 6), 1 or 2 bytes inside names of up to 300 letters; two names of up to 2 bytes one after the other",
    "C19": "all sizes up to 3x3 (thorough 4x4) in real and floating-point arithmetic with symbolic entries; 5x5, 7x7, 9x1, 1x9, 12x3 products, swaps, transposes, resizing; the same for 40x1, 1x40, 20x20; products over 4 to 40 entries; lists of rows of every length; entries that are infinite, NaN, 0 and 1",
    "C20": "all sizes up to 3x3 (thorough 4x4), 5x5, 9x1, 1x9, vectors of up to 40; symbolic entries and tolerance",
    "C21": "every matrix up to 3x3, determinants of 4x4 (thorough 4x4, 5x5); 5x5 and 6x6 matrices with 5 and 4 symbolic entries in two patterns",
    "C22": "1xn and 2x2 systems with every entry symbolic; 3x3, 2x3 with one symbolic entry and small integers; 2x4, 3x4 with entries 0 and 1; systems with concrete factors up to 8x8, rank deficient and underdetermined, and symbolic right-hand sides; the default tolerance and one of 0.12",
    "C23": "as C22, and more equations than unknowns",
    "C24": "up to 3 names in every order, histories of 2 steps (thorough 3), comparisons of tables of up to 12 names, histories over up to 40 names",
    "C25": "products up to 2x3 by 3x2 and 1x3 by 3x1 of symbolic entries and 12x12 by 12x12, 20x2 by 2x20, 1x40 by 40x1 of plain ones; every other operation up to 2x2, 3x2 symbolic and 12x20 plain; replacing and evaluating entries without a value; changed settings",
    "C26": "up to 3 equations with up to 3 variables in any order, repeated and absent; 4 equations with 5 variables, 8x8, 18x18",
    "C27": "20 families of systems of up to 4 equations, symbolic coefficients and starts for limits 0 and 1, representative ones for limits 2 and 8, symbolic tolerance; equations without a value with errors on and off; 9 equations with one that is not linear",
    "C28": "20 families of systems of up to 4 equations; symbolic coefficients and starts for limits 0 and 1, representative ones for limits 2 and 6; equations without a value with errors on and off; systems without a solution for up to 40 iterations; 5 and 6 equations with one that is not linear",
    "C29": "affine systems of up to 2 unknowns with symbolic coefficients and starts, 3 unknowns with 0/1 coefficients and six symbolic numbers, 4 to 6 unknowns (thorough 8) with concrete coefficients and symbolic starts and solutions; starts up to 1e12; tables in every order",
    "C30": "every int as method; 17 families of systems, symbolic and representative starts, limits 0 to 5; two calls in succession with different settings",
    "C31": "arbitrary values of function and derivative at up to 20 trial points, one and two dimensions; the same after 24 and 32 failing trial points; concrete functions that never meet the condition; the secant search with arbitrary values over its first steps, with arbitrary periodic steps and with concrete functions for its limit",
    "C32": "chains of 16, 32 and 64 operators in four shapes (thorough five), 19 operations; chains whose other operands are variables, numbers or products",
    "C33": "19 classes of operations on symbolic arguments, success and failure; trees below 30 fixed operators",
    "C34": "19 classes of operations with symbolic settings; results with log levels off, debug, trace and all; reset from every state",
    "C35": "all kinds of errors with every extra text of up to 5 bytes; malformed texts of up to 5 bytes; tabs, line ends and bytes above 127 up to 4; positions behind 250, 33000 and 70000 blanks",
}
for _p, _b in BOUNDS.items():
    PROPS[_p].setdefault("bounds", _b)
for _p in ("C07", "C09", "C10", "C11"):
    PROPS[_p]["bounds"] += LARGE_TREES
