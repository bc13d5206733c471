#!/usr/bin/env python3
"""Decides one property by symbolic execution of /repo's current source.

usage: check.py PROPERTY [--tier quick|thorough] [--repo DIR] [--only SUBSTR] [--keep] [-v]

The library is compiled from the working tree to LLVM bitcode, linked with the property's harness and the model of
the C++ runtime, and executed symbolically (engine/tsx.cpp): every job ("cube") fixes the harness parameters and
leaves the inputs symbolic; Z3 decides every branch and every assertion.  A counterexample is replayed natively
(g++, real libstdc++, sanitizers) before it is reported.
"""
import argparse, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import props  # noqa: E402

Z3 = None
for d in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3",):
    if os.path.isdir(d):
        Z3 = d
LLVM = "/usr/lib/llvm-18"
NCPU = os.cpu_count() or 4
T0 = time.time()


class Fail(Exception):
    pass


def log(*a):
    if VERBOSE:
        print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def run(cmd, timeout=900, cwd=None, env=None, mem=None):
    def pre():
        os.setpgid(0, 0)
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env, preexec_fn=pre,
                         stdin=subprocess.DEVNULL)
    with PROCS_LOCK:
        PROCS.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        rc = -999
    finally:
        with PROCS_LOCK:
            PROCS.discard(p)
    return rc, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")


PROCS = set()
PROCS_LOCK = threading.Lock()


def must(cmd, what, **kw):
    rc, o, e = run(cmd, **kw)
    if rc != 0:
        raise Fail("%s failed (rc %s): %s\n%s" % (what, rc, " ".join(cmd)[:300], (o + e)[:3000]))
    return o


def file_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


# ---------------------------------------------------------------------------------------------------- engine
def build_engine(scratch):
    d = os.path.join(VERIF, "engine")
    srcs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith((".cpp", ".h", ".inc")))
    key = file_hash(srcs)
    cache = os.path.join(VERIF, ".build")
    exe = os.path.join(cache, "tsx-" + key)
    if os.path.exists(exe):
        return exe
    try:
        os.makedirs(cache, exist_ok=True)
        if not os.access(cache, os.W_OK):
            raise OSError
        out = exe
    except OSError:
        out = os.path.join(scratch, "tsx")
    fl = ["-std=c++17", "-O2", "-w", "-I" + Z3 + "/include", "-I" + LLVM + "/include", "-D_GNU_SOURCE",
          "-D__STDC_CONSTANT_MACROS", "-D__STDC_LIMIT_MACROS"]
    objs = []
    with ThreadPoolExecutor(3) as ex:
        fs = []
        for s in ("tsx", "expr", "solver"):
            o = os.path.join(scratch, s + ".o")
            objs.append(o)
            fs.append(ex.submit(must, ["clang++-18" if s == "tsx" else "g++"] + fl + ["-c", os.path.join(d, s + ".cpp"), "-o", o], "engine build"))
        for f in fs:
            f.result()
    tmp = out + ".%d.tmp" % os.getpid()
    must(["g++", "-o", tmp] + objs + ["-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib", "-L" + LLVM + "/lib",
                                       "-lLLVM-18", "-Wl,-rpath," + LLVM + "/lib"], "engine link")
    os.rename(tmp, out)
    if out == exe:
        for f in os.listdir(cache):
            if f.startswith("tsx-") and f != os.path.basename(exe):
                try:
                    os.unlink(os.path.join(cache, f))
                except OSError:
                    pass
    return out


# ---------------------------------------------------------------------------------------------------- bitcode
CF = ["-std=c++14", "-O0", "-Xclang", "-disable-O0-optnone", "-g1", "-ffp-contract=off",
      "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS", "-isystem", os.path.join(VERIF, "runtime/shim"),
      "-emit-llvm", "-c", "-w"]


class Build:
    def __init__(self, repo, scratch, harnesses):
        self.repo, self.s = repo, scratch
        self.src = os.path.join(repo, "src")
        d = os.path.join(self.src, "tomsolver")
        self.cpps = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cpp"))
        self.single = os.path.join(repo, "single/include")
        self.harnesses = harnesses
        self.noinline = {"depth"}
        self.native = {}
        self.nlock = threading.Lock()

    def single_matches(self):
        """Does the shipped single header equal the one the project's own script makes from src?"""
        w = os.path.join(self.s, "regen")
        os.makedirs(w)
        for x in ("src", "single", "scripts"):
            shutil.copytree(os.path.join(self.repo, x), os.path.join(w, x), symlinks=True)
        for x in (".clang-format",):
            if os.path.exists(os.path.join(self.repo, x)):
                shutil.copy(os.path.join(self.repo, x), w)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        h = os.path.join(w, "single/include/tomsolver/tomsolver.h")
        try:
            with open(h, "rb") as f:
                old = f.read()
            rc, o, e = run([sys.executable, "combine_src_to_header_only.py"], cwd=os.path.join(w, "scripts"), env=env,
                           timeout=120)
            with open(h, "rb") as f:
                new = f.read()
            return rc == 0 and (new == old or code_only(new) == code_only(old))
        except OSError:
            return False
        finally:
            shutil.rmtree(w, ignore_errors=True)

    def cc(self, src, out, extra):
        must(["clang++-18"] + CF + extra + [src, "-o", out], "bitcode compilation of " + os.path.basename(src))

    def bitcode(self):
        rt = os.path.join(self.s, "runtime.bc")
        with ThreadPoolExecutor(NCPU) as ex:
            same = ex.submit(self.single_matches)
            fs = [ex.submit(self.cc, os.path.join(VERIF, "runtime/runtime.cpp"), rt, ["-fno-builtin"])]
            lib = []
            for c in self.cpps:
                o = os.path.join(self.s, "lib_" + os.path.basename(c) + ".bc")
                lib.append(o)
                fs.append(ex.submit(self.cc, c, o, ["-I" + self.src]))
            hs = {}
            for h in self.harnesses:
                o = os.path.join(self.s, "h_" + h + ".bc")
                hs[h] = o
                fs.append(ex.submit(self.cc, os.path.join(VERIF, "harness", h + ".cpp"), o,
                                    ["-I" + self.src, "-I" + os.path.join(VERIF, "harness")]))
            for f in fs:
                f.result()
            self.same = same.result()
            self.variants = ["src"] if self.same else ["src", "single"]
            if not self.same:
                fs = []
                for h in self.harnesses:
                    o = os.path.join(self.s, "s_" + h + ".bc")
                    hs["single:" + h] = o
                    fs.append(ex.submit(self.cc, os.path.join(VERIF, "harness", h + ".cpp"), o,
                                        ["-I" + self.single, "-I" + os.path.join(VERIF, "harness")]))
                for f in fs:
                    f.result()
            self.bc = {}

            def link(h, v):
                o = os.path.join(self.s, "%s_%s.bc" % (v, h))
                ins = [hs[h]] + lib + [rt] if v == "src" else [hs["single:" + h], rt]
                must(["llvm-link-18"] + ins + ["-o", o + ".l"], "llvm-link")
                # inlining makes the execution several times faster; it is left out where call depth is measured
                inl = ["function(sroa,mem2reg,simplifycfg)"] if h in self.noinline else ["forceattrs", "cgscc(inline,function(sroa,early-cse,simplifycfg,adce))", "globaldce"]
                # no speculation: a conversion out of range has to stay behind its guard
                must(["opt-18", "--two-entry-phi-node-folding-threshold=0", "--phi-node-folding-threshold=0", "--speculate-one-expensive-inst=0", "-passes=internalize,globaldce," + ",".join(inl), "--internalize-public-api-list=harness_main"] +
                     ([] if h in self.noinline else ["--force-remove-attribute=noinline"]) + [o + ".l", "-o", o], "opt")
                os.unlink(o + ".l")
                self.bc[h, v] = o
            fs = [ex.submit(link, h, v) for h in self.harnesses for v in self.variants]
            for f in fs:
                f.result()

    def native_exe(self, h, v, plain=False):
        with self.nlock:
            key = (h, v, plain)
            if key in self.native:
                return self.native[key]
            # -O0: a call is one stack frame, and no undefined behaviour is optimised away before the sanitizers see it
            fl = ["-std=c++14", "-g1", "-O0", "-w", "-ffp-contract=off", "-D_GLIBCXX_ASSERTIONS"]
            if h in self.noinline:
                fl += ["-finstrument-functions", "-DCOUNT_CALLS"]
            if not plain:
                fl += ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]
            inc = self.src if v == "src" else self.single
            out = os.path.join(self.s, "n_%s_%s_%d" % (h, v, plain))
            todo = [(os.path.join(VERIF, "harness", h + ".cpp"), out + "_h.o"),
                    (os.path.join(VERIF, "tools/native.cpp"), out + "_n.o")]
            if v == "src":
                tag = os.path.join(self.s, "nl_%d%d_" % (plain, h in self.noinline))
                todo += [(c, tag + os.path.basename(c) + ".o") for c in self.cpps]
            with ThreadPoolExecutor(NCPU) as ex:
                fs = []
                for c, o in todo:
                    if not os.path.exists(o):
                        fs.append(ex.submit(must, ["g++"] + fl + ["-I" + inc, "-I" + os.path.join(VERIF, "harness"), "-c", c,
                                                                  "-o", o], "native compilation"))
                for f in fs:
                    f.result()
            must(["g++"] + fl + [o for _, o in todo] + ["-o", out], "native link")
            self.native[key] = out
            return out


def code_only(b):
    """C++ source without comments and with white space collapsed (literals kept)."""
    s = b.decode("utf-8", "replace").replace("\r\n", "\n")
    rx = r'''//[^\n]*|/\*.*?\*/|R"([^(\s]*)\(.*?\)\1"|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'|\s+'''
    return re.sub(rx, lambda m: m.group(0) if m.group(0)[0] in "\"'R" else ("\n" if "\n" in m.group(0) else " "), s, flags=re.S).split()


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0",
           UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=77", LC_ALL="C")


def native_run(exe, path, timeout=45):
    rc, o, e = run([exe, path], timeout=timeout, env=ENV)
    if rc == 0:
        return "ok", o, e
    if rc in (3, 4):
        return "diverged", o, e
    if rc == 2:
        return "diverged", o, e
    if rc == 1 and "REPLAY-VIOLATION" in o:
        return "violation", o, e
    if rc == -9:
        return "killed", o, e
    return "crash", o, "rc=%s\n%s" % (rc, e)


def write_inputs(path, job, viol_inputs, head):
    with open(path, "w") as f:
        for h in head:
            f.write("# " + h.replace("\n", " ") + "\n")
        f.write("!mode %s\n" % job["mode"])
        for k, v in job["p"].items():
            f.write("!param %s %d\n" % (k, v))
        for n, v in viol_inputs:
            f.write("%s %s\n" % (n, v))


def hexd(x):
    import struct
    return "d:%016x:%.17g" % (struct.unpack("<Q", struct.pack("<d", x))[0], x)


def perturbed(inputs, rnd, k):
    out = []
    for n, v in inputs:
        if v[0] == "d":
            base = float(v.split(":")[2])
            if k % 3 == 0:
                x = base + rnd.uniform(-1, 1) * max(1e-3, abs(base) * 0.3) if abs(base) < 1e6 else rnd.uniform(-3, 3)
            elif k % 3 == 1:
                x = rnd.uniform(-3, 3)
            else:
                x = rnd.choice([rnd.uniform(0.05, 0.95), rnd.uniform(1.05, 4), float(rnd.randint(-4, 4)), -rnd.uniform(0.05, 3)])
            v = hexd(x)
        out.append((n, v))
    return out


class Checker:
    def __init__(self, pid, tier, args):
        self.pid, self.tier, self.args = pid, tier, args
        self.spec = props.PROPS[pid]
        self.jobs = []
        for j in self.spec["jobs"](tier):
            jj = dict(harness=self.spec.get("harness", pid.lower()), mode=self.spec.get("mode", "fp"), time=60, p={})
            jj.update(j)
            jj.setdefault("name", ",".join("%s=%s" % kv for kv in jj["p"].items()) or "all")
            if args.only and args.only not in jj["name"]:
                continue
            self.jobs.append(jj)
        self.stop = threading.Event()
        self.lock = threading.Lock()
        self.results = []
        self.reported = []
        self.known = []
        self.unconfirmed = []
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    def run_job(self, j, v, idx):
        try:
            self.run_job2(j, v, idx)
        except Fail:
            # once a violation is confirmed the other jobs' processes are ended, compilers included
            if not self.stop.is_set():
                raise

    def run_job2(self, j, v, idx):
        if self.stop.is_set():
            return
        left = self.deadline - time.time()
        if left < 3:
            with self.lock:
                self.results.append((j, v, {"incomplete": True, "why": "time budget of the check used up", "skipped": True}))
            return
        out = os.path.join(self.scratch, "job%d.json" % idx)
        t = min(j["time"], left)
        cmd = [self.engine, self.b.bc[j["harness"], v], "--out", out, "--mode", j["mode"], "--time", str(int(t)),
               "--steps", str(j.get("steps", 60000000)), "--branch-ms", str(j.get("branch_ms", 2000)),
               "--check-ms", str(j.get("check_ms", 15000)), "--max-violations", str(j.get("max_violations", 4)),
               "--max-traces", "3"]
        if j.get("max_depth"):
            cmd += ["--max-depth", str(j["max_depth"])]
        if j.get("precise"):
            cmd += ["--precise"]
        for k, x in j["p"].items():
            cmd += ["-p", "%s=%d" % (k, x)]
        rc, o, e = run(cmd, timeout=t + 60, mem=int(j.get("mem", 6) * (1 << 30)))
        try:
            with open(out) as f:
                r = json.load(f)
        except (OSError, ValueError):
            r = {"incomplete": True, "why": "engine ended with status %s: %s" % (rc, e[-300:]), "died": True}
        if self.stop.is_set():
            return
        log(j["harness"], v, j["name"], "paths", r.get("paths"), "away", r.get("paths_assumed_away"), "bug", r.get("paths_bug"),
            "checks", r.get("checks"), "unk", r.get("checks_unknown"), "q", r.get("queries"), "sol", round(r.get("solver_s", 0), 1), "wit", r.get("wit_hits"), r.get("search_hits"), "wall", round(r.get("wall_s", 0), 1), r.get("why", ""),
            ("unsupported: " + "; ".join(r.get("unsupported", []))) if r.get("unsupported") else "")
        with self.lock:
            self.results.append((j, v, r))
        for k, vi in enumerate(r.get("violations", [])):
            if self.stop.is_set():
                return
            self.confirm(j, v, vi, "%d_%d" % (idx, k))

    def confirm(self, j, v, vi, tag):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        path = os.path.join(ev, "replay-%s-%s.txt" % (self.pid, tag))
        head = ["property %s, harness %s.cpp, variant %s" % (self.pid, j["harness"], v), "%s: %s %s" % (vi["kind"], vi["msg"], vi["where"]),
                "replay: python3 tools/check.py %s --replay %s" % (self.pid, os.path.relpath(path, VERIF))]
        exe = self.b.native_exe(j["harness"], v)
        rnd = random.Random(self.seed * 7919 + 17)
        tries = [vi["inputs"]]
        if any(x[1][0] == "d" for x in vi["inputs"]) and j.get("perturb", True):
            for c in j.get("candidates", []):
                tries += [[(n, hexd(sg * c) if v[0] == "d" else v) for n, v in vi["inputs"]] for sg in (1, -1)]
            tries += [perturbed(vi["inputs"], rnd, k) for k in range(150)]
        msg, st = "", "ok"
        t_end = min(time.time() + (60 if self.tier == "quick" else 300), max(self.deadline, time.time() + 20) + 60)
        for k, ins in enumerate(tries):
            if k and time.time() > t_end:
                break
            write_inputs(path, j, ins, head)
            st, o, e = native_run(exe, path)
            if self.stop.is_set():
                try:
                    os.unlink(path)
                except OSError:
                    pass
                return
            if st in ("violation", "crash"):
                lines = [x for x in o.splitlines() if x.startswith("REPLAY-VIOLATION")]
                if lines:
                    msg = lines[-1][18:]
                else:
                    el = [x for x in e.splitlines() if "ERROR" in x or "runtime error" in x or "Assertion" in x or "terminate" in x or "what()" in x or x.startswith("rc=")]
                    msg = " | ".join(el)[:300]
                break
        if st not in ("violation", "crash") and vi["kind"] == "uninit":
            exe = self.b.native_exe(j["harness"], v, plain=True)
            write_inputs(path, j, vi["inputs"], head)
            rc, o, e = run(["valgrind", "-q", "--error-exitcode=9", exe, path], timeout=120)
            if rc == 9:
                st, msg = "crash", "valgrind: use of an uninitialised value"
        with self.lock:
            if self.stop.is_set():
                try:
                    os.unlink(path)
                except OSError:
                    pass
                return
            if st not in ("violation", "crash"):
                try:
                    os.unlink(path)
                except OSError:
                    pass
                self.unconfirmed.append({"job": j["name"], "variant": v, "kind": vi["kind"], "msg": vi["msg"], "where": vi["where"],
                                         "inputs": vi["inputs"][:30], "native": st})
                log("UNCONFIRMED", vi["kind"], vi["msg"], vi["where"], st, vi["inputs"][:12], (o + e)[-300:])
                return
            kf = self.match_known(j, vi, msg)
            if kf:
                if kf not in self.known:
                    self.known.append(kf)
                try:
                    os.unlink(path)
                except OSError:
                    pass
                return
            self.reported.append({"replay": path, "kind": vi["kind"], "msg": vi["msg"], "native": msg, "job": j["name"], "variant": v})
            log("VIOLATION", vi["kind"], vi["msg"], vi["where"], "|", msg)
            if not self.args.all:
                self.stop.set()
                with PROCS_LOCK:
                    for p in PROCS:
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except OSError:
                            pass

    def match_known(self, j, vi, msg):
        for k in KNOWN:
            if k["property"] != self.pid or k.get("status") != "known":
                continue
            m = k["match"]
            if m.get("msg") and m["msg"] not in (vi["msg"], msg.strip()):
                continue
            if m.get("kind") and m["kind"] != vi["kind"]:
                continue
            if m.get("where") and m["where"] not in vi["where"]:
                continue
            if any(j["p"].get(a) != b for a, b in m.get("params", {}).items()):
                continue
            return k["what"]
        return None

    def validate(self):
        """Replays recorded paths natively: the encoding and the real code must agree on them."""
        n = ok = div = 0
        bad = []
        todo = []
        for (j, v, r) in self.results:
            for t in r.get("traces", []):
                todo.append((j, v, t))
        random.Random(self.seed).shuffle(todo)
        limit = 24 if self.tier == "quick" else 200
        end = time.time() + (20 if self.tier == "quick" else 120)

        def one(a):
            i, (j, v, t) = a
            if time.time() > end:
                return None
            p = os.path.join(self.scratch, "trace%d.txt" % i)
            write_inputs(p, j, t["inputs"], [])
            st, o, e = native_run(self.b.native_exe(j["harness"], v), p)
            note = [x[6:] for x in o.splitlines() if x.startswith("NOTE: ")]
            return st, note, t, j, o, e
        with ThreadPoolExecutor(NCPU) as ex:
            for res in ex.map(one, list(enumerate(todo[:limit]))):
                if not res:
                    continue
                st, note, t, j, o, e = res
                n += 1
                if st == "ok" and (not t["note"] or "?" in t["note"] or "7777" in t["note"] or (note and note[-1][:200] == t["note"].split("\n")[0])):
                    ok += 1
                elif st == "diverged":
                    div += 1
                    log("TRACE DIVERGED", j["name"], (o + e)[-120:])
                else:
                    bad.append({"job": j["name"], "status": st, "note": t["note"], "native_note": note[-1] if note else "", "out": (o + e)[-200:],
                                "inputs": t["inputs"][:20]})
                    log("TRACE MISMATCH", bad[-1])
        return n, ok, div, bad

    def main(self):
        self.scratch = tempfile.mkdtemp(prefix="tsx-%s-" % self.pid)
        try:
            return self.main2()
        finally:
            if not self.args.keep:
                shutil.rmtree(self.scratch, ignore_errors=True)

    def main2(self):
        budget = self.args.budget or self.spec.get("budget", {}).get(self.tier, 240 if self.tier == "quick" else 3600)
        with ThreadPoolExecutor(2) as ex:
            fe = ex.submit(build_engine, self.scratch)
            self.b = Build(self.args.repo, self.scratch, sorted(set(j["harness"] for j in self.jobs)))
            fb = ex.submit(self.b.bitcode)
            self.engine = fe.result()
            fb.result()
        log("built; variants", self.b.variants, "jobs", len(self.jobs))
        t_built = time.time()
        self.deadline = T0 + budget
        work = [(j, v) for v in self.b.variants for j in self.jobs]
        if self.b.variants == ["src", "single"]:
            # both distributions are analysed; jobs of both share the budget
            self.deadline = T0 + min(budget * 1.8, 840 if self.tier == "quick" else budget * 1.8)
        work.sort(key=lambda x: -x[0].get("prio", x[0]["time"]))
        with ThreadPoolExecutor(NCPU) as ex:
            nat = None
            fs = [ex.submit(self.run_job, j, v, i) for i, (j, v) in enumerate(work)]
            for f in fs:
                f.result()
        t_sym = time.time()
        val = (0, 0, 0, [])
        if not self.reported and not self.args.noval and self.spec.get("validate", True):
            val = self.validate()
        return self.finish(val, t_built, t_sym)

    def finish(self, val, t_built, t_sym):
        R = [r for _, _, r in self.results]
        s = lambda k: sum(r.get(k, 0) or 0 for r in R)
        covers = {}
        hits = {}
        outside = {}
        funcs, stubs, unsup = set(), set(), set()
        for r in R:
            for k, v in r.get("covers", {}).items():
                covers[k] = covers.get(k, 0) + v
            for k, v in r.get("check_hits", {}).items():
                hits[k] = hits.get(k, 0) + v
            for k, v in r.get("outside", {}).items():
                outside[k] = outside.get(k, 0) + v
            funcs.update(r.get("functions", []))
            stubs.update(r.get("stubs", []))
            unsup.update(r.get("unsupported", []))
        missing = [c for c in self.spec.get("covers", []) if not covers.get(c)]
        inc = [{"job": j["name"], "variant": v, "why": r.get("why"), "unexplored_states": r.get("unexplored", 0)}
               for j, v, r in self.results if r.get("incomplete") and r.get("why") != "violations"]
        complete = not inc and not unsup and not missing and s("checks_unknown") == 0 and not self.unconfirmed
        fn = sorted(funcs)
        samples = []
        for j, v, r in self.results:
            for x in r.get("samples", [])[:2]:
                if len(samples) < 12:
                    samples.append("[%s] %s" % (j["name"], x))
        cov = {
            "states": s("paths") + s("paths_assumed_away") + s("paths_bug"),
            "transitions": s("steps"),
            "traces_validated_against_impl": val[1],
            "samples": samples or ["(none)"],
            "exhaustive": complete,
            "rule": "states: symbolic paths, each standing for every input that satisfies its path condition; transitions: LLVM instructions executed symbolically",
            "paths_completed": s("paths"), "paths_outside_assumptions": s("paths_assumed_away"), "paths_violating": s("paths_bug"),
            "forks": s("forks"), "assertions_reached": s("checks"), "assertions_decided_by_rewriting": s("checks_trivial"),
            "assertions_undecided": s("checks_unknown"), "branches_undecided_kept_both": s("branch_unknown"),
            "solver_queries": s("queries"), "solver_sat": s("q_sat"), "solver_unsat": s("q_unsat"), "solver_unknown": s("q_unknown"),
            "solver_seconds": round(s("solver_s"), 2),
            "functions_encoded": fn[:400], "functions_encoded_count": len(fn),
            "bounds": self.spec.get("bounds", {}).get(self.tier) if isinstance(self.spec.get("bounds"), dict) else self.spec.get("bounds"),
            "jobs": len(self.results), "variants": self.b.variants,
            "single_header": "identical to the header generated from src, so one verdict covers both" if self.b.same else "differs from the generated one: analysed as a second program",
            "incomplete_jobs": inc, "unsupported_on_some_path": sorted(unsup), "cover_points": covers, "cover_points_missed": missing,
            "assertions": hits, "paths_outside_the_claim": outside, "environment_stubs": sorted(stubs),
            "unconfirmed_counterexamples": self.unconfirmed[:20], "unconfirmed_count": len(self.unconfirmed),
            "traces_replayed_natively": val[0], "traces_outside_native_assumptions": val[2], "trace_disagreements": val[3][:10],
            "known_findings": self.known,
            "build_s": round(t_built - T0, 1), "symbolic_s": round(t_sym - t_built, 1),
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.spec.get("assumptions", []) + sorted(stubs), "wall_s": round(time.time() - T0, 2),
              "violations": len(self.reported)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.reported:
            for r in self.reported:
                print("counterexample (%s, %s): %s: %s => %s" % (r["variant"], r["job"], r["kind"], r["msg"], r["native"]))
                print("VIOLATION property=%s replay=%s" % (self.pid, r["replay"]))
            return 1
        print("%s %s: held on everything explored: %d paths, %d assertions (%d by solver query), %d queries, %.1f s solver%s, %.0f s"
              % (self.pid, self.tier, cov["paths_completed"], cov["assertions_reached"],
                 cov["assertions_reached"] - cov["assertions_decided_by_rewriting"], cov["solver_queries"], cov["solver_seconds"],
                 "" if complete else " [NOT exhaustive: %d jobs cut, %d undecided, %d unconfirmed, %d covers missed, %d unsupported]"
                 % (len(inc), s("checks_unknown"), len(self.unconfirmed), len(missing), len(unsup)), time.time() - T0))
        return 0


def load_known():
    out = []
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and line[0] == "{":
                out.append(json.loads(line))
    return out


def main():
    global VERBOSE, KNOWN
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--all", action="store_true", help="do not stop at the first confirmed violation")
    ap.add_argument("--noval", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    VERBOSE = a.v
    KNOWN = load_known()
    if a.property == "setup":
        with tempfile.TemporaryDirectory(prefix="tsx-setup-") as d:
            print(build_engine(d))
        return 0
    c = Checker(a.property, a.tier, a)
    if a.replay:
        h = None
        for line in open(a.replay):
            if line.startswith("# property"):
                h = line.split("harness ")[1].split(".cpp")[0]
                v = line.rsplit("variant ", 1)[1].strip()
        with tempfile.TemporaryDirectory(prefix="tsx-replay-") as d:
            b = Build(a.repo, d, [h])
            st, o, e = native_run(b.native_exe(h, v), a.replay)
            print(o, e[:3000], st)
        return 1 if st in ("violation", "crash") else 0
    return c.main()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Fail as e:
        print("ERROR:", e)
        sys.exit(2)
