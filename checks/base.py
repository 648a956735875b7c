"""Common driver of the checks: explore every path of a scenario symbolically, let z3 decide the obligations,
replay candidates natively, validate samples of the encoding against the compiled code, write evidence."""
import importlib, json, math, os, random, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time, traceback
import multiprocessing as mp
import z3
from fractions import Fraction as F
from engine import build, exec as X, stubs, backend, prove, rterm as R
from engine.llvmir import Module, UNDEF, Unsupported
from engine.exec import PathEnd, CxxThrow, Explorer
from engine.backend import Arr, Sym
from engine.rterm import N
from engine import pysym

sys.setrecursionlimit(100000)
threading.stack_size(256 * 1024 * 1024)
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

# ------------------------------------------------------------------ obligations
FLIP_KEEP = []
FLIP = {}   # random generators that draw a negative rotational transform
def draw(name, rng):
    """sample value of an input variable: amplitudes small, mean fields of order one"""
    nm = name.split(":")[-1]
    f = nm.split("[")[0]
    base = f.rstrip("0123456789") if not f.endswith("_b") else f
    i0 = "[0," in nm
    if base in ("bmnc", "bsubvmnc") and i0: return rng.uniform(1.5, 2.5)
    if base in ("rmnc",) and i0: return rng.uniform(2, 3)
    if base in ("iota", "iotas"): return rng.uniform(0.3, 0.9) * FLIP.get(id(rng), 1)
    if base == "s_in": return rng.uniform(0.1, 0.9)
    return rng.uniform(-0.08, 0.08)

# errors of a scenario's own script
SCRIPT = (IndexError, KeyError, AttributeError, TypeError, ValueError, ZeroDivisionError)

class Ob:
    """obligations of one execution; immediate comparison in native runs, collected for the solver in symbolic ones"""
    def __init__(self, native=False, rtol=1e-9):
        self.native, self.rtol = native, rtol
        self.reals = []; self.disc = []; self.fails = []; self.count = 0
        self.info = {}
    def _fail(self, label, got, want):
        if len(self.fails) < 40: self.fails.append((label, str(got)[:200], str(want)[:200]))
    def real(self, label, got, want, scale=0.0):
        self.count += 1
        if not self.native:
            self.reals.append((label, got, want)); return
        if isinstance(got, N): got = self.env.ev(R.norm(got))
        if isinstance(want, N): want = self.env.ev(R.norm(want))
        if got is UNDEF or want is UNDEF: return self._fail(label, got, want)
        if not (math.isfinite(got) and math.isfinite(want)):
            if math.isfinite(got) != math.isfinite(want): self._fail(label, got, want)
            return
        if abs(got - want) > self.rtol * max(abs(got), abs(want), scale, 1e-3): self._fail(label, got, want)
    def eq(self, label, got, want):
        self.count += 1
        if self.native or not (isinstance(got, z3.ExprRef) or isinstance(want, z3.ExprRef)):
            if got is UNDEF or want is UNDEF or got != want:
                self._fail(label, got, want)
            elif not self.native: self.disc.append((label, got, want))
        else: self.disc.append((label, got, want))
    def true(self, label, cond, got=None):
        """cond: python bool or z3 Bool"""
        self.count += 1
        if isinstance(cond, z3.ExprRef): self.disc.append((label, cond, True))
        elif not cond: self._fail(label, got if got is not None else False, True)
        else: self.disc.append((label, True, True))
    def arr(self, label, got, want, scale=0.0):
        """arrays of reals: shape and content"""
        if not isinstance(want, Arr): want = Arr(len(want), 1, list(want))
        self.eq(label + ".shape", tuple(got.shape()), tuple(want.shape()))
        if tuple(got.shape()) != tuple(want.shape()): return
        if self.native and not scale:
            vals = [w if not isinstance(w, N) else self.env.ev(R.norm(w)) for w in want.a]
            scale = max([abs(v) for v in vals if isinstance(v, (int, float)) and math.isfinite(v)] + [0])
        for k, (g, w) in enumerate(zip(got.a, want.a)):
            i, j = k % max(got.rows, 1), k // max(got.rows, 1)
            self.real("%s(%d,%d)" % (label, i, j), g, w, scale)
    def iarr(self, label, got, want):
        g = list(got.a) if isinstance(got, Arr) else list(got)
        w = list(want.a) if isinstance(want, Arr) else list(want)
        self.eq(label + ".size", len(g), len(w))
        if len(g) == len(w):
            for k, (x, y) in enumerate(zip(g, w)): self.eq("%s[%d]" % (label, k), x, y)
    def defined(self, label, vals):
        """none of the values may depend on uninitialised memory"""
        for k, x in enumerate(vals.a if isinstance(vals, Arr) else vals if isinstance(vals, (list, tuple)) else [vals]):
            self.count += 1
            if self.native: self.info["%s[%d]" % (label, k)] = repr(x)
            elif x is UNDEF: self.reals.append(("%s[%d] is defined" % (label, k), UNDEF, R.ZERO))
    def same(self, label, a, b, skip=()):
        """two result dictionaries (see scen.results)"""
        for k in a:
            if k in skip: continue
            x, y = a[k], b[k]
            if isinstance(x, Arr):
                if x.a and (isinstance(x.a[0], int) and not isinstance(x.a[0], bool)) or k.startswith("x") or k == "compute_surfs":
                    self.eq(label + k + ".shape", tuple(x.shape()), tuple(y.shape())); self.iarr(label + k, x, y)
                else: self.arr(label + k, x, y)
            elif isinstance(x, (N, float)): self.real(label + k, x, y)
            else: self.eq(label + k, x, y)

def zreal(e):
    try:
        if z3.is_rational_value(e): return float(e.as_fraction())
        if z3.is_algebraic_value(e): return float(e.approx(15).as_fraction())
    except Exception: pass
    return None

def model_env(S, m, b, seed):
    e = R.Env(seed)
    e.draw = draw
    if seed == 13: FLIP[id(e.rng)] = -1; e.keep = FLIP_KEEP.append(e.rng)
    vals = {}
    if m is not None:
        for d in m.decls():
            if d.arity() == 0 and d.range() == z3.RealSort():
                nm = d.name()
                if "!" in nm or nm.startswith("cosz(") or nm == "pi": continue
                v = zreal(m[d])
                if v is not None: vals[nm] = v
        e.ints = m
    e.vals.update(vals)
    return e

def ints_of(b, m):
    out = {}
    for k, v in b.ivars.items():
        if m is None: out[k] = 0
        elif z3.is_int(v): out[k] = m.eval(v, model_completion=True).as_long()
        else: out[k] = m.eval(v, model_completion=True).as_signed_long() if v.size() == 32 else m.eval(v, model_completion=True).as_long()
    return out

class Result:
    """outcome of one case"""
    def __init__(self):
        self.cands = []; self.open = []; self.stats = {}; self.samples = []; self.fns = []; self.err = None
        self.vals = []; self.complete = True; self.ledger = {}; self.ends = {}
        self.obligations = 0; self.covered = 0; self.notes = []

def signature(case): return json.dumps(case, sort_keys=True, default=str)

MOD = None
CHECK = None
def solve_case(case):
    """explore one case; runs in a worker process"""
    res = Result()
    t0 = time.time()
    L = prove.LEDGER = prove.Ledger()
    R.reset_bases(); prove.reset(); R.groups.clear(); R.hints.clear()
    R.TRIGFREE = None
    mod = MOD[case.get("build", "plain")] if isinstance(MOD, dict) else MOD
    chk = CHECK
    py = getattr(chk, "PY", False)
    limit = case.get("limit", 150)
    ex = Explorer(mod, None, max_paths=case.get("max_paths", 3000), deadline=t0 + limit, tms=case.get("tms", 5000), machine=pysym.PyMachine if py else None)
    def scenario(S):
        S.deadline = t0 + limit
        b = pysym.PySym(S) if py else Sym(S)
        S.bk = b
        S.ob = ob = Ob()
        try: chk.scenario(b, ob, case)
        except SCRIPT:
            if not ob.fails: raise      # what follows a failed obligation need not make sense any more
        return ob
    ex.scenario = scenario
    allow = getattr(chk, "on_end", None)
    budget, nopen = [45.0], -1
    def cand(kind, label, S, m, env, detail):
        if len(res.cands) < 12:
            vals = {"r": dict(env.vals) if env else {}, "i": ints_of(S.bk, m) if hasattr(S, "bk") else {}}
            res.cands.append(dict(kind=kind, label=label, detail=detail, case=case, vals=vals))
    try:
        for p in ex.run():
            if time.time() - t0 > 20 and sum(c["kind"] != "open" for c in res.cands) >= 6:
                # enough counterexamples to replay
                res.complete = False; break
            S = p.machine
            m = None
            if S.pc or (hasattr(S, "bk") and S.bk.ivars):
                r = L.ask(S.solver)
                if r == z3.unsat: continue
                m = S.solver.model() if r == z3.sat else None
            envs = [model_env(S, m, S.bk, s) for s in (11, 12, 13)] if hasattr(S, "bk") else []
            if p.end is not None:
                k = p.end.kind
                res.ends[k] = res.ends.get(k, 0) + 1
                if k == "limit":
                    res.complete = False
                    res.open.append(["limit", str(p.end), ""]); continue
                if allow and allow(S, S.ob, case, p.end): continue
                cand("end", k, S, m, envs[0] if envs else None, "%s in %s" % (p.end, " < ".join(p.end.info.get("stack", [])[:4])))
                continue
            ob = p.value
            res.obligations += ob.count
            for f in ob.fails: cand("value", f[0], S, m, envs[0], "got %s want %s" % (f[1], f[2]))
            # discrete obligations, one query for all of them first
            qs = []
            for lab, g, w in ob.disc:
                if not isinstance(g, z3.ExprRef) and not isinstance(w, z3.ExprRef): continue
                e = (g != w) if not (w is True) else z3.Not(g)
                qs.append((lab, e))
            ncheap = len(ob.disc) - len(qs)
            if qs:
                S.solver.push()
                S.solver.add(z3.Or([e for _, e in qs]))
                r = L.ask(S.solver)
                if r == z3.sat:
                    mm = S.solver.model()
                    lab = [l for l, e in qs if z3.is_true(mm.eval(e, model_completion=True))]
                    cand("value", lab[0] if lab else "?", S, mm, model_env(S, mm, S.bk, 11), "the solver found a value for which this fails")
                elif r == z3.unknown: res.open.append(["unknown", "discrete", ""])
                S.solver.pop()
            L.obligations += len(qs) + ncheap
            pairs = []
            for lab, g, w in ob.reals:
                if g is UNDEF or w is UNDEF:
                    if g is w: continue
                    cand("undef", lab, S, m, envs[0], "undefined value"); continue
                pairs.append((lab, R.lift(g), R.lift(w)))
            for v in prove.equal_batch(pairs, envs, deadline=t0 + limit + 30, budget=budget):
                if v.ok is False: cand("value", v.tag, S, m, v.env, "got %r want %r" % (v.got, v.want))
                else:
                    res.open.append(["open", v.tag, ""])
                    nopen += 1
                    if len(res.cands) < 6: cand("open", v.tag, S, m, envs[(0, 2, 1)[nopen % 3]], "the solver did not decide this")
            if len(res.vals) < case.get("nval", 1) and envs and not (py and S.unknown):
                for q in ob.reals[:2000]:
                    if q[1] is not UNDEF: envs[0].ev(R.norm(R.lift(q[1])))
                res.vals.append({"r": dict(envs[0].vals), "i": ints_of(S.bk, m)})
            if len(res.samples) < 2 and ob.reals:
                lab, g, w = ob.reals[len(ob.reals) // 2]
                if g is not UNDEF: res.samples.append("%s | %s = %s" % (signature(case)[:200], lab, R.show(R.norm(R.lift(g)), 3)[:260]))
            elif len(res.samples) < 2 and ob.disc:
                res.samples.append("%s | %s: %s" % (signature(case)[:200], ob.disc[-1][0], str(ob.disc[-1][1])[:200]))
        if not ex.complete: res.complete = False
    except Unsupported as e:
        res.err = "unsupported: %s" % e
    except CxxThrow as e:
        res.err = "exception escaped the harness"
    except R.TooBig:
        res.err = "expression too large"
    except MemoryError:
        res.err = "memory"
    except RecursionError:
        res.err = "recursion"
    except Exception as e:
        res.err = "engine: " + "".join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
    res.stats = dict(ex.stats)
    res.ledger = {k: v for k, v in vars(L).items() if isinstance(v, (int, float))}
    if py:
        res.fns = sorted(pysym.COVERED); res.covered = len(pysym.COVERED)
    else:
      res.fns = sorted(f.name for f in mod.fns.values() if f.compiled and "booz_xform" in f.name)
      res.covered = sum(1 for f in mod.fns.values() if f.compiled)
    res.time = time.time() - t0
    return res

def pool_map(fn, items, procs=None, timeout=None, total=None, enough=None):
    """enough(results, seconds): the rest need not be done
    fork one process per item (at most procs at a time); a process that dies gives None, as do those the total time does not suffice for"""
    start = time.time()
    end = start + total if total else None
    procs = procs or int(os.environ.get("VERIF_PROCS", "8"))
    build.tmp()   # the children share the directory, which this process removes
    out = [None] * len(items)
    todo = list(range(len(items)))
    running = {}
    import pickle, select
    while todo or running:
        while todo and len(running) < procs:
            i = todo.pop(0)
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(rfd)
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, resource.RLIM_INFINITY))
                    # run in a thread with a large stack
                    box = []
                    th = threading.Thread(target=lambda: box.append(fn(items[i])))
                    th.start(); th.join()
                    data = pickle.dumps(box[0] if box else None)
                    with os.fdopen(wfd, "wb") as f: f.write(data)
                except BaseException:
                    code = 1
                os._exit(code)
            os.close(wfd)
            running[rfd] = (pid, i, bytearray(), time.time())
        r, _, _ = select.select(list(running), [], [], 0.5)
        for fd in r:
            d = os.read(fd, 1 << 20)
            if d: running[fd][2].extend(d)
            else:
                pid, i, buf, _ = running.pop(fd)
                os.close(fd); os.waitpid(pid, 0)
                try: out[i] = pickle.loads(bytes(buf))
                except Exception: out[i] = None
        now = time.time()
        if enough and enough(out, now - start): end, enough = now, None
        if end and now > end: todo.clear()
        for fd, (pid, i, buf, t) in list(running.items()):
            lim = timeout(items[i]) if callable(timeout) else timeout
            if lim and now - t > lim or end and now > end:
                try: os.kill(pid, signal.SIGKILL)
                except OSError: pass
    return out

# ------------------------------------------------------------------ native replay
NATIVE = {}
def native_run(module, case, vals, variant="plain", perturb=None, timeout=120, threads=None):
    """-> dict(ok, fails, crash, out)"""
    so = NATIVE[variant]
    d = tempfile.mkdtemp(dir=build.tmp())
    spec = dict(module=module, case=case, vals=vals, so=so)
    with open(d + "/in.json", "w") as f: json.dump(spec, f)
    env = dict(os.environ)
    env["PYTHONPATH"] = ROOT; env["TMPDIR"] = d
    env["OMP_NUM_THREADS"] = str(threads or case.get("threads", 2))
    if variant == "asan":
        # libstdc++ too, so that the sanitizer finds the real __cxa_throw
        env["LD_PRELOAD"] = " ".join(os.path.realpath(subprocess.run(["g++", "-print-file-name=" + l], stdout=subprocess.PIPE, text=True).stdout.strip()) for l in ("libasan.so", "libstdc++.so.6"))
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:detect_odr_violation=0:allocator_may_return_null=1"
    if variant == "tsan":
        env["LD_PRELOAD"] = os.path.realpath(subprocess.run(["gcc", "-print-file-name=libtsan.so"], stdout=subprocess.PIPE, text=True).stdout.strip())
        env["TSAN_OPTIONS"] = "exitcode=66 halt_on_error=0 report_thread_leaks=0 history_size=7"
    if perturb is not None:
        env["MALLOC_PERTURB_"] = str(perturb)
        if variant != "asan": env["LD_PRELOAD"], env["VERIF_FILL"] = build.fill_lib(), str(perturb)
    def nolimit():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))   # the address sanitizer reserves its shadow
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    interp = sys.executable
    if variant == "python":
        interp = pysym.python()
        env["VERIF_SITE"] = os.pathsep.join(p for p in sys.path if p.endswith("site-packages"))
        env["MPLBACKEND"] = "Agg"; env["MPLCONFIGDIR"] = d; env["PYTHONDONTWRITEBYTECODE"] = "1"
    try:
        p = subprocess.run((["setarch", "-R"] if variant == "tsan" else []) + [interp, "-m", "checks.child", d + "/in.json", d + "/out.json"], cwd=d, env=env, stdin=subprocess.DEVNULL, preexec_fn=nolimit,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        rc, err = p.returncode, p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        rc, err = -99, "timeout"
    out = None
    if os.path.exists(d + "/out.json"):
        try: out = json.load(open(d + "/out.json"))
        except ValueError: out = None
    shutil.rmtree(d, ignore_errors=True)
    crash = None
    if variant == "tsan":
        mm = re.search(r"SUMMARY: ThreadSanitizer: data race (.*)", err)
        where = sorted(set(re.findall(r"#0 (\S+)", err)))[:4]
        if mm: return dict(rc=rc, crash="data race (ThreadSanitizer) at " + mm.group(1).replace(build.REPO, "/repo")[:160], fails=[], count=0, err=err[-1500:], unsupported=None, out=None)
        return dict(rc=rc, crash=None, fails=(out or {}).get("fails"), count=(out or {}).get("count", 0), err=err[-1500:], unsupported=None if out else "no result", out=None)
    if "ReserveShadowMemoryRange" in err or "MemoryError" in err: return dict(rc=rc, crash=None, fails=None, count=0, err=err[-1500:], unsupported="no memory", out=None)
    mm = re.search(r"ERROR: AddressSanitizer: (.*)", err)
    if rc == 77 and not mm: return dict(rc=rc, crash=None, fails=None, count=0, err=err[-1500:], unsupported="the sanitizer itself failed", out=None)
    if rc == 77:
        fr = re.findall(r"#\d+ .*? in (.*?) ", err)
        crash = "AddressSanitizer: " + (mm.group(1)[:120] if mm else "error") + " in " + ", ".join([x for x in fr if "booz" in x or "h_" in x][:3])
    elif rc < 0 and rc != -99:
        crash = "killed by signal %d (%s)%s" % (-rc, signal.Signals(-rc).name, ": " + err.strip().splitlines()[-1][:200] if err.strip() else "")
    elif rc == -99: crash = None
    elif out is None: crash = None
    return dict(rc=rc, crash=crash, fails=(out or {}).get("fails"), count=(out or {}).get("count", 0), err=err[-1500:], unsupported=(out or {}).get("unsupported"),
                out=(out or {}).get("info"))

def confirm(module, cand):
    """does the real code show the violation at the candidate's inputs?  -> description or None"""
    k = cand["kind"]; case, vals = cand["case"], cand["vals"]
    chk = importlib.import_module("checks." + module)
    variants = getattr(chk, "VARIANTS", None) or (["python"] if getattr(chk, "PY", False) else ["plain", "asan"] if k == "end" else ["plain"])
    for v in variants:
        if v not in NATIVE: continue
        for per in ((None, 165, 90, 255) if v == "plain" else (None,)):
            r = native_run(module, case, vals, v, perturb=per)
            if r["crash"]: return "the compiled code fails: " + r["crash"]
            if r["fails"]:
                if all(str(f[1]) in ("nan", "inf", "-inf", "-nan") for f in r["fails"]):
                    # not a number: only counts if it is not confined to a singular point (0/0) of the formulas
                    rng = random.Random(5)
                    v2 = dict(vals, r={n: x * (1 + 1e-3 * rng.random()) + 1e-3 * rng.uniform(-1, 1) for n, x in vals["r"].items()})
                    r2 = native_run(module, case, v2, v, perturb=per)
                    if not (r2["crash"] or r2["fails"]): continue
                return "the compiled code gives %s = %s, required %s" % tuple(r["fails"][0])
    if k in ("undef", "end") and "plain" in NATIVE:
        # values that depend on what uninitialised memory happens to hold
        outs = []
        for per in (0, 90, 165, 255):
            r = native_run(module, case, vals, "plain", perturb=per)
            outs.append(json.dumps(r["out"], sort_keys=True))
        if len(set(outs)) > 1 and "null" not in outs: return "the compiled code's result depends on uninitialised memory"
    h = getattr(chk, "confirm", None)
    return h(cand) if h else None

# ------------------------------------------------------------------ driver
def constants_of(mod):
    return []

def known(cid):
    """entries of the known-findings file of this property that are not fixed"""
    out = []
    p = ROOT + "/known_findings.jsonl"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#") and not l.startswith("fixed:"):
                e = json.loads(l)
                if e.get("property") == cid: out.append(e)
    return out

def known_match(entries, cand):
    for e in entries:
        mt = e.get("match", {})
        if all(re.search(v, json.dumps(cand.get(k), sort_keys=True) if not isinstance(cand.get(k), str) else cand.get(k)) for k, v in mt.items()): return e
    return None

def verbosities(cases):
    """verbosity level of cases that do not prescribe one"""
    for i, c in enumerate(cases): c.setdefault("v", (i + i // 3) % 3)
    return cases

def build_native(chk, key):
    return build.native(asan=(key == "asan"), asserts=(key in ("asserts", "asan")), trig=getattr(chk, "TRIG", False), **{k: key == k for k in ("faults", "tsan", "mock", "pyb")})

def main(cid, tier):
    global MOD, CHECK
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    module = cid.lower()
    build.fill_lib()
    chk = importlib.import_module("checks." + module)
    CHECK = chk
    ev = dict(property=cid, tier=tier, seed=seed, level="model_checking", coverage={}, assumptions=list(getattr(chk, "ASSUMPTIONS", [])), wall_s=0, violations=0)
    if hasattr(chk, "main"):
        rc = chk.main(cid, tier, seed, ev, t0)
        return rc
    if getattr(chk, "PY", False):
        NATIVE["python"] = None
        cases = verbosities(chk.cases(tier, seed))
        return explore(ev, chk, cid, module, t0, cases)
    builds = getattr(chk, "BUILDS", ["plain"])
    natives = getattr(chk, "NATIVES", ["plain"])
    errs = []
    bc, th = {}, []
    def bjob(kind, key):
        try:
            if kind == "bc": bc[key] = build.bitcode(asserts=(key == "asserts"), trig=getattr(chk, "TRIG", False), pyb=(key == "pyb"))
            else: NATIVE[key] = build_native(chk, key)
        except build.BuildError as e: errs.append(str(e)[-1500:])
    for k in builds: th.append(threading.Thread(target=bjob, args=("bc", k)))
    for k in natives: th.append(threading.Thread(target=bjob, args=("so", k)))
    for t in th: t.start()
    for t in th: t.join()
    if any(k not in bc for k in builds):
        if all(k in NATIVE for k in natives):
            # not analysable: sample points of the compiled code only, and said so
            cases = verbosities(chk.cases(tier, seed))
            ev["coverage"]["build_errors"] = errs
            return judge(ev, chk, cid, module, t0, cases, [None] * len(cases))
        return finish(ev, chk, cid, t0, [], [], ["the sources or the harness do not compile: " + "; ".join(errs)[-1500:]], 0, None)
    mods = {}
    for k in builds:
        mods[k] = Module(bc[k]); stubs.overrides(mods[k])
    MOD = mods if len(mods) > 1 else mods[builds[0]]
    cases = verbosities(chk.cases(tier, seed))
    return explore(ev, chk, cid, module, t0, cases)

def suspects(rs): return [c for r in rs if r for c in r.cands if c["kind"] != "open"]
def explore(ev, chk, cid, module, t0, cases):
    """explore the cases; when some have shown counterexamples and others take long, the counterexamples are replayed first"""
    total = 560 if ev["tier"] == "quick" else None
    lim = lambda c: c.get("limit", 150) * 2 + 30
    start = time.time()
    rs = pool_map(solve_case, cases, timeout=lim, total=total, enough=lambda rs, t: t > 60 and suspects(rs))
    ended = time.time() - start
    if ended > 60 and suspects(rs) and any(r is None for r in rs):
        cs = suspects(rs)[:: max(1, len(suspects(rs)) // 16)][:16]
        def conf(c):
            try: return confirm(module, c)
            except Exception: return None
        kn = known(cid)
        if not any(d and not known_match(kn, dict(c, confirmed=d)) for c, d in zip(cs, pool_map(conf, cs, timeout=200))):
            todo = [i for i, r in enumerate(rs) if r is None]
            for i, r in zip(todo, pool_map(solve_case, [cases[i] for i in todo], timeout=lim, total=total and max(20, total - (time.time() - start)))): rs[i] = r
    return judge(ev, chk, cid, module, t0, cases, rs)

def judge(ev, chk, cid, module, t0, cases, rs):
    viol, openl, notes, kf = [], [], [], []
    cands = []
    for c, r in zip(cases, rs):
        if r is None: notes.append("case %s: worker ended early" % signature(c)[:160]); continue
        if r.err: notes.append("case %s: %s" % (signature(c)[:160], r.err[:1200]))
        if not r.complete: notes.append("case %s: not explored completely within its limits" % signature(c)[:160])
        cands += r.cands
        openl += r.open
    # one confirmation per distinct label and case first
    seen, order = set(), []
    for c in cands:
        k = (signature(c["case"]), c["kind"] == "open")
        if k in seen: continue
        seen.add(k); order.append(c)
    order += [c for c in cands if c not in order]
    kn = known(cid)
    tested = 0
    unconf = []
    deadline = time.time() + (120 if ev["tier"] == "quick" else 400)
    todo = []
    for c in order[:64]:
        todo.append(c)
    def conf(c):
        try: return confirm(module, c)
        except Exception as e: return None
    while todo and not viol and time.time() < deadline:
        chunk, todo = todo[:8], todo[8:]
        for c, d in zip(chunk, pool_map(conf, chunk, timeout=200)):
            tested += 1
            if d:
                e = known_match(kn, dict(c, confirmed=d))
                if e: kf.append((e, c, d))
                else: viol.append((c, d))
            else: unconf.append("%s %s: %s (case %s)" % (c["kind"], c["label"], c["detail"][:200], signature(c["case"])[:120]))
    # the encoding is validated against the compiled code at sample points of explored paths
    vjobs = []
    # sample points of cases that the engine did not finish
    blind = [{"r": {}, "i": {}}] + ([{"r": {}, "i": {}, "big": 40}] if getattr(chk, "PY", False) else [])
    if NATIVE:
        for c, r in zip(cases, rs):
            if c.get("noval"): continue
            if r is None:
                vjobs += [(c, v) for v in blind]; continue
            for v in r.vals: vjobs.append((c, v))
            if not r.vals and (r.err or not r.complete) and c.get("sample_on_error", True): vjobs += [(c, v) for v in blind]
        random.Random(ev["seed"]).shuffle(vjobs)
        vjobs = vjobs[:getattr(chk, "NVAL", 24)]
    nval = 0
    if vjobs and not viol:
        def vrun(j): return native_run(module, j[0], j[1], getattr(chk, "VARIANT", "plain") if getattr(chk, "VARIANT", "plain") in NATIVE else list(NATIVE)[0])
        for j, r in zip(vjobs, pool_map(vrun, vjobs, timeout=200)):
            if r is None or r["unsupported"]: continue
            if r["crash"] or r["fails"]:
                lab, d = ("end", r["crash"]) if r["crash"] else (r["fails"][0][0], "the compiled code gives %s = %s, required %s" % tuple(r["fails"][0]))
                c = dict(kind="value", label=lab, detail=d, case=j[0], vals=j[1])
                e = known_match(kn, dict(c, confirmed=d))
                if e: kf.append((e, c, d))
                else: viol.append((c, d))
            elif r["count"]: nval += 1
            else: notes.append("validation run gave no answer: rc=%s %s" % (r["rc"], r["err"][-300:]))
    agg = {}
    for r in rs:
        if r is None: continue
        for k, v in list(r.stats.items()) + [("L_" + k, v) for k, v in r.ledger.items()]: agg[k] = agg.get(k, 0) + v
        agg["obl"] = agg.get("obl", 0) + r.obligations
    agg["fns"] = sorted(set(f for r in rs if r for f in r.fns))
    agg["nfn"] = max([r.covered for r in rs if r] + [0])
    agg["samples"] = [s for r in rs if r for s in r.samples]
    agg["ends"] = {}
    for r in rs:
        if r:
            for k, v in r.ends.items(): agg["ends"][k] = agg["ends"].get(k, 0) + v
    agg["slow"] = sorted([(round(r.time, 1), signature(c)[:150]) for c, r in zip(cases, rs) if r], reverse=True)[:3]
    return finish(ev, chk, cid, t0, viol, kf, notes, nval, agg, cases=cases, openl=openl, unconf=unconf, tested=tested)

def demangle(names):
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return [x.split("(")[0] for x in p.stdout.split("\n") if x]
    except Exception: return names

def finish(ev, chk, cid, t0, viol, kf, notes, nval, agg, cases=(), openl=(), unconf=(), tested=0):
    cov = ev["coverage"]
    agg = agg or {}
    cov["states"] = int(agg.get("paths", 0))
    cov["transitions"] = int(agg.get("steps", 0))
    cov["traces_validated_against_impl"] = int(nval)
    cov["samples"] = (agg.get("samples") or ["none"])[:6]
    cov["cases"] = len(cases)
    cov["bounds"] = getattr(chk, "BOUNDS", "")
    cov["outside_bounds"] = getattr(chk, "OUTSIDE", "")
    cov["functions_encoded"] = demangle(sorted(set(agg.get("fns", []))))[:120]
    cov["functions_encoded_total"] = int(agg.get("nfn", 0))
    cov["obligations_checked"] = int(agg.get("obl", 0))
    cov["solver"] = dict(name="z3 " + z3.get_version_string(), obligation_queries=int(agg.get("L_queries", 0)), unsat=int(agg.get("L_unsat", 0)),
                         sat=int(agg.get("L_sat", 0)), unknown=int(agg.get("L_unknown", 0)) + int(agg.get("unknown", 0)), path_queries=int(agg.get("checks", 0)),
                         solver_s=round(agg.get("L_time", 0) + agg.get("tsolve", 0), 3),
                         decided_by_identical_normal_form=int(agg.get("L_structural", 0)), decided_by_ring_query=int(agg.get("L_ring", 0)),
                         sent_to_nonlinear_solver=int(agg.get("L_nonlinear", 0)))
    cov["path_ends"] = agg.get("ends", {})
    cov["inconclusive"] = dict(count=len(openl) + len(unconf) + len(notes), undecided=[" ".join(map(str, x))[:200] for x in list(openl)[:8]],
                               not_reproduced=list(unconf)[:8], notes=[n[:1500] for n in notes[:8]])
    cov["candidates_replayed"] = tested
    cov["slowest_cases"] = agg.get("slow", [])
    ev["violations"] = len(viol)
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    for e, c, d in {x[0]["id"]: x for x in kf}.values():
        print("KNOWN-FINDING: property=%s %s" % (cid, e.get("what", e["id"])))
    rc = 0
    if viol:
        c, d = viol[0]
        path = "%s/evidence/%s.replay.json" % (ROOT, cid)
        with open(path, "w") as f:
            json.dump(dict(property=cid, label=c["label"], case=c["case"], vals=c["vals"], detail=c["detail"], confirmed=d,
                           how="./check.sh replay %s evidence/%s.replay.json" % (cid, cid)), f, indent=1, default=str)
        cov["violation"] = dict(label=c["label"], confirmed=d, detail=c["detail"])
        print("%s: %s" % (c["label"], d))
        print("VIOLATION property=%s replay=%s" % (cid, path))
        rc = 1
    with open("%s/evidence/%s.json" % (ROOT, cid), "w") as f: json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d paths, %d obligations, %d solver queries, %d validated natively, %d inconclusive, %.1f s" % (
        cid, ev["tier"], cov["states"], cov["obligations_checked"], cov["solver"]["obligation_queries"] + cov["solver"]["path_queries"], nval, cov["inconclusive"]["count"], ev["wall_s"]))
    sys.stdout.flush()
    return rc
