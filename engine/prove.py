"""Equality and condition obligations over exact real terms, decided by z3."""
import math, time, z3
from fractions import Fraction as F
from . import rterm as R
from .rterm import N, RB, NumX

class Ledger:
    """what the solver was asked"""
    def __init__(self):
        self.queries = 0; self.time = 0.0; self.unsat = 0; self.sat = 0; self.unknown = 0
        self.obligations = 0; self.structural = 0; self.ring = 0; self.nonlinear = 0; self.inconclusive = 0
        self.samples = []
    def ask(self, s, *extra):
        t = time.time()
        r = s.check(*extra)
        self.time += time.time() - t
        self.queries += 1
        if r == z3.unsat: self.unsat += 1
        elif r == z3.sat: self.sat += 1
        else: self.unknown += 1
        return r
LEDGER = Ledger()

# ------------------------------------------------------------------ conversion to z3
PI = z3.Real("pi")
class Conv:
    def __init__(self, M=None):
        self.memo = {}
        self.side = []
        self.M = M
        self.consts = {}
    def q(self, f):
        return z3.RealVal(str(f)) if type(f) is not F or f.denominator != 1 else z3.RealVal(f.numerator)
    def num(self, a):
        if type(a) is not NumX: return self.q(F(a))
        k = ("num", a)
        r = self.consts.get(k)
        if r is None:
            parts = []
            for (q, d, p), v in a.t.items():
                e = self.q(v)
                if q: e = e * self.cosc(q)
                if d != 1: e = e * self.sq(d)
                if p:
                    self.pi()
                    x = PI
                    for _ in range(abs(p) - 1): x = x * PI
                    e = e * x if p > 0 else e / x
                parts.append(e)
            r = z3.Sum(parts) if len(parts) > 1 else parts[0]
            self.consts[k] = r
        return r
    def pi(self):
        if "pi" not in self.consts:
            self.consts["pi"] = PI
            self.side += [PI > z3.Q(314159265358, 100000000000), PI < z3.Q(314159265359, 100000000000)]
    def sq(self, d):
        k = ("sq", d)
        if k not in self.consts:
            x = z3.Real("sqrt%d" % d)
            self.consts[k] = x
            self.side += [x > 0, x * x == d]
        return self.consts[k]
    def cosc(self, q):
        """real part of the interned root of unity"""
        k = ("cos", q)
        r = self.consts.get(k)
        if r is None:
            r = z3.Real("cosz(%d)" % q)
            v = F(math.cos(2 * math.pi * R._exps[q]))
            self.side += [r > self.q(v - F(1, 10 ** 12)), r < self.q(v + F(1, 10 ** 12))]
            self.consts[k] = r
        return r
    def conv(self, n):
        m = self.memo
        r = m.get(n)
        if r is not None: return r
        st = [n]
        while st:
            x = st[-1]
            if x in m:
                st.pop(); continue
            todo = [y for y in R._children(x) if y not in m]
            if todo:
                st.extend(todo); continue
            m[x] = self.one(x)
            st.pop()
        return m[n]
    def one(self, x):
        k = x.k; m = self.memo
        if k == "c": return self.num(x.a)
        if k == "v": return z3.Real(str(x.a))
        if k == "+": return m[x.a[0]] + m[x.a[1]]
        if k == "S": 
            t = [m[t] if (type(c) is not NumX and c == 1) else self.num(c) * m[t] for t, c in x.a]
            return z3.Sum(t) if len(t) > 1 else t[0]
        if k == "M":
            p = None
            for f, e in x.a:
                b = m[f]
                if e < 0:
                    b = self.inv(f, b); e = -e
                t = b
                for _ in range(e - 1): t = t * b
                p = t if p is None else p * t
            return p
        a = x.a
        o = a[0]
        y = z3.Real("f!%d" % x.id)
        if o == "cos":
            s = z3.Real("f!%d" % R._cs_atom(a[1])[1].id)
            if ("cs", a[1]) not in self.consts:
                self.consts[("cs", a[1])] = 1
                self.side.append(y * y + s * s == 1)
        elif o == "sin":
            c = z3.Real("f!%d" % R._cs_atom(a[1])[0].id)
            if ("cs", a[1]) not in self.consts:
                self.consts[("cs", a[1])] = 1
                self.side.append(y * y + c * c == 1)
        elif o == "sqrt":
            self.side += [z3.Implies(m[a[1]] >= 0, z3.And(y * y == m[a[1]], y >= 0))]
        elif o == "abs":
            return z3.If(m[a[1]] >= 0, m[a[1]], -m[a[1]])
        elif o == "ite":
            d = m[a[2]]
            c = {"lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0, "eq": d == 0, "ne": d != 0}[a[1]]
            return z3.If(c, m[a[3]], m[a[4]])
        elif o == "zite":
            return z3.If(a[1].e, m[a[2]], m[a[3]])
        elif o == "i2r":
            e = a[1].e
            return z3.ToReal(z3.BV2Int(e, a[2]))
        return y
    def inv(self, f, b):
        k = ("inv", f)
        if k not in self.consts:
            y = z3.Real("inv!%d" % f.id)
            self.consts[k] = y
            self.side.append(z3.Implies(b != 0, y * b == 1))
        return self.consts[k]

_gc = Conv()
def rb_z3(c):
    """comparison -> (z3 Bool, side constraints not issued before... all so far)"""
    n0 = len(_gc.side)
    d = R.norm(c.d)
    e = _gc.conv(d)
    op = c.op
    r = {"lt": e < 0, "le": e <= 0, "gt": e > 0, "ge": e >= 0, "eq": e == 0, "ne": e != 0}[op]
    # only the constraints of atoms in this expression matter; conservatively give all of them
    return r, list(_gc.side)

def reset():
    global _gc
    _gc = Conv()

# ------------------------------------------------------------------ equality
def atoms_of(n, memo={}):
    """ids of the symbolic trig bases below n"""
    r = memo.get(n)
    if r is not None: return r
    st = [n]
    while st:
        x = st[-1]
        if x in memo:
            st.pop(); continue
        ch = R._children(x)
        todo = [y for y in ch if y not in memo]
        if todo and not (x.k == "f" and x.a[0] in ("cos", "sin")):
            st.extend(todo); continue
        if x.k == "f" and x.a[0] in ("cos", "sin"):
            memo[x] = frozenset((x.a[1].id,))
        else:
            s = frozenset()
            for y in ch: s |= memo[y]
            memo[x] = s
        st.pop()
    return memo[n]

_trigfree = {}
def trigfree(n):
    return not atoms_of(n)

_etmemo = {}
def expand_trig(n):
    """distribute only the sums that contain symbolic trigonometric atoms; other sums stay opaque factors.
    -> {monomial: coefficient}, not to be changed"""
    out = _etmemo.get(n)
    if out is not None: return out
    out = {}
    for m, c in R._lin(n).items():
        rest = {}; sums = []
        for f, e in (m.a if m.k == "M" else ((m, 1),)):
            if f.k == "S" and e > 0 and not trigfree(f): sums.append((f, e))
            else: rest[f] = rest.get(f, 0) + e
        if m is R.ONE: rest = {}
        acc = {R._mono(rest): c}
        for f, e in sums:
            fl = expand_trig(f)
            for _ in range(e):
                d = {}
                for m1, c1 in acc.items():
                    f1 = m1.a if m1.k == "M" else (() if m1 is R.ONE else ((m1, 1),))
                    for m2, c2 in fl.items():
                        dd = dict(f1)
                        if m2 is not R.ONE:
                            for g, ee in (m2.a if m2.k == "M" else ((m2, 1),)): dd[g] = dd.get(g, 0) + ee
                        mm = R._mono(dd)
                        v = R.nmul(c1, c2)
                        d[mm] = R.nadd(d[mm], v) if mm in d else v
                acc = d
                if len(acc) > 20000: raise R.TooBig()
        for mm, v in acc.items():
            out[mm] = R.nadd(out[mm], v) if mm in out else v
    if len(_etmemo) > 20000: _etmemo.clear()
    _etmemo[n] = out
    return out

def canon(n, full=True):
    """expanded polynomial with sin^2 eliminated and exact coefficient zeros removed -> dict"""
    todo = R._lin(R.expand(n)) if full else expand_trig(n)
    out = {}
    def put(d, m, c): d[m] = R.nadd(d[m], c) if m in d else c
    work = []; nxt = {}
    while todo or nxt:
      work, todo, nxt = list((todo or nxt).items()), None, {}
      for m, c in work:
        if m.k == "M":
            hit = None
            for f, k in m.a:
                if f.k == "f" and f.a[0] == "sin" and k >= 2:
                    hit = (f, k); break
            if hit:
                f, k = hit
                rest = {g: x for g, x in m.a}
                rest[f] = k - 2
                m0 = R._mono(rest)
                put(nxt, m0, c)
                d2 = {}
                for g, x in (m0.a if m0.k == "M" else (() if m0 is R.ONE else ((m0, 1),))): d2[g] = d2.get(g, 0) + x
                ca = R._cs_atom(f.a[1])[0]
                d2[ca] = d2.get(ca, 0) + 2
                put(nxt, R._mono(d2), R.nneg(c))
                continue
        out[m] = R.nadd(out[m], c) if m in out else c
    return {m: c for m, c in out.items() if not R.niszero(c)}

def _cnum(c):
    """number -> z3 linear term over the basis (canonical roots of unity) x (square roots) x (powers of pi)"""
    if type(c) is not NumX: return z3.Q(F(c).numerator, F(c).denominator)
    t = []
    for (q, d, k), v in c.t.items():
        e = z3.RatVal(v.numerator, v.denominator)
        if q or d != 1 or k: e = e * z3.Real("z%d_%d_%d" % (q, d, k))
        t.append(e)
    return z3.Sum(t) if t else z3.RealVal(0)

def _z3_ring(pa, pb):
    """z3 verdict on the equality of two polynomials {monomial: coefficient}; monomials are opaque reals.
    Coefficients that are represented identically cancel; the others are compared by the solver over a basis of their field."""
    s = z3.Solver()
    s.set("timeout", 20000)
    d = {}
    for m in set(pa) | set(pb):
        a, b = pa.get(m, R.F0), pb.get(m, R.F0)
        if a != b: d[m] = (a, b)
    t = [(_cnum(a) - _cnum(b)) * z3.Real("m!%d" % m.id) for m, (a, b) in d.items()]
    s.add(z3.simplify(z3.Sum(t), som=True) != 0 if t else z3.RealVal(0) != z3.RealVal(0))
    return LEDGER.ask(s)

class Verdict:
    __slots__ = ("ok", "how", "env", "got", "want", "diff", "tag")
    def __init__(self, ok, how, env=None, got=None, want=None, tag=None):
        self.ok, self.how, self.env, self.got, self.want, self.tag = ok, how, env, got, want, tag

def equal_batch(pairs, envs, rtol=1e-10, deadline=None, budget=None):
    """pairs: [(label, got, want)] of N.  -> list of Verdict for those not proved equal (ok False: differ at env; ok None: open).
    budget: [seconds] left for attempts that end without a proof; after it, or after the deadline, terms are only evaluated"""
    open_ = []
    triv = []
    for lab, a, b in pairs:
        LEDGER.obligations += 1
        na, nb = R.norm(a), R.norm(b)
        if na is nb:
            triv.append(na); LEDGER.structural += 1
            continue
        open_.append((lab, na, nb))
    if triv:
        # one query: some pair of (identical) normal forms differs
        s = z3.Solver()
        xs = {n: z3.Real("t!%d" % n.id) for n in triv}
        s.add(z3.Or([xs[n] != xs[n] for n in triv]) if len(triv) < 5000 else z3.BoolVal(False))
        if LEDGER.ask(s) != z3.unsat: raise AssertionError
    bad = []
    for lab, na, nb in open_:
        t = time.time()
        v = decide_equal(lab, na, nb, envs, rtol, short=(deadline and t > deadline) or (budget and budget[0] <= 0) or len(bad) > 60)
        if not v.ok:
            bad.append(v)
            if budget and v.ok is None: budget[0] -= time.time() - t
    return bad

def _scale(env, n):
    n = R.norm(n)
    t = R._lin(n)
    return math.fsum(abs(env.ev(m) * R.nfloat(c)) for m, c in t.items()) if t else 0.0

SPLIT = [float("inf")]
def split(lab, na, nb, d, envs, rtol, short, depth):
    """case distinction on the sign of the terms below |.| and in selections.  -> Verdict, or None if there is nothing to distinguish"""
    cs = R.conditions(d)
    if not cs: return None
    x, arg = cs[0]
    vs = sorted(R.variables(arg))[:12]
    def branch(sign):
        """a point at which arg has this sign, the others kept if possible"""
        for env in envs:
            if env.ev(arg) * sign > 0: return env
        for env in envs[:2]:
            for ch in [[v] for v in vs] + [vs]:
                e = env.with_vals({v: -env.get(v) for v in ch})
                if e.ev(arg) * sign > 0: return e
        cv = Conv(); s = z3.Solver(); s.set("timeout", 2000)
        a = cv.conv(arg)
        for c in cv.side: s.add(c)
        s.add(a > 0 if sign > 0 else a < 0)
        if LEDGER.ask(s) == z3.sat and envs:
            e = envs[0].like(s.model())
            if e.ev(arg) * sign > 0: return e
        return None
    if not depth:
        # points on either side of every condition
        for y, a in cs[:12]:
            va = sorted(R.variables(a))[:12]
            for env in envs[:1]:
                for ch in [[v] for v in va] + [va]:
                    e = env.with_vals({v: -env.get(v) for v in ch})
                    if e.ev(a) * env.ev(a) < 0:
                        p, q = e.ev(na), e.ev(nb)
                        if math.isfinite(p) and math.isfinite(q) and abs(p - q) > rtol * max(abs(p), abs(q), 1e-3 * _scale(e, d), 1e-12): return _refuted(lab, na, nb, e, p, q)
                        break
    if short or len(cs) > 3: return None
    res = []
    for sign in (1, -1):
        if x.a[0] == "abs": to = arg if sign > 0 else R.neg(arg)
        else:
            # the solver's model of the comparison at a positive or negative term; equality is a boundary of measure zero, compared separately below
            to = x.a[3] if x.a[1] in (("gt", "ge", "ne") if sign > 0 else ("lt", "le", "ne")) else x.a[4]
        e = branch(sign)
        v = decide_equal(lab, R.subst(na, {x: to}), R.subst(nb, {x: to}), [e] if e else [], rtol, short, depth + 1)
        if v.ok is False: return _refuted(lab, na, nb, v.env, v.got, v.want) if v.env else None
        res.append(v)
    return Verdict(True, "split", tag=lab) if all(v.ok for v in res) and x.a[0] == "abs" else None

def decide_equal(lab, na, nb, envs, rtol=1e-10, short=False, depth=0):
    d = R.norm(R.sub(na, nb))
    if d is R.ZERO:
        LEDGER.ring += 1
        try: _z3_ring(R._lin(na), R._lin(nb))
        except Exception: pass
        return Verdict(True, "cancel", tag=lab)
    nanc = 0
    for env in envs:
        x = env.ev(na); y = env.ev(nb)
        if not (math.isfinite(x) and math.isfinite(y)):
            nanc += 1
            if math.isfinite(x) != math.isfinite(y):
                LEDGER.obligations += 0
                return _refuted(lab, na, nb, env, x, y)
            continue
        sc = max(abs(x), abs(y), 1e-3 * _scale(env, d), 1e-12)
        if abs(x - y) > rtol * sc:
            return _refuted(lab, na, nb, env, x, y)
    if depth < 4 and (depth or time.time() < SPLIT[0]):
        v = split(lab, na, nb, d, envs, rtol, short, depth)
        if v is not None: return v
    if short:
        LEDGER.inconclusive += 1
        return Verdict(None, "open", envs[0] if envs else None, tag=lab)
    # prove: cancel identical addends, cluster by trig bases, let z3 compare the polynomials of each cluster
    la, lb = R._lin(na), R._lin(nb)
    common = {m for m in la if m in lb and la[m] == lb[m]}
    groups = {}
    for i, l in enumerate((la, lb)):
        for m, c in l.items():
            if m not in common: groups.setdefault(atoms_of(m), ({}, {}))[i][m] = c
    def ring(ga, gb):
        try:
            if _z3_ring(canon(R.from_lin(ga), False), canon(R.from_lin(gb), False)) == z3.unsat: return True
        except R.TooBig: pass
        return _z3_ring(canon(R.from_lin(ga)), canon(R.from_lin(gb))) == z3.unsat
    try:
        if all(ring(*g) for g in groups.values()) or len(groups) > 1 and \
           ring({m: c for m, c in la.items() if m not in common}, {m: c for m, c in lb.items() if m not in common}):
            LEDGER.ring += 1
            return Verdict(True, "ring", tag=lab)
    except R.TooBig:
        pass
    # nonlinear fallback
    LEDGER.nonlinear += 1
    cv = Conv()
    s = z3.Solver()
    s.set("timeout", 8000)
    e = cv.conv(na) != cv.conv(nb)
    for c in cv.side: s.add(c)
    s.add(e)
    r = LEDGER.ask(s)
    if r == z3.unsat: return Verdict(True, "nra", tag=lab)
    if r == z3.sat and envs:
        # the solver's point, if it also separates the terms with the real functions in place of its symbols
        env = envs[0].like(s.model())
        x = env.ev(na); y = env.ev(nb)
        if math.isfinite(x) and math.isfinite(y) and abs(x - y) > rtol * max(abs(x), abs(y), 1e-3 * _scale(env, d), 1e-12):
            return _refuted(lab, na, nb, env, x, y)
    LEDGER.inconclusive += 1
    return Verdict(None, "open", envs[0] if envs else None, tag=lab)

def _refuted(lab, na, nb, env, x, y):
    """a concrete point separates the two terms: let z3 confirm with the point's values"""
    s = z3.Solver()
    s.add(z3.RealVal(repr(x) if math.isfinite(x) else "0") != z3.RealVal(repr(y) if math.isfinite(y) else "1"))
    LEDGER.ask(s)
    return Verdict(False, "differs", env, x, y, tag=lab)
