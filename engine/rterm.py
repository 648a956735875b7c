"""Exact real terms (hash-consed) used as the meaning of floating-point values.

Constants live in the ring  Q[pi^+-1][sqrt(d)][cos(pi q)]  ("Num"); terms are sums of monomials over
variables, trig/inverse/ite atoms.  Products are not distributed over sums unless expand() is asked for.
Everything here is simplification and bookkeeping; equality verdicts are made by z3 (see prove.py).
"""
import math, random
from fractions import Fraction as F
from functools import lru_cache

F0 = F(0); F1 = F(1); HALF = F(1, 2)

# ---------------------------------------------------------------- numbers
class NumX:
    """sum of coef * cos(pi q) * sqrt(d) * pi^k: {key: int} over one positive denominator, in lowest terms"""
    __slots__ = ("n", "d", "_h", "_f", "_t")
    def __init__(self, n, d):
        self.n = n
        self.d = d
        self._h = None
        self._f = None
        self._t = None
    @property
    def t(self):
        if self._t is None: self._t = {k: F(v, self.d) for k, v in self.n.items()}
        return self._t
    def __hash__(self):
        if self._h is None:
            self._h = hash((frozenset(self.n.items()), self.d))
        return self._h
    def __eq__(self, o):
        return self is o or (type(o) is NumX and self.d == o.d and self.n == o.n)
    def __repr__(self):
        return "Num" + repr(self.t)

def _mkint(n, d):
    """canonical number from {key: int} and denominator"""
    if 0 in n.values(): n = {k: v for k, v in n.items() if v}
    if not n:
        return F0
    if len(n) == 1:
        (k, v), = n.items()
        if k == _K0:
            return F(v, d)
    if d != 1:
        g = math.gcd(d, *n.values())
        if g != 1:
            d //= g
            n = {k: v // g for k, v in n.items()}
    return NumX(n, d)

def _norm(t):
    """from {key: Fraction}"""
    d = 1
    for v in t.values():
        d = math.lcm(d, v.denominator)
    return _mkint({k: int(v * d) for k, v in t.items()}, d)

_K0 = (0, 1, 0)

def ndict(a):
    return a.t if type(a) is NumX else ({_K0: a} if a else {})

def nadd(a, b):
    if type(a) is not NumX:
        if type(b) is not NumX:
            return a + b
        a, b = b, a
    if type(b) is not NumX:
        if not b: return a
        bn, bd = {_K0: b.numerator}, b.denominator
    else:
        bn, bd = b.n, b.d
    ad = a.d
    if ad == bd:
        t = dict(a.n)
        for k, v in bn.items():
            t[k] = t.get(k, 0) + v
        return _mkint(t, ad)
    g = math.gcd(ad, bd)
    fa, fb = bd // g, ad // g
    t = {k: v * fa for k, v in a.n.items()}
    for k, v in bn.items():
        t[k] = t.get(k, 0) + v * fb
    return _mkint(t, ad * fa)

def nneg(a):
    if type(a) is not NumX:
        return -a
    return NumX({k: -v for k, v in a.n.items()}, a.d)

# roots of unity exp(2 pi i e), e in [0,1): interned, and reduced to a basis that is canonical for all orders
# together (tensor product over primes; digits 0..p-2 at the first level of an odd prime, any digit above;
# exponents below 1/2 for the prime two), so that equal numbers have equal representations
_eid = {F0: 0}
_exps = [F0]
def _intern(e):
    i = _eid.get(e)
    if i is None:
        i = len(_exps)
        _eid[e] = i
        _exps.append(e)
    return i

def _factor(n):
    out = []
    p = 2
    while n > 1:
        if p * p > n: p = n
        k = 0
        while n % p == 0:
            n //= p; k += 1
        if k: out.append((p, k))
        p += 1
    return out

@lru_cache(None)
def _zcanon(e):
    """zeta^e as a tuple of (interned exponent, coefficient)"""
    e = e % 1
    sign = F1
    n = e.denominator
    comps = []
    for p, k in _factor(n):
        q = p ** k
        r = n // q
        # component a/q with e = sum of components mod 1
        a = e.numerator * pow(r, -1, q) % q
        comps.append((p, k, a))
    terms = [(F0, F1)]
    for p, k, a in comps:
        q = p ** k
        x = F(a, q)
        if p == 2:
            if x >= HALF:
                x -= HALF
                sign = -sign
            terms = [(t + x, c) for t, c in terms]
            continue
        # x = j0/p + j1/p^2 + ... with digits 0..p-1
        digits = []
        aa = a
        for lev in range(k):
            digits.append(aa % p)       # least significant: level k
            aa //= p
        j0 = digits[-1]
        if j0 == p - 1:
            rest = x - F(p - 1, p)
            terms = [(t + rest + F(i, p), -c) for t, c in terms for i in range(p - 1)]
        else:
            terms = [(t + x, c) for t, c in terms]
    d = {}
    for t, c in terms:
        k = _intern(t % 1)
        d[k] = d.get(k, 0) + c * sign
    return tuple((k, c) for k, c in d.items() if c)

@lru_cache(None)
def _zmul(i, j):
    if i == 0: return ((j, F1),)
    if j == 0: return ((i, F1),)
    return _zcanon(_exps[i] + _exps[j])

@lru_cache(None)
def cospi(q):
    q = F(q)
    t = {}
    for e in (q / 2, -q / 2):
        for k, c in _zcanon(e % 1):
            t[(k, 1, 0)] = t.get((k, 1, 0), 0) + c * HALF
    return _norm(t)

def sinpi(q):
    return cospi(HALF - F(q))

@lru_cache(None)
def sqfree(n):
    """n = s^2 * d"""
    s, d, p = 1, 1, 2
    while n > 1:
        if p * p > n:
            d *= n
            break
        e = 0
        while n % p == 0:
            n //= p
            e += 1
        s *= p ** (e // 2)
        if e % 2:
            d *= p
        p += 1
    return s, d

@lru_cache(None)
def _kmul(k1, k2):
    q1, d1, p1 = k1
    q2, d2, p2 = k2
    g = math.gcd(d1, d2)
    d = (d1 // g) * (d2 // g)
    p = p1 + p2
    return tuple(((q, d, p), int(c * g)) for q, c in _zmul(q1, q2))

_mulmemo = {}
def nmul(a, b):
    if type(a) is not NumX:
        if type(b) is not NumX:
            return a * b
        a, b = b, a
    if type(b) is not NumX:
        if not b:
            return F0
        if b == 1:
            return a
        num, d = b.numerator, a.d * b.denominator
        g = math.gcd(num, a.d)
        if g != 1:
            num //= g; d //= g
        return _mkint({k: num * v for k, v in a.n.items()}, d)
    key = (a, b)
    r = _mulmemo.get(key)
    if r is not None: return r
    t = {}
    bi = b.n.items()
    for k1, v1 in a.n.items():
        for k2, v2 in bi:
            v = v1 * v2
            for k, c in _kmul(k1, k2):
                t[k] = t.get(k, 0) + c * v
    r = _mkint(t, a.d * b.d)
    if len(_mulmemo) > 400000: _mulmemo.clear()
    _mulmemo[key] = r
    return r

def ninv(a):
    """inverse for monomial numbers without trig factor; None otherwise"""
    if type(a) is not NumX:
        return 1 / a
    if len(a.t) == 1:
        ((q, d, p), v), = a.t.items()
        if q == 0:
            return _norm({(0, d, -p): 1 / (v * d)})
    return None

@lru_cache(None)
def _keyf(k):
    q, d, p = k
    return math.cos(2 * math.pi * _exps[q]) * math.sqrt(d) * math.pi ** p

def nfloat(a):
    if type(a) is not NumX:
        return float(a)
    if a._f is None:
        a._f = math.fsum(v / a.d * _keyf(k) for k, v in a.n.items())
    return a._f

def niszero(a):
    """exact zero test (representations are canonical unless square roots and trigonometric numbers mix)"""
    return type(a) is not NumX and a == 0

# ---------------------------------------------------------------- nodes
class N:
    __slots__ = ("k", "a", "id", "_n", "_f", "_e", "_z", "_at")
    def __init__(self, k, a, i):
        self.k = k
        self.a = a
        self.id = i
        self._n = None       # normal form (for lazy sums)
        self._f = None       # {sample: float}
        self._e = None       # expanded form
        self._z = None
        self._at = None
    def __repr__(self):
        return show(self)
    def __lt__(self, o):
        return self.id < o.id
    # python arithmetic (used by specifications and by executed Python code)
    def __add__(self, o): return add(self, lift(o))
    __radd__ = __add__
    def __sub__(self, o): return sub(self, lift(o))
    def __rsub__(self, o): return sub(lift(o), self)
    def __mul__(self, o): return mul(self, lift(o))
    __rmul__ = __mul__
    def __truediv__(self, o): return div(self, lift(o))
    def __rtruediv__(self, o): return div(lift(o), self)
    def __neg__(self): return neg(self)
    def __pos__(self): return self
    def __pow__(self, e):
        if e == 2: return mul(self, self)
        if e == 0.5: return sqrt(self)
        if isinstance(e, int):
            r = ONE
            for _ in range(abs(e)): r = mul(r, self)
            return r if e >= 0 else inv(r)
        raise NotImplementedError
    def __abs__(self): return fabs(self)
    # comparisons produce conditions
    def __ge__(self, o): return RB("ge", sub(self, lift(o)))
    def __gt__(self, o): return RB("gt", sub(self, lift(o)))
    def __le__(self, o): return RB("le", sub(self, lift(o)))

_tab = {}
_ctr = [0]

def mk(k, a):
    key = (k, a)
    n = _tab.get(key)
    if n is None:
        _ctr[0] += 1
        n = N(k, a, _ctr[0])
        _tab[key] = n
    return n

_cc = {}
def const(x):
    """x: Fraction or NumX"""
    n = _cc.get(x)
    if n is None:
        n = mk("c", x)
        _cc[x] = n
    return n

ZERO = const(F0)
ONE = const(F1)

def var(name):
    return mk("v", name)

# doubles -> exact constants; multiples of the double nearest to pi by a power of two stand for pi
_PIM = math.frexp(math.pi)[0]
_dc = {}
def dconst(x):
    n = _dc.get(x)
    if n is None:
        if x != x or x in (math.inf, -math.inf):
            n = mk("f", ("special", repr(x)))
        else:
            m, e = math.frexp(x)
            if abs(m) == _PIM:
                k = F(2) ** (e - math.frexp(math.pi)[1])
                n = const(_norm({(0, 1, 1): k if m > 0 else -k}))
            else:
                n = const(_recog(x))
        _dc[x] = n
    return n

PI = None
def _recog(x):
    """decimal constants that are not exactly representable (0.1, 0.002, 1e-4, 1/3...) stand for the
    decimal/rational they were written as when that is simple; everything else is exact"""
    f = F(x)
    if f.denominator <= 1 << 12:
        return f
    s = repr(x)
    digits = s.replace("-", "").replace(".", "").split("e")[0].strip("0")
    if len(digits) <= 6:
        return F(s)
    g = f.limit_denominator(999)
    if float(g) == x:
        return g
    # rational multiples of pi (constant folding of 2*pi/10 etc.)
    r = F(x / math.pi).limit_denominator(720)
    if r and abs(float(r) * math.pi - x) <= 1e-15 * abs(x) and r.denominator <= 720:
        return _norm({(0, 1, 1): r})
    r = F(x * math.pi).limit_denominator(720)
    if r and abs(float(r) / math.pi - x) <= 1e-15 * abs(x):
        return _norm({(0, 1, -1): r})
    return f

def lift(x):
    if type(x) is N:
        return x
    if type(x) is int:
        return const(F(x))
    if type(x) is float:
        return dconst(x)
    if isinstance(x, (F, NumX)):
        return const(x)
    try:
        import numpy as np
        if isinstance(x, np.integer):
            return const(F(int(x)))
        if isinstance(x, np.floating):
            return dconst(float(x))
        if isinstance(x, (bool, np.bool_)):
            return const(F(int(x)))
    except ImportError:
        pass
    if hasattr(x, "as_real"):
        return x.as_real()
    raise TypeError("lift %r" % (x,))

# sums ------------------------------------------------------------------
def _lin(n):
    """normal form -> dict {mono: coeff}"""
    n = norm(n)
    k = n.k
    if k == "c":
        return {ONE: n.a} if n is not ZERO else {}
    if k == "S":
        return dict(n.a)
    return {n: F1}

def from_lin(d):
    items = [(m, c) for m, c in d.items() if c]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m is ONE:
            return const(c)
        if c == 1:
            return m
    items.sort(key=lambda t: t[0].id)
    return mk("S", tuple(items))

def norm(n):
    if n.k != "+":
        return n
    r = n._n
    if r is None:
        d = {}
        stack = [n]
        # iterative flattening of the lazy chain
        acc = []
        while stack:
            x = stack.pop()
            if x.k == "+":
                if x._n is not None:
                    acc.append(x._n)
                else:
                    stack.append(x.a[0]); stack.append(x.a[1])
            else:
                acc.append(x)
        for x in acc:
            k = x.k
            if k == "c":
                if x is not ZERO:
                    d[ONE] = nadd(d[ONE], x.a) if ONE in d else x.a
            elif k == "S":
                for m, c in x.a:
                    o = d.get(m)
                    d[m] = c if o is None else nadd(o, c)
            else:
                o = d.get(x)
                d[x] = F1 if o is None else nadd(o, F1)
        r = from_lin(d)
        n._n = r
    return r

def add(a, b):
    if a is ZERO: return b
    if b is ZERO: return a
    if a.k == "c" and b.k == "c":
        return const(nadd(a.a, b.a))
    if b.id < a.id:
        a, b = b, a
    return mk("+", (a, b))

def neg(a):
    return scale(a, -F1)

def scale(a, c):
    if not c: return ZERO
    if type(c) is not NumX and c == 1: return a
    a = norm(a)
    if a.k == "c":
        return const(nmul(a.a, c))
    if a.k == "S":
        return from_lin({m: nmul(x, c) for m, x in a.a})
    return mk("S", ((a, c),))

def sub(a, b):
    if b is ZERO: return a
    if a is b: return ZERO
    return add(a, neg(b))

def _split(n):
    """normal form -> (coeff, [(factor, exp)])"""
    k = n.k
    if k == "c":
        return n.a, ()
    if k == "S":
        it = n.a
        if len(it) == 1:
            m, c = it[0]
            return c, (m.a if m.k == "M" else ((m, 1),))
        c = it[0][1]
        if type(c) is NumX: c = -F1 if nfloat(c) < 0 else F1
        if c != 1:
            ic = 1 / c
            n = mk("S", tuple((m, nmul(x, ic)) for m, x in it))
            return c, ((n, 1),)
        return F1, ((n, 1),)
    if k == "M":
        return F1, n.a
    return F1, ((n, 1),)

def _mono(fs):
    """[(factor,exp)] dict -> node"""
    it = [(f, e) for f, e in fs.items() if e]
    if not it:
        return ONE
    if len(it) == 1 and it[0][1] == 1:
        f = it[0][0]
        if f.k != "S":
            return f
        return mk("M", ((f, 1),))
    it.sort(key=lambda t: t[0].id)
    return mk("M", tuple(it))

def mul(a, b):
    if a is ZERO or b is ZERO: return ZERO
    if a is ONE: return b
    if b is ONE: return a
    a = norm(a); b = norm(b)
    if a.k == "c":
        return scale(b, a.a)
    if b.k == "c":
        return scale(a, b.a)
    ca, fa = _split(a)
    cb, fb = _split(b)
    d = dict(fa)
    for f, e in fb:
        d[f] = d.get(f, 0) + e
    m = _mono(d)
    c = nmul(ca, cb)
    if m is ONE:
        return const(c)
    if m.k == "M" and len(m.a) == 1 and m.a[0][1] == 1:   # bare sum
        return scale(m.a[0][0], c)
    if type(c) is not NumX and c == 1:
        return m
    return mk("S", ((m, c),))

def inv(a):
    a = norm(a)
    if a.k == "c":
        if a is ZERO:
            return mk("f", ("div0",))
        i = ninv(a.a)
        if i is not None:
            return const(i)
        return mk("M", ((a, -1),))
    if a.k == "S" and len(a.a) > 1:
        a = expand(a)
        if a.k == "c":
            return inv(a)
    c, fs = _split(a)
    ic = ninv(c)
    if ic is None:
        fs = tuple(fs) + ((const(c), 1),)
        ic = F1
    m = _mono({f: -e for f, e in fs})
    if m is ONE:
        return const(ic)
    if type(ic) is not NumX and ic == 1:
        return m
    return mk("S", ((m, ic),))

def div(a, b):
    return mul(a, inv(b))

# expansion --------------------------------------------------------------
class TooBig(Exception):
    pass

def expand(n, limit=20000):
    """full distribution (positive powers of sums); inverse factors are kept as atoms"""
    n = norm(n)
    if n._e is not None:
        return n._e
    k = n.k
    if k in ("c", "v", "f"):
        r = n
    elif k == "M":
        r = _expand_mono(n, limit)
    else:
        if all(m.k != "M" or all(f.k != "S" or e < 0 for f, e in m.a) for m, _ in n.a):
            r = n
        else:
            d = {}
            for m, c in n.a:
                for m2, c2 in _lin(expand(m, limit)).items():
                    v = nmul(c, c2)
                    d[m2] = nadd(d[m2], v) if m2 in d else v
            r = from_lin(d)
    n._e = r
    if r._e is None:
        r._e = r
    return r

def _expand_mono(n, limit):
    rest = {}
    sums = []
    for f, e in n.a:
        if f.k == "S" and e > 0:
            sums.append((f, e))
        else:
            rest[f] = e
    if not sums:
        return n
    acc = {_mono(rest): F1}
    for f, e in sums:
        fl = _lin(expand(f, limit))
        for _ in range(e):
            d = {}
            if len(acc) * len(fl) > limit * 20:
                raise TooBig()
            for m1, c1 in acc.items():
                f1 = m1.a if m1.k == "M" else (() if m1 is ONE else ((m1, 1),))
                for m2, c2 in fl.items():
                    if m2 is ONE:
                        m = m1
                    else:
                        dd = dict(f1)
                        for g, ee in (m2.a if m2.k == "M" else ((m2, 1),)):
                            dd[g] = dd.get(g, 0) + ee
                        m = _mono(dd)
                    v = nmul(c1, c2)
                    d[m] = nadd(d[m], v) if m in d else v
            acc = d
            if len(acc) > limit:
                raise TooBig()
    # S^+k * S^-k cancellation may leave bare sums: handled by _mono (exp 0 dropped)
    return from_lin(acc)

# functions ---------------------------------------------------------------
bases = []           # registered trig bases (normalised arguments) in order
_basex = {}
_lead = {}

def reset_bases():
    bases.clear(); _basex.clear(); _lead.clear(); _trigc.clear()

def _signnorm(X):
    """X normal, not const -> (sign, X)"""
    l = X.a[0][1] if X.k == "S" else F1
    if nfloat(l) < 0:
        return -1, scale(X, -F1)
    return 1, X

def _register(X):
    if X in _basex:
        return
    _basex[X] = True
    bases.append(X)
    it = X.a[0] if X.k == "S" else (X, F1)
    _lead.setdefault(it[0], []).append(X)

def _cs_atom(X):
    """atoms for a base X"""
    return mk("f", ("cos", X)), mk("f", ("sin", X))

def _cmulp(a, b):
    return sub(mul(a[0], b[0]), mul(a[1], b[1])), add(mul(a[0], b[1]), mul(a[1], b[0]))

_powc = {}
def _cs_pow(X, m):
    """(cos mX, sin mX) as polynomials in the atoms of X, expanded"""
    if m < 0:
        c, s = _cs_pow(X, -m)
        return c, neg(s)
    key = (X, m)
    r = _powc.get(key)
    if r is None:
        if m == 0:
            r = (ONE, ZERO)
        elif m == 1:
            r = _cs_atom(X)
        else:
            c, s = _cmulp(_cs_pow(X, m - 1), _cs_atom(X))
            r = (expand(c), expand(s))
        _powc[key] = r
    return r

hints = {}   # id-tuple -> list of groups of bases used together (see add_hint_group)
groups = []

def add_hint_group(args, mmax):
    """args: list of terms whose trig functions are taken as atoms; combos with |coef|<=mmax are split"""
    bs = []
    for a in args:
        p, X = _splitpi(expand(a))
        if X is ZERO:
            continue
        s, X = _signnorm(X)
        _register(X)
        bs.append(X)
    if len(bs) > 1:
        groups.append((tuple(bs), mmax))
        for b in bs:
            for m, _ in (b.a if b.k == "S" else ((b, F1),)):
                hints.setdefault(m, []).append(len(groups) - 1)

def _splitpi(x):
    """expanded x -> (q, X): x = q*pi + X with q rational"""
    if x.k == "c":
        t = ndict(x.a)
        q = t.get((F0, 1, 1), F0)
        rest = {k: v for k, v in t.items() if k != (F0, 1, 1)}
        return q, const(_norm(rest)) if rest else ZERO
    if x.k == "S":
        for m, c in x.a:
            if m is ONE:
                t = ndict(c)
                q = t.get((F0, 1, 1), F0)
                if not q:
                    return F0, x
                d = dict(x.a)
                rest = {k: v for k, v in t.items() if k != (F0, 1, 1)}
                d[ONE] = _norm(rest)
                return q, from_lin(d)
    return F0, x

def _ratio(X, B):
    """rational r with X = r*B or None"""
    if X is B:
        return F1
    xa = X.a if X.k == "S" else ((X, F1),)
    ba = B.a if B.k == "S" else ((B, F1),)
    if len(xa) != len(ba):
        return None
    r = None
    for (m1, c1), (m2, c2) in zip(xa, ba):
        if m1 is not m2:
            return None
        if r is None:
            f = nfloat(c1) / nfloat(c2)
            r = F(f).limit_denominator(200)
            if abs(float(r) - f) > 1e-9:
                return None
        if nmul(r, c2) != c1:
            return None
    return r

_trigc = {}
def cossin(x):
    """(cos x, sin x)"""
    x = expand(x)
    r = _trigc.get(x)
    if r is not None:
        return r
    q, X = _splitpi(x)
    qc, qs = const(cospi(q)), const(sinpi(q))
    if X is ZERO:
        r = (qc, qs)
        _trigc[x] = r
        return r
    s, X = _signnorm(X)
    cs = None
    # exact or integer multiple of a registered base
    lead = X.a[0][0] if X.k == "S" else X
    for B in _lead.get(lead, ()):
        rr = _ratio(X, B)
        if rr is not None and rr.denominator == 1 and abs(rr) <= 200:
            cs = _cs_pow(B, int(rr))
            break
    if cs is None:
        cs = _lattice(X)
    if cs is None:
        _register(X)
        cs = _cs_atom(X)
    c, sn = cs
    if s < 0:
        sn = neg(sn)
    if q:
        c, sn = sub(mul(qc, c), mul(qs, sn)), add(mul(qs, c), mul(qc, sn))
    r = (norm(c), norm(sn))
    _trigc[x] = r
    return r

def _solve2(X, B1, B2):
    """integers (a, b) that could give X = a*B1 + b*B2 (up to a constant), found numerically"""
    x, p, q = _lin(X), _lin(B1), _lin(B2)
    ms = [m for m in set(p) | set(q) if m is not ONE]
    ms.sort(key=lambda m: m.id)
    v = [(nfloat(x.get(m, F0)), nfloat(p.get(m, F0)), nfloat(q.get(m, F0))) for m in ms]
    for i in range(len(v)):
        for j in range(i + 1, len(v)):
            det = v[i][1] * v[j][2] - v[j][1] * v[i][2]
            if abs(det) > 1e-6:
                a = (v[i][0] * v[j][2] - v[j][0] * v[i][2]) / det
                b = (v[i][1] * v[j][0] - v[j][1] * v[i][0]) / det
                ra, rb = round(a), round(b)
                if abs(a - ra) < 1e-6 and abs(b - rb) < 1e-6 and abs(ra) <= 60 and abs(rb) <= 60:
                    return ra, rb
                return None
    return None

def _lattice(X):
    """X = m*B1 + n*B2 (+ q pi is already split off) over a hint group"""
    tried = set()
    cand = []
    for m, _ in (X.a if X.k == "S" else ((X, F1),)):
        for g in hints.get(m, ()):
            if g not in tried:
                tried.add(g)
                cand.append(g)
    for g in cand:
        bs, mmax = groups[g]
        if len(bs) != 2:
            continue
        ab = _solve2(X, bs[0], bs[1])
        if ab is None:
            continue
        a, b = ab
        rest = norm(sub(sub(X, scale(bs[0], F(a))), scale(bs[1], F(b))))
        qq, rest = _splitpi(rest)
        if rest is not ZERO:
            continue
        c, s = _cmulp(_cs_pow(bs[0], a), _cs_pow(bs[1], b))
        if qq:
            qc, qs = const(cospi(qq)), const(sinpi(qq))
            c, s = sub(mul(qc, c), mul(qs, s)), add(mul(qs, c), mul(qc, s))
        return expand(c), expand(s)
    return None

def cos(x): return cossin(lift(x))[0]
def sin(x): return cossin(lift(x))[1]

def sqrt(x):
    x = expand(lift(x))
    if x.k == "c" and type(x.a) is not NumX:
        q = x.a
        if q >= 0:
            s, d = sqfree(q.numerator * q.denominator)
            return const(_norm({(0, d, 0): F(s, q.denominator)}) if q else F0)
    return mk("f", ("sqrt", x))

def fabs(x):
    x = norm(lift(x))
    if x.k == "c":
        return x if nfloat(x.a) >= 0 else neg(x)
    xe = x
    try:
        xe = expand(x, 500)
    except TooBig:
        pass
    if xe.k == "c":
        return fabs(xe)
    s, xe = _signnorm(xe)
    return mk("f", ("abs", xe))

def ite(c, a, b):
    """c: RB or z3 Bool or bool"""
    if isinstance(c, (bool, int)): return a if c else b
    a = norm(a); b = norm(b)
    if a is b: return a
    if type(c) is RB:
        v = c.const()
        if v is not None:
            return a if v else b
        return mk("f", ("ite", c.op, c.d, a, b))
    return mk("f", ("zite", ZB(c), a, b))

class ZB:
    """hashable wrapper of a z3 Bool"""
    __slots__ = ("e",)
    def __init__(self, e): self.e = e
    def __hash__(self): return self.e.hash()
    def __eq__(self, o): return type(o) is ZB and self.e.eq(o.e)

def fn(name, *args):
    return mk("f", (name,) + tuple(norm(a) if type(a) is N else a for a in args))

class RB:
    """a comparison of a real term with zero: op in lt le gt ge eq ne"""
    __slots__ = ("op", "d")
    def __init__(self, op, d):
        d = norm(d)
        self.op = op; self.d = d
    def const(self):
        d = self.d
        if d.k != "c":
            try:
                d = expand(d, 300)
            except TooBig:
                return None
        if d.k != "c":
            return None
        v = nfloat(d.a)
        if niszero(d.a):
            v = 0
        return {"lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0, "eq": v == 0, "ne": v != 0}[self.op]
    def neg(self):
        return RB({"lt": "ge", "le": "gt", "gt": "le", "ge": "lt", "eq": "ne", "ne": "eq"}[self.op], self.d)
    def __hash__(self): return hash((self.op, self.d.id))
    def __eq__(self, o): return type(o) is RB and self.op == o.op and self.d is o.d

def cmp(op, a, b):
    r = RB(op, sub(a, b))
    v = r.const()
    return r if v is None else int(v)

# float evaluation --------------------------------------------------------
class Env:
    """assignment of floats to variables; missing ones are drawn at random"""
    _n = [0]
    def __init__(self, seed=0, lo=-1.0, hi=1.0, vals=None):
        self.rng = random.Random(seed)
        self.vals = dict(vals or {})
        self.lo, self.hi = lo, hi
        self.memo = {}
        self.ints = None
        self.draw = None
    def like(self, model):
        """the same assignment with the values a solver's model gives to input variables"""
        e = Env()
        e.rng, e.draw, e.ints, e.lo, e.hi = self.rng, self.draw, self.ints, self.lo, self.hi
        e.vals = dict(self.vals)
        for d in model.decls():
            nm = d.name()
            if d.arity() or "!" in nm or nm.startswith("cosz(") or nm == "pi" or (nm.startswith("sqrt") and nm[4:].isdigit()): continue
            v = model[d]
            try: e.vals[nm] = float(v.as_fraction()) if hasattr(v, "as_fraction") else float(v.approx(15).as_fraction())
            except Exception: pass
        return e
    def with_vals(self, vals):
        e = Env()
        e.rng, e.draw, e.ints, e.lo, e.hi = self.rng, self.draw, self.ints, self.lo, self.hi
        e.vals = dict(self.vals); e.vals.update(vals)
        return e
    def get(self, name):
        v = self.vals.get(name)
        if v is None:
            v = self.draw(name, self.rng) if self.draw else self.rng.uniform(self.lo, self.hi)
            self.vals[name] = v
        return v
    def ev(self, n):
        memo = self.memo
        r = memo.get(n)
        if r is not None:
            return r
        stack = [n]
        while stack:
            x = stack[-1]
            if x in memo:
                stack.pop()
                continue
            ch = _children(x)
            todo = [y for y in ch if y not in memo]
            if todo:
                stack.extend(todo)
                continue
            memo[x] = self._ev1(x)
            stack.pop()
        return memo[n]
    def _ev1(self, x):
        k = x.k
        m = self.memo
        if k == "c": return nfloat(x.a)
        if k == "v": return self.get(x.a)
        if k == "+": return m[x.a[0]] + m[x.a[1]]
        if k == "S": return math.fsum(m[t] * nfloat(c) for t, c in x.a)
        if k == "M":
            p = 1.0
            for f, e in x.a:
                v = m[f]
                if e < 0 and v == 0:
                    return math.nan
                try:
                    p *= v ** e
                except OverflowError:
                    return math.inf
            return p
        a = x.a
        o = a[0]
        if o == "cos":
            return math.cos(m[a[1]]) if math.isfinite(m[a[1]]) else math.nan
        if o == "sin":
            return math.sin(m[a[1]]) if math.isfinite(m[a[1]]) else math.nan
        if o == "sqrt":
            v = m[a[1]]
            return math.sqrt(v) if v >= 0 else math.nan
        if o == "abs": return abs(m[a[1]])
        if o == "ite":
            v = m[a[2]]
            t = {"lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0, "eq": v == 0, "ne": v != 0}[a[1]]
            return m[a[3]] if t else m[a[4]]
        if o == "div0": return math.nan
        if o == "special": return float(a[1])
        if o == "i2r": return float(self.int(a[1].e, a[2]))
        if o == "zite":
            return m[a[2]] if self.bool(a[1].e) else m[a[3]]
        f = _UF.get(o)
        if f is not None:
            try:
                return f(*[m[t] for t in a[1:] if type(t) is N])
            except (ValueError, OverflowError, ZeroDivisionError):
                return math.nan
        return math.nan
    def int(self, e, signed=True):
        import z3
        if self.ints is None:
            return 0
        v = self.ints.eval(e, model_completion=True)
        return v.as_signed_long() if signed else v.as_long()
    def bool(self, e):
        import z3
        if self.ints is None:
            return False
        return z3.is_true(self.ints.eval(e, model_completion=True))

import numpy as _np
_UF = {"exp": math.exp, "log": math.log, "tan": math.tan, "atan2": math.atan2, "pow": math.pow,
       "fmod": math.fmod, "floor": math.floor, "ceil": math.ceil, "round": lambda x: float(_np.round(x)),
       "f32": lambda x: float(_np.float32(x)), "acos": math.acos, "asin": math.asin, "atan": math.atan,
       "trunc": math.trunc, "cosh": math.cosh, "sinh": math.sinh, "tanh": math.tanh, "hypot": math.hypot,
       "log10": math.log10, "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x),
       "rint": lambda x: float(round(x)), "log2": math.log2, "exp2": lambda x: 2.0 ** x}

def _children(x):
    k = x.k
    if k in ("c", "v"): return ()
    if k == "+": return x.a
    if k == "S": return [t for t, _ in x.a]
    if k == "M": return [f for f, _ in x.a]
    return [t for t in x.a if type(t) is N]

def subst(n, repl):
    """n with the nodes of repl ({node: node}) replaced"""
    memo = dict(repl)
    st = [n]
    while st:
        x = st[-1]
        if x in memo:
            st.pop(); continue
        ch = _children(x)
        todo = [y for y in ch if y not in memo]
        if todo:
            st.extend(todo); continue
        st.pop()
        if all(memo[y] is y for y in ch): memo[x] = x
        elif x.k == "+": memo[x] = add(memo[x.a[0]], memo[x.a[1]])
        elif x.k == "S":
            r = ZERO
            for t, c in x.a: r = add(r, mul(mk("c", c), memo[t]))
            memo[x] = norm(r)
        elif x.k == "M":
            r = ONE
            for f, e in x.a:
                b = memo[f] if e > 0 else inv(memo[f])
                for _ in range(abs(e)): r = mul(r, b)
            memo[x] = norm(r)
        else:
            o, a = x.a[0], x.a[1:]
            if o == "cos": memo[x] = cos(memo[a[0]])
            elif o == "sin": memo[x] = sin(memo[a[0]])
            elif o == "sqrt": memo[x] = sqrt(memo[a[0]])
            elif o == "abs": memo[x] = fabs(memo[a[0]])
            elif o == "ite": memo[x] = ite(RB(a[0], memo[a[1]]), memo[a[2]], memo[a[3]])
            else: memo[x] = mk("f", (o,) + tuple(memo[y] if type(y) is N else y for y in a))
    return norm(memo[n])

def conditions(n, most=40):
    """the nodes of n that are decided by the sign of a term: [(node, term)], inner ones first"""
    seen = set(); out = []; st = [(n, 0)]
    while st:
        x, done = st.pop()
        if done:
            if x.k == "f" and x.a[0] == "abs": out.append((x, x.a[1]))
            elif x.k == "f" and x.a[0] == "ite": out.append((x, x.a[2]))
            if len(out) >= most: break
            continue
        if x.id in seen: continue
        seen.add(x.id); st.append((x, 1))
        for y in _children(x): st.append((y, 0))
    return out

def variables(n, out=None):
    out = set() if out is None else out
    seen = set(); st = [n]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.k == "v": out.add(x.a)
        else: st.extend(_children(x))
    return out

def show(n, depth=4):
    k = n.k
    if k == "c":
        return str(n.a) if type(n.a) is not NumX else "(" + " + ".join(
            "%s%s%s%s" % (v, "" if not q else "*z(%s)" % _exps[q], "" if d == 1 else "*sqrt(%d)" % d, "" if not p else "*pi^%d" % p)
            for (q, d, p), v in n.a.t.items()) + ")"
    if k == "v": return str(n.a)
    if depth == 0: return "..."
    if k == "+": return show(norm(n), depth)
    if k == "S":
        s = " + ".join(("%s*%s" % (show(const(c)), show(m, depth - 1))) if c != 1 else show(m, depth - 1) for m, c in n.a[:8])
        return "(" + s + (" + ...%d" % len(n.a) if len(n.a) > 8 else "") + ")"
    if k == "M":
        return "*".join(show(f, depth - 1) + ("" if e == 1 else "^%d" % e) for f, e in n.a)
    return "%s(%s)" % (n.a[0], ", ".join(show(t, depth - 1) if type(t) is N else str(t) for t in n.a[1:]))

PI = const(_norm({(0, 1, 1): F1}))
