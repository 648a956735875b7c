"""Independent statements of what the library should compute, over exact real terms."""
from fractions import Fraction as F
from engine import rterm as R
from engine.rterm import N, lift, add, sub, mul, div, ZERO, ONE

def pi_times(q): return mul(lift(F(q)), R.PI)

def out_modes(mboz, nboz, nfp):
    return [(m, n * nfp) for m in range(mboz) for n in range(0 if m == 0 else -nboz, nboz + 1)]

def total(l):
    r = ZERO
    for x in l: r = add(r, x)
    return R.norm(r)

class Surface:
    """one flux surface of the definition: every quantity on the full (theta, zeta) grid"""
    def __init__(self, eq, D, js, mboz, nboz, ntheta=None, nzeta=None):
        self.eq, self.D, self.js = eq, D, js
        self.ntheta = 2 * (2 * mboz + 1); self.nzeta = 1 if nboz == 0 else 2 * (2 * nboz + 1)
        self.mboz, self.nboz = mboz, nboz
        self.asym = eq.asym
        i00 = [i for i, (m, n) in enumerate(eq.nyq) if m == 0 and n == 0]
        self.I = total([D["bsubumnc"](i, js) for i in i00])
        self.G = total([D["bsubvmnc"](i, js) for i in i00])
        self.iota = D["iota"][js]
        self.w = self.potential()
        self.pts = []
    def potential(self):
        """amplitudes of w: [(m, n, sin amplitude, cos amplitude)]"""
        D, js = self.D, self.js
        out = []
        for i, (m, n) in enumerate(self.eq.nyq):
            if m == 0 and n == 0: continue
            if m:
                s = div(D["bsubumnc"](i, js), lift(m)); c = div(D["bsubumns"](i, js), lift(-m)) if self.asym else None
            else:
                s = div(D["bsubvmnc"](i, js), lift(-n)); c = div(D["bsubvmns"](i, js), lift(n)) if self.asym else None
            out.append((m, n, s, c))
        return out
    def point(self, jt, jz):
        eq, D, js, nfp = self.eq, self.D, self.js, self.eq.nfp
        qt = F(2 * jt, self.ntheta); qz = F(2 * jz, nfp * self.nzeta)   # theta, zeta in units of pi
        def cs(m, n):
            q = m * qt - n * qz
            return R.const(R.cospi(q)), R.const(R.sinpi(q))
        r = z = lam = lt = lz = w = wt = wz = b = ZERO
        for i, (m, n) in enumerate(eq.modes):
            c, s = cs(m, n)
            r = add(r, mul(c, D["rmnc"](i, js))); z = add(z, mul(s, D["zmns"](i, js)))
            l = D["lmns"](i, js)
            lam = add(lam, mul(s, l)); lt = add(lt, mul(mul(c, lift(m)), l)); lz = sub(lz, mul(mul(c, lift(n)), l))
            if self.asym:
                r = add(r, mul(s, D["rmns"](i, js))); z = add(z, mul(c, D["zmnc"](i, js)))
                l = D["lmnc"](i, js)
                lam = add(lam, mul(c, l)); lt = sub(lt, mul(mul(s, lift(m)), l)); lz = add(lz, mul(mul(s, lift(n)), l))
        for i, (m, n) in enumerate(eq.nyq):
            c, s = cs(m, n)
            b = add(b, mul(c, D["bmnc"](i, js)))
            if self.asym: b = add(b, mul(s, D["bmns"](i, js)))
        for m, n, ws, wc in self.w:
            c, s = cs(m, n)
            w = add(w, mul(s, ws)); wt = add(wt, mul(mul(c, lift(m)), ws)); wz = sub(wz, mul(mul(c, lift(n)), ws))
            if self.asym:
                w = add(w, mul(c, wc)); wt = sub(wt, mul(mul(s, lift(m)), wc)); wz = add(wz, mul(mul(s, lift(n)), wc))
        p = type("P", (), {})()
        D_ = add(self.G, mul(self.iota, self.I))
        oD = R.inv(D_)
        p.r, p.z, p.b, p.lam = R.norm(r), R.norm(z), R.norm(b), R.norm(lam)
        p.nu = mul(oD, sub(w, mul(self.I, lam)))
        nut = mul(oD, sub(wt, mul(self.I, lt))); nuz = mul(oD, sub(wz, mul(self.I, lz)))
        p.dth = R.norm(add(lam, mul(self.iota, p.nu)))                 # theta_B - theta
        p.thB = add(pi_times(qt), p.dth); p.zeB = add(pi_times(qz), p.nu)
        p.J = R.norm(add(mul(add(ONE, lt), add(ONE, nuz)), mul(sub(self.iota, lz), nut)))
        p.g = div(D_, mul(p.b, p.b))
        return p
    def grid(self):
        if not self.pts:
            for jt in range(self.ntheta):
                for jz in range(self.nzeta): self.pts.append(self.point(jt, jz))
        return self.pts
    def register(self, mmax):
        """announce theta_B and zeta_B of every grid point as the trigonometric bases"""
        for p in self.grid():
            R.add_hint_group([p.dth, mul(lift(self.eq.nfp), p.nu)], mmax)
    def trig(self, p, m, n):
        """cos and sin of m theta_B - n zeta_B"""
        c = getattr(p, "tc", None)
        if c is None: c = p.tc = {}
        def one(k, x, q):
            if k not in c: c[k] = R.cossin(q)
            return c[k]
        if (m, n) not in c:
            a, b = one(("m", m), m, mul(lift(m), p.thB)), one(("n", n), n, mul(lift(n), p.zeB))
            c[(m, n)] = add(mul(a[0], b[0]), mul(a[1], b[1])), sub(mul(a[1], b[0]), mul(a[0], b[1]))
        return c[(m, n)]
    def spectra(self, modes=None):
        """{field: [amplitude per output mode]}"""
        pts = self.grid()
        out = {f: [] for f in ("bmnc_b", "rmnc_b", "zmns_b", "numns_b", "gmnc_b")}
        if self.asym: out.update({f: [] for f in ("bmns_b", "rmns_b", "zmnc_b", "numnc_b", "gmns_b")})
        for k, (m, n) in enumerate(modes or out_modes(self.mboz, self.nboz, self.eq.nfp)):
            fac = F(1 if (m == 0 and n == 0) else 2, self.ntheta * self.nzeta)
            acc = {f: ZERO for f in out}
            for p in pts:
                c, s = self.trig(p, m, n)
                jc = mul(mul(c, p.J), lift(fac)); js_ = mul(mul(s, p.J), lift(fac))
                for f in out:
                    v = {"b": p.b, "r": p.r, "z": p.z, "n": p.nu, "g": p.g}[f[0]]
                    acc[f] = add(acc[f], mul(jc if f[-3] == "c" else js_, v))
            for f in out: out[f].append(acc[f])
        return out
