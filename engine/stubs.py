"""Models of the external functions: C and C++ runtime, streams, OpenMP runtime, netCDF library."""
import threading, z3
from . import rterm as R
from .rterm import N
from .llvmir import UNDEF, Unsupported, OBJ, mask
from . import exec as X
from .exec import PathEnd, CxxThrow, fcos, fsin, fsqrt, ffabs, fuf

OM = (1 << OBJ) - 1
EXT = {}
EXTGLOBALS = {}

def ext(*names):
    def deco(f):
        for n in names: EXT[n] = f
        return f
    return deco

def gl(*names):
    def deco(f):
        for n in names: EXTGLOBALS[n] = f
        return f
    return deco

def conc(S, v, w=64, why=""):
    return v if type(v) is int else S.concretize(v, w, why)

def s32(v):
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v

def setup(S):
    S.extra = {}
    S.strm = {}              # ios address -> stream
    S.places = []
    S.mock = None
    S.files = {}             # control files: name -> items
    S.nc = {}                # netcdf: path -> NCFile
    S.nch = {}               # open handles
    S.ncfault = None         # hook(S, op, detail) -> int error code (0 = success)
    S.nclog = []
    S.omp_T = 1
    S.omp_order = None
    S.omp_blocks = None
    S.omp_max = 4
    S.team = None
    S.hold = ()
    S.msgs = {}
    S.omp_hook = None
    run_ctors(S)

def run_ctors(S):
    mod = S.mod
    g = mod.gvs.get("llvm.global_ctors")
    if g is None: return
    cells = mod.init_cells(g)
    fns = {}
    for off, size, v in cells:
        if size == 8 and off % 24 == 8 and v: fns[off] = v
    for off in sorted(fns):
        S.icall(fns[off], ())
    S.steps = 0

# ------------------------------------------------------------------ C
@ext("malloc")
def _(S, n):
    n = conc(S, n, 64, "malloc size")
    if n > 1 << 33: return 0
    return S.new(n, "heap")
@ext("calloc")
def _(S, a, b):
    n = conc(S, a) * conc(S, b)
    p = S.new(n, "heap")
    S.objs[p >> OBJ].setfill(0, n, 0)
    return p
@ext("realloc")
def _(S, p, n):
    n = conc(S, n, 64, "realloc size")
    if n > 1 << 33: return 0
    q = S.new(n, "heap")
    p = conc(S, p)
    if p:
        o = S.objs[p >> OBJ]
        S.memcpy(q, p, min(n, o.size))
        free(S, p)
    return q
@ext("posix_memalign")
def _(S, pp, al, n):
    S.store(pp, 8, S.new(conc(S, n), "heap")); return 0
@ext("aligned_alloc")
def _(S, al, n): return S.new(conc(S, n), "heap")
def free(S, p, *a):
    if p is UNDEF: raise PathEnd("uninit", "release of an uninitialised pointer")
    p = conc(S, p)
    if p == 0: return
    o = S.objs.get(p >> OBJ)
    if o is None or p & OM or o.kind not in ("heap", "exc"): raise PathEnd("mem", "release of an invalid pointer")
    if not o.alive: raise PathEnd("mem", "double release")
    if S.log is not None: S.log(1, p, o.size)
    o.alive = False
    o.cells = {}; o.szs = None; o.u = 0; o.fill = None
for _n in ("free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"): EXT[_n] = free
@ext("_Znwm", "_Znam")
def _(S, n):
    n = conc(S, n, 64, "new size")
    if n > 1 << 33: throw(S, "_ZTISt9bad_alloc")
    return S.new(n, "heap")
@ext("_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t")
def _(S, n, al): return S.new(conc(S, n), "heap")
@ext("strlen")
def _(S, p): return len(S.cstr(p))
@ext("strcmp")
def _(S, a, b):
    a, b = S.cstr(a), S.cstr(b)
    return 0 if a == b else (mask(32) if a < b else 1)
@ext("memcmp", "bcmp")
def _(S, a, b, n):
    n = conc(S, n)
    x, y = S.bytes_at(a, n), S.bytes_at(b, n)
    return 0 if x == y else (mask(32) if x < y else 1)
@ext("memcpy", "memmove")
def _(S, d, s, n):
    S.memcpy(d, s, n); return d
@ext("memset")
def _(S, d, v, n):
    S.memset(d, v & 255 if type(v) is int else S.trunc(v, 32, 8), n); return d
@ext("abs", "labs")
def _(S, a): return S.iabs(a, 32)
EXT["cos"], EXT["sin"], EXT["sqrt"], EXT["fabs"] = (lambda S, a: fcos(a)), (lambda S, a: fsin(a)), (lambda S, a: fsqrt(a)), (lambda S, a: ffabs(a))
for _n in ("exp", "log", "pow", "floor", "ceil", "trunc", "round", "rint", "atan2", "tan", "fmod", "hypot", "atan", "acos", "asin",
           "cosh", "sinh", "tanh", "log10", "cbrt", "log2", "exp2", "fmax", "fmin"):
    EXT[_n] = (lambda f: lambda S, *a: f(*a))(fuf(_n))
@ext("sincos")
def _(S, x, ps, pc):
    S.store(ps, 8, fsin(x)); S.store(pc, 8, fcos(x))
@ext("remainder")
def _(S, a, b): raise Unsupported("remainder")
@ext("strncmp")
def _(S, a, b, n):
    n = conc(S, n); a, b = S.cstr(a)[:n], S.cstr(b)[:n]
    return 0 if a == b else (mask(32) if a < b else 1)
@ext("strcpy")
def _(S, d, s): S.write_bytes(d, S.cstr(s) + "\0"); return d
@ext("strncpy")
def _(S, d, s, n):
    n = conc(S, n); t = S.cstr(s)[:n]
    S.write_bytes(d, t + "\0" * (n - len(t))); return d
@ext("strcat")
def _(S, d, s): S.write_bytes(d + len(S.cstr(d)), S.cstr(s) + "\0"); return d
@ext("strchr", "strrchr")
def _(S, p, c): raise Unsupported("strchr")
EXT["strchr"] = lambda S, p, c: (lambda k: p + k if k >= 0 else 0)((S.cstr(p) + "\0").find(chr(conc(S, c) & 255)))
EXT["strrchr"] = lambda S, p, c: (lambda k: p + k if k >= 0 else 0)((S.cstr(p) + "\0").rfind(chr(conc(S, c) & 255)))
EXT["memchr"] = lambda S, p, c, n: (lambda k: p + k if k >= 0 else 0)(S.bytes_at(p, conc(S, n)).find(chr(conc(S, c) & 255)))
EXT["strstr"] = lambda S, p, q: (lambda k: p + k if k >= 0 else 0)(S.cstr(p).find(S.cstr(q)))
for _n, _f in (("isspace", str.isspace), ("isdigit", str.isdigit), ("isalpha", str.isalpha), ("isalnum", str.isalnum), ("isupper", str.isupper), ("islower", str.islower)):
    EXT[_n] = (lambda f: lambda S, c: int(f(chr(conc(S, c) & 255))))(_f)
EXT["toupper"] = lambda S, c: ord(chr(conc(S, c) & 127).upper())
EXT["tolower"] = lambda S, c: ord(chr(conc(S, c) & 127).lower())
def _errno(S):
    p = S.extra.get("errno")
    if p is None:
        p = S.new(4, "global"); S.store(p, 4, 0); S.extra["errno"] = p
    return p
EXT["__errno_location"] = _errno
EXT["time"] = EXT["clock"] = lambda S, *a: 0
for _n in ("_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv"): EXT[_n] = lambda S: 0
EXT["fflush"] = lambda S, f: 0
def cformat(S, fmt, args):
    import re
    args = list(args)
    out = ""
    i = 0
    for m in re.finditer(r"%([-+ 0#]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t)?([diuxXcsfeEgG%])", fmt):
        if "%" in fmt[i:m.start()]: raise Unsupported("format " + fmt)
        out += fmt[i:m.start()]; i = m.end()
        fl, wd, pr, ln, cv = m.groups()
        if cv == "%": out += "%"; continue
        if wd == "*": wd = str(s32(conc(S, args.pop(0), 32)))
        if pr == "*": pr = str(s32(conc(S, args.pop(0), 32)))
        v = args.pop(0)
        spec = "%" + fl + (wd or "") + ("." + pr if pr is not None else "")
        if cv in "diuxX":
            w = 64 if ln in ("l", "ll", "z", "j", "t") else 32
            v = conc(S, v, w, "printed value") & mask(w)
            if cv in "di": v = S._sg(v, w)
            out += (spec + cv) % v
        elif cv == "c": out += spec % 0 if False else ("%" + fl + (wd or "") + "c") % chr(conc(S, v) & 255)
        elif cv == "s":
            out += (spec + "s") % S.cstr(v)
        else:
            S.places.append(v)
            out += "\x01%d\x02" % (len(S.places) - 1)
    if "%" in fmt[i:]: raise Unsupported("format " + fmt)
    return out + fmt[i:]
@ext("snprintf")
def _(S, p, n, fmt, *a):
    t = cformat(S, S.cstr(fmt), a); n = conc(S, n)
    if n: S.write_bytes(p, t[:n - 1] + "\0")
    return len(t)
@ext("sprintf")
def _(S, p, fmt, *a):
    t = cformat(S, S.cstr(fmt), a)
    S.write_bytes(p, t + "\0")
    return len(t)

# red-black trees (std::set, std::map): nodes are (colour 0, parent 8, left 16, right 24); order is all that can be observed, so
# the tree is left unbalanced
def _ld(S, p): return conc(S, S.load(p, 8, "p"))
@ext("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_")
def _(S, left, x, p, h):
    left = conc(S, left) & 1
    S.store(x, 4, 1); S.store(x + 8, 8, p); S.store(x + 16, 8, 0); S.store(x + 24, 8, 0)
    if left:
        S.store(p + 16, 8, x)
        if p == h:
            S.store(h + 8, 8, x); S.store(h + 24, 8, x)
        elif p == _ld(S, h + 16): S.store(h + 16, 8, x)
    else:
        S.store(p + 24, 8, x)
        if p == _ld(S, h + 24): S.store(h + 24, 8, x)
def _rb_inc(S, x):
    r = _ld(S, x + 24)
    if r:
        x = r
        while _ld(S, x + 16): x = _ld(S, x + 16)
        return x
    y = _ld(S, x + 8)
    while x == _ld(S, y + 24): x, y = y, _ld(S, y + 8)
    return y if _ld(S, x + 24) != y else x
def _rb_dec(S, x):
    if conc(S, S.load(x, 4, "i")) == 0 and _ld(S, _ld(S, x + 8) + 8) == x: return _ld(S, x + 24)
    l = _ld(S, x + 16)
    if l:
        x = l
        while _ld(S, x + 24): x = _ld(S, x + 24)
        return x
    y = _ld(S, x + 8)
    while x == _ld(S, y + 16): x, y = y, _ld(S, y + 8)
    return y
for _q in ("PS_", "PKS_"):
    EXT["_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base"] = EXT["_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base"] = _rb_inc
    EXT["_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base"] = EXT["_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base"] = _rb_dec
@ext("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_")
def _(S, z, h):
    l, r, p = _ld(S, z + 16), _ld(S, z + 24), _ld(S, z + 8)
    if _ld(S, h + 16) == z: S.store(h + 16, 8, _rb_inc(S, z))
    if _ld(S, h + 24) == z: S.store(h + 24, 8, _rb_dec(S, z))
    def put(old, new):            # new takes the place of old below its parent
        q = _ld(S, old + 8)
        if _ld(S, h + 8) == old: S.store(h + 8, 8, new)
        elif _ld(S, q + 16) == old: S.store(q + 16, 8, new)
        else: S.store(q + 24, 8, new)
        if new: S.store(new + 8, 8, q)
    if l and r:
        y = r
        while _ld(S, y + 16): y = _ld(S, y + 16)
        if y != r:
            put(y, _ld(S, y + 24))
            S.store(y + 24, 8, r); S.store(r + 8, 8, y)
        put(z, y)
        S.store(y + 16, 8, l); S.store(l + 8, 8, y)
    else: put(z, l or r)
    if not _ld(S, h + 8):
        S.store(h + 16, 8, h); S.store(h + 24, 8, h)
    return z
# linked lists: (next 0, prev 8)
@ext("_ZNSt8__detail15_List_node_base7_M_hookEPS0_")
def _(S, x, pos):
    q = _ld(S, pos + 8)
    S.store(x, 8, pos); S.store(x + 8, 8, q); S.store(q, 8, x); S.store(pos + 8, 8, x)
@ext("_ZNSt8__detail15_List_node_base9_M_unhookEv")
def _(S, x):
    n, q = _ld(S, x), _ld(S, x + 8)
    S.store(q, 8, n); S.store(n + 8, 8, q)
# hash tables: the policy of the real library (growth does not change the contents; iteration order of an unordered container is unspecified)
@ext("_ZSt11_Hash_bytesPKvmm")
def _(S, p, n, seed):
    import zlib
    return zlib.crc32(S.bytes_at(p, conc(S, n)).encode("latin1")) | 1
_PR = (2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753)
def _nextp(n): return next((q for q in _PR if q >= n), 42043)
@ext("_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm")
def _(S, this, n):
    b = _nextp(conc(S, n)); S.store(this + 8, 8, b); return b
@ext("_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm")
def _(S, this, nb, ne, ni):
    nb, ne, ni = conc(S, nb), conc(S, ne), conc(S, ni)
    if ne + ni > conc(S, S.load(this + 8, 8, "i")) or nb <= 1 and ne + ni > nb:
        want = max(ne + ni, 11, 2 * nb)
        if want > nb:
            b = _nextp(want); S.store(this + 8, 8, b)
            return [1, b]
    return [0, 0]
@ext("__assert_fail")
def _(S, e, f, l, fn):
    raise PathEnd("assert", "assertion failed: " + S.cstr(e))
@ext("abort", "_ZSt9terminatev", "__cxa_pure_virtual", "_ZSt21__glibcxx_assert_failPKciS0_S0_")
def _(S, *a): raise PathEnd("abort", "the program is terminated")
@ext("exit", "_exit")
def _(S, c): raise PathEnd("exit", "exit(%s)" % c)
@ext("__cxa_atexit", "__cxa_thread_atexit", "__cxa_guard_release", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "atexit")
def _(S, *a): return 0
@ext("__cxa_guard_acquire")
def _(S, p):
    if conc(S, S.load(p, 1, "i"), 8): return 0
    S.store(p, 1, 1)
    return 1
@ext("getenv")
def _(S, p): return 0

# ------------------------------------------------------------------ exceptions
BASES = {"_ZTISt13runtime_error": ["_ZTISt9exception"], "_ZTISt11logic_error": ["_ZTISt9exception"],
         "_ZTISt9bad_alloc": ["_ZTISt9exception"], "_ZTISt12length_error": ["_ZTISt11logic_error"],
         "_ZTISt12out_of_range": ["_ZTISt11logic_error"], "_ZTISt16invalid_argument": ["_ZTISt11logic_error"],
         "_ZTISt12domain_error": ["_ZTISt11logic_error"], "_ZTISt11range_error": ["_ZTISt13runtime_error"],
         "_ZTISt14overflow_error": ["_ZTISt13runtime_error"], "_ZTISt15underflow_error": ["_ZTISt13runtime_error"],
         "_ZTISt20bad_array_new_length": ["_ZTISt9bad_alloc"], "_ZTISt8bad_cast": ["_ZTISt9exception"],
         "_ZTINSt8ios_base7failureB5cxx11E": ["_ZTISt13runtime_error"]}
def tiname(S, ti):
    if type(ti) is str: return ti
    g = S.mod.gv_by_id.get(ti >> OBJ)
    return g.name if g else ""
def supers(S, nm):
    out = [nm]
    st = [nm]
    while st:
        n = st.pop()
        bs = BASES.get(n)
        if bs is None:
            bs = []
            g = S.mod.gvs.get(n)
            if g is not None and not g.decl:
                for off, size, v in S.mod.init_cells(g):
                    if off >= 16 and size == 8 and type(v) is int and v >> OBJ in S.mod.gv_by_id:
                        b = S.mod.gv_by_id[v >> OBJ].name
                        if b.startswith("_ZTI"): bs.append(b)
        for b in bs:
            if b not in out: out.append(b); st.append(b)
    return out
def catches(S, ti, thrown):
    return tiname(S, ti) in supers(S, tiname(S, thrown))
def throw(S, name, msg=""):
    p = S.new(16, "exc")
    S.store(p, 8, exc_vptr(S)); S.store(p + 8, 8, 0)
    S.msgs[p] = msg
    raise CxxThrow(p, name)
def exc_vptr(S):
    v = S.extra.get("excvt")
    if v is None:
        p = S.new(64, "vtable")
        for i in range(5):
            fp = S.new(1, "fn")
            if i == 4:
                def what(S, this):
                    m = S.msgs.get(this, "")
                    q = S.new(len(m) + 1, "heap")
                    S.write_bytes(q, m + "\0")
                    return q
                S.extra[("fp", fp)] = what
            else:
                S.extra[("fp", fp)] = lambda S, this: 0
            S.store(p + 8 * i, 8, fp)
        v = p + 16
        S.extra["excvt"] = v
    return v
@ext("__cxa_allocate_exception")
def _(S, n): return S.new(max(conc(S, n), 16), "exc")
@ext("__cxa_free_exception")
def _(S, p): return None
@ext("__cxa_throw")
def _(S, p, ti, d):
    raise CxxThrow(p, ti, d)
@ext("__cxa_rethrow")
def _(S):
    raise S.caught[-1]
@ext("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE")
def _(S, *a): raise Unsupported("rethrow_exception")
@ext("__cxa_begin_catch", "__cxa_get_exception_ptr")
def _(S, p): return p
def _bc(S, p):
    S.caught.append(S.exc); return p
EXT["__cxa_begin_catch"] = _bc
@ext("__cxa_end_catch")
def _(S):
    if S.caught: S.caught.pop()
def _rec(S, this, src):
    S.store(this, 8, exc_vptr(S)); S.store(this + 8, 8, 0)
    S.msgs[this] = src
for _c in ("C1", "C2"):
    for _k in ("St13runtime_error", "St11logic_error", "St16invalid_argument", "St12out_of_range", "St12length_error", "St12domain_error", "St11range_error"):
        EXT["_ZN%s%sEPKc" % (_k, _c)] = lambda S, t, p: _rec(S, t, S.cstr(p))
        EXT["_ZN%s%sERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE" % (_k, _c)] = lambda S, t, p: _rec(S, t, sget(S, p))
        EXT["_ZN%s%sERKS_" % (_k, _c)] = lambda S, t, p: _rec(S, t, S.msgs.get(p, ""))
        EXT["_ZN%s%sEOS_" % (_k, _c)] = lambda S, t, p: _rec(S, t, S.msgs.get(p, ""))
for _k in ("St13runtime_error", "St11logic_error", "St16invalid_argument", "St12out_of_range", "St9bad_alloc", "St9exception", "St12length_error", "St12domain_error", "St11range_error", "St20bad_array_new_length"):
    for _d in ("D0", "D1", "D2"): EXT["_ZN%s%sEv" % (_k, _d)] = lambda S, t: None
    EXT["_ZNK%s4whatEv" % _k] = lambda S, t: S.extra[("fp", S.load(exc_vptr(S) + 16, 8, "p"))](S, t)
EXT["_ZNKSt13runtime_error4whatEv"] = EXT["_ZNKSt9exception4whatEv"]
for _n, _t in (("bad_cast", "_ZTISt8bad_cast"), ("length_error", "_ZTISt12length_error"), ("bad_alloc", "_ZTISt9bad_alloc"), ("logic_error", "_ZTISt11logic_error"),
               ("bad_array_new_length", "_ZTISt20bad_array_new_length"), ("out_of_range", "_ZTISt12out_of_range"), ("out_of_range_fmt", "_ZTISt12out_of_range"),
               ("invalid_argument", "_ZTISt16invalid_argument")):
    for _sfx in ("v", "PKc", "PKcz"):
        EXT["_ZSt%d__throw_%s%s" % (len("__throw_" + _n), _n, _sfx)] = (lambda t: lambda S, *a: throw(S, t))(_t)

# ------------------------------------------------------------------ std::string
SS = "NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"
def sget(S, p):
    d = S.load(p, 8, "p"); n = S.load(p + 8, 8, "i")
    if d is UNDEF or n is UNDEF: raise PathEnd("uninit", "uninitialised string")
    return S.bytes_at(conc(S, d), conc(S, n))
def sinit(S, p, t):
    S.store(p, 8, p + 16)
    S.store(p + 8, 8, 0)
    S.store(p + 16, 1, 0)
    sset(S, p, t)
def sset(S, p, t):
    d = S.load(p, 8, "p")
    cap = 15 if d == p + 16 else conc(S, S.load(p + 16, 8, "i"))
    if len(t) > cap:
        nc = max(len(t), 2 * cap)
        nd = S.new(nc + 1, "heap")
        if d != p + 16: free(S, d)
        d = nd
        S.store(p, 8, d); S.store(p + 16, 8, nc)
    S.write_bytes(d, t + "\0")
    S.store(p + 8, 8, len(t))
def sm(name, const=False):
    def deco(f):
        EXT["_ZN" + ("K" if const else "") + SS[1:] + name] = f
        return f
    return deco
@sm("9_M_createERmm")
def _(S, p, pc, old):
    c = conc(S, S.load(pc, 8, "i"), 64, "string size"); old = conc(S, old)
    if c > 1 << 40: throw(S, "_ZTISt12length_error")
    if c > old and c < 2 * old:
        c = 2 * old
        S.store(pc, 8, c)
    return S.new(c + 1, "heap")
@sm("9_M_appendEPKcm")
def _(S, p, s, n):
    sset(S, p, sget(S, p) + S.bytes_at(s, conc(S, n))); return p
@sm("10_M_replaceEmmPKcm")
def _(S, p, pos, l1, s, l2):
    t = sget(S, p); pos, l1 = conc(S, pos), conc(S, l1)
    sset(S, p, t[:pos] + S.bytes_at(s, conc(S, l2)) + t[pos + l1:]); return p
@sm("14_M_replace_auxEmmmc")
def _(S, p, pos, n1, n2, c):
    t = sget(S, p); pos, n1 = conc(S, pos), conc(S, n1)
    sset(S, p, t[:pos] + chr(conc(S, c) & 255) * conc(S, n2) + t[pos + n1:]); return p
@sm("9_M_assignERKS4_")
def _(S, p, q): sset(S, p, sget(S, q))
@sm("9_M_mutateEmmPKcm")
def _(S, p, pos, l1, s, l2):
    t = sget(S, p); pos, l1, l2 = conc(S, pos), conc(S, l1), conc(S, l2)
    new = S.bytes_at(s, l2) if conc(S, s) else "\0" * l2
    r = t[:pos] + new + t[pos + l1:]
    d = S.load(p, 8, "p")
    cap = 15 if d == p + 16 else conc(S, S.load(p + 16, 8, "i"))
    nc = max(len(r), min(2 * cap, 1 << 30))
    nd = S.new(nc + 1, "heap")
    S.write_bytes(nd, r + "\0")
    if d != p + 16: free(S, d)
    S.store(p, 8, nd); S.store(p + 16, 8, nc)
@sm("7reserveEm")
def _(S, p, n):
    n = conc(S, n)
    d = S.load(p, 8, "p")
    cap = 15 if d == p + 16 else conc(S, S.load(p + 16, 8, "i"))
    if n > cap:
        t = sget(S, p)
        nd = S.new(n + 1, "heap")
        S.write_bytes(nd, t + "\0")
        if d != p + 16: free(S, d)
        S.store(p, 8, nd); S.store(p + 16, 8, n)
def _dispose(S, p):
    d = S.load(p, 8, "p")
    if d != p + 16: free(S, d)
for _n in ("D1Ev", "D2Ev", "10_M_disposeEv"): sm(_n)(_dispose)
for _n in ("C1EPKcRKS3_", "C2EPKcRKS3_", "C2IS3_EEPKcRKS3_", "C1IS3_EEPKcRKS3_"): sm(_n)(lambda S, p, s, a: sinit(S, p, S.cstr(s)))
for _n in ("C1ERKS4_", "C2ERKS4_"): sm(_n)(lambda S, p, q: sinit(S, p, sget(S, q)))
for _n in ("C1EOS4_", "C2EOS4_"): sm(_n)(lambda S, p, q: (sinit(S, p, sget(S, q)), sset(S, q, ""))[0])
for _n in ("C1Ev", "C2Ev"): sm(_n)(lambda S, p: sinit(S, p, ""))
for _n in ("C1EmcRKS3_", "C2EmcRKS3_"): sm(_n)(lambda S, p, n, c, a: sinit(S, p, chr(conc(S, c)) * conc(S, n)))
for _n in ("aSERKS4_", "6assignERKS4_"): sm(_n)(lambda S, p, q: (sset(S, p, sget(S, q)), p)[1])
for _n in ("aSEOS4_",): sm(_n)(lambda S, p, q: (sset(S, p, sget(S, q)), sset(S, q, ""), p)[2])
for _n in ("aSEPKc", "6assignEPKc"): sm(_n)(lambda S, p, q: (sset(S, p, S.cstr(q)), p)[1])
for _n in ("6appendEPKc", "pLEPKc"): sm(_n)(lambda S, p, q: (sset(S, p, sget(S, p) + S.cstr(q)), p)[1])
sm("6appendEPKcm")(lambda S, p, q, n: (sset(S, p, sget(S, p) + S.bytes_at(q, conc(S, n))), p)[1])
for _n in ("6appendERKS4_", "pLERKS4_"): sm(_n)(lambda S, p, q: (sset(S, p, sget(S, p) + sget(S, q)), p)[1])
for _n in ("9push_backEc", "pLEc"): sm(_n)(lambda S, p, c: (sset(S, p, sget(S, p) + chr(conc(S, c) & 255)), p)[1])
sm("6insertEmPKc")(lambda S, p, pos, q: (sset(S, p, sget(S, p)[:conc(S, pos)] + S.cstr(q) + sget(S, p)[conc(S, pos):]), p)[1])
sm("7compareEPKc", True)(lambda S, p, q: (lambda a, b: 0 if a == b else (mask(32) if a < b else 1))(sget(S, p), S.cstr(q)))
sm("7compareERKS4_", True)(lambda S, p, q: (lambda a, b: 0 if a == b else (mask(32) if a < b else 1))(sget(S, p), sget(S, q)))
sm("4findEPKcmm", True)(lambda S, p, q, pos, n: sget(S, p).find(S.bytes_at(q, conc(S, n)), conc(S, pos)) & mask(64))
sm("4findEcm", True)(lambda S, p, c, pos: sget(S, p).find(chr(conc(S, c)), conc(S, pos)) & mask(64))

# ------------------------------------------------------------------ streams
class Strm:
    def __init__(self, kind, base=0):
        self.kind, self.base = kind, base
        self.text = ""
        self.pos = 0
        self.items = None
        self.open = False
def _ctype(S):
    p = S.extra.get("ctype")
    if p is None:
        p = S.new(576, "ctype")
        S.objs[p >> OBJ].setfill(0, 576, 0)
        S.store(p + 56, 1, 1)
        for i in range(256): S.store(p + 57 + i, 1, i)
        S.extra["ctype"] = p
    return p
def _ios(S, a, strm):
    o, off = S.obj(a, 264, True)
    o.setfill(off, off + 264, 0)
    vt = S.extra.get("iosvt")
    if vt is None:
        vt = S.new(64, "vtable"); S.objs[vt >> OBJ].setfill(0, 64, 0)
        S.extra["iosvt"] = vt
    S.store(a, 8, vt + 24)
    S.store(a + 8, 8, 6); S.store(a + 16, 8, 0); S.store(a + 24, 4, 0x1002)
    S.store(a + 32, 4, 0)
    S.store(a + 224, 1, 32); S.store(a + 225, 1, 1)
    S.store(a + 232, 8, 0)
    S.store(a + 240, 8, _ctype(S))
    S.strm[a] = strm
    return strm
def _vptr(S, at, off):
    key = ("vt", off)
    p = S.extra.get(key)
    if p is None:
        p = S.new(64, "vtable")
        S.objs[p >> OBJ].setfill(0, 64, 0)
        S.store(p, 8, off)
        S.extra[key] = p
    S.store(at, 8, p + 24)
def _nolog(f):
    def g(S, *a):
        l = S.log
        S.log = None
        try: return f(S, *a)
        finally: S.log = l
    return g
def _g_stream(kind):
    def h(S, g):
        from .exec import Obj
        o = Obj(272, "global", g.name)
        o.id = g.id
        S.objs[g.id] = o
        a = g.id << OBJ
        l = S.log; S.log = None
        if kind == "in":
            _vptr(S, a, 16); _ios(S, a + 16 if False else a + 8, Strm(kind))
        else:
            _vptr(S, a, 8); _ios(S, a + 8, Strm(kind))
        S.log = l
        return o
    return h
EXTGLOBALS["_ZSt4cout"] = _g_stream("cout")
EXTGLOBALS["_ZSt4cerr"] = _g_stream("cerr")
EXTGLOBALS["_ZSt4clog"] = _g_stream("cerr")
@gl("_ZTTSt14basic_ifstreamIcSt11char_traitsIcEE", "_ZTTNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEE", "_ZTTNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEE", "_ZTTSt14basic_ofstreamIcSt11char_traitsIcEE",
    "_ZTTNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEEE")
def _(S, g):
    # construction vtable table used by inlined destructors: they store these pointers and look up the vbase offset behind them
    from .exec import Obj
    o = Obj(96, "global", g.name)
    vo = 256 if "ifstream" in g.name else 112 if "19basic_ostringstream" in g.name else 248 if "ofstream" in g.name else 120 if "istring" in g.name else 128
    p = S.new(256, "vtable")
    S.objs[p >> OBJ].setfill(0, 256, 0)
    S.store(p, 8, vo)
    for i in range(12): o.put(8 * i, 8, p + 24)
    if "18basic_stringstream" in g.name:
        q = S.new(256, "vtable"); S.objs[q >> OBJ].setfill(0, 256, 0)
        S.store(q, 8, vo - 16)
        for i in (4, 5, 9): o.put(8 * i, 8, q + 24)
    return o

def iosof(S, os):
    vp = S.load(os, 8, "p")
    return os + conc(S, S.load(vp - 24, 8, "i"))
def emit(S, os, kind, val):
    ios = iosof(S, os)
    st = S.strm.get(ios)
    if st is None: raise Unsupported("unknown stream")
    width = S.load(ios + 16, 8, "i")
    if st.kind in ("cout", "cerr"):
        S.out.append((kind, val, width, S.tid, S.hold, st.kind))
    else:
        w = conc(S, width)
        if kind == "int":
            if type(val) is not int: val = S.concretize(val, 64, "printed value")
            t = str(val)
        elif kind == "dbl": 
            # the text holds a place for the value
            S.places.append(val)
            t = "\x01%d\x02" % (len(S.places) - 1)
        else: t = val
        if len(t) < w:
            f = chr(conc(S, S.load(ios + 224, 1, "i")))
            t = t + f * (w - len(t)) if (conc(S, S.load(ios + 24, 4, "i")) & 0xb0) == 0x20 else f * (w - len(t)) + t
        st.text += t
        sync(S, st)
    S.store(ios + 16, 8, 0)
    return os
_emit = _nolog(emit)
def emit(S, os, kind, val):
    # formatted output to a standard stream is synchronised by the library; the format flags it uses are not
    if S.log is not None:
        l = S.log; S.log = None
        ios = iosof(S, os); st = S.strm.get(ios)
        S.log = l
        if st is not None and st.kind in ("cout", "cerr"): l(2, ios + 8, 20)
    return _emit(S, os, kind, val)
def sync(S, st):
    if st.kind != "ss": return
    n = len(st.text)
    b = S.new(n + 1, "sbuf")
    S.write_bytes(b, st.text + "\0")
    q = st.buf
    S.store(q + 8, 8, b if st.rd else 0); S.store(q + 16, 8, b if st.rd else 0); S.store(q + 24, 8, b + n if st.rd else 0)
    S.store(q + 32, 8, b); S.store(q + 40, 8, b + n); S.store(q + 48, 8, b + n)
@ext("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l")
def _(S, os, p, n): return emit(S, os, "str", S.bytes_at(p, conc(S, n)))
@ext("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc")
def _(S, os, p): return emit(S, os, "str", S.cstr(p))
@ext("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE")
def _(S, os, p): return emit(S, os, "str", sget(S, p))
@ext("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c", "_ZNSo3putEc")
def _(S, os, c): return emit(S, os, "str", chr(conc(S, c) & 255))
@ext("_ZNSo5writeEPKcl")
def _(S, os, p, n): return emit(S, os, "str", S.bytes_at(p, conc(S, n)))
def _ins(w, sg):
    def f(S, os, v):
        if type(v) is int: v = S._sg(v, w) if sg else v
        return emit(S, os, "int", v)
    return f
for _n, _w, _sg in (("_ZNSolsEi", 32, 1), ("_ZNSolsEj", 32, 0), ("_ZNSolsEl", 64, 1), ("_ZNSolsEm", 64, 0), ("_ZNSolsEx", 64, 1), ("_ZNSolsEy", 64, 0), ("_ZNSolsEs", 16, 1),
                    ("_ZNSo9_M_insertIlEERSoT_", 64, 1), ("_ZNSo9_M_insertImEERSoT_", 64, 0), ("_ZNSo9_M_insertIxEERSoT_", 64, 1),
                    ("_ZNSo9_M_insertIyEERSoT_", 64, 0), ("_ZNSolsEb", 1, 0), ("_ZNSo9_M_insertIbEERSoT_", 1, 0)):
    EXT[_n] = _ins(_w, _sg)
def _insd(S, os, v):
    if type(v) is int: v = X.bits2d(v)
    return emit(S, os, "dbl", v)
for _n in ("_ZNSo9_M_insertIdEERSoT_", "_ZNSolsEd", "_ZNSolsEf"): EXT[_n] = _insd
@ext("_ZNSo9_M_insertIPKvEERSoT_", "_ZNSolsEPKv")
def _(S, os, v): return emit(S, os, "ptr", v)
@ext("_ZNSo5flushEv", "_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_")
def _(S, os): return os
@ext("_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_")
def _(S, os): return emit(S, os, "str", "\n")
@ext("_ZNSolsEPFRSoS_E")
def _(S, os, f): return S.icall(f, (os,))
@ext("_ZNKSt5ctypeIcE13_M_widen_initEv", "_ZNSt6localeD1Ev", "_ZNSt6localeC1Ev", "_ZNSt6localeC1ERKS_", "_ZNSt8ios_baseD2Ev", "_ZNSt8ios_baseC2Ev",
     "_ZNSt9basic_iosIcSt11char_traitsIcEE4initEPSt15basic_streambufIcS1_E", "_ZNSt15basic_streambufIcSt11char_traitsIcEED2Ev", "_ZNSdD2Ev", "_ZNSoD2Ev", "_ZNSiD2Ev", "fflush", "_ZSt16__throw_bad_castv_")
def _(S, *a): return 0
@ext("_ZNSt9basic_iosIcSt11char_traitsIcEE7copyfmtERKS2_")
def _(S, a, b):
    for o, n in ((8, 8), (16, 8), (24, 4), (224, 1)): S.store(a + o, n, S.load(b + o, n, "i"))
    return a
@ext("_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate")
def _(S, a, st): S.store(a + 32, 4, st)
@ext("_ZNSt9basic_iosIcSt11char_traitsIcEE8setstateESt12_Ios_Iostate")
def _(S, a, st): S.store(a + 32, 4, S.or_(S.load(a + 32, 4, "i"), st, 32))

def _oss(rd, vos, bufoff, iosoff):
    def f(S, p, *a):
        for at, vo in vos: _vptr(S, p + at, vo)
        o, off = S.obj(p + bufoff, 104, True)
        o.setfill(off, off + 104, 0)
        st = _ios(S, p + iosoff, Strm("ss", p))
        st.buf, st.rd = p + bufoff, rd
        sinit(S, p + bufoff + 72, "")
        if a and type(a[0]) is int and a[0] >> OBJ:
            st.text = sget(S, a[0])
            sync(S, st)
            st.items = [st.text]
    return f
for _c in ("C1", "C2"):
    for _s in ("Ev", "ESt13_Ios_Openmode", "ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode"):
        EXT["_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE%s%s" % (_c, _s)] = _oss(False, ((0, 112),), 8, 112)
        EXT["_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE%s%s" % (_c, _s)] = _oss(True, ((0, 128), (16, 112)), 24, 128)
        EXT["_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEE%s%s" % (_c, _s)] = _oss(True, ((0, 120),), 16, 120)
for _k in ("19basic_ostringstream", "18basic_stringstream", "19basic_istringstream"):
    for _d in ("D0", "D1", "D2"): EXT["_ZNSt7__cxx11%sIcSt11char_traitsIcESaIcEE%sEv" % (_k, _d)] = lambda S, *a: None
def _str(off):
    def f(S, ret, p):
        for ios, st in S.strm.items():
            if st.kind == "ss" and st.buf == p + off:
                sinit(S, ret, st.text); return
        raise Unsupported("stringstream str()")
    return f
EXT["_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv"] = _str(8)
EXT["_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv"] = _str(24)
EXT["_ZNKSt7__cxx1115basic_stringbufIcSt11char_traitsIcESaIcEE3strEv"] = _str(0)

# input files
def _ifs(S, p):
    _vptr(S, p, 256)
    o, off = S.obj(p + 8, 248, True)
    o.setfill(off, off + 248, 0)
    st = _ios(S, p + 256, Strm("file", p))
    S.extra[("fb", p + 16)] = st
    return st
def _fopen(S, st, name):
    it = S.files.get(name)
    S.calls.append(("open", name))
    if it is None or st.open: return False
    st.items = list(it); st.open = True; st.pos = 0
    return True
for _c in ("C1", "C2"):
    EXT["_ZNSt14basic_ifstreamIcSt11char_traitsIcEE%sEv" % _c] = lambda S, p, *a: _ifs(S, p) and None
    def _ci(S, p, nm, mode):
        st = _ifs(S, p)
        if not _fopen(S, st, S.cstr(nm)): S.store(p + 256 + 32, 4, 4)
    EXT["_ZNSt14basic_ifstreamIcSt11char_traitsIcEE%sEPKcSt13_Ios_Openmode" % _c] = _ci
    def _cs(S, p, nm, mode):
        st = _ifs(S, p)
        if not _fopen(S, st, sget(S, nm)): S.store(p + 256 + 32, 4, 4)
    EXT["_ZNSt14basic_ifstreamIcSt11char_traitsIcEE%sERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode" % _c] = _cs
for _d in ("D0", "D1", "D2"):
    EXT["_ZNSt14basic_ifstreamIcSt11char_traitsIcEE%sEv" % _d] = lambda S, *a: None
    EXT["_ZNSt13basic_filebufIcSt11char_traitsIcEE%sEv" % _d] = lambda S, *a: None
@ext("_ZNSt13basic_filebufIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode")
def _(S, fb, nm, mode):
    return fb if _fopen(S, S.extra[("fb", fb)], S.cstr(nm)) else 0
def _opn(S, p, nm):
    if not _fopen(S, S.extra[("fb", p + 16)], nm): S.store(p + 256 + 32, 4, 4)
    else: S.store(p + 256 + 32, 4, 0)
EXT["_ZNSt14basic_ifstreamIcSt11char_traitsIcEE4openEPKcSt13_Ios_Openmode"] = lambda S, p, nm, m: _opn(S, p, S.cstr(nm))
EXT["_ZNSt14basic_ifstreamIcSt11char_traitsIcEE4openERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode"] = lambda S, p, nm, m: _opn(S, p, sget(S, nm))
@ext("_ZNSt13basic_filebufIcSt11char_traitsIcEE5closeEv")
def _(S, fb):
    st = S.extra[("fb", fb)]
    r = fb if st.open else 0
    st.open = False
    return r
@ext("_ZNSt14basic_ifstreamIcSt11char_traitsIcEE5closeEv")
def _(S, p):
    S.extra[("fb", p + 16)].open = False
@ext("_ZNKSt12__basic_fileIcE7is_openEv")
def _(S, p):
    for k, st in S.extra.items():
        if type(k) is tuple and k[0] == "fb" and k[1] >> OBJ == p >> OBJ and k[1] <= p < k[1] + 240:
            return int(st.open)
    raise Unsupported("is_open of an unknown file")
@ext("_ZNKSt14basic_ifstreamIcSt11char_traitsIcEE7is_openEv", "_ZNSt14basic_ifstreamIcSt11char_traitsIcEE7is_openEv")
def _(S, p): return int(S.extra[("fb", p + 16)].open)

WS = " \t\n\r\v\f"
def _peek(st):
    """drop white space; current item or None"""
    while st.items:
        it = st.items[0]
        if type(it) is str:
            t = it.lstrip(WS)
            if t == "":
                st.items.pop(0); continue
            st.items[0] = t
        return st.items[0]
    return None
def _ist(S, p):
    ios = iosof(S, p)
    st = S.strm.get(ios)
    if st is None or st.items is None and st.kind != "file": raise Unsupported("input stream")
    return ios, st
def _rdint(w):
    def f(S, p, dst):
        ios, st = _ist(S, p)
        state = conc(S, S.load(ios + 32, 4, "i"))
        if state:
            S.store(ios + 32, 4, state | 4); return p
        fl = conc(S, S.load(ios + 24, 4, "i"))
        base = {0x02: 10, 0x08: 16, 0x40: 8, 0: 0}.get(fl & 0x4a, 10)
        it = (_peek(st) if fl & 0x1000 else st.items[0]) if st.items else None
        if it is None:
            S.store(ios + 32, 4, 6); S.store(dst, w, 0); return p
        if type(it) is tuple:
            v = it[1]
            if base not in (0, 10): raise Unsupported("symbolic integer read in base %d" % base)
            st.items.pop(0)
            if w == 8 and type(v) is not int: v = z3.SignExt(32, v)
            S.store(dst, w, v & mask(8 * w) if type(v) is int else v)
            if not st.items: S.store(ios + 32, 4, 2)
            return p
        i = 1 if it[:1] in "+-" else 0
        j = i; bs = base
        if bs in (0, 16) and it[i:i + 2].lower() == "0x":
            bs, j = 16, i + 2
            i = j
        elif bs == 0: bs = 8 if it[i:i + 1] == "0" else 10
        while j < len(it) and it[j].lower() in "0123456789abcdef"[:bs]: j += 1
        if j == i:
            S.store(ios + 32, 4, 4); S.store(dst, w, 0)
            st.items[0] = it[i:]
            return p
        v = int(it[:j], bs)
        rest = it[j:]
        if rest: st.items[0] = rest
        else: st.items.pop(0)
        state = 2 if not st.items else 0
        lo, hi = -(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1
        if v < lo or v > hi:
            v = lo if v < lo else hi
            state |= 4
        S.store(dst, w, v & mask(8 * w))
        S.store(ios + 32, 4, state)
        return p
    return f
EXT["_ZNSirsERi"] = _rdint(4)
EXT["_ZNSirsERl"] = _rdint(8)
EXT["_ZNSi10_M_extractIlEERSiRT_"] = _rdint(8)
@ext("_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE")
def _(S, p, dst):
    ios, st = _ist(S, p)
    state = conc(S, S.load(ios + 32, 4, "i"))
    if state:
        S.store(ios + 32, 4, state | 4); return p
    it = _peek(st) if st.items else None
    if it is None:
        S.store(ios + 32, 4, 6); return p
    sset(S, dst, "")
    if type(it) is tuple: raise Unsupported("symbolic integer read as text")
    j = 0
    while j < len(it) and it[j] not in WS: j += 1
    sset(S, dst, it[:j])
    rest = it[j:]
    if rest: st.items[0] = rest
    else:
        st.items.pop(0)
        if not st.items: S.store(ios + 32, 4, 2)
    return p
@ext("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE", "_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_")
def _(S, p, dst, delim=10):
    ios, st = _ist(S, p)
    state = conc(S, S.load(ios + 32, 4, "i"))
    if state:
        S.store(ios + 32, 4, state | 4); return p
    out = ""
    while st.items:
        it = st.items[0]
        if type(it) is tuple: raise Unsupported("line with symbolic integers")
        k = it.find(chr(delim))
        if k >= 0:
            out += it[:k]
            st.items[0] = it[k + 1:]
            if not st.items[0]: st.items.pop(0)
            sset(S, dst, out); return p
        out += it
        st.items.pop(0)
    S.store(ios + 32, 4, 2 if out else 6)
    sset(S, dst, out)
    return p
@ext("printf", "puts", "putchar", "fprintf")
def _(S, *a):
    S.out.append(("printf", None, 0, S.tid, S.hold, "cout")); return 0

# ------------------------------------------------------------------ OpenMP runtime
EXT["omp_get_thread_num"] = lambda S: S.team.tid if S.team else 0
EXT["omp_get_num_threads"] = lambda S: S.team.T if S.team else 1
EXT["omp_get_max_threads"] = lambda S: S.omp_max
EXT["omp_get_num_procs"] = lambda S: S.omp_max
EXT["omp_get_thread_limit"] = lambda S: S.omp_max
EXT["omp_in_parallel"] = lambda S: int(S.team is not None)
EXT["omp_get_level"] = lambda S: int(S.team is not None)
EXT["omp_set_num_threads"] = lambda S, n: None
EXT["omp_get_wtime"] = lambda S: R.ZERO
EXT["__kmpc_global_thread_num"] = lambda S, loc: S.team.tid if S.team else 0
for _n in ("__kmpc_flush", "__kmpc_push_num_threads", "__kmpc_push_proc_bind", "__kmpc_for_static_fini", "__kmpc_dispatch_fini_4", "__kmpc_serialized_parallel", "__kmpc_end_serialized_parallel",
           "__kmpc_end_master", "__kmpc_end_masked", "__kmpc_end_single", "__kmpc_ordered", "__kmpc_end_ordered", "omp_init_lock", "omp_destroy_lock", "__kmpc_dispatch_deinit"):
    EXT[_n] = lambda S, *a: 0
for _n in ("__kmpc_master", "__kmpc_masked", "__kmpc_single"):
    EXT[_n] = lambda S, *a: int(S.team is None or S.team.tid == 0)
def _lock(S, key): S.hold = tuple(sorted(set(S.hold) | {key}))
def _unlock(S, key): S.hold = tuple(k for k in S.hold if k != key)
EXT["__kmpc_critical"] = lambda S, loc, g, l: _lock(S, l)
EXT["__kmpc_critical_with_hint"] = lambda S, loc, g, l, h: _lock(S, l)
EXT["__kmpc_end_critical"] = lambda S, loc, g, l: _unlock(S, l)
EXT["omp_set_lock"] = lambda S, l: _lock(S, l)
EXT["omp_unset_lock"] = lambda S, l: _unlock(S, l)
EXT["_ZNSt5mutex4lockEv"] = EXT["omp_set_lock"]
EXT["_ZNSt5mutex6unlockEv"] = EXT["omp_unset_lock"]
EXT["pthread_mutex_lock"] = lambda S, l: (_lock(S, l), 0)[1]
EXT["pthread_mutex_unlock"] = lambda S, l: (_unlock(S, l), 0)[1]
@ext("__kmpc_reduce", "__kmpc_reduce_nowait")
def _(S, loc, g, n, sz, data, f, lck):
    _lock(S, lck); return 1
@ext("__kmpc_end_reduce", "__kmpc_end_reduce_nowait")
def _(S, loc, g, lck): _unlock(S, lck)

class Team:
    def __init__(self, T): self.T, self.tid = T, 0
class Abandon(BaseException):
    pass
class Member:
    pass

def tls(S, t):
    """thread t has its own thread-local variables, which last as long as the path"""
    ids = S.mod.tls
    if not ids: return
    st = S.extra.setdefault("tls", dict(cur=0))
    if st["cur"] == t: return
    st[st["cur"]] = {i: S.objs.pop(i) for i in ids if i in S.objs}
    S.objs.update(st.get(t, {}))
    st["cur"] = t

def blocks(S, n, T, tid):
    """iterations [a,b] of thread tid (b < a if none)"""
    if S.omp_blocks is not None: return S.omp_blocks(n, T, tid)
    q, r = divmod(n, T)
    a = tid * q + min(tid, r)
    return a, a + q + (1 if tid < r else 0) - 1

@ext("__kmpc_fork_call")
def _(S, loc, n, fn, *args):
    fnn = S.mod.fn_by_id[conc(S, fn) >> OBJ]
    T = S.omp_T if S.team is None else 1
    outer = S.team
    if S.omp_hook: S.omp_hook(S, "fork", T)
    def body(tid):
        g = S.new(4, "stack"); S.store(g, 4, tid)
        b = S.new(4, "stack"); S.store(b, 4, tid)
        try:
            S.call(fnn, (g, b) + tuple(args))
        except CxxThrow:
            raise PathEnd("abort", "an exception leaves a parallel region", exc=True)
    if T == 1:
        S.team = Team(1)
        S.team.tid = 0
        try: body(0)
        finally:
            S.team = outer
            if S.omp_hook: S.omp_hook(S, "join", T)
        return
    team = Team(T)
    team.dead = False
    S.team = team
    ms = []
    saved = (S.stack, S.depth, S.exc, S.caught, S.hold, S.tid)
    main = threading.Semaphore(0)
    for t in range(T):
        m = Member()
        m.tid, m.sem, m.done, m.err = t, threading.Semaphore(0), False, None
        m.state = ([], saved[1], None, [], saved[4], t)
        def run(m=m):
            m.sem.acquire()
            try:
                if not team.dead: body(m.tid)
            except Abandon: pass
            except BaseException as e: m.err = e
            m.done = True
            main.release()
        m.th = threading.Thread(target=run, daemon=True)
        ms.append(m)
    def barrier(m):
        m.state = (S.stack, S.depth, S.exc, S.caught, S.hold, S.tid)
        main.release()
        m.sem.acquire()
        if team.dead: raise Abandon()
    team.barrier = barrier
    team.ms = ms
    order = S.omp_order(T) if S.omp_order else range(T)
    threading.stack_size(256 << 20)
    for m in ms: m.th.start()
    err = None
    try:
        while not all(m.done for m in ms):
            for t in order:
                m = ms[t]
                if m.done: continue
                team.tid = t
                S.stack, S.depth, S.exc, S.caught, S.hold, S.tid = m.state
                tls(S, t)
                m.sem.release()
                main.acquire()
                if m.err is not None:
                    err = m.err
                    break
            if err is not None: break
            if S.omp_hook: S.omp_hook(S, "barrier", T)
    finally:
        team.dead = True
        for m in ms:
            if not m.done:
                m.sem.release()
                main.acquire()
        S.stack, S.depth, S.exc, S.caught, S.hold, S.tid = saved
        tls(S, saved[5])
        S.team = outer
        if S.omp_hook: S.omp_hook(S, "join", T)
    if err is not None: raise err

@ext("__kmpc_barrier", "__kmpc_cancel_barrier")
def _(S, loc, g):
    if S.team is None or S.team.T == 1: return 0
    m = S.team.ms[S.team.tid]
    if S.hold: raise Unsupported("barrier inside a critical section")
    S.team.barrier(m)
    return 0

def _static(w, sg):
    def f(S, loc, g, sched, plast, plb, pub, pst, incr, chunk):
        lb, ub = (S._sg(conc(S, S.load(p, w, "i"), 8 * w), 8 * w) for p in (plb, pub))
        incr = S._sg(conc(S, incr, 8 * w), 8 * w)
        n = (ub - lb) // incr + 1
        n = max(n, 0)
        T, tid = (S.team.T, S.team.tid) if S.team else (1, 0)
        a, b = blocks(S, n, T, tid)
        M = mask(8 * w)
        if b < a:
            S.store(plb, w, (ub + incr) & M); S.store(pub, w, ub & M); S.store(plast, 4, 0)
        else:
            S.store(plb, w, (lb + a * incr) & M); S.store(pub, w, (lb + b * incr) & M)
            S.store(plast, 4, int(b == n - 1))
        S.store(pst, w, (n * incr if n else incr) & M)
        if S.omp_hook: S.omp_hook(S, "iters", (a, b))
    return _nolog(f)
for _n, _w, _sg in (("4", 4, 1), ("4u", 4, 0), ("8", 8, 1), ("8u", 8, 0)):
    EXT["__kmpc_for_static_init_" + _n] = _static(_w, _sg)
    def _dinit(S, loc, g, sched, lb, ub, st, chunk, w=_w):
        lb, ub, st = (S._sg(conc(S, x, 8 * w), 8 * w) for x in (lb, ub, st))
        n = max((ub - lb) // st + 1, 0)
        T, tid = (S.team.T, S.team.tid) if S.team else (1, 0)
        a, b = blocks(S, n, T, tid)
        S.extra[("disp", tid)] = [lb, st, a, b, n]
        if S.omp_hook: S.omp_hook(S, "iters", (a, b))
    EXT["__kmpc_dispatch_init_" + _n] = _dinit
    def _dnext(S, loc, g, plast, plb, pub, pst, w=_w):
        tid = S.team.tid if S.team else 0
        d = S.extra[("disp", tid)]
        lb, st, a, b, n = d
        if a > b: return 0
        M = mask(8 * w)
        S.store(plb, w, (lb + a * st) & M); S.store(pub, w, (lb + a * st) & M); S.store(pst, w, st & M)
        S.store(plast, 4, int(a == n - 1))
        d[2] += 1
        return 1
    EXT["__kmpc_dispatch_next_" + _n] = _nolog(_dnext)
    EXT["__kmpc_dispatch_fini_" + _n] = lambda S, *a: None

# ------------------------------------------------------------------ Eigen matrix printing (recorded, not interpreted)
def print_matrix(S, os, *a):
    return emit(S, os, "matrix", None)
def overrides(mod):
    for nm in mod.fns:
        if "print_matrix" in nm:
            mod.overrides.add(nm)
            EXT[nm] = print_matrix
    for nm in mod.fns:
        if nm in EXT and "basic_string" in nm and not mod.fns[nm].decl: mod.overrides.add(nm)
    for nm in mod.fns:
        for op, pat in (("read_wout", "10Booz_xform9read_woutE"), ("run", "10Booz_xform3runE"), ("write_boozmn", "10Booz_xform12write_boozmnE")):
            if pat in nm and not mod.fns[nm].decl:
                mod.overrides.add(nm)
                EXT[nm] = _operation(op, nm)
def _operation(op, nm):
    """one of the public operations; a scenario may stand in for it"""
    def f(S, this, *a):
        if S.mock is None: return S.call(S.mod.fns[nm], (this,) + a)
        if S.mock(op, this, sget(S, a[0]) if a else ""): throw(S, "St13runtime_error", "failing operation")
    return f

# ------------------------------------------------------------------ netCDF
class NCFile:
    def __init__(self):
        self.dims = []        # (name, len)
        self.vars = []        # [name, type, dims, atts, data or None]
        self.closed = False
        self.defmode = True
        self.created = False
    def var(self, name):
        for i, v in enumerate(self.vars):
            if v[0] == name: return i
        return -1
    def count(self, i):
        n = 1
        for d in self.vars[i][2]: n *= self.dims[d][1]
        return n
    def add(self, name, typ, dims, data):
        ids = []
        for dn, ln in dims:
            for k, (a, b) in enumerate(self.dims):
                if a == dn: ids.append(k); break
            else:
                self.dims.append((dn, ln)); ids.append(len(self.dims) - 1)
        self.vars.append([name, typ, ids, {}, data])
NC_CHAR, NC_INT, NC_DOUBLE = 2, 4, 6
def fault(S, op, detail=None):
    S.nclog.append((op, detail))
    if S.ncfault is not None:
        e = S.ncfault(S, op, detail)
        return 0 if e is None else e
    return 0
def _h(S, ncid):
    ncid = conc(S, ncid, 32)
    f = S.nch.get(ncid)
    return f
def e32(c): return c & mask(32) if type(c) is int else c
def nz(c): return type(c) is not int or c != 0       # injected codes are never 0
BADID, NOTVAR, BADDIM, NOENT, NOTINDEF, INDEF, NAMEINUSE = -33, -49, -46, 2, -38, -39, -42
@ext("nc_open")
def _(S, path, mode, pid):
    nm = S.cstr(path)
    e = fault(S, "nc_open", nm)
    if nz(e): return e32(e)
    f = S.nc.get(nm)
    if f is None: return e32(NOENT)
    h = 65536 + len(S.nch)
    S.nch[h] = f
    f.closed = False; f.defmode = False
    f.mode = conc(S, mode, 32)
    S.store(pid, 4, h)
    return 0
@ext("nc_create")
def _(S, path, mode, pid):
    nm = S.cstr(path)
    e = fault(S, "nc_create", nm)
    if nz(e): return e32(e)
    mode = conc(S, mode, 32)
    if nm in S.nc and mode & 4: return e32(-35)
    f = NCFile()
    f.created = True; f.mode = mode
    S.nc[nm] = f
    h = 65536 + len(S.nch)
    S.nch[h] = f
    S.store(pid, 4, h)
    return 0
@ext("nc_inq")
def _(S, h, a, b, c, d):
    e = fault(S, "nc_inq")
    if nz(e): return e32(e)
    f = _h(S, h)
    if f is None or f.closed: return e32(BADID)
    for p, v in ((a, len(f.dims)), (b, len(f.vars)), (c, 0), (d, mask(32))):
        if p: S.store(p, 4, v)
    return 0
@ext("nc_strerror")
def _(S, e):
    p = S.extra.get("ncerr")
    if p is None:
        p = S.new(16, "global"); S.write_bytes(p, "netcdf error\0"); S.extra["ncerr"] = p
    return p
@ext("nc_inq_dimid")
def _(S, h, nm, pid):
    nm = S.cstr(nm)
    e = fault(S, "nc_inq_dimid", nm)
    if nz(e): return e32(e)
    f = _h(S, h)
    if f is None or f.closed: return e32(BADID)
    for i, (a, b) in enumerate(f.dims):
        if a == nm:
            S.store(pid, 4, i); return 0
    return e32(BADDIM)
@ext("nc_inq_dimlen")
def _(S, h, i, pl):
    e = fault(S, "nc_inq_dimlen")
    if nz(e): return e32(e)
    f = _h(S, h); i = conc(S, i, 32)
    if f is None or f.closed: return e32(BADID)
    if i >= len(f.dims): return e32(BADDIM)
    S.store(pl, 8, f.dims[i][1])
    return 0
@ext("nc_inq_varid")
def _(S, h, nm, pid):
    nm = S.cstr(nm)
    e = fault(S, "nc_inq_varid", nm)
    if nz(e): return e32(e)
    f = _h(S, h)
    if f is None or f.closed: return e32(BADID)
    i = f.var(nm)
    if i < 0: return e32(NOTVAR)
    S.store(pid, 4, i)
    return 0
@ext("nc_inq_varndims")
def _(S, h, i, pn):
    e = fault(S, "nc_inq_varndims")
    if nz(e): return e32(e)
    f = _h(S, h); i = conc(S, i, 32)
    if f is None or f.closed: return e32(BADID)
    if i >= len(f.vars): return e32(NOTVAR)
    S.store(pn, 4, len(f.vars[i][2]))
    return 0
@ext("nc_inq_vardimid")
def _(S, h, i, pd):
    e = fault(S, "nc_inq_vardimid")
    if nz(e): return e32(e)
    f = _h(S, h); i = conc(S, i, 32)
    if f is None or f.closed: return e32(BADID)
    if i >= len(f.vars): return e32(NOTVAR)
    for k, d in enumerate(f.vars[i][2]): S.store(pd + 4 * k, 4, d)
    return 0
@ext("nc_inq_vartype")
def _(S, h, i, pt):
    e = fault(S, "nc_inq_vartype")
    if nz(e): return e32(e)
    f = _h(S, h); i = conc(S, i, 32)
    if f is None or f.closed: return e32(BADID)
    if i >= len(f.vars): return e32(NOTVAR)
    S.store(pt, 4, f.vars[i][1])
    return 0
@ext("nc_inq_var")
def _(S, h, i, nm, pt, pn, pd, pa):
    e = fault(S, "nc_inq_var")
    if nz(e): return e32(e)
    f = _h(S, h); i = conc(S, i, 32)
    if f is None or f.closed: return e32(BADID)
    if i >= len(f.vars): return e32(NOTVAR)
    v = f.vars[i]
    if nm: S.write_bytes(nm, v[0] + "\0")
    if pt: S.store(pt, 4, v[1])
    if pn: S.store(pn, 4, len(v[2]))
    if pd:
        for k, d in enumerate(v[2]): S.store(pd + 4 * k, 4, d)
    if pa: S.store(pa, 4, len(v[3]))
    return 0
@ext("nc_inq_dim")
def _(S, h, i, nm, pl):
    e = fault(S, "nc_inq_dim")
    if nz(e): return e32(e)
    f = _h(S, h); i = conc(S, i, 32)
    if f is None or f.closed: return e32(BADID)
    if i >= len(f.dims): return e32(BADDIM)
    if nm: S.write_bytes(nm, f.dims[i][0] + "\0")
    if pl: S.store(pl, 8, f.dims[i][1])
    return 0
@ext("nc_inq_ndims")
def _(S, h, pn):
    e = fault(S, "nc_inq_ndims")
    if nz(e): return e32(e)
    f = _h(S, h)
    if f is None or f.closed: return e32(BADID)
    S.store(pn, 4, len(f.dims))
    return 0
@ext("nc_inq_nvars")
def _(S, h, pn):
    e = fault(S, "nc_inq_nvars")
    if nz(e): return e32(e)
    f = _h(S, h)
    if f is None or f.closed: return e32(BADID)
    S.store(pn, 4, len(f.vars))
    return 0
# element kinds of the access functions: width, type of load and store
KIND = {"int": (4, "i"), "long": (8, "i"), "longlong": (8, "i"), "uint": (4, "i"), "short": (2, "i"), "double": (8, "d"), "float": (4, "f"), "text": (1, "i")}
FILL = {NC_INT: (-2147483647) & mask(32), NC_CHAR: 0}
def _native_kind(t): return {NC_CHAR: "text", NC_INT: "int", NC_DOUBLE: "double", 5: "float", 3: "short"}[t]
def _convert_in(S, x, vt, kind):
    """value x of a variable of type vt as it arrives in memory"""
    isint = KIND[kind][1] == "i"
    if vt == NC_CHAR: return x
    if isint:
        if vt not in (NC_INT, 3):
            return x if type(x) is int else S.fptoi(R.lift(x), 8 * KIND[kind][0], True)      # numeric conversion of exact integers
        w = 8 * KIND[kind][0]
        if type(x) is int: return (S._sg(x & mask(32), 32)) & mask(w)
        if w == 32: return x
        raise Unsupported("conversion of integers")
    if vt in (NC_INT, 3): x = S.itofp(x & mask(32) if type(x) is int else x, 32, True)
    if kind == "float": x = X.f32(x)
    return x
def _sel(S, f, v, start, count, stride=None):
    """positions of a hyperslab in the variable's data, or None if it is out of range"""
    dims = [f.dims[d][1] for d in v[2]]
    pos = [0]
    for k, n in enumerate(dims):
        s0 = conc(S, S.load(start + 8 * k, 8, "i")); c = conc(S, S.load(count + 8 * k, 8, "i")) if count else 1
        st = conc(S, S.load(stride + 8 * k, 8, "i")) if stride else 1
        if s0 > n or (c and (s0 >= n or s0 + (c - 1) * st >= n)): return None
        pos = [p * n + s0 + t * st for p in pos for t in range(c)]
    return pos
def _get(name, kind, mode):
    def g(S, h, i, *a):
        f = _h(S, h); i = conc(S, i, 32)
        e = fault(S, name, f.vars[i][0] if f and i < len(f.vars) else None)
        if nz(e): return e32(e)
        if f is None or f.closed: return e32(BADID)
        if f.defmode: return e32(INDEF)
        if i >= len(f.vars): return e32(NOTVAR)
        v = f.vars[i]
        kd = kind or _native_kind(v[1])
        if (v[1] == NC_CHAR) != (kd == "text"): return e32(-56)
        if v[4] is None: raise Unsupported("variable without data")
        p = a[-1]
        pos = range(len(v[4])) if mode == "var" else _sel(S, f, v, a[0], a[1] if mode in ("vara", "vars") else 0, a[2] if mode == "vars" else None)
        if pos is None: return e32(-57)
        w, t = KIND[kd]
        for k, q in enumerate(pos):
            x = _convert_in(S, v[4][q], v[1], kd)
            if t == "i" and type(x) is int: x &= mask(8 * w)
            S.store(p + w * k, w, x)
        return 0
    return g
for _k in list(KIND) + [None]:
    for _m in ("var", "vara", "var1", "vars"):
        _n = "nc_get_" + _m + ("_" + _k if _k else "")
        EXT[_n] = _get(_n, _k, _m)
@ext("nc_close")
def _(S, h):
    e = fault(S, "nc_close")
    if nz(e): return e32(e)
    f = _h(S, h)
    if f is None or f.closed: return e32(BADID)
    f.closed = True
    return 0
@ext("nc_def_dim")
def _(S, h, nm, n, pid):
    nm = S.cstr(nm)
    e = fault(S, "nc_def_dim", nm)
    if nz(e): return e32(e)
    f = _h(S, h)
    if f is None or f.closed: return e32(BADID)
    if not f.defmode: return e32(NOTINDEF)
    if any(a == nm for a, b in f.dims): return e32(NAMEINUSE)
    n = conc(S, n)
    if n == 0:                     # the unlimited dimension, at most one
        if getattr(f, "unlim", None) is not None: return e32(-54)
        f.unlim = len(f.dims)
    f.dims.append((nm, n))
    if pid: S.store(pid, 4, len(f.dims) - 1)
    return 0
@ext("nc_put_att_text")
def _(S, h, i, nm, n, p):
    nm = S.cstr(nm)
    e = fault(S, "nc_put_att_text", nm)
    if nz(e): return e32(e)
    f = _h(S, h); i = conc(S, i, 32)
    if f is None or f.closed: return e32(BADID)
    if i != mask(32):
        if i >= len(f.vars): return e32(NOTVAR)
        f.vars[i][3][nm] = S.bytes_at(p, conc(S, n))
    return 0
@ext("nc_def_var")
def _(S, h, nm, typ, nd, pd, pid):
    nm = S.cstr(nm)
    e = fault(S, "nc_def_var", nm)
    if nz(e): return e32(e)
    f = _h(S, h)
    if f is None or f.closed: return e32(BADID)
    if not f.defmode: return e32(NOTINDEF)
    if f.var(nm) >= 0: return e32(NAMEINUSE)
    nd = conc(S, nd, 32)
    dims = [conc(S, S.load(pd + 4 * k, 4, "i"), 32) for k in range(nd)]
    if any(d >= len(f.dims) for d in dims): return e32(BADDIM)
    f.vars.append([nm, conc(S, typ, 32), dims, {}, None])
    S.store(pid, 4, len(f.vars) - 1)
    return 0
@ext("nc_enddef")
def _(S, h):
    e = fault(S, "nc_enddef")
    if nz(e): return e32(e)
    f = _h(S, h)
    if f is None or f.closed: return e32(BADID)
    if not f.defmode: return e32(NOTINDEF)
    f.defmode = False
    return 0
def _put(name, kind, mode):
    def g(S, h, i, *a):
        f = _h(S, h); i = conc(S, i, 32)
        e = fault(S, name, f.vars[i][0] if f and i < len(f.vars) else None)
        if nz(e): return e32(e)
        if f is None or f.closed: return e32(BADID)
        if f.defmode: return e32(INDEF)
        if i >= len(f.vars): return e32(NOTVAR)
        v = f.vars[i]
        kd = kind or _native_kind(v[1])
        if (v[1] == NC_CHAR) != (kd == "text"): return e32(-56)
        p = a[-1]; n = f.count(i)
        pos = range(n) if mode == "var" else _sel(S, f, v, a[0], a[1] if mode in ("vara", "vars") else 0, a[2] if mode == "vars" else None)
        if pos is None: return e32(-57)
        w, t = KIND[kd]
        data = v[4] if v[4] is not None else [FILL.get(v[1], R.lift(9.9692099683868690e+36))] * n
        data = list(data)
        for k, q in enumerate(pos):
            x = S.load(p + w * k, w, t)
            if v[1] in (NC_INT, 3) and t != "i": x = S.fptoi(R.lift(x), 32, True)
            elif v[1] in (NC_INT, 3) and w == 8: x = x & mask(32) if type(x) is int else z3.Extract(31, 0, x)
            elif v[1] == NC_DOUBLE and t == "i": x = S.itofp(x, 8 * w, True)
            elif v[1] == 5: x = X.f32(x)
            data[q] = x
        v[4] = data
        return 0
    return g
for _k in list(KIND) + [None]:
    for _m in ("var", "vara", "var1", "vars"):
        _n = "nc_put_" + _m + ("_" + _k if _k else "")
        EXT[_n] = _put(_n, _k, _m)
@ext("nc_redef")
def _(S, h):
    e = fault(S, "nc_redef")
    if nz(e): return e32(e)
    f = _h(S, h)
    if f is None or f.closed: return e32(BADID)
    if f.defmode: return e32(INDEF)
    f.defmode = True
    return 0
@ext("nc_sync")
def _(S, h):
    e = fault(S, "nc_sync")
    if nz(e): return e32(e)
    f = _h(S, h)
    if f is None or f.closed: return e32(BADID)
    return e32(INDEF) if f.defmode else 0
@ext("nc_set_fill")
def _(S, h, m, po):
    if po: S.store(po, 4, 0)
    return 0
@ext("nc_inq_unlimdim")
def _(S, h, p):
    S.store(p, 4, mask(32)); return 0
@ext("nc_inq_varname", "nc_inq_dimname")
def _(S, h, i, nm): raise Unsupported("name of a variable")
EXT["nc_inq_varname"] = lambda S, h, i, nm: EXT["nc_inq_var"](S, h, i, nm, 0, 0, 0, 0)
EXT["nc_inq_dimname"] = lambda S, h, i, nm: EXT["nc_inq_dim"](S, h, i, nm, 0)
EXT["nc_inq_varnatts"] = lambda S, h, i, p: EXT["nc_inq_var"](S, h, i, 0, 0, 0, 0, p)
def _att(name):
    def g(S, h, i, nm, typ, n, p):
        nm = S.cstr(nm)
        e = fault(S, name, nm)
        if nz(e): return e32(e)
        f = _h(S, h); i = conc(S, i, 32)
        if f is None or f.closed: return e32(BADID)
        if i != mask(32):
            if i >= len(f.vars): return e32(NOTVAR)
            w, t = KIND[name.split("_")[-1]]
            f.vars[i][3][nm] = [S.load(p + w * k, w, t) for k in range(conc(S, n))]
        return 0
    return g
for _k in ("int", "double", "float", "long"): EXT["nc_put_att_" + _k] = _att("nc_put_att_" + _k)
