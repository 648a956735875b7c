"""Compile /repo's current sources: to LLVM bitcode for the executor, natively for the replays."""
import atexit, glob, os, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = REPO + "/src/_booz_xform"
CLANG = "/usr/lib/llvm-18/bin/clang++"
LINK = "/usr/lib/llvm-18/bin/llvm-link"
CXXFLAGS = ["-std=c++11", "-O1", "-fopenmp", "-DOPENMP", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_DONT_PARALLELIZE", "-fno-vectorize",
            "-fno-slp-vectorize", "-fno-unroll-loops", "-w", "-ffp-contract=off", "-fno-math-errno"]
INC = ["-I", HERE + "/inc", "-I", SRC, "-I", REPO + "/externalPackages/eigen", "-I", REPO + "/externalPackages/eigen/Eigen"]
_tmp = None

FAULTS_C = r"""
#include <stdio.h>
#include <string.h>
typedef long L;
static int on, n, nf, at[64], code[64]; static char text[65536];
void h_fault_reset(void) { on = 1; n = nf = 0; text[0] = 0; }
void h_fault_add(int k, int c) { if (nf < 64) { at[nf] = k; code[nf++] = c; } }
const char* h_fault_log(void) { on = 0; return text; }
static int hit(const char* op, const char* what) {
  int i, k = n;
  if (!on) return 0;
  n++;
  for (i = 0; i < nf; i++) if (at[i] == k) {
    snprintf(text + strlen(text), sizeof text - strlen(text), "%s\t%.200s\t%d\n", op, what, code[i]);
    return code[i];
  }
  return 0;
}
"""

class BuildError(Exception):
    pass

def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="boozcheck.")
        pid = os.getpid()
        def clean(d=_tmp):
            if os.getpid() == pid: shutil.rmtree(d, ignore_errors=True)
        atexit.register(clean)
    return _tmp

def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def sources():
    return [f for f in sorted(glob.glob(SRC + "/*.cpp")) if os.path.basename(f) not in ("bindings.cpp", "xbooz_xform.cpp")]

def bitcode(asserts=False, trig=False, extra=(), only=None, pyb=False):
    """path of the linked bitcode of the library and the harness; pyb: with the Python bindings over the stand-in of pybind11"""
    d = tempfile.mkdtemp(dir=tmp())
    flags = CXXFLAGS + ([] if asserts else ["-DNDEBUG"]) + list(extra) + INC
    srcs = sources() + [HERE + "/harness.cpp", HERE + "/harness_std.cpp"] + ([HERE + "/harness_trig.cpp"] if trig else [])
    glue = [SRC + "/bindings.cpp", HERE + "/harness_pyb.cpp"] if pyb else []
    srcs = glue + srcs
    def one(f):
        o = os.path.join(d, os.path.basename(f)[:-4] + ".bc")
        rc, out = _run([CLANG] + flags + (["-std=c++17", "-I", HERE + "/fakepybind"] if f in glue else []) + ["-emit-llvm", "-c", f, "-o", o])
        return f, o, rc, out
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, srcs))
    for f, o, rc, out in res:
        if rc: raise BuildError("clang failed on %s:\n%s" % (f, out[-2000:]))
    out = os.path.join(d, "all.bc")
    rc, msg = _run([LINK] + [o for _, o, _, _ in res] + ["-o", out])
    if rc: raise BuildError("llvm-link: " + msg[-2000:])
    return out

def native(asan=False, asserts=False, trig=False, omp=True, opt="-O1", extra=(), faults=False, tsan=False, mock=False, pyb=False):
    """shared library of the library and the harness, for replays; pyb: it is the Python extension module as well"""
    d = tempfile.mkdtemp(dir=tmp())
    flags = ["-std=c++11", opt, "-fPIC", "-w", "-DOPENMP", "-fopenmp", "-I/usr/include"] + ([] if asserts else ["-DNDEBUG"])
    if asan: flags += ["-fsanitize=address", "-fno-omit-frame-pointer", "-g"]
    if tsan: flags += ["-fsanitize=thread", "-g"]
    flags += list(extra) + ["-I", SRC, "-I", REPO + "/externalPackages/eigen"]
    srcs = sources() + [HERE + "/harness.cpp"] + ([HERE + "/harness_trig.cpp"] if trig else [])
    glue = [SRC + "/bindings.cpp", HERE + "/harness_unwrap.cpp"] if pyb else []
    srcs = glue + srcs
    if pyb:
        from .pysym import python
        _, i1 = _run([python(), "-c", "import pybind11, sysconfig; print(pybind11.get_include()); print(sysconfig.get_paths()['include'])"])
        pinc = [x for l in i1.split("\n") if l for x in ("-I", l)] + ["-std=c++17", "-O0", "-DVERSION_INFO=check"]
    def one(f):
        o = os.path.join(d, os.path.basename(f)[:-4] + ".o")
        rc, out = _run(["g++"] + flags + (pinc if f in glue else []) + ["-c", f, "-o", o])
        return f, o, rc, out
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, srcs))
    for f, o, rc, out in res:
        if rc: raise BuildError("g++ failed on %s:\n%s" % (f, out[-2000:]))
    so = os.path.join(d, "_booz_xform.so" if pyb else "libh.so")
    wraps, extra_o = [], []
    if faults:
        # every function of the file library the code uses goes through a counter that can make it fail
        rc, out = _run(["nm", "-u"] + [o for _, o, _, _ in res])
        names = sorted(set(l.split()[-1] for l in out.splitlines() if " nc_" in l and l.split()[-1].startswith("nc_")) - {"nc_strerror"})
        c = os.path.join(d, "faults.c")
        with open(c, "w") as f:
            f.write(FAULTS_C)
            for n in names:
                f.write("int __real_%s(L,L,L,L,L,L,L,L);\nint __wrap_%s(L a,L b,L c,L d,L e,L f,L g,L h) { int r = hit(\"%s\", %s); return r ? r : __real_%s(a,b,c,d,e,f,g,h); }\n" % (
                    n, n, n, "(const char*) b" if n in ("nc_inq_varid", "nc_inq_dimid") else '""', n))
        extra_o = [os.path.join(d, "faults.o")]
        rc, msg = _run(["gcc", "-fPIC", "-O1", "-w", "-c", c, "-o", extra_o[0]])
        if rc: raise BuildError("faults: " + msg[-1000:])
        wraps = ["-Wl,--wrap=" + f for f in names]
    if mock:
        # the public operations go through a callback that may stand in for them
        rc, out = _run(["nm"] + [o for _, o, _, _ in res])
        c = os.path.join(d, "mock.cpp")
        with open(c, "w") as f:
            f.write("#include <string>\n#include <stdexcept>\nextern \"C\" {\ntypedef int (*H)(int, void*, const char*);\nstatic H h;\nvoid h_mock(H x) { h = x; }\n")
            for k, pat in enumerate(("10Booz_xform9read_woutE", "10Booz_xform3runE", "10Booz_xform12write_boozmnE")):
                for n in sorted(set(l.split()[-1] for l in out.splitlines() if " T " in l and pat in l)):
                    wraps.append("-Wl,--wrap=" + n)
                    f.write("void __real_%s(void*, void*, int);\nvoid __wrap_%s(void* b, void* s, int x) { if (!h) __real_%s(b, s, x); else if (h(%d, b, %s)) throw std::runtime_error(\"failing operation\"); }\n" % (
                        n, n, n, k, '""' if k == 1 else "((std::string*) s)->c_str()"))
            f.write("}\n")
        extra_o = [os.path.join(d, "mock.o")]
        rc, msg = _run(["g++", "-fPIC", "-O1", "-w", "-c", c, "-o", extra_o[0]])
        if rc: raise BuildError("mock: " + msg[-1000:])
    if tsan:
        extra_o = [os.path.join(d, "ompshim.o")]
        rc, msg = _run(["gcc", "-fPIC", "-O1", "-w", "-c", HERE + "/ompshim.c", "-o", extra_o[0]])
        if rc: raise BuildError("ompshim: " + msg[-1000:])
        rc, msg = _run(["g++", "-shared", "-fsanitize=thread", "-Wl,-Bsymbolic"] + [o for _, o, _, _ in res] + extra_o + ["-o", so, "-lnetcdf", "-lgomp"])
        if rc: raise BuildError("link: " + msg[-2000:])
        return so
    rc, msg = _run(["g++", "-shared", "-fopenmp"] + (["-fsanitize=address"] if asan else []) + [o for _, o, _, _ in res] + extra_o + wraps + ["-o", so, "-lnetcdf"])
    if rc: raise BuildError("link: " + msg[-2000:])
    return so

_fill = None
def fill_lib():
    """preload library that fills fresh heap memory with the byte VERIF_FILL"""
    global _fill
    if _fill is None:
        so = os.path.join(tmp(), "fill.so")
        rc, msg = _run(["gcc", "-O1", "-fno-builtin", "-shared", "-fPIC", HERE + "/fill.c", "-o", so])
        if rc: raise BuildError("fill: " + msg[-500:])
        _fill = so
    return _fill
