"""Build and run machinery: /repo sources -> LLVM bitcode -> instrumented
program -> symbolic run -> native replay of every counterexample."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
ENG = os.path.join(VERIF, "engine")
BUILD = os.path.join(VERIF, ".build")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
COMPAT = "/opt/vp/cmake/compat.hpp"
NCPU = os.cpu_count() or 4


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-6000:]))
    return r.stdout.decode(errors="replace")


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def atomic(make, dst):
    """make(tmp) then rename: safe if two checks share the cache"""
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=os.path.dirname(dst), suffix=os.path.splitext(dst)[1])
    os.close(fd)
    try:
        make(tmp)
        os.chmod(tmp, 0o755)
        os.rename(tmp, dst)
    finally:
        if os.path.exists(tmp):
            os.unlink(tmp)


# ---------------------------------------------------------------- engine
def engine():
    e = os.path.join(BUILD, "engine")
    inst = os.path.join(e, "sxinst-" + digest(rd(ENG + "/instrument.cpp")))
    rt = os.path.join(e, "runtime-%s.o" % digest(rd(ENG + "/runtime.cpp"), rd(ENG + "/sx.h"), rd(ENG + "/z3fix.hpp")))
    rp = os.path.join(e, "replay-%s.o" % digest(rd(ENG + "/replay.cpp"), rd(ENG + "/sx.h")))

    def b_inst(t):
        sh(["clang++-18", "-O1", "-std=c++17", "-w", "-I/usr/lib/llvm-18/include",
            ENG + "/instrument.cpp", "-o", t, "-L/usr/lib/llvm-18/lib", "-lLLVM-18",
            "-Wl,-rpath,/usr/lib/llvm-18/lib"])

    def b_rt(t):
        sh(["clang++-18", "-O2", "-g1", "-w", "-std=c++17", "-I" + Z3 + "/include", "-c",
            ENG + "/runtime.cpp", "-o", t])

    def b_rp(t):
        sh(["clang++-18", "-O1", "-w", "-std=c++17", "-c", ENG + "/replay.cpp", "-o", t])
    with cf.ThreadPoolExecutor() as ex:
        fs = [ex.submit(atomic, b, p) for b, p in ((b_inst, inst), (b_rt, rt), (b_rp, rp))
              if not os.path.exists(p)]
        for f in fs:
            f.result()
    return inst, rt, rp


# ------------------------------------------------------------- repo bitcode
def gendir():
    g = os.path.join(BUILD, "gen")
    files = {
        "blitz/llvm/bzconfig.h": "#include <blitz/gnu/bzconfig.h>\n",
        "omp.h": '#include "util/omp_stubs.h"\n',
        "util/force_inline.hpp": "#pragma once\n#define MOCC_FORCE_INLINE inline\n",
        "git_SHA1.cpp": '#include <string>\nextern const char g_GIT_SHA1[];\n'
                        'const char g_GIT_SHA1[] = "check";\n',
    }
    for n, c in files.items():
        p = os.path.join(g, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p).read() != c:
            def w(t, c=c):
                with open(t, "w") as f:
                    f.write(c)
            atomic(w, p)
    return g


def base_flags(g):
    return ["-std=c++14", "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/hdf5/serial",
            "-include", COMPAT, "-I" + g, "-I" + REPO + "/src", "-I" + REPO + "/src/core",
            "-I" + REPO + "/src/sweepers", "-I" + REPO + "/src/solvers", "-I" + ENG,
            "-w", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-finite-loops",
            "-ffp-contract=off", "-mlong-double-64", "-DEIGEN_DONT_VECTORIZE", "-D_GLIBCXX_ASSERTIONS",
            "-g1", "-Xclang", "-disable-llvm-passes"]


def repo_sources():
    out = []
    for root, dirs, files in os.walk(REPO + "/src"):
        dirs[:] = [d for d in dirs if d not in ("tests", "test", "__pycache__", "python", "pugixml")]
        for f in files:
            if f.endswith(".cpp") and f not in ("git_SHA1.cpp", "main.cpp", "mocc.cpp"):
                out.append(os.path.join(root, f))
    return sorted(out)


_hdr = None


def header_digest():
    global _hdr
    if _hdr is None:
        hs = []
        for root, dirs, files in os.walk(REPO + "/src"):
            for f in sorted(files):
                if re.search(r"\.(h|hh|hpp|inc|ipp|tpp)$", f):
                    p = os.path.join(root, f)
                    hs.append(p.encode() + rd(p))
        _hdr = digest(*sorted(hs))
    return _hdr


def compile_bc(src, g, extra=()):
    flags = base_flags(g) + list(extra)
    key = digest(src, rd(src), header_digest(), rd(ENG + "/sx.h") if src.startswith(VERIF) else "", " ".join(flags),
                 *[rd(h) for h in sorted(glob.glob(VERIF + "/harness/*.h*"))] if src.startswith(VERIF) else [])
    out = os.path.join(BUILD, "bc", os.path.basename(src) + "-" + key + ".bc")
    if not os.path.exists(out):
        atomic(lambda t: sh(["clang++-18"] + flags + ["-emit-llvm", "-c", src, "-o", t]), out)
    return out


def prune(d, keep=900):
    try:
        fs = sorted(glob.glob(d + "/*"), key=os.path.getmtime)
        for f in fs[:-keep]:
            os.unlink(f)
    except OSError:
        pass


OPTPIPE = "internalize,globaldce,function(sroa,early-cse,simplifycfg),globaldce"


def build(harness, defines, sources=None, stubs=(), extra_srcs=()):
    """-> (symbolic exe, native exe)"""
    inst, rt, rp = engine()
    g = gendir()
    allsrc = repo_sources()
    if sources is None:
        srcs = allsrc
    else:
        srcs = [s for s in allsrc if any(re.search(p, s) for p in sources)]
    dflags = ["-D%s" % d for d in defines] + ["-I" + VERIF + "/harness"]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        hf = ex.submit(compile_bc, harness, g, dflags)
        lf = ex.submit(compile_bc, ENG + "/sxlib.cpp", g)
        ff = [ex.submit(compile_bc, s, g) for s in srcs]
        gf = ex.submit(compile_bc, os.path.join(g, "git_SHA1.cpp"), g)
        h, l = hf.result(), lf.result()
        bcs = [f.result() for f in ff] + [gf.result()]
    key = digest(h, l, *bcs, inst, rt, rp, OPTPIPE, " ".join(stubs))
    d = os.path.join(BUILD, "exe")
    nm = os.path.splitext(os.path.basename(harness))[0]
    sym, nat = [os.path.join(d, "%s-%s.%s" % (nm, key, k)) for k in ("sym", "nat")]
    if os.path.exists(sym) and os.path.exists(nat):
        return sym, nat
    w = tempfile.mkdtemp(prefix="sx-", dir=BUILD)
    libs = ["-lhdf5_serial_cpp", "-lhdf5_serial", "-lpugixml"]
    libs = [x for x in libs]
    link = ["-Wl,--as-needed", "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5_cpp", "-lhdf5", "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial",
            "-lpugixml", "-lpthread"]
    try:
        # harness/lib first; repo objects pulled in only as needed would drop
        # registrations, so link everything and let globaldce prune
        sh(["llvm-link-18", h, l] + bcs + ["-o", w + "/all.bc"])
        sh(["opt-18", "-passes=" + OPTPIPE,
            "-internalize-public-api-list=sx_main," + ",".join(
                "sxl_" + x for x in "memcmp bcmp strlen memchr strcmp isspace isdigit tolower toupper".split()) +
            "," + ",".join(s.split("=")[1] for s in stubs),
            w + "/all.bc", "-o", w + "/opt.bc"])

        def mksym(t):
            sh([inst, w + "/opt.bc", w + "/inst.bc"] + ["--stub=" + s for s in stubs])
            sh(["clang++-18", "-O0", "-Xclang", "-disable-llvm-passes", "-w", "-c", w + "/inst.bc", "-o", w + "/inst.o"])
            sh(["clang++-18", "-rdynamic", w + "/inst.o", rt, "-o", t, "-L" + Z3 + "/lib", "-lz3",
                "-Wl,-rpath," + Z3 + "/lib"] + link)

        def mknat(t):
            sh(["clang++-18", "-O0", "-Xclang", "-disable-llvm-passes", "-w", "-c", w + "/opt.bc", "-o", w + "/nat.o"])
            sh(["clang++-18", w + "/nat.o", rp, "-o", t] + link)
        with cf.ThreadPoolExecutor(2) as ex:
            a = ex.submit(atomic, mksym, sym)
            b = ex.submit(atomic, mknat, nat)
            a.result()
            b.result()
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return sym, nat


def symbolize(exe, pcs):
    """map return addresses to function names"""
    out = subprocess.run(["nm", "-C", "--defined-only", exe], stdout=subprocess.PIPE).stdout.decode(
        errors="replace")
    syms = []
    base = None
    for ln in out.splitlines():
        m = re.match(r"([0-9a-f]+) (\w) (.*)", ln)
        if m:
            if m.group(3) == "__executable_start":
                base = int(m.group(1), 16)
            if m.group(2).lower() in "tw":
                syms.append((int(m.group(1), 16), m.group(3)))
    syms.sort()
    import bisect
    keys = [s[0] for s in syms]
    base = base or 0
    names = set()
    for p in pcs:
        i = bisect.bisect_right(keys, p + base) - 1
        if i >= 0:
            names.add(syms[i][1])
    return names


def replay(nat, inputs, workdir, timeout=300, env=None):
    fd, f = tempfile.mkstemp(dir=workdir, suffix=".in")
    with os.fdopen(fd, "w") as o:
        for k, v in inputs.items():
            o.write("%s %s\n" % (k, v))
    try:
        r = subprocess.run([nat, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=workdir,
                           timeout=timeout, env=dict(os.environ, OMP_NUM_THREADS="1", **(env or {})))
        out = r.stdout.decode(errors="replace")
        if "CRASH" in out:
            out += "".join("STDERR " + l + "\n" for l in r.stderr.decode(errors="replace").splitlines()[-8:])
        return r.returncode, out
    except subprocess.TimeoutExpired:
        return 124, "TIMEOUT"
    finally:
        os.unlink(f)


def run_symbolic(sym, budget, env=None, jobs=NCPU):
    w = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    rec = os.path.join(w, "rec")
    e = dict(os.environ, SX_BUDGET=str(budget), SX_JOBS=str(jobs), OMP_NUM_THREADS="1")
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.Popen([sym, rec], cwd=w, env=e, start_new_session=True)
        try:
            p.wait(timeout=budget + 60)
        except subprocess.TimeoutExpired:
            import signal
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        recs = []
        if os.path.exists(rec):
            for ln in open(rec, errors="replace"):
                try:
                    recs.append(json.loads(ln))
                except ValueError:
                    pass
        return recs, time.time() - t0, p.returncode
    finally:
        shutil.rmtree(w, ignore_errors=True)
