"""Build and run machinery shared by all checks (no network, rebuilds from /repo's working tree)."""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
EIGEN = "/usr/include/eigen3"
CLANG = shutil.which("clang++-18") or "clang++"
JOBS = 8
CFLAGS = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off",
          "-fno-math-errno", "-fno-threadsafe-statics", "-fno-strict-aliasing", "-DEIGEN_DONT_VECTORIZE", "-D_GLIBCXX_ASSERTIONS", "-DEIGEN_STACK_ALLOCATION_LIMIT=0", "-w"]
NFLAGS = ["-std=c++17", "-O0", "-ffp-contract=off", "-w", "-D_GLIBCXX_ASSERTIONS", "-DEIGEN_DONT_VECTORIZE", "-DVP_NATIVE"]

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd)[:300], r.stdout[-3000:]))
    return r.stdout

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:20]

def read(p):
    with open(p, "rb") as f:
        return f.read()

def tree_digest(root, exts):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                h.update(os.path.relpath(os.path.join(d, f), root).encode()); h.update(read(os.path.join(d, f)))
    return h.hexdigest()

def build_engine():
    src = [os.path.join(VERIF, "engine", f) for f in ("sym.cpp", "interp.cpp")]
    key = digest(*[read(s) for s in src], read(os.path.join(VERIF, "engine", "sym.hpp")))
    out = os.path.join(BUILD, "engine", "vpsym-" + key)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    objs = [out + ".sym.o", out + ".interp.o"]
    cmds = [["g++", "-std=c++17", "-O2", "-w", "-c", src[0], "-o", objs[0]],
            ["g++", "-std=c++17", "-O2", "-w", "-fexceptions", "-I/usr/lib/llvm-18/include", "-c", src[1], "-o", objs[1]]]
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(sh, cmds))
    sh(["g++", "-rdynamic", "-o", out + ".tmp", objs[1], objs[0], "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3", "-lgmpxx", "-lgmp", "-ldl"])
    os.rename(out + ".tmp", out)
    return out

def build_overlay():
    """Symlink forest of Eigen in which the iterative decompositions are contract points."""
    shim = os.path.join(VERIF, "shim")
    key = digest(tree_digest(shim, (".h", ".hpp", ".inc")))
    root = os.path.join(BUILD, "overlay-" + key)
    if os.path.exists(root):
        return root
    tmp = root + ".tmp%d" % os.getpid()
    repl = {"Eigen/src/SVD/JacobiSVD.h": "JacobiSVD.h", "Eigen/src/Eigenvalues/EigenSolver.h": "EigenSolver.h",
            "unsupported/Eigen/NonLinearOptimization": "NonLinearOptimization.inc"}
    for d, ds, fs in os.walk(EIGEN):
        rel = os.path.relpath(d, EIGEN)
        os.makedirs(os.path.join(tmp, rel), exist_ok=True)
        for f in fs:
            r = os.path.normpath(os.path.join(rel, f))
            dst = os.path.join(tmp, r)
            if r in repl:
                shutil.copy(os.path.join(shim, repl[r]), dst)
            elif r == "Eigen/src/LU/InverseImpl.h":
                s = read(os.path.join(EIGEN, r)).decode()
                a = "    result = matrix.partialPivLu().inverse();"
                assert s.count(a) == 1
                s = s.replace(a, "    { vphook::MX A_=matrix,X_,I_=vphook::MX::Identity(A_.rows(),A_.cols()); if(vphook::lsolve&&vphook::lsolve(A_,I_,X_)) { result=X_; return; } vphook::missing(\"inverse\"); }")
                s = s.replace("namespace Eigen {", "#include \"vphooks.hpp\"\nnamespace Eigen {", 1)
                open(dst, "w").write(s)
            elif r == "Eigen/LU":
                s = read(os.path.join(EIGEN, r)).decode()
                a = '#include "src/Core/util/ReenableStupidWarnings.h"'
                assert a in s
                open(dst, "w").write(s.replace(a, '#include "lu_spec.hpp"\n' + a))
            else:
                os.symlink(os.path.join(EIGEN, r), dst)
    for f in ("vphooks.hpp", "lu_spec.hpp"):
        for d in ("Eigen", "Eigen/src/SVD", "Eigen/src/Eigenvalues", "Eigen/src/LU", "unsupported/Eigen"):
            if not os.path.exists(os.path.join(tmp, d, f)):
                os.symlink(os.path.join(shim, f), os.path.join(tmp, d, f))
    try:
        os.rename(tmp, root)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return root

def repo_sources():
    """The library's translation units, from CMakeLists.txt (so that moved code is followed)."""
    txt = read(os.path.join(REPO, "CMakeLists.txt")).decode()
    l = sorted(set(re.findall(r"\bsrc/[\w/]+\.cpp", txt)))
    return [s for s in l if os.path.exists(os.path.join(REPO, s))]

_inc = {}
def include_key():
    if "k" not in _inc:
        _inc["k"] = tree_digest(os.path.join(REPO, "include"), (".hpp", ".h"))
    return _inc["k"]

def bitcode(src, overlay, extra_key="", rel_inc=()):
    key = digest(read(src), include_key(), " ".join(CFLAGS), overlay, extra_key)
    out = os.path.join(BUILD, "bc", os.path.basename(src) + "-" + key + ".bc")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        sh([CLANG] + CFLAGS + ["-I" + overlay, "-I" + overlay + "/unsupported", "-I" + REPO + "/include"] + list(rel_inc) + ["-emit-llvm", "-c", src, "-o", tmp])
        os.rename(tmp, out)
    return out

def harness_bc(hname, fns):
    """Link harness + library bitcode, internalised to the given harness functions."""
    eng = build_engine(); ov = build_overlay()
    hdir = os.path.join(VERIF, "harness")
    hkey = digest(tree_digest(hdir, (".hpp", ".inc")))
    srcs = [os.path.join(REPO, s) for s in repo_sources()]
    with ThreadPoolExecutor(JOBS) as ex:
        hb = ex.submit(bitcode, os.path.join(hdir, hname + ".cpp"), ov, hkey, ("-I" + hdir,))
        bcs = list(ex.map(lambda s: bitcode(s, ov), srcs))
    hb = hb.result()
    key = digest(hb, *bcs, ",".join(sorted(fns)), eng)
    out = os.path.join(BUILD, "prog", hname + "-" + key + ".bc")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        sh([eng, "prep", tmp, "keep=" + ",".join(sorted(fns)), hb] + bcs)
        os.rename(tmp, out)
    return eng, out

def native_obj(src, extra=(), key=""):
    k = digest(read(src), include_key(), " ".join(NFLAGS), " ".join(extra), key)
    out = os.path.join(BUILD, "obj", os.path.basename(src) + "-" + k + ".o")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        sh([CLANG] + NFLAGS + list(extra) + ["-I" + EIGEN, "-I" + EIGEN + "/unsupported", "-I" + REPO + "/include", "-c", src, "-o", tmp])
        os.rename(tmp, out)
    return out

def needed_sources(hname):
    """Translation units the harness needs (transitively), by symbol closure over the bitcode."""
    ov = build_overlay(); hdir = os.path.join(VERIF, "harness"); hkey = digest(tree_digest(hdir, (".hpp", ".inc")))
    nm = shutil.which("llvm-nm-18") or shutil.which("llvm-nm")
    srcs = repo_sources()
    if not nm:
        return srcs
    def syms(b):
        d, u = set(), set()
        for l in sh([nm, b]).splitlines():
            w = l.split()
            if len(w) >= 2:
                (u if w[-2] == "U" else d).add(w[-1])
        return d, u
    with ThreadPoolExecutor(JOBS) as ex:
        tab = list(ex.map(lambda s: syms(bitcode(os.path.join(REPO, s), ov)), srcs))
    strong = {}
    for s, (d, u) in zip(srcs, tab):
        for x in d:
            strong.setdefault(x, s)
    und = dict((s, u) for s, (d, u) in zip(srcs, tab))
    todo = list(syms(bitcode(os.path.join(hdir, hname + ".cpp"), ov, hkey, ("-I" + hdir,)))[1]); need = set()
    while todo:
        s = strong.get(todo.pop())
        if s and s not in need:
            need.add(s); todo += list(und[s])
    return sorted(need)

def native_wraps(hname, objs):
    """Functions a harness replaces natively, too ("// native wrap: <demangled prefix>"): calls from other object files go through a stub."""
    pre = [l.split(":", 1)[1].strip() for l in read(os.path.join(VERIF, "harness", hname + ".cpp")).decode().splitlines() if l.startswith("// native wrap:")]
    if not pre:
        return [], []
    syms = sorted(set(l.split()[-1] for o in objs for l in sh(["nm", "-u", o]).splitlines() if l.strip()))
    dem = subprocess.run(["c++filt"], input="\n".join(syms), stdout=subprocess.PIPE, text=True).stdout.splitlines()
    w = [(m, d) for m, d in zip(syms, dem) if any(d.startswith(p) for p in pre)]
    a = ".intel_syntax noprefix\n.text\n"
    for m, d in w:
        a += "    .globl __wrap_%s\n__wrap_%s:\n mov rax, QWORD PTR vpw_%s[rip]\n test rax, rax\n je 1f\n jmp rax\n1: jmp __real_%s\n" % (m, m, m, m)
    a += ".data\n.align 8\n.globl vp_wraps\n" + "".join("vpw_%s: .quad 0\n" % m for m, d in w) + "vp_wraps:\n" + "".join(" .quad 9f, vpw_%s\n.section .rodata\n9: .asciz \"%s\"\n.data\n" % (m, d) for m, d in w) + " .quad 0, 0\n.section .note.GNU-stack,\"\",@progbits\n"
    out = os.path.join(BUILD, "native", "wrap-" + digest(a) + ".o"); os.makedirs(os.path.dirname(out), exist_ok=True)
    if not os.path.exists(out):
        src = out[:-2] + ".%d.s" % os.getpid()
        with open(src, "w") as f: f.write(a)
        sh(["gcc", "-fPIE", "-c", src, "-o", src + ".o"]); os.rename(src + ".o", out); os.unlink(src)
    return [m for m, d in w], [out]

def native_program(hname, fn):
    """The same harness against the real library and the real Eigen, for replaying counterexamples."""
    hdir = os.path.join(VERIF, "harness"); nd = os.path.join(VERIF, "native")
    rk = digest(read(os.path.join(nd, "vp_rand.hpp")))
    inc = ("-include", os.path.join(nd, "vp_rand.hpp"))
    if b"// native: contract minimiser" in read(os.path.join(hdir, hname + ".cpp")):  # the harness plays the Levenberg-Marquardt minimiser natively, too
        sk = digest(tree_digest(os.path.join(VERIF, "shim"), (".hpp", ".inc"))); d = os.path.join(BUILD, "nlm-" + sk); u = os.path.join(d, "unsupported", "Eigen"); os.makedirs(u, exist_ok=True)
        shutil.copy(os.path.join(VERIF, "shim", "NonLinearOptimization.inc"), os.path.join(u, "NonLinearOptimization")); shutil.copy(os.path.join(VERIF, "shim", "vphooks.hpp"), u)
        inc += ("-I" + d, "-I" + os.path.join(d, "unsupported")); rk = digest(rk, sk)
    with ThreadPoolExecutor(JOBS) as ex:
        rt = ex.submit(native_obj, os.path.join(nd, "vp_native.cpp"), ("-DVP_ENTRY=" + fn,))
        ho = ex.submit(native_obj, os.path.join(hdir, hname + ".cpp"), inc + ("-I" + hdir,), digest(tree_digest(hdir, (".hpp", ".inc")), rk))
        need = needed_sources(hname)
        objs = list(ex.map(lambda s: native_obj(os.path.join(REPO, s), inc, rk), need))
    ho = ho.result(); rt = rt.result()
    wraps, wobj = native_wraps(hname, [ho] + objs)
    out = os.path.join(BUILD, "native", hname + "-" + fn + "-" + digest(ho, rt, *(objs + wobj)))
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d" % os.getpid()
        sh(["g++", "-o", tmp, ho, rt] + wobj + objs + ["-Wl,--wrap=" + w for w in wraps])
        os.rename(tmp, out)
    return out

def replay(prog, cand):
    try:
        r = subprocess.run([prog, cand], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
    except subprocess.TimeoutExpired:
        return 78, "timeout"
    return r.returncode, r.stdout[-4000:]

class Tokens:
    """Pool of JOBS tokens shared by all harness runs of one check (and by the paths they fork)."""
    def __init__(self, n=None):
        self.r, self.w = os.pipe(); os.write(self.w, b"t" * (n or JOBS))
TOKENS = None
def run_harness(eng, bc, fn, outdir, opts):
    global TOKENS
    if TOKENS is None:
        TOKENS = Tokens()
    os.read(TOKENS.r, 1)
    try:
        return run_harness1(eng, bc, fn, outdir, opts)
    finally:
        os.write(TOKENS.w, b"t")
def run_harness1(eng, bc, fn, outdir, opts):
    shutil.rmtree(outdir, ignore_errors=True); os.makedirs(outdir)
    cmd = [eng, "run", bc, fn, outdir] + ["%s=%s" % kv for kv in opts.items()]
    lim = float(opts.get("maxtime", 300)) + 120
    try:
        r = subprocess.run(cmd, env=dict(os.environ, VP_JOBS="%d,%d" % (TOKENS.r, TOKENS.w)), pass_fds=(TOKENS.r, TOKENS.w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=lim, start_new_session=True)
        log = r.stdout[-4000:]
    except subprocess.TimeoutExpired as e:
        subprocess.run(["pkill", "-9", "-f", outdir]); log = "timeout"
    p = os.path.join(outdir, "result.json")
    res = json.load(open(p)) if os.path.exists(p) else {"error": log, "labels": {}, "msgs": [log[-500:]], "paths": 0, "queries": 0}
    res["functions"] = sorted(set(l.strip() for l in open(os.path.join(outdir, "functions.txt")))) if os.path.exists(os.path.join(outdir, "functions.txt")) else []
    res["log"] = log
    return res
