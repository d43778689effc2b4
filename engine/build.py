"""Compiles /repo's current sources (through inst/*.cpp) to LLVM bitcode."""
import os, subprocess, tempfile, shutil, atexit, hashlib
import llvmir

REPO = os.environ.get("U5E_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
LINK = "llvm-link-18" if shutil.which("llvm-link-18") else "llvm-link"
FLAGS = ["-std=c++1y", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions", "-gline-tables-only",
         "-DNDEBUG", "-w", "-include", os.path.join(VERIF, "inst", "prelude.hpp"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="u5everif.")
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


class CompileError(Exception):
    pass


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        out += [os.path.join(d, f) for f in fs if f.endswith((".cpp", ".cc", ".cxx"))]
    return sorted(out)


def compile_one(src, out, flags=FLAGS):
    p = subprocess.run([CLANG] + flags + ["-emit-llvm", "-c", src, "-o", out], capture_output=True, text=True)
    if p.returncode:
        raise CompileError("%s: %s" % (src, p.stderr[-4000:]))


def module(group, with_src=True):
    """Linked bitcode of inst/<group>.cpp and /repo/src/**.cpp"""
    d = os.path.join(tmpdir(), "%s.%d" % (group, with_src))
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, group + ".all.bc")
    objs = []
    jobs = [os.path.join(VERIF, "inst", group + ".cpp")] + (sources() if with_src else [])
    from concurrent.futures import ThreadPoolExecutor

    def one(a):
        i, s = a
        o = os.path.join(d, "%s.%d.bc" % (group, i))
        compile_one(s, o)
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, enumerate(jobs)))
    p = subprocess.run([LINK] + objs + ["-o", out], capture_output=True, text=True)
    if p.returncode:
        raise CompileError(p.stderr[-4000:])
    return llvmir.Module(out)
