"""Builds, from /repo's current working tree, the LLVM IR that is executed symbolically and the native
library against which counterexamples are replayed.  Everything goes to a scratch cache directory keyed by
the content of the sources, so that every run re-encodes what is in /repo now."""
import fcntl
import hashlib
import os
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin"


def _hash(files):
    h = hashlib.sha256()
    for f in files:
        with open(f, "rb") as fh:
            h.update(f.encode() + b"\0" + fh.read())
    return h.hexdigest()[:24]


def cache_dir():
    d = os.path.join(tempfile.gettempdir(), f"deodr_vf_{os.getuid()}")
    os.makedirs(d, exist_ok=True)
    return d


def _sources():
    d = os.path.join(REPO, "C++")
    out = [os.path.join(VERIF, "wrapper", "wrapper.cpp")]
    for f in sorted(os.listdir(d)):
        if f.endswith((".h", ".hpp", ".inl", ".hxx")):
            out.append(os.path.join(d, f))
    return out


def _run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise RuntimeError("build failed: " + " ".join(cmd) + "\n" + p.stderr[-4000:])


def _cached(tag, files, make):
    key = _hash(files)
    path = os.path.join(cache_dir(), f"{tag}-{key}")
    if os.path.exists(path):
        return path
    with open(os.path.join(cache_dir(), tag + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(path):
            tmp = path + f".tmp{os.getpid()}"
            make(tmp)
            os.replace(tmp, path)
    return path


BASE = ["-std=c++17", "-ffp-contract=off", "-I" + os.path.join(REPO, "C++"), "-w"]


def ir_path():
    def make(tmp):
        raw = tmp + ".raw.ll"
        _run(["clang++", *BASE, "-O1", "-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm",
              os.path.join(VERIF, "wrapper", "wrapper.cpp"), "-o", raw])
        _run([os.path.join(LLVM, "opt"), "-passes=function(sroa,early-cse),globaldce", "-S", raw, "-o", tmp])
        os.unlink(raw)
    return _cached("ir", _sources(), make)


def native_path():
    def make(tmp):
        _run(["g++", *BASE, "-DVF_NATIVE", "-O2", "-fPIC", "-shared", "-x", "c++",
              os.path.join(VERIF, "wrapper", "wrapper.cpp"), "-o", tmp])
    return _cached("native.so", _sources(), make)


def sanitized_paths():
    """the renderer under the address + undefined behaviour sanitizers and under the memory sanitizer"""
    main = os.path.join(VERIF, "wrapper", "asan_main.cpp")
    inc = ["-I" + os.path.join(VERIF, "wrapper")]

    def asan(tmp):
        _run(["clang++", *BASE, *inc, "-DVF_NATIVE", "-O1", "-g", "-fsanitize=address,float-cast-overflow,integer-divide-by-zero", "-fno-sanitize-recover=all", main, "-o", tmp])

    def msan(tmp):
        _run(["clang++", *BASE, *inc, "-DVF_NATIVE", "-O1", "-g", "-fsanitize=memory", main, "-o", tmp])
    src = _sources() + [main]
    return _cached("asan", src, asan), _cached("msan", src, msan)


def bridge_path():
    """the compiled Cython bridge of /repo's working tree with a recording stand-in for the renderer"""
    shim = os.path.join(VERIF, "wrapper", "bridge_shim.h")
    pyx = os.path.join(REPO, "deodr", "differentiable_renderer_cython.pyx")

    def make(tmp):
        import shutil
        import sys
        import sysconfig
        import numpy
        d = tmp + ".d"
        os.makedirs(os.path.join(d, "p"))
        os.makedirs(os.path.join(d, "C++"))
        try:
            shutil.copy(pyx, os.path.join(d, "p", "vbridge.pyx"))
            shutil.copy(shim, os.path.join(d, "C++", "DifferentiableRenderer.h"))
            pxd = pyx[:-1] + "d"
            if os.path.exists(pxd):
                shutil.copy(pxd, os.path.join(d, "p", "vbridge.pxd"))
            cpp = os.path.join(d, "p", "vbridge.cpp")
            _run([sys.executable, "-m", "cython", "--cplus", os.path.join(d, "p", "vbridge.pyx"), "-o", cpp])
            _run(["g++", "-O0", "-fPIC", "-shared", "-w", "-fno-gnu-unique", f'-DVF_REAL_HEADER="{os.path.join(REPO, "C++", "DifferentiableRenderer.h")}"', "-I" + sysconfig.get_path("include"), "-I" + numpy.get_include(),
                  "-I" + os.path.join(REPO, "deodr"), "-I" + os.path.join(REPO, "C++"), cpp, "-o", tmp])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _cached("bridge.so", _sources() + [shim, pyx], make)
