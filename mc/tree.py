"""Builds the code under test from /repo's working tree, outside /repo.

Two variants are made from the same sources:
  native - the package with its three C++ extensions compiled
  pure   - the package without any extension (the documented pure-Python fallback)
They are cached under /verif/.build by a hash of every source file, so that a check
always sees the current working tree and never a stale build.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import time

REPO = os.environ.get("FRDS_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXTS = {
    "frds/algorithms/isolation_forest/iforest_ext": "frds/algorithms/isolation_forest/iforest_module.cpp",
    "frds/algorithms/utils/utils_ext": "frds/algorithms/utils/utils_module.cpp",
    "frds/measures/measures_ext": "frds/measures/measures_module.cpp",
}
CXX = os.environ.get("CXX", "g++")
CXXFLAGS = ["-fno-strict-overflow", "-DNDEBUG", "-g", "-O2", "-w", "-std=c++17", "-fPIC"]
SKIP_DIRS = {"__pycache__"}
SKIP_EXT = (".so", ".pyc", ".o")


def includes():
    import numpy

    out = []
    for d in (sysconfig.get_path("platinclude"), sysconfig.get_path("include"), numpy.get_include()):
        if "-I" + d not in out:
            out.append("-I" + d)
    return out


def _files(src):
    for root, dirs, files in os.walk(src):
        dirs[:] = sorted(d for d in dirs if d not in SKIP_DIRS)
        for f in sorted(files):
            if not f.endswith(SKIP_EXT):
                yield os.path.join(root, f)


def source_hash():
    h = hashlib.sha256()
    src = os.path.join(REPO, "src")
    for p in _files(src):
        h.update(os.path.relpath(p, src).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    h.update(" ".join([sys.version, CXX] + CXXFLAGS).encode())
    return h.hexdigest()[:20]


def build_root():
    for d in (os.path.join(VERIF, ".build"), os.path.join(tempfile.gettempdir(), "frds-mc-build")):
        try:
            os.makedirs(d, exist_ok=True)
            with tempfile.TemporaryFile(dir=d):
                return d
        except OSError:
            continue
    raise RuntimeError("no writable build directory")


def _copy(dst):
    src = os.path.join(REPO, "src")
    for p in _files(src):
        rel = os.path.relpath(p, src)
        if rel.split(os.sep)[0] != "frds":
            continue
        q = os.path.join(dst, rel)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        shutil.copyfile(p, q)


def run_parallel(cmds, cwd):
    procs = [subprocess.Popen(c, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for c in cmds]
    for c, p in zip(cmds, procs):
        out, _ = p.communicate()
        if p.returncode:
            raise RuntimeError("build failed: %s\n%s" % (" ".join(c), out.decode(errors="replace")))


def prepare():
    """Returns {'native': dir, 'pure': dir, 'hash': h}; each dir holds a frds package."""
    root = build_root()
    h = source_hash()
    dst = os.path.join(root, h)
    out = {"native": os.path.join(dst, "native"), "pure": os.path.join(dst, "pure"), "hash": h, "dir": dst}
    with open(os.path.join(root, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dst, "ok")):
            os.utime(dst)
            return out
        _prune(root)
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=root)
        try:
            _copy(os.path.join(tmp, "native"))
            _copy(os.path.join(tmp, "pure"))
            suffix = sysconfig.get_config_var("EXT_SUFFIX")
            run_parallel(
                [[CXX] + CXXFLAGS + ["-shared"] + includes() + [cpp, "-o", ext + suffix, "-lpthread"]
                 for ext, cpp in EXTS.items()],
                os.path.join(tmp, "native"),
            )
            open(os.path.join(tmp, "ok"), "w").close()
            if os.path.exists(dst):
                shutil.rmtree(dst)
            os.rename(tmp, dst)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
    return out


def prepare_sched(p):
    """Adds the scheduler runtime and a package whose forest extension reports its accesses to it."""
    out = os.path.join(p["dir"], "sched")
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "sched", "sched.cpp")
    with open(here, "rb") as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:16]
    with open(os.path.join(os.path.dirname(p["dir"]), "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        ok = os.path.join(out, "ok-" + tag)
        if not os.path.exists(ok):
            shutil.rmtree(out, ignore_errors=True)
            _copy(out)
            ext = "frds/algorithms/isolation_forest/iforest_ext"
            wraps = ["memcpy", "memmove", "memset", "strlen", "_Znwm", "_Znam", "malloc", "calloc", "realloc"]
            run_parallel([
                [CXX, "-O2", "-std=c++17", "-fPIC", "-fno-threadsafe-statics", "-shared", "-w", here, "-o", "libmcsched.so", "-ldl", "-lpthread"],
                [CXX, "-O1", "-g", "-fsanitize=thread", "-fno-builtin-strlen", "-DNDEBUG", "-w", "-std=c++17", "-fPIC"] + includes()
                + ["-c", EXTS[ext], "-o", "forest.o"],
            ], out)
            suffix = sysconfig.get_config_var("EXT_SUFFIX")
            run_parallel([[CXX, "-shared", "forest.o", "-o", ext + suffix] + ["-Wl,--wrap=" + w for w in wraps] + ["-lpthread"]], out)
            open(ok, "w").close()
    return out


def _prune(root, keep_s=3 * 3600):
    for d in os.listdir(root):
        p = os.path.join(root, d)
        if os.path.isdir(p) and time.time() - os.path.getmtime(p) > keep_s:
            shutil.rmtree(p, ignore_errors=True)


def prepare_asan(p):
    """A package whose extensions check every memory access."""
    out = os.path.join(p["dir"], "asan")
    with open(os.path.join(os.path.dirname(p["dir"]), "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        ok = os.path.join(out, "ok")
        if not os.path.exists(ok):
            shutil.rmtree(out, ignore_errors=True)
            _copy(out)
            suffix = sysconfig.get_config_var("EXT_SUFFIX")
            run_parallel([["g++", "-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-DNDEBUG", "-w", "-std=c++17", "-fPIC", "-shared"]
                          + includes() + [cpp, "-o", ext + suffix, "-lpthread"] for ext, cpp in EXTS.items()], out)
            open(ok, "w").close()
    return out


def asan_env():
    lib = subprocess.run(["g++", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    return dict(os.environ, LD_PRELOAD=os.path.realpath(lib), PYTHONMALLOC="malloc",
                ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:halt_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=8000")


if __name__ == "__main__":
    print(prepare())
