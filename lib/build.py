"""Build the code under test from a source tree into a scratch copy.

The result never contains build products of the tree itself: every .pyx found is
translated and compiled here.  Results are cached in /verif/.cache by the hash of
all inputs, so several checks in the same sandbox share one build.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
CACHE = VERIF / ".cache"

SKIP_SUFFIX = {".so", ".c", ".pyc", ".html"}
FLAGS = {
    "plain": ["-O1", "-fno-strict-overflow", "-fwrapv"],
    "asan": [
        "-O1", "-g", "-fno-omit-frame-pointer", "-fwrapv",
        "-fsanitize=address", "-fsanitize=bounds,object-size,null,vla-bound,integer-divide-by-zero,unreachable,return",
        "-fno-sanitize-recover=all",
    ],
}


class BuildError(Exception):
    pass


def _sources(src):
    for p in sorted(src.rglob("*")):
        if p.is_file() and p.suffix not in SKIP_SUFFIX and "__pycache__" not in p.parts \
                and not any(q.endswith(".egg-info") for q in p.parts):
            yield p


def _numpy_include():
    out = subprocess.run(
        [PY, "-c", "import numpy, sysconfig; print(numpy.get_include()); "
                   "print(sysconfig.get_paths()['include']); print(sysconfig.get_config_var('EXT_SUFFIX'))"],
        capture_output=True, text=True, check=True).stdout.split()
    return out


def build(variant="plain"):
    """Return the directory to put on PYTHONPATH"""
    src = REPO / "src"
    h = hashlib.sha256()
    h.update(variant.encode() + repr(FLAGS[variant]).encode() + b"3")
    files = list(_sources(src))
    for p in files:
        h.update(str(p.relative_to(src)).encode() + b"\0")
        h.update(hashlib.sha256(p.read_bytes()).digest())
    key = h.hexdigest()[:24]
    CACHE.mkdir(exist_ok=True)
    dest = CACHE / f"{variant}-{key}"
    with open(CACHE / f"lock-{variant}", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if (dest / "ok").exists():
            os.utime(dest)
            return dest / "src"
        # bound the cache: remove all but the two newest builds of this variant
        olds = sorted(CACHE.glob(f"{variant}-*"), key=lambda p: p.stat().st_mtime)
        for old in olds[:-2]:
            shutil.rmtree(old, ignore_errors=True)
        if dest.exists():
            shutil.rmtree(dest)
        for p in files:
            t = dest / "src" / p.relative_to(src)
            t.parent.mkdir(parents=True, exist_ok=True)
            shutil.copyfile(p, t)
        ver = dest / "src" / "eventio" / "_version.py"
        if not ver.exists():
            ver.write_text("__version__ = version = '1.0.0'\n")
        np_inc, py_inc, suffix = _numpy_include()

        def one(pyx):
            c = pyx.with_suffix(".c")
            so = pyx.with_name(pyx.stem + suffix)
            for cmd in (
                [PY, "-m", "cython", "-3", str(pyx), "-o", str(c)],
                ["gcc", *FLAGS[variant], "-w", "-shared", "-fPIC", f"-I{np_inc}", f"-I{py_inc}",
                 "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION",
                 "-DNPY_TARGET_VERSION=NPY_1_21_API_VERSION", str(c), "-o", str(so), "-lm"],
            ):
                r = subprocess.run(cmd, capture_output=True, text=True, cwd=dest / "src")
                if r.returncode:
                    raise BuildError(f"{' '.join(cmd)}\n{r.stdout}\n{r.stderr}")

        pyxs = sorted((dest / "src").rglob("*.pyx"))
        if not pyxs:
            raise BuildError("no .pyx found")
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(one, pyxs))
        (dest / "ok").write_text("")
    return dest / "src"


def preload(name):
    """compile lib/<name>.c, a library to be loaded into the workers"""
    source = VERIF / "lib" / f"{name}.c"
    CACHE.mkdir(exist_ok=True)
    so = CACHE / f"{name}-{hashlib.sha256(source.read_bytes()).hexdigest()[:16]}.so"
    with open(CACHE / "lock-preload", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not so.exists():
            tmp = so.with_suffix(".tmp")
            r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", str(source), "-o", str(tmp), "-ldl"], capture_output=True, text=True)
            if r.returncode:
                raise BuildError(f"{source}: {r.stderr}")
            tmp.rename(so)
    return so


def env_for(variant, srcdir):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(
        PYTHONPATH=f"{srcdir}:{VERIF / 'lib'}", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
        MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", LANG="C.UTF-8", TZ="UTC",
        VERIF_BUILD=str(srcdir),
    )
    if variant == "asan":
        pre = [subprocess.run(["gcc", f"-print-file-name={n}"], capture_output=True, text=True).stdout.strip()
               for n in ("libasan.so", "libubsan.so")]
        env.update(
            LD_PRELOAD=":".join(pre), PYTHONMALLOC="malloc",
            ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=1000",
            UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=99",
        )
    return env


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        print(build(v))
