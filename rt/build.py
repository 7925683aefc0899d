"""Builds an instrumented copy of /repo's working tree, cached by content under /verif/build.

Flavors:
  plain  -O2 kernels
  asan   AddressSanitizer + UndefinedBehaviorSanitizer on every native file
  tsan   ThreadSanitizer on every native file
The build runs meson on a scratch copy of the sources, so /repo itself is never written to.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
PY = "/opt/venv/bin/python"
SITE_PACKAGES = "/opt/venv/lib/python3.12/site-packages"
SKIP_TOP = {".git", "build", "doc", "demo", "benchmarks", ".github"}
FLAGS = {
    "plain": "",
    "asan": "-fsanitize=address,undefined,float-cast-overflow -fno-sanitize=alignment "
            "-fno-sanitize-recover=undefined,float-cast-overflow "
            "-fno-omit-frame-pointer -g1",
    "tsan": "-fsanitize=thread -fno-omit-frame-pointer -g1",
}
PRELOAD = {"asan": "libasan.so", "tsan": "libtsan.so"}


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.setdefault("HOME", "/root")
    e.update(LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1",
             OMP_NUM_THREADS="1", MPLBACKEND="Agg", CCACHE_DISABLE="1")
    e.pop("PYTHONPATH", None)
    return e


def sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        if rel == ".":
            dirs[:] = [d for d in dirs if d not in SKIP_TOP]
        dirs[:] = sorted(d for d in dirs if d not in ("__pycache__", ".pytest_cache", "tests"))
        for f in sorted(files):
            if f.endswith((".so", ".pyc", ".o")):
                continue
            out.append(os.path.normpath(os.path.join(rel, f)))
    return out


def digest(flavor):
    h = hashlib.sha256()
    h.update(flavor.encode() + FLAGS[flavor].encode())
    with open(os.path.abspath(__file__), "rb") as f:
        h.update(f.read())
    for rel in sources():
        h.update(rel.encode() + b"\0")
        with open(os.path.join(REPO, rel), "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def find_lib(name):
    p = subprocess.run(["gcc", "-print-file-name=" + name], capture_output=True, text=True, env=env()).stdout.strip()
    return os.path.realpath(p)


def ensure(flavor="plain"):
    """Path to put on PYTHONPATH for this flavor of the current tree."""
    key = digest(flavor)
    os.makedirs(BUILD, exist_ok=True)
    dest = os.path.join(BUILD, f"{flavor}-{key}")
    site = os.path.join(dest, "site")
    done = os.path.join(dest, "done")
    if os.path.exists(done):
        os.utime(dest)
        return site
    with open(os.path.join(BUILD, f"{flavor}.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(done):
            return site
        # keep the cache small
        old = [d for d in os.listdir(BUILD) if d.startswith(flavor + "-")]
        old.sort(key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in old[:-3]:
            if time.time() - os.path.getmtime(os.path.join(BUILD, d)) < 1800:
                continue                    # another run may be using it
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        scratch = tempfile.mkdtemp(prefix=f"vp-{flavor}-", dir=BUILD)
        try:
            _build(flavor, scratch, dest)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    os.utime(dest)
    return site


def _build(flavor, scratch, dest):
    src = os.path.join(scratch, "src")
    for rel in sources():
        to = os.path.join(src, rel)
        os.makedirs(os.path.dirname(to), exist_ok=True)
        shutil.copyfile(os.path.join(REPO, rel), to)
    # meson's install_subdir('tests') needs the folder
    os.makedirs(os.path.join(src, "pywt", "tests"), exist_ok=True)
    for d in ("", ):
        t = os.path.join(REPO, "pywt", "tests", d)
        if os.path.isdir(t):
            for f in os.listdir(t):
                if f.endswith((".py", ".build")):
                    shutil.copyfile(os.path.join(t, f), os.path.join(src, "pywt", "tests", f))
    cc = os.path.join(scratch, "cc")
    with open(cc, "w") as f:
        # the Cython-generated glue is compiled without optimisation (twice as fast to build); the kernels with -O2.
        # On the link line and in compiler probes the flags do no harm.
        f.write("#!/bin/bash\nopt=-O2\n"
                "case \"$*\" in *meson-generated_*) opt=-O0;; esac\n"
                "case \"$*\" in *--version*|*-print-*) exec gcc \"$@\";; esac\n"
                f"exec gcc \"$@\" $opt {FLAGS[flavor]}\n")
    os.chmod(cc, 0o755)
    e = env()
    e["CC"] = cc
    if flavor in PRELOAD:
        # do not let sanitizer options of the caller reach the compiler probes
        e["ASAN_OPTIONS"] = "detect_leaks=0"
    bdir, inst = os.path.join(scratch, "b"), os.path.join(scratch, "inst")
    steps = [["meson", "setup", bdir, src, "-Dbuildtype=plain", "-Db_lundef=false", "--prefix=" + inst],
             ["ninja", "-C", bdir],
             ["meson", "install", "-C", bdir, "--quiet", "--no-rebuild"]]
    log = ""
    for s in steps:
        r = subprocess.run(s, cwd=scratch, env=e, capture_output=True, text=True, timeout=700)
        log += r.stdout + r.stderr
        if r.returncode:
            raise BuildError(f"{' '.join(s[:2])} failed:\n" + log[-4000:])
    site = None
    for root, dirs, files in os.walk(inst):
        if os.path.basename(root) == "pywt" and "__init__.py" in files:
            site = os.path.dirname(root)
            break
    if site is None:
        raise BuildError("no pywt in the installed tree")
    shutil.rmtree(os.path.join(site, "pywt", "tests"), ignore_errors=True)
    tmp = dest + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    shutil.move(site, os.path.join(tmp, "site"))
    with open(os.path.join(tmp, "done"), "w") as f:
        f.write("ok\n")
    shutil.rmtree(dest, ignore_errors=True)
    os.rename(tmp, dest)


def run_env(flavor, site):
    e = env()
    # run with -S: the .pth file of the editable install would import (and rebuild) /repo itself
    e["PYTHONPATH"] = os.pathsep.join([site, VERIF, SITE_PACKAGES])
    if flavor == "asan":
        e["LD_PRELOAD"] = find_lib("libasan.so") + ":" + find_lib("libubsan.so")
        e["PYTHONMALLOC"] = "malloc"
        e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:halt_on_error=1:allocator_may_return_null=1:"
                             "detect_stack_use_after_return=0:handle_segv=1:max_allocation_size_mb=4000:"
                             "symbolize=1:quarantine_size_mb=64:malloc_context_size=12")
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    elif flavor == "tsan":
        e["LD_PRELOAD"] = find_lib("libtsan.so")
        e["TSAN_OPTIONS"] = "halt_on_error=0:report_signal_unsafe=0:history_size=4:exitcode=0"
    return e


if __name__ == "__main__":
    for fl in sys.argv[1:] or ["plain"]:
        print(ensure(fl))
