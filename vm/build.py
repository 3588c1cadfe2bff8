"""Build batoid's extension from /repo's *current* working tree into a scratch package.

Nothing is written under /repo.  The scratch package is a directory holding
    batoid/*.py           (copies of the current files)
    batoid/data           (symlink to /repo/batoid/data)
    batoid/_batoid*.so    (compiled here from /repo/src, /repo/pysrc, /repo/include)
and is put first on PYTHONPATH of the workers.
"""
import os
import shutil
import subprocess
import sys
import sysconfig
import glob
import time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VM_REPO", "/repo")
PY = "/opt/venv/bin/python"
EXT = "_batoid.cpython-312-x86_64-linux-gnu.so"

FLAVOURS = {
    # flags for src (the numerical code), flags for pysrc (pybind11 glue), compiler, link flags
    "plain": dict(cxx="g++", src="-O2 -g1 -fopenmp", py="-O0 -fopenmp", link="-fopenmp"),
    "asan": dict(
        cxx="g++",
        src="-O1 -g1 -fno-omit-frame-pointer -fopenmp -fsanitize=address,undefined "
            "-fno-sanitize=float-divide-by-zero -fsanitize=float-cast-overflow",
        py="-O0 -g1 -fno-omit-frame-pointer -fopenmp -fsanitize=address",
        link="-fopenmp -fsanitize=address,undefined"),
    # the OpenMP runtime is replaced by our own pthread implementation (vm/native/gompshim.cpp),
    # because libgomp itself is not instrumented and would hide or invent happens-before edges
    "tsan": dict(
        cxx="g++",
        src="-O1 -g1 -fno-omit-frame-pointer -fopenmp -fsanitize=thread",
        py="-O0 -g1 -fopenmp",
        link="-fsanitize=thread"),
    # the same runtime without instrumentation: teams can be run one thread at a time in a chosen order
    # plain, with vm/native/memcount.cpp preloaded: every block asked for by the core is accounted for
    "mem": dict(cxx="g++", src="-O2 -g1 -fopenmp", py="-O0 -fopenmp", link="-fopenmp"),
    "shim": dict(cxx="g++", src="-O2 -g1 -fopenmp", py="-O0 -fopenmp", link=""),
}


# the same build, run with other settings
ALIAS = {"asan2": "asan"}


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, shell=True, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(cmd + "\n" + p.stdout[-2000:] + p.stderr[-6000:])


def build(scratch, flavour="plain", jobs=None):
    """Compile and lay out the scratch package; return (pythonpath, seconds)."""
    t0 = time.time()
    fl = FLAVOURS[flavour]
    jobs = jobs or os.cpu_count() or 8
    obj = os.path.join(scratch, "obj_" + flavour)
    pkg = os.path.join(scratch, "site_" + flavour, "batoid")
    os.makedirs(obj)
    os.makedirs(pkg)
    inc = "-I%s/include -I%s -I%s" % (
        REPO,
        "/usr/include/python3.12",
        "/opt/venv/lib/python3.12/site-packages/pybind11/include",
    )
    base = "%s -std=c++14 -fPIC -fvisibility=hidden -Wno-unused-value -w " % fl["cxx"]
    cmds, objs = [], []
    srcs = [(f, "py") for f in sorted(glob.glob(REPO + "/pysrc/*.cpp"))]
    srcs += [(f, "src") for f in sorted(glob.glob(REPO + "/src/*.cpp"))]
    if len(srcs) < 10:
        raise BuildError("sources of the extension not found under " + REPO)
    # largest glue files first, so that the pool drains evenly
    srcs.sort(key=lambda s: (s[1] != "py", -os.path.getsize(s[0])))
    for f, kind in srcs:
        o = os.path.join(obj, kind + "_" + os.path.basename(f) + ".o")
        objs.append(o)
        cmds.append("%s %s %s -c %s -o %s" % (base, fl[kind], inc, f, o))
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(_run, cmds))
    extra = ""
    if flavour in ("tsan", "shim"):
        shim = os.path.join(obj, "gompshim.o")
        _run("g++ -std=c++14 -O1 -g1 -fPIC %s -c %s -o %s" % (
            "-fsanitize=thread" if flavour == "tsan" else "", os.path.join(os.path.dirname(__file__), "native", "gompshim.cpp"), shim))
        extra = shim
    _run("%s -shared -o %s %s %s %s" % (
        fl["cxx"], os.path.join(pkg, EXT), " ".join(objs), extra, fl["link"]))
    if flavour == "mem":
        _run("g++ -std=c++17 -O2 -g1 -fPIC -shared -o %s %s -lpthread" % (
            os.path.join(os.path.dirname(pkg), "memcount.so"),
            os.path.join(os.path.dirname(__file__), "native", "memcount.cpp")))
    for f in glob.glob(REPO + "/batoid/*.py"):
        shutil.copy(f, pkg)
    if not os.path.exists(os.path.join(pkg, "_version.py")):
        with open(os.path.join(pkg, "_version.py"), "w") as fh:
            fh.write("__version__ = version = '0.7.0'\n")
    os.symlink(REPO + "/batoid/data", os.path.join(pkg, "data"))
    shutil.rmtree(obj)
    return os.path.dirname(pkg), time.time() - t0


def base_env(flavour="plain", threads=2):
    env = dict(os.environ)
    for k in ("PYTHONPATH", "BATOID_GPU", "LD_PRELOAD"):
        env.pop(k, None)
    env.update(
        HOME=env.get("HOME", "/root"), LANG="C.UTF-8", LC_ALL="C.UTF-8",
        PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
        OMP_NUM_THREADS=str(threads), OMP_WAIT_POLICY="passive", OPENBLAS_NUM_THREADS="1",
    )
    if flavour in ("asan", "asan2"):
        env["LD_PRELOAD"] = subprocess.check_output(
            ["g++", "-print-file-name=libasan.so"], text=True).strip() + ":" + \
            subprocess.check_output(["g++", "-print-file-name=libstdc++.so"], text=True).strip()
        env["PYTHONMALLOC"] = "malloc"
        env["ASAN_OPTIONS"] = ("detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=77:"
                               "allocator_may_return_null=1:detect_stack_use_after_return=1:"
                               "malloc_fill_byte=190:max_malloc_fill_size=100000000:"
                               "max_free_fill_size=100000000:free_fill_byte=219:"
                               "quarantine_size_mb=64:redzone=64")
        if flavour == "asan2":
            env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("fill_byte=190", "fill_byte=255").replace(
                "fill_byte=219", "fill_byte=127")
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    if flavour == "tsan":
        env["LD_PRELOAD"] = subprocess.check_output(
            ["g++", "-print-file-name=libtsan.so"], text=True).strip()
        env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=67:report_signal_unsafe=0:history_size=4"
    return env
