#!/usr/bin/env python3
"""Builds the library under test from /repo's working tree, in several variants, and the check binaries.

usage: build.py lib VARIANT...      build shared objects  $VF_BUILD/<variant>/libvf.so
       build.py bin NAME [asan]     build a harness binary from harness/NAME.cpp
Everything is rebuilt from scratch whenever the content hash of the sources it depends on changes.
"""
import hashlib, os, subprocess, sys, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
VENV = "/opt/vp/venv"
WRAPS = ["malloc", "calloc", "realloc", "free", "clock_gettime", "sigaction", "printf", "puts",
         "putchar", "vprintf", "fopen", "exit", "abort", "sched_yield"]
MKL_WRAPS = ["MKL_malloc", "MKL_calloc", "MKL_free", "mkl_sparse_d_create_csc", "mkl_sparse_destroy", "PARDISO"]
ASAN = "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -O1"

VARIANTS = {
    # name: (backend, extra cmake args, extra C flags)
    "mkl": ("mkl", [], ""),
    "bi": ("builtin", [], ""),
    "mkl_asan": ("mkl", [], ASAN),
    "bi_asan": ("builtin", [], ASAN),
    "bi_zero": ("builtin", [], "-ftrivial-auto-var-init=zero"),
    "mkl_zero": ("mkl", [], "-ftrivial-auto-var-init=zero"),
    "bi_f32": ("builtin", ["-DOSQP_USE_FLOAT=ON", "-DOSQP_USE_LONG=OFF"], ""),
    "bi_int": ("builtin", ["-DOSQP_USE_LONG=OFF"], ""),
    "mkl_int": ("mkl", ["-DOSQP_USE_LONG=OFF"], ""),
    "bi_bare": ("builtin", ["-DOSQP_ENABLE_PROFILING=OFF", "-DOSQP_ENABLE_PRINTING=OFF",
                             "-DOSQP_ENABLE_INTERRUPT=OFF", "-DOSQP_ENABLE_DERIVATIVES=OFF",
                             "-DOSQP_CODEGEN=OFF"], ""),
    "mkl_bare": ("mkl", ["-DOSQP_ENABLE_PROFILING=OFF", "-DOSQP_ENABLE_PRINTING=OFF",
                         "-DOSQP_ENABLE_INTERRUPT=OFF"], ""),
    "bi_noprof": ("builtin", ["-DOSQP_ENABLE_PROFILING=OFF"], ""),
    "bi_noprint": ("builtin", ["-DOSQP_ENABLE_PRINTING=OFF"], ""),
    "bi_nointr": ("builtin", ["-DOSQP_ENABLE_INTERRUPT=OFF"], ""),
    "bi_noderiv": ("builtin", ["-DOSQP_ENABLE_DERIVATIVES=OFF"], ""),
    "bi_nogen": ("builtin", ["-DOSQP_CODEGEN=OFF"], ""),
    "bi_intbare": ("builtin", ["-DOSQP_USE_LONG=OFF", "-DOSQP_ENABLE_PROFILING=OFF", "-DOSQP_ENABLE_PRINTING=OFF",
                                   "-DOSQP_ENABLE_INTERRUPT=OFF", "-DOSQP_ENABLE_DERIVATIVES=OFF", "-DOSQP_CODEGEN=OFF"], ""),
    "bi_f32long": ("builtin", ["-DOSQP_USE_FLOAT=ON"], ""),
    "bi_pack": ("builtin", ["-DOSQP_PACK_SETTINGS=ON"], ""),
    "bi_debug": ("builtin", ["-DCMAKE_BUILD_TYPE=Debug"], ""),
    "bi_custom": ("builtin", ["-DOSQP_CUSTOM_MEMORY=" + os.path.join(VERIF, "shim", "custom_memory.h"),
                              "-DOSQP_CUSTOM_PRINTING=" + os.path.join(VERIF, "shim", "custom_printing.h")], ""),
    "mkl_custom": ("mkl", ["-DOSQP_CUSTOM_MEMORY=" + os.path.join(VERIF, "shim", "custom_memory.h"),
                           "-DOSQP_CUSTOM_PRINTING=" + os.path.join(VERIF, "shim", "custom_printing.h")], ""),
}

def sh(cmd, log, **kw):
    with open(log, "ab") as f:
        f.write(("\n$ " + (cmd if isinstance(cmd, str) else " ".join(cmd)) + "\n").encode()); f.flush()
        r = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=f, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        sys.stderr.write("build failed: %s (log %s)\n" % (cmd, log))
        with open(log, errors="replace") as f:
            sys.stderr.write(f.read()[-3000:])
        raise SystemExit(3)

def hash_files(paths):
    h = hashlib.sha256()
    for top in paths:
        files = []
        if os.path.isfile(top):
            files = [top]
        else:
            for d, dirs, fs in os.walk(top):
                dirs.sort()
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            if os.path.islink(f) and not os.path.exists(f):
                continue
            h.update(f.encode()); h.update(b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()

def repo_hash():
    tops = [os.path.join(REPO, t) for t in ("src", "include", "algebra", "configure", "CMakeLists.txt")]
    return hash_files([t for t in tops if os.path.exists(t)])

def build_lib(variant, rh=None):
    backend, cm, cfl = VARIANTS[variant]
    out = os.path.join(BUILD, variant)
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, variant + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    key = (rh or repo_hash()) + hash_files([os.path.join(VERIF, "shim"), os.path.join(VERIF, "qdldl_standin"),
                                            os.path.abspath(__file__)])
    stamp = os.path.join(out, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == key:
        return out
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    log = os.path.join(out, "build.log")
    env = {k: v for k, v in os.environ.items() if k not in ("MKLROOT", "CONDA_PREFIX", "CFLAGS", "LDFLAGS")}
    env.update(CC="gcc", CXX="g++")
    flags = "-g1 -w -fPIC -U_FORTIFY_SOURCE -fno-builtin-printf -ffp-contract=off " + cfl
    args = ["cmake", "-S", REPO, "-B", out + "/cm", "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
            "-DOSQP_ALGEBRA_BACKEND=" + backend, "-DOSQP_BUILD_SHARED_LIB=OFF", "-DOSQP_BUILD_DEMO_EXE=OFF",
            "-DCMAKE_C_FLAGS=" + flags, "-DCMAKE_CXX_FLAGS=" + flags,
            "-DFETCHCONTENT_FULLY_DISCONNECTED=ON"] + cm
    if backend == "mkl":
        args += ["-DMKL_ROOT=" + VENV, "-DCMAKE_PREFIX_PATH=" + VENV]
    else:
        args += ["-DFETCHCONTENT_SOURCE_DIR_QDLDL=" + os.path.join(VERIF, "qdldl_standin")]
    sh(args, log, env=env)
    sh(["ninja", "-C", out + "/cm"], log, env=env)
    mklint = "long" if "-DOSQP_USE_LONG=OFF" not in cm else "int"
    # the stand-ins for the environment, linked in front of libc
    sh("gcc -O2 -g1 -fPIC -DVF_MKL_INT=%s -c %s/shim/shim.c -o %s/shim.o" % (mklint, VERIF, out), log)
    sh("gcc -O1 -g1 -w -fPIC -I%s/cm/include/public -I%s/include/public -I%s/shim %s -c %s/shim/adapter.c -o %s/adapter.o" %
       (out, REPO, VERIF, cfl, VERIF, out), log)
    wrap = " ".join("-Wl,--wrap=" + w for w in WRAPS + (MKL_WRAPS if backend == "mkl" else []))
    libs = "-lm -lrt -ldl"
    if backend == "mkl":
        libs += " -L%s/lib -Wl,-rpath,%s/lib -l:libmkl_rt.so.2" % (VENV, VENV)
    sh("gcc -shared -g1 %s -Wl,-Bsymbolic -Wl,-z,now -Wl,-z,relro -o %s/libvf.so -Wl,--whole-archive %s/cm/out/libosqpstatic.a "
       "-Wl,--no-whole-archive %s/shim.o %s/adapter.o %s %s" % (cfl, out, out, out, out, wrap, libs), log)
    with open(stamp, "w") as f:
        f.write(key)
    return out

def build_bin(name, asan=False):
    """harness/NAME.cpp + common, against the headers of variant bi (double, 64-bit)"""
    inc = os.path.join(BUILD, "bi", "cm", "include", "public")
    if not os.path.exists(inc):
        build_lib("bi")
    out = os.path.join(BUILD, "bin")
    os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, name + ("_asan" if asan else ""))
    lock = open(exe + ".lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    hd = os.path.join(VERIF, "harness")
    deps = [os.path.join(hd, f) for f in sorted(os.listdir(hd)) if f.endswith(".h") or f == "common.cpp"]
    deps += [os.path.join(hd, name + ".cpp"), os.path.join(VERIF, "shim"),
             os.path.join(REPO, "include"), os.path.join(REPO, "algebra"), os.path.abspath(__file__)]
    key = hash_files(deps) + str(asan)
    if os.path.exists(exe) and os.path.exists(exe + ".stamp") and open(exe + ".stamp").read() == key:
        return exe
    log = exe + ".log"
    if os.path.exists(log):
        os.remove(log)
    fl = "-std=c++17 -O1 -g1 -w -ffp-contract=off -I%s -I%s/include/public -I%s/include/private -I%s/../private -I%s/shim" % (inc, REPO, REPO, inc, VERIF)
    if asan:
        fl += " -fsanitize=address,undefined"
    objs = []
    jobs = []
    for src in ("common.cpp", name + ".cpp"):
        o = exe + "." + src + ".o"
        objs.append(o)
        jobs.append("g++ %s -c %s -o %s" % (fl, os.path.join(hd, src), o))
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(lambda j: sh(j, log), jobs))
    sh("g++ %s -rdynamic -o %s %s -ldl -lpthread -lm" % ("-fsanitize=address,undefined" if asan else "", exe, " ".join(objs)), log)
    with open(exe + ".stamp", "w") as f:
        f.write(key)
    return exe

if __name__ == "__main__":
    if sys.argv[1] == "lib":
        rh = repo_hash()
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda v: build_lib(v, rh), sys.argv[2:]))
    elif sys.argv[1] == "bins":
        import json
        reg = json.load(open(os.path.join(VERIF, "tools", "checks.json")))
        todo = sorted({(c["bin"], bool(c.get("asan"))) for c in reg.values()
                       if os.path.exists(os.path.join(VERIF, "harness", c["bin"] + ".cpp"))})
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda t: build_bin(*t), todo))
    else:
        build_bin(sys.argv[2], len(sys.argv) > 3)
