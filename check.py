#!/usr/bin/env python3
"""check.py ID [quick|thorough] [--replay INDEX] : build what the check needs from /repo and run it."""
import os, sys, subprocess, json
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import build
from concurrent.futures import ThreadPoolExecutor

REG = json.load(open(os.path.join(V, "tools", "checks.json")))

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    rest = [a for a in sys.argv[2:] if a not in ("quick", "thorough")]
    ent = REG[pid]
    os.environ.setdefault("VF_BUILD", os.path.join(V, "build"))
    os.environ.setdefault("VF_OUT", os.path.join(V, "out"))
    os.environ.setdefault("VF_EVIDENCE", os.path.join(V, "evidence"))
    os.environ.setdefault("VF_KNOWN", os.path.join(V, "known_findings.txt"))
    os.environ.update(MKL_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_CBWR="COMPATIBLE",
                      ASAN_OPTIONS="detect_leaks=0:handle_segv=1:allocator_may_return_null=1:abort_on_error=0:exitcode=77:quarantine_size_mb=8",
                      UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1")
    asan = ent.get("asan", False)
    rh = build.repo_hash()
    libs = ent["libs"] + (ent.get("thorough_libs", []) if tier == "thorough" else [])
    libs = list(dict.fromkeys(["bi"] + ([v if "_" in v else v + "_asan" for v in libs] if asan else libs)))
    opt = ent.get("opt_libs", [])  # build variants whose failure to compile is for the check to report
    os.environ["VF_LIBS"] = ",".join(libs + opt)  # the harness refuses to load anything else (it might be stale)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda v: build.build_lib(v, rh), libs))
        def attempt(v):
            try:
                build.build_lib(v, rh)
            except SystemExit:
                return v
        os.environ["VF_FAILED_LIBS"] = ",".join(v for v in ex.map(attempt, opt) if v)
        exes = list(ex.map(lambda b: build.build_bin(b, asan), [ent["bin"]]))
    os.environ["VF_CHECK"] = pid
    rc = subprocess.run([exes[0], tier] + rest).returncode
    sys.exit(rc)

main()
