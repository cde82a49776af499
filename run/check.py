#!/usr/bin/env python3
"""Build the library from /repo's working tree plus one property harness, run it, write evidence.

usage: check.py <ID> [--tier quick|thorough] [--replay FILE] [--build-only] [--only SUB] [--mult X]
exit 0: property held on everything explored;  exit 1: VIOLATION line printed.
"""
import argparse, concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "run"))
from props import PROPS  # id -> dict(src, san, mpi, assumptions, budgets)

DEFS = ["-DENABLE_OPENMP", "-DENABLE_MPI", "-DARMA_USE_LAPACK", "-DARMA_USE_BLAS", "-DARMA_DONT_USE_WRAPPER",
        "-DM_PI=3.14159265358979323846", "-DM_PI_2=1.57079632679489661923", "-DDOUBLE_EPS=1e-8", "-DDBL_MAX=__DBL_MAX__"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def mpi_flags(kind):
    r = sh(["mpicxx", "--showme:" + kind])
    return r.stdout.split() if r.returncode == 0 else []


def tree_hash():
    h = hashlib.sha256()
    for root in ("include", "src"):
        for p in sorted(glob.glob(os.path.join(REPO, root, "**", "*"), recursive=True)):
            if os.path.isfile(p):
                h.update(os.path.relpath(p, REPO).encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


def lib_sources():
    out = []
    for p in sorted(glob.glob(os.path.join(REPO, "src", "gwmodelpp", "**", "*.cpp"), recursive=True)):
        rel = os.path.relpath(p, REPO).lower()
        if "cuda" in rel or "cumat" in rel:
            continue
        out.append(p)
    return out


# Large translation units: only those a harness needs are compiled first; if the link then fails (say, because
# code moved between files), the whole library is compiled.
LARGE = {"GTWR", "GWDA", "GWDR", "GWPCA", "GWRBasic", "GWRGeneralized", "GWRLocalCollinearity", "GWRMultiscale", "GWRRobust",
         "GWRScalable", "GWSS", "GeneralizedLinearModel", "PoissonModel", "BinomialModel"}


def build(pid, cfg):
    exe = build_with(pid, cfg, cfg.get("units"))
    return exe if exe else build_with(pid, cfg, None)


def build_with(pid, cfg, units):
    san = cfg.get("san", False)
    opt = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] if san is True else ["-O1", "-g1", "-fsanitize=thread"] if san == "thread" else ["-O1", "-g0"]
    inc = ["-I" + os.path.join(REPO, p) for p in ("include", "include/gwmodelpp", "include/gwmodelpp/utils", "include/gwmodelcuda")] + ["-I" + os.path.join(HERE, "harness")]
    flags = ["-std=c++17", "-fopenmp", "-w"] + DEFS + inc + mpi_flags("compile")
    th = tree_hash()
    root = os.path.join(HERE, ".build"); os.makedirs(root, exist_ok=True)
    base = os.path.join(root, ("tsan" if san == "thread" else "san" if san else "opt"))
    libdir = os.path.join(base, "lib-" + th[:20])
    # keep at most this tree's objects for each flavour
    os.makedirs(libdir, exist_ok=True)
    for d in glob.glob(os.path.join(base, "lib-*")):
        if d != libdir:
            shutil.rmtree(d, ignore_errors=True)
    jobs = []
    srcs = [p for p in lib_sources() if units is None or os.path.splitext(os.path.basename(p))[0] not in LARGE or os.path.splitext(os.path.basename(p))[0] in units]
    for p in srcs:
        o = os.path.join(libdir, os.path.relpath(p, REPO).replace("/", "_") + ".o")
        if not os.path.exists(o):
            jobs.append((["g++"] + opt + flags + ["-c", p, "-o", o + ".tmp"], o))
    objs = [os.path.join(libdir, os.path.relpath(p, REPO).replace("/", "_") + ".o") for p in srcs]
    hh = hashlib.sha256()
    for p in sorted(glob.glob(os.path.join(HERE, "harness", "*.hpp"))) + [os.path.join(HERE, "harness", s) for s in cfg["src"]]:
        hh.update(open(p, "rb").read())
    hobjs = []
    hopt = opt if san else ["-O1", "-g0"]
    for s in cfg["src"]:
        o = os.path.join(libdir, "h_" + s + "-" + hh.hexdigest()[:16] + ".o"); hobjs.append(o)
        if not os.path.exists(o):
            jobs.insert(0, (["g++"] + hopt + flags + ["-c", os.path.join(HERE, "harness", s), "-o", o + ".tmp"], o))

    def one(j):
        r = sh(j[0])
        if r.returncode == 0:
            os.replace(j[0][-1], j[1])
        return r, j

    errs = []
    with concurrent.futures.ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 8)) as ex:
        for r, j in ex.map(one, jobs):
            if r.returncode != 0:
                errs.append((j[0][-3], r.stdout[-3000:]))
    if errs:
        for e in errs:
            print("BUILD ERROR", e[0], "\n", e[1], file=sys.stderr)
        print("check could not be built: the tree does not compile", file=sys.stderr)
        sys.exit(3)
    exe = os.path.join(libdir, "bin_" + pid + "_" + hh.hexdigest()[:16])
    if not os.path.exists(exe):
        r = sh(["g++"] + opt + ["-fopenmp"] + hobjs + objs + ["-o", exe + ".tmp", "-larmadillo", "-lopenblas", "-llapack", "-lgsl", "-lgslcblas"] + mpi_flags("link"))
        if r.returncode != 0:
            if units is not None:
                return None
            print("LINK ERROR\n" + r.stdout[-4000:], file=sys.stderr); sys.exit(3)
        os.replace(exe + ".tmp", exe)
    return exe


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--build-only", action="store_true"); ap.add_argument("--only"); ap.add_argument("--mult")
    a = ap.parse_args()
    pid, cfg = a.pid, PROPS[a.pid]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    exe = build(pid, cfg)
    tb = time.time() - t0
    if a.build_only:
        print(exe); return 0
    env = dict(os.environ, OPENBLAS_NUM_THREADS="1", OMP_WAIT_POLICY="passive", OMP_DYNAMIC="false",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1", TSAN_OPTIONS="halt_on_error=1:abort_on_error=1:history_size=4:die_after_fork=0:report_signal_unsafe=0", UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1",
               OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_plm="isolated",
               OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none", PRTE_MCA_rmaps_default_mapping_policy=":oversubscribe", OMPI_MCA_mpi_yield_when_idle="1", VERIF_EXE=exe)
    env.pop("OMP_NUM_THREADS", None)
    if a.replay:
        return subprocess.run([exe, "--prop", pid, "--replay", a.replay], env=env).returncode
    os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
    outp = os.path.join(HERE, ".build", pid + ".result.json")
    if os.path.exists(outp):
        os.remove(outp)
    rep = os.path.join(HERE, "evidence", "replays", "%s-%s-seed%d.json" % (pid, a.tier, seed))
    if os.path.exists(rep):
        os.remove(rep)
    budget = cfg.get("budget_thorough", 420) if a.tier == "thorough" else cfg.get("budget_quick", 240)
    cmd = [exe, "--prop", pid, "--tier", a.tier, "--seed", str(seed), "--out", outp, "--replay-out", rep, "--budget", str(budget), "--workers", str(cfg.get("workers", 8))]
    if a.only: cmd += ["--only", a.only]
    if a.mult: cmd += ["--mult", a.mult]
    subprocess.run(cmd, env=env)
    if not os.path.exists(outp):
        print("the harness produced no result", file=sys.stderr); return 3
    res = json.load(open(outp)); os.remove(outp)
    known = [k for k in load_known()["known"] if k["property"] == pid]
    present = []
    for k in res.get("known", []):
        if k["present"] and any(e["id"] == k["id"] for e in known):
            present.append(k)
    viol = []
    if res["failed"]:
        viol.append({"sub": res["sub"], "message": res["message"], "case": res["description"], "replay": rep})
    ev = {"property": pid, "tier": a.tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"], "rule": res["rule"],
                       "samples": res["samples"], "discarded": res["discarded"], "subchecks": res["subs"], "labels": res["labels"]},
          "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2), "violations": len(viol), "violation_details": viol,
          "known_findings": [{"id": k["id"], "what": k["what"]} for k in present],
          "assumptions": cfg.get("assumptions", [])}
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for k in present:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k["id"], k["what"]))
    print("%s %s seed=%d: %d cases (%d distinct non-trivial, %d discarded) in %.1fs (+%.1fs build)" % (pid, a.tier, seed, res["evaluations"], res["distinct_nontrivial"], res["discarded"], res["wall_s"], tb))
    if viol:
        print("  %s: %s\n  case: %s" % (res["sub"], res["message"], res["description"]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 0


sys.exit(main())
