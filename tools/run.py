#!/usr/bin/env python3
"""Decides one property: lowers the harnesses and the /repo sources they name to
LLVM bitcode, explores every feasible path with symx, replays counterexamples
natively, and writes evidence. See DESIGN.md."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
CORES = max(2, min(8, os.cpu_count() or 2))

DEFS = ["-DORG_BUILD_EMCC=0", "-DORG_USE_CONAN_INSTALL=0", "-DORG_BUILD_WITH_PROTOBUF=0",
        "-DORG_BUILD_WITH_KIWI=0", "-DORG_BUILD_WITH_ELK=0", "-DORG_BUILD_WITH_ADAPTAGRAMS=0",
        "-DORG_BUILD_WITH_CGRAPH=0"]
BASE = ["-std=c++23", "-Wno-everything", "-include", "algorithm", "-include", "cmath",
        "-include", "format", "-I" + BUILD + "/gen", "-I" + VERIF + "/shim",
        "-I" + VERIF + "/engine", "-I" + VERIF + "/harness", "-I" + REPO + "/src"] + DEFS
IRFLAGS = ["-O1", "-g1", "-fno-pie", "-fno-pic", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
           "-fno-strict-aliasing", "-fno-delete-null-pointer-checks", "-ffp-contract=off",
           "-DSYMX_ENCODING=1", "-emit-llvm", "-c"]
NATFLAGS = ["-O1", "-g1", "-fsanitize=address,unreachable,return,integer-divide-by-zero",
            "-ffunction-sections", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-ffp-contract=off", "-c"]


def sh(cmd, timeout=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b"").decode("utf8", "replace") + "\nTIMEOUT"


class Err(Exception):
    pass


CACHE = os.path.join(BUILD, "cache")
CACHE_LIMIT = 6 << 30


def build_one(job):
    """Compiles one file. The output is reused only when the fully preprocessed
    source, which is produced anew every time, and the flags are the same."""
    src, out, flags = job
    t = time.time()
    p = subprocess.run(["clang++-18"] + [x for x in flags if x not in ("-c", "-emit-llvm")] + ["-E", src, "-o", "-"],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    kept = None
    if p.returncode == 0:
        h = hashlib.sha256("\0".join(flags + [src, os.getcwd()]).encode() + b"\0" + p.stdout).hexdigest()
        kept = os.path.join(CACHE, h)
        try:
            shutil.copyfile(kept, out)
            os.utime(kept)
            return time.time() - t
        except OSError:
            pass
    del p
    rc, o = sh(["clang++-18"] + flags + [src, "-o", out], 800)
    if rc:
        raise Err("cannot compile %s:\n%s" % (src, o[-3000:]))
    if kept:
        os.makedirs(CACHE, exist_ok=True)
        tmp = "%s.%d.%s" % (kept, os.getpid(), os.path.basename(out))
        try:
            shutil.copyfile(out, tmp)
            os.replace(tmp, kept)
        except OSError:
            pass
    if os.environ.get("SHOWERR"):
        print("%.0f s %s" % (time.time() - t, os.path.basename(src) + out[-3:]), flush=True)
    return time.time() - t


def trim_cache():
    try:
        files = sorted((os.stat(os.path.join(CACHE, n)).st_mtime, os.stat(os.path.join(CACHE, n)).st_size, n) for n in os.listdir(CACHE))
        total = sum(x[1] for x in files)
        for _, size, n in files:
            if total <= CACHE_LIMIT:
                break
            os.unlink(os.path.join(CACHE, n))
            total -= size
    except OSError:
        pass


def main():
    t0 = time.time()
    pid = sys.argv[1]
    only = sys.argv[2:] or None
    spec = json.load(open(os.path.join(VERIF, "harness", pid + ".json")))
    rc, o = sh(["bash", os.path.join(VERIF, "tools", "setup.sh")])
    if rc:
        raise Err("setup failed\n" + o)
    trim_cache()
    work = tempfile.mkdtemp(prefix="w_%s_" % pid, dir=BUILD)
    try:
        code = run(pid, spec, only, work, t0)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def srcpath(s):
    return os.path.join(VERIF, "harness", s[2:]) if s.startswith("h:") else os.path.join(REPO, s)


def run(pid, spec, only, work, t0):
    budget = 840 if TIER == "quick" else float(os.environ.get("VERIF_BUDGET", "3300"))
    tierdef = ["-DTIER_THOROUGH=1"] if TIER == "thorough" else []
    units = []
    irjobs, natjobs = {}, {}

    def want(src, extra, nat_opt):
        key = hashlib.sha1(("\0".join([src] + extra)).encode()).hexdigest()[:12]
        ir = os.path.join(work, key + ".bc")
        nat = os.path.join(work, key + ".o")
        irjobs[ir] = (src, ir, BASE + ["-I" + BUILD + "/genx"] + IRFLAGS + tierdef + extra)
        natjobs[nat] = (src, nat, BASE + NATFLAGS + nat_opt + tierdef + extra)
        return ir, nat

    for ui, u in enumerate(spec["units"]):
        if TIER == "quick" and u.get("tier") == "thorough":
            continue
        extra = u.get("flags", [])
        nat_opt = u.get("nat_opt", [])
        parts = [want(srcpath(s), extra, nat_opt) for s in u.get("slow", []) + ["h:" + u["harness"]] + u.get("sources", [])]
        ents = [e for e in u["entries"] if (TIER == "thorough" or e.get("tier") != "thorough")
                and (not only or e["name"] in only)]
        if ents:
            units.append({"spec": u, "parts": parts, "entries": ents, "idx": ui, "extra": extra})
    pool = cf.ThreadPoolExecutor(CORES)
    # native builds run alongside the IR builds and the exploration
    natpool = cf.ThreadPoolExecutor(max(2, CORES // 2))
    irf = {k: pool.submit(build_one, j) for k, j in irjobs.items()}
    natf = {}

    def native(u, entry):
        for _, n in u["parts"]:
            natf[n].result()
        main_o = os.path.join(work, "main_%d_%s.o" % (u["idx"], entry))
        build_one((os.path.join(VERIF, "engine", "replay.cpp"), main_o,
                   ["-std=c++20", "-O0", "-g1", "-fsanitize=address", "-c", "-DHARNESS_ENTRY=" + entry, "-I" + VERIF + "/engine"]))
        exe = os.path.join(work, "nat_%d_%s" % (u["idx"], entry))
        link = (["clang++-18", "-fsanitize=address,unreachable,return,integer-divide-by-zero", main_o]
                + [n for _, n in u["parts"]] + ["-o", exe, "-Wl,--gc-sections"] + u["spec"].get("libs", []))
        rc, o = sh(link + ["-Wl,--warn-unresolved-symbols", "-Wl,--no-demangle"], 600)
        undef = sorted(set(re.findall(r"undefined reference to [`']([^']+)'", o)))
        if rc == 0 and undef:
            # never reached from the entry; no verdict if they are
            stub = exe + ".s"
            with open(stub, "w") as f:
                f.write(".text\n" + "".join(".globl \"%s\"\n\"%s\":\n" % (x, x) for x in undef) + "jmp symx_unresolved\n.section .note.GNU-stack\n")
            rc, o = sh(link + [stub], 600)
        if rc:
            raise Err("native link failed for %s:\n%s" % (entry, o[-3000:]))
        return exe

    for u in units:
        for bc, _ in u["parts"]:
            irf[bc].result()
        u["bc"] = os.path.join(work, "u%d.bc" % u["idx"])
        rc, o = sh(["llvm-link-18"] + [bc for bc, _ in u["parts"]] + [os.path.join(BUILD, "rt.bc"), "-o", u["bc"]])
        if rc:
            raise Err("llvm-link failed\n" + o[-3000:])
    t_ir = time.time() - t0

    def explore(u, e):
        name = e["name"]
        bc = os.path.join(work, "e_%d_%s.bc" % (u["idx"], name))
        rc, o = sh(["opt-18", "-passes=internalize,globaldce", "-internalize-public-api-list=" + name, u["bc"], "-o", bc])
        if rc:
            raise Err("opt failed\n" + o[-2000:])
        out = os.path.join(work, "r_%d_%s.json" % (u["idx"], name))
        lim = min(e.get("time", 600) * (1 if TIER == "quick" else 5), max(20, budget - 60 - (time.time() - t0)))
        cmd = [os.path.join(BUILD, "symx"), bc, "--entry=" + name, "--out=" + out, "--time=%d" % lim,
               "--max-steps=%d" % e.get("max_steps", 5000000), "--max-viol=%d" % e.get("max_viol", 1)]
        if e.get("fork_select"):
            cmd.append("--fork-select")
        dump = None
        if TIER == "thorough" and e.get("crosscheck", True):
            dump = os.path.join(work, "smt_%d_%s" % (u["idx"], name))
            os.mkdir(dump)
            cmd.append("--dump=" + dump)
        rc, o = sh(cmd, lim + 120)
        if rc not in (0, 1, 2) or not os.path.exists(out):
            return {"entry": name, "verdict": "error", "inconclusive": ["engine exit %s: %s" % (rc, o[-1500:])]}
        r = json.load(open(out))
        r["stderr"] = o[-800:]
        if os.environ.get("SHOWERR"): print(o[-3000:])
        r["unit"] = u
        r["spec"] = e
        if dump:
            r["crosscheck"] = crosscheck(dump)
        return r

    need_native = spec.get("validate", True)
    if need_native:
        for k, j in natjobs.items():
            natf[k] = natpool.submit(build_one, j)
    exef = {}
    linkpool = cf.ThreadPoolExecutor(max(2, CORES // 2))
    if need_native:
        for u in units:
            for e in u["entries"]:
                exef[u["idx"], e["name"]] = linkpool.submit(native, u, e["name"])
    runs = [(u, e) for u in units for e in u["entries"]]
    runs.sort(key=lambda p: -p[1].get("time", 600))
    futs = [pool.submit(explore, u, e) for u, e in runs]
    results = [f.result() for f in futs]

    def nat(u, name):
        if not natf:
            for k, j in natjobs.items():
                natf[k] = natpool.submit(build_one, j)
        if (u["idx"], name) in exef:
            return exef[u["idx"], name].result()
        return native(u, name)

    def replay(exe, inputs, tmo=25):
        fn = tempfile.mktemp(dir=work, suffix=".in")
        with open(fn, "w") as f:
            for n, v in inputs:
                f.write("%s %d\n" % (n, v))
        env_rc, o = sh(["env", "ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=0", exe, fn], tmo)
        return env_rc, o

    problems, viol, validated = [], [], 0
    known = load_known(pid)
    known_hit = []
    for r in results:
        name = r["entry"]
        if r["verdict"] == "error":
            problems.append("%s: %s" % (name, r["inconclusive"]))
            continue
        e, u = r["spec"], r["unit"]
        if r["verdict"] == "violation":
            exe = nat(u, name)
            for v in r["violations"]:
                rc, o = replay(exe, v["inputs"])
                hang = rc == -9
                ok = rc == 1 or (hang and v["kind"] in ("steps", "stack"))
                if v["kind"] == "stack" and rc not in (0, 4, 5, 6):
                    ok = True
                if ok:
                    k = [f for f in known if f["entry"] == name and f["what"] == v["what"]]
                    (known_hit if k else viol).append((name, v, o, rc))
                else:
                    problems.append("%s: counterexample for '%s' did not replay (rc=%s): %s | %s | inputs=%s" % (name, v["what"], rc, v["where"], o[-300:], v["inputs"]))
        elif r["verdict"] == "inconclusive":
            problems.append("%s: inconclusive: %s" % (name, "; ".join(r["inconclusive"])))
        if r["verdict"] == "holds":
            for lab in e.get("reach", []):
                if not r["reached"].get(lab):
                    problems.append("%s: vacuous: label '%s' never reached" % (name, lab))
            if r["paths"] == 0:
                problems.append("%s: vacuous: no feasible path" % name)
            if need_native and r["samples"]:
                exe = nat(u, name)
                for smp in r["samples"][:3]:
                    rc, o = replay(exe, smp, 60)
                    if rc == 0:
                        validated += 1
                    else:
                        problems.append("%s: translator validation: native run disagrees (rc=%s) on %s: %s" % (name, rc, smp, o[-500:]))
            cc = r.get("crosscheck")
            if cc and cc["disagree"]:
                problems.append("%s: second solver disagrees on %s" % (name, cc["disagree"]))
    wall = time.time() - t0
    if not only:
        write_evidence(pid, spec, results, validated, viol, known_hit, problems, wall, t_ir)
    for r in results:
        if r["verdict"] != "error":
            print("%-34s %-12s paths=%d infeasible=%d steps=%d queries=%d checks=%d solver=%.1fs wall=%.1fs rss=%dMB" % (
                r["entry"], r["verdict"], r["paths"], r["infeasible_paths"], r["steps"], r["queries"], r["checks_evaluated"], r["solver_s"], r["wall_s"], r["maxrss_mb"]))
    for name, v, o, rc in known_hit:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, name, v["what"]))
    if viol:
        for name, v, o, rc in viol:
            path = os.path.join(VERIF, "evidence", "%s.%s.replay" % (pid, name))
            with open(path, "w") as f:
                f.write("# property %s, harness entry %s\n# %s: %s\n" % (pid, name, v["kind"], v["what"]))
                for l in v["where"].splitlines():
                    f.write("#   " + l + "\n")
                f.write("# native replay:\n" + "".join("#   %s\n" % l for l in o.splitlines()[:40]))
                for n, x in v["inputs"]:
                    f.write("%s %d\n" % (n, x))
            print("%s: %s: %s\n%s" % (name, v["kind"], v["what"], v["where"]))
            print("inputs: %s" % v["inputs"])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if problems:
        for p in problems:
            print("INCONCLUSIVE " + p)
        return 2
    print("HOLDS property=%s tier=%s wall=%.1fs" % (pid, TIER, wall))
    return 0


def crosscheck(d):
    """Re-decides a sample of the discharged queries with cvc5."""
    n, dis, errs = 0, [], 0
    for f in sorted(os.listdir(d))[:60]:
        exp = f.split(".")[1]
        if exp == "unk":
            continue
        rc, o = sh(["cvc5", "--tlimit=10000", os.path.join(d, f)], 20)
        w = o.strip().splitlines()[:1]
        if w and w[0] in ("sat", "unsat"):
            n += 1
            if w[0] != exp:
                dis.append(f)
        else:
            errs += 1
    shutil.rmtree(d, ignore_errors=True)
    return {"agreed": n - len(dis), "disagree": dis, "undecided_by_second": errs}


def load_known(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("open", []) if f["property"] == pid]


def write_evidence(pid, spec, results, validated, viol, known_hit, problems, wall, t_ir):
    ok = [r for r in results if r["verdict"] != "error"]
    tot = lambda k: int(sum(r.get(k, 0) for r in ok))
    fns = set()
    for r in ok:
        for f in r["functions"]:
            if "hstd" in f or "org::" in f or "visitation" in f:
                fns.add(f[:140])
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("steps"),
            "traces_validated_against_impl": validated,
            "samples": [{"entry": r["entry"], "assignment": r["samples"][0] if r["samples"] else []} for r in ok][:12],
            "queries_discharged": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"),
            "solver_s": round(sum(r["solver_s"] for r in ok), 2),
            "assertions_evaluated": tot("checks_evaluated"),
            "infeasible_paths": tot("infeasible_paths"),
            "encode_s": round(t_ir, 1),
            "entries": [{"entry": r["entry"], "verdict": r["verdict"], "paths": r["paths"], "queries": r["queries"],
                         "symbolic_variables": r["symbolic_variables"], "wall_s": round(r["wall_s"], 2), "checks": r["checks"], "reached": r["reached"],
                         "bounds": r["spec"].get("bounds", ""), "crosscheck": r.get("crosscheck")} for r in ok],
            "functions_encoded_count": len(fns),
            "functions_encoded": sorted(fns)[:80],
            "states_meaning": "feasible execution paths completely explored; transitions are executed IR instructions",
        },
        "assumptions": spec.get("assumptions", []) + COMMON,
        "wall_s": round(wall, 1),
        "violations": len(viol),
        "known_findings": len(known_hit),
        "problems": problems,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


COMMON = [
    "clang -O1 lowering and the symx interpreter are trusted; sampled paths are replayed natively on every run",
    "out-of-line libstdc++/libc functions are replaced by the models in rt/ (hash functions, tree balancing and message formatting are abstracted)",
    "inputs beyond the stated bounds are not covered",
]

if __name__ == "__main__":
    try:
        main()
    except Err as e:
        print("ERROR " + str(e))
        sys.exit(3)
