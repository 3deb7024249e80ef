#!/usr/bin/env python3-vt
"""check.py PROPERTY - decide one property on /repo's current working tree.

1. extract: clang/opt turn the real sources (instantiated by harness/*.cpp) into LLVM IR
2. prove:   the contract verifier in engine/ generates and discharges every obligation (for all inputs)
3. replay:  the same contracts run as concrete checks against the real code (g++, ASan, UBSan); this finds the
            failing input when an obligation fails, and stands in (bounded) for what the verifier cannot reach
exit 0: held; exit 1 and a VIOLATION line: broken."""
import fcntl
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "props"))

import extract
import registry

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
CASE_BUDGET = 3000 if THOROUGH else 560
DRIVE_BUDGET = 60 if THOROUGH else 6          # seconds per mode, always
HUNT_BUDGET = 240 if THOROUGH else 75         # seconds per mode, when an obligation is open

TRUSTED = ["clang 18 front end and opt (sroa, inline, early-cse, simplifycfg, instsimplify, loop-simplify): C++ to LLVM IR",
           "the verifier in /verif/engine (symbolic execution, loop summaries, certificate checker)",
           "z3 4.x for obligations without a polynomial certificate",
           "models of library externals in engine/externs.py (operator new/delete, memcpy/memmove/memset, OpenMP runtime)"]
ASSUME = ["floating point values are treated as real numbers (rounding, overflow to infinity and NaN are not modelled)",
          "integers are 64-bit machine integers: every operation carries a no-wrap obligation; sizes are bounded by the"
          " addressable memory (stated in each contract)"]


def ir_of(src, ll, flags):
    """extract once per run, whichever worker comes first"""
    with open(ll + ".lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(ll + ".err"):
            raise extract.ExtractError(open(ll + ".err").read())
        if not os.path.exists(ll):
            try:
                extract.compile_ir(src, ll, flags, repo=REPO)
            except extract.ExtractError as e:
                with open(ll + ".err", "w") as f:
                    f.write(str(e))
                raise


def findings():
    """(id, property and what fails) of the genuine defects recorded rather than repaired"""
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        return [(m.group(2), (m.group(1), m.group(3))) for m in re.finditer(r"^finding: property=(\S+) id=(\S+) (.*)$", f.read(), re.M)]


def run_case(job):
    module, (src, path, flags), expr, end, label = job
    import importlib
    sys.setrecursionlimit(20000)
    t0 = time.time()
    res = {"case": expr + label, "broken": None, "obligations": 0, "failed": [], "functions": [], "assumptions": [], "unsupported": None}
    try:
        import prove
        from contract import Case
        from symex import Unsupported
        m = importlib.import_module(module)
        try:
            ir_of(src, path, flags)
        except extract.ExtractError as e:
            res["broken"] = str(e)
            return res
        mod = extract.load(path)
        prove.STATS.__init__()
        if THOROUGH:
            prove.DUMP = []
        c = Case(mod, expr, end)
        c.listed = {k for k, _ in findings()}
        try:
            c.verify(eval("m." + expr))
        except Unsupported as e:
            res["unsupported"] = str(e)[:400] or "unsupported"
        except RecursionError:
            res["unsupported"] = "recursion limit"
        except Exception as e:      # an engine limitation, never a verdict
            res["unsupported"] = "internal: %s" % (traceback.format_exc()[-600:])
        X = c.X
        res["known"] = sorted(c.known)
        kinds = {}
        for o in X.obls:
            kinds[o.kind] = kinds.get(o.kind, 0) + 1
        res["kinds"] = kinds
        res["obligations"] = len(X.obls)
        res["failed"] = [dict(kind=o.kind, name=o.name, detail=str(o.detail)[:1500], loc=o.loc, model=o.model)
                         for o in X.obls if not o.ok]
        res["functions"] = sorted(X.functions)
        res["assumptions"] = sorted(X.assumptions)
        s = prove.STATS
        res["backend"] = {"certificate": s.cert, "trivial": s.trivial, "z3": s.z3, "z3_seconds": round(s.z3_time, 2),
                          "certificate_seconds": round(s.cert_time, 2)}
        if THOROUGH and prove.DUMP:
            import recheck
            res["recheck"] = recheck.certificates(prove.DUMP, end)
    except Exception:
        res["unsupported"] = "internal: " + traceback.format_exc()[-600:]
    res["wall"] = round(time.time() - t0, 2)
    return res


# ------------------------------------------------------------------------------------------------ concrete replay
def dictionary(files, models):
    vals = set()
    for f in files:
        try:
            src = open(os.path.join(REPO, f), errors="replace").read()
        except OSError:
            continue
        src = re.sub(r"/\*.*?\*/", " ", src, flags=re.S)
        src = re.sub(r"//[^\n]*", " ", src)
        src = re.sub(r"^\s*#\s*include[^\n]*", " ", src, flags=re.M)
        for x in re.findall(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])", src):
            v = int(x, 0) if not re.match(r"0\d", x) else int(x, 8)
            if 2 <= v <= 1 << 40:
                vals.add(v)
        for m in re.finditer(r"1(?:[uUlL]*)\s*<<\s*(\d+)", src):
            vals.add(1 << min(40, int(m.group(1))))
    harvested = sorted(vals)
    out = list(harvested)
    for v in harvested:
        out += [v + 1, v - 1]
    for m in models:
        for v in (m or {}).values():
            if 0 < v <= 1 << 40:
                out.append(v)
    for k in (16, 64, 128):
        out.append(k)
    seen, r = set(), []
    for v in out:
        if v not in seen and v >= 1:
            seen.add(v)
            r.append(v)
    return r[:400]


CXX = ["g++", "-std=c++14", "-O1", "-g", "-fopenmp", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]


def place(flag):
    return flag.replace("/repo", REPO).replace("/verif", HERE)


def build_driver(spec, tmp):
    out = os.path.join(tmp, "driver")
    cmd = list(spec.get("cxx", CXX)) + ["-I" + os.path.join(HERE, "drivers")] + ["-I" + place(x) for x in spec.get("include", ["/repo/src"])]
    cmd += spec.get("cxxflags", []) + ["-o", out, os.path.join(HERE, "drivers", spec["driver"] + ".cpp")]
    objs = []
    for k, s in enumerate(spec.get("sources", [])):
        name, fl = s if isinstance(s, tuple) else (s, [])
        o = os.path.join(tmp, "s%d.o" % k)
        c = list(spec.get("cxx", CXX)) + [place(x) for x in fl] + ["-c", "-o", o, os.path.join(REPO, name)]
        objs.append((o, c, subprocess.Popen(c, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=tmp)))
    bad = []
    for o, c, p in objs:
        e = p.communicate()[1]
        if p.returncode:
            bad.append(e[-2000:])
    if bad:
        return None, "\n".join(bad), cmd
    cmd += [o for o, c, p in objs]
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=tmp)
    full = [y for o, c, p in objs for y in c + ["&&"]] + cmd
    if r.returncode:
        return None, r.stderr[-3000:], full
    return out, "", full


def drive(exe, mode, budget, seed, words, tmp):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0", UBSAN_OPTIONS="print_stacktrace=0",
               OMP_NUM_THREADS="4")
    try:
        r = subprocess.run([exe, mode, "run", str(budget), str(seed), ",".join(map(str, words))], capture_output=True, text=True,
                           env=env, cwd=tmp, timeout=budget * 3 + 120, errors="replace")
    except subprocess.TimeoutExpired:
        return {"mode": mode, "evaluations": 0, "witness": None, "note": "driver timed out"}
    w = None
    for line in r.stdout.splitlines():
        if line.startswith("WITNESS "):
            w = line[8:]
            break
    m = re.search(r"^OK \S+ (\d+)", r.stdout, re.M)
    note = None
    if w is None and not m:
        note = "driver ended with %d: %s" % (r.returncode, (r.stdout + r.stderr)[-500:])
    return {"mode": mode, "evaluations": int(m.group(1)) if m else 0, "witness": w, "note": note,
            "stderr": r.stderr[-3000:] if w else ""}


def hunt(exe, modes, budget, seed, words, tmp):
    with mp.pool.ThreadPool(4) as pool:
        return pool.map(lambda m: drive(exe, m, budget, seed, words, tmp), modes)


# ------------------------------------------------------------------------------------------------ main
def main():
    pid = sys.argv[1]
    spec = registry.PROPS[pid]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, pid + ".replay.txt")
    if os.path.exists(replay):
        os.unlink(replay)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return decide(pid, spec, t0, replay, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def units(spec):
    """(harness, module, cases, flags) groups of a property"""
    if "units" in spec:
        return spec["units"]
    return [dict(harness=spec["harness"], module=spec["module"], cases=spec["cases"], flags=spec.get("flags", []))]


def decide(pid, spec, t0, replay, tmp):
    pool = mp.Pool(8)
    drv = mp.pool.ThreadPool(1).apply_async(build_driver, (spec, tmp)) if spec.get("driver") else None
    jobs = []
    for u in units(spec):
        src = os.path.join(REPO, u["src"]) if "src" in u else os.path.join(HERE, "harness", u["harness"] + ".cpp")
        flags = [place(f) for f in u.get("flags", [])]
        ll = os.path.join(tmp, "%s-%08x.ll" % (os.path.basename(src), zlib.crc32(" ".join([src] + flags).encode())))
        for cs in u["cases"]:
            jobs.append((cs + u.get("label", ""), pool.apply_async(run_case, ((u["module"], (src, ll, flags), cs, t0 + CASE_BUDGET,
                                                                               u.get("label", "")),))))
    pool.close()
    broken = []
    exe, err, drvcmd = drv.get() if drv else (None, "", [])
    words = dictionary(spec["files"], [])
    runs = hunt(exe, spec["modes"], DRIVE_BUDGET, SEED, words, tmp) if exe else []
    # once a failing input is known, the open proofs only get the time to name the failed obligation
    end = time.time() + 60 if any(r["witness"] for r in runs) else t0 + CASE_BUDGET + 60
    results = []
    for cs, j in jobs:
        try:
            results.append(j.get(timeout=max(0.1, end - time.time())))
        except mp.TimeoutError:
            results.append({"case": cs, "obligations": 0, "failed": [], "functions": [], "assumptions": [],
                            "unsupported": "proof attempt stopped", "broken": None, "backend": {}, "wall": 0})
    pool.terminate()
    for r in results:
        if r.get("broken"):
            if r["broken"] not in broken:
                broken.append(r["broken"])
    failed = [(r, o) for r in results for o in r["failed"]]
    open_cases = [r for r in results if r["unsupported"]]
    witness = next((r for r in runs if r["witness"]), None)
    if (failed or open_cases or broken) and not witness and exe:
        words = dictionary(spec["files"], [o["model"] for r, o in failed])
        more = hunt(exe, spec["modes"], HUNT_BUDGET, SEED + 1, words, tmp)
        witness = next((r for r in more if r["witness"]), None)
        runs += more
    verdict, reason = 0, "every obligation discharged"
    if witness:
        verdict, reason = 1, "failing input found"
    elif failed:
        verdict, reason = 1, "obligation failed"
    elif broken and (not exe or not spec.get("driver")):
        verdict, reason = 1, "the functions under contract cannot be extracted"
    elif open_cases or broken:
        reason = "bounded stand-in for %d case(s) out of the verifier's reach" % (len(open_cases) or len(broken))
    nob = sum(r["obligations"] for r in results)
    nfail = len(failed)
    bounded = [{"case": r["case"], "why": r["unsupported"]} for r in open_cases] + [{"case": "extraction", "why": b} for b in broken]
    be = {}
    for r in results:
        for k, v in (r.get("backend") or {}).items():
            be[k] = round(be.get(k, 0) + v, 2)
    fns = sorted({f for r in results for f in r["functions"]})
    ev = {
        "property": pid, "tier": TIER, "seed": SEED,
        "level": "proof" if not bounded else "other",
        "coverage": {
            "obligations": nob + len(bounded), "discharged": nob - nfail,
            "checker_cmd": "python3-vt /verif/check.py %s" % pid,
            "trusted_base": TRUSTED,
            "contracts": [{"contract": r["case"], "obligations": r["obligations"], "failed": len(r["failed"]),
                           "kinds": r.get("kinds"), "seconds": r["wall"], "recheck": r.get("recheck")} for r in results],
            "functions_under_contract": demangle(fns),
            "backends": be,
            "bounded_stand_ins": bounded,
            "explanation": reason,
            "replay": [{k: r[k] for k in ("mode", "evaluations", "witness", "note")} for r in runs],
        },
        "assumptions": sorted(set(ASSUME) | {a for r in results for a in r["assumptions"]} | set(spec.get("assumptions", []))),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if verdict else 0,
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d/%d obligations discharged in %d contracts, %d concrete evaluations, %.1f s: %s"
          % (pid, nob - nfail, nob + len(bounded), len(results), sum(r["evaluations"] for r in runs), time.time() - t0, reason))
    for b in bounded:
        print("  bounded: %s: %s" % (b["case"], b["why"].strip().splitlines()[-1][:200]))
    for k, (p, what) in findings():
        if p == pid and any(k in r.get("known", ()) for r in results):
            print("KNOWN-FINDING: property=%s %s: %s" % (p, k, what))
    for r in runs:
        if r["note"]:
            print("  note: %s: %s" % (r["mode"], r["note"][:300]))
    if not verdict:
        return 0
    with open(replay, "w") as f:
        f.write("property %s: %s\n\n" % (pid, reason))
        if witness:
            mode, args = witness["witness"].split(" : ")[0].split(" ", 1)
            f.write("failing input: %s\n\nreplay:\n  cd %s && %s\n  ./driver %s replay %s\n\n%s\n" %
                    (witness["witness"], "$(mktemp -d)", " ".join(drvcmd).replace(tmp + "/", "./"), mode, args, witness["stderr"]))
        for b in broken:
            f.write("extraction failed:\n%s\n" % b)
        if err:
            f.write("driver does not compile:\n%s\n" % err)
        for r, o in failed:
            f.write("\nfailed obligation: [%s] %s\n  contract: %s\n  at: %s\n  verifier: %s\n  counter-model: %s\n"
                    % (o["kind"], o["name"], r["case"], o["loc"], o["detail"], o["model"]))
    if failed:
        r, o = failed[0]
        print("  failed obligation [%s] %s in %s at %s" % (o["kind"], o["name"], r["case"], o["loc"][:160]))
    if witness:
        print("  failing input: " + witness["witness"][:300])
    print("VIOLATION property=%s replay=%s%s" % (pid, replay, "" if witness else " no-failing-input-found"))
    return 1


def demangle(names):
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
        return r.stdout.splitlines()
    except OSError:
        return names


if __name__ == "__main__":
    sys.exit(main())
