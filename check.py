#!/usr/bin/env python3
"""check.py <property>: decide one property of /repo's current working tree."""
import glob, hashlib, json, os, shutil, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib
from vlib import VERIF, REPO, NATIVE, SEED, TIER, sh
import registry
from concurrent.futures import ThreadPoolExecutor


def native_build(prog, work, groups, extra=(), san="address"):
    """Compile /repo's sources and one native program; returns (exe, error)."""
    d = os.path.join(work, "nat_" + prog); os.makedirs(d, exist_ok=True)
    srcs = []
    for g in groups:
        srcs += sorted(glob.glob(os.path.join(REPO, g, "*.c")))
    flags = ["-g", "-O1", "-w", "-fno-omit-frame-pointer", "-fsanitize=" + san, "-D_GNU_SOURCE",
             "-DOPENSSL_SUPPRESS_DEPRECATED"] + list(extra)
    flags += cmake_defs()
    objs, jobs = [], []
    for s in srcs + [os.path.join(NATIVE, prog)]:
        o = os.path.join(d, os.path.relpath(s, "/").replace("/", "_") + ".o"); objs.append(o)
        jobs.append(["gcc", "-c"] + flags + vlib.INCLUDES + ["-I", NATIVE, s, "-o", o])
    with ThreadPoolExecutor(8) as ex:
        for rc, o, e in ex.map(lambda c: sh(c, 200), jobs):
            if rc: return None, e[-2000:]
    exe = os.path.join(d, "run")
    rc, o, e = sh(["gcc", "-fsanitize=" + san] + objs + ["-o", exe, "-lcrypto", "-lpthread", "-ldl"], 200)
    return (exe, "") if rc == 0 else (None, e[-2000:])


def cmake_defs():
    """What CMake's try_compile probes decide for this OpenSSL (3.x)."""
    return ["-DCOPY_2ND_ARG_IS_CONST", "-DDECODE_2ND_ARG_IS_CONST"]


def native_run(exe, budget, cex, leaks=False):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=%d:exitcode=99:allocator_may_return_null=1" % (1 if leaks else 0)
    env["OPENSSL_CONF"] = "/dev/null"
    cmd = [exe, "--seed", str(SEED), "--budget", str(budget)] + (["--cex", cex] if cex else [])
    rc, o, e = sh(cmd, budget * 3 + 60, env=env, cwd=os.path.dirname(exe))
    return rc, o, e


def run_native(prop, P, work, budget, cexs):
    """Returns dict: status ok|fail|unavailable, cases, output."""
    exe, err = native_build(P["native"], work, P.get("native_groups", ["dstulib", "dstulib/gost"]), P.get("native_flags", ()))
    if not exe:
        return dict(status="unavailable", output=err, cases=0)
    runs = []
    for i, c in enumerate(cexs):
        p = os.path.join(work, "cex%d.txt" % i)
        open(p, "w").write("".join("%s=%s\n" % kv for kv in c.items() if kv[1] is not None))
        runs.append((min(3, budget), p))
    runs.append((budget, None))
    cases = 0
    for b, p in runs:
        rc, o, e = native_run(exe, b, p, P.get("native_leaks", False))
        import re
        m = re.search(r"NATIVE OK cases=(\d+)", o)
        if rc == 0 and m:
            cases += int(m.group(1)); continue
        if rc == -9:
            if P.get("native_hang_is_fail"):
                return dict(status="fail", output="native run did not terminate\n" + o[-6000:], cases=cases, cex=p)
            return dict(status="unavailable", output="native run timed out\n" + o[-2000:] + e[-2000:], cases=cases)
        if "NATIVE SKIP" in o:
            return dict(status="unavailable", output=o[-2000:], cases=cases)
        return dict(status="fail", output=(o[-6000:] + "\n" + e[-6000:] + "\nexit status %s" % rc), cases=cases, cex=p)
    return dict(status="ok", output="", cases=cases)


def main():
    prop = sys.argv[1]
    P = registry.PROPS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="dstu_%s_" % prop)
    try:
        return decide(prop, P, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, P, work, t0):
    units = [u for u in P["units"] if u.tier in (None, TIER)]
    res = vlib.run_units(units, work, P.get("jobs", 4))
    known = load_known(prop)
    failed = [r for r in res if r.status == "failed"]
    undec = [r for r in res if r.status in ("undecided", "builderror")]
    budget = (P.get("native_budget", 6) if TIER == "quick" else 60)
    if failed or undec or any(hasattr(r, "first") for r in res): budget = max(budget, 30)
    cexs = []
    for r in res:
        for x in (r, getattr(r, "first", None)):
            if x is not None and x.cex: cexs.append(x.cex)
    nat = run_native(prop, P, work, budget, cexs) if P.get("native") else dict(status="none", output="", cases=0)

    kf = []; new = []
    for r in failed:
        left = []
        for f in r.failed:
            k = next((k for k in known if k.get("unit") in (None, r.unit) and k.get("obligation") and k["obligation"] in f["description"]), None)
            (kf.append(k) if k else left.append(f))
        if left: new.append((r, left))
    violation = bool(new) or nat["status"] == "fail"

    proved = [r for r in res if r.status == "proved"]; bounded = [r for r in res if r.status == "bounded"]
    scan = sorted(set(a for u in units for a in u.assumptions) | set(P.get("assumptions", ())))
    nobody = sorted(set(x for r in res for x in r.nobody))
    ev = dict(property=prop, tier=TIER, seed=SEED, level="proof", wall_s=round(time.time() - t0, 2),
              violations=len(new) + (1 if nat["status"] == "fail" else 0),
              coverage=dict(
                  obligations=sum(r.obligations for r in res if r.kind == "proof"),
                  discharged=sum(r.discharged for r in res if r.kind == "proof"),
                  checker_cmd="cbmc (6.11.0) on goto-cc output of /repo's sources; see units[].cmd",
                  trusted_base=["CBMC 6.11.0 front end, symbolic execution and VC generation", "back ends: MiniSat (built in), z3, z3-new, cvc5 as used per unit",
                                "gcc/glibc headers as parsed by goto-cc"] + scan,
                  functions_under_contract=sorted(set(f for r in proved for f in r.funcs)),
                  functions_bounded_only=sorted(set(f for r in bounded for f in r.funcs) - set(f for r in proved for f in r.funcs)),
                  solver_seconds=round(sum(r.seconds for r in res), 2),
                  units=[dict(unit=r.unit, status=r.status, kind=r.kind, bound=r.bound, functions=r.funcs,
                              obligations=r.obligations, discharged=r.discharged, back_end=r.solver,
                              seconds=round(r.seconds, 2), contract_obligations=getattr(r, "postconditions", [])[:60],
                              failed=r.failed[:20], message=r.msg[:800], notes=r.notes, cmd=r.cmd[:1500]) for r in res],
                  bounded_units=[dict(unit=r.unit, bound=r.bound) for r in bounded],
                  undecided_units=[dict(unit=r.unit, reason=r.msg[:500]) for r in undec],
                  unmodelled_callees=nobody,
                  native_replay=dict(status=nat["status"], cases=nat["cases"], program=P.get("native"))),
              assumptions=scan)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for r in res:
        print("%-28s %-10s obligations %d/%d  %s %.1fs %s" % (r.unit, r.status, r.discharged, r.obligations, r.solver, r.seconds, r.msg[:160].replace("\n", " ")))
    print("native: %s, %d cases" % (nat["status"], nat["cases"]))
    for k in {k["id"]: k for k in kf}.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if not violation:
        if not proved and not bounded and nat["status"] != "ok":
            print("check could not decide anything: " + "; ".join(r.msg[:300] for r in undec))
            return 2
        return 0
    rdir = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, prop + ".txt")
    with open(path, "w") as f:
        f.write("property %s violated on /repo's working tree\n\n" % prop)
        for r, left in new:
            f.write("unit %s (%s), back end %s\n" % (r.unit, r.kind, r.solver))
            for x in left: f.write("  FAILED OBLIGATION %s  [%s, %s]\n" % (x["description"], x["property"], x["where"]))
            f.write("  command: %s\n" % r.cmd)
            if r.msg: f.write("  %s\n" % r.msg)
            if r.cex: f.write("  verifier's counterexample inputs: %s\n" % json.dumps(r.cex)[:4000])
            if r.trace: f.write("  trace (last assignments):\n    " + r.trace.replace("\n", "\n    ")[:20000] + "\n")
        f.write("\nnative replay on the real code (%s): %s\n%s\n" % (P.get("native"), nat["status"], nat["output"]))
        if nat.get("cex"): f.write("replayed input file:\n" + open(nat["cex"]).read())
    for r, left in new:
        for x in left[:5]: print("FAILED OBLIGATION %s: %s (%s)" % (r.unit, x["description"], x["where"]))
    if nat["status"] == "fail": print(nat["output"][:1500])
    print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if nat["status"] == "fail" else " no-failing-input-found"))
    return 1


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k.get("status") == "open"]


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback; traceback.print_exc(); rc = 2
    sys.exit(rc)
