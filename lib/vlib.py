"""Driver library: builds proof units from /repo's working tree, runs CBMC on
them, classifies the obligations, replays failures natively."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DSTU_REPO", "/repo")
PROOFS = os.path.join(VERIF, "proofs")
NATIVE = os.path.join(VERIF, "native")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"

INCLUDES = ["-I", REPO + "/dstulib", "-I", REPO + "/dstulib/gost", "-I", REPO + "/engine",
            "-I", REPO + "/keylib", "-I", PROOFS, "-I", VERIF + "/spec"]
# Arithmetic UB checks (signed overflow, shifts) are off: the properties are
# about results and memory, and a shift spelled differently is not a violation.
CBMC_FLAGS = ["--no-signed-overflow-check", "--no-undefined-shift-check",
              "--no-malloc-may-fail", "--unwinding-assertions",
              "--slice-formula", "--object-bits", "10", "--drop-unused-functions"]

SOLVERS = {"cadical": ["--sat-solver", "cadical"], "sat": [], "z3": ["--z3"], "cvc5": ["--cvc5"], "z3new": ["--z3"],
           "bitwuzla": ["--bitwuzla"]}


class Unit:
    def __init__(self, name, file, funcs, entry="harness", defs=(), replace=(), unwind=10,
                 unwindset=None, solvers=("sat", "z3", "cvc5"), kind="proof", bound=None,
                 timeout=300, fallback=None, assumptions=(), flags=(), cut=None, tier=None,
                 optional=False, weak=False):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.defs = list(defs); self.replace = list(replace); self.solvers = list(solvers)
        self.assumptions = list(assumptions); self.flags = list(flags)
        self.unwindset = dict(unwindset or {})

    def variant(self, **kw):
        d = dict(self.__dict__); d.update(kw); d.setdefault("fallback", None)
        u = Unit.__new__(Unit); u.__dict__.update(d)
        return u


class Result:
    def __init__(self, unit):
        self.unit = unit.name; self.kind = unit.kind; self.bound = unit.bound
        self.status = "undecided"      # proved | bounded | failed | undecided | builderror
        self.obligations = 0; self.discharged = 0
        self.failed = []; self.solver = None; self.seconds = 0.0; self.msg = ""
        self.cmd = ""; self.cex = {}; self.trace = ""; self.nobody = []; self.notes = []
        self.funcs = list(unit.funcs)


def sh(cmd, timeout=None, cwd=None, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return -9, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")


_sem = None


def build_goto(unit, work):
    """goto-cc the harness (which #includes the real source), then redirect the
    calls the unit checks against contracts.  Returns (path, error)."""
    a = os.path.join(work, unit.name + ".a.gb"); b = os.path.join(work, unit.name + ".b.gb")
    cmd = ["goto-cc", "-DDSTU_VERIFY", "-D__CBMC__", "--function", unit.entry,
           os.path.join(PROOFS, unit.file), "-o", a] + ["-D" + d for d in unit.defs] + INCLUDES + ["-include", PROOFS + "/hooks_default.h"]
    rc, o, e = sh(cmd, 120)
    if rc != 0:
        return None, "goto-cc: " + (o + e)[-3000:], cmd
    if unit.replace:
        rc, o, e = sh(["goto-instrument", "--list-symbols", a], 60)
        syms = set(l.split()[0] for l in o.splitlines() if l.strip())
        rep = [r for r in unit.replace if r.split(":")[0] in syms and r.split(":")[1] in syms]
        args = []
        for r in rep:
            args += ["--replace-calls", r]
        if args:
            rc, o, e = sh(["goto-instrument"] + args + [a, b], 120)
            if rc != 0:
                return None, "goto-instrument: " + (o + e)[-3000:], cmd
            return b, "", cmd
    return a, "", cmd


def cbmc_cmd(unit, gb, solver, extra=()):
    cmd = ["cbmc", gb, "--json-ui", "--unwind", str(unit.unwind)] + CBMC_FLAGS + unit.flags
    for k, v in unit.unwindset.items():
        cmd += ["--unwindset", "%s:%d" % (k, v)]
    return cmd + SOLVERS[solver] + list(extra)


def solver_env(solver, work):
    env = dict(os.environ)
    if solver == "z3new":
        d = os.path.join(work, "z3new"); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "z3")
        if not os.path.exists(p):
            try: os.symlink(shutil.which("z3-new") or shutil.which("z3"), p)
            except FileExistsError: pass
        env["PATH"] = d + ":" + env["PATH"]
    return env


def parse_json(out):
    try:
        js = json.loads(out)
    except Exception:
        return None
    res = None; msgs = []; verdict = None
    for item in js:
        if "result" in item: res = item["result"]
        if "messageText" in item: msgs.append(item["messageText"])
        if "cProverStatus" in item: verdict = item["cProverStatus"]
    return res, msgs, verdict


def run_portfolio(unit, gb, work, stagger=25):
    """Start the unit's solvers one after another; first definitive answer wins."""
    procs = []; t0 = time.time(); winner = None; idx = 0; last = None
    pending = list(unit.solvers)
    errs = []
    while True:
        now = time.time() - t0
        if pending and (now >= idx * stagger or not procs):
            s = pending.pop(0); idx += 1
            outp = os.path.join(work, "%s.%s.json" % (unit.name, s))
            f = open(outp, "wb")
            p = subprocess.Popen(cbmc_cmd(unit, gb, s), stdout=f, stderr=subprocess.DEVNULL,
                                 start_new_session=True, env=solver_env(s, work))
            procs.append((s, p, outp, time.time(), f))
        for t in list(procs):
            s, p, outp, ts, f = t
            if p.poll() is not None:
                f.close(); procs.remove(t)
                pj = parse_json(open(outp, "rb").read().decode("utf8", "replace"))
                if pj and pj[0] is not None and pj[2] in ("success", "failure"):
                    # after a failed pointer check CBMC reports what depends on it as UNKNOWN
                    real = any(r["status"] == "FAILURE" and not r["description"].startswith("REACH") for r in pj[0])
                    bad = [r for r in pj[0] if r["status"] not in ("SUCCESS", "FAILURE") and not (r["status"] == "UNKNOWN" and real)]
                    if not bad:
                        winner = (s, pj, time.time() - ts); break
                errs.append("%s: no verdict (%s)" % (s, " / ".join((pj[1] if pj else [])[-2:])[:300]))
        if winner or (not procs and not pending) or time.time() - t0 > unit.timeout:
            break
        time.sleep(0.05)
    for s, p, outp, ts, f in procs:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.wait(); f.close()
    return winner, time.time() - t0, errs


def flatten(name, v, d):
    if not isinstance(v, dict):
        return
    if "elements" in v:
        for i, e in enumerate(v["elements"]):
            flatten("%s[%d]" % (name, e.get("index", i)), e.get("value", {}), d)
    elif "members" in v:
        for m in v["members"]:
            flatten(name + "." + m["name"], m["value"], d)
    elif "data" in v:
        d[name] = v["data"]


def trace_inputs(steps):
    """Values the verifier chose for the harness's IN_* inputs (initial values)."""
    d = {}
    for st in steps:
        if st.get("stepType") != "assignment": continue
        lhs = st.get("lhs", "")
        m = re.match(r"(IN_\w+)", lhs)
        if not m: continue
        lhs = re.sub(r"\[(\d+)[a-z]*\]", r"[\1]", lhs)
        flatten(lhs, st.get("value", {}), d)
    out = {}
    for k, v in d.items():
        m = re.match(r"(IN_\w+)\[(\d+)\]$", k)
        v = v.rstrip("ulUL") if re.match(r"^-?\d+[ulUL]*$", v) else v
        if m:
            out.setdefault(m.group(1), {})[int(m.group(2))] = v
        else:
            out[k] = v
    flat = {}
    for k, v in out.items():
        if isinstance(v, dict):
            n = max(v) + 1
            try: flat[k] = "".join("%02x" % (int(v.get(i, "0")) & 255) for i in range(n)) if n <= 4096 else None
            except ValueError: pass
        else:
            flat[k] = v
    return flat


def get_cex(unit, gb, work, prop, solver, r):
    rc, o, e = sh(cbmc_cmd(unit, gb, solver, ["--property", prop, "--trace"]), 240, env=solver_env(solver, work))
    pj = parse_json(o)
    if not pj or pj[0] is None: return
    for x in pj[0]:
        if x["status"] == "FAILURE" and "trace" in x:
            r.cex = trace_inputs(x["trace"])
            lines = []
            for st in x["trace"]:
                if st.get("stepType") == "assignment" and not st.get("hidden") and "value" in st:
                    sl = st.get("sourceLocation", {})
                    val = st["value"].get("data", "")
                    if val != "":
                        lines.append("%s:%s %s = %s" % (os.path.basename(sl.get("file", "?")), sl.get("line", "?"), st.get("lhs"), val))
            r.trace = "\n".join(lines[-400:])
            return


def run_variant(unit, work, want_cex=True):
    r = Result(unit)
    gb, err, cmd = build_goto(unit, work)
    r.cmd = " ".join(cmd)
    if gb is None:
        r.status = "builderror"; r.msg = err; return r
    if unit.cut:
        bad = check_cut_frame(unit, gb)
        if bad:
            r.status = "undecided"; r.msg = "loop frame: " + bad; return r
    r.cmd += " ; " + " ".join(cbmc_cmd(unit, gb, unit.solvers[0]))
    with _sem:
        w, secs, errs = run_portfolio(unit, gb, work)
    r.seconds = secs
    if not w:
        r.status = "undecided"; r.msg = "; ".join(errs) or "solver timeout after %ds" % unit.timeout
        return r
    solver, (res, msgs, verdict), ts = w
    r.solver = solver; r.seconds = ts
    r.nobody = sorted(set(m.group(1) for x in msgs for m in [re.search(r"no body for (?:function|callee) (\S+)", x)] if m))
    reach = [x for x in res if x["description"].startswith("REACH")]
    obl = [x for x in res if not x["description"].startswith("REACH")]
    r.obligations = len(obl)
    r.discharged = sum(x["status"] == "SUCCESS" for x in obl)
    r.failed = [{"property": x["property"], "description": x["description"],
                 "where": "%s:%s" % (os.path.basename(x.get("sourceLocation", {}).get("file", "?")), x.get("sourceLocation", {}).get("line", "?"))}
                for x in obl if x["status"] == "FAILURE"]
    r.postconditions = [x["description"] for x in obl if ".assertion." in x["property"]]
    vac = [x["description"] for x in reach if x["status"] == "SUCCESS"]
    unw = [f for f in r.failed if ".unwind." in f["property"]]
    if unw:
        # a loop needs more iterations than the unit allowed: nothing was decided
        r.status = "undecided"; r.msg = "more iterations than the unit's unwinding: " + ", ".join(f["property"] for f in unw[:5])
        r.unwind_short = True; r.failed = []
    elif r.failed:
        r.status = "failed"
        if want_cex:
            # prefer a functional obligation over a generated safety check
            f = sorted(r.failed, key=lambda x: ".assertion." not in x["property"])[0]
            try: get_cex(unit, gb, work, f["property"], solver, r)
            except Exception as ex: r.notes.append("cex: %r" % ex)
    elif vac or not reach or not r.obligations:
        r.status = "failed" if reach and r.obligations else "undecided"
        r.msg = "vacuous: " + (", ".join(vac) or "no reachability check or no obligation")
        r.failed = [{"property": "vacuity", "description": "unreachable: " + ", ".join(vac), "where": unit.file}]
    elif r.nobody:
        r.status = "undecided"; r.msg = "no contract for called function(s): " + ", ".join(r.nobody)
    else:
        r.status = "proved" if unit.kind == "proof" else "bounded"
    return r


def check_cut_frame(unit, gb):
    """Syntactic half of the loop-frame check: every local assigned in the cut
    loop (outside the loop-head macro) is havoced by the macro, or declared in
    the loop body."""
    for fn in unit.cut:
        rc, o, e = sh(["goto-instrument", "--show-goto-functions", gb], 120)
        m = re.search(r"^%s /\* .*? \*/\n(.*?)^\s+\d*:? ?END_FUNCTION" % re.escape(fn), o, re.S | re.M)
        if not m: return "function %s not found" % fn
        body = m.group(1)
        # instructions: list of (line, labels, text)
        ins = []; cur = None
        for l in body.splitlines():
            mm = re.match(r"\s+// \d+ (?:.*?line (\d+))?", l)
            if mm and l.strip().startswith("//") and re.match(r"\s+// \d+ ", l):
                cur = int(mm.group(1)) if mm.group(1) else None; continue
            if l.strip().startswith("// Labels"): continue
            if l.strip(): ins.append((cur, l.strip()))
        label = {}
        for i, (ln, t) in enumerate(ins):
            mm = re.match(r"(\d+): ", t)
            if mm: label[mm.group(1)] = i
        marks = [i for i, (ln, t) in enumerate(ins) if "dstu_cut_" in t]
        if not marks: return "no cut marker reached in " + fn
        loops = []
        for i, (ln, t) in enumerate(ins):
            mm = re.search(r"GOTO (\d+)$", t)
            if mm and label.get(mm.group(1), 10**9) <= i: loops.append((label[mm.group(1)], i))
        firsts = {}
        for i in marks: firsts.setdefault(ins[i][0], i)
        for mk in firsts.values():
            enc = [(a, b) for a, b in loops if a <= mk <= b]
            if not enc: return "cut marker not in a loop in " + fn
            a = max(x for x, y in enc); b = max(y for x, y in enc if x == a)  # innermost loop
            mline = ins[mk][0]
            hav, mod, decl = set(), set(), set()
            for ln, t in ins[a:b + 1]:
                mm = re.search(r"DECL ([\w:$]+)", t)
                if mm: decl.add(mm.group(1)); continue
                mm = re.search(r"ASSIGN ([\w:$]+)", t) or re.search(r"CALL ([\w:$]+) :=", t)
                if not mm: continue
                (hav if ln == mline else mod).add(mm.group(1))
                if ln == mline: hav.add(mm.group(1))
            for ln, t in ins[a:b + 1]:
                if ln == mline:
                    mm = re.search(r"HAVOC_OBJECT .*?(\w+::[\w:$]+)", t)
                    if mm: hav.add(mm.group(1))
            miss = [x for x in mod - hav - decl if "::" in x and "return_value" not in x and "$tmp" not in x]
            if miss: return "loop in %s modifies %s, which the loop invariant does not cover" % (fn, ", ".join(sorted(miss)))
    return ""


def contract_only(r):
    """Failed obligations of r: none about a loop invariant, at least one about a contract."""
    d = [x["description"] for x in r.failed]
    return not any("loop invariant" in x for x in d) and any(x.startswith(("post:", "callee-pre:")) for x in d)


def run_unit(unit, work):
    r = run_variant(unit, work)
    if getattr(r, "unwind_short", False):
        v = unit.variant(name=unit.name + "_uw", unwind=max(4 * unit.unwind, 40), unwindset={}, timeout=unit.timeout)
        v.fallback = None
        r2 = run_variant(v, work)
        r2.notes.append("rerun with a larger unwinding: " + r.msg)
        if r2.status != "undecided": r = r2; r.unit = unit.name
    first = r
    fb = unit.fallback
    while r.status != "proved" and r.status != "bounded" and fb is not None:
        v = unit.variant(**fb) if isinstance(fb, dict) else fb
        if v.name == unit.name: v.name = unit.name + "_fb"
        fb2 = v.__dict__.get("fallback"); fb2 = None if fb2 is fb else fb2
        v.fallback = None
        r2 = run_variant(v, work)
        r2.notes.append("first attempt (%s, unbounded): %s %s" % (first.unit, first.status,
                        first.msg or "; ".join(x["description"] for x in first.failed)[:600]))
        r2.first = first
        # an undecided fallback leaves a failed proof failed; so does one that passes within its bound when all loop invariants
        # held and only contract obligations failed (the loops were understood, the failure lies beyond the bound)
        if r.status == "failed" and (r2.status in ("undecided", "builderror") or (r2.status in ("bounded", "proved") and contract_only(r))):
            r.notes.append("fallback %s: %s" % (r2.status, r2.msg[:300]))
        else:
            r = r2
        fb = fb2
    return r


def run_units(units, work, jobs=4):
    global _sem
    _sem = threading.Semaphore(jobs)
    for u in units: assert len([x for x in units if x.name == u.name]) == 1, u.name
    with ThreadPoolExecutor(max_workers=max(jobs, 8)) as ex:
        return list(ex.map(lambda u: run_unit(u, work), units))
