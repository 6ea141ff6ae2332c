#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property on /repo's current tree.

1. The functions the property depends on are extracted from /repo's source, their contracts are woven in, and
   Verus has to discharge every obligation (tools/unit.py, units/*.vrs).
2. The same postconditions are run as executable contracts on the real compiled crate (harness/): they supply the
   failing input when an obligation fails, and stand in, labelled bounded, for functions the verifier cannot reach.
"""
import concurrent.futures as cf, glob, json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import unit as U
from extra import EXTRA

VERIF = U.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "quick"
HARNESS = os.path.join(VERIF, "harness")
HTARGET = os.environ.get("VP_HTARGET", os.path.join(HARNESS, "target"))
REPLAY = os.path.join(U.BUILD, "replay")
ENV = dict(os.environ, CARGO_TERM_COLOR="never", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=HTARGET)
BIN = {"C24": "wrap"}
# every contract once more, over the crate built without the standard library
ALT = {"C26": "pregenerated"}
START = time.time()


def left(until):
    """seconds until START + until, at least 10: a check has 900 s (thorough runs are not limited)"""
    return max(10, START + until * (3 if TIER == "thorough" else 1) - time.time())


def sh(cmd, timeout, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=cwd, env=env)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return None, "", "timeout"


# ---------------------------------------------------------------- executable contracts
def build_harness(binary):
    rc, so, se = sh(["cargo", "build", "--offline", "--release", "--bin", binary], 800, HARNESS, ENV)
    return rc == 0, se


def run_harness(pid, deep=False, budget=25.0, seed=SEED):
    cmd = [os.path.join(HTARGET, "release", BIN.get(pid, "vh")), pid, "--seed", str(seed), "--budget", str(budget)] + (["--deep"] if deep else [])
    rc, so, se = sh(cmd, min(budget * 3 + 120, left(840)))
    shown = "cd harness && cargo build --offline --release && " + " ".join(["target/release/" + os.path.basename(cmd[0])] + cmd[1:])
    try:
        d = json.loads(so.strip().splitlines()[-1])
    except Exception:
        # killed (memory) or crashed (stack overflow, abort): no clean answer
        d = {"ok": None, "what": "the run ended with %s without a result; %s" % (rc, se[-600:]), "case": None, "evaluations": 0}
        if rc is not None and rc < 0 and rc != -9:
            d["ok"] = False
            d["what"] = "the code under test ended the process with signal %d; %s" % (-rc, se[-600:])
    d["cmd"] = shown
    return d


# ---------------------------------------------------------------- proofs
class Proof:
    """result of one unit, seen from one property"""
    def __init__(self, name):
        self.name = name
        self.fns, self.proved, self.failed, self.undecided = [], [], {}, {}
        self.verified = self.errors = 0
        self.wall = self.smt_ms = 0
        self.cmd, self.output, self.fatal = "", "", None
        self.trusted, self.vacuity, self.inlined = [], {}, {}


def build_nostd():
    rc, so, se = sh(["cargo", "build", "--offline", "--release"], 800, os.path.join(HARNESS, "nostd"), ENV)
    return rc == 0, se


def run_nostd(pid, deep=False, budget=25.0, seed=SEED):
    """every property's executable contract on the crate built without the standard library"""
    ids = ["C%02d" % k for k in range(1, 26)]

    def one(i):
        cmd = [os.path.join(HTARGET, "release", "wrapn" if BIN.get(i) else "vhn"), i, "--seed", str(seed), "--budget", str(budget)] + (["--deep"] if deep else [])
        rc, so, se = sh(cmd, min(budget * 3 + 120, left(840)))
        try:
            d = json.loads(so.strip().splitlines()[-1])
        except Exception:
            d = {"ok": False if rc is not None and rc < 0 and rc != -9 else None, "what": "the run ended with %s without a result; %s" % (rc, se[-600:]), "case": None, "evaluations": 0}
        d["cmd"] = "cd harness/nostd && CARGO_TARGET_DIR=../target cargo build --offline --release && ../target/release/" + " ".join([os.path.basename(cmd[0])] + cmd[1:])
        return d
    with cf.ThreadPoolExecutor(6) as ex:
        r = dict(zip(ids, ex.map(one, ids)))
    out = {"ok": True, "rule": "the executable contracts of C01-C25 on the build without std; per property: " + ", ".join("%s %s" % (k, {True: "ok", False: "fails", None: "no answer"}[d["ok"]]) for k, d in r.items()),
           "evaluations": sum(d.get("evaluations", 0) for d in r.values()), "distinct_nontrivial": sum(d.get("distinct_nontrivial", 0) for d in r.values()), "samples": [x for d in r.values() for x in d.get("samples", [])[:1]][:8]}
    for k, d in r.items():
        if d["ok"] is False: return dict(out, ok=False, what="without std, the contract of %s: %s" % (k, d.get("what")), case=d.get("case"), cmd=d["cmd"])
    if any(d["ok"] is None for d in r.values()): out["ok"] = None
    return out


load = U.load


def unit_names(pid):
    if pid in ALT: return [os.path.basename(p)[:-4] for p in sorted(glob.glob(os.path.join(VERIF, "units", "*.vrs")))]
    out = []
    for p in sorted(glob.glob(os.path.join(VERIF, "units", "*.vrs"))):
        _, fns, _ = load(os.path.basename(p)[:-4])
        if any(pid in f.props for f in fns): out.append(os.path.basename(p)[:-4])
    return out


TRUST = re.compile(r"external_body|external_type_specification|assume_specification|\badmit\(\)|\bassume\(|axiom")


def trusted_scan(text):
    """every axiom / unchecked contract in the verified text, by name"""
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        c = l.split("//")[0]
        if not TRUST.search(c): continue
        m = None
        for k in range(i, min(i + 6, len(lines))):
            m = re.search(r"(?:fn|struct|enum|assume_specification.*?\[)\s*([\w:<> ]+?)\s*(?:[<(\]{;]|$)", lines[k])
            if m: break
        if "discharged in unit" in l: continue
        kind = "axiom" if "axiom" in c else "assumed (admit)" if "admit" in c or "assume(" in c else "assumed contract"
        out.append("%s %s" % (kind, m.group(1).strip() if m else c.strip()[:60]))
    return sorted(set(out))


def fail_fn(a, d):
    prim = [a.fn_at(s[0]) for s in d["spans"] if s[4]]
    anyf = [a.fn_at(s[0]) for s in d["spans"]]
    for k in prim + anyf:
        if k: return k
    return None


def prove(name, pid):
    pr = Proof(name)
    items, fns, types = load(name)
    pr.fns = [f.key for f in fns if (pid in f.props or pid in ALT) and "assume" not in f.attrs]
    mine = set(pr.fns)
    try:
        ex = U.vx(fns, [f.key for f in fns], types, ALT.get(pid))
        same = pid in ALT and ex == U.vx(fns, [f.key for f in fns], types)
        if "fatal" in ex: raise ValueError(ex["fatal"])
        ref = json.load(open(U.REF)).get(name + ".vrs", {})
    except Exception as e:
        pr.fatal = "extraction failed: %s" % e
        return pr
    assumed, base = {}, None
    out = os.path.join(U.BUILD, "%s_%s.rs" % (pid, name))
    rlimit, t0 = 60, time.time()
    for attempt in range(8):
        try:
            a = U.assemble(items, ex, ref, assumed)
        except Exception as e:
            pr.fatal = "assembly failed: %s" % e
            return pr
        assumed.update(a.assumed)
        open(out, "w").write(a.text)
        r = U.run_verus(out, rlimit=rlimit, threads=6, timeout=left(480))
        pr.cmd = r.get("cmd", "")
        if r["kind"] == "timeout":
            pr.fatal = "the verifier ran out of time"
            return pr
        if r["kind"] == "compile":
            bad = {}
            for d in r["diags"]:
                k = fail_fn(a, d)
                if k and k not in assumed: bad[k] = "no longer in the verifier's subset: " + d["msg"][:200]
            if not bad or left(400) <= 10:
                pr.fatal = "verus cannot process the unit: " + "; ".join(d["msg"][:200] for d in r["diags"][:3])
                pr.output = "\n".join(d["rendered"] for d in r["diags"][:4])
                return pr
            assumed.update(bad)
            continue
        rl = [d for d in r["diags"] if U.RLIMIT_MSG.search(d["msg"])]
        if rl and rlimit < 200 and left(300) > 10:
            rlimit *= 4
            continue
        break
    pr.verified, pr.errors, pr.wall = r["verified"], r["errors"], time.time() - t0
    try:
        pr.smt_ms = r["json"]["times-ms"]["smt"]["total"]
    except Exception:
        pr.smt_ms = 0
    bad = {}
    for d in r["diags"]:
        k = fail_fn(a, d)
        if k is None:
            # a lemma: none of them mentions extracted code, so this is the solver, not the tree
            pr.undecided["lemma"] = d["msg"]
        elif U.RLIMIT_MSG.search(d["msg"]):
            if k in mine: pr.undecided[k] = "solver resource limit"
        else:
            bad.setdefault(k, []).append(d)
    for k in sorted(mine):
        if k in bad:
            pr.failed[k] = bad[k]
        elif k in assumed:
            pr.undecided[k] = assumed[k]
        elif k not in pr.undecided:
            pr.proved.append(k)
    pr.inlined = {k: ex["fns"][k].get("inlined") for k in mine if ex["fns"][k].get("ok") and ex["fns"][k].get("inlined")}
    pr.trusted = trusted_scan(a.text)
    # vacuity guard: with `assert(false)` at the end of every body, each must fail, and so must `ensures false`
    if same: pr.vacuity = {"note": "the text is that of the default build, probed by the other checks"}
    if not pr.failed and not same:
        try:
            a = U.assemble(items, ex, ref, assumed, probe=True)
            smoke = "proof fn vx_smoke() ensures false { broadcast use {%s}; }\n" % (next((i[1] for i in items if i[0] == "broadcast"), "vstd::group_vstd_default"))
            txt = a.text.replace("} // verus!", smoke + "} // verus!")
            line = txt[:txt.index("fn vx_smoke")].count("\n") + 1
            pout = os.path.join(U.BUILD, "%s_%s_probe.rs" % (pid, name))
            open(pout, "w").write(txt)
            r = U.run_verus(pout, rlimit=15, threads=6, timeout=min(200, left(600)))
            hit = {a.fn_at(s[0]) for d in r["diags"] for s in d["spans"] if "assertion failed" in d["msg"] or U.RLIMIT_MSG.search(d["msg"])}
            smoke_ok = any(s[0] == line or s[0] == line + 1 for d in r["diags"] for s in d["spans"])
            probed = [f.key for f in fns if f.key in mine and f.attrs.get("probe") != "no" and f.key in pr.proved]
            vac = [k for k in probed if k not in hit]
            pr.vacuity = {"probed": len(probed), "vacuous": vac, "smoke_lemma_fails": smoke_ok}
            if r["kind"] == "verif":
                for k in vac:
                    pr.proved.remove(k)
                    pr.undecided[k] = "its end is unreachable under the contract (vacuous)"
                if not smoke_ok: pr.undecided["axioms"] = "false is provable from the axioms"
        except Exception as e:
            pr.vacuity = {"error": str(e)}
    return pr


# ---------------------------------------------------------------- findings
def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\w+) (.*)", l.strip())
        if m and m.group(1) == pid: out.append(m.group(2))
    return out


def main():
    global TIER
    pid = sys.argv[1]
    TIER = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    deep = TIER == "thorough"
    t0 = time.time()
    os.makedirs(REPLAY, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev_path = os.path.join(VERIF, "evidence", pid + ".json")
    if os.path.exists(ev_path): os.unlink(ev_path)
    rc, so, se = sh(["cargo", "build", "--offline", "--release"], 800, os.path.join(VERIF, "vx"), dict(ENV, CARGO_TARGET_DIR=os.path.join(VERIF, "vx/target")))
    if rc != 0:
        print("ERROR: the extractor does not build:\n" + se[-3000:])
        sys.exit(2)
    units = unit_names(pid)
    pool = cf.ThreadPoolExecutor(8)
    run_h = run_nostd if pid in ALT else run_harness
    hb = pool.submit(build_nostd) if pid in ALT else pool.submit(build_harness, BIN.get(pid, "vh"))
    pf = [pool.submit(prove, u, pid) for u in units]
    xf = pool.submit(EXTRA[pid], pid, deep) if pid in EXTRA else None
    built, berr = hb.result()
    h = None
    if built:
        h = run_h(pid, deep, (100.0 if pid in ALT else 240.0) if deep else 25.0)
        if h["ok"] is None:
            h = run_h(pid, False, 25.0)
    proofs = [f.result() for f in pf]
    extra = xf.result() if xf else None

    failed, undecided = {}, {}
    for p in proofs:
        failed.update(p.failed)
        undecided.update(p.undecided)
        if p.fatal: undecided["unit " + p.name] = p.fatal
    replay = os.path.join(REPLAY, "%s.txt" % pid)
    violation, nfif = False, False
    report = []
    if extra and extra["failed"]:
        for k, v in extra["failed"].items(): failed[k] = v
    if extra:
        undecided.update(extra["undecided"])
    if h and h["ok"] is False:
        violation = True
        report += ["property %s: an executable contract fails on the real code" % pid, "case: %s" % h.get("case"), "what: %s" % h.get("what"), "reproduce: " + h["cmd"]]
    if failed:
        if not violation and h:
            # look harder for an input that shows it
            for s in range(1 if pid in ALT else 3):
                if left(700) <= (250 if pid in ALT else 80): break
                d = run_h(pid, True, 30.0 if pid in ALT else 60.0, SEED + 17 * (s + 1))
                if d["ok"] is False:
                    violation, h = True, d
                    report += ["property %s: an executable contract fails on the real code" % pid, "case: %s" % d.get("case"), "what: %s" % d.get("what"), "reproduce: " + d["cmd"]]
                    break
        nfif = not violation
        violation = True
        report.append("failed obligations:")
        for k, ds in failed.items():
            if isinstance(ds, str):
                report.append("== %s\n%s" % (k, ds))
                continue
            for d in ds:
                report.append("== contract of %s: %s\n%s" % (k, d["msg"], d["rendered"]))
        report.append("verifier: " + "; ".join(p.cmd for p in proofs if p.failed))
    if not violation and BIN.get(pid) and not built:
        # the wrapper binary only compiles when every function exists with the type its name states
        if re.search(r"error\[E0\d+\]", berr) and "could not compile `vh`" in berr:
            violation, nfif = True, True
            report += ["a pre-generated function is missing or does not have the type its name states:", berr[-6000:]]

    findings = known_findings(pid)
    if findings and built:
        rc, so, se = sh([os.path.join(HTARGET, "release", "vh"), pid, "--known"], 120)
        now = so.splitlines()
        for f in findings:
            if f in now: print("KNOWN-FINDING: property=%s %s" % (pid, f))

    audit = None
    if deep and units:
        # the trusted base, tested: the extracted text beside the crate, the assumed contracts beside the dependencies
        import lowercheck
        audit = {"extraction": lowercheck.run(4000), "assumed_contracts": lowercheck.conform(20000)}
        for k, v in audit.items():
            print("audit of %s: %s%s" % (k, {True: "agrees", False: "DISAGREES", None: "not available"}[v["ok"]], " ".join(["", v.get("note", "")] + v.get("diff", []))[:600]))
            if v["ok"] is False: undecided["audit of " + k] = "; ".join(v["diff"])[:600]

    obligations = sum(p.verified + p.errors + len([k for k in p.undecided]) for p in proofs) + (extra["obligations"] if extra else 0)
    discharged = sum(p.verified for p in proofs) + (extra["discharged"] if extra else 0)
    trusted = sorted(set(t for p in proofs for t in p.trusted)) + (extra["trusted"] if extra else [])
    has_proof = bool(units) or extra is not None
    cov = {}
    if has_proof:
        cov.update({
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "; ".join([p.cmd for p in proofs if p.cmd] + ([extra["cmd"]] if extra else [])),
            "trusted_base": ["Verus 0.2026.09.13, its encoding of Rust and vstd, Z3"] + (extra["base"] if extra else []) + ["vx: mechanical extraction and lowering of /repo's functions (DESIGN.md, Extraction)"] + trusted,
            "functions_under_contract": {p.name: {"proved": p.proved, "undecided_bounded_only": p.undecided, "failed": sorted(p.failed), "inlined_helpers": p.inlined} for p in proofs},
            "back_end": "Verus/Z3" + (", " + extra["backend"] if extra else ""),
            "solver_ms": sum(p.smt_ms for p in proofs) + (extra.get("solver_ms", 0) if extra else 0),
            "vacuity": {p.name: p.vacuity for p in proofs},
        })
        if extra: cov["extra"] = extra["report"]
        if audit: cov["audit_of_the_trusted_base"] = audit
    if h:
        cov.update({"evaluations": h.get("evaluations", 0), "distinct_nontrivial": h.get("distinct_nontrivial", 0), "rule": "bounded executable contracts on the compiled crate (never counted as proved): " + h.get("rule", ""),
                    "samples": h.get("samples", [])})
    level = "proof" if has_proof else "exploration"
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": ASSUME.get(pid, []) + GENERAL + (["UNDECIDED on this tree, bounded runtime check only: %s (%s)" % kv for kv in sorted(undecided.items())]),
          "wall_s": round(time.time() - t0, 1), "violations": int(violation)}
    json.dump(ev, open(ev_path, "w"), indent=1)
    print("%s: proved %s; failed %s; undecided %s; runtime %s" % (
        pid, sum(len(p.proved) for p in proofs) + (extra["discharged"] if extra else 0), sorted(failed), sorted(undecided.items()),
        "not built" if not h else "%s (%s evaluations)" % ({True: "ok", False: "FAILED", None: "no answer"}[h["ok"]], h.get("evaluations"))))
    if violation:
        with open(replay, "w") as f: f.write("\n".join(str(x) for x in report) + "\n")
        for l in report[:4]: print(str(l)[:1500])
        print("VIOLATION property=%s replay=%s%s" % (pid, replay, " no-failing-input-found" if nfif else ""))
        sys.exit(1)
    if (not h or h["ok"] is None) and (undecided or not has_proof):
        print("ERROR: no answer: %s" % (berr[-2500:] if not built else h))
        sys.exit(2)
    sys.exit(0)


GENERAL = [
    "The verified text is the extraction of /repo's functions (monomorphic in one opaque scalar S, tracing attributes dropped, iterator chains lowered to loops); vx itself is trusted.",
    "Scalar arithmetic is real arithmetic followed by a monotone rounding; overflow to infinity and integer overflow are outside the model unless a property says otherwise.",
    "Dependencies (nalgebra storage, std collections) enter through the contracts in shim/*.rs and units/*.vrs listed in trusted_base.",
]
ASSUME = json.load(open(os.path.join(VERIF, "tools/assumptions.json"))) if os.path.exists(os.path.join(VERIF, "tools/assumptions.json")) else {}

if __name__ == "__main__":
    main()
