"""checks of other back ends of the same family: property -> callable(pid, deep)

C22: Kani proves the contract of IsNan::is_nan for each of the fourteen scalar types on the compiled crate, for every
     bit pattern, without loops (kani/).
C24: Verus proves, for every pre-generated function as it stands after macro expansion, that it returns what the generic
     function of that name returns for the same arguments at the stated types (units/wrap.rs).
C26: the same once more for the build without the standard library, and each combination of the two features compiles.
"""
import json, os, re, subprocess, time
import unit as U

VERIF = U.VERIF
ENV = dict(os.environ, CARGO_TERM_COLOR="never", CARGO_NET_OFFLINE="true")


def blank(backend, cmd):
    return {"failed": {}, "undecided": {}, "obligations": 0, "discharged": 0, "trusted": [], "base": [], "backend": backend, "cmd": cmd, "report": {}, "solver_ms": 0}


# ---------------------------------------------------------------- C22
NAN = "f32 f64 u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize".split()


def kani_nan(pid, deep):
    cmd = ["cargo", "kani", "-Z", "function-contracts"]
    out = blank("Kani 0.68.0/CBMC", "cd kani && " + " ".join(cmd))
    out["base"] = ["Kani 0.68.0, CBMC, its bit-precise model of f32 and f64"]
    try:
        text, err = U.run_group(cmd, 700, os.path.join(VERIF, "kani"), ENV)
    except subprocess.TimeoutExpired:
        out["undecided"]["IsNan::is_nan"] = "Kani ran out of time"
        return out
    parts = re.split(r"Checking harness ", text)[1:]
    seen = {}
    for s in parts:
        m = re.match(r"nan_(\w+)::contract", s)
        if m: seen[m.group(1)] = s
    out["obligations"] = len(NAN)
    secs = 0.0
    for t in NAN:
        k = "<%s as IsNan>::is_nan" % t
        s = seen.get(t)
        if s is None:
            out["undecided"][k] = "Kani gave no result: " + (err[-400:] if not seen else "harness missing")
            continue
        m = re.search(r"Verification Time: ([\d.]+)s", s)
        if m: secs += float(m.group(1))
        checks = re.findall(r"Check \d+: ([^\n]+?)\s*\n\s*- Status: (\w+)\s*\n\s*- Description: \"(.*)\"", s)
        bad = [c for c in checks if c[1] == "FAILURE"]
        if "VERIFICATION:- SUCCESSFUL" in s:
            if re.search(r"\*\* (\d+) of \1 cover", s): out["discharged"] += 1
            else: out["undecided"][k] = "the contract's precondition is unreachable (vacuous)"
        elif any("ensures" in c[2] or "r ==" in c[2] or "|r" in c[2] for c in bad) or any("panic" in c[2] or "assert" in c[0] for c in bad):
            out["failed"][k] = "contract of %s: postcondition r == %s fails\n%s" % (k, "(x != x)" if t[0] == "f" else "false", "\n".join("%s: %s" % (c[0], c[2]) for c in bad))
        else:
            out["undecided"][k] = "Kani: " + "; ".join("%s %s" % (c[0], c[1]) for c in checks if c[1] not in ("SUCCESS", "SATISFIED"))[:300]
    out["solver_ms"] = int(secs * 1000)
    out["report"] = {"functions_under_contract": ["<%s as IsNan>::is_nan" % t for t in NAN], "domain": "every bit pattern, no loop, no unwinding", "checks_per_harness": {t: int(m.group(2)) for t, s in seen.items() for m in [re.search(r"\*\* (\d+) of (\d+) failed", s)] if m}}
    return out


# ---------------------------------------------------------------- C24
INT = "u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64".split()
PLOT = "i32 i64 isize u32 u64 usize f32 f64".split()


def table():
    """(module tail, name) -> (generic function, its type arguments)"""
    t = {}
    for m, p in (("single_precision", "f32"), ("double_precision", "f64")):
        for k in INT:
            t[m, "graham_scan_" + k] = ("graham_scan", [p, k])
            t[m, "jarvis_march_" + k] = ("jarvis_march", [p, k])
        for n in ("2", "3"):
            t[m, "icp_%sd" % n] = ("icp", [p, n])
            for k in PLOT: t[m, "plot_%sd_%s_bresenham_line" % (n, k)] = ("plot_bresenham_line", [p, k, n])
        for g in ("is_single_point_in_polygon", "are_multiple_points_in_polygon", "calculate_haversine_distance", "calculate_sphere_bearing"):
            t[m, g] = (g, [p])
    return t


def wrappers(pid, deep, features=None):
    out = blank("Verus/Z3", "")
    out["base"] = ["rustc -Zunpretty=expanded (macro expansion)"]
    env = dict(ENV, RUSTC_BOOTSTRAP="1", CARGO_TARGET_DIR=os.environ.get("VP_EXPAND", os.path.join(VERIF, "build/expand")))
    os.makedirs(U.BUILD, exist_ok=True)
    exp = os.path.join(U.BUILD, "%s_expanded.rs" % pid)
    build = ["--no-default-features", "--features", features] if features else []
    try:
        p = subprocess.run(["cargo", "rustc", "--offline", "-p", "mapping-algorithms", "--lib", "--manifest-path", os.path.join(U.REPO, "Cargo.toml"), "--locked"] + build + ["--", "-Zunpretty=expanded"],
                           capture_output=True, text=True, timeout=600, env=env, cwd=U.BUILD)
        open(exp, "w").write(p.stdout)
        w = json.loads(subprocess.run([U.VX, "--wrappers", exp], capture_output=True, text=True, timeout=60).stdout)
        if isinstance(w, dict): raise ValueError(w["fatal"])
        if not w: raise ValueError("no pre-generated function found; " + p.stderr[-400:])
    except Exception as e:
        out["undecided"]["pre-generated functions"] = "expansion failed: %s" % e
        return out
    tab, skip = table(), {}
    ws = {}
    for x in w:
        tail = x["module"].split("::")[-1]
        ws[tail, x["name"]] = x
    generics = {g for g, _ in tab.values()}

    def text(probe=False):
        t, ranges = open(os.path.join(VERIF, "units/wrap.rs")).read(), {}
        for key, (g, ty) in sorted(tab.items()):
            x = ws.get(key)
            if x is None or key in skip: continue
            body = x["body"]
            # an imported generic function
            body = re.sub(r"(?<![\w:.])(%s)(?=\s*(?:\(|::\s*<))" % "|".join(sorted(generics)), lambda m: m.group(1) if (key[0], m.group(1)) in ws else "generic_" + m.group(1), body)
            body = re.sub(r"(?<![\w:.])(\w+)(?=\s*\()", lambda m: "%s_%s" % (key[0], m.group(1)) if (key[0], m.group(1)) in ws else m.group(1), body)
            if probe: body = "{ assert(false); %s }" % body
            line = t.count("\n") + 1
            t += "fn %s_%s(%s) -> (r: %s)\n    ensures r == s_%s::<%s>(%s)\n%s\n" % (
                key[0], key[1], ", ".join("%s: %s" % (n.replace("mut ", ""), ty_) for n, ty_ in x["params"]), x["ret"], g, ", ".join(ty), ", ".join(n.replace("mut ", "") for n, _ in x["params"]), body)
            ranges[key] = (line, t.count("\n"))
        return t + "} // verus!\nfn main() {}\n", ranges

    name = lambda k: "%s::%s" % k
    path = os.path.join(U.BUILD, "%s_wrap.rs" % pid)
    r = None
    for attempt in range(6):
        t, ranges = text()
        open(path, "w").write(t)
        r = U.run_verus(path, rlimit=60, timeout=300)
        if r["kind"] != "compile": break
        hit = {k for d in r["diags"] for s in d["spans"] for k, (a, b) in ranges.items() if a <= s[0] <= b}
        if not hit:
            out["undecided"]["pre-generated functions"] = "verus cannot process them: " + "; ".join(d["msg"][:200] for d in r["diags"][:3])
            return out
        for k in hit: skip[k] = next(d["msg"] for d in r["diags"] if any(ranges[k][0] <= s[0] <= ranges[k][1] for s in d["spans"]))
    out["cmd"] = r.get("cmd", "")
    out["obligations"] = len(tab)
    bad = {}
    for d in r["diags"]:
        for k, (a, b) in ranges.items():
            if any(a <= s[0] <= b for s in d["spans"]): bad.setdefault(k, d)
    for k in sorted(tab):
        if k not in ws: out["undecided"][name(k)] = "not found in the expanded source"
        elif k in skip: out["undecided"][name(k)] = skip[k]
        elif k in bad:
            if U.RLIMIT_MSG.search(bad[k]["msg"]): out["undecided"][name(k)] = "solver resource limit"
            else: out["failed"][name(k)] = bad[k]["msg"] + "\n" + bad[k]["rendered"]
        elif r["kind"] in ("ok", "verif"): out["discharged"] += 1
        else: out["undecided"][name(k)] = "the verifier gave no result"
    vac = None
    if not out["failed"] and r["kind"] == "ok":
        t, pr = text(True)
        pp = os.path.join(U.BUILD, "%s_wrap_probe.rs" % pid)
        open(pp, "w").write(t)
        q = U.run_verus(pp, rlimit=60, timeout=300)
        hit = {k for d in q["diags"] for s in d["spans"] for k, (a, b) in pr.items() if a <= s[0] <= b}
        vac = [name(k) for k in pr if k not in hit]
        for k in vac: out["undecided"][k] = "vacuous"
        out["discharged"] -= len(vac)
    out["trusted"] = ["assumed contract generic_%s (the generic function is the same function of its arguments on every call)" % g for g in sorted(generics)]
    out["report"] = {"functions_under_contract": [name(k) for k in sorted(ws) if k in tab], "vacuous": vac, "others_in_the_modules": sorted(name(k) for k in ws if k not in tab)}
    try: out["solver_ms"] = r["json"]["times-ms"]["smt"]["total"]
    except Exception: pass
    return out


# ---------------------------------------------------------------- C26
def no_std(pid, deep):
    out = wrappers(pid, deep, "pregenerated")
    env = dict(ENV, CARGO_TARGET_DIR=os.environ.get("VP_FEATURES", os.path.join(VERIF, "build/features")))
    built = {}
    for f in ("", "std", "pregenerated", "std,pregenerated"):
        cmd = ["cargo", "check", "--offline", "--locked", "-p", "mapping-algorithms", "--lib", "--manifest-path", os.path.join(U.REPO, "Cargo.toml"), "--no-default-features", "--features", f]
        name = "the build with features [%s]" % f
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=600, env=env, cwd=U.BUILD)
            built[f] = p.returncode == 0
            if p.returncode and "could not compile `mapping-algorithms`" in p.stderr:
                out["failed"][name] = "the crate does not compile with features [%s]\n%s" % (f, "\n".join(re.findall(r"(?m)^error.*(?:\n .*)*", p.stderr))[:3000])
            elif p.returncode:
                out["undecided"][name] = p.stderr[-400:]
        except subprocess.TimeoutExpired:
            out["undecided"][name] = "cargo check ran out of time"
    out["report"]["builds"] = built
    return out


EXTRA = {"C22": kani_nan, "C24": wrappers, "C26": no_std}
