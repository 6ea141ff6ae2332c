#!/usr/bin/env python3
"""Runs what tools/vx extracted beside what it was extracted from: the text under proof, with its ghost marks removed and
the operations vx introduces given their executable meaning (lowered/src/shim.rs, over the real nalgebra and rand), is
compiled at f64 for 1, 2 and 3 dimensions and compared bit for bit with the crate on generated inputs.
  lowercheck.py [ROUNDS]      prints the result as JSON
  lowercheck.py --conform     the contracts of shim/*.rs against nalgebra, num-traits, rand and std (lowered/src/bin/conform.rs)"""
import json, os, re, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import unit as U

UNITS = ("kd", "cloud", "move", "lex", "ext", "pip", "pipbox", "marchend", "scanend", "scan", "bres", "geo", "builder", "iso", "icp")
RIGID = ("transform_point_cloud", "outer_product", "get_rotation_matrix_and_centroids", "icp_iteration", "icp", "calculate_mse")
PLANE = ("does_ray", "is_single", "are_multiple", "calculate_determinant", "jarvis", "build_hull", "graham", "calculate_haversine", "calculate_sphere")


def source(dim):
    out, impls, seen, tseen = [], {}, set(), set()
    for u in UNITS:
        items, fns, types = U.load(u)
        ex = U.vx(fns, [f.key for f in fns], types)
        if "fatal" in ex: raise RuntimeError(ex["fatal"])
        for name, t in ex["types"].items():
            if name in tseen or not t.get("ok"): continue
            if name.startswith("ICP") and dim == 1: continue
            tseen.add(name)
            out.append("#[derive(Clone, Debug)]\n" + re.sub(r"<T\b", "<T: Scalar", t["text"], count=1))
        for f in fns:
            if "assume" in f.attrs or f.key in seen: continue
            seen.add(f.key)
            e = ex["fns"][f.key]
            if not e.get("ok"): raise RuntimeError("%s: %s" % (f.key, e.get("error")))
            t = re.sub(r"vx_mark!\(\w+\);", "", e["text"])
            for s in f.get("subst").splitlines():
                if "=>" in s:
                    a, b = [x.strip() for x in s.split("=>", 1)]
                    if a.startswith("&mut VxFnMut") or a == "_internal": continue
                    t = t.replace(a, b)
            m = re.match(r"update_transform_(\d)", f.key)
            if m and int(m.group(1)) != dim: continue
            if dim == 1 and (f.key.startswith(("ICP", "update", "verify")) or f.key in RIGID): continue
            if dim != 2 and f.key.startswith(PLANE): continue
            t = t.replace("<const N: usize>", "", 1)
            t = re.sub(r"^(\s*)(pub\s+)?fn ", r"\1pub fn ", t, count=1)
            ty = f.attrs.get("ty")
            if ty and ty != "IsometryAbstractor": impls.setdefault(ty, []).append(t)
            else: out.append(t)
    for ty, fs in impls.items():
        out.append("impl %s {\n%s\n}" % (ty + ("<T, N>" if ty.startswith("KD") else "<T>"), "\n".join(fs)))
    out.append("impl Default for KDTree<T, N> { fn default() -> Self { KDTree { root: None, element_count: 0 } } }")
    if dim > 1:
        out.append("impl IsometryAbstractor<T, N> { pub fn update_transform(a: &Isometry<T, R, N>, b: Point<T, N>, c: Point<T, N>, d: &SMatrix<T, N, N>) -> Isometry<T, R, N> { update_transform_%d(a, b, c, d) } }" % dim)
    return "\n".join(out)


def run(rounds=2000, timeout=500):
    """-> {"ok": bool|None, "functions": {name: (cases, without panic)}, "diff": [...], "note": str}"""
    d = os.path.join(U.BUILD, "lowered")
    os.makedirs(d, exist_ok=True)
    t0 = time.time()
    try:
        for k in (1, 2, 3):
            p, s = os.path.join(d, "d%d.rs" % k), source(k)
            if not os.path.exists(p) or open(p).read() != s: open(p, "w").write(s)
        crate = os.path.join(U.VERIF, "lowered")
        env = dict(os.environ, LOWERED=d)
        p = subprocess.run(["cargo", "build", "--release", "--offline", "-q", "--bin", "lowered"], cwd=crate, env=env, capture_output=True, text=True, timeout=timeout)
        if p.returncode: return {"ok": None, "note": "the extracted text did not compile against the executable shim: " + p.stderr[:6000]}
        p = subprocess.run([os.path.join(crate, "target/release/lowered"), str(rounds)], env=env, capture_output=True, text=True, timeout=timeout)
    except (RuntimeError, subprocess.TimeoutExpired) as e:
        return {"ok": None, "note": str(e)[:1500]}
    fns, diff = {}, []
    for l in p.stdout.splitlines():
        w = l.split(" ", 1)
        if w[0] == "DIFF": diff.append(w[1][:1500])
        else:
            a = w[1].split()
            fns[a[0]] = (int(a[1]), int(a[2]))
    return {"ok": p.returncode == 0 and not diff and bool(fns), "functions": fns, "diff": diff, "note": "" if p.returncode == 0 else p.stderr[-500:], "seconds": round(time.time() - t0, 1)}


def conform(rounds=20000, timeout=500):
    """the contracts assumed of dependencies, run against them -> {"ok": bool|None, "contracts": {name: cases}, "diff": [...]}"""
    crate = os.path.join(U.VERIF, "lowered")
    try:
        p = subprocess.run(["cargo", "build", "--release", "--offline", "-q", "--bin", "conform"], cwd=crate, capture_output=True, text=True, timeout=timeout)
        if p.returncode: return {"ok": None, "note": p.stderr[:1500]}
        p = subprocess.run([os.path.join(crate, "target/release/conform"), str(rounds)], capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return {"ok": None, "note": str(e)}
    ls = [l.split(" ", 2) for l in p.stdout.splitlines()]
    diff = [l[5:1500] for l in p.stdout.splitlines() if l.startswith("DIFF ")]
    return {"ok": p.returncode == 0 and not diff and bool(ls), "contracts": {l[2]: int(l[1]) for l in ls if l[0] in ("ok", "bad")}, "diff": diff}


if __name__ == "__main__":
    if sys.argv[1:] == ["--conform"]:
        r = conform()
        print(json.dumps(r, indent=1))
        sys.exit(0 if r["ok"] else 2)
    r = run(int(sys.argv[1]) if len(sys.argv) > 1 else 2000)
    print(json.dumps(r, indent=1) if r["ok"] is not None else r["note"])
    sys.exit(0 if r["ok"] else 2)
