#!/usr/bin/env python3
"""development helper: dev.py <unit> [fn-filter]   assemble + verify one unit, print diagnostics
   dev.py --bless   rewrite units/ref.json (loop structure and local names the contracts were written for)"""
import sys, os, json, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import unit as U

def load(path):
    items = U.parse_template(path)
    fns = [i[1] for i in items if i[0] == "fn"]
    types = [i[1] for i in items if i[0] == "type"]
    return items, fns, types

def bless():
    ref = {}
    for p in sorted(glob.glob(U.VERIF + "/units/*.vrs")):
        items, fns, types = load(p)
        ex = U.vx(fns, [f.key for f in fns], types)
        if "fatal" in ex: print(ex); sys.exit(1)
        for f in fns:
            if "assume" in f.attrs: continue
            e = ex["fns"][f.key]
            if not e["ok"]: print("!!", p, f.key, e["error"]); continue
            ref.setdefault(os.path.basename(p), {})[f.key] = {"loops": [l["kind"] for l in e["loops"]], "locals": e["locals"], "closures": e["closures"]}
    json.dump(ref, open(U.REF, "w"), indent=1, sort_keys=True)

def main():
    if sys.argv[1] == "--bless": return bless()
    name = sys.argv[1]
    path = U.VERIF + "/units/%s.vrs" % name
    items, fns, types = load(path)
    ex = U.vx(fns, [f.key for f in fns], types)
    if "fatal" in ex: print(ex); return
    probe = "--probe" in sys.argv
    a = U.assemble(items, ex, {}, {}, probe)
    for k, w in a.assumed.items(): print("ASSUMED", k, w)
    out = U.BUILD + "/dev_%s.rs" % name
    open(out, "w").write(a.text)
    extra = []
    for x in sys.argv[2:]:
        if x != "--probe": extra += x.split()
    r = U.run_verus(out, extra=extra)
    for d in r["diags"][:25]:
        print("##", [a.fn_at(s[0]) for s in d["spans"] if s[4]], d["rendered"])
    print(r["kind"], r["verified"], r["errors"], "%.1fs" % r["wall"])

main()
