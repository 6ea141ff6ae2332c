"""Assemble a verification unit (template + text extracted from /repo) and run Verus on it."""
import difflib, json, os, re, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "crates/mapping-algorithms/src")
VX = os.path.join(VERIF, "vx/target/release/vx")
REF = os.path.join(VERIF, "units/ref.json")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))

SECTIONS = ("params", "sig", "spec", "attrs", "start", "end", "ret", "loop", "loopstart", "loopend",
            "after", "closure", "subst", "note")
SINGLE = ("params", "sig", "subst", "note")


class Fn:
    def __init__(self, key, attrs):
        self.key, self.attrs, self.sec = key, attrs, {}

    @property
    def props(self):
        return [p for p in self.attrs.get("props", "").split(",") if p]

    def get(self, name, k=None):
        return self.sec.get((name, k), "")


def parse_template(path, seen=None):
    """-> list of ('text', str) | ('type', name, subst) | ('fn', Fn)"""
    out, buf, cur, sec = [], [], None, None
    for line in open(path):
        s = line.strip()
        if cur is None:
            if s.startswith("//@include "):
                if buf: out.append(("text", "".join(buf))); buf = []
                for f in s.split()[1:]:
                    p = os.path.join(VERIF, "shim", f)
                    if not os.path.exists(p): p = os.path.join(VERIF, "units", f)
                    out.extend(parse_template(p))
            elif s.startswith("//@const "):
                # a literal of the code under test, by the text around it: name, type, regular expression
                if buf: out.append(("text", "".join(buf))); buf = []
                out.append(("const",) + tuple(s[9:].split(None, 2)))
            elif s.startswith("//@broadcast "):
                out.append(("broadcast", s[13:].strip()))
            elif s.startswith("//@type "):
                if buf: out.append(("text", "".join(buf))); buf = []
                parts = s[8:].split("|")
                out.append(("type", parts[0].strip(), [x.strip() for x in parts[1:]]))
            elif s.startswith("//@fn "):
                if buf: out.append(("text", "".join(buf))); buf = []
                toks = s[6:].split()
                cur = Fn(toks[0], dict(t.split("=", 1) for t in toks[1:]))
                sec = None
            else:
                buf.append(line)
        else:
            if s == "//@end":
                out.append(("fn", cur)); cur = None
                continue
            m = re.match(r"@(\w+)(?:\s+(.*))?$", s)
            if m and m.group(1) in SECTIONS:
                name, rest = m.group(1), m.group(2) or ""
                if name in SINGLE:
                    cur.sec[(name, None)] = cur.sec.get((name, None), "") + rest + "\n"
                    sec = (name, None) if name == "sig" else None
                else:
                    k = None
                    mm = re.match(r"(\d+)\s*(.*)$", rest)
                    if mm: k, rest = int(mm.group(1)), mm.group(2)
                    sec = (name, k)
                    cur.sec[sec] = cur.sec.get(sec, "") + (rest + "\n" if rest else "")
            elif sec is not None:
                cur.sec[sec] = cur.sec.get(sec, "") + line
    if buf: out.append(("text", "".join(buf)))
    return out


def load(name):
    items = parse_template(os.path.join(VERIF, "units", name + ".vrs"))
    return items, [i[1] for i in items if i[0] == "fn"], [i[1] for i in items if i[0] == "type"]


def vx(fns, known, types, features=None):
    req = {"fns": [], "known": known, "types": types}
    for f in fns:
        if "assume" in f.attrs: continue
        d = {"key": f.key, "ty": f.attrs.get("ty"), "name": f.attrs.get("name", f.key.split("::")[-1])}
        for a in ("file", "trait"):
            if a in f.attrs: d[a] = f.attrs[a]
        if "impl" in f.attrs: d["impl"] = f.attrs["impl"]
        if f.get("params").split(): d["params"] = f.get("params").split()
        req["fns"].append(d)
    os.makedirs(BUILD, exist_ok=True)
    fd, rp = tempfile.mkstemp(prefix="req-", suffix=".json", dir=BUILD)
    with os.fdopen(fd, "w") as h: json.dump(req, h)
    try:
        out = subprocess.run([VX, SRC, rp], capture_output=True, text=True, timeout=120, env=dict(os.environ, VX_FEATURES=features) if features else None)
    finally:
        os.unlink(rp)
    try:
        return json.loads(out.stdout)
    except Exception:
        return {"fatal": "vx failed: " + out.stderr[-2000:]}


def rename(text, mapping):
    if not mapping: return text
    return re.sub(r"(?<![\w.])[A-Za-z_]\w*", lambda m: mapping.get(m.group(0), m.group(0)), text)


def local_mapping(ref, cur):
    """names of locals in the reference extraction -> names now, aligned by order of declaration."""
    m = {}
    if ref == cur: return m
    sm = difflib.SequenceMatcher(a=ref, b=cur, autojunk=False)
    for op, i1, i2, j1, j2 in sm.get_opcodes():
        if op == "replace" and i2 - i1 == j2 - j1:
            for a, b in zip(ref[i1:i2], cur[j1:j2]):
                if a not in cur and b not in ref: m[a] = b
    return m


class Assembled:
    def __init__(self):
        self.text, self.ranges, self.assumed, self.lost = "", {}, {}, {}

    def fn_at(self, line):
        for k, (a, b) in self.ranges.items():
            if a <= line <= b: return k
        return None


MARK = re.compile(r"vx_mark!\((\w+?)(?:_(\d+))?\);")


def build_fn(f, ex, ref, probe=False, broadcast=None):
    """text of the function with the contract woven in; raises ValueError when the contract has no anchor"""
    text = ex["text"]
    for s in f.get("subst").splitlines():
        if s.strip():
            a, b = [x.strip() for x in s.split("=>", 1)]
            text = text.replace(a, b)
    kinds = [l["kind"] for l in ex["loops"]]
    if ref is not None and kinds != ref["loops"]:
        raise ValueError("loop structure changed: %s, contract written for %s" % (kinds, ref["loops"]))
    if ref is not None and ex["closures"] != ref["closures"]:
        raise ValueError("number of closures changed")
    mp = local_mapping(ref["locals"], ex["locals"]) if ref else {}
    get = lambda n, k=None: rename(f.get(n, k), mp)
    m = re.search(r"\{\s*(?:let mut \w+ = \w+;\s*)*vx_mark!\(start\);", text)
    sig, body = text[:m.start()], text[m.start():]
    sig = re.sub(r"^\s*pub(\([^)]*\))?\s+", "", sig)
    # name the return value
    depth, arrow = 0, -1
    for i, ch in enumerate(sig):
        if ch in "([{": depth += 1
        elif ch in ")]}": depth -= 1
        elif ch == "-" and sig[i:i + 2] == "->" and depth == 0: arrow = i
    if arrow >= 0:
        sig = sig[:arrow] + "-> (r: " + sig[arrow + 2:].strip() + ")"
    spec = f.get("spec")
    loops = {l["k"]: l for l in ex["loops"]}
    # loop headers: move the invariant in front of the opening brace
    def hdr(mm):
        k = int(mm.group(1))
        l = loops[k]
        inv = get("loop", k)
        has_dec = "decreases" in inv
        if "n" in l:
            pre = "i%d <= n%d,\n" % (k, k)
            dec = "" if has_dec else "\ndecreases n%d - i%d" % (k, k)
        else:
            pre, dec = "", ""
        inv = inv.strip()
        if inv.startswith("invariant"): return "\n" + inv + "\n{"
        if inv and not inv.startswith("invariant") and not inv.startswith("decreases"):
            return "\ninvariant " + pre + inv + dec + "\n{"
        if inv.startswith("decreases") and not pre:
            return "\n" + inv + "\n{"
        if inv.startswith("decreases"):
            return "\ninvariant " + pre + inv + "\n{"
        if pre:
            return "\ninvariant " + pre + dec + "\n{"
        return "\n{"
    body = re.sub(r"\{\s*vx_mark!\(loopspec_(\d+)\);", hdr, body)
    def mark(mm):
        n, k = mm.group(1), (int(mm.group(2)) if mm.group(2) else None)
        if n == "closure": return ""
        g = get(n, k)
        if n == "start" and broadcast:
            # headers come first
            h = [l for l in g.splitlines(True) if l.strip().startswith("hide(")]
            g = "".join(h) + "broadcast use {%s};\n" % broadcast + "".join(l for l in g.splitlines(True) if l not in h)
        if n == "loopstart" and k in loops and "n" in loops[k]:
            g = g
        if probe and n in ("ret", "end"):
            g = g + "\nassert(false);"
        return "\n" + g if g.strip() else ""
    # closure headers: `|a, b| {` -> header text
    def clos(body):
        while True:
            mm = re.search(r"\|([^|]*)\|\s*\{\s*vx_mark!\(closure_(\d+)\);", body)
            if not mm: return body
            h = get("closure", int(mm.group(2)))
            if h.strip():
                body = body[:mm.start()] + h.strip() + " {" + body[mm.end():]
            else:
                body = body[:mm.start()] + "|" + mm.group(1) + "| {" + body[mm.end():]
    body = clos(body)
    body = MARK.sub(mark, body)
    return f.get("attrs") + "\n#[verifier::loop_isolation(false)]\n" + sig.strip() + "\n" + spec + body


def assumed_fn(f):
    sig = f.get("sig").strip()
    if not sig: return None
    return "#[verifier::external_body]\n" + sig + "\n" + f.get("spec") + "{ unimplemented!() }\n"


# free functions only: a method is never mistaken for a local
SPECFN = re.compile(r"\b(?:spec|proof|axiom)\s+fn\s+(\w+)\s*(?:<[^>(]*>)?\s*\((?!\s*(?:tracked\s+)?&?\s*(?:mut\s+)?self\b)")


def unshadow(items, ex):
    """a local of the code may carry the name of a specification function: such functions are renamed, the code is not"""
    used = {n for e in ex["fns"].values() if e.get("ok") for n in e["locals"]}
    clash = {n for it in items if it[0] == "text" for n in SPECFN.findall(it[1])} & used
    if not clash: return items, lambda t: t
    names = "|".join(sorted(clash))
    r = re.compile(r"(?<![\w.])(%s)(?=\s*(?:\(|::\s*<)|<)" % names)
    h = re.compile(r"\b(reveal|hide|reveal_with_fuel)\((%s)\b" % names)
    esc = lambda t: h.sub(r"\1(vxs_\2", r.sub(r"vxs_\1", t))
    for it in items:
        if it[0] not in ("text", "broadcast", "const", "type"):
            for k in it[1].sec:
                if k[0] not in ("sig", "subst", "params"): it[1].sec[k] = esc(it[1].sec[k])
    bc = lambda t: ", ".join("vxs_" + x.strip() if x.strip() in clash else x.strip() for x in t.split(","))
    return [("text", esc(it[1])) if it[0] == "text" else ("broadcast", bc(it[1])) if it[0] == "broadcast" else it for it in items], esc


def assemble(items, ex, ref, assumed, probe=False):
    a = Assembled()
    items, esc = unshadow(items, ex)
    out, line, bc = [], 1, None
    def add(t):
        nonlocal line
        if not t.endswith("\n"): t += "\n"
        out.append(t); line += t.count("\n")
    for it in items:
        if it[0] == "text": add(it[1])
        elif it[0] == "broadcast": bc = it[1]
        elif it[0] == "const":
            m = next((m for e in ex["fns"].values() if e.get("ok") for m in [re.search(it[3], e["text"])] if m), None)
            add("pub open spec fn %s() -> %s { %s }" % (it[1], it[2], m.group(1) if m else "0"))
        elif it[0] == "type":
            t = ex["types"].get(it[1], {})
            if not t.get("ok"): raise ValueError("type %s not found" % it[1])
            txt = t["text"]
            for s in it[2]:
                x, y = [q.strip() for q in s.split("=>", 1)]
                txt = txt.replace(x, y)
            add(txt)
        else:
            f = it[1]
            if "assume" in f.attrs:
                if f.attrs["assume"] == "here":
                    # contract of this unit's own, taken on trust
                    add(assumed_fn(f))
                    continue
                # contract discharged in another unit: the same text there
                _, g, _ = load(f.attrs["assume"])
                g = [x for x in g if x.key == f.key and "assume" not in x.attrs]
                f.sec[("sig", None)], f.sec[("spec", None)] = g[0].get("sig"), esc(g[0].get("spec"))
                add(assumed_fn(f).replace("external_body]", "external_body] // discharged in unit " + f.attrs["assume"], 1))
                continue
            e = ex["fns"][f.key]
            txt, why = None, assumed.get(f.key)
            if why is None:
                if not e["ok"]: why = e["error"]
                else:
                    try:
                        txt = build_fn(f, e, ref.get(f.key), probe and f.attrs.get("probe") != "no", bc)
                    except Exception as exn:
                        why = str(exn)
            start = line
            if txt is None:
                txt = assumed_fn(f)
                a.assumed[f.key] = why
                if txt is None: raise ValueError("%s: %s" % (f.key, why))
            add(txt)
            a.ranges[f.key] = (start, line - 1)
    a.text = "".join(out)
    return a


VERIF_MSG = re.compile(r"not satisfied|assertion failed|possible arithmetic|possible division|recommendation|unable to prove|"
                       r"decreases|not proved|could not prove|might not|failed|possible bit", re.I)
RLIMIT_MSG = re.compile(r"rlimit|resource limit|timed out|timeout", re.I)


def run_group(cmd, timeout, cwd, env=None):
    """run a command; when its time is up, end it together with the solvers it started"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=cwd, env=env, start_new_session=True)
    try:
        return p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise


def run_verus(path, rlimit=None, extra=(), threads=8, timeout=600):
    cmd = ["verus", path, "--output-json", "--time-expanded", "--num-threads", str(threads), "--triggers-mode", "silent",
           "--multiple-errors", "6"]
    if rlimit: cmd += ["--rlimit", str(rlimit)]
    cmd += list(extra) + ["--", "--error-format=json"]
    t = time.time()
    try:
        so, se = run_group(cmd, timeout, os.path.dirname(path))
    except subprocess.TimeoutExpired as e:
        return {"kind": "timeout", "diags": [], "wall": time.time() - t, "verified": 0, "errors": 0}
    res = {"kind": "?", "diags": [], "wall": time.time() - t, "verified": 0, "errors": 0, "cmd": " ".join(cmd), "fn": {}}
    try:
        j = json.loads(so[so.index("{"):])
    except Exception:
        j = {}
    vr = j.get("verification-results", {})
    res["json"] = j
    for l in se.splitlines():
        if not l.startswith("{"): continue
        try: d = json.loads(l)
        except Exception: continue
        if d.get("level") != "error": continue
        if d["message"].startswith("aborting due to"): continue
        sp = [(s["line_start"], s["line_end"], s.get("label"), "".join(x["text"] for x in s["text"]).strip(), s["is_primary"]) for s in d.get("spans", [])]
        res["diags"].append({"msg": d["message"], "spans": sp, "rendered": d.get("rendered", ""), "code": bool(d.get("code"))})
    res["verified"], res["errors"] = vr.get("verified", 0) or 0, vr.get("errors", 0) or 0
    if vr.get("success"): res["kind"] = "ok"
    elif "verified" in vr and not vr.get("encountered-vir-error") and res["errors"] and not any(d.get("code") for d in res["diags"]): res["kind"] = "verif"
    else: res["kind"] = "compile"
    if not vr and not res["diags"]:
        res["diags"].append({"msg": "verus gave no result", "spans": [], "rendered": (so + se)[-3000:]})
    return res
