"""Verus back end: assemble a file from the contracts and the current source, run, classify."""
import json, os, re, subprocess, time, hashlib
from concurrent.futures import ThreadPoolExecutor
from . import extract as X
from .extract import AnchorLost

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
VERUS = "verus"


class Fn:
    """one function under contract.

    path/impl/name  where the real function lives
    sig             Verus header text incl. requires/ensures; must contain 'fn <vname>('
    params          parameter names the header was written against
    rewrites        [(pattern, replacement[, 'must'])] applied to the body tokens
    loops           [(kind, iterator name, spec)]
    hints           [(pattern, text)] ghost text inserted right after the matched tokens
    pre             ghost text at the start of the body
    keep_asserts    turn debug_assert!(c) into the obligation vassert(c)
    wrap            'impl T' block to put the function in, or None
    lines           (from, to) optional: only a part of the body (see block)
    block           pattern of a block header; the contract is on that block only
    """

    def __init__(self, path, impl, name, sig, params=None, rewrites=(), loops=(), hints=(), pre="",
                 keep_asserts=False, wrap=None, vname=None, post="", block=None, attrs="", vac=True):
        self.path, self.impl, self.name, self.sig = path, impl, name, sig
        self.params, self.rewrites, self.loops, self.hints = params, list(rewrites), list(loops), list(hints)
        self.pre, self.post, self.keep_asserts, self.wrap = pre, post, keep_asserts, wrap
        self.vname = vname or name.split("/")[-1]
        self.block = block
        self.attrs = attrs
        self.vac = vac

    @property
    def label(self):
        return f"{self.path}::{(self.impl + '::') if self.impl else ''}{self.name}" + (f"[{self.block[0]}]" if self.block else "")

    def build(self):
        """returns (sig, body text)"""
        f = X.find_fn(self.path, self.impl, self.name)
        sig, ren = self.sig, {}
        if self.params is not None:
            cur = f.params()
            if len(cur) != len(self.params):
                raise AnchorLost(f"{self.label}: parameters {cur}, contract written for {self.params}")
            ren = {a: b for a, b in zip(self.params, cur) if a != b}
        body = f.body
        if self.block:
            body = cut_block(body, self.block, self.label)
        self.src_tokens = X.norm(body)
        body = X.drop_defaults(body, self.keep_asserts)
        loops = [tuple(l) for l in self.loops]
        hints, pre, post = self.hints, self.pre, self.post
        if ren:
            def rn(t):
                if t is None:
                    return t
                for a, b in ren.items():
                    if re.match(r"\w+$", a):
                        t = re.sub(rf"\b{a}\b", b, t)
                return t
            sig, pre, post = rn(sig), rn(pre), rn(post)
            loops = [(l[0], l[1]) + tuple(rn(x) for x in l[2:]) for l in loops]
            hints = [(a, rn(b)) for a, b in hints]
        body = X.rewrite(body, self.rewrites)
        body = X.for_continue(body)
        body = X.splice_loops(body, loops, self.label)
        for pat, text in hints:
            body = X.insert_after(body, pat, text, self.label)
        return sig, pre + "\n" + X.render(body) + "\n" + post


def cut_block(body, spec, label):
    """spec = (name, pattern): body of the first brace block that follows the match of pattern"""
    pp = X.parse_pattern(spec[1])
    for i in range(len(body)):
        r = X.match_at(body, i, pp)
        if r:
            e = r[0]
            if body[e - 1].s == "{":
                e -= 1
            if body[e].s != "{":
                raise AnchorLost(f"{label}: no block after pattern")
            return body[e + 1 : X.match_close(body, e)]
    raise AnchorLost(f"{label}: block header not found: {spec[1]}")


class Unit:
    def __init__(self, name, prelude, fns, tail="", consistency="", rlimit=30, flags=()):
        self.name, self.prelude, self.fns, self.tail = name, prelude, fns, tail
        self.rlimit, self.flags = rlimit, list(flags)


HEADER = """#![feature(allocator_api)]
#![allow(unused, dead_code, non_snake_case, non_camel_case_types, non_upper_case_globals)]
use vstd::prelude::*;
verus! {
fn vassert(b: bool) requires b {}
"""


def emit(unit, built, only=None, vac=False):
    """built: list of (fn, sig, body). only: emit bodies just for these names, the rest contract only"""
    out = [HEADER, unit.prelude]
    spans = {}

    def add(t):
        out.append(t)

    def line():
        return sum(x.count("\n") for x in out) + len(out)

    for fn, sig, body in built:
        s = line()
        if fn.wrap:
            add(fn.wrap + " {")
        if only is not None and fn.label not in only:
            add("#[verifier::external_body]\n" + sig + "\n{ unimplemented!() }")
        else:
            add(fn.attrs + "\n" + sig + "\n{\n" + body + "\n}")
        if fn.wrap:
            add("}")
        spans[fn.label] = (s, line())
        if vac and fn.vac and (only is None or fn.label in only):
            s = line()
            vs = re.sub(rf"\bfn {fn.vname}\b", f"fn {fn.vname}__vac", sig, count=1)
            if re.search(r"\bensures\b", vs):
                vs = re.sub(r"\bensures\b", "ensures false,", vs, count=1)
            else:
                vs = vs + "\n ensures false,"
            if fn.wrap:
                add(fn.wrap + " {")
            add(fn.attrs + "\n" + vs + "\n{\n" + body + "\n}")
            if fn.wrap:
                add("}")
            spans[fn.label + "#vac"] = (s, line())
    s = line()
    add(unit.tail)
    spans["(lemmas)"] = (s, line())
    if vac:
        s = line()
        add("proof fn vacuity__probe() ensures false {}")
        spans["(axioms)#vac"] = (s, line())
    add("}\nfn main() {}")
    return "\n".join(out), spans


SEM = re.compile(r"^error: (postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied.*|"
                 r"possible arithmetic underflow/overflow|possible division by zero|decreases not satisfied.*|"
                 r"loop invariant not .*|unable to prove .*|.*not satisfied.*|recommendation not met|constructed value may fail.*|possible .*)", re.M)


def run_verus(path, rlimit, flags=(), timeout=600):
    t0 = time.time()
    cmd = [VERUS, path, "--crate-type", "lib", "--output-json", "--time", "--multiple-errors", "8", "--rlimit", str(rlimit)] + list(flags)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return {"crash": "timeout", "errors": [], "verified": 0, "wall": time.time() - t0, "raw": ""}
    res = {"crash": None, "errors": [], "verified": 0, "wall": time.time() - t0, "raw": p.stderr, "smt_ms": 0}
    try:
        js = json.loads(p.stdout[p.stdout.index("{"):])
        vr = js.get("verification-results", {})
        res["verified"] = vr.get("verified", 0)
        if vr.get("encountered-vir-error"):
            res["crash"] = "vir"
        if "verified" not in vr:
            res["crash"] = "no-result"
        res["smt_ms"] = js.get("times-ms", {}).get("smt", {}).get("smt-run", 0) or js.get("times-ms", {}).get("smt", {}).get("total", 0)
    except ValueError:
        res["crash"] = "no-json"
    # error blocks
    for blk in re.split(r"\n(?=error|warning|note: )", "\n" + p.stderr):
        b = blk.strip("\n")
        if not b.startswith("error"):
            continue
        if b.startswith("error: aborting"):
            continue
        lines = [int(x) for x in re.findall(r"--> [^\n:]+:(\d+):\d+", b)]
        marks = [int(x) for x in re.findall(r"^\s*(\d+)\s*[|/]", b, re.M)]
        kind = "sem" if SEM.match(b) and not re.match(r"error\[E", b) else ("rlimit" if "rlimit" in b.lower() or "Resource limit" in b else "other")
        res["errors"].append({"kind": kind, "lines": lines, "marks": marks, "text": b[:1500]})
        if kind == "other":
            res["crash"] = res["crash"] or "compile"
    return res


def owner(spans, err):
    """the function an error belongs to: the span containing its primary location"""
    for ln in err["lines"] + err["marks"]:
        for lab, (a, b) in spans.items():
            if a <= ln <= b:
                return lab
    # location inside the prelude (e.g. failed postcondition text): use marks inside spans
    return None


def owners(spans, err):
    o = []
    for ln in err["lines"] + err["marks"]:
        for lab, (a, b) in spans.items():
            if a <= ln <= b and lab not in o:
                o.append(lab)
    return o


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.proved = []      # labels
        self.failed = []      # (label, text)
        self.undecided = []   # (label, why)
        self.obligations = 0
        self.wall = 0.0
        self.smt_ms = 0
        self.vac_ok = []
        self.vac_bad = []
        self.file = None
        self.tokens = {}

    def __repr__(self):
        return f"<{self.unit.name} proved={len(self.proved)} failed={self.failed} undecided={self.undecided} vac_bad={self.vac_bad}>"


def verify(unit, pid, vac=True):
    r = Result(unit)
    d = os.path.join(BUILD, "verus", pid)
    os.makedirs(d, exist_ok=True)
    built, lost = [], []
    for fn in unit.fns:
        try:
            sig, body = fn.build()
            built.append((fn, sig, body))
            r.tokens[fn.label] = hashlib.sha256(fn.src_tokens.encode()).hexdigest()[:16]
        except (AnchorLost, OSError, StopIteration, KeyError, IndexError) as e:
            lost.append((fn, str(e)))
    for fn, why in lost:
        r.undecided.append((fn.label, f"anchor lost: {why}"))
    lostset = {fn.label for fn, _ in lost}
    # functions whose anchor is lost stay in the file as contract only so callers can still be checked
    order = []
    bm = {fn.label: (fn, s, b) for fn, s, b in built}
    for fn in unit.fns:
        order.append(bm.get(fn.label) or (fn, fn.sig, ""))
    labels = [fn.label for fn in unit.fns if fn.label not in lostset]

    def go(tag, only, vacuity):
        text, spans = emit(unit, order, only, vacuity)
        path = os.path.join(d, f"{unit.name}{tag}.rs")
        with open(path, "w") as f:
            f.write(text)
        return run_verus(path, unit.rlimit, unit.flags), spans, path

    jobs = []
    with ThreadPoolExecutor(2) as ex:
        j1 = ex.submit(go, "", set(labels), False)
        j2 = ex.submit(go, "_vac", set(labels), True) if vac else None
        res, spans, path = j1.result()
        vres = j2.result() if j2 else None
    r.file = path
    r.wall += res["wall"]
    r.smt_ms += res.get("smt_ms", 0)

    def classify(res, spans, labels):
        bad = {}
        for e in res["errors"]:
            os_ = [o for o in owners(spans, e) if not o.endswith("#vac")]
            lab = None
            for o in os_:
                if o in labels or o == "(lemmas)":
                    lab = o
                    # prefer the function whose body is being checked: first location in a span
                    break
            lab = lab or "(prelude)"
            bad.setdefault(lab, []).append(e)
        return bad

    if res["crash"]:
        # isolate: one function at a time, everything else contract-only
        def one(lab):
            return lab, go("_" + hashlib.md5(lab.encode()).hexdigest()[:6], {lab}, False)
        with ThreadPoolExecutor(4) as ex:
            outs = list(ex.map(one, labels + ["(none)"]))
        for lab, (res1, spans1, _) in outs:
            r.wall += res1["wall"]
            r.obligations += res1["verified"] if lab != "(none)" else 0
            if lab == "(none)":
                if res1["crash"] or res1["errors"]:
                    r.undecided.append(("(contracts and lemmas)", (res1["raw"] or str(res1["crash"]))[-800:]))
                continue
            if res1["crash"]:
                r.undecided.append((lab, "outside the verifier's input language now: " + "; ".join(e["text"].split("\n")[0] for e in res1["errors"][:3])[:400] + str(res1["crash"])))
                continue
            sem = [e for e in res1["errors"] if e["kind"] == "sem"]
            if sem:
                r.failed.append((lab, "\n".join(e["text"] for e in sem)))
            elif res1["errors"]:
                r.undecided.append((lab, "solver resource limit"))
            else:
                r.proved.append(lab)
        return r
    r.obligations = res["verified"]
    bad = classify(res, spans, labels)
    for lab in labels + ["(lemmas)"]:
        es = bad.get(lab, [])
        sem = [e for e in es if e["kind"] == "sem"]
        if sem:
            r.failed.append((lab, "\n".join(e["text"] for e in sem)))
        elif es:
            r.undecided.append((lab, "solver resource limit"))
        elif lab != "(lemmas)":
            r.proved.append(lab)
    if "(prelude)" in bad:
        r.failed.append(("(prelude)", "\n".join(e["text"] for e in bad["(prelude)"])))
    if vres:
        vr, vspans, _ = vres
        r.wall += vr["wall"]
        hit = set()
        for e in vr["errors"]:
            for o in owners(vspans, e):
                if o.endswith("#vac"):
                    hit.add(o)
        for fn, _, _ in built:
            if not fn.vac:
                continue
            (r.vac_ok if fn.label + "#vac" in hit else r.vac_bad).append(fn.label)
        (r.vac_ok if "(axioms)#vac" in hit else r.vac_bad).append("(axioms)")
    return r
