"""Decide one property: contracts first, labelled bounded contract monitoring of what is out of reach second."""
import json, os, re, resource, subprocess, sys, time, threading, hashlib, importlib
from . import verus, kani
from .verus import BUILD, HERE
from .extract import DROPPED, REPO

EVID = os.path.join(HERE, "evidence")
REPLAY = os.path.join(HERE, ".build", "replay")


def known_findings():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out


def build_harness(bins=("vp-harness",)):
    t0 = time.time()
    d = os.path.join(HERE, "harness")
    e = kani.env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "harness")
    e["CARGO_INCREMENTAL"] = "0"
    lock = os.path.join(d, "Cargo.lock")
    p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=d, env=e, capture_output=True, text=True, timeout=800)
    if p.returncode != 0:
        return None, p.stderr[-4000:], time.time() - t0
    return os.path.join(e["CARGO_TARGET_DIR"], "debug", "vp-harness"), "", time.time() - t0


def run_harness(binary, pid, seed, tier, budget, out):
    cmd = [binary, "run", pid, "--seed", str(seed), "--tier", tier, "--budget", str(budget), "--out", out]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=budget * 3 + 240)
    except subprocess.TimeoutExpired as ex:
        return {"crash": "the monitored code did not return (timeout)", "stderr": str(ex.stderr or "")[-2000:]}
    if not os.path.exists(out):
        return {"crash": f"harness exit {p.returncode}", "stderr": p.stderr[-3000:]}
    r = json.load(open(out))
    r["crash"] = None if p.returncode == 0 else f"harness exit {p.returncode}"
    r["stderr"] = p.stderr[-2000:]
    return r


def limit():
    # a changed loop that never ends must not take the machine's memory
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def native_kani(crate, seed):
    """replay search: the same contracts, run natively on concrete inputs"""
    e = kani.env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "kani-native")
    d = os.path.join(HERE, "kani", crate)
    p = subprocess.run(["cargo", "run", "--offline", "-q", "--", str(seed)], cwd=d, env=e, capture_output=True, text=True, timeout=400, preexec_fn=limit)
    fails = [l[5:] for l in p.stdout.splitlines() if l.startswith("FAIL ")]
    m = re.search(r"EVALUATIONS (\d+)", p.stdout)
    return {"fails": fails, "evaluations": int(m.group(1)) if m else 0, "crash": None if m else p.stderr[-1500:]}


def write_replay(pid, name, obj):
    os.makedirs(REPLAY, exist_ok=True)
    path = os.path.join(REPLAY, f"{pid}-{name}.json")
    with open(path, "w") as f:
        json.dump(obj, f, indent=1, default=str)
    return path


def check(pid, tier, seed):
    t0 = time.time()
    from proofs import registry
    cfg = registry.PROPS[pid]
    budget = cfg.get("budget", {}).get(tier, 12 if tier == "quick" else 180)
    vres, kres, hres, nres = [], {}, None, None
    box = {}

    def deductive():
        try:
            for u in cfg.get("verus", []):
                vres.append(verus.verify(u, pid))
            for crate, expected in cfg.get("kani", []):
                kres[crate] = kani.run(crate, expected, [h for h in expected])
        except Exception as ex:  # tool trouble decides nothing
            import traceback
            box["deductive"] = traceback.format_exc()

    th = threading.Thread(target=deductive)
    th.start()
    hb = None
    if cfg.get("harness"):
        hb, err, bt = build_harness()
        box["harness_build_s"] = round(bt, 1)
        if hb is None:
            box["harness_build"] = err
        else:
            os.makedirs(os.path.join(BUILD, "out"), exist_ok=True)
            out = os.path.join(BUILD, "out", f"{pid}.json")
            if os.path.exists(out):
                os.remove(out)
            hres = run_harness(hb, pid, seed, tier, budget, out)
    if cfg.get("native"):
        nres = {c: native_kani(c, seed) for c in cfg["native"]}
    th.join()

    failed = [(u, lab, txt) for r in vres for u in [r.unit.name] for lab, txt in r.failed]
    undecided = [(r.unit.name, lab, why) for r in vres for lab, why in r.undecided]
    kfailed = [(c, h, t) for c, r in kres.items() for h, t in r.failed.items()]
    for c, r in kres.items():
        if r.crash:
            undecided.append((c, "(kani)", r.crash + " " + r.raw[-600:]))
    # a failed obligation: look harder for a concrete input before reporting it without one
    if (failed or kfailed) and hb and hres and not hres.get("violations"):
        out = os.path.join(BUILD, "out", f"{pid}-2.json")
        if os.path.exists(out):
            os.remove(out)
        h2 = run_harness(hb, pid, seed + 7919, tier, min(budget * 3, 90), out)
        if h2.get("violations"):
            hres = h2

    viol = []   # (key, description, replay obj, has_input)
    if hres:
        for v in hres.get("violations", []):
            viol.append((v["key"], v["what"], {"property": pid, "kind": "harness", **v}, True))
        if hres.get("crash") and not hres.get("violations"):
            if "timeout" in hres["crash"] or "exit 134" in hres["crash"] or "exit -6" in hres["crash"] or "exit -11" in hres["crash"]:
                viol.append(("nonterminating-or-abort", hres["crash"], {"property": pid, "kind": "crash", **hres}, True))
            else:
                print(f"check {pid}: harness error: {hres['crash']} {hres.get('stderr','')}", file=sys.stderr)
                sys.exit(3)
    if nres:
        for c, r in nres.items():
            for f in r["fails"]:
                viol.append(("native:" + f.split(" ")[0], f, {"property": pid, "kind": "native", "crate": c, "fail": f}, True))
    known = [(k, d) for p, k, d in known_findings() if p == pid]
    kn_hit, real = [], []
    for v in viol:
        hit = [k for k in known if k[0] == v[0]]
        (kn_hit if hit else real).append((v, hit))
    for k, d in known:
        print(f"KNOWN-FINDING: property={pid} {d}")

    ded_ok = not failed and not kfailed
    vac_bad = [(r.unit.name, l) for r in vres for l in r.vac_bad]
    cover_bad = [(c, h) for c, r in kres.items() for h in r.cover_bad]
    obligations = sum(r.obligations for r in vres) + sum(sum(r.ok.values()) for r in kres.values())
    nfail = sum(1 for _ in failed) + len(kfailed)
    proved = [l for r in vres for l in r.proved] + [f"{c}::{h}" for c, r in kres.items() for h in r.ok]
    level = cfg["level"]
    if "deductive" in box:
        undecided.append(("(tool)", "", box["deductive"][-1500:]))
    if "harness_build" in box and not undecided and not failed:
        print(f"check {pid}: harness does not build against the current tree:\n{box['harness_build']}", file=sys.stderr)
    cov = {
        "obligations": obligations + nfail,
        "discharged": obligations,
        "checker_cmd": f"cd /verif && python3 run.py check {pid}",
        "trusted_base": "; ".join(cfg.get("trusted", []))[:4000] or "the verifier and its solver",
        "back_ends": {"verus+z3": sum(r.obligations for r in vres), "kani+cbmc": sum(sum(r.ok.values()) for r in kres.values())},
        "solver_ms": sum(r.smt_ms for r in vres),
        "verifier_wall_s": round(sum(r.wall for r in vres) + sum(r.wall for r in kres.values()), 1),
        "functions_under_contract": proved + [l for _, l, _ in failed],
        "proved": proved,
        "failed_obligations": [f"{u}:{l}" for u, l, _ in failed] + [f"{c}:{h}" for c, h, _ in kfailed],
        "undecided": [f"{u}:{l}: {w[:300]}" for u, l, w in undecided],
        "vacuity_probes_that_fail_as_required": sum(len(r.vac_ok) for r in vres),
        "vacuity_suspects": [f"{a}:{b}" for a, b in vac_bad + cover_bad],
        "source_tokens": {k: v for r in vres for k, v in r.tokens.items()},
        "extraction_drops": DROPPED + cfg.get("drops", []),
        "bounded": {
            "label": "bounded: contracts monitored on generated executions of the real code; not counted as proved",
            "functions": cfg.get("bounded", []),
            "evaluations": (hres or {}).get("evaluations", 0) + sum(r["evaluations"] for r in (nres or {}).values()),
            "distinct_nontrivial": (hres or {}).get("distinct", 0),
            "rule": (hres or {}).get("rule", ""),
            "samples": (hres or {}).get("samples", [])[:5],
            "counters": (hres or {}).get("counters", {}),
            "build_s": box.get("harness_build_s", 0),
        },
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "wall_s": round(time.time() - t0, 2),
        "assumptions": cfg.get("assumptions", []) + cfg.get("trusted", []),
        "violations": len(real) + (0 if real else nfail),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    for u, l, w in undecided:
        print(f"UNDECIDED {u} {l}: {w.splitlines()[0][:200] if w else ''} (the bounded check of this function decides this run)")
    for a, b in vac_bad + cover_bad:
        print(f"VACUITY-SUSPECT {a} {b}")
    print(f"{pid}: {len(proved)} functions/lemma groups proved, {obligations} obligations discharged, {nfail} failed, "
          f"{len(undecided)} undecided; bounded evaluations {cov['bounded']['evaluations']}; {ev['wall_s']} s")
    if real:
        v = real[0][0]
        rp = dict(v[2])
        rp["failed_obligations"] = [f"{u}:{l}\n{t}" for u, l, t in failed] + [f"{c}:{h}\n{t}" for c, h, t in kfailed]
        path = write_replay(pid, hashlib.md5((v[0] + str(v[2])).encode()).hexdigest()[:8], rp)
        print(f"violated: {v[0]}: {v[1]}"[:1500])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if failed or kfailed:
        path = write_replay(pid, "obligation", {
            "property": pid, "kind": "obligation",
            "failed": [{"unit": u, "obligation": l, "verifier_output": t} for u, l, t in failed] +
                      [{"unit": c, "obligation": h, "verifier_output": t} for c, h, t in kfailed],
            "verified_files": [r.file for r in vres],
        })
        for u, l, t in failed:
            print(f"failed obligation in {l}: {t.splitlines()[0] if t else ''}")
        for c, h, t in kfailed:
            print(f"failed obligation {c}::{h}: {t}")
        print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        return 1
    if vac_bad or cover_bad:
        # a proof that cannot fail proves nothing: say so, and let only the bounded part count
        print(f"note: vacuity probe succeeded for {vac_bad + cover_bad}")
    if "harness_build" in box and not cfg.get("native"):
        sys.exit(3)
    return 0


def replay(path):
    o = json.load(open(path))
    if o["kind"] == "harness":
        hb, err, _ = build_harness()
        if not hb:
            print(err)
            return 3
        return subprocess.run([hb, "replay", path]).returncode
    if o["kind"] == "native":
        e = kani.env()
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "kani-native")
        d = os.path.join(HERE, "kani", o["crate"])
        args = o["fail"].split(" :: ")[0].split(" ")
        return subprocess.run(["cargo", "run", "--offline", "-q", "--", "replay"] + args, cwd=d, env=e).returncode
    print(json.dumps(o, indent=1))
    return 0
