"""Kani back end: complete proofs by CBMC on the real file (included by path)."""
import os, re, subprocess, time
from .verus import BUILD, HERE


def env():
    e = dict(os.environ)
    e["HOME"] = os.environ.get("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTUP_TOOLCHAIN"] = "stable"
    if "/root/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "kani")
    e["RUSTC_WRAPPER"] = ""
    return e


class KaniResult:
    def __init__(self):
        self.ok = {}      # harness -> number of checks
        self.failed = {}  # harness -> text
        self.cover_bad = []
        self.crash = None
        self.wall = 0.0
        self.raw = ""


def run(crate, expected, harnesses=None, jobs=6, timeout=700):
    r = KaniResult()
    t0 = time.time()
    d = os.path.join(HERE, "kani", crate)
    e = env()
    e.pop("RUSTUP_TOOLCHAIN", None)
    cmd = ["cargo", "kani", "--lib", "-j", str(jobs), "--output-format", "terse"]
    for h in harnesses or []:
        cmd += ["--harness", h]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        r.crash = "timeout"
        r.wall = time.time() - t0
        return r
    r.raw = p.stdout + p.stderr
    r.wall = time.time() - t0
    cur, cur_h, checks, msg = None, {}, {}, {}
    for line in p.stdout.splitlines():
        m = re.match(r"Thread (\d+): ?(.*)", line)
        if m:
            cur = m.group(1)
            m2 = re.match(r"Checking harness (\S+?)\.\.\.", m.group(2))
            if m2:
                cur_h[cur] = m2.group(1)
            continue
        m2 = re.match(r"Checking harness (\S+?)\.\.\.", line)
        if m2:
            cur = "0"
            cur_h[cur] = m2.group(1)
            continue
        h = cur_h.get(cur)
        if not h:
            continue
        m = re.match(r"\s*\*\* (\d+) of (\d+) failed", line)
        if m:
            checks[h] = int(m.group(2))
        m = re.match(r"\s*\*\* (\d+) of (\d+) cover properties satisfied", line)
        if m and m.group(1) != m.group(2):
            r.cover_bad.append(h)
        if line.startswith("Failed Checks") or line.startswith(" File:"):
            msg[h] = msg.get(h, "") + line.strip() + "\n"
        if "VERIFICATION:- SUCCESSFUL" in line:
            r.ok[h] = checks.get(h, 0)
        if "VERIFICATION:- FAILED" in line:
            r.failed[h] = msg.get(h, "")
    missing = [h for h in expected if h not in r.ok and h not in r.failed]
    if missing:
        r.crash = "no result for " + ", ".join(missing)
    # a failed unwinding assertion or an unsupported construct decides nothing
    for h in list(r.failed):
        t = r.failed[h]
        lines = [l for l in t.splitlines() if l.startswith("Failed Checks")]
        if lines and all(("unwinding assertion" in l) or ("is not currently supported" in l) for l in lines):
            r.crash = (r.crash or "") + f" {h}: {lines[0]}"
            del r.failed[h]
    return r
