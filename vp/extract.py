"""Mechanical extraction of Rust functions from /repo for deductive verification.

Works on tokens, never on a copy kept in /verif: every run reads the current
file, finds the function, drops a fixed list of constructs (see DROPPED), applies
the rewrite rules the proof declares, and splices contracts into the result.
"""
import re, os

REPO = os.environ.get("VERIF_REPO", "/repo")

DROPPED = [
    "attributes (#[instrument], #[allow], #[cfg_attr], derives) and comments",
    "visibility, async/await (each awaited call is treated as a sequential call)",
    "generic parameters and trait bounds of the extracted signature (the proof supplies the monomorphic model types)",
    "tracing::* log statements",
    "debug_assert*! statements (unless a proof asks for them as obligations)",
]


class AnchorLost(Exception):
    pass


TOK = re.compile(
    r"""
    (?P<ws>\s+)
  | (?P<lc>//[^\n]*)
  | (?P<bc>/\*)
  | (?P<rstr>b?r(?P<h>\#*)")
  | (?P<str>b?"(?:\\.|[^"\\])*")
  | (?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
  | (?P<life>'[A-Za-z_][A-Za-z0-9_]*)
  | (?P<num>[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9_]*)?)
  | (?P<id>[A-Za-z_][A-Za-z0-9_]*)
  | (?P<op><<=|\.\.=|\.\.\.|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|\|=|&=|\.\.)
  | (?P<p>.)
    """,
    re.X | re.S,
)


class T:
    __slots__ = ("s", "ws")

    def __init__(self, s, ws):
        self.s, self.ws = s, ws

    def __repr__(self):
        return self.s


def tokenize(src):
    out, i, ws = [], 0, False
    n = len(src)
    while i < n:
        m = TOK.match(src, i)
        k = m.lastgroup
        if k == "h":
            k = "rstr"
        if m.group("ws") is not None:
            ws = True
            i = m.end()
            continue
        if m.group("lc") is not None:
            ws = True
            i = m.end()
            continue
        if m.group("bc") is not None:
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            i = j
            ws = True
            continue
        if m.group("rstr") is not None:
            end = '"' + m.group("h")
            j = src.index(end, m.end()) + len(end)
            out.append(T(src[i:j], ws))
            i = j
        else:
            out.append(T(m.group(0), ws))
            i = m.end()
        ws = False
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}


def match_close(toks, i):
    """index of the token closing the bracket at i"""
    d = 0
    for j in range(i, len(toks)):
        s = toks[j].s
        if s in OPEN:
            d += 1
        elif s in CLOSE:
            d -= 1
            if d == 0:
                return j
    raise AnchorLost("unbalanced brackets")


def render(toks):
    out = []
    for t in toks:
        if out and (t.ws or (t.s[0].isalnum() or t.s[0] == "_") and (out[-1][-1].isalnum() or out[-1][-1] == "_")):
            out.append(" ")
        out.append(t.s)
        if t.s in (";", "{", "}"):
            out.append("\n")
    return "".join(out)


def norm(toks):
    return " ".join(t.s for t in toks)


_cache = {}


def load(path):
    full = os.path.join(REPO, path)
    st = os.stat(full)
    key = (full, st.st_mtime_ns, st.st_size)
    if key not in _cache:
        _cache[key] = tokenize(open(full).read())
    return _cache[key]


def find_impls(toks):
    """yield (header tokens, body_open, body_close) of impl/trait blocks at any depth"""
    i = 0
    while i < len(toks):
        if toks[i].s in ("impl", "trait", "mod") and (i == 0 or toks[i - 1].s in ("}", ";", "]", "{", "pub", ")", "unsafe")):
            j = i
            d = 0
            while j < len(toks) and not (toks[j].s == "{" and d == 0) and not (toks[j].s == ";" and d == 0):
                if toks[j].s in ("(", "["):
                    d += 1
                elif toks[j].s in (")", "]"):
                    d -= 1
                j += 1
            if j < len(toks) and toks[j].s == "{":
                yield toks[i].s, toks[i:j], j, match_close(toks, j)
                i = j + 1
                continue
        i += 1


def header_target(h):
    """normalised impl header -> (trait or None, type name)"""
    # drop generics directly after impl
    toks = [t.s for t in h]
    i = 1
    if i < len(toks) and toks[i] == "<":
        d = 0
        while True:
            if toks[i] == "<":
                d += 1
            elif toks[i] == ">":
                d -= 1
                if d == 0:
                    i += 1
                    break
            i += 1
    rest = toks[i:]
    if "where" in rest:
        rest = rest[: rest.index("where")]
    d = 0
    cut = None
    for k, s in enumerate(rest):
        if s == "<":
            d += 1
        elif s == ">":
            d -= 1
        elif s == "for" and d == 0:
            cut = k
            break

    def base(x):
        # last path segment before generics
        d, name = 0, None
        for s in x:
            if s == "<":
                d += 1
            elif s == ">":
                d -= 1
            elif d == 0 and re.match(r"[A-Za-z_]", s) and s not in ("dyn", "mut"):
                name = s
        return name

    if cut is None:
        return None, base(rest), rest
    return base(rest[:cut]), base(rest[cut + 1 :]), rest[cut + 1 :]


def cfg_test_spans(toks):
    spans = []
    for i in range(len(toks) - 8):
        if toks[i].s == "#" and norm(toks[i : i + 7]) == "# [ cfg ( test ) ]":
            j = i + 7
            while j < len(toks) and toks[j].s not in ("{", ";"):
                j += 1
            if j < len(toks) and toks[j].s == "{":
                spans.append((i, match_close(toks, j)))
    return spans


class Fn:
    def __init__(self, path, name, sig, body, where):
        self.path, self.name, self.sig, self.body, self.where = path, name, sig, body, where

    def params(self):
        """parameter patterns in order"""
        i = next(k for k, t in enumerate(self.sig) if t.s == self.name) + 1
        if self.sig[i].s == "<":
            d = 0
            while True:
                s = self.sig[i].s
                if s == "<":
                    d += 1
                elif s == ">":
                    d -= 1
                    if d == 0:
                        i += 1
                        break
                i += 1
        j = match_close(self.sig, i)
        ps, cur, d = [], [], 0
        for t in self.sig[i + 1 : j]:
            if t.s in OPEN or t.s == "<":
                d += 1
            elif t.s in CLOSE or t.s == ">":
                d -= 1
            if t.s == "," and d == 0:
                ps.append(cur)
                cur = []
            else:
                cur.append(t)
        if cur:
            ps.append(cur)
        names = []
        for p in ps:
            s = [t.s for t in p]
            while s and s[0] == "#":
                j2 = s.index("]")
                s = s[j2 + 1 :]
            if "self" in s[:4] and (":" not in s or s.index("self") < s.index(":")):
                names.append("self")
                continue
            s = s[: s.index(":")]
            s = [x for x in s if x not in ("mut", "ref")]
            names.append("".join(s))
        return names


def item_span(toks, i):
    """toks[i] is `fn`: (start of the item incl. `async`, index of the body's '{', index of the matching '}')"""
    j = i
    while j > 0 and toks[j - 1].s not in ("}", ";", "{", "]"):
        j -= 1
    k, d = i, 0
    while not (toks[k].s in ("{", ";") and d == 0):
        d += {"(": 1, "[": 1, ")": -1, "]": -1}.get(toks[k].s, 0)
        k += 1
    return j, k, match_close(toks, k)


def drop_fn(toks, name):
    """without the nested function item of that name"""
    for i in range(len(toks) - 1):
        if toks[i].s == "fn" and toks[i + 1].s == name:
            j, k, e = item_span(toks, i)
            return toks[:j] + toks[e + 1 :]
    raise AnchorLost(f"nested fn {name} not found")


def find_fn(path, impl, name):
    """impl: None (free fn) | 'Type' | 'Trait for Type'; name: 'f', or 'f/g' for g nested in f"""
    if "/" in name:
        outer, inner = name.split("/")
        f = find_fn(path, impl, outer)
        at = [i for i in range(len(f.body) - 1) if f.body[i].s == "fn" and f.body[i + 1].s == inner]
        if len(at) != 1:
            raise AnchorLost(f"{path}: fn {name}: {len(at)} definitions found")
        j, k, e = item_span(f.body, at[0])
        return Fn(path, inner, f.body[j:k], f.body[k + 1 : e], (impl, name))
    toks = load(path)
    tests = cfg_test_spans(toks)

    def in_test(i):
        return any(a <= i <= b for a, b in tests)

    spans = []
    impls = list(find_impls(toks))
    if impl is None:
        spans = [(0, len(toks))]
    else:
        m = re.match(r"(?:(\w+) for )?(\w+)(?: ~(.*))?$", impl)
        want_trait, want_ty, want_in = m.group(1), m.group(2), m.group(3)
        for kind, h, o, c in impls:
            if kind == "trait":
                if want_trait is None and h[1].s == want_ty and not in_test(o):
                    spans.append((o + 1, c))
                continue
            if kind != "impl":
                continue
            tr, ty, full = header_target(h)
            if want_in and want_in not in [t.s for t in h]:
                continue
            if ty == want_ty and tr == want_trait and not in_test(o):
                spans.append((o + 1, c))
    cands = []
    for a, b in spans:
        i = a
        while i < b:
            s = toks[i].s
            if s == "fn" and toks[i + 1].s == name and not in_test(i):
                # start of signature: after previous ; } or attribute ]
                j = i
                while j > a and toks[j - 1].s not in ("}", ";", "{", "]"):
                    j -= 1
                k = i
                d = 0
                while not (toks[k].s in ("{", ";") and d == 0):
                    if toks[k].s in ("(", "["):
                        d += 1
                    elif toks[k].s in (")", "]"):
                        d -= 1
                    k += 1
                if toks[k].s == "{":
                    e = match_close(toks, k)
                    inside_impl = impl is None and any(o < i < c for kd, h, o, c in impls if kd in ("impl", "trait"))
                    if not inside_impl:
                        cands.append(Fn(path, name, toks[j:k], toks[k + 1 : e], (impl, name)))
                    i = e
            elif s == "{" and impl is not None:
                i = match_close(toks, i)
            i += 1
    if len(cands) != 1:
        raise AnchorLost(f"{path}: fn {impl or ''}::{name}: {len(cands)} definitions found")
    return cands[0]


def drop_defaults(toks, keep_debug_assert=False):
    out, i = [], 0
    n = len(toks)
    while i < n:
        s = toks[i].s
        nx = toks[i + 1].s if i + 1 < n else ""
        if s == "#" and nx == "[":
            i = match_close(toks, i + 1) + 1
            continue
        if s == "#" and nx == "!" and i + 2 < n and toks[i + 2].s == "[":
            i = match_close(toks, i + 2) + 1
            continue
        if s == "<" and [t.s for t in toks[i : i + 9]] == ["<", "F", ",", "S", ",", "T", ",", "L", ">"]:
            if out and out[-1].s == "::":
                out.pop()
            i += 9
            continue
        if s == "." and nx == "await":
            i += 2
            continue
        # log statements
        if s == "tracing" and nx == "::":
            j = i + 2
            if j + 1 < n and toks[j + 1].s == "!":
                e = match_close(toks, j + 2)
                if e + 1 < n and toks[e + 1].s == ";":
                    i = e + 2
                    continue
                if not out or out[-1].s in ("{", ";", "}"):  # tail expression of type ()
                    i = e + 1
                    continue
        if s in ("debug_assert", "debug_assert_eq", "debug_assert_ne") and nx == "!":
            e = match_close(toks, i + 2)
            if keep_debug_assert and s == "debug_assert":
                # debug_assert!(cond [, msg]) -> vassert(cond);
                d, cut = 0, e
                for k in range(i + 3, e):
                    if toks[k].s in OPEN:
                        d += 1
                    elif toks[k].s in CLOSE:
                        d -= 1
                    elif toks[k].s == "," and d == 0:
                        cut = k
                        break
                out += [T("vassert", True), T("(", False)] + drop_defaults(toks[i + 3 : cut]) + [T(")", False)]
                i = e + 1
                continue
            i = e + 1
            if i < n and toks[i].s == ";":
                i += 1
            continue
        out.append(toks[i])
        i += 1
    return out


WILD = re.compile(r"\$(\w+)$")


def parse_pattern(p):
    out = []
    for w in re.split(r"(\$\$?\w+)", p):
        if w.startswith("$"):
            out.append(w)
        else:
            out += [t.s for t in tokenize(w)]
    return out


def match_at(toks, i, pat, pi=0, env=None):
    """try to match pat at position i; returns (end, env) or None.
    $x: one or more balanced tokens, shortest; $$x: exactly one token"""
    env = dict(env or {})
    while pi < len(pat):
        p = pat[pi]
        if p.startswith("$$"):
            if i >= len(toks):
                return None
            env[p[2:]] = [toks[i]]
            i += 1
            pi += 1
            continue
        if p.startswith("$"):
            j, name = i, p[1:]
            while True:
                # extend by one balanced unit
                if j >= len(toks):
                    return None
                s = toks[j].s
                if s in CLOSE:
                    return None
                if s in OPEN:
                    j = match_close(toks, j) + 1
                else:
                    j += 1
                if pi + 1 == len(pat):
                    env[name] = toks[i:j]
                    return j, env
                r = match_at(toks, j, pat, pi + 1, {**env, name: toks[i:j]})
                if r:
                    return r
                if s == ";":
                    return None
        if i >= len(toks) or toks[i].s != p:
            return None
        i += 1
        pi += 1
    return i, env


def expand_format(toks):
    """format!("a{x}b") with captured names only, as the calls it stands for: text().lit("a").show(&x).lit("b")"""
    out, i = [], 0
    while i < len(toks):
        if toks[i].s == "format" and i + 4 < len(toks) and toks[i + 1].s == "!" and toks[i + 3].s.startswith('"') and match_close(toks, i + 2) == i + 4:
            lit = toks[i + 3].s[1:-1]
            if "{{" in lit or "}}" in lit or "\\" in lit:
                raise AnchorLost("format! string with escapes")
            code = "text()"
            for part in re.split(r"(\{\w+\})", lit):
                if part.startswith("{"):
                    code += f".show(&{part[1:-1]})"
                elif part:
                    code += f'.lit("{part}")'
            out += tokenize(code)
            i += 5
        else:
            out.append(toks[i])
            i += 1
    return out


def rewrite(toks, rules):
    """rules: list of (pattern, replacement[, 'must'])"""
    for rule in rules:
        pat, rep = rule[0], rule[1]
        if pat.startswith("@drop_fn "):
            toks = drop_fn(toks, pat.split()[1])
            continue
        if pat == "@format":
            toks = expand_format(toks)
            continue
        must = len(rule) > 2 and rule[2] == "must"
        pp = parse_pattern(pat)
        out, i, hits = [], 0, 0
        first = pp[0]
        while i < len(toks):
            r = None
            if first.startswith("$") or toks[i].s == first:
                r = match_at(toks, i, pp)
            if r:
                e, env = r
                hits += 1
                lead = toks[i].ws
                new = []
                for w in re.split(r"(\$\$?\w+)", rep):
                    if w.startswith("$"):
                        new += env[w.lstrip("$")]
                    else:
                        new += tokenize(w)
                if new:
                    new = [T(new[0].s, lead or new[0].ws)] + new[1:]
                out += new
                i = e
            else:
                out.append(toks[i])
                i += 1
        if must and not hits:
            raise AnchorLost(f"pattern not found: {pat}")
        toks = out
    return toks


def for_continue(toks):
    """Verus has no `continue` in `for`: in the body of a for loop, the top-level statement
    `if C { S; continue; } REST` becomes `if C { S } else { REST }`"""
    i, out = 0, []
    n = len(toks)

    def body(b):
        k = 0
        start = True
        while k < len(b):
            s = b[k].s
            if start and s == "if":
                j, d = k + 1, 0
                while not (b[j].s == "{" and d == 0):
                    if b[j].s in ("(", "["):
                        d += 1
                    elif b[j].s in (")", "]"):
                        d -= 1
                    j += 1
                e = match_close(b, j)
                inner = b[j + 1 : e]
                if inner and inner[-1].s == ";":
                    inner = inner[:-1]
                if inner and inner[-1].s == "continue" and (e + 1 >= len(b) or b[e + 1].s != "else"):
                    rest = body(b[e + 1 :])
                    return b[: j + 1] + inner[:-1] + [b[e]] + [T("else", True), T("{", True)] + rest + [T("}", True)]
                k = j
                continue
            if s in OPEN:
                e = match_close(b, k)
                start = s == "{" 
                k = e + 1
                continue
            start = s == ";"
            k += 1
        return b

    while i < n:
        t = toks[i]
        if t.s == "for" and i + 1 < n and toks[i + 1].s != "<":
            j, d = i + 1, 0
            while not (toks[j].s == "{" and d == 0):
                if toks[j].s in ("(", "["):
                    d += 1
                elif toks[j].s in (")", "]"):
                    d -= 1
                j += 1
            e = match_close(toks, j)
            out += toks[i : j + 1] + body(for_continue(toks[j + 1 : e])) + [toks[e]]
            i = e + 1
            continue
        out.append(t)
        i += 1
    return out


def splice_loops(toks, loops, fname):
    """insert loop specs. loops: list of (kind, iter_name or None, spec text)"""
    idx = []
    for i, t in enumerate(toks):
        if t.s in ("for", "while", "loop"):
            if t.s == "for" and i + 1 < len(toks) and toks[i + 1].s == "<":
                continue
            idx.append(i)
    if len(idx) != len(loops):
        raise AnchorLost(f"{fname}: {len(idx)} loops in the current source, contracts cover {len(loops)}")
    kinds = [toks[i].s for i in idx]
    if kinds != [l[0] for l in loops]:
        raise AnchorLost(f"{fname}: loop kinds {kinds} differ from the annotated {[l[0] for l in loops]}")
    ins = {}
    for i, lp in zip(idx, loops):
        kind, itn, spec = lp[:3]
        bpre, bpost = (list(lp[3:]) + ["", ""])[:2]
        j, d = i + 1, 0
        in_pos = None
        while True:
            s = toks[j].s
            if s in ("(", "["):
                d += 1
            elif s in (")", "]"):
                d -= 1
            elif s == "in" and d == 0 and in_pos is None:
                in_pos = j
            elif s == "{" and d == 0:
                # struct literals / closures in loop headers are not used in this code base
                break
            j += 1
        ins.setdefault(j, []).append(("before", "\n" + spec + "\n"))
        if bpre:
            ins.setdefault(j, []).append(("after", "\n" + bpre + "\n"))
        if bpost:
            ins.setdefault(match_close(toks, j), []).append(("before", "\n" + bpost + "\n"))
        if kind == "for" and itn:
            ins.setdefault(in_pos, []).append(("after", f" {itn}: "))
    out = []
    for k, t in enumerate(toks):
        for w, x in ins.get(k, []):
            if w == "before":
                out.append(T(x, True))
        out.append(t)
        for w, x in ins.get(k, []):
            if w == "after":
                out.append(T(x, True))
    return out


def insert_after(toks, pat, text, label):
    pp = parse_pattern(pat)
    for i in range(len(toks)):
        r = match_at(toks, i, pp)
        if r:
            e = r[0]
            return toks[:e] + [T("\n" + text + "\n", True)] + toks[e:]
    raise AnchorLost(f"{label}: hint anchor not found: {pat}")
