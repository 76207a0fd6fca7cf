"""Back ends: cvc5 (strings, sequences, datatypes, integers) and z3 (the rest).

Every query is a closed SMT-LIB script.  Memory and time are capped, so that a
query that runs away ends as "unknown" and never as an answer.
"""

import hashlib
import os
import re
import resource
import subprocess
import tempfile
import time

from . import terms as T

CVC5 = os.environ.get("PYVC_CVC5", "cvc5")
Z3 = os.environ.get("PYVC_Z3", "z3-new")
MEM = 3 << 30


class Stats:
    def __init__(self):
        self.queries = {}
        self.time = {}

    def add(self, backend, dt):
        self.queries[backend] = self.queries.get(backend, 0) + 1
        self.time[backend] = self.time.get(backend, 0.0) + dt


stats = Stats()
_cache = {}
DUMP = os.environ.get("PYVC_DUMP")


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def _start(cmd, text):
    f = tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=f, stderr=subprocess.DEVNULL, preexec_fn=_limit)
    p.outf = f
    try:
        p.stdin.write(text.encode())
        p.stdin.close()
    except BrokenPipeError:
        pass
    return p


def _finish(p):
    p.wait()
    p.outf.seek(0)
    out = p.outf.read().decode("utf-8", "replace")
    p.outf.close()
    return out


def _race(cmds, text, timeout, head=0.4):
    """(backend, output, seconds): the first back end gets a head start, the first answer counts"""
    t0 = time.time()
    live = {}
    todo = list(cmds)
    last = (cmds[0][0], "")
    used = []
    try:
        while True:
            now = time.time() - t0
            if todo and (not used or now > head or not live):
                b, cmd = todo.pop(0)
                live[b] = _start(cmd, text)
                used.append((b, time.time()))
            for b, p in list(live.items()):
                if p.poll() is not None:
                    out = _finish(live.pop(b))
                    first = out.strip().split("\n", 1)[0].strip() if out.strip() else ""
                    if first in ("sat", "unsat"):
                        return b, out, time.time() - t0
                    last = (b, out)
            if not live and not todo:
                return last[0], last[1] or "unknown", time.time() - t0
            if now > timeout + (2 if timeout > 2 else 0.5 if timeout > 0.3 else 0.1):
                return last[0], "timeout", now
            time.sleep(0.002 if now < 0.1 else 0.01)
    finally:
        for p in live.values():
            p.kill()
            p.wait()
            p.outf.close()
        for b, t in used:
            stats.add(b, time.time() - t)


def features(assertions):
    """which theories a query uses"""
    f = set()
    for t in T.subterms(assertions):
        s = t.sort
        if s == T.STR or T.is_seq(s) or t.op in ("in_re",):
            f.add("str")
        elif T.is_bv(s):
            f.add("bv")
        elif T.is_dt(s):
            f.add("dt")
        elif s == T.INT:
            f.add("int")
    return f


class Answer:
    __slots__ = ("status", "backend", "time", "values", "script", "output")

    def __init__(self, status, backend, dt, values, script, output):
        self.status, self.backend, self.time = status, backend, dt
        self.values, self.script, self.output = values, script, output


def solve(assertions, values=(), timeout=6, tries=None):
    """check satisfiability of the conjunction; returns an Answer"""
    assertions = [a for a in assertions if a is not T.TRUE]
    if any(a is T.FALSE for a in assertions):
        return Answer("unsat", "simplifier", 0.0, None, "", "")
    key = (frozenset(a.id for a in assertions), tuple(v.id for v in values))
    got = _cache.get(key)
    if got is not None and (got.status != "unknown" or got.time >= timeout):
        return got
    text = T.script(assertions, values)
    fs = features(assertions)
    plan = tries
    if plan is None:
        if "str" in fs:
            plan = ["cvc5", "z3"]
        elif "bv" in fs:
            plan = ["z3", "cvc5"]
        else:
            plan = ["cvc5", "z3"]
    cmds = []
    for b in plan:
        if b == "cvc5":
            cmds.append((b, [CVC5, "--lang=smt2", "--strings-exp", "--tlimit=%d" % int(timeout * 1000), "-q"]))
        else:
            cmds.append((b, [Z3, "-in", "-t:%d" % int(timeout * 1000), "-memory:2500"]))
    b, out, dt = _race(cmds, text, timeout)
    first = out.strip().split("\n", 1)[0].strip() if out.strip() else ""
    status = first if first in ("sat", "unsat") else "unknown"
    vals = None
    if status == "sat" and values:
        vals = parse_values(out.split("\n", 1)[1] if "\n" in out else "", values)
    ans = Answer(status, b, dt, vals, text, out[:4000])
    if DUMP:
        h = hashlib.sha1(text.encode()).hexdigest()[:10]
        with open(os.path.join(DUMP, "%s-%s-%s.smt2" % (status, h, b)), "w") as f:
            f.write(text)
    _cache[key] = ans
    return ans


# ---------------------------------------------------------------- model values


def sexps(text):
    tok = re.findall(r'"(?:[^"]|"")*"|\|[^|]*\||[()]|[^\s()"|]+', text)
    pos = 0

    def parse():
        nonlocal pos
        t = tok[pos]
        pos += 1
        if t == "(":
            out = []
            while tok[pos] != ")":
                out.append(parse())
            pos += 1
            return out
        return t

    res = []
    while pos < len(tok):
        res.append(parse())
    return res


def unescape(s):
    s = s[1:-1].replace('""', '"')

    def f(m):
        return chr(int(m.group(1) or m.group(2), 16))

    return re.sub(r"\\u\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})", f, s)


def value_of(x):
    if isinstance(x, str):
        if x.startswith('"'):
            return unescape(x)
        if x in ("true", "false"):
            return x == "true"
        if x.startswith("#b"):
            return int(x[2:], 2)
        if x.startswith("#x"):
            return int(x[2:], 16)
        if re.fullmatch(r"\d+", x):
            return int(x)
        return ("ctor", x.strip("|"))
    if x and x[0] == "-":
        return -value_of(x[1])
    if x and x[0] == "as":
        if x[1] == "seq.empty":
            return []
        return value_of(x[1])
    if x and x[0] == "seq.unit":
        return [value_of(x[1])]
    if x and x[0] == "seq.++":
        out = []
        for y in x[1:]:
            out += value_of(y)
        return out
    if x and x[0] == "_" and len(x) == 3 and x[1].startswith("bv"):
        return int(x[1][2:])
    if x and isinstance(x[0], str):
        return ("ctor", x[0].strip("|")) + tuple(value_of(y) for y in x[1:])
    return ("?", str(x))


def parse_values(text, values):
    try:
        pairs = sexps(text)[0]
        out = []
        for p in pairs:
            out.append(value_of(p[1]))
        return out if len(out) == len(values) else None
    except Exception:
        return None
