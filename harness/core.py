"""Concrete cases run against the real code under CPython (bounded stand-in,
failing-input search for refuted obligations, and replay)."""

import ast
import contextlib
import json
import os
import random
import signal
import sys
import time
import traceback

REPO_SRC = "/repo/src"


class Fail(Exception):
    """the property is broken on this case"""


class CaseTimeout(BaseException):
    pass


def expect(cond, msg):
    if not cond:
        raise Fail(msg)


def short(x, n=80):
    r = repr(x)
    return r if len(r) <= n else r[:n] + "...(%d)" % (len(x) if hasattr(x, "__len__") else len(r))


def must(what, f, *a, **k):
    """call the code under test; any exception breaks the property"""
    try:
        return f(*a, **k)
    except (CaseTimeout, Fail):
        raise
    except BaseException as e:
        raise Fail("%s raised %s: %s" % (what, type(e).__name__, short(str(e))))


def refuse(what, f, *a, exc=BaseException, **k):
    """call the code under test; it has to raise"""
    try:
        r = f(*a, **k)
    except (CaseTimeout, Fail):
        raise
    except exc as e:
        return e
    except BaseException as e:
        raise Fail("%s raised %s (%s) instead of %s" % (what, type(e).__name__, short(str(e)), getattr(exc, "__name__", exc)))
    raise Fail("%s was accepted and returned %s" % (what, short(r)))


@contextlib.contextmanager
def patched(obj, name, value):
    old = getattr(obj, name)
    setattr(obj, name, value)
    try:
        yield
    finally:
        setattr(obj, name, old)


@contextlib.contextmanager
def quiet():
    """swallow diagnostics of the code under test"""
    import io

    with contextlib.redirect_stderr(io.StringIO()) as err:
        yield err


# data specs keep the recorded cases small
def data(spec):
    if isinstance(spec, str):
        return bytes.fromhex(spec)
    n, seed = spec["n"], spec["s"]
    if seed == 0:
        return bytes(n)
    return random.Random(seed).randbytes(n)


def rspec(rng, n):
    return {"n": n, "s": rng.randrange(1, 1 << 30)}


EDGE = [b"", b"\0", b"\n", b" ", b"=", b"\xff", b"\0\0", b"\r\n", b"a", b"ab", b"abc", b"\0a", b"a\0", b" a", b"a ", b"a\n", b"\na", b"\xfe\xff", b"abcd",
        b"a\0\0\0", b"\0\0\0a", b"\x80", b"\x7f", b"--- ", b"-> ", b"1", b"\x0b\x0c"]


def blob(rng, n):
    """n adversarial bytes"""
    k = rng.randrange(12)
    if k == 0:
        return bytes(n)
    if k == 1:
        return b"\xff" * n
    b = bytearray(rng.randbytes(n))
    if n:
        if k == 2:
            b[0] = 0
        elif k == 3:
            b[-1] = 0
        elif k == 4:
            b[-1] = rng.choice(b"\n\r \t\x0b\x0c=")
        elif k == 5:
            b[0] = rng.choice(b"\n\r \t\x0b\x0c=")
        elif k == 6:
            b[0] |= 0x80
        elif k == 7:
            b[rng.randrange(n)] = rng.choice(b"\n\0\xff")
    return bytes(b)


def consts():
    """integers, strings and byte strings in the current sources (boundary values)"""
    ints, strs, byts = set(), set(), set()
    for root, _, files in os.walk(os.path.join(REPO_SRC, "age")):
        for f in files:
            if not f.endswith(".py") or f.endswith("_test.py") or f == "_version.py":
                continue
            try:
                tree = ast.parse(open(os.path.join(root, f), encoding="utf-8").read())
            except Exception:
                continue
            doc = set()
            for n in ast.walk(tree):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    doc.add(id(n.value))
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and id(n) not in doc:
                    v = n.value
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, int):
                        ints.update((v - 1, v, v + 1))
                    elif isinstance(v, str) and len(v) < 60:
                        strs.add(v)
                    elif isinstance(v, bytes):
                        byts.add(v)
                elif isinstance(n, ast.BinOp):
                    try:
                        v = eval(compile(ast.Expression(n), "c", "eval"), {"__builtins__": {}})
                    except Exception:
                        continue
                    if isinstance(v, int) and abs(v) < 1 << 80:
                        ints.update((v - 1, v, v + 1))
    return {"ints": sorted(ints), "strs": sorted(strs), "bytes": sorted(byts)}


SEARCHES = {}


def search(pid):
    def deco(cls):
        SEARCHES[pid] = cls()
        return cls

    return deco


def jsonable(x):
    return json.loads(json.dumps(x, default=lambda o: o.hex() if isinstance(o, (bytes, bytearray)) else str(o)))


def run_case(s, case, limit=90):
    """None, or the description of the failure"""

    def alarm(*_):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(limit)
    try:
        s.check(case)
    except Fail as e:
        return str(e)
    except CaseTimeout:
        return "no answer within %d s" % limit
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return None


def run(pid, budget, seed, tier="quick", hints=None, max_fail=1):
    s = SEARCHES[pid]
    rng = random.Random(seed * 1000003 + int(pid[1:]))
    env = {"tier": tier, "consts": consts(), "hints": hints or {}}
    t0 = time.time()
    n, seen, fails, errors, samples = 0, set(), [], [], []
    for case in s.cases(rng, env):
        case = jsonable(case)
        n += 1
        key = json.dumps(case, sort_keys=True)
        if key in seen:
            continue
        seen.add(key)
        if len(samples) < 3:
            samples.append(case)
        try:
            r = run_case(s, case)
            if r is not None and r.startswith("no answer"):
                r = run_case(s, case, 200)
        except Exception:
            errors.append({"case": case, "trace": traceback.format_exc(limit=-4)})
            if len(errors) > 20:
                break
            r = None
        if r is not None:
            fails.append({"case": case, "failure": r})
            if len(fails) >= max_fail:
                break
        if time.time() - t0 > budget:
            break
    return {"evaluations": n, "distinct": len(seen), "failures": fails, "errors": errors, "samples": samples,
            "wall_s": round(time.time() - t0, 2)}


def main():
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--hints")
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.path.insert(0, REPO_SRC)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.modules["core"] = sys.modules["__main__"]
    import warnings

    warnings.simplefilter("ignore")
    import searches  # noqa: F401

    if a.replay:
        rec = json.load(open(a.replay))
        case = rec.get("input", rec)
        r = run_case(SEARCHES[a.pid], case)
        print("REPRODUCED: " + r if r else "not reproduced")
        sys.exit(1 if r else 0)
    hints = json.load(open(a.hints)) if a.hints else None
    sys.stdout.write(json.dumps(run(a.pid, a.budget, a.seed, a.tier, hints)) + "\n")


if __name__ == "__main__":
    main()
