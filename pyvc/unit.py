"""Verification units: a unit is a Python function that sets up arbitrary inputs,
calls functions of the real code and proves postconditions on every path."""

import importlib
import time
import traceback

from . import terms as T
from . import solver
from . import axioms
from .core import *  # noqa: F401,F403
from .core import UNDEF, Obligation
from .interp import Interp, NeedHavoc, tint, tbool, tstr, kind_of

UNITS = {}  # property -> [Unit]
PROPS = {}  # property -> {"bounded": what is only checked on a bounded set of inputs, "assume": [...]}
ASSUME = [
    "pyvc's reading of Python: the subset of the language used by the functions under contract, with unbounded integers; other constructs are refused, not guessed",
    "termination is not verified; MemoryError, KeyboardInterrupt and recursion limits are not modelled",
    "characters of symbolic text are limited to U+0000..U+2FFFF",
    "solver answers (cvc5 1.1.2, z3) are trusted",
]


class Unit:
    def __init__(self, prop, name, fn, hints=(), contracts=None, timeout=8, budget=240, needs=(), strict_ffi=False, state_ok=(), limit=4000, weight=1, dep=False):
        self.prop, self.name, self.fn, self.hints, self.contracts = prop, name, fn, hints, contracts
        self.timeout, self.budget, self.needs, self.strict_ffi, self.state_ok, self.limit = timeout, budget, needs, strict_ffi, state_ok, limit
        self.weight, self.dep = weight, dep


def unit(prop, name, **kw):
    def deco(f):
        props = (prop,) if isinstance(prop, str) else prop
        for p in props:  # "C01?": a unit of another property whose contracts C01 relies on
            dep = p.endswith("?")
            UNITS.setdefault(p.rstrip("?"), []).append(Unit(p.rstrip("?"), name, f, dep=dep, **kw))
        return f

    return deco


class Out:
    """outcome of a call: value or exception"""

    def __init__(self, I, val=None, exc=None):
        self.I, self.val, self.exc = I, val, exc

    @property
    def ok(self):
        return self.exc is None

    def is_exc(self, *classes):
        return self.exc is not None and any(self.I.exc_is(self.exc, c) for c in classes)

    def why(self):
        return "" if self.exc is None else "%s%s" % (self.exc.name(), tuple(a for a in self.exc.args if isinstance(a, str))[:1])


class V:
    """what a unit's function works with"""

    def __init__(self, I):
        self.I, self.ctx = I, I.ctx
        self.stub = I.stubs

    # inputs
    def term(self, name, sort):
        t = T.var(name, sort)
        if t not in self.ctx.inputs:
            self.ctx.inputs.append(t)
        return t

    def bytes(self, name, n=None):
        t = self.term(name, T.STR)
        self.ctx.assume(T.in_re(t, T.star(("cls", ((0, 255),)))))
        if n is not None:
            self.ctx.assume(T.eq(T.length(t), T.int_(n)))
        return SStr(t, "bytes")

    def str(self, name):
        return SStr(self.term(name, T.STR), "str")

    def int(self, name):
        return SInt(self.term(name, T.INT))

    def bool(self, name):
        return SBool(self.term(name, T.BOOL))

    def list(self, name, et):
        t = self.term(name, T.SEQ(sort_of(et)))
        return self.I.new_list([Chunk(t, et)]), t

    # actions
    def get(self, qual):
        return self.I.lookup_qual(qual)

    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.get(f)
        return self.I.call(f, list(args), kw)

    def attempt(self, f, *args, **kw):
        try:
            return Out(self.I, val=self.call(f, *args, **kw))
        except PyExc as e:
            return Out(self.I, exc=e.val)

    def attempt_do(self, fn):
        try:
            return Out(self.I, val=fn())
        except PyExc as e:
            return Out(self.I, exc=e.val)

    def attr(self, o, n):
        return self.I.getattr(o, n)

    def meth(self, o, n, *args, **kw):
        return self.I.call(self.I.getattr(o, n), list(args), kw)

    # logic
    def assume(self, t):
        self.ctx.assume(t if isinstance(t, T.Term) else tbool(t))

    def prove(self, name, goal, **kw):
        self.ctx.nproved = getattr(self.ctx, "nproved", 0) + 1
        if not isinstance(goal, T.Term):
            goal = tbool(goal)
        return self.ctx.prove(name, goal, **kw)

    def fail(self, name):
        return self.prove(name, T.FALSE)

    def eq(self, name, a, b):
        """a Python equality as the goal"""
        return self.prove(name, self.I.eq_term(a, b))

    def tick(self):
        return self.ctx.store.get(("gh", "tick"), 0)


def run_unit(u, src=None, verbose=False):
    """verify one unit; a plain dictionary result"""
    t0 = time.time()
    live = set()
    res = {"dep": u.dep, "unit": u.name, "property": u.prop, "status": "error", "obligations": [], "reason": ""}
    deadline = t0 + u.budget
    tries = 0
    while True:
        tries += 1
        ctx = Ctx(timeout=u.timeout, deadline=deadline)
        kw = {} if src is None else {"src": src}
        contracts = u.contracts() if callable(u.contracts) else u.contracts
        I = Interp(ctx, dict(contracts or {}), **kw)
        I.live = set(live)
        I.hints = list(u.hints)
        I.strict_ffi = u.strict_ffi
        I.on_ext = {}
        v = V(I)
        v.prop = u.prop
        state = {"paths": 0, "alive": 0}

        def run():
            ctx.store = dict(ctx.store)
            pristine = {k: x for k, x in ctx.store.items() if k[0] in ("m", "c")}
            v.ctx.inputs = ctx.inputs
            u.fn(v)
            state["paths"] += 1
            for k, x in ctx.store.items():
                if k[0] in ("m", "c") and pristine.get(k, UNDEF) is not x and k not in u.state_ok:
                    raise Unsupported("module state is modified: %s" % (k,))
            if not state["alive"] and ctx.query([], timeout=u.timeout).status != "unsat":
                state["alive"] += 1
            return True

        try:
            for _ in ctx.explore(run, limit=u.limit):
                pass
            if not ctx.obligations or not getattr(ctx, "nproved", 0):
                res["status"], res["reason"] = "error", "no obligation was generated"
            elif not state["alive"]:
                res["status"], res["reason"] = "vacuous", "no path has a satisfiable condition"
            elif all(o.status == "unsat" for o in ctx.obligations):
                res["status"] = "proved"
            else:
                res["status"] = "failed"
        except NeedHavoc as e:
            if e.tag not in live and tries < 25:
                live.add(e.tag)
                continue
            res["status"], res["reason"] = "unsupported", "variables across loops"
        except Unsupported as e:
            res["status"], res["reason"] = "unsupported", str(e)
            if verbose:
                traceback.print_exc()
        except PyExc as e:
            res["status"], res["reason"] = "unsupported", "uncaught exception in the unit: %s %r" % (e, e.val)
            if verbose:
                traceback.print_exc()
        except RecursionError:
            res["status"], res["reason"] = "unsupported", "recursion depth"
        except Exception as e:  # the engine met something it was not written for
            res["status"], res["reason"] = "unsupported", "engine: %s: %s" % (type(e).__name__, e)
            if verbose:
                traceback.print_exc()
        break
    res["obligations"] = [
        {"name": o.name, "status": o.status, "backend": o.backend, "time": round(o.time or 0, 3), "exact": bool(o.exact), "goal": o.goal,
         "script": o.script, "output": o.output, "values": o.values, "path": o.path}
        for o in ctx.obligations]
    res["late"] = time.time() > deadline
    res["wall_s"] = round(time.time() - t0, 2)
    res["queries"] = ctx.nquery
    res["paths"] = state["paths"]
    res["functions"] = sorted(I.inlined)
    res["contracts"] = sorted(I.used_contracts)
    res["stubs"] = sorted(I.stubs_used)
    res["files"] = sorted(I.files)
    res["solver"] = {"queries": dict(solver.stats.queries), "time": {k: round(x, 2) for k, x in solver.stats.time.items()}}
    return res


def load_all():
    import os

    d = os.path.join(os.path.dirname(__file__), "units")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and not f.startswith("_"):
            importlib.import_module("pyvc.units." + f[:-3])


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("filter", nargs="*")
    ap.add_argument("--src")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-d", action="store_true")
    a = ap.parse_args(argv)
    load_all()
    if a.d:
        from . import loops

        loops.DEBUG = True
    for p in sorted(UNITS):
        for u in UNITS[p]:
            if a.filter and not any(f == p or f in u.name for f in a.filter):
                continue
            r = run_unit(u, a.src, a.v)
            bad = [o for o in r["obligations"] if o["status"] != "unsat"]
            print("%-4s %-60s %-11s %3d/%3d obl %3d paths %5d q %6.1fs %s" % (
                p, u.name, r["status"], len(r["obligations"]) - len(bad), len(r["obligations"]), r["paths"], r["queries"], r["wall_s"], r["reason"]), flush=True)
            for o in bad[:6]:
                print("       ", o["status"], o["name"], "exact" if o["exact"] else "inexact", o["path"], (o["goal"] or "")[:300])
                if o["values"]:
                    print("           ", str(o["values"])[:600])


if __name__ == "__main__":
    import sys

    # the module must be the one the units import
    from pyvc import unit as _u

    _u.main(sys.argv[1:])
