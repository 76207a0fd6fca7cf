"""Ground instantiation of axioms and of spec-function definitions.

An axiom is a Python function attached to an operator or function symbol; it
gets a ground application of that symbol and returns facts about it.  Nothing
is ever quantified in a query."""

from . import terms as T

UF_AX = {}  # uf name -> [fn(term) -> facts]
OP_AX = {}  # term op -> [fn]
PAIR = []  # fn(list of all terms) -> facts
DEPTH = {}  # uf name -> number of rounds in which its definition is unfolded
TRUSTED = {}  # name -> text of an assumption about a library


def on(*names):
    def deco(f):
        for n in names:
            UF_AX.setdefault(n, []).append(f)
        return f

    return deco


def define(name, args, res, depth=1, length=None):
    """decorator: a recursive specification function; the function returns the defining facts of an application"""
    if name not in T.UFS:
        T.declare_uf(name, args, res)
    DEPTH[name] = depth
    return on(name)


def on_op(*ops):
    def deco(f):
        for n in ops:
            OP_AX.setdefault(n, []).append(f)
        return f

    return deco


def pairwise(f):
    PAIR.append(f)
    return f


def trust(name, text):
    TRUSTED[name] = text


EXTRA = []  # (op or uf name, fn): definitions local to one unit


class extra:
    """with extra(symbol, fn): local definitional facts"""

    def __init__(self, name, fn):
        self.x = (name, fn)

    def __enter__(self):
        EXTRA.append(self.x)

    def __exit__(self, *a):
        EXTRA.remove(self.x)


class depth:
    """unfold the named definitions for more rounds within a with block"""

    def __init__(self, n, *names):
        self.n, self.names = n, names

    def __enter__(self):
        global ROUNDS
        self.old = {x: DEPTH[x] for x in self.names}, ROUNDS
        DEPTH.update({x: self.n for x in self.names})
        ROUNDS = max(ROUNDS, self.n + 1)

    def __exit__(self, *a):
        global ROUNDS
        DEPTH.update(self.old[0])
        ROUNDS = self.old[1]


ROUNDS = 4
_inst = {}


def _facts_of(t):
    got = _inst.get(t)
    if got is None:
        got = []
        if t.op == "uf":
            for f in UF_AX.get(t.val, ()):
                got += [x for x in (f(t) or ()) if x is not T.TRUE]
        for f in OP_AX.get(t.op, ()):
            got += [x for x in (f(t) or ()) if x is not T.TRUE]
        _inst[t] = got
    return got


def close(base, rounds=None):
    facts = []
    have = set(base)
    seen = set()
    frontier = list(base)
    for r in range(rounds or ROUNDS):
        new = []
        ts = T.subterms(frontier)
        for t in ts:
            if t in seen:
                continue
            if t.op == "uf" and r >= DEPTH.get(t.val, 99):
                continue
            seen.add(t)
            more = _facts_of(t)
            if EXTRA:
                more = list(more)
                for n, f in EXTRA:
                    if t.op == n or t.op == "uf" and t.val == n:
                        more += [x for x in f(t) if x is not T.TRUE]
            for x in more:
                if x not in have:
                    have.add(x)
                    new.append(x)
        if PAIR:
            allt = list(seen)
            for f in PAIR:
                for x in f(allt) or ():
                    if x is not T.TRUE and x not in have:
                        have.add(x)
                        new.append(x)
        if not new:
            break
        facts += new
        frontier = new
    return facts


@on_op("bv2nat")
def _bv2nat(t):
    b = t.args[0]
    return [T.mk("<=", (T.int_(0), t), T.BOOL), T.mk("<=", (t, T.int_(T.bv_max(b))), T.BOOL)]
