"""Symbolic state: values, heap, path condition, path exploration, obligations."""

import time

from . import terms as T
from . import solver
from . import axioms, light


class Unsupported(Exception):
    """construct outside the verified subset: nothing is claimed about it"""


class CannotFork(Exception):
    """a speculative evaluation would have to branch"""


class PathEnd(Exception):
    """this path is finished (infeasible, or covered by a loop invariant)"""


class PyExc(Exception):
    """a Python exception raised by the code under verification"""

    def __init__(self, val):
        self.val = val

    def __str__(self):
        return "raises " + self.val.name()


# ---------------------------------------------------------------- values


class SInt:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SInt(%s)" % T.show(self.t)


class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SBool(%s)" % T.show(self.t)


class SStr:
    __slots__ = ("t", "kind")

    def __init__(self, t, kind):
        self.t, self.kind = t, kind

    def __repr__(self):
        return "S%s(%s)" % (self.kind, T.show(self.t))


def mkint(t):
    return t.val if T.is_const(t) else SInt(t)


def mkbool(t):
    return t.val if T.is_const(t) else SBool(t)


def mkstr(t, kind):
    if T.is_const(t):
        return t.val if kind == "str" else t.val.encode("latin-1")
    return SStr(t, kind)


class Ref:
    """heap object; contents live in the store"""

    __slots__ = ("id", "kind", "cls")

    def __init__(self, id, kind, cls=None):
        self.id, self.kind, self.cls = id, kind, cls

    def __repr__(self):
        return "<%s %s #%d>" % (self.kind, getattr(self.cls, "name", self.cls), self.id)

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return self.id


class XVal:
    """immutable value of an external class: kind and fields"""

    __slots__ = ("kind", "f")

    def __init__(self, kind, **f):
        self.kind, self.f = kind, f

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.f)

    def get(self, n):
        return self.f[n]


class SOpaque:
    """value of an uninterpreted (datatype) sort with a symbolic Python class"""

    __slots__ = ("t", "kind")

    def __init__(self, t, kind):
        self.t, self.kind = t, kind

    def __repr__(self):
        return "<%s %s>" % (self.kind, T.show(self.t))


class Chunk:
    """symbolic run of list items"""

    __slots__ = ("t", "et")

    def __init__(self, t, et):
        self.t, self.et = t, et

    def __repr__(self):
        return "*%s" % T.show(self.t)


class VModule:
    def __init__(self, name):
        self.name, self.ns = name, {}

    def __repr__(self):
        return "<module %s>" % self.name


class VClass:
    def __init__(self, name, bases, module):
        self.name, self.bases, self.module, self.ns = name, bases, module, {}
        self.subclasses = []
        self.qual = module.name + "." + name
        for b in bases:
            if isinstance(b, VClass):
                b.subclasses.append(self)

    def mro(self):
        # left-to-right depth-first with duplicates removed from the left: enough for this code base
        out = []
        for b in self.bases:
            for c in b.mro() if isinstance(b, VClass) else [b]:
                if c in out:
                    out.remove(c)
                out.append(c)
        return [self] + out

    def __repr__(self):
        return "<class %s>" % self.qual


class VFunc:
    def __init__(self, node, module, name, qual, closure=None, defaults=(), kwdefaults=None):
        self.node, self.module, self.name, self.qual = node, module, name, qual
        self.closure, self.defaults, self.kwdefaults = closure, defaults, kwdefaults or {}
        self.wrap = None  # 'classmethod' | 'staticmethod' | 'property'
        self.owner = None

    def __repr__(self):
        return "<function %s>" % self.qual


class VBound:
    def __init__(self, self_, func):
        self.self_, self.func = self_, func

    def __repr__(self):
        return "<bound %s of %r>" % (self.func, self.self_)


class Native:
    """built-in callable implemented by the engine"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<native %s>" % self.name


class ExtRef:
    """name in an external library"""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "<ext %s>" % self.path

    def __eq__(self, o):
        return isinstance(o, ExtRef) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class Gen:
    def __init__(self, run, desc=""):
        self.run, self.desc = run, desc  # run(interp, callback)


class Lazy:
    """indexable symbolic iterable: length term, element function"""

    def __init__(self, n, elem, desc=""):
        self.n, self.elem, self.desc = n, elem, desc


class Broken:
    def __init__(self, why):
        self.why = why


class Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()


class Poison:
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "POISON(%s)" % self.why


class ExcVal:
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def name(self):
        return self.cls.__name__ if isinstance(self.cls, type) else self.cls.name

    def __repr__(self):
        return "%s%r" % (self.name(), tuple(self.args))


# ---------------------------------------------------------------- shapes (types of encodable values)


class Sh:
    """shape: k in int bool str bytes none list tuple obj x opaque union any"""

    __slots__ = ("k", "a")

    def __init__(self, k, a=()):
        self.k, self.a = k, a

    def key(self):
        if self.k in ("list", "set"):
            return (self.k, self.a.key() if self.a else None)
        if self.k == "tuple":
            return (self.k, tuple(x.key() for x in self.a))
        if self.k in ("obj", "x"):
            return (self.k, self.a[0] if self.k == "x" else self.a[0].qual, tuple((n, s.key()) for n, s in self.a[1]))
        if self.k == "opaque":
            return (self.k, self.a)
        return (self.k,)

    def __eq__(self, o):
        return isinstance(o, Sh) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "Sh" + repr(self.key())

    def full(self):
        if self.k in ("list", "set"):
            return self.a is not None and self.a.full()
        if self.k == "tuple":
            return all(x.full() for x in self.a)
        if self.k in ("obj", "x"):
            return all(s.full() for _, s in self.a[1])
        return True


SInt_, SBool_, SStr_, SBytes_, SNone_ = Sh("int"), Sh("bool"), Sh("str"), Sh("bytes"), Sh("none")


def SList_(e):
    return Sh("list", e)


def _mangle(key):
    if isinstance(key, tuple):
        return "<" + ",".join(_mangle(x) for x in key) + ">"
    return str(key)


def sort_of(sh):
    k = sh.k
    if k == "int":
        return T.INT
    if k == "bool":
        return T.BOOL
    if k in ("str", "bytes"):
        return T.STR
    if k in ("list", "set"):
        return T.SEQ(sort_of(sh.a))
    if k == "opaque":
        return T.DT(sh.a[1])
    name = _mangle(sh.key())
    if name not in T.DTS:
        if k == "none":
            T.declare_dt(name, {"mk" + name: []})
        elif k == "tuple":
            T.declare_dt(name, {"mk" + name: [("%s.%d" % (name, i), sort_of(s)) for i, s in enumerate(sh.a)]})
        elif k in ("obj", "x"):
            T.declare_dt(name, {"mk" + name: [("%s.%s" % (name, n), sort_of(s)) for n, s in sh.a[1]]})
        else:
            raise Unsupported("sort of " + repr(sh))
    return T.DT(name)


def dt_make(sh, args):
    name = sort_of(sh)[1]
    return T.ctor(name, "mk" + name, *args)


def dt_get(sh, t, field):
    name = sort_of(sh)[1]
    return T.sel(t, "mk" + name, "%s.%s" % (name, field))


def join(a, b):
    """least common shape, or None"""
    if a is None or a == b:
        return b
    if b is None:
        return a
    if a.k in ("list", "set") and a.k == b.k:
        if a.a is None or b.a is None:
            return Sh(a.k, a.a or b.a)
        j = join(a.a, b.a)
        return Sh(a.k, j) if j else None
    if a.k == "tuple" and b.k == "tuple" and len(a.a) == len(b.a):
        js = [join(x, y) for x, y in zip(a.a, b.a)]
        return Sh("tuple", tuple(js)) if all(js) else None
    if a.k == b.k and a.k in ("obj", "x") and a.a[0] == b.a[0]:
        da, db = dict(a.a[1]), dict(b.a[1])
        if set(da) != set(db):
            return None
        js = [(n, join(da[n], db[n])) for n in sorted(da)]
        return Sh(a.k, (a.a[0], tuple(js))) if all(j for _, j in js) else None
    return None


# ---------------------------------------------------------------- context


class Obligation:
    __slots__ = ("name", "status", "backend", "time", "exact", "script", "output", "values", "path", "goal")

    def __init__(self, **k):
        for n in self.__slots__:
            setattr(self, n, k.get(n))


class Dec:
    """decisions of one exploration"""

    def __init__(self, prefix):
        self.prefix, self.made, self.i = prefix, [], 0
        self.alts = []  # (index, alternative)


FEAS = float(__import__("os").environ.get("PYVC_FEAS", "0.6"))
CHARS_UF = {}  # function symbol -> class of the characters of its value (or a function giving it)


def conjuncts(t):
    """a goal as a list of goals"""
    if t.op == "and":
        return [y for x in t.args for y in conjuncts(x)]
    if t.op == "or":
        ands = [x for x in t.args if x.op == "and"]
        if len(ands) == 1:
            return [T.or_(*[x for x in t.args if x is not ands[0]], y) for y in conjuncts(ands[0])]
    return [t]


class Ctx:
    def __init__(self, timeout=6, deadline=None):
        self.store = {}
        self.pc = []
        self.pcset = set()
        self.counter = 0
        self.exact = True
        self.decs = []
        self.obligations = []
        self.quiet = 0
        self.timeout = timeout
        self.inputs = []  # terms whose model values are interesting
        self.deadline = deadline
        self.loopcache = {}
        self.trace = []
        self.nquery = 0
        self.paths = 0
        self.nofork = 0

    # -- state
    def snap(self):
        return (dict(self.store), list(self.pc), self.counter, self.exact)

    def restore(self, s):
        self.store, self.pc, self.counter, self.exact = dict(s[0]), list(s[1]), s[2], s[3]
        self.pcset = set(self.pc)

    def fresh_id(self):
        self.counter += 1
        return self.counter

    def fresh(self, hint, sort):
        self.counter += 1
        return T.var("%s!%d" % (hint, self.counter), sort)

    def check_deadline(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("verification time limit")

    # -- facts
    def assume(self, t):
        if t is T.TRUE:
            return
        if t.op == "and":
            for x in t.args:
                self.assume(x)
            return
        if t not in self.pcset:
            self.pc.append(t)
            self.pcset.add(t)
            if t.op == "not":
                pass

    def syn(self, t):
        """syntactic knowledge about a condition"""
        if t is T.TRUE or t in self.pcset:
            return True
        if t is T.FALSE or T.not_(t) in self.pcset:
            return False
        if t.op == "in_re" and t.val[0] == "star" and t.val[1][0] == "cls":
            c = self.chars(t.args[0])
            if c is not None and T.cls_sub(c, t.val[1]):
                return True
        if t.op == "and" and all(self.syn(x) is True for x in t.args):
            return True
        if t.op == "or" and any(self.syn(x) is True for x in t.args):
            return True
        return None

    def chars(self, t):
        """a class containing every character of a string term, where one is known"""
        if T.is_const(t):
            return T.chars(t.val)
        def meet(a, b):
            if a is None or b is None or a == b:
                return a if b is None else b
            return a if T.cls_sub(a, b) else b if T.cls_sub(b, a) else T.cls_meet(a, b)

        best = None
        for f in self.pc:
            if f.op == "in_re" and f.args[0] is t and f.val[0] == "star" and f.val[1][0] == "cls":
                best = meet(best, f.val[1])
        if t.op == "++":
            cs = [self.chars(x) for x in t.args]
            if all(c is not None for c in cs):
                u = T.cls_union(cs)
                best = meet(best, u)
        elif t.op in ("substr", "at"):
            c = self.chars(t.args[0])
            best = meet(best, c)
        elif t.op in ("to_upper", "to_lower"):
            c = self.chars(t.args[0])
            if c is not None:
                lo, d = (97, -32) if t.op == "to_upper" else (65, 32)
                out = []
                for a, b in c[1]:
                    out += [(a, min(b, lo - 1)), (max(a, lo) + d, min(b, lo + 25) + d), (max(a, lo + 26), b)]
                c = T.cls_union([("cls", ((a, b),)) for a, b in out if a <= b])
            best = meet(best, c)
        elif t.op == "uf" and t.val in CHARS_UF:
            c = CHARS_UF[t.val]
            if callable(c):
                c = c(self, t)
            best = meet(best, c)
        if best is None and t.op in ("uf", "var") and len(self._busy) < 6 and t not in self._busy:
            # what it is known to be equal to
            self._busy.add(t)
            for f in self.pc:
                if f.op == "=" and t in f.args:
                    c = self.chars(f.args[1] if f.args[0] is t else f.args[0])
                    if c is not None:
                        best = c
                        break
            self._busy.discard(t)
        return best

    _busy = set()

    feas = FEAS
    light = False  # decide branches by lengths where that is enough

    def query(self, extra, timeout=None, values=(), tries=None):
        self.check_deadline()
        self.nquery += 1
        base = self.pc + list(extra)
        facts = axioms.close(base)
        memo = {}
        ex = [self.known_classes(x, memo) for x in base[len(self.pc):]]
        facts = [y for y in (self.known_classes(x, memo) for x in facts) if y is not T.TRUE]
        return solver.solve(self.pc + ex + facts, values, timeout or self.timeout, tries)

    def known_classes(self, t, memo):
        """t with the membership in character classes resolved where it is known"""
        if t.sort != T.BOOL:
            return t
        r = memo.get(t)
        if r is None:
            if t.op == "in_re" and t.val[0] == "star" and t.val[1][0] == "cls":
                r = t
                if t not in self.pcset:
                    c = self.chars(t.args[0])
                    if c is not None and T.cls_sub(c, t.val[1]):
                        r = T.TRUE
            elif t.op in ("and", "or", "not"):
                a = [self.known_classes(x, memo) for x in t.args]
                r = t if all(x is y for x, y in zip(a, t.args)) else {"and": T.and_, "or": T.or_, "not": T.not_}[t.op](*a)
            else:
                r = t
            memo[t] = r
        return r

    def entails(self, t, timeout=None):
        s = self.syn(t)
        if s is not None:
            return s
        if self.light and self.refuted(T.not_(t)):
            return True
        return self.query([T.not_(t)], timeout or (min(1, self.timeout) if self.light else None)).status == "unsat"

    def refuted(self, t):
        """by the quick reading"""
        base = self.pc + [t]
        self.nquery += 1
        self.check_deadline()
        return light.refuted(base + axioms.close(base))

    def feasible(self, t=T.TRUE, timeout=None):
        if t is not T.TRUE:
            s = self.syn(t)
            if s is False:
                return False
        if timeout is None and self.light:
            got = self.refuted(t)
            if got:
                return False
            if got is False and not light.textual(t):
                return True
        return self.query([t], timeout or self.feas, tries=["cvc5"] if self.light else None).status != "unsat"

    # -- decisions
    def _decide(self, options):
        """options: list of (value, condition term); returns the chosen value"""
        if self.nofork:
            raise CannotFork()
        d = self.decs[-1]
        if d.i < len(d.prefix):
            v = d.prefix[d.i]
            d.i += 1
            d.made.append(v)
            cond = dict((a, c) for a, c in options)[v]
            self.assume(cond)
            return v
        feas = []
        for n, (v, c) in enumerate(options):
            if c is T.TRUE and len(options) > 1 and all(o[1] is T.TRUE for o in options):
                feas.append((v, c))  # free choice
                continue
            if n == len(options) - 1 and not feas:
                feas.append((v, c))  # the options are exhaustive
                continue
            if self.feasible(c):
                feas.append((v, c))
        if not feas:
            raise PathEnd()
        v, c = feas[0]
        for alt, _ in feas[1:]:
            d.alts.append(list(d.made) + [alt])
        d.made.append(v)
        d.i += 1
        d.prefix = list(d.made)
        self.assume(c)
        return v

    def branch(self, t):
        s = self.syn(t)
        if s is not None:
            return s
        return self._decide([(True, t), (False, T.not_(t))])

    def choose(self, n):
        if n == 1:
            return 0
        return self._decide([(i, T.TRUE) for i in range(n)])

    def split(self, conds):
        """index of the (exhaustive, disjoint) case taken"""
        for i, c in enumerate(conds):
            if self.syn(c) is True:
                return i
        return self._decide(list(enumerate(conds)))

    def concretize(self, t, limit=40):
        """fork over the possible values of an integer term"""
        if T.is_const(t):
            return t.val
        if self.nofork:
            raise CannotFork()
        d = self.decs[-1]
        if d.i < len(d.prefix):
            v = d.prefix[d.i]
            d.i += 1
            d.made.append(v)
            self.assume(T.eq(t, T.int_(v)))
            return v
        vals = []
        extra = []
        while True:
            a = self.query(extra, values=[t])
            if a.status == "unsat":
                break
            if a.status != "sat" or not a.values or not isinstance(a.values[0], int) or len(vals) >= limit:
                raise Unsupported("integer with too many values: " + T.show(t))
            vals.append(a.values[0])
            extra.append(T.ne(t, T.int_(a.values[0])))
        if not vals:
            raise PathEnd()
        vals.sort()
        for alt in vals[1:]:
            d.alts.append(list(d.made) + [alt])
        d.made.append(vals[0])
        d.i += 1
        d.prefix = list(d.made)
        self.assume(T.eq(t, T.int_(vals[0])))
        return vals[0]

    def explore(self, run, limit=4000):
        """run on every feasible path; yields (result, end snapshot) per path; state is restored afterwards"""
        base = self.snap()
        work = [[]]
        n = 0
        try:
            while work:
                self.check_deadline()
                prefix = work.pop()
                self.restore(base)
                d = Dec(prefix)
                self.decs.append(d)
                try:
                    r = run()
                except PathEnd:
                    r = None
                finally:
                    self.decs.pop()
                work.extend(reversed(d.alts))
                n += 1
                if n > limit:
                    raise Unsupported("too many paths")
                if r is not None:
                    yield r
        finally:
            self.restore(base)

    # -- obligations
    def prove(self, name, goal, timeout=None, exact=None, plain=False, using=None):
        """an obligation of the unit"""
        if self.quiet:
            self.assume(goal)
            return True
        if self.syn(goal) is True:
            self.obligations.append(Obligation(name=name, status="unsat", backend="simplifier", time=0.0, exact=self.exact))
            return True
        vals = [t for t in self.inputs]
        if using is not None:  # from these facts alone
            for x in using:
                if self.syn(x) is not True:
                    self.prove(name + " (a premise)", x, timeout, exact)
            plain = True
            a = solver.solve(list(using) + [T.not_(goal)], (), timeout or self.timeout)
        elif plain:  # without any further facts
            a = solver.solve(self.pc + [T.not_(goal)], (), timeout or self.timeout)
        if not plain or a.status != "unsat":
            a = self.query([T.not_(goal)], timeout or self.timeout * 2)
        if a.status == "sat":
            a2 = self.query([T.not_(goal)], timeout or self.timeout * 2, values=vals) if vals else a
        else:
            a2 = a
        ok = a.status == "unsat"
        if a.status == "unknown":
            parts = conjuncts(goal)
            if len(parts) > 1:
                mark = len(self.obligations)
                for x in parts:
                    if not self.prove(name, x, timeout, exact, plain):
                        break
                else:
                    self.assume(goal)
                    return True
                bad = self.obligations[-1]
                del self.obligations[mark:]
                self.obligations.append(bad)
                self.assume(goal)
                return False
        self.obligations.append(Obligation(
            name=name, status=a.status, backend=a.backend, time=a.time, exact=self.exact if exact is None else exact,
            script=None if ok else a.script, output=a.output,
            values=None if ok or not a2.values else [(T.show(t), v) for t, v in zip(vals, a2.values)],
            path=list(self.decs[-1].made) if self.decs else [], goal=T.show(goal)))
        self.assume(goal)
        return ok

    def fail(self, name):
        return self.prove(name, T.FALSE)
