"""Iteration: unrolling where the number of iterations is known, otherwise loop
invariants.

An invariant is looked for among candidate formulas over all locations the body
modifies (generic templates plus the ones the unit supplies).  A candidate is
kept only if the solver proves that it holds on entry and that every iteration
preserves it together with the others (Houdini).  Candidates never mention
program variables by name."""

import time

from . import terms as T
from . import solver
from .core import *  # noqa: F401,F403
from .core import UNDEF, SInt_
from .interp import (BreakLoop, ContinueLoop, ReturnX, NeedHavoc, is_concrete, kind_of, tint, tbool, tstr)

UNROLL = 300
IGNORED = ("cut", "bvof", "viewof", "view", "stale", "tag", "exc", "attrs", "frozen", "memo")


def key_of(node):
    if isinstance(node, tuple):
        return (getattr(node[0], "lineno", 0), getattr(node[0], "col_offset", 0), node[1])
    return (getattr(node, "lineno", 0), getattr(node, "col_offset", 0), id(node) if not hasattr(node, "lineno") else 0)


def iterate(I, v, cb, node):
    """call cb(item) for every item of v"""
    if isinstance(v, Poison):
        I.poisoned(v)
    if isinstance(v, (str, bytes, tuple, range)):
        if len(v) > 5000:
            raise Unsupported("long concrete iteration")
        for x in v:
            cb(x)
        return
    if isinstance(v, Gen):
        v.run(I, cb)
        return
    if isinstance(v, Ref) and v.kind in ("list", "set", "dict"):
        items = I.items(v)
        if v.kind == "dict":
            items = tuple(k for k, _ in items)
        if v.kind == "set" and len(items) > 1:
            items = set_order(I, items)
        for p, x in enumerate(items):
            if isinstance(x, Chunk) and x.t.op == "uf" and x.t.val == "LINES":
                from . import libs

                I.last_stream = libs.stream(I, mkstr(x.t.args[0], x.et.k), 0, libs.FILE_T if x.et.k == "str" else libs.FILE_B)
                iterate(I, I.last_stream, cb, node)
            elif isinstance(x, Chunk):
                iterate(I, chunk_lazy(I, v, p, x), cb, node)
            else:
                cb(x)
        if v.kind == "list" and I.ctx.store.get(("l", v.id)) != items:
            raise Unsupported("list changed during iteration")
        return
    lz = as_lazy(I, v)
    if lz is not None:
        if T.is_const(lz.n):
            if lz.n.val > UNROLL:
                raise Unsupported("long iteration")
            for i in range(max(0, lz.n.val)):
                cb(lz.elem(T.int_(i)))
            return
        r = bounded_count(I, lz.n)
        if r is not None:
            for i in range(r):
                cb(lz.elem(T.int_(i)))
            return
        index_loop(I, lz, cb, node)
        return
    if isinstance(v, Ref):
        m = I.stubs.METHODS.get("ext:" + v.cls.path if isinstance(v.cls, ExtRef) else v.kind, {}).get("__next_item__") if v.kind != "obj" or isinstance(v.cls, ExtRef) else None
        if m is None and isinstance(v.cls, VClass):
            f = I.class_attr(v.cls, "__iter__")
            if isinstance(f, VFunc):
                iterate(I, I.call(VBound(v, f), [], {}), cb, node)
                return
            if isinstance(f, Native):
                m = f.fn
        if m is not None:
            def step():
                has, x = m(I, v)
                if not has:
                    return False
                cb(x)
                return True

            cut(I, node, step, None)
            return
    if isinstance(v, (int, SInt, SBool)) or v is None:
        raise I.exc(TypeError, "not iterable")
    if isinstance(v, XVal):
        m = I.stubs.METHODS.get("x:" + v.kind, {}).get("__iter__")
        if m is not None:
            iterate(I, m(I, v, [], {}), cb, node)
            return
    raise Unsupported("iteration over %r" % (v,))


def set_order(I, items):
    if any(isinstance(x, Chunk) for x in items) or len(items) > 3:
        raise Unsupported("iteration order of a set")
    out, rest = [], list(items)
    while rest:
        out.append(rest.pop(I.ctx.choose(len(rest))))
    return tuple(out)


def bounded_count(I, n, limit=4):
    """a count that the path condition confines to a few values is case-split"""
    if I.ctx.entails(T.le(n, T.int_(limit)), timeout=2):
        r = I.ctx.concretize(T.max_(n, T.int_(0)) if not I.ctx.entails(T.ge(n, T.int_(0))) else n)
        return r
    return None


def chunk_lazy(I, lref, p, ch):
    from .arith import chunk_item

    if ch.et.k == "obj" and lref is not None:
        lz = Lazy(T.length(ch.t), lambda k: chunk_item(I, lref, p, ch, k), "list")
    else:
        lz = Lazy(T.length(ch.t), lambda k: I.decode(T.nth(ch.t, k), ch.et), "list")
    lz.src, lz.kind, lz.et = ch.t, "seq", ch.et
    lz.mapfn = lambda x: x
    return lz


def as_lazy(I, v):
    from .arith import byte

    if isinstance(v, Lazy):
        return v
    if isinstance(v, Ref) and v.kind == "bytearray":
        v = I.plain(v)
    if isinstance(v, SStr):
        t = v.t
        if v.kind == "str":
            lz = Lazy(T.length(t), lambda k: mkstr(T.at(t, k), "str"), "characters")
            lz.kind = "chars"
        else:
            lz = Lazy(T.length(t), lambda k: mkint(byte(t, k)), "bytes")
            lz.kind = "bytes"
        lz.src = t
        lz.et = None
        lz.mapfn = lambda x: x
        return lz
    if isinstance(v, Ref) and v.kind == "list":
        items = I.items(v)
        if any(isinstance(x, Chunk) for x in items):
            if len(items) == 1:
                return chunk_lazy(I, v, 0, items[0])
            sh = I.items_shape(items)
            if sh is not None and sh.full() and sh.a.k != "obj":
                return chunk_lazy(I, None, 0, Chunk(I.encode_items(items, sh), sh.a))
    return None


def lazy_range(start, stop, step):
    n = T.max_(T.int_(0), T.div(T.add(T.sub(stop, start), T.int_(step - 1)), T.int_(step)))
    lz = Lazy(n, lambda k: mkint(T.add(start, T.scale(step, k))), "range")
    return lz


def to_list(I, v):
    """a new list Ref with the items of v"""
    if isinstance(v, Ref) and v.kind == "list":
        return I.new_list(I.items(v))
    if isinstance(v, Ref) and v.kind == "set":
        return I.new_list(I.items(v))
    if isinstance(v, Ref) and v.kind == "dict":
        return I.new_list([k for k, _ in I.items(v)])
    if isinstance(v, (tuple, str, bytes, range)):
        return I.new_list(list(v))
    lz = as_lazy(I, v)
    if lz is not None:
        if T.is_const(lz.n):
            return I.new_list([lz.elem(T.int_(i)) for i in range(max(0, lz.n.val))])
        t, et = map_term(I, lz)
        return I.new_list([Chunk(t, et)])
    acc = I.new_list()
    iterate(I, v, lambda x: I.stubs.METHODS["list"]["append"](I, acc, [x], {}), ("to_list", id(v) if not isinstance(v, Gen) else 0))
    return acc


# ---------------------------------------------------------------- element-wise maps

MAPDEF = {}  # uf name -> (hole term, body term, source kind)


def map_lazy(I, lz, e, g, fr):
    """[elt for target in lz] without filter"""
    from .interp import Frame, scope_of

    names = scope_of(e)[0]
    snapvars = None

    def apply(item):
        cfr = Frame(I.ctx.fresh_id(), fr.module, fr.func, fr, names)
        cfr.cls, cfr.selfv = fr.cls, fr.selfv
        I.assign(g.target, item, cfr)
        r = I.ev(e.elt, cfr)
        I.drop_frame(cfr)
        return r

    import ast as _ast

    if T.is_const(lz.n) and (isinstance(e, _ast.ListComp) or lz.n.val < 5 or getattr(lz, "src", None) is None):
        vals = tuple(apply(lz.elem(T.int_(i))) for i in range(max(0, lz.n.val)))
        return I.new_list(vals) if isinstance(e, _ast.ListComp) else Gen(lambda I2, cb: [cb(x) for x in vals], "map")
    # is the element expression pure, and can it raise?
    k = I.ctx.fresh("i", T.INT)
    raises = [False]
    ctr = I.ctx.counter

    def run():
        I.ctx.assume(T.le(T.int_(0), k))
        I.ctx.assume(T.lt(k, lz.n))
        before = dict(I.ctx.store)
        try:
            apply(lz.elem(k))
        except PyExc:
            raises[0] = True
        for loc, val in I.ctx.store.items():
            if loc[0] not in IGNORED and len(loc) > 1 and isinstance(loc[1], int) and loc[1] <= ctr and before.get(loc, UNDEF) is not val:
                raise Unsupported("comprehension with side effects")
            if loc[0] in ("m", "c", "gh") and before.get(loc, UNDEF) is not val:
                raise Unsupported("comprehension with side effects")
        return True

    I.ctx.quiet += 1
    try:
        for _ in I.ctx.explore(run):
            pass
    finally:
        I.ctx.quiet -= 1
    if raises[0]:
        if I.ctx.choose(2) == 0:
            # some element raises
            j = I.ctx.fresh("j", T.INT)
            I.ctx.assume(T.le(T.int_(0), j))
            I.ctx.assume(T.lt(j, lz.n))
            apply(lz.elem(j))
            raise PathEnd()

    def norm(item):  # no element of the sequence raises here; other values of the hole may
        try:
            return apply(item)
        except PyExc:
            raise PathEnd()

    out = Lazy(lz.n, lambda kk: norm(lz.elem(kk)), "map")
    if getattr(lz, "src", None) is not None:
        prev = lz.mapfn
        out.src, out.kind, out.et = lz.src, lz.kind, lz.et
        out.mapfn = lambda x: norm(prev(x))
    return out


FILTERDEF = {}  # uf name -> (hole, predicate)


def filter_lazy(I, lz, e, g, fr):
    """[x for target in lz if cond]: an element-wise filter of a symbolic sequence; None if it is not one"""
    from .interp import Frame, scope_of

    if getattr(lz, "src", None) is None or lz.kind != "seq" or T.is_const(lz.n) or bounded_count(I, lz.n) is not None:
        return None
    names = scope_of(e)[0]

    def keep(item):
        cfr = Frame(I.ctx.fresh_id(), fr.module, fr.func, fr, names)
        cfr.cls, cfr.selfv = fr.cls, fr.selfv
        I.assign(g.target, item, cfr)
        r = T.and_(*[I.truth_term(I.ev(c, cfr)) for c in g.ifs])
        I.drop_frame(cfr)
        return r

    t, et = map_term(I, lz)
    base = Lazy(T.length(t), lambda k: I.decode(T.nth(t, k), et), "list")
    base.src, base.kind, base.et, base.mapfn = t, "seq", et, (lambda x: x)
    n0 = dict(I.ctx.store)
    try:
        h, p = merged_body(I, base, lambda v: keep(v))
    except (Unsupported, PyExc):
        return None
    s = filter_app(h, p, t)
    out = Lazy(T.length(s), lambda k: I.decode(T.nth(s, k), et), "list")
    out.src, out.kind, out.et, out.mapfn = s, "seq", et, (lambda x: x)
    return out


def filter_app(h, p, src):
    name = "filter#%d" % p.id
    if name not in T.UFS:
        T.declare_uf(name, (src.sort,), src.sort)
        T.declare_uf("idx." + name, (src.sort, T.INT), T.INT)
        T.declare_uf("pos." + name, (src.sort, T.INT), T.INT)
        FILTERDEF[name] = (h, p)
        _member_axioms(name, lambda el: subst(p, {h: el}))
    if src.op == "++":
        return T.concat_sort(src.sort, *[filter_app(h, p, x) for x in src.args])
    if src.op == "seq.empty":
        return src
    return T.app(name, src)


def _member_axioms(name, pred):
    """elements of name(src) are the elements of src that satisfy pred"""
    from . import axioms

    def on_nth(t):
        s, i = t.args
        if s.op == "uf" and s.val == name:
            src = s.args[0]
            j = T.app("idx." + name, src, i)
            return [T.implies(T.and_(T.le(T.int_(0), i), T.lt(i, T.length(s))),
                              T.and_(T.le(T.int_(0), j), T.lt(j, T.length(src)), T.eq(t, T.nth(src, j)), pred(t)))]
        return []

    axioms.OP_AX.setdefault("nth", []).append(on_nth)

    def pair(ts):
        out = []
        apps = {t for t in ts if t.op == "uf" and t.val == name} | {T.app(name, t.args[0]) for t in ts if t.op == "uf" and t.val == "pos." + name}
        apps = sorted(apps, key=lambda t: t.id)
        if not apps:
            return out
        for a in apps:
            src = a.args[0]
            for t in ts:
                if t.op == "nth" and t.args[0] is src and not _idx(t.args[1]):
                    k = T.app("pos." + name, src, t.args[1])
                    out.append(T.implies(T.and_(T.le(T.int_(0), t.args[1]), T.lt(t.args[1], T.length(src)), pred(t)),
                                         T.and_(T.le(T.int_(0), k), T.lt(k, T.length(a)), T.eq(T.nth(a, k), t))))
        return out

    axioms.PAIR.append(pair)

    def on_uf(t):
        return [T.le(T.mk("len", (t,), T.INT), T.length(t.args[0]))]

    axioms.UF_AX.setdefault(name, []).append(on_uf)
    axioms._inst.clear()


def _idx(t):
    return t.op == "uf" and t.val.startswith("idx.")


def set_seq(src):
    """the elements of set(src) in some order"""
    name = "set:" + str(src.sort)
    if name not in T.UFS:
        T.declare_uf(name, (src.sort,), src.sort)
        T.declare_uf("idx." + name, (src.sort, T.INT), T.INT)
        T.declare_uf("pos." + name, (src.sort, T.INT), T.INT)
        _member_axioms(name, lambda el: T.TRUE)
    return T.app(name, src)


def hole_value(I, lz):
    if lz.kind == "chars":
        h = T.var("hole:char", T.STR)
        return h, SStr(h, "str"), [T.eq(T.length(h), T.int_(1))]
    if lz.kind == "bytes":
        h = T.var("hole:byte", T.INT)
        T.INT_BOUND["hole:byte"] = 255
        return h, SInt(h), [T.le(T.int_(0), h), T.le(h, T.int_(255))]
    h = T.var("hole:" + str(sort_of(lz.et)), sort_of(lz.et))
    return h, I.decode(h, lz.et), []


def merged_body(I, lz, want, extra=()):
    """term of the mapped element as a function of the hole; want(value) -> Term"""
    h, hv, facts = hole_value(I, lz)
    res = []
    ctr = I.ctx.counter

    def run():
        for f in list(facts) + list(extra):
            I.ctx.assume(f)
        n0 = set(I.ctx.pc)
        v = lz.mapfn(hv)
        t = want(v)
        cond = [x for x in I.ctx.pc if x not in n0]
        return (T.and_(*cond), t)

    I.ctx.quiet += 1
    try:
        for r in I.ctx.explore(run):
            res.append(r)
    finally:
        I.ctx.quiet -= 1
    if not res:
        raise Unsupported("empty map body")
    t = res[-1][1]
    for c, x in reversed(res[:-1]):
        t = T.ite(c, x, t)
    for x in T.subterms([t]):  # a value introduced for one element is not a function of the element
        if x.op == "var" and "!" in x.val and x.val.rsplit("!", 1)[1].isdigit() and int(x.val.rsplit("!", 1)[1]) > ctr:
            raise Unsupported("element-wise map over an intermediate value (%s)" % x.val)
    return h, t


def map_term(I, lz):
    """(sequence term, element shape) of an element-wise map"""
    if getattr(lz, "src", None) is None:
        raise Unsupported("list of a lazy sequence (%s)" % lz.desc)
    shp = [None]

    def want(v):
        s = I.shape(v)
        if s is None or (shp[0] is not None and shp[0] != s):
            raise Unsupported("map of mixed or unencodable elements")
        shp[0] = s
        return I.encode(v, s)

    h, body = merged_body(I, lz, want)
    et = shp[0]
    if body is h and lz.kind == "seq":
        return lz.src, et
    name = same_map(I, "map#%d" % body.id, h, body, lz)
    if name not in T.UFS:
        T.declare_uf(name, (lz.src.sort,), T.SEQ(sort_of(et)))
        MAPDEF[name] = (h, body, lz.kind)
        T.LEN_RULE[name] = lambda t: T.length(t.args[0])
        _map_axioms(name)
    return map_app(name, lz.src), et


SAME = {}


def same_map(I, name, h, body, lz):
    """the name of a known map whose element function is provably equal"""
    if name in MAPDEF:
        return name
    got = SAME.get(name)
    if got is None:
        got = name
        facts = hole_value(I, lz)[2]
        for n, (h2, b2, kind) in list(MAPDEF.items()):
            if h2 is h and kind == lz.kind and b2.sort == body.sort:
                q = [T.not_(T.eq(body, b2))] + facts
                from . import axioms, solver

                if solver.solve(q + axioms.close(q), (), 2).status == "unsat":
                    got = n
                    break
        SAME[name] = got
    return got


def map_app(name, src):
    """the map distributes over concatenation and over known elements"""
    h, body, kind = MAPDEF[name]
    if src.op == "++":
        return T.concat(*[map_app(name, p) for p in src.args])
    if src.op == "unit":
        return T.unit(subst(body, {h: src.args[0]}))
    if src.op == "seq.empty" or T.is_const(src) and src.val == "":
        return T.empty(T.UFS[name][1])
    if T.is_const(src):
        f = (lambda c: T.str_(c)) if kind == "chars" else (lambda c: T.int_(ord(c)))
        return T.concat_sort(T.UFS[name][1], *[T.unit(subst(body, {h: f(c)})) for c in src.val])
    return T.app(name, src)


def _map_axioms(name):
    from . import axioms
    from .arith import byte

    h, body, kind = MAPDEF[name]

    def on_nth(t):
        s = t.args[0]
        if s.op == "uf" and s.val == name:
            i = t.args[1]
            src = s.args[0]
            el = T.at(src, i) if kind == "chars" else byte(src, i) if kind == "bytes" else T.nth(src, i)
            return [T.implies(T.and_(T.le(T.int_(0), i), T.lt(i, T.length(src))), T.eq(t, subst(body, {h: el})))]
        return []

    axioms.OP_AX.setdefault("nth", []).append(on_nth)

    def on_uf(t):
        src = t.args[0]
        out = [T.mk("=", tuple(sorted((T.mk("len", (t,), T.INT), T.length(src)), key=lambda x: x.id)), T.BOOL)]
        if src.op == "substr":
            base, o, n = src.args
            out.append(T.implies(T.le(T.int_(0), o), T.eq(t, T.substr(map_app(name, base), o, n))))
        return out

    axioms.UF_AX.setdefault(name, []).append(on_uf)
    axioms._inst.clear()


def subst(t, m):
    memo = dict(m)

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if not x.args:
            return x
        args = [go(a) for a in x.args]
        r = rebuild(x, args)
        memo[x] = r
        return r

    return go(t)


def rebuild(x, a):
    op = x.op
    if op == "not":
        return T.not_(a[0])
    if op == "and":
        return T.and_(*a)
    if op == "or":
        return T.or_(*a)
    if op == "ite":
        return T.ite(*a)
    if op == "=":
        return T.eq(*a)
    if op == "<=":
        return T.le(a[0], a[1])
    if op == "+":
        return T.add(*a)
    if op == "*":
        return T.mul(*a)
    if op == "div":
        return T.div(*a)
    if op == "mod":
        return T.mod(*a)
    if op == "bv":
        if x.sort == T.BOOL:
            if all(T.is_const(y) for y in a):
                return T.bool_(a[0].val <= a[1].val)
            return T.mk("bv", a, T.BOOL, x.val)
        return T.bv(x.val, *a)
    if op == "bv2nat":
        return T.bv2nat(a[0])
    if op == "int2bv":
        return T.int2bv(a[0])
    if op == "++":
        return T.concat_sort(x.sort, *a)
    if op == "len":
        return T.length(a[0])
    if op == "substr":
        return T.substr(*a)
    if op == "nth":
        return T.nth(*a)
    if op == "at":
        return T.at(*a)
    if op == "to_code":
        return T.to_code(a[0])
    if op == "from_code":
        return T.from_code(a[0])
    if op == "to_lower":
        return T.to_lower(a[0])
    if op == "to_upper":
        return T.to_upper(a[0])
    if op == "contains":
        return T.contains(*a)
    if op == "prefixof":
        return T.prefixof(*a)
    if op == "suffixof":
        return T.suffixof(*a)
    if op == "indexof":
        return T.indexof(*a)
    if op == "replace_all":
        return T.replace_all(*a)
    if op == "in_re":
        return T.in_re(a[0], x.val)
    if op == "unit":
        return T.unit(a[0])
    if op == "uf":
        return T.app(x.val, *a)
    if op == "sel":
        d = x.args[0].sort[1]
        for c, sels in T.DTS[d].items():
            if any(n == x.val for n, _ in sels):
                return T.sel(a[0], c, x.val)
    if op == "ctor":
        return T.ctor(x.sort[1], x.val, *a)
    if op == "is":
        return T.is_ctor(a[0], x.val)
    return T.mk(op, a, x.sort, x.val)


def char_class(I, lz):
    """the set of characters for which the mapped element is true, as code ranges; None if it cannot be tabulated"""
    try:
        h, body = merged_body(I, lz, lambda v: I.truth_term(v))
    except (Unsupported, PyExc):
        return None
    return tabulate(h, body, lz.kind)


def tabulate(h, body, kind):
    free = [t for t in T.subterms([body]) if t.op == "var" and t is not h]
    if free:
        return None
    if kind == "bytes":
        good = set()
        for c in range(256):
            r = subst(body, {h: T.int_(c)})
            if not T.is_const(r):
                return None
            if r.val:
                good.add(c)
        return T.cls_of_set(good)
    cuts = {0, T.MAXCHAR + 1}
    for t in T.subterms([body]):
        if t.op == "const" and t.sort == T.STR:
            for ch in t.val:
                cuts.update((ord(ch), ord(ch) + 1))
        elif t.op == "const" and t.sort == T.INT:
            for v in (t.val, t.val + 1, -t.val, 1 - t.val):
                if 0 < v <= T.MAXCHAR:
                    cuts.add(v)
        elif t.op == "in_re":
            _re_cuts(t.val, cuts)
        elif t.op in ("uf", "bv", "mod", "div", "int2bv"):
            return None
    cs = sorted(cuts)
    out = []
    for a, b in zip(cs, cs[1:]):
        r = subst(body, {h: T.str_(chr(a))})
        if not T.is_const(r):
            return None
        if r.val:
            if out and out[-1][1] == a - 1:
                out[-1] = (out[-1][0], b - 1)
            else:
                out.append((a, b - 1))
    return ("cls", tuple(out))


def _re_cuts(r, cuts):
    if r[0] == "cls":
        for a, b in r[1]:
            cuts.update((a, b + 1))
    else:
        for x in r[1:]:
            if isinstance(x, tuple):
                _re_cuts(x, cuts)
            elif isinstance(x, str):
                for ch in x:
                    cuts.update((ord(ch), ord(ch) + 1))


def any_all(I, v, is_any):
    """any()/all()"""
    if isinstance(v, Gen) or isinstance(v, tuple) or (isinstance(v, Ref) and as_lazy(I, v) is None):
        class Hit(Exception):
            pass

        def cb(x):
            if I.truth(x) == is_any:
                raise Hit()

        try:
            iterate(I, v, cb, ("anyall", 0))
        except Hit:
            return is_any
        return not is_any
    lz = as_lazy(I, v)
    if lz is None:
        raise Unsupported("any/all of %r" % (v,))
    if getattr(lz, "src", None) is not None and lz.kind in ("chars", "bytes"):
        c = char_class(I, lz)
        if c is not None:
            if is_any:
                return mkbool(T.not_(T.in_re(lz.src, T.star(T.cls_meet(T.cls_not(c), ("cls", ((0, 255 if lz.kind == "bytes" else T.MAXCHAR),)))))))
            return mkbool(T.in_re(lz.src, T.star(c)))
    if T.is_const(lz.n):
        for i in range(max(0, lz.n.val)):
            if I.truth(lz.elem(T.int_(i))) == is_any:
                return is_any
        return not is_any
    # exists / forall by case split
    if I.ctx.choose(2) == 0:
        j = I.ctx.fresh("w", T.INT)
        I.ctx.assume(T.le(T.int_(0), j))
        I.ctx.assume(T.lt(j, lz.n))
        if I.truth(lz.elem(j)) != is_any:
            raise PathEnd()
        return is_any
    if getattr(lz, "src", None) is not None:
        try:
            h, body = merged_body(I, lz, lambda x: I.truth_term(x))
            p = T.not_(body) if is_any else body
            I.ctx.assume(forall_term(h, p, lz))
            return not is_any
        except PyExc:
            pass
    I.ctx.exact = False
    return not is_any


FORALL = {}


def forall_term(h, p, lz):
    """every element of the sequence satisfies p: an opaque predicate with element-wise instances"""
    from . import axioms

    name = "all#%d" % p.id
    if name not in T.UFS:
        T.declare_uf(name, (lz.src.sort,), T.BOOL)
        FORALL[name] = (h, p, lz.kind)
    return forall_app(name, lz.src)


def forall_app(name, src):
    h, p, kind = FORALL[name]
    if src.op == "++":
        return T.and_(*[forall_app(name, x) for x in src.args])
    if src.op == "unit":
        return subst(p, {h: src.args[0]})
    if src.op == "seq.empty":
        return T.TRUE
    if src.op == "substr":
        # a property of all elements holds for every slice; the converse is not used
        pass
    return T.app(name, src)


# ---------------------------------------------------------------- loops


def index_loop(I, lz, cb, node):
    gid = I.ctx.fresh_id()
    loc = ("g", gid, "#k")
    I.ctx.store[loc] = 0

    def step():
        k = tint(I.ctx.store[loc])
        if not I.ctx.branch(T.lt(k, lz.n)):
            return False
        I.ctx.assume(T.le(T.int_(0), k))
        cb(lz.elem(k))
        I.ctx.store[loc] = mkint(T.add(k, T.int_(1)))
        return True

    info = LoopInfo(node, loc, lz.n, getattr(lz, "src", None) if getattr(lz, "mapfn", None) else None, lz)
    cut(I, node, step, info)


def while_loop(I, step, node):
    """step() evaluates the guard, runs the body and says whether to go on"""
    ctx = I.ctx
    n = 0
    while True:
        mode = probe(I, step, node)
        if mode == "cut":
            cut(I, node, step, None)
            return
        # 'one': the guard is decided or the loop is bounded: just run
        if not step():
            return
        n += 1
        if n > UNROLL:
            raise Unsupported("loop does not seem to end")


def probe(I, step, node, depth=6):
    """can the loop be unrolled exactly from here?"""
    ctx = I.ctx
    memo = ("memo", key_of(node))
    if ctx.store.get(memo) == "bounded":
        return "one"

    def run():
        for _ in range(depth):
            if not step():
                return "done"
        return "more"

    def guarded():
        try:
            return run()
        except (BreakLoop, ReturnX, PyExc):
            return "done"

    ctx.quiet += 1
    n = 0
    ok = True
    try:
        for r in ctx.explore(guarded, limit=400):
            n += 1
            if r == "more":
                ok = False
                break
    except Unsupported:
        ok = False
    finally:
        ctx.quiet -= 1
    if ok:
        ctx.store[memo] = "bounded"
        return "one"
    # a concrete guard may still run for long
    before = ctx.snap()
    st = {"forked": False}

    def one():
        d = ctx.decs[-1]
        step()
        return len(d.made)

    ctx.quiet += 1
    forks = 0
    try:
        for r in ctx.explore(one, limit=50):
            forks = max(forks, r)
    except (Unsupported, BreakLoop, ReturnX, PyExc):
        forks = 1
    finally:
        ctx.quiet -= 1
        ctx.restore(before)
    return "one" if forks == 0 else "cut"


class LoopInfo:
    def __init__(self, node, kloc, n, seq, lz):
        self.node, self.kloc, self.n, self.seq, self.lz = node, kloc, n, seq, lz
        self.plan = None
        self.I = None
        self.entry_vals = {}

    def k(self):
        return tint(self.I.ctx.store[self.kloc])

    def locs(self, kind=None):
        """modified locations (of a shape kind)"""
        out = []
        for loc, variants in self.plan.M.items():
            if loc == self.kloc:
                continue
            for v in variants:
                if v[0] == "sh" and (kind is None or v[1].k == kind or (isinstance(kind, Sh) and v[1] == kind)):
                    out.append((loc, v[1]))
                elif v[0] == "bv" and (kind is None or kind == "int"):
                    out.append((loc, SInt_))
        return out

    def val(self, loc, sh=None):
        """current value of the location as a term, None if it has another type here"""
        I = self.I
        cur = I.ctx.store.get(loc, UNDEF)
        if cur is UNDEF or isinstance(cur, Poison):
            return None
        if sh is None:
            for v in self.plan.M.get(loc, ()):
                if v[0] == "sh":
                    sh = v[1]
                elif v[0] == "bv":
                    sh = SInt_
        if sh is None:
            return None
        return term_of(I, loc, cur, sh)

    def entry(self, loc):
        return self.entry_vals.get(loc)


def term_of(I, loc, cur, sh):
    try:
        if loc[0] == "l":
            s = I.items_shape(cur, sh.k)
            if s is None or join(s, sh) != sh:
                return None
            return I.encode_items(cur, sh)
        s = I.shape(cur)
        if s is None or join(s, sh) != sh:
            return None
        return I.encode(cur, sh)
    except Unsupported:
        return None


class Plan:
    def __init__(self):
        self.M = {}
        self.cands = []
        self.hinted = set()  # names of the invariants written down in the unit


def cut(I, node, step, info):
    ctx = I.ctx
    kloc = None
    if info is None:
        gid = ctx.fresh_id()
        kloc = ("g", gid, "#k")
        ctx.store[kloc] = 0
        info = LoopInfo(node, kloc, None, None, None)
        inner = step

        def step():
            if not inner():
                return False
            ctx.store[kloc] = mkint(T.add(tint(ctx.store[kloc]), T.int_(1)))
            return True

    info.I = I
    ck = (key_of(node), tuple(t.id for t in ctx.pc), tuple(tuple(d.made) for d in ctx.decs), ctx.counter)
    got = ctx.loopcache.get(ck)
    if got is None:
        ctx.quiet += 1
        try:
            got = infer(I, node, step, info)
        finally:
            ctx.quiet -= 1
        ctx.loopcache[ck] = got
    plan, entry_vals, nobl, secs = got
    info.plan, info.entry_vals = plan, entry_vals
    if not ctx.quiet and ("rec",) + ck not in ctx.loopcache:
        ctx.loopcache[("rec",) + ck] = True
        for name, _ in plan.cands:
            for what in ("holds on entry", "is preserved"):
                ctx.obligations.append(Obligation(name="loop at line %s: %s %s" % (key_of(node)[0], name, what), status="unsat", backend="cvc5", time=0.0, exact=False))
    ctx.exact = False
    havoc(I, info)
    for name, f in plan.cands:
        t = f(info)
        if t is not None:
            ctx.assume(t)
    if step():
        raise PathEnd()


def short_name(loc):
    return str(loc[-1]) if not isinstance(loc[-1], int) else loc[0]


def havoc(I, info):
    ctx = I.ctx
    plan = info.plan
    for loc, variants in plan.M.items():
        c = ctx.choose(len(variants)) if len(variants) > 1 else 0
        ctx.store[("tag", info.kloc, loc)] = c
        v = variants[c]
        if v[0] == "const":
            ctx.store[loc] = v[1]
        elif v[0] == "poison":
            ctx.store[loc] = Poison(v[1])
        elif v[0] == "bv":
            x = ctx.fresh("%s.bv%d" % (short_name(loc), v[1]), T.BV64)
            T.BV_BOUND[x.val] = v[1]
            ctx.assume(T.mk("bv", (x, T.bvc(v[1])), T.BOOL, "bvule"))
            ctx.store[loc] = SInt(T.bv2nat(x))
        else:
            sh = v[1]
            x = ctx.fresh(short_name(loc), sort_of(sh))
            if loc[0] == "l":
                ctx.store[loc] = (Chunk(x, sh.a),)
                for k in [k for k in ctx.store if k[0] == "view" and ctx.store[k][0].id == loc[1]]:
                    ctx.store[("stale", k[1])] = True
            else:
                ctx.store[loc] = I.decode(x, sh)
    k = info.k()
    ctx.assume(T.mk("<=", (T.int_(0), k), T.BOOL))
    if info.n is not None:
        ctx.assume(T.le(k, info.n))


def owner_id(loc):
    return loc[1] if len(loc) > 1 and isinstance(loc[1], int) else None


def diff(entry, end, counter):
    out = []
    for loc, v in end.items():
        if loc[0] in IGNORED:
            continue
        o = owner_id(loc)
        if o is not None and o > counter:
            continue
        old = entry.get(loc, UNDEF)
        if old is v:
            continue
        if same_value(old, v):
            continue
        out.append(loc)
    return out


def same_value(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (SInt, SBool)):
        return a.t is b.t
    if isinstance(a, SStr):
        return a.t is b.t and a.kind == b.kind
    if isinstance(a, Ref):
        return a == b
    if isinstance(a, Poison):
        return a.why == b.why
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, Chunk):
        return a.t is b.t
    if isinstance(a, (int, str, bytes)) or a is None:
        return a == b
    return False


def variants_of(I, loc, entry, ends, tag, bvb):
    """possible kinds of value of a modified location at the loop head"""
    vals = ([entry] if entry is not UNDEF else []) + ends
    out = []
    sh = None
    consts = []
    bvs = False
    for v in vals:
        if isinstance(v, Poison):
            continue
        if loc[0] == "l":
            s = I.items_shape(v)
        else:
            s = I.shape(v)
        if s is None:
            return [("poison", tag)]
        if s.k == "none":
            if not any(c is None for c in consts):
                consts.append(None)
            continue
        if isinstance(v, SInt) and v.t.op == "bv2nat":
            bvs = True
        j = join(sh, s)
        if j is None:
            return [("poison", tag)]
        sh = j
    for c in consts:
        out.append(("const", c))
    if sh is not None:
        if not sh.full():
            out.append(("const", entry if entry is not UNDEF else ends[0]))
        elif sh.k == "int" and bvs:
            b = bvb.get(loc, 0)
            for v in vals:
                if isinstance(v, Poison):
                    continue
                if isinstance(v, SInt) and v.t.op == "bv2nat":
                    b = max(b, T.bv_max(v.t.args[0]))
                elif isinstance(v, int) and v >= 0:
                    b = max(b, v)
                else:
                    return out + [("sh", sh)]
            b = (1 << b.bit_length()) - 1
            bvb[loc] = b
            if b >= 1 << 62:
                raise Unsupported("accumulator without a bound")
            out.append(("bv", b))
        else:
            out.append(("sh", sh))
    if entry is UNDEF:
        if tag in I.live:
            out.insert(0, ("const", UNDEF))
        else:
            return [("poison", tag)]
    return out


def infer(I, node, step, info):
    ctx = I.ctx
    t0 = time.time()
    entry = ctx.snap()
    counter = entry[2]
    plan = Plan()
    info.plan = plan
    kn = key_of(node)
    plan.M = {info.kloc: [("sh", Sh("int"))]}
    entry_vals = info.entry_vals
    bvb = {}
    allends = {}
    proposed = {}
    dropped = set()
    nobl = 0

    def entry_term(loc):
        old = dict(ctx.store)
        return info.val(loc)

    def regenerate():
        entry_vals.clear()
        for loc in plan.M:
            t = info.val(loc)
            if t is not None:
                entry_vals[loc] = t
        cands = []
        for name, f in candidates(I, info, entry):
            cands.append((name, f))
        return cands

    def filter_base(cands):
        """keep what holds on entry"""
        good = []
        for name, f in cands:
            if name in dropped:
                continue
            t = f(info)
            if t is None or t is T.TRUE:
                good.append((name, f))
                continue
            if t is T.FALSE:
                dropped.add(name)
                continue
            if ctx.entails(t, None if name in plan.hinted else 2.5):
                good.append((name, f))
            else:
                dropped.add(name)
        return good

    def trial():
        """ends of all iterations that go on"""
        ends = []

        def run():
            havoc(I, info)
            for name, f in plan.cands:
                t = f(info)
                if t is not None:
                    ctx.assume(t)
            start = dict(ctx.store)
            try:
                r = step()
            except (BreakLoop, ReturnX, PyExc):
                return None
            except NeedHavoc:
                raise
            if r is False:
                return None
            return (start, ctx.snap())

        for r in ctx.explore(run, limit=600):
            ends.append(r)
        return ends

    plan.cands = filter_base(regenerate())
    for rnd in range(60):
        ctx.check_deadline()
        ends = trial()
        changed = False
        for start, snap in ends:
            for loc in diff(start, snap[0], counter):
                allends.setdefault(loc, [])
                allends[loc].append((snap, snap[0][loc]))
        newM = dict(plan.M)
        for loc, vals in allends.items():
            if loc == info.kloc:
                continue
            ev = entry[0].get(loc, UNDEF)
            saved = ctx.snap()
            tag = (kn, loc[0], short_name(loc))
            # shapes are computed in the state the values belong to
            shapes = []
            vs = None
            for snap, v in vals:
                ctx.restore(snap)
                one = variants_of(I, loc, UNDEF if ev is UNDEF else ev_in(entry, ev), [v], tag, bvb)
                vs = one if vs is None else merge_variants(vs, one, tag)
            ctx.restore(saved)
            if plan.M.get(loc) != vs:
                newM[loc] = vs
                changed = True
        if changed:
            plan.M = newM
            dropped.clear()
            plan.cands = filter_base(regenerate())
            proposed.clear()
            continue
        # linear behaviour seen in this round
        extra = []
        for loc in plan.M:
            if loc == info.kloc:
                continue
            for name, f in linear(I, info, loc, ends):
                if name not in proposed and name not in dropped:
                    proposed[name] = True
                    extra.append((name, f))
        extra = filter_base(extra)
        if extra:
            plan.cands = plan.cands + extra
            continue
        # preservation
        bad = set()
        for start, snap in ends:
            saved = ctx.snap()
            ctx.restore(snap)
            goals = []
            for name, f in plan.cands:
                if name in bad:
                    continue
                t = f(info)
                if t is not None and t is not T.TRUE:
                    goals.append((name, t))
            for name, t in goals:
                if not ctx.entails(t, None if name in plan.hinted else 2.5):
                    bad.add(name)
            nobl += len(goals)
            ctx.restore(saved)
        if not bad:
            break
        if DEBUG:
            print("   dropped", sorted(bad))
        dropped |= bad
        plan.cands = [(n, f) for n, f in plan.cands if n not in bad]
    else:
        raise Unsupported("no stable loop invariant")
    if DEBUG:
        print("loop", kn, "M:", {short_name(k): v for k, v in plan.M.items()}, "inv:", [n for n, _ in plan.cands], "%.1fs" % (time.time() - t0))
    return plan, dict(entry_vals), nobl, time.time() - t0


DEBUG = False


def ev_in(entry, ev):
    return ev


def merge_variants(a, b, tag):
    if a == b:
        return a
    if a and b and a[0][0] == "poison" or b and b[0][0] == "poison":
        return [("poison", tag)]
    out = list(a)
    for v in b:
        if v in out:
            continue
        done = False
        for i, w in enumerate(out):
            if v[0] == "sh" and w[0] == "sh":
                j = join(v[1], w[1])
                if j is None:
                    return [("poison", tag)]
                out[i] = ("sh", j)
                done = True
            elif v[0] == "bv" and w[0] == "bv":
                out[i] = ("bv", max(v[1], w[1]))
                done = True
            elif {v[0], w[0]} == {"bv", "sh"}:
                bv = v if v[0] == "bv" else w
                out[i] = bv
                done = True
            elif v[0] == "const" and w[0] == "sh" and v[1] is not None and v[1] is not UNDEF:
                done = True
            elif w[0] == "const" and v[0] == "sh" and w[1] is not None and w[1] is not UNDEF:
                out[i] = v
                done = True
        if not done:
            out.append(v)
    return out


def linear(I, info, loc, ends):
    """values (or lengths) that change by a constant in every iteration"""
    out = []
    ctx = I.ctx
    deltas = {}
    for start, snap in ends:
        saved = ctx.snap()
        ctx.restore((start, snap[1], snap[2], snap[3]))
        a = info.val(loc)
        ctx.restore(snap)
        b = info.val(loc)
        ctx.restore(saved)
        if a is None or b is None:
            continue
        if a.sort == T.INT:
            d = T.sub(b, a)
            deltas.setdefault("v", set()).add(d.val if T.is_const(d) else None)
        elif a.sort == T.STR or T.is_seq(a.sort):
            d = T.sub(T.length(b), T.length(a))
            deltas.setdefault("l", set()).add(d.val if T.is_const(d) else None)
    e = info.entry(loc)
    if e is None:
        return out
    for what, ds in deltas.items():
        if len(ds) == 1 and None not in ds:
            c = next(iter(ds))
            if what == "v":
                out.append(("%s = start %+d*k" % (lname(loc), c), lambda L, loc=loc, c=c: _lin(L, loc, c, False)))
            else:
                out.append(("len(%s) = start %+d*k" % (lname(loc), c), lambda L, loc=loc, c=c: _lin(L, loc, c, True)))
    return out


def _lin(L, loc, c, ln):
    v = L.val(loc)
    e = L.entry(loc)
    if v is None or e is None:
        return None
    if ln:
        v, e = T.length(v), T.length(e)
    return T.eq(v, T.add(e, T.scale(c, L.k())))


def lname(loc):
    return "%s" % (short_name(loc),) if loc[0] != "l" else "list%d" % loc[1]


def consts_in(I, entry):
    """small integers around (bounds for counters)"""
    cs = {0, 1}
    for loc, v in entry[0].items():
        if loc[0] == "v" and isinstance(v, int) and not isinstance(v, bool) and 0 <= v <= 64:
            cs.add(v)
    return sorted(cs)


def candidates(I, info, entry):
    out = []
    cs = consts_in(I, entry)
    for loc, variants in info.plan.M.items():
        if loc == info.kloc:
            continue
        nm = lname(loc)
        multi = len(variants) > 1
        for v in variants:
            if v[0] == "const" and v[1] is UNDEF:
                out.append(("%s unset only before the first iteration" % nm, lambda L, loc=loc: T.eq(L.k(), T.int_(0)) if L.I.ctx.store.get(loc, UNDEF) is UNDEF else T.ge(L.k(), T.int_(1))))
            if v[0] == "const" and multi and v[1] is None:
                out.append(("%s None only before the first iteration" % nm, lambda L, loc=loc: T.eq(L.k(), T.int_(0)) if L.I.ctx.store.get(loc, UNDEF) is None else None))
                out.append(("%s set after the first iteration only" % nm, lambda L, loc=loc: T.ge(L.k(), T.int_(1)) if L.I.ctx.store.get(loc, UNDEF) is not None else None))
                if loc in entry[0] and entry[0][loc] is None:
                    pass
            if v[0] in ("sh",) and v[1].k in ("int", "bool", "str", "bytes", "list") or v[0] == "bv":
                if info.entry(loc) is not None:
                    out.append(("%s unchanged" % nm, lambda L, loc=loc: T.eq(L.val(loc), L.entry(loc)) if L.val(loc) is not None else None))
            if v[0] == "sh" and v[1].k == "int":
                if info.entry(loc) is not None:
                    out.append(("%s >= start" % nm, lambda L, loc=loc: T.ge(L.val(loc), L.entry(loc)) if L.val(loc) is not None else None))
                out.append(("%s >= 0" % nm, lambda L, loc=loc: T.ge(L.val(loc), T.int_(0)) if L.val(loc) is not None else None))
                for c in cs:
                    out.append(("%s < %d" % (nm, c), lambda L, loc=loc, c=c: T.lt(L.val(loc), T.int_(c)) if L.val(loc) is not None else None))
            if v[0] == "sh" and v[1].k == "bytes":
                pass
    for loc in info.plan.M:
        if loc[0] == "p" and ("b", loc[1]) in info.plan.M:

            def at_end(L, loc=loc):
                p, b = L.I.ctx.store.get(loc), L.I.ctx.store.get(("b", loc[1]))
                try:
                    return T.eq(tint(p), T.length(tstr(b)))
                except Exception:
                    return None

            out.append(("%s at the end" % lname(loc), at_end))
    for h in I.hints:
        for name, f in h(info) or ():
            info.plan.hinted.add(name)
            out.append((name, f))
    return out
