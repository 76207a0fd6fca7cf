"""A quick, incomplete check for unsatisfiability: texts are uninterpreted values, of which only the lengths are known.

Everything it says of a text follows from the meaning of the operation, so a conjunction that it finds
unsatisfiable is. It is used to decide branches, never to find values."""

import re

from . import solver
from . import terms as T

KEEP = ("const", "var", "uf", "<=", "=", "and", "or", "not", "ite", "+", "*", "div", "mod")
TEXT = T.STR


def abstract(assertions):
    """the assertions over uninterpreted texts, or None"""
    memo, extra, consts = {}, [], []

    def uf(name, args, sort):
        n = "?%s:%s" % (name, ",".join(T.sort_smt(x.sort).replace("|", "") for x in args))
        if n not in T.UFS:
            T.declare_uf(n, tuple(x.sort for x in args), sort)
        return T.mk("uf", tuple(args), sort, n)

    for t in T.subterms(assertions):
        a = [memo[x] for x in t.args]
        op = t.op
        if op == "len":
            r = uf("len", a, T.INT)
            extra.append(T.mk("<=", (T.int_(0), r), T.BOOL))
        elif op in KEEP or op in ("sel", "ctor", "is"):
            r = t if all(x is y for x, y in zip(a, t.args)) else T.mk(op, tuple(a), t.sort, t.val)
        elif op == "in_re":
            r = uf("in:" + repr(t.val).encode().hex(), a, T.BOOL)
        elif op in ("bv", "bv2nat", "int2bv"):
            return None
        else:
            r = uf(op if t.val is None else "%s:%s" % (op, repr(t.val).encode().hex()), a, t.sort)
        if op == "substr" and t.args[0].sort == t.sort:
            s, i, n = a
            ls, lr = uf("len", [s], T.INT), uf("len", [r], T.INT)
            i0, n0, i1 = T.le(T.int_(0), i), T.le(T.int_(0), n), T.le(i, ls)
            ok = T.and_(i0, n0, i1)
            extra += [T.implies(T.and_(ok, T.le(T.add(i, n), ls)), T.eq(lr, n)), T.implies(T.and_(ok, T.ge(T.add(i, n), ls)), T.eq(lr, T.sub(ls, i))),
                      T.implies(T.not_(ok), T.eq(lr, T.int_(0))), T.ge(lr, T.int_(0))]
        elif op == "const" and t.sort == TEXT:
            r = T.var("?const:" + t.val.encode().hex(), TEXT)
            consts.append(r)
            extra.append(T.mk("=", (uf("len", [r], T.INT), T.int_(len(t.val))), T.BOOL))
        elif op in ("prefixof", "suffixof"):
            ls = [uf("len", [x], T.INT) for x in a]
            extra.append(T.implies(r, T.le(ls[0], ls[1])))
        memo[t] = r
    out = [memo[t] for t in assertions] + extra
    return out + [T.not_(T.mk("=", (x, y), T.BOOL)) for i, x in enumerate(consts) for y in consts[:i]]


_cache = {}


def refuted(assertions, timeout=0.5):
    """is the conjunction unsatisfiable by this reading? None: not a case for it"""
    ab = abstract(assertions)
    if ab is None:
        return None
    if any(a is T.FALSE for a in ab):
        return True
    ab = [a for a in ab if a is not T.TRUE]
    key = frozenset(a.id for a in ab)
    if key not in _cache:
        text = re.sub(r"\bString\b", "Text", T.script(ab)).replace("(set-logic ALL)", "(set-logic ALL)\n(declare-sort Text 0)", 1)
        b, out, dt = solver._race([("z3", [solver.Z3, "-in", "-t:%d" % int(timeout * 1000), "-memory:2500"])], text, timeout)
        if out.startswith("(error"):
            raise RuntimeError("light: " + out[:200])
        _cache[key] = out.strip().startswith("unsat")
    return _cache[key]


def textual(t):
    """does the truth of t depend on more than lengths?"""
    return any(x.op in ("in_re", "prefixof", "suffixof", "contains") or x.op == "=" and (x.args[0].sort == TEXT or T.is_seq(x.args[0].sort)) for x in T.subterms([t]))
