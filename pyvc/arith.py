"""Operators, indexing and slicing."""

import ast
import operator

from . import terms as T
from . import axioms
from .core import *  # noqa: F401,F403
from .interp import is_concrete, kind_of, tint, tbool, tstr

OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv,
       ast.Mod: operator.mod, ast.Pow: operator.pow, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
       ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.Div: operator.truediv}

T.declare_uf("byte", (T.STR, T.INT), T.INT)
T.INT_BOUND["byte"] = 255
T.NONNEG_UF.add("byte")
T.declare_uf("pow2", (T.INT,), T.INT)
T.NONNEG_UF.add("pow2")


@axioms.on("byte")
def _ax_byte(t):
    s, i = t.args
    inb = T.and_(T.le(T.int_(0), i), T.lt(i, T.length(s)))
    return [T.mk("<=", (T.int_(0), t), T.BOOL), T.mk("<=", (t, T.int_(255)), T.BOOL),
            T.implies(inb, T.eq(T.at(s, i), T.from_code(t))),
            T.implies(inb, T.mk("=", tuple(sorted((T.to_code(T.at(s, i)), t), key=lambda x: x.id)), T.BOOL))]


@axioms.on("pow2")
def _ax_pow2(t):
    return [T.ge(t, T.int_(1))] + [T.implies(T.eq(t.args[0], T.int_(k)), T.mk("=", (t, T.int_(1 << k)), T.BOOL)) for k in range(0, 41)]


def byte(s, i):
    if T.is_const(s) and T.is_const(i) and 0 <= i.val < len(s.val):
        return T.int_(ord(s.val[i.val]))
    if s.op == "++" and T.is_const(i) and i.val >= 0:
        k = i.val
        for p in s.args:
            l = T.length(p)
            if not T.is_const(l):
                break
            if k < l.val:
                return byte(p, T.int_(k))
            k -= l.val
    if s.op == "substr" and T.is_const(s.args[1]) and T.is_const(i) and T.is_const(s.args[2]) and 0 <= i.val < s.args[2].val:
        return byte(s.args[0], T.int_(s.args[1].val + i.val))
    return T.app("byte", s, i)


def as_bv(I, t):
    """64-bit vector term with the value of integer term t (0 <= t < 2^62 is proved)"""
    if T.is_const(t):
        if 0 <= t.val < 1 << 63:
            return T.bvc(t.val)
        raise Unsupported("bit operation on %d" % t.val)
    if t.op == "bv2nat":
        return t.args[0]
    if t.op in ("uf", "var") and t.val in T.INT_BOUND:
        return T.int2bv(t)
    if t.op == "ite":
        a, b = as_bv(I, t.args[1]), as_bv(I, t.args[2])
        return T.ite(t.args[0], a, b)
    st = I.ctx.store
    got = st.get(("bvof", t))
    if got is not None:
        return got
    if not I.ctx.entails(T.ge(t, T.int_(0))):
        raise Unsupported("bit operation on a possibly negative integer " + T.show(t))
    for b in (1, 31, 255, (1 << 16) - 1, (1 << 30) - 1, (1 << 32) - 1, (1 << 48) - 1, (1 << 62) - 1):
        if I.ctx.entails(T.le(t, T.int_(b))):
            break
    else:
        raise Unsupported("bit operation on an unbounded integer " + T.show(t))
    v = I.ctx.fresh("bv%d" % b, T.BV64)
    T.BV_BOUND[v.val] = b
    st[("bvof", t)] = v
    I.ctx.assume(T.mk("bv", (v, T.bvc(b)), T.BOOL, "bvule"))
    I.ctx.assume(T.mk("=", tuple(sorted((T.bv2nat(v), t), key=lambda x: x.id)), T.BOOL))
    if t.op not in ("+", "*", "mod", "div"):
        I.ctx.assume(T.mk("=", tuple(sorted((v, T.int2bv(t)), key=lambda x: x.id)), T.BOOL))
    return v


def _isbv(t):
    return t.op == "bv2nat"


def int_op(I, op, a, b):
    if op in (ast.Add, ast.Sub):
        return T.add(a, b) if op is ast.Add else T.sub(a, b)
    if op is ast.Mult:
        return T.mul(a, b)
    if op in (ast.FloorDiv, ast.Mod):
        if not T.is_const(b):
            b = T.int_(I.ctx.concretize(b))
        if b.val == 0:
            raise I.exc(ZeroDivisionError, "division by zero")
        if b.val < 0:
            raise Unsupported("division by a negative number")
        return T.div(a, b) if op is ast.FloorDiv else T.mod(a, b)
    if op is ast.Pow:
        if T.is_const(a) and a.val == 2:
            if I.ctx.branch(T.ge(b, T.int_(0))):
                return T.app("pow2", b)
        raise Unsupported("power")
    if op is ast.LShift:
        if not T.is_const(b):
            if T.is_const(a):
                if not I.ctx.branch(T.ge(b, T.int_(0))):
                    raise I.exc(ValueError, "negative shift count")
                r = small_range(I, b)
                if r is None:
                    return T.scale(a.val, T.app("pow2", b))
            b = T.int_(I.ctx.concretize(b))
        if b.val < 0:
            raise I.exc(ValueError, "negative shift count")
        if _isbv(a) and T.bv_max(a.args[0]) << b.val < 1 << 64:
            return T.bv2nat(T.bv("bvshl", a.args[0], T.bvc(b.val)))
        return T.scale(1 << b.val, a)
    if op is ast.RShift:
        if not T.is_const(b):
            b = T.int_(I.ctx.concretize(b))
        if b.val < 0:
            raise I.exc(ValueError, "negative shift count")
        if _isbv(a) or a.op == "uf" and a.val in T.INT_BOUND:
            x = as_bv(I, a)
            return T.bv2nat(T.bv("bvlshr", x, T.bvc(min(b.val, 64))))
        return T.div(a, T.int_(1 << b.val))
    if op in (ast.BitAnd, ast.BitOr, ast.BitXor):
        if op is ast.BitAnd:
            for x, y in ((a, b), (b, a)):
                if T.is_const(y) and y.val >= 0 and (y.val & (y.val + 1)) == 0 and not _isbv(x) and not (x.op == "uf" and x.val in T.INT_BOUND):
                    return T.mod(x, T.int_(y.val + 1))
            for x, y in ((a, b), (b, a)):
                if T.is_const(y) and y.val > 0 and (y.val & (y.val - 1)) == 0 and x.op == "uf" and T.INT_BOUND.get(x.val, y.val * 2) < 2 * y.val and x.val in T.NONNEG_UF:
                    return T.ite(T.ge(x, y), y, T.int_(0))  # the highest bit
        x, y = as_bv(I, a), as_bv(I, b)
        return T.bv2nat(T.bv({ast.BitAnd: "bvand", ast.BitOr: "bvor", ast.BitXor: "bvxor"}[op], x, y))
    raise Unsupported("integer operator " + op.__name__)


def small_range(I, t, limit=12):
    """is the integer term known to take few values?"""
    lo = None
    if I.ctx.entails(T.and_(T.ge(t, T.int_(0)), T.le(t, T.int_(limit)))):
        return limit
    return lo


def binop(I, op, a, b):
    for x in (a, b):
        if isinstance(x, Poison):
            I.poisoned(x)
    o = type(op)
    if is_concrete(a) and is_concrete(b):
        if o is ast.LShift and isinstance(b, int) and b > 4096 or o is ast.Pow and isinstance(b, int) and b > 4096:
            raise Unsupported("huge shift")
        if o is ast.Mult and (isinstance(a, int) and isinstance(b, (str, bytes)) and a > 1 << 20 or isinstance(b, int) and isinstance(a, (str, bytes)) and b > 1 << 20):
            raise Unsupported("huge repetition")
        try:
            r = OPS[o](a, b)
        except (TypeError, ZeroDivisionError, ValueError, OverflowError) as e:
            raise I.exc(type(e), *e.args)
        return r
    ka, kb = kind_of(a), kind_of(b)
    if ka in ("int", "bool") and kb in ("int", "bool"):
        if o is ast.Div:
            return XVal("ratio", num=mkint(tint(a)), den=mkint(tint(b)))
        if ka == kb == "bool" and o in (ast.BitAnd, ast.BitOr, ast.BitXor):
            x, y = tbool(a), tbool(b)
            return mkbool(T.and_(x, y) if o is ast.BitAnd else T.or_(x, y) if o is ast.BitOr else T.not_(T.eq(x, y)))
        return mkint(int_op(I, o, tint(a), tint(b)))
    a, b = I.plain(a), I.plain(b)
    ka, kb = kind_of(a), kind_of(b)
    if ka in ("str", "bytes") and o is ast.Add:
        if ka != kb:
            raise I.exc(TypeError, "can only concatenate %s" % ka)
        return mkstr(T.concat(tstr(a), tstr(b)), ka)
    if o is ast.Mult and (ka in ("str", "bytes") and kb in ("int", "bool") or kb in ("str", "bytes") and ka in ("int", "bool")):
        s, n = (a, b) if ka in ("str", "bytes") else (b, a)
        k = kind_of(s)
        if is_concrete(n):
            return mkstr(T.concat_sort(T.STR, *([tstr(s)] * max(0, n))), k)
        n = I.ctx.concretize(tint(n), 300)
        return mkstr(T.concat_sort(T.STR, *([tstr(s)] * max(0, n))), k)
    if o is ast.Mod and ka in ("str", "bytes"):
        return I.stubs.percent_format(I, a, b)
    if ka == "list" and kb == "list" and o is ast.Add:
        return I.new_list(I.items(a) + I.items(b))
    if ka == "tuple" and kb == "tuple" and o is ast.Add:
        return a + b
    if ka == "list" and kb == "int" and o is ast.Mult and is_concrete(b):
        its = I.items(a)
        return I.new_list(its * max(b, 0))
    if kb == "list" and ka == "int" and o is ast.Mult and is_concrete(a):
        return I.new_list(I.items(b) * max(a, 0))
    if ka == "tuple" and kb == "int" and o is ast.Mult and is_concrete(b):
        return a * b
    if ka == "set" and kb == "set" and o is ast.BitOr:
        return I.stubs.CONSTRUCTORS["set"](I, [I.new_list(I.items(a) + I.items(b))], {})
    meth = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__"}.get(o)
    if meth and isinstance(a, Ref) and isinstance(a.cls, VClass):
        f = I.class_attr(a.cls, meth)
        if isinstance(f, VFunc):
            return I.call(VBound(a, f), [b], {})
    basic = ("int", "bool", "str", "bytes", "none", "tuple", "list", "dict")
    if ka in basic and kb in basic and o in (ast.Add, ast.Sub, ast.Div, ast.FloorDiv, ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift):
        raise I.exc(TypeError, "unsupported operand type(s)")
    raise Unsupported("operator %s on %r and %r" % (o.__name__, a, b))


# ---------------------------------------------------------------- indexing


def norm_index(I, i, n):
    """valid index term for a sequence of length term n, or raises IndexError"""
    it = tint(i)
    if T.is_const(it):
        if it.val < 0:
            it = T.add(n, it)
            if not I.ctx.branch(T.le(T.int_(0), it)):
                raise I.exc(IndexError, "index out of range")
            return it
        if not I.ctx.branch(T.lt(it, n)):
            raise I.exc(IndexError, "index out of range")
        return it
    if I.ctx.branch(T.lt(it, T.int_(0))):
        it = T.add(n, it)
    if not I.ctx.branch(T.and_(T.le(T.int_(0), it), T.lt(it, n))):
        raise I.exc(IndexError, "index out of range")
    return it


def slice_bounds(I, sl, n):
    """(start, count) terms of a step-1 slice; count may be negative (empty)"""

    def known(t, c):
        return T.is_const(t) and c(t.val)

    def side(x, dflt):
        if x is None:
            return dflt
        if isinstance(x, (int, SInt, SBool)):
            t = tint(x)
        else:
            raise I.exc(TypeError, "slice indices must be integers")
        if known(t, lambda v: v >= 0):
            return t
        if known(t, lambda v: v < 0):
            r = T.add(n, t)
            if I.ctx.entails(T.le(T.int_(0), r)):
                return r
            return T.ite(T.le(T.int_(0), r), r, T.int_(0))
        if I.ctx.entails(T.le(T.int_(0), t)):
            return t
        if I.ctx.branch(T.le(T.int_(0), t)):
            return t
        r = T.add(n, t)
        return T.ite(T.le(T.int_(0), r), r, T.int_(0))

    a = side(sl.start, T.int_(0))
    b = side(sl.stop, n)
    return a, T.sub(b, a)


def getitem(I, v, i):
    for x in (v, i):
        if isinstance(x, Poison):
            I.poisoned(x)
    v = I.plain(v) if isinstance(v, Ref) else v
    if isinstance(i, slice):
        return getslice(I, v, i)
    if isinstance(v, (str, bytes, tuple, range)) and is_concrete(i):
        try:
            return v[i]
        except (IndexError, TypeError) as e:
            raise I.exc(type(e), *e.args)
    k = kind_of(v)
    if k == "tuple":
        n = I.ctx.concretize(norm_index(I, i, T.int_(len(v))))
        return v[n]
    if k in ("str", "bytes"):
        if kind_of(i) not in ("int", "bool"):
            raise I.exc(TypeError, "string indices must be integers")
        s = tstr(v)
        it = norm_index(I, i, T.length(s))
        if k == "str":
            if T.is_const(s):
                return table_char(I, s.val, it)
            return mkstr(T.at(s, it), "str")
        if T.is_const(s):
            return table_int(I, [ord(c) for c in s.val], it)
        return mkint(byte(s, it))
    if k == "list":
        return list_item(I, v, i)
    if k == "dict":
        return dict_item(I, v, i)
    if isinstance(v, Lazy):
        it = norm_index(I, i, v.n)
        return v.elem(it)
    m = I._getattr(v, "__getitem__") if isinstance(v, (Ref, XVal, SOpaque)) else UNDEF
    if m is not UNDEF:
        return I.call(m, [i], {})
    if v is None or k in ("int", "bool", "gen", "set", "func", "x:ratio"):
        raise I.exc(TypeError, "not subscriptable")
    raise Unsupported("indexing %r" % (v,))


def table_int(I, vals, it):
    """vals[it] for a constant table: if-then-else chain"""
    if T.is_const(it):
        return vals[it.val]
    if len(vals) > 64:
        raise Unsupported("symbolic index into a large constant table")
    r = T.int_(vals[-1])
    for j in range(len(vals) - 2, -1, -1):
        r = T.ite(T.eq(it, T.int_(j)), T.int_(vals[j]), r)
    return mkint(r)


def table_char(I, s, it):
    if T.is_const(it):
        return s[it.val]
    return mkstr(T.at(T.str_(s), it), "str")


def list_item(I, v, i):
    items = I.items(v)
    if kind_of(i) not in ("int", "bool"):
        raise I.exc(TypeError, "list indices must be integers")
    if not any(isinstance(x, Chunk) for x in items):
        if is_concrete(i):
            try:
                return items[i]
            except IndexError as e:
                raise I.exc(IndexError, *e.args)
        it = norm_index(I, i, T.int_(len(items)))
        if all(isinstance(x, int) and not isinstance(x, bool) for x in items):
            return table_int(I, list(items), it)
        return items[I.ctx.concretize(it)]
    # positions that are certain
    if is_concrete(i):
        if i < 0:
            k = -i
            for x in reversed(items):
                if isinstance(x, Chunk):
                    break
                k -= 1
                if k == 0:
                    return x
        else:
            k = i
            for x in items:
                if isinstance(x, Chunk):
                    break
                if k == 0:
                    return x
                k -= 1
    n = T.int_(0)
    for x in items:
        n = T.add(n, T.length(x.t) if isinstance(x, Chunk) else T.int_(1))
    it = norm_index(I, i, n)
    off = T.int_(0)
    for p, x in enumerate(items):
        l = T.length(x.t) if isinstance(x, Chunk) else T.int_(1)
        end = T.add(off, l)
        if p == len(items) - 1 or I.ctx.branch(T.lt(it, end)):
            if not isinstance(x, Chunk):
                return x
            idx = T.sub(it, off)
            return chunk_item(I, v, p, x, idx)
        off = end


def chunk_item(I, lref, p, ch, idx):
    sh = ch.et
    t = T.nth(ch.t, idx)
    if sh.k != "obj":
        return I.decode(t, sh)
    key = ("viewof", lref.id, p, idx)
    st = I.ctx.store
    r = st.get(key)
    if r is not None and ("stale", r.id) not in st and st[("view", r.id)][3] is ch.t:
        return r
    r = I.decode(t, sh, frozen=False)
    st[("view", r.id)] = (lref, (p, idx), sh, ch.t)
    st[key] = r
    return r


def dict_item(I, v, i):
    ps = I.items(v)
    for k, x in ps:
        if I.truth(I.eq(k, i)):
            return x
    d = I.ctx.store.get(("default", v.id))
    if d is not None:
        x = I.call(d, [], {})
        I.set_items(v, I.items(v) + ((i, x),))
        return x
    raise I.exc(KeyError, i)


def getslice(I, v, sl):
    if sl.step is not None and sl.step != 1:
        if is_concrete(v) and is_concrete((sl.start, sl.stop, sl.step)):
            return v[sl]
        if isinstance(v, Ref) and v.kind == "list" and not any(isinstance(x, Chunk) for x in I.items(v)) and is_concrete((sl.start, sl.stop, sl.step)):
            return I.new_list(I.items(v)[sl])
        raise Unsupported("slice step")
    conc = is_concrete((sl.start, sl.stop))
    if isinstance(v, (str, bytes, tuple)) and conc:
        try:
            return v[sl]
        except TypeError as e:
            raise I.exc(TypeError, *e.args)
    k = kind_of(v)
    if k in ("str", "bytes"):
        s = tstr(v)
        s = I.ctx.store.get(("cut", s), s)
        a, c = slice_bounds(I, sl, T.length(s))
        return mkstr(T.substr(s, a, c), k)
    if k == "list":
        items = I.items(v)
        if not any(isinstance(x, Chunk) for x in items):
            if conc:
                return I.new_list(items[sl])
        elif conc:
            r = concrete_slice(items, sl)
            if r is not None:
                return I.new_list(r)
        sh = I.items_shape(items)
        if sh is None or not sh.full():
            raise Unsupported("slice of a list")
        seq = I.encode_items(items, sh)
        a, c = slice_bounds(I, sl, T.length(seq))
        t = T.substr(seq, a, c)
        return I.new_list([Chunk(t, sh.a)] if t.op != "seq.empty" else [])
    if isinstance(v, Lazy):
        a, c = slice_bounds(I, sl, v.n)
        n = T.max_(T.int_(0), T.min_(c, T.sub(v.n, a)))
        return Lazy(n, lambda j: v.elem(T.add(a, j)), v.desc + "[slice]")
    if v is None or k in ("int", "bool"):
        raise I.exc(TypeError, "not subscriptable")
    raise Unsupported("slice of %r" % (v,))


def concrete_slice(items, sl):
    """slice a partly symbolic list where the cut points fall into its concrete ends"""
    items = list(items)
    if sl.start not in (None, 0):
        if sl.start < 0:
            k = -sl.start
            if k <= len(items) and not any(isinstance(x, Chunk) for x in items[-k:]) and sl.stop is None:
                return items[-k:]
            return None
        if any(isinstance(x, Chunk) for x in items[: sl.start]) or len(items) < sl.start:
            return None
    start = sl.start or 0
    stop = None
    if sl.stop is not None:
        if sl.stop >= 0:
            if any(isinstance(x, Chunk) for x in items[: sl.stop]) or len(items) < sl.stop:
                return None
            return items[start: sl.stop]
        k = -sl.stop
        if k > len(items) or any(isinstance(x, Chunk) for x in items[-k:]) or len(items) - k < start:
            return None
        stop = len(items) - k
    return items[start:stop]


def setitem(I, v, i, x):
    if isinstance(v, Ref) and v.kind == "dict":
        ps = I.items(v)
        for n, (k, _) in enumerate(ps):
            if I.truth(I.eq(k, i)):
                I.set_items(v, ps[:n] + ((k, x),) + ps[n + 1:])
                return
        I.set_items(v, ps + ((i, x),))
        return
    if isinstance(v, Ref) and v.kind == "list" and not isinstance(i, slice):
        items = I.items(v)
        if not any(isinstance(y, Chunk) for y in items):
            if not is_concrete(i):
                i = I.ctx.concretize(norm_index(I, i, T.int_(len(items))))
            if not -len(items) <= i < len(items):
                raise I.exc(IndexError, "list assignment index out of range")
            its = list(items)
            its[i] = x
            I.set_items(v, its)
            return
        if is_concrete(i) and i < 0 and not any(isinstance(y, Chunk) for y in items[i:]) and -i <= len(items):
            its = list(items)
            its[i] = x
            I.set_items(v, its)
            return
        sh = I.items_shape(items)
        if sh is None or not sh.full():
            raise Unsupported("item assignment")
        seq = I.encode_items(items, sh)
        n = T.length(seq)
        it = norm_index(I, i, n)
        new = T.concat(T.substr(seq, T.int_(0), it), T.unit(I.encode(x, sh.a)), T.substr(seq, T.add(it, T.int_(1)), T.sub(n, T.add(it, T.int_(1)))))
        I.set_items(v, (Chunk(new, sh.a),))
        return
    m = I._getattr(v, "__setitem__") if isinstance(v, Ref) else UNDEF
    if m is not UNDEF:
        I.call(m, [i, x], {})
        return
    raise Unsupported("item assignment on %r" % (v,))
