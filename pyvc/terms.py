"""First-order terms for the verification conditions.

A small hash-consed term language (booleans, mathematical integers, 64-bit
vectors, character strings, sequences, datatypes, uninterpreted functions) with
a local simplifier and an SMT-LIB 2.6 printer that cvc5 and z3 both accept.
"""

INT, BOOL, STR = "Int", "Bool", "String"


def BV(n):
    return ("BV", n)


BV64 = BV(64)


def SEQ(s):
    return ("Seq", s)


def DT(name):
    return ("DT", name)


def is_seq(s):
    return isinstance(s, tuple) and s[0] == "Seq"


def is_bv(s):
    return isinstance(s, tuple) and s[0] == "BV"


def is_dt(s):
    return isinstance(s, tuple) and s[0] == "DT"


class Term:
    __slots__ = ("op", "args", "sort", "val", "id", "_lin")

    def __repr__(self):
        return show(self)

    # terms are hash-consed, so identity is equality
    def __hash__(self):
        return self.id

    def __eq__(self, other):
        return self is other

    def __bool__(self):
        raise TypeError("symbolic term used as a Python truth value: " + show(self))


_table = {}


def mk(op, args, sort, val=None):
    key = (op, tuple(a.id for a in args), sort, val if not isinstance(val, bool) else ("b", val))
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort, t.val, t.id, t._lin = op, tuple(args), sort, val, len(_table), None
        _table[key] = t
    return t


def show(t, depth=6):
    if t.op == "const":
        if t.sort == STR:
            s = repr(t.val)
            return s if len(s) < 60 else s[:57] + "..."
        return str(t.val).lower() if t.sort == BOOL else str(t.val)
    if t.op == "var":
        return t.val
    name = t.val if t.op in ("uf", "sel", "is", "ctor") else t.op
    if t.op == "is":
        name = "is-" + t.val
    if t.op == "bv":
        name = t.val
    if not t.args:
        return str(name)
    if depth == 0:
        return str(name) + "(...)"
    return str(name) + "(" + ", ".join(show(a, depth - 1) for a in t.args) + ")"


# ---------------------------------------------------------------- declarations

UFS = {}  # name -> (argsorts, ressort)
DTS = {}  # name -> {ctor: [(sel, sort)]}
_fresh = [0]


def reset_fresh():
    _fresh[0] = 0


def var(name, sort):
    return mk("var", (), sort, name)


def declare_uf(name, argsorts, res):
    if name in UFS:
        assert UFS[name] == (tuple(argsorts), res), (name, UFS[name], argsorts, res)
    UFS[name] = (tuple(argsorts), res)

    def f(*args):
        return app(name, *args)

    return f


def app(name, *args):
    argsorts, res = UFS[name]
    assert len(args) == len(argsorts), (name, args)
    for a, s in zip(args, argsorts):
        assert a.sort == s, (name, a, a.sort, s)
    return mk("uf", args, res, name)


def declare_dt(name, ctors):
    """ctors: {ctor: [(selector, sort), ...]}; redeclaration must agree."""
    if name in DTS:
        assert DTS[name] == ctors, (name, DTS[name], ctors)
    DTS[name] = ctors
    return DT(name)


def ctor(dtname, c, *args):
    sels = DTS[dtname][c]
    assert len(args) == len(sels)
    for a, (_, s) in zip(args, sels):
        assert a.sort == s, (c, a.sort, s)
    return mk("ctor", args, DT(dtname), c)


def sel(t, c, selname):
    dtname = t.sort[1]
    sels = DTS[dtname][c]
    for i, (n, s) in enumerate(sels):
        if n == selname:
            if t.op == "ctor" and t.val == c:
                return t.args[i]
            return mk("sel", (t,), s, selname)
    raise KeyError(selname)


def is_ctor(t, c):
    dtname = t.sort[1]
    if t.op == "ctor":
        return bool_(t.val == c)
    if len(DTS[dtname]) == 1:
        return TRUE
    return mk("is", (t,), BOOL, c)


# ---------------------------------------------------------------- constants


def int_(n):
    return mk("const", (), INT, int(n))


def bool_(b):
    return TRUE if b else FALSE


def str_(s):
    return mk("const", (), STR, s)


def bvc(n, w=64):
    return mk("const", (), BV(w), n % (1 << w))


TRUE = mk("const", (), BOOL, True)
FALSE = mk("const", (), BOOL, False)


def is_const(t):
    return t.op == "const"


# ---------------------------------------------------------------- booleans


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "<=":  # not (x <= 0)  ->  1 - x <= 0
        return le(int_(1), a.args[0])
    return mk("not", (a,), BOOL)


def and_(*xs):
    out = []
    seen = set()
    for x in _flat("and", xs):
        if x is TRUE or x in seen:
            continue
        if x is FALSE or not_(x) in seen:
            return FALSE
        seen.add(x)
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", out, BOOL)


def or_(*xs):
    out = []
    seen = set()
    for x in _flat("or", xs):
        if x is FALSE or x in seen:
            continue
        if x is TRUE or not_(x) in seen:
            return TRUE
        seen.add(x)
        out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", out, BOOL)


def _flat(op, xs):
    for x in xs:
        if isinstance(x, (list, tuple)):
            yield from _flat(op, x)
        elif x.op == op:
            yield from x.args
        else:
            yield x


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return eq(a, b)


def ite(c, a, b):
    assert a.sort == b.sort, (a.sort, b.sort)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == BOOL:
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        return and_(implies(c, a), implies(not_(c), b))
    return mk("ite", (c, a, b), a.sort)


def eq(a, b):
    assert a.sort == b.sort, ("eq", a, a.sort, b, b.sort)
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return bool_(a.val == b.val)
    s = a.sort
    if s == BOOL:
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
    if s == INT:
        if a.op == "bv2nat" and b.op == "bv2nat":
            return eq(a.args[0], b.args[0])
        if a.op == "bv2nat" and is_const(b):
            w = a.args[0].sort[1]
            return eq(a.args[0], bvc(b.val, w)) if 0 <= b.val < (1 << w) else FALSE
        if b.op == "bv2nat" and is_const(a):
            return eq(b, a)
        d = sub(a, b)
        if is_const(d):
            return bool_(d.val == 0)
        return _mk_eq(a, b)
    if s == STR or is_seq(s):
        return _eq_concat(a, b)
    if a.op == "ctor" and b.op == "ctor":
        if a.val != b.val:
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    return _mk_eq(a, b)


def _mk_eq(a, b):
    if a.id > b.id:
        a, b = b, a
    return mk("=", (a, b), BOOL)


def _parts(t):
    if t.op == "++":
        return list(t.args)
    if is_const(t) and t.val == "":
        return []
    if t.op == "seq.empty":
        return []
    return [t]


def _eq_concat(a, b):
    """Equality of strings / sequences, with equal ends stripped."""
    pa, pb = _parts(a), _parts(b)
    extra = []
    # strip common front
    for rev in (False, True):
        if rev:
            pa.reverse()
            pb.reverse()
        while pa and pb:
            x, y = pa[0], pb[0]
            if x is y:
                pa.pop(0)
                pb.pop(0)
            elif x.op == "unit" and y.op == "unit":
                extra.append(eq(x.args[0], y.args[0]))
                pa.pop(0)
                pb.pop(0)
            elif is_const(x) and is_const(y) and x.sort == STR:
                n = min(len(x.val), len(y.val))
                xs, ys = x.val, y.val
                if rev:
                    if xs[len(xs) - n:] != ys[len(ys) - n:]:
                        return FALSE
                    rx, ry = xs[: len(xs) - n], ys[: len(ys) - n]
                else:
                    if xs[:n] != ys[:n]:
                        return FALSE
                    rx, ry = xs[n:], ys[n:]
                pa.pop(0)
                pb.pop(0)
                if rx:
                    pa.insert(0, str_(rx))
                if ry:
                    pb.insert(0, str_(ry))
            else:
                break
        if rev:
            pa.reverse()
            pb.reverse()
    if not pa and not pb:
        return and_(*extra)
    for p, q in ((pa, pb), (pb, pa)):
        if not p and any(min_len(x) > 0 for x in q):
            return FALSE
    ra = concat_sort(a.sort, *pa)
    rb = concat_sort(a.sort, *pb)
    if is_const(ra) and is_const(rb):
        return and_(bool_(ra.val == rb.val), *extra)
    return and_(_mk_eq(ra, rb), *extra)


def min_len(t):
    if is_const(t):
        return len(t.val)
    if t.op == "unit":
        return 1
    if t.op == "++":
        return sum(min_len(x) for x in t.args)
    return 0


def ne(a, b):
    return not_(eq(a, b))


# ---------------------------------------------------------------- integers


def lin(t):
    """linear normal form: ({atom: coeff}, const)"""
    if t._lin is not None:
        return t._lin
    if is_const(t):
        r = ({}, t.val)
    elif t.op == "+":
        m, c = {}, 0
        for x in t.args:
            mm, cc = lin(x)
            c += cc
            for k, v in mm.items():
                m[k] = m.get(k, 0) + v
        r = ({k: v for k, v in m.items() if v}, c)
    elif t.op == "*" and is_const(t.args[0]):
        mm, cc = lin(t.args[1])
        k0 = t.args[0].val
        r = ({k: v * k0 for k, v in mm.items()}, cc * k0)
    else:
        r = ({t: 1}, 0)
    t._lin = r
    return r


def unlin(m, c):
    m = {k: v for k, v in m.items() if v}
    parts = []
    for k in sorted(m, key=lambda x: x.id):
        parts.append(k if m[k] == 1 else mk("*", (int_(m[k]), k), INT))
    if not parts:
        return int_(c)
    if c:
        parts.append(int_(c))
    if len(parts) == 1:
        return parts[0]
    return mk("+", parts, INT)


def add(*xs):
    m, c = {}, 0
    for x in xs:
        mm, cc = lin(x)
        c += cc
        for k, v in mm.items():
            m[k] = m.get(k, 0) + v
    return unlin(m, c)


def scale(k, t):
    m, c = lin(t)
    return unlin({a: v * k for a, v in m.items()}, c * k)


def sub(a, b):
    return add(a, scale(-1, b))


def neg(a):
    return scale(-1, a)


def mul(a, b):
    if is_const(a):
        return scale(a.val, b)
    if is_const(b):
        return scale(b.val, a)
    if a.id > b.id:
        a, b = b, a
    return mk("*", (a, b), INT)


def div(a, b):
    """floor division, divisor a positive constant"""
    assert is_const(b) and b.val > 0
    k = b.val
    if k == 1:
        return a
    m, c = lin(a)
    whole = {x: v // k for x, v in m.items() if v % k == 0}
    rest = {x: v for x, v in m.items() if v % k}
    cw, cr = c // k, c % k
    if not rest:
        return unlin(whole, cw)
    inner = unlin(rest, cr)
    if inner.op == "div" and is_const(inner.args[1]):
        inner2, k2 = inner.args[0], inner.args[1].val
        d = mk("div", (inner2, int_(k * k2)), INT)
    else:
        d = mk("div", (inner, b), INT)
    return add(unlin(whole, cw), d)


def mod(a, b):
    assert is_const(b) and b.val > 0
    k = b.val
    m, c = lin(a)
    rest = {x: v % k for x, v in m.items() if v % k}
    cr = c % k
    if not rest:
        return int_(cr)
    inner = unlin(rest, cr)
    return mk("mod", (inner, b), INT)


def le(a, b):
    if a.op == "bv2nat" and is_const(b) or b.op == "bv2nat" and is_const(a):
        if a.op == "bv2nat":
            w = a.args[0].sort[1]
            if b.val < 0:
                return FALSE
            if b.val >= (1 << w) - 1:
                return TRUE
            if bv_max(a.args[0]) <= b.val:
                return TRUE
            return mk("bv", (a.args[0], bvc(b.val, w)), BOOL, "bvule")
        w = b.args[0].sort[1]
        if a.val <= 0:
            return TRUE
        if a.val >= (1 << w):
            return FALSE
        if bv_max(b.args[0]) < a.val:
            return FALSE
        return mk("bv", (bvc(a.val, w), b.args[0]), BOOL, "bvule")
    d = sub(a, b)
    m, c = lin(d)
    if not m:
        return bool_(c <= 0)
    # single non-negative atom
    if c <= 0 and all(v < 0 and nonneg(x) for x, v in m.items()):
        return TRUE
    if c > 0 and all(v > 0 and nonneg(x) for x, v in m.items()):
        return FALSE
    import math

    g = 0
    for v in m.values():
        g = math.gcd(g, abs(v))
    if g > 1:
        m = {x: v // g for x, v in m.items()}
        c = -((-c) // g)  # ceil(c / g)
    return mk("<=", (unlin(m, c), int_(0)), BOOL)


def nonneg(t):
    return t.op in ("len", "mod", "bv2nat") or (t.op == "var" and t.val.startswith("#k!")) or (t.op == "uf" and t.val in NONNEG_UF) or (
        is_const(t) and t.val >= 0
    )


NONNEG_UF = set()


def lt(a, b):
    return le(add(a, int_(1)), b)


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def min_(a, b):
    return ite(le(a, b), a, b)


def max_(a, b):
    return ite(le(a, b), b, a)


# ---------------------------------------------------------------- bit-vectors


def bv_max(t):
    """upper bound of the unsigned value"""
    w = t.sort[1]
    full = (1 << w) - 1
    if is_const(t):
        return t.val
    if t.op == "bv":
        f = t.val
        if f == "bvand":
            return min(bv_max(a) for a in t.args)
        if f in ("bvor", "bvxor"):
            m = 0
            for a in t.args:
                m = max(m, bv_max(a))
            return (1 << m.bit_length()) - 1
        if f == "bvshl" and is_const(t.args[1]):
            return min(full, bv_max(t.args[0]) << t.args[1].val)
        if f == "bvlshr" and is_const(t.args[1]):
            return bv_max(t.args[0]) >> t.args[1].val
        if f == "bvadd":
            return min(full, sum(bv_max(a) for a in t.args))
    if t.op == "ite":
        return max(bv_max(t.args[1]), bv_max(t.args[2]))
    if t.op == "uf" and t.val in BV_BOUND:
        return BV_BOUND[t.val]
    if t.op == "var" and t.val in BV_BOUND:
        return BV_BOUND[t.val]
    if t.op == "int2bv":
        return min(full, int_max(t.args[0], full))
    return full


BV_BOUND = {}
INT_BOUND = {}  # var/uf name -> inclusive upper bound (and >= 0)


def int_max(t, default):
    if is_const(t):
        return t.val
    if t.op == "mod":
        return t.args[1].val - 1
    if t.op == "to_code":
        return default
    if t.op in ("var", "uf") and t.val in INT_BOUND:
        return INT_BOUND[t.val]
    return default


def bv(f, *args):
    w = args[0].sort[1]
    full = (1 << w) - 1
    if all(is_const(a) for a in args):
        x, y = args[0].val, args[1].val
        r = {
            "bvand": lambda: x & y,
            "bvor": lambda: x | y,
            "bvxor": lambda: x ^ y,
            "bvshl": lambda: (x << y) & full if y < w else 0,
            "bvlshr": lambda: x >> y if y < w else 0,
            "bvadd": lambda: (x + y) & full,
        }[f]()
        return bvc(r, w)
    a, b = args
    if f in ("bvor", "bvxor", "bvadd"):
        if is_const(a) and a.val == 0:
            return b
        if is_const(b) and b.val == 0:
            return a
    if f == "bvand":
        for x, y in ((a, b), (b, a)):
            if is_const(x):
                if x.val == 0:
                    return x
                bm = bv_max(y)
                if (x.val & ((1 << bm.bit_length()) - 1)) == (1 << bm.bit_length()) - 1:
                    return y
    if f in ("bvshl", "bvlshr") and is_const(b) and b.val == 0:
        return a
    if f == "bvlshr" and is_const(b) and bv_max(a) >> b.val == 0:
        return bvc(0, w)
    if f in ("bvand", "bvor", "bvxor", "bvadd") and a.id > b.id:
        a, b = b, a
    return mk("bv", (a, b), BV(w), f)


def bv2nat(t):
    if is_const(t):
        return int_(t.val)
    return mk("bv2nat", (t,), INT)


def int2bv(t, w=64):
    """only for terms known to be in [0, 2^w)"""
    if is_const(t):
        return bvc(t.val, w)
    if t.op == "bv2nat" and t.args[0].sort == BV(w):
        return t.args[0]
    return mk("int2bv", (t,), BV(w))


# ---------------------------------------------------------------- strings and sequences


def empty(sort):
    if sort == STR:
        return str_("")
    return mk("seq.empty", (), sort)


def unit(x):
    return mk("unit", (x,), SEQ(x.sort))


def concat_sort(sort, *xs):
    parts = []
    for x in xs:
        assert x.sort == sort, ("concat", x.sort, sort)
        for p in _parts(x):
            if parts and is_const(p) and is_const(parts[-1]):
                parts[-1] = str_(parts[-1].val + p.val)
            else:
                parts.append(p)
    if not parts:
        return empty(sort)
    if len(parts) == 1:
        return parts[0]
    return mk("++", parts, sort)


def concat(*xs):
    return concat_sort(xs[0].sort, *xs)


def length(s):
    if is_const(s):
        return int_(len(s.val))
    if s.op == "++":
        return add(*[length(x) for x in s.args])
    if s.op == "unit":
        return int_(1)
    if s.op == "seq.empty":
        return int_(0)
    if s.op in ("to_lower", "to_upper"):
        return length(s.args[0])
    if s.op == "uf" and s.val in LEN_RULE:
        r = LEN_RULE[s.val](s)
        if r is not None:
            return r
    return mk("len", (s,), INT)


LEN_RULE = {}  # uf name -> function giving the length term


def substr(s, off, n):
    """SMT-LIB substr / extract semantics"""
    if is_const(off) and off.val == 0 and n is length(s):
        return s
    if is_const(n) and n.val <= 0 or is_const(off) and off.val < 0:
        return empty(s.sort)
    if is_const(s) and is_const(off) and is_const(n) and s.sort == STR:
        return str_(s.val[off.val: off.val + n.val])
    if s.op == "substr":
        # a slice of a tail is a slice of the whole
        d, a, la = s.args
        if la is sub(length(d), a) and le(int_(0), a) is TRUE and le(int_(0), off) is TRUE:
            m, c = lin(n)
            ls = mk("len", (s,), INT)
            if m.get(ls) == 1:
                m = dict(m)
                del m[ls]
                return substr(d, add(a, off), add(unlin(m, c), la))
            if ls not in m:
                return substr(d, add(a, off), n)
    if s.op == "++" and is_const(off) and is_const(n):
        # peel constant-length prefixes
        parts = list(s.args)
        o, k = off.val, n.val
        while parts:
            l = length(parts[0])
            if not is_const(l) or l.val > o:
                break
            o -= l.val
            parts.pop(0)
        got = []
        ps = list(parts)
        oo, kk = o, k
        while ps and kk > 0:
            l = length(ps[0])
            if not is_const(l):
                break
            if oo == 0 and l.val <= kk:
                got.append(ps[0])
                kk -= l.val
            else:
                take = min(kk, l.val - oo)
                got.append(substr(ps[0], int_(oo), int_(take)))
                kk -= take
                oo = 0
            ps.pop(0)
        if kk == 0 or not ps:
            return concat_sort(s.sort, *got)
        if len(parts) < len(s.args):
            return substr(concat_sort(s.sort, *parts), int_(o), int_(k))
    if s.op == "++":
        # drop the leading parts that lie entirely before the offset
        off0 = off
        parts = list(s.args)
        while parts:
            d = sub(off0, length(parts[0]))
            if is_const(d) and d.val >= 0 or (not is_const(d) and le(int_(0), d) is TRUE):
                off0 = d
                parts.pop(0)
            else:
                break
        if is_const(off0) and off0.val == 0:
            # take whole parts as long as they fit
            got = []
            rest = n
            while parts:
                l = length(parts[0])
                if rest is l or (le(l, rest) is TRUE):
                    got.append(parts.pop(0))
                    rest = sub(rest, l)
                else:
                    break
            if is_const(rest) and rest.val <= 0 or not parts:
                return concat_sort(s.sort, *got)
            if got or len(parts) < len(s.args):
                return concat_sort(
                    s.sort, *got, mk("substr", (concat_sort(s.sort, *parts), int_(0), rest), s.sort)
                )
        if len(parts) < len(s.args):
            return mk("substr", (concat_sort(s.sort, *parts), off0, n), s.sort)
    return mk("substr", (s, off, n), s.sort)


def nth(s, i):
    """element of a sequence (not of a string)"""
    es = s.sort[1]
    if s.op == "unit" and is_const(i) and i.val == 0:
        return s.args[0]
    if s.op == "++" and is_const(i) and i.val >= 0:
        k = i.val
        for p in s.args:
            l = length(p)
            if not is_const(l):
                break
            if k < l.val:
                return nth(p, int_(k))
            k -= l.val
    if s.op == "++":
        o = i
        for p in s.args:
            l = length(p)
            if o is int_(0) and p.op == "unit":
                return p.args[0]
            d = sub(o, l)
            if le(int_(0), d) is TRUE:
                o = d
            else:
                break
    return mk("nth", (s, i), es)


def at(s, i):
    """one-character string"""
    if is_const(s) and is_const(i):
        return str_(s.val[i.val] if 0 <= i.val < len(s.val) else "")
    return mk("at", (s, i), STR)


def to_code(c):
    if is_const(c):
        return int_(ord(c.val) if len(c.val) == 1 else -1)
    if c.op == "from_code":
        pass
    return mk("to_code", (c,), INT)


def from_code(i):
    if is_const(i):
        return str_(chr(i.val) if 0 <= i.val < 0x30000 else "")
    return mk("from_code", (i,), STR)


def prefixof(p, s):
    if is_const(p) and is_const(s):
        return bool_(s.val.startswith(p.val))
    if is_const(p) and p.val == "":
        return TRUE
    if is_const(p) and s.op == "++" and is_const(s.args[0]):
        a = s.args[0].val
        n = min(len(a), len(p.val))
        if a[:n] != p.val[:n]:
            return FALSE
        if len(a) >= len(p.val):
            return TRUE
        return prefixof(str_(p.val[n:]), concat_sort(STR, *s.args[1:]))
    if p is s:
        return TRUE
    if s.op == "++" and s.args[0] is p:
        return TRUE
    return mk("prefixof", (p, s), BOOL)


def suffixof(p, s):
    if is_const(p) and is_const(s):
        return bool_(s.val.endswith(p.val))
    if is_const(p) and p.val == "":
        return TRUE
    return mk("suffixof", (p, s), BOOL)


def contains(s, t):
    if is_const(s) and is_const(t):
        return bool_(t.val in s.val)
    if is_const(t) and t.val == "":
        return TRUE
    return mk("contains", (s, t), BOOL)


def indexof(s, t, i):
    if is_const(s) and is_const(t) and is_const(i) and i.val >= 0:
        return int_(s.val.find(t.val, i.val))
    return mk("indexof", (s, t, i), INT)


def replace_all(s, a, b):
    if is_const(s) and is_const(a) and is_const(b):
        return str_(s.val.replace(a.val, b.val)) if a.val else s
    return mk("replace_all", (s, a, b), STR)


def replace1(s, a, b):
    if is_const(s) and is_const(a) and is_const(b):
        return str_(s.val.replace(a.val, b.val, 1))
    return mk("replace1", (s, a, b), STR)


def _to_case(name, f):
    def g(s):
        """ASCII case conversion"""
        if is_const(s) and all(ord(c) < 128 for c in s.val):
            return str_(f(s.val))
        if s.op == name:
            return s
        if s.op == "++":
            return concat_sort(STR, *[g(x) for x in s.args])
        return mk(name, (s,), STR)

    return g


to_lower = _to_case("to_lower", str.lower)
to_upper = _to_case("to_upper", str.upper)


# regular expressions: nested tuples
#   ("cls", ((lo, hi), ...)) ("star", r) ("plus", r) ("opt", r) ("cat", r...) ("alt", r...) ("lit", s) ("loop", lo, hi, r) ("all",)


def in_re(s, r):
    if is_const(s):
        return bool_(re_match(s.val, r))
    if r[0] == "star" and r[1][0] == "cls" and s.op == "++":
        return and_(*[in_re(x, r) for x in s.args])
    return mk("in_re", (s,), BOOL, r)


def cls(*ranges):
    return ("cls", tuple(sorted(ranges)))


def chars(s):
    return cls_of_set(set(map(ord, s)))


def cls_of_set(codes):
    out = []
    for c in sorted(codes):
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return ("cls", tuple((a, b) for a, b in out))


MAXCHAR = 0x2FFFF


def cls_not(r):
    out, nxt = [], 0
    for a, b in r[1]:
        if a > nxt:
            out.append((nxt, a - 1))
        nxt = b + 1
    if nxt <= MAXCHAR:
        out.append((nxt, MAXCHAR))
    return ("cls", tuple(out))


def cls_sub(a, b):
    """class inclusion"""
    return all(any(lo <= x and y <= hi for lo, hi in b[1]) for x, y in a[1])


def cls_union(cs):
    rs = sorted(r for c in cs for r in c[1])
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return ("cls", tuple((a, b) for a, b in out))


def cls_meet(a, b):
    return cls_not(cls_union([cls_not(a), cls_not(b)]))


def star(r):
    return ("star", r)


def re_to_py(r):
    import re as _re

    k = r[0]
    if k == "cls":
        if not r[1]:
            return "(?!)"
        return "[" + "".join(
            _re.escape(chr(a)) + ("-" + _re.escape(chr(b)) if b > a else "") for a, b in r[1]
        ) + "]"
    if k == "lit":
        return _re.escape(r[1])
    if k in ("star", "plus", "opt"):
        return "(?:%s)%s" % (re_to_py(r[1]), {"star": "*", "plus": "+", "opt": "?"}[k])
    if k == "cat":
        return "".join("(?:%s)" % re_to_py(x) for x in r[1:])
    if k == "alt":
        return "(?:" + "|".join(re_to_py(x) for x in r[1:]) + ")"
    if k == "loop":
        return "(?:%s){%d,%d}" % (re_to_py(r[3]), r[1], r[2])
    if k == "all":
        return "(?s:.*)"
    raise KeyError(k)


def re_match(s, r):
    import re as _re

    return _re.fullmatch(re_to_py(r), s, _re.S) is not None


# ---------------------------------------------------------------- SMT-LIB


def sort_smt(s):
    if s == STR:
        return "String"
    if isinstance(s, str):
        return s
    if s[0] == "BV":
        return "(_ BitVec %d)" % s[1]
    if s[0] == "Seq":
        return "(Seq %s)" % sort_smt(s[1])
    return "|%s|" % s[1]


def str_smt(v):
    out = []
    for ch in v:
        o = ord(ch)
        if o < 32 or o > 126 or ch in '"\\':
            out.append("\\u{%x}" % o)
        else:
            out.append(ch)
    return '"' + "".join(out) + '"'


def re_smt(r):
    k = r[0]
    if k == "cls":
        if not r[1]:
            return "re.none"
        rs = ["(re.range %s %s)" % (str_smt(chr(a)), str_smt(chr(b))) if a != b else "(str.to_re %s)" % str_smt(chr(a)) for a, b in r[1]]
        return rs[0] if len(rs) == 1 else "(re.union %s)" % " ".join(rs)
    if k == "lit":
        return "(str.to_re %s)" % str_smt(r[1])
    if k == "star":
        return "(re.* %s)" % re_smt(r[1])
    if k == "plus":
        return "(re.+ %s)" % re_smt(r[1])
    if k == "opt":
        return "(re.opt %s)" % re_smt(r[1])
    if k == "cat":
        return "(re.++ %s)" % " ".join(re_smt(x) for x in r[1:])
    if k == "alt":
        return "(re.union %s)" % " ".join(re_smt(x) for x in r[1:])
    if k == "loop":
        return "((_ re.loop %d %d) %s)" % (r[1], r[2], re_smt(r[3]))
    if k == "all":
        return "re.all"
    raise KeyError(k)


STR_OP = {"++": "str.++", "len": "str.len", "substr": "str.substr", "contains": "str.contains",
          "prefixof": "str.prefixof", "suffixof": "str.suffixof", "indexof": "str.indexof",
          "replace_all": "str.replace_all", "replace1": "str.replace", "at": "str.at",
          "to_code": "str.to_code", "from_code": "str.from_code", "to_lower": "str.to_lower", "to_upper": "str.to_upper"}
SEQ_OP = {"++": "seq.++", "contains": "seq.contains", "len": "seq.len", "substr": "seq.extract", "nth": "seq.nth"}


def _node(t, ref):
    op = t.op
    if op == "const":
        if t.sort == BOOL:
            return "true" if t.val else "false"
        if t.sort == INT:
            return str(t.val) if t.val >= 0 else "(- %d)" % -t.val
        if t.sort == STR:
            return str_smt(t.val)
        return "(_ bv%d %d)" % (t.val, t.sort[1])
    if op == "var":
        return "|%s|" % t.val
    a = " ".join(ref(x) for x in t.args)
    if op == "uf":
        return "(|%s| %s)" % (t.val, a) if t.args else "|%s|" % t.val
    if op == "ctor":
        return "(|%s| %s)" % (t.val, a) if t.args else "|%s|" % t.val
    if op == "sel":
        return "(|%s| %s)" % (t.val, a)
    if op == "is":
        return "((_ is |%s|) %s)" % (t.val, a)
    if op == "bv":
        return "(%s %s)" % (t.val, a)
    if op == "bv2nat":
        return "(bv2nat %s)" % a
    if op == "int2bv":
        return "((_ int2bv %d) %s)" % (t.sort[1], a)
    if op == "unit":
        return "(seq.unit %s)" % a
    if op == "seq.empty":
        return "(as seq.empty %s)" % sort_smt(t.sort)
    if op == "in_re":
        return "(str.in_re %s %s)" % (a, re_smt(t.val))
    if op in ("++", "len", "substr", "nth", "at", "contains", "prefixof", "suffixof", "indexof",
              "replace_all", "replace1", "to_code", "from_code", "to_lower", "to_upper"):
        s0 = t.args[0].sort
        table = STR_OP if s0 == STR or op in ("from_code",) else SEQ_OP
        return "(%s %s)" % (table[op], a)
    if op == "<=" or op in ("=", "and", "or", "not", "ite", "+", "*", "div", "mod"):
        return "(%s %s)" % (op, a)
    raise KeyError(op)


def subterms(roots):
    seen = set()
    order = []
    stack = [(r, False) for r in roots]
    while stack:
        t, done = stack.pop()
        if done:
            order.append(t)
            continue
        if t in seen:
            continue
        seen.add(t)
        stack.append((t, True))
        for a in t.args:
            if a not in seen:
                stack.append((a, False))
    return order


def script(assertions, values=(), logic="ALL"):
    """SMT-LIB script that checks the conjunction of the assertions"""
    order = subterms(list(assertions) + list(values))
    out = ["(set-logic %s)" % logic]
    if values:
        out.insert(0, "(set-option :produce-models true)")
    # datatypes
    need = set()

    def need_sort(s):
        if is_seq(s):
            need_sort(s[1])
        elif is_dt(s) and s[1] not in need:
            need.add(s[1])
            for c, sels in DTS[s[1]].items():
                for _, ss in sels:
                    need_sort(ss)

    ufs = set()
    for t in order:
        need_sort(t.sort)
        if t.op == "uf":
            ufs.add(t.val)
            for s in UFS[t.val][0]:
                need_sort(s)
    if need:
        names = sorted(need)
        out.append(
            "(declare-datatypes (%s) (%s))"
            % (
                " ".join("(|%s| 0)" % n for n in names),
                " ".join(
                    "(%s)" % " ".join(
                        "(|%s| %s)" % (c, " ".join("(|%s| %s)" % (n, sort_smt(s)) for n, s in sels)) if sels else "(|%s|)" % c
                        for c, sels in DTS[dn].items()
                    )
                    for dn in names
                ),
            )
        )
    for u in sorted(ufs):
        a, r = UFS[u]
        out.append("(declare-fun |%s| (%s) %s)" % (u, " ".join(map(sort_smt, a)), sort_smt(r)))
    uses = {}
    for t in order:
        for a in t.args:
            uses[a] = uses.get(a, 0) + 1
    names = {}

    def ref(t):
        return names[t]

    for t in order:
        if t.op == "var":
            out.append("(declare-const |%s| %s)" % (t.val, sort_smt(t.sort)))
        s = _node(t, ref)
        if t.op in ("const", "var") or (uses.get(t, 0) <= 1 and len(s) < 2000):
            names[t] = s
        else:
            out.append("(define-fun $%d () %s %s)" % (t.id, sort_smt(t.sort), s))
            names[t] = "$%d" % t.id
    for a in assertions:
        out.append("(assert %s)" % names[a])
    out.append("(check-sat)")
    if values:
        out.append("(get-value (%s))" % " ".join(names[v] for v in values))
    return "\n".join(out) + "\n"
