"""Models of the str and bytes methods on symbolic strings.

Characters of str are limited to U+0000..U+2FFFF (the SMT-LIB alphabet); bytes
are strings of characters up to U+00FF."""

from . import terms as T
from . import axioms
from .core import *  # noqa: F401,F403
from .interp import is_concrete, kind_of, tint, tbool, tstr

ASCII = ("cls", ((0, 127),))
ASCII_STAR = T.star(ASCII)
BYTES_STAR = T.star(("cls", ((0, 255),)))
WS_STR = T.cls_of_set({c for c in range(0x3001) if chr(c).isspace()})
WS_BYTES = T.cls_of_set({9, 10, 11, 12, 13, 32})


def ws(kind):
    return WS_STR if kind == "str" else WS_BYTES


def is_ascii(t):
    if T.is_const(t):
        return T.bool_(all(ord(c) < 128 for c in t.val))
    if t.op == "++":
        return T.and_(*[is_ascii(x) for x in t.args])
    if t.op == "uf" and t.val in ASCII_UF:
        return T.TRUE
    if t.op in ("to_upper", "to_lower"):
        return is_ascii(t.args[0])
    if t.op in ("substr", "at") and is_ascii(t.args[0]) is T.TRUE:
        return T.TRUE
    return T.in_re(t, ASCII_STAR)


ASCII_UF = set()

for _n in ("utf8enc", "utf8dec", "lower_u", "upper_u"):
    T.declare_uf(_n, (T.STR,), T.STR)
for _n in ("utf8dec_ok", "utf8enc_ok"):
    T.declare_uf(_n, (T.STR,), T.BOOL)
# str.lower() gives no character A-Z, str.upper() no a-z (checked for every code point; str.lower() maps character by character but for the final sigma)
CHARS_UF["lower_u"] = T.cls_not(("cls", ((65, 90),)))
CHARS_UF["upper_u"] = T.cls_not(("cls", ((97, 122),)))


@axioms.on("utf8enc", "utf8dec")
def _ax_utf8(t):
    s = t.args[0]
    out = [T.implies(is_ascii(s), T.eq(t, s))]
    if t.val == "utf8enc":
        out.append(T.implies(T.app("utf8enc_ok", s), T.and_(T.app("utf8dec_ok", t), T.eq(T.app("utf8dec", t), s))))
        out.append(T.implies(is_ascii(t), T.eq(t, s)))
    else:
        out.append(T.implies(T.app("utf8dec_ok", s), T.and_(T.app("utf8enc_ok", t), T.eq(T.app("utf8enc", t), s))))
    return out


@axioms.on("utf8dec_ok", "utf8enc_ok")
def _ax_utf8ok(t):
    return [T.implies(is_ascii(t.args[0]), t)]


axioms.trust("utf8", "UTF-8 encoding and decoding are inverse where defined and are the identity on ASCII; encoding distributes over concatenation")


def utf8enc(I, t):
    if T.is_const(t):
        return T.str_(t.val.encode("utf-8").decode("latin-1"))
    if t.op == "++":
        return T.concat(*[utf8enc(I, x) for x in t.args])
    if t.op == "uf" and t.val == "utf8dec" and I.ctx.entails(T.app("utf8dec_ok", t.args[0])):
        return t.args[0]
    if is_ascii(t) is T.TRUE or I.ctx.entails(is_ascii(t), timeout=0.8):
        return t
    return T.app("utf8enc", t)


def m_encode(I, s, a, kw):
    enc = (a[0] if a else kw.get("encoding", "utf-8")).lower().replace("_", "-")
    err = a[1] if len(a) > 1 else kw.get("errors", "strict")
    if is_concrete(s):
        try:
            return s.encode(enc, err)
        except UnicodeError as e:
            raise I.exc(type(e), str(e))
    t = s.t
    if enc in ("utf-8", "utf8"):
        if is_ascii(t) is not T.TRUE and not I.ctx.entails(is_ascii(t), timeout=0.8):
            ok = enc_ok(I, t)
            if not I.ctx.branch(ok):
                raise I.exc(UnicodeEncodeError, "surrogates")
        return mkstr(utf8enc(I, t), "bytes")
    if enc in ("ascii", "us-ascii") and err == "strict":
        if not I.ctx.branch(is_ascii(t)):
            raise I.exc(UnicodeEncodeError, "not ASCII")
        return mkstr(t, "bytes")
    raise Unsupported("encode " + enc)


def enc_ok(I, t):
    if t.op == "++":
        return T.and_(*[enc_ok(I, x) for x in t.args])
    if T.is_const(t):
        return T.TRUE
    return T.TRUE if is_ascii(t) is T.TRUE else T.app("utf8enc_ok", t)


def m_decode(I, s, a, kw):
    s = I.plain(s)
    enc = (a[0] if a else kw.get("encoding", "utf-8")).lower().replace("_", "-")
    err = a[1] if len(a) > 1 else kw.get("errors", "strict")
    if is_concrete(s):
        try:
            return s.decode(enc, err)
        except UnicodeError as e:
            raise I.exc(type(e), str(e))
    t = s.t
    asc = is_ascii(t)
    if enc in ("utf-8", "utf8"):
        if asc is T.TRUE or I.ctx.entails(asc, timeout=0.8):
            return mkstr(t, "str")
        if err == "strict":
            if not I.ctx.branch(T.app("utf8dec_ok", t)):
                raise I.exc(UnicodeDecodeError, "invalid UTF-8")
            return mkstr(T.app("utf8dec", t), "str")
        if err == "replace":
            # lossy decoding: equal to the strict one where that exists
            name = "utf8dec_replace"
            if name not in T.UFS:
                T.declare_uf(name, (T.STR,), T.STR)

                @axioms.on(name)
                def _ax(t):
                    u = t.args[0]
                    return [T.implies(is_ascii(u), T.eq(t, u)), T.implies(is_ascii(t), T.eq(t, u)),
                            T.implies(T.app("utf8dec_ok", u), T.eq(t, T.app("utf8dec", u)))]
            return mkstr(T.app(name, t), "str")
    if enc in ("ascii", "us-ascii") and err == "strict":
        if not I.ctx.branch(asc):
            raise I.exc(UnicodeDecodeError, "not ASCII")
        return mkstr(t, "str")
    if enc in ("latin-1", "latin1", "iso-8859-1"):
        return mkstr(t, "str")
    raise Unsupported("decode " + enc)


# ---------------------------------------------------------------- stripping

STRIP = {}  # uf name -> (class, side)


def strip_uf(cls, side):
    name = "strip#%s#%s" % (side, "".join("%x-%x," % r for r in cls[1]) if len(cls[1]) < 4 else ("ws" if cls == WS_STR else "wsb" if cls == WS_BYTES else "c%d" % abs(hash(cls))))
    if name not in T.UFS:
        T.declare_uf(name, (T.STR,), T.STR)
        T.declare_uf(name + ".l", (T.STR,), T.STR)
        T.declare_uf(name + ".r", (T.STR,), T.STR)
        STRIP[name] = (cls, side)
        CHARS_UF[name] = lambda ctx, t: ctx.chars(t.args[0])

        @axioms.on(name)
        def ax(t, cls=cls, side=side, name=name):
            s = t.args[0]
            star, none = T.star(cls), T.cls_not(cls)
            out = []
            l = T.app(name + ".l", s) if "l" in side else T.str_("")
            r = T.app(name + ".r", s) if "r" in side else T.str_("")
            out.append(T.eq(s, T.concat(l, t, r)))
            if "l" in side:
                out += [T.in_re(l, star), T.or_(T.eq(t, T.str_("")), T.in_re(T.at(t, T.int_(0)), none))]
            if "r" in side:
                out += [T.in_re(r, star), T.or_(T.eq(t, T.str_("")), T.in_re(T.at(t, T.sub(T.length(t), T.int_(1))), none))]
            out.append(T.implies(T.in_re(s, T.star(none)), T.eq(t, s)))
            if "l" in side and "r" in side:
                out.append(T.implies(T.eq(t, T.str_("")), T.in_re(s, star)))
            if s.op == "++":
                a, b = s.args[0], s.args[-1]
                if "r" in side and T.is_const(b) and T.in_re(b, star) is T.TRUE:
                    out.append(T.eq(t, T.app(name, T.concat(*s.args[:-1]))))
                elif "l" in side and T.is_const(a) and T.in_re(a, star) is T.TRUE:
                    out.append(T.eq(t, T.app(name, T.concat(*s.args[1:]))))
                ca, cb = (T.is_const(y) and T.in_re(T.str_(y.val[i]), star) is T.FALSE for y, i in ((a, 0), (b, -1)))
                if (ca or "l" not in side) and (cb or "r" not in side):
                    out.append(T.eq(t, s))
                if side == "lr" and T.is_const(a) and T.in_re(T.str_(a.val[0]), star) is T.FALSE:
                    out.append(T.eq(t, T.app(strip_uf(cls, "r"), s)))
                if side == "lr" and T.is_const(b) and T.in_re(T.str_(b.val[-1]), star) is T.FALSE:
                    out.append(T.eq(t, T.app(strip_uf(cls, "l"), s)))
            return out

    return name


def strip_term(I, t, cls, side):
    """s.strip(cls): known ends are resolved, the rest becomes a function symbol"""
    parts = list(t.args) if t.op == "++" else [t]
    py = set()
    rng = cls[1]

    def inside(ch):
        return any(a <= ord(ch) <= b for a, b in rng)

    changed = True
    front_done = "l" not in side
    back_done = "r" not in side
    star, none = T.star(cls), T.star(T.cls_not(cls))
    while parts and not front_done:
        p = parts[0]
        if T.is_const(p):
            v = p.val
            k = 0
            while k < len(v) and inside(v[k]):
                k += 1
            if k < len(v):
                parts[0] = T.str_(v[k:])
                front_done = True
            else:
                parts.pop(0)
            continue
        if I.ctx.syn(T.in_re(p, star)) is True:
            parts.pop(0)
            continue
        if I.ctx.entails(T.in_re(p, none), timeout=0.8):
            if len(parts) == 1 or I.ctx.entails(T.gt(T.length(p), T.int_(0)), timeout=0.8):
                front_done = True
                if len(parts) == 1:
                    back_done = True
                break
        break
    while parts and not back_done:
        p = parts[-1]
        if T.is_const(p):
            v = p.val
            k = len(v)
            while k > 0 and inside(v[k - 1]):
                k -= 1
            if k > 0:
                parts[-1] = T.str_(v[:k])
                back_done = True
            else:
                parts.pop()
            continue
        if I.ctx.syn(T.in_re(p, star)) is True:
            parts.pop()
            continue
        if I.ctx.entails(T.in_re(p, none), timeout=0.8):
            if len(parts) == 1 or I.ctx.entails(T.gt(T.length(p), T.int_(0)), timeout=0.8):
                back_done = True
                if len(parts) == 1:
                    front_done = True
                break
        break
    s = T.concat_sort(T.STR, *parts)
    if not parts or (front_done and back_done) or T.is_const(s):
        if T.is_const(s):
            v = s.val
            a, b = 0, len(v)
            while "l" in side and a < b and inside(v[a]):
                a += 1
            while "r" in side and a < b and inside(v[b - 1]):
                b -= 1
            return T.str_(v[a:b])
        return s
    rest = ("" if front_done else "l") + ("" if back_done else "r")
    return T.app(strip_uf(cls, rest), s)


def _strip(side):
    def m(I, s, a, kw):
        s = I.plain(s)
        k = kind_of(s)
        if a and a[0] is not None:
            c = a[0]
            if not is_concrete(c):
                raise Unsupported("strip of symbolic characters")
            if kind_of(c) != k:
                raise I.exc(TypeError, "strip arg")
            cls = T.chars(c) if k == "str" else T.cls_of_set(set(c))
        else:
            cls = ws(k)
        if is_concrete(s):
            f = {"lr": s.strip, "l": s.lstrip, "r": s.rstrip}[side]
            return f(*a)
        return mkstr(strip_term(I, s.t, cls, side), k)

    return m


# ---------------------------------------------------------------- case


def _case(up):
    def m(I, s, a, kw):
        if is_concrete(s):
            return s.upper() if up else s.lower()
        k = s.kind
        return mkstr(T.concat_sort(T.STR, *[case_term(I, p, up, k) for p in (s.t.args if s.t.op == "++" else (s.t,))]), k)

    return m


def case_term(I, t, up, kind):
    if T.is_const(t):
        return T.str_(t.val.upper() if up else t.val.lower())
    asc = is_ascii(t)
    if kind == "bytes" or asc is T.TRUE or I.ctx.branch(asc):
        c = I.ctx.chars(t.args[0] if t.op in ("to_upper", "to_lower") else t)
        if c is not None and t.op not in ("to_upper", "to_lower") and not any(lo <= (90 if not up else 122) and hi >= (65 if not up else 97) for lo, hi in c[1]):
            return t  # no letter of the other case
        if c is not None and not up and t.op == "to_upper" and not any(lo <= 90 and hi >= 65 for lo, hi in c[1]):
            return t.args[0]
        return T.to_upper(t) if up else T.to_lower(t)
    return T.app("upper_u" if up else "lower_u", t)


# ---------------------------------------------------------------- the rest


def m_startswith(I, s, a, kw):
    s = I.plain(s)
    if len(a) > 1:
        raise Unsupported("startswith with bounds")
    p = a[0]
    if isinstance(p, tuple):
        return mkbool(T.or_(*[T.prefixof(tstr(x), tstr(s)) for x in p]))
    if kind_of(p) != kind_of(s):
        raise I.exc(TypeError, "startswith arg")
    return mkbool(T.prefixof(tstr(p), tstr(s)))


def m_endswith(I, s, a, kw):
    s = I.plain(s)
    if len(a) > 1:
        raise Unsupported("endswith with bounds")
    p = a[0]
    if isinstance(p, tuple):
        return mkbool(T.or_(*[T.suffixof(tstr(x), tstr(s)) for x in p]))
    if kind_of(p) != kind_of(s):
        raise I.exc(TypeError, "endswith arg")
    return mkbool(T.suffixof(tstr(p), tstr(s)))


def m_join(I, s, a, kw):
    s = I.plain(s)
    k = kind_of(s)
    v = a[0]
    if not (isinstance(v, Ref) and v.kind == "list") and not isinstance(v, tuple):
        v = I.to_list(v)
    items = v if isinstance(v, tuple) else I.items(v)
    if not items:
        return "" if k == "str" else b""
    sep = tstr(s)
    if any(isinstance(x, Chunk) for x in items):
        from . import spec

        sh = I.items_shape(items)
        if sh is None or sh.a is None or sh.a.k != k:
            raise Unsupported("join of a list of unknown strings")
        seq = I.encode_items(items, sh)
        return mkstr(spec.join(sep, seq), k)
    out = []
    for i, x in enumerate(items):
        if kind_of(x) != k:
            raise I.exc(TypeError, "sequence item: expected %s" % k)
        if i:
            out.append(sep)
        out.append(tstr(x))
    return mkstr(T.concat_sort(T.STR, *out), k)


def m_split(I, s, a, kw):
    s = I.plain(s)
    k = kind_of(s)
    if is_concrete(s) and is_concrete(tuple(a)) and not kw:
        return I.lift(s.split(*a))
    if a and a[0] is not None or kw:
        raise Unsupported("split with a separator")
    from . import spec

    # constant tokens at the front are split off
    t = tstr(s)
    seq = spec.split_ws(I, t, k)
    items = []
    for p in (seq.args if seq.op == "++" else (seq,)):
        if p.op == "unit":
            items.append(mkstr(p.args[0], k))
        elif p.op != "seq.empty":
            items.append(Chunk(p, Sh(k)))
    return I.new_list(items)


def m_partition(I, s, a, kw):
    s = I.plain(s)
    k = kind_of(s)
    sep = a[0]
    t, p = tstr(s), tstr(sep)
    if not T.is_const(p) or not p.val:
        raise Unsupported("partition")
    if t.op == "++" and T.is_const(t.args[0]) and p.val in t.args[0].val:
        i = t.args[0].val.index(p.val)
        v = t.args[0].val
        return (mkstr(T.str_(v[:i]), k), sep, mkstr(T.concat_sort(T.STR, T.str_(v[i + len(p.val):]), *t.args[1:]), k))
    i = T.indexof(t, p, T.int_(0))
    if I.ctx.branch(T.contains(t, p)):
        I.ctx.assume(T.le(T.int_(0), i))
        j = T.add(i, T.int_(len(p.val)))
        return (mkstr(T.substr(t, T.int_(0), i), k), sep, mkstr(T.substr(t, j, T.sub(T.length(t), j)), k))
    e = mkstr(T.str_(""), k)
    return (s, e, e)


def m_rpartition(I, s, a, kw):
    s = I.plain(s)
    r = m_rfind(I, s, [a[0]], {})
    e = mkstr(T.str_(""), kind_of(s))
    if not I.truth(mkbool(T.ge(tint(r), T.int_(0)))):
        return (e, e, s)
    from . import arith
    import ast

    end = I.binop(ast.Add(), r, 1)
    return (arith.getslice(I, s, slice(None, r, None)), a[0], arith.getslice(I, s, slice(end, None, None)))


T.declare_uf("rfind", (T.STR, T.STR), T.INT)


@axioms.on("rfind")
def _ax_rfind(t):
    s, p = t.args
    n = T.length(p)
    rest = T.substr(s, T.add(t, T.int_(1)), T.sub(T.length(s), T.add(t, T.int_(1))))
    return [T.le(T.int_(-1), t), T.le(t, T.sub(T.length(s), n)) if not T.is_const(s) or True else T.TRUE,
            T.implies(T.contains(s, p), T.and_(T.ge(t, T.int_(0)), T.eq(T.substr(s, t, n), p), T.not_(T.contains(rest, p)))),
            T.implies(T.ge(t, T.int_(0)), T.contains(s, p))]


def m_rfind(I, s, a, kw):
    s = I.plain(s)
    if len(a) > 1:
        raise Unsupported("rfind bounds")
    t, p = tstr(s), tstr(a[0])
    if not T.is_const(p) or len(p.val) != 1:
        raise Unsupported("rfind of a longer string")
    ps = list(t.args) if t.op == "++" else [t]
    tail = T.int_(0)
    # strip trailing parts that cannot contain the character
    none = T.star(T.cls_not(T.chars(p.val)))
    while ps:
        x = ps[-1]
        if T.is_const(x):
            i = x.val.rfind(p.val)
            if i >= 0:
                return mkint(T.add(T.length(T.concat_sort(T.STR, *ps[:-1])), T.int_(i)))
        elif not I.ctx.entails(T.in_re(x, none), timeout=3):
            break
        ps.pop()
    if not ps:
        return -1
    rest = T.concat_sort(T.STR, *ps)
    if len(ps) == 1:
        cut = I.ctx.store.get(("cut", rest, p))
        if cut is None:
            if not I.ctx.branch(T.contains(rest, p)):
                return -1
            a, c = I.ctx.fresh("before", T.STR), I.ctx.fresh("after", T.STR)
            I.ctx.assume(T.in_re(c, none))
            whole = T.concat(a, p, c)
            I.ctx.assume(T.mk("=", tuple(sorted((rest, whole), key=lambda x: x.id)), T.BOOL))
            cls = I.ctx.chars(rest)
            if cls is not None:
                I.ctx.assume(T.and_(T.in_re(a, T.star(cls)), T.in_re(c, T.star(cls))))
            I.ctx.store[("cut", rest, p)] = cut = (a, c)
            I.ctx.store[("cut", t)] = whole if t is rest else T.concat(whole, *t.args[len(ps):])
        return mkint(T.length(cut[0]))
    r = T.app("rfind", rest, p)
    I.ctx.assume(T.ge(r, T.int_(-1)))
    return mkint(r)


def m_find(I, s, a, kw):
    s = I.plain(s)
    t, p = tstr(s), tstr(a[0])
    return mkint(T.indexof(t, p, tint(a[1]) if len(a) > 1 else T.int_(0)))


def m_index(I, s, a, kw):
    s = I.plain(s)
    t, p = tstr(s), tstr(a[0])
    one = T.is_const(t) and not T.is_const(p) and I.ctx.entails(T.eq(T.length(p), T.int_(1)))
    known = I.ctx.chars(p) if one else None
    if known is not None and T.cls_sub(known, T.chars(t.val)):
        pass  # a character of the string
    elif not I.ctx.branch(T.in_re(p, T.chars(t.val)) if one else T.contains(t, p)):
        raise I.exc(ValueError, "substring not found")
    return mkint(T.indexof(t, p, T.int_(0)))


def m_replace(I, s, a, kw):
    s = I.plain(s)
    k = kind_of(s)
    if len(a) > 2:
        raise Unsupported("replace with a count")
    t, x, y = tstr(s), tstr(a[0]), tstr(a[1])
    if T.is_const(x) and x.val:
        return mkstr(T.replace_all(t, x, y), k)
    raise Unsupported("replace")


def m_hex(I, s, a, kw):
    if a or kw:
        raise Unsupported("hex with a separator")
    I.ctx.exact = False  # the digits are not related to the bytes
    return mkstr(T.app("hexstr", tstr(s)), "str")


T.declare_uf("hexstr", (T.STR,), T.STR)
T.LEN_RULE["hexstr"] = lambda t: T.mul(T.int_(2), T.length(t.args[0]))
CHARS_UF["hexstr"] = T.chars("0123456789abcdef")
ASCII_UF.add("hexstr")


def _cls_pred(f, what):
    cls = T.cls_of_set({c for c in range(T.MAXCHAR + 1) if f(chr(c))})

    def m(I, s, a, kw):
        t = tstr(s)
        return mkbool(T.and_(T.gt(T.length(t), T.int_(0)), T.in_re(t, T.star(cls))))

    return m


def m_count(I, s, a, kw):
    raise Unsupported("count on a symbolic string")


def m_splitlines(I, s, a, kw):
    if a or kw:
        raise Unsupported("splitlines(keepends)")
    from . import spec

    if is_concrete(s):
        return I.lift(s.splitlines())
    return I.new_list([Chunk(spec.splitlines(tstr(s), kind_of(s)), Sh(kind_of(s)))])


def m_removeprefix(I, s, a, kw):
    k = kind_of(s)
    t, p = tstr(s), tstr(a[0])
    if I.ctx.branch(T.prefixof(p, t)):
        n = T.length(p)
        return mkstr(T.substr(t, n, T.sub(T.length(t), n)), k)
    return s


def m_format(I, s, a, kw):
    if not is_concrete(s):
        raise Unsupported("format of a symbolic template")
    import string

    parts = []
    auto = 0
    for lit, field, spec_, conv in string.Formatter().parse(s):
        parts.append(T.str_(lit))
        if field is None:
            continue
        if field == "":
            x = a[auto]
            auto += 1
        elif field.isdigit():
            x = a[int(field)]
        elif field in kw:
            x = kw[field]
        else:
            raise Unsupported("format field " + field)
        parts.append(tstr(I.stubs.format_value(I, x, ord(conv) if conv else -1, spec_ or "")))
    return mkstr(T.concat_sort(T.STR, *parts), "str")


def m_zfill(I, s, a, kw):
    raise Unsupported("zfill")


COMMON = {"strip": _strip("lr"), "lstrip": _strip("l"), "rstrip": _strip("r"), "lower": _case(False), "upper": _case(True),
          "startswith": m_startswith, "endswith": m_endswith, "join": m_join, "split": m_split, "partition": m_partition, "rpartition": m_rpartition,
          "rfind": m_rfind, "find": m_find, "index": m_index, "replace": m_replace, "splitlines": m_splitlines,
          "removeprefix": m_removeprefix, "count": m_count}


def tables():
    s = dict(COMMON)
    s.update({"encode": m_encode, "format": m_format, "isspace": _LazyPred("isspace"), "isdigit": _LazyPred("isdigit"),
              "isupper": _unsup("isupper"), "islower": _unsup("islower"), "isascii": lambda I, s, a, kw: mkbool(is_ascii(tstr(s)))})
    b = dict(COMMON)
    b.update({"decode": m_decode, "hex": m_hex, "isascii": lambda I, s, a, kw: mkbool(is_ascii(tstr(s)))})
    return s, b


def _unsup(n):
    def f(I, s, a, kw):
        raise Unsupported("method " + n)

    return f


class _LazyPred:
    def __init__(self, n):
        self.n, self.f = n, None

    def __call__(self, I, s, a, kw):
        if self.f is None:
            self.f = _cls_pred(lambda c: getattr(c, self.n)(), self.n)
        return self.f(I, s, a, kw)


def concrete_first(tab):
    """on concrete operands the real method decides"""
    out = {}
    for n, f in tab.items():
        def g(I, s, a, kw, n=n, f=f):
            if is_concrete(s) and isinstance(s, (str, bytes)) and all(is_concrete(x) for x in a) and all(is_concrete(x) for x in kw.values()):
                try:
                    return I.lift(getattr(s, n)(*a, **kw))
                except Exception as e:
                    raise I.exc(type(e), *e.args)
            return f(I, s, list(a), kw)

        out[n] = g
    return out
