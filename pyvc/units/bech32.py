"""C11, C12: Bech32.

Five-bit groups are integers of a sequence; the checksum register is a bit vector."""

from .. import terms as T
from .. import arith, axioms, libs, loops, spec, strs
from ..core import *  # noqa: F401,F403
from ..interp import kind_of, tstr, tint, tbool
from ..unit import unit
from .basic import S, N, ln

M = "age.primitives.bech32."
SEQI = T.SEQ(T.INT)
BV = T.BV64
GEN = [0x3B6A57B2, 0x26508E6D, 0x1EA119FA, 0x3D4233DD, 0x2A1462B3]
ALPHABET = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"


def bx(a, b):
    return T.bv("bvxor", a, b)


def bstep(c, v):
    """one step of the BCH checksum of BIP 173: c*x + v modulo the generator polynomial, c of 30 and v of 5 bits"""
    r = bx(T.bv("bvshl", T.bv("bvand", c, T.bvc(0x1FFFFFF)), T.bvc(5)), v)
    for i in range(5):
        bit = T.bv("bvand", T.bv("bvlshr", c, T.bvc(25 + i)), T.bvc(1))
        r = bx(r, T.ite(T.eq(bit, T.bvc(1)), T.bvc(GEN[i]), T.bvc(0)))
    return r


def fits(c, bits):
    return T.mk("bv", (c, T.bvc((1 << bits) - 1)), T.BOOL, "bvule")


@axioms.define("PM", (BV, SEQI), BV)
def _pm(t):
    """the checksum register after the groups of the sequence"""
    c, s = t.args
    return [T.implies(T.eq(T.length(s), N(0)), T.eq(t, c)),
            T.implies(T.gt(T.length(s), N(0)), T.eq(t, T.app("PM", bstep(c, T.int2bv(T.nth(s, N(0)))), T.substr(s, N(1), T.sub(T.length(s), N(1))))))]


def five(seqs):
    """every element of the sequences is a five-bit number"""

    def f(t):
        if t.args[0] in seqs or t.args[0].op == "substr" and t.args[0].args[0] in seqs:
            i = t.args[1]
            return [T.implies(T.and_(T.le(N(0), i), T.lt(i, T.length(t.args[0]))), T.and_(T.le(N(0), t), T.le(t, N(31))))]
        return []

    return axioms.extra("nth", f)


def inv_pm(L):
    u = L.I.unit_vars
    if "pm" not in u or L.seq is None:
        return []
    s = u["pm"]
    out = []
    for loc, sh in L.locs("int"):
        def g(L, loc=loc):
            v = L.val(loc)
            if v is None or v.op != "bv2nat":
                return None
            k = L.k()
            return T.eq(T.app("PM", v.args[0], T.substr(s, k, T.sub(T.length(s), k))), T.app("PM", T.bvc(1), s))

        out.append(("the register and the rest determine the checksum", g))
    return out


@unit(("C11", "C12?"), "the checksum register", hints=[inv_pm])
def polymod(V):
    vals, s = V.list("values", SInt_)
    V.I.unit_vars = {"pm": s}
    with five([s]):
        o = V.attempt(M + "_bech32_polymod", vals)
        if not o.ok:
            return V.fail("every sequence of groups has a checksum (%s)" % o.why())
        V.prove("the result is the BIP 173 checksum register", T.eq(tint(o.val), T.bv2nat(T.app("PM", T.bvc(1), s))))


# ---------------------------------------------------------------- regrouping bits


def sh_(c, n):
    return T.bv("bvshl", c, T.bvc(n))


def sr(c, n):
    return T.bv("bvlshr", c, T.bvc(n))


def low(c, n):
    return T.bv("bvand", c, T.bvc((1 << n) - 1))


def nat(c):
    return T.bv2nat(c)


def tail(s, k=1):
    return T.substr(s, N(k), T.sub(T.length(s), N(k)))


def by_value(b, cases, dflt):
    r = dflt
    for k, x in cases:
        r = T.ite(T.eq(b, N(k)), x, r)
    return r


def cat_bits(v, x, n):
    return T.bv("bvor", sh_(v, n), x)


@axioms.define("G5", (BV, T.INT, T.STR), SEQI)
def _g5(t):
    """the five-bit groups of b pending bits v (b < 5) followed by the bytes r, zero-padded at the end"""
    v, b, r = t.args
    from ..arith import byte

    out = [T.implies(T.eq(r, S("")), T.eq(t, by_value(b, [(k, T.unit(nat(sh_(v, 5 - k)))) for k in (1, 2, 3, 4)], T.empty(SEQI))))]
    w = cat_bits(v, T.int2bv(byte(r, N(0))), 8)
    nx = tail(r)
    for k in range(5):
        n = k + 8
        head = [T.unit(nat(low(sr(w, n - 5), 5)))]
        n -= 5
        if n >= 5:
            head.append(T.unit(nat(low(sr(w, n - 5), 5))))
            n -= 5
        out.append(T.implies(T.and_(T.ne(r, S("")), T.eq(b, N(k))), T.eq(t, T.concat(*head, T.app("G5", low(w, n), N(n), nx)))))
    return out


def mask(acc, bits, top):
    r = T.bvc(0)
    for k in range(1, top + 1):
        r = T.ite(T.eq(bits, N(k)), low(acc, k), r)
    return r


def rest_of(L):
    k = L.k()
    return T.substr(L.seq, k, T.sub(T.length(L.seq), k))


def state_vars(L):
    """(register, number of pending bits) candidates"""
    ints = [loc for loc, s in L.locs("int")]
    return [(a, b) for a in ints for b in ints if a != b]


def inv_groups(L):
    u = L.I.unit_vars
    if "to5" not in u or L.seq is None or L.seq.sort != T.STR:
        return []
    out = []
    for loc, sh in L.locs("int"):
        out.append(("fewer than five bits pending", lambda L, loc=loc: None if L.val(loc) is None or L.val(loc).op == "bv2nat" else T.and_(T.le(N(0), L.val(loc)), T.le(L.val(loc), N(4)))))
    for ll, s in L.locs("list"):
        for a, b in state_vars(L):
            def g(L, ll=ll, a=a, b=b):
                l, x, y = L.val(ll), L.val(a), L.val(b)
                if l is None or x is None or y is None or x.op != "bv2nat" or l.sort != SEQI:
                    return None
                return T.eq(T.concat(l, T.app("G5", mask(x.args[0], y, 4), y, rest_of(L))), T.app("G5", T.bvc(0), N(0), L.seq))

            out.append(("groups so far and groups of the rest", g))
    return out


@unit(("C11", "C12?"), "bytes to five-bit groups", hints=[inv_groups])
def to5(V):
    x = V.bytes("data")
    V.I.unit_vars = {"to5": True}
    o = V.attempt(M + "_convertbits", x, 8, 5, True)
    if not o.ok:
        return V.fail("every byte string is regrouped (%s)" % o.why())
    V.prove("the result is the five-bit groups of the bytes", T.eq(V.I.encode_items(V.I.items(o.val), SList_(SInt_)), T.app("G5", T.bvc(0), N(0), x.t)))


def decode_step(t, fn, at_end):
    """facts for a function of (pending value, number of pending bits < 8, groups)"""
    w, c, s = t.args
    out = [T.implies(T.eq(T.length(s), N(0)), at_end(w, c))]
    x = T.int2bv(T.nth(s, N(0)))
    y = cat_bits(w, x, 5)
    nx = tail(s)
    for k in range(8):
        n = k + 5
        emit = None
        if n >= 8:
            emit, n = nat(low(sr(y, n - 8), 8)), n - 8
        out.append(T.implies(T.and_(T.gt(T.length(s), N(0)), T.eq(c, N(k))), fn(emit, low(y, n), N(n), nx)))
    return out


@axioms.define("G8", (BV, T.INT, SEQI), SEQI)
def _g8(t):
    """the bytes made of c pending bits w (c < 8) followed by five-bit groups; an incomplete byte at the end is dropped"""

    def fn(emit, w, c, nx):
        more = T.app("G8", w, c, nx)
        r = more if emit is None else T.concat(T.unit(emit), more)
        return T.and_(T.eq(t, r), T.eq(spec.bytes_of(t), spec.bytes_of(r)))

    return decode_step(t, fn, lambda w, c: T.and_(T.eq(t, T.empty(SEQI)), T.eq(spec.bytes_of(t), S(""))))


@axioms.define("G8OK", (BV, T.INT, SEQI), T.BOOL)
def _g8ok(t):
    """the bits left over at the end are fewer than five and all zero"""
    return decode_step(t, lambda emit, w, c, nx: T.eq(t, T.app("G8OK", w, c, nx)), lambda w, c: T.eq(t, T.and_(T.lt(c, N(5)), T.eq(w, T.bvc(0)))))


def inv_bytes(L):
    u = L.I.unit_vars
    if "to8" not in u or L.seq is None or L.seq.sort != SEQI:
        return []
    out = []
    for loc, sh in L.locs("int"):
        out.append(("fewer than eight bits pending", lambda L, loc=loc: None if L.val(loc) is None or L.val(loc).op == "bv2nat" else T.and_(T.le(N(0), L.val(loc)), T.le(L.val(loc), N(7)))))
    for a, b in state_vars(L):
        def ok(L, a=a, b=b):
            x, y = L.val(a), L.val(b)
            if x is None or y is None or x.op != "bv2nat":
                return None
            return T.eq(T.app("G8OK", mask(x.args[0], y, 7), y, rest_of(L)), T.app("G8OK", T.bvc(0), N(0), L.seq))

        out.append(("pending bits and the rest determine whether the end is clean", ok))
        for ll, s in L.locs("list"):
            def g(L, ll=ll, a=a, b=b):
                l, x, y = L.val(ll), L.val(a), L.val(b)
                if l is None or x is None or y is None or x.op != "bv2nat" or l.sort != SEQI:
                    return None
                return T.eq(T.concat(l, T.app("G8", mask(x.args[0], y, 7), y, rest_of(L))), T.app("G8", T.bvc(0), N(0), L.seq))

            out.append(("bytes so far and bytes of the rest", g))
    return out


@unit(("C12", "C11?"), "five-bit groups to bytes", hints=[inv_bytes])
def to8(V):
    x, s = V.list("groups", SInt_)
    V.I.unit_vars = {"to8": True}
    with five([s]):
        o = V.attempt(M + "_convertbits", x, 5, 8, False)
        ok = T.app("G8OK", T.bvc(0), N(0), s)
        if o.ok:
            V.prove("bits left over are fewer than five and zero", ok)
            V.prove("the result is the bytes of the groups", T.eq(V.I.encode_items(V.I.items(o.val), SList_(SInt_)), T.app("G8", T.bvc(0), N(0), s)))
        else:
            V.prove("only a bad end is refused (%s)" % o.why(), T.not_(ok))
            V.prove("the refusal is a ValueError", T.bool_(o.is_exc(ValueError)))


# ---------------------------------------------------------------- regrouping is invertible


def below(x, n):
    return T.mk("bv", (x, T.bvc((1 << n) - 1)), T.BOOL, "bvule")


def chr_(bits):
    return spec.bytes_of(T.unit(nat(bits)))


def l1_goal(w, c, v, b, r, g=None):
    g = T.app("G5", v, N(b), r) if g is None else g
    want = r if b == 0 else T.concat(T.from_code(nat(cat_bits(w, v, b))), r)
    return T.and_(T.eq(spec.bytes_of(T.app("G8", w, N(c), g)), want), T.app("G8OK", w, N(c), g))


@unit(("C11",), "lemma: bytes survive regrouping to five bits and back")
def lemma_there_and_back(V):
    """induction on the length of r; the groups are unfolded once, the regrouping of the rest is the hypothesis"""
    b = V.ctx.choose(5)
    c = (8 - b) % 8
    w, v = V.term("w", BV), V.term("v", BV)
    V.assume(below(w, c))
    V.assume(below(v, b))
    if V.ctx.choose(2) == 0:
        r = S("")
        g = T.app("G5", v, N(b), r)
        step = by_value(N(b), [(k, T.unit(nat(sh_(v, 5 - k)))) for k in (1, 2, 3, 4)], T.empty(SEQI))
    else:
        xb, nx = V.term("x", BV), V.bytes("nx").t
        V.assume(below(xb, 8))
        x = nat(xb)
        r = T.concat(T.from_code(x), nx)
        V.prove("the first byte", T.eq(T.int2bv(arith.byte(r, N(0))), xb))
        g = T.app("G5", v, N(b), r)
        y = cat_bits(v, T.int2bv(x), 8)
        n = b + 8
        head = []
        while n >= 5:
            n -= 5
            head.append(T.unit(nat(low(sr(y, n), 5))))
        more = T.app("G5", low(y, n), N(n), nx)
        step = T.concat(*head, more)
        # what regrouping these groups emits, and what it keeps
        a, m, want = w, c, ([cat_bits(w, v, b)] if b else []) + [xb]
        for h in head:
            a, m = cat_bits(a, h.args[0].args[0], 5), m + 5
            if m >= 8:
                m -= 8
                V.prove("the emitted byte", T.eq(low(sr(a, m), 8), want.pop(0)), using=[below(w, c), below(v, b), below(xb, 8)])
                a = low(a, m)
        if want:
            V.prove("the kept bits", T.eq(cat_bits(a, low(y, n), n), want.pop(0)), using=[below(w, c), below(v, b), below(xb, 8)])
    V.prove("one byte of groups", T.eq(g, step))

    def ih(t):
        w2, c2, g2 = t.args
        if r.op == "++" and g2 is more and T.is_const(c2) and (c2.val + n) % 8 == 0:
            return [T.implies(T.and_(below(w2, c2.val), below(g2.args[0], n)), l1_goal(w2, c2.val, g2.args[0], n, nx))]
        return []

    with axioms.extra("G8", ih), axioms.depth(4, "G8", "G8OK"):
        V.prove("regrouped bytes are regrouped back to the same bytes", l1_goal(w, c, v, b, r, step))


def pending(v, b, w, c):
    """the whole groups of the b + c bits v, w"""
    n, y = b + c, cat_bits(v, w, c)
    return [T.unit(nat(low(sr(y, n - 5 * k - 5), 5))) for k in range(n // 5)]


def l2_goal(v, b, w, c, s, bytes_=None):
    bytes_ = spec.bytes_of(T.app("G8", w, N(c), s)) if bytes_ is None else bytes_
    return T.implies(T.app("G8OK", w, N(c), s), T.eq(T.app("G5", v, N(b), bytes_), T.concat(*pending(v, b, w, c), s)))


@unit(("C12",), "lemma: groups that regroup cleanly are the groups of their bytes")
def lemma_canonical(V):
    """induction on the number of groups s"""
    c, b = [(0, 0), (5, 0), (2, 3), (7, 3), (4, 1), (1, 4), (6, 4), (3, 2)][V.ctx.choose(8)]
    w, v = V.term("w", BV), V.term("v", BV)
    V.assume(below(w, c))
    V.assume(below(v, b))
    if V.ctx.choose(2) == 0:
        s = T.empty(SEQI)
        V.prove("no groups left", l2_goal(v, b, w, c, s))
        return
    x, ns = V.term("x", BV), V.term("ns", SEQI)
    V.assume(below(x, 5))
    s = T.concat(T.unit(nat(x)), ns)
    y, n = cat_bits(w, x, 5), c + 5
    facts = [below(w, c), below(v, b), below(x, 5)]
    g8 = T.app("G8", w, N(c), s)
    if n < 8:
        V.prove("no byte yet", T.and_(T.eq(spec.bytes_of(g8), spec.bytes_of(T.app("G8", low(y, n), N(n), ns))), T.eq(T.app("G8OK", w, N(c), s), T.app("G8OK", low(y, n), N(n), ns))))
        V.prove("pending groups", T.and_(*[T.eq(p, q) for p, q in zip(pending(v, b, low(y, n), n), pending(v, b, w, c) + [T.unit(nat(x))])]), using=facts)
        V.assume(l2_goal(v, b, low(y, n), n, ns))
        V.prove("the groups are those of the bytes", l2_goal(v, b, w, c, s))
        return
    n -= 8
    byte, w2 = V.term("e8", BV), low(y, n)
    tl = V.bytes("tail").t
    r = T.concat(T.from_code(nat(byte)), tl)
    V.prove("the first byte", T.implies(below(byte, 8), T.eq(T.int2bv(arith.byte(r, N(0))), byte)))
    V.assume(T.eq(byte, low(sr(y, n), 8)))
    facts.append(T.eq(byte, low(sr(y, n), 8)))
    V.prove("eight bits", below(byte, 8), using=facts)
    rest = T.app("G8", w2, N(n), ns)
    V.assume(T.eq(tl, spec.bytes_of(rest)))
    V.prove("one byte", T.and_(T.eq(spec.bytes_of(g8), r), T.eq(T.app("G8OK", w, N(c), s), T.app("G8OK", w2, N(n), ns))))
    z, m, head = cat_bits(v, byte, 8), b + 8, []
    while m >= 5:
        m -= 5
        head.append(T.unit(nat(low(sr(z, m), 5))))
    v2 = low(z, m)
    V.prove("groups of this byte", T.eq(T.app("G5", v, N(b), r), T.concat(*head, T.app("G5", v2, N(m), tl))))
    V.prove("pending groups", T.and_(*[T.eq(p, q) for p, q in zip(head + pending(v2, m, w2, n), pending(v, b, w, c) + [T.unit(nat(x))])]), using=facts)
    V.assume(l2_goal(v2, m, w2, n, ns))
    V.prove("the groups are those of the bytes", l2_goal(v, b, w, c, s))


# ---------------------------------------------------------------- the checksum


@unit(("C11", "C12"), "lemma: the checksum register of a concatenation")
def lemma_append(V):
    c = V.term("c", BV)
    b = V.term("b", SEQI)
    if V.ctx.choose(2) == 0:
        V.prove("nothing first", T.eq(T.app("PM", c, T.concat(T.empty(SEQI), b)), T.app("PM", T.app("PM", c, T.empty(SEQI)), b)))
        return
    x, na = V.term("x", T.INT), V.term("na", SEQI)
    a = T.concat(T.unit(x), na)
    d = bstep(c, T.int2bv(x))
    V.assume(T.eq(T.app("PM", d, T.concat(na, b)), T.app("PM", T.app("PM", d, na), b)))  # induction on the length of a
    V.prove("one group more", T.eq(T.app("PM", c, T.concat(a, b)), T.app("PM", T.app("PM", c, a), b)))


@unit(("C11", "C12"), "lemma: the checksum register has 30 bits")
def lemma_range(V):
    c = V.term("c", BV)
    V.assume(below(c, 30))
    if V.ctx.choose(2) == 0:
        V.prove("nothing", below(T.app("PM", c, T.empty(SEQI)), 30))
        return
    x, na = V.term("x", BV), V.term("na", SEQI)
    V.assume(below(x, 5))
    d = bstep(c, x)
    V.prove("one step", below(d, 30), using=[below(c, 30), below(x, 5)])
    V.assume(below(T.app("PM", d, na), 30))
    V.prove("one group more", below(T.app("PM", c, T.concat(T.unit(nat(x)), na)), 30))


def run6(c, vs):
    for v in vs:
        c = bstep(c, v)
    return c


def checksum_groups(z):
    return [low(sr(bx(z, T.bvc(1)), 25 - 5 * i), 5) for i in range(6)]


@unit(("C11",), "lemma: a checksum verifies")
def lemma_verifies(V):
    """six groups v appended to register c give the register after six zeros, xor v; v := that register xor 1 gives 1"""
    c = V.term("c", BV)
    V.assume(below(c, 30))
    vs = [V.term("v%d" % i, BV) for i in range(6)]
    z = s = c
    shifted = T.bvc(0)
    base = [below(x, 5) for x in vs] + [below(c, 30)]
    facts = list(base)
    for f in base:
        V.assume(f)
    for i, x in enumerate(vs):
        z2, s2 = bstep(z, T.bvc(0)), bstep(s, x)
        zn, sn = V.term("z%d" % i, BV), V.term("s%d" % i, BV)
        defs = [T.eq(zn, z2), T.eq(sn, s2)]
        for f in defs:
            V.assume(f)
        shifted = bx(sh_(shifted, 5), x)
        V.prove("step %d" % i, T.and_(T.eq(sn, bx(zn, shifted)), below(zn, 30), below(sn, 30)), using=facts + defs)
        facts = base + [T.eq(sn, bx(zn, shifted)), below(zn, 30)]
        z, s = zn, sn
    V.prove("the checksum verifies", T.implies(T.and_(*[T.eq(x, y) for x, y in zip(vs, checksum_groups(z))]), T.eq(s, T.bvc(1))),
            using=facts)


@unit(("C12",), "lemma: one changed group changes the checksum register")
def lemma_typo(V):
    c, d = V.term("c", BV), V.term("d", BV)
    v, w = V.term("v", BV), V.term("w", BV)
    rng = [below(c, 30), below(d, 30), below(v, 5), below(w, 5)]
    for f in rng:
        V.assume(f)
    V.prove("different registers stay different", T.implies(T.ne(c, d), T.ne(bstep(c, v), bstep(d, v))), using=rng)
    V.prove("different groups give different registers", T.implies(T.ne(v, w), T.ne(bstep(c, v), bstep(c, w))), using=rng)
    if V.ctx.choose(2) == 0:
        V.prove("nothing left", T.implies(T.ne(c, d), T.ne(T.app("PM", c, T.empty(SEQI)), T.app("PM", d, T.empty(SEQI)))))
        return
    x, ns = V.term("x", BV), V.term("ns", SEQI)
    V.assume(T.and_(*rng, below(x, 5), T.ne(c, d)))
    c2, d2 = V.term("c2", BV), V.term("d2", BV)
    V.assume(T.and_(T.eq(c2, bstep(c, x)), T.eq(d2, bstep(d, x))))
    V.prove("one step", T.and_(T.ne(c2, d2), below(c2, 30), below(d2, 30)), using=rng + [below(x, 5), T.ne(c, d), T.eq(c2, bstep(c, x)), T.eq(d2, bstep(d, x))])
    V.assume(T.implies(T.and_(T.ne(c2, d2), below(c2, 30), below(d2, 30)), T.ne(T.app("PM", c2, ns), T.app("PM", d2, ns))))
    s = T.concat(T.unit(nat(x)), ns)
    V.prove("the rest keeps them different", T.ne(T.app("PM", c, s), T.app("PM", d, s)))


# ---------------------------------------------------------------- prefix values, checksum functions


HRP_CLIENT = '''
def hrp_values(h):
    return [x >> 5 for x in h] + [0] + [x & 31 for x in h]
'''


@unit("C11", "the values of the prefix")
def hrp_expand(V):
    h = V.str("hrp")
    V.assume(T.in_re(h.t, T.star(("cls", ((0, 127),)))))
    o = V.attempt(M + "_bech32_hrp_expand", h)
    if not o.ok:
        return V.fail("every ASCII prefix has values (%s)" % o.why())
    enc = V.meth(h, "encode", "ascii")
    want = V.call(V.attr(V.I.client(HRP_CLIENT), "hrp_values"), enc)
    V.eq("the values of BIP 173", o.val, want)


def map_range(I, part, i):
    return T.nth(part, i)


def requires_groups(I, seq, who):
    """precondition of the register: every element is a five-bit number"""
    for p in seq.args if seq.op == "++" else (seq,):
        if p.op == "seq.empty":
            continue
        if p.op == "unit":
            I.ctx.prove("%s: an element is five bits" % who, T.and_(T.le(N(0), p.args[0]), T.le(p.args[0], N(31))))
            continue
        i = I.ctx.fresh("any", T.INT)
        e = T.nth(p, i)
        I.ctx.prove("%s: every element is five bits" % who, T.implies(T.and_(T.le(N(0), i), T.lt(i, T.length(p))), T.and_(T.le(N(0), e), T.le(e, N(31)))))


def ints(I, v):
    if isinstance(v, tuple) and not v:
        return T.empty(SEQI)
    if not (isinstance(v, Ref) and v.kind == "list"):
        v = I.to_list(v)
    return I.encode_items(I.items(v), SList_(SInt_))


def of_seq(I, t, sh=None):
    return I.new_list([Chunk(t, sh or SInt_)])


def k_polymod(I, vals):
    seq = ints(I, list(vals.values())[0])
    requires_groups(I, seq, "checksum register")
    return SInt(nat(T.app("PM", T.bvc(1), seq)))


def k_convert(I, vals):
    data, frm, to, pad = [vals[k] for k in list(vals)[:4]]
    if (frm, to, pad) == (8, 5, True) and kind_of(data) == "bytes":
        g = T.app("G5", T.bvc(0), N(0), tstr(data))
        return of_seq(I, g)
    if (frm, to, pad) == (5, 8, False):
        seq = ints(I, data)
        requires_groups(I, seq, "regrouping")
        if not I.ctx.branch(T.app("G8OK", T.bvc(0), N(0), seq)):
            raise I.exc(ValueError, "refused")
        return of_seq(I, T.app("G8", T.bvc(0), N(0), seq))
    raise Unsupported("regrouping %r" % ((frm, to, pad),))


def use(V, *names):
    for n in names:
        q = M + n
        V.get(q)
        V.I.contracts[q] = {"_bech32_polymod": k_polymod, "_convertbits": k_convert}[n]


def g5_range(t):
    """lemma: the groups are five-bit numbers"""
    s, i = t.args
    out, off = [], N(0)
    for p in s.args if s.op == "++" else (s,):
        if p.op == "uf" and p.val == "G5":
            k = T.sub(i, off)
            out.append(T.implies(T.and_(T.le(N(0), k), T.lt(k, T.length(p))), T.and_(T.le(N(0), t), T.le(t, N(31)))))
        off = T.add(off, T.length(p))
    return out


@unit(("C11", "C12?"), "lemma: groups of bytes are five-bit numbers")
def lemma_g5_range(V):
    b = V.ctx.choose(5)
    v = V.term("v", BV)
    V.assume(below(v, b))
    i = V.term("i", T.INT)

    def goal(g, i, r=None):
        x = T.nth(g, i)
        return T.implies(T.and_(T.le(N(0), i), T.lt(i, T.length(g))), T.and_(T.le(N(0), x), T.le(x, N(31))))

    if V.ctx.choose(2) == 0:
        g = T.app("G5", v, N(b), S(""))
        step = by_value(N(b), [(k, T.unit(nat(sh_(v, 5 - k)))) for k in (1, 2, 3, 4)], T.empty(SEQI))
        V.prove("nothing left", T.eq(g, step))
        if step.op == "unit":
            V.prove("last group", below(step.args[0].args[0], 5), using=[below(v, b)])
            V.prove("in range", goal(g, i))
        else:
            V.prove("no group", T.eq(T.length(g), N(0)))
        return
    xb, nx = V.term("x", BV), V.bytes("nx").t
    V.assume(below(xb, 8))
    r = T.concat(T.from_code(nat(xb)), nx)
    V.prove("the first byte", T.eq(T.int2bv(arith.byte(r, N(0))), xb))
    g = T.app("G5", v, N(b), r)
    y = cat_bits(v, xb, 8)
    n, head = b + 8, []
    while n >= 5:
        n -= 5
        head.append(low(sr(y, n), 5))
    for h in head:
        V.prove("five bits", below(h, 5), using=[below(v, b), below(xb, 8)])
    rest = T.app("G5", low(y, n), N(n), nx)
    V.prove("one byte of groups", T.eq(g, T.concat(*[T.unit(nat(h)) for h in head], rest)))
    V.assume(goal(rest, T.sub(i, N(len(head)))))
    hs = [V.term("h%d" % j, T.INT) for j in range(len(head))]
    for a, h in zip(hs, head):
        V.assume(T.eq(a, nat(h)))
        V.prove("in range", T.and_(T.le(N(0), a), T.le(a, N(31))))
    V.prove("in range", T.implies(T.eq(g, T.concat(*[T.unit(a) for a in hs], rest)), goal(g, i)))


CLIENT = """
ALPHABET = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

def hrp_values(h):
    return [x >> 5 for x in h] + [0] + [x & 31 for x in h]

def characters(groups):
    return "".join([ALPHABET[g] for g in groups])

def values(text):
    return [ALPHABET.index(c) for c in text]
"""
HRP_RE = T.star(("cls", ((33, 64), (91, 126))))
ALPHABET_RE = T.star(T.chars(ALPHABET))


def client(V):
    """the reference functions, as functions of arbitrary sequences and texts"""
    m = V.I.client(CLIENT)
    gs, tx = V.term("some groups", SEQI), V.term("some text", T.STR)
    V.assume(T.in_re(tx, ALPHABET_RE))
    with five([gs]):
        j = tstr(V.call(V.attr(m, "characters"), of_seq(V.I, gs)))
    a = ints(V.I, V.call(V.attr(m, "values"), SStr(tx, "str")))
    assert j.op == "uf" and j.val == "join" and j.args[1].args == (gs,) and a.args == (tx,)
    V.hrp = lambda h: ints(V.I, V.call(V.attr(m, "hrp_values"), SStr(h, "bytes")))
    V.charmap = lambda s: loops.map_app(j.args[1].val, s)
    V.characters = lambda s: spec.join(S(""), loops.map_app(j.args[1].val, s))
    V.values = lambda t: loops.map_app(a.val, t)

    def value_range(t):
        """lemma (characters and groups): values of characters of the alphabet are five-bit numbers"""
        s, i = t.args
        if s.op == "substr":
            s = s.args[0]
        if s.op == "uf" and s.val == a.val and V.I.ctx.chars(s.args[0]) is not None and T.cls_sub(V.I.ctx.chars(s.args[0]), T.chars(ALPHABET)):
            return [T.implies(T.and_(T.le(N(0), i), T.lt(i, T.length(t.args[0]))), T.and_(T.le(N(0), t), T.le(t, N(31))))]
        return []

    V.value_range = value_range


def g5(p):
    return T.app("G5", T.bvc(0), N(0), p)


def checksum(V, seq):
    """the six checksum groups of BIP 173"""
    z = T.app("PM", T.bvc(1), T.concat(seq, *[T.unit(N(0))] * 6))
    return [T.unit(nat(x)) for x in checksum_groups(z)]


@unit(("C11", "C12?"), "encoding")
def encode(V):
    h, p = V.str("hrp"), V.bytes("payload")
    V.assume(T.in_re(h.t, HRP_RE))
    client(V)
    use(V, "_bech32_polymod", "_convertbits")
    with axioms.extra("nth", g5_range):
        o = V.attempt(M + "bech32_encode", h, p)
        if not o.ok:
            return V.fail("every byte string is encoded (%s)" % o.why())
        g = g5(p.t)
        ck = checksum(V, T.concat(V.hrp(h.t), g))
        V.prove("prefix, separator, groups, checksum", T.eq(tstr(o.val), T.concat(h.t, S("1"), V.characters(T.concat(g, *ck)))))


def one_value(V, c):
    x = T.indexof(S(ALPHABET), c, N(0))
    V.prove("one character is its first", T.eq(T.at(c, N(0)), c))
    V.prove("value of the first character", T.eq(T.nth(V.values(c), N(0)), x))
    V.prove("value of one character", T.eq(V.values(c), T.unit(x)))


@unit(("C11", "C12"), "lemma: characters and groups correspond")
def lemma_characters(V):
    client(V)
    if V.ctx.choose(2) == 0:
        if V.ctx.choose(2) == 0:
            s = T.empty(SEQI)
            V.prove("no groups", T.and_(T.eq(V.values(V.characters(s)), s), T.in_re(V.characters(s), ALPHABET_RE)))
            return
        x, ns = V.term("x", T.INT), V.term("ns", SEQI)
        V.assume(T.and_(T.le(N(0), x), T.le(x, N(31))))
        s = T.concat(T.unit(x), ns)
        rest = V.characters(ns)
        V.assume(T.and_(T.eq(V.values(rest), ns), T.in_re(rest, ALPHABET_RE), T.eq(T.length(rest), T.length(ns))))
        c = V.characters(T.unit(x))
        V.prove("a character of the alphabet", T.and_(T.eq(T.length(c), N(1)), T.in_re(c, T.chars(ALPHABET))))
        one_value(V, c)
        V.prove("its place", T.eq(T.indexof(S(ALPHABET), c, N(0)), x))
        V.prove("its value", T.eq(V.values(c), T.unit(x)))
        V.prove("groups of the characters", T.and_(T.eq(V.values(V.characters(s)), s), T.in_re(V.characters(s), ALPHABET_RE), T.eq(T.length(V.characters(s)), T.length(s))))
        return
    if V.ctx.choose(2) == 0:
        V.prove("no characters", T.eq(V.characters(V.values(S(""))), S("")))
        return
    c, nd = V.term("ch", T.STR), V.term("nd", T.STR)
    V.assume(T.and_(T.eq(T.length(c), N(1)), T.in_re(c, T.chars(ALPHABET)), T.in_re(nd, ALPHABET_RE)))
    V.assume(T.eq(V.characters(V.values(nd)), nd))
    x = T.indexof(S(ALPHABET), c, N(0))
    one_value(V, c)
    V.prove("the value of a character", T.and_(T.eq(V.values(c), T.unit(x)), T.le(N(0), x), T.le(x, N(31))))
    V.prove("the character of a value", T.eq(V.characters(T.unit(x)), c))
    V.prove("characters of the values", T.eq(T.concat(V.characters(T.unit(x)), V.characters(V.values(nd))), T.concat(c, nd)))


@unit(("C11", "C12"), "lemma: regrouped bytes are bytes")
def lemma_g8_bytes(V):
    c = V.ctx.choose(8)
    w = V.term("w", BV)
    if V.ctx.choose(2) == 0:
        V.prove("nothing left", spec.all_bytes(T.empty(SEQI)) if T.app("G8", w, N(c), T.empty(SEQI)) is None else T.eq(T.app("G8", w, N(c), T.empty(SEQI)), T.empty(SEQI)))
        return
    x, ns = V.term("x", BV), V.term("ns", SEQI)
    n, y = c + 5, cat_bits(w, x, 5)
    s = T.concat(T.unit(nat(x)), ns)
    if n < 8:
        V.prove("no byte", T.eq(T.app("G8", w, N(c), s), T.app("G8", low(y, n), N(n), ns)))
        return
    n -= 8
    e = low(sr(y, n), 8)
    V.prove("one byte", T.eq(T.app("G8", w, N(c), s), T.concat(T.unit(nat(e)), T.app("G8", low(y, n), N(n), ns))))
    V.prove("it is a byte", below(e, 8), using=[])


def g8_bytes(t):
    """lemma: regrouping gives bytes"""
    return [t] if t.args[0].op == "uf" and t.args[0].val == "G8" else []


ZERO6 = [T.unit(N(0))] * 6


def verify_facts(V, seq, ck):
    """the checksum register of seq followed by the groups ck, by the lemmas on concatenation and range;
    (register before, register after six zeros, register after ck)"""
    c = V.ctx.fresh("register", BV)
    zs = [T.bvc(0)] * 6
    V.assume(T.eq(c, T.app("PM", T.bvc(1), seq)))
    requires_groups(V.I, seq, "range of the register")
    V.assume(below(c, 30))
    V.assume(T.eq(T.app("PM", T.bvc(1), T.concat(seq, *ZERO6)), T.app("PM", c, T.concat(*ZERO6))))
    V.assume(T.eq(T.app("PM", T.bvc(1), T.concat(seq, *[T.unit(nat(x)) for x in ck])), T.app("PM", c, T.concat(*[T.unit(nat(x)) for x in ck]))))
    z, r = V.ctx.fresh("zeros", BV), V.ctx.fresh("checked", BV)
    V.assume(T.eq(z, run6(c, zs)))
    V.assume(T.eq(r, run6(c, ck)))
    with axioms.depth(7, "PM"):
        V.prove("six zeros", T.eq(T.app("PM", T.bvc(1), T.concat(seq, *ZERO6)), z))
        V.prove("six groups", T.eq(T.app("PM", T.bvc(1), T.concat(seq, *[T.unit(nat(x)) for x in ck])), r))
    return c, z, r


@unit("C11", "what was encoded decodes")
def decode_encoded(V):
    h, p = V.str("hrp").t, V.bytes("payload").t
    V.assume(T.in_re(h, HRP_RE))
    V.assume(T.and_(T.le(N(1), T.length(h)), T.le(T.length(h), N(83))))
    client(V)
    use(V, "_bech32_polymod", "_convertbits")
    with axioms.extra("nth", g5_range), axioms.extra("all_bytes", g8_bytes), axioms.extra("nth", V.value_range):
        g = g5(p)
        seq = T.concat(V.hrp(h), g)
        z0 = T.app("PM", T.bvc(1), T.concat(seq, *ZERO6))
        ck = [V.term("k%d" % i, BV) for i in range(6)]
        for k, e in zip(ck, checksum_groups(z0)):
            V.assume(T.eq(k, e))
        c, z, r = verify_facts(V, seq, ck)
        V.assume(T.implies(T.and_(*[T.eq(k, e) for k, e in zip(ck, checksum_groups(z))]), T.eq(r, T.bvc(1))))  # lemma: a checksum verifies
        V.prove("the checksum verifies", T.eq(r, T.bvc(1)))
        # the encoding, by its contract, and the lemma on characters
        cks = [T.unit(nat(k)) for k in ck]
        d = V.term("characters", T.STR)
        groups = T.concat(g, *cks)
        V.assume(T.and_(T.eq(d, V.characters(groups)), T.eq(V.values(d), groups), T.in_re(d, ALPHABET_RE), T.eq(T.length(d), T.length(groups))))
        V.assume(l1_goal(T.bvc(0), 0, T.bvc(0), 0, p, g))  # lemma: bytes survive regrouping
        V.prove("all but the checksum", T.eq(T.substr(V.values(d), N(0), T.sub(T.length(d), N(6))), g))
        V.prove("the values verify", T.eq(T.app("PM", T.bvc(1), T.concat(V.hrp(h), V.values(d))), T.bvc(1)))
        text = SStr(T.concat(h, S("1"), d), "str")
        if V.ctx.choose(2):
            text = V.meth(text, "upper")
        o = V.attempt(M + "bech32_decode", text)
        if not o.ok:
            return V.fail("an encoding is decoded (%s)" % o.why())
        V.eq("the prefix and the payload", o.val, (SStr(h, "str"), SStr(p, "bytes")))


@unit("C12", "lemma: only one checksum fits")
def lemma_unique(V):
    """six groups that take the register to 1 are the groups of (register after six zeros) xor 1"""
    c = V.term("c", BV)
    vs = [V.term("v%d" % i, BV) for i in range(6)]
    base = [below(x, 5) for x in vs] + [below(c, 30)]
    for f in base:
        V.assume(f)
    z = s = c
    shifted = T.bvc(0)
    facts = list(base)
    for i, x in enumerate(vs):
        zn, sn = V.term("z%d" % i, BV), V.term("s%d" % i, BV)
        defs = [T.eq(zn, bstep(z, T.bvc(0))), T.eq(sn, bstep(s, x))]
        for f in defs:
            V.assume(f)
        shifted = bx(sh_(shifted, 5), x)
        V.prove("step %d" % i, T.and_(T.eq(sn, bx(zn, shifted)), below(zn, 30), below(sn, 30)), using=facts + defs)
        facts = base + [T.eq(sn, bx(zn, shifted)), below(zn, 30)]
        z, s = zn, sn
    V.assume(T.eq(s, T.bvc(1)))
    V.prove("the groups are determined", T.and_(*[T.eq(x, y) for x, y in zip(vs, checksum_groups(z))]), using=facts + [T.eq(s, T.bvc(1))])


def cases(V, s):
    """(ASCII?, text in lower case, the text has one case only) as the engine sees them"""
    low_, up_ = V.meth(s, "lower"), V.meth(s, "upper")
    return tstr(low_), T.or_(T.eq(tstr(low_), s.t), T.eq(tstr(up_), s.t))


@unit("C12", "decoding is strict")
def decode_strict(V):
    s = V.str("text")
    client(V)
    use(V, "_bech32_polymod", "_convertbits")
    with axioms.extra("nth", V.value_range), axioms.extra("all_bytes", g8_bytes):
        o = V.attempt(M + "bech32_decode", s)
        if not o.ok:
            V.prove("a refusal is a ValueError (%s)" % o.why(), T.bool_(o.is_exc(ValueError)))
            return
        l, one = cases(V, s)
        h, p = tstr(V.I.getitem(o.val, 0)), tstr(V.I.getitem(o.val, 1))
        cut = V.ctx.store.get(("cut", l))
        V.prove("one case only", one)
        V.prove("visible ASCII characters only", T.in_re(s.t, T.star(("cls", ((33, 126),)))))
        V.prove("prefix length", T.and_(T.le(N(1), T.length(h)), T.le(T.length(h), N(83))))
        V.prove("prefix characters", T.in_re(h, T.star(("cls", ((33, 126),)))))
        d = V.term("characters", T.STR)
        V.assume(T.eq(d, T.substr(l, T.add(T.length(h), N(1)), T.sub(T.length(l), T.add(T.length(h), N(1))))))
        V.prove("prefix, separator, characters", T.eq(l, T.concat(h, S("1"), d)))
        V.prove("characters of the alphabet", T.in_re(d, ALPHABET_RE))
        V.prove("room for the checksum", T.le(N(6), T.length(d)))
        vals = V.values(d)
        V.prove("the checksum is right", T.eq(T.app("PM", T.bvc(1), T.concat(V.hrp(h), vals)), T.bvc(1)))
        g = T.substr(vals, N(0), T.sub(T.length(d), N(6)))
        V.prove("the end is clean", T.app("G8OK", T.bvc(0), N(0), g))
        V.prove("the payload is the bytes of the groups", T.eq(p, spec.bytes_of(T.app("G8", T.bvc(0), N(0), g))))


def decoded(V, h, d):
    """what decoding guarantees (unit "decoding is strict") for text h 1 d"""
    V.assume(T.and_(T.in_re(h, T.star(("cls", ((33, 126),)))), T.in_re(d, ALPHABET_RE), T.le(N(6), T.length(d))))
    V.assume(T.eq(T.app("PM", T.bvc(1), T.concat(V.hrp(h), V.values(d))), T.bvc(1)))


@unit("C12", "only canonical strings decode")
def decode_canonical(V):
    """from the contracts of decoding and encoding and the lemmas"""
    h, d = V.term("hrp", T.STR), V.term("characters", T.STR)
    client(V)
    with axioms.extra("nth", V.value_range):
        decoded(V, h, d)
        vals = V.values(d)
        g = T.substr(vals, N(0), T.sub(T.length(d), N(6)))
        V.assume(T.app("G8OK", T.bvc(0), N(0), g))
        p = spec.bytes_of(T.app("G8", T.bvc(0), N(0), g))
        V.assume(l2_goal(T.bvc(0), 0, T.bvc(0), 0, g))  # lemma: groups that regroup cleanly
        V.prove("the groups of the payload", T.eq(g5(p), g))
        ck = [V.term("k%d" % i, BV) for i in range(6)]
        for i, k in enumerate(ck):
            e = T.nth(vals, T.add(T.sub(T.length(d), N(6)), N(i)))
            x = V.term("e%d" % i, T.INT)
            V.assume(T.eq(x, e))
            V.prove("a checksum group", T.and_(T.le(N(0), x), T.le(x, N(31))))
            V.assume(T.and_(T.eq(x, nat(k)), below(k, 5)))  # a five-bit number has a bit vector
        V.prove("groups and checksum", T.eq(vals, T.concat(g, *[T.unit(nat(k)) for k in ck])))
        seq = T.concat(V.hrp(h), g)
        c, z, r = verify_facts(V, seq, ck)
        V.prove("the register", T.eq(r, T.bvc(1)))
        V.assume(T.implies(T.eq(r, T.bvc(1)), T.and_(*[T.eq(k, e) for k, e in zip(ck, checksum_groups(z))])))  # lemma: only one checksum fits
        z0 = T.app("PM", T.bvc(1), T.concat(seq, *ZERO6))
        V.prove("the checksum of encoding", T.and_(*[T.eq(T.unit(nat(k)), T.unit(nat(e))) for k, e in zip(ck, checksum_groups(z0))]))
        # lemma: characters and groups correspond, for the sequence of groups that is equal to the values of d
        full = T.concat(g, *[T.unit(nat(e)) for e in checksum_groups(z0)])
        V.prove("the same groups", T.eq(vals, full))
        V.assume(T.implies(T.eq(vals, full), T.eq(V.characters(full), d)))
        V.prove("encoding again gives the text in lower case", T.eq(T.concat(h, S("1"), V.characters(T.concat(g5(p), *checksum(V, T.concat(V.hrp(h), g5(p)))))), T.concat(h, S("1"), d)))


@unit("C12", "no single replacement goes unnoticed")
def decode_typo(V):
    h, a, b = V.term("hrp", T.STR), V.term("a", T.STR), V.term("b", T.STR)
    c1, c2 = V.term("c1", T.STR), V.term("c2", T.STR)
    client(V)
    for c in (c1, c2):
        V.assume(T.and_(T.eq(T.length(c), N(1)), T.in_re(c, T.chars(ALPHABET))))
    V.assume(T.and_(T.in_re(a, ALPHABET_RE), T.in_re(b, ALPHABET_RE)))
    V.assume(T.ne(c1, c2))
    with axioms.extra("nth", V.value_range):
        pre = T.concat(V.hrp(h), V.values(a))
        V.assume(T.in_re(h, T.star(("cls", ((33, 126),)))))
        r = V.term("register", BV)
        V.assume(T.eq(r, T.app("PM", T.bvc(1), pre)))
        requires_groups(V.I, pre, "range of the register")
        V.assume(below(r, 30))
        out = []
        for i, c in enumerate((c1, c2)):
            if i == 0:
                decoded(V, h, T.concat(a, c, b))
            one_value(V, c)
            x = V.term("v%d" % i, BV)
            e = T.indexof(S(ALPHABET), c, N(0))
            V.prove("a five-bit value", T.and_(T.le(N(0), e), T.le(e, N(31))))
            V.assume(T.and_(T.eq(nat(x), e), below(x, 5)))
            V.assume(T.eq(T.app("PM", T.bvc(1), T.concat(pre, T.unit(nat(x)), V.values(b))), T.app("PM", r, T.concat(T.unit(nat(x)), V.values(b)))))  # lemma: concatenation
            s = V.term("s%d" % i, BV)
            V.assume(T.eq(s, bstep(r, x)))
            V.prove("range", below(s, 30), using=[below(r, 30), below(x, 5), T.eq(s, bstep(r, x))])
            whole = T.app("PM", T.bvc(1), T.concat(V.hrp(h), V.values(T.concat(a, c, b))))
            V.prove("checksum", T.eq(T.app("PM", s, V.values(b)), whole))
            out.append((x, s))
        (x, s), (y, t) = out
        V.prove("different values", T.ne(x, y))
        V.assume(T.implies(T.ne(x, y), T.ne(s, t)))  # lemma: one changed group
        V.assume(T.implies(T.ne(s, t), T.ne(T.app("PM", s, V.values(b)), T.app("PM", t, V.values(b)))))
        V.prove("the replacement has another checksum", T.ne(whole, T.bvc(1)))
