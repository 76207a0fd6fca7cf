"""C02, C03: the payload encryption."""

from .. import terms as T
from .. import axioms
from ..core import *  # noqa: F401,F403
from ..interp import tstr, tint, tbool
from ..unit import unit
from .. import libs
from .basic import ln, S, N

B = 65536  # bytes of plaintext per chunk
C = B + 16

ENC, DEC = "age.stream.stream_encrypt", "age.stream.stream_decrypt"


def nonce(k, last):
    """11 bytes of chunk number, one byte of final flag"""
    be = S(k.val.to_bytes(11, "big").decode("latin-1")) if T.is_const(k) else T.app("be_of_int", k, N(11))
    return T.concat(be, T.ite(last, S("\x01"), S("\x00")) if not T.is_const(last) else S("\x01" if last.val else "\x00"))


def seal(key, k, last, m):
    return T.app("chacha_enc", key, nonce(k, T.bool_(last)), m, S(""))


def opened(key, k, last, c):
    return T.app("chacha_dec", key, nonce(k, T.bool_(last)), c, S(""))


def opens(key, k, last, c):
    return T.app("chacha_ok", key, nonce(k, T.bool_(last)), c, S(""))


def tail(d, n):
    return T.substr(d, N(n), T.sub(T.length(d), N(n)))


def head(d, n):
    return T.substr(d, N(0), N(n))


@axioms.define("ENCT", (T.STR, T.STR, T.INT), T.STR)
def _enct(t):
    """chunks k, k+1, ... of the rest d of a plaintext; nothing for the empty rest"""
    key, d, k = t.args
    n = T.length(d)
    return [T.implies(T.eq(n, N(0)), T.eq(t, S(""))),
            T.implies(T.and_(T.gt(n, N(0)), T.le(n, N(B))), T.eq(t, seal(key, k, True, d))),
            T.implies(T.gt(n, N(B)), T.eq(t, T.concat(seal(key, k, False, head(d, B)), T.app("ENCT", key, tail(d, B), T.add(k, N(1))))))]


@axioms.define("DECT", (T.STR, T.STR, T.INT), T.STR)
def _dect(t):
    """what the chunks k, k+1, ... in c open to"""
    key, c, k = t.args
    n = T.length(c)
    return [T.implies(T.eq(n, N(0)), T.eq(t, S(""))),
            T.implies(T.and_(T.gt(n, N(0)), T.le(n, N(C))), T.eq(t, opened(key, k, True, c))),
            T.implies(T.gt(n, N(C)), T.eq(t, T.concat(opened(key, k, False, head(c, C)), T.app("DECT", key, tail(c, C), T.add(k, N(1))))))]


@axioms.define("OKT", (T.STR, T.STR, T.INT), T.BOOL)
def _okt(t):
    """all the chunks k, k+1, ... in c open"""
    key, c, k = t.args
    n = T.length(c)
    return [T.implies(T.eq(n, N(0)), t),
            T.implies(T.and_(T.gt(n, N(0)), T.le(n, N(C))), T.eq(t, opens(key, k, True, c))),
            T.implies(T.gt(n, N(C)), T.eq(t, T.and_(opens(key, k, False, head(c, C)), T.app("OKT", key, tail(c, C), T.add(k, N(1))))))]


def payload(key, d):
    """the payload for the plaintext d"""
    return T.ite(T.eq(d, S("")), seal(key, N(0), True, S("")), T.app("ENCT", key, d, N(0)))


def blocks(c, size):
    return T.div(T.add(T.length(c), N(size - 1)), N(size))


# ---------------------------------------------------------------- invariants


def inv_enc(L):
    """the chunks so far, followed by the chunks of the rest, are the payload"""
    u = L.I.unit_vars
    key, d = u["key"], u["data"]
    out = []
    for loc, sh in L.locs("bytes"):
        e = L.entry(loc)
        if e is None:
            continue

        def f(L, loc=loc, e=e):
            v = L.val(loc)
            if v is None:
                return None
            k = L.k()
            o = T.scale(B, k)
            rest = T.substr(d, o, T.sub(T.length(d), o))
            return T.eq(T.concat(v, T.app("ENCT", key, rest, k)), T.app("ENCT", key, d, N(0)))

        out.append(("chunks so far and chunks of the rest make up the payload (%s)" % str(loc[-1]), f))
    return out


def inv_dec(L):
    u = L.I.unit_vars
    key, d = u["key"], u["data"]
    out = []

    def rest(L):
        o = T.scale(C, L.k())
        return T.substr(d, o, T.sub(T.length(d), o))

    out.append(("the rest opens iff the whole opens", lambda L: T.eq(T.app("OKT", key, rest(L), L.k()), T.app("OKT", key, d, N(0)))))
    for loc, sh in L.locs("bytes"):
        if L.entry(loc) is None:
            continue

        def f(L, loc=loc):
            v = L.val(loc)
            if v is None:
                return None
            return T.eq(T.concat(v, T.app("DECT", key, rest(L), L.k())), T.app("DECT", key, d, N(0)))

        out.append(("opened chunks and opening of the rest make up the opening (%s)" % str(loc[-1]), f))
    return out


# ---------------------------------------------------------------- units

MAXLEN = (1 << 88) * B


def setup(V, maxlen):
    key, d = V.bytes("key", 32), V.bytes("data")
    V.I.unit_vars = {"key": key.t, "data": d.t}
    V.assume(T.le(ln(d), N(maxlen)))
    return key, d


@unit(("C02", "C01?"), "stream_encrypt produces the STREAM payload for every length", hints=[inv_enc], budget=300)
def c02_enc(V):
    key, d = setup(V, 1 << 47)
    o = V.attempt(ENC, key, d)
    if not o.ok:
        return V.fail("encryption succeeds (%s)" % o.why())
    V.prove("the result is the specified payload", T.eq(tstr(o.val), payload(key.t, d.t)))


@unit(("C02", "C03", "C01?"), "stream_decrypt opens chunk by chunk", hints=[inv_dec], budget=300)
def c02_dec(V):
    key, c = setup(V, 1 << 47)
    o = V.attempt(DEC, key, c)
    n = T.length(c.t)
    whole = T.and_(T.gt(n, N(0)), T.app("OKT", key.t, c.t, N(0)))
    p = T.app("DECT", key.t, c.t, N(0))
    V.assume(lem_len(key.t, c.t, N(0)))
    full = T.and_(whole, T.or_(T.le(n, N(C)), T.gt(T.length(p), T.scale(B, T.sub(blocks(c.t, C), N(1))))))
    if o.ok:
        if V.prop == "C03":
            V.prove("only payloads whose chunks all open, and whose last chunk is not needlessly empty, are accepted", full)
        V.prove("the result is the opening of the chunks", T.eq(tstr(o.val), p))
    elif V.prop == "C03":
        V.prove("a refusal is an exception (%s)" % o.why(), T.bool_(o.exc is not None))
    else:
        V.prove("only other payloads are refused (%s)" % o.why(), T.not_(full))


def lem_len(key, c, k):
    """an opened payload is 16 bytes per chunk shorter, and all chunks but the last are full"""
    n = T.length(T.app("DECT", key, c, k))
    return T.implies(T.app("OKT", key, c, k), T.and_(T.eq(n, T.sub(T.length(c), T.scale(16, blocks(c, C)))), T.ge(n, T.scale(B, T.sub(blocks(c, C), N(1))))))


def lem_unique(key, c, k):
    """what opens (and does not end in an empty chunk) is the sealing of the result"""
    p = T.app("DECT", key, c, k)
    return T.implies(T.and_(T.app("OKT", key, c, k), T.gt(T.length(c), N(0)), T.gt(T.length(p), T.scale(B, T.sub(blocks(c, C), N(1))))),
                     T.eq(T.app("ENCT", key, p, k), c))


def lem_open(key, d, k):
    """sealed chunks open to the plaintext"""
    c = T.app("ENCT", key, d, k)
    return T.and_(T.app("OKT", key, c, k), T.eq(T.app("DECT", key, c, k), d), T.eq(T.length(c), T.add(T.length(d), T.scale(16, blocks(d, B)))))


def kvars(V):
    key, x, k = V.bytes("key", 32), V.bytes("x"), V.int("k")
    V.assume(T.and_(T.le(N(0), k.t), T.lt(T.add(k.t, T.length(x.t)), N(1 << 60))))
    return key.t, x.t, k.t


@unit(("C02", "C03"), "lemma: length of an opened payload")
def lemma_len(V):
    key, c, k = kvars(V)
    V.assume(T.implies(T.gt(T.length(c), N(C)), lem_len(key, tail(c, C), T.add(k, N(1)))))
    V.prove("by induction on the payload", lem_len(key, c, k))


@unit("C03", "lemma: only sealed payloads open")
def lemma_unique(V):
    key, c, k = kvars(V)
    V.assume(T.implies(T.gt(T.length(c), N(C)), T.and_(lem_len(key, tail(c, C), T.add(k, N(1))), lem_unique(key, tail(c, C), T.add(k, N(1))))))
    V.assume(lem_len(key, c, k))
    p = T.app("DECT", key, c, k)
    if V.ctx.branch(T.gt(T.length(c), N(C))):
        V.prove("the opening is the first chunk's and the rest's", T.implies(T.app("OKT", key, c, k), T.and_(T.eq(T.length(opened(key, k, False, head(c, C))), N(B)), T.eq(tail(p, B), T.app("DECT", key, tail(c, C), T.add(k, N(1)))), T.eq(head(p, B), opened(key, k, False, head(c, C))))))
    V.prove("by induction on the payload", lem_unique(key, c, k))


@unit(("C02", "C01?"), "lemma: sealed payloads open to the plaintext")
def lemma_open(V):
    key, d, k = kvars(V)
    V.assume(T.implies(T.gt(T.length(d), N(B)), lem_open(key, tail(d, B), T.add(k, N(1)))))
    c = T.app("ENCT", key, d, k)
    if V.ctx.branch(T.gt(T.length(d), N(B))):
        V.prove("the payload is the first chunk and the rest", T.and_(T.eq(head(c, C), seal(key, k, False, head(d, B))), T.eq(tail(c, C), T.app("ENCT", key, tail(d, B), T.add(k, N(1))))))
    V.prove("by induction on the plaintext", lem_open(key, d, k))


@unit(("C02", "C01?"), "decryption gives back what was encrypted")
def c02_roundtrip(V):
    """from the contracts of stream_encrypt and stream_decrypt and the lemmas"""
    key, d = V.bytes("key", 32).t, V.bytes("data").t
    V.assume(T.le(T.length(d), N(1 << 46)))
    c = T.app("ENCT", key, d, N(0))
    V.assume(lem_open(key, d, N(0)))
    p = T.app("DECT", key, c, N(0))
    accepted = T.and_(T.gt(T.length(c), N(0)), T.app("OKT", key, c, N(0)), T.or_(T.le(T.length(c), N(C)), T.gt(T.length(p), T.scale(B, T.sub(blocks(c, C), N(1))))))
    if V.ctx.branch(T.eq(d, S(""))):
        c = seal(key, N(0), True, S(""))
        p = T.app("DECT", key, c, N(0))
        accepted = T.and_(T.gt(T.length(c), N(0)), T.app("OKT", key, c, N(0)), T.le(T.length(c), N(C)))
    else:
        V.prove("there are as many sealed chunks as plaintext chunks", T.eq(blocks(c, C), blocks(d, B)))
    V.prove("the payload of every plaintext is accepted", accepted)
    V.prove("and opens to it", T.eq(p, d))


@unit("C03", "an accepted payload is the payload of the result")
def c03_only(V):
    key, c = V.bytes("key", 32).t, V.bytes("data").t
    V.assume(T.le(T.length(c), N(1 << 46)))
    p = T.app("DECT", key, c, N(0))
    V.assume(lem_len(key, c, N(0)))
    V.assume(lem_unique(key, c, N(0)))
    accepted = T.and_(T.gt(T.length(c), N(0)), T.app("OKT", key, c, N(0)), T.or_(T.le(T.length(c), N(C)), T.gt(T.length(p), T.scale(B, T.sub(blocks(c, C), N(1))))))
    V.assume(accepted)
    V.prove("it equals the specified payload of the plaintext returned", T.eq(c, payload(key, p)))
