"""C06: one matching identity is enough and mismatches are never fatal."""

from .. import terms as T
from .. import axioms
from ..core import *  # noqa: F401,F403
from ..interp import tstr, tint, tbool
from ..unit import unit
from ..stubs import METHODS
from .. import libs, loops
from ..libs import InvalidTag, all_zero, x25519, BASE
from .basic import (S, N, ln, LOAD, age_private, ed_private, rsa_private, password, ed_wire, tweak, x25519)

TAGS = ("X25519", "ssh-rsa", "ssh-ed25519", "scrypt")
DFK = "age.recipients.helpers.decrypt_file_key"

# ------------------------------------------------ abstract stanzas and identities

for d in ("Rec", "Key", "KeyClass"):
    T.declare_dt(d, {"mk" + d: [("%s.id" % d, T.INT)]})
REC, KEY, KC = Sh("opaque", ("recipient", "Rec")), Sh("opaque", ("key", "Key")), Sh("opaque", ("keyclass", "KeyClass"))
R, K, C = sort_of(REC), sort_of(KEY), sort_of(KC)

T.declare_uf("key_type_of", (R,), C)
T.declare_uf("of_type", (K, C), T.BOOL)
T.declare_uf("opens", (R, K), T.BOOL)
T.declare_uf("opened_key", (R, K), T.STR)
T.declare_uf("is_rec", (R,), T.BOOL)
T.declare_uf("is_key", (K,), T.BOOL)
T.declare_uf("recovered", (T.STR,), T.BOOL)
T.declare_uf("rec_tag", (R,), T.STR)


@axioms.on("opened_key")
def _ax_good(t):
    """definition of the set of file keys some given identity recovers from some given stanza"""
    r, k = t.args
    return [T.implies(T.and_(T.app("is_rec", r), T.app("is_key", k), T.app("of_type", k, T.app("key_type_of", r)), T.app("opens", r, k)), T.app("recovered", t))]


def prop(f):
    f.is_prop = True
    return f


def rec_decrypt(I, s, a, kw):
    k = a[0] if a else next(iter(kw.values()))
    if not isinstance(k, SOpaque):
        raise Unsupported("decrypt with %r" % (k,))
    I.ctx.prove("precondition of decrypt: the identity is of the stanza's kind", T.app("of_type", k.t, T.app("key_type_of", s.t)))
    if I.ctx.branch(T.app("opens", s.t, k.t)):
        return SStr(T.app("opened_key", s.t, k.t), "bytes")
    if I.ctx.choose(2) == 0:
        raise I.exc(InvalidTag)
    raise I.exc(ValueError, "no match")


METHODS["opaque:recipient"] = {
    "decrypt": rec_decrypt,
    "DECRYPTION_KEY_TYPE": prop(lambda I, s: SOpaque(T.app("key_type_of", s.t), "keyclass")),
    "TAG": prop(lambda I, s: SStr(T.app("rec_tag", s.t), "str")),
}
METHODS["opaque:key"] = {}
METHODS["opaque:keyclass"] = {"__instancecheck__": lambda I, c, v: T.app("of_type", v.t, c.t) if isinstance(v, SOpaque) and v.kind == "key" else False}


def rank(seq, ghosts):
    """the position of the ghost element in a sequence derived from its own"""
    for s, i in ghosts:
        if seq is s:
            return i
    if seq.op == "uf" and ("pos." + seq.val) in T.UFS:
        i = rank(seq.args[0], ghosts)
        return None if i is None else T.app("pos." + seq.val, seq.args[0], i)
    return None


def inv_ghost(L):
    """the stanza and the identity that belong together have not been passed over"""
    u = L.I.unit_vars
    if "recs" not in u or L.seq is None:
        return []
    recs, keys, i, m = u["recs"], u["keys"], u["i"], u["m"]
    p = rank(L.seq, [(recs, i), (keys, m)])
    if p is None:
        return []
    isrec = L.seq.sort == recs.sort
    el = T.nth(recs, i) if isrec else T.nth(keys, m)
    out = [("the matching %s is still to come" % ("stanza" if isrec else "identity"), lambda L: T.le(L.k(), p))]
    # nested loops: it may pass if the other loop is at something else
    seen = set()
    for loc, v in L.I.ctx.store.items():
        if loc[0] == "v" and isinstance(v, SOpaque) and v.kind == ("key" if isrec else "recipient") and v.t not in seen:
            seen.add(v.t)
            r, k = (el, v.t) if isrec else (v.t, el)
            o = T.and_(T.app("opens", r, k), T.app("of_type", k, T.app("key_type_of", r)))
            out.append(("the matching one is still to come unless the other loop is elsewhere (%s)" % loc[-1], lambda L, o=o: T.or_(T.le(L.k(), p), T.not_(o))))
    return out


@unit(("C06", "C01?"), "the file key is recovered whenever some identity opens some stanza", hints=[inv_ghost], budget=300)
def c06_found(V):
    (rl, recs), (kl, keys) = V.list("stanzas", REC), V.list("identities", KEY)
    i, m = V.int("stanza").t, V.int("identity").t
    V.assume(T.and_(T.le(N(0), i), T.lt(i, T.length(recs)), T.le(N(0), m), T.lt(m, T.length(keys))))
    r, k = T.nth(recs, i), T.nth(keys, m)
    V.assume(T.and_(T.app("of_type", k, T.app("key_type_of", r)), T.app("opens", r, k)))
    V.I.unit_vars = {"recs": recs, "keys": keys, "i": i, "m": m}
    o = V.attempt(DFK, rl, kl)
    if not o.ok:
        return V.fail("the file key is recovered (%s)" % o.why())
    V.prove("the result is a byte string", T.bool_(isinstance(o.val, SStr) and o.val.kind == "bytes"))


@unit(("C06", "C01?"), "what is recovered is a file key some identity opens; otherwise NoIdentity", budget=300)
def c06_result(V):
    (rl, recs), (kl, keys) = V.list("stanzas", REC), V.list("identities", KEY)

    def members(t):
        if t.args[0] is recs:
            return [T.implies(T.and_(T.le(N(0), t.args[1]), T.lt(t.args[1], T.length(recs))), T.app("is_rec", t))]
        if t.args[0] is keys:
            return [T.implies(T.and_(T.le(N(0), t.args[1]), T.lt(t.args[1], T.length(keys))), T.app("is_key", t))]
        return []

    with axioms.extra("nth", members):
        o = V.attempt(DFK, rl, kl)
        if o.ok:
            V.prove("the result is what an identity of the right kind opens", T.app("recovered", tstr(o.val)))
        else:
            V.prove("the failure is NoIdentity", T.bool_(o.is_exc(V.get("age.exceptions.NoIdentity"))))


@unit("C06", "no identities or no stanzas: NoIdentity")
def c06_none(V):
    rl, recs = V.list("stanzas", REC)
    kl, keys = V.list("identities", KEY)
    a = (rl, V.I.new_list([])) if V.ctx.choose(2) else (V.I.new_list([]), kl)
    o = V.attempt(DFK, *a)
    V.prove("NoIdentity is raised", T.bool_(o.is_exc(V.get("age.exceptions.NoIdentity"))))


# ------------------------------------------------ the concrete stanza kinds


def refused(V, o):
    if not o.ok:
        V.prove("an identity that does not open the stanza is refused with InvalidTag or ValueError (%s)" % o.why(), T.bool_(o.is_exc(InvalidTag, ValueError)))
    else:
        V.prove("a file key is a byte string", T.bool_(isinstance(o.val, (bytes, SStr)) and (isinstance(o.val, bytes) or o.val.kind == "bytes")))


def rec_of(V, tag, args, body):
    from .basic import b64core

    return V.call(LOAD, tag, V.I.new_list([SStr(a, "str") for a in args]), SStr(b64core(body), "str"))


@unit("C06", "X25519 stanzas and identities: mismatches are InvalidTag or ValueError", strict_ffi=True)
def c06_x(V):
    from .basic import b64core

    raw, share, ct = V.bytes("private", 32), V.bytes("share", 32), V.bytes("sealed")
    V.assume(T.not_(all_zero(x25519(raw.t, share.t))))
    key = age_private(V, raw)
    r = rec_of(V, "X25519", [b64core(share.t)], ct.t)
    V.prove("the identity is of the stanza's kind", V.I.truth_term(V.call(V.I.builtin("isinstance"), key, V.attr(r, "DECRYPTION_KEY_TYPE"))))
    refused(V, V.attempt_do(lambda: V.meth(r, "decrypt", key)))


@unit("C06", "SSH-Ed25519 stanzas and identities: mismatches are InvalidTag or ValueError", strict_ffi=True)
def c06_e(V):
    from .basic import b64core

    seed, fp, share, ct = V.bytes("seed", 32), V.bytes("fingerprint"), V.bytes("share", 32), V.bytes("sealed")
    pk = T.app("ed_pk", seed.t)
    tw, sk = tweak(pk), T.app("ed_sk_to_curve", T.concat(seed.t, pk))
    for p in (x25519(tw, T.app("ed_pk_to_curve", pk)), x25519(tw, share.t), x25519(sk, x25519(tw, share.t))):
        V.assume(T.not_(all_zero(p)))
    key = ed_private(V, seed)
    r = rec_of(V, "ssh-ed25519", [b64core(fp.t), b64core(share.t)], ct.t)
    V.prove("the identity is of the stanza's kind", V.I.truth_term(V.call(V.I.builtin("isinstance"), key, V.attr(r, "DECRYPTION_KEY_TYPE"))))
    refused(V, V.attempt_do(lambda: V.meth(r, "decrypt", key)))


@unit("C06", "SSH-RSA stanzas and identities: mismatches are InvalidTag or ValueError")
def c06_r(V):
    from .basic import b64core

    i, fp, ct = V.int("private_key"), V.bytes("fingerprint"), V.bytes("ciphertext")
    key = rsa_private(V, i)
    r = rec_of(V, "ssh-rsa", [b64core(fp.t)], ct.t)
    V.prove("the identity is of the stanza's kind", V.I.truth_term(V.call(V.I.builtin("isinstance"), key, V.attr(r, "DECRYPTION_KEY_TYPE"))))
    refused(V, V.attempt_do(lambda: V.meth(r, "decrypt", key)))


@unit("C06", "scrypt stanzas and passwords: mismatches are InvalidTag or ValueError")
def c06_s(V):
    from .basic import b64core

    pw, salt, f, ct = V.bytes("password"), V.bytes("salt"), V.int("factor"), V.bytes("sealed")
    V.assume(T.le(N(0), f.t))
    key = password(V, pw)
    r = rec_of(V, "scrypt", [b64core(salt.t), T.app("str_of_int", f.t)], ct.t)
    V.prove("the identity is of the stanza's kind", V.I.truth_term(V.call(V.I.builtin("isinstance"), key, V.attr(r, "DECRYPTION_KEY_TYPE"))))
    refused(V, V.attempt_do(lambda: V.meth(r, "decrypt", key)))


@unit("C06", "stanza types are matched exactly")
def c06_types(V):
    t, body = V.str("type"), V.str("body")
    al, _ = V.list("arguments", SStr_)
    for x in TAGS:
        V.assume(T.ne(t.t, S(x)))
    o = V.attempt(LOAD, t, al, body)
    V.prove("every other type is an UnknownRecipient", T.bool_(o.is_exc(V.get("age.exceptions.UnknownRecipient"))))


# ------------------------------------------------ the decryptor tries all of them

HREC = None
T.declare_uf("rec_of_stanza", (T.STR, T.SEQ(T.STR), T.STR), R)


def is_known(ty):
    return T.or_(*[T.eq(ty, S(x)) for x in TAGS])


def header_shape(I):
    c = I.lookup_qual("age.format.Recipient")
    return Sh("obj", (c, (("arguments", SList_(SStr_)), ("body", SStr_), ("type", SStr_))))


def known_recs(seq, sh):
    name = "KNOWN:" + str(seq.sort)
    if name not in T.UFS:
        @axioms.define(name, (seq.sort,), T.SEQ(R))
        def _known(t):
            s = t.args[0]
            h = T.nth(s, N(0))
            ty, ar, bo = (dt_get(sh, h, n) for n in ("type", "arguments", "body"))
            rest = T.app(name, T.substr(s, N(1), T.sub(T.length(s), N(1))))
            return [T.implies(T.eq(T.length(s), N(0)), T.eq(t, T.empty(t.sort))),
                    T.implies(T.and_(T.gt(T.length(s), N(0)), is_known(ty)), T.eq(t, T.concat(T.unit(T.app("rec_of_stanza", ty, ar, bo)), rest))),
                    T.implies(T.and_(T.gt(T.length(s), N(0)), T.not_(is_known(ty))), T.eq(t, rest))]
    return T.app(name, seq)


def inv_known(L):
    """the stanzas taken so far and those of the rest are all of known type"""
    u = L.I.unit_vars
    if "hdr" not in u or L.seq is not u["hdr"]:
        return []
    h, sh = u["hdr"], u["sh"]
    out = []
    for loc, s in L.locs():
        if s.k == "list" and s.a == REC and L.entry(loc) is not None:
            def f(L, loc=loc):
                v = L.val(loc)
                if v is None:
                    return None
                rest = T.substr(h, L.k(), T.sub(T.length(h), L.k()))
                return T.eq(T.concat(v, known_recs(rest, sh)), known_recs(h, sh))

            out.append(("stanzas of known type so far and in the rest", f))
    return out


class Reached(Exception):
    pass


@unit(("C06", "C01?"), "the decryptor tries every stanza of known type and skips unknown ones", hints=[inv_known], budget=300)
def c06_decryptor(V):
    I = V.I
    sh = header_shape(I)
    hl, hdr = V.list("header", sh)
    kl, keys = V.list("identities", KEY)
    I.unit_vars = {"hdr": hdr, "sh": sh}
    mac = V.bytes("mac")

    def load_header(I, vals):
        h = I.new_obj(I.lookup_qual("age.format.Header"))
        I.set_attr_raw(h, "recipients", hl)
        return (h, mac)

    def get_recipient(I, vals):
        ty, ar, bo = vals["type"], vals["arguments"], vals["body"]
        if I.ctx.branch(is_known(tstr(ty))):
            return SOpaque(T.app("rec_of_stanza", tstr(ty), I.encode(ar, SList_(SStr_)), tstr(bo)), "recipient")
        raise I.exc(I.lookup_qual("age.exceptions.UnknownRecipient"), "unknown")

    def decrypt_file_key(I, vals):
        r, k = vals["recipients"], vals["keys"]
        V.prove("every stanza of known type is tried, in order", T.eq(I.encode(r, SList_(REC)), known_recs(hdr, sh)))
        V.prove("with all the identities", T.eq(I.encode(k, SList_(KEY)), keys))
        raise Reached()

    I.contracts.update({"age.format.load_header": load_header, LOAD: get_recipient, DFK: decrypt_file_key})
    st = libs.stream(I, V.bytes("file"))
    try:
        o = V.attempt("age.file.Decryptor", kl, st)
    except Reached:
        return
    V.fail("the file key is looked for (%s)" % o.why())
