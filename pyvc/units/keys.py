"""C13: age key strings; C22: what key objects show."""

import copy

from .. import terms as T
from .. import axioms, spec, strs
from ..core import *  # noqa: F401,F403
from ..interp import tstr, tint, tbool, kind_of
from ..unit import unit, UNITS
from .basic import S, N, ln, age_private, age_public, ed_private, rsa_private, rsa_public, password
from .bech32 import HRP_RE, ALPHABET_RE
from ..libs import x25519, BASE

AGE = "age.keys.agekey."
SECRET, PUBLIC = "age-secret-key-", "age"

T.declare_uf("BECH", (T.STR, T.STR), T.STR)  # the characters after the separator of the encoding of (prefix, payload)
T.declare_uf("BOK", (T.STR,), T.BOOL)  # a text in lower case that is an encoding ...
T.declare_uf("BHRP", (T.STR,), T.STR)  # ... of this prefix
T.declare_uf("BPAY", (T.STR,), T.STR)  # ... and this payload
CHARS_UF["BECH"] = ALPHABET_RE[1]


def enc(h, p):
    return T.concat(h, S("1"), T.app("BECH", h, p))


@axioms.on("BECH")
def _bech(t):
    """property C11, proved by its units: an encoding decodes to what was encoded"""
    h, p = t.args
    if h.op == "uf" and h.val == "BHRP":
        return []
    e = enc(h, p)
    return [T.and_(T.app("BOK", e), T.eq(T.app("BHRP", e), h), T.eq(T.app("BPAY", e), p))]


@axioms.on("BOK")
def _bok(t):
    """property C12, proved by its units: only encodings decode"""
    x = t.args[0]
    return [T.implies(t, T.eq(x, enc(T.app("BHRP", x), T.app("BPAY", x))))]


def k_encode(I, vals):
    h, p = tstr(vals["hrp"]), tstr(vals["payload"])
    I.ctx.prove("precondition of bech32_encode: a prefix of visible ASCII characters without upper case", T.and_(T.in_re(h, HRP_RE), T.le(N(1), T.length(h)), T.le(T.length(h), N(83))))
    return SStr(enc(h, p), "str")


def k_decode(I, vals):
    s = vals["bech"]
    if kind_of(s) != "str":
        raise Unsupported("bech32_decode of something else")
    t = tstr(s)
    ok = I.ctx.branch(T.in_re(t, T.star(("cls", ((33, 126),)))))
    if ok:
        low, up = tstr(I.call(I.getattr(s, "lower"), [], {})), tstr(I.call(I.getattr(s, "upper"), [], {}))
        ok = I.ctx.branch(T.and_(T.or_(T.eq(low, t), T.eq(up, t)), T.app("BOK", low)))
    if not ok:
        raise I.exc(ValueError, "not a Bech32 string")
    return (SStr(T.app("BHRP", low), "str"), SStr(T.app("BPAY", low), "bytes"))


def bech(V):
    V.I.contracts["age.primitives.bech32.bech32_encode"] = k_encode
    V.I.contracts["age.primitives.bech32.bech32_decode"] = k_decode


@unit(("C13", "C18?"), "private strings load back")
def private_strings(V):
    bech(V)
    raw = V.bytes("raw", 32)
    key = age_private(V, raw)
    s = V.meth(key, "private_string")
    V.prove("upper case, with the prefix", T.and_(T.in_re(tstr(s), T.star(T.cls_not(("cls", ((97, 122),))))), T.prefixof(S("AGE-SECRET-KEY-1"), tstr(s))))
    V.eq("it is the Bech32 string", V.meth(s, "lower"), SStr(enc(S(SECRET), raw.t), "str"))
    if V.ctx.choose(2):
        s = V.meth(s, "lower")
    o = V.attempt(V.attr(V.get(AGE + "AgePrivateKey"), "from_private_string"), s)
    if not o.ok:
        return V.fail("it is accepted (%s)" % o.why())
    V.eq("the same bytes", V.meth(o.val, "private_bytes"), raw)
    V.eq("an equal key", o.val, key)
    V.eq("equal hashes", V.I.stubs.hash_value(V.I, o.val), V.I.stubs.hash_value(V.I, key))


@unit(("C13", "C19?"), "public strings load back")
def public_strings(V):
    bech(V)
    raw = V.bytes("raw", 32)
    key = age_public(V, raw)
    s = V.meth(key, "public_string")
    V.prove("lower case, with the prefix", T.and_(T.in_re(tstr(s), T.star(T.cls_not(("cls", ((65, 90),))))), T.prefixof(S("age1"), tstr(s))))
    V.eq("it is the Bech32 string", s, SStr(enc(S(PUBLIC), raw.t), "str"))
    if V.ctx.choose(2):
        s = V.meth(s, "upper")
    o = V.attempt(V.attr(V.get(AGE + "AgePublicKey"), "from_public_string"), s)
    if not o.ok:
        return V.fail("it is accepted (%s)" % o.why())
    V.eq("the same bytes", V.meth(o.val, "public_bytes"), raw)
    V.eq("an equal key", o.val, key)
    V.eq("equal hashes", V.I.stubs.hash_value(V.I, o.val), V.I.stubs.hash_value(V.I, key))


@unit("C13", "the public key belongs to the private key")
def belongs(V):
    raw = V.bytes("raw", 32)
    V.eq("public bytes", V.meth(V.meth(age_private(V, raw), "public_key"), "public_bytes"), SStr(x25519(raw.t, BASE), "bytes"))


@unit(("C13", "C18?", "C19?"), "strings of other keys are refused")
def other_strings(V):
    bech(V)
    s = V.str("text")
    private = V.ctx.choose(2)
    if private:
        o = V.attempt(V.attr(V.get(AGE + "AgePrivateKey"), "from_private_string"), s)
    else:
        o = V.attempt(V.attr(V.get(AGE + "AgePublicKey"), "from_public_string"), s)
    if not o.ok:
        return V.prove("a refusal is a ValueError (%s)" % o.why(), T.bool_(o.is_exc(ValueError)))
    low = tstr(V.meth(s, "lower"))
    V.prove("an encoding in lower or upper case", T.app("BOK", low))
    V.prove("the prefix", T.eq(T.app("BHRP", low), S(SECRET if private else PUBLIC)))
    V.prove("32 bytes", T.eq(T.length(T.app("BPAY", low)), N(32)))
    V.eq("the bytes are the payload", V.meth(o.val, "private_bytes" if private else "public_bytes"), SStr(T.app("BPAY", low), "bytes"))


for _p in ("C11", "C12"):
    for _u in UNITS[_p]:
        if not any(x.name == _u.name for x in UNITS["C13"]):
            _d = copy.copy(_u)
            _d.prop, _d.dep = "C13", True
            UNITS["C13"].append(_d)


# ---------------------------------------------------------------- C22

CLIENT = """
def same_text(a, b):
    return repr(a) == repr(b)

def text(a):
    return repr(a)

def equal(a, b):
    return a == b

def unequal(a, b):
    return a != b

def hashes(a, b):
    return hash(a), hash(b)
"""


def run(V, f, *args):
    return V.attempt(V.attr(V.I.client(CLIENT), f), *args)


def kinds(V):
    """(name, private object of a secret, its public part, the encoded public key)"""
    k = V.ctx.choose(3)
    if k == 0:
        return "age", lambda n: V.bytes(n, 32), lambda s: age_private(V, s), lambda s: x25519(s.t, BASE)
    if k == 1:
        return "Ed25519", lambda n: V.bytes(n, 32), lambda s: ed_private(V, s), lambda s: T.app("ed_pk", s.t)
    return "RSA", lambda n: V.int(n), lambda s: rsa_private(V, s), lambda s: T.app("rsa_pub_id", s.t)


def use_it(V, o):
    """call every method that needs no arguments, comparison and hash; whatever they leave behind in the object"""
    for c in o.cls.mro():
        for n, f in sorted(getattr(c, "ns", {}).items()):
            if isinstance(f, VFunc) and not n.startswith("_"):
                a = f.node.args
                if len(a.args) - len(a.defaults) <= 1 and not [x for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]:
                    V.attempt(V.attr(o, n))
    run(V, "equal", o, o)
    run(V, "hashes", o, o)
    run(V, "text", o)


@unit("C22", "the representation of a private key shows its public key only")
def private_repr(V):
    bech(V)
    name, secret, private, public = kinds(V)
    a, b = secret("secret1"), secret("secret2")
    V.assume(T.eq(public(a), public(b)))
    x = private(a)
    if V.ctx.choose(2):
        use_it(V, x)
    o = run(V, "same_text", x, private(b))
    if not o.ok:
        return V.fail("%s keys have a representation (%s)" % (name, o.why()))
    V.prove("%s keys with the same public key have the same representation" % name, tbool(o.val))


@unit("C22", "the representation of a password shows nothing")
def password_repr(V):
    a, b = V.bytes("password1"), V.bytes("password2")
    x = password(V, a)
    if V.ctx.choose(2):
        use_it(V, x)
    o = run(V, "same_text", x, password(V, b))
    if not o.ok:
        return V.fail("passwords have a representation (%s)" % o.why())
    V.prove("any two passwords have the same representation", tbool(o.val))


@unit("C22", "equality and hash of keys are those of the encoded keys")
def equality(V):
    bech(V)
    k = V.ctx.choose(4)
    if k < 2:
        x, y = V.bytes("key1", 32), V.bytes("key2", 32)
        mk = age_public if k == 0 else age_private
        a, b, same = mk(V, x), mk(V, y), T.eq(x.t, y.t)
    elif k == 2:
        x, y = V.bytes("key1", 32), V.bytes("key2", 32)
        a, b = (V.call("age.keys.ed25519.Ed25519PublicKey", XVal("ed_pub", pk=z)) for z in (x, y))
        same = T.eq(x.t, y.t)
    else:
        x, y = V.int("key1"), V.int("key2")
        a, b = (V.call("age.keys.rsa.RSAPublicKey", XVal("rsa_pub", id=z)) for z in (x, y))
        same = T.eq(T.app("ssh_rsa_wire", x.t), T.app("ssh_rsa_wire", y.t))
    name = ("age public", "age private", "Ed25519 public", "RSA public")[k] + " keys: "
    e, n, h = run(V, "equal", a, b), run(V, "unequal", a, b), run(V, "hashes", a, b)
    if not (e.ok and n.ok and h.ok):
        return V.fail(name + "comparison and hash work (%s%s%s)" % (e.why(), n.why(), h.why()))
    V.prove(name + "equal exactly when the encoded keys are", T.eq(tbool(e.val), same))
    V.prove(name + "!= is the opposite", T.eq(tbool(n.val), T.not_(same)))
    V.prove(name + "equal keys have equal hashes", T.implies(same, V.I.eq_term(V.I.getitem(h.val, 0), V.I.getitem(h.val, 1))))


@unit("C22", "keys are not equal to objects of other kinds")
def other_kinds(V):
    raw = V.bytes("raw", 32)
    objects = [age_public(V, raw), age_private(V, raw), V.call("age.keys.ed25519.Ed25519PublicKey", XVal("ed_pub", pk=raw)), password(V, raw), raw, None]
    i, j = V.ctx.choose(3), V.ctx.choose(6)
    if i == j:
        return V.prove("an object is equal to itself", tbool(run(V, "equal", objects[i], objects[j]).val))
    o = run(V, "equal", objects[i], objects[j])
    if not o.ok:
        return V.fail("comparison works (%s)" % o.why())
    V.prove("not equal", T.not_(tbool(o.val)))
