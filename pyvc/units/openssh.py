"""C17: OpenSSH private key files."""

from .. import terms as T
from ..arith import byte
from .. import axioms, libs, keylib, spec
from ..core import *  # noqa: F401,F403
from ..core import SInt
from ..interp import tstr, tint, tbool, kind_of
from ..loops import iterate
from ..unit import unit
from .basic import S, N, ln
from .loader import head, tail

OK = "age.openssh_keys."
SECTION = Sh("tuple", (SStr_, SBytes_))
D = sort_of(SECTION)
SEQ = T.SEQ(D)
LABEL = "OPENSSH PRIVATE KEY"
MAGIC = "openssh-key-v1\0"


def sections(V):
    """an arbitrary armored text: sections with other labels, then possibly one with an OpenSSH key and further sections, then possibly an error"""
    I = V.I
    pre, post = V.term("sections before", SEQ), V.term("sections after", SEQ)
    found, bad, raw = V.bool("a section with an OpenSSH key"), V.bool("malformed"), V.bytes("raw")
    data = V.bytes("file")

    def contract(I, vals):
        f = vals["file"]
        if not isinstance(f, Ref) or not I.ctx.entails(T.eq(libs.rest(I, f), data.t)):
            raise Unsupported("armor from something else than the file")
        I.ctx.prove("lines of any length are allowed", T.not_(tbool(vals["strict_line_length"])))

        def other(i):
            x = T.nth(pre, i)
            I.ctx.assume(T.ne(dt_get(SECTION, x, "0"), S(LABEL)))
            return I.decode(x, SECTION)

        def run(I2, cb):
            iterate(I2, Lazy(T.length(pre), other), cb, None)
            if I2.truth(found):
                cb((LABEL, raw))
                iterate(I2, I2.new_list([Chunk(post, SECTION)]), cb, None)
            if I2.truth(bad):
                raise I2.exc(ValueError, "malformed armor")

        return Gen(run, "sections")

    I.contracts["age.utils.asciiarmor.read_ascii_armored"] = contract
    return data, found.t, raw.t


class Reader:
    """the format of the key file, in the words of its specification: every step needs the data it takes"""

    def __init__(self, c):
        self.c, self.p, self.ok = c, N(0), []

    def left(self):
        return T.sub(T.length(self.c), self.p)

    def take(self, n, what):
        self.ok.append((what + " is complete", T.le(n, self.left())))
        x = T.substr(self.c, self.p, n)
        self.p = T.add(self.p, n)
        return x

    def u32(self, what):
        return T.app("int_of_be", self.take(N(4), what))

    def string(self, what):
        n = self.u32("the length of " + what)
        self.ok.append(("the length of " + what + " is not negative", T.ge(n, N(0))))
        return self.take(n, what)

    def number(self, what):
        x = self.string(what)
        self.ok += [(what + " is not empty", T.ne(x, S(""))), (what + " is not negative", T.lt(byte(x, N(0)), N(128)))]
        return T.app("int_of_be", x)

    def check(self, what, c):
        self.ok.append((what, c))


SUITES = {"aes256-ctr": 32, "aes192-ctr": 24, "aes128-ctr": 16}
CURVES = {"nistp256": "SECP256R1", "nistp521": "SECP521R1", "nistp224": "SECP224R1"}


def settle(V, r):
    """prove what the reader needs, one after the other"""
    for what, c in r.ok:
        V.prove(what, c)
        V.ctx.assume(c)
    r.ok = []


def outer(data):
    r = Reader(T.substr(data, N(len(MAGIC)), T.sub(T.length(data), N(len(MAGIC)))))
    r.check("the magic", T.prefixof(S(MAGIC), data))
    r.cipher, r.kdf, r.meta = r.string("the cipher name"), r.string("the KDF name"), r.string("the KDF parameters")
    r.check("one key", T.eq(r.u32("the number of keys"), N(1)))
    r.string("the public key")
    n = r.u32("the length of the private section")
    r.check("the private section has the length given", T.eq(n, r.left()))
    r.section = T.substr(r.c, r.p, n)
    return r


def kdf(meta):
    r = Reader(meta)
    r.salt, r.rounds = r.string("the salt"), r.u32("the number of rounds")
    return r


def opened(section, pw, salt, rounds, kb):
    out = T.app("bcrypt_kdf", pw, salt, N(kb + 16), rounds)
    return T.app("aes_ctr", T.substr(out, N(0), N(kb)), T.substr(out, N(kb), N(16)), section)


def entails_eq(V, t, names, what):
    for x in names:
        if V.ctx.entails(T.eq(t, S(x))):
            return x
    V.fail(what)
    return None


def inv_pad(L):
    u = L.I.unit_vars
    if "pad" not in u or L.seq is not None and L.seq.sort != T.STR:
        return []
    j, rest = u["pad"]
    return [("padding", lambda L: T.implies(T.and_(T.le(N(0), j), T.lt(j, L.k())), T.eq(byte(rest, j), T.mod(T.add(j, N(1)), N(256)))))]


def key_post(V, r, key):
    """the key is the one stored in the private section"""
    kind = r.string("the key type")
    settle(V, r)
    if V.ctx.entails(T.eq(kind, S("ssh-rsa"))):
        n, e, d, iqmp, p, q = [r.number(x) for x in ("n", "e", "d", "iqmp", "p", "q")]
        settle(V, r)
        V.prove("an RSA key", T.bool_(kind_of(key) == "x:rsa_priv"))
        V.prove("the key with the numbers stored", T.eq(tint(key.f["id"]), T.app("rsa_of_numbers", p, q, d, T.app("crt", d, p), T.app("crt", d, q), iqmp, e, n)))
    elif V.ctx.entails(T.eq(kind, S("ssh-dss"))):
        p, q, g, y, x = [r.number(x) for x in ("p", "q", "g", "y", "x")]
        settle(V, r)
        V.prove("a DSA key", T.bool_(kind_of(key) == "x:dsa_priv"))
        V.prove("the key with the numbers stored", T.eq(tint(key.f["id"]), T.app("dsa_of_numbers", p, q, g, y, x)))
    elif V.ctx.entails(T.eq(kind, S("ssh-ed25519"))):
        pk, sk = r.string("the public key"), r.string("the private key")
        r.check("the public key has 32 bytes", T.eq(T.length(pk), N(32)))
        r.check("the private key has 64 bytes", T.eq(T.length(sk), N(64)))
        r.check("the copies of the public key agree", T.eq(T.substr(sk, N(32), N(32)), pk))
        settle(V, r)
        V.prove("an Ed25519 key", T.bool_(kind_of(key) == "x:ed_priv"))
        V.prove("the key of the seed stored", T.eq(tstr(key.f["seed"]), T.substr(sk, N(0), N(32))))
    else:
        V.prove("a known key type", T.prefixof(S("ecdsa-"), kind))
        curve, point = r.string("the curve"), r.string("the point")
        exponent = r.number("the exponent")
        settle(V, r)
        name = entails_eq(V, curve, CURVES, "a known curve")
        if name is None:
            return False
        V.prove("an ECDSA key", T.bool_(kind_of(key) == "x:ec_priv"))
        V.prove("the key with the numbers stored", T.eq(tint(key.f["id"]), T.app("ec_of_numbers", S(CURVES[name]), point, exponent)))
    r.string("the comment")
    settle(V, r)
    pad = r.left()
    j = V.term("j", T.INT)
    V.prove("the padding counts 1, 2, 3, ...", T.implies(T.and_(T.le(N(0), j), T.lt(j, pad)), T.eq(byte(T.substr(r.c, r.p, pad), j), T.mod(T.add(j, N(1)), N(256)))))
    return True


TYPES = [("RSA", lambda k: T.eq(k, S("ssh-rsa"))), ("DSA", lambda k: T.eq(k, S("ssh-dss"))), ("Ed25519", lambda k: T.eq(k, S("ssh-ed25519"))), ("ECDSA", lambda k: T.prefixof(S("ecdsa-"), k))]
DECRYPT = OK + "_decrypt_key"
PARAMS = ("encrypted", "passphrase", "ciphername", "kdfname", "kdf_metadata")


def has_decrypt(V):
    """is the opening of the private section a function of its own?"""
    try:
        f = V.get(DECRYPT)
    except Exception:
        return False
    return isinstance(f, VFunc) and [x.arg for x in f.node.args.args + f.node.args.kwonlyargs] == list(PARAMS)


def missing(pw):
    return T.TRUE if pw is None else T.eq(tstr(pw), S(""))


def refused(V, o, cipher, pw):
    """postconditions of a refusal to open the private section"""
    V.prove("an unencrypted section is not refused (%s)" % o.why(), T.ne(cipher, S("none")))
    V.prove("a missing passphrase is reported as such (%s)" % o.why(), T.or_(T.not_(missing(pw)), T.bool_(o.is_exc(V.get(OK + "WrongPassphrase")))))


def opened_post(cipher, kdfname, meta, pw, section, out):
    """what a successful opening gives"""
    m = kdf(meta)
    need = T.and_(*[c for _, c in m.ok])
    yield "encrypted files need a passphrase", T.or_(T.eq(cipher, S("none")), T.not_(missing(pw)))
    yield "an unencrypted section is taken as it is", T.implies(T.eq(cipher, S("none")), T.eq(out, section))
    yield "the cipher is a known one", T.or_(T.eq(cipher, S("none")), *[T.eq(cipher, S(c)) for c in SUITES])
    yield "the KDF is bcrypt", T.or_(T.eq(cipher, S("none")), T.eq(kdfname, S("bcrypt")))
    yield "the KDF parameters are complete", T.or_(T.eq(cipher, S("none")), need)
    for c, kb in SUITES.items():
        yield "bcrypt with the parameters of the file, " + c, T.implies(T.eq(cipher, S(c)), T.eq(out, opened(section, S("") if pw is None else tstr(pw), m.salt, m.rounds, kb)))


@unit("C17", "the private section is opened with the cipher and the bcrypt parameters named in the file")
def c17_decrypt(V):
    if not has_decrypt(V):
        return V.prove("the private section is opened in place", T.TRUE)
    section, cipher, kdfname, meta = [V.bytes(x) for x in ("section", "cipher", "kdf name", "kdf parameters")]
    pw = V.bytes("passphrase") if V.ctx.choose(2) else None
    o = V.attempt(DECRYPT, encrypted=section, passphrase=pw, ciphername=cipher, kdfname=kdfname, kdf_metadata=meta)
    if not o.ok:
        return refused(V, o, cipher.t, pw)
    for what, c in opened_post(cipher.t, kdfname.t, meta.t, pw, section.t, tstr(o.val)):
        V.prove(what, c)


def load(V, typ=None):
    V.ctx.feas, V.ctx.light = 0.15, True
    I = V.I
    I.unit_vars = {}
    data, found, raw = sections(V)
    r = outer(raw)
    pw = V.bytes("passphrase") if V.ctx.choose(2) else None
    state = {}
    if has_decrypt(V):
        private = V.bytes("private section")

        def contract(I2, vals):
            for n, t in (("encrypted", r.section), ("ciphername", r.cipher), ("kdfname", r.kdf), ("kdf_metadata", r.meta)):
                I2.ctx.prove("precondition of _decrypt_key: %s as stored in the file" % n, T.eq(tstr(vals[n]), t))
            p = vals["passphrase"]
            I2.ctx.prove("precondition of _decrypt_key: the passphrase given", T.bool_(p is None) if pw is None else T.FALSE if p is None else T.eq(tstr(p), pw.t))
            if I2.ctx.choose(2):
                state["error"] = c = I2.ctx.choose(2)
                raise I2.exc(ValueError if c else I2.lookup_qual(OK + "WrongPassphrase"), "cannot be opened")
            state["opened"] = private.t
            return private  # what its postcondition says of it is not needed here

        I.contracts[DECRYPT] = contract
        section = private.t
    else:
        c = ("none",) + tuple(SUITES)
        c = c[V.ctx.choose(len(c))]
        V.assume(T.eq(r.cipher, S(c)))
        m = kdf(r.meta)
        section = r.section if c == "none" else opened(r.section, S("") if pw is None else pw.t, m.salt, m.rounds, SUITES[c])
    s = Reader(section)
    a, b = s.u32("the first check integer"), s.u32("the second check integer")
    two = T.and_(*[c for _, c in s.ok])
    s.check("the check integers agree", T.eq(a, b))
    probe = Reader(section)
    probe.take(N(8), "the check integers")
    kind = probe.string("the key type")
    V.assume(dict(TYPES)[typ](kind) if typ else T.not_(T.or_(*[f(kind) for _, f in TYPES])))
    for _ in range({"RSA": 6, "DSA": 5, "Ed25519": 2, "ECDSA": 3}.get(typ, 0) + 1):
        probe.string("a field")
    I.unit_vars = {"pad": (V.term("j", T.INT), T.substr(probe.c, probe.p, probe.left()))}
    o = V.attempt(OK + "load_openssh_private_key", data, *([pw] if pw is not None else []))
    if o.ok:
        V.prove("there is an OpenSSH section", found)
        settle(V, r)
        if "opened" in state:
            pass
        elif has_decrypt(V):
            V.fail("the private section is opened")
        else:
            for what, c in opened_post(r.cipher, r.kdf, r.meta, pw, r.section, section):
                V.prove(what, c)
        settle(V, s)
    elif state.get("error") == 0:
        V.prove("a missing or wrong passphrase is reported as such (%s)" % o.why(), T.bool_(o.is_exc(V.get(OK + "WrongPassphrase"))))
    elif state.get("opened") is not None:
        V.prove("different check integers are reported as a wrong passphrase (%s)" % o.why(), T.or_(T.not_(two), T.eq(a, b), T.bool_(o.is_exc(V.get(OK + "WrongPassphrase")))))
    return o, s


def of_type(typ):
    @unit("C17", "%s: an OpenSSH key file gives the key it stores or is refused" % typ, hints=[inv_pad], weight=4)
    def c17_load(V):
        o, s = load(V, typ)
        if o.ok:
            key_post(V, s, o.val)


for _t, _ in TYPES:
    of_type(_t)


@unit("C17", "an OpenSSH key file of another type is refused")
def c17_other(V):
    o, s = load(V)
    if o.ok:
        V.fail("it is refused")
