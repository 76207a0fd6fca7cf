"""C05, C01, C20: whole files."""

from .. import terms as T
from .. import axioms, libs
from ..core import *  # noqa: F401,F403
from ..interp import tstr, tint, tbool
from ..unit import unit
from ..stubs import METHODS
from ..libs import b64core
from .basic import S, N, ln, LOAD, GEN, age_private, age_public, ed_private, rsa_private, password, tweak
from .c06 import DFK, KEY, K, is_known, prop
from .header import setup_dump, setup_wf, lem_args, word, make, parts, INTRO, DUMP, LOADH, SEQS, drop
from .stream import ENC, DEC, payload

T.declare_dt("Wrapped", {"mkWrapped": [("Wrapped.id", T.INT)]})
WRAPPED = Sh("opaque", ("wrapped", "Wrapped"))
W = sort_of(WRAPPED)
PUB = Sh("opaque", ("pubkey", "Pub"))
T.declare_dt("Pub", {"mkPub": [("Pub.id", T.INT)]})
P = sort_of(PUB)
T.declare_uf("wrap", (P, T.STR, T.INT), W)  # wrapping of a file key for a public key with the i-th draw of randomness
T.declare_uf("wrap_tag", (W,), T.STR)
T.declare_uf("wrap_args", (W,), SEQS)
T.declare_uf("wrap_body", (W,), T.STR)
T.declare_uf("CAT", (T.SEQ(T.STR),), T.STR)

METHODS["opaque:pubkey"] = {}
METHODS["opaque:wrapped"] = {
    "TAG": prop(lambda I, s: SStr(T.app("wrap_tag", s.t), "str")),
    "dump": lambda I, s, a, kw: (I.new_list([Chunk(T.app("wrap_args", s.t), SStr_)]), SStr(T.app("wrap_body", s.t), "str")),
}


@axioms.define("CAT", (T.SEQ(T.STR),), T.STR)
def _cat(t):
    s = t.args[0]
    return [T.implies(T.eq(T.length(s), N(0)), T.eq(t, S(""))), T.implies(T.gt(T.length(s), N(0)), T.eq(t, T.concat(T.nth(s, N(0)), T.app("CAT", drop(s)))))]


def hkdf(salt, label, key, n=32):
    return T.app("hkdf_sha256", salt, S(label), key, N(n))


def mac_of(fk, text):
    return T.app("hmac_sha256", hkdf(S(""), "header", fk), text)


def setup(I):
    sh = setup_dump(I)
    q = T.SEQ(sort_of(sh))
    if "STZ" not in T.UFS:
        @axioms.define("STZ", (T.SEQ(P), T.STR, T.INT), q)
        def _stz(t):
            """the stanzas for the public keys, with the draws of randomness from the i-th on"""
            ks, fk, i = t.args
            w = T.app("wrap", T.nth(ks, N(0)), fk, i)
            return [T.implies(T.eq(T.length(ks), N(0)), T.eq(t, T.empty(q))),
                    T.implies(T.gt(T.length(ks), N(0)), T.eq(t, T.concat(T.unit(make(sh, T.app("wrap_tag", w), T.app("wrap_args", w), T.app("wrap_body", w))), T.app("STZ", drop(ks), fk, T.add(i, N(1))))))]
    return sh


def header_text(sh, hdr):
    """up to and including ---"""
    return T.concat(INTRO, S("\n"), T.app("DUMPT", hdr), S("---"))


# ---------------------------------------------------------------- contracts


def k_dump_header(V, sh, log=None):
    def f(I, vals):
        h, st, mac = vals["header"], vals["stream"], vals["mac"]
        hdr = I.encode(V.attr(h, "recipients"), SList_(sh))
        if not I.ctx.branch(T.app("DUMPOK", hdr)):
            raise I.exc(UnicodeEncodeError, "surrogates")
        t = header_text(sh, hdr)
        if mac is not None:
            if I.ctx.branch(T.gt(T.length(tstr(mac)), N(0))):
                t = T.concat(t, S(" "), b64core(tstr(mac)))
        I.call(I.getattr(st, "write"), [SStr(t, "bytes")], {})
        return None

    return f


def k_generate(I, vals):
    k, fk = vals["key"], vals["file_key"]
    i = tint(I.ctx.store.get(("gh", "tick"), 0))
    I.ctx.store[("gh", "tick")] = mkint(T.add(i, N(1)))
    return SOpaque(T.app("wrap", k.t, tstr(fk), i), "wrapped")


def k_stream_encrypt(V):
    def f(I, vals):
        V.ctx.prove("precondition of stream_encrypt: a 32-byte key", T.eq(ln(vals["key"]), N(32)))
        V.ctx.prove("precondition of stream_encrypt: the data is not too long", T.le(ln(vals["data"]), N(1 << 47)))
        return SStr(payload(tstr(vals["key"]), tstr(vals["data"])), "bytes")

    return f


T.declare_uf("PDEC", (T.STR, T.STR), T.STR)
T.declare_uf("PDEC_ok", (T.STR, T.STR), T.BOOL)


def k_stream_decrypt(V):
    def f(I, vals):
        V.ctx.prove("precondition of stream_decrypt: a 32-byte key", T.eq(ln(vals["key"]), N(32)))
        k, d = tstr(vals["key"]), tstr(vals["data"])
        if not I.ctx.branch(T.app("PDEC_ok", k, d)):
            raise I.exc(libs.InvalidTag)
        return SStr(T.app("PDEC", k, d), "bytes")

    return f


CLIENT = """
from age.file import Encryptor, Decryptor

def encrypt(keys, out, chunks):
    e = Encryptor(keys, out)
    for c in chunks:
        e.write(c)
    e.close()
    return e

def decrypt(identities, f):
    d = Decryptor(identities, f)
    return d.read()

def decrypt_in_parts(identities, f, n):
    d = Decryptor(identities, f)
    a = d.read(n)
    return a + d.read()
"""


def inv_file(L):
    u = L.I.unit_vars
    out = []
    if L.seq is not None and L.seq is u.get("keys"):
        keys, fk, i0 = u["keys"], u["fk"], u["i0"]
        rest = lambda L: T.substr(keys, L.k(), T.sub(T.length(keys), L.k()))
        out.append(("one draw of randomness per recipient", lambda L: T.eq(tint(L.I.ctx.store.get(("gh", "tick"), 0)), T.add(L.k(), i0))))
        for loc, s in L.locs("list"):
            if s.a == u["sh"] and L.entry(loc) is not None:
                def f(L, loc=loc):
                    v = L.val(loc)
                    return None if v is None else T.eq(T.concat(v, T.app("STZ", rest(L), fk, T.add(L.k(), i0))), T.app("STZ", keys, fk, i0))

                out.append(("a stanza for every recipient so far", f))
    if L.seq is not None and L.seq is u.get("chunks"):
        ch = u["chunks"]
        for loc, s in L.locs("bytes"):
            if L.entry(loc) is not None:
                def g(L, loc=loc):
                    v = L.val(loc)
                    return None if v is None else T.eq(T.concat(v, T.app("CAT", T.substr(ch, L.k(), T.sub(T.length(ch), L.k())))), T.concat(L.entry(loc), T.app("CAT", ch)))

                out.append(("what was written so far", g))
    return out


def encryption(V, sh):
    """a client that encrypts arbitrary chunks for arbitrary public keys"""
    I = V.I
    kl, keys = V.list("recipients", PUB)
    cl, chunks = V.list("chunks", Sh("bytes"))
    before = V.bytes("before")
    out = libs.stream(I, before, mkint(ln(before)))
    V.assume(T.le(T.length(T.app("CAT", chunks)), N(1 << 46)))
    t0 = V.int("draws_before").t
    V.ctx.store[("gh", "tick")] = SInt(t0)
    fk = T.app("rand", t0, N(16))
    I.unit_vars = {"keys": keys, "chunks": chunks, "fk": fk, "i0": T.add(t0, N(1)), "sh": sh}
    I.contracts.update({DUMP: k_dump_header(V, sh), GEN: k_generate, ENC: k_stream_encrypt(V)})
    m = I.client(CLIENT)
    o = V.attempt(m.ns["encrypt"], kl, out, cl)
    hdr = T.app("STZ", keys, fk, T.add(t0, N(1)))
    nonce = T.app("rand", T.add(t0, T.length(keys), N(1)), N(16))
    text = header_text(sh, hdr)
    p = T.app("CAT", chunks)
    return o, out, before.t, text, fk, nonce, p, hdr


@unit(("C05", "C01", "C21?"), "the encryptor writes the header with its MAC, the nonce and the payload", hints=[inv_file], budget=300)
def enc_file(V):
    sh = setup(V.I)
    o, out, before, text, fk, nonce, p, hdr = encryption(V, sh)
    if not o.ok:
        V.prove("only stanzas that are no Unicode are refused (%s)" % o.why(), T.not_(T.app("DUMPOK", hdr)))
        return
    V.prove("the file is header, MAC, nonce and payload", T.eq(tstr(libs.content(V.I, out)),
            T.concat(before, text, S(" "), b64core(mac_of(fk, text)), S("\n"), nonce, payload(hkdf(nonce, "payload", fk), p))))


@unit(("C05", "C01", "C21?"), "the decryptor delivers the opened payload only if the MAC of the whole header is right", budget=300)
def dec_file(V):
    I = V.I
    sh = setup(I)
    kl, keys = V.list("identities", KEY)
    hl, hdr = V.list("stanzas", sh)
    mac, after, fk = V.bytes("mac"), V.bytes("after"), V.bytes("file_key")
    found = V.bool("found")
    strict = V.ctx.choose(2)
    st = libs.stream(I, after, 0)

    def load_header(I, vals):
        h = I.new_obj(I.lookup_qual("age.format.Header"))
        I.set_attr_raw(h, "recipients", hl)
        return (h, mac)

    def get_recipient(I, vals):
        n = I.ctx.choose(3 - strict)
        if n == 0:
            return I.new_obj(I.lookup_qual("age.recipients.x25519.X25519Recipient"))
        raise I.exc(I.lookup_qual("age.exceptions.UnknownRecipient") if n == 1 else ValueError, "")

    def decrypt_file_key(I, vals):
        if I.ctx.branch(found.t):
            return fk
        raise I.exc(I.lookup_qual("age.exceptions.NoIdentity"), "No matching key")

    I.contracts.update({DUMP: k_dump_header(V, sh), LOADH: load_header, LOAD: get_recipient, DFK: decrypt_file_key, DEC: k_stream_decrypt(V)})
    m = I.client(CLIENT)
    nonce, body = T.substr(after.t, N(0), N(16)), drop(after.t, 16)
    k = hkdf(nonce, "payload", fk.t)
    mode = V.ctx.choose(2)
    if mode == 0:
        o = V.attempt(m.ns["decrypt"], kl, st)
    else:
        n = V.int("part")
        V.assume(T.le(N(0), n.t))
        o = V.attempt(m.ns["decrypt_in_parts"], kl, st, n)
    right = T.eq(mac.t, mac_of(fk.t, header_text(sh, hdr)))
    if o.ok:
        V.prove("a file key was found", found.t)
        V.prove("the MAC in the file is the MAC of the whole header", right)
        V.prove("the nonce is complete", T.ge(ln(after), N(16)))
        V.prove("the payload opens", T.app("PDEC_ok", k, body))
        V.prove("the plaintext is the opened payload", T.eq(tstr(o.val), T.app("PDEC", k, body)))
    elif strict:
        V.prove("nothing else is refused (%s)" % o.why(), T.not_(T.and_(found.t, T.app("DUMPOK", hdr), right, T.ge(ln(after), N(16)), T.app("PDEC_ok", k, body))))
    else:
        V.prove("the failure is an exception that carries no plaintext (%s)" % o.why(), T.bool_(o.exc is not None))


# ---------------------------------------------------------------- C01: composition


def lem_dumpok(h):
    return T.implies(T.app("WFH", h), T.app("DUMPOK", h))


@unit("C01", "lemma: well-formed stanzas can be written")
def lemma_dumpok(V):
    sh = setup_wf(V.I)
    h = V.term("stanzas", T.SEQ(sort_of(sh)))
    V.assume(T.app("WFH", h))
    V.assume(T.implies(T.gt(T.length(h), N(0)), lem_dumpok(drop(h))))
    if V.ctx.branch(T.gt(T.length(h), N(0))):
        ty, ar, bo = parts(sh, T.nth(h, N(0)))
        V.assume(lem_args(ar))
        V.prove("the first stanza", T.and_(word(ty), T.app("WORDS", ar), T.in_re(bo, libs.B64STAR)))
        V.prove("its arguments", T.app("utf8enc_ok", T.app("join", S(" "), ar)))
        V.prove("its body", T.app("utf8enc_ok", T.app("fill", bo, N(64))))
    V.prove("by induction on the list", lem_dumpok(h))


def good_wrap(w):
    return T.and_(word(T.app("wrap_tag", w)), T.app("WORDS", T.app("wrap_args", w)), T.in_re(T.app("wrap_body", w), libs.B64STAR))


@unit("C01", "lemma: the stanzas of all recipients are well-formed")
def lemma_stz(V):
    """from the well-formedness of a single stanza (the following units)"""
    sh = setup(V.I)
    setup_wf(V.I)
    keys, fk, i = V.term("recipients", T.SEQ(P)), V.bytes("file_key", 16).t, V.int("i").t
    q = T.app("STZ", keys, fk, i)
    V.assume(good_wrap(T.app("wrap", T.nth(keys, N(0)), fk, i)))
    V.assume(T.implies(T.gt(T.length(keys), N(0)), T.app("WFH", T.app("STZ", drop(keys), fk, T.add(i, N(1))))))
    V.prove("by induction on the recipients", T.app("WFH", q))


@unit("C01", "the stanzas of every kind of recipient are well-formed")
def wf_kinds(V):
    fk = V.bytes("file_key", 16)
    kind = V.ctx.choose(4)
    if kind == 0:
        key = age_public(V, V.bytes("public_key", 32))
    elif kind == 1:
        seed = V.bytes("seed", 32)
        key = V.meth(ed_private(V, seed), "public_key")
    elif kind == 2:
        key = V.meth(rsa_private(V, V.int("private_key")), "public_key")
    else:
        key = password(V, V.bytes("password"))
    o = V.attempt(GEN, key, fk)
    if not o.ok:
        V.prove("wrapping fails only for an unusable key (%s)" % o.why(), T.bool_(kind < 2))
        return
    r = o.val
    V.prove("the type is a word", word(tstr(V.attr(r, "TAG"))))
    d = V.meth(r, "dump")
    ar, bo = d
    items = V.I.items(ar)
    V.prove("there are arguments", T.bool_(len(items) > 0 and not any(isinstance(x, Chunk) for x in items)))
    for x in items:
        V.prove("an argument is a word", word(tstr(x)))
    V.prove("the body is base64 text", T.in_re(tstr(bo), libs.B64STAR))


@unit("C01", "decrypting an encrypted file gives the plaintext")
def c01_roundtrip(V):
    """from the contracts of Encryptor, Decryptor and load_header and the lemmas"""
    sh = setup(V.I)
    setup_wf(V.I)
    keys, fk, i = V.term("recipients", T.SEQ(P)), V.bytes("file_key", 16).t, V.int("i").t
    nonce, p = V.bytes("nonce", 16).t, V.bytes("plaintext").t
    V.assume(T.le(T.length(p), N(1 << 46)))
    hdr = T.app("STZ", keys, fk, i)
    V.assume(T.app("WFH", hdr))
    V.assume(lem_dumpok(hdr))
    text = header_text(sh, hdr)
    mac = mac_of(fk, text)
    k = hkdf(nonce, "payload", fk)
    c = payload(k, p)
    F = T.concat(S("--- "), b64core(mac), S("\n"), nonce, c)
    r = T.concat(T.app("DUMPT", hdr), F)
    none = T.empty(T.SEQ(sort_of(sh)))
    V.prove("the file is the text load_header accepts", T.eq(T.concat(text, S(" "), b64core(mac), S("\n"), nonce, c), T.concat(INTRO, S("\n"), r)))
    # the round trip of headers (C04)
    x = T.concat(S("--- "), b64core(mac), S("\n"))
    V.assume(T.and_(T.app("HOK", r, T.FALSE), T.eq(T.app("HPARSE", r, none), hdr), T.eq(T.app("HFOOT", r), x), T.eq(T.app("HREST", r), T.concat(nonce, c))))
    after = T.app("HREST", r)
    V.prove("the nonce is read back", T.eq(T.substr(after, N(0), N(16)), nonce), plain=True)
    V.prove("the payload is read back", T.eq(drop(after, 16), c), plain=True)
    V.prove("the MAC of the header that is read back is the one in the file", T.eq(mac_of(fk, header_text(sh, T.app("HPARSE", r, none))), mac), plain=True)
    V.prove("the header can be serialised again", T.app("DUMPOK", T.app("HPARSE", r, none)), plain=True)


# ---------------------------------------------------------------- C20


@unit("C20", "random(n) is one whole draw of n bytes from the operating system")
def c20_random(V):
    n = V.int("n")
    V.assume(T.le(N(0), n.t))
    t0 = V.int("draws_before").t
    V.ctx.store[("gh", "tick")] = SInt(t0)
    o = V.attempt("age.primitives.random.random", n)
    if not o.ok:
        return V.fail("random succeeds (%s)" % o.why())
    V.prove("the result is the whole draw", T.eq(tstr(o.val), T.app("rand", t0, n.t)))
    V.prove("one draw is made", T.eq(tint(V.tick()), T.add(t0, N(1))))


def draws(V):
    t0 = V.int("draws_before").t
    V.ctx.store[("gh", "tick")] = SInt(t0)
    return t0


def one_of(x, t0, n, upto=3):
    """x is one of the next draws"""
    return T.or_(*[T.eq(x, T.app("rand", T.add(t0, N(j)), N(n))) for j in range(upto)])


@unit("C20", "X25519 wrapping uses one whole fresh 32-byte draw as its ephemeral secret", strict_ffi=True)
def c20_x(V):
    pk, fk = V.bytes("public_key", 32), V.bytes("file_key", 16)
    t0 = draws(V)
    V.assume(T.and_(*[T.not_(libs.all_zero(libs.x25519(T.app("rand", T.add(t0, N(j)), N(32)), pk.t))) for j in range(3)]))
    o = V.attempt(GEN, age_public(V, pk), fk)
    if not o.ok:
        return V.fail("wrapping succeeds (%s)" % o.why())
    a = V.I.items(V.meth(o.val, "dump")[0])
    share = lambda j: b64core(libs.x25519(T.app("rand", T.add(t0, N(j)), N(32)), libs.BASE))
    V.prove("the share is that of a whole draw", T.or_(*[T.eq(tstr(a[0]), share(j)) for j in range(3)]))
    V.prove("which was made for this stanza", T.ge(tint(V.tick()), T.add(t0, N(1))))


@unit("C20", "SSH-Ed25519 wrapping uses one whole fresh 32-byte draw as its ephemeral secret", strict_ffi=True)
def c20_e(V):
    seed, fk = V.bytes("seed", 32), V.bytes("file_key", 16)
    t0 = draws(V)
    pk = T.app("ed_pk", seed.t)
    target = libs.x25519(tweak(pk), T.app("ed_pk_to_curve", pk))
    V.assume(T.not_(libs.all_zero(target)))
    V.assume(T.and_(*[T.not_(libs.all_zero(libs.x25519(T.app("rand", T.add(t0, N(j)), N(32)), target))) for j in range(3)]))
    o = V.attempt(GEN, V.meth(ed_private(V, seed), "public_key"), fk)
    if not o.ok:
        return V.fail("wrapping succeeds (%s)" % o.why())
    a = V.I.items(V.meth(o.val, "dump")[0])
    share = lambda j: b64core(libs.x25519(T.app("rand", T.add(t0, N(j)), N(32)), libs.BASE))
    V.prove("the share is that of a whole draw", T.or_(*[T.eq(tstr(a[1]), share(j)) for j in range(3)]))


@unit("C20", "password wrapping uses one whole fresh 16-byte draw as its salt")
def c20_s(V):
    pw, fk = V.bytes("password"), V.bytes("file_key", 16)
    t0 = draws(V)
    o = V.attempt(GEN, password(V, pw), fk)
    if not o.ok:
        return V.fail("wrapping succeeds (%s)" % o.why())
    a = V.I.items(V.meth(o.val, "dump")[0])
    V.prove("the salt is a whole draw", T.or_(*[T.eq(tstr(a[0]), b64core(T.app("rand", T.add(t0, N(j)), N(16)))) for j in range(3)]))


@unit("C20", "an encryption draws its file key and its nonce separately, in full, and apart from all recipients' draws", hints=[inv_file], budget=300)
def c20_file(V):
    I = V.I
    sh = setup(I)
    kl, keys = V.list("recipients", PUB)
    cl, chunks = V.list("chunks", Sh("bytes"))
    out = libs.stream(I, b"", 0)
    V.assume(T.le(T.length(T.app("CAT", chunks)), N(1 << 46)))
    t0 = draws(V)
    n = T.length(keys)
    pos = [T.add(t0, N(j)) for j in range(3)] + [T.add(t0, n, N(j)) for j in range(4)]
    seen = []

    def generate(I, vals):
        fk = tstr(vals["file_key"])
        i = tint(I.ctx.store.get(("gh", "tick"), 0))
        I.ctx.store[("gh", "tick")] = mkint(T.add(i, N(1)))
        V.prove("the file key every stanza wraps is a whole draw made before", T.or_(*[T.and_(T.eq(fk, T.app("rand", T.add(t0, N(j)), N(16))), T.lt(T.add(t0, N(j)), i)) for j in range(3)]))
        return SOpaque(T.app("wrap", vals["key"].t, fk, i), "wrapped")

    def encrypt(I, vals):
        k = tstr(vals["key"])
        now = tint(V.tick())
        V.prove("the payload key is derived from the file key and a nonce, each a whole draw of its own", T.or_(*[
            T.and_(T.eq(k, hkdf(T.app("rand", q, N(16)), "payload", T.app("rand", f, N(16)))), T.ne(f, q), T.lt(f, now), T.lt(q, now),
                   T.suffixof(T.app("rand", q, N(16)), tstr(libs.content(I, out))))
            for f in pos[:3] for q in pos if q is not f]))
        seen.append(1)
        return SStr(T.app("PENC", k, tstr(vals["data"])), "bytes")

    I.unit_vars = {"keys": keys, "chunks": chunks, "fk": T.app("rand", t0, N(16)), "i0": T.add(t0, N(1)), "sh": sh}
    I.contracts.update({DUMP: k_dump_header(V, sh), GEN: generate, ENC: encrypt})
    o = V.attempt(I.client(CLIENT).ns["encrypt"], kl, out, cl)
    if o.ok:
        V.prove("the payload is encrypted", T.bool_(bool(seen)))


T.declare_uf("PENC", (T.STR, T.STR), T.STR)
