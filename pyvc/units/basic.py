"""C14 header base64, C15 primitives, C07-C10 wrapping."""

from .. import terms as T
from ..core import *  # noqa: F401,F403
from ..interp import tstr, tint, tbool
from ..unit import unit
from .. import libs
from ..libs import b64core, B64STAR, x25519, BASE, all_zero, InvalidSignature, InvalidTag

S = T.str_
N = T.int_


def ln(v):
    return T.length(tstr(v))


# ---------------------------------------------------------------- C14


@unit("C14", "encode gives unpadded standard base64 and decode inverts it")
def c14_encode(V):
    x = V.bytes("data")
    o = V.attempt("age.primitives.encode.encode", x)
    if not o.ok:
        return V.fail("encode accepts every byte string (%s)" % o.why())
    V.eq("encode(data) is the unpadded base64 of data", o.val, SStr(b64core(x.t), "str"))
    d = V.attempt("age.primitives.encode.decode", o.val)
    if not d.ok:
        return V.fail("decode accepts what encode produced (%s)" % d.why())
    V.eq("decode(encode(data)) == data", d.val, x)


@unit("C14", "decode accepts and refuses by length")
def c14_decode(V):
    x = V.str("text")
    V.assume(T.in_re(x.t, B64STAR))
    o = V.attempt("age.primitives.encode.decode", x)
    bad = T.eq(T.mod(T.length(x.t), N(4)), N(1))
    if o.ok:
        V.prove("text of length 1 modulo 4 is refused", T.not_(bad))
    else:
        V.prove("only text of length 1 modulo 4 is refused", bad)
        V.prove("the refusal is a ValueError", T.bool_(o.is_exc(ValueError)))


@unit("C14", "wrong types are refused")
def c14_types(V):
    which = V.ctx.choose(5)
    f, v = [("encode", V.str("s")), ("encode", None), ("encode", V.int("n")), ("decode", V.bytes("b")), ("decode", None)][which]
    o = V.attempt("age.primitives.encode." + f, v)
    V.prove("%s of a wrong type raises TypeError" % f, T.bool_(o.is_exc(TypeError)))


# ---------------------------------------------------------------- C15


def mac_of(V, k):
    return V.call("age.primitives.hmac.HMAC", k)


@unit("C15", "HMAC.generate is HMAC-SHA256 for keys of every length")
def c15_generate(V):
    k, m = V.bytes("key"), V.bytes("message")
    o = V.attempt_do(lambda: V.meth(mac_of(V, k), "generate", m))
    if not o.ok:
        return V.fail("HMAC accepts every key and message (%s)" % o.why())
    V.eq("HMAC(key).generate(message) == HMAC-SHA256(key, message)", o.val, SStr(T.app("hmac_sha256", k.t, m.t), "bytes"))


@unit("C15", "HMAC.verify and is_valid accept exactly the tag")
def c15_verify(V):
    k, m, t = V.bytes("key"), V.bytes("message"), V.bytes("tag")
    good = T.eq(t.t, T.app("hmac_sha256", k.t, m.t))
    o = V.attempt_do(lambda: V.meth(mac_of(V, k), "verify", m, t))
    if o.ok:
        V.prove("verify accepts only the tag", good)
    else:
        V.prove("verify refuses only wrong tags", T.not_(good))
        V.prove("verify raises InvalidSignature", T.bool_(o.is_exc(InvalidSignature)))
    o = V.attempt_do(lambda: V.meth(mac_of(V, k), "is_valid", m, t))
    if not o.ok:
        return V.fail("is_valid does not raise (%s)" % o.why())
    V.prove("is_valid is true exactly for the tag", T.eq(V.I.truth_term(o.val), good))


@unit("C15", "hkdf is HKDF-SHA256 with the arguments in their roles")
def c15_hkdf(V):
    salt, label, key, n = V.bytes("salt"), V.bytes("label"), V.bytes("key"), V.int("length")
    V.assume(T.and_(T.le(N(0), n.t), T.le(n.t, N(255 * 32))))
    o = V.attempt("age.primitives.hkdf.hkdf", salt, label, key, n)
    if not o.ok:
        return V.fail("hkdf accepts all inputs (%s)" % o.why())
    V.eq("hkdf(salt, label, key, n)", o.val, SStr(T.app("hkdf_sha256", salt.t, label.t, key.t, n.t), "bytes"))


@unit("C15", "sha256 is SHA-256")
def c15_sha(V):
    x = V.bytes("data")
    o = V.attempt("age.primitives.hashes.sha256", x)
    if not o.ok:
        return V.fail("sha256 accepts every byte string (%s)" % o.why())
    V.eq("sha256(data)", o.val, SStr(T.app("sha256", x.t), "bytes"))


ZERO12 = T.str_("\0" * 12)


@unit("C15", "file-key sealing is ChaCha20-Poly1305 with a zero nonce")
def c15_seal(V):
    k, m = V.bytes("key"), V.bytes("plaintext")
    o = V.attempt("age.primitives.encrypt.encrypt", k, m)
    if o.ok:
        V.prove("only 32-byte keys seal", T.eq(ln(k), N(32)))
        V.eq("encrypt(key, m)", o.val, SStr(T.app("chacha_enc", k.t, ZERO12, m.t, S("")), "bytes"))
        d = V.attempt("age.primitives.encrypt.decrypt", k, o.val)
        if not d.ok:
            return V.fail("decrypt opens what encrypt sealed (%s)" % d.why())
        V.eq("decrypt(key, encrypt(key, m)) == m", d.val, m)
    else:
        V.prove("only keys of another size are refused", T.ne(ln(k), N(32)))


@unit("C15", "opening accepts only what sealing produced")
def c15_open(V):
    k, c = V.bytes("key", 32), V.bytes("ciphertext")
    d = V.attempt("age.primitives.encrypt.decrypt", k, c)
    if d.ok:
        V.prove("an opened ciphertext is the sealing of the result", T.eq(c.t, T.app("chacha_enc", k.t, ZERO12, tstr(d.val), S(""))))
    else:
        V.prove("a refused ciphertext is no sealing", T.not_(T.app("chacha_ok", k.t, ZERO12, c.t, S(""))))
        V.prove("the refusal is InvalidTag", T.bool_(d.is_exc(InvalidTag)))


# ---------------------------------------------------------------- wrapping: common

GEN = "age.recipients.helpers.generate_recipient_from_key"
LOAD = "age.recipients.helpers.get_recipient"


def wrap(V, key, fk):
    """(tag, args, body) of the stanza generated for a key; plus the random draws it made"""
    t0 = V.tick()
    r = V.call(GEN, key, fk)
    d = V.meth(r, "dump")
    args, body = d
    its = V.I.items(args) if isinstance(args, Ref) else tuple(args)
    t1 = V.tick()
    return V.attr(r, "TAG"), its, body, range(t0, t1)


def unwrap(V, tag, args, body, key):
    r = V.call(LOAD, tag, V.I.new_list(list(args)), body)
    return V.meth(r, "decrypt", key)


def stanza_is(V, what, got, tag, wants, rnds, n):
    """the stanza has the tag, and for one of the random draws the specified arguments and body"""
    gtag, gargs, gbody, draws = got
    V.eq(what + ": tag", gtag, tag)
    alts = []
    for t in draws:
        args, body = wants(T.app("rand", N(t), N(n)))
        if len(args) != len(gargs):
            continue
        if not all(isinstance(x, (str, SStr)) and (isinstance(x, str) or x.kind == "str") for x in tuple(gargs) + (gbody,)):
            continue
        alts.append(T.and_(*[T.eq(tstr(x), y) for x, y in zip(gargs, args)], T.eq(tstr(gbody), body)))
    V.prove(what + ": arguments and body as specified", T.or_(*alts))


LX = S("age-encryption.org/v1/X25519")


def seal(key, m):
    return T.app("chacha_enc", key, ZERO12, m, S(""))


def x_key(shared, salt):
    return T.app("hkdf_sha256", salt, LX, shared, N(32))


def x_stanza(eph, pub, fk):
    share = x25519(eph, BASE)
    return [b64core(share)], b64core(seal(x_key(x25519(eph, pub), T.concat(share, pub)), fk))


def age_public(V, raw):
    return V.call("age.keys.agekey.AgePublicKey.from_public_bytes", raw)


def age_private(V, raw):
    return V.call("age.keys.agekey.AgePrivateKey.from_private_bytes", raw)


# ---------------------------------------------------------------- C07


@unit(("C07", "C01?"), "wrapping for an X25519 key", strict_ffi=True)
def c07_wrap(V):
    pub, fk = V.bytes("public", 32), V.bytes("file_key")
    key = age_public(V, pub)
    t0 = V.tick()
    o = V.attempt_do(lambda: wrap(V, key, fk))
    if o.ok:
        stanza_is(V, "X25519 stanza", o.val, "X25519", lambda e: x_stanza(e, pub.t, fk.t), None, 32)
        V.prove("an all-zero shared secret is refused", T.not_(T.and_(*[all_zero(x25519(T.app("rand", N(t), N(32)), pub.t)) for t in o.val[3]])))
    else:
        V.prove("only an all-zero shared secret is refused (%s)" % o.why(), T.or_(*[all_zero(x25519(T.app("rand", N(t), N(32)), pub.t)) for t in range(t0, V.tick())]))


@unit(("C07", "C01?"), "unwrapping with the matching X25519 key", strict_ffi=True)
def c07_unwrap(V):
    raw, eph, fk = V.bytes("private", 32), V.bytes("ephemeral", 32), V.bytes("file_key")
    key = age_private(V, raw)
    V.eq("the public key belongs to the private key", V.meth(V.meth(key, "public_key"), "public_bytes"), SStr(x25519(raw.t, BASE), "bytes"))
    pub = x25519(raw.t, BASE)
    V.assume(T.not_(all_zero(x25519(eph.t, pub))))
    args, body = x_stanza(eph.t, pub, fk.t)
    o = V.attempt_do(lambda: unwrap(V, "X25519", [SStr(a, "str") for a in args], SStr(body, "str"), key))
    if not o.ok:
        return V.fail("the matching key unwraps (%s)" % o.why())
    V.eq("unwrapping gives back the file key", o.val, fk)


@unit("C07", "malformed X25519 shares are refused", strict_ffi=True)
def c07_refuse(V):
    raw, share, ct = V.bytes("private", 32), V.bytes("share"), V.bytes("sealed")
    key = age_private(V, raw)
    o = V.attempt_do(lambda: unwrap(V, "X25519", [SStr(b64core(share.t), "str")], SStr(b64core(ct.t), "str"), key))
    if o.ok:
        V.prove("a share that is not 32 bytes is refused", T.eq(ln(share), N(32)))
        V.prove("an all-zero shared secret is refused", T.not_(all_zero(x25519(raw.t, share.t))))
        V.prove("the result is what was sealed", T.eq(ct.t, seal(x_key(x25519(raw.t, share.t), T.concat(share.t, x25519(raw.t, BASE))), tstr(o.val))))
    else:
        k = x_key(x25519(raw.t, share.t), T.concat(share.t, x25519(raw.t, BASE)))
        V.prove("only bad shares and ciphertexts are refused (%s)" % o.why(),
                T.or_(T.ne(ln(share), N(32)), all_zero(x25519(raw.t, share.t)), T.not_(T.app("chacha_ok", k, ZERO12, ct.t, S("")))))


# ---------------------------------------------------------------- C08

LE = S("age-encryption.org/v1/ssh-ed25519")


def ed_wire(pk):
    return T.concat(S(libs.SSH_ED), pk)


def tweak(pk):
    return T.app("scalar_reduce", T.app("hkdf_sha256", ed_wire(pk), LE, S(""), N(64)))


def fpr(wire):
    return T.substr(T.app("sha256", wire), N(0), N(4))


def ed_stanza(eph, pk, fk):
    w = ed_wire(pk)
    target = x25519(tweak(pk), T.app("ed_pk_to_curve", pk))
    args, body = x_stanza(eph, target, fk)
    return [b64core(fpr(w))] + args, body


def ed_private(V, seed):
    return V.call("age.keys.ed25519.Ed25519PrivateKey", XVal("ed_priv", seed=seed))


def ed_public(V, pk):
    return V.call("age.keys.ed25519.Ed25519PublicKey", XVal("ed_pub", pk=pk))


@unit(("C08", "C01?"), "wrapping for an SSH-Ed25519 key", strict_ffi=True)
def c08_wrap(V):
    seed, fk = V.bytes("seed", 32), V.bytes("file_key")
    pk = T.app("ed_pk", seed.t)
    key = V.meth(ed_private(V, seed), "public_key")
    t0 = V.tick()
    o = V.attempt_do(lambda: wrap(V, key, fk))
    target = x25519(tweak(pk), T.app("ed_pk_to_curve", pk))
    if o.ok:
        stanza_is(V, "ssh-ed25519 stanza", o.val, "ssh-ed25519", lambda e: ed_stanza(e, pk, fk.t), None, 32)
    else:
        V.prove("only all-zero points are refused (%s)" % o.why(), T.or_(all_zero(target), *[all_zero(x25519(T.app("rand", N(t), N(32)), target)) for t in range(t0, V.tick())]))


@unit(("C08", "C01?"), "unwrapping with the matching SSH-Ed25519 key", strict_ffi=True)
def c08_unwrap(V):
    seed, eph, fk = V.bytes("seed", 32), V.bytes("ephemeral", 32), V.bytes("file_key")
    pk = T.app("ed_pk", seed.t)
    key = ed_private(V, seed)
    target = x25519(tweak(pk), T.app("ed_pk_to_curve", pk))
    sk = T.app("ed_sk_to_curve", T.concat(seed.t, pk))
    for p in (target, x25519(eph.t, target), x25519(tweak(pk), x25519(eph.t, BASE)), x25519(sk, x25519(tweak(pk), x25519(eph.t, BASE)))):
        V.assume(T.not_(all_zero(p)))
    args, body = ed_stanza(eph.t, pk, fk.t)
    o = V.attempt_do(lambda: unwrap(V, "ssh-ed25519", [SStr(a, "str") for a in args], SStr(body, "str"), key))
    if not o.ok:
        return V.fail("the matching key unwraps (%s)" % o.why())
    V.eq("unwrapping gives back the file key", o.val, fk)


@unit("C08", "another fingerprint is refused; key conversions agree", strict_ffi=True)
def c08_refuse(V):
    seed, fp, share, ct = V.bytes("seed", 32), V.bytes("fingerprint"), V.bytes("share"), V.bytes("sealed")
    pk = T.app("ed_pk", seed.t)
    key = ed_private(V, seed)
    if V.ctx.choose(2) == 0:
        a = V.meth(V.meth(V.meth(key, "to_age_private_key"), "public_key"), "public_bytes")
        b = V.meth(V.meth(V.meth(key, "public_key"), "to_age_public_key"), "public_bytes")
        V.eq("the Curve25519 forms of private and public key belong together", a, b)
        V.eq("the Curve25519 public key is the converted Ed25519 key", b, SStr(T.app("ed_pk_to_curve", pk), "bytes"))
        V.eq("the SSH wire encoding", V.meth(V.meth(key, "public_key"), "binary_encoding"), SStr(ed_wire(pk), "bytes"))
        return
    o = V.attempt_do(lambda: unwrap(V, "ssh-ed25519", [SStr(b64core(fp.t), "str"), SStr(b64core(share.t), "str")], SStr(b64core(ct.t), "str"), key))
    if o.ok:
        V.prove("a different fingerprint is refused", T.eq(fp.t, fpr(ed_wire(pk))))
        V.prove("a share that is not 32 bytes is refused", T.eq(ln(share), N(32)))


# ---------------------------------------------------------------- C09

LR = S("age-encryption.org/v1/ssh-rsa")
OAEP = S("sha256/sha256")


def rsa_private(V, i):
    return V.call("age.keys.rsa.RSAPrivateKey", XVal("rsa_priv", id=i))


def rsa_public(V, i):
    return V.call("age.keys.rsa.RSAPublicKey", XVal("rsa_pub", id=i))


@unit(("C09", "C01?"), "wrapping for an SSH-RSA key and unwrapping with the matching key")
def c09_wrap(V):
    i, fk = V.int("private_key"), V.bytes("file_key", 16)
    priv = rsa_private(V, i)
    pid = T.app("rsa_pub_id", i.t)
    o = V.attempt_do(lambda: wrap(V, V.meth(priv, "public_key"), fk))
    if not o.ok:
        return V.fail("wrapping succeeds (%s)" % o.why())
    tag, args, body, _ = o.val
    V.eq("tag", tag, "ssh-rsa")
    if len(args) != 1:
        return V.fail("one argument")
    w = T.app("ssh_rsa_wire", pid)
    V.eq("fingerprint argument", args[0], SStr(b64core(fpr(w)), "str"))
    # the body decodes to an OAEP encryption of the file key
    t = tstr(body)
    ct = T.app("b64d", t)
    dec = V.attempt("age.primitives.encode.decode", body)
    if not dec.ok:
        return V.fail("the body is base64 (%s)" % dec.why())
    V.prove("the body opens with RSA-OAEP (SHA-256, label) to the file key", T.and_(
        T.app("rsa_oaep_ok", i.t, OAEP, LR, tstr(dec.val)), T.eq(T.app("rsa_oaep_dec", i.t, OAEP, LR, tstr(dec.val)), fk.t)))
    V.eq("the body is unpadded base64", body, SStr(b64core(tstr(dec.val)), "str"))
    u = V.attempt_do(lambda: unwrap(V, "ssh-rsa", list(args), body, priv))
    if not u.ok:
        return V.fail("the matching key unwraps (%s)" % u.why())
    V.eq("unwrapping gives back the file key", u.val, fk)


@unit("C09", "another fingerprint is refused; unwrapping is RSA-OAEP decryption")
def c09_refuse(V):
    i, fp, ct = V.int("private_key"), V.bytes("fingerprint"), V.bytes("ciphertext")
    priv = rsa_private(V, i)
    w = T.app("ssh_rsa_wire", T.app("rsa_pub_id", i.t))
    o = V.attempt_do(lambda: unwrap(V, "ssh-rsa", [SStr(b64core(fp.t), "str")], SStr(b64core(ct.t), "str"), priv))
    good = T.and_(T.eq(fp.t, fpr(w)), T.app("rsa_oaep_ok", i.t, OAEP, LR, ct.t))
    if o.ok:
        V.prove("a different fingerprint or ciphertext is refused", good)
        V.eq("the result is the OAEP plaintext", o.val, SStr(T.app("rsa_oaep_dec", i.t, OAEP, LR, ct.t), "bytes"))
    else:
        V.prove("only those are refused (%s)" % o.why(), T.not_(good))
        V.prove("a different fingerprint raises ValueError", T.bool_(o.is_exc(ValueError)))


# ---------------------------------------------------------------- C10

LS = S("age-encryption.org/v1/scrypt")


def scrypt_key(pw, salt, factor):
    return T.app("scrypt_kdf", pw, T.concat(LS, salt), T.app("pow2", factor) if not T.is_const(factor) else N(1 << factor.val), N(8), N(1), N(32))


def password(V, pw):
    return V.call("age.keys.password.PasswordKey", pw)


def no_kdf(V):
    runs = []
    V.I.on_ext["scrypt"] = lambda I, *a: runs.append(a)
    return runs


@unit(("C10", "C01?"), "wrapping under a password")
def c10_wrap(V):
    pw, fk = V.bytes("password"), V.bytes("file_key")
    key = password(V, pw)
    t0 = V.tick()
    o = V.attempt_do(lambda: wrap(V, key, fk))
    if not o.ok:
        return V.fail("wrapping succeeds (%s)" % o.why())
    tag, args, body, draws = o.val
    V.eq("tag", tag, "scrypt")
    if len(args) != 2:
        return V.fail("two arguments")
    alts = []
    for f in range(1, 23):
        for t in draws:
            salt = T.app("rand", N(t), N(16))
            alts.append(T.and_(T.eq(tstr(args[0]), b64core(salt)), T.eq(tstr(args[1]), S(str(f))), T.eq(tstr(body), b64core(seal(scrypt_key(pw.t, salt, N(f)), fk.t)))))
    V.prove("salt, work factor and body as specified", T.or_(*alts))


@unit("C10", "wrapping with a chosen work factor")
def c10_factor(V):
    pw, fk, f = V.bytes("password"), V.bytes("file_key"), V.int("factor")
    key = password(V, pw)
    runs = no_kdf(V)
    t0 = V.tick()
    o = V.attempt("age.algorithms.scrypt.scrypt_encrypt_file_key", key, fk, f)
    inside = T.and_(T.le(N(1), f.t), T.le(f.t, N(22)))
    if o.ok:
        V.prove("a work factor outside 1 to 22 is refused", inside)
        if not isinstance(o.val, tuple) or len(o.val) != 3:
            return V.fail("salt, factor and sealed key are returned")
        s, c, e = o.val
        V.prove("salt, work factor and sealed key as specified", T.or_(*[T.and_(
            T.eq(tstr(s), T.app("rand", N(t), N(16))), T.eq(tint(c), f.t), T.eq(tstr(e), seal(scrypt_key(pw.t, T.app("rand", N(t), N(16)), f.t), fk.t))) for t in range(t0, V.tick())]))
        u = V.attempt("age.algorithms.scrypt.scrypt_decrypt_file_key", key, s, c, e)
        if not u.ok:
            return V.fail("the same password unwraps (%s)" % u.why())
        V.eq("unwrapping gives back the file key", u.val, fk)
    else:
        V.prove("every work factor from 1 to 22 is accepted (%s)" % o.why(), T.not_(inside))
        V.prove("the refusal is a ValueError", T.bool_(o.is_exc(ValueError)))
        V.prove("no key derivation has run", T.bool_(not runs))


@unit(("C10", "C01?"), "unwrapping under a password")
def c10_unwrap(V):
    pw, salt, ct, f = V.bytes("password"), V.bytes("salt"), V.bytes("sealed"), V.int("factor")
    key = password(V, pw)
    runs = no_kdf(V)
    o = V.attempt_do(lambda: unwrap(V, "scrypt", [SStr(b64core(salt.t), "str"), SStr(T.app("str_of_int", f.t), "str")], SStr(b64core(ct.t), "str"), key))
    inside = T.and_(T.le(N(1), f.t), T.le(f.t, N(22)))
    k = scrypt_key(pw.t, salt.t, f.t)
    ok = T.app("chacha_ok", k, ZERO12, ct.t, S(""))
    if o.ok:
        V.prove("a work factor outside 1 to 22 is refused", inside)
        V.prove("the result is what was sealed", T.eq(ct.t, seal(k, tstr(o.val))))
    else:
        V.prove("the stanza of this password is accepted (%s)" % o.why(), T.not_(T.and_(inside, ok)))
        outside = T.not_(inside)
        V.prove("outside 1 to 22 the refusal is a ValueError before any key derivation", T.implies(outside, T.bool_(o.is_exc(ValueError) and not runs)))
