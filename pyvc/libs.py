"""Models of the libraries the code base calls: cryptography, PyNaCl, hashlib,
base64, os.urandom and the io classes.

These are the assumed contracts.  Each one says what the library function
returns as an uninterpreted (or exact) function of its arguments and when it
raises; the algebraic laws that are used are listed with axioms.trust."""

from . import terms as T
from . import axioms
from .core import *  # noqa: F401,F403
from .core import UNDEF
from .interp import is_concrete, kind_of, tint, tbool, tstr
from . import strs
from .stubs import (EXT_ATTR, EXT_CALL, EXT_EXC, EXT_KIND, EXT_BASE_INIT, METHODS, PLAIN_BASES, arg, ext, method, prop, effect, osjoin)

S = T.STR
N = T.INT
B = T.BOOL


def uf(name, args, res, length=None):
    if name not in T.UFS:
        T.declare_uf(name, args, res)
        if length is not None:
            T.LEN_RULE[name] = length if callable(length) else (lambda t, n=length: T.int_(n))
            axioms.on(name)(lambda t: [len_fact(t)])
    return name


def len_fact(t):
    n = T.LEN_RULE[t.val](t)
    if n is None:
        return T.TRUE
    return T.mk("=", tuple(sorted((T.mk("len", (t,), N), n), key=lambda x: x.id)), B)


def bytes_arg(I, v, what="argument"):
    """term of a bytes-like argument; anything else is a TypeError, as in the libraries"""
    if isinstance(v, Poison):
        I.poisoned(v)
    if kind_of(v) in ("bytes", "bytearray"):
        return tstr(I.plain(v))
    if v is UNDEF:
        raise I.exc(TypeError, "missing " + what)
    if isinstance(v, (SOpaque,)):
        raise Unsupported("bytes-like expected: %r" % (v,))
    raise I.exc(TypeError, what + " must be bytes")


def need_len(I, t, n, exc=ValueError, what="length"):
    if not I.ctx.branch(T.eq(T.length(t), T.int_(n))):
        raise I.exc(exc, what)


def B_(t):
    return mkstr(t, "bytes")


def new_ext(I, path, **fields):
    r = Ref(I.ctx.fresh_id(), "obj", ExtRef(path))
    for n, v in fields.items():
        I.ctx.store[("a", r.id, n)] = v
    I.ctx.store[("attrs", r.id)] = tuple(fields)
    return r


def fld(I, r, n):
    v = I.ctx.store.get(("a", r.id, n), UNDEF)
    if isinstance(v, Poison):
        I.poisoned(v)
    return v


def setfld(I, r, n, v):
    if ("frozen", r.id) in I.ctx.store:
        raise Unsupported("mutation of an object whose aliases are not tracked")
    I.ctx.store[("a", r.id, n)] = v


# ---------------------------------------------------------------- exceptions


class InvalidTag(Exception):
    pass


class InvalidSignature(Exception):
    pass


class AlreadyFinalized(Exception):
    pass


class UnsupportedAlgorithm(Exception):
    pass


class BinasciiError(ValueError):
    pass


class StructError(Exception):
    pass


class Exit(RuntimeError):
    pass


class ClickException(Exception):
    pass


class ClickUsageError(ClickException):
    pass


class ClickAbort(RuntimeError):
    pass


class RequestException(IOError):
    pass


class HTTPError(RequestException):
    pass


class UnsupportedOperation(OSError, ValueError):
    pass


for _c in (InvalidTag, InvalidSignature, AlreadyFinalized, UnsupportedAlgorithm):
    EXT_EXC["cryptography.exceptions." + _c.__name__] = _c
EXT_EXC["binascii.Error"] = BinasciiError
EXT_EXC["struct.error"] = StructError
for _n in ("", "exceptions."):
    EXT_EXC["click.%sAbort" % _n] = ClickAbort
    EXT_EXC["click.%sClickException" % _n] = ClickException
    EXT_EXC["click.%sUsageError" % _n] = EXT_EXC["click.%sBadParameter" % _n] = ClickUsageError
    EXT_EXC["click.%sExit" % _n] = Exit
EXT_EXC["io.UnsupportedOperation"] = UnsupportedOperation
EXT_EXC["requests.RequestException"] = EXT_EXC["requests.exceptions.RequestException"] = RequestException
EXT_EXC["requests.HTTPError"] = EXT_EXC["requests.exceptions.HTTPError"] = HTTPError

# ---------------------------------------------------------------- randomness

uf("rand", (N, N), S, lambda t: t.args[1] if T.is_const(t.args[1]) and t.args[1].val >= 0 else None)
axioms.trust("os.urandom", "os.urandom(n) returns n bytes; successive calls are distinct, otherwise unconstrained, draws")


@axioms.on("rand")
def _ax_rand(t):
    n = t.args[1]
    return [T.implies(T.ge(n, T.int_(0)), T.mk("=", tuple(sorted((T.mk("len", (t,), N), n), key=lambda x: x.id)), B))]


@ext("os.urandom", "secrets.token_bytes")
def _urandom(I, a, kw):
    n = arg(a, kw, 0, "size", 32)
    if kind_of(n) not in ("int", "bool"):
        raise I.exc(TypeError, "urandom")
    nt = tint(n)
    if not I.ctx.branch(T.ge(nt, T.int_(0))):
        raise I.exc(ValueError, "negative argument not allowed")
    k = tint(I.ctx.store.get(("gh", "tick"), 0))
    I.ctx.store[("gh", "tick")] = mkint(T.add(k, T.int_(1)))
    return B_(T.app("rand", k, nt))


def gen_bytes(I, hint, n):
    """key material drawn inside a library"""
    t = I.ctx.fresh(hint, S)
    I.ctx.assume(T.eq(T.length(t), T.int_(n)))
    return t


# ---------------------------------------------------------------- ChaCha20-Poly1305

AEAD = "cryptography.hazmat.primitives.ciphers.aead."
uf("chacha_enc", (S, S, S, S), S, lambda t: T.add(T.length(t.args[2]), T.int_(16)))
uf("chacha_ok", (S, S, S, S), B)
uf("chacha_dec", (S, S, S, S), S)
axioms.trust("ChaCha20Poly1305", "ChaCha20Poly1305 of the cryptography package is an AEAD: decrypt(encrypt(x)) = x, ciphertexts are 16 bytes longer, "
             "decrypt succeeds only on encrypt's output for that key, nonce and associated data and raises InvalidTag otherwise; keys have 32 and nonces 12 bytes (ValueError)")


@axioms.on("chacha_enc")
def _ax_enc(t):
    k, n, d, a = t.args
    return [T.app("chacha_ok", k, n, t, a), T.eq(T.app("chacha_dec", k, n, t, a), d)]


@axioms.on("chacha_ok")
def _ax_ok(t):
    k, n, c, a = t.args
    if c.op == "uf" and c.val == "chacha_enc" and c.args[0] is k and c.args[1] is n and c.args[3] is a:
        return [t]
    d = T.app("chacha_dec", k, n, c, a)
    return [T.implies(t, T.and_(T.eq(T.app("chacha_enc", k, n, d, a), c), T.eq(T.length(c), T.add(T.length(d), T.int_(16)))))]


def aead_dec(k, n, c, a):
    """(success condition, plaintext)"""
    if c.op == "uf" and c.val == "chacha_enc" and c.args[0] is k and c.args[1] is n and c.args[3] is a:
        return T.TRUE, c.args[2]
    return T.app("chacha_ok", k, n, c, a), T.app("chacha_dec", k, n, c, a)


@ext(AEAD + "ChaCha20Poly1305")
def _chacha(I, a, kw):
    k = bytes_arg(I, arg(a, kw, 0, "key"), "key")
    need_len(I, k, 32, ValueError, "ChaCha20Poly1305 key must be 32 bytes.")
    return XVal("chacha", key=B_(k))


def _aead_args(I, s, a, kw):
    n = bytes_arg(I, arg(a, kw, 0, "nonce"), "nonce")
    d = bytes_arg(I, arg(a, kw, 1, "data"), "data")
    ad = arg(a, kw, 2, "associated_data")
    if ad is UNDEF:
        raise I.exc(TypeError, "associated_data")
    ad = T.str_("") if ad is None else bytes_arg(I, ad, "associated_data")
    need_len(I, n, 12, ValueError, "Nonce must be 12 bytes")
    return tstr(s.f["key"]), n, d, ad


@method("x:chacha", "encrypt")
def _chacha_encrypt(I, s, a, kw):
    k, n, d, ad = _aead_args(I, s, a, kw)
    h = I.on_ext.get("chacha.encrypt") if hasattr(I, "on_ext") else None
    if h:
        h(I, k, n, d, ad)
    return B_(T.app("chacha_enc", k, n, d, ad))


@method("x:chacha", "decrypt")
def _chacha_decrypt(I, s, a, kw):
    k, n, d, ad = _aead_args(I, s, a, kw)
    ok, pt = aead_dec(k, n, d, ad)
    if not I.ctx.branch(ok):
        raise I.exc(InvalidTag)
    I.ctx.assume(T.eq(T.length(d), T.add(T.length(pt), T.int_(16))))
    return B_(pt)


# ---------------------------------------------------------------- hashes, HMAC, HKDF, scrypt

HASHLEN = {"sha256": 32, "md5": 16, "sha1": 20, "sha512": 64, "sha384": 48, "sha224": 28}
for _h, _n in HASHLEN.items():
    uf(_h, (S,), S, _n)
    uf("hmac_" + _h, (S, S), S, _n)
uf("hkdf_sha256", (S, S, S, N), S, lambda t: t.args[3] if T.is_const(t.args[3]) and t.args[3].val >= 0 else None)
uf("scrypt_kdf", (S, S, N, N, N, N), S, lambda t: t.args[5] if T.is_const(t.args[5]) and t.args[5].val >= 0 else None)
axioms.trust("hash functions", "SHA-256, MD5, HMAC, HKDF and scrypt of hashlib/cryptography are functions of their arguments with results of the stated lengths; "
             "HMAC hashes keys longer than the block size (64 bytes for SHA-256) itself")


@axioms.on("hmac_sha256")
def _ax_hmac(t):
    k, m = t.args
    if k.op == "uf" and k.val == "sha256":
        x = k.args[0]
        return [T.implies(T.gt(T.length(x), T.int_(64)), T.eq(t, T.app("hmac_sha256", x, m)))]
    return []


H = "cryptography.hazmat.primitives.hashes."
for _h in HASHLEN:
    EXT_CALL[H + _h.upper()] = lambda I, a, kw, h=_h: XVal("hash", name=h)


def hash_name(I, v):
    if isinstance(v, XVal) and v.kind == "hash":
        return v.f["name"]
    if isinstance(v, str):
        return v
    if isinstance(v, ExtRef) and v.path.startswith("hashlib."):
        return v.path[8:]
    raise I.exc(TypeError, "Expected instance of hashes.HashAlgorithm.")


def digest(name, t):
    if name not in HASHLEN:
        raise Unsupported("hash " + name)
    return T.app(name, t)


@ext(H + "Hash")
def _hash(I, a, kw):
    return new_ext(I, H + "Hash", alg=hash_name(I, arg(a, kw, 0, "algorithm")), data=b"", done=False)


def _live(I, s):
    if fld(I, s, "done") is not False:
        raise I.exc(AlreadyFinalized, "Context was already finalized.")


@method("ext:" + H + "Hash", "update")
def _hash_update(I, s, a, kw):
    _live(I, s)
    setfld(I, s, "data", B_(T.concat(tstr(fld(I, s, "data")), bytes_arg(I, a[0], "data"))))


@method("ext:" + H + "Hash", "finalize")
def _hash_finalize(I, s, a, kw):
    _live(I, s)
    setfld(I, s, "done", True)
    return B_(digest(fld(I, s, "alg"), tstr(fld(I, s, "data"))))


def _hashlib(name):
    def f(I, a, kw):
        d = arg(a, kw, 0, "string", b"")
        return new_ext(I, "hashlib.hash", alg=name, data=B_(bytes_arg(I, d, "data")))

    return f


for _h in HASHLEN:
    EXT_CALL["hashlib." + _h] = _hashlib(_h)
EXT_CALL["hashlib.new"] = lambda I, a, kw: _hashlib(a[0])(I, a[1:], {})


@method("ext:hashlib.hash", "update")
def _hl_update(I, s, a, kw):
    setfld(I, s, "data", B_(T.concat(tstr(fld(I, s, "data")), bytes_arg(I, a[0], "data"))))


@method("ext:hashlib.hash", "digest")
def _hl_digest(I, s, a, kw):
    return B_(digest(fld(I, s, "alg"), tstr(fld(I, s, "data"))))


@method("ext:hashlib.hash", "hexdigest")
def _hl_hex(I, s, a, kw):
    return I.call(I.getattr(_hl_digest(I, s, a, kw), "hex"), [], {})


CH = "cryptography.hazmat.primitives.hmac.HMAC"


@ext(CH)
def _hmac(I, a, kw):
    k = bytes_arg(I, arg(a, kw, 0, "key"), "key")
    return new_ext(I, CH, key=B_(k), alg=hash_name(I, arg(a, kw, 1, "algorithm")), data=b"", done=False)


def hmac_term(I, alg, k, m):
    if alg not in HASHLEN:
        raise Unsupported("hash " + alg)
    return T.app("hmac_" + alg, k, m)


@method("ext:" + CH, "update")
def _hm_update(I, s, a, kw):
    _live(I, s)
    setfld(I, s, "data", B_(T.concat(tstr(fld(I, s, "data")), bytes_arg(I, a[0], "data"))))


@method("ext:" + CH, "finalize")
def _hm_finalize(I, s, a, kw):
    _live(I, s)
    setfld(I, s, "done", True)
    return B_(hmac_term(I, fld(I, s, "alg"), tstr(fld(I, s, "key")), tstr(fld(I, s, "data"))))


@method("ext:" + CH, "verify")
def _hm_verify(I, s, a, kw):
    tag = bytes_arg(I, arg(a, kw, 0, "signature"), "signature")
    d = _hm_finalize(I, s, [], {})
    if not I.ctx.branch(T.eq(tag, tstr(d))):
        raise I.exc(InvalidSignature, "Signature did not match digest.")


@method("ext:" + CH, "copy")
def _hm_copy(I, s, a, kw):
    return new_ext(I, CH, **{n: fld(I, s, n) for n in ("key", "alg", "data", "done")})


@ext("hmac.new", "hmac.HMAC")
def _std_hmac(I, a, kw):
    k = bytes_arg(I, arg(a, kw, 0, "key"), "key")
    m = arg(a, kw, 1, "msg", None)
    alg = hash_name(I, arg(a, kw, 2, "digestmod"))
    return new_ext(I, "hmac.HMAC", key=B_(k), alg=alg, data=b"" if m is None else B_(bytes_arg(I, m)), done=False)


METHODS["ext:hmac.HMAC"] = {"update": _hm_update, "copy": lambda I, s, a, kw: new_ext(I, "hmac.HMAC", **{n: fld(I, s, n) for n in ("key", "alg", "data", "done")})}


@method("ext:hmac.HMAC", "digest")
def _std_hmac_digest(I, s, a, kw):
    return B_(hmac_term(I, fld(I, s, "alg"), tstr(fld(I, s, "key")), tstr(fld(I, s, "data"))))


@ext("hmac.digest")
def _std_hmac_fn(I, a, kw):
    return B_(hmac_term(I, hash_name(I, a[2]), bytes_arg(I, a[0]), bytes_arg(I, a[1])))


@ext("hmac.compare_digest", "secrets.compare_digest", "cryptography.hazmat.primitives.constant_time.bytes_eq")
def _compare_digest(I, a, kw):
    return mkbool(T.eq(tstr(I.plain(a[0])), tstr(I.plain(a[1]))))


HK = "cryptography.hazmat.primitives.kdf.hkdf.HKDF"


@ext(HK)
def _hkdf(I, a, kw):
    alg = hash_name(I, arg(a, kw, 0, "algorithm"))
    n = arg(a, kw, 1, "length")
    salt = arg(a, kw, 2, "salt")
    info = arg(a, kw, 3, "info")
    if UNDEF in (n, salt, info) if not any(isinstance(x, (SStr, SInt)) for x in (n, salt, info)) else any(x is UNDEF for x in (n, salt, info)):
        raise I.exc(TypeError, "missing argument")
    salt = B_(T.str_("\0" * HASHLEN[alg])) if salt is None else B_(bytes_arg(I, salt, "salt"))
    info = b"" if info is None else B_(bytes_arg(I, info, "info"))
    if not I.ctx.branch(T.le(tint(n), T.int_(255 * HASHLEN[alg]))):
        raise I.exc(ValueError, "Cannot derive keys larger than 255 hash lengths")
    return new_ext(I, HK, alg=alg, length=n, salt=salt, info=info, done=False)


@method("ext:" + HK, "derive")
def _hkdf_derive(I, s, a, kw):
    ikm = bytes_arg(I, arg(a, kw, 0, "key_material"), "key_material")
    _live(I, s)
    setfld(I, s, "done", True)
    alg = fld(I, s, "alg")
    name = uf("hkdf_" + alg, (S, S, S, N), S, lambda t: t.args[3] if T.is_const(t.args[3]) and t.args[3].val >= 0 else None)
    return B_(T.app(name, tstr(fld(I, s, "salt")), tstr(fld(I, s, "info")), ikm, tint(fld(I, s, "length"))))


SC = "cryptography.hazmat.primitives.kdf.scrypt.Scrypt"


@ext(SC)
def _scrypt(I, a, kw):
    salt = bytes_arg(I, arg(a, kw, 0, "salt"), "salt")
    ln, n, r, p = [arg(a, kw, i + 1, nm) for i, nm in enumerate(("length", "n", "r", "p"))]
    if any(x is UNDEF for x in (ln, n, r, p)):
        raise I.exc(TypeError, "missing argument")
    nt = tint(n)
    bad = T.lt(nt, T.int_(2))
    if T.is_const(nt):
        if nt.val < 2 or nt.val & (nt.val - 1):
            raise I.exc(ValueError, "n must be greater than 1 and be a power of 2.")
    elif nt.op == "uf" and nt.val == "pow2":
        if I.ctx.branch(bad):
            raise I.exc(ValueError, "n must be greater than 1 and be a power of 2.")
    else:
        raise Unsupported("scrypt cost that is not a shifted one")
    for x in (r, p):
        if I.ctx.branch(T.lt(tint(x), T.int_(1))):
            raise I.exc(ValueError, "r and p must be positive")
    return new_ext(I, SC, salt=B_(salt), length=ln, n=n, r=r, p=p, done=False)


@method("ext:" + SC, "derive")
def _scrypt_derive(I, s, a, kw):
    pw = bytes_arg(I, arg(a, kw, 0, "key_material"), "key_material")
    _live(I, s)
    setfld(I, s, "done", True)
    h = getattr(I, "on_ext", {}).get("scrypt")
    if h:
        h(I, pw, fld(I, s, "salt"), fld(I, s, "n"), fld(I, s, "r"), fld(I, s, "p"), fld(I, s, "length"))
    return B_(T.app("scrypt_kdf", pw, tstr(fld(I, s, "salt")), *[tint(fld(I, s, x)) for x in ("n", "r", "p", "length")]))


@ext("cryptography.hazmat.backends.default_backend")
def _backend(I, a, kw):
    return XVal("backend")


# ---------------------------------------------------------------- X25519

BASE = T.str_("\x09" + "\0" * 31)
ZERO = T.star(("cls", ((0, 0),)))
uf("x25519", (S, S), S, 32)
uf("scalar_reduce", (S,), S, 32)
uf("ed_pk", (S,), S, 32)
uf("ed_pk_to_curve", (S,), S, 32)
uf("ed_sk_to_curve", (S,), S, 32)
uf("ed_pk_ok", (S,), B)
axioms.trust("X25519", "X25519 (libsodium and cryptography) is a total function of two 32-byte strings with a 32-byte result, and X25519(a, X25519(b, P)) = X25519(b, X25519(a, P)); "
             "libsodium's crypto_scalarmult reads 32 bytes from either operand whatever its length, and may raise RuntimeError for an all-zero result")
axioms.trust("Ed25519 conversion", "the libsodium conversions of an Ed25519 key pair give an X25519 key pair: X25519(sk_to_curve(seed||pk), 9) = pk_to_curve(pk); "
             "scalar reduction takes 64 and returns 32 bytes")


@axioms.on("x25519")
def _ax_x(t):
    a, q = t.args
    out = []
    if q.op == "uf" and q.val == "x25519":
        b, p = q.args
        out.append(T.eq(t, T.app("x25519", b, T.app("x25519", a, p))))
    if a.op == "uf" and a.val == "ed_sk_to_curve" and q is BASE:
        k = a.args[0]
        if k.op == "++" and len(k.args) == 2 and k.args[1].op == "uf" and k.args[1].val == "ed_pk" and k.args[1].args[0] is k.args[0]:
            out.append(T.eq(t, T.app("ed_pk_to_curve", k.args[1])))
    return out


@axioms.on("ed_pk")
def _ax_edpk(t):
    return [T.app("ed_pk_ok", t)]


def x25519(a, b):
    return T.app("x25519", a, b)


def all_zero(t):
    """32-byte strings only"""
    return T.in_re(t, ZERO)


def ffi_len(I, t, n, what):
    """libsodium reads exactly n bytes"""
    if getattr(I, "strict_ffi", False):
        I.ctx.prove("%s gets %d bytes" % (what, n), T.eq(T.length(t), T.int_(n)))


@ext("nacl.bindings.crypto_scalarmult")
def _scalarmult(I, a, kw):
    n = bytes_arg(I, arg(a, kw, 0, "n"), "n")
    p = bytes_arg(I, arg(a, kw, 1, "p"), "p")
    ffi_len(I, n, 32, "crypto_scalarmult")
    ffi_len(I, p, 32, "crypto_scalarmult")
    r = x25519(n, p)
    if I.ctx.branch(all_zero(r)):
        if I.ctx.choose(2) == 0:
            raise I.exc(RuntimeError, "Unexpected library error")
    return B_(r)


@ext("nacl.bindings.crypto_scalarmult_base")
def _scalarmult_base(I, a, kw):
    n = bytes_arg(I, arg(a, kw, 0, "n"), "n")
    ffi_len(I, n, 32, "crypto_scalarmult_base")
    return B_(x25519(n, BASE))


@ext("nacl.bindings.crypto_core_ed25519_scalar_reduce")
def _reduce(I, a, kw):
    s = bytes_arg(I, arg(a, kw, 0, "s"), "s")
    need_len(I, s, 64, TypeError, "Integer s must be a 64 bytes long bytes sequence")
    return B_(T.app("scalar_reduce", s))


@ext("nacl.bindings.crypto_sign_ed25519_pk_to_curve25519")
def _pk2c(I, a, kw):
    p = bytes_arg(I, a[0], "public_key_bytes")
    need_len(I, p, 32, ValueError, "Invalid curve public key")
    if not I.ctx.branch(T.app("ed_pk_ok", p)):
        raise I.exc(RuntimeError, "Unexpected library error")
    return B_(T.app("ed_pk_to_curve", p))


@ext("nacl.bindings.crypto_sign_ed25519_sk_to_curve25519")
def _sk2c(I, a, kw):
    p = bytes_arg(I, a[0], "secret_key_bytes")
    need_len(I, p, 64, ValueError, "Invalid curve secret key")
    return B_(T.app("ed_sk_to_curve", p))


# ---------------------------------------------------------------- key objects of the cryptography package

AS = "cryptography.hazmat.primitives.asymmetric."
SER = "cryptography.hazmat.primitives.serialization."
for _n in ("Raw", "OpenSSH", "PEM", "DER", "X962"):
    EXT_ATTR[SER + "Encoding." + _n] = EXT_ATTR["cryptography.hazmat.primitives.serialization.base.Encoding." + _n] = "Encoding." + _n
for _n in ("Raw", "OpenSSH", "PKCS8", "TraditionalOpenSSL"):
    EXT_ATTR[SER + "PrivateFormat." + _n] = "PrivateFormat." + _n
for _n in ("Raw", "OpenSSH", "PKCS1", "SubjectPublicKeyInfo"):
    EXT_ATTR[SER + "PublicFormat." + _n] = "PublicFormat." + _n
EXT_CALL[SER + "NoEncryption"] = lambda I, a, kw: XVal("noenc")

EXT_KIND.update({
    "x:x_priv": {AS + "x25519.X25519PrivateKey"},
    "x:x_pub": {AS + "x25519.X25519PublicKey"},
    "x:ed_priv": {AS + "ed25519.Ed25519PrivateKey"},
    "x:ed_pub": {AS + "ed25519.Ed25519PublicKey"},
    "x:rsa_priv": {AS + "rsa.RSAPrivateKey"},
    "x:rsa_pub": {AS + "rsa.RSAPublicKey"},
    "x:ec_priv": {AS + "ec.EllipticCurvePrivateKey"},
    "x:dsa_priv": {AS + "dsa.DSAPrivateKey"},
})
for _k, _p in EXT_KIND.items():
    METHODS.setdefault(_k, {})


def raw_pub(I, path, kind, field):
    @ext(AS + path + ".from_public_bytes")
    def f(I, a, kw):
        t = bytes_arg(I, arg(a, kw, 0, "data"), "data")
        need_len(I, t, 32, ValueError, "public key is 32 bytes long")
        return XVal(kind, **{field: B_(t)})


def raw_priv(I, path, kind, field):
    @ext(AS + path + ".from_private_bytes")
    def f(I, a, kw):
        t = bytes_arg(I, arg(a, kw, 0, "data"), "data")
        need_len(I, t, 32, ValueError, "private key is 32 bytes long")
        return XVal(kind, **{field: B_(t)})

    @ext(AS + path + ".generate")
    def g(I, a, kw):
        return XVal(kind, **{field: B_(gen_bytes(I, kind, 32))})


raw_pub(None, "x25519.X25519PublicKey", "x_pub", "raw")
raw_priv(None, "x25519.X25519PrivateKey", "x_priv", "raw")
raw_pub(None, "ed25519.Ed25519PublicKey", "ed_pub", "pk")
raw_priv(None, "ed25519.Ed25519PrivateKey", "ed_priv", "seed")


def _enc_args(a, kw, priv):
    e = arg(a, kw, 0, "encoding")
    f = arg(a, kw, 1, "format")
    if priv:
        return e, f, arg(a, kw, 2, "encryption_algorithm")
    return e, f


@method("x:x_priv", "private_bytes")
def _xp_bytes(I, s, a, kw):
    e, f, n = _enc_args(a, kw, True)
    if (e, f) == ("Encoding.Raw", "PrivateFormat.Raw") and isinstance(n, XVal) and n.kind == "noenc":
        return s.f["raw"]
    raise Unsupported("private_bytes format")


@method("x:x_priv", "private_bytes_raw")
def _xp_raw(I, s, a, kw):
    return s.f["raw"]


@method("x:x_priv", "public_key")
def _xp_pub(I, s, a, kw):
    return XVal("x_pub", raw=B_(x25519(tstr(s.f["raw"]), BASE)))


@method("x:x_priv", "exchange")
def _xp_exchange(I, s, a, kw):
    r = x25519(tstr(s.f["raw"]), tstr(a[0].f["raw"]))
    if I.ctx.branch(all_zero(r)):
        raise I.exc(ValueError, "Error computing shared key.")
    return B_(r)


@method("x:x_pub", "public_bytes")
def _xpub_bytes(I, s, a, kw):
    if _enc_args(a, kw, False) == ("Encoding.Raw", "PublicFormat.Raw"):
        return s.f["raw"]
    raise Unsupported("public_bytes format")


@method("x:x_pub", "public_bytes_raw")
def _xpub_raw(I, s, a, kw):
    return s.f["raw"]


@method("x:ed_priv", "private_bytes")
def _ed_bytes(I, s, a, kw):
    e, f, n = _enc_args(a, kw, True)
    if (e, f) == ("Encoding.Raw", "PrivateFormat.Raw") and isinstance(n, XVal) and n.kind == "noenc":
        return s.f["seed"]
    raise Unsupported("private_bytes format")


@method("x:ed_priv", "public_key")
def _ed_pub(I, s, a, kw):
    return XVal("ed_pub", pk=B_(T.app("ed_pk", tstr(s.f["seed"]))))


SSH_ED = "\0\0\0\x0bssh-ed25519\0\0\0\x20"


@method("x:ed_pub", "public_bytes")
def _edpub_bytes(I, s, a, kw):
    e = _enc_args(a, kw, False)
    if e == ("Encoding.Raw", "PublicFormat.Raw"):
        return s.f["pk"]
    if e == ("Encoding.OpenSSH", "PublicFormat.OpenSSH"):
        return B_(T.concat(T.str_("ssh-ed25519 "), b64std(T.concat(T.str_(SSH_ED), tstr(s.f["pk"])))))
    raise Unsupported("public_bytes format")


# RSA keys are identified by an integer (ghost identity of the modulus and exponent)

uf("rsa_pub_id", (N,), N)
uf("rsa_key_size", (N,), N)
uf("ssh_rsa_wire", (N,), S)
axioms.trust("SSH public keys", "public_bytes(OpenSSH, OpenSSH) is the key type, a space, and the base64 of the SSH wire encoding (exact bytes for Ed25519, a function of the key for RSA); RSA keys have at least 1024 bits")


@axioms.on("ssh_rsa_wire")
def _ax_wire(t):
    return [T.prefixof(T.str_("\0\0\0\x07ssh-rsa"), t)]


@method("x:rsa_priv", "public_key")
def _rsa_pub(I, s, a, kw):
    return XVal("rsa_pub", id=mkint(T.app("rsa_pub_id", tint(s.f["id"]))))


@method("x:rsa_pub", "public_bytes")
def _rsapub_bytes(I, s, a, kw):
    if _enc_args(a, kw, False) == ("Encoding.OpenSSH", "PublicFormat.OpenSSH"):
        return B_(T.concat(T.str_("ssh-rsa "), b64std(T.app("ssh_rsa_wire", tint(s.f["id"])))))
    raise Unsupported("public_bytes format")


@method("x:rsa_pub", "key_size")
@prop
def _rsa_size(I, s):
    return mkint(T.app("rsa_key_size", tint(s.f["id"])))


@method("x:rsa_priv", "key_size")
@prop
def _rsa_psize(I, s):
    return mkint(T.app("rsa_key_size", T.app("rsa_pub_id", tint(s.f["id"]))))


@ext(AS + "rsa.generate_private_key")
def _rsa_gen(I, a, kw):
    return XVal("rsa_priv", id=SInt(I.ctx.fresh("rsa", N)))


PAD = AS + "padding."


@ext(PAD + "MGF1")
def _mgf1(I, a, kw):
    return XVal("mgf1", alg=hash_name(I, arg(a, kw, 0, "algorithm")))


@ext(PAD + "OAEP")
def _oaep(I, a, kw):
    m = arg(a, kw, 0, "mgf")
    h = arg(a, kw, 1, "algorithm")
    lb = arg(a, kw, 2, "label")
    if not (isinstance(m, XVal) and m.kind == "mgf1"):
        raise Unsupported("OAEP mask generation")
    lt = T.str_("") if lb is None else bytes_arg(I, lb, "label")
    return XVal("oaep", mgf=m.f["alg"], alg=hash_name(I, h), label=B_(lt))


EXT_CALL[PAD + "PKCS1v15"] = lambda I, a, kw: XVal("pkcs1v15")

uf("rsa_oaep", (N, S, S, S, N), S)  # public id, hash/mgf, label, plaintext, padding randomness
uf("rsa_oaep_ok", (N, S, S, S), B)  # private id, hash/mgf, label, ciphertext
uf("rsa_oaep_dec", (N, S, S, S), S)
axioms.trust("RSA-OAEP", "RSA-OAEP decryption with the matching private key, hashes and label inverts encryption; decryption raises ValueError when it fails; "
             "messages of up to 62 bytes always fit")


@axioms.on("rsa_oaep_ok", "rsa_oaep_dec")
def _ax_rsa(t):
    k, s, l, c = t.args
    if c.op == "uf" and c.val == "rsa_oaep":
        p, s2, l2, m, _ = c.args
        same = T.and_(T.eq(T.app("rsa_pub_id", k), p), T.eq(s, s2), T.eq(l, l2))
        return [T.implies(same, T.and_(T.app("rsa_oaep_ok", k, s, l, c), T.eq(T.app("rsa_oaep_dec", k, s, l, c), m)))]
    return []


def _suite(p):
    return T.str_("%s/%s" % (p.f["alg"], p.f["mgf"]))


@method("x:rsa_pub", "encrypt")
def _rsa_encrypt(I, s, a, kw):
    m = bytes_arg(I, arg(a, kw, 0, "plaintext"), "plaintext")
    p = arg(a, kw, 1, "padding")
    if not (isinstance(p, XVal) and p.kind == "oaep"):
        raise Unsupported("RSA padding")
    if I.ctx.branch(T.gt(T.length(m), T.int_(62))):
        if I.ctx.choose(2) == 0:
            raise I.exc(ValueError, "Encryption failed")
    rnd = I.ctx.fresh("oaep_seed", N)
    return B_(T.app("rsa_oaep", tint(s.f["id"]), _suite(p), tstr(p.f["label"]), m, rnd))


@method("x:rsa_priv", "decrypt")
def _rsa_decrypt(I, s, a, kw):
    c = bytes_arg(I, arg(a, kw, 0, "ciphertext"), "ciphertext")
    p = arg(a, kw, 1, "padding")
    if not (isinstance(p, XVal) and p.kind == "oaep"):
        raise Unsupported("RSA padding")
    ar = (tint(s.f["id"]), _suite(p), tstr(p.f["label"]), c)
    if not I.ctx.branch(T.app("rsa_oaep_ok", *ar)):
        raise I.exc(ValueError, "Decryption failed")
    return B_(T.app("rsa_oaep_dec", *ar))


# ---------------------------------------------------------------- base64

B64CLS = T.cls_of_set({ord(c) for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"})
B64STAR = T.star(B64CLS)
uf("b64core", (S,), S, lambda t: T.div(T.add(T.scale(4, T.length(t.args[0])), T.int_(2)), T.int_(3)))
uf("b64pad", (N,), S)
uf("b64d", (S,), S)  # lenient decoding of the text followed by enough padding
uf("b64d_ok", (S,), B)
uf("b64ds", (S,), S)  # strict decoding
uf("b64ds_ok", (S,), B)
strs.ASCII_UF.update(("b64core", "b64pad"))
CHARS_UF["b64core"], CHARS_UF["b64pad"] = B64CLS, T.chars("=")
axioms.trust("base64", "base64.b64encode(x) is ceil(4 len(x) / 3) characters of the standard alphabet plus padding to a multiple of four; b64decode inverts it, also when surplus padding follows; "
             "on unpadded text over the alphabet followed by '===' it succeeds iff the length is not 1 modulo 4, yielding floor(3 len / 4) bytes; failures raise binascii.Error, non-ASCII text ValueError")


def b64std(t):
    if T.is_const(t):
        import base64

        return T.str_(base64.b64encode(t.val.encode("latin-1")).decode())
    return T.concat(T.app("b64core", t), T.app("b64pad", T.mod(T.length(t), T.int_(3))))


def b64core(t):
    if T.is_const(t):
        import base64

        return T.str_(base64.b64encode(t.val.encode("latin-1")).decode().rstrip("="))
    return T.app("b64core", t)


@axioms.on("b64core")
def _ax_core(t):
    return [T.in_re(t, B64STAR), T.app("b64d_ok", t), T.eq(T.app("b64d", t), t.args[0])]


@axioms.on("b64pad")
def _ax_pad(t):
    n = t.args[0]
    return [T.eq(t, T.ite(T.eq(n, T.int_(1)), T.str_("=="), T.ite(T.eq(n, T.int_(2)), T.str_("="), T.str_(""))))]


@axioms.on("b64d_ok", "b64d")
def _ax_b64d(t):
    p = t.args[0]
    ok, d = T.app("b64d_ok", p), T.app("b64d", p)
    return [T.implies(T.in_re(p, B64STAR), T.and_(T.eq(ok, T.ne(T.mod(T.length(p), T.int_(4)), T.int_(1))),
                                                  T.implies(ok, T.eq(T.length(d), T.div(T.scale(3, T.length(p)), T.int_(4))))))]


def unpad(I, t):
    """t = p followed by padding that is enough for every length: p; None if that is not evident"""
    parts = list(t.args) if t.op == "++" else [t]
    n = 0
    while parts:
        x = parts[-1]
        if T.is_const(x) and x.sort == S and x.val.strip("=") == "":
            n += len(x.val)
            parts.pop()
        elif T.is_const(x) and x.val.endswith("="):
            k = len(x.val.rstrip("="))
            n += len(x.val) - k
            parts[-1] = T.str_(x.val[:k])
        elif x.op == "uf" and x.val == "b64pad":
            core = parts[-2] if len(parts) > 1 else None
            if core is not None and core.op == "uf" and core.val == "b64core" and T.mod(T.length(core.args[0]), T.int_(3)) is x.args[0]:
                return T.concat_sort(S, *parts[:-1])
            return None
        else:
            break
    if n < 2:
        return None
    return T.concat_sort(S, *parts)


def _b64_input(I, v):
    k = kind_of(v)
    if k == "str":
        t = tstr(v)
        if not I.ctx.branch(strs.is_ascii(t)):
            raise I.exc(ValueError, "string argument should contain only ASCII characters")
        return t
    return bytes_arg(I, v, "s")


@ext("base64.b64encode", "base64.standard_b64encode")
def _b64encode(I, a, kw):
    t = bytes_arg(I, arg(a, kw, 0, "s"), "s")
    if arg(a, kw, 1, "altchars", None) is not None:
        raise Unsupported("altchars")
    return B_(b64std(t))


@ext("base64.b64decode", "base64.standard_b64decode")
def _b64decode(I, a, kw):
    v = arg(a, kw, 0, "s")
    if arg(a, kw, 1, "altchars", None) is not None:
        raise Unsupported("altchars")
    strict = arg(a, kw, 2, "validate", False)
    if is_concrete(v) and is_concrete(strict):
        import base64

        try:
            return base64.b64decode(v, validate=strict)
        except ValueError as e:
            raise I.exc(BinasciiError if type(e) is not ValueError else ValueError, str(e))
        except TypeError as e:
            raise I.exc(TypeError, str(e))
    t = _b64_input(I, v)
    if strict:
        if t.op == "++" and len(t.args) == 2 and t.args[0].op == "uf" and t.args[0].val == "b64core" and b64std(t.args[0].args[0]) is t:
            return B_(t.args[0].args[0])
        if not I.ctx.branch(T.app("b64ds_ok", t)):
            raise I.exc(BinasciiError, "invalid base64")
        return B_(T.app("b64ds", t))
    p = unpad(I, t)
    if p is None:
        name, okn = uf("b64dl", (S,), S), uf("b64dl_ok", (S,), B)
        if not I.ctx.branch(T.app(okn, t)):
            raise I.exc(BinasciiError, "Incorrect padding")
        return B_(T.app(name, t))
    if p.op == "uf" and p.val == "b64core":
        return B_(p.args[0])
    if not I.ctx.branch(T.app("b64d_ok", p)):
        raise I.exc(BinasciiError, "invalid base64")
    return B_(T.app("b64d", p))


@ext("binascii.a2b_base64")
def _a2b(I, a, kw):
    return _b64decode(I, [a[0]], {})


@ext("base64.urlsafe_b64encode", "base64.urlsafe_b64decode", "base64.b32encode", "base64.b16encode")
def _other_b64(I, a, kw):
    raise Unsupported("other base64 variant")


# ---------------------------------------------------------------- streams

RAW = "io.RawIOBase"
BYTES_IO = "io.BytesIO"
STRING_IO = "io.StringIO"
FILE_B = "file:binary"
FILE_T = "file:text"

for _p in (RAW, "io.IOBase", "io.BufferedIOBase", "io.TextIOBase"):
    EXT_BASE_INIT[_p] = lambda I, r: I.ctx.store.__setitem__(("a", r.id, "%closed"), False)

    @method("ext:" + _p, "closed")
    @prop
    def _closed(I, s):
        return fld(I, s, "%closed")

    @method("ext:" + _p, "close")
    def _close(I, s, a, kw):
        if I.truth(fld(I, s, "%closed")):
            return
        I.call(I.getattr(s, "flush"), [], {})
        setfld(I, s, "%closed", True)

    @method("ext:" + _p, "__enter__")
    def _enter(I, s, a, kw):
        if I.truth(I.getattr(s, "closed")):
            raise I.exc(ValueError, "I/O operation on closed file.")
        return s

    @method("ext:" + _p, "__exit__")
    def _exit(I, s, a, kw):
        I.call(I.getattr(s, "close"), [], {})

    @method("ext:" + _p, "flush")
    def _flush(I, s, a, kw):
        if I.truth(fld(I, s, "%closed")):
            raise I.exc(ValueError, "I/O operation on closed file.")

    for _m in ("readable", "writable", "seekable", "isatty"):
        METHODS["ext:" + _p][_m] = lambda I, s, a, kw: False

    @method("ext:" + _p, "__init__")
    def _rinit(I, s, a, kw):
        return None

    @method("ext:" + _p, "__del__")
    def _rdel(I, s, a, kw):
        I.call(I.getattr(s, "close"), [], {})


def stream(I, content=b"", pos=0, kind=BYTES_IO, **more):
    """a stream over known content; `content` is a bytes or str value"""
    r = new_ext(I, kind, **more)
    I.ctx.store[("b", r.id)] = content
    I.ctx.store[("p", r.id)] = pos
    I.ctx.store[("a", r.id, "%closed")] = False
    return r


def content(I, s):
    v = I.ctx.store[("b", s.id)]
    if isinstance(v, Poison):
        I.poisoned(v)
    return v


def position(I, s):
    v = I.ctx.store[("p", s.id)]
    if isinstance(v, Poison):
        I.poisoned(v)
    return v


def text_kind(s):
    return "str" if s.cls.path in (STRING_IO, FILE_T) else "bytes"


def _open_check(I, s):
    if I.truth(fld(I, s, "%closed")):
        raise I.exc(ValueError, "I/O operation on closed file.")


def rest(I, s):
    """what has not been read yet"""
    c, p = tstr(content(I, s)), tint(position(I, s))
    return rest_at(c, p)


def rest_at(c, p):
    # after a line, the rest is what follows the line
    if p.op == "len" and p.args[0].op == "uf" and p.args[0].val == "line1" and p.args[0].args[0] is c:
        return T.app("line_rest", c)
    if p.op == "+":
        for x in p.args:
            if x.op == "len" and x.args[0].op == "uf" and x.args[0].val == "line1":
                q = T.sub(p, x)
                r = rest_at(c, q)
                if r is x.args[0].args[0]:
                    return T.app("line_rest", r)
    return T.substr(c, p, T.sub(T.length(c), p))


def at_end(I, s):
    c, p = tstr(content(I, s)), tint(position(I, s))
    return T.ge(p, T.length(c))


def set_pos(I, s, t):
    I.ctx.store[("p", s.id)] = mkint(t)


def io_write(I, s, a, kw):
    _open_check(I, s)
    k = text_kind(s)
    v = a[0]
    if k == "bytes":
        t = bytes_arg(I, v, "a bytes-like object")
    else:
        if kind_of(v) != "str":
            raise I.exc(TypeError, "string argument expected")
        t = tstr(v)
        if s.cls.path == STRING_IO and not nl_free(I, t):
            pass
    c, p = tstr(content(I, s)), tint(position(I, s))
    n = T.length(c)
    if p is n or I.ctx.entails(T.eq(p, n)):
        new = T.concat_sort(S, c, t)
        I.ctx.store[("b", s.id)] = mkstr(new, k)
        set_pos(I, s, T.length(new))
    else:
        raise Unsupported("write inside a stream")
    return mkint(T.length(t))


def nl_free(I, t):
    return True


def io_read(I, s, a, kw):
    _open_check(I, s)
    n = arg(a, kw, 0, "size", None)
    c, p = tstr(content(I, s)), tint(position(I, s))
    k = text_kind(s)
    if n is not None and kind_of(n) not in ("int", "bool"):
        raise I.exc(TypeError, "argument should be integer or None")
    if n is None or I.ctx.branch(T.lt(tint(n), T.int_(0))):
        set_pos(I, s, T.max_(T.length(c), p) if not I.ctx.entails(T.le(p, T.length(c))) else T.length(c))
        return mkstr(T.substr(c, p, T.sub(T.length(c), p)), k)
    nt = tint(n)
    left = T.sub(T.length(c), p)
    if I.ctx.branch(T.le(nt, left)):
        set_pos(I, s, T.add(p, nt))
        return mkstr(T.substr(c, p, nt), k)
    if I.ctx.branch(T.lt(left, T.int_(0))):
        return mkstr(T.str_(""), k)
    set_pos(I, s, T.length(c))
    return mkstr(T.substr(c, p, left), k)


def io_readline(I, s, a, kw):
    _open_check(I, s)
    if a:
        raise Unsupported("readline with a size")
    return mkstr(next_line(I, s), text_kind(s))


T.declare_uf("line1", (S,), S)  # the first line of a text, with its newline
T.declare_uf("line_rest", (S,), S)  # what follows it
NL = T.str_("\n")
NONL = T.cls_not(T.chars("\n"))
CHARS_UF["line1"] = lambda ctx, t: ctx.chars(t.args[0])
CHARS_UF["line_rest"] = lambda ctx, t: ctx.chars(t.args[0])


@axioms.on("line1", "line_rest")
def _ax_line(t):
    r = t.args[0]
    a, b = T.app("line1", r), T.app("line_rest", r)
    out = [T.eq(r, T.concat(a, b)), T.in_re(a, ("cat", T.star(NONL), ("opt", ("lit", "\n")))),
           T.implies(T.ne(b, T.str_("")), T.in_re(a, ("cat", T.star(NONL), ("lit", "\n")))),
           T.implies(T.ne(r, T.str_("")), T.gt(T.length(a), T.int_(0)))]
    parts = list(r.args) if r.op == "++" else [r]
    pre, conds = [], []
    for i, p in enumerate(parts):
        if T.is_const(p):
            k = p.val.find("\n")
            if k >= 0:
                x = T.concat_sort(S, *pre, T.str_(p.val[:k + 1]))
                y = T.concat_sort(S, T.str_(p.val[k + 1:]), *parts[i + 1:])
                out.append(T.implies(T.and_(*conds), T.and_(T.eq(a, x), T.eq(b, y))))
                break
        else:
            conds.append(T.in_re(p, T.star(NONL)))
        pre.append(p)
    return out


def next_line(I, s):
    r = rest(I, s)
    a = T.app("line1", r)
    if T.is_const(r):
        k = r.val.find("\n")
        a = r if k < 0 else T.str_(r.val[:k + 1])
    set_pos(I, s, T.add(tint(position(I, s)), T.length(a)))
    return a


def io_next_item(I, s):
    _open_check(I, s)
    if I.ctx.branch(at_end(I, s)):
        return False, None
    return True, mkstr(next_line(I, s), text_kind(s))


def io_seek(I, s, a, kw):
    _open_check(I, s)
    w = arg(a, kw, 1, "whence", 0)
    off = tint(a[0])
    if w == 0:
        if not I.ctx.branch(T.ge(off, T.int_(0))):
            raise I.exc(ValueError, "negative seek position")
        set_pos(I, s, off)
    elif w == 1:
        set_pos(I, s, T.max_(T.int_(0), T.add(tint(position(I, s)), off)))
    elif w == 2:
        set_pos(I, s, T.max_(T.int_(0), T.add(T.length(tstr(content(I, s))), off)))
    else:
        raise Unsupported("seek")
    return position(I, s)


def io_tell(I, s, a, kw):
    _open_check(I, s)
    return position(I, s)


def io_getvalue(I, s, a, kw):
    _open_check(I, s)
    return content(I, s)


def io_close(I, s, a, kw):
    setfld(I, s, "%closed", True)


def io_exit(I, s, a, kw):
    I.call(I.getattr(s, "close"), [], {})


def io_enter(I, s, a, kw):
    _open_check(I, s)
    return s


T.declare_uf("LINES", (S,), T.SEQ(S))  # the lines of a text, with their newlines; iteration over them is iteration over the text


def io_readlines(I, s, a, kw):
    _open_check(I, s)
    if a and a[0] not in (None, -1) or kw:
        raise Unsupported("readlines with a limit")
    t = rest(I, s)
    k = text_kind(s)
    set_pos(I, s, T.length(tstr(content(I, s))))
    if T.is_const(t):
        return I.new_list([mkstr(T.str_(x), k) for x in t.val.splitlines(True)] if "\r" not in t.val else [Chunk(T.app("LINES", t), Sh(k))])
    return I.new_list([Chunk(T.app("LINES", t), Sh(k))])


for _p in (BYTES_IO, STRING_IO, FILE_B, FILE_T):
    METHODS["ext:" + _p] = {
        "write": io_write, "read": io_read, "readline": io_readline, "seek": io_seek, "tell": io_tell, "getvalue": io_getvalue,
        "close": io_close, "__enter__": io_enter, "__exit__": io_exit, "__next_item__": io_next_item, "readlines": io_readlines,
        "flush": lambda I, s, a, kw: None, "closed": prop(lambda I, s: fld(I, s, "%closed")),
        "readable": lambda I, s, a, kw: True, "writable": lambda I, s, a, kw: True, "seekable": lambda I, s, a, kw: True,
        "getbuffer": io_getvalue, "readall": lambda I, s, a, kw: io_read(I, s, [], {}),
    }


@ext("io.BytesIO")
def _bytesio(I, a, kw):
    v = arg(a, kw, 0, "initial_bytes", b"")
    return stream(I, b"" if v is None else B_(bytes_arg(I, v)), 0, BYTES_IO)


@ext("io.StringIO")
def _stringio(I, a, kw):
    v = arg(a, kw, 0, "initial_value", "")
    if not is_concrete(v) and not I.ctx.entails(T.not_(T.contains(tstr(v), T.str_("\r")))) and False:
        raise Unsupported("newline translation")
    return stream(I, v, 0, STRING_IO)


axioms.trust("io", "BytesIO, StringIO and file objects hold a byte or character sequence and a position; readline and iteration yield the text up to and including the next newline")


def open_file(I, a, kw):
    h = getattr(I, "fs", None)
    if h is None:
        raise Unsupported("open")
    return h(I, a, kw)


EXT_ATTR["sys.version_info"] = (3, 12, 3)
EXT_ATTR["string.ascii_letters"] = __import__("string").ascii_letters
EXT_ATTR["string.digits"] = "0123456789"
EXT_ATTR["string.ascii_lowercase"] = __import__("string").ascii_lowercase
EXT_ATTR["string.whitespace"] = __import__("string").whitespace


# ---------------------------------------------------------------- textwrap

T.declare_uf("fill", (S, T.INT), S)  # textwrap.fill(text, width, break_on_hyphens=False)
T.declare_uf("WRAP", (S, T.INT), S)  # lines of `width` characters, the last one possibly shorter
axioms.trust("textwrap", "textwrap.fill(text, width, break_on_hyphens=False) of a text without white space cuts it into lines of `width` characters")
CHARS_UF["WRAP"] = lambda ctx, t: _with_nl(ctx.chars(t.args[0]))


def _with_nl(c):
    return None if c is None else T.cls_union([c, T.chars("\n")])


NOWS = T.star(T.cls_not(strs.WS_STR))


@axioms.on("fill")
def _ax_fill(t):
    s, w = t.args
    return [T.implies(T.and_(T.in_re(s, NOWS), T.gt(w, T.int_(0))), T.eq(t, T.app("WRAP", s, w))),
            T.implies(strs.is_ascii(s), strs.is_ascii(t))]


@axioms.define("WRAP", (S, T.INT), S)
def _ax_wrap(t):
    s, w = t.args
    n = T.length(s)
    return [T.implies(T.le(n, w), T.eq(t, s)),
            T.implies(T.and_(T.gt(n, w), T.gt(w, T.int_(0))), T.eq(t, T.concat(T.substr(s, T.int_(0), w), T.str_("\n"), T.app("WRAP", T.substr(s, w, T.sub(n, w)), w))))]


@ext("textwrap.fill")
def _fill(I, a, kw):
    text, w = a[0], arg(a, kw, 1, "width", 70)
    kw = {k: v for k, v in kw.items() if k not in ("width", "break_on_hyphens")} if kw.get("break_on_hyphens") is False else dict(kw, h=1)
    if kw.keys() - {"width"} or not isinstance(w, int) or w <= 0 or kind_of(text) != "str":
        raise Unsupported("textwrap.fill with these options")
    return mkstr(T.app("fill", tstr(text), T.int_(w)), "str")

from . import syslib  # noqa: E402,F401  (operating system, HTTP, regular expressions)

from . import keylib  # noqa: E402,F401  (key files)
