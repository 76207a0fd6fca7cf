"""Models for key files, by contract: struct, namedtuple, bcrypt, AES-CTR, the numbers of RSA, DSA and ECDSA keys."""

import struct as _struct

from . import terms as T
from . import axioms, libs
from .core import *  # noqa: F401,F403
from .interp import is_concrete, kind_of, tint, tstr
from .libs import AS, B_, StructError, bytes_arg, uf
from .stubs import METHODS, arg, ext, int_from_bytes, method

S, N, B = T.STR, T.INT, T.BOOL

# ---------------------------------------------------------------- struct

WIDTH = {"B": 1, "H": 2, "I": 4, "L": 4, "Q": 8}


def layout(fmt):
    """[(width or (number of bytes,))] of a format with standard sizes"""
    f = fmt.decode() if isinstance(fmt, bytes) else fmt
    if not isinstance(f, str) or f[:1] not in (">", "!"):
        raise Unsupported("struct format")
    out, n = [], ""
    for c in f[1:]:
        if c.isdigit():
            n += c
        elif c == "s":
            out.append((int(n or 1),))
            n = ""
        elif c in WIDTH:
            out += [WIDTH[c]] * int(n or 1)
            n = ""
        elif c != " ":
            raise Unsupported("struct format")
    return out


@ext("struct.calcsize")
def _calcsize(I, a, kw):
    layout(a[0])
    return _struct.calcsize(a[0])


def unpack(I, fmt, t):
    out, p = [], 0
    for w in layout(fmt):
        k = w[0] if isinstance(w, tuple) else w
        x = B_(T.substr(t, T.int_(p), T.int_(k)) if (p, k) != (0, _struct.calcsize(fmt)) else t)
        out.append(x if isinstance(w, tuple) else int_from_bytes(I, [x], {"byteorder": "big"}))
        p += k
    return tuple(out)


@ext("struct.unpack")
def _unpack(I, a, kw):
    t = bytes_arg(I, a[1], "buffer")
    n = _struct.calcsize(a[0]) if layout(a[0]) is not None else 0
    if not I.ctx.branch(T.eq(T.length(t), T.int_(n))):
        raise I.exc(StructError, "unpack requires a buffer of %d bytes" % n)
    return unpack(I, a[0], t)


@ext("struct.unpack_from")
def _unpack_from(I, a, kw):
    t = bytes_arg(I, arg(a, kw, 1, "buffer"), "buffer")
    o = tint(arg(a, kw, 2, "offset", 0))
    n = _struct.calcsize(a[0]) if layout(a[0]) is not None else 0
    if not I.ctx.entails(T.ge(o, T.int_(0))):
        raise Unsupported("negative offset")
    if not I.ctx.branch(T.ge(T.length(t), T.add(o, T.int_(n)))):
        raise I.exc(StructError, "unpack_from requires a longer buffer")
    return unpack(I, a[0], T.substr(t, o, T.int_(n)))


# ---------------------------------------------------------------- namedtuple


@ext("collections.namedtuple")
def _namedtuple(I, a, kw):
    name, fields = a[0], arg(a, kw, 1, "field_names")
    if isinstance(fields, str):
        fields = tuple(fields.replace(",", " ").split())
    elif isinstance(fields, Ref):
        fields = tuple(I.items(fields))
    if set(kw) - {"field_names"} or not isinstance(name, str) or not all(isinstance(x, str) for x in fields):
        raise Unsupported("namedtuple with options")
    return XVal("namedtuple_class", **{"%name": name, "%fields": tuple(fields)})


@method("x:namedtuple_class", "__call__")
def _nt_new(I, f, a, kw):
    names = f.f["%fields"]
    vals = dict(zip(names, a))
    if len(a) > len(names) or set(kw) & set(vals) or set(vals) | set(kw) != set(names):
        raise I.exc(TypeError, "wrong arguments for a namedtuple")
    vals.update(kw)
    return XVal("namedtuple", **{n: vals[n] for n in names})


METHODS.setdefault("x:namedtuple", {})


@method("x:namedtuple", "__getitem__")
def _nt_item(I, s, a, kw):
    if not isinstance(a[0], int):
        raise Unsupported("index of a namedtuple")
    v = list(s.f.values())
    if not -len(v) <= a[0] < len(v):
        raise I.exc(IndexError, "tuple index out of range")
    return v[a[0]]


# ---------------------------------------------------------------- bcrypt and AES in counter mode

axioms.trust("bcrypt.kdf", "bcrypt.kdf is a function of password, salt, output length and rounds with an output of the requested length; it refuses empty passwords and salts and less than one round")
axioms.trust("AES-CTR", "AES in counter mode is a function of key, counter and data that keeps the length; decryption in one update gives all data")
uf("bcrypt_kdf", (S, S, N, N), S, lambda t: T.max_(T.int_(0), t.args[2]))
uf("aes_ctr", (S, S, S), S, lambda t: T.length(t.args[2]))


@ext("bcrypt.kdf")
def _bcrypt(I, a, kw):
    pw, salt = (bytes_arg(I, arg(a, kw, i, n), n) for i, n in ((0, "password"), (1, "salt")))
    n, rounds = tint(arg(a, kw, 2, "desired_key_bytes")), tint(arg(a, kw, 3, "rounds"))
    for c, m in ((T.eq(pw, T.str_("")), "password and salt must not be empty"), (T.eq(salt, T.str_("")), "password and salt must not be empty"),
                 (T.or_(T.le(n, T.int_(0)), T.gt(n, T.int_(512))), "desired_key_bytes must be 1-512"), (T.lt(rounds, T.int_(1)), "rounds must be 1 or more")):
        if I.ctx.branch(c):
            raise I.exc(ValueError, m)
    return B_(T.app("bcrypt_kdf", pw, salt, n, rounds))


CI = "cryptography.hazmat.primitives.ciphers."


@ext(CI + "algorithms.AES", CI + "algorithms.AES256", CI + "algorithms.AES128")
def _aes(I, a, kw):
    t = bytes_arg(I, arg(a, kw, 0, "key"), "key")
    n = T.length(t)
    if not I.ctx.branch(T.or_(*[T.eq(n, T.int_(k)) for k in (16, 24, 32)])):
        raise I.exc(ValueError, "Invalid key size")
    return XVal("aes", key=B_(t))


@ext(CI + "modes.CTR")
def _ctr(I, a, kw):
    return XVal("ctr", nonce=B_(bytes_arg(I, arg(a, kw, 0, "nonce"), "nonce")))


@ext(CI + "Cipher", CI + "base.Cipher")
def _cipher(I, a, kw):
    alg, mode = arg(a, kw, 0, "algorithm"), arg(a, kw, 1, "mode")
    if not (isinstance(alg, XVal) and alg.kind == "aes" and isinstance(mode, XVal) and mode.kind == "ctr"):
        raise Unsupported("another cipher")
    if not I.ctx.branch(T.eq(T.length(tstr(mode.f["nonce"])), T.int_(16))):
        raise I.exc(ValueError, "Invalid nonce size")
    return XVal("cipher", key=alg.f["key"], nonce=mode.f["nonce"])


def cipher_context(I, s, a, kw):
    return libs.new_ext(I, "cipher:context", key=s.f["key"], nonce=s.f["nonce"], state=0)


METHODS.setdefault("x:cipher", {}).update({"decryptor": cipher_context, "encryptor": cipher_context})


@method("ext:cipher:context", "update")
def _cc_update(I, s, a, kw):
    st = libs.fld(I, s, "state")
    if st != 0:
        raise Unsupported("several updates of a cipher")
    libs.setfld(I, s, "state", 1)
    return B_(T.app("aes_ctr", tstr(libs.fld(I, s, "key")), tstr(libs.fld(I, s, "nonce")), bytes_arg(I, a[0], "data")))


@method("ext:cipher:context", "finalize")
def _cc_finalize(I, s, a, kw):
    if libs.fld(I, s, "state") == 2:
        raise I.exc(libs.AlreadyFinalized, "Context was already finalized.")
    libs.setfld(I, s, "state", 2)
    return b""


# ---------------------------------------------------------------- the numbers of keys

axioms.trust("key numbers", "RSAPrivateNumbers.private_key, DSAPrivateNumbers.private_key and EllipticCurvePrivateNumbers.private_key give the key with exactly these numbers or raise ValueError")
uf("crt", (N, N), N)  # d mod (p - 1)
RSAN = ("p", "q", "d", "dmp1", "dmq1", "iqmp", "e", "n")
uf("rsa_numbers_ok", (N,) * 8, B)
uf("rsa_of_numbers", (N,) * 8, N)
uf("dsa_numbers_ok", (N,) * 5, B)
uf("dsa_of_numbers", (N,) * 5, N)
uf("ec_point_ok", (S, S), B)
uf("ec_numbers_ok", (S, S, N), B)
uf("ec_of_numbers", (S, S, N), N)


@ext(AS + "rsa.rsa_crt_dmp1", AS + "rsa.rsa_crt_dmq1")
def _crt(I, a, kw):
    d, p = [tint(x) for x in list(a) + list(kw.values())][:2]
    if I.ctx.branch(T.eq(p, T.int_(1))):
        raise I.exc(ZeroDivisionError, "integer modulo by zero")
    return mkint(T.app("crt", d, p))


def record(path, kind, names):
    @ext(AS + path)
    def f(I, a, kw):
        return XVal(kind, **{n: arg(a, kw, i, n) for i, n in enumerate(names)})


record("rsa.RSAPublicNumbers", "rsa_pubnum", ("e", "n"))
record("rsa.RSAPrivateNumbers", "rsa_privnum", ("p", "q", "d", "dmp1", "dmq1", "iqmp", "public_numbers"))
record("dsa.DSAParameterNumbers", "dsa_param", ("p", "q", "g"))
record("dsa.DSAPublicNumbers", "dsa_pubnum", ("y", "parameter_numbers"))
record("dsa.DSAPrivateNumbers", "dsa_privnum", ("x", "public_numbers"))
record("ec.EllipticCurvePrivateNumbers", "ec_privnum", ("private_value", "public_numbers"))


def number(v):
    if kind_of(v) != "int":
        raise Unsupported("a number of another kind")
    return tint(v)


def make_key(I, name, kind, args):
    if not I.ctx.branch(T.app(name + "_numbers_ok", *args)):
        raise I.exc(ValueError, "invalid numbers")
    return XVal(kind, id=mkint(T.app(name + "_of_numbers", *args)))


@method("x:rsa_privnum", "private_key")
def _rsa_key(I, s, a, kw):
    if set(kw) - {"backend"}:
        raise Unsupported("private_key with options")
    pub = s.f["public_numbers"]
    return make_key(I, "rsa", "rsa_priv", [number(pub.f[n] if n in pub.f else s.f[n]) for n in RSAN])


@method("x:dsa_privnum", "private_key")
def _dsa_key(I, s, a, kw):
    pub = s.f["public_numbers"]
    par = pub.f["parameter_numbers"]
    return make_key(I, "dsa", "dsa_priv", [number(x) for x in (par.f["p"], par.f["q"], par.f["g"], pub.f["y"], s.f["x"])])


@ext(AS + "ec.SECP256R1", AS + "ec.SECP384R1", AS + "ec.SECP521R1", AS + "ec.SECP224R1")
def _curve(I, a, kw):
    raise Unsupported("curve")


def curve(name):
    @ext(AS + "ec." + name)
    def f(I, a, kw):
        return XVal("curve", name=name)


for _n in ("SECP192R1", "SECP224R1", "SECP256R1", "SECP384R1", "SECP521R1", "SECP256K1"):
    curve(_n)


@ext(AS + "ec.EllipticCurvePublicKey.from_encoded_point")
def _ec_point(I, a, kw):
    c, t = arg(a, kw, 0, "curve"), bytes_arg(I, arg(a, kw, 1, "data"), "data")
    n = T.str_(c.f["name"])
    if I.ctx.branch(T.eq(t, T.str_(""))):
        raise I.exc(ValueError, "data must not be an empty byte string")
    if not I.ctx.branch(T.app("ec_point_ok", n, t)):
        raise I.exc(ValueError, "Unsupported elliptic curve point type")
    return XVal("ec_pub", name=c.f["name"], point=B_(t))


METHODS.setdefault("x:curve", {})


@method("x:ec_pub", "public_numbers")
def _ec_numbers(I, s, a, kw):
    return XVal("ec_pubnum", name=s.f["name"], point=s.f["point"])


@method("x:ec_privnum", "private_key")
def _ec_key(I, s, a, kw):
    pub = s.f["public_numbers"]
    return make_key(I, "ec", "ec_priv", [T.str_(pub.f["name"]), tstr(pub.f["point"]), number(s.f["private_value"])])
