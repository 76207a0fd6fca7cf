"""C18: key files; C19: recipient arguments."""

from .. import terms as T
from .. import axioms, libs, spec, strs, syslib
from ..core import *  # noqa: F401,F403
from ..interp import tstr, tint, tbool, kind_of
from ..unit import unit
from ..stubs import METHODS, XEQ
from .basic import S, N, ln, age_private
from .header import strip, drop
from .keys import SECRET, PUBLIC, bech, enc

KL = "age.keyloader."
AGEKEY = "age.keys.agekey."
SEQS = T.SEQ(T.STR)


def opaque(kind, dt, fields):
    T.declare_dt(dt, {"mk" + dt: [(dt + "." + n, s) for n, s in fields]})
    METHODS.setdefault("opaque:" + kind, {})
    return Sh("opaque", (kind, dt))


# ---------------------------------------------------------------- age private key strings

AGEK = opaque("agekey", "AgeKey", [("raw", T.STR)])
K = sort_of(AGEK)
T.declare_uf("AK_ok", (T.STR,), T.BOOL)  # the text is a private key string ...
T.declare_uf("AK_raw", (T.STR,), T.STR)  # ... with these bytes


def akey(x):
    return T.ctor("AgeKey", "mkAgeKey", T.app("AK_raw", x))


METHODS["opaque:agekey"]["private_bytes"] = lambda I, s, a, kw: SStr(T.sel(s.t, "mkAgeKey", "AgeKey.raw"), "bytes")


def k_from_private(I, vals):
    s = vals.get("private_string", vals.get("string"))
    if s is None:
        s = [v for k, v in vals.items() if k not in ("cls", "self")][0]
    if kind_of(s) != "str":
        raise Unsupported("from_private_string of something else")
    t = tstr(s)
    if not I.ctx.branch(T.app("AK_ok", t)):
        raise I.exc(ValueError, "not a private key")
    return SOpaque(akey(t), "agekey")


def lines_spec():
    if "KEYS" in T.UFS:
        return
    q = T.SEQ(K)

    def cases(t, end, skip, key):
        r = t.args[0]
        x = strip(T.app("line1", r))
        nx = T.app("line_rest", r)
        more = T.ne(r, S(""))
        ig = T.or_(T.eq(x, S("")), T.prefixof(S("#"), x))
        return [T.implies(T.not_(more), T.eq(t, end)), T.implies(T.and_(more, ig), T.eq(t, skip(nx))), T.implies(T.and_(more, T.not_(ig)), T.eq(t, key(nx, x)))]

    @axioms.define("KEYS", (T.STR,), q)
    def _keys(t):
        """the keys that the lines of the text encode, in order"""
        return cases(t, T.empty(q), lambda nx: T.app("KEYS", nx), lambda nx, x: T.concat(T.unit(akey(x)), T.app("KEYS", nx)))

    @axioms.define("KOK", (T.STR,), T.BOOL)
    def _kok(t):
        """every line that is neither blank nor a comment encodes a key"""
        return cases(t, T.TRUE, lambda nx: T.app("KOK", nx), lambda nx, x: T.and_(T.app("AK_ok", x), T.app("KOK", nx)))


def inv_keys(L):
    u = L.I.unit_vars
    if u.get("what") != "keys" or getattr(L.I, "last_stream", None) is None:
        return []
    I, st = L.I, L.I.last_stream
    r0 = libs.rest(I, st)
    out = [("the rest determines whether all lines are keys", lambda L: T.eq(T.app("KOK", libs.rest(I, st)), T.app("KOK", r0)))]
    for loc, s in L.locs("list"):
        if s.a == AGEK and L.entry(loc) is not None:
            e = L.entry(loc)

            def g(L, loc=loc, e=e):
                v = L.val(loc)
                return None if v is None else T.eq(T.concat(v, T.app("KEYS", libs.rest(I, st))), T.concat(e, T.app("KEYS", r0)))

            out.append(("keys so far and keys in the rest", g))
    return out


def files(V):
    V.I.fs = syslib.fs_open


@unit("C18", "a key file gives the key of every line that is neither blank nor a comment, in order", hints=[inv_keys])
def c18_txt(V):
    I = V.I
    lines_spec()
    files(V)
    I.unit_vars = {"what": "keys"}
    I.contracts[AGEKEY + "AgePrivateKey.from_private_string"] = k_from_private
    name = V.str("filename")
    if V.ctx.choose(2):
        o = V.attempt(KL + "load_keys_txt", name)
    else:
        name = "~/.config/age/keys.txt"
        o = V.attempt(KL + "load_keys_txt")
    p = T.app("FS_home", tstr(name))
    exists, text = T.app("FS_isfile", p), T.app("FS_text", p)
    if o.ok:
        V.prove("a missing file counts as empty", T.implies(T.not_(exists), T.eq(I.encode(o.val, SList_(AGEK)), T.empty(T.SEQ(K)))))
        V.prove("every line is a key, blank or a comment", T.implies(exists, T.app("KOK", text)))
        V.prove("the keys of the lines, in order", T.implies(exists, T.eq(I.encode(o.val, SList_(AGEK)), T.app("KEYS", text))))
    else:
        V.prove("a readable file of keys, or none, is not refused (%s)" % o.why(), T.and_(exists, T.not_(T.and_(T.app("FS_readable", p), T.app("KOK", text)))))


def generated(V, kind):
    I = V.I
    lines_spec()
    bech(V)
    files(V)
    made = []

    def k_generate(I2, vals):
        raw = V.bytes("raw", 32)
        made.append(raw)
        return age_private(V, raw)

    I.contracts[AGEKEY + "AgePrivateKey.generate"] = k_generate
    before = "" if kind == 0 else V.str("before")
    st = libs.stream(I, before, mkint(ln(before)), libs.FILE_T if kind else libs.STRING_IO)
    if kind == 2:
        I.std = {"stdout": st}
        o = V.attempt("age.cli.generate")
    else:
        o = V.attempt("age.cli.generate", st)
    if not o.ok:
        return V.fail("a key is generated (%s)" % o.why())
    V.prove("one key is generated", T.bool_(len(made) == 1))
    raw = made[0]
    c = tstr(libs.content(I, st))
    b = tstr(before)
    V.prove("the text is appended", T.prefixof(b, c))
    text = T.substr(c, T.length(b), T.sub(T.length(c), T.length(b)))
    s = tstr(V.meth(age_private(V, raw), "private_string"))
    V.ctx.assume(T.and_(T.app("AK_ok", s), T.eq(T.app("AK_raw", s), tstr(raw))))  # property C13, proved by its unit "private strings load back"
    unfold(V, text)
    V.prove("every line is a key, blank or a comment", T.app("KOK", text))
    V.prove("the only key is the one generated", T.eq(T.app("KEYS", text), T.unit(T.ctor("AgeKey", "mkAgeKey", tstr(raw)))))


@unit("C18", "the text printed by key generation to a text stream loads back")
def c18_generate_stream(V):
    generated(V, 0)


@unit("C18", "the text printed by key generation to a file loads back")
def c18_generate_file(V):
    generated(V, 1)


@unit("C18", "the text printed by key generation to the standard output loads back")
def c18_generate_stdout(V):
    generated(V, 2)


def peel(I, t):
    """(first line, rest) of a text whose first newline is known"""
    parts = list(t.args) if t.op == "++" else [t]
    pre = []
    for i, p in enumerate(parts):
        if T.is_const(p) and "\n" in p.val:
            k = p.val.index("\n") + 1
            return T.concat_sort(T.STR, *pre, T.str_(p.val[:k])), T.concat_sort(T.STR, T.str_(p.val[k:]), *parts[i + 1:])
        if not T.is_const(p) and not I.ctx.entails(T.in_re(p, T.star(libs.NONL))):
            return None
        pre.append(p)
    return None


def unfold(V, t):
    """lemmas: the specification functions at the lines of t"""
    I = V.I
    for n in range(8):
        got = peel(I, t)
        if got is None:
            break
        l, r = got
        a, b = T.app("line1", t), T.app("line_rest", t)
        x = strs.strip_term(I, l, strs.WS_STR, "lr")
        for name, g in (("first line", T.eq(a, l)), ("rest", T.eq(b, r)), ("stripped line", T.eq(strip(l), x))):
            V.prove("line %d: %s" % (n + 1, name), g)
            I.ctx.assume(g)
        ig = I.ctx.entails(T.or_(T.eq(x, S("")), T.prefixof(S("#"), x)))
        for g in [T.eq(T.app(f, t), T.app(f, r)) for f in ("KOK", "KEYS")] if ig else [
                T.eq(T.app("KOK", t), T.and_(T.app("AK_ok", x), T.app("KOK", r))), T.eq(T.app("KEYS", t), T.concat(T.unit(akey(x)), T.app("KEYS", r)))]:
            V.prove("line %d" % (n + 1), g)
            I.ctx.assume(g)
        t = r
    return t


# ---------------------------------------------------------------- SSH private key files

SSHK = opaque("sshkey", "SshKey", [("id", T.INT)])
SK = sort_of(SSHK)
T.declare_uf("LK_key", (T.STR,), T.BOOL)  # loading the file gives a key ...
T.declare_uf("LK_raises", (T.STR,), T.BOOL)  # ... or raises an exception (otherwise None)
T.declare_uf("LK", (T.STR,), SK)

# what loading a file may raise: everything derived from Exception
RAISES = [ValueError, TypeError, libs.UnsupportedAlgorithm, OSError, IndexError, AssertionError, NotImplementedError, libs.StructError, KeyError, OverflowError, RuntimeError, "age.openssh_keys.WrongPassphrase"]


def k_load_ssh(I, vals):
    p = vals["filename"]
    if vals.get("password") is not None:
        raise Unsupported("a password for SSH keys")
    t = tstr(p)
    if I.ctx.branch(T.app("LK_key", t)):
        return SOpaque(T.app("LK", t), "sshkey")
    if I.ctx.branch(T.app("LK_raises", t)):
        c = RAISES[I.ctx.choose(len(RAISES))]
        raise I.exc(I.lookup_qual(c) if isinstance(c, str) else c, "cannot be loaded")
    return None


def ssh_spec():
    if "SSHKEYS" in T.UFS:
        return
    q = T.SEQ(SK)

    @axioms.define("SSHKEYS", (SEQS,), q)
    def _sshkeys(t):
        """the keys in these files, in order"""
        s = t.args[0]
        x, more = T.nth(s, N(0)), T.app("SSHKEYS", drop(s))
        return [T.implies(T.eq(T.length(s), N(0)), T.eq(t, T.empty(q))),
                T.implies(T.gt(T.length(s), N(0)), T.eq(t, T.ite(T.app("LK_key", x), T.concat(T.unit(T.app("LK", x)), more), more)))]


def inv_ssh(L):
    u = L.I.unit_vars
    if u.get("what") != "ssh" or L.seq is None:
        return []
    out = []
    for loc, s in L.locs("list"):
        if s.a == SSHK and L.entry(loc) is not None:
            e = L.entry(loc)

            def g(L, loc=loc, e=e):
                v = L.val(loc)
                if v is None:
                    return None
                k, s = L.k(), L.seq
                return T.eq(T.concat(v, T.app("SSHKEYS", T.substr(s, k, T.sub(T.length(s), k)))), T.concat(e, T.app("SSHKEYS", s)))

            out.append(("keys so far and keys in the remaining files", g))
    return out


@unit("C18", "every SSH key that can be loaded is returned, every other file is skipped", hints=[inv_ssh])
def c18_ssh(V):
    I = V.I
    ssh_spec()
    files(V)
    I.unit_vars = {"what": "ssh"}
    I.contracts[KL + "load_ssh_private_key"] = k_load_ssh
    if V.ctx.choose(2):
        root = V.str("root")
        o = V.attempt(KL + "load_ssh_keys", root)
    else:
        root = "~/.ssh"
        o = V.attempt(KL + "load_ssh_keys")
    if not o.ok:
        return V.fail("no file makes loading fail (%s)" % o.why())
    from ..stubs import osjoin

    names = T.app("FS_glob", osjoin(T.app("FS_home", tstr(root)), S("id_*")))
    V.prove("the keys of all files", T.eq(I.encode(o.val, SList_(SSHK)), T.app("SSHKEYS", names)))


# one file

PEM, OSSH = "PEM", "OSSH"
for _n in (PEM, OSSH):  # what the loader makes of the bytes with a password: a kind of key or a failure, the RSA key, the Ed25519 seed
    for _x, _s in (("kind", T.INT), ("rsa", T.INT), ("seed", T.STR)):
        T.declare_uf(_n + "_" + _x, (T.STR, T.BOOL, T.STR), _s)
RSA_, ED_, EC_, DSA_, VALUE_, OTHER_, INVALID_ = range(7)
# The kinds of key that load_pem_private_key gives
axioms.trust("load_pem_private_key", "load_pem_private_key gives an RSA, Ed25519 or other private key or raises ValueError, TypeError or UnsupportedAlgorithm, depending on its arguments only")


def loader(name, I, data, password, others):
    pw = (T.FALSE, S("")) if password is None else (T.TRUE, tstr(password))
    a = (tstr(data),) + pw
    k = T.app(name + "_kind", *a)
    for i in (RSA_, ED_, EC_, DSA_, VALUE_, INVALID_):
        if I.ctx.branch(T.eq(k, N(i))):
            if i == RSA_:
                return XVal("rsa_priv", id=mkint(T.app(name + "_rsa", *a)))
            if i == ED_:
                s = T.app(name + "_seed", *a)
                I.ctx.assume(T.and_(T.in_re(s, T.star(("cls", ((0, 255),)))), T.eq(T.length(s), N(32))))
                return XVal("ed_priv", seed=SStr(s, "bytes"))
            if i == EC_ or i == DSA_:
                return XVal("ec_priv" if i == EC_ else "dsa_priv")
            if i == VALUE_:
                raise I.exc(ValueError, "cannot be read")
            if name == OSSH:
                raise I.exc(I.lookup_qual("age.openssh_keys.InvalidKeyFile"), "invalid")
    c = others[I.ctx.choose(len(others))]
    raise I.exc(I.lookup_qual(c) if isinstance(c, str) else c, "cannot be read")


@libs.ext(libs.SER + "load_pem_private_key")
def _load_pem(I, a, kw):
    return loader(PEM, I, libs.arg(a, kw, 0, "data"), libs.arg(a, kw, 1, "password", None), [TypeError, libs.UnsupportedAlgorithm])


def k_openssh(I, vals):
    return loader(OSSH, I, vals["openssh_data"], vals["passphrase"], [c for c in RAISES if c is not ValueError])


@unit("C18", "the key in one SSH private key file is loaded")
def c18_ssh_file(V):
    I = V.I
    files(V)
    I.contracts["age.openssh_keys.load_openssh_private_key"] = k_openssh
    name = V.str("filename")
    pw = V.bytes("password") if V.ctx.choose(2) else None
    o = V.attempt(KL + "load_ssh_private_key", name, pw) if pw is not None else V.attempt(KL + "load_ssh_private_key", name)
    p = T.app("FS_home", tstr(name))
    a = (T.app("FS_bytes", p),) + ((T.FALSE, S("")) if pw is None else (T.TRUE, tstr(pw)))
    missing = T.not_(T.app("FS_isfile", p))
    kp, ko = T.app("PEM_kind", *a), T.app("OSSH_kind", *a)
    is_ = lambda k: T.or_(T.eq(kp, N(k)), T.and_(T.eq(kp, N(VALUE_)), T.eq(ko, N(k))))
    if not o.ok:
        return V.prove("a missing file and a readable file with a key are not refused (%s)" % o.why(), T.not_(T.or_(missing, T.and_(T.app("FS_readable", p), T.or_(*[is_(k) for k in (RSA_, ED_, EC_, DSA_)])))))
    if o.val is None:
        return V.prove("no key: no such file, or no RSA or Ed25519 key in it", T.or_(missing, T.not_(T.or_(is_(RSA_), is_(ED_)))))
    V.prove("a key comes from a file", T.not_(missing))
    key = V.attr(o.val, "_key")
    pick = lambda f: T.ite(T.eq(kp, N(VALUE_)), T.app("OSSH_" + f, *a), T.app("PEM_" + f, *a))
    if kind_of(key) == "x:rsa_priv":
        V.prove("it wraps the RSA key of the file", T.and_(T.bool_(o.val.cls is V.get("age.keys.rsa.RSAPrivateKey")), is_(RSA_), T.eq(tint(key.f["id"]), pick("rsa"))))
    else:
        V.prove("it wraps the Ed25519 key of the file", T.and_(T.bool_(o.val.cls is V.get("age.keys.ed25519.Ed25519PrivateKey")), is_(ED_), T.eq(tstr(key.f["seed"]), pick("seed"))))
    V.prove("it is not taken for a missing key", I.truth_term(o.val))


# ---------------------------------------------------------------- C19: recipient arguments

ENCK = opaque("enckey", "EncKey", [("type", T.INT), ("key", T.STR)])
EK = sort_of(ENCK)
QE = T.SEQ(EK)
NONE = T.empty(QE)
for _n in ("PS", "RS", "ES"):  # age public key strings, ssh-rsa lines, ssh-ed25519 lines: well-formed; the key
    T.declare_uf(_n + "_ok", (T.STR,), T.BOOL)
    T.declare_uf(_n + "_key", (T.STR,), T.STR)


def ekey(i, t):
    return T.ctor("EncKey", "mkEncKey", N(i), T.app(("PS", "RS", "ES")[i] + "_key", t))


def k_public(i, kind, raises):
    def f(I, vals):
        x = [v for k, v in vals.items() if k not in ("cls", "self")]
        if kind_of(x[0]) != kind:
            raise I.exc(TypeError, "text expected" if kind == "str" else "bytes expected")
        t = tstr(x[0])
        if not I.ctx.branch(T.app(("PS", "RS", "ES")[i] + "_ok", t)):
            raise I.exc(raises[I.ctx.choose(len(raises))], "not a public key")
        return SOpaque(ekey(i, t), "enckey")

    return f


def u8(t):
    return T.app("utf8enc", t)


def head(s):
    """the first item of a sequence that is not empty"""
    return T.nth(s.args[0], s.args[1]) if s.op == "substr" else T.nth(s, N(0))


def tail(s):
    """what follows it"""
    if s.op == "substr":
        b, i, n = s.args
        return T.substr(b, T.add(i, N(1)), T.sub(n, N(1)))
    return drop(s)


def LINE(x):
    """the keys given directly by a text without surrounding white space"""
    return T.app("LINEK", x)


def LINEOK(x):
    return T.app("LINEKOK", x)


HTTP = ("cat", ("lit", "http"), ("opt", ("lit", "s")), ("lit", "://"), ("all",))


def resolve_spec():
    if "FLINES" in T.UFS:
        return

    def direct(t, age, rsa, ed, none):
        x = t.args[0]
        w = T.app("utf8enc", x)
        c = [T.prefixof(S(p), x) for p in ("age", "ssh-rsa", "ssh-ed25519")]
        return [T.implies(c[0], T.eq(t, age(x))), T.implies(T.and_(T.not_(c[0]), c[1]), T.eq(t, rsa(w))), T.implies(T.and_(T.not_(c[0]), T.not_(c[1]), c[2]), T.eq(t, ed(w))),
                T.implies(T.not_(T.or_(*c)), T.eq(t, none))]

    enc_ok = lambda x: T.app("utf8enc_ok", x)
    axioms.define("LINEK", (T.STR,), QE, 3)(lambda t: direct(t, lambda x: T.unit(ekey(0, x)), lambda w: T.unit(ekey(1, w)), lambda w: T.unit(ekey(2, w)), NONE))
    axioms.define("LINEKOK", (T.STR,), T.BOOL, 3)(lambda t: direct(t, lambda x: T.app("PS_ok", x), lambda w: T.and_(enc_ok(w.args[0]), T.app("RS_ok", w)), lambda w: T.and_(enc_ok(w.args[0]), T.app("ES_ok", w)), T.TRUE))

    def lines(t, end, more):
        r = t.args[0]
        c = T.ne(r, S(""))
        return [T.implies(T.not_(c), T.eq(t, end)), T.implies(c, T.eq(t, more(strip(T.app("line1", r)), T.app("line_rest", r))))]

    def items(t, end, more):
        s = t.args[0]
        c = T.gt(T.length(s), N(0))
        return [T.implies(T.not_(c), T.eq(t, end)), T.implies(c, T.eq(t, more(strip(head(s)), tail(s))))]

    axioms.define("FLINES", (T.STR,), QE)(lambda t: lines(t, NONE, lambda x, r: T.concat(LINE(x), T.app("FLINES", r))))
    axioms.define("FLOK", (T.STR,), T.BOOL)(lambda t: lines(t, T.TRUE, lambda x, r: T.and_(LINEOK(x), T.app("FLOK", r))))
    axioms.define("SLINES", (SEQS,), QE)(lambda t: items(t, NONE, lambda x, r: T.concat(LINE(x), T.app("SLINES", r))))
    axioms.define("SLOK", (SEQS,), T.BOOL)(lambda t: items(t, T.TRUE, lambda x, r: T.and_(LINEOK(x), T.app("SLOK", r))))

    def res(t, f, gh, fi, ur, li):
        x, files, urls = t.args
        a = T.and_(urls, T.prefixof(S("github:"), x))
        b = T.and_(files, T.app("FS_isfile", x))
        c = T.and_(urls, T.in_re(x, HTTP))
        u = T.concat(S("https://github.com/"), drop(x, 7), S(".keys"))
        return [T.eq(t, T.ite(a, T.app(f, u, T.TRUE, T.TRUE), T.ite(b, fi(x), T.ite(c, ur(x), li(x)))))]

    text = lambda x: T.app("splitlines", T.app("HTTP_text", x))

    @axioms.define("RES", (T.STR, T.BOOL, T.BOOL), QE)
    def _res(t):
        """the keys that a text names, when files (second argument) and URLs (third argument) may be read"""
        return res(t, "RES", None, lambda x: T.app("FLINES", T.app("FS_text", x)), lambda x: T.app("SLINES", text(x)), LINE)

    @axioms.define("ROK", (T.STR, T.BOOL, T.BOOL), T.BOOL)
    def _rok(t):
        """it names them properly: files and pages can be read, key strings are well-formed"""
        return res(t, "ROK", None, lambda x: T.and_(T.app("FS_readable", x), T.app("FLOK", T.app("FS_text", x))),
                   lambda x: T.and_(T.app("HTTP_up", x), T.not_(syslib.bad_status(x)), T.app("SLOK", text(x))), LINEOK)

    axioms.define("ALIAS", (SEQS,), QE)(lambda t: items(t, NONE, lambda x, r: T.concat(T.app("RES", x, T.TRUE, T.TRUE), T.app("ALIAS", r))))
    axioms.define("AOK", (SEQS,), T.BOOL)(lambda t: items(t, T.TRUE, lambda x, r: T.and_(T.app("ROK", x, T.TRUE, T.TRUE), T.gt(T.length(T.app("RES", x, T.TRUE, T.TRUE)), N(0)), T.app("AOK", r))))


# a table of aliases with arbitrary contents
T.declare_uf("AL_has", (T.STR,), T.BOOL)
T.declare_uf("AL_get", (T.STR,), SEQS)
METHODS["x:aliases"] = {}


@libs.method("x:aliases", "__contains__")
def _al_has(I, s, a, kw):
    return mkbool(T.app("AL_has", tstr(a[0])))


@libs.method("x:aliases", "__getitem__")
def _al_get(I, s, a, kw):
    if not I.ctx.branch(T.app("AL_has", tstr(a[0]))):
        raise I.exc(KeyError, "no such alias")
    return I.new_list([Chunk(T.app("AL_get", tstr(a[0])), SStr_)])


@libs.method("x:aliases", "get")
def _al_get2(I, s, a, kw):
    if not I.ctx.branch(T.app("AL_has", tstr(a[0]))):
        return a[1] if len(a) > 1 else None
    return I.new_list([Chunk(T.app("AL_get", tstr(a[0])), SStr_)])


def k_resolve(I, vals):
    """contract of resolve_public_key for nested calls"""
    t = strip(tstr(vals["keystr"]))
    fl = [vals["read_" + n] for n in ("aliases", "files", "urls")]
    if vals["aliases"] is not None and fl[0] is not False:
        raise Unsupported("a nested call with aliases")
    f, u = tbool(fl[1]), tbool(fl[2])
    if not I.ctx.branch(T.app("ROK", t, f, u)):
        raise I.exc([ValueError, OSError, AssertionError][I.ctx.choose(3)], "cannot be resolved")
    return I.new_list([Chunk(T.app("RES", t, f, u), ENCK)])


def resolver(V):
    """contracts; the first call of resolve_public_key is executed, further ones are replaced by the contract"""
    I = V.I
    resolve_spec()
    files(V)
    bad = [ValueError, AssertionError, libs.UnsupportedAlgorithm]
    I.contracts[AGEKEY + "AgePublicKey.from_public_string"] = k_public(0, "str", [ValueError])
    I.contracts["age.keys.rsa.RSAPublicKey.from_ssh_public_key"] = k_public(1, "bytes", bad)
    I.contracts["age.keys.ed25519.Ed25519PublicKey.from_ssh_public_key"] = k_public(2, "bytes", bad)
    f = V.get(KL + "resolve_public_key")
    calls = []

    def k(I2, vals):
        if not calls:
            calls.append(1)
            return I2.run_func(f, vals)
        return k_resolve(I2, vals)

    I.contracts[KL + "resolve_public_key"] = k
    return f


def inv_resolve(L):
    u = L.I.unit_vars
    if u.get("what") != "resolve":
        return []
    I, out = L.I, []
    if L.seq is not None:
        todo = [(n, ok, lambda L: T.substr(L.seq, L.k(), T.sub(T.length(L.seq), L.k())), L.seq) for n, ok in (("SLINES", "SLOK"), ("ALIAS", "AOK")) if not (L.seq.op == "uf" and L.seq.val == ("AL_get" if n == "SLINES" else "splitlines"))]
    elif getattr(I, "last_stream", None) is not None:
        st = I.last_stream
        todo = [("FLINES", "FLOK", lambda L: libs.rest(I, st), libs.rest(I, st))]
    else:
        return []
    for n, ok, now, all_ in todo:
        out.append(("the rest determines " + ok, lambda L, ok=ok, now=now, all_=all_: T.eq(T.app(ok, now(L)), T.app(ok, all_))))
        for loc, s in L.locs("list"):
            if s.a == ENCK and L.entry(loc) is not None:
                e = L.entry(loc)

                def g(L, loc=loc, e=e, n=n, now=now, all_=all_):
                    v = L.val(loc)
                    return None if v is None else T.eq(T.concat(v, T.app(n, now(L))), T.concat(e, T.app(n, all_)))

                out.append(("keys so far and keys in the rest: " + n, g))
    return out


@unit("C19", "a line of a list is only taken for a key, without any file or network access")
def c19_line(V):
    I = V.I
    f = resolver(V)
    s = V.str("line")
    al = XVal("aliases") if V.ctx.choose(2) else None
    I.on_access = lambda what, t: V.fail("no access to a " + what)
    o = V.attempt(f, s, aliases=al, read_aliases=False, read_files=False, read_urls=False)
    x = strip(s.t)
    if o.ok:
        V.prove("the key is well-formed", LINEOK(x))
        V.prove("the key of the line", T.eq(I.encode(o.val, SList_(ENCK)), LINE(x)))
    else:
        V.prove("only malformed keys are refused (%s)" % o.why(), T.not_(LINEOK(x)))


@unit("C19", "a recipient argument gives exactly its keys", hints=[inv_resolve])
def c19_argument(V):
    I = V.I
    f = resolver(V)
    s = V.str("recipient")
    I.unit_vars = {"what": "resolve"}
    x = strip(s.t)

    def access(what, t):
        V.prove("only the %s named is read" % what, T.and_(T.eq(t, x), T.app("FS_isfile", x) if what == "file" else T.in_re(x, HTTP) if what == "url" else T.FALSE))

    I.on_access = access
    al = XVal("aliases") if V.ctx.choose(2) else None
    o = V.attempt(f, s, aliases=al) if al is not None else V.attempt(f, s)
    alias = T.FALSE if al is None else T.app("AL_has", x)
    keys = T.ite(alias, T.app("ALIAS", T.app("AL_get", x)), T.app("RES", x, T.TRUE, T.TRUE))
    ok = T.ite(alias, T.app("AOK", T.app("AL_get", x)), T.app("ROK", x, T.TRUE, T.TRUE))
    if o.ok:
        V.prove("everything it names can be read", ok)
        V.prove("exactly the keys it names, in order", T.eq(I.encode(o.val, SList_(ENCK)), keys))
    else:
        V.prove("nothing else is refused (%s)" % o.why(), T.not_(ok))


# ---------------------------------------------------------------- the alias file


def alias_line(x):
    """(label, entries) of a line label:entries without surrounding white space"""
    i = T.indexof(x, S(":"), N(0))
    some = T.contains(x, S(":"))
    j = T.add(i, N(1))
    v = T.ite(some, T.substr(x, j, T.sub(T.length(x), j)), S(""))
    return T.ite(some, T.substr(x, N(0), i), x), v


def alias_spec():
    if "ALVAL" in T.UFS:
        return

    def cases(t, end, more):
        r, label = t.args
        x, nx = strip(T.app("line1", r)), T.app("line_rest", r)
        l, v = alias_line(x)
        some, skip = T.ne(r, S("")), T.or_(T.eq(x, S("")), T.prefixof(S("#"), x), T.ne(l, label))
        return [T.implies(T.not_(some), T.eq(t, end)), T.implies(T.and_(some, skip), T.eq(t, T.app(t.val, nx, label))), T.implies(T.and_(some, T.not_(skip)), T.eq(t, more(T.app("split_ws", v), nx, label)))]

    # all entries listed for a label; whether it is listed
    axioms.define("ALVAL", (T.STR, T.STR), SEQS)(lambda t: cases(t, T.empty(SEQS), lambda w, nx, l: T.concat(w, T.app("ALVAL", nx, l))))
    axioms.define("ALHAS", (T.STR, T.STR), T.BOOL)(lambda t: cases(t, T.FALSE, lambda w, nx, l: T.TRUE))


def inv_alias(L):
    u = L.I.unit_vars
    I = L.I
    if u.get("what") != "alias" or getattr(I, "last_stream", None) is None:
        return []
    st, label = I.last_stream, I.generic_key
    r0 = libs.rest(I, st)
    out = []
    for loc, s in L.locs():
        e = L.entry(loc)
        if e is None:
            continue
        if s.k == "list" and s.a == SStr_:
            def g(L, loc=loc, e=e):
                v = L.val(loc)
                return None if v is None else T.eq(T.concat(v, T.app("ALVAL", libs.rest(I, st), label)), T.concat(e, T.app("ALVAL", r0, label)))

            out.append(("entries so far and entries in the rest", g))
        elif s.k == "bool":
            def g(L, loc=loc, e=e):
                v = L.val(loc)
                return None if v is None else T.eq(T.or_(v, T.app("ALHAS", libs.rest(I, st), label)), T.or_(e, T.app("ALHAS", r0, label)))

            out.append(("listed so far or in the rest", g))
            out.append(("not listed: no entries so far", lambda L, loc=loc: T.or_(*[T.TRUE if L.val(loc) is None else L.val(loc)], *[T.eq(L.val(q), T.empty(SEQS)) for q, z in L.locs("list") if z.a == SStr_ and L.val(q) is not None])))
    return out


@unit("C19", "the alias file maps each label to all entries listed for it, in order", hints=[inv_alias])
def c19_aliases(V):
    I = V.I
    alias_spec()
    files(V)
    I.unit_vars = {"what": "alias"}
    I.generic_key = V.term("label", T.STR)
    if V.ctx.choose(2):
        name = V.str("filename")
        o = V.attempt(KL + "load_aliases", name)
    else:
        name = "~/.config/age/aliases.txt"
        o = V.attempt(KL + "load_aliases")
    p = T.app("FS_home", tstr(name))
    exists, text = T.app("FS_isfile", p), T.app("FS_text", p)
    if not o.ok:
        return V.prove("a missing or readable file is not refused (%s)" % o.why(), T.and_(exists, T.not_(T.app("FS_readable", p))))
    has, vals = tbool(libs.fld(I, o.val, "has")), I.encode(libs.fld(I, o.val, "vals"), SList_(SStr_))
    V.prove("an arbitrary label is known exactly if it is listed", T.eq(has, T.and_(exists, T.app("ALHAS", text, I.generic_key))))
    V.prove("it stands for all its entries, in order", T.implies(has, T.eq(vals, T.app("ALVAL", text, I.generic_key))))
    V.prove("unknown labels are refused, not made up", T.bool_(libs.fld(I, o.val, "default") is False))
