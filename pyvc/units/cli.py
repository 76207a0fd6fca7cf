"""C21: the commands encrypt and decrypt."""

from .. import terms as T
from .. import axioms, libs
from ..core import *  # noqa: F401,F403
from ..interp import tstr, tbool, tint, kind_of
from ..unit import unit
from ..stubs import METHODS, arg
from .basic import S, N, ln
from .loader import opaque, head, tail

CLI = "age.cli."
ARM = "age.utils.asciiarmor."
FILE = "age.file."
SEQS = T.SEQ(T.STR)

PK = opaque("anykey", "AnyKey", [("password", T.BOOL), ("text", T.STR)])  # a public key, a private key or a password
KS = sort_of(PK)
KSEQ = T.SEQ(KS)
T.declare_uf("RK", (T.STR, T.BOOL, T.BOOL, T.BOOL), KSEQ)  # the keys a recipient argument resolves to (C19), with the alias table, files, URLs
T.declare_uf("RK_ok", (T.STR, T.BOOL, T.BOOL, T.BOOL), T.BOOL)  # resolving it raises no exception
T.declare_uf("ENCFILE", (KSEQ, T.STR, T.INT), T.STR)  # the age file for these keys with this plaintext (C01, C05), with the randomness drawn from there on
T.declare_uf("DEC_ok", (KSEQ, T.STR), T.BOOL)  # the file decrypts with these identities ...
T.declare_uf("DEC", (KSEQ, T.STR), T.STR)  # ... to this
T.declare_uf("ARMOR", (T.STR, T.STR), T.STR)  # C16
T.declare_uf("UNARMOR_ok", (T.STR, T.STR), T.BOOL)
T.declare_uf("UNARMOR", (T.STR, T.STR), T.STR)
T.declare_uf("KT", (T.STR,), KSEQ)  # the keys in a key file (C18)
T.declare_uf("SK_", (T.STR,), KSEQ)  # the keys in an SSH directory (C18)
T.declare_uf("KT_ok", (T.STR,), T.BOOL)
METHODS.setdefault("x:alias_table", {})


def keys_spec():
    if "ALLK" in T.UFS:
        return

    def items(t, end, more):
        s = t.args[0]
        c = T.gt(T.length(s), N(0))
        return [T.implies(T.not_(c), T.eq(t, end)), T.implies(c, T.eq(t, more(head(s), tail(s))))]

    rk = lambda x: T.app("RK", x, T.TRUE, T.TRUE, T.TRUE)
    axioms.define("ALLK", (SEQS,), KSEQ)(lambda t: items(t, T.empty(KSEQ), lambda x, r: T.concat(rk(x), T.app("ALLK", r))))
    axioms.define("ALLOK", (SEQS,), T.BOOL)(lambda t: items(t, T.TRUE, lambda x, r: T.and_(T.gt(T.length(rk(x)), N(0)), T.app("ALLOK", r))))


def as_key(I, x):
    """a key as a term: passwords are told apart"""
    if isinstance(x, SOpaque) and x.kind == "anykey":
        return x.t
    if isinstance(x, Ref) and x.cls is I.lookup_qual("age.keys.password.PasswordKey"):
        return T.ctor("AnyKey", "mkAnyKey", T.TRUE, tstr(I.getattr(x, "value")))
    raise Unsupported("another kind of key")


def key_list(I, v):
    out = []
    for x in I.items(I.to_list(v)):
        if isinstance(x, Chunk):
            if x.t.sort != KSEQ:
                raise Unsupported("another kind of key")
            out.append(x.t)
        else:
            out.append(T.unit(as_key(I, x)))
    return T.concat_sort(KSEQ, *out) if out else T.empty(KSEQ)


def failing(I, name, classes):
    """an outcome of a call that cannot be predicted: maybe an exception"""
    if I.ctx.branch(I.ctx.fresh(name + "_fails", T.BOOL)):
        raise I.exc(classes[I.ctx.choose(len(classes))], name + " fails")


# ---------------------------------------------------------------- contracts


def gone(I):
    return I.exc(ValueError, "I/O operation on closed file.")


def buffered_output(qual, make):
    """an output object that collects what is written and writes make(object, all of it) to its stream when it is closed"""

    def write(I, vals):
        self, data = vals["self"], [v for k, v in vals.items() if k != "self"][0]
        if I.truth(libs.fld(I, self, "%closed")):
            raise gone(I)
        if kind_of(data) not in ("bytes", "bytearray"):
            raise I.exc(TypeError, "bytes expected")
        I.ctx.store[("a", self.id, "%text")] = SStr(T.concat(tstr(I.ctx.store[("a", self.id, "%text")]), tstr(I.plain(data))), "bytes")
        return mkint(ln(data))

    def close(I, vals):
        self = vals["self"]
        if I.truth(libs.fld(I, self, "%closed")):
            return
        text = make(I, self, tstr(I.ctx.store[("a", self.id, "%text")]))
        I.call(I.getattr(I.ctx.store[("a", self.id, "%stream")], "write"), [SStr(text, "bytes")], {})
        libs.setfld(I, self, "%closed", True)

    return {qual + ".write": write, qual + ".close": close}


def init_output(I, self, st):
    I.ctx.store[("a", self.id, "%text")] = b""
    I.ctx.store[("a", self.id, "%stream")] = st


def field(I, self, n):
    v = I.ctx.store.get(("a", self.id, n))
    if v is None or isinstance(v, Poison):
        raise Unsupported("object in an unknown state")
    return v


def named(vals, *names):
    """the arguments in order, whatever the parameters are called"""
    return [v for k, v in vals.items() if k != "self"][:len(names)]


def outputs(V, log):
    I = V.I

    def e_init(I, vals):
        keys, st = named(vals, "keys", "stream")
        k = key_list(I, keys)
        log.append(k)
        init_output(I, vals["self"], st)
        I.ctx.store[("a", vals["self"].id, "%keys")] = k
        if I.ctx.branch(I.ctx.fresh("wrapping_fails", T.BOOL)):
            part = I.ctx.fresh("part_of_a_header", T.STR)
            I.ctx.assume(T.in_re(part, T.star(("cls", ((0, 255),)))))
            I.call(I.getattr(st, "write"), [SStr(part, "bytes")], {})
            raise I.exc([ValueError, TypeError][I.ctx.choose(2)], "wrapping the file key fails")

    def e_make(I, self, text):
        i = tint(I.ctx.store.get(("gh", "tick"), 0))
        I.ctx.store[("gh", "tick")] = mkint(T.add(i, N(1)))
        return T.app("ENCFILE", field(I, self, "%keys"), text, i)

    def a_init(I, vals):
        label, st = named(vals, "label", "stream")
        init_output(I, vals["self"], st)
        I.ctx.store[("a", vals["self"].id, "%label")] = label

    I.contracts.update(buffered_output(FILE + "Encryptor", e_make))
    I.contracts.update(buffered_output(ARM + "AsciiArmoredOutput", lambda I, self, text: T.app("ARMOR", tstr(field(I, self, "%label")), text)))
    I.contracts[FILE + "Encryptor.__init__"] = e_init
    I.contracts[ARM + "AsciiArmoredOutput.__init__"] = a_init


def inputs(V, log):
    I = V.I

    def read(I, vals):
        return I.call(I.getattr(field(I, vals["self"], "%plain"), "read"), named(vals, "size"), {})

    def whole(I, st):
        d = I.call(I.getattr(st, "read"), [], {})
        return tstr(I.plain(d))

    def d_init(I, vals):
        keys, st = named(vals, "identities", "stream")
        k, t = key_list(I, keys), whole(I, st)
        log.append((k, t))
        if not I.ctx.branch(T.app("DEC_ok", k, t)):
            c = [ValueError, AssertionError, libs.InvalidTag, "age.exceptions.NoIdentity"][I.ctx.choose(4)]
            raise I.exc(I.lookup_qual(c) if isinstance(c, str) else c, "cannot be decrypted")
        p = T.app("DEC", k, t)
        I.ctx.assume(T.in_re(p, T.star(("cls", ((0, 255),)))))
        I.ctx.store[("a", vals["self"].id, "%plain")] = libs.stream(I, SStr(p, "bytes"), 0)

    def a_init(I, vals):
        label, st = named(vals, "label", "stream")
        t = whole(I, st)
        if not I.ctx.branch(T.app("UNARMOR_ok", tstr(label), t)):
            raise I.exc([ValueError, UnicodeDecodeError][I.ctx.choose(2)], "no proper armor")
        p = T.app("UNARMOR", tstr(label), t)
        I.ctx.assume(T.in_re(p, T.star(("cls", ((0, 255),)))))
        I.ctx.store[("a", vals["self"].id, "%plain")] = libs.stream(I, SStr(p, "bytes"), 0)

    I.contracts.update({FILE + "Decryptor.__init__": d_init, FILE + "Decryptor.read": read, ARM + "AsciiArmoredInput.__init__": a_init, ARM + "AsciiArmoredInput.read": read})


@libs.ext("click.prompt", "getpass.getpass")
def _prompt(I, a, kw):
    failing(I, "prompting", [libs.ClickAbort])
    t = I.ctx.fresh("password", T.STR)
    I.prompts.append(t)
    return SStr(t, "str")


def standard(V, tty):
    """standard streams; the output on the standard output"""
    I = V.I
    buf = libs.stream(I, b"", 0, libs.FILE_B)
    std_in = V.bytes("standard_input")
    I.std = {"stdout": libs.stream(I, "", 0, libs.FILE_T, buffer=buf, tty=tty), "stdin": libs.stream(I, "", 0, libs.FILE_T, buffer=libs.stream(I, std_in, 0, libs.FILE_B), tty=V.bool("input_terminal"))}
    return buf, std_in


def arrange(V, which):
    """(output stream, its content before, content of the input, is the output a terminal, arguments infile and outfile)"""
    I = V.I
    tty = V.bool("terminal")
    buf, std_in = standard(V, tty)
    kw = {}
    if which == 0:  # standard streams
        return buf, S(""), std_in.t, tty.t, kw
    data = V.bytes("input")
    kw["infile"] = libs.stream(I, data, 0, libs.FILE_B)
    if which == 1:
        kw["outfile"] = buf
        return buf, S(""), data.t, tty.t, kw
    before = V.bytes("before")
    kw["outfile"] = libs.stream(I, before, mkint(ln(before)), libs.FILE_B)
    return kw["outfile"], before.t, data.t, T.FALSE, kw


def untouched(V, out, before):
    I = V.I
    V.prove("nothing is written to the output", T.and_(T.eq(tstr(libs.content(I, out)), before), T.eq(tstr(libs.content(I, I.std["stdout"])), S(""))))


def fails(V, o):
    """o is reported as a failure"""
    if o.exc is not None and o.is_exc(SystemExit):
        code = o.exc.args[0] if o.exc.args else None
        if code is None:
            return V.fail("failure is reported (exit status 0)")
        if kind_of(code) == "int":
            return V.prove("failure is reported", T.ne(tint(code), N(0)))
        return V.prove("failure is reported", T.bool_(kind_of(code) in ("str", "bytes")))
    V.prove("failure is reported", T.bool_(o.exc is not None))


def inv_cli(L):
    u = L.I.unit_vars
    if u.get("what") not in ("encrypt", "decrypt") or L.seq is None:
        return []
    out = []
    base = L.seq if L.seq.sort == SEQS else u.get("all")  # a loop over something made of each argument
    if base is None:
        return []
    now = lambda L: T.substr(base, L.k(), T.sub(T.length(base), L.k()))
    names = ("ALLK", "ALLOK") if u["what"] == "encrypt" else ("ALLT",)
    if "ALLOK" in names:
        out.append(("the rest determines whether all resolve", lambda L: T.eq(T.app("ALLOK", now(L)), T.app("ALLOK", base))))
    for loc, s in L.locs("list"):
        if s.a == PK and L.entry(loc) is not None:
            e = L.entry(loc)

            def g(L, loc=loc, e=e):
                v = L.val(loc)
                return None if v is None else T.eq(T.concat(v, T.app(names[0], now(L))), T.concat(e, T.app(names[0], base)))

            out.append(("keys so far and keys of the rest", g))
    return out


# ---------------------------------------------------------------- encrypt


def k_aliases(I, vals):
    failing(I, "reading the alias file", [OSError, ValueError])
    return XVal("alias_table")


def k_resolve(I, vals):
    al = vals["aliases"]
    a = T.and_(T.bool_(isinstance(al, XVal) and al.kind == "alias_table"), I.truth_term(vals["read_aliases"]))
    args = (tstr(vals["keystr"]), a, I.truth_term(vals["read_files"]), I.truth_term(vals["read_urls"]))
    if not I.ctx.branch(T.app("RK_ok", *args)):
        raise I.exc([ValueError, OSError, AssertionError][I.ctx.choose(3)], "cannot be resolved")
    return I.new_list([Chunk(T.app("RK", *args), PK)])


def encryption(V, which, armored):
    I = V.I
    keys_spec()
    I.unit_vars = {"what": "encrypt"}
    made, I.prompts = [], []
    outputs(V, made)
    I.contracts[CLI + "load_aliases"] = I.contracts["age.keyloader.load_aliases"] = k_aliases
    I.contracts["age.keyloader.resolve_public_key"] = k_resolve
    t0 = V.int("draws_before").t
    V.ctx.store[("gh", "tick")] = SInt(t0)
    out, before, data, tty, kw = arrange(V, which)
    given = V.ctx.choose(2)
    rs = T.empty(SEQS)
    if given:
        kw["recipients"], rs = V.list("recipients", SStr_)
        I.unit_vars["all"] = rs
    pw = V.bool("ask_password")
    kw["ask_password"], kw["ascii_armored"] = pw, bool(armored)
    o = V.attempt(CLI + "encrypt", **kw)
    keys, ok = T.app("ALLK", rs), T.app("ALLOK", rs)
    if not o.ok:
        fails(V, o)
        c = T.or_(tty, T.not_(ok), T.and_(T.not_(pw.t), T.eq(T.length(rs), N(0))))
        V.prove("without usable recipients, or to a terminal, nothing is written", T.implies(c, T.eq(tstr(libs.content(I, out)), before)))
        return V.prove("nor is anything printed", T.implies(c, T.eq(tstr(libs.content(I, I.std["stdout"])), S(""))))
    V.prove("the output is no terminal", T.not_(tty))
    V.prove("every recipient given resolves to at least one key", ok)
    V.prove("there is a recipient", T.or_(pw.t, T.gt(T.length(rs), N(0))))
    V.prove("one file is made, the passphrase is asked for once at most", T.bool_(len(made) == 1 and len(I.prompts) < 2))
    ps = I.prompts
    V.prove("a password is asked for exactly if requested", T.eq(pw.t, T.bool_(len(ps) == 1)))
    now = tstr(libs.content(I, out))
    want = [keys]
    if ps:
        p = T.unit(T.ctor("AnyKey", "mkAnyKey", T.TRUE, T.app("utf8enc", ps[0])))
        want = [T.concat(keys, p), T.concat(p, keys)]
    enc = lambda k: T.app("ENCFILE", k, data, t0)
    text = lambda k: T.app("ARMOR", S("AGE ENCRYPTED FILE"), enc(k)) if armored else enc(k)
    V.prove("the file written is the input, encrypted to every key of every recipient given and the password requested", T.or_(*[T.eq(now, T.concat(before, text(k))) for k in want]))
    V.prove("nothing else is printed", T.eq(tstr(libs.content(I, I.std["stdout"])), S("")))


@unit("C21", "encryption to the standard output", hints=[inv_cli])
def c21_enc_std(V):
    encryption(V, V.ctx.choose(2), 0)


@unit("C21", "armored encryption to the standard output", hints=[inv_cli])
def c21_enc_std_a(V):
    encryption(V, V.ctx.choose(2), 1)


@unit("C21", "encryption to a file", hints=[inv_cli])
def c21_enc_file(V):
    encryption(V, 2, 0)


@unit("C21", "armored encryption to a file", hints=[inv_cli])
def c21_enc_file_a(V):
    encryption(V, 2, 1)


# ---------------------------------------------------------------- decrypt


def k_txt(I, vals):
    t = tstr(named(vals, "filename")[0])
    if not I.ctx.branch(T.app("KT_ok", t)):
        raise I.exc([ValueError, OSError, UnicodeDecodeError][I.ctx.choose(3)], "cannot be read")
    return I.new_list([Chunk(T.app("KT", t), PK)])


def k_ssh(I, vals):
    return I.new_list([Chunk(T.app("SK_", tstr(named(vals, "root")[0])), PK)])


def decryption(V, which, armored):
    I = V.I
    if "ALLT" not in T.UFS:
        @axioms.define("ALLT", (SEQS,), KSEQ)
        def _allt(t):
            s = t.args[0]
            c = T.gt(T.length(s), N(0))
            return [T.implies(T.not_(c), T.eq(t, T.empty(KSEQ))), T.implies(c, T.eq(t, T.concat(T.app("KT", head(s)), T.app("ALLT", tail(s)))))]

    I.unit_vars = {"what": "decrypt"}
    log, I.prompts = [], []
    inputs(V, log)
    I.contracts["age.keyloader.load_keys_txt"] = k_txt
    I.contracts["age.keyloader.load_ssh_keys"] = k_ssh
    out, before, data, tty, kw = arrange(V, which)
    if V.ctx.choose(2):
        kw["keyfiles"], _ = V.list("keyfiles", SStr_)
    kw["ask_password"], kw["ascii_armored"] = V.bool("ask_password"), bool(armored)
    o = V.attempt(CLI + "decrypt", **kw)
    if not o.ok:
        fails(V, o)
        return untouched(V, out, before)
    V.prove("the file is opened once", T.bool_(len(log) == 1))
    k, t = log[0]
    label = S("AGE ENCRYPTED FILE")
    V.prove("the file opened is the input", T.and_(T.app("UNARMOR_ok", label, data), T.eq(t, T.app("UNARMOR", label, data))) if armored else T.eq(t, data))
    V.prove("it was authenticated", T.app("DEC_ok", k, t))
    V.prove("exactly the decrypted bytes are written", T.eq(tstr(libs.content(I, out)), T.concat(before, T.app("DEC", k, t))))
    V.prove("nothing else is printed", T.eq(tstr(libs.content(I, I.std["stdout"])), S("")))


@unit("C21", "decryption to the standard output", hints=[inv_cli])
def c21_dec_std(V):
    decryption(V, V.ctx.choose(2), V.ctx.choose(2))


@unit("C21", "decryption to a file", hints=[inv_cli])
def c21_dec_file(V):
    decryption(V, 2, V.ctx.choose(2))


# ---------------------------------------------------------------- the click commands


def passed_on(V, command, target, plain, renamed):
    I = V.I
    got = []

    def k(I, vals):
        got.append(dict(vals))
        failing(I, "the command", [ValueError, SystemExit])

    I.contracts[CLI + target] = k
    args = {n: SStr(V.term(n, T.STR), "str") for n in plain}
    for n in renamed:
        args[n] = V.bool(n)
    o = V.attempt(CLI + command, **args)
    V.prove("the command is run once", T.bool_(len(got) == 1))
    vals = got[0]
    for n in plain:
        V.prove("argument %s" % n, I.eq_term(vals[n], args[n]))
    for n, m in renamed.items():
        V.prove("option %s" % n, T.eq(I.truth_term(vals[m]), tbool(args[n])))
    if not o.ok:
        V.prove("a failure is passed on", T.bool_(o.exc is not None))
    else:
        V.prove("success is passed on", T.bool_(True))


@unit("C21", "the commands pass all arguments on")
def c21_click(V):
    if V.ctx.choose(2):
        passed_on(V, "cli_encrypt", "encrypt", ["infile", "outfile", "recipients"], {"password": "ask_password", "ascii": "ascii_armored"})
    else:
        passed_on(V, "cli_decrypt", "decrypt", ["infile", "outfile", "keyfiles"], {"password": "ask_password", "ascii": "ascii_armored"})
