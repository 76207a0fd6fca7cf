"""C04, C05: the header text and its authentication."""

from .. import terms as T
from .. import axioms, libs, spec, strs
from ..core import *  # noqa: F401,F403
from ..interp import tstr, tint, tbool
from ..unit import unit
from ..libs import b64core
from .basic import S, N, ln

DUMP, LOADH = "age.format.dump_header", "age.format.load_header"
INTRO = S("age-encryption.org/v1")
SEQS = T.SEQ(T.STR)


def shape(I):
    """of a stanza in a header"""
    c = I.lookup_qual("age.format.Recipient")
    return Sh("obj", (c, (("arguments", SList_(SStr_)), ("body", SStr_), ("type", SStr_))))


def parts(sh, h):
    return tuple(dt_get(sh, h, n) for n in ("type", "arguments", "body"))


def make(sh, ty, ar, bo):
    return dt_make(sh, [ar, bo, ty])


def drop(s, n=1):
    return T.substr(s, N(n), T.sub(T.length(s), N(n)))


def enc8(t):
    """UTF-8"""
    if T.is_const(t):
        return S(t.val.encode().decode("latin-1"))
    if t.op == "++":
        return T.concat(*[enc8(x) for x in t.args])
    return T.app("utf8enc", t)


# ---------------------------------------------------------------- parsing: specification

SHAPE = []  # the stanza shape (one per run)


def line(r):
    return T.app("utf8dec", T.app("line1", r))


def words(x):
    return T.app("split_ws", T.substr(x, N(2), T.sub(T.length(x), N(2))))


def strip(x):
    return T.app(strs.strip_uf(strs.WS_STR, "lr"), x)


def setup_spec(I):
    sh = shape(I)
    D = sort_of(sh)
    q = T.SEQ(D)
    if "HPARSE" in T.UFS:
        return sh

    def cases(t, empty, bad, stanza, footer, other):
        r = t.args[0]
        x = line(r)
        st, fo = T.prefixof(S("->"), x), T.prefixof(S("---"), x)
        ok = T.app("utf8dec_ok", T.app("line1", r))
        w = words(x)
        some = T.ne(r, S(""))
        nx = T.app("line_rest", r)
        g = lambda c, v: T.implies(c, T.eq(t, v))
        return [g(T.not_(some), empty), g(T.and_(some, T.or_(T.not_(ok), T.and_(st, T.eq(T.length(w), N(0))))), bad),
                g(T.and_(some, ok, st, T.gt(T.length(w), N(0))), stanza(nx, w)), g(T.and_(some, ok, fo, T.not_(st)), footer(nx, x)),
                g(T.and_(some, ok, T.not_(st), T.not_(fo)), other(nx, x))]

    @axioms.define("HPARSE", (T.STR, q), q)
    def _hparse(t):
        """the stanzas read so far and those in the text r up to the footer line"""
        recs = t.args[1]
        n = T.length(recs)

        def other(nx, x):
            last = T.nth(recs, T.sub(n, N(1)))
            ty, ar, bo = parts(sh, last)
            more = T.concat(T.substr(recs, N(0), T.sub(n, N(1))), T.unit(make(sh, ty, ar, T.concat(bo, strip(x)))))
            return T.ite(T.eq(n, N(0)), T.app("HPARSE", nx, recs), T.app("HPARSE", nx, more))

        return cases(t, recs, recs, lambda nx, w: T.app("HPARSE", nx, T.concat(recs, T.unit(make(sh, T.nth(w, N(0)), drop(w), S(""))))), lambda nx, x: recs, other)

    @axioms.define("HOK", (T.STR, T.BOOL), T.BOOL)
    def _hok(t):
        """the text has a footer line, and only well-formed stanza lines and (after a stanza line) lines of one word before it"""
        b = t.args[1]
        return cases(t, T.FALSE, T.FALSE, lambda nx, w: T.app("HOK", nx, T.TRUE), lambda nx, x: T.TRUE,
                     lambda nx, x: T.and_(T.or_(T.not_(b), T.le(T.length(T.app("split_ws", strip(x))), N(1))), T.app("HOK", nx, b)))

    @axioms.define("HFOOT", (T.STR,), T.STR)
    def _hfoot(t):
        """the footer line"""
        return cases(t, S(""), S(""), lambda nx, w: T.app("HFOOT", nx), lambda nx, x: x, lambda nx, x: T.app("HFOOT", nx))

    @axioms.define("HREST", (T.STR,), T.STR)
    def _hrest(t):
        """what follows the footer line"""
        return cases(t, S(""), S(""), lambda nx, w: T.app("HREST", nx), lambda nx, x: nx, lambda nx, x: T.app("HREST", nx))

    return sh


def inv_load(L):
    """the stanzas read so far and the rest of the text determine the result"""
    u = L.I.unit_vars
    if "load" not in u:
        return []
    st, sh = u["stream"], u["sh"]
    I = L.I
    r0 = libs.rest(I, st)
    out = []
    for f in ("HFOOT", "HREST"):
        out.append(("the rest determines " + f, lambda L, f=f: T.eq(T.app(f, libs.rest(I, st)), T.app(f, r0))))
    for loc, s in L.locs("list"):
        if s.a == sh and L.entry(loc) is not None:
            e = L.entry(loc)

            def g(L, loc=loc, e=e):
                v = L.val(loc)
                return None if v is None else T.eq(T.app("HPARSE", libs.rest(I, st), v), T.app("HPARSE", r0, e))

            out.append(("stanzas so far and stanzas in the rest", g))

            def g2(L, loc=loc, e=e):
                v = L.val(loc)
                return None if v is None else T.eq(T.app("HOK", libs.rest(I, st), T.gt(T.length(v), N(0))), T.app("HOK", r0, T.gt(T.length(e), N(0))))

            out.append(("the rest determines whether the header is well-formed", g2))
    for loc, s in L.locs("str"):
        out.append(("no footer so far (%s)" % loc[-1], lambda L, loc=loc: None if L.val(loc) is None else T.not_(T.prefixof(S("---"), L.val(loc)))))
    return out


def footer(x):
    """(acceptable, MAC text) of a footer line"""
    w = T.app("split_ws", x)
    return T.and_(T.eq(T.length(w), N(2)), T.eq(T.nth(w, N(0)), S("---"))), T.nth(w, N(1))


def intro_line(I, first):
    """the first line is the version line (surrounding white space is ignored)"""
    return T.eq(T.app(strs.strip_uf(strs.WS_BYTES, "lr"), first), INTRO)


@unit(("C04", "C05?", "C01?"), "load_header reads the stanzas, the MAC and nothing beyond the footer line", hints=[inv_load], budget=400, timeout=10)
def c04_load(V):
    I = V.I
    sh = setup_spec(I)
    c = V.bytes("text")
    st = libs.stream(I, c)
    I.unit_vars = {"load": True, "stream": st, "sh": sh}
    first, r = T.app("line1", c.t), T.app("line_rest", c.t)
    o = V.attempt(LOADH, st)
    acc, mac = footer(T.app("HFOOT", r))
    accepted = T.and_(intro_line(I, first), T.app("HOK", r, T.FALSE), acc)
    if o.ok:
        V.prove("only a text with version line, well-formed stanza lines and a footer line with one MAC is accepted", accepted)
        h, m = o.val if isinstance(o.val, tuple) and len(o.val) == 2 else (None, None)
        if h is None:
            return V.fail("a header and a MAC are returned")
        V.prove("the stanzas are those of the text, in order", T.eq(I.encode(V.attr(h, "recipients"), SList_(sh)), T.app("HPARSE", r, T.empty(T.SEQ(sort_of(sh))))))
        V.prove("the MAC is that of the footer line", T.eq(tstr(m), T.app("b64d", mac)))
        V.prove("nothing beyond the footer line is read", T.eq(libs.rest(I, st), T.app("HREST", r)))
    else:
        V.prove("nothing else is refused (%s)" % o.why(), T.not_(T.and_(accepted, T.in_re(mac, libs.B64STAR), T.app("b64d_ok", mac))))


# ---------------------------------------------------------------- writing: specification


def stanza_text(sh, h):
    """a stanza's line and body lines, as bytes"""
    ty, ar, bo = parts(sh, h)
    return T.concat(S("-> "), T.app("utf8enc", ty), S(" "), T.app("utf8enc", T.app("join", S(" "), ar)), S("\n"),
                    T.ite(T.eq(bo, S("")), S(""), T.concat(T.app("utf8enc", T.app("fill", bo, N(64))), S("\n"))))


def encodable(sh, h):
    ty, ar, bo = parts(sh, h)
    return T.and_(T.app("utf8enc_ok", ty), T.app("utf8enc_ok", T.app("join", S(" "), ar)), T.or_(T.eq(bo, S("")), T.app("utf8enc_ok", T.app("fill", bo, N(64)))))


def setup_dump(I):
    sh = setup_spec(I)
    q = T.SEQ(sort_of(sh))
    if "DUMPT" in T.UFS:
        return sh

    @axioms.define("DUMPT", (q,), T.STR)
    def _dumpt(t):
        s = t.args[0]
        return [T.implies(T.eq(T.length(s), N(0)), T.eq(t, S(""))),
                T.implies(T.gt(T.length(s), N(0)), T.eq(t, T.concat(stanza_text(sh, T.nth(s, N(0))), T.app("DUMPT", drop(s)))))]

    @axioms.define("DUMPOK", (q,), T.BOOL)
    def _dumpok(t):
        """all of it can be written as UTF-8"""
        s = t.args[0]
        return [T.implies(T.eq(T.length(s), N(0)), t),
                T.implies(T.gt(T.length(s), N(0)), T.eq(t, T.and_(encodable(sh, T.nth(s, N(0))), T.app("DUMPOK", drop(s)))))]

    return sh


def inv_dump(L):
    u = L.I.unit_vars
    if "dump" not in u or L.seq is not u["hdr"]:
        return []
    h = u["hdr"]
    rest = lambda L: T.substr(h, L.k(), T.sub(T.length(h), L.k()))
    out = [("the rest can be written iff all can", lambda L: T.eq(T.app("DUMPOK", rest(L)), T.app("DUMPOK", h)))]
    for loc, s in L.locs():
        if s.k in ("bytes", "str") and L.entry(loc) is not None and loc[0] == "b":
            e = L.entry(loc)

            def f(L, loc=loc, e=e):
                v = L.val(loc)
                return None if v is None else T.eq(T.concat(v, T.app("DUMPT", rest(L))), T.concat(e, T.app("DUMPT", h)))

            out.append(("what is written and the text of the rest make up the text", f))
    return out


def header_obj(I, seq, sh):
    h = I.new_obj(I.lookup_qual("age.format.Header"))
    I.set_attr_raw(h, "recipients", I.new_list([Chunk(seq, sh)]))
    return h


@unit(("C04", "C05?", "C01?"), "dump_header writes the version line, every stanza and the footer", hints=[inv_dump], budget=400, timeout=10)
def c04_dump(V):
    I = V.I
    sh = setup_dump(I)
    hdr = V.term("stanzas", T.SEQ(sort_of(sh)))
    before = V.bytes("before")
    st = libs.stream(I, before, T_len(before))
    I.unit_vars = {"dump": True, "hdr": hdr, "sh": sh}
    mac = V.bytes("mac", 32) if V.ctx.choose(2) else None
    o = V.attempt(DUMP, header_obj(I, hdr, sh), st, mac)
    if not o.ok:
        V.prove("only text that is no Unicode is refused (%s)" % o.why(), T.not_(T.app("DUMPOK", hdr)))
        return
    V.prove("every stanza can be written", T.app("DUMPOK", hdr))
    V.prove("the header text", T.eq(tstr(libs.content(I, st)), T.concat(before.t, INTRO, S("\n"), T.app("DUMPT", hdr), S("---"), *([] if mac is None else [S(" "), b64core(mac.t)]))))


def T_len(v):
    return mkint(T.length(tstr(v)))


# ---------------------------------------------------------------- writing and reading back

NOWS = T.star(T.cls_not(strs.WS_STR))
NONL = T.star(libs.NONL)
MAXB = 1 << 40


def word(x):
    """what a type or an argument is: a non-empty text without white space"""
    return T.and_(T.ne(x, S("")), T.in_re(x, NOWS), T.app("utf8enc_ok", x))


@axioms.define("WORDS", (SEQS,), T.BOOL)
def _words(t):
    s = t.args[0]
    return [T.implies(T.eq(T.length(s), N(0)), t), T.implies(T.gt(T.length(s), N(0)), T.eq(t, T.and_(word(T.nth(s, N(0))), T.app("WORDS", drop(s)))))]


def setup_wf(I):
    sh = setup_dump(I)
    if "WFH" not in T.UFS:
        @axioms.define("WFH", (T.SEQ(sort_of(sh)),), T.BOOL)
        def _wfh(t):
            """types and arguments are words and bodies base64 text"""
            s = t.args[0]
            ty, ar, bo = parts(sh, T.nth(s, N(0)))
            return [T.implies(T.eq(T.length(s), N(0)), t),
                    T.implies(T.gt(T.length(s), N(0)), T.eq(t, T.and_(word(ty), T.app("WORDS", ar), T.in_re(bo, libs.B64STAR), T.app("WFH", drop(s)))))]
    return sh


def same(r1, recs1, b1, r2, recs2, b2):
    """reading goes on equally"""
    return T.and_(T.eq(T.app("HPARSE", r1, recs1), T.app("HPARSE", r2, recs2)), T.eq(T.app("HOK", r1, b1), T.app("HOK", r2, b2)),
                  T.eq(T.app("HFOOT", r1), T.app("HFOOT", r2)), T.eq(T.app("HREST", r1), T.app("HREST", r2)))


def wrap(b):
    return T.app("WRAP", b, N(64))


def lem_body(sh, b, R, recs, ty, ar, b0):
    """reading the lines of a body appends them to the stanza's body"""
    return T.implies(T.and_(T.ne(b, S("")), T.in_re(b, libs.B64STAR)),
                     same(T.concat(wrap(b), S("\n"), R), T.concat(recs, T.unit(make(sh, ty, ar, b0))), T.TRUE,
                          R, T.concat(recs, T.unit(make(sh, ty, ar, T.concat(b0, b)))), T.TRUE))


def stanza_vars(V, sh):
    return V.term("type", T.STR), V.term("arguments", SEQS), V.term("body", T.STR), V.bytes("rest").t, V.term("before", T.SEQ(sort_of(sh)))


@unit(("C04", "C01?"), "lemma: body lines read back as the body")
def lemma_body(V):
    sh = setup_wf(V.I)
    ty, ar, b, R, recs = stanza_vars(V, sh)
    b0 = V.term("body_before", T.STR)
    V.assume(T.and_(T.ne(b, S("")), T.in_re(b, libs.B64STAR)))
    long = V.ctx.branch(T.gt(T.length(b), N(64)))
    first = T.substr(b, N(0), N(64)) if long else b
    more = drop(b, 64)
    if long:
        V.assume(lem_body(sh, more, R, recs, ty, ar, T.concat(b0, first)))
        V.prove("the first line and the rest make up the body", T.and_(T.eq(b, T.concat(first, more)), T.in_re(first, libs.B64STAR), T.in_re(more, libs.B64STAR), T.gt(T.length(first), N(0))))
        V.prove("the first line", T.eq(wrap(b), T.concat(first, S("\n"), wrap(more))))
        V.assume(T.eq(T.concat(wrap(b), S("\n"), R), T.concat(first, S("\n"), wrap(more), S("\n"), R)))
    r = T.concat(first, S("\n"), wrap(more), S("\n"), R) if long else T.concat(first, S("\n"), R)
    nx = T.concat(wrap(more), S("\n"), R) if long else R
    x = T.concat(first, S("\n"))
    V.prove("one line is read", T.and_(T.eq(T.app("line1", r), x), T.eq(T.app("line_rest", r), nx)))
    V.prove("it is ASCII", T.and_(T.app("utf8dec_ok", x), T.eq(T.app("utf8dec", x), x)))
    V.prove("it is no stanza line and no footer line", T.and_(T.not_(T.prefixof(S("->"), x)), T.not_(T.prefixof(S("---"), x))))
    V.prove("it is one word", T.and_(T.eq(strip(x), first), T.eq(T.app("split_ws", first), T.unit(first))))
    a1, a2 = T.concat(recs, T.unit(make(sh, ty, ar, b0))), T.concat(recs, T.unit(make(sh, ty, ar, T.concat(b0, first))))
    V.prove("it is appended to the body", same(r, a1, T.TRUE, nx, a2, T.TRUE))
    V.prove("by induction on the body", lem_body(sh, b, R, recs, ty, ar, b0), plain=True)


def split_law(V, lead, x, r):
    """str.split: white space, then a word, then white space or the end"""
    V.assume(T.implies(T.and_(T.in_re(lead, T.star(strs.WS_STR)), T.ne(x, S("")), T.in_re(x, NOWS), T.or_(T.eq(r, S("")), T.in_re(T.at(r, N(0)), strs.WS_STR))),
                       T.eq(T.app("split_ws", T.concat(lead, x, r)), T.concat(T.unit(x), T.app("split_ws", r)))))


def blank_law(V, r):
    """str.split of white space"""
    V.assume(T.implies(T.in_re(r, T.star(strs.WS_STR)), T.eq(T.app("split_ws", r), T.empty(SEQS))))


def join_law(V, ar):
    """str.join with a space"""
    j = T.app("join", S(" "), ar)
    n = T.length(ar)
    V.assume(T.and_(T.implies(T.eq(n, N(0)), T.eq(j, S(""))), T.implies(T.eq(n, N(1)), T.eq(j, T.nth(ar, N(0)))),
                    T.implies(T.gt(n, N(1)), T.eq(j, T.concat(T.nth(ar, N(0)), S(" "), T.app("join", S(" "), drop(ar)))))))
    return j


def utf8_law(V, *xs):
    """UTF-8 encoding distributes over concatenation and keeps newlines apart"""
    w = T.concat(*xs)
    V.assume(T.eq(T.app("utf8enc_ok", w), T.and_(*[T.app("utf8enc_ok", x) for x in xs if not T.is_const(x)])))
    V.assume(T.implies(T.app("utf8enc_ok", w), T.eq(T.app("utf8enc", w), T.concat(*[enc8(x) for x in xs]))))
    for x in xs:
        if not T.is_const(x):
            V.assume(T.implies(T.and_(T.app("utf8enc_ok", x), T.in_re(x, NONL)), T.in_re(T.app("utf8enc", x), NONL)))


axioms.trust("str.split and str.join", "str.split() cuts at white space only and drops it; str.join puts the separator between the elements; UTF-8 encoding distributes over concatenation and keeps newlines apart")


def lem_args(ar):
    j = T.app("join", S(" "), ar)
    return T.implies(T.app("WORDS", ar), T.and_(T.eq(T.app("split_ws", T.concat(S(" "), j, S("\n"))), ar), T.in_re(j, NONL), T.app("utf8enc_ok", j)))


@unit(("C04", "C01?"), "lemma: arguments joined with spaces split into the arguments")
def lemma_args(V):
    ar = V.term("arguments", SEQS)
    j = join_law(V, ar)
    V.assume(T.app("WORDS", ar))
    n = T.length(ar)
    a = T.nth(ar, N(0))
    if V.ctx.branch(T.gt(n, N(0))):
        V.prove("an argument is a word", word(a))
        V.prove("and has no newline", T.in_re(a, NONL))
    blank_law(V, S(" \n"))
    blank_law(V, S("\n"))
    if V.ctx.branch(T.gt(n, N(1))):
        jj = T.app("join", S(" "), drop(ar))
        V.assume(lem_args(drop(ar)))
        V.prove("the other arguments", T.and_(T.in_re(jj, NONL), T.app("utf8enc_ok", jj), T.eq(T.app("split_ws", T.concat(S(" "), jj, S("\n"))), drop(ar))))
        V.prove("joined", T.eq(j, T.concat(a, S(" "), jj)))
        V.prove("the joined text has no newline", T.in_re(j, NONL), using=[T.eq(j, T.concat(a, S(" "), jj)), T.in_re(a, NONL), T.in_re(jj, NONL)])
        utf8_law(V, a, S(" "), jj)
        split_law(V, S(" "), a, T.concat(S(" "), jj, S("\n")))
    elif V.ctx.branch(T.eq(n, N(1))):
        V.prove("the one argument", T.and_(T.eq(j, a), T.eq(ar, T.unit(a))))
        V.prove("its text has no newline", T.in_re(j, NONL), using=[T.eq(j, a), T.in_re(a, NONL)])
        split_law(V, S(" "), a, S("\n"))
        utf8_law(V, a)
    if V.ctx.branch(T.eq(n, N(0))):
        V.prove("no arguments", T.eq(T.app("split_ws", S(" \n")), ar))
    V.prove("by induction on the arguments", lem_args(ar), plain=True)


def lem_stanza(sh, ty, ar, bo, R, recs, b):
    h = make(sh, ty, ar, bo)
    return T.implies(T.and_(word(ty), T.app("WORDS", ar), T.in_re(bo, libs.B64STAR)),
                     same(T.concat(stanza_text(sh, h), R), recs, b, R, T.concat(recs, T.unit(h)), T.TRUE))


@unit(("C04", "C01?"), "lemma: a stanza's text reads back as the stanza")
def lemma_stanza(V):
    sh = setup_wf(V.I)
    ty, ar, bo, R, recs = stanza_vars(V, sh)
    b = V.term("some_before", T.BOOL)
    V.assume(T.and_(word(ty), T.app("WORDS", ar), T.in_re(bo, libs.B64STAR)))
    V.assume(lem_args(ar))
    j = T.app("join", S(" "), ar)
    V.assume(lem_body(sh, bo, R, recs, ty, ar, S("")))
    h = make(sh, ty, ar, bo)
    V.prove("arguments have no newline", T.and_(T.in_re(j, NONL), T.app("utf8enc_ok", j)))
    x = T.concat(S("-> "), ty, S(" "), j, S("\n"))
    utf8_law(V, S("-> "), ty, S(" "), j, S("\n"))
    split_law(V, S(" "), ty, T.concat(S(" "), j, S("\n")))
    empty = V.ctx.branch(T.eq(bo, S("")))
    body = S("") if empty else T.concat(wrap(bo), S("\n"))
    xb = T.concat(S("-> "), T.app("utf8enc", ty), S(" "), T.app("utf8enc", j), S("\n"))
    r, nx = T.concat(xb, body, R), T.concat(body, R)
    V.prove("a type has no newline", T.in_re(ty, NONL))
    V.prove("nor has their encoding", T.and_(T.in_re(T.app("utf8enc", ty), NONL), T.in_re(T.app("utf8enc", j), NONL)), plain=True)
    V.prove("the text of the stanza", T.eq(T.concat(stanza_text(sh, h), R), r))
    V.prove("one line is read", T.and_(T.eq(T.app("line1", r), xb), T.eq(T.app("line_rest", r), nx)))
    V.prove("it is the stanza line", T.and_(T.eq(xb, T.app("utf8enc", x)), T.app("utf8enc_ok", x), T.app("utf8dec_ok", xb), T.eq(T.app("utf8dec", xb), x)))
    V.prove("its words are the type and the arguments", T.eq(words(x), T.concat(T.unit(ty), ar)), plain=True)
    V.prove("it starts a stanza", same(r, recs, b, nx, T.concat(recs, T.unit(make(sh, ty, ar, S("")))), T.TRUE), plain=True)
    V.prove("the stanza is read", lem_stanza(sh, ty, ar, bo, R, recs, b), plain=True)


def lem_header(sh, h, F, recs, b):
    """reading the text of the stanzas h and going on with F"""
    return T.implies(T.app("WFH", h), same(T.concat(T.app("DUMPT", h), F), recs, b, F, T.concat(recs, h), T.or_(b, T.gt(T.length(h), N(0)))))


@unit(("C04", "C01?"), "lemma: the text of a list of stanzas reads back as the list")
def lemma_header(V):
    sh = setup_wf(V.I)
    h, recs, F, b = V.term("stanzas", T.SEQ(sort_of(sh))), V.term("before", T.SEQ(sort_of(sh))), V.bytes("after").t, V.term("some_before", T.BOOL)
    V.assume(T.app("WFH", h))
    if V.ctx.branch(T.eq(T.length(h), N(0))):
        V.prove("no stanzas", lem_header(sh, h, F, recs, b))
        return
    h0 = T.nth(h, N(0))
    R = T.concat(T.app("DUMPT", drop(h)), F)
    V.assume(lem_header(sh, drop(h), F, T.concat(recs, T.unit(h0)), T.TRUE))
    V.assume(lem_stanza(sh, *parts(sh, h0), R, recs, b))
    V.prove("the first stanza is well-formed and so are the rest", T.and_(word(parts(sh, h0)[0]), T.app("WORDS", parts(sh, h0)[1]), T.in_re(parts(sh, h0)[2], libs.B64STAR), T.app("WFH", drop(h))))
    V.prove("the list", T.eq(h, T.concat(T.unit(h0), drop(h))))
    V.prove("the first stanza's text and the rest's", T.eq(T.concat(T.app("DUMPT", h), F), T.concat(stanza_text(sh, h0), R)))
    V.prove("by induction on the list", lem_header(sh, h, F, recs, b), plain=True)


@unit(("C04", "C01?"), "a header that was written reads back as itself, up to the first payload byte")
def c04_roundtrip(V):
    """from the contracts of dump_header and load_header and the lemmas"""
    sh = setup_wf(V.I)
    h, mac, payload = V.term("stanzas", T.SEQ(sort_of(sh))), V.bytes("mac", 32).t, V.bytes("payload").t
    V.assume(T.app("WFH", h))
    F = T.concat(S("--- "), b64core(mac), S("\n"), payload)
    r = T.concat(T.app("DUMPT", h), F)
    text = T.concat(INTRO, S("\n"), r)
    none = T.empty(T.SEQ(sort_of(sh)))
    V.assume(lem_header(sh, h, F, none, T.FALSE))
    V.prove("the first line is the version line", T.and_(T.eq(T.app("line1", text), T.concat(INTRO, S("\n"))), T.eq(T.app("line_rest", text), r)))
    V.prove("it is accepted", intro_line(V.I, T.concat(INTRO, S("\n"))))
    x = T.concat(S("--- "), b64core(mac), S("\n"))
    V.prove("the footer line", T.and_(T.eq(T.app("line1", F), x), T.eq(T.app("line_rest", F), payload), T.app("utf8dec_ok", x), T.eq(T.app("utf8dec", x), x)))
    blank_law(V, S("\n"))
    split_law(V, S(""), S("---"), T.concat(S(" "), b64core(mac), S("\n")))
    split_law(V, S(" "), b64core(mac), S("\n"))
    m64 = b64core(mac)
    V.prove("the MAC's text", T.and_(T.ne(m64, S("")), T.gt(T.length(m64), N(0)), T.in_re(m64, NOWS)))
    V.prove("the word of the MAC", T.and_(T.eq(T.app("split_ws", T.concat(S(" "), b64core(mac), S("\n"))), T.unit(b64core(mac)))), plain=True)
    V.prove("its words", T.eq(T.app("split_ws", x), T.concat(T.unit(S("---")), T.unit(b64core(mac)))), plain=True)
    acc, m = footer(T.app("HFOOT", r))
    V.prove("the header is accepted", T.and_(T.app("HOK", r, T.FALSE), acc))
    V.prove("the stanzas are read back", T.eq(T.app("HPARSE", r, none), h))
    V.prove("the MAC is read back", T.eq(T.app("b64d", m), mac))
    V.prove("the stream is at the first payload byte", T.eq(T.app("HREST", r), payload))
