"""C05: different headers have different texts, so a MAC over the text covers every stanza."""

from .. import terms as T
from .. import axioms, libs, strs
from ..core import *  # noqa: F401,F403
from ..unit import unit
from .basic import S, N
from .header import (SEQS, NOWS, NONL, setup_wf, parts, make, drop, word, words, strip, wrap, stanza_text, join_law, utf8_law, split_law, blank_law, lem_args, enc8)


def body_ok(b):
    return T.and_(T.in_re(b, NOWS), T.app("utf8enc_ok", b))


def stanza_str(sh, h):
    """the lines of a stanza as text"""
    ty, ar, bo = parts(sh, h)
    return T.concat(S("-> "), ty, S(" "), T.app("join", S(" "), ar), S("\n"), T.ite(T.eq(bo, S("")), S(""), T.concat(wrap(bo), S("\n"))))


def stop(r):
    """no body line comes next"""
    return T.or_(T.in_re(r, NONL), T.prefixof(S("-> "), r))


def chop(x):
    return T.substr(x, N(0), T.sub(T.length(x), N(1)))


@axioms.define("UNB", (T.STR,), T.STR)
def _unb(t):
    """the body whose lines come next"""
    r = t.args[0]
    return [T.implies(stop(r), T.eq(t, S(""))), T.implies(T.not_(stop(r)), T.eq(t, T.concat(chop(T.app("line1", r)), T.app("UNB", T.app("line_rest", r)))))]


@axioms.define("UNR", (T.STR,), T.STR)
def _unr(t):
    """what follows the body lines"""
    r = t.args[0]
    return [T.implies(stop(r), T.eq(t, r)), T.implies(T.not_(stop(r)), T.eq(t, T.app("UNR", T.app("line_rest", r))))]


def setup(I):
    sh = setup_wf(I)
    q = T.SEQ(sort_of(sh))
    if "UNDUMP" in T.UFS:
        return sh

    @axioms.define("WFP", (q,), T.BOOL)
    def _wfp(t):
        """types and arguments are words and bodies contain no white space"""
        s = t.args[0]
        ty, ar, bo = parts(sh, T.nth(s, N(0)))
        return [T.implies(T.eq(T.length(s), N(0)), t),
                T.implies(T.gt(T.length(s), N(0)), T.eq(t, T.and_(word(ty), T.app("WORDS", ar), body_ok(bo), T.app("WFP", drop(s)))))]

    @axioms.define("DUMPS", (q,), T.STR)
    def _dumps(t):
        """the text of the stanzas"""
        s = t.args[0]
        return [T.implies(T.eq(T.length(s), N(0)), T.eq(t, S(""))),
                T.implies(T.gt(T.length(s), N(0)), T.eq(t, T.concat(stanza_str(sh, T.nth(s, N(0))), T.app("DUMPS", drop(s)))))]

    @axioms.define("UNDUMP", (T.STR,), q)
    def _undump(t):
        """the stanzas with the given text"""
        r = t.args[0]
        w = words(T.app("line1", r))
        nx = T.app("line_rest", r)
        return [T.implies(T.in_re(r, NONL), T.eq(t, T.empty(q))),
                T.implies(T.not_(T.in_re(r, NONL)), T.eq(t, T.concat(T.unit(make(sh, T.nth(w, N(0)), drop(w), T.app("UNB", nx))), T.app("UNDUMP", T.app("UNR", nx)))))]

    return sh


def lem_unbody(b, R):
    return T.implies(T.and_(body_ok(b), T.ne(b, S("")), stop(R)), T.and_(T.eq(T.app("UNB", T.concat(wrap(b), S("\n"), R)), b), T.eq(T.app("UNR", T.concat(wrap(b), S("\n"), R)), R)))


@unit("C05", "lemma: a body is determined by its lines")
def lemma_unbody(V):
    b, R = V.term("body", T.STR), V.term("rest", T.STR)
    V.assume(T.and_(T.in_re(b, NOWS), T.app("utf8enc_ok", b), T.ne(b, S("")), stop(R)))
    long = V.ctx.branch(T.gt(T.length(b), N(64)))
    first = T.substr(b, N(0), N(64)) if long else b
    more = drop(b, 64)
    utf8_law(V, first, more)
    if long:
        V.prove("the first line and the rest make up the body", T.and_(T.eq(b, T.concat(first, more)), T.in_re(first, NOWS), T.in_re(more, NOWS), T.gt(T.length(first), N(0)), T.gt(T.length(more), N(0)), T.app("utf8enc_ok", more)))
        V.assume(lem_unbody(more, R))
        V.prove("the first line", T.eq(wrap(b), T.concat(first, S("\n"), wrap(more))))
    r = T.concat(first, S("\n"), wrap(more), S("\n"), R) if long else T.concat(first, S("\n"), R)
    nx = T.concat(wrap(more), S("\n"), R) if long else R
    V.prove("no newline in the first line", T.in_re(first, NONL))
    V.prove("one line is read", T.and_(T.eq(T.app("line1", r), T.concat(first, S("\n"))), T.eq(T.app("line_rest", r), nx)))
    n = T.length(first)
    if V.ctx.branch(T.le(n, N(2))):
        if V.ctx.branch(T.eq(n, N(1))):
            V.prove("a short line is no stanza line", T.eq(T.at(r, N(1)), S("\n")))
        else:
            V.prove("a short line is no stanza line", T.eq(T.at(r, N(2)), S("\n")))
        V.prove("it is a body line", T.not_(T.prefixof(S("-> "), r)))
    else:
        c = T.at(first, N(2))
        V.prove("a long line has no space at its third place", T.in_re(c, NOWS))
        V.prove("nor has the text", T.and_(T.eq(T.at(r, N(2)), c), T.ne(c, S(" "))))
        V.prove("it is a body line", T.not_(T.prefixof(S("-> "), r)), using=[T.eq(T.at(r, N(2)), c), T.ne(c, S(" "))])
    V.prove("the line is read as part of the body", T.and_(T.eq(T.app("UNB", r), T.concat(first, T.app("UNB", nx))), T.eq(T.app("UNR", r), T.app("UNR", nx))))
    V.prove("by induction on the body", lem_unbody(b, R), plain=True)


def lem_undump(h):
    r = T.concat(T.app("DUMPS", h), S("---"))
    return T.implies(T.app("WFP", h), T.and_(T.eq(T.app("UNDUMP", r), h), stop(r)))


@unit("C05", "lemma: the stanzas are determined by their text")
def lemma_undump(V):
    sh = setup(V.I)
    h = V.term("stanzas", T.SEQ(sort_of(sh)))
    V.assume(T.app("WFP", h))
    if V.ctx.branch(T.eq(T.length(h), N(0))):
        V.prove("no stanzas", lem_undump(h))
        return
    h0, t = T.nth(h, N(0)), drop(h)
    ty, ar, bo = parts(sh, h0)
    j = T.app("join", S(" "), ar)
    V.assume(lem_args(ar))
    V.prove("the first stanza", T.and_(word(ty), T.app("WORDS", ar), body_ok(bo), T.app("WFP", t)))
    V.assume(lem_undump(t))
    V.prove("the list", T.eq(h, T.concat(T.unit(h0), t)))
    V.prove("arguments have no newline", T.in_re(j, NONL))
    R = T.concat(T.app("DUMPS", t), S("---"))
    V.assume(lem_unbody(bo, R))
    empty = V.ctx.branch(T.eq(bo, S("")))
    body = S("") if empty else T.concat(wrap(bo), S("\n"))
    x = T.concat(S("-> "), ty, S(" "), j, S("\n"))
    r, nx = T.concat(x, body, R), T.concat(body, R)
    V.prove("the text", T.eq(T.concat(T.app("DUMPS", h), S("---")), r))
    V.prove("a type has no newline", T.in_re(ty, NONL))
    V.prove("the first line", T.and_(T.eq(T.app("line1", r), x), T.eq(T.app("line_rest", r), nx)))
    split_law(V, S(" "), ty, T.concat(S(" "), j, S("\n")))
    V.prove("its words are the type and the arguments", T.eq(words(x), T.concat(T.unit(ty), ar)), plain=True)
    V.prove("the body lines", T.and_(T.eq(T.app("UNB", nx), bo), T.eq(T.app("UNR", nx), R)))
    V.prove("the first stanza is read", T.eq(T.app("UNDUMP", r), T.concat(T.unit(make(sh, ty, ar, bo)), T.app("UNDUMP", R))))
    V.prove("it is the first", T.eq(make(sh, ty, ar, bo), h0))
    V.prove("by induction on the list", T.and_(T.eq(T.app("UNDUMP", T.concat(T.app("DUMPS", h), S("---"))), h), T.prefixof(S("-> "), r)), plain=True)


def lem_text(h):
    d = T.app("DUMPS", h)
    return T.implies(T.app("WFP", h), T.and_(T.app("utf8enc_ok", d), T.eq(T.app("DUMPT", h), T.app("utf8enc", d))))


def wrap_law(V, b):
    """cutting into lines and encoding"""
    V.assume(T.implies(body_ok(b), T.app("utf8enc_ok", wrap(b))))


@unit("C05", "lemma: the bytes of the stanzas are the encoding of their text")
def lemma_text(V):
    sh = setup(V.I)
    h = V.term("stanzas", T.SEQ(sort_of(sh)))
    V.assume(T.app("WFP", h))
    if V.ctx.branch(T.eq(T.length(h), N(0))):
        V.prove("no stanzas", lem_text(h))
        return
    h0, t = T.nth(h, N(0)), drop(h)
    ty, ar, bo = parts(sh, h0)
    j = T.app("join", S(" "), ar)
    V.assume(lem_args(ar))
    V.prove("the first stanza", T.and_(word(ty), T.app("WORDS", ar), body_ok(bo), T.app("WFP", t)))
    V.assume(lem_text(t))
    V.prove("its arguments", T.app("utf8enc_ok", j))
    wrap_law(V, bo)
    empty = V.ctx.branch(T.eq(bo, S("")))
    pieces = [S("-> "), ty, S(" "), j, S("\n")] + ([] if empty else [wrap(bo), S("\n")]) + [T.app("DUMPS", t)]
    utf8_law(V, *pieces)
    V.prove("the text", T.eq(T.app("DUMPS", h), T.concat(*pieces)))
    if not empty:
        V.prove("the wrapped body", T.eq(T.app("fill", bo, N(64)), wrap(bo)))
    V.prove("the bytes", T.eq(T.app("DUMPT", h), T.concat(*[enc8(x) for x in pieces[:-1]], T.app("DUMPT", t))))
    V.prove("the rest", T.and_(T.app("utf8enc_ok", T.app("DUMPS", t)), T.eq(T.app("DUMPT", t), T.app("utf8enc", T.app("DUMPS", t)))), plain=True)
    V.prove("the text can be encoded", T.app("utf8enc_ok", T.concat(*pieces)), plain=True)
    V.prove("by induction on the list", T.and_(T.app("utf8enc_ok", T.app("DUMPS", h)), T.eq(T.app("DUMPT", h), T.app("utf8enc", T.app("DUMPS", h)))), plain=True)


@unit("C05", "different headers have different texts under the MAC")
def c05_injective(V):
    """from the lemmas: equal texts mean equal types, arguments, bodies, order and number of stanzas"""
    sh = setup(V.I)
    q = T.SEQ(sort_of(sh))
    a, b = V.term("header", q), V.term("other", q)
    for h in (a, b):
        V.assume(T.app("WFP", h))
        V.assume(lem_text(h))
        V.assume(lem_undump(h))
        V.prove("the encoding determines the text", T.eq(T.app("utf8dec", T.app("DUMPT", h)), T.app("DUMPS", h)))
    V.assume(T.eq(T.concat(S("age-encryption.org/v1\n"), T.app("DUMPT", a), S("---")), T.concat(S("age-encryption.org/v1\n"), T.app("DUMPT", b), S("---"))))
    V.prove("the stanzas' bytes are equal", T.eq(T.app("DUMPT", a), T.app("DUMPT", b)), plain=True)
    V.prove("the stanzas' texts are equal", T.eq(T.app("DUMPS", a), T.app("DUMPS", b)), plain=True)
    V.prove("the stanzas are equal", T.eq(a, b), plain=True)


# ---------------------------------------------------------------- what load_header returns is well-formed


def lem_cat(a, b):
    return T.eq(T.app("WFP", T.concat(a, b)), T.and_(T.app("WFP", a), T.app("WFP", b)))


@unit("C05", "lemma: well-formedness of a concatenation")
def lemma_cat(V):
    sh = setup(V.I)
    q = T.SEQ(sort_of(sh))
    a, b = V.term("a", q), V.term("b", q)
    if V.ctx.branch(T.gt(T.length(a), N(0))):
        V.assume(lem_cat(drop(a), b))
        ab = T.concat(a, b)
        V.prove("the head and the tail", T.and_(T.eq(T.nth(ab, N(0)), T.nth(a, N(0))), T.eq(drop(ab), T.concat(drop(a), b)), T.gt(T.length(ab), N(0))))
    V.prove("by induction on the first list", lem_cat(a, b))


def lem_parsed(r, recs):
    return T.implies(T.and_(T.app("WFP", recs), T.app("HOK", r, T.gt(T.length(recs), N(0)))), T.app("WFP", T.app("HPARSE", r, recs)))


@unit("C05", "lemma: the stanzas read from a header are well-formed")
def lemma_parsed(V):
    sh = setup(V.I)
    r, recs = V.bytes("text").t, V.term("before", T.SEQ(sort_of(sh)))
    n = T.length(recs)
    V.assume(T.and_(T.app("WFP", recs), T.app("HOK", r, T.gt(n, N(0)))))
    raw = T.app("line1", r)
    x, nx = T.app("utf8dec", raw), T.app("line_rest", r)
    V.prove("there is a line", T.and_(T.ne(r, S("")), T.app("utf8dec_ok", raw)))
    if V.ctx.branch(T.prefixof(S("->"), x)):
        w = words(x)
        # str.split: the parts of a text that can be encoded are words
        V.assume(T.implies(T.app("utf8enc_ok", x), T.app("WORDS", w)))
        new = make(sh, T.nth(w, N(0)), drop(w), S(""))
        V.assume(lem_cat(recs, T.unit(new)))
        V.prove("the line is well-formed", T.and_(T.app("utf8enc_ok", x), T.gt(T.length(w), N(0)), T.app("WORDS", w)))
        V.prove("no stanzas are well-formed", T.app("WFP", T.empty(T.SEQ(sort_of(sh)))))
        V.prove("the new stanza is well-formed", T.app("WFP", T.unit(new)))
        V.assume(lem_parsed(nx, T.concat(recs, T.unit(new))))
    elif V.ctx.branch(T.prefixof(S("---"), x)):
        pass
    elif V.ctx.branch(T.eq(n, N(0))):
        V.assume(lem_parsed(nx, recs))
    else:
        last = T.nth(recs, T.sub(n, N(1)))
        ty, ar, bo = parts(sh, last)
        y = strip(x)
        # str.strip and str.split: a stripped text of one word has no white space; parts of a text that can be encoded can be encoded
        V.assume(T.implies(T.le(T.length(T.app("split_ws", y)), N(1)), T.in_re(y, NOWS)))
        V.assume(T.implies(T.app("utf8enc_ok", x), T.app("utf8enc_ok", y)))
        utf8_law(V, bo, y)
        front = T.substr(recs, N(0), T.sub(n, N(1)))
        more = make(sh, ty, ar, T.concat(bo, y))
        V.prove("the stanzas before and the last", T.eq(recs, T.concat(front, T.unit(last))))
        V.assume(lem_cat(front, T.unit(last)))
        V.assume(lem_cat(front, T.unit(more)))
        V.prove("they are well-formed", T.and_(T.app("WFP", front), T.app("WFP", T.unit(last))), plain=True)
        V.prove("the last stanza", T.and_(word(ty), T.app("WORDS", ar), body_ok(bo)))
        V.prove("the line is one word", T.and_(T.app("utf8enc_ok", x), T.le(T.length(T.app("split_ws", y)), N(1)), T.in_re(y, NOWS), T.app("utf8enc_ok", y)))
        V.prove("the body with the line is well-formed", body_ok(T.concat(bo, y)))
        V.prove("the stanza with the line is well-formed", T.app("WFP", T.unit(more)))
        V.assume(lem_parsed(nx, T.concat(front, T.unit(more))))
    V.prove("by induction on the text", lem_parsed(r, recs))
