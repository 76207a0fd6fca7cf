"""Specification functions over strings and sequences: split, join, lines,
byte sequences.  Definitions are instantiated on ground terms only."""

from . import terms as T
from . import axioms
from .core import *  # noqa: F401,F403
from . import strs

SEQS = T.SEQ(T.STR)
SEQI = T.SEQ(T.INT)



def nows(I, t):
    if t.op == "++":
        return all(nows(I, x) for x in t.args)
    if T.is_const(t):
        return not any(c.isspace() for c in t.val)
    return I.ctx.entails(T.in_re(t, T.star(T.cls_not(strs.WS_STR))), timeout=0.8)


def split_ws(I, t, kind):
    """str.split() without arguments as a sequence of strings; known structure is resolved"""
    ws = strs.WS_STR if kind == "str" else strs.WS_BYTES
    parts = list(t.args) if t.op == "++" else [t]
    words, cur = [], []  # cur: pieces of the current word
    ok = True

    def flush():
        nonlocal cur
        if cur:
            w = T.concat_sort(T.STR, *cur)
            if not T.is_const(w) and T.min_len(w) == 0 and not I.ctx.entails(T.ne(w, T.str_("")), timeout=0.8):
                return False
            if not (T.is_const(w) and w.val == ""):
                words.append(w)
            cur = []
        return True

    for p in parts:
        if T.is_const(p):
            piece = ""
            for ch in p.val:
                if any(a <= ord(ch) <= b for a, b in ws[1]):
                    if piece:
                        cur.append(T.str_(piece))
                        piece = ""
                    if not flush():
                        ok = False
                        break
                else:
                    piece += ch
            if piece:
                cur.append(T.str_(piece))
        elif nows(I, p):
            cur.append(p)
        else:
            ok = False
        if not ok:
            break
    if ok and flush():
        return T.concat_sort(SEQS, *[T.unit(w) for w in words])
    return T.app("split_ws" if kind == "str" else "split_wsb", t)


for _n, _c in (("split_ws", strs.WS_STR), ("split_wsb", strs.WS_BYTES)):
    T.declare_uf(_n, (T.STR,), SEQS)


def _ax_split(t):
    s = t.args[0]
    c = strs.WS_STR if t.val == "split_ws" else strs.WS_BYTES
    return [T.implies(T.in_re(s, T.star(T.cls_not(c))), T.and_(T.implies(T.eq(s, T.str_("")), T.eq(T.length(t), T.int_(0))), T.implies(T.ne(s, T.str_("")), T.eq(t, T.unit(s)))))]


axioms.on("split_ws", "split_wsb")(_ax_split)

T.declare_uf("join", (T.STR, SEQS), T.STR)
T.declare_uf("splitlines", (T.STR,), SEQS)
T.declare_uf("all_bytes", (SEQI,), T.BOOL)
T.declare_uf("bytes_of", (SEQI,), T.STR)
T.LEN_RULE["bytes_of"] = lambda t: T.length(t.args[0])


def join(sep, seq):
    if seq.op == "unit":
        return seq.args[0]
    if seq.op == "seq.empty":
        return T.str_("")
    if seq.op == "++" and all(x.op == "unit" for x in seq.args):
        out = []
        for i, x in enumerate(seq.args):
            if i:
                out.append(sep)
            out.append(x.args[0])
        return T.concat_sort(T.STR, *out)
    if seq.op == "++" and T.is_const(sep) and sep.val == "":
        return T.concat_sort(T.STR, *[join(sep, x) for x in seq.args])
    return T.app("join", sep, seq)


def splitlines(t, kind):
    return T.app("splitlines", t)


def all_bytes(seq):
    if seq.op == "++":
        return T.and_(*[all_bytes(x) for x in seq.args])
    if seq.op == "unit":
        return T.and_(T.le(T.int_(0), seq.args[0]), T.le(seq.args[0], T.int_(255)))
    if seq.op == "seq.empty":
        return T.TRUE
    return T.app("all_bytes", seq)


def bytes_of(seq):
    if seq.op == "++":
        return T.concat_sort(T.STR, *[bytes_of(x) for x in seq.args])
    if seq.op == "unit":
        return T.from_code(seq.args[0])
    if seq.op == "seq.empty":
        return T.str_("")
    return T.app("bytes_of", seq)


@axioms.on("bytes_of")
def _ax_bytes_of(t):
    return [T.mk("=", tuple(sorted((T.mk("len", (t,), T.INT), T.length(t.args[0])), key=lambda x: x.id)), T.BOOL)]
