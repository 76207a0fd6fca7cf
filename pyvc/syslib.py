"""Models of the operating system, HTTP and regular expressions, by contract."""

import re._constants as rc
import re._parser as rp

from . import terms as T
from . import axioms, libs
from .core import *  # noqa: F401,F403
from .interp import is_concrete, kind_of, tint, tstr
from .libs import BYTES_IO, FILE_B, FILE_T, STRING_IO, HTTPError, RequestException, UnsupportedOperation, stream, uf
from .stubs import EXT_ATTR, METHODS, arg, ext, method, prop

S, N, B = T.STR, T.INT, T.BOOL
SEQS = T.SEQ(S)

# ---------------------------------------------------------------- files

uf("FS_home", (S,), S)  # the path with ~ replaced
uf("FS_isfile", (S,), B)
uf("FS_readable", (S,), B)
uf("FS_text", (S,), S)  # what reading the file as text gives
uf("FS_bytes", (S,), S)
uf("FS_glob", (S,), SEQS)
axioms.trust("file system", "a file's content does not change while it is read; text files decode without error; os.path.expanduser, os.path.join and glob.glob are functions of their argument (and of a file system that does not change meanwhile)")


def seen(I, what, t):
    h = getattr(I, "on_access", None)
    if h is not None:
        h(what, t)


@ext("os.path.expanduser")
def _expanduser(I, a, kw):
    p = arg(a, kw, 0, "path")
    return mkstr(T.app("FS_home", tstr(p)), kind_of(p))


@ext("os.path.isfile")
def _isfile(I, a, kw):
    return mkbool(T.app("FS_isfile", tstr(arg(a, kw, 0, "path"))))


@ext("glob.glob", "glob.iglob")
def _glob(I, a, kw):
    p = tstr(arg(a, kw, 0, "pathname"))
    if len(a) > 1 or set(kw) - {"pathname"}:
        raise Unsupported("glob with options")
    seen(I, "directory", p)
    return I.new_list([Chunk(T.app("FS_glob", p), SStr_)])


def fs_open(I, a, kw):
    p, mode = arg(a, kw, 0, "file"), arg(a, kw, 1, "mode", "r")
    if not isinstance(mode, str) or mode.replace("t", "") not in ("r", "rb") or set(kw) - {"file", "mode", "encoding"}:
        raise Unsupported("open mode")
    t = tstr(p)
    seen(I, "file", t)
    if not I.ctx.branch(T.and_(T.app("FS_isfile", t), T.app("FS_readable", t))):
        raise I.exc(OSError, "cannot open")
    binary = "b" in mode
    s = stream(I, mkstr(T.app("FS_bytes" if binary else "FS_text", t), "bytes" if binary else "str"), 0, FILE_B if binary else FILE_T)
    I.last_stream = s
    return s


# ---------------------------------------------------------------- HTTP

uf("HTTP_up", (S,), B)
uf("HTTP_status", (S,), N)
uf("HTTP_text", (S,), S)
axioms.trust("requests", "requests.get(url) raises a RequestException or gives a response; raise_for_status raises exactly for status codes 400 to 599")


@ext("requests.get")
def _get(I, a, kw):
    u = tstr(arg(a, kw, 0, "url"))
    seen(I, "url", u)
    if not I.ctx.branch(T.app("HTTP_up", u)):
        raise I.exc(RequestException, "no connection")
    return XVal("response", url=mkstr(u, "str"))


def bad_status(u):
    return T.and_(T.le(T.int_(400), T.app("HTTP_status", u)), T.lt(T.app("HTTP_status", u), T.int_(600)))


for _k in ("response", "match", "regex"):
    METHODS.setdefault("x:" + _k, {})


@method("x:response", "raise_for_status")
def _rfs(I, s, a, kw):
    if I.ctx.branch(bad_status(tstr(s.f["url"]))):
        raise I.exc(HTTPError, "status")
    return None


@method("x:response", "ok")
@prop
def _ok(I, s):
    return mkbool(T.lt(T.app("HTTP_status", tstr(s.f["url"])), T.int_(400)))


@method("x:response", "status_code")
@prop
def _status(I, s):
    return mkint(T.app("HTTP_status", tstr(s.f["url"])))


@method("x:response", "text")
@prop
def _text(I, s):
    return mkstr(T.app("HTTP_text", tstr(s.f["url"])), "str")


# ---------------------------------------------------------------- regular expressions
#
# A match is a decomposition of the string into the pieces of the pattern.  Only patterns whose pieces are
# determined by the string (no two adjacent pieces that can trade characters) give exact results.


def _cls(op, av, flags):
    if op is rc.LITERAL:
        return T.chars(chr(av))
    if op is rc.NOT_LITERAL:
        return T.cls_not(T.chars(chr(av)))
    if op is rc.ANY:
        return ("cls", ((0, T.MAXCHAR),)) if flags & rp.SRE_FLAG_DOTALL else T.cls_not(T.chars("\n"))
    if op is rc.IN:
        neg = bool(av) and av[0][0] is rc.NEGATE
        out = []
        for o, x in av[1:] if neg else av:
            if o is rc.LITERAL:
                out.append(T.chars(chr(x)))
            elif o is rc.RANGE:
                out.append(("cls", ((x[0], x[1]),)))
            else:
                raise Unsupported("regular expression category")
        c = T.cls_union(out)
        return T.cls_not(c) if neg else c
    return None


def _re(items, flags):
    """language of a pattern without anchors"""
    out = []
    for op, av in items:
        c = _cls(op, av, flags)
        if c is not None:
            out.append(c)
        elif op in (rc.MAX_REPEAT, rc.MIN_REPEAT):
            lo, hi, sub = av
            r = _re(sub, flags)
            if (lo, hi) == (0, rc.MAXREPEAT):
                out.append(T.star(r))
            elif (lo, hi) == (1, rc.MAXREPEAT):
                out += [r, T.star(r)]
            elif (lo, hi) == (0, 1):
                out.append(("opt", r))
            elif hi is rc.MAXREPEAT or hi == rc.MAXREPEAT:
                out += [r] * lo + [T.star(r)]
            else:
                out.append(("loop", lo, int(hi), r))
        elif op is rc.SUBPATTERN:
            out.append(_re(av[3], flags))
        elif op is rc.BRANCH:
            out.append(("alt",) + tuple(_re(x, flags) for x in av[1]))
        else:
            raise Unsupported("regular expression %s" % op)
    if not out:
        return ("lit", "")
    return out[0] if len(out) == 1 else ("cat",) + tuple(out)


def analyse(pattern, flags=0):
    """[(group number or None, language or literal text)] and the kind of end: None (open), "$" or "end" """
    p = rp.parse(pattern, flags)
    items = list(p)
    flags = p.state.flags
    if flags & (rp.SRE_FLAG_IGNORECASE | rp.SRE_FLAG_MULTILINE | rp.SRE_FLAG_VERBOSE):
        raise Unsupported("regular expression flags")
    if items and items[0] == (rc.AT, rc.AT_BEGINNING) or items and items[0] == (rc.AT, rc.AT_BEGINNING_STRING):
        items = items[1:]
        anchored = True
    else:
        anchored = False
    end = None
    if items and items[-1][0] is rc.AT:
        end = {rc.AT_END: "$", rc.AT_END_STRING: "end"}.get(items[-1][1])
        if end is None:
            raise Unsupported("regular expression anchor")
        items = items[:-1]
    pieces, lit = [], ""
    for it in items:
        if it[0] is rc.LITERAL:
            lit += chr(it[1])
            continue
        if lit:
            pieces.append((None, ("lit", lit)))
            lit = ""
        if it[0] is rc.SUBPATTERN:
            g, add, dele, sub = it[1]
            if add or dele:
                raise Unsupported("regular expression flags")
            pieces.append((g, _re(sub, flags)))
            if any(o is rc.SUBPATTERN and x[0] is not None for o, x in sub):
                raise Unsupported("nested groups")
        else:
            pieces.append((None, _re([it], flags)))
    if lit:
        pieces.append((None, ("lit", lit)))
    return pieces, anchored, end, p.state.groups - 1, dict(p.state.groupdict)


def pattern_of(v, kw=None):
    if isinstance(v, str):
        return v, 0
    if isinstance(v, XVal) and v.kind == "regex":
        return v.f["pattern"], v.f["flags"]
    raise Unsupported("regular expression")


def re_run(I, pv, flags, sv, how):
    if not isinstance(flags, int):
        raise Unsupported("regular expression flags")
    pat, fl = pattern_of(pv)
    if kind_of(sv) != "str":
        raise I.exc(TypeError, "expected string")
    if is_concrete(sv):
        import re

        m = getattr(re.compile(pat, fl | flags), how)(sv)
        return None if m is None else XVal("match", groups=tuple([m.group(0)] + list(m.groups())), names=dict(m.re.groupindex))
    pieces, anchored, end, ng, names = analyse(pat, fl | flags)
    s = tstr(sv)
    if how == "fullmatch":
        end = "end"
    before = how == "search" and not anchored
    langs = [r for _, r in pieces]
    tail = {None: ("all",), "$": ("opt", ("lit", "\n")), "end": ("lit", "")}[end]
    whole = ("cat",) + tuple(([("all",)] if before else []) + langs + [tail])
    if not I.ctx.branch(T.in_re(s, whole)):
        return None
    parts = []
    if before:
        parts.append(I.ctx.fresh("re_before", S))
    mid, got = [], {}
    for g, r in pieces:
        if r[0] == "lit":
            mid.append(T.str_(r[1]))
        else:
            x = I.ctx.fresh("re_part", S)
            I.ctx.assume(T.in_re(x, r))
            mid.append(x)
        if g is not None:
            got[g] = mkstr(mid[-1], "str")
    rest = []
    if end != "end":
        x = I.ctx.fresh("re_rest", S)
        I.ctx.assume(T.in_re(x, tail))
        rest.append(x)
    I.ctx.assume(T.eq(s, T.concat(*parts, *mid, *rest)))
    return XVal("match", groups=tuple([mkstr(T.concat(*mid) if mid else T.str_(""), "str")] + [got.get(i) for i in range(1, ng + 1)]), names=names)


@ext("re.compile")
def _compile(I, a, kw):
    p, f = arg(a, kw, 0, "pattern"), arg(a, kw, 1, "flags", 0)
    if not isinstance(p, str) or not isinstance(f, int):
        raise Unsupported("re.compile")
    return XVal("regex", pattern=p, flags=f)


for _how in ("match", "fullmatch", "search"):
    ext("re." + _how)(lambda I, a, kw, h=_how: re_run(I, arg(a, kw, 0, "pattern"), arg(a, kw, 2, "flags", 0), arg(a, kw, 1, "string"), h))
    method("x:regex", _how)(lambda I, s, a, kw, h=_how: re_run(I, s, 0, arg(a, kw, 0, "string"), h))


def _group(I, m, i):
    if isinstance(i, str) and i in m.f["names"]:
        i = m.f["names"][i]
    if not isinstance(i, int) or not 0 <= i < len(m.f["groups"]):
        raise I.exc(IndexError, "no such group")
    return m.f["groups"][i]


@method("x:match", "group")
def _m_group(I, s, a, kw):
    if not a:
        return s.f["groups"][0]
    r = tuple(_group(I, s, i) for i in a)
    return r[0] if len(r) == 1 else r


@method("x:match", "__getitem__")
def _m_item(I, s, a, kw):
    return _group(I, s, a[0])


@method("x:match", "groups")
def _m_groups(I, s, a, kw):
    return tuple(s.f["groups"][1:])


# ---------------------------------------------------------------- time

uf("NOW", (N, S), S)  # the text of a point in time in a format
TIME_CLS = ("cls", ((32, 126),))
CHARS_UF["NOW"] = TIME_CLS
axioms.trust("datetime", "a point in time formatted with numeric fields is a text of printable ASCII characters")


@ext("datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today")
def _now(I, a, kw):
    return XVal("datetime", t=SInt(I.ctx.fresh("now", N)))


def time_text(I, x, fmt):
    if not isinstance(fmt, str) or any(c in "cxXaAbBpZ" for c in "".join(fmt.split("%")[k][:1] for k in range(1, fmt.count("%") + 1))) or any(not 32 <= ord(c) < 127 for c in fmt):
        raise Unsupported("time format")
    t = T.app("NOW", tint(x.f["t"]), T.str_(fmt))
    I.ctx.assume(T.in_re(t, T.star(TIME_CLS)))
    return mkstr(t, "str")


METHODS.setdefault("x:datetime", {})
METHODS["x:datetime"]["__format__"] = lambda I, x, conv, spec: time_text(I, x, spec or "str")


@method("x:datetime", "strftime")
def _strftime(I, s, a, kw):
    return time_text(I, s, arg(a, kw, 0, "format"))


@method("x:datetime", "isoformat")
def _iso(I, s, a, kw):
    return time_text(I, s, "iso")


@method("x:datetime", "replace")
@method("x:datetime", "astimezone")
def _other_time(I, s, a, kw):
    return XVal("datetime", t=SInt(I.ctx.fresh("now", N)))


# ---------------------------------------------------------------- file status

import stat as _stat  # noqa: E402

for _n in dir(_stat):
    if _n.startswith(("S_I", "ST_")) and isinstance(getattr(_stat, _n), int):
        EXT_ATTR["stat." + _n] = getattr(_stat, _n)

for _p in (BYTES_IO, STRING_IO):
    @method("ext:" + _p, "fileno")
    def _no_fileno(I, s, a, kw):
        raise I.exc(UnsupportedOperation, "fileno")

for _p in (FILE_B, FILE_T):
    @method("ext:" + _p, "fileno")
    def _fileno(I, s, a, kw):
        return s.id

for _p in (BYTES_IO, STRING_IO, FILE_B):
    METHODS["ext:" + _p]["isatty"] = lambda I, s, a, kw: False

# the standard streams: I.std = {"stdin" | "stdout" | "stderr": text stream with the fields buffer and tty}


def std_stream(name):
    return lambda I: getattr(I, "std", {}).get(name) or ExtRef("sys." + name)


for _n in ("stdin", "stdout", "stderr"):
    EXT_ATTR["sys." + _n] = std_stream(_n)


def text_field(I, s, n):
    v = I.ctx.store.get(("a", s.id, n), None)
    if isinstance(v, Poison):
        I.poisoned(v)
    return v


@method("ext:" + FILE_T, "isatty")
def _isatty(I, s, a, kw):
    v = text_field(I, s, "tty")
    return False if v is None else v


@method("ext:" + FILE_T, "buffer")
@prop
def _buffer(I, s):
    v = text_field(I, s, "buffer")
    if v is None:
        raise Unsupported("buffer of a text file")
    return v


@ext("os.stat", "os.fstat")
def _osstat(I, a, kw):
    m = I.ctx.fresh("st_mode", N)
    I.ctx.assume(T.and_(T.le(T.int_(0), m), T.lt(m, T.int_(1 << 16))))
    return XVal("stat_result", mode=SInt(m))


METHODS.setdefault("x:stat_result", {})


@method("x:stat_result", "__getitem__")
def _stat_item(I, s, a, kw):
    if a[0] != _stat.ST_MODE:
        raise Unsupported("field of a file status")
    return s.f["mode"]


@method("x:stat_result", "st_mode")
@prop
def _st_mode(I, s):
    return s.f["mode"]


# ---------------------------------------------------------------- dictionaries, seen from one arbitrary key
#
# I.generic_key = x: a dictionary that starts empty is tracked for the key x only (an arbitrary constant of the unit):
# whether x is in it and the list stored for x.  What other keys hold is unknown.

KEYED = "dict:keyed"


def keyed_map(I, default=False, has=False, vals=None):
    return libs.new_ext(I, KEYED, has=has, vals=I.new_list([]) if vals is None else vals, default=default)


def same_key(I, k):
    if kind_of(k) != "str":
        raise Unsupported("key of a dictionary")
    return I.ctx.branch(T.eq(tstr(k), I.generic_key))


def other_list(I):
    return I.new_list([Chunk(I.ctx.fresh("other_values", SEQS), SStr_)])


METHODS.setdefault("ext:" + KEYED, {})


@method("ext:" + KEYED, "__getitem__")
def _km_get(I, s, a, kw):
    if same_key(I, a[0]):
        if not I.truth(libs.fld(I, s, "has")):
            if not libs.fld(I, s, "default"):
                raise I.exc(KeyError, a[0])
            libs.setfld(I, s, "has", True)
        return libs.fld(I, s, "vals")
    if not libs.fld(I, s, "default") and not I.ctx.branch(I.ctx.fresh("has_other", B)):
        raise I.exc(KeyError, a[0])
    return other_list(I)


@method("ext:" + KEYED, "__setitem__")
def _km_set(I, s, a, kw):
    if kind_of(a[1]) != "list":
        raise Unsupported("dictionary of something else than lists")
    if same_key(I, a[0]):
        libs.setfld(I, s, "has", True)
        if libs.fld(I, s, "vals") != a[1]:
            libs.setfld(I, s, "vals", a[1])


@method("ext:" + KEYED, "__contains__")
def _km_in(I, s, a, kw):
    if same_key(I, a[0]):
        return libs.fld(I, s, "has")
    return SBool(I.ctx.fresh("has_other", B))


@method("ext:" + KEYED, "get")
def _km_get2(I, s, a, kw):
    if same_key(I, a[0]):
        if I.truth(libs.fld(I, s, "has")):
            return libs.fld(I, s, "vals")
    elif I.ctx.branch(I.ctx.fresh("has_other", B)):
        return other_list(I)
    return a[1] if len(a) > 1 else None


@method("ext:" + KEYED, "setdefault")
def _km_default(I, s, a, kw):
    if kind_of(a[1]) != "list":
        raise Unsupported("dictionary of something else than lists")
    if same_key(I, a[0]):
        if not I.truth(libs.fld(I, s, "has")):
            libs.setfld(I, s, "has", True)
            old = libs.fld(I, s, "vals")
            I.set_items(old, I.items(a[1]))  # a new list, known under no other name
        return libs.fld(I, s, "vals")
    return other_list(I)


def km_copy(I, s):
    return keyed_map(I, False, libs.fld(I, s, "has"), libs.fld(I, s, "vals"))


METHODS["ext:" + KEYED]["copy"] = lambda I, s, a, kw: km_copy(I, s)


# ---------------------------------------------------------------- processes and commands


@ext("sys.exit")
def _sys_exit(I, a, kw):
    raise I.exc(SystemExit, *a)


@ext("click.group", "click.Group.command", "click.Group.group", "click.command", "click.option", "click.argument", "click.version_option", "click.help_option", "click.password_option")
def _click_decorator(I, a, kw):
    return ExtRef("click.decorator")


@ext("click.File", "click.Path", "click.Choice", "click.IntRange", "click.STRING", "click.INT")
def _click_type(I, a, kw):
    return ExtRef("click.type")


@ext("click.echo", "click.secho")
def _click_echo(I, a, kw):
    if set(kw) - {"err", "file", "nl", "message"}:
        raise Unsupported("options of click.echo")
    err = kw.get("err", False)
    if not isinstance(err, bool):
        err = I.truth(err)
    k = {} if kw.get("nl", True) is True else {"end": ""}
    f = kw.get("file")
    k["file"] = f if f is not None else std_stream("stderr" if err else "stdout")(I)
    from .stubs import BUILTINS

    return BUILTINS["print"](I, [arg(a, kw, 0, "message", "")], k)
