"""C23: coloured output uses the standard control sequences and always resets."""
import re

from .common import *

EXPL = ("Constant propagation through the colour tables and formatters for every colour name, short name, case variant, every code of the 4-bit (30-37, 90-97 / 40-47, 100-107) and 8-bit (0-255) schemes, a grid of 24-bit colours "
        "in all three notations, and abstract evaluation with symbolic text and symbolic colour components: the returned text is parsed as a list of SGR parameters, then exactly the text, then the reset sequence; refusals are "
        "checked for unknown names and for every code outside the scheme; color_print is checked to print exactly that string with the caller's sep/end/file/flush.")
CP = TL + ".colorprint"
NAMES = ("black", "red", "green", "yellow", "blue", "magenta", "cyan", "white")
SHORT = "krgybmcw"
RGB = ((0, 0, 0), (255, 0, 0), (0, 255, 0), (255, 255, 0), (0, 0, 255), (255, 0, 255), (0, 255, 255), (255, 255, 255))
TEXT = Sym("text", "str")
MARK = "\x02"


def sgr(prefix):
    """list of SGR parameters of a run of control sequences (a ';'-joined or separate form); None when malformed"""
    out = []
    pos = 0
    for m in re.finditer(r"\x1b\[([0-9;\x03a-z]*)m", prefix):
        if m.start() != pos:
            return None
        pos = m.end()
        out += m.group(1).split(";") if m.group(1) else ["0"]
    if pos != len(prefix):
        return None
    res = []
    i = 0
    while i < len(out):
        if out[i] in ("38", "48"):
            if i + 1 < len(out) and out[i + 1] == "5":
                res.append(tuple(out[i:i + 3]))
                i += 3
                continue
            if i + 1 < len(out) and out[i + 1] == "2":
                res.append(tuple(out[i:i + 5]))
                i += 5
                continue
            return None
        res.append((out[i],))
        i += 1
    return res


def wanted(scheme, fg, bg, bold):
    out = []
    for v, is_fg in ((fg, True), (bg, False)):
        if v is None:
            continue
        if scheme == 4:
            out.append((str(v if isinstance(v, int) else (30 if is_fg else 40) + index(v)),))
        elif scheme == 8:
            out.append(("38" if is_fg else "48", "5", str(v if isinstance(v, int) else index(v))))
        else:
            if isinstance(v, str):
                v = tuple(int(v[k:k + 2], 16) for k in (1, 3, 5)) if v.startswith("#") else RGB[index(v)]
            out.append(("38" if is_fg else "48", "2") + tuple(str(x) for x in v))
    if bold:
        out.append(("1",))
    return out


def index(name):
    name = name.lower()
    return NAMES.index(name) if name in NAMES else SHORT.index(name)


def val(x):
    return Tup(Const(y) for y in x) if isinstance(x, tuple) else Const(x)


def parse(v, text=TEXT, names=()):
    """(SGR parameters, True when text and reset follow) of a coloured string"""
    parts = text_parts(v)
    s = ""
    for p in parts:
        if isinstance(p, str):
            s += p
        elif p[1] == text:
            s += MARK
        else:
            for x, n in names:
                if p[1] == x:
                    s += "\x03" + n
                    break
            else:
                return None, "unresolved part %s" % show(p[1])[:60]
    return s, ""


def check_text(s, want):
    if s.count(MARK) != 1:
        return False, "the text appears %d times" % s.count(MARK)
    a, b = s.split(MARK)
    p = sgr(a)
    if p is None:
        return False, "malformed control sequence %r before the text" % a
    # reset parameters before the colours have no effect, their order does not matter
    q = [x for x in p if x not in (("0",), ("",))]
    if sorted(q) != sorted(want) or q and p and p[-1] in (("0",), ("",)):
        return False, "control parameters %s instead of %s" % (p, want)
    e = sgr(b)
    if not e or e[-1] not in (("0",), ("",)) or len(e) != 1 and any(x not in (("0",), ("",)) for x in e):
        return False, "the text is followed by %r instead of the reset sequence" % b
    return True, ""


def check(c):
    c.rule("sequence", "SGR parameters of exactly the requested colours and style, the text, the reset sequence")
    c.rule("components", "symbolic 24-bit components appear in r, g, b order behind 38;2 / 48;2")
    c.rule("refusal", "unknown names and codes outside the scheme are refused")
    c.rule("print", "color_print prints the coloured joined text with the caller's separator and print options")
    f = c.g(CP, "coloring")
    g = c.g(CP, "color_print")
    W = c.where(f)

    def colour(scheme, fg, bg, bold, text=TEXT, extra=""):
        st = c.fresh()
        out = c.ex("f(t, fg=a, bg=b, bold=d, color_scheme=s)", st, f=f, t=text, a=val(fg), b=val(bg), d=Const(bold), s=Const(scheme))
        r, why = c.returns(out)
        if r is not True:
            return r, why
        s, why = parse(c.freeze(out.value, out.st), text)
        if s is None:
            return None, why
        return check_text(s, wanted(24 if scheme == "rgb" else scheme, fg, bg, bold))

    words = list(NAMES) + list(SHORT) + [n.upper() for n in NAMES] + [n.capitalize() for n in NAMES] + list(SHORT.upper())
    fours = list(range(30, 38)) + list(range(90, 98))
    foursb = list(range(40, 48)) + list(range(100, 108))
    eights = list(range(256))
    rgbs = [(r, g_, b) for r in (0, 1, 127, 255) for g_ in (0, 2, 254, 255) for b in (0, 3, 128, 255)] if c.thorough else [(0, 0, 0), (1, 2, 3), (255, 254, 253), (0, 128, 255), (255, 0, 7), (9, 255, 0)]
    hexes = ["#000000", "#010203", "#ffFEfd", "#0080FF", "#A1b2C3", "#00000a", "#ff0000"]
    for scheme, fgs, bgs in ((4, words + fours, words + foursb), (8, words + eights, words + eights), (24, words + rgbs + hexes, words + rgbs + hexes), ("rgb", words[:10] + rgbs + hexes, words[:10] + rgbs + hexes)):
        for v in [None] + fgs:
            for bold in (False, True):
                c.run("sequence", "scheme %s fg=%r bold=%s" % (scheme, v, bold), lambda: colour(scheme, v, None, bold), W)
        for v in bgs:
            for bold in (False, True):
                c.run("sequence", "scheme %s bg=%r bold=%s" % (scheme, v, bold), lambda: colour(scheme, None, v, bold), W)
        for i, v in enumerate(fgs):
            w = bgs[(7 * i + 3) % len(bgs)]
            c.run("sequence", "scheme %s fg=%r bg=%r" % (scheme, v, w), lambda: colour(scheme, v, w, i % 2 == 0), W)

    # particular texts: nothing in the text changes what is put around it
    for text in ("", " ", "plain", "two\nlines\n", "%s {0} \\", "\x1b[31mred", "a\x1b[31m", "\x1b[0m", "x\x1b[0m", "m", "[0m", "\t", "\u00e9\u4e2d", "red", "38;5;1", "a" * 300):
        for scheme, fg, bg, bold in ((8, "red", None, False), (8, None, None, False), (4, 31, 44, True), (24, "#010203", "white", False)):
            def literal():
                st = c.fresh()
                out = c.ex("f(t, fg=a, bg=b, bold=d, color_scheme=s)", st, f=f, t=Const(text), a=val(fg), b=val(bg), d=Const(bold), s=Const(scheme))
                r, why = c.returns(out)
                if r is not True:
                    return r, why
                v = c.freeze(out.value, out.st)
                if not (isinstance(v, Const) and isinstance(v.v, str)):
                    return None, show(v)[:60]
                bad = (False, "no way to read %r as control sequences, the text, reset" % v.v)
                for k in range(len(v.v) - len(text) + 1):
                    if v.v[k:k + len(text)] == text:
                        r = check_text(v.v[:k] + MARK + v.v[k + len(text):], wanted(scheme, fg, bg, bold))
                        if r[0]:
                            return r
                return bad
            c.run("sequence", "text %r, scheme %s fg=%r bg=%r bold=%s" % (text[:20], scheme, fg, bg, bold), literal, W)

    # defaults
    def deflt():
        st = c.fresh()
        for src, want in (("f(t)", []), ("f(t, 'red')", [("38", "5", "1")]), ("f(t, None, 'blue')", [("48", "5", "4")]), ("f(t, 3, 4, True)", [("38", "5", "3"), ("48", "5", "4"), ("1",)]),
                          ("f(t, bold=True)", [("1",)]), ("f(t, 31, 42, False, 4)", [("31",), ("42",)])):
            s, why = parse(c.freeze(c.do(src, st, f=f, t=TEXT), st))
            if s is None:
                return None, why
            r, why = check_text(s, want)
            if r is not True:
                return r, "%s: %s" % (src, why)
        return True, ""
    c.run("sequence", "defaults and positional arguments", deflt, W)

    for fgp in (True, False):
        for form in ("tuple", "list"):
            def symb():
                st = c.fresh()
                cs = [Sym(n, "int") for n in "rgb"]
                for x in cs:
                    st.assume(cmp_num("lt", x, Const(0)), False)
                    st.assume(cmp_num("gt", x, Const(255)), False)
                v = "(r, g, b)" if form == "tuple" else "[r, g, b]"
                out = c.ex("f(t, %s=%s, color_scheme=24)" % ("fg" if fgp else "bg", v), st, f=f, t=TEXT, r=cs[0], g=cs[1], b=cs[2])
                if not out.ok:
                    return c.returns(out)
                s, why = parse(c.freeze(out.value, out.st), TEXT, [(x, n) for x, n in zip(cs, "rgb")])
                if s is None:
                    return None, why
                return check_text(s, [("38" if fgp else "48", "2", "\x03r", "\x03g", "\x03b")])
            c.run("components", "%s as %s" % ("fg" if fgp else "bg", form), symb, W)

    bad = {4: [-1, 0, 1, 7, 29, 38, 39, 49, 89, 98, 99, 108, 255, 256, 1000], 8: [-1, -255, 256, 257, 300, 1000], 24: [(256, 0, 0), (0, 256, 0), (0, 0, 256), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (255, 255, 300), (1000, 1, 1)]}
    unknown = ["orange", "", "x", "re", "redd", "kk", "blak", "grey", " red", "bright", "n", "krgybmcw", "rgb"]
    for scheme in (4, 8, 24, "rgb"):
        for which in ("fg", "bg"):
            codes = list(bad[24 if scheme == "rgb" else scheme])
            if scheme == 4:
                codes += foursb if which == "fg" else fours
            for v in codes + unknown + (["#00000", "#0000000", "#gg0000", "#00000z", "#"] if scheme in (24, "rgb") else ["#000000"]):
                for other in (None, "red"):
                    def ref():
                        o = {"fg": "bg", "bg": "fg"}[which]
                        return c.refuses(c.ex("f(t, %s=v, %s=o, color_scheme=s)" % (which, o), c.fresh(), f=f, t=TEXT, v=val(v), o=Const(other), s=Const(scheme)))
                    c.run("refusal", "scheme %s %s=%r other=%s" % (scheme, which, v, other), ref, W)
    for scheme in (0, 1, 16, 23, 25, "8", "24", "RGB", None, "rbg"):
        c.run("refusal", "scheme %r" % (scheme,), lambda: c.refuses(c.ex("f(t, color_scheme=s)", c.fresh(), f=f, t=TEXT, s=Const(scheme))), W)
    for scheme, lo, hi in ((8, 0, 255), (24, 0, 255)):
        for side in ("below", "above"):
            def rng():
                st = c.fresh()
                x = Sym("code", "int")
                st.assume(cmp_num("lt", x, Const(lo)), True) if side == "below" else st.assume(cmp_num("gt", x, Const(hi)), True)
                v = x if scheme == 8 else Tup((Const(1), x, Const(2)))
                return c.refuses(c.ex("f(t, fg=v, color_scheme=s)", st, f=f, t=TEXT, v=v, s=Const(scheme)))
            c.run("refusal", "scheme %d every code %s the range" % (scheme, side), rng, W)

    # printing
    P = c.where(g)
    for kw in ({}, {"sep": "-"}, {"end": ""}, {"fg": "red"}, {"fg": 3, "bg": 200, "bold": True}, {"fg": "#0a0b0c", "color_scheme": 24}, {"bg": 41, "color_scheme": 4, "sep": "", "end": "!"}, {"flush": True}, {"bold": True, "file": Sym("stream", "file")}):
        for n in (0, 1, 2, 3):
            def pr():
                st = c.fresh()
                objs = [Sym("o%d" % i, "str") for i in range(n)]
                env = {k: (v if isinstance(v, Val) else Const(v)) for k, v in kw.items()}
                out = c.ex("g(%s)" % ", ".join(["o%d" % i for i in range(n)] + ["%s=%s" % (k, "k_" + k) for k in kw]), st, g=g, **{"o%d" % i: o for i, o in enumerate(objs)}, **{"k_" + k: v for k, v in env.items()})
                r, why = c.returns(out)
                if r is not True:
                    return r, why
                calls = [e for e in out.st.effects if e[0] == "call:print"]
                if len(calls) != 1:
                    return (False if not calls else None), "%d calls of print" % len(calls)
                args, kws = calls[0][1]
                kws = dict(kws)
                if len(args) != 1:
                    return None, "printed as %d objects" % len(args)
                s, why = parse(args[0], None, [(o, "o%d" % i) for i, o in enumerate(objs)])
                if s is None:
                    return None, why
                sep = kw.get("sep", " ")
                body_ = sep.join("\x03o%d" % i for i in range(n))
                head = re.match("((?:\x1b\\[[0-9;]*m)*)", s).group(1)
                tail = re.search("((?:\x1b\\[[0-9;]*m)*)$", s[len(head):]).group(1) if len(s) > len(head) else ""
                if n == 0 and not tail:
                    k = s.rfind("\x1b")
                    head, tail = s[:k], s[k:]
                    mid = ""
                else:
                    mid = s[len(head):len(s) - len(tail)]
                if mid != body_:
                    return False, "printed text is %r instead of %r" % (mid.replace("\x03", ""), body_.replace("\x03", ""))
                r, why = check_text(head + MARK + tail, wanted(kw.get("color_scheme", 8), kw.get("fg"), kw.get("bg"), kw.get("bold", False)))
                if r is not True:
                    return r, why
                for k, d in (("end", "\n"), ("file", None), ("flush", False)):
                    got = kws.get(k, Const(d))
                    want = kw.get(k, d)
                    want = want if isinstance(want, Val) else Const(want)
                    if got != want:
                        return (None if isinstance(got, Opaque) else False), "print(..., %s=%s) instead of %s" % (k, show(got), show(want))
                return True, ""
            c.run("print", "%d objects %s" % (n, {k: (v if not isinstance(v, Val) else "stream") for k, v in kw.items()}), pr, P)
    # objects that are not strings are printed as print would
    things = [("7", "7"), ("-1", "-1"), ("None", "None"), ("True", "True"), ("'s'", "s"), ("2.5", "2.5"), ("1j", "1j")]
    for k in range(len(things)):
        for kw, sep in (("", " "), (", sep='-'", "-"), (", fg='red', bold=True", " ")):
            ts = [things[k], things[(3 * k + 1) % len(things)], things[(k + 2) % len(things)]][:1 + k % 3]

            def other():
                out = c.ex("g(%s%s)" % (", ".join(x for x, _ in ts), kw), c.fresh(), g=g)
                r, why = c.returns(out)
                if r is not True:
                    return r, why
                calls = [e for e in out.st.effects if e[0] == "call:print"]
                if len(calls) != 1 or len(calls[0][1][0]) != 1:
                    return (False if not calls else None), "%d calls of print" % len(calls)
                s, why = parse(calls[0][1][0][0], None, [(Const(2.5), "2.5"), (Const(1j), "1j")])
                if s is None:
                    return None, why
                s = s.replace("\x03", "")
                t = sep.join(y for _, y in ts)
                m = re.fullmatch("((?:\x1b\\[[0-9;]*m)*)(.*?)((?:\x1b\\[[0-9;]*m)*)", s)
                if m is None or m.group(2) != t:
                    return False, "printed %r for the text %r" % (s, t)
                return check_text(m.group(1) + MARK + m.group(3), wanted(8, "red" if "red" in kw else None, None, "bold" in kw))
            c.run("print", "%s%s" % (", ".join(x for x, _ in ts), kw), other, P)
    return c.finish(EXPL, floor=300)
