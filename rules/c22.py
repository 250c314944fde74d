"""C22: the temporary run-time environment is undone on every exit."""
from .common import *

EXPL = ("Effect/typestate analysis of RunTimeEnv: the protocol __init__ ; __enter__ ; body ; __exit__ is evaluated abstractly for every combination of redirection, thread setting (default, number, any positive integer), kind of exit "
        "(normal, Exception, KeyboardInterrupt, SystemExit, GeneratorExit) and body behaviour (nothing, rebinds sys.stdout, changes the thread number, both), for nested and consecutive environments; the typestate of sys.stdout, "
        "of the mkl thread number and of every opened file is tracked through the calls.")
RT = TL + ".runtimeenv"


def stream(st):
    return st.locals.get("ext:sys", {}).get("stdout", Sym("sys.stdout@entry", "file"))


def set_stream(st, v):
    d = dict(st.locals.get("ext:sys", {}))
    d["stdout"] = v
    st.locals["ext:sys"] = d


def threads(st):
    return st.locals.get("ext:mkl", {}).get("<threads>", Sym("mkl.threads@entry", "int"))


def set_threads(st, v):
    d = dict(st.locals.get("ext:mkl", {}))
    d["<threads>"] = v
    st.locals["ext:mkl"] = d


def opened(st):
    """(opened, closed) files in the recorded effects"""
    op, cl = [], []
    for e in st.effects:
        if e[0] == "open":
            op.append(e[1])
        elif e[0] == "file" and e[1][1] in ("close", "__exit__"):
            cl.append(e[1][0])
    return op, cl


def exc_args(c, st, kind):
    if kind is None:
        return [NONE, NONE, NONE]
    cls = c.do(kind, st)
    return [cls, c.do(kind + "('boom')", st), Opaque("traceback")]


def construct(c, st, rd, th):
    env = {}
    args = ["path='out'"]
    if rd is not None:
        args.append("rd=rd")
        env["rd"] = Const(rd)
    if th == "sym":
        n = Sym("threads", "int")
        st.assume(cmp_num("gt", n, Const(0)), True)
        args.append("threads_num=n")
        env["n"] = n
    elif th is not None:
        args.append("threads_num=n")
        env["n"] = Const(th)
    return c.do("RunTimeEnv(%s)" % ", ".join(args), st, mod=RT, **env), env.get("n")


def body(st, what, k=""):
    if what in ("stdout", "both"):
        set_stream(st, Sym("stream bound by the body" + k, "file"))
    if what in ("threads", "both"):
        set_threads(st, Sym("threads set by the body" + k, "int"))


def inside(c, st, rd, want_threads, entry_stream):
    """state of the world between __enter__ and __exit__"""
    s = stream(st)
    if rd:
        op, cl = opened(st)
        if s not in op:
            return (None if isinstance(s, Opaque) else False), "output is not redirected into an opened file (sys.stdout is %s)" % show(s)
        if s in cl:
            return False, "output is redirected into a closed file"
    elif s != entry_stream:
        return (None if isinstance(s, Opaque) else False), "sys.stdout is replaced although no redirection was requested"
    if want_threads is not None and c.veq(threads(st), want_threads, st) is False:
        return False, "threads in the body are %s instead of %s" % (show(threads(st)), show(want_threads))
    return True, ""


def after(c, st, out, entry_stream, entry_threads, exc, rd=True):
    r, why = c.returns(out)
    if r is not True:
        return r, "__exit__ " + why
    st = out.st
    s = stream(st)
    if s != entry_stream and not (not rd and isinstance(s, Sym) and s.name.startswith("stream bound by the body")):
        return (None if isinstance(s, Opaque) else False), "after leaving, sys.stdout is %s instead of the stream in force on entry" % show(s)
    v = c.veq(threads(st), entry_threads, st)
    if v is not True:
        return v, "after leaving, the thread number is %s instead of the one on entry" % show(threads(st))
    op, cl = opened(st)
    for f in op:
        if f not in cl:
            return False, "the log file %s is never closed" % show(f)[:80]
    t = c.must(c.do("bool(x)", st, x=out.value), st, False)
    if t is not True and exc is not None:
        return t, "__exit__ returns a true value and swallows the exception"
    return (True if exc is None else t), ""


def mentions(x, v):
    """does the recorded thing carry the value?"""
    if x is v or x == v:
        return True
    if isinstance(x, (tuple, list)):
        return any(mentions(y, v) for y in x)
    if isinstance(x, App):
        return any(mentions(y, v) for y in x.args)
    if isinstance(x, Tup):
        return any(mentions(y, v) for y in x.items)
    if isinstance(x, dict):
        return any(mentions(y, v) for y in x.values())
    return False


def logged(c, st, before, a, exc):
    """the file opened in the requested directory tells how the block ended; before: effects up to the exit"""
    op = [e[1] for e in st.effects if e[0] == "open"]
    if len(op) != 1:
        return (False if not op else None), "%d files opened for one environment" % len(op)
    f = op[0]
    mode = [e[1][1] for e in st.effects if e[0] == "open mode"][0]
    if isinstance(mode, Const) and not (isinstance(mode.v, str) and set(mode.v) & set("wax")):
        return False, "the log file is opened with mode %r" % (mode.v,)
    if isinstance(mode, Const) and "b" in mode.v:
        return False, "the log file is opened in binary mode"
    path = f.args[1]
    if not (isinstance(path, App) and path.op == "path"):
        if isinstance(path, (Const, App)) and not mentions(path, Const("out")):
            return False, "the log is written to %s instead of a file in the requested directory" % show(path)[:80]
        raise Undecided("where the log is written")
    if not path.args or path.args[0] != Const("out"):
        return (None if has_opaque(path) and len(path.args) < 2 else False), "the log is written to %s instead of a file in the requested directory" % show(path)[:80]
    made = False
    for e in st.effects:
        if e[0] == "open":
            break
        if e[0] in ("call:path.mkdir", "call:os.makedirs", "call:os.mkdir"):
            kw = dict(e[1][1])
            d = e[1][0][0]
            d = App("path", (d,), "path") if isinstance(d, Const) else d
            if d == App("path", path.args[:-1], "path"):
                if e[0] != "call:os.makedirs" and kw.get("parents", FALSE) == FALSE and len(e[1][0]) < 3:
                    return False, "missing parents of the requested directory are not made"
                if kw.get("exist_ok", FALSE) == FALSE and len(e[1][0]) < (3 if "os" in e[0] else 4) and not any("exists" in x[0] or "is_dir" in x[0] or "isdir" in x[0] for x in st.effects if isinstance(x[0], str)):
                    return False, "an existing directory is refused"
                made = True
    if not made:
        if any(isinstance(e[0], str) and ("mkdir" in e[0] or "makedirs" in e[0]) for e in st.effects):
            raise Undecided("which directory is made")
        return False, "the requested directory is not made before the log file is opened in it"
    if exc is None:
        return True, ""
    tail = st.effects[before:]
    closed = [i for i, e in enumerate(tail) if e[0] == "file" and e[1][1] in ("close", "__exit__")]
    tail = tail[:closed[0]] if closed else tail
    back = [i for i, e in enumerate(tail) if e[0] == "ext:sys.stdout"]
    said = [e for i, e in enumerate(tail) if e[0] == "file" or isinstance(e[0], str) and e[0].startswith("call:")
            and not (e[0] == "call:print" and back and i > back[0] and "file" not in dict(e[1][1]))]
    if not any(e[0] == "ext:sys.stderr" for e in st.effects):
        # without a file the traceback functions write to the standard error stream
        full = {"call:traceback.print_tb": 3, "call:traceback.print_exc": 2, "call:traceback.print_exception": 5}
        said = [e for e in said if not (e[0] in full and dict(e[1][1]).get("file", Const(None)) == Const(None) and len(e[1][0]) < full[e[0]])]
    for what, v, word in (("type", a[0], None), ("value", a[1], None), ("traceback", a[2], "traceback.")):
        if any(mentions(e[1], v) for e in said):
            continue
        if any(has_opaque(x) for e in said for x in flat(e[1])):
            others = [e for e in said if e[0] not in ("call:print", "call:traceback.print_tb") and not (e[0] == "file" and e[1][1] != "write")]
            if others:
                raise Undecided("whether the %s of the exception is logged" % what)
        if what != "traceback" and any(mentions(e[1], a[1]) and e[0].startswith(("call:traceback.print_exc", "call:traceback.format_exc")) for e in said):
            continue
        return False, "the log does not record the %s of the exception" % what
    return True, ""


def flat(x):
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in flat(y)]
    return [x] if isinstance(x, Val) else []


def check(c):
    c.rule("log", "the log lies in the requested directory, which is made when missing, and records type, value and traceback of an exception that ends the block")
    c.rule("restored", "after __exit__ the stream and thread number are those in force at __enter__, the log file is closed and the exception propagates")
    c.rule("inside", "between entry and exit the requested redirection and thread number are in force")
    c.rule("nested", "nested and consecutive environments are undone in order")
    c.rule("refusal", "invalid thread numbers are refused before anything is changed")
    X = c.cls_method(RT, "RunTimeEnv", "__exit__")
    W, WE, WI = c.where(X), c.where(c.cls_method(RT, "RunTimeEnv", "__enter__")), c.where(c.cls_method(RT, "RunTimeEnv", "__init__"))
    excs = (None, "Exception", "ValueError", "KeyboardInterrupt", "SystemExit", "GeneratorExit", "AssertionError")
    bodies = ("nothing", "stdout", "threads", "both")
    user = Sym("stream in force on entry", "file")
    for rd in (None, False, True):
        for th in (None, 1, 4, "sym"):
            def ins():
                st = c.fresh()
                set_stream(st, user)
                set_threads(st, Sym("n0", "int"))
                e, want = construct(c, st, rd, th)
                if stream(st) != user or opened(st)[0]:
                    return False, "creating the environment already redirects the output"
                r = c.do("e.__enter__()", st, e=e)
                if r != e:
                    return None, "__enter__ returns another object"
                return inside(c, st, bool(rd), want, user)
            c.run("inside", "rd=%s threads=%s" % (rd, th), ins, WE)
            for exc in excs:
                for b in bodies:
                    def one():
                        st = c.fresh()
                        e, want = construct(c, st, rd, th)
                        # what is in force at entry may differ from what was in force at construction
                        set_stream(st, user)
                        set_threads(st, Sym("threads in force on entry", "int"))
                        entry = threads(st)
                        c.do("e.__enter__()", st, e=e)
                        body(st, b)
                        a = exc_args(c, st, exc)
                        out = c.ex("e.__exit__(a, b, t)", st, e=e, a=a[0], b=a[1], t=a[2])
                        return after(c, st, out, user, entry, exc, rd)
                    c.run("restored", "rd=%s threads=%s exit by %s, body: %s" % (rd, th, exc or "end of block", b), one, W)
    for th in (None, 3):
        for exc in excs:
            for b in ("nothing", "threads"):
                def log():
                    st = c.fresh()
                    set_stream(st, user)
                    set_threads(st, Sym("threads in force on entry", "int"))
                    e, _ = construct(c, st, True, th)
                    c.do("e.__enter__()", st, e=e)
                    body(st, b)
                    n = len(st.effects)
                    a = exc_args(c, st, exc)
                    out = c.ex("e.__exit__(a, b, t)", st, e=e, a=a[0], b=a[1], t=a[2])
                    r, why = c.returns(out)
                    if r is not True:
                        return r, why
                    return logged(c, out.st, n, a, exc)
                c.run("log", "threads=%s exit by %s, body: %s" % (th, exc or "end of block", b), log, WE)
    for rd1, rd2 in itertools.product((False, True), repeat=2):
        for exc in (None, "ValueError"):
            for b in ("nothing", "both"):
                def nest():
                    st = c.fresh()
                    set_stream(st, user)
                    set_threads(st, Sym("threads in force on entry", "int"))
                    t0 = threads(st)
                    e, _ = construct(c, st, rd1, 2)
                    c.do("e.__enter__()", st, e=e)
                    s1, t1 = stream(st), threads(st)
                    f, _ = construct(c, st, rd2, 3)
                    c.do("f.__enter__()", st, f=f)
                    body(st, b)
                    a = exc_args(c, st, exc)
                    o = c.ex("f.__exit__(a, b, t)", st, f=f, a=a[0], b=a[1], t=a[2])
                    r, why = c.returns(o)
                    if r is not True:
                        return r, why
                    if (stream(st) != s1 and (rd2 or b == "nothing")) or c.veq(threads(st), t1, st) is False:
                        return False, "leaving the inner environment does not restore the outer one"
                    return after(c, st, c.ex("e.__exit__(a, b, t)", st, e=e, a=a[0], b=a[1], t=a[2]), user, t0, exc, rd1)
                c.run("nested", "outer rd=%s, inner rd=%s, exit by %s, body: %s" % (rd1, rd2, exc or "end of block", b), nest, W)

                def twice():
                    st = c.fresh()
                    e, _ = construct(c, st, rd1, 2)
                    for k in (1, 2):
                        set_stream(st, Sym("stream in force at entry %d" % k, "file"))
                        set_threads(st, Sym("threads in force at entry %d" % k, "int"))
                        s0, t0 = stream(st), threads(st)
                        st.effects = ()
                        c.do("e.__enter__()", st, e=e)
                        body(st, b, str(k))
                        a = exc_args(c, st, exc)
                        out = c.ex("e.__exit__(a, b, t)", st, e=e, a=a[0], b=a[1], t=a[2])
                        r, why = after(c, st, out, s0, t0, exc, rd1)
                        if r is not True:
                            return r, "use %d: %s" % (k, why)
                    return True, ""
                if rd2:
                    c.run("nested", "same environment used twice, rd=%s, exit by %s, body: %s" % (rd1, exc or "end of block", b), twice, W)
    for bad in (Const(0), Const(-2), Const(1.5), Const("4"), Tup((Const(2),))):
        def inv():
            st = c.fresh()
            out = c.ex("RunTimeEnv(threads_num=x)", st, mod=RT, x=bad)
            r, why = c.refuses(out, ("ValueError",))
            if r is True:
                for v, s, n in out.raises:
                    if s.locals.get("ext:mkl") or opened(s)[0] or any(e[0] == "call:path.mkdir" for e in s.effects):
                        return False, "refused after something was changed"
            return r, why
        c.run("refusal", show(bad), inv, WI)
    return c.finish(EXPL, floor=60)
