import builtins
import errno
import gzip
import io
import json
import os
import struct
import sys
import zipfile
import zlib
from symx.case import Case
from harness import common as K

ASSUMPTIONS = ["a write mode starts with 'w', a read mode with 'r'; of the modes for standard streams w, wt, wb, r, rt, rb must work and a, ab, x, '' be refused",
               "standard streams are the ones in force when the name is opened, and are text streams over a byte buffer as the interpreter provides them"]

STD = (None, "", "-")
NAMED = ("out", "--", "-x", "x-", " ", "0", "-", "~", "~root", "$HOME", "a$HOME", "${HOME}x", "%d", "%HOME%", " a ", "a b\n", "\u00e4\u4e16", "OUT.GZ",
         "out.gz", "o*", "[o]", "{0}", "stdout", "stdin", "None", "a.xml.bz2", "0x1", "n" * 200,
         " -", "- ", " - ", "\t-", "-\n", "-.", ".-", "./-", "\u2013", "\uff0d", "-0", "con", "NUL", "&1", "1", "stdout:", "|cat", "file:x", "...")


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


class Std:
    """Stand-ins for the standard streams while the code under test runs."""

    def __init__(self, data=b""):
        self.raw_out, self.raw_in = io.BytesIO(), io.BytesIO(data)
        self.out = io.TextIOWrapper(self.raw_out, encoding="utf-8", write_through=True, newline="\n")
        self.inp = io.TextIOWrapper(self.raw_in, encoding="utf-8", newline="\n")

    def __enter__(self):
        self.saved = sys.stdout, sys.stdin
        sys.stdout, sys.stdin = self.out, self.inp
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stdin = self.saved
        return False

    def alive(self):
        return not (self.out.closed or self.inp.closed or self.raw_out.closed or self.raw_in.closed)


def use(env, tools, name, mode, error, step, swap=False):
    """Open, use and leave; returns what happened."""
    seen = {}
    err = error
    data = b"d\xc3\xa4t\n" if "b" in mode else "d\u00e4t\n"
    try:
        with tools.smart_open(name, mode) as f:
            seen["file"] = f
            seen["open"] = not f.closed
            if step == "before" and error is not None:
                raise error
            if mode.startswith("r"):
                seen["read"] = f.read()
            else:
                f.write(data)
            if swap:
                sys.stdout, sys.stdin = io.StringIO(), io.StringIO()
            if step == "after" and error is not None:
                raise error
        seen["left"] = True
    except BaseException as e:
        if e is not err:
            raise
        seen["error"] = e
    return seen


def failure(kind):
    """A new error of the given kind, as it may be raised while the file is in use."""
    if kind == "UnicodeDecodeError":
        return UnicodeDecodeError("utf-8", b"\xff", 0, 1, "x")
    if kind == "UnicodeEncodeError":
        return UnicodeEncodeError("ascii", "\xff", 0, 1, "x")
    t = {"struct": struct.error, "zlib": zlib.error, "gzip": gzip.BadGzipFile, "json": lambda m: json.JSONDecodeError(m, "", 0),
         "zip": zipfile.BadZipFile, "unsupported": io.UnsupportedOperation, "exit0": lambda m: SystemExit(0), "exit1": lambda m: SystemExit(1),
         "group": lambda m: ExceptionGroup(m, [ValueError(m)]), "warning": UserWarning}.get(kind) or getattr(builtins, kind)
    return t(errno.EPIPE, "x") if isinstance(t, type) and issubclass(t, OSError) and kind[0].isupper() else t("x")


FAILURES = ("Exception", "BaseException", "OSError", "BrokenPipeError", "ConnectionResetError", "ConnectionAbortedError", "FileNotFoundError",
            "PermissionError", "IsADirectoryError", "FileExistsError", "InterruptedError", "BlockingIOError", "TimeoutError", "EOFError",
            "ValueError", "KeyError", "IndexError", "LookupError", "TypeError", "AttributeError", "NameError", "AssertionError", "ArithmeticError",
            "ZeroDivisionError", "OverflowError", "RuntimeError", "RecursionError", "NotImplementedError", "StopIteration", "StopAsyncIteration",
            "GeneratorExit", "KeyboardInterrupt", "MemoryError", "BufferError", "ImportError", "SyntaxError", "SystemError", "UnicodeDecodeError",
            "UnicodeEncodeError", "struct", "zlib", "gzip", "json", "zip", "unsupported", "exit0", "exit1", "group", "warning")


def errors(env):
    k = env.choose("error", ("none", "exception", "exit"))
    step = env.choose("step", ("before", "after")) if k != "none" else "after"
    return (None if k == "none" else Boom("x") if k == "exception" else Stop("x")), step


def standard(env, modes):
    tools = env.mod("tools")
    name = env.choose("name", STD)
    mode = env.choose("mode", modes)
    error, step = errors(env)
    swap = env.bool("replaced")
    with Std(b"d\xc3\xa4t\n") as std:
        seen = use(env, tools, name, mode, error, step, bool(swap))
        sys.stdout, sys.stdin = std.out, std.inp
        env.check(std.alive(), "a standard stream was closed")
    env.check(seen.get("open"), "the stream is already closed while in use")
    env.check(seen.get("error") is error, "an error raised while in use did not reach the caller")
    done = error is None or step == "after"
    if mode.startswith("w"):
        std.out.flush()
        env.check(std.raw_out.getvalue() == (b"d\xc3\xa4t\n" if done else b""), "what was written did not go to standard output")
    elif done:
        env.check(seen["read"] == (b"d\xc3\xa4t\n" if "b" in mode else "d\u00e4t\n"), "standard input was not read in the requested mode")
    env.reach("end")


def refused(env):
    tools = env.mod("tools")
    name = env.choose("name", STD)
    mode = env.choose("mode", ("a", "ab", "x", "xb", ""))
    with Std() as std:
        err, got = env.raises(lambda: use(env, tools, name, mode, None, "after"))
        env.check(err is not None, "a standard stream was opened in an unknown mode")
        env.check(std.alive(), "a standard stream was closed")
        env.check(std.raw_out.getvalue() == b"", "output although the mode was refused")
    env.reach("end")


def named(env, modes):
    tools = env.mod("tools")
    name = env.choose("name", NAMED)
    mode = env.choose("mode", modes)
    error, step = errors(env)
    data = b"d\xc3\xa4t\n"
    path = env.path(name)
    relative = name != "-" and env.bool("relative")
    old = data if not mode.startswith("w") else b"old" * env.choose("existing", (0, 1, 50000))
    if old:
        with open(path, "wb") as f:
            f.write(old)
    with Std(b"stdin") as std:
        seen = use(env, tools, name if relative else path, mode, error, step)
        env.check(std.alive(), "a standard stream was closed")
        env.check(std.raw_out.getvalue() == b"", "a named file's output went to standard output")
    env.check(seen.get("open"), "the file is already closed while in use")
    env.check(seen["file"].closed, "a named file was not closed")
    env.check(seen.get("error") is error, "an error raised while in use did not reach the caller")
    done = error is None or step == "after"
    if mode.startswith("w"):
        got = env.raw(name)
        env.check(env.same(got, data if done else b""), "the named file does not hold what was written")
    elif mode.startswith("a"):
        env.check(env.same(env.raw(name), data + data if done else data), "the named file does not hold what was appended")
    elif done:
        env.check(seen["read"] == (data if "b" in mode else data.decode()), "the named file was not read in the requested mode")
    env.reach("end")


def kinds(env, uses):
    """Every kind of error while in use reaches the caller as it was raised; it is not mistaken for an end."""
    tools = env.mod("tools")
    which, mode = env.choose("use", uses).split(":")
    error = failure(env.choose("kind", FAILURES))
    step = env.choose("step", ("before", "after"))
    data = b"d\xc3\xa4t\n"
    path = "-" if which == "-" else env.path(which)
    if which != "-" and not mode.startswith("w"):
        with open(path, "wb") as f:
            f.write(data)
    with Std(data) as std:
        seen = use(env, tools, path, mode, error, step)
        env.check(std.alive(), "a standard stream was closed")
    env.check(seen.get("error") is error, "an error raised while in use did not reach the caller")
    if which != "-":
        env.check(seen["file"].closed, "a named file was not closed")
        if mode.startswith("w"):
            env.check(env.same(env.raw(which), data if step == "after" else b""), "the named file does not hold what was written")
    elif mode.startswith("w"):
        std.out.flush()
        env.check(std.raw_out.getvalue() == (data if step == "after" else b""), "what was written did not go to standard output")
    env.reach("end")


def shared(env):
    """One file in use several times over: each use is its own."""
    tools = env.mod("tools")
    path = env.path("f")
    data = b"".join(b"line %d\n" % i for i in range(3000))
    modes = [env.choose("m%d" % i, ("r", "rb", "rt")) for i in range(3)]
    apart = env.bool("apart")
    with open(path, "wb") as f:
        f.write(data)

    def text(mode, b):
        return b if "b" in mode else b.decode()
    with Std() as std:
        with tools.smart_open(path, modes[0]) as a:
            env.check(a.read(3) == text(modes[0], b"lin"), "the named file was not read from its start")
            with tools.smart_open(path if not apart else os.path.join(os.path.dirname(path), ".", "f"), modes[1]) as b:
                env.check(b.readline() == text(modes[1], b"line 0\n"), "the named file was not read from its start")
                env.check(a.read(4) == text(modes[0], b"e 0\n"), "two uses of one file share their place in it")
            env.check(b.closed and not a.closed, "leaving one use of a file ended another, or did not end")
            env.check(a.readline() == text(modes[0], b"line 1\n"), "leaving one use of a file ended another")
            env.check(b.closed, "a named file was not closed")
        env.check(a.closed, "a named file was not closed")
        with tools.smart_open(path, modes[2]) as c:
            env.check(c.read() == text(modes[2], data), "the named file was not read from its start")
        env.check(c.closed, "a named file was not closed")
        with tools.smart_open(path, "w") as d:
            d.write("new")
        with tools.smart_open(path, modes[2]) as e:
            env.check(e.read() == text(modes[2], b"new"), "the named file does not hold what was written")
    env.check(std.alive(), "a standard stream was closed")
    env.reach("end")


def early(env):
    """A named file that its user closes before leaving: nothing more happens to it, and errors get through."""
    tools = env.mod("tools")
    mode = env.choose("mode", ("w", "wb", "wt", "a", "ab", "r", "rb", "r+", "w+b"))
    again = env.bool("again")
    error = env.choose("error", (None, "exception", "exit"))
    error = error and (Boom("x") if error == "exception" else Stop("x"))
    path = env.path("f")
    with open(path, "wb") as f:
        f.write(b"old")
    seen = None
    with Std() as std:
        try:
            with tools.smart_open(path, mode) as f:
                if mode[0] == "r":
                    f.read()
                else:
                    f.write(b"new" if "b" in mode else "new")
                f.close()
                if again:
                    with open(path, "wb") as g:
                        g.write(b"other")
                if error is not None:
                    raise error
        except (Boom, Stop) as e:
            seen = e
        env.check(std.alive(), "a standard stream was closed")
    env.check(seen is error, "an error raised while in use did not reach the caller")
    env.check(f.closed, "a named file was not closed")
    want = b"other" if again else b"new" if mode[0] == "w" else b"oldnew" if mode[0] == "a" else b"old"
    env.check(env.same(env.raw("f"), want), "the named file does not hold what was written")
    env.reach("end")


def update(env):
    """A named file in a mode for both reading and writing, left wherever its user was."""
    tools = env.mod("tools")
    mode = env.choose("mode", ("r+", "r+b", "rb+", "w+", "wb+", "w+b", "a+", "ab+"))
    n = env.choose("at", (0, 1, 5, 9, 20))
    last = env.choose("last", ("write", "seek", "read"))
    error = Boom("x") if env.bool("error") else None
    path = env.path("f")
    with open(path, "wb") as f:
        f.write(b"0123456789" * 2)

    def t(x):
        return x if "b" in mode else x.decode()
    seen = None
    with Std() as std:
        try:
            with tools.smart_open(path, mode) as f:
                if mode[0] == "w":
                    f.write(t(b"0123456789" * 2))
                if mode[0] != "a":
                    f.seek(n)
                f.write(t(b"ab"))
                if last == "seek":
                    f.seek(2)
                elif last == "read":
                    f.seek(1)
                    env.check(len(f.read(1)) == 1, "a file opened for both could not be read")
                if error is not None:
                    raise error
        except Boom as e:
            seen = e
        env.check(std.alive(), "a standard stream was closed")
    env.check(seen is error, "an error raised while in use did not reach the caller")
    env.check(f.closed, "a named file was not closed")
    want = b"0123456789" * 2
    want = want + b"ab" if mode[0] == "a" else want[:n] + b"ab" + want[n + 2:]
    env.check(env.same(env.raw("f"), want), "the named file does not hold what was written")
    env.reach("end")


def missing(env):
    """A named file that cannot be opened: the error reaches the caller, nothing is closed."""
    tools = env.mod("tools")
    mode = env.choose("mode", ("r", "rb"))
    with Std() as std:
        err, _ = env.raises(lambda: use(env, tools, env.path("absent"), mode, None, "after"))
        env.check(isinstance(err, FileNotFoundError), "a missing file was not reported")
        err, _ = env.raises(lambda: use(env, tools, env.path("dir/absent"), "w", None, "after"))
        env.check(isinstance(err, OSError), "a file that cannot be created was not reported")
        env.check(std.alive(), "a standard stream was closed")
    env.reach("end")


def nested(env, n):
    """Several names in use at once, left in any order of errors."""
    tools = env.mod("tools")
    picks = [env.choose("p%d" % i, ("-:w", "file:w", "-:r", "-:wb", "file:rb")) for i in range(n)]
    fail = env.choose("fail", tuple(range(n)) + (None,))
    err = Boom("x")
    files = []

    def go(i):
        if i == n:
            return
        nm, mode = picks[i].split(":")
        path = "-" if nm == "-" else env.path("f%d" % i)
        if nm != "-" and mode[0] == "r":
            open(path, "wb").close()
        with tools.smart_open(path, mode) as f:
            files.append((nm, f))
            go(i + 1)
            env.check(not f.closed, "a file in use was closed")
            if fail == i:
                raise err
    with Std() as std:
        try:
            go(0)
            env.check(fail is None, "an error raised while in use did not reach the caller")
        except Boom as e:
            env.check(e is err, "another error than the one raised reached the caller")
        env.check(std.alive(), "a standard stream was closed")
    for nm, f in files:
        env.check(nm == "-" or f.closed, "a named file was not closed")
    env.reach("end")


def cases(tier):
    q = tier == "quick"
    return [Case("std_write", standard, {"modes": ("w", "wt", "wb")}, "names None, '' and '-', write modes, no error, an error or an interrupt before or after writing, streams replaced meanwhile or not", reach=("end",)),
            Case("std_read", standard, {"modes": ("r", "rt", "rb")}, "the same with read modes", reach=("end",)),
            Case("refused", refused, {}, "names None, '' and '-', modes a, ab, x, xb and ''", reach=("end",)),
            Case("named_write", named, {"modes": ("w", "wb")}, "named files (%s), absolute or relative, every error point" % (NAMED,), reach=("end",)),
            Case("named_read", named, {"modes": ("r", "rb")}, "the same, reading", reach=("end",)),
            Case("named_append", named, {"modes": ("a", "ab")}, "the same, appending", reach=("end",)),
            Case("kinds_std", kinds, {"uses": ("-:w", "-:wb", "-:r", "-:rb")}, "%d kinds of errors while a standard stream is in use" % len(FAILURES), reach=("end",)),
            Case("kinds_named", kinds, {"uses": ("f:w", "f:wb", "f:r", "f:rb", "f:a")}, "%d kinds of errors while a named file is in use" % len(FAILURES), reach=("end",)),
            Case("shared", shared, {}, "one file in use twice at once and again afterwards, any read mode each", reach=("end",)),
            Case("early", early, {}, "a named file its user closes, and perhaps replaces, before leaving", reach=("end",)),
            Case("update", update, {}, "modes r+, w+ and a+, binary or text, left after a write at 5 places, after seeking or reading", reach=("end",)),
            Case("missing", missing, {}, "files that cannot be opened", reach=("end",)),
            Case("nested", nested, {"n": 2 if q else 3}, "%d names in use at once" % (2 if q else 3), reach=("end",), weight=3)]
