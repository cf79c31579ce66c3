"""Harness environment, concrete half.  Runs under the interpreter of the code under test on the
unmodified sources; also the base of the symbolic environment (symx/senv.py)."""
import contextlib
import importlib
import io
import json
import os
import sys
import zipfile
import zlib
import xml.etree.ElementTree as ET

SRC = os.environ.get("VGM_SRC", "/repo/src")


class CheckFailed(BaseException):
    """A property assertion is false."""


class AssumeFailed(BaseException):
    """The inputs are outside the assumed ones."""


class Skip(BaseException):
    pass


class Base:
    symbolic = False

    def __init__(self, scratch):
        self.scratch = scratch
        self.reached = {}
        self.observed = []

    # -- bookkeeping
    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def path(self, name):
        return os.path.join(self.scratch, name)

    def mod(self, name):
        return importlib.import_module(name)

    def script(self, name, args):
        """Run a file of the code under test as a program with the given arguments, in this process.
        Returns the exception it ended with (None: it ran to its end or exited with status 0)."""
        fn = os.path.join(SRC, name)
        saved = sys.argv
        sys.argv = [fn] + list(args)
        try:
            with contextlib.redirect_stderr(io.StringIO()):
                self._run(fn)
        except SystemExit as e:
            return e if e.code not in (None, 0) else None
        except Exception as e:              # noqa
            return e
        finally:
            sys.argv = saved
        return None

    def _run(self, fn):
        import runpy
        runpy.run_path(fn, run_name="__main__")

    def fresh(self):
        """Forget the modules of the code under test: mod() imports them anew."""
        purge()

    def listing(self):
        """Names of the files in the scratch directory and in the directories there."""
        return sorted(os.path.relpath(os.path.join(d, f), self.scratch) for d, _, fs in os.walk(self.scratch) for f in fs)

    def exists(self, name):
        return os.path.exists(self.path(name))

    # -- common conveniences
    def eq(self, a, b, msg):
        self.check(self.same(a, b), msg)

    def raises(self, fn, *a, **k):
        """(exception or None, result or None); control-flow exceptions of the engine pass through."""
        try:
            return None, fn(*a, **k)
        except Exception as e:              # noqa
            return e, None

    def choose(self, name, options):
        """One of the options; every option is explored."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.pick(name, len(options))]


class ConcreteEnv(Base):
    def __init__(self, scratch, inputs):
        super().__init__(scratch)
        self.inputs = inputs
        self.sink = io.StringIO()

    def int(self, name, lo, hi):
        return int(self.inputs.get(name, lo))

    zint = int

    def bool(self, name):
        return bool(self.inputs.get(name, False))

    def pick(self, name, n):
        return int(self.inputs.get(name, 0))

    def fix(self, v):
        return v

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, msg):
        if not c:
            raise CheckFailed(msg)

    def same(self, a, b):
        return bool(a == b)

    def compare(self, a, b):
        """(a == b, a != b)"""
        return bool(a == b), bool(a != b)

    def truth(self, v):
        return bool(v)

    def and_(self, *bs):
        return all(bs)

    def or_(self, *bs):
        return any(bs)

    def not_(self, b):
        return not b

    def ite(self, c, a, b):
        return a if c else b

    def observe(self, name, v):
        self.observed.append([name, obs(v)])

    # -- files
    def content(self, name, maxlen, minlen=0, fixed=None):
        d = self.inputs.get(name, {"len": minlen, "bytes": {}})
        b = bytearray(d["len"])
        for k, v in d["bytes"].items():
            if 0 <= int(k) < len(b):
                b[int(k)] = v
        if fixed:
            for k, v in fixed.items():
                if k < len(b):
                    b[k] = v
        return Content(bytes(b))

    def file(self, content):
        f = CutFile(content.data)
        f.cut = self.int("io!cut", 0, 1 << 26)
        return f

    def gzfile(self, content, twice=False):
        return io.BytesIO(self.gz(self.gz(content.data) if twice else content.data))

    def gz(self, data):
        """A gzip file holding data in one or two members, with the header fields the inputs ask for."""
        cut = self.int("gz!cut", 0, 1 << 20)
        if 0 < cut < len(data):
            return self.member(data[:cut]) + self.member(data[cut:])
        return self.member(data)

    def member(self, data):
        fl = self.int("gz!flags", 0, 31)
        h = bytes([0x1F, 0x8B, 8, fl] + [self.int("gz!h%d" % i, 0, 255) for i in range(4, 10)])
        if fl & 4:
            h += b"\x04\x00A\x00B\x1f"
        if fl & 8:
            h += b"tune.vgm\x00"
        if fl & 16:
            h += b"comment\x00"
        if fl & 2:
            h += (zlib.crc32(h) & 0xFFFF).to_bytes(2, "little")
        z = zlib.compressobj(9, zlib.DEFLATED, -15)
        return h + z.compress(data) + z.flush() + zlib.crc32(data).to_bytes(4, "little") + (len(data) & 0xFFFFFFFF).to_bytes(4, "little")

    def bytes(self, items):
        return Content(bytes(items))

    def mount(self, name, content, gz=False):
        with open(self.path(name), "wb") as f:
            f.write(self.gz(content.data) if gz else content.data)
        return self.path(name)

    def open(self, path):
        return open(path, "rb")

    # -- reading results
    def text(self, name):
        with open(self.path(name), encoding="utf-8") as f:
            return f.read()

    def raw(self, name):
        """Bytes of a file in the scratch directory."""
        with open(self.path(name), "rb") as f:
            return f.read()

    def read_json(self, name):
        with open(self.path(name), encoding="utf-8") as f:
            return json.load(f)

    @contextlib.contextmanager
    def capture(self):
        """Standard output while the code under test runs."""
        c = Captured(io.TextIOWrapper(io.BytesIO(), encoding="utf-8", newline="\n", write_through=True))
        saved, sys.stdout = sys.stdout, c.stream
        try:
            yield c
        finally:
            c.text = c.stream.buffer.getvalue().decode() if not c.stream.closed and not c.stream.flush() else ""
            sys.stdout = saved

    def read_csv(self, name):
        return csv_split(self.text(name))

    def read_xrns(self, name):
        with zipfile.ZipFile(self.path(name)) as z:
            names = z.namelist()
            root = ET.fromstring(z.read("Song.xml"))
        return names, root

    def tok(self, text):
        return text

    def cat(self, *parts):
        """Text made of strings and integers."""
        return "".join(str(p) for p in parts)

    def text_of(self, obj):
        return str(obj)

    def plain(self, text):
        """The text as an ordinary string (all values explored)."""
        return text

    def num(self, text):
        return None if text is None else int(text)

    def is_text(self, v):
        return isinstance(v, str)

    @contextlib.contextmanager
    def quiet(self):
        with contextlib.redirect_stdout(self.sink):
            yield


class CutFile(io.BytesIO):
    """A buffered file: a single underlying read stops at the end of the buffer."""
    cut = 0

    def read1(self, n=-1):
        p = self.tell()
        if p < self.cut and (n is None or n < 0 or self.cut < p + n):
            n = self.cut - p
        return self.read(n)

    def readinto1(self, b):
        data = self.read1(len(b))
        b[:len(data)] = data
        return len(data)


class Captured:
    """Text written to standard output."""

    def __init__(self, stream):
        self.stream, self.text = stream, ""

    def closed(self):
        return self.stream.closed

    def lists(self):
        return json_lists(self.text)


def json_lists(text):
    """The JSON arrays that start at the start of a line, up to the end of a line."""
    out, at, d = [], 0, json.JSONDecoder()
    while True:
        if text.startswith("[", at):
            try:
                v, end = d.raw_decode(text, at)
                if end == len(text) or text[end] == "\n":
                    out.append(v)
                    at = end
            except ValueError:
                pass
        at = text.find("\n", at) + 1
        if not at:
            return out


class Content:
    """Bytes of a file."""

    def __init__(self, data):
        self.data = data

    @property
    def length(self):
        return len(self.data)

    def at(self, i):
        return self.data[i]


def csv_split(t):
    if not t.endswith("\n"):
        t = t + "\n<no final newline>\n"
    return [ln.split(",") for ln in t.split("\n")[:-1]]


def obs(v):
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, (list, tuple)):
        return [obs(x) for x in v]
    return repr(type(v))


def purge(prefix=SRC):
    """Forget the modules of the code under test, so that every run starts from a fresh import."""
    keep = os.path.join(prefix, "xrns", "xml") + os.sep
    for n, m in list(sys.modules.items()):
        f = getattr(m, "__file__", None)
        if f and f.startswith(prefix + os.sep) and not f.startswith(keep):
            del sys.modules[n]
    for n in ("xrns", "vgm"):
        m = sys.modules.get(n)
        if m is not None and getattr(m, "__file__", None) is None:
            del sys.modules[n]
