"""Harness environment, symbolic half: inputs are z3 terms, checks are solver queries."""
import contextlib
import gzip
import io
import json
import os
import sys
import xml.etree.ElementTree as ET
import zipfile
import z3
from . import cenv
from . import engine as E
from . import runtime as R
from . import values as V
from .values import SymInt, SymZ, SymBool, SymStr, SymBytes, SymFile, SymFloat, SymEnum, Sym


class IntInput:
    def __init__(self, t, kind):
        self.t, self.kind = t, kind

    def prefer(self):
        return []

    def evaluate(self, m):
        v = m.eval(self.t, model_completion=True)
        if self.kind == "bool":
            return z3.is_true(v)
        return v.as_long() if self.kind == "z" else v.as_signed_long()


class FileInput:
    """Symbolic file content: any byte at any position, and a length.  Reads at symbolic positions are
    tied together by functional consistency (equal positions hold equal bytes)."""
    W = 48

    def __init__(self, name, maxlen, minlen, fixed):
        self.name = name
        self.fixed = dict(fixed or {})
        self.consts = {}
        self.cells = {}             # (base index, offset) -> (position term, byte term)
        self.bases = []
        if minlen == maxlen:
            self.length = maxlen
        else:
            self.length = V.mk_int(z3.BitVec(name + "!len", V.width(minlen, maxlen)), minlen, maxlen)

    def _const(self, i):
        if i in self.fixed:
            return z3.BitVecVal(self.fixed[i], 8)
        t = self.consts.get(i)
        if t is None:
            t = self.consts[i] = z3.BitVec("%s[%d]" % (self.name, i), 8)
            for (ix, b), lo, hi in self.cells.values():
                if lo <= i <= hi:
                    E.ENGINE.axiom(z3.Implies(ix == i, b == t))
        return t

    def at(self, i):
        if isinstance(i, int):
            if i in self.fixed:
                return self.fixed[i]
            if i < 0:
                raise E.EngineLimit("negative byte position")
            return SymInt(z3.ZeroExt(1, self._const(i)), 0, 255)
        base, k = i.base()
        for n, q in enumerate(self.bases):
            if q is base or q.t.ast.value == base.t.ast.value:
                break
        else:
            n = len(self.bases)
            self.bases.append(base)
        c = self.cells.get((n, k))
        if c is None:
            if max(abs(i.hi), abs(i.lo)) >= 1 << (self.W - 1):
                raise E.EngineLimit("byte position too large")
            ix = V.resize(i.t, self.W)
            b = z3.BitVec("%s[@%d%+d]" % (self.name, n, k), 8)
            ax = []
            for p, t in list(self.consts.items()) + [(p, z3.BitVecVal(v, 8)) for p, v in self.fixed.items()]:
                if i.lo <= p <= i.hi:
                    ax.append(z3.Implies(ix == p, b == t))
            for (n2, k2), ((ix2, b2), lo2, hi2) in self.cells.items():
                if n2 != n and lo2 <= i.hi and i.lo <= hi2:
                    ax.append(z3.Implies(ix == ix2, b == b2))
            self.cells[(n, k)] = c = ((ix, b), i.lo, i.hi)
            for x in ax:
                E.ENGINE.axiom(x)
        return SymInt(z3.ZeroExt(1, c[0][1]), 0, 255)

    def prefer(self):
        if isinstance(self.length, int):
            return []
        L = self.length
        return [V.bterm(L <= n) for n in (1 << 24, 1 << 20, 1 << 16, 4096, 1024, 256, 128, 64, 16) if L.lo <= n < L.hi]

    def evaluate(self, m):
        n = self.length if isinstance(self.length, int) else m.eval(self.length.t, model_completion=True).as_signed_long()
        bs = {}
        for i, t in self.consts.items():
            if i < n:
                bs[str(i)] = m.eval(t, model_completion=True).as_long()
        for (ix, b), _, _ in self.cells.values():
            k = m.eval(ix, model_completion=True).as_signed_long()
            if 0 <= k < n:
                bs[str(k)] = m.eval(b, model_completion=True).as_long()
        for k, b in self.fixed.items():
            if k < n:
                bs[str(k)] = b
        return {"len": n, "bytes": bs}


class SContent:
    def __init__(self, at, length):
        self._at, self.length = at, length

    def at(self, i):
        return self._at(i)


class GzHandler:
    """Contract stub for gzip: decompressing the registered file yields the registered content."""

    def __init__(self, inner, outer, cut=0, again=None, ahead=None):
        self.inner = inner
        self.ahead = ahead
        self.source = outer
        self.cut = cut
        self.again = again

    def first(self):
        """Content of the first member alone."""
        n = self.inner.length
        m = V.ite(V.sym_and([self.cut > 0, self.cut < n]), self.cut, n) if isinstance(self.cut, Sym) else n
        return SymFile(self.inner._at, m, "<member>").getvalue()

    def __call__(self, outer, whole=False):
        pos = 0 if whole else outer.pos
        f = SymFile(self.inner._at, self.inner.length, "<gzip>")
        if isinstance(self.cut, Sym):
            f.cut = lambda: self.cut
        if self.again is not None:
            R.GZ[id(f)] = GzHandler(self.again, f)
        if pos != 0:
            def bad(*a, **k):
                raise gzip.BadGzipFile("Not a gzipped file")
            f.read = f.seek = f.read1 = f.peek = f.readinto = f.readinto1 = bad
        elif not whole and self.ahead is not None:
            self.follow(f, outer)
        return f

    def follow(self, f, outer):
        """The first use of the decompressed stream moves the compressed file: to its end when it is short,
        somewhere beyond the first 64 KiB otherwise."""
        used = []

        def wrap(g):
            def h(*a, **k):
                if not used:
                    used.append(1)
                    outer.pos = self.ahead()
                return g(*a, **k)
            return h
        for k in ("read", "seek", "read1", "peek", "readinto", "readinto1", "readline"):
            if hasattr(f, k):
                setattr(f, k, wrap(getattr(f, k)))


class SymEnv(cenv.Base):
    symbolic = True

    def __init__(self, eng, scratch):
        super().__init__(scratch)
        self.eng = eng
        R.SCRATCH[0] = os.path.abspath(scratch)
        R.FILES.clear()
        R.OPENED.clear()
        R.MOUNTS.clear()
        R.GZ.clear()
        R.TOKENS.__init__()

    # -- inputs
    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        w = V.width(lo, hi)
        if lo == 0 and hi & (hi + 1) == 0:
            b = z3.BitVec(name, w - 1)
            t = z3.ZeroExt(1, b)
            self.eng.inputs[name] = IntInput(t, "int")
            return SymInt(t, 0, hi)
        t = z3.BitVec(name, w)
        self.eng.inputs[name] = IntInput(t, "int")
        self.eng.assume(z3.And(t >= lo, t <= hi))
        return SymInt(t, lo, hi)

    def zint(self, name, lo, hi):
        t = z3.Int(name)
        self.eng.inputs[name] = IntInput(t, "z")
        self.eng.assume(z3.And(t >= lo, t <= hi))
        return SymZ(t, lo, hi)

    def bool(self, name):
        t = z3.Bool(name)
        self.eng.inputs[name] = IntInput(t, "bool")
        return SymBool(t)

    def pick(self, name, n):
        v = self.int(name, 0, n - 1)
        return v if isinstance(v, int) else v.conc()

    def fix(self, v):
        """Concrete value (all values explored)."""
        return v.conc() if isinstance(v, Sym) and hasattr(v, "conc") else bool(v) if isinstance(v, SymBool) else v

    # -- logic
    def assume(self, c):
        if isinstance(c, SymBool):
            self.eng.assume(c.t)
        elif not c:
            raise E.Infeasible("assumption false")

    def check(self, c, msg):
        if isinstance(c, (SymInt, SymZ)):
            c = c != 0
        self.eng.prove(c.t if isinstance(c, SymBool) else bool(c), msg)

    def same(self, a, b):
        return V.sym_eq(a, b)

    def compare(self, a, b):
        """(a == b, a != b)"""
        return R.xbool(R.sx_eq(a, b)), R.xbool(R.sx_ne(a, b))

    def truth(self, v):
        return R.xbool(v)

    def and_(self, *bs):
        return V.sym_and([R.xbool(b) for b in bs])

    def or_(self, *bs):
        return V.sym_or([R.xbool(b) for b in bs])

    def not_(self, b):
        return R.sx_not(b)

    def ite(self, c, a, b):
        return V.ite(c, a, b)

    def observe(self, name, v):
        self.observed.append((name, v))

    def _run(self, fn):
        import sys
        from . import instrument
        for f in sys.meta_path:
            if isinstance(f, instrument.Finder):
                return f.run_script(fn)
        raise E.EngineLimit("no instrumenting loader")

    # -- files
    def content(self, name, maxlen, minlen=0, fixed=None):
        d = FileInput(name, maxlen, minlen, fixed)
        self.eng.inputs[name] = d
        if not isinstance(d.length, int):
            self.eng.assume(z3.And(d.length.t >= minlen, d.length.t <= maxlen))
        return SContent(d.at, d.length)

    def bytes(self, items):
        items = list(items)
        return SContent(lambda i: items[i] if isinstance(i, int) else _sel(items, i), len(items)) if not all(
            isinstance(x, int) for x in items) else SList(items)

    def file(self, content):
        f = self._file(content)
        f.cut = lambda: self.int("io!cut", 0, 1 << 26)
        return f

    def _file(self, content):
        lst = getattr(content, "items", None)
        if lst is not None:
            return SymFile(lst, len(lst))
        if isinstance(content.length, int) and content.length <= 512:
            return SymFile([content.at(i) for i in range(content.length)], content.length)
        return SymFile(content._at, content.length)

    def gzfile(self, content, twice=False):
        if twice:
            inner = self.gzfile(content)
            outer = self.gzfile(SContent(inner.byte, inner.length))
            R.GZ[id(outer)].again = content
            return outer
        n = self.int("gz!len", 18, 1 << 20)
        head = {0: 0x1F, 1: 0x8B, 2: 8, 3: self.int("gz!flags", 0, 31)}
        for i in range(4, 10):
            head[i] = self.int("gz!h%d" % i, 0, 255)
        raw = FileInput("gz!raw", 1 << 20, 1 << 20, {})

        def at(i):
            if isinstance(i, int):
                return head[i] if i in head else raw.at(i)
            raise E.EngineLimit("compressed data at a symbolic position")
        f = SymFile(at, n, "<gz>")

        def ahead():
            p = self.int("gz!ahead", 0, 1 << 20)
            self.eng.assume(V.sym_and([p <= n, V.sym_or([p == n, p >= 1 << 16])]).t)
            return p
        R.GZ[id(f)] = GzHandler(content, f, self.int("gz!cut", 0, 1 << 20), ahead=ahead)
        f._keep = R.GZ
        return f

    def mount(self, name, content, gz=False):
        p = self.path(name)
        open(p, "wb").close()
        R.MOUNTS[os.path.abspath(p)] = lambda: self.gzfile(content) if gz else self._file(content)
        return p

    def open(self, path):
        return R.sx_open(path, "rb")

    # -- results
    def _written(self, name):
        return R.file_text(os.path.abspath(self.path(name)))

    def text(self, name):
        return self._written(name)

    def raw(self, name):
        p = os.path.abspath(self.path(name))
        with open(p, "rb") as f:
            data = f.read()
        if p in R.FILES or b"\xe2\x81\x85tok" in data:
            t = R.file_text(p)
            return (t.conc() if isinstance(t, SymStr) else t).encode()
        return data

    def read_json(self, name):
        t = self._written(name)
        return R.json_parse(t)

    @contextlib.contextmanager
    def capture(self):
        c = Captured(R.StringOut())
        c.stream.std = True
        saved, sys.stdout = sys.stdout, c.stream
        try:
            yield c
        finally:
            c.text = c.stream.getvalue()
            sys.stdout = saved

    def read_csv(self, name):
        t = self._written(name)
        if isinstance(t, str):
            return cenv.csv_split(t)
        if not t.endswith("\n"):
            t = SymStr.make([t, "\n<no final newline>\n"])
        return [(ln.split(",")) for ln in t.split("\n")[:-1]]

    def read_xrns(self, name):
        with zipfile.ZipFile(self.path(name)) as z:
            names = z.namelist()
            root = ET.fromstring(z.read("Song.xml"))
        return names, root

    def tok(self, text):
        if text is None:
            return None
        v = R.TOKENS.strs.get(text)
        if v is None:
            return text
        return R.to_text(v) if isinstance(v, (SymInt, SymZ)) else v

    def cat(self, *parts):
        return SymStr.make([p if isinstance(p, (str, SymStr)) else R.to_text(p) for p in parts])

    def text_of(self, obj):
        return R.to_text(obj)

    def plain(self, text):
        return text.conc() if isinstance(text, SymStr) else text

    def num(self, text):
        if text is None:
            return None
        if isinstance(text, SymStr):
            return R.xint(text)
        v = R.TOKENS.strs.get(text)
        return int(text) if v is None else v

    def is_text(self, v):
        return isinstance(v, (str, SymStr))

    @contextlib.contextmanager
    def quiet(self):
        yield


class SList:
    def __init__(self, items):
        self.items = items
        self.length = len(items)

    def at(self, i):
        return self.items[i]

    _at = at


def _sel(items, i):
    n = len(items)
    r = V.to_sym(items[n - 1])
    for k in range(n - 2, -1, -1):
        r = V.ite(i == k, items[k], r)
    return r


def eval_obs(v, m):
    """Value of an observation under a model."""
    if isinstance(v, SymBool):
        return z3.is_true(m.eval(v.t, model_completion=True))
    if isinstance(v, SymInt):
        return m.eval(v.t, model_completion=True).as_signed_long()
    if isinstance(v, SymZ):
        return m.eval(v.t, model_completion=True).as_long()
    if isinstance(v, SymFloat):
        return v.thunk({k: eval_obs(x, m) for k, x in v.deps.items()})
    if isinstance(v, SymStr):
        return "".join(s if isinstance(s, str) else format(eval_obs(s[0], m), s[1]) for s in v.letters.segs)
    if isinstance(v, SymEnum):
        return obs_enum(v, m)
    if isinstance(v, R.TextBytes):
        return cenv.obs(eval_obs(v.rope, m).encode())
    if isinstance(v, (list, tuple)):
        return [eval_obs(x, m) for x in v]
    return cenv.obs(v)


def obs_enum(v, m):
    return cenv.obs(v.cls(eval_obs(v.v, m)))


class Captured(cenv.Captured):
    def lists(self):
        if not isinstance(self.text, SymStr):
            return cenv.json_lists(self.text)
        out, text, lines = [], "", []
        for x in self.text.segs:
            if isinstance(x, R.JsonDoc):
                out.append(x.tree)
            elif isinstance(x, str):
                text += x
            else:
                break
        else:
            return out + cenv.json_lists(text)
        lines = [ln if isinstance(ln, str) else ln for ln in self.text.letters.split("\n")]
        out = []
        while lines:                # documents written piece by piece: the lines from a "[" to a "]"
            first = lines.pop(0)
            if first.startswith("["):
                doc = [first]
                while lines and not doc[-1].endswith("]"):
                    doc.append(lines.pop(0))
                    if doc[-1] == "]":
                        break
                out.append(R.json_parse(SymStr.make([q for ln in doc for q in (ln, "\n")])))
        return out
