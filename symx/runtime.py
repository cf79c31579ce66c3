"""Runtime behind the rewritten code: operations that CPython performs in C, modelled for symbolic
operands.  With ordinary operands every hook falls through to the native operation."""
import builtins
import collections
import copy
import csv
import enum
import functools
import gzip
import zlib
import io
import json
import os
import pathlib
import re
import struct
import sys
import types
import z3
from . import engine as E
from . import values as V
from .engine import EngineLimit, NeedFork
from .values import (SymInt, SymZ, SymBool, SymFloat, SymStr, SymBytes, SymByteArray, as_bytes, SymFile, SymEnum, SymDict, SymSet, Sym,
                     mk_bool, mk_not, sym_and, sym_or, sym_eq, ite, has_sym)

ENTERED = {}
SCRATCH = [None]          # scratch directory of the running harness


# ------------------------------------------------------------------ logic
PURE = set()              # functions of the code under test without side effects (by their text)
EFFECTS = {"append", "extend", "add", "update", "pop", "popitem", "setdefault", "insert", "remove", "discard", "clear",
           "sort", "reverse", "write", "writelines", "read", "readline", "readlines", "seek", "close", "flush", "next",
           "open", "print", "setattr", "delattr", "send", "throw", "appendleft", "popleft", "move_to_end", "writerow",
           "writerows", "input", "iter", "__setattr__", "__setitem__", "__next__", "dump"}


def sx_enter(name):
    ENTERED[name] = ENTERED.get(name, 0) + 1
    eng = E.ENGINE
    if eng is not None and eng.local is not None and name not in PURE:
        raise NeedFork()
    if eng is not None and eng.path_deadline is not None:
        eng._tick()
        eng.ndecisions -= 1


def _merge(args, stop, combine):
    """Python's and/or; symbolic boolean operands are merged instead of forked when the remaining
    operands can be evaluated without branching or raising."""
    acc = None
    n = len(args)
    for i, (thunk, spec) in enumerate(args):
        if acc is None:
            v = thunk()
            if i == n - 1:
                return v
            if isinstance(v, SymBool):
                acc = v
                continue
            if bool(v) == stop:
                return v
            continue
        # acc is symbolic: evaluate the next operand speculatively
        eng = E.ENGINE
        ok = False
        if spec:
            eng.spec += 1
            try:
                v = thunk()
                ok = isinstance(v, (bool, SymBool))
            except NeedFork:
                ok = False
            except Exception:
                ok = False
            finally:
                eng.spec -= 1
        if ok:
            acc = combine([acc, v])
            if isinstance(acc, bool):
                if i == n - 1:
                    return acc
                if acc == stop:
                    return acc
                acc = None
            elif i == n - 1:
                return acc
            continue
        if bool(acc) == stop:
            return stop
        acc = None
        v = thunk()
        if i == n - 1:
            return v
        if isinstance(v, SymBool):
            acc = v
            continue
        if bool(v) == stop:
            return v
    return acc


def sx_and(*args):
    return _merge(args, False, sym_and)


def sx_or(*args):
    return _merge(args, True, sym_or)


def sx_not(v):
    if isinstance(v, SymBool):
        return mk_not(v)
    if isinstance(v, (SymInt, SymZ)):
        return v == 0
    if isinstance(v, SymEnum) and issubclass(v.cls, (enum.Flag, enum.IntEnum)):
        return v.v == 0
    if isinstance(v, SymBytes):
        return v.length == 0
    return not v


def sx_eq(a, b):
    if isinstance(a, type) or isinstance(b, type):
        return _untype(a) == _untype(b)
    return sym_eq(a, b)


def sx_ne(a, b):
    if isinstance(a, type) or isinstance(b, type):
        return _untype(a) != _untype(b)
    if type(a) in (list, tuple, dict, SymDict):
        return mk_not(sym_eq(a, b))
    if not isinstance(a, Sym) and type(a).__ne__ is object.__ne__ and "__eq__" in _mro_names(type(a)):
        r = a == b
        return mk_not(r)
    return a != b


def sx_merged(f):
    """Predicates without side effects are followed on all their branches and yield one term."""
    @functools.wraps(f)
    def merged(*args, **kw):
        eng = E.ENGINE
        if eng is None:
            return f(*args, **kw)
        loc = E.Local(eng.local, eng.spec)
        results = []
        eng.local = loc
        fresh = eng.fresh
        try:
            while True:
                r = f(*args, **kw)
                if r is not NotImplemented and not isinstance(r, (bool, SymBool)):
                    if not loc.trail:
                        return r
                    raise NeedFork()
                results.append((loc.conditions(), r))
                if not loc.advance():
                    break
                if len(results) >= loc.MAX_PATHS:
                    raise NeedFork()
        except (NeedFork, E.EngineLimit, Exception):
            results = None
        finally:
            eng.local = loc.outer
            eng.spec = loc.spec
        if results is None:
            if eng.local is not None or eng.spec:
                raise NeedFork()
            eng.fresh = fresh
            return f(*args, **kw)
        if len(results) == 1:
            return results[0][1]
        if any(r is NotImplemented for _, r in results):
            if all(r is NotImplemented for _, r in results):
                return NotImplemented
            if eng.local is not None or eng.spec:
                raise NeedFork()
            return f(*args, **kw)
        return V.mk_bool(z3.simplify(z3.Or([z3.And(c + [V.bterm(r)]) for c, r in results])))
    return merged


_MRO = {}


def _mro_names(t):
    r = _MRO.get(t)
    if r is None:
        r = set()
        for k in t.__mro__:
            if k is not object:
                r.update(k.__dict__)
        _MRO[t] = r
    return r


def sx_in(x, c):
    if isinstance(c, SymEnum):
        return c.contains(x)
    if isinstance(c, enum.Flag) and isinstance(x, SymEnum):
        return SymEnum(x.cls, V.to_sym(c.value)).contains(x) if x.cls is type(c) else x in c
    if has_sym(x):
        if isinstance(c, range):
            if isinstance(x, (SymInt, SymBool)):
                if len(c) == 0:
                    return False
                lo, hi = min(c[0], c[-1]), max(c[0], c[-1])
                st = abs(c.step)
                r = [x >= lo, x <= hi]
                if st != 1:
                    r.append((x - lo) % st == 0)
                return sym_and(r)
        elif isinstance(c, (list, tuple, set, frozenset, dict)) and not isinstance(c, (SymDict, SymSet)):
            if isinstance(x, SymInt) and len(c) > 8 and all(type(y) is int for y in c):
                return V.among(x, set(c))
            return sym_or([sx_eq(x, y) for y in c])
        elif isinstance(c, (SymSet, SymDict)):
            if isinstance(c, SymDict) and V._table(c, x):
                return V.among(x, dict.keys(c))
            return sym_or([sx_eq(x, y) for y in V.raw(c)])
        elif type(c) in (type({}.keys()), type({}.values())):
            return sym_or([sx_eq(x, y) for y in c])
    elif type(c) in (list, tuple) and any(isinstance(y, Sym) for y in c):
        return sym_or([sx_eq(x, y) for y in c])
    return x in c


def sx_notin(x, c):
    return mk_not(sx_in(x, c))


def sx_item(c, i):
    """c[i] with an index that is not an ordinary number."""
    if isinstance(i, (SymInt, SymZ)) and type(c) in (list, tuple, str) and i.lo >= 0:
        n = len(c)
        if i.hi >= n and V._truth(i >= n):
            raise IndexError("%s index out of range" % type(c).__name__)

        def bad():
            raise IndexError("%s index out of range" % type(c).__name__)
        return V.select(i, list(enumerate(c)), bad)
    return c[i]


def sx_is(a, b):
    if isinstance(a, SymBool) and isinstance(b, bool) or isinstance(b, SymBool) and isinstance(a, bool):
        return a == b
    if isinstance(a, SymBool) and isinstance(b, SymBool):
        return a == b
    if isinstance(a, SymEnum) or isinstance(b, SymEnum):
        if isinstance(a, (SymEnum, enum.Enum)) and isinstance(b, (SymEnum, enum.Enum)):
            return a == b
        return False
    if isinstance(a, type) and isinstance(b, type):
        return _untype(a) is _untype(b)
    return a is b


def sx_isnot(a, b):
    return mk_not(sx_is(a, b))


# ------------------------------------------------------------------ type stand-ins
class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt, SymZ, SymBool))

    def __subclasscheck__(cls, c):
        return issubclass(_untype(c), int)


class xint(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a, **k):
        if not a and not k:
            if isinstance(x, (SymInt, SymZ)):
                return x
            if isinstance(x, SymBool):
                return x.as_int()
            if isinstance(x, SymFloat):
                return x.__trunc__()
            if isinstance(x, SymEnum):
                return x.v
            if isinstance(x, SymStr):
                if len(x.segs) == 1 and isinstance(x.segs[0], tuple) and x.segs[0][1] in ("", "d"):
                    return x.segs[0][0]
        if isinstance(x, (SymStr, SymBytes, SymByteArray)):
            x = x.conc()
        return int(x, *a, **k)

    @staticmethod
    def from_bytes(b, byteorder="big", *, signed=False):
        if isinstance(b, SymByteArray):
            b = b.b
        if isinstance(b, SymBytes):
            b = b.lst()
        elif isinstance(b, (bytes, bytearray)):
            return int.from_bytes(b, byteorder, signed=signed)
        else:
            b = list(b)
        if byteorder == "big":
            b = b[::-1]
        return _compose(b, signed)


def _compose(le, signed):
    """Integer from little-endian byte values."""
    if all(isinstance(x, int) for x in le):
        return int.from_bytes(bytes(le), "little", signed=signed)
    n = len(le)
    if not signed and any(isinstance(x, int) for x in le):
        # known bytes become an offset, so that times at known distances stay comparable
        known = sum(x << (8 * i) for i, x in enumerate(le) if isinstance(x, int))
        total, i = known, 0
        while i < n:
            j = i
            while j < n and not isinstance(le[j], int):
                j += 1
            if j > i:
                total = total + _compose(le[i:j], False) * (1 << (8 * i))
            i = j + 1
        return total
    if n == 1 and isinstance(le[0], SymInt) and not signed and 0 <= le[0].lo and le[0].hi <= 255:
        return le[0]
    parts = []
    for x in reversed(le):
        s = V.to_sym(x)
        parts.append(z3.Extract(7, 0, V.resize(s.t, max(9, s.t.size()))))
    t = parts[0] if n == 1 else z3.Concat(*parts)
    if signed:
        return V.mk_int(t, -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
    return V.mk_int(z3.ZeroExt(1, t), 0, (1 << (8 * n)) - 1)


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SymBool))


class xbool(metaclass=_BoolMeta):
    def __new__(cls, x=False):
        if isinstance(x, SymBool):
            return x
        if isinstance(x, (SymInt, SymZ, SymFloat)):
            return x != 0
        if isinstance(x, SymEnum) and issubclass(x.cls, (enum.Flag, enum.IntEnum)):
            return x.v != 0
        if isinstance(x, SymBytes):
            return x.length != 0
        return bool(x)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SymFloat))


class xfloat(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, (SymInt, SymZ, SymBool, SymFloat)):
            return SymFloat.of(x)
        return float(x)


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (str, SymStr))

    def __subclasscheck__(cls, c):
        return issubclass(_untype(c), str)


class xstr(str, metaclass=_StrMeta):
    def __new__(cls, *a, **k):
        if len(a) == 1 and not k:
            return to_text(a[0])
        return str(*a, **k)


class _BytesMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bytes, SymBytes, TextBytes))


class xbytes(bytes, metaclass=_BytesMeta):
    def __new__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = a[0]
            if isinstance(x, TextBytes):
                return x
            if isinstance(x, (SymBytes, SymByteArray)):
                return as_bytes(x)
            if isinstance(x, (list, tuple)) and any(isinstance(y, Sym) for y in x):
                return SymBytes.of_list(x)
        return bytes(*a, **k)


class _ByteArrayMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bytearray, SymByteArray))


class xbytearray(bytearray, metaclass=_ByteArrayMeta):
    def __new__(cls, *a, **k):
        return SymByteArray(*a, **k)

    fromhex = staticmethod(SymByteArray.fromhex)


_UN = {xbytearray: bytearray, xint: int, xbool: bool, xstr: str, xbytes: bytes, xfloat: float, SymDict: dict, SymSet: set}


def _untype(t):
    return _UN.get(t, t) if isinstance(t, type) else t


def sx_isinstance(x, t):
    if isinstance(t, tuple):
        return any(sx_isinstance(x, q) for q in t)
    t = _untype(t)
    if isinstance(x, Sym):
        if isinstance(x, (SymInt, SymZ)):
            return isinstance(0, t)
        if isinstance(x, SymBool):
            return isinstance(True, t)
        if isinstance(x, SymFloat):
            return isinstance(0.0, t)
        if isinstance(x, SymStr):
            return isinstance("", t)
        if isinstance(x, (SymBytes, TextBytes)):
            return isinstance(b"", t)
        if isinstance(x, SymByteArray):
            return isinstance(bytearray(), t)
        if isinstance(x, SymEnum):
            return issubclass(x.cls, t) if isinstance(t, type) else False
    if isinstance(x, SymFile):
        return t in (io.BytesIO, io.BufferedReader, io.IOBase, io.RawIOBase, io.BufferedIOBase, object)
    return isinstance(x, t)


def sx_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, (SymInt, SymZ)):
            return int
        if isinstance(x, SymBool):
            return bool
        if isinstance(x, SymStr):
            return str
        if isinstance(x, (SymBytes, TextBytes)):
            return bytes
        if isinstance(x, SymByteArray):
            return bytearray
        if isinstance(x, SymFloat):
            return float
        if isinstance(x, SymEnum):
            return x.cls
        return _untype(type(x))
    return type(*a)


def sx_ord(x):
    if isinstance(x, SymBytes):
        n = len(x) if x._list is not None else x.length
        if n != 1:
            raise TypeError("ord() expected a character")
        return x[0]
    return ord(x.conc() if isinstance(x, SymStr) else x)


def sx_len(x):
    if isinstance(x, SymBytes):
        return x.length
    if isinstance(x, SymByteArray):
        return x.symlen()
    if isinstance(x, SymStr):
        return len(x)
    return len(x)


def sx_range(*a):
    if not any(isinstance(x, Sym) for x in a):
        return range(*a)
    start, stop, step = 0, a[0], 1
    if len(a) >= 2:
        start, stop = a[0], a[1]
    if len(a) == 3:
        step = a[2]
    if isinstance(step, Sym):
        step = step.__index__()
    if step == 0:
        raise ValueError("range() arg 3 must not be zero")

    def gen():
        i = start
        while True:
            if not (bool(i < stop) if step > 0 else bool(i > stop)):
                return
            yield i
            i = i + step
    return gen()


DEVNULL = [None]            # the stream that stands for standard output while paths are explored


def sx_print(*a, sep=" ", end="\n", file=None, flush=False):
    if file is None and type(sys.stdout) in (StringOut, TextOut):
        file = sys.stdout
    if file is None:
        if sys.stdout is not DEVNULL[0] and not any(isinstance(x, Sym) for x in a):
            print(*a, sep=sep, end=end, flush=flush)
        return None
    parts = []
    for i, x in enumerate(a):
        if i:
            parts.append(" " if sep is None else sep)
        parts.append(to_text(x))
    parts.append("\n" if end is None else end)
    text = SymStr.make([q for q in parts if isinstance(q, SymStr) or q])
    file.write(text)
    return None


class CsvWriter:
    """csv.writer with the default dialect's quoting, for symbolic text."""

    def __init__(self, out, dialect="excel", **k):
        if dialect not in ("excel", "unix") or set(k) - {"delimiter", "lineterminator", "quotechar"}:
            raise EngineLimit("csv.writer options")
        self.out = out
        self.delimiter = k.get("delimiter", ",")
        self.end = k.get("lineterminator", "\r\n")
        self.quote = k.get("quotechar", '"')
        if dialect != "excel":
            raise EngineLimit("csv.writer dialect")

    def field(self, x):
        t = "" if x is None else to_text(x)
        lit = "".join(q for q in t.segs if isinstance(q, str)) if isinstance(t, SymStr) else t
        if any(c in lit for c in (self.delimiter, self.quote, "\n", "\r")):
            if isinstance(t, SymStr):
                raise EngineLimit("csv quoting of symbolic text")
            return self.quote + t.replace(self.quote, self.quote * 2) + self.quote
        return t

    def writerow(self, row):
        parts = []
        row = list(row)
        for i, x in enumerate(row):
            if i:
                parts.append(self.delimiter)
            parts.append(self.field(x))
        if len(row) == 1 and isinstance(parts[0], str) and parts[0] == "":
            parts[0] = self.quote * 2
        parts.append(self.end)
        self.out.write(SymStr.make([q for q in parts if isinstance(q, SymStr) or q]))

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


class StringOut:
    """io.StringIO used for building text."""

    def __init__(self, initial=None, newline="\n"):
        if initial:
            raise EngineLimit("io.StringIO with contents")
        self.parts = []
        self.closed = False

    @property
    def buffer(self):
        if not self.std:
            raise AttributeError("buffer")
        return StdBytes(self)

    std = False

    def write(self, s):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if not isinstance(s, (str, SymStr)):
            raise TypeError("string argument expected")
        self.parts.append(s)
        return 0

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def getvalue(self):
        return SymStr.make([q for q in self.parts if isinstance(q, SymStr) or q])

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def path_write_text(self, data, *a, **k):
    with sx_open(self, "w") as f:
        f.write(data)


def path_write_bytes(self, data):
    with sx_open(self, "wb") as f:
        f.write(data)


def sx_abs(x):
    return abs(x)


def sx_sum(it, start=0):
    r = start
    for x in V.raw(it):
        r = r + x
    return r


def _key(k):
    return (lambda x: x) if k is None else k


class SymHash(Sym, int):
    """hash(v) as a value: equal exactly when the hashed values are (collisions aside).  Python itself
    sees a constant: admissible for any equality, and the same for symbolic and ordinary values."""

    def __new__(cls, v):
        h = int.__new__(cls, 0x5EED)
        h.v = v
        return h

    def __eq__(self, o):
        if isinstance(o, SymHash):
            return sym_eq(self.v, o.v)
        if isinstance(o, int):
            return self.conc() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_not(r)

    def conc(self):
        return hash(self.v)

    __index__ = __int__ = conc

    def __hash__(self):
        return 0x5EED


def sx_hash(x):
    if isinstance(x, (SymInt, SymZ)) and x.lo >= 0:
        return x
    if isinstance(x, (Sym, tuple)):
        return SymHash(x)
    raw = getattr(type(x).__hash__, "_sx_raw", None)
    return raw(x) if raw is not None else hash(x)


def sx_dunder(f):
    """Special methods that Python itself calls and whose answers it wants as ordinary values."""
    name = f.__name__

    @functools.wraps(f)
    def special(self):
        r = f(self)
        if name == "__hash__":
            return 0x5EED if isinstance(r, (Sym, int)) else r
        if isinstance(r, SymBool):
            return bool(r)
        if isinstance(r, Sym) and hasattr(r, "conc"):
            return r.conc()
        return r
    special._sx_raw = f
    return special


def sx_min(*a, **k):
    return _minmax(min, lambda x, y: x < y, a, k)


def sx_max(*a, **k):
    return _minmax(max, lambda x, y: x > y, a, k)


def _minmax(native, better, a, k):
    items = list(V.raw(a[0])) if len(a) == 1 else list(a)
    key = k.get("key")
    if not items or key is not None or not any(isinstance(x, Sym) for x in items):
        return native(items, **k) if len(a) == 1 else native(*items, **k)
    if all(V.is_intlike(x) for x in items):
        r = items[0]
        for x in items[1:]:
            r = ite(better(x, r), x, r)
        return r
    return native(items, **k)


def sx_any(it):
    acc = []
    for x in V.raw(it):
        if isinstance(x, SymBool):
            acc.append(x)
        elif x:
            return True
    return sym_or(acc)


def sx_all(it):
    acc = []
    for x in V.raw(it):
        if isinstance(x, SymBool):
            acc.append(x)
        elif not x:
            return False
    return sym_and(acc)


# ------------------------------------------------------------------ text
def to_text(x):
    if isinstance(x, SymStr):
        return x
    if isinstance(x, (SymInt, SymZ)):
        return SymStr(((x, ""),))
    if isinstance(x, Sym):
        return str(x)
    t = type(x)
    if t.__str__ is not object.__str__ and isinstance(getattr(t, "__str__", None), types.FunctionType):
        return t.__str__(x)
    if isinstance(getattr(t, "__repr__", None), types.FunctionType) and t.__str__ is object.__str__:
        return t.__repr__(x)
    if t in (list, tuple) and any(has_sym(y) for y in x):
        out = ["[" if t is list else "("]
        for i, y in enumerate(x):
            out.append(", " if i else "")
            out.append(to_repr(y))
        out.append("]" if t is list else ",)" if len(x) == 1 else ")")
        return SymStr.make(out)
    return str(x)


def to_repr(x):
    if isinstance(x, (SymInt, SymZ)):
        return SymStr(((x, ""),))
    if isinstance(x, Sym):
        return repr(x.conc()) if hasattr(x, "conc") else repr(bool(x))
    return repr(x)


def fmt(x, spec):
    if isinstance(spec, SymStr):
        spec = spec.conc()
    if isinstance(x, (SymInt, SymZ)):
        if spec and spec[-1] in "eEfFgG%":
            return SymStr(((SymFloat.of(x), spec),))
        if spec == "d":
            spec = ""
        if isinstance(x, SymInt) or spec == "":
            return SymStr(((x, spec),))
        return format(x.conc(), spec)
    if isinstance(x, SymFloat):
        return SymStr(((x, spec),))
    if isinstance(x, Sym):
        if isinstance(x, SymStr) and not spec:
            return x
        return format(x.conc() if hasattr(x, "conc") else bool(x), spec)
    if not spec:
        t = type(x)
        if t.__format__ is object.__format__:
            return to_text(x)
    return format(x, spec)


def sx_fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if conv == 115:
                v = to_text(v)
            elif conv == 114:
                v = to_repr(v)
            elif conv == 97:
                v = ascii(v.conc() if hasattr(v, "conc") else v)
            out.append(fmt(v, spec))
        else:
            out.append(p)
    return SymStr.make(out)


def str_format(s, args, kw):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        first, rest = __import__("_string").formatter_field_name_split(field)
        if first == "":
            v = args[auto]
            auto += 1
        elif isinstance(first, int):
            v = args[first]
        else:
            v = kw[first]
        for is_attr, i in rest:
            v = getattr(v, i) if is_attr else v[i]
        if spec and "{" in spec:
            sub = []
            for l2, f2, s2, c2 in string.Formatter().parse(spec):
                sub.append(l2)
                if f2 is not None:
                    if f2 == "":
                        sub.append(to_text(args[auto]))
                        auto += 1
                    elif f2.isdigit():
                        sub.append(to_text(args[int(f2)]))
                    else:
                        sub.append(to_text(kw[f2]))
            spec = SymStr.make(sub)
        if conv == "s":
            v = to_text(v)
        elif conv == "r":
            v = to_repr(v)
        out.append(fmt(v, spec or ""))
    return SymStr.make(out)


def sx_mod(a, b):
    if isinstance(a, str):
        return percent(a, b)
    return a % b


_PCT = __import__("re").compile(r"%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?([diouxXeEfFgGcrsa%])")


def percent(s, b):
    if not (has_sym(b) or (isinstance(b, tuple) and any(_textsym(x) for x in b)) or
            (isinstance(b, dict) and any(_textsym(x) for x in b.values())) or _textsym(b)):
        return s % b
    args = b if isinstance(b, tuple) else (b,)
    out, pos, i = [], 0, 0
    for m in _PCT.finditer(s):
        out.append(s[pos:m.start()])
        pos = m.end()
        if m.group(5) == "%":
            out.append("%")
            continue
        if m.group(1):
            v = b[m.group(1)]
        else:
            v = args[i]
            i += 1
        c = m.group(5)
        flags, w, pr = m.group(2), m.group(3) or "", m.group(4)
        if c in "diuxX" and isinstance(v, SymInt) and pr is None and "#" not in flags and "-" not in flags:
            spec = ("0" if "0" in flags else "") + w + ({"i": "d", "u": "d"}.get(c, c) if (w or c in "xX") else "")
            out.append(fmt(v, spec))
        elif c == "s" and not w and pr is None:
            out.append(to_text(v))
        else:
            out.append(("%" + flags + w + ("." + pr if pr else "") + c) % (v.conc() if hasattr(v, "conc") else v,))
    out.append(s[pos:])
    return SymStr.make(out)


def _textsym(x):
    return has_sym(x) or isinstance(x, SymStr)


# ------------------------------------------------------------------ struct
def _struct_fields(fmt_):
    if isinstance(fmt_, bytes):
        fmt_ = fmt_.decode()
    pre = ""
    body = fmt_
    if body and body[0] in "<>=!@":
        pre, body = body[0], body[1:]
    fields = []
    i = 0
    done = ""
    while i < len(body):
        c = body[i]
        if c.isspace():
            i += 1
            continue
        j = i
        while j < len(body) and body[j].isdigit():
            j += 1
        n = int(body[i:j]) if j > i else 1
        code = body[j]
        i = j + 1
        if code == "s":
            end = struct.calcsize(pre + done + "%ds" % n)
            fields.append(("s", end - n, n))
            done += "%ds" % n
        else:
            for _ in range(n):
                done += code
                end = struct.calcsize(pre + done)
                size = struct.calcsize((pre or "@") + code)
                if code != "x":
                    fields.append((code, end - size, size))
    import sys
    big = pre in (">", "!") or (pre in ("", "@", "=") and sys.byteorder == "big")
    return fields, struct.calcsize(fmt_), big


def struct_pack(fmt_, *args):
    if not any(isinstance(x, Sym) for x in args):
        return struct.pack(fmt_, *args)
    fields, size, big = _struct_fields(fmt_)
    if len(fields) != len(args):
        raise struct.error("pack expected %d items for packing (got %d)" % (len(fields), len(args)))
    out = [0] * size
    for (code, off, n), x in zip(fields, args):
        if code == "s":
            bs = list(as_bytes(x))[:n]
            bs += [0] * (n - len(bs))
        elif code == "c":
            bs = list(as_bytes(x))
            if len(bs) != 1:
                raise struct.error("char format requires a bytes object of length 1")
        elif code == "?":
            bs = [V.ite(x != 0, 1, 0)]
        elif code in "bBhHiIlLqQnN":
            if not V.is_intlike(x):
                raise struct.error("required argument is not an integer")
            try:
                bs = list(V.int_to_bytes(x, n, "big" if big else "little", code.islower()))
            except OverflowError:
                raise struct.error("'%s' format requires a smaller or larger number" % code)
        else:
            raise EngineLimit("struct code " + code)
        out[off:off + n] = bs
    return SymBytes.of_list(out)


def struct_unpack(fmt_, buf):
    if isinstance(buf, SymByteArray):
        buf = buf.b
    if not isinstance(buf, SymBytes):
        return struct.unpack(fmt_, buf)
    fields, size, big = _struct_fields(fmt_)
    if bool(buf.length != size):
        raise struct.error("unpack requires a buffer of %d bytes" % size)
    return _unpack_at(fields, [buf.get(i) if buf._list is None else buf._list[i] for i in range(size)], big)


def _unpack_at(fields, data, big):
    out = []
    for code, off, size in fields:
        bs = data[off:off + size]
        if code == "s":
            out.append(SymBytes.of_list(bs))
            continue
        if code == "c":
            out.append(SymBytes.of_list(bs))
            continue
        if big:
            bs = bs[::-1]
        if code == "?":
            out.append(bs[0] != 0)
        elif code in "bhilqn":
            out.append(_compose(bs, True))
        elif code in "BHILQN":
            out.append(_compose(bs, False))
        else:
            raise EngineLimit("struct code " + code)
    return tuple(out)


def struct_unpack_from(fmt_, buf, offset=0):
    if isinstance(buf, SymByteArray):
        buf = buf.b
    if not isinstance(buf, SymBytes):
        return struct.unpack_from(fmt_, buf, offset)
    fields, size, big = _struct_fields(fmt_)
    if bool(buf.length < offset + size):
        raise struct.error("unpack_from requires a buffer of at least %d bytes" % size)
    return _unpack_at(fields, [buf.get(offset + i) for i in range(size)], big)


# ------------------------------------------------------------------ json
class JsonDoc(Sym):
    """Text of a JSON document, represented by the tree it denotes (a single rope segment)
    and the encoder that lays it out, for when the text itself is looked at."""
    __slots__ = ("tree", "enc", "flat")

    def __init__(self, tree, enc=None):
        self.tree = tree
        self.enc = enc
        self.flat = None

    def rope(self):
        if self.flat is None:
            toks = {}
            e = self.enc
            opts = {} if e is None else {"indent": e.indent, "separators": (e.item_separator, e.key_separator), "sort_keys": e.sort_keys, "ensure_ascii": e.ensure_ascii}
            text = json.JSONEncoder(**opts).encode(json_sub(self.tree, toks, True))
            self.flat = tuple(toks.get(q, q) for q in re.split("(98310[0-9]{6}|@@j[0-9]+@)", text) if q)
        return self.flat


def json_sub(o, toks, quoted):
    """The tree with symbolic leaves replaced by unique numbers and words."""
    if isinstance(o, SymBool):
        return bool(o)
    if isinstance(o, (SymInt, SymZ)):
        k = 98310000000 + len(toks)
        toks[str(k)] = (o, "d")
        return k
    if isinstance(o, SymStr):
        out = []
        for q in o.segs:
            if isinstance(q, str):
                out.append(q)
            elif isinstance(q, tuple):
                out.append("@@j%d@" % len(toks))
                toks[out[-1]] = q
            else:
                raise EngineLimit("text inside a JSON document")
        return "".join(out)
    if isinstance(o, SymFloat):
        raise EngineLimit("JSON text of a floating-point number")
    if isinstance(o, list):
        return [json_sub(x, toks, quoted) for x in o]
    if isinstance(o, dict):
        return {k: json_sub(v, toks, quoted) for k, v in o.items()}
    return o


def json_parse(t):
    """The value a JSON text with symbolic parts denotes."""
    if not isinstance(t, SymStr):
        return json.loads(t)
    toks, parts = {}, []
    for q in t.segs:
        if isinstance(q, str):
            parts.append(q)
        else:
            k = str(98310000000 + len(toks))
            toks[k] = q
            parts.append(k)

    def number(s):
        q = toks.get(s)
        if q is None:
            if "98310" in s:
                raise EngineLimit("JSON number next to other digits")
            return int(s)
        if isinstance(q, JsonDoc):
            return q.tree
        if not (isinstance(q, tuple) and q[1] in ("", "d")):
            raise EngineLimit("JSON number of another format")
        return q[0]

    def strings(o):
        if isinstance(o, str) and "98310" in o:
            if any(isinstance(toks[q], JsonDoc) for q in re.findall("98310[0-9]{6}", o) if q in toks):
                raise EngineLimit("JSON document inside a text")
            return SymStr.make([SymStr((toks[q],)) if q in toks else q for q in re.split("(98310[0-9]{6})", o) if q])
        if isinstance(o, list):
            return [strings(x) for x in o]
        if isinstance(o, dict):
            return {k: strings(v) for k, v in o.items()}
        return o
    return strings(json.loads("".join(parts), parse_int=number))


def json_loads(s, **kw):
    if isinstance(s, TextBytes):
        s = s.rope
    if isinstance(s, SymStr):
        if any(v is not None for v in kw.values()):
            raise EngineLimit("json.loads options")
        return json_parse(s)
    return json.loads(s, **kw)


class TextBytes(Sym):
    """The bytes of a text with symbolic parts."""
    __slots__ = ("rope",)

    def __init__(self, rope):
        self.rope = rope

    def conc(self):
        return str(self.rope if isinstance(self.rope, str) else self.rope.conc()).encode()

    @staticmethod
    def text(b):
        return b.rope if isinstance(b, TextBytes) else bytes(b).decode("utf-8")

    def decode(self, *a, **k):
        return self.rope

    def __add__(self, o):
        return TextBytes(SymStr.make([self.rope, TextBytes.text(o)]))

    def __radd__(self, o):
        return TextBytes(SymStr.make([TextBytes.text(o), self.rope]))

    def __len__(self):
        return len(self.conc())

    def __bytes__(self):
        return self.conc()

    def __eq__(self, o):
        return self.rope == TextBytes.text(o) if isinstance(o, (TextBytes, bytes, bytearray)) else NotImplemented

    def __hash__(self):
        return hash(self.conc())

    def __getattr__(self, name):
        return getattr(self.conc(), name)


V.TEXT_BYTES[0] = TextBytes


def on_disk(b):
    """Bytes with tokens for the symbolic parts."""
    if not isinstance(b, TextBytes):
        return b
    t = b.rope
    return "".join(q if isinstance(q, str) else TOKENS.put(SymStr((q,))) for q in (t.segs if isinstance(t, SymStr) else (t,))).encode()


class BinOut(io.BufferedWriter):
    def write(self, b):
        return super().write(on_disk(b))


class BinInOut(io.BufferedRandom):
    def write(self, b):
        return super().write(on_disk(b))


class StdBytes:
    """sys.stdout.buffer."""

    def __init__(self, out):
        self.out = out

    closed = property(lambda self: self.out.closed)

    def write(self, b):
        if not isinstance(b, (bytes, bytearray, memoryview, TextBytes)):
            raise TypeError("a bytes-like object is required, not %r" % type(b).__name__)
        self.out.write(TextBytes.text(b))
        return len(b) if not isinstance(b, TextBytes) else 0

    def writelines(self, bs):
        for b in bs:
            self.write(b)

    def flush(self):
        pass

    def close(self):
        self.out.close()

    def readable(self):
        return False

    def writable(self):
        return True

    def isatty(self):
        return False


def json_tree(o, default):
    if o is None or isinstance(o, (bool, int, float, str, SymInt, SymZ, SymBool, SymStr, SymFloat)) and not isinstance(o, enum.Enum):
        return o
    if isinstance(o, enum.IntEnum):
        return o.value
    if isinstance(o, (list, tuple)):
        return [json_tree(x, default) for x in o]
    if isinstance(o, dict):
        return {k if isinstance(k, str) else json.dumps(k): json_tree(v, default) for k, v in o.items()}
    if isinstance(o, SymEnum) and issubclass(o.cls, int):
        return o.v
    return json_tree(default(o), default)


def json_dumps(obj, *, cls=None, default=None, **kw):
    enc = (cls or json.JSONEncoder)(**({"default": default} if default else {}), **kw)
    tree = json_tree(obj, enc.default)
    return SymStr((JsonDoc(tree, enc),))


def json_encode(self, obj):
    return SymStr((JsonDoc(json_tree(obj, self.default), self),))


def json_dump(obj, fp, *, cls=None, default=None, **kw):
    fp.write(json_dumps(obj, cls=cls, default=default, **kw))


# ------------------------------------------------------------------ files
class TextOut:
    """Text file opened for writing inside the scratch directory; accepts symbolic text.
    When it is closed its text goes to the real file, with tokens for the symbolic parts."""

    def __init__(self, path, mode, encoding=None):
        self.path = path
        self.name = path
        self.mode = mode
        self.encoding = encoding or "utf-8"
        self.parts = []
        self.closed = False
        old = FILES.pop(path, None)
        if old is not None and not old.closed:
            old.sync()
        self.out = builtins.open(path, mode if "b" in mode else mode.replace("t", "") + "b")
        FILES[path] = self

    def write(self, s):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if not isinstance(s, (str, SymStr)):
            raise TypeError("write() argument must be str, not " + type(s).__name__)
        if isinstance(s, str) and not s.isascii():
            s.encode(self.encoding)
        self.parts.append(s)
        return len(s) if isinstance(s, str) else 0

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def sync(self):
        parts, self.parts = self.parts, []
        t = SymStr.make(parts)
        t = t if isinstance(t, str) else "".join(q if isinstance(q, str) else TOKENS.put(SymStr((q,))) for q in t.segs)
        self.out.write(t.encode(self.encoding))
        self.out.flush()

    def flush(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        self.sync()

    errors, newlines, line_buffering, write_through = "strict", None, False, False

    def writable(self):
        return True

    def readable(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        return False

    isatty = readable

    def seekable(self):
        return self.out.seekable()

    def read(self, *a):
        raise io.UnsupportedOperation("not readable")

    readline = readlines = __next__ = read

    def __iter__(self):
        return self

    def fileno(self):
        return self.out.fileno()

    @property
    def buffer(self):
        self.sync()
        return self.out

    def tell(self):
        self.flush()
        return self.out.tell()

    def seek(self, *a):
        self.flush()
        return self.out.seek(*a)

    def truncate(self, *a):
        self.flush()
        return self.out.truncate(*a)

    def close(self):
        if not self.closed:
            self.sync()
            self.out.close()
            self.closed = True
            if FILES.get(self.path) is self:
                del FILES[self.path]

    def __enter__(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        return self

    def __exit__(self, *a):
        self.close()
        return False


def file_text(path):
    """What a file holds, with the symbolic parts put back."""
    if path in FILES:
        FILES[path].sync()
    with builtins.open(path, "rb") as f:
        t = f.read().decode("utf-8")
    if "\u2045tok" not in t:
        return t
    return SymStr.make([TOKENS.strs.get(q, q) for q in re.split("(\u2045tok[0-9]+\u2046)", t)])


FILES = {}
OPENED = {}          # path -> number of times opened, through the hooked open()
MOUNTS = {}          # path -> SymFile served when the code opens that path for reading


def sx_open(path, mode="r", *a, **k):
    if isinstance(path, SymStr):
        path = path.conc()
    p = os.fspath(path) if not isinstance(path, int) else path
    sc = SCRATCH[0]
    if isinstance(p, str) and sc and os.path.abspath(p).startswith(sc + os.sep):
        q = os.path.abspath(p)
        OPENED.setdefault(q, []).append(mode)
        if q in MOUNTS and "r" in mode:
            f = MOUNTS[q]()
            f.name = p
            return f
        if "b" not in mode and ("w" in mode or "a" in mode or "x" in mode) and "+" not in mode:
            return TextOut(q, mode, k.get("encoding"))
        if q in FILES:
            FILES[q].sync()
        if "r" in mode and TOKENS.strs and os.path.isfile(q):
            with builtins.open(q, "rb") as f:
                if b"\xe2\x81\x85tok" in f.read():
                    raise EngineLimit("symbolic text read back")
        if mode.replace("b", "", 1) in ("w", "a", "x") and not a and not k:
            return BinOut(io.FileIO(p, mode.replace("b", "")))
        if "b" in mode and mode.replace("b", "", 1) in ("w+", "a+", "x+", "r+") and not a and not k:
            return BinInOut(io.FileIO(p, mode.replace("b", "")))
        return builtins.open(p, mode, *a, **k)
    if isinstance(mode, str) and any(c in mode for c in "wax+"):
        raise EngineLimit("write outside the scratch directory: %r" % (p,))
    return builtins.open(p, mode, *a, **k)


# gzip: contract stub.  GZ maps id(SymFile) -> function(pos) giving the decompressed SymFile.
GZ = {}


def gz_open(filename, mode="rb", *a, **k):
    if isinstance(filename, SymFile):
        h = GZ.get(id(filename))
        if h is None:
            raise EngineLimit("gzip.open of an unregistered symbolic file")
        return h(filename)
    return gzip.open(filename, mode, *a, **k)


def gz_file(filename=None, mode=None, compresslevel=9, fileobj=None, mtime=None):
    if isinstance(fileobj, SymFile):
        return gz_open(fileobj)
    return gzip.GzipFile(filename, mode, compresslevel, fileobj, mtime)


class GzData(Exception):
    pass


def gz_decompress(data):
    data = as_bytes(data)
    if isinstance(data, SymBytes):
        for fid, h in GZ.items():
            f = h.source
            if data.length is f.length or (isinstance(data.length, int) and data.length == f.length):
                return h(f, whole=True).getvalue()
        raise EngineLimit("gzip.decompress of symbolic bytes")
    return gzip.decompress(data)


def _zsource(data):
    for h in GZ.values():
        f = h.source
        if data.length is f.length or (isinstance(data.length, int) and data.length == f.length):
            return h
    raise EngineLimit("zlib decompression of symbolic bytes")


def z_decompress(data, wbits=15, bufsize=16384):
    """zlib stops at the end of the first member of a gzip file."""
    data = as_bytes(data)
    if isinstance(data, SymBytes):
        if wbits not in (31, 47):
            raise EngineLimit("zlib decompression with other window bits")
        return _zsource(data).first()
    return zlib.decompress(data, wbits, bufsize)


class ZObj:
    def __init__(self, *a, **k):
        self._a, self._k = a, k
        self._o = zlib.decompressobj(*a, **k)

    def decompress(self, data, *a):
        data = as_bytes(data)
        if isinstance(data, SymBytes):
            if a:
                raise EngineLimit("zlib decompression with a limit")
            return z_decompress(data, *self._a, **self._k)
        return self._o.decompress(data, *a)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self._o, n)


def bytes_io(initial=b""):
    initial = as_bytes(initial)
    if isinstance(initial, SymBytes):
        if initial._list is not None:
            return SymFile(initial._list, len(initial._list))
        return SymFile(initial.get, initial.length)
    return io.BytesIO(initial)


# ------------------------------------------------------------------ tokens for xsdata
class Tokens:
    def __init__(self):
        self.strs = {}
        self.n = 0

    def put(self, v):
        self.n += 1
        if isinstance(v, SymBool):
            raise EngineLimit("boolean token")
        if isinstance(v, (SymInt, SymZ)):
            k = 7310000000000 + self.n
            self.strs[str(k)] = v
            return k
        k = "\u2045tok%d\u2046" % self.n
        self.strs[k] = v
        return k


TOKENS = Tokens()


def tokenize(o, memo):
    """Copy of a dataclass tree with symbolic leaves replaced by unique opaque tokens."""
    import dataclasses
    if isinstance(o, SymBool):
        return bool(o)
    if isinstance(o, SymFloat):
        return o.exact()
    if isinstance(o, SymEnum):
        return o.conc()
    if isinstance(o, (SymInt, SymZ)):
        return TOKENS.put(o)
    if isinstance(o, SymStr):
        return TOKENS.put(o)
    if isinstance(o, (list, tuple)):
        return type(o)(tokenize(x, memo) for x in o)
    if dataclasses.is_dataclass(o) and not isinstance(o, type):
        if id(o) in memo:
            return memo[id(o)][1]
        c = copy.copy(o)
        memo[id(o)] = (o, c)
        for f in dataclasses.fields(o):
            v = getattr(o, f.name)
            n = tokenize(v, memo)
            if n is not v:
                object.__setattr__(c, f.name, n)
        return c
    return o


def xml_render(self, obj, *a, **k):
    return type(self).render(self, tokenize(obj, {}), *a, **k)


def xml_write(self, out, obj, *a, **k):
    return type(self).write(self, out, tokenize(obj, {}), *a, **k)


# ------------------------------------------------------------------ calls
MODELS = {}
METHODS = {}


def _setup():
    MODELS.update({
        struct.unpack: struct_unpack,
        struct.pack: struct_pack,
        struct.unpack_from: struct_unpack_from,
        json.dumps: json_dumps,
        json.dump: json_dump,
        json.loads: json_loads,
        gzip.open: gz_open,
        gzip.GzipFile: gz_file,
        gzip.decompress: gz_decompress,
        zlib.decompress: z_decompress,
        zlib.decompressobj: ZObj,
        io.BytesIO: bytes_io,
        builtins.open: sx_open,
        builtins.type: sx_type,
        builtins.ord: sx_ord,
        builtins.chr: lambda x: chr(x.conc() if isinstance(x, Sym) else x),
        csv.writer: CsvWriter,
        io.StringIO: StringOut,
        collections.defaultdict: V.SymDefaultDict,
        collections.OrderedDict: SymDict,
        int.from_bytes: xint.from_bytes,
        math_floor: lambda x: x.__floor__() if isinstance(x, Sym) else math_floor(x),
        math_ceil: lambda x: x.__ceil__() if isinstance(x, Sym) else math_ceil(x),
        math_trunc: lambda x: x.__trunc__() if isinstance(x, Sym) else math_trunc(x),
        builtins.hex: lambda x: SymStr(("0x", (x, "x"))) if isinstance(x, SymInt) and x.lo >= 0 else hex(x),
        builtins.format: lambda x, s="": fmt(x, s),
        builtins.sorted: lambda it, **k: sorted(V.raw(it), **k),
        list: lambda *a: V.SymList.of_set(a[0]) if len(a) == 1 and isinstance(a[0], SymSet) and a[0]._nsym else list(*a),
    })
    METHODS[json.JSONEncoder.encode] = json_encode
    METHODS[json.JSONEncoder.iterencode] = lambda self, o, _one_shot=False: iter([json_encode(self, o)])
    METHODS[pathlib.Path.open] = lambda self, mode="r", *a, **k: sx_open(self, mode)
    METHODS[pathlib.Path.write_text] = path_write_text
    METHODS[pathlib.Path.write_bytes] = path_write_bytes
    try:
        from xsdata.formats.dataclass.serializers import XmlSerializer
        METHODS[XmlSerializer.render] = xml_render
        METHODS[XmlSerializer.write] = xml_write
    except ImportError:
        pass


import math as _m
math_floor, math_ceil, math_trunc = _m.floor, _m.ceil, _m.trunc
_BUILTIN = types.BuiltinFunctionType
_CONC_MODULES = {"math", "zlib", "binascii", "time", "_struct", "struct", "_io", "posix", "itertools_"}


def sx_call(f, *args, **kw):
    t = type(f)
    if E.ENGINE is not None and E.ENGINE.local is not None and getattr(f, "__name__", None) in EFFECTS:
        raise NeedFork()
    if t is types.MethodType:
        m = METHODS.get(f.__func__)
        if m is not None:
            return m(f.__self__, *args, **kw)
        return f(*args, **kw)
    if t is types.FunctionType:
        m = MODELS.get(f)
        if m is not None:
            return m(*args, **kw)
        return f(*args, **kw)
    if t is _BUILTIN:
        m = MODELS.get(f) if f.__module__ is not None else None
        if m is not None:
            return m(*args, **kw)
        s = f.__self__
        if isinstance(s, str):
            n = f.__name__
            if n == "format":
                return str_format(s, args, kw)
            if n == "join" and len(args) == 1:
                items = list(args[0])
                if any(isinstance(x, SymStr) for x in items):
                    return SymStr((s,)).join(items) if s else SymStr.make(items)
                return s.join(items)
            if any(isinstance(x, Sym) for x in args):
                return f(*[x.conc() if hasattr(x, "conc") else x for x in args], **kw)
        elif isinstance(s, (bytes, bytearray)):
            if f.__name__ == "join" and len(args) == 1:
                items = list(args[0])
                if any(isinstance(x, (SymBytes, SymByteArray)) for x in items):
                    out = []
                    for i, x in enumerate(items):
                        if i:
                            out.extend(s)
                        out.extend(list(x))
                    return SymBytes.of_list(out)
                return f(items)
            if any(isinstance(x, (SymBytes, SymByteArray)) for x in args):
                return f(*[x.conc() if isinstance(x, (SymBytes, SymByteArray)) else x for x in args], **kw)
        elif f.__module__ in _CONC_MODULES or isinstance(s, struct.Struct):
            if isinstance(s, struct.Struct):
                if f.__name__ == "pack":
                    return struct_pack(s.format, *args)
                if f.__name__ == "unpack":
                    return struct_unpack(s.format, *args)
                if f.__name__ == "unpack_from":
                    return struct_unpack_from(s.format, *args, **kw)
            if any(isinstance(x, Sym) for x in args):
                return f(*[x.conc() if hasattr(x, "conc") else x for x in args], **kw)
        return f(*args, **kw)
    if isinstance(f, type):
        if isinstance(f, enum.EnumMeta):
            if len(args) == 1 and isinstance(args[0], Sym):
                if isinstance(args[0], SymEnum):
                    return args[0]
                return SymEnum.make(f, args[0])
            return f(*args, **kw)
        if f is memoryview or f is io.BufferedReader:
            if len(args) == 1 and isinstance(args[0], (SymBytes, SymByteArray) if f is memoryview else SymFile):
                return args[0]
            return f(*args, **kw)
        m = MODELS.get(f) if f in (io.BytesIO, io.StringIO, gzip.GzipFile, type, list, collections.defaultdict, collections.OrderedDict) else None
        if m is not None:
            return m(*args, **kw)
    elif t is types.MethodDescriptorType and f.__objclass__ is str and args and f.__name__ in ("join", "format"):
        return sx_call(getattr(args[0], f.__name__), *args[1:], **kw)
    return f(*args, **kw)


def hooks():
    _setup()
    names = {"_sx_" + k: v for k, v in dict(
        enter=sx_enter, call=sx_call, fstr=sx_fstr, eq=sx_eq, ne=sx_ne, notin=sx_notin,
        isnot=sx_isnot, mod=sx_mod, item=sx_item, dict=SymDict, set=SymSet).items()}
    names["_sx_int"] = int
    names["_sx_merged"] = sx_merged
    names["_sx_dunder"] = sx_dunder
    names["_sx_pure"] = PURE
    names["_sx_and"] = sx_and
    names["_sx_or"] = sx_or
    names["_sx_not"] = sx_not
    names["_sx_in"] = sx_in
    names["_sx_is"] = sx_is
    b = dict(int=xint, bool=xbool, str=xstr, bytes=xbytes, bytearray=xbytearray, float=xfloat, isinstance=sx_isinstance, len=sx_len, range=sx_range,
             print=sx_print, set=SymSet, dict=SymDict, open=sx_open, sum=sx_sum, min=sx_min, max=sx_max,
             any=sx_any, all=sx_all, hash=sx_hash)
    return {"names": names, "builtins": b}

