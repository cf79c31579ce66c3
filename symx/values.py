"""Symbolic values.  Integers are bit-vector terms whose width always covers the tracked
value range, so Python's unbounded integers are modelled exactly (nothing ever wraps)."""
import builtins
import enum
import fractions
import math
import types
import re
import z3
from . import engine as E
from .engine import EngineLimit, NeedFork

_int, _bool, _str, _bytes, _isinstance, _len = int, bool, str, bytes, isinstance, len


def width(lo, hi):
    return max(_int(lo).bit_length() if lo >= 0 else (-lo - 1).bit_length(),
               _int(hi).bit_length() if hi >= 0 else (-hi - 1).bit_length()) + 1


def resize(t, w):
    s = t.size()
    if s == w:
        return t
    if s < w:
        return z3.SignExt(w - s, t)
    return z3.Extract(w - 1, 0, t)


class Sym:
    """Base of all symbolic proxies."""
    __slots__ = ()


class SymBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return E.ENGINE.decide(self.t)

    def __repr__(self):
        return "<symbool>"

    def as_int(self):
        return SymInt(z3.If(self.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __hash__(self):
        return hash(_bool(self))

    def __index__(self):
        return 1 if _bool(self) else 0

    __int__ = __index__

    def __float__(self):
        return 1.0 if _bool(self) else 0.0

    def __str__(self):
        return _str(_bool(self))

    def __format__(self, spec):
        return format(_bool(self), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __eq__(self, o):
        if o is self:
            return True
        if _isinstance(o, _bool):
            return self if o else mk_not(self)
        if _isinstance(o, SymBool):
            return mk_bool(self.t == o.t)
        if _isinstance(o, (_int, float, SymInt)):
            return self.as_int() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_not(r)

    def __and__(self, o):
        if _isinstance(o, _bool):
            return self if o else False
        if _isinstance(o, SymBool):
            return mk_bool(z3.And(self.t, o.t))
        return self.as_int() & o

    __rand__ = __and__

    def __or__(self, o):
        if _isinstance(o, _bool):
            return True if o else self
        if _isinstance(o, SymBool):
            return mk_bool(z3.Or(self.t, o.t))
        return self.as_int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if _isinstance(o, _bool):
            return mk_not(self) if o else self
        if _isinstance(o, SymBool):
            return mk_bool(z3.Xor(self.t, o.t))
        return self.as_int() ^ o

    __rxor__ = __xor__


def _deleg(name):
    def f(self, *a):
        return getattr(self.as_int(), name)(*a)
    f.__name__ = name
    return f


for _n in ("add radd sub rsub mul rmul floordiv rfloordiv mod rmod truediv rtruediv lshift rlshift rshift "
           "rrshift lt le gt ge neg pos abs invert divmod rdivmod round trunc pow rpow").split():
    setattr(SymBool, "__%s__" % _n, _deleg("__%s__" % _n))


def mk_bool(t):
    if t is True or t is False:
        return t
    return SymBool(t)


def same_term(x, y):
    return x is y or x.ast.value == y.ast.value


def mk_not(b):
    if _isinstance(b, _bool):
        return not b
    if _isinstance(b, SymBool):
        return mk_bool(z3.Not(b.t)) if not z3.is_not(b.t) else mk_bool(b.t.arg(0))
    return not b


def bterm(b):
    """z3 Bool of a bool / SymBool / symbolic truthy value."""
    if _isinstance(b, SymBool):
        return b.t
    if _isinstance(b, _bool):
        return z3.BoolVal(b)
    if _isinstance(b, (SymInt, SymZ)):
        return bterm(b != 0)
    return z3.BoolVal(_bool(b))


def sym_and(bs):
    ts = []
    for b in bs:
        if b is True:
            continue
        if b is False:
            return False
        ts.append(b.t if type(b) is SymBool else bterm(b))
    if not ts:
        return True
    return mk_bool(ts[0] if _len(ts) == 1 else z3.And(*ts))


def sym_or(bs):
    ts = []
    for b in bs:
        if b is False:
            continue
        if b is True:
            return True
        ts.append(b.t if type(b) is SymBool else bterm(b))
    if not ts:
        return False
    return mk_bool(ts[0] if _len(ts) == 1 else z3.Or(*ts))


def is_intlike(x):
    return _isinstance(x, (_int, SymInt, SymBool, SymZ))


def to_sym(x):
    """int/bool/SymBool/SymInt -> SymInt (constants too)."""
    if _isinstance(x, SymInt):
        return x
    if _isinstance(x, SymBool):
        return x.as_int()
    x = _int(x)
    r = _CONST.get(x)
    if r is None:
        r = SymInt(z3.BitVecVal(x, width(x, x)), x, x)
        if -70000 < x < 70000:
            _CONST[x] = r
    return r


_CONST = {}
_BVV = {}


def bvv(x, w):
    r = _BVV.get((x, w))
    if r is None:
        r = _BVV[(x, w)] = z3.BitVecVal(x, w)
    return r


def mk_int(t, lo, hi):
    if lo == hi:
        return lo
    w = width(lo, hi)
    r = SymInt(resize(t, w), lo, hi)
    r.w = w
    return r


class SymInt(Sym):
    __slots__ = ("t", "lo", "hi", "b", "k", "w", "lin")

    def __init__(self, t, lo, hi, b=None, k=0):
        self.t = t
        self.lo = lo
        self.hi = hi
        self.b = b              # value == b + k when b is given (keeps offsets from one base syntactic)
        self.k = k
        self.w = None
        self.lin = None         # linear combination ((atom, coefficient), ...) this term was built from

    def size(self):
        w = self.w
        if w is None:
            w = self.w = self.t.size()
        return w

    def at_width(self, w):
        s = self.size()
        if s == w:
            return self.t
        if self.lo == self.hi:
            return bvv(self.lo, w)
        if s < w:
            return z3.SignExt(w - s, self.t)
        return z3.Extract(w - 1, 0, self.t)

    def base(self):
        return (self, 0) if self.b is None else (self.b, self.k)

    def __repr__(self):
        return "<symint %d..%d>" % (self.lo, self.hi)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # ---- concretization
    def conc(self):
        t = self.t
        return E.ENGINE.concretize(t, lambda v: v.as_signed_long(), lambda v: t == v)

    def _pinned(self):
        return None

    def __index__(self):
        return self.conc()

    __int__ = __index__

    def __hash__(self):
        if self.hi - self.lo > E.Engine.MAX_VALUES:
            E.ENGINE.notes.add("constant hash used for a wide symbolic integer in a native container")
            return 0x5EED
        return hash(self.conc())

    def __bool__(self):
        return _bool(self != 0)

    def __str__(self):
        return _str(self.conc())

    def __format__(self, spec):
        return format(self.conc(), spec)

    def __float__(self):
        return float(self.conc())

    def bit_length(self):
        return self.conc().bit_length()

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        return int_to_bytes(self, length, byteorder, signed)

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    # ---- arithmetic
    def _bin(self, o, f):
        if _isinstance(o, SymZ):
            return NotImplemented
        if is_intlike(o):
            return f(self, to_sym(o))
        return NotImplemented

    def __add__(self, o):
        if _isinstance(o, float) or _isinstance(o, SymFloat):
            return SymFloat.of(self) + o
        return self._bin(o, _add)

    def __radd__(self, o):
        if _isinstance(o, float):
            return SymFloat.of(o) + SymFloat.of(self)
        return self._bin(o, lambda a, b: _add(b, a))

    def __sub__(self, o):
        if _isinstance(o, float) or _isinstance(o, SymFloat):
            return SymFloat.of(self) - o
        return self._bin(o, _sub)

    def __rsub__(self, o):
        if _isinstance(o, float):
            return SymFloat.of(o) - SymFloat.of(self)
        return self._bin(o, lambda a, b: _sub(b, a))

    def __mul__(self, o):
        if _isinstance(o, float) or _isinstance(o, SymFloat):
            return SymFloat.of(self) * o
        if _isinstance(o, (list, tuple, str, bytes)):
            return o * self.conc()
        return self._bin(o, _mul)

    def __rmul__(self, o):
        if _isinstance(o, float):
            return SymFloat.of(o) * SymFloat.of(self)
        if _isinstance(o, (list, tuple, str, bytes)):
            return o * self.conc()
        return self._bin(o, _mul)

    def __neg__(self):
        return mk_int(-self.at_width(width(-self.hi, -self.lo)), -self.hi, -self.lo)

    def __pos__(self):
        return self

    def __invert__(self):
        return mk_int(~self.t, ~self.hi, ~self.lo)

    def __abs__(self):
        if self.lo >= 0:
            return self
        n = -self
        m = max(-self.lo, self.hi)
        w = width(-m, m)
        n = to_sym(n)
        return mk_int(z3.If(self.t < 0, n.at_width(w), self.at_width(w)), 0, m)

    def __floordiv__(self, o):
        if _isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) // o
        return self._bin(o, _floordiv)

    def __rfloordiv__(self, o):
        if _isinstance(o, float):
            return SymFloat.of(o) // SymFloat.of(self)
        return self._bin(o, lambda a, b: _floordiv(b, a))

    def __mod__(self, o):
        if _isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) % o
        return self._bin(o, _mod)

    def __rmod__(self, o):
        if _isinstance(o, float):
            return SymFloat.of(o) % SymFloat.of(self)
        if _isinstance(o, _str):
            return o % self.conc()
        return self._bin(o, lambda a, b: _mod(b, a))

    def __divmod__(self, o):
        q = self // o
        if q is NotImplemented:
            return q
        return (q, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __truediv__(self, o):
        return SymFloat.of(self) / o

    def __rtruediv__(self, o):
        return SymFloat.of(o) / SymFloat.of(self)

    def __pow__(self, o, mod=None):
        if _isinstance(o, _int) and o >= 0 and mod is None and o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(self.conc(), _int(o), mod) if mod is not None else self.conc() ** (o if not _isinstance(o, SymInt) else o.conc())

    def __rpow__(self, o):
        return o ** self.conc()

    def __round__(self, n=None):
        return int_round(self, n)

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    # ---- bit operations
    def __and__(self, o):
        return self._bin(o, _and)

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, _or)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, _xor)

    __rxor__ = __xor__

    def __lshift__(self, o):
        if not is_intlike(o):
            return NotImplemented
        n = o if _isinstance(o, _int) else o.__index__()
        if n < 0:
            raise ValueError("negative shift count")
        if n > 4096:
            raise EngineLimit("shift too large")
        return self * (1 << n)

    def __rlshift__(self, o):
        return o << self.conc()

    def __rshift__(self, o):
        if not is_intlike(o):
            return NotImplemented
        n = o if _isinstance(o, _int) else o.__index__()
        if n < 0:
            raise ValueError("negative shift count")
        lo, hi = self.lo >> n, self.hi >> n
        if lo == hi:
            return lo
        s = self.size()
        if n >= s:
            return mk_int(z3.If(self.t < 0, z3.BitVecVal(-1, s), z3.BitVecVal(0, s)), lo, hi)
        return mk_int(z3.Extract(s - 1, n, self.t), lo, hi)

    def __rrshift__(self, o):
        return o >> self.conc()

    # ---- comparisons
    def _cmp(self, o, quick, term):
        if _isinstance(o, float):
            if o == math.floor(o) and abs(o) < 2 ** 62:
                o = _int(o)
            else:
                return NotImplemented
        if not is_intlike(o) or _isinstance(o, SymZ):
            return NotImplemented
        if o is self:
            return quick(self.lo, self.lo, self.lo, self.lo)
        o = to_sym(o)
        q = quick(self.lo, self.hi, o.lo, o.hi)
        if q is not None:
            return q
        (b1, k1), (b2, k2) = self.base(), o.base()
        if b1 is b2 or b1.t.ast.value == b2.t.ast.value:
            return quick(k1, k1, k2, k2)
        if b1.lin or b2.lin:
            x2 = {x.t.ast.value for x, _ in (b2.lin or ((b2, 1),))}
            if any(x.t.ast.value in x2 for x, _ in (b1.lin or ((b1, 1),))):
                d = _sub(self, o)           # common parts cancel
                if _isinstance(d, _int):
                    return quick(d, d, 0, 0)
                q = quick(d.lo, d.hi, 0, 0)
                return q if q is not None else mk_bool(term(d.t, bvv(0, d.size())))
        w = max(self.size(), o.size())
        a, b = self.at_width(w), o.at_width(w)
        if a.ast.value == b.ast.value:
            return quick(0, 0, 0, 0)
        return mk_bool(term(a, b))

    def __eq__(self, o):
        return self._cmp(o, lambda al, ah, bl, bh: False if ah < bl or bh < al else (True if al == ah == bl == bh else None), lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_not(r)

    def __lt__(self, o):
        if _isinstance(o, (float, SymFloat)) and not (_isinstance(o, float) and o == math.floor(o)):
            return SymFloat.of(self) < o
        return self._cmp(o, lambda al, ah, bl, bh: True if ah < bl else (False if al >= bh else None), lambda a, b: a < b)

    def __le__(self, o):
        if _isinstance(o, (float, SymFloat)) and not (_isinstance(o, float) and o == math.floor(o)):
            return SymFloat.of(self) <= o
        return self._cmp(o, lambda al, ah, bl, bh: True if ah <= bl else (False if al > bh else None), lambda a, b: a <= b)

    def __gt__(self, o):
        if _isinstance(o, (float, SymFloat)) and not (_isinstance(o, float) and o == math.floor(o)):
            return SymFloat.of(self) > o
        return self._cmp(o, lambda al, ah, bl, bh: True if al > bh else (False if ah <= bl else None), lambda a, b: a > b)

    def __ge__(self, o):
        if _isinstance(o, (float, SymFloat)) and not (_isinstance(o, float) and o == math.floor(o)):
            return SymFloat.of(self) >= o
        return self._cmp(o, lambda al, ah, bl, bh: True if al >= bh else (False if ah < bl else None), lambda a, b: a >= b)


def _add(a, b):
    if a.lo == a.hi:
        a, b = b, a
    if b.lo == b.hi:
        return _offset(a, b.lo)
    r = _linear(a, 1, b, 1)
    if r is not None:
        return r
    lo, hi = a.lo + b.lo, a.hi + b.hi
    w = width(lo, hi)
    return mk_int(a.at_width(w) + b.at_width(w), lo, hi)


MAX_ATOMS = 16


def atoms(a):
    base, k = a.base()
    return (base.lin or ((base, 1),)), k


def _linear(a, ca, b, cb):
    """ca*a + cb*b in canonical form (equal linear expressions become the same term), or None."""
    la, ka = atoms(a)
    d = {}
    for x, c in la:
        d[x.t.ast.value] = [x, c * ca]
    k = ka * ca
    if b is not None:
        lb, kb = atoms(b)
        k += kb * cb
        for x, c in lb:
            e = d.get(x.t.ast.value)
            if e is None:
                d[x.t.ast.value] = [x, c * cb]
            else:
                e[1] += c * cb
    items = [
        (i, d[i][0], d[i][1]) for i in sorted(d) if d[i][1]]
    if _len(items) > MAX_ATOMS:
        return None
    if not items:
        return k
    if _len(items) == 1 and items[0][2] == 1:
        return _offset(items[0][1], k)
    lo = sum(c * (x.lo if c > 0 else x.hi) for _, x, c in items)
    hi = sum(c * (x.hi if c > 0 else x.lo) for _, x, c in items)
    w = width(lo, hi)
    t = None
    for _, x, c in items:
        y = x.at_width(w)
        if c == -1:
            y = -y
        elif c != 1:
            y = y * bvv(c, w)
        t = y if t is None else t + y
    r = SymInt(t, lo, hi)
    r.w = w
    r.lin = tuple((x, c) for _, x, c in items)
    return _offset(r, k)


def _offset(a, c):
    """a + constant, remembering the base."""
    if a.lo == a.hi:
        return a.lo + c
    if c == 0:
        return a
    base, k = a.base()
    k += c
    if k == 0:
        return base
    lo, hi = a.lo + c, a.hi + c
    w = width(lo, hi)
    w2 = max(w, width(k, k), base.size())
    t = resize(base.at_width(w2) + bvv(k, w2), w)
    return SymInt(t, lo, hi, base, k)


def _sub(a, b):
    if b.lo == b.hi:
        return _offset(a, -b.lo)
    (b1, k1), (b2, k2) = a.base(), b.base()
    if b1 is b2 or b1.t.ast.value == b2.t.ast.value:
        return k1 - k2
    r = _linear(a, 1, b, -1)
    if r is not None:
        return r
    lo, hi = a.lo - b.hi, a.hi - b.lo
    w = width(lo, hi)
    return mk_int(a.at_width(w) - b.at_width(w), lo, hi)


def _mul(a, b):
    if a.lo == a.hi:
        a, b = b, a
    if a.lo == a.hi:
        return a.lo * b.lo
    if b.lo == b.hi:
        r = _linear(a, b.lo, None, 0)
        if r is not None:
            return r
    ps = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
    lo, hi = min(ps), max(ps)
    w = width(lo, hi)
    return mk_int(a.at_width(w) * b.at_width(w), lo, hi)


def _nz(b):
    if b.lo <= 0 <= b.hi and _bool(b == 0):
        raise ZeroDivisionError("integer division or modulo by zero")


def _floordiv(a, b):
    _nz(b)
    if a.lo >= 0 and b.lo >= 0:
        bl = max(b.lo, 1)
        lo, hi = a.lo // max(b.hi, 1), a.hi // bl
        if b.lo == b.hi and b.lo & (b.lo - 1) == 0:
            return a >> (b.lo.bit_length() - 1)
        w = max(a.size(), b.size())
        return mk_int(z3.UDiv(a.at_width(w), b.at_width(w)), lo, hi)
    m = max(abs(a.lo), abs(a.hi)) + 1
    w = max(width(-m, m), b.size()) + 1
    x, y = a.at_width(w), b.at_width(w)
    q, r = x / y, z3.SRem(x, y)
    adj = z3.And(r != 0, (r < 0) != (y < 0))
    return mk_int(z3.If(adj, q - 1, q), -m, m)


def _mod(a, b):
    _nz(b)
    if a.lo >= 0 and b.lo >= 0:
        if b.lo == b.hi and b.lo & (b.lo - 1) == 0:
            return _and(a, to_sym(b.lo - 1))
        if a.hi < b.lo:
            return a if a.lo != a.hi else a.lo
        w = max(a.size(), b.size())
        return mk_int(z3.URem(a.at_width(w), b.at_width(w)), 0, min(a.hi, max(b.hi - 1, 0)))
    m = max(abs(a.lo), abs(a.hi), abs(b.lo), abs(b.hi)) + 1
    w = width(-m, m) + 1
    x, y = a.at_width(w), b.at_width(w)
    r = z3.SRem(x, y)
    adj = z3.And(r != 0, (r < 0) != (y < 0))
    return mk_int(z3.If(adj, r + y, r), -m if b.lo < 0 else 0, m)


def _and(a, b):
    if a.lo == a.hi:
        a, b = b, a
    if b.lo == b.hi and b.lo >= 0:
        m = b.lo
        if m == 0:
            return 0
        if a.lo >= 0 and m & (m + 1) == 0 and a.hi <= m:
            return mk_int(a.t, a.lo, a.hi)
        if m & (m + 1) == 0:
            k = m.bit_length()
            t = a.at_width(max(a.size(), k))
            return mk_int(z3.ZeroExt(1, z3.Extract(k - 1, 0, t)), 0, m if a.lo < 0 else min(m, a.hi))
    w = max(a.size(), b.size())
    t = a.at_width(w) & b.at_width(w)
    if a.lo >= 0 and b.lo >= 0:
        return mk_int(t, 0, min(a.hi, b.hi))
    if a.lo >= 0:
        return mk_int(t, 0, a.hi)
    if b.lo >= 0:
        return mk_int(t, 0, b.hi)
    return mk_int(t, -(1 << (w - 1)), (1 << (w - 1)) - 1)


def zeros(a):
    """Number of low bits of a known to be zero."""
    if a.lo == a.hi:
        n = [a.lo]
    else:
        base, k = a.base()
        n = [c for _, c in base.lin] + [k] if base.lin else [1]
    return min((x & -x).bit_length() - 1 if x else 4096 for x in n)


def _or(a, b):
    if a.lo >= 0 and b.lo >= 0 and (b.hi >> zeros(a) == 0 or a.hi >> zeros(b) == 0):
        return _add(a, b)           # no common bits
    w = max(a.size(), b.size())
    t = a.at_width(w) | b.at_width(w)
    if a.lo >= 0 and b.lo >= 0:
        return mk_int(t, max(a.lo, b.lo), (1 << max(a.hi, b.hi).bit_length()) - 1)
    return mk_int(t, -(1 << (w - 1)), (1 << (w - 1)) - 1)


def _xor(a, b):
    w = max(a.size(), b.size())
    t = a.at_width(w) ^ b.at_width(w)
    if a.lo >= 0 and b.lo >= 0:
        return mk_int(t, 0, (1 << max(a.hi, b.hi).bit_length()) - 1)
    return mk_int(t, -(1 << (w - 1)), (1 << (w - 1)) - 1)


def ite(c, a, b):
    """if-then-else without forking."""
    if _isinstance(c, _bool):
        return a if c else b
    if a is b:
        return a
    if _isinstance(a, (_bool, SymBool)) and _isinstance(b, (_bool, SymBool)):
        return mk_bool(z3.If(bterm(c), bterm(a), bterm(b)))
    if _isinstance(a, SymZ) or _isinstance(b, SymZ):
        a, b = SymZ.lift(a), SymZ.lift(b)
        return SymZ(z3.If(bterm(c), a.t, b.t), min(a.lo, b.lo), max(a.hi, b.hi))
    if is_intlike(a) and is_intlike(b):
        a, b = to_sym(a), to_sym(b)
        w = max(a.size(), b.size())
        return mk_int(z3.If(bterm(c), a.at_width(w), b.at_width(w)), min(a.lo, b.lo), max(a.hi, b.hi))
    return a if _bool(c) else b


# -------------------------------------------------------------------- mathematical integers
class SymZ(Sym):
    """Integer as a z3 Int term; used where floating-point reasoning follows."""
    __slots__ = ("_t", "lo", "hi", "root", "off")

    def __init__(self, t, lo, hi, root=None, off=0):
        # root, off: this integer is root + off (off native), so that values at known distances compare natively
        self._t, self.lo, self.hi, self.off = t, lo, hi, off
        self.root = self if root is None else root

    def shift(self, c):
        if c == 0:
            return self
        r, off = self.root, self.off + c
        return SymZ(lambda: r.t + off, self.lo + c, self.hi + c, r, off)

    def distance(self, o):
        """self - o where the two are at a known distance, else None."""
        if self.root is o.root or self.root.t.eq(o.root.t):
            return self.off - o.off
        return None

    @property
    def t(self):
        """The term; built on first use (terms from floating point carry assumptions)."""
        if _isinstance(self._t, types.FunctionType):
            self._t = self._t()
        return self._t

    @staticmethod
    def lift(x):
        if _isinstance(x, SymZ):
            return x
        if _isinstance(x, SymBool):
            return SymZ(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)), 0, 1)
        if _isinstance(x, SymInt):
            return SymZ(z3.BV2Int(x.t, True), x.lo, x.hi)
        return SymZ(z3.IntVal(_int(x)), _int(x), _int(x))

    def __repr__(self):
        return "<symz %d..%d>" % (self.lo, self.hi)

    def __deepcopy__(self, memo):
        return self

    def conc(self):
        t = self.t
        return E.ENGINE.concretize(t, lambda v: v.as_long(), lambda v: t == v)

    __index__ = __int__ = conc

    def __hash__(self):
        if self.hi - self.lo > E.Engine.MAX_VALUES:
            E.ENGINE.notes.add("constant hash used for a wide symbolic integer in a native container")
            return 0x5EED
        return hash(self.conc())

    def __bool__(self):
        return _bool(self != 0)

    def __str__(self):
        return _str(self.conc())

    def __format__(self, spec):
        return format(self.conc(), spec)

    def __float__(self):
        return float(self.conc())

    def _ar(self, o, f):
        if _isinstance(o, (float, SymFloat)):
            return NotImplemented
        if not is_intlike(o):
            return NotImplemented
        return f(self, SymZ.lift(o))

    def __add__(self, o):
        if _isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) + o
        if _isinstance(o, int) and not _isinstance(o, Sym):
            return self.shift(_int(o))
        return self._ar(o, lambda a, b: SymZ(lambda: a.t + b.t, a.lo + b.lo, a.hi + b.hi))

    __radd__ = __add__

    def __sub__(self, o):
        if _isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) - o
        if _isinstance(o, int) and not _isinstance(o, Sym):
            return self.shift(-_int(o))
        if _isinstance(o, SymZ) and self.root is o.root:
            return self.off - o.off
        return self._ar(o, lambda a, b: SymZ(lambda: a.t - b.t, a.lo - b.hi, a.hi - b.lo))

    def __rsub__(self, o):
        if _isinstance(o, float):
            return SymFloat.of(o) - SymFloat.of(self)
        return self._ar(o, lambda a, b: SymZ(lambda: b.t - a.t, b.lo - a.hi, b.hi - a.lo))

    def __mul__(self, o):
        if _isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) * o

        def f(a, b):
            ps = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
            return SymZ(lambda: a.t * b.t, min(ps), max(ps))
        return self._ar(o, f)

    __rmul__ = __mul__

    def __neg__(self):
        return SymZ(lambda: -self.t, -self.hi, -self.lo)

    def __abs__(self):
        return self if self.lo >= 0 else SymZ(z3.If(self.t < 0, -self.t, self.t), 0, max(abs(self.lo), abs(self.hi)))

    @staticmethod
    def _fd(a, b):
        if b.lo <= 0:
            if _bool(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            if b.lo < 0:
                raise EngineLimit("division by possibly negative mathematical integer")
        q = [a.lo // max(b.lo, 1), a.lo // max(b.hi, 1), a.hi // max(b.lo, 1), a.hi // max(b.hi, 1)]
        return SymZ(lambda: a.t / b.t, min(q), max(q))

    @staticmethod
    def _md(a, b):
        if b.lo <= 0:
            if _bool(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            if b.lo < 0:
                raise EngineLimit("modulo by possibly negative mathematical integer")
        return SymZ(lambda: a.t % b.t, 0, max(b.hi - 1, 0))

    def __floordiv__(self, o):
        if _isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) // o
        return self._ar(o, SymZ._fd)

    def __rfloordiv__(self, o):
        if _isinstance(o, float):
            return SymFloat.of(o) // SymFloat.of(self)
        return self._ar(o, lambda a, b: SymZ._fd(b, a))

    def __mod__(self, o):
        return self._ar(o, SymZ._md)

    def __rmod__(self, o):
        return self._ar(o, lambda a, b: SymZ._md(b, a))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    @staticmethod
    def _count(o):
        o = o if _isinstance(o, _int) else o.__index__()
        if o < 0:
            raise ValueError("negative shift count")
        return 1 << o

    def __rshift__(self, o):
        return self // SymZ._count(o)

    def __lshift__(self, o):
        return self * SymZ._count(o)

    def __rrshift__(self, o):
        return o >> self.conc()

    def __rlshift__(self, o):
        return o << self.conc()

    def __and__(self, o):
        if _isinstance(o, (SymInt, SymZ, SymBool)):
            if self.lo == self.hi:
                self, o = SymZ.lift(o), self.lo
            elif o.lo == o.hi if not _isinstance(o, SymBool) else False:
                o = o.lo
            else:
                return self.conc() & o
        if not is_intlike(o):
            return NotImplemented
        if o < 0:
            return self - (self & ~o)
        out, k = 0, 0
        while o >> k:
            if not o >> k & 1:
                k += 1
                continue
            n = k
            while o >> n & 1:
                n += 1
            out = out + (self // (1 << k)) % (1 << (n - k)) * (1 << k)
            k = n
        return out

    __rand__ = __and__

    def __or__(self, o):
        r = self & o
        return r if r is NotImplemented else self + o - r

    __ror__ = __or__

    def __xor__(self, o):
        r = self & o
        return r if r is NotImplemented else self + o - r * 2

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __pos__(self):
        return self

    def __pow__(self, n, mod=None):
        if mod is None and _isinstance(n, _int) and n >= 0:
            r = 1
            for _ in range(n):
                r = r * self
            return r
        return pow(self.conc(), n, mod)

    def __rpow__(self, o):
        return o ** self.conc()

    def bit_length(self):
        k, a = 0, abs(self)
        while _bool(a >= 1 << k):
            k += 1
        return k

    def bit_count(self):
        return self.conc().bit_count()

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        return int_to_bytes(self, length, byteorder, signed)

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    numerator = real
    imag = 0
    denominator = 1

    def __truediv__(self, o):
        return SymFloat.of(self) / o

    def __rtruediv__(self, o):
        return SymFloat.of(o) / SymFloat.of(self)

    def __round__(self, n=None):
        return int_round(self, n)

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def _c(self, o, quick, f):
        if _isinstance(o, float) and o == math.floor(o):
            o = _int(o)
        if not is_intlike(o):
            return NotImplemented
        o = SymZ.lift(o)
        q = quick(self.lo, self.hi, o.lo, o.hi)
        if q is not None:
            return q
        d = self.distance(o)
        if d is not None:
            return f(d, 0)
        return mk_bool(f(self.t, o.t))

    def __eq__(self, o):
        return self._c(o, lambda al, ah, bl, bh: False if ah < bl or bh < al else None, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_not(r)

    def __lt__(self, o):
        if _isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) < o
        return self._c(o, lambda al, ah, bl, bh: True if ah < bl else (False if al >= bh else None), lambda a, b: a < b)

    def __le__(self, o):
        if _isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) <= o
        return self._c(o, lambda al, ah, bl, bh: True if ah <= bl else (False if al > bh else None), lambda a, b: a <= b)

    def __gt__(self, o):
        if _isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) > o
        return self._c(o, lambda al, ah, bl, bh: True if al > bh else (False if ah <= bl else None), lambda a, b: a > b)

    def __ge__(self, o):
        if _isinstance(o, (float, SymFloat)):
            return SymFloat.of(self) >= o
        return self._c(o, lambda al, ah, bl, bh: True if al >= bh else (False if ah < bl else None), lambda a, b: a >= b)


# -------------------------------------------------------------------- floats
U = fractions.Fraction(1, 2 ** 53)


class Key:
    """Structure of a computation over terms (kept alive, so that their ids stay valid)."""
    __slots__ = ("op", "args", "id")

    def __init__(self, op, *args):
        self.op, self.args = op, args
        self.id = (op,) + tuple(a.id if _isinstance(a, Key) else ("t", a.get_id()) if z3.is_expr(a) else ("v", type(a).__name__, repr(a)) for a in args)

    def same(self, o):
        return self.id == o.id


class SymFloat(Sym):
    """A double computed from symbolic integers.  Two views: `real` is a z3 Real within the IEEE
    rounding error of every operation (sound over-approximation, no overflow/underflow within the
    tracked ranges); `thunk` recomputes the exact double once the integers it depends on are fixed."""
    __slots__ = ("real", "lo", "hi", "thunk", "deps", "key")

    def __init__(self, real, lo, hi, thunk, deps, key):
        # key: the expression this value is the result of; equal keys mean equal doubles
        self.real, self.lo, self.hi, self.thunk, self.deps, self.key = real, lo, hi, thunk, deps, key

    def __repr__(self):
        return "<symfloat>"

    def __deepcopy__(self, memo):
        return self

    @staticmethod
    def of(x):
        if _isinstance(x, SymFloat):
            return x
        if _isinstance(x, SymBool):
            x = x.as_int()
        if _isinstance(x, (SymInt, SymZ)):
            if max(abs(x.lo), abs(x.hi)) > 2 ** 53:
                raise EngineLimit("integer too wide for exact conversion to float")
            z = SymZ.lift(x) if _isinstance(x, SymZ) else None

            def mkreal():
                return z3.ToReal((z or SymZ.lift(x)).t)
            return SymFloat(mkreal, fractions.Fraction(x.lo), fractions.Fraction(x.hi), lambda env: float(env[id(x)]), {id(x): x}, Key("int", z.t if z is not None else x.t))
        if _isinstance(x, (_int, float)):
            if _isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
                raise EngineLimit("non-finite float")
            if _isinstance(x, _int) and abs(x) > 2 ** 53:
                x = float(x)
            fr = fractions.Fraction(x)
            return SymFloat(lambda: z3.RealVal(_str(fr)), fr, fr, lambda env: float(x), {}, Key("c", float(x)))
        raise EngineLimit("unsupported float operand %r" % type(x))

    def r(self):
        if callable(self.real):
            self.real = self.real()
        return self.real

    def exact(self):
        """Exact native float; fixes the integers it depends on (explores all of them)."""
        env = {k: v.conc() for k, v in self.deps.items()}
        return self.thunk(env)

    conc = exact

    def small(self):
        n = 1
        for v in self.deps.values():
            n *= v.hi - v.lo + 1
        return n <= E.Engine.MAX_VALUES

    @staticmethod
    def _rounded(e, lo, hi):
        """A real within relative rounding error of e."""
        eng = E.ENGINE
        known = eng.rounded.get(e.get_id())
        if known is not None:
            return known[1]
        eng.fresh += 1
        v = z3.Real("fp!%d" % eng.fresh)
        eng.rounded[e.get_id()] = (e, v)
        u = z3.RealVal(_str(U))
        if lo >= 0:
            c = z3.And(v >= e * (1 - u), v <= e * (1 + u))
        elif hi <= 0:
            c = z3.And(v <= e * (1 - u), v >= e * (1 + u))
        else:
            m = z3.If(e < 0, -e, e)
            c = z3.And(v - e <= m * u, e - v <= m * u)
        eng.assume(c)
        return v

    def _op(self, o, kind):
        if not _isinstance(o, (SymFloat, SymInt, SymZ, SymBool, _int, float)):
            return NotImplemented
        o = SymFloat.of(o)
        a, b = self, o
        if kind == "/":
            if b.lo <= 0 <= b.hi and _bool(b == 0):
                raise ZeroDivisionError("float division by zero")
            if b.lo <= 0 <= b.hi:
                tiny = fractions.Fraction(1, 2 ** 60)
                if b.lo == 0 or _bool(b > 0):
                    bs = (tiny, max(b.hi, tiny))
                    low = b < 2.0 ** -60
                else:
                    bs = (min(b.lo, -tiny), -tiny)
                    low = b > -2.0 ** -60
                if _bool(low):
                    raise EngineLimit("float division by a value close to zero")
            else:
                bs = (b.lo, b.hi)
        if kind == "+":
            lo, hi = a.lo + b.lo, a.hi + b.hi
        elif kind == "-":
            lo, hi = a.lo - b.hi, a.hi - b.lo
        elif kind == "*":
            ps = [x * y for x in (a.lo, a.hi) for y in (b.lo, b.hi)]
            lo, hi = min(ps), max(ps)
        else:
            ps = [x / y for x in (a.lo, a.hi) for y in bs]
            lo, hi = min(ps), max(ps)
        lo, hi = (lo * (1 - U) if lo > 0 else lo * (1 + U)), (hi * (1 + U) if hi > 0 else hi * (1 - U))

        def mk():
            x, y = a.r(), b.r()
            e = x + y if kind == "+" else x - y if kind == "-" else x * y if kind == "*" else x / y
            # exact in binary floating point: multiplication by a power of two
            if kind == "*":
                for k in (a, b):
                    if k.lo == k.hi and k.lo > 0 and k.lo.numerator & (k.lo.numerator - 1) == 0 and k.lo.denominator & (k.lo.denominator - 1) == 0:
                        return e
            if kind == "/" and b.lo == b.hi and b.lo > 0 and b.lo.numerator & (b.lo.numerator - 1) == 0 and b.lo.denominator & (b.lo.denominator - 1) == 0:
                return e
            return SymFloat._rounded(e, lo, hi)
        import operator
        f = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}[kind]
        deps = dict(a.deps)
        deps.update(b.deps)
        return SymFloat(mk, lo, hi, lambda env: f(a.thunk(env), b.thunk(env)), deps, Key(kind, a.key, b.key))

    def __add__(self, o): return self._op(o, "+")
    def __radd__(self, o): return SymFloat.of(o)._op(self, "+")
    def __sub__(self, o): return self._op(o, "-")
    def __rsub__(self, o): return SymFloat.of(o)._op(self, "-")
    def __mul__(self, o): return self._op(o, "*")
    def __rmul__(self, o): return SymFloat.of(o)._op(self, "*")
    def __truediv__(self, o): return self._op(o, "/")
    def __rtruediv__(self, o): return SymFloat.of(o)._op(self, "/")

    def __mod__(self, o):
        if _isinstance(o, (_int, float)):
            a = self
            if o == 1 and self.lo >= 0:
                def mk():
                    k = a.__floor__()
                    return a.r() - z3.ToReal(SymZ.lift(k).t)
                return SymFloat(mk, fractions.Fraction(0), fractions.Fraction(1), lambda env: a.thunk(env) % o, a.deps, Key("%", a.key, o))
            return self.exact() % o
        return self.exact() % (o.exact() if _isinstance(o, SymFloat) else o.conc())

    def __floordiv__(self, o):
        q = self / o
        return SymFloat.of(q.__floor__())

    def __rfloordiv__(self, o):
        return SymFloat.of(o) // self

    def __neg__(self):
        a = self
        return SymFloat(lambda: -a.r(), -a.hi, -a.lo, lambda env: -a.thunk(env), a.deps, Key("neg", a.key))

    def __abs__(self):
        a = self
        if a.lo >= 0:
            return a
        return SymFloat(lambda: z3.If(a.r() < 0, -a.r(), a.r()), fractions.Fraction(0), max(-a.lo, a.hi), lambda env: abs(a.thunk(env)), a.deps, Key("abs", a.key))

    def __floor__(self):
        if self.small():
            return math.floor(self.exact())
        return SymZ(lambda: z3.ToInt(self.r()), math.floor(self.lo), math.floor(self.hi))

    def __ceil__(self):
        if self.small():
            return math.ceil(self.exact())
        return SymZ(lambda: -z3.ToInt(-self.r()), math.ceil(self.lo), math.ceil(self.hi))

    def __trunc__(self):
        if self.small():
            return _int(self.exact())
        if self.lo >= 0:
            return self.__floor__()
        return SymZ(lambda: z3.If(self.r() >= 0, z3.ToInt(self.r()), -z3.ToInt(-self.r())), math.trunc(self.lo), math.trunc(self.hi))

    def __round__(self, n=None):
        if self.small():
            return round(self.exact(), n) if n is not None else round(self.exact())
        if n is not None:
            eng = E.ENGINE
            a = self
            unit = fractions.Fraction(1, 10 ** n) if n >= 0 else fractions.Fraction(10 ** -n)

            def mk():
                # a multiple of the unit closest to the value, as a double
                eng.fresh += 1
                k = z3.Int("rnd!%d" % eng.fresh)
                x = a.r() / z3.RealVal(_str(unit)) - z3.ToReal(k)
                h = z3.RealVal(_str(fractions.Fraction(1, 2) + 2 ** 60 * U * U))
                eng.assume(z3.And(x <= h, -x <= h))
                if n <= 0:
                    return z3.ToReal(k) * z3.RealVal(_str(unit))
                return SymFloat._rounded(z3.ToReal(k) * z3.RealVal(_str(unit)), *((a.lo, a.hi) if a.lo >= 0 or a.hi <= 0 else (-1, 1)))
            lo, hi = a.lo - unit, a.hi + unit
            return SymFloat(mk, max(lo, 0) if a.lo >= 0 else lo, min(hi, 0) if a.hi <= 0 else hi, lambda env: round(a.thunk(env), n), a.deps, Key("round", a.key, n))
        def term():
            r = self.r()
            k = z3.ToInt(r)
            d = r - z3.ToReal(k)
            h = z3.RealVal("1/2")
            return z3.If(d < h, k, z3.If(d > h, k + 1, z3.If(k % 2 == 0, k, k + 1)))
        return SymZ(term, math.floor(self.lo), math.ceil(self.hi))

    def is_integer(self):
        return self.exact().is_integer() if self.small() else mk_bool(z3.IsInt(self.r()))

    def __bool__(self):
        return _bool(self != 0)

    def __hash__(self):
        return hash(self.exact())

    def __float__(self):
        return self.exact()

    def __int__(self):
        t = self.__trunc__()
        return t if _isinstance(t, _int) else t.conc()

    def __str__(self):
        return _str(self.exact())

    def __format__(self, spec):
        return format(self.exact(), spec)

    def _c(self, o, f):
        if not _isinstance(o, (SymFloat, SymInt, SymZ, SymBool, _int, float)):
            return NotImplemented
        if _isinstance(o, float) and (math.isinf(o) or math.isnan(o)):
            return f(0.0, o)
        o = SymFloat.of(o)
        if self.key.same(o.key):
            return f(0.0, 0.0)
        if self.small() and o.small():
            return f(self.exact(), o.exact())
        return mk_bool(f(self.r(), o.r()))

    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_not(r)
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)


# -------------------------------------------------------------------- strings
TEXT_BYTES = [None]         # how the bytes of a text are made


class SymStr(Sym):
    """A rope: literal text and formatted symbolic integers (value, format spec)."""
    __slots__ = ("segs",)

    def __init__(self, segs):
        out = []
        for s in segs:
            if _isinstance(s, SymStr):
                parts = s.segs
            else:
                parts = (s,)
            for q in parts:
                if _isinstance(q, _str):
                    if not q:
                        continue
                    if out and _isinstance(out[-1], _str):
                        out[-1] += q
                        continue
                out.append(q)
        self.segs = tuple(out)

    @staticmethod
    def make(segs):
        s = SymStr(segs)
        if all(_isinstance(q, _str) for q in s.segs):
            return "".join(s.segs)
        return s

    @property
    def letters(self):
        """The same with the documents inside written out."""
        if all(_isinstance(q, (_str, tuple)) for q in self.segs):
            return self
        return SymStr([SymStr(q.rope()) if hasattr(q, "rope") else q for q in self.segs])

    def conc(self):
        out = []
        for q in self.letters.segs:
            if _isinstance(q, _str):
                out.append(q)
            elif _isinstance(q, tuple):
                out.append(format(q[0].conc(), q[1]))
            else:
                raise EngineLimit("cannot fix the text of %r" % (q,))
        return "".join(out)

    def __repr__(self):
        return "<symstr %r>" % (self.segs,)

    def __str__(self):
        return self.conc()

    def __hash__(self):
        return hash(self.conc())

    def __deepcopy__(self, memo):
        return self

    def __bool__(self):
        return True if any(True for q in self.segs) else False

    def __len__(self):
        return _len(self.conc())

    def __format__(self, spec):
        return format(self.conc(), spec)

    def __eq__(self, o):
        if _isinstance(o, (_str, SymStr)):
            return rope_eq(self, o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_not(r)

    def __add__(self, o):
        if _isinstance(o, (_str, SymStr)):
            return SymStr.make([self, o])
        return NotImplemented

    def __radd__(self, o):
        if _isinstance(o, _str):
            return SymStr.make([o, self])
        return NotImplemented

    def __mul__(self, n):
        return SymStr.make([self] * _int(n))

    def __getitem__(self, i):
        return self.conc()[i]

    def __iter__(self):
        return iter(self.conc())

    def __contains__(self, x):
        return x in self.conc()

    def __lt__(self, o): return self.conc() < _str(o)
    def __gt__(self, o): return self.conc() > _str(o)
    def __le__(self, o): return self.conc() <= _str(o)
    def __ge__(self, o): return self.conc() >= _str(o)

    def startswith(self, p):
        if self.segs and _isinstance(self.segs[0], _str) and _isinstance(p, _str) and _len(self.segs[0]) >= _len(p):
            return self.segs[0].startswith(p)
        return self.conc().startswith(p)

    def endswith(self, p):
        if self.segs and _isinstance(self.segs[-1], _str) and _isinstance(p, _str) and _len(self.segs[-1]) >= _len(p):
            return self.segs[-1].endswith(p)
        return self.conc().endswith(p)

    def rstrip(self, chars=None):
        if self.segs and _isinstance(self.segs[-1], _str):
            last = self.segs[-1].rstrip(chars)
            if last:
                return SymStr.make(self.segs[:-1] + (last,))
            return SymStr.make(self.segs[:-1])
        return self

    def lstrip(self, chars=None):
        if self.segs and _isinstance(self.segs[0], _str):
            f = self.segs[0].lstrip(chars)
            return SymStr.make(((f,) if f else ()) + self.segs[1:])
        return self

    def strip(self, chars=None):
        r = self.rstrip(chars)
        return r.lstrip(chars) if _isinstance(r, SymStr) else r.strip(chars)

    def split(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit != -1:
            return self.conc().split(sep, maxsplit)
        out, cur = [], []
        for q in self.letters.segs:
            if _isinstance(q, _str):
                parts = q.split(sep)
                cur.append(parts[0])
                for p in parts[1:]:
                    out.append(SymStr.make(cur))
                    cur = [p]
            else:
                cur.append(q)
        out.append(SymStr.make(cur))
        return out

    def splitlines(self, keepends=False):
        me = self.letters
        if any(_isinstance(q, _str) and q.splitlines() != q.split("\n")[:_len(q.splitlines())] for q in me.segs):
            return self.conc().splitlines(keepends)
        out = me.split("\n")
        if keepends:
            out = [SymStr.make([x, "\n"]) for x in out[:-1]] + out[-1:]
        return out if _isinstance(out[-1], SymStr) or out[-1] else out[:-1]

    def replace(self, old, new, count=-1):
        me = self.letters
        if count == -1 and _isinstance(old, _str) and old and not _apart(me.segs, old):
            return SymStr.make([new.join(q.split(old)) if _isinstance(new, SymStr) and _isinstance(q, _str) else q.replace(old, new) if _isinstance(q, _str) else q for q in me.segs])
        return self.conc().replace(old, new, count)

    def join(self, it):
        out = []
        for i, x in enumerate(it):
            if i:
                out.append(self)
            out.append(x)
        return SymStr.make(out)

    def upper(self):
        return SymStr.make([q.upper() if _isinstance(q, _str) else q if q[1] in ("", "d") or q[1].endswith("X") else self.conc().upper() for q in self.segs])

    def encode(self, encoding="utf-8", errors="strict"):
        if encoding.lower().replace("-", "").replace("_", "") in ("utf8", "ascii", "latin1", "usascii"):
            for q in self.letters.segs:
                if _isinstance(q, _str):
                    if not q.isascii() and encoding.lower() not in ("utf-8", "utf8"):
                        return self.conc().encode(encoding, errors)
            return TEXT_BYTES[0](self)
        return self.conc().encode(encoding, errors)

    def __getattr__(self, name):
        if hasattr(_str, name):
            return getattr(self.conc(), name)
        raise AttributeError(name)


def _apart(segs, word):
    """Whether a word may be found across or inside the numbers of a rope."""
    for i, q in enumerate(segs):
        if _isinstance(q, _str):
            if 0 < i < _len(segs) - 1 and q in word:
                return True
            continue
        if not (_isinstance(q, tuple) and _isinstance(q[0], (SymInt, SymZ)) and re.fullmatch("(0[0-9]+)?[dxX]?", q[1])):
            return True
        abc = {"x": "0123456789abcdef-", "X": "0123456789ABCDEF-"}.get(q[1][-1:], "0123456789-")
        if all(c in abc for c in word):
            return True
        before = segs[i - 1] if i and _isinstance(segs[i - 1], _str) else ""
        after = segs[i + 1] if i + 1 < _len(segs) and _isinstance(segs[i + 1], _str) else ""
        for k in range(1, _len(word)):
            if word[k] in abc and (before.endswith(word[:k]) or before and word[:k].endswith(before)):
                return True
            if word[k - 1] in abc and (after.startswith(word[k:]) or after and word[k:].startswith(after)):
                return True
        if (i and not before or i + 1 < _len(segs) and not after) and any(c in abc for c in word):
            return True
    return False


def rope_eq(a, b):
    """Equality of texts, as one condition: both are cut at the characters no number inside can produce,
    then the pieces are compared (numbers written next to each other as sequences of digits)."""
    sa = a.segs if _isinstance(a, SymStr) else ((a,) if a else ())
    sb = b.segs if _isinstance(b, SymStr) else ((b,) if b else ())
    if _len(sa) == _len(sb) and all(x is y or _isinstance(x, _str) and x == y or _isinstance(x, tuple) and _isinstance(y, tuple) and x[1] == y[1] and same_num(x[0], y[0])
                                    for x, y in zip(sa, sb)):
        return True
    for x, y in ((_str_ends(sa), _str_ends(sb)),):
        n, k = min(_len(x[0]), _len(y[0])), min(_len(x[1]), _len(y[1]))
        if x[0][:n] != y[0][:n] or (k and x[1][-k:] != y[1][-k:]):
            return False
    for x, y in ((sa, b), (sb, a)):
        if _isinstance(y, _str) and _len([q for q in x if not _isinstance(q, _str)]) == 1:
            r = _one_number(x, y)
            if r is not None:
                return r
    r = _pieces_eq(sa, sb)
    if r is None:
        r = _alike(sa, sb)
    if r is not None:
        return r
    ca = a.conc() if _isinstance(a, SymStr) else a
    cb = b.conc() if _isinstance(b, SymStr) else b
    return ca == cb


def _alike(sa, sb):
    """Texts with the same literals around formatted values that the digit-wise comparison does not know
    (floating-point formats): equal when the values are, provided no two of them touch."""
    if _len(sa) != _len(sb):
        return None
    conds = []
    for i, (x, y) in enumerate(zip(sa, sb)):
        if _isinstance(x, _str) and _isinstance(y, _str):
            if x != y:
                return None
        elif _isinstance(x, tuple) and _isinstance(y, tuple) and x[1] == y[1]:
            if i and _isinstance(sa[i - 1], tuple):
                return None
            conds.append(x[0] == y[0])
        else:
            return None
    return sym_and(conds)


def same_num(x, y):
    return x is y or type(x) is type(y) and _isinstance(x, (SymInt, SymZ)) and same_term(x.t, y.t)


def _digits(q):
    """(base, least number of digits, characters) of a formatted number whose text is understood, or None."""
    if not (_isinstance(q, tuple) and _isinstance(q[0], (SymInt, SymZ)) and q[0].lo is not None and q[0].lo >= 0):
        return None
    m = re.fullmatch(r"(?:0(\d+))?([dxXo]?)", q[1])
    if not m:
        return None
    k = m.group(2)
    return ({"": 10, "d": 10, "x": 16, "X": 16, "o": 8}[k], _int(m.group(1) or 1), {"x": "0123456789abcdef", "X": "0123456789ABCDEF", "o": "01234567"}.get(k, "0123456789"))


def _pieces_eq(sa, sb):
    abc = set()
    for q in sa + sb:
        if not _isinstance(q, _str):
            d = _digits(q)
            if d is None:
                return None
            abc.update(d[2])
    def cut(segs):
        out, seps = [[]], []
        for q in segs:
            if _isinstance(q, _str):
                for c in q:
                    if c in abc:
                        out[-1].append(c)
                    else:
                        seps.append(c)
                        out.append([])
            else:
                out[-1].append(q)
        return out, seps
    (pa, qa), (pb, qb) = cut(sa), cut(sb)
    if qa != qb:
        return False
    conds = []
    for x, y in zip(pa, pb):
        if _len(x) == _len(y) and all(u == v if _isinstance(u, _str) or _isinstance(v, _str) else u[1] == v[1] and same_num(u[0], v[0]) for u, v in zip(x, y)):
            continue
        if all(_isinstance(u, _str) for u in x + y):
            return False
        if _len(x) == _len(y) == 1 and not _isinstance(x[0], _str) and not _isinstance(y[0], _str) and x[0][1] == y[0][1]:
            conds.append(x[0][0] == y[0][0])
            continue
        cx, cy = _codes(x), _codes(y)
        if cx is None or cy is None:
            return None
        w = max(cx.size(), cy.size())
        conds.append(mk_bool(resize(cx, w) == resize(cy, w)))
    return sym_and(conds)


def _codes(piece):
    """A piece as one bit vector: six bits per character, none of them zero (so no length is needed)."""
    code = lambda c: _int(c, 36) + 1 if c.islower() or c.isdigit() else _int(c, 36) + 27
    t = z3.BitVecVal(0, 7)
    for q in piece:
        if _isinstance(q, _str):
            t = z3.Concat(t, z3.BitVecVal(code(q), 6))
            continue
        v = q[0]
        if not _isinstance(v, SymInt) or v.hi >= 1 << 40:
            return None
        base, least, chars = _digits(q)
        n = 1
        while base ** n <= v.hi:
            n += 1
        n = max(n, least)
        w = v.t.size()
        bv, big = v.t, z3.BitVecVal(base, max(w, 8))
        cs, rest = [], resize(bv, max(w, 8))
        for _ in range(n):
            d = z3.URem(rest, big)
            rest = z3.UDiv(rest, big)
            d = z3.Extract(5, 0, d)
            cs.append(d + z3.If(z3.ULT(d, 10), z3.BitVecVal(1, 6), z3.BitVecVal(27 if "A" in chars else 1, 6)))
        word = cs[0]
        for d in cs[1:]:
            word = z3.Concat(d, word)
        r = None
        for k in range(least, n + 1):
            x = z3.Concat(t, z3.Extract(6 * k - 1, 0, word))
            x = z3.ZeroExt(6 * (n - k), x) if k < n else x
            r = x if r is None else z3.If(resize(bv, max(w, 48)) >= z3.BitVecVal(base ** (k - 1), max(w, 48)), x, r)
        t = r
    return t


def _str_ends(segs):
    return (segs[0] if segs and _isinstance(segs[0], _str) else "", segs[-1] if segs and _isinstance(segs[-1], _str) else "")


def _one_number(segs, text):
    """Equality of a rope with a single formatted integer and a plain text, or None."""
    pre, post = _str_ends(segs) if _len(segs) > 1 else ("", "")
    num = [q for q in segs if not _isinstance(q, _str)][0]
    if not (_isinstance(num, tuple) and _isinstance(num[0], (SymInt, SymZ))):
        return None
    if _len(text) <= _len(pre) + _len(post):
        return False
    mid = text[_len(pre):_len(text) - _len(post)]
    spec = num[1]
    try:
        v = _int(mid, 16 if spec[-1:] in ("x", "X") else 10)
    except ValueError:
        v = None
    if spec and spec[-1] not in "xXd" and not spec.isdigit():
        return None
    if spec and spec[-1:] == "d" and v is None or spec and v is None:
        return None                     # padding the parser does not know
    if v is None or format(v, spec) != mid:
        return False
    return num[0] == v


def fmt_int(v, spec):
    """Formatted symbolic integer as a rope segment (or text if its range is a single value)."""
    if _isinstance(v, _int):
        return format(v, spec)
    return SymStr(((v, spec),))


# -------------------------------------------------------------------- enums
class SymEnum(Sym):
    """An enum / flag member whose integer value is symbolic."""
    __slots__ = ("cls", "v")

    def __init__(self, cls, v):
        object.__setattr__(self, "cls", cls)
        object.__setattr__(self, "v", v)

    @staticmethod
    def make(cls, v):
        if _isinstance(v, SymBool):
            v = v.as_int()
        if not _isinstance(v, SymInt):
            return cls(v)
        vals = [m.value for m in cls.__members__.values()]
        if not vals or not all(type(x) is _int for x in vals):
            return cls(v.conc())
        if issubclass(cls, enum.Flag):
            mask = 0
            for x in vals:
                mask |= x
            if v.lo >= 0 and v.hi <= mask and mask & (mask + 1) == 0:
                return SymEnum(cls, v)
            if v.lo >= 0 and _bool((v & ~mask) == 0):
                return SymEnum(cls, v)
            return cls(v.conc())
        if _bool(sym_or([v == x for x in set(vals)])):
            return SymEnum(cls, v)
        return cls(v.conc())

    def conc(self):
        return self.cls(self.v.conc())

    @property
    def value(self):
        return self.v

    _value_ = value

    @property
    def name(self):
        return self.conc().name

    _name_ = name

    def __repr__(self):
        return "<symenum %s>" % self.cls.__name__

    def __str__(self):
        return _str(self.conc())

    def __format__(self, spec):
        return format(self.conc(), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __hash__(self):
        return hash(self.conc())

    def __bool__(self):
        if issubclass(self.cls, (enum.Flag, enum.IntEnum)):
            return _bool(self.v != 0)
        return True

    def _val(self, o):
        if _isinstance(o, SymEnum) and o.cls is self.cls:
            return o.v
        if _isinstance(o, self.cls):
            return o.value
        if issubclass(self.cls, _int) and is_intlike(o):
            return o
        return None

    def __eq__(self, o):
        x = self._val(o)
        if x is None:
            return False if not _isinstance(o, Sym) else NotImplemented
        return self.v == x

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_not(r)

    def _bit(self, o, f):
        x = self._val(o)
        if x is None or not issubclass(self.cls, enum.Flag):
            return NotImplemented
        r = f(self.v, x)
        return SymEnum.make(self.cls, r)

    def __and__(self, o): return self._bit(o, lambda a, b: a & b)
    __rand__ = __and__
    def __or__(self, o): return self._bit(o, lambda a, b: a | b)
    __ror__ = __or__
    def __xor__(self, o): return self._bit(o, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __invert__(self):
        mask = 0
        for m in self.cls.__members__.values():
            mask |= m.value
        return SymEnum.make(self.cls, self.v ^ mask)

    def contains(self, o):
        x = self._val(o)
        if x is None:
            raise TypeError("unsupported operand for 'in'")
        return (self.v & x) == x

    def __contains__(self, o):
        return _bool(self.contains(o))

    def __iter__(self):
        return iter(self.conc())

    def __len__(self):
        return _len(self.conc())

    def __index__(self):
        if issubclass(self.cls, _int):
            return self.v.conc()
        raise TypeError("'%s' object cannot be interpreted as an integer" % self.cls.__name__)

    def _num(self, name, *a):
        if not issubclass(self.cls, _int):
            return NotImplemented
        return getattr(self.v, name)(*a)

    def __lshift__(self, o): return self._num("__lshift__", o)
    def __rshift__(self, o): return self._num("__rshift__", o)
    def __add__(self, o): return self._num("__add__", o)
    def __lt__(self, o): return self._num("__lt__", o)
    def __gt__(self, o): return self._num("__gt__", o)

    def __getattr__(self, name):
        cls = object.__getattribute__(self, "cls")
        for k in cls.__mro__:
            if name in k.__dict__:
                a = k.__dict__[name]
                if _isinstance(a, types.FunctionType):
                    return types.MethodType(a, self)
                if _isinstance(a, property):
                    return a.fget(self)
                if _isinstance(a, (classmethod, staticmethod)):
                    return getattr(cls, name)
                return getattr(self.conc(), name)
        raise AttributeError(name)


# -------------------------------------------------------------------- bytes and files
class SymBytes(Sym):
    """Bytes of symbolic content and (possibly) symbolic length.  get(i) gives byte i."""
    __slots__ = ("get", "length", "_list")

    def __init__(self, get, length, lst=None):
        self.get, self.length, self._list = get, length, lst

    @staticmethod
    def of_list(lst):
        lst = list(lst)
        if all(_isinstance(x, _int) for x in lst):
            return _bytes(lst)
        return SymBytes(lambda i: lst[i], _len(lst), lst)

    def symlen(self):
        return self.length

    def n(self):
        """Concrete length (fixing it if needed)."""
        if not _isinstance(self.length, _int):
            if self.length.hi - self.length.lo > 2 ** 16:
                # only usable when the path pins it
                eng = E.ENGINE
                v = self.length.conc()
                self.length = v
            else:
                self.length = self.length.conc()
        return self.length

    def lst(self):
        if self._list is None:
            n = self.n()
            if n > 4096:
                raise EngineLimit("materializing %d symbolic bytes" % n)
            self._list = [self.get(i) for i in range(n)]
        return self._list

    def __repr__(self):
        return "<symbytes>"

    def __deepcopy__(self, memo):
        return self

    def __len__(self):
        return self.n()

    def __bool__(self):
        return _bool(self.length != 0)

    def __hash__(self):
        return hash(self.conc())

    def conc(self):
        return _bytes([x if _isinstance(x, _int) else x.__index__() for x in self.lst()])

    __bytes__ = conc

    def __iter__(self):
        return iter(self.lst())

    def small(self):
        """Held (or cheaply held) as a list."""
        return self._list is not None or _isinstance(self.length, _int) and self.length <= 64

    def _bound(self, x, default):
        """A slice bound within 0..length."""
        if x is None:
            return default
        L = self.length
        if _isinstance(x, _int) and _isinstance(L, _int):
            return slice(x, None).indices(L)[0]
        if _bool(x < 0):
            x = L + x
            if _bool(x < 0):
                return 0
        return ite(L < x, L, x)

    def __getitem__(self, i):
        if _isinstance(i, slice):
            plain = all(x is None or _isinstance(x, _int) for x in (i.start, i.stop, i.step))
            if i.step not in (None, 1) or plain and self.small():
                return SymBytes.of_list(self.lst()[i])
            s = self._bound(i.start, 0)
            e = self._bound(i.stop, self.length)
            e = ite(e < s, s, e)
            n = e - s
            if _isinstance(n, _int) and n == 0:
                return b""
            g = self.get
            r = SymBytes(lambda k: g(s + k), n)
            return SymBytes.of_list(r.lst()) if _isinstance(n, _int) and _isinstance(s, _int) and n <= 16 else r
        if not is_intlike(i):
            raise TypeError("byte indices must be integers or slices")
        if self.small() and _isinstance(i, _int):
            return self.lst()[i]
        L = self.length
        if _bool(i < 0):
            i = L + i
            if _bool(i < 0):
                raise IndexError("index out of range")
        if _bool(L <= i):
            raise IndexError("index out of range")
        if self._list is not None and not _isinstance(i, _int):
            return self._list[i.__index__()]
        return self.get(i)

    def __eq__(self, o):
        if _isinstance(o, SymByteArray):
            o = o.b
        if _isinstance(o, (_bytes, bytearray)):
            ln = self.length == _len(o)
            if ln is False:
                return False
            g = self._list.__getitem__ if self._list is not None else self.get
            return sym_and([ln] + [self._byte_eq(g, i, b) for i, b in enumerate(o)])
        if _isinstance(o, SymBytes):
            a, b = self.lst(), o.lst()
            if _len(a) != _len(b):
                return False
            return sym_and([x == y for x, y in zip(a, b)])
        return NotImplemented

    def _byte_eq(self, g, i, b):
        return g(i) == b

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_not(r)

    def _join(self, o):
        if self.small() and o.small():
            return SymBytes.of_list(self.lst() + o.lst())
        for x, y in ((self, o), (o, self)):
            if _isinstance(x.length, _int) and x.length == 0:
                return y
        n, f, g = self.length, self.get, o.get

        def get(i):
            c = i < n
            if _isinstance(c, _bool):
                return f(i) if c else g(i - n)
            return ite(c, f(i), g(i - n))
        return SymBytes(get, n + o.length)

    @staticmethod
    def _lift(o):
        o = list(o)
        return SymBytes(lambda i: o[i] if _isinstance(i, _int) else o[i.__index__()], _len(o), o)

    def __add__(self, o):
        if _isinstance(o, SymByteArray):
            o = o.b
        if _isinstance(o, (_bytes, bytearray)):
            return self._join(SymBytes._lift(o))
        if _isinstance(o, SymBytes):
            return self._join(o)
        return NotImplemented

    def __radd__(self, o):
        if _isinstance(o, (_bytes, bytearray)):
            return SymBytes._lift(o)._join(self)
        return NotImplemented

    def __mul__(self, n):
        n = n if _isinstance(n, _int) else n.__index__()
        return SymBytes.of_list(self.lst() * n)

    __rmul__ = __mul__

    def __contains__(self, o):
        xs = self.lst()
        if is_intlike(o):
            return _bool(sym_or([x == o for x in xs]))
        p = list(o)
        return _bool(sym_or([sym_and([xs[i + j] == b for j, b in enumerate(p)]) for i in range(_len(xs) - _len(p) + 1)]))

    def find(self, o, *a):
        if a or _len(o) != 1:
            return self.conc().find(_bytes(o), *a)
        for i, x in enumerate(self.lst()):
            if _bool(x == o[0]):
                return i
        return -1

    def startswith(self, p, *a):
        if a:
            return self.conc().startswith(p, *a)
        if _isinstance(p, tuple):
            return sym_or([self.startswith(q) for q in p])
        return sym_and([self.length >= _len(p)] + [self.get(i) == b for i, b in enumerate(p)])

    def __getattr__(self, name):
        if hasattr(_bytes, name):
            return getattr(self.conc(), name)
        raise AttributeError(name)


def int_round(x, n):
    """Nearest multiple of a power of ten, the even one when two are equally near."""
    if n is None or n >= 0:
        return x
    u = 10 ** -n
    q = x // u
    d = (x - q * u) * 2
    up = sym_or([d > u, sym_and([d == u, q % 2 == 1])])
    return ite(up, q + 1, q) * u


def int_to_bytes(x, length, byteorder, signed):
    if not _isinstance(length, _int):
        length = length.__index__()
    lo, hi = (-(1 << (8 * length - 1)), 1 << (8 * length - 1)) if signed and length else (0, 1 << (8 * length))
    if _bool(x < lo):
        raise OverflowError("can't convert negative int to unsigned" if not signed else "int too big to convert")
    if _bool(x >= hi):
        raise OverflowError("int too big to convert")
    out = [(x >> (8 * i)) & 255 for i in range(length)]
    if byteorder == "big":
        out.reverse()
    elif byteorder != "little":
        raise ValueError("byteorder must be either 'little' or 'big'")
    return SymBytes.of_list(out)


def as_bytes(x):
    """Bytes (native or symbolic) of a bytes-like value."""
    if _isinstance(x, SymByteArray):
        return x.b
    if _isinstance(x, SymBytes):
        return x
    if _isinstance(x, (list, tuple)):
        return SymBytes.of_list([SymByteArray.byte(y) for y in x])
    return _bytes(x)


def _byteseq(x):
    """A value that concatenates with symbolic bytes."""
    return x if _isinstance(x, (SymBytes, _bytes)) else as_bytes(x)


class SymByteArray(Sym):
    """Mutable byte string: a bytes value (native or symbolic) that is replaced by every change."""
    __slots__ = ("b",)
    __hash__ = None

    def __init__(self, *a, **k):
        if _len(a) == 1 and not k:
            x = a[0]
            if _isinstance(x, (SymBytes, SymByteArray)):
                self.b = as_bytes(x)
                return
            if is_intlike(x) or _isinstance(x, (_bytes, bytearray, memoryview)):
                self.b = _bytes(bytearray(x if not _isinstance(x, Sym) else x.__index__()))
                return
            self.b = as_bytes(list(x))
            return
        self.b = _bytes(bytearray(*a, **k))

    @staticmethod
    def byte(x):
        if not is_intlike(x):
            raise TypeError("an integer is required")
        if _bool(x < 0) or _bool(x > 255):
            raise ValueError("byte must be in range(0, 256)")
        return x

    @staticmethod
    def fromhex(t):
        return SymByteArray(bytearray.fromhex(t))

    def symlen(self):
        return self.b.length if _isinstance(self.b, SymBytes) else _len(self.b)

    def __len__(self):
        return len(self.b)

    def __bool__(self):
        return _bool(self.symlen() != 0)

    def __repr__(self):
        return repr(bytearray(self.conc()))

    def conc(self):
        return bytearray(self.b.conc() if _isinstance(self.b, SymBytes) else self.b)

    def __bytes__(self):
        return self.b.conc() if _isinstance(self.b, SymBytes) else self.b

    def __copy__(self):
        return SymByteArray(self.b)

    def __deepcopy__(self, memo):
        r = memo[id(self)] = SymByteArray(self.b)
        return r

    def copy(self):
        return SymByteArray(self.b)

    def __iter__(self):
        i = 0
        while _bool(self.symlen() > i):
            yield self.b[i]
            i += 1

    def __getitem__(self, i):
        r = self.b[i]
        return SymByteArray(r) if _isinstance(i, slice) else r

    def _items(self):
        return list(self.b)

    def _put(self, items):
        self.b = SymBytes.of_list(items)

    def __setitem__(self, i, v):
        items = self._items()
        if _isinstance(i, slice):
            c = [x if x is None or _isinstance(x, _int) else x.__index__() for x in (i.start, i.stop, i.step)]
            items[slice(*c)] = list(as_bytes(v if _isinstance(v, (SymBytes, SymByteArray, _bytes, bytearray, memoryview)) else list(v)))
        else:
            items[i if _isinstance(i, _int) else i.__index__()] = SymByteArray.byte(v)
        self._put(items)

    def __delitem__(self, i):
        if _isinstance(i, slice) and i.step in (None, 1) and i.start in (None, 0) and (i.stop is None or _bool(i.stop >= 0)):
            self.b = b"" if i.stop is None else self.b[i.stop:]
            return
        items = self._items()
        if _isinstance(i, slice):
            c = [x if x is None or _isinstance(x, _int) else x.__index__() for x in (i.start, i.stop, i.step)]
            del items[slice(*c)]
        else:
            del items[i if _isinstance(i, _int) else i.__index__()]
        self._put(items)

    def append(self, x):
        self.b = self.b + as_bytes([x])

    def extend(self, xs):
        self.b = self.b + as_bytes(xs if _isinstance(xs, (SymBytes, SymByteArray, _bytes, bytearray, memoryview)) else list(xs))

    def __iadd__(self, o):
        if not _isinstance(o, (SymBytes, SymByteArray, _bytes, bytearray, memoryview)):
            raise TypeError("can't concat to bytearray")
        self.b = self.b + as_bytes(o)
        return self

    def __add__(self, o):
        if not _isinstance(o, (SymBytes, SymByteArray, _bytes, bytearray)):
            return NotImplemented
        return SymByteArray(self.b + as_bytes(o))

    def __radd__(self, o):
        if not _isinstance(o, (SymBytes, _bytes)):
            return NotImplemented
        return o + self.b

    def __mul__(self, n):
        return SymByteArray(self.b * n)

    __rmul__ = __mul__

    def insert(self, i, x):
        items = self._items()
        items.insert(i, SymByteArray.byte(x))
        self._put(items)

    def pop(self, i=-1):
        items = self._items()
        r = items.pop(i)
        self._put(items)
        return r

    def remove(self, x):
        items = self._items()
        for i, y in enumerate(items):
            if _bool(y == x):
                del items[i]
                self._put(items)
                return
        raise ValueError("value not found in bytearray")

    def reverse(self):
        self._put(self._items()[::-1])

    def clear(self):
        self.b = b""

    def __eq__(self, o):
        if _isinstance(o, (SymByteArray, bytearray)):
            o = as_bytes(o)
        if not _isinstance(o, (SymBytes, _bytes)):
            return NotImplemented
        return self.b == o if _isinstance(self.b, SymBytes) or not _isinstance(o, SymBytes) else o == self.b

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_not(r)

    def __contains__(self, o):
        return as_bytes(o) in self.b if not is_intlike(o) else o in self.b

    def startswith(self, p, *a):
        return self.b.startswith(p, *a)

    def find(self, o, *a):
        return self.b.find(o, *a)

    def __getattr__(self, name):
        if not name.startswith("__") and hasattr(bytearray, name):
            return getattr(self.b if _isinstance(self.b, SymBytes) or name in ("decode", "hex") else self.conc(), name)
        raise AttributeError(name)


class SymFile:
    """Readable, seekable binary file: content is a z3 array (or a list of byte terms), length and
    position may be symbolic.  Same contract as io.BytesIO / a buffered file opened 'rb'."""

    def __init__(self, content, length, name="<symbolic file>"):
        self._c = content
        self.length = length
        self.pos = 0
        self.name = name
        self.closed = False
        self.nreads = 0
        self.mode = "rb"

    # engine-side accessors
    def byte(self, p):
        if callable(self._c):
            return self._c(p)
        return self._c[p]

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def read(self, n=-1):
        self._check()
        self.nreads += 1
        pos, L = self.pos, self.length
        if n is None:
            n = -1
        rem = L - pos
        if _isinstance(rem, _int):
            rem = max(rem, 0)
        elif rem.lo < 0:
            rem = ite(rem < 0, 0, rem)
        if _bool(n < 0):
            k = rem
        else:
            k = n if _bool(rem >= n) else rem      # full or short read: one path each
        self.pos = pos + k
        start = pos
        f = self

        def get(i):
            return f.byte(start + i)
        if _isinstance(k, _int) and _isinstance(start, _int) and not callable(self._c):
            return SymBytes.of_list(self._c[start:start + k])
        return SymBytes(get, k) if not (_isinstance(k, _int) and k == 0) else b""

    cut = None          # function giving a position that a single underlying read does not go beyond

    def _single(self, n):
        """How much of n bytes one underlying read delivers."""
        if self.cut is None:
            return n
        c, rem = self.cut(), self.length - self.pos
        want = rem if n is None or _bool(n < 0) else n
        return c - self.pos if _bool(sym_and([self.pos < c, c < self.pos + want])) else n

    def read1(self, n=-1):
        return self.read(self._single(n))

    def peek(self, n=0):
        p = self.pos
        r = self.read(self._single(n if n else 1))
        self.pos = p
        return r

    def seek(self, off, whence=0):
        self._check()
        if whence == 1:
            off = self.pos + off
        elif whence == 2:
            off = self.length + off
            if _bool(off < 0):
                off = 0
        elif _bool(off < 0):
            raise ValueError("negative seek value")
        self.pos = off
        return off

    def tell(self):
        self._check()
        return self.pos

    def seekable(self):
        return True

    def readable(self):
        return True

    def writable(self):
        return False

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def getvalue(self):
        p = self.pos
        self.pos = 0
        r = self.read()
        self.pos = p
        return r

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def readinto1(self, b):
        return self.readinto(b, True)

    def readinto(self, b, single=False):
        if not _isinstance(b, SymByteArray):
            raise EngineLimit("readinto on symbolic file")
        data = self.read(self._single(b.symlen()) if single else b.symlen())
        k = data.length if _isinstance(data, SymBytes) else _len(data)
        b.b = data + b.b[k:]
        return k

    def __iter__(self):
        raise EngineLimit("line iteration over symbolic file")


# -------------------------------------------------------------------- containers keyed by value
class _Wrap:
    """A symbolic member of a native container."""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k


def unwrap(k):
    return k.k if type(k) is _Wrap else k


def has_sym(k):
    if _isinstance(k, Sym):
        return True
    if type(k) is tuple:
        return any(has_sym(x) for x in k)
    return False


def _find(native_contains, native_iter, nsym, k):
    """The stored key equal to k, or None."""
    if not has_sym(k):
        if native_contains(k):
            return k
        if nsym:
            for q in list(native_iter()):
                if type(q) is _Wrap and _truth(sym_eq(q.k, k)):
                    return q
        return None
    for q in list(native_iter()):
        kk = unwrap(q)
        if kk is k:
            return q
    for q in list(native_iter()):
        if _truth(sym_eq(unwrap(q), k)):
            return q
    return None


def _truth(x):
    return x if _isinstance(x, _bool) else _bool(x)


def sym_eq(a, b):
    """a == b, merged into one condition for lists and tuples."""
    ta, tb = type(a), type(b)
    if (ta is list and tb is list) or (ta is tuple and tb is tuple):
        if a is b:
            return True
        if _len(a) != _len(b):
            return False
        rs = []
        for x, y in zip(a, b):
            r = True if x is y else sym_eq(x, y)
            if r is False:
                return False
            if r is True:
                continue
            if not _isinstance(r, SymBool):
                r = _bool(r)
                if not r:
                    return False
                continue
            rs.append(r)
        return sym_and(rs)
    if ta is SymDict and tb is SymDict and (a._nsym or b._nsym):
        raise EngineLimit("comparison of dictionaries with symbolic keys")
    if (ta is dict or ta is SymDict) and (tb is dict or tb is SymDict):
        if dict.__len__(a) != dict.__len__(b):
            return False
        rs = []
        for k, v in dict.items(a):
            if not dict.__contains__(b, k):
                return False
            r = sym_eq(v, dict.__getitem__(b, k))
            if r is False:
                return False
            rs.append(r)
        return sym_and(rs)
    return a == b


_MISSING = object()


def among(k, keys):
    """k is one of the (ordinary) integers."""
    rs = []
    for x in sorted(keys):
        if rs and rs[-1][1] == x - 1:
            rs[-1][1] = x
        else:
            rs.append([x, x])
    return sym_or([k == a if a == b else sym_and([k >= a, k <= b]) for a, b in rs])


def select(k, pairs, missing):
    """The value stored for the symbolic integer k in a table with ordinary integer keys: one path per
    distinct value (or one merged term for many distinct numbers)."""
    pairs = [(x, v) for x, v in pairs if k.lo <= x <= k.hi]
    if not pairs or not _truth(among(k, [x for x, _ in pairs])):
        return missing()
    groups = {}
    for x, v in pairs:
        g = (type(v), v) if type(v) in (_int, _str, _bool, type(None), _bytes) else id(v)
        groups.setdefault(g, (v, []))[1].append(x)
    gs = sorted(groups.values(), key=lambda g: _len(g[1]))
    if _len(gs) > 8 and all(type(v) is _int or _isinstance(v, SymInt) for v, _ in gs):
        r = gs[-1][0]
        for v, xs in gs[:-1]:
            r = ite(among(k, xs), v, r)
        return r
    for v, xs in gs[:-1]:
        if _truth(among(k, xs)):
            return v
    return gs[-1][0]


def _table(d, k):
    return not d._nsym and _isinstance(k, (SymInt, SymZ)) and all(type(x) is _int for x in dict.keys(d))


class SymDict(dict):
    """dict that also works with symbolic keys (distinctness decided by the solver)."""

    def __init__(self, *a, **k):
        super().__init__()
        self._nsym = 0
        self.update(*a, **k)

    def _f(self, k):
        return _find(super().__contains__, super().__iter__, self._nsym, k)

    def __contains__(self, k):
        if _table(self, k):
            return _truth(among(k, dict.keys(self)))
        return self._f(k) is not None or (k is None and super().__contains__(None))

    def __getitem__(self, k):
        if not self._nsym and not has_sym(k):
            return super().__getitem__(k)
        if _table(self, k) and not hasattr(type(self), "__missing__"):
            r = select(k, list(dict.items(self)), lambda: _MISSING)
            if r is _MISSING:
                raise KeyError(k)
            return r
        q = self._f(k)
        if q is None and not (k is None and super().__contains__(None)):
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return super().__getitem__(q)

    def __setitem__(self, k, v):
        if not self._nsym and not has_sym(k):
            return super().__setitem__(k, v)
        q = self._f(k)
        if q is None:
            if has_sym(k):
                self._nsym += 1
                q = _Wrap(k)
            else:
                q = k
        super().__setitem__(q, v)

    def __delitem__(self, k):
        q = self._f(k)
        if q is None:
            raise KeyError(k)
        if type(q) is _Wrap:
            self._nsym -= 1
        super().__delitem__(q)

    def get(self, k, d=None):
        if not self._nsym and not has_sym(k):
            return super().get(k, d)
        if _table(self, k):
            return select(k, list(dict.items(self)), lambda: d)
        q = self._f(k)
        return d if q is None else super().__getitem__(q)

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def pop(self, k, d=_MISSING):
        if k in self:
            v = self[k]
            del self[k]
            return v
        if d is _MISSING:
            raise KeyError(k)
        return d

    def update(self, *a, **k):
        if a:
            o = a[0]
            if hasattr(o, "keys"):
                for x in o.keys():
                    self[x] = o[x]
            else:
                for x, y in o:
                    self[x] = y
        for x, y in k.items():
            self[x] = y

    def __iter__(self):
        if not self._nsym:
            return super().__iter__()
        return iter([unwrap(q) for q in super().__iter__()])

    def keys(self):
        return super().keys() if not self._nsym else [unwrap(q) for q in super().__iter__()]

    def items(self):
        return super().items() if not self._nsym else [(unwrap(q), v) for q, v in super().items()]

    def copy(self):
        return SymDict(self)

    def __or__(self, o):
        r = SymDict(self)
        r.update(o)
        return r

    def __deepcopy__(self, memo):
        import copy
        r = SymDict()
        for k, v in self.items():
            r[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return r

    def popitem(self):
        k, v = super().popitem()
        if type(k) is _Wrap:
            self._nsym -= 1
        return unwrap(k), v


def raw(it):
    """The elements of an iterable whose order does not matter to the caller."""
    if _isinstance(it, SymSet) and it._nsym:
        return it._raw()
    if _isinstance(it, SymList) and it._open:
        return it._raw()
    return it


class OrderInput:
    """In which order a set is iterated: as inserted or the other way round.  A counterexample prefers values
    for which CPython's hash table (integers hash to themselves) has that order."""

    def __init__(self, t, items):
        self.t, self.items = t, items

    def prefer(self):
        if not all(is_intlike(x) for x in self.items):
            return []
        mask = 7 if _len(self.items) <= 4 else 31
        slots = [x & mask for x in self.items]
        up = [bterm(a < b) for a, b in zip(slots, slots[1:])]
        down = [bterm(a > b) for a, b in zip(slots, slots[1:])]
        return [z3.If(self.t, z3.And(down), z3.And(up))]

    def evaluate(self, m):
        return z3.is_true(m.eval(self.t, model_completion=True))


def some_order(items):
    """Sets have no order: both directions are explored."""
    if _len(items) < 2:
        return items
    eng = E.ENGINE
    if eng.local is not None:
        raise NeedFork()
    eng.fresh += 1
    t = z3.Bool("set!order%d" % eng.fresh)
    if not eng.spec:
        eng.inputs["set!order%d" % eng.fresh] = OrderInput(t, list(items))
    return items[::-1] if eng.decide(t) else items


class SymList(list):
    """list(set): its order is decided when the code looks at it; sort() makes that unnecessary."""
    _open = False

    @classmethod
    def of_set(cls, s):
        r = cls(s._raw())
        r._open = True
        return r

    def _raw(self):
        return list(list.__iter__(self))

    def _close(self):
        if self._open:
            self._open = False
            self[:] = some_order(self._raw())

    def sort(self, **k):
        self._open = False
        list.sort(self, **k)

    def copy(self):
        self._close()
        return list(list.__iter__(self))


def _closing(name):
    f = getattr(list, name)

    def g(self, *a):
        self._close()
        return f(self, *a)
    return g


for _n in ("__iter__", "__getitem__", "__setitem__", "__delitem__", "__reversed__", "__add__", "__iadd__", "__mul__", "__eq__", "__ne__", "__lt__", "__gt__", "__le__",
           "__ge__", "append", "extend", "insert", "pop", "remove", "reverse", "index"):
    setattr(SymList, _n, _closing(_n))


class SymDefaultDict(SymDict):
    def __init__(self, default_factory=None, *a, **k):
        self.default_factory = default_factory
        super().__init__(*a, **k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        self[k] = v = self.default_factory()
        return v


class SymSet(set):
    """set that also works with symbolic members."""

    def __init__(self, it=()):
        super().__init__()
        self._nsym = 0
        for x in raw(it):
            self.add(x)

    def _f(self, k):
        return _find(super().__contains__, lambda: iter(self._order()), self._nsym, k)

    def _order(self):
        # deterministic order: native members (native order), then symbolic ones in insertion order
        return [q for q in super().__iter__() if type(q) is not _Wrap] + sorted(
            (q for q in super().__iter__() if type(q) is _Wrap), key=lambda q: self._seq[id(q)])

    @property
    def _seq(self):
        try:
            return self.__dict__["_s"]
        except KeyError:
            self.__dict__["_s"] = {}
            return self.__dict__["_s"]

    def __contains__(self, k):
        if not self._nsym and not has_sym(k):
            return super().__contains__(k)
        return self._f(k) is not None

    def add(self, k):
        if not self._nsym and not has_sym(k):
            return super().add(k)
        if self._f(k) is None:
            if has_sym(k):
                q = _Wrap(k)
                self._nsym += 1
                self._seq[id(q)] = _len(self._seq)
                super().add(q)
            else:
                super().add(k)

    def discard(self, k):
        q = self._f(k)
        if q is not None:
            if type(q) is _Wrap:
                self._nsym -= 1
            super().discard(q)

    def remove(self, k):
        if k not in self:
            raise KeyError(k)
        self.discard(k)

    def update(self, *its):
        for it in its:
            for x in raw(it):
                self.add(x)

    def _raw(self):
        return [unwrap(q) for q in self._order()]

    def __iter__(self):
        if not self._nsym:
            return super().__iter__()
        return iter(some_order(self._raw()))

    def __or__(self, o):
        r = SymSet(self)
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def union(self, *os):
        r = SymSet(self)
        r.update(*os)
        return r

    def __and__(self, o):
        return SymSet([x for x in self._raw() if x in o])

    intersection = __and__

    def __sub__(self, o):
        return SymSet([x for x in self._raw() if x not in o])

    difference = __sub__

    def __rsub__(self, o):
        return SymSet(o) - self

    def __xor__(self, o):
        return (self - o) | (SymSet(o) - self)

    symmetric_difference = __xor__

    def __iand__(self, o):
        return self & o

    def __isub__(self, o):
        return self - o

    def issubset(self, o):
        return all(x in o for x in self._raw())

    def issuperset(self, o):
        return all(x in self for x in raw(o))

    def isdisjoint(self, o):
        return not any(x in self for x in raw(o))

    def __le__(self, o): return self.issubset(o)
    def __ge__(self, o): return self.issuperset(o)
    def __lt__(self, o): return self.issubset(o) and not self.issuperset(o)
    def __gt__(self, o): return self.issuperset(o) and not self.issubset(o)

    def copy(self):
        return SymSet(self)

    def __deepcopy__(self, memo):
        return SymSet(self)

    def __eq__(self, o):
        if _isinstance(o, (set, frozenset)):
            return _len(self) == _len(o) and all(x in self for x in raw(o))
        return NotImplemented

    __hash__ = None

    def pop(self):
        for x in self:
            self.discard(x)
            return x
        raise KeyError("pop from an empty set")

    def clear(self):
        super().clear()
        self._nsym = 0
