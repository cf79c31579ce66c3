"""Small programs that exercise Python features with symbolic operands (see ../conformance.py).
Arguments by name: x, y bytes; n 0..7; w 32-bit; z, q mathematical integers; b bytes string of 6; f file; e bool."""
import array
import bisect
import collections
import contextlib
import copy
import csv
import dataclasses
import enum
import functools
import io
import itertools
import json
import math
import operator
import struct
import typing


def a_arith(x, y):
    return [x + y, x - y, x * y, -x, ~x & 0xFF, abs(x - y), x ** 2, +x]


def a_div(x, y):
    return [x // 7, x % 7, divmod(x, 10), divmod(w16(x, y), 256), x // 16, -x // 3, -x % 5, (x - y) // 4, (x - y) % 4]


def w16(x, y):
    return x << 8 | y


def a_shift(x, n):
    return [x << n, x >> n, 1 << n, (x >> n) & 1, x & ~(1 << n), x ^ (1 << n)]


def a_bits(x):
    return [x.bit_length(), bin(x).count("1") if x < 4 else 0, int(bool(x & 8)), not x & 8]


def a_bytes(x, y):
    return [x.to_bytes(1, "little"), w16(x, y).to_bytes(2, "big"), bytes([x, y]), bytes((x, y))[0], bytearray([x, y])[1], list(bytes([x, y, x]))]


def a_round(x):
    return [round(x * 1.6), int(x * 1.6), math.floor(x / 4), math.ceil(x / 4), int(x / 4), round(x / 4, 2), x / 4]


def a_minmax(x, y):
    return [min(x, y), max(x, y), max(0, x - y), sum([x, y, 1]), min([x, y, 5]), max(x, 3, y)]


def a_cmp(x, y):
    return [x < y, x <= y, x == y, x != y, 3 < x <= y, x in (1, 2, y), x not in {4, 5} , x in range(3, 100, 7)]


def a_bool(x, y):
    return [x and y, x or y, not x, bool(x), x > 3 and y < 4, x if y else 0, all([x, y]), any((x, y)), (x > 3) + (y > 3), (x > 3) ^ (y > 3)]


def a_ord(b):
    return [ord(b[0:1]), ord(b[1:2]) + 1, chr(65 + (b[0] & 7))]


def a_int(b, x):
    return [int.from_bytes(b[0:2], "little"), int.from_bytes(b[:4], "big"), int.from_bytes(b[1:3], byteorder="little", signed=True), int(x), int(str(x & 7)), operator.index(x)]


def a_struct(b):
    return [struct.unpack("<I", b[:4]), struct.unpack("<HBB", b[:4]), struct.unpack_from("<H", b, 1)[0], struct.Struct("<BH").unpack(b[:3]), struct.unpack("<bh", b[:3]), list(struct.iter_unpack("<H", b)), struct.pack("<H", b[0])]


def a_slices(b):
    return [b[1:3], b[-1], b[::-1], b[::2], len(b), b + b"ab", b[0:2] == b"\x01\x02", b.startswith(b"\x1f\x8b"), b.hex() if b[0] == 3 and b[1:] == b"\0" * 5 else "", list(b), tuple(b[:2]), b"ab" + b[:1], b[:2] * 2]


def a_unpackbytes(b):
    lo, hi = b[:2]
    p, *rest = b
    return [lo | hi << 8, p, rest, [i for i in b], dict(enumerate(b[:2])), [i + j for i, j in zip(b, b[1:])], sum(b), max(b[:2]), any(b), b"\0" in b]


def a_mview(b):
    m = memoryview(b)
    return [m[0], bytes(m[1:3]), len(m)]


def a_file(f):
    a = f.read(2)
    p = f.tell()
    f.seek(1)
    c = f.read(1)
    f.seek(2, io.SEEK_CUR)
    d = f.read(1)
    f.seek(-1, io.SEEK_END)
    g = f.read()
    f.seek(0)
    return [a, p, c, d, g, f.read(0), f.read(1), f.seekable(), f.readable(), f.read1(1), f.tell(), f.read(-1), f.read(1), f.read(None)]


def a_fileloop(f):
    out = []
    for c in iter(lambda: f.read(1), b""):
        out.append(c[0])
        if len(out) > 3:
            break
    while chunk := f.read(2):
        out.append(len(chunk))
    return out


def a_filewrap(f):
    r = io.BufferedReader(io.BytesIO(f.read()))
    return [r.read(1), r.peek(1)[:1], r.read(2)]


def a_str(x, y):
    return [f"{x:02X}-{y}", "%d:%02x" % (x, y), "{} {:>4}".format(x, y), str(x) + "!", "{a}/{b}".format(a=x, b=y), f"{x!s}{y!r}", ",".join(map(str, [x, y])), f"{x:0>2X}", "%s" % x, "{:X}".format(x), hex(x), format(x, "02x"), str(x).zfill(4), str(x).rjust(3)]


def a_str2(x):
    s = str(x & 3) + "ab"
    return [s.upper(), s[0], len(s), s.split("a"), s.replace("a", "c"), s == "1ab", s.startswith("2"), "3" in s, s.strip(), s.lower(), s * 2, list(s), s[::-1], s.find("a"), s.isdigit(), s.encode(), sorted(s)]


def a_strcut(x):
    s = "AB"[x & 1] + "-" + "%d" % (x >> 5)
    return [s, s.ljust(6) + "|", s.endswith("3"), s.partition("-"), "".join(c for c in s if c != "-")]


def a_float(x, n):
    return ["%.2f" % (n * 1.5), "{:02.0f}".format(n * 1.6), "{:.2}".format(n / 8), round(n * 1.6), f"{n / 4:.1f}", n / 2 > 1.2, n * 0.5 == 1.5]


def a_dict(x, y):
    d = {1: "a", 2: "b", x: "c"}
    d[y] = "d"
    return [d.get(3, "-"), len(d), x in d, d.get(x), sorted(d)[0], d.setdefault(5, "z"), d.pop(1, None), 1 in d, list(d.values())[-1]]


def a_dict2(n):
    names = {0: "C", 1: "D", 4: "E"}
    return [names.get(n), names.get(n, "?"), names[n] if n in names else "-", {v: k for k, v in names.items()}, n in names.keys(), (names | {n: "x"})[1], dict(names, a=n)["a"]]


def a_dict3(x, y):
    d = collections.defaultdict(list)
    d[x & 1].append(y)
    d[y & 1].append(x)
    c = collections.Counter([x & 1, y & 1])
    o = collections.OrderedDict()
    o[x & 1] = 1
    o[y & 1] = 2
    return [sorted(d.items()), c[0], len(c), list(o.items())]


def a_set(x, y):
    s = {x & 3, 1}
    s.add(y & 3)
    t = frozenset([2, x & 1])
    return [len(s), sorted(s), 2 in s, sorted(s | t), sorted(s & {1, 2}), s == {1}, s >= {1}, sorted(s - {1}), sorted(s ^ {1})]


def a_list(x, y):
    a = [x, y, 3]
    a.sort()
    c = sorted([x, y, 3], key=lambda v: -v)
    d = [5, 6, 7, 8, 9, 10, 11, 12]
    d[x & 7] = y
    return [a, c, d, d.index(y), d.count(6), a[::-1], list(reversed(a)), d[x & 7], [5, 6, 7, 8][y & 3], sorted([(x, 1), (y, 2)]), d[: x & 3], [0] * (x & 3), list(range(x & 3)), a.index(3), [(i, v) for i, v in enumerate(a)]]


def a_tuple(x, y):
    t = (x, y)
    return [t < (y, x), t == (1, 2), t + (1,), hash(t) == hash((x, y)), max([t, (3, 4)]), t[x & 1], (x, y) in [(1, 2), (3, 4)]]


def a_bisect(x):
    k = [3, 10, 60, 200]
    return [bisect.bisect_right(k, x), bisect.bisect_left(k, x), bisect.bisect(k, x)]


def a_iter(x, y):
    a = [x, y, 7]
    return [list(itertools.accumulate(a)), list(itertools.chain(a, [1])), functools.reduce(lambda p, q: p * 10 + q, a), next((i for i, v in enumerate(a) if v > 100), -1), [list(g) for _, g in itertools.groupby([x > 3, y > 3])], list(itertools.takewhile(lambda v: v > 9, a)), list(filter(None, a)), list(map(operator.add, a, a)), list(itertools.islice(a, 1, 3)), list(zip(*[iter(a)] * 3))]


def a_iter2(x, y):
    a = [x, y, 7]
    return [list(itertools.pairwise(a)), list(itertools.dropwhile(lambda v: v > 9, a)), list(itertools.filterfalse(lambda v: v > 9, a)), list(itertools.starmap(max, [(x, y), (1, x)])), list(itertools.compress(a, [x > 1, 0, y > 1])), list(itertools.product([x], [1, y])), list(itertools.zip_longest(a, [1])), list(itertools.repeat(x, 2)), [v for v, _ in zip(itertools.count(x), "ab")], sum(1 for v in a if v & 1), min(a, key=lambda v: abs(v - 50)), max(enumerate(a), key=operator.itemgetter(1))[0]]


def a_match(x, y):
    match x:
        case 1 | 2:
            r = "low"
        case v if v < 100:
            r = "mid"
        case 200:
            r = "200"
        case _:
            r = "high"
    match (x & 1, y & 1):
        case (0, 0):
            q = 0
        case (1, k):
            q = k
        case [p, *_]:
            q = p + 9
    return [r, q]


class Color(enum.Enum):
    RED = 0
    GREEN = 1
    BLUE = 2
    BLACK = 3


class Fl(enum.Flag):
    A = 1
    B = 2
    C = 4


class Num(enum.IntEnum):
    P = 0
    Q = 1
    R = 2
    S = 3


class IF(enum.IntFlag):
    A = 1
    B = 2
    C = 4


def a_enum(x):
    c = Color(x & 3)
    return [c.name, c.value, c is Color.RED, c == Color.BLUE, str(c), c in (Color.RED, Color.GREEN), {Color.RED: 1}.get(c, 0), Color["RED"] == c, list(Color)[x & 3].name, [k.name for k in Color if k == c], hash(c) == hash(Color.RED), isinstance(c, Color)]


def a_flag(n):
    f = Fl(n)
    return [bool(f), bool(f & Fl.A), Fl.B in f, f.value, (f | Fl.C).value, [k.name for k in Fl if k in f], "|".join(k.name for k in Fl if f & k), f == Fl.A | Fl.B, (~f).value, (f ^ Fl.A).value, [k.name for k in f], len(f), f.name if f else None]


def a_intenum(x, n):
    c = Num(x & 3)
    return [c + 1, c == 2, c.name, int(c), c > Num.P, [7, 8, 9, 10][c], IF(n) & 1, int(IF(n)), IF.B in IF(n), bool(IF(n) & IF.C), IF(n) | 8]


@dataclasses.dataclass
class P:
    a: int = 0
    b: int = 1
    c: list = dataclasses.field(default_factory=list)


@dataclasses.dataclass(frozen=True, order=True)
class Q:
    a: int
    b: int


class NT(typing.NamedTuple):
    a: int
    b: int = 2


def a_dataclass(x, y):
    p = P(x, y)
    r = dataclasses.replace(p, a=3)
    return [p == P(3, 4), r == p, dataclasses.asdict(p), dataclasses.astuple(p)[0], Q(x, y) < Q(3, 4), Q(x, y) == Q(y, x), len({Q(x, y), Q(3, 4)}), {Q(x, y): 1}.get(Q(3, 4)), NT(x)._asdict(), NT(x, y) == (3, 4), NT(x)._replace(b=y).b, repr(p) == "" , [f.name for f in dataclasses.fields(p)], copy.copy(p) == p, copy.deepcopy(p).a]


def a_namedtuple(x, y):
    T = collections.namedtuple("T", "a b")
    t = T(x, y)
    a, c = t
    return [t.a, c, t == T(1, 2), t in {T(1, 2): 0}, t[1]]


class O:
    __slots__ = ("v", "w")

    def __init__(self, v, w=0):
        self.v, self.w = v, w

    def __eq__(self, o):
        if not isinstance(o, O):
            return NotImplemented
        return self.v == o.v and self.w == o.w

    def __hash__(self):
        return hash((self.v, self.w))

    def __lt__(self, o):
        return self.v < o.v

    def __bool__(self):
        return self.v > 5

    def __len__(self):
        return self.w

    def __contains__(self, k):
        return k == self.v

    def __getitem__(self, k):
        return self.v + k

    def __call__(self, k):
        return self.w + k

    @property
    def total(self):
        return self.v + self.w

    @functools.cached_property
    def none(self):
        return 0


def a_object(x, y):
    o, p = O(x, y), O(3, y)
    return [o == p, o != p, o in [p], len({o, p}), {p: 1}.get(o), sorted([o, p])[0].v, 1 if o else 2, 4 in o, o[y], o(1), o.total, max(o, p).v, [o, p].index(O(3, y)), o == 3, not o]


class A:
    def __init__(self, v):
        self.v = v
        self.l = [v]


def a_attrs(x, y):
    a = A(x)
    setattr(a, "w", y)
    b = copy.copy(a)
    c = copy.deepcopy(a)
    a.l.append(y)
    b.v = 9
    return [vars(a)["v"], getattr(a, "w"), getattr(a, "u", None), hasattr(a, "w"), b.v, len(b.l), c.l, sorted(vars(c)), a.__dict__ == c.__dict__, vars(b) == vars(a), {k: v for k, v in vars(a).items() if k != "l"}, operator.attrgetter("v", "w")(a)]


def a_gen(x, y):
    def g():
        yield x
        got = yield y
        yield got
        if x > 5:
            return
        yield from [1, 2]
    it = g()
    r = [next(it), next(it), it.send(7)]
    r += list(it)
    return r


def a_except(x):
    out = []
    try:
        if x > 100:
            raise ValueError("big", x)
        out.append([1, 2, 3][x])
        out.append({0: 5}[x])
    except IndexError:
        out.append("index")
    except KeyError as err:
        out.append("key")
    except ValueError as err:
        out.append(err.args[1])
    else:
        out.append("fine")
    finally:
        out.append("end")
    with contextlib.suppress(ZeroDivisionError):
        out.append(10 // (x - 3))
    try:
        out.append(math.log2(8))
        assert x != 4
    except AssertionError:
        out.append("assert")
    return out


def a_ctx(x):
    log = []

    @contextlib.contextmanager
    def c(k):
        log.append(k)
        try:
            yield k + 1
        except ValueError:
            log.append("caught")
        finally:
            log.append("out")
    with c(x) as v, contextlib.ExitStack() as st:
        st.callback(log.append, v)
        if x > 7:
            raise ValueError
        log.append("in")
    return log


def a_while(x, n):
    r, i = [], 0
    while i < n:
        i += 1
        if i == 3:
            continue
        if x == i:
            break
        r.append(i)
    else:
        r.append("else")
    for k in range(n):
        r.append(k)
    for k in range(8 - n, 8):
        r.append(k * x)
    return r


def a_csv(x, y):
    s = io.StringIO()
    w = csv.writer(s, lineterminator="\n")
    w.writerow([x, "a", y])
    w.writerows([[1, x]])
    print(x, y, sep=",", file=s)
    s.write(f"{y}\n")
    return s.getvalue()


def a_partial(x, y):
    f = functools.partial(lambda p, q=1: p + q, x)
    g = functools.partialmethod
    return [f(), f(q=y), (lambda *a, **k: (a, k["z"]))(x, z=y), [h(x) for h in (lambda v: v + 1, lambda v: v * 2)], functools.cmp_to_key(lambda a, b: a - b)(x) < functools.cmp_to_key(lambda a, b: a - b)(y)]


@functools.lru_cache(maxsize=None)
def cached(v):
    return v * 2


@functools.singledispatch
def kind(v):
    return "other"


@kind.register
def _(v: int):
    return "int"


@kind.register
def _(v: str):
    return "str"


def a_cache(x, y):
    return [cached(x), cached(y), cached(x), kind([x])]


def a_deque(x, y):
    d = collections.deque([x, y], maxlen=3)
    d.append(5)
    d.appendleft(6)
    d.rotate(1)
    return [list(d), d.popleft(), len(d), x in d, collections.deque([1, x]) == collections.deque([1, y])]


def a_chain(x):
    c = collections.ChainMap({1: "a"}, {2: "b", 1: "c"})
    return [c.get(1), c.get(x & 3), dict(c)]


def a_array(x, y):
    a = array.array("B", [1, 2])
    h = bytearray(3)
    h[1] = x
    h += bytes([y])
    return [a[0], list(h), bytes(h)[1], int.from_bytes(h, "little")]


def a_z(z, q):
    return [z + q, z - q, z * 3, z // 100, z % 100, divmod(z, 64), z // 735 // 64, z < q, min(z, q), z == q, sorted([z, q]), max(0, z - 5), -z // 7, f"{z}", str(z % 64), z and 1, abs(z - q)]


def a_z2(z, q):
    t = q % 1000 + 1
    row = z // t
    return [row % 64, row // 64, row >> 6, row & 63, divmod(row, 64), z % t, z - row * t, int(z / 4), round(z / 4), bool(z % t), (z + t - 1) // t, -(-z // t), z / t >= 1]


def a_z3(z, x):
    r = []
    for i in range(min(z, 3)):
        r.append(i)
    d = {z: 1, 5: 2}
    return [r, d.get(5), [10, 20, 30][z] if z < 3 else -1, z in (1, 2), {z, x} == {1}, z + x, z * x if x < 3 else 0, z.bit_length() if z < 9 else 0, hex(z) if z < 20 else "", "%d" % z, f"{z:>6}" if z < 10 else ""]


def a_w(w):
    return [w & 0xFFFF, w >> 16, w * 3, w + 1, w % 10, w // 1000, -w, w == 5, w > 1 << 31, (w ^ 0xFFFFFFFF) + 1, w << 3, (w * 44100) // 735 if w < 100000 else 0, w.to_bytes(4, "little"), struct.pack("<I", w), w / 2 == 1]


def a_isinstance(x, e, b, z):
    return [isinstance(x, int), isinstance(e, bool), isinstance(x, bool), isinstance(b, bytes), isinstance(z, (int, float)), type(x) is int, type(b) == bytes, type(e) is bool, isinstance(b, (bytes, bytearray)), type(x).__name__, callable(x), isinstance(x, typing.Hashable)]


def a_e(e, x):
    return [e + 1, int(e), not e, e and x, e == True, e is True, [1, 2][e], "yes" if e else "no", str(e), e | (x > 3), e & (x > 3), e ^ (x > 3), e != (x > 3), {True: 1, False: 0}[e], f"{e}", bool(x) is e, x * e, -e, sum([e, e, 1]), (1, 2)[e]]


def a_comp(x, y):
    m = [[x, y], [1, 2]]
    return [[v for r in m for v in r if v > 2], {k: v for k, v in zip("ab", m[0])}, {v & 1 for v in m[0]} == {0}, sum(v for r in m for v in r), [*m[0], *m[1]], {**{"a": x}, "b": y}, [r[:] for r in m], list(zip(*m)), list(map(list, m)), dict([("a", x)]), list(map(max, m)), [[0] * 2 for _ in range(2)], (lambda a, *b: b)(*m[0])]


def a_global(x):
    global COUNT
    COUNT = x
    def inner():
        nonlocal x
        x = x + 1
        return x
    return [inner(), COUNT, x]


def a_walrus(x, y):
    if (k := x & 7) > 3:
        return [k]
    return [k, [j for i in range(3) if (j := i + k) > 1], (m := y) + m]


def a_del(x):
    a = [1, x, 3, 4]
    del a[1:3]
    d = {1: x, 2: 3}
    del d[2]
    a.insert(0, x)
    a.extend([x, 5])
    a.remove(5)
    a += [x]
    a[1:2] = [7, x]
    b = a.copy()
    b.clear()
    d.update({3: x}, k=x)
    return [a, d, b, a.pop(), a.pop(0), d.popitem(), d.keys() == {1}, d.items() >= {(1, 5)} if False else 0]


def a_aug(x, y):
    r = x
    r += y
    r *= 2
    r -= 1
    r //= 3
    r <<= 2
    r |= 1
    r &= 0xFFF
    r ^= 5
    r %= 100
    r >>= 1
    return r


def a_print(x):
    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        print("v", x, end=";")
    return s.getvalue()


def a_inherit(x, y):
    class B0:
        k = 3

        def __init__(self, v):
            self.v = v

        def f(self):
            return self.v + self.k

        @classmethod
        def make(cls, v):
            return cls(v * 2)

        @staticmethod
        def st(v):
            return v + 1

        def __repr__(self):
            return f"B({self.v})"

        def __iter__(self):
            yield self.v
            yield self.k

    class B1(B0):
        k = 4

        def __init__(self, v, w):
            super().__init__(v)
            self.w = w

        def f(self):
            return super().f() * 2

        def __getattr__(self, n):
            if n.startswith("g"):
                return self.w
            raise AttributeError(n)
    b = B1(x, y)
    return [b.f(), B0.make(x).v, b.st(y), str(b), list(b), b.gain, hasattr(b, "zzz"), isinstance(b, B0), sum(b), x in b, [*b], dict(zip("ab", b)), getattr(b, "k")]


def a_zbits(z, q):
    t = q % 1000 + 1
    row = z // t
    return [row & 63, row >> 6, (row >> 6 << 6) + (row & 0x3F), z & 0xF0F, z | 3, z ^ 5, ~z, z & ~63, 1 << (z & 3), -z & 7, z ** 2, +z]


def a_hash(x, y):
    seen = {}
    seen[hash((x, y))] = 1
    return [hash((x, y)) == hash((1, 2)), seen.get(hash((1, 2)), 0), hash(x) == hash(y), hash("a") == hash("a"), hash(str(x)) == hash("7"), hash(O(x, y)) == hash(O(3, y)), len({O(x, y), O(3, y)})]


def a_strjoin(x, y, n):
    k = ",".join(str(v) for v in (x, y))
    j = "".join(str(v) for v in (x & 15, y & 15))
    d = {"1,2": 5, "11": 6}
    return [d.get(k), d.get(j), k == j, j == "110", f"{n}:{n + 1}" == "3:4"]


def a_t_joined(x, y, n):
    a, b = f"{x}{y}", f"{n}{x}"
    r = [a == b]
    if a == b:
        r.append("same")
        if x > 50:
            r.append("big")
    return r


def a_t_joined_key(x, y, n):
    d = {f"{x}{y}:{n}": 1, f"{y}1{n}": 2}
    return [d.get(f"{n}{x}:{y}", 0), len(d), f"{n}{n}1{x}" in d]


def a_t_hex_key(x, y):
    d = {f"{x:x}{y:02x}": 1, f"{x:02X}": 2}
    k = f"{y:x}a1"
    return [k in d, f"{y:X}" in d, f"{x:03d}" == f"0{y}", f"{x:x}" == "fe"]


def a_t_literal_between(x, y, n):
    if f"{x}1{y}" == f"{y}1{n}":
        return [x == y and y == n, "equal"]
    return ["other"]


def a_t_branches(x, y, n):
    r = []
    for i, (p, q) in enumerate(((f"{n}{n}1{x}", f"{y}1{n}"), (f"{x:x}{y:02x}", f"{y:x}a1"), (f"{x:03d}", f"0{y}"), (f"{x:X}-{y}", f"FE-{n}{n}"),
                                (f"{x}{y}{n}", f"{n}{y}{x}"), (f"{x}{y}", "1234"), (f"a{x}1", f"a1{y}"), (f"{x:02}{y:o}", f"{y:03d}{n}"))):
        if p == q:
            r.append((i, x == y))
    return r


def a_bytearray_building(x, y, b):
    h = bytearray()
    h.append(x)
    h += b[:2]
    h.extend([y, 1])
    h[0:1] = b"\x01\x02"
    h.insert(1, y)
    t = h.copy()
    t.reverse()
    g = bytearray(b)
    del g[:2]
    g[-1] = x ^ y
    k = g.pop()
    return [h, t, g, k, len(h), bytes(h) == bytes(t), h[2:4], h == bytearray([1, x, 2]), isinstance(h, bytes), isinstance(h, bytearray), type(h) is bytearray, y in h, b"\x00" + g, g + b"\x00", h.find(b"\x01"), h.startswith(b"\x01"), bool(g), bytes(reversed(bytes(h)))]


def a_bytearray_alias(x, y):
    h = bytearray([x, y])
    g = h
    c = copy.copy(h)
    d = copy.deepcopy([h, h])
    g[0] = 7
    d[0][1] = 9
    g += b"abc"
    return [h, g, c, d, h is g]


def a_bytearray_read(f, n):
    buf = bytearray()
    while len(buf) < n:
        part = f.read(n - len(buf))
        if not part:
            break
        buf += part
    return [len(buf), buf, int.from_bytes(buf, "little"), f.tell()]


def a_readinto(f, n):
    buf = bytearray(4)
    k = f.readinto(buf)
    m = f.readinto(buf)
    return [k, m, buf, struct.unpack("<HH", buf), struct.unpack_from("<H", buf, 1)]


def a_bytearray_errors(x, w, n):
    h = bytearray(2)
    out = []
    for f in (lambda: h.append(x * 2), lambda: h.__setitem__(n, x), lambda: h.__setitem__(0, w), lambda: w.to_bytes(2, "little"), lambda: struct.pack("<H", w), lambda: struct.pack("<b", x), lambda: (x - y_of(n)).to_bytes(1, "big")):
        try:
            out.append(f())
        except (ValueError, IndexError, OverflowError, struct.error) as e:
            out.append(type(e).__name__)
    return [out, h]


def y_of(n):
    return n * 16


def a_packing(x, w, b, z):
    return [struct.pack("<IBH", w, x, w & 0xFFFF), struct.pack(">I", w), struct.pack("<3s?", b[:3], x), struct.pack("4sB", b[:2], x), struct.Struct("<h").pack(x - 128), w.to_bytes(8, "big"), (x - 128).to_bytes(2, "little", signed=True), x.to_bytes(3, "little") + bytes(2), min(w, 0xFFFFFF).to_bytes(3, "little"), (z % 1000).to_bytes(2, "little")]


def a_rounding(z, q):
    r = round(z / 44100, 3)
    d = (z - q) / 7
    return [bool(r), r >= 0, int(60 / (r or z / 44100 or 1)) > 100, int(r * 1000 + 0.5) == 7, d > 0, (100 / d if d else 0) > 1, (z / d < 0) if d else None, round(z, -2), round(z - q, -1), round(z / 3, -1) >= 10]


def a_ropetext(x, y):
    s = "a%d, b%d CAR2\n  c%02x\nz" % (x, y, x)
    return [s.replace(", ", "; "), s.replace("CAR2", "CAR3"), s.replace("\n", "\r\n"), s.splitlines(), s.splitlines(True), (s + "\n").splitlines(), s.replace("b", "bb") if y < 3 else 0, s.replace("  ", "\t"), s.split(" ")]


def a_ropewords(x):
    s = "%d12%d" % (x & 7, x >> 5)
    return [s.replace("12", "-"), s.replace("1", ""), s.replace("x", "y")]


def a_ropebytes(x, y):
    b = ("a%d;" % x).encode("utf-8")
    c = b + b"end" + ("%d" % y).encode()
    return [c, b"<" + b, isinstance(b, bytes), type(b) is bytes, bytes(b), c.decode(), (b"%d" % 5) + b, bool(b), b == b"a5;"]


def a_jsontext(x, y, n):
    import json
    d = {"b": [x, y, None, True], "a": {"t": "v%d" % y, "n": n}, "e": [], "s": "q\"\n\u00e4"}
    t = json.dumps(d, indent=4)
    u = json.dumps(d, sort_keys=True, separators=(",", ":"))
    return [t.replace("    ", "\t"), t.splitlines()[2:4], u.encode(), json.loads(u), json.loads("[%s, %s]" % (json.dumps(x), json.dumps([y, 1]))), json.loads(json.dumps(d, indent="\t")) == d, t.startswith("{"), "\n".join(u.split(","))]
