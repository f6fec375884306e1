"""Values of the symbolic machine. All are immutable."""
import z3

LENMAX = 1 << 47  # an object is smaller than the x86-64 user address space


class Agg:
    __slots__ = ("v", "f", "ty")

    def __init__(self, v, f, ty=None):
        self.v, self.f, self.ty = v, tuple(f), ty

    def __repr__(self):
        return "Agg(%s,%r)" % (self.v, list(self.f))


class Cor:
    """a coroutine (async block): variant, captured variables, saved locals"""
    __slots__ = ("ty", "v", "up", "sv")

    def __init__(self, ty, v, up, sv):
        self.ty, self.v, self.up, self.sv = ty, v, tuple(up), sv

    def __repr__(self):
        return "Cor(%d,v%s,%r,%r)" % (self.ty, self.v, list(self.up), self.sv)


class Const:
    """a read-only anonymous location"""
    __slots__ = ("val",)

    def __init__(self, val):
        self.val = val

    def __repr__(self):
        return "Const(%r)" % (self.val,)


class Ptr:
    __slots__ = ("a", "p", "m")

    def __init__(self, a, p=(), m=None):
        self.a, self.p, self.m = a, tuple(p), m

    def __repr__(self):
        return "Ptr(%s,%s,%s)" % (self.a, self.p, self.m)


class FnV:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn  # the fndef json

    def __repr__(self):
        return "Fn(%s)" % self.fn.get("path")


class Sym:
    __slots__ = ("ty", "name", "v")

    def __init__(self, ty, name, v=None):
        self.ty, self.name, self.v = ty, name, v

    def __repr__(self):
        return "Sym(%s:%d%s)" % (self.name, self.ty, "" if self.v is None else " as %d" % self.v)


class Seq:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return "Seq%r" % (list(self.items),)


class Obj:
    """a library object, described by its contract state"""
    __slots__ = ("k", "d")

    def __init__(self, k, **d):
        self.k, self.d = k, d

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def set(self, **kw):
        d = dict(self.d)
        d.update(kw)
        return Obj(self.k, **d)

    def __repr__(self):
        return "Obj(%s %s)" % (self.k, ", ".join("%s=%r" % x for x in self.d.items()))


UNIT = Agg(0, ())


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def bv(x, bits):
    if isinstance(x, bool):
        return z3.BitVecVal(int(x), bits)
    if isinstance(x, int):
        return z3.BitVecVal(x, bits)
    return x


def norm_int(x):
    """python int when the expression is a numeral"""
    if isinstance(x, int):
        return x
    x = z3.simplify(x)
    if z3.is_bv_value(x):
        return x.as_long()
    return x


def norm_bool(x):
    if isinstance(x, bool):
        return x
    x = z3.simplify(x)
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def NOT(a):
    if isinstance(a, bool):
        return not a
    return norm_bool(z3.Not(a))


def AND(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return norm_bool(z3.And(*out)) if len(out) > 1 else norm_bool(out[0])


def OR(*xs):
    return NOT(AND(*[NOT(x) for x in xs]))


# ------------------------------------------------------------------ byte contents
# segments: ('c', bytes) constant, ('i', bv, n) big endian integer of n bytes, ('s', base, off, len) part of a symbolic
# byte string, ('f', byte, len) fill, ('x', rope, off, len) part of a rope whose segment borders are not decided,
# ('t', tag, len) text/bytes known only by the term `tag` that produced it

_arrays = {}


def base_array(name):
    if name not in _arrays:
        _arrays[name] = z3.Array("mem!" + name, z3.BitVecSort(64), z3.BitVecSort(8))
    return _arrays[name]


def ladd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & ((1 << 64) - 1)
    return norm_int(bv(a, 64) + bv(b, 64))


def lsub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & ((1 << 64) - 1)
    return norm_int(bv(a, 64) - bv(b, 64))


def leq(a, b):
    """equality of two machine integers of 64 bit"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return norm_bool(bv(a, 64) == bv(b, 64))


def lule(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return norm_bool(z3.ULE(bv(a, 64), bv(b, 64)))


def lult(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return norm_bool(z3.ULT(bv(a, 64), bv(b, 64)))


class Rope:
    __slots__ = ("segs", "_len", "tag")

    def __init__(self, segs=()):
        out = []
        for s in segs:
            n = seglen(s)
            if isinstance(n, int) and n == 0:
                continue
            if s[0] == "i":
                v = norm_int(s[1])
                if isinstance(v, int):
                    s = ("c", v.to_bytes(s[2], "big"))
                else:
                    s = ("i", v, s[2])
            if s[0] == "f" and isinstance(s[1], int) and isinstance(s[2], int) and s[2] <= 4096:
                s = ("c", bytes([s[1]]) * s[2])
            if s[0] == "c" and out and out[-1][0] == "c":
                out[-1] = ("c", out[-1][1] + s[1])
            elif s[0] == "s" and out and out[-1][0] == "s" and out[-1][1] == s[1] and leq(ladd(out[-1][2], out[-1][3]), s[2]) is True:
                out[-1] = ("s", s[1], out[-1][2], ladd(out[-1][3], s[3]))
            elif s[0] == "x" and out and out[-1][0] == "x" and leq(ladd(out[-1][2], out[-1][3]), s[2]) is True and rope_same(out[-1][1], s[1]):
                out[-1] = ("x", s[1], out[-1][2], ladd(out[-1][3], s[3]))
            else:
                out.append(s)
        if len(out) == 1 and out[0][0] == "x" and leq(out[0][2], 0) is True and leq(out[0][3], out[0][1].len) is True:
            out = list(out[0][1].segs)
        self.segs = tuple(out)
        self._len = None

    @property
    def len(self):
        if self._len is None:
            n = 0
            for s in self.segs:
                n = ladd(n, seglen(s))
            self._len = n
        return self._len

    def __add__(self, o):
        return Rope(self.segs + o.segs)

    def __repr__(self):
        return "Rope[%s]" % " ".join(segrepr(s) for s in self.segs)

    def const(self):
        """python bytes when fully constant, else None"""
        if not self.segs:
            return b""
        if len(self.segs) == 1 and self.segs[0][0] == "c":
            return self.segs[0][1]
        return None


def segrepr(s):
    if s[0] == "c":
        return "'%s'" % s[1][:40].hex() if len(s[1]) > 0 else "''"
    if s[0] == "x":
        return "x(%r,%s,%s)" % (s[1], s[2], s[3])
    return "%s(%s)" % (s[0], ",".join(str(x) for x in s[1:]))


def seglen(s):
    k = s[0]
    if k == "c":
        return len(s[1])
    if k == "i":
        return s[2]
    if k in ("s", "x"):
        return s[3]
    return s[2]


def rconst(b):
    return Rope([("c", bytes(b))])


def rint(v, n):
    return Rope([("i", bv(v, 8 * n) if not isinstance(v, int) else z3.BitVecVal(v, 8 * n), n)])


def seg_byte(s, i):
    """the byte at offset i (int or BV64) of segment s, assuming i is inside"""
    k = s[0]
    if k == "c":
        if isinstance(i, int):
            return s[1][i] if i < len(s[1]) else 0
        r = z3.BitVecVal(0, 8)
        for j, b in enumerate(s[1]):
            r = z3.If(bv(i, 64) == j, z3.BitVecVal(b, 8), r)
        return norm_int(r)
    if k == "i":
        n = s[2]
        if isinstance(i, int):
            if i >= n:
                return 0
            return norm_int(z3.Extract(8 * (n - i) - 1, 8 * (n - i - 1), s[1]))
        r = z3.BitVecVal(0, 8)
        for j in range(n):
            r = z3.If(bv(i, 64) == j, z3.Extract(8 * (n - j) - 1, 8 * (n - j - 1), s[1]), r)
        return norm_int(r)
    if k == "s":
        return norm_int(z3.Select(base_array(s[1]), bv(ladd(s[2], i), 64)))
    if k == "f":
        return s[1]
    if k == "x":
        return rope_byte(s[1], ladd(s[2], i))
    if k == "t":
        return norm_int(z3.Select(base_array("t!" + str(s[1])), bv(i, 64)))
    raise ValueError(k)


def rope_byte(r, i):
    off = 0
    cases = []
    for j, s in enumerate(r.segs):
        n = seglen(s)
        end = ladd(off, n)
        # an index is inside (checked by the callers), so the last segment has what the others do not have
        c = True if j == len(r.segs) - 1 else lult(i, end)
        if c is True:
            # inside this segment, unless an earlier one has it
            cases.append((True, seg_byte(s, lsub(i, off))))
            break
        if c is not False:
            cases.append((c, seg_byte(s, lsub(i, off))))
        off = end
    if not cases:
        return 0
    if cases[0][0] is True:
        return cases[0][1]
    res = z3.BitVecVal(0, 8)
    for c, b in reversed(cases):
        res = bv(b, 8) if c is True else z3.If(c, bv(b, 8), res)
    return norm_int(res)


def same_seg(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "c":
        return a[1] == b[1]
    if a[0] == "i":
        return a[2] == b[2] and norm_bool(bv(a[1], 8 * a[2]) == bv(b[1], 8 * b[2])) is True
    if a[0] == "s":
        return a[1] == b[1] and leq(a[2], b[2]) is True and leq(a[3], b[3]) is True
    if a[0] == "x":
        return rope_same(a[1], b[1]) and leq(a[2], b[2]) is True and leq(a[3], b[3]) is True
    if a[0] == "f":
        return a[1] is b[1] and leq(a[2], b[2]) is True
    return a[1] == b[1]


def rope_same(a, b):
    """syntactic equality after normalisation (sound for `equal`)"""
    return len(a.segs) == len(b.segs) and all(same_seg(x, y) for x, y in zip(a.segs, b.segs))


_skolem = [0]


def rope_neq_formula(a, b):
    """a formula that is satisfiable together with the path iff a and b can differ (a fresh index is the witness)"""
    if rope_same(a, b):
        return False
    la, lb = a.len, b.len
    le = leq(la, lb)
    if le is False:
        return True
    if isinstance(la, int) and isinstance(lb, int) and la <= 256:
        return OR(*[norm_bool(bv(rope_byte(a, i), 8) != bv(rope_byte(b, i), 8)) for i in range(la)])
    _skolem[0] += 1
    k = z3.BitVec("k!%d" % _skolem[0], 64)
    return OR(NOT(le), AND(lult(k, la), norm_bool(bv(rope_byte(a, k), 8) != bv(rope_byte(b, k), 8))))


def rope_int(r, n):
    """big endian integer of the n bytes of r"""
    if len(r.segs) == 1 and r.segs[0][0] == "i" and r.segs[0][2] == n:
        return norm_int(r.segs[0][1])
    bs = [bv(rope_byte(r, i), 8) for i in range(n)]
    return norm_int(z3.Concat(*bs) if n > 1 else bs[0])
