"""Bit-vector formulas as integer formulas: an exact translation of the linear fragment.

Lengths and positions dominate the path conditions: sums of 64-bit values below 2^47 and comparisons. Bit-blasting sums of several of
them is slow; as integers (with the wrap-around spelled out) they are easy. The translation covers +, -, multiplication and
division by constants, comparisons, extraction, concatenation, ite, arrays that are only read, and uninterpreted functions;
anything else makes it give up (NotLinear) and the bit-vector solver decides."""
import z3


class NotLinear(Exception):
    pass


class Tr:
    def __init__(self):
        self.side, self.memo, self.n, self.decls = [], {}, 0, {}

    def fresh(self, lo, hi):
        self.n += 1
        v = z3.Int("k!%d" % self.n)
        self.side.append(z3.And(lo <= v, v <= hi))
        return v

    # ------------------------------------------------------------ terms: linear forms {key: (int expr, coefficient)} + constant
    def lin(self, e):
        """the value of e modulo 2^w as ({id: (term, coefficient)}, constant)"""
        k = e.decl().kind()
        w = e.size()
        if k == z3.Z3_OP_BNUM:
            return {}, e.as_long()
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB):
            ts, c = self.lin(e.arg(0))
            ts = dict(ts)
            for i in range(1, e.num_args()):
                t2, c2 = self.lin(e.arg(i))
                sg = 1 if k == z3.Z3_OP_BADD else -1
                c += sg * c2
                for a, (x, m) in t2.items():
                    ts[a] = (x, ts[a][1] + sg * m) if a in ts else (x, sg * m)
            return ts, c
        if k == z3.Z3_OP_BNEG:
            ts, c = self.lin(e.arg(0))
            return {a: (x, -m) for a, (x, m) in ts.items()}, -c
        if k == z3.Z3_OP_BMUL:
            f, rest = 1, []
            for x in e.children():
                if x.decl().kind() == z3.Z3_OP_BNUM:
                    f = f * x.as_long() % (1 << w)
                else:
                    rest.append(x)
            if len(rest) != 1:
                raise NotLinear("product")
            if f >= 1 << (w - 1):
                f -= 1 << w
            ts, c = self.lin(rest[0])
            return {a: (x, m * f) for a, (x, m) in ts.items()}, c * f
        v = self.val(e)
        return {e.get_id(): (v, 1)}, 0

    def val(self, e):
        """the unsigned value of e"""
        i = e.get_id()
        if i in self.memo:
            return self.memo[i][1]
        r = self.val_(e)
        self.memo[i] = (e, r)
        return r

    def val_(self, e):
        k = e.decl().kind()
        w = e.size()
        M = 1 << w
        if k == z3.Z3_OP_BNUM:
            return z3.IntVal(e.as_long())
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BMUL):
            ts, c = self.lin(e)
            ts = {a: (x, (m + M // 2) % M - M // 2) for a, (x, m) in ts.items()}
            c = (c + M // 2) % M - M // 2
            ts = {a: t for a, t in ts.items() if t[1]}
            s = z3.Sum([z3.IntVal(c)] + [x * m if m != 1 else x for x, m in ts.values()])
            lo = c + sum(m * (M - 1) for _, m in ts.values() if m < 0)
            hi = c + sum(m * (M - 1) for _, m in ts.values() if m > 0)
            q = self.fresh(lo // M, hi // M)
            r = s - M * q
            self.side.append(z3.And(0 <= r, r < M))
            return r
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            v = self.val(e.arg(0))
            n = e.arg(0).size()
            if lo:
                v = self.div(v, lo, n)[0]
            if hi + 1 < n:
                v = self.div(v, hi + 1 - lo, n - lo)[1]
            return v
        if k == z3.Z3_OP_CONCAT:
            s, sh = [], 0
            for x in reversed(e.children()):
                s.append(self.val(x) * (1 << sh))
                sh += x.size()
            return z3.Sum(s)
        if k == z3.Z3_OP_ZERO_EXT:
            return self.val(e.arg(0))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.boo(e.arg(0)), self.val(e.arg(1)), self.val(e.arg(2)))
        if k == z3.Z3_OP_SELECT:
            a = e.arg(0)
            if a.decl().kind() != z3.Z3_OP_UNINTERPRETED or a.num_args():
                raise NotLinear("array")
            f = self.fun("sel!" + a.decl().name(), [z3.IntSort()], z3.IntSort())
            r = f(self.val(e.arg(1)))
            self.side.append(z3.And(0 <= r, r < M))
            return r
        if k == z3.Z3_OP_UNINTERPRETED:
            r = self.uf(e, z3.IntSort())
            self.side.append(z3.And(0 <= r, r < M))
            return r
        if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I, z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
            d = e.arg(1)
            if d.decl().kind() != z3.Z3_OP_BNUM or d.as_long() == 0:
                raise NotLinear("division")
            d = d.as_long()
            v = self.val(e.arg(0))
            q, r = self.fresh(0, (M - 1) // d), self.fresh(0, d - 1)
            self.side.append(v == q * d + r)
            return r if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) else q
        raise NotLinear(e.decl().name())

    def div(self, v, bits, n):
        """(quotient, remainder) of v < 2^n by 2^bits"""
        key = (v.get_id(), bits)
        if key not in self.memo:
            q, r = self.fresh(0, (1 << (n - bits)) - 1), self.fresh(0, (1 << bits) - 1)
            self.side.append(v == q * (1 << bits) + r)
            self.memo[key] = (v, (q, r))
        return self.memo[key][1]

    def fun(self, name, dom, rng):
        k = (name, len(dom), str(rng))
        if k not in self.decls:
            self.decls[k] = z3.Function("u!%s!%d!%s" % (name, len(dom), rng), *dom, rng)
        return self.decls[k]

    def uf(self, e, rng):
        # the same name at another type is another function
        sig = "%s:%s" % (e.decl().name(), ",".join(str(e.decl().domain(i)) for i in range(e.num_args())) + ">" + str(e.sort()))
        if not e.num_args():
            return z3.Const("u!" + sig, rng)
        args = []
        for x in e.children():
            if z3.is_bv(x):
                args.append(self.val(x))
            elif z3.is_bool(x):
                args.append(z3.If(self.boo(x), z3.IntVal(1), z3.IntVal(0)))
            else:
                raise NotLinear("argument of sort %s" % x.sort())
        return self.fun(sig, [z3.IntSort()] * len(args), rng)(*args)

    # ------------------------------------------------------------ formulas
    def boo(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i][1]
        r = self.boo_(e)
        self.memo[i] = (e, r)
        return r

    def boo_(self, e):
        k = e.decl().kind()
        if k == z3.Z3_OP_TRUE:
            return z3.BoolVal(True)
        if k == z3.Z3_OP_FALSE:
            return z3.BoolVal(False)
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.boo(e.arg(0)))
        if k == z3.Z3_OP_AND:
            return z3.And([self.boo(x) for x in e.children()])
        if k == z3.Z3_OP_OR:
            return z3.Or([self.boo(x) for x in e.children()])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.boo(e.arg(0)), self.boo(e.arg(1)))
        if k == z3.Z3_OP_XOR:
            return z3.Xor(self.boo(e.arg(0)), self.boo(e.arg(1)))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.boo(e.arg(0)), self.boo(e.arg(1)), self.boo(e.arg(2)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_IFF):
            a = [e.arg(j) for j in range(e.num_args())]
            if z3.is_bv(a[0]):
                a = [self.val(x) for x in a]
            elif z3.is_bool(a[0]):
                a = [self.boo(x) for x in a]
            else:
                raise NotLinear("equality of %s" % a[0].sort())
            return z3.Distinct(*a) if k == z3.Z3_OP_DISTINCT else a[0] == a[1]
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            a, b = self.val(e.arg(0)), self.val(e.arg(1))
            return {z3.Z3_OP_ULEQ: lambda: a <= b, z3.Z3_OP_ULT: lambda: a < b, z3.Z3_OP_UGEQ: lambda: a >= b, z3.Z3_OP_UGT: lambda: a > b}[k]()
        if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
            a, b = self.signed(e.arg(0)), self.signed(e.arg(1))
            return {z3.Z3_OP_SLEQ: lambda: a <= b, z3.Z3_OP_SLT: lambda: a < b, z3.Z3_OP_SGEQ: lambda: a >= b, z3.Z3_OP_SGT: lambda: a > b}[k]()
        if k == z3.Z3_OP_UNINTERPRETED:
            return self.uf(e, z3.BoolSort())
        raise NotLinear(e.decl().name())

    def signed(self, e):
        v, w = self.val(e), e.size()
        return z3.If(v >= 1 << (w - 1), v - (1 << w), v)


def check(fs, timeout_ms):
    """'sat' | 'unsat' | 'unknown' of the conjunction of bit-vector formulas; NotLinear if outside the fragment"""
    t = Tr()
    gs = [t.boo(f) for f in fs]
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    s.add(*t.side)
    s.add(*gs)
    return str(s.check())


def random_formula(rnd, w):
    """a formula of the fragment over bit vectors of w bits"""
    xs = [z3.BitVec("x%d" % i, w) for i in range(3)]
    arr = z3.Array("a", z3.BitVecSort(w), z3.BitVecSort(8))
    f = z3.Function("f", z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))

    def bv(d):
        k = rnd.randrange(13 if d else 2)
        if k == 0:
            return rnd.choice(xs)
        if k == 1:
            return z3.BitVecVal(rnd.choice([0, 1, 2, rnd.randrange(1 << w), (1 << w) - 1, 1 << (w - 1)]), w)
        if k in (2, 3):
            return bv(d - 1) + bv(d - 1)
        if k == 4:
            return bv(d - 1) - bv(d - 1)
        if k == 5:
            return z3.BitVecVal(rnd.randrange(1 << w), w) * bv(d - 1)
        if k == 6:
            return -bv(d - 1)
        if k == 7:
            hi = rnd.randrange(w)
            lo = rnd.randrange(hi + 1)
            e = z3.Extract(hi, lo, bv(d - 1))
            return z3.ZeroExt(w - e.size(), e) if e.size() < w else e
        if k == 8:
            c = rnd.randrange(1, w)
            return z3.Concat(z3.Extract(c - 1, 0, bv(d - 1)), z3.Extract(w - 1, c, bv(d - 1)))
        if k == 9:
            return z3.If(boo(d - 1), bv(d - 1), bv(d - 1))
        if k == 10:
            e = z3.Select(arr, bv(d - 1))
            return z3.Extract(w - 1, 0, e) if w < 8 else e if w == 8 else z3.ZeroExt(w - 8, e)
        if k == 11:
            return f(bv(d - 1), bv(d - 1))
        c = z3.BitVecVal(rnd.randrange(1, 1 << w), w)
        return z3.URem(bv(d - 1), c) if rnd.randrange(2) else z3.UDiv(bv(d - 1), c)

    def boo(d):
        k = rnd.randrange(12 if d else 6)
        if k < 6:
            a, b = bv(d), bv(d)
            return [a == b, z3.ULE(a, b), z3.ULT(a, b), z3.UGE(a, b), a < b, a <= b][k]
        if k == 6:
            return z3.Not(boo(d - 1))
        if k in (7, 8):
            return z3.And(boo(d - 1), boo(d - 1))
        if k in (9, 10):
            return z3.Or(boo(d - 1), boo(d - 1))
        return z3.Distinct(bv(d - 1), bv(d - 1))
    return [boo(3) for _ in range(rnd.randrange(1, 6))]


def selftest(n, seed):
    """compares the translation with z3's bit-vector solver on n random conjunctions; the differing ones"""
    import random
    rnd, bad, dec = random.Random(seed), [], 0
    for i in range(n):
        w = rnd.choice([3, 4, 8, 16])
        fs = random_formula(rnd, w)
        if rnd.randrange(2):
            fs = [z3.simplify(f) for f in fs]
        s = z3.SimpleSolver()
        s.set("timeout", 1000)
        s.add(*fs)
        want = str(s.check())
        try:
            got = check(fs, 1000)
        except NotLinear:
            continue
        if "unknown" in (want, got):
            continue
        dec += 1
        if want != got:
            bad.append((i, got, want, fs))
    return dec, bad
