"""Symbolic execution of monomorphic MIR: one symbolic step per MIR statement, exact machine arithmetic (bit vectors),
all paths. Library functions are replaced by contracts (lib.py); everything of bromine and of the generic glue of the
standard library (Option/Result/Pin/iterator adapters, async state machines, drop glue) is executed as compiled."""
import json
import time
import z3
import lia
from vals import *

z3.set_param("smt.random_seed", 0)


class Undecided(Exception):
    pass


class Fork(Exception):
    """re-run the current statement in one successor per option; an option is a function on the state"""

    def __init__(self, opts):
        self.opts = opts


class Panic:
    def __init__(self, msg):
        self.msg = msg


PUSHED = object()
DEAD = object()


class Module:
    def __init__(self, path):
        m = json.load(open(path))
        self.T, self.F, self.roots = m["types"], m["fns"], m["roots"]
        self.features = ["Messagepack", "Bincode", "Postcard", "Json"]
        self.statics = {s["path"]: s for s in m["statics"]}
        self.vt = {}
        for v in m["vtables"]:
            self.vt.setdefault((v["src"], v["dst"]), v["methods"])
        self.clos_inst = {}
        for i, t in enumerate(self.T):
            if t["k"] in ("closure", "coroutine"):
                self.clos_inst[t["inst"]] = i
        self._only = {}
        self.by_name = {}
        for i, t in enumerate(self.T):
            self.by_name.setdefault(t["name"], i)

    def tn(self, i):
        return self.T[i]["name"]

    def empty(self, ty, depth=0):
        """has this type no value?"""
        t = self.T[ty]
        if t["k"] == "never" or t["name"] == "!":
            return True
        if t["k"] == "adt" and not t["opaque"] and depth < 3 and t["kind"] in ("enum", "struct"):
            return all(any(self.empty(f[1], depth + 1) for f in v["fields"]) for v in t["variants"])
        return False

    def only_variant(self, ty):
        """the discriminant of an enum only one of whose several variants has values"""
        if ty not in self._only:
            t = self.T[ty]
            r = None
            if t["k"] == "adt" and t["kind"] == "enum" and not t["opaque"] and len(t["variants"]) > 1:
                live = [v for v in t["variants"] if not any(self.empty(f[1]) for f in v["fields"])]
                if len(live) == 1:
                    r = int(live[0]["discr"])
            self._only[ty] = r
        return self._only[ty]

    def type_of_path(self, path):
        """the type of this path in the crate under verification"""
        for i, t in enumerate(self.T):
            if t["k"] == "adt" and t["path"] == "bromine::" + path:
                return i


class Frame:
    __slots__ = ("fn", "fid", "bb", "si", "wait", "visits")

    def __init__(self, fn, fid):
        self.fn, self.fid, self.bb, self.si, self.wait, self.visits = fn, fid, 0, 0, None, None

    def copy(self):
        f = Frame(self.fn, self.fid)
        f.bb, f.si, f.wait, f.visits = self.bb, self.si, self.wait, self.visits
        return f


class KFrame:
    __slots__ = ("cont",)

    def __init__(self, cont):
        self.cont = cont

    def copy(self):
        return self


class State:
    __slots__ = ("mem", "frames", "pc", "trace", "gh", "und", "choices", "n", "done", "line", "pcset")

    def __init__(self):
        self.mem, self.frames, self.pc, self.trace, self.gh, self.und, self.choices = {}, [], [], [], {}, [], {}
        self.n, self.done, self.line = 0, None, ""
        self.pcset = frozenset()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.pc, s.trace, s.und = list(self.pc), list(self.trace), list(self.und)
        s.gh, s.choices = dict(self.gh), dict(self.choices)
        s.n, s.done, s.line, s.pcset = self.n, self.done, self.line, self.pcset
        return s

    def new(self, val, hint="A"):
        self.n += 1
        a = (hint, self.n)
        self.mem[a] = val
        return a

    def alloc(self, val, hint="A", meta=None):
        return Ptr(self.new(val, hint), (), meta)

    def fresh(self, hint):
        self.n += 1
        return "%s!%d" % (hint, self.n)

    def assume(self, c):
        if c is True:
            return
        c = zb(c)
        i = c.get_id()
        if i in self.pcset:
            return
        keep(c)
        self.pcset = self.pcset | {i}
        self.pc.append(c)

    def ev(self, *e):
        self.trace.append(e)


_keep = {}


def keep(e):
    _keep[e.get_id()] = e
    return e.get_id()


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.steps = 0
        self.unknown = 0
        self.integer = 0


TRANSPARENT = {
    "alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull", "core::mem::manually_drop::ManuallyDrop",
    "core::mem::maybe_uninit::MaybeUninit", "core::mem::maybe_dangling::MaybeDangling",
}

INT_BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "u128": 128, "i128": 128}


class Exec:
    MAXVISIT = 80
    MAXSTEPS = 20000000

    def __init__(self, mod, lib, timeout_ms=20000):
        self.m = mod
        self.lib = lib
        self.stats = Stats()
        self.cache = {}
        self.refuted = {}
        self.timeout = timeout_ms
        self.under_contract = {}
        self.executed = set()
        self.hooks = {}          # function path -> contract, overriding (goal specific)
        self.step_limit = self.MAXSTEPS
        self.deadline = None
        self.cuts = []           # states at which a poll was cut (lib.starved)

    # -------------------------------------------------------------- solver
    def check(self, pc, extra=()):
        """'sat' | 'unsat' | 'unknown' of the conjunction"""
        extra = [e for e in extra if e is not True]
        if any(e is False for e in extra):
            return "unsat"
        fs = [zb(x) for x in list(pc) + list(extra)]
        key = frozenset(keep(f) for f in fs)
        if key in self.cache:
            return self.cache[key]
        ek = tuple(f.get_id() for f in fs[len(pc):])
        for old in self.refuted.get(ek, ()):
            if old <= key:
                # refuted under fewer assumptions already
                self.cache[key] = "unsat"
                return "unsat"
        t = time.time()
        r = "unknown"
        # short attempts with complementary solvers first: bit-blasting, integers, then bit-blasting for as long as allowed
        for mk, ms in ((z3.SimpleSolver, 120), (None, 500), (z3.SimpleSolver, 1000), (None, 4000), (lambda: z3.SolverFor("QF_AUFBV"), self.timeout)):
            if mk is None:
                try:
                    r = lia.check(fs, min(ms, self.timeout))
                except lia.NotLinear:
                    continue
                if r != "unknown":
                    self.stats.integer += 1
                    break
                continue
            s = mk()
            s.set("timeout", int(min(ms, self.timeout)))
            s.add(*fs)
            r = str(s.check())
            if r != "unknown":
                break
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == "unknown":
            self.stats.unknown += 1
        self.cache[key] = r
        if r == "unsat":
            self.refuted.setdefault(ek, []).append(key)
        return r

    def feasible(self, st, c=True):
        c = norm_bool(c) if not isinstance(c, bool) else c
        if c is False:
            return False
        if c is True:
            return True
        if zb(c).get_id() in st.pcset:
            return True
        return self.check(st.pc, [c]) != "unsat"

    def entails(self, st, c):
        c = norm_bool(c) if not isinstance(c, bool) else c
        if isinstance(c, bool):
            return c
        if c.get_id() in st.pcset:
            return True
        return self.check(st.pc, [z3.Not(c)]) == "unsat"

    def split(self, st, c):
        """(state where c, state where not c); None where impossible. The first may be `st` itself"""
        c = norm_bool(c) if not isinstance(c, bool) else c
        if c is True:
            return st, None
        if c is False:
            return None, st
        a, b = self.feasible(st, c), self.feasible(st, z3.Not(c))
        if a and b:
            s2 = st.copy()
            st.assume(c)
            s2.assume(NOT(c))
            return st, s2
        if a:
            st.assume(c)
            return st, None
        st.assume(NOT(c))
        return None, st

    # -------------------------------------------------------------- symbolic values
    def sym(self, st, ty, name):
        t = self.m.T[ty]
        k = t["k"]
        if k == "int":
            return z3.BitVec(name, t["bits"])
        if k == "bool":
            return z3.Bool(name)
        if k == "char":
            return z3.BitVec(name, 32)
        if k in ("ref", "ptr"):
            to = self.m.T[t["to"]]
            if to["k"] == "str" or (to["k"] == "slice" and self.m.T[to["elem"]]["name"] == "u8"):
                if not t.get("mut"):
                    r = self.symbytes(st, name)
                    if to["k"] == "str":
                        self.set_utf8(st, r)
                    return Ptr(Const(r))
            a = ("S", name)
            if a not in st.mem:
                st.mem[a] = self.sym(st, t["to"], name + ".*")
            return Ptr(a)
        if k == "tuple":
            return Agg(0, [self.sym(st, e, "%s.%d" % (name, i)) for i, e in enumerate(t["elems"])])
        if k == "array":
            if self.m.T[t["elem"]]["name"] == "u8":
                return Rope([("s", name, 0, t["len"])])
            if t["len"] is not None and t["len"] <= 16:
                return Seq([self.sym(st, t["elem"], "%s.%d" % (name, i)) for i in range(t["len"])])
        if k == "dyn":
            if "AsyncWrite" in t["name"]:
                return Obj("AnyWriter", id=name, pos=0)
            if "AsyncRead" in t["name"]:
                return Obj("AnyReader", id=name, pos=0)
        if k == "adt":
            c = self.lib.sym_adt(self, st, t, name)
            if c is not None:
                return c
            if t["path"] in TRANSPARENT:
                if t["path"] == "alloc::boxed::Box":
                    a = ("S", name)
                    if a not in st.mem:
                        st.mem[a] = self.sym(st, t["args"][0], name + ".*")
                    return Ptr(a)
            if not t["opaque"] and t["kind"] == "struct":
                return Agg(0, [self.sym(st, f[1], name + "." + f[0]) for f in t["variants"][0]["fields"]])
            return Sym(ty, name)
        return Sym(ty, name)

    def symbytes(self, st, name, n=None):
        if n is None:
            n = z3.BitVec(name + ".len", 64)
            st.assume(z3.ULT(n, LENMAX))
        return Rope([("s", name, 0, n)])

    def utf8_pred(self, r):
        """the predicate 'these bytes are valid UTF-8': decided for constants, uninterpreted per byte content otherwise"""
        c = r.const()
        if c is not None:
            try:
                c.decode("utf-8")
                return True
            except UnicodeDecodeError:
                return False
        if len(r.segs) == 1 and r.segs[0][0] == "s":
            return self.utf8_at(*r.segs[0][1:])
        key = self.rope_key(r)
        return z3.Bool("utf8(%s)" % key)

    def utf8_at(self, name, off, n):
        """validity of a part of a symbolic content: a function of its borders (the empty string is valid)"""
        f = z3.Function("utf8!" + name, z3.BitVecSort(64), z3.BitVecSort(64), z3.BoolSort())
        return norm_bool(z3.Or(bv(n, 64) == 0, f(bv(off, 64), bv(n, 64))))

    def rope_key(self, r):
        out = []
        for s in r.segs:
            if s[0] == "c":
                out.append("c" + s[1].hex())
            elif s[0] == "x":
                out.append("x(%s,%s,%s)" % (self.rope_key(s[1]), s[2], s[3]))
            else:
                out.append("%s(%s)" % (s[0], ",".join(str(x).replace("\n", " ") for x in s[1:])))
        return "+".join(out)

    def set_utf8(self, st, r):
        st.assume(self.utf8_pred(r))

    def is_utf8(self, st, r):
        """formula for 'r is valid UTF-8', using that a concatenation of valid strings is valid"""
        if len(r.segs) > 1:
            if all(self.entails(st, self.utf8_pred(Rope([s]))) for s in r.segs if s[0] != "c") and all(
                self.utf8_pred(Rope([s])) is True for s in r.segs if s[0] == "c"
            ):
                return True
        return self.utf8_pred(r)

    # -------------------------------------------------------------- ropes with borders decided by the path
    def rope_slice(self, st, r, off, n):
        if isinstance(n, int) and n == 0:
            return Rope()
        if leq(off, 0) is True and leq(n, r.len) is True:
            return r
        segs = list(r.segs)
        if len(segs) == 1 and segs[0][0] in ("s", "f", "x"):
            # the callers have made sure that the slice is inside
            return Rope([self.cut(segs[0], off, n)])
        # drop `off` bytes
        i, rem = 0, off
        out = None
        while i < len(segs):
            if leq(rem, 0) is True or (is_sym(rem) and self.entails(st, leq(rem, 0))):
                out = segs[i:]
                break
            L = seglen(segs[i])
            if self.entails(st, lule(L, rem)):
                rem = lsub(rem, L)
                i += 1
                continue
            if self.entails(st, lult(rem, L)):
                s = segs[i]
                c = self.cut(s, rem, lsub(L, rem))
                out = ([c] if c else [("x", Rope([s]), rem, lsub(L, rem))]) + segs[i + 1:]
                break
            return Rope([("x", r, off, n)])
        if out is None:
            out = []
        # take n bytes
        res, rem = [], n
        for s in out:
            if leq(rem, 0) is True or (is_sym(rem) and self.entails(st, leq(rem, 0))):
                return Rope(res)
            L = seglen(s)
            if self.entails(st, lule(L, rem)):
                res.append(s)
                rem = lsub(rem, L)
                continue
            if self.entails(st, lult(rem, L)):
                c = self.cut(s, 0, rem)
                res.append(c if c else ("x", Rope([s]), 0, rem))
                return Rope(res)
            return Rope([("x", r, off, n)])
        if leq(rem, 0) is True or self.entails(st, leq(rem, 0)):
            return Rope(res)
        return Rope([("x", r, off, n)])

    def cut(self, s, off, n):
        k = s[0]
        if k == "c" and isinstance(off, int) and isinstance(n, int):
            return ("c", s[1][off:off + n])
        if k == "i" and isinstance(off, int) and isinstance(n, int):
            if n == 0:
                return ("c", b"")
            return ("i", z3.Extract(8 * (s[2] - off) - 1, 8 * (s[2] - off - n), s[1]), n)
        if k == "s":
            return ("s", s[1], ladd(s[2], off), n)
        if k == "f":
            return ("f", s[1], n)
        if k == "x":
            return ("x", s[1], ladd(s[2], off), n)
        return None

    def rope_splice(self, st, r, off, n, new):
        """r with the n bytes at off replaced by new (of length n)"""
        a = self.rope_slice(st, r, 0, off)
        e = ladd(off, n)
        b = self.rope_slice(st, r, e, lsub(r.len, e))
        return a + new + b

    # -------------------------------------------------------------- memory
    def load(self, st, a, path):
        if isinstance(a, Const):
            v = a.val
        else:
            if a not in st.mem:
                raise Undecided("read of dead memory %r" % (a,))
            v = st.mem[a]
        for e in path:
            v = self.proj(st, v, e)
        return v

    def read(self, st, p):
        v = self.load(st, p.a, p.p)
        if isinstance(p.m, tuple) and p.m and p.m[0] == "sl":
            if isinstance(v, Rope):
                return self.rope_slice(st, v, p.m[1], p.m[2])
            if isinstance(v, Seq) and isinstance(p.m[1], int) and isinstance(p.m[2], int):
                return Seq(v.items[p.m[1]:p.m[1] + p.m[2]])
        return v

    def variant(self, st, v):
        """variant index of an enum value"""
        if isinstance(v, (Agg, Cor)):
            return v.v
        if isinstance(v, Sym):
            if v.v is not None:
                return v.v
            c = st.choices.get(v.name)
            if c is not None:
                return c
            t = self.m.T[v.ty]
            if t["k"] != "adt" or t["kind"] != "enum" or t["opaque"]:
                raise Undecided("discriminant of %s" % t["name"])
            tag = self.tag(st, v)

            def choose(s, i, n=v.name):
                s.choices[n] = i
                if tag is not None:
                    s.assume(tag == int(t["variants"][i]["discr"]))
            raise Fork([(lambda s, i=i: choose(s, i)) for i in range(len(t["variants"]))])
        if isinstance(v, Obj) and v.k == "anyerror":
            return self.variant(st, self.error_sym(v))
        raise Undecided("discriminant of %r" % (v,))

    def tag(self, st, v):
        """the discriminant of an arbitrary value of an enum of many variants without fields, as a number"""
        t = self.m.T[v.ty]
        if t["k"] != "adt" or t["kind"] != "enum" or t["opaque"] or len(t["variants"]) <= 8:
            return None
        if any(x["fields"] for x in t["variants"]) or [int(x["discr"]) for x in t["variants"]] != list(range(len(t["variants"]))):
            return None
        return z3.BitVec(v.name + ".tag", 64)

    def error_sym(self, v):
        """an unspecified error of the crate's own error type, looked into"""
        ty = self.m.type_of_path("error::Error")
        if ty is None:
            raise Undecided("the crate's error type")
        return Sym(ty, "error(%s)" % v.d.get("id"))

    def expand(self, st, v):
        """a Sym as an aggregate"""
        t = self.m.T[v.ty]
        if t["k"] == "adt" and not t["opaque"]:
            vi = 0 if t["kind"] == "struct" else self.variant(st, v)
            fs = t["variants"][vi]["fields"]
            pre = v.name if t["kind"] == "struct" else "%s.%s" % (v.name, t["variants"][vi]["name"])
            return Agg(vi, [self.sym(st, f[1], pre + "." + f[0]) for f in fs])
        raise Undecided("cannot look into %s" % t["name"])

    def proj(self, st, v, e):
        if isinstance(e, int):
            if isinstance(v, Agg):
                if e >= len(v.f):
                    raise Undecided("field %d of %r" % (e, v))
                return v.f[e]
            if isinstance(v, Cor):
                return v.up[e]
            if isinstance(v, Sym):
                return self.expand(st, v).f[e]
            if isinstance(v, Ptr):
                return v
            if isinstance(v, Obj) and v.k == "anyerror":
                return self.expand(st, self.error_sym(v)).f[e]
            raise Undecided("field %s of %r" % (e, v))
        if e[0] == "s":
            if isinstance(v, Cor):
                return v.sv.get(e[1])
            raise Undecided("saved field of %r" % (v,))
        if e[0] == "d":
            if isinstance(v, Sym) and v.v is None:
                return Sym(v.ty, v.name, st.choices.get(v.name, e[1]))
            return v
        if e[0] == "e":
            if isinstance(v, Seq):
                if isinstance(e[1], int) and e[1] < len(v.items):
                    return v.items[e[1]]
                raise Undecided("symbolic index")
            if isinstance(v, Rope):
                return rope_byte(v, e[1])
            if isinstance(v, Obj):
                r = self.lib.obj_elem(self, st, v, e[1])
                if r is not None:
                    return r
            raise Undecided("index of %r" % (v,))
        raise Undecided("projection %r" % (e,))

    def store(self, st, a, path, val):
        if isinstance(a, Const):
            raise Undecided("write to constant memory")
        if not path:
            st.mem[a] = val
            return
        st.mem[a] = self.upd(st, st.mem.get(a), path, val)

    def write(self, st, p, val):
        if isinstance(p.m, tuple) and p.m and p.m[0] == "sl":
            old = self.load(st, p.a, p.p)
            if isinstance(old, Rope) and isinstance(val, Rope):
                self.store(st, p.a, p.p, self.rope_splice(st, old, p.m[1], p.m[2], val))
                return
            if isinstance(old, Seq) and isinstance(val, Seq):
                if p.m[1] == 0 and p.m[2] == len(old.items):
                    self.store(st, p.a, p.p, val)
                    return
            raise Undecided("write to a slice")
        self.store(st, p.a, p.p, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        if isinstance(e, int):
            if v is None:
                v = Agg(0, ())
            if isinstance(v, Sym):
                v = self.expand(st, v)
            if isinstance(v, Agg):
                f = list(v.f)
                while len(f) <= e:
                    f.append(None)
                f[e] = self.upd(st, f[e], path[1:], val)
                return Agg(v.v, f, v.ty)
            if isinstance(v, Cor):
                f = list(v.up)
                f[e] = self.upd(st, f[e], path[1:], val)
                return Cor(v.ty, v.v, f, v.sv)
            if isinstance(v, Ptr):
                return self.upd(st, v, path[1:], val)
            raise Undecided("write field of %r" % (v,))
        if e[0] == "s":
            sv = dict(v.sv)
            sv[e[1]] = self.upd(st, sv.get(e[1]), path[1:], val)
            return Cor(v.ty, v.v, v.up, sv)
        if e[0] == "d":
            if isinstance(v, Sym):
                v = self.expand(st, v)
            if v is None:
                v = Agg(e[1], ())
            return self.upd(st, v, path[1:], val)
        if e[0] == "e":
            if isinstance(v, Seq) and isinstance(e[1], int):
                it = list(v.items)
                it[e[1]] = self.upd(st, it[e[1]], path[1:], val)
                return Seq(it)
            if isinstance(v, Rope):
                return self.rope_splice(st, v, e[1], 1, rint(bv(val, 8), 1))
        raise Undecided("write %r of %r" % (e, v))

    # -------------------------------------------------------------- places, operands
    def place(self, st, fr, pl):
        """(Ptr to the place, type of the place)"""
        T = self.m.T
        a, path, m = ("L", fr.fid, pl[0]), (), None
        ty = fr.fn["body"]["locals"][pl[0]]
        down = None
        for e in pl[1]:
            t = T[ty] if ty is not None else None
            k = e[0]
            if k == "*":
                v = self.read(st, Ptr(a, path, m)) if m and m[0] == "sl" else self.load(st, a, path)
                if isinstance(v, Sym):
                    raise Undecided("dereference of %s" % T[v.ty]["name"])
                if isinstance(v, (Rope, Seq)):      # a boxed slice or string held by value
                    pass
                elif not isinstance(v, Ptr):
                    raise Undecided("dereference of %r" % (v,))
                else:
                    a, path, m = v.a, v.p, v.m
                ty = t["to"] if t["k"] in ("ref", "ptr") else (t["args"][0] if t["k"] == "adt" else None)
                down = None
            elif k == "f":
                base = t
                if base["k"] == "adt" and (base["path"] in TRANSPARENT or base["kind"] == "union"):
                    pass
                elif base["k"] == "coroutine" and down is not None:
                    path = path + (("s", base["vf"][down][e[1]]),)
                elif base["k"] in ("ref", "ptr"):
                    pass
                else:
                    if down is not None:
                        path = path + (("d", down),)
                    path = path + (e[1],)
                ty = e[2]
                down = None
                m = None if not (m and m[0] == "sl") else m
            elif k == "d":
                down = e[1]
            elif k == "i":
                i = self.load(st, ("L", fr.fid, e[1]), ())
                i = norm_int(i)
                if m and m[0] == "sl":
                    i = ladd(i, m[1])
                    m = None
                path = path + (("e", i),)
                ty = t.get("elem")
            elif k == "ci":
                off = e[1]
                if e[3]:
                    n = self.seq_len(st, Ptr(a, path, m))
                    off = lsub(n, off)
                if m and m[0] == "sl":
                    off = ladd(off, m[1])
                    m = None
                path = path + (("e", off),)
                ty = t.get("elem")
            elif k == "ss":
                n = self.seq_len(st, Ptr(a, path, m))
                o = ladd(e[1], m[1] if m and m[0] == "sl" else 0)
                ln = lsub(lsub(n, e[2]), e[1]) if e[3] else lsub(e[2], e[1])
                m = ("sl", o, ln)
            elif k == "oc":
                pass
            else:
                raise Undecided("projection %s" % k)
        if down is not None:
            path = path + (("d", down),)
        return Ptr(a, path, m), ty

    def mutable(self, ty, depth=0):
        """values of the type can change through a shared reference"""
        t = self.m.T[ty]
        p = t.get("path", "")
        if p.startswith("core::cell::") or p.startswith("core::sync::atomic::") or (p.startswith("std::sync::") and not p.startswith("std::sync::lazy")):
            return True
        if depth > 12 or t["k"] == "opaque" or (t["k"] == "adt" and t["opaque"]):
            return False
        if t["k"] == "tuple":
            return any(self.mutable(x, depth + 1) for x in t["elems"])
        if t["k"] == "adt" and not p.startswith("alloc::") and "lazy" not in t["name"].lower():
            return any(self.mutable(f[1] if isinstance(f, (list, tuple)) else f["ty"], depth + 1) for v in t["variants"] for f in v["fields"])
        return False

    def seq_len(self, st, p):
        if isinstance(p.m, tuple) and p.m and p.m[0] == "sl":
            return p.m[2]
        v = self.load(st, p.a, p.p)
        if isinstance(v, Rope):
            return v.len
        if isinstance(v, Seq):
            return len(v.items)
        if isinstance(v, Obj) and "n" in v.d:
            return v.n
        if isinstance(v, Obj) and v.k == "symvec":
            return z3.BitVec("len(%s)" % v.name, 64)
        raise Undecided("length of %r" % (v,))

    def operand(self, st, fr, o):
        if o[0] in ("c", "m"):
            p, ty = self.place(st, fr, o[1])
            v = self.read(st, p)
            if v is None and ty is not None:
                t = self.m.T[ty]
                if t["k"] == "tuple" and not t["elems"]:
                    return UNIT
                if t["k"] == "adt" and t["kind"] == "struct" and not t["opaque"] and not t["variants"][0]["fields"]:
                    return UNIT
            return v
        if o[0] == "k":
            return self.const(st, o[1], o[2])
        if o[0] == "rc":
            return False
        raise Undecided("operand %s" % o[0])

    def const(self, st, ty, c):
        t = self.m.T[ty]
        k = c["k"]
        if k == "int":
            v = int(c["v"])
            if t["k"] == "bool":
                return v != 0
            return v
        if k == "zst":
            if t["k"] == "fndef":
                return FnV(t)
            if t["k"] == "closure":
                return Agg(0, (), ty)
            if t["k"] == "adt" and t["kind"] == "struct" and not t["opaque"]:
                return Agg(0, [self.const(st, f[1], c) for f in t["variants"][0]["fields"]])
            if t["k"] == "adt" and t["kind"] == "enum" and not t["opaque"]:
                return Agg(0, ())
            if t["k"] == "adt":
                return Obj("zst", ty=t["name"])
            return UNIT
        if k == "bytes":
            return Ptr(Const(rconst(c["v"])))
        if k == "agg":
            fs = [self.const(st, f[0], f[1]) for f in c["fields"]]
            if t["k"] == "array":
                if self.m.T[t["elem"]]["name"] == "u8":
                    return rconst(bytes(fs))
                return Seq(fs)
            if t["k"] == "adt" and t["path"] in TRANSPARENT:
                return fs[0]
            if t["k"] == "adt":
                r = self.lib.const_adt(self, st, t, fs)
                if r is not None:
                    return r
            return Agg(c["variant"], fs)
        if k == "ref":
            return Ptr(Const(self.const(st, c["ty"], c["to"])))
        if k == "static":
            a = ("static", c["path"])
            if a not in st.mem:
                s = self.m.statics.get(c["path"])
                v = None
                if s is not None and s["init"]["k"] != "opaque" and not self.mutable(s["ty"]):
                    v = self.const(st, s["ty"], s["init"])
                if v is None:
                    v = self.lib.static(self, st, c["path"], c["ty"])
                st.mem[a] = v
            return Ptr(a)
        r = self.lib.opaque_const(self, st, ty, t)
        if r is not None:
            return r
        return Obj("const", ty=t["name"])

    # -------------------------------------------------------------- rvalues
    def arith(self, op, a, b, bits, signed, abits=None):
        """(result, overflow)"""
        A, B = bv(a, bits), bv(b, bits)
        if op in ("Shl", "Shr"):
            bb = bv(b, bits) if isinstance(b, int) else (z3.ZeroExt(bits - b.size(), b) if b.size() < bits else z3.Extract(bits - 1, 0, b))
            ovf = norm_bool(z3.UGE(bb, bits))
            sh = bb & (bits - 1)
            if op == "Shl":
                r = A << sh
            else:
                r = (A >> sh) if signed else z3.LShR(A, sh)
            return norm_int(r), ovf
        if op == "Add":
            r = A + B
            if signed:
                o = OR(NOT(norm_bool(z3.BVAddNoOverflow(A, B, True))), NOT(norm_bool(z3.BVAddNoUnderflow(A, B))))
            else:
                o = norm_bool(z3.ULT(r, A))
        elif op == "Sub":
            r = A - B
            if signed:
                o = OR(NOT(norm_bool(z3.BVSubNoOverflow(A, B))), NOT(norm_bool(z3.BVSubNoUnderflow(A, B, True))))
            else:
                o = norm_bool(z3.ULT(A, B))
        elif op == "Mul":
            r = A * B
            if signed:
                o = OR(NOT(norm_bool(z3.BVMulNoOverflow(A, B, True))), NOT(norm_bool(z3.BVMulNoUnderflow(A, B))))
            else:
                o = NOT(norm_bool(z3.BVMulNoOverflow(A, B, False)))
        elif op == "Div":
            r = (A / B) if signed else z3.UDiv(A, B)
            o = False
        elif op == "Rem":
            r = z3.SRem(A, B) if signed else z3.URem(A, B)
            o = False
        elif op == "BitAnd":
            r, o = A & B, False
        elif op == "BitOr":
            r, o = A | B, False
        elif op == "BitXor":
            r, o = A ^ B, False
        else:
            raise Undecided("operator %s" % op)
        return norm_int(r), o

    def compare(self, op, a, b, bits, signed):
        A, B = bv(a, bits), bv(b, bits)
        if op == "Eq":
            return norm_bool(A == B)
        if op == "Ne":
            return norm_bool(A != B)
        f = {
            "Lt": (z3.ULT, lambda x, y: x < y), "Le": (z3.ULE, lambda x, y: x <= y),
            "Gt": (z3.UGT, lambda x, y: x > y), "Ge": (z3.UGE, lambda x, y: x >= y),
        }[op][1 if signed else 0]
        return norm_bool(f(A, B))

    def binop(self, st, op, a, b, ty):
        t = self.m.T[ty]
        base = op
        for suf in ("WithOverflow", "Unchecked"):
            if op.endswith(suf):
                base = op[: -len(suf)]
        if t["k"] == "bool":
            a, b = (a, b)
            if base == "Eq":
                return norm_bool(zb(a) == zb(b))
            if base == "Ne":
                return norm_bool(zb(a) != zb(b))
            if base == "BitAnd":
                return AND(a, b)
            if base == "BitOr":
                return OR(a, b)
            if base == "BitXor":
                return norm_bool(z3.Xor(zb(a), zb(b)))
            raise Undecided("bool %s" % op)
        if t["k"] in ("ptr", "ref", "fnptr") or isinstance(a, (Ptr, Obj)) or isinstance(b, (Ptr, Obj)):
            if base in ("Eq", "Ne") and isinstance(a, Ptr) and isinstance(b, Ptr) and not isinstance(a.a, Const):
                same = a.a == b.a and a.p == b.p
                return same if base == "Eq" else not same
            raise Undecided("pointer %s" % op)
        bits = t.get("bits", 32)
        signed = t.get("signed", False)
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(base, a, b, bits, signed)
        if base == "Cmp":
            lt = self.compare("Lt", a, b, bits, signed)
            eq = self.compare("Eq", a, b, bits, signed)
            if lt is True:
                return Agg(0, ())
            if eq is True:
                return Agg(1, ())
            if lt is False and eq is False:
                return Agg(2, ())
            gt = AND(NOT(lt), NOT(eq))
            for i, c in enumerate((lt, eq, gt)):
                if self.entails(st, c):
                    return Agg(i, ())
            raise Fork([(lambda s, c=c: s.assume(c) if self.feasible(s, c) else DEAD) for c in (lt, eq, gt)])
        r, o = self.arith(base, a, b, bits, signed)
        if op.endswith("WithOverflow"):
            return Agg(0, (r, o))
        return r

    def cast(self, st, kind, v, s, d):
        T = self.m.T
        ts, td = T[s], T[d]
        if kind == "IntToInt":
            if ts["k"] == "bool":
                if isinstance(v, bool):
                    return int(v)
                return z3.If(v, z3.BitVecVal(1, td["bits"]), z3.BitVecVal(0, td["bits"]))
            if ts["k"] == "adt":
                vi = self.variant(st, v)
                return int(ts["variants"][vi]["discr"]) & ((1 << td["bits"]) - 1)
            sb = ts.get("bits", 32)
            db = td.get("bits", 32)
            if isinstance(v, int):
                if ts.get("signed") and v >> (sb - 1):
                    v -= 1 << sb
                return v & ((1 << db) - 1)
            if db == sb:
                return v
            if db < sb:
                return norm_int(z3.Extract(db - 1, 0, v))
            return norm_int(z3.SignExt(db - sb, v) if ts.get("signed") else z3.ZeroExt(db - sb, v))
        if kind.startswith("Unsize"):
            return self.unsize(st, v, s, d)
        if kind.startswith("ClosureFnPointer"):
            return v
        if kind.startswith("ReifyFnPointer"):
            return v
        return v

    def unsize(self, st, v, s, d):
        T = self.m.T
        pair = self.unsize_pair(s, d)
        if isinstance(v, Agg) and len([x for x in v.f if isinstance(x, Ptr)]) == 1 and not isinstance(v, Ptr):
            # Pin<Box<T>> and the like: coerce the pointer inside
            return Agg(v.v, [self.unsize_ptr(x, pair) if isinstance(x, Ptr) else x for x in v.f], v.ty)
        if isinstance(v, Ptr):
            return self.unsize_ptr(v, pair)
        return v

    def unsize_ptr(self, p, pair):
        if pair is None:
            return p
        if pair[0] == "arr":
            if isinstance(p.a, Const):
                return p
            return Ptr(p.a, p.p, ("sl", 0, pair[1]))
        return Ptr(p.a, p.p, ("vt", pair[0], pair[1]))

    def unsize_pair(self, s, d):
        T = self.m.T
        if s == d:
            return None
        ts, td = T[s], T[d]
        if td["k"] == "dyn":
            return None if ts["k"] == "dyn" else (s, d)
        if ts["k"] == "array" and td["k"] == "slice":
            return ("arr", ts["len"])
        if ts["k"] in ("ref", "ptr") and td["k"] in ("ref", "ptr"):
            return self.unsize_pair(ts["to"], td["to"])
        if ts["k"] == "adt" and td["k"] == "adt" and ts["path"] == td["path"]:
            for a, b in zip(ts["args"], td["args"]):
                if a != b:
                    r = self.unsize_pair(a, b)
                    if r:
                        return r
        return None

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            p, ty = self.place(st, fr, r[2])
            # a reborrow `&*p` keeps the metadata of p
            if p.p and isinstance(p.p[-1], tuple) and p.p[-1][0] == "d":
                p = Ptr(p.a, p.p[:-1], p.m)
            v = None
            return p
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3], r[4])
        if k == "bin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, r[4])
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if self.m.T[r[3]]["k"] == "bool":
                    return NOT(v)
                return norm_int(~bv(v, self.m.T[r[3]]["bits"]))
            if r[1] == "Neg":
                return norm_int(-bv(v, self.m.T[r[3]]["bits"]))
            if r[1] == "PtrMetadata":
                if isinstance(v, Ptr):
                    return self.seq_len(st, v)
            raise Undecided("unary %s" % r[1])
        if k == "discr":
            p, _ = self.place(st, fr, r[1])
            one = self.m.only_variant(r[2])
            if one is not None:
                # the others have no value: rustc does not even store such an enum
                return one & ((1 << self.m.T[r[3]].get("bits", 64)) - 1)
            v = self.read(st, p)
            if isinstance(v, Cor):
                return v.v
            t = self.m.T[r[2]]
            if t["k"] == "adt":
                if isinstance(v, Sym) and v.v is None and v.name not in st.choices:
                    tag = self.tag(st, v)
                    if tag is not None:
                        st.assume(z3.ULT(tag, len(t["variants"])))
                        return norm_int(z3.Extract(self.m.T[r[3]].get("bits", 64) - 1, 0, tag))
                vi = self.variant(st, v)
                d = int(t["variants"][vi]["discr"])
                return d & ((1 << self.m.T[r[3]].get("bits", 64)) - 1)
            raise Undecided("discriminant of %s" % t["name"])
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[5]]
            kind = r[1]
            if kind == "tuple":
                return Agg(0, ops)
            if kind == "array":
                if self.m.T[r[2]]["name"] == "u8":
                    return Rope([("i", bv(o, 8), 1) if not isinstance(o, int) else ("c", bytes([o])) for o in ops])
                return Seq(ops)
            t = self.m.T[r[2]]
            if kind == "adt":
                if t["path"] in TRANSPARENT:
                    return ops[0] if ops else None
                if t["kind"] == "union":
                    return ops[0]
                return Agg(r[3], ops)
            if kind == "closure":
                return Agg(0, ops, r[2])
            if kind == "coroutine":
                return Cor(r[2], 0, ops, {})
            if kind == "rawptr":
                return ops[0]
            raise Undecided("aggregate %s" % kind)
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            if isinstance(v, int) or is_sym(v):
                # only byte arrays are needed
                return Rope([("f", norm_int(v), r[2])])
            if r[2] is not None and r[2] <= 64:
                return Seq([v] * r[2])
            raise Undecided("array of %r" % (v,))
        raise Undecided("rvalue %s" % k)

    # -------------------------------------------------------------- calls
    def push_fn(self, st, idx, args):
        fn = self.m.F[idx]
        st.n += 1
        fr = Frame(fn, st.n)
        b = fn["body"]
        for i, a in enumerate(args):
            st.mem[("L", fr.fid, i + 1)] = a
        st.frames.append(fr)
        self.executed.add(idx)

    def call_closure(self, st, clos, args, cont, recv="ref"):
        """call a closure / fn item value with the given arguments, then cont(st, result)"""
        st.frames.append(KFrame(cont))
        if isinstance(clos, Ptr):
            p = clos
            c = self.read(st, clos)
            while isinstance(c, Ptr):
                p, c = c, self.read(st, c)
        else:
            c = clos
            p = None
        if isinstance(c, FnV):
            return self.invoke(st, c.fn, args, None)
        if isinstance(c, Agg) and c.ty is not None:
            t = self.m.T[c.ty]
            body = self.m.F[t["inst"]]["body"]
            if body is None:
                raise Undecided("closure without body")
            lt = self.m.T[body["locals"][1]]
            if lt["k"] in ("ref", "ptr"):
                if p is None:
                    p = st.alloc(c, "clos")
                selfv = p
            else:
                selfv = c
            self.push_fn(st, t["inst"], [selfv] + list(args))
            return PUSHED
        if isinstance(c, Obj):
            r = self.lib.call_obj(self, st, c, args)
            if r is not None:
                return r
        raise Undecided("call of %r" % (c,))

    def invoke(self, st, fn, args, info):
        """call fn (fndef json) with argument values; result as for contracts"""
        m = self.m
        if fn.get("ctor"):
            ty, vi = fn["ctor"]
            if m.T[ty]["path"] in TRANSPARENT:
                return args[0]
            return Agg(vi, args)
        idx = fn.get("inst")
        inst = m.F[idx] if idx is not None else None
        path = inst["path"] if inst else fn["path"]
        h = self.hooks.get(path)
        if h is not None:
            return h(self, st, Call(fn, inst, args, info))
        if inst is not None and inst["kind"].startswith("virtual"):
            r = self.virtual(st, fn, inst, args)
            if r is not None:
                idx, inst = r
                path = inst["path"]
                h = self.hooks.get(path)
                if h is not None:
                    return h(self, st, Call(fn, inst, args, info))
            else:
                c = self.lib.contract_virtual(self, st, fn, inst, args)
                if c is not None:
                    return c(self, st, Call(fn, inst, args, info))
                raise Undecided("virtual call of %s" % fn["path"])
        c = self.lib.contract(path, fn, inst, m)
        if c is not None:
            self.under_contract.setdefault(path, 0)
            self.under_contract[path] += 1
            return c(self, st, Call(fn, inst, args, info))
        if inst is not None and inst["body"] is not None:
            b = inst["body"]
            if idx in m.clos_inst and fn["path"].startswith("core::ops::function::Fn") and len(args) == 2:
                tup = args[1]
                if tup is None:
                    tup = UNIT
                args = [args[0]] + list(tup.f)
            if idx in m.clos_inst and m.T[m.clos_inst[idx]]["k"] == "coroutine":
                # an async function whose body was replaced by its contract
                _, v = self.deref_obj(st, args[0])
                if isinstance(v, Obj) and v.k == "fut":
                    return self.lib.poll(self, st, Call(fn, inst, args, info))
            if len(args) != b["argc"]:
                raise Undecided("argument count of %s" % path)
            self.push_fn(st, idx, args)
            return PUSHED
        # poll of a library future
        g = self.lib.generic(self, st, fn, inst, args)
        if g is not None:
            self.under_contract.setdefault(path, 0)
            self.under_contract[path] += 1
            return g(self, st, Call(fn, inst, args, info))
        raise Undecided("no contract for %s" % path)

    def deref_obj(self, st, v):
        """follow pointers and one-field wrappers (Pin) down to the object"""
        p = None
        for _ in range(8):
            if isinstance(v, Ptr):
                p = v
                v = self.read(st, v)
            elif isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], Ptr) and v.ty is None:
                v = v.f[0]
            else:
                break
        return p, v

    def virtual(self, st, fn, inst, args):
        recv = args[0]
        p = recv
        while isinstance(p, Agg) and p.f:
            p = p.f[0]
        name = fn["path"]
        if isinstance(p, Ptr):
            v = self.read(st, p) if not (p.m and p.m[0] == "sl") else None
            if isinstance(v, Cor):
                i = self.m.T[v.ty]["inst"]
                if self.m.F[i]["body"] is not None:
                    return i, self.m.F[i]
            if isinstance(v, Agg) and v.ty is not None:
                i = self.m.T[v.ty]["inst"]
                if self.m.F[i]["body"] is not None:
                    return i, self.m.F[i]
            if isinstance(v, Obj):
                return None
            if p.m and p.m[0] == "vt":
                for (s, d), ms in self.m.vt.items():
                    if s == p.m[1]:
                        for mn, i in ms:
                            if mn == name and self.m.F[i]["body"] is not None:
                                return i, self.m.F[i]
        return None

    # -------------------------------------------------------------- drop
    def needs_drop(self, ty, seen=None):
        c = getattr(self, "_nd", None)
        if c is None:
            c = self._nd = {}
        if ty in c:
            return c[ty]
        c[ty] = False
        t = self.m.T[ty]
        r = False
        k = t["k"]
        if k == "adt":
            if self.lib.has_drop(t):
                r = True
            elif t.get("drop") is not None and not t["raw"].startswith(("core::", "alloc::", "std::")):
                r = True
            elif t["path"] in ("alloc::boxed::Box",):
                r = self.needs_drop(t["args"][0])
            elif t["path"] == "alloc::vec::Vec":
                r = self.needs_drop(t["args"][0])
            elif not t["opaque"] and t["path"] not in TRANSPARENT:
                r = any(self.needs_drop(f[1]) for v in t["variants"] for f in v["fields"])
        elif k == "tuple":
            r = any(self.needs_drop(e) for e in t["elems"])
        elif k in ("closure",):
            r = any(self.needs_drop(e) for e in t["upvars"])
        elif k == "coroutine":
            r = any(self.needs_drop(e) for e in t["upvars"] + t["saved"])
        elif k == "dyn":
            r = False
        c[ty] = r
        return r

    def drop(self, st, ptr, ty):
        """list of (function index, args) to call / library drops done at once"""
        calls = []
        self._drop(st, ptr, ty, calls)
        return calls

    def _drop(self, st, ptr, ty, calls):
        if not self.needs_drop(ty):
            return
        t = self.m.T[ty]
        v = self.read(st, ptr)
        if v is None:
            return
        k = t["k"]
        if k == "adt":
            if self.lib.has_drop(t):
                self.lib.drop(self, st, t, ptr, v)
                return
            if t["path"] == "alloc::boxed::Box":
                if isinstance(v, Ptr):
                    self._drop(st, v, t["args"][0], calls)
                return
            if t["path"] == "alloc::vec::Vec":
                if isinstance(v, Seq):
                    for i in range(len(v.items)):
                        self._drop(st, Ptr(ptr.a, ptr.p + (("e", i),)), t["args"][0], calls)
                return
            if t.get("drop") is not None and not t["raw"].startswith(("core::", "alloc::", "std::")):
                calls.append((t["drop"], [ptr]))
            if not t["opaque"]:
                vi = 0
                if t["kind"] == "enum":
                    vi = self.variant(st, v)
                if t["kind"] in ("enum", "struct"):
                    for i, f in enumerate(t["variants"][vi]["fields"]):
                        p = ptr.p + ((("d", vi),) if t["kind"] == "enum" else ()) + (i,)
                        self._drop(st, Ptr(ptr.a, p), f[1], calls)
        elif k == "tuple":
            for i, e in enumerate(t["elems"]):
                self._drop(st, Ptr(ptr.a, ptr.p + (i,)), e, calls)
        elif k == "closure":
            for i, e in enumerate(t["upvars"]):
                self._drop(st, Ptr(ptr.a, ptr.p + (i,)), e, calls)
        elif k == "coroutine" and isinstance(v, Cor):
            if v.v == 0:
                for i, e in enumerate(t["upvars"]):
                    self._drop(st, Ptr(ptr.a, ptr.p + (i,)), e, calls)
            elif v.v >= 3:
                for s in t["vf"][v.v]:
                    if s in v.sv:
                        self._drop(st, Ptr(ptr.a, ptr.p + (("s", s),)), t["saved"][s], calls)

    def do_drop(self, st, p, ty):
        """drop the value at p; result as for contracts"""
        calls = self.drop(st, p, ty) if self.needs_drop(ty) else []
        if not calls:
            return UNIT

        def chain(rest):
            def cont(ex, s, _v):
                if not rest:
                    return UNIT
                s.frames.append(KFrame(chain(rest[1:])))
                ex.push_fn(s, rest[0][0], rest[0][1])
                return PUSHED
            return cont
        return chain(calls)(self, st, None)

    # -------------------------------------------------------------- running
    def finish(self, st, res):
        """deliver the result of a call; list of successor states"""
        if res is PUSHED:
            return [st]
        if not isinstance(res, list):
            res = [(st, res)]
        out = []
        for s, v in res:
            if v is PUSHED:
                out.append(s)
            elif isinstance(v, Panic):
                s.done = ("panic", v.msg, s.line)
                out.append(s)
            elif v is DEAD:
                continue
            elif isinstance(v, tuple) and len(v) == 2 and v[0] == "cut":
                s.done = ("cut", v[1])
                out.append(s)
            else:
                out += self.deliver(s, v)
        return out

    def deliver(self, st, v):
        if not st.frames:
            st.done = ("ret", v)
            return [st]
        fr = st.frames[-1]
        if isinstance(fr, KFrame):
            st.frames.pop()
            return self.finish(st, fr.cont(self, st, v))
        dest, target = fr.wait
        fr.wait = None
        if dest is not None:
            self.write(st, dest, v)
        if target is None:
            st.done = ("diverge", st.line)
            return [st]
        self.jump(fr, target)
        return [st]

    def jump(self, fr, bb):
        fr.bb, fr.si = bb, 0
        if fr.visits is None:
            fr.visits = {}
        else:
            fr.visits = dict(fr.visits)
        n = fr.visits.get(bb, 0) + 1
        fr.visits[bb] = n
        if n > self.MAXVISIT:
            raise Undecided("loop in %s not closed after %d rounds" % (fr.fn["path"], self.MAXVISIT))

    def run(self, st):
        """all terminal states of st"""
        work, out = [st], []
        while work:
            s = work.pop()
            if s.done is not None:
                out.append(s)
                continue
            self.stats.steps += 1
            if self.stats.steps > self.step_limit or (self.deadline and time.time() > self.deadline):
                s.und.append("step or time limit")
                s.done = ("undecided", "limit")
                out.append(s)
                for w in work:
                    w.done = ("undecided", "limit")
                    w.und.append("step or time limit")
                    out.append(w)
                return out
            try:
                work += self.step(s)
            except Fork as f:
                for o in f.opts:
                    c = s.copy()
                    if o(c) is not DEAD:
                        work.append(c)
            except Undecided as e:
                s.und.append("%s (%s)" % (e, s.line))
                s.done = ("undecided", str(e), s.line)
                out.append(s)
            except (KeyError, IndexError, AttributeError, TypeError, z3.Z3Exception) as e:
                if getattr(self, "debug", False):
                    raise
                s.und.append("internal: %r (%s)" % (e, s.line))
                s.done = ("undecided", "internal %r" % (e,), s.line)
                out.append(s)
        return out

    def step(self, st):
        fr = st.frames[-1]
        blk = fr.fn["body"]["blocks"][fr.bb]
        ss = blk["s"]
        while fr.si < len(ss):
            s = ss[fr.si]
            if s[0] == "=":
                st.line = s[3]
                v = self.rvalue(st, fr, s[2])
                p, _ = self.place(st, fr, s[1])
                self.write(st, p, v)
            elif s[0] == "sd":
                st.line = s[3]
                p, _ = self.place(st, fr, s[1])
                v = self.read(st, p)
                if isinstance(v, Cor):
                    nv = Cor(v.ty, s[2], v.up, v.sv)
                elif isinstance(v, Agg):
                    nv = Agg(s[2], v.f, v.ty)
                else:
                    nv = Agg(s[2], ())
                self.write(st, p, nv)
            else:
                raise Undecided("statement %s" % s[0])
            fr.si += 1
        t = blk["t"]
        k = t[0]
        if k == "goto":
            self.jump(fr, t[1])
            return [st]
        if k == "switch":
            st.line = t[4]
            v = self.operand(st, fr, t[1])
            return self.switch(st, fr, v, t)
        if k == "ret":
            v = st.mem.get(("L", fr.fid, 0))
            if v is None:
                v = UNIT
            for key in [x for x in st.mem if x[0] == "L" and x[1] == fr.fid]:
                del st.mem[key]
            st.frames.pop()
            return self.deliver(st, v)
        if k == "call":
            st.line = t[6]
            fn = t[1]
            args = [self.operand(st, fr, o) for o in t[2]]
            dest, _ = self.place(st, fr, t[3])
            info = (t[7], t[5])
            fr.wait = (dest, t[4])
            if fn["k"] == "op":
                f = self.operand(st, fr, fn["op"])
                if isinstance(f, FnV):
                    return self.finish(st, self.invoke(st, f.fn, args, info))
                if isinstance(f, Agg) and f.ty is not None:
                    return self.finish(st, self.call_closure(st, f, args, lambda ex, s, v: v))
                raise Undecided("call through %r" % (f,))
            try:
                res = self.invoke(st, fn, args, info)
            except Fork:
                fr.wait = None
                raise
            return self.finish(st, res)
        if k == "drop":
            st.line = t[4]
            p, _ = self.place(st, fr, t[1])
            fr.wait = (None, t[2])
            return self.finish(st, self.do_drop(st, p, t[3]))
        if k == "assert":
            st.line = t[5]
            c = self.operand(st, fr, t[1])
            ok = c if t[2] else NOT(c)
            a, b = self.split(st, ok)
            out = []
            if a is not None:
                self.jump(a.frames[-1], t[4])
                out.append(a)
            if b is not None:
                b.done = ("panic", t[3], t[5])
                out.append(b)
            return out
        if k == "unreachable":
            if self.feasible_state(st):
                raise Undecided("reached unreachable code")
            return []
        raise Undecided("terminator %s" % t[1])

    def feasible_state(self, st):
        return self.check(st.pc) != "unsat"

    def switch(self, st, fr, v, t):
        ty = self.m.T[t[4] if isinstance(t[4], int) else 0]
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            for val, bb in t[2]:
                if int(val) == v:
                    self.jump(fr, bb)
                    return [st]
            self.jump(fr, t[3])
            return [st]
        if isinstance(v, z3.BoolRef):
            conds = [((v if int(val) == 1 else NOT(v)), bb) for val, bb in t[2]]
        elif is_sym(v):
            conds = [(norm_bool(v == z3.BitVecVal(int(val), v.size())), bb) for val, bb in t[2]]
        else:
            raise Undecided("switch on %r" % (v,))
        conds.append((AND(*[NOT(c) for c, _ in conds]), t[3]))
        ok = [(c, bb) for c, bb in conds if self.feasible(st, c)]
        out = []
        for i, (c, bb) in enumerate(ok):
            s = st if i == len(ok) - 1 else st.copy()
            s.assume(c)
            self.jump(s.frames[-1], bb)
            out.append(s)
        return out

    # -------------------------------------------------------------- canonical form of a suspended state
    def canon(self, st, vals, with_trace=True, with_gh=True, rename=None):
        names, order = {}, []

        def e(x):
            if isinstance(x, bool) or isinstance(x, int) or isinstance(x, str) or isinstance(x, bytes) or x is None:
                return x
            if isinstance(x, z3.ExprRef):
                x = z3.simplify(x)
                return ("z", keep(x))
            if isinstance(x, Agg):
                return ("a", x.v, x.ty, tuple(e(y) for y in x.f))
            if isinstance(x, Cor):
                live = self.m.T[x.ty]["vf"]
                sv = tuple(sorted((k, e(v)) for k, v in x.sv.items() if x.v < len(live) and k in live[x.v]))
                return ("co", x.ty, x.v, tuple(e(y) for y in x.up) if x.v != 1 else (), sv)
            if isinstance(x, Const):
                return ("k", e(x.val))
            if isinstance(x, Ptr):
                m = tuple(e(y) for y in x.m) if isinstance(x.m, tuple) else x.m
                if isinstance(x.a, Const):
                    return ("pc", e(x.a.val), tuple(e(y) for y in x.p), m)
                if x.a not in names:
                    names[x.a] = len(names)
                    order.append(x.a)
                return ("p", names[x.a], tuple(e(y) for y in x.p), m)
            if isinstance(x, Rope):
                return ("r", tuple(tuple(e(y) for y in s) for s in x.segs))
            if isinstance(x, Seq):
                return ("q", tuple(e(y) for y in x.items))
            if isinstance(x, Obj):
                return ("o", x.k, tuple(sorted((k, e(v)) for k, v in x.d.items())))
            if isinstance(x, FnV):
                return ("f", x.fn["path"], tuple(x.fn["args"]))
            if isinstance(x, Sym):
                return ("s", x.ty, x.name, x.v, st.choices.get(x.name))
            if isinstance(x, (tuple, list)):
                return tuple(e(y) for y in x)
            if isinstance(x, dict):
                return tuple(sorted((k, e(v)) for k, v in x.items()))
            raise Undecided("canonical form of %r" % (x,))
        top = tuple(e(v) for v in vals)
        tr = e(tuple(st.trace)) if with_trace else None
        gh = tuple(sorted(((k, e(v)) for k, v in st.gh.items() if k not in ("loops", "asked")), key=repr)) if with_gh else None
        mem = []
        i = 0
        while i < len(order):
            mem.append(e(st.mem.get(order[i])))
            i += 1
        return (top, tr, gh, tuple(mem))


class Call:
    __slots__ = ("fn", "inst", "args", "info")

    def __init__(self, fn, inst, args, info):
        self.fn, self.inst, self.args, self.info = fn, inst, args, info

    @property
    def path(self):
        return self.inst["path"] if self.inst else self.fn["path"]

    @property
    def argtys(self):
        return self.info[0] if self.info else None

    @property
    def destty(self):
        return self.info[1] if self.info else None
