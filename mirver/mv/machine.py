"""The whole state of a suspended computation, comparable: what the rest of the computation can still look at.

Used for the cut rule of loops inside one poll: when a computation that stops at a leaf (answers not-ready there) and is polled
again arrives at the same leaf in the same state as if it had gone on, then a poll that goes through the leaf is a poll that stops
there followed by a poll of the suspended state."""
import z3
from vals import *
from core import Frame, KFrame, Undecided, keep

_live = {}


def _index(m, fn):
    for i, f in enumerate(m.F):
        if f is fn:
            return i
    return None


class Live:
    """which locals, and which saved locals of the coroutine whose body this is, are read later"""

    def __init__(self, m, fn):
        self.m, self.fn = m, fn
        b = fn["body"]
        self.blocks = b["blocks"]
        idx = _index(m, fn)
        self.cor = None
        for i, t in enumerate(m.T):
            if t["k"] == "coroutine" and t["inst"] == idx:
                self.cor = i
        self.selfs = set()
        if self.cor is not None:
            for l, ty in enumerate(b["locals"]):
                t = m.T[ty]
                if t["k"] in ("ref", "ptr") and t["to"] == self.cor:
                    self.selfs.add(l)
        n = len(self.blocks)
        self.inn = [frozenset()] * n
        preds = [[] for _ in range(n)]
        for i, bl in enumerate(self.blocks):
            for s in self.succ(bl["t"]) if bl else ():
                preds[s].append(i)
        work = [i for i in range(n) if self.blocks[i]]
        while work:
            i = work.pop()
            new = frozenset(self.block(i, 0))
            if new != self.inn[i]:
                self.inn[i] = new
                work += preds[i]

    def succ(self, t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [bb for _, bb in t[2]] + ([t[3]] if t[3] is not None else [])
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "drop":
            return [t[2]]
        if k == "assert":
            return [t[4]]
        return []

    def key(self, pl):
        """(key, what is left of the projection, locals used on the way)"""
        l, proj = pl[0], pl[1]
        used = [e[1] for e in proj if e[0] == "i"]
        if l in self.selfs and proj and proj[0][0] == "*":
            used.append(l)
            r = proj[1:]
            if not r:
                return ("cor",), [], used
            if r[0][0] == "d" and len(r) > 1 and r[1][0] == "f":
                return ("s", self.m.T[self.cor]["vf"][r[0][1]][r[1][1]]), r[2:], used
            if r[0][0] == "f":
                return ("u", r[0][1]), r[1:], used
            return ("cor",), r, used
        return l, proj, used

    def read(self, live, pl, discr=False):
        k, _, used = self.key(pl)
        live.update(used)
        if k == ("cor",):
            if discr:
                live.add(("d",))
            else:
                t = self.m.T[self.cor]
                live.update(("s", x) for v in t["vf"] for x in v)
                live.update(("u", i) for i in range(64))
                live.add(("d",))
        else:
            live.add(k)

    def write(self, live, pl):
        k, rest, used = self.key(pl)
        if not rest and k != ("cor",):
            live.discard(k)
        elif any(e[0] == "*" for e in rest):
            live.add(k)
        live.update(used)

    def op(self, live, o):
        if o[0] in ("c", "m"):
            self.read(live, o[1])

    def rvalue(self, live, r):
        k = r[0]
        if k == "use":
            self.op(live, r[1])
        elif k == "ref":
            self.read(live, r[2])
        elif k in ("cast", "un"):
            self.op(live, r[2])
        elif k == "bin":
            self.op(live, r[2])
            self.op(live, r[3])
        elif k == "discr":
            self.read(live, r[1], True)
        elif k == "agg":
            for o in r[5]:
                self.op(live, o)
        elif k == "repeat":
            self.op(live, r[1])
        else:
            raise Undecided("liveness of %s" % k)

    def after_call(self, i):
        """live when the call that ends block i has returned, before its result is stored"""
        t = self.blocks[i]["t"]
        tgt = t[4] if t[0] == "call" else t[2]
        live = set(self.inn[tgt]) if tgt is not None else set()
        if t[0] == "call":
            self.write(live, t[3])
        return live

    def block(self, i, si):
        bl = self.blocks[i]
        t = bl["t"]
        k = t[0]
        live = set()
        for s in self.succ(t):
            live |= self.inn[s]
        if k == "switch":
            self.op(live, t[1])
        elif k == "ret":
            live.add(0)
        elif k == "call":
            self.write(live, t[3])
            if t[1]["k"] == "op":
                self.op(live, t[1]["op"])
            for o in t[2]:
                self.op(live, o)
        elif k == "drop":
            self.read(live, t[1])
        elif k == "assert":
            self.op(live, t[1])
        for s in reversed(bl["s"][si:]):
            if s[0] == "=":
                self.write(live, s[1])
                self.rvalue(live, s[2])
            elif s[0] == "sd":
                kk, rest, used = self.key(s[1])
                if kk == ("cor",):
                    live.discard(("d",))
                    live.update(("s", x) for x in self.m.T[self.cor]["vf"][s[2]])
                    live.update(used)
                else:
                    self.read(live, s[1])
        return live


def live_of(m, fn):
    k = id(fn)
    if k not in _live:
        _live[k] = Live(m, fn)
    return _live[k]


def plain(path):
    """without downcasts, which struct fields do not have and enum fields need not have"""
    return tuple(y for y in path if not (isinstance(y, tuple) and y and y[0] == "d"))


def machine(ex, st, roots, skip=()):
    """the canonical form of st, which waits for the result of the call its top frame makes"""
    m = ex.m
    top = st.frames[-1]
    if isinstance(top, KFrame):
        raise Undecided("a contract in the middle of a contract")
    frames, executing = [], {}
    for n, fr in enumerate(st.frames):
        if isinstance(fr, KFrame):
            frames.append((fr, None, None))
            continue
        lv = live_of(m, fr.fn)
        live = lv.block(fr.bb, len(lv.blocks[fr.bb]["s"])) if fr is top else lv.after_call(fr.bb)
        frames.append((fr, lv, live))
        if lv.cor is not None:
            p = st.mem.get(("L", fr.fid, 1))
            while isinstance(p, Agg) and len(p.f) == 1:
                p = p.f[0]
            if not isinstance(p, Ptr):
                raise Undecided("a coroutine at %r" % (p,))
            executing[(p.a, plain(p.p))] = {k for k in live if isinstance(k, tuple)}
    for _ in range(8):
        pointed = set()
        r = _render(ex, st, roots, skip, frames, executing, pointed)
        more = False
        for a, path in pointed:
            for (b, pre), live in executing.items():
                if a == b and path[:len(pre)] == pre and len(path) > len(pre):
                    e = path[len(pre)]
                    k = e if isinstance(e, tuple) else ("u", e)
                    if k not in live:
                        live.add(k)
                        more = True
        if not more:
            return r
    raise Undecided("pointers into coroutines")


def _render(ex, st, roots, skip, frames, executing, pointed):
    names, order = {}, []

    def ptr(x):
        m = tuple(e(y) for y in x.m) if isinstance(x.m, tuple) else x.m
        if isinstance(x.a, Const):
            return ("pc", e(x.a.val), tuple(e(y) for y in x.p), m)
        if x.a not in names:
            names[x.a] = len(names)
            order.append(x.a)
        pointed.add((x.a, plain(x.p)))
        return ("p", names[x.a], tuple(e(y) for y in x.p), m)

    def e(x, at=None):
        if isinstance(x, (bool, int, str, bytes)) or x is None:
            return x
        if isinstance(x, z3.ExprRef):
            x = z3.simplify(x)
            return ("z", keep(x))
        sub = lambda y, i: e(y, None if at is None else (at[0], at[1] + (i,)))
        if isinstance(x, Agg):
            return ("a", x.v, x.ty, tuple(sub(y, i) for i, y in enumerate(x.f)))
        if isinstance(x, Cor):
            if at is not None and at in executing:
                live = executing[at]
                up = tuple((i, sub(y, i)) for i, y in enumerate(x.up) if ("u", i) in live)
                sv = tuple(sorted(((k, sub(v, ("s", k))) for k, v in x.sv.items() if ("s", k) in live), key=lambda y: y[0]))
                return ("cox", x.ty, x.v if ("d",) in live else None, up, sv)
            live = ex.m.T[x.ty]["vf"]
            sv = tuple(sorted(((k, sub(v, ("s", k))) for k, v in x.sv.items() if x.v < len(live) and k in live[x.v]), key=lambda y: y[0]))
            return ("co", x.ty, x.v, tuple(sub(y, i) for i, y in enumerate(x.up)) if x.v != 1 else (), sv)
        if isinstance(x, Const):
            return ("k", e(x.val))
        if isinstance(x, Ptr):
            return ptr(x)
        if isinstance(x, Rope):
            return ("r", tuple(tuple(e(y) for y in s) for s in x.segs))
        if isinstance(x, Seq):
            return ("q", tuple(e(y) for y in x.items))
        if isinstance(x, Obj):
            return ("o", x.k, tuple(sorted((k, e(v)) for k, v in x.d.items())))
        if isinstance(x, FnV):
            return ("f", x.fn["path"], tuple(x.fn["args"]))
        if isinstance(x, Sym):
            return ("s", x.ty, x.name, x.v, st.choices.get(x.name))
        if isinstance(x, (tuple, list)):
            return tuple(e(y) for y in x)
        if isinstance(x, dict):
            return tuple(sorted(((k, e(v)) for k, v in x.items()), key=repr))
        raise Undecided("canonical form of %r" % (x,))

    def code(f, depth=0):
        if depth > 6:
            raise Undecided("continuation")
        if not hasattr(f, "__code__"):
            return ("fn", repr(f))
        cells = []
        for name, c in zip(f.__code__.co_freevars, f.__closure__ or ()):
            v = c.cell_contents
            if v is ex or v is ex.lib or v is ex.m:
                continue
            if isinstance(v, type(ex.m.__class__)) or hasattr(v, "__code__"):
                cells.append((name, code(v, depth + 1)))
            else:
                cells.append((name, e(v)))
        dfl = tuple(e(v) if not hasattr(v, "__code__") else code(v, depth + 1) for v in (f.__defaults__ or ()) if v is not ex)
        return ("kf", f.__code__.co_filename, f.__code__.co_firstlineno, tuple(cells), dfl)

    out = []
    for fr, lv, live in frames:
        if lv is None:
            out.append(code(fr.cont))
            continue
        vals = []
        for k in sorted(k for k in live if isinstance(k, int)):
            a = ("L", fr.fid, k)
            if a not in names:
                names[a] = len(names)
            vals.append((k, names[a], e(st.mem.get(a), (a, ()))))
        dest = None
        if fr.wait and fr.wait[0] is not None:
            d = fr.wait[0]
            # a local that is overwritten as a whole is not looked at
            dest = ("local", d.a[2]) if d.a[:2] == ("L", fr.fid) and not d.p else ptr(d)
        out.append((id(fr.fn), fr.bb, fr.si, tuple(vals), dest, fr.wait[1] if fr.wait else None))
    tops = tuple(e(v) for v in roots)
    gh = tuple(sorted(((k, e(v)) for k, v in st.gh.items() if k not in skip and k not in ("loops", "asked")), key=repr))
    mem, i = [], 0
    while i < len(order):
        mem.append(e(st.mem.get(order[i]), (order[i], ())))
        i += 1
    return tuple(out), tops, gh, tuple(mem)


def difference(a, b, path=()):
    """the first place where two canonical forms differ"""
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, path + (i,))
            if d:
                return d
        return None
    return None if a == b else "%s: %s != %s" % (path, str(a)[:300], str(b)[:300])
