"""Goals: a property as obligations over the contracts, discharged path by path."""
import time
import z3
from vals import *
from core import Module, State, Exec, Undecided, Fork, KFrame, PUSHED, DEAD, Panic, Call
import lib as L
from lib import Lib, rope_of, Ok, Err, Some, NONE, Ready, PENDING, ioerr

CX = Ptr(("CX",))


class G:
    """one run of one property's goals"""

    def __init__(self, prop, mod, timeout_ms=20000, deadline=None):
        self.prop, self.m = prop, mod
        self.lib = Lib()
        self.ex = Exec(mod, self.lib, timeout_ms)
        self.ex.deadline = deadline
        self.obl = []          # (name, status, detail)
        self.covers = {}       # name -> hit
        self.goal = ""
        self.counts = {}
        self.limits = set()    # obligations decided for stated sizes only
        self.requires = set()  # preconditions of the contracts that nobody checks
        self.paths = 0
        self.closed = 0
        self.used = set()      # contracts of bromine's own functions used instead of their bodies
        self.sampled = {}
        self.only = None       # names of the obligations that belong to the property, where a goal is shared
        self.abstract = False  # the state of the current run stands for more states than the reachable ones: a failure decides nothing

    # ------------------------------------------------------------ bookkeeping
    def start(self):
        st = State()
        st.mem[("CX",)] = L.Obj("cx", id="task")
        return st

    def add(self, name, status, detail=None):
        if self.only is not None and status != "undecided" and not any(x in name for x in self.only):
            return
        if status == "failed" and self.abstract:
            status, detail = "undecided", "fails in a state that may be unreachable: %s" % (detail,)
        n = "%s/%s: %s" % (self.prop, self.goal, name)
        self.obl.append((n, status, detail))

    def cover(self, name):
        self.covers[self.goal + ": " + name] = True

    def expect(self, *names):
        for n in names:
            self.covers.setdefault(self.goal + ": " + n, False)

    def model(self, st, extra=()):
        s = z3.SolverFor("QF_AUFBV")
        s.set("timeout", self.ex.timeout)
        s.add(*[zb(x) for x in list(st.pc) + [e for e in extra if e is not True]])
        if str(s.check()) != "sat":
            return None
        m = s.model()
        out = {}
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                t = str(v).replace("\n", " ")
                out[d.name()] = t[:200]
        return out

    def req(self, st, cond, name, detail=None):
        """the obligation `cond` on this path"""
        cond = norm_bool(cond) if not isinstance(cond, bool) else cond
        n = self.sampled.get((self.goal, name), 0)
        if n < 3:
            # must-fail canary: 'false' at the same place has to be refutable, or the obligation would hold vacuously
            self.sampled[(self.goal, name)] = n + 1
            r = self.ex.check(st.pc)
            if r == "unsat":
                self.sampled[(self.goal, name)] = n
                self.vacuous = getattr(self, "vacuous", 0) + 1
                return True
        if cond is True:
            self.add(name, "proved")
            return True
        neg = NOT(cond)
        r = self.ex.check(st.pc, [neg])
        if r == "unsat":
            self.add(name, "proved")
            return True
        if r == "unknown":
            self.add(name, "undecided", "solver gave no answer")
            return False
        self.add(name, "failed", self.describe(st, [neg], detail))
        return False

    def describe(self, st, extra, detail):
        d = {"line": st.line, "model": self.model(st, extra), "trace": [short(e) for e in st.trace][:60]}
        if callable(detail):
            detail = detail()
        if detail is not None:
            d["detail"] = str(detail)[:2000]
        return d

    def fail(self, st, name, detail=None):
        return self.req(st, False, name, detail)

    def eq(self, st, a, b, name):
        """equality of byte contents"""
        if not isinstance(a, Rope) or not isinstance(b, Rope):
            return self.req(st, False, name, "%r is no byte content" % ((a, b),))
        if rope_same(a, b):
            self.add(name, "proved")
            return True
        if self.aligned(st, a, b):
            return self.req(st, True, name)
        return self.req(st, NOT(rope_neq_formula(a, b)), name, lambda: "%r\n!=\n%r" % (a, b))

    def aligned(self, st, a, b):
        """True when the contents are equal segment by segment on this path (the general formula decides otherwise)"""
        a, b = list(a.segs), list(b.segs)
        ex = self.ex

        def fixed(s):
            n = seglen(s)
            return n if isinstance(n, int) and n <= 64 and s[0] in ("c", "i", "s") else None

        def empty(s):
            return ex.entails(st, leq(seglen(s), 0))
        for _ in range(200):
            if a and b and same_seg(a[0], b[0]):
                a.pop(0)
                b.pop(0)
                continue
            if not a or not b:
                return all(empty(s) for s in a + b)
            x, y = a[0], b[0]
            m, n = fixed(x), fixed(y)
            if m is not None and n is not None:
                k = min(m, n)
                if not ex.entails(st, norm_bool(bv(rope_int(Rope([ex.cut(x, 0, k)]), k), 8 * k) == bv(rope_int(Rope([ex.cut(y, 0, k)]), k), 8 * k))):
                    return False
                for l, s, z in ((a, x, m), (b, y, n)):
                    l.pop(0)
                    if z > k:
                        l.insert(0, ex.cut(s, k, z - k))
                continue
            if x[0] == y[0] and x[0] in ("s", "t", "x") and (rope_same(x[1], y[1]) if x[0] == "x" else x[1] == y[1]):
                if x[0] == "t" or ex.entails(st, leq(x[2], y[2])):
                    lx, ly = seglen(x), seglen(y)
                    if ex.entails(st, leq(lx, ly)):
                        a.pop(0)
                        b.pop(0)
                        continue
            if m is None and empty(x):
                a.pop(0)
                continue
            if n is None and empty(y):
                b.pop(0)
                continue
            return False
        return False

    def int_eq(self, st, a, b, name, bits=64):
        return self.req(st, norm_bool(bv(a, bits) == bv(b, bits)), name, lambda: "%s != %s" % (a, b))

    def undecided(self, name, why):
        self.add(name, "undecided", str(why)[:1000])

    # ------------------------------------------------------------ running the code under contract
    def sort(self, states, allow_panic=False, what=""):
        """terminal states by outcome: undecided and panicking paths become obligations"""
        out = []
        for s in states:
            self.paths += 1
            k = s.done[0]
            if k == "undecided" or s.und:
                self.undecided("%s: the path is within reach" % what, s.und or s.done)
            elif k == "panic":
                r = self.ex.check(s.pc)
                if r == "unsat":
                    continue
                if allow_panic:
                    out.append(s)
                elif r == "unknown":
                    self.undecided("%s does not panic" % what, s.done)
                else:
                    self.add("%s does not panic" % what, "failed", self.describe(s, [], s.done))
            elif k == "diverge":
                self.undecided("%s returns" % what, s.done)
            else:
                out.append(s)
        if any(s.done[0] in ("ret", "cut", "pending") for s in out):
            self.add("%s does not panic" % what, "proved")
        return out

    def raw(self, st, root, args):
        st = st.copy()
        st.frames, st.done = [], None
        idx = self.m.roots[root] if isinstance(root, str) else root
        self.ex.push_fn(st, idx, list(args))
        return self.ex.run(st)

    def call(self, st, root, *args, allow_panic=False):
        """[(state, value)] of all paths through a root function"""
        r = self.sort(self.raw(st, root, args), allow_panic, root)
        return [(s, s.done[1] if s.done[0] == "ret" else s.done) for s in r]

    def resume(self, st, fut):
        """all outcomes of one poll of the future stored at `fut` (Ptr)"""
        st = st.copy()
        st.frames, st.done = [], None
        v = self.ex.read(st, fut)
        def ident(ex, s, x):
            return x
        try:
            r = L.poll_value(self.ex, st, self.strip(st, fut), ident)
        except Fork as f:
            out = []
            for o in f.opts:
                c = st.copy()
                if o(c) is not DEAD:
                    out += self.resume(c, fut)
            return out
        except Undecided as e:
            st.und.append(str(e))
            st.done = ("undecided", str(e))
            return [st]
        if r is PUSHED:
            return self.ex.run(st)
        out = []
        for s, v in r:
            out += self.ex.run(s) if s.done is None else [s]
        return out

    def strip(self, st, p):
        """the place of the future behind Box/Pin"""
        for _ in range(6):
            v = self.ex.read(st, p)
            if isinstance(v, Ptr):
                p = v
            elif isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], Ptr) and v.ty is None:
                p = v.f[0]
            else:
                break
        return p

    def drive(self, st, poll, roots, what, allow_panic=False, limit=4000, on_suspend=None):
        """poll a future until it is ready, on every path and for every number of not-ready answers: a suspended state
        that equals an earlier one (up to renaming of memory) is not explored again.
        poll(state) -> terminal states of one poll; roots: what the future reaches. Returns [(state, value)]"""
        out, seen, work = [], {}, [st]
        n = 0
        while work:
            s = work.pop()
            n += 1
            for k in ("sleeping", "receiving", "reading", "accepting", "woken"):
                s.gh.pop(k, None)
            if n > limit:
                self.undecided("%s: the suspended states are closed" % what, "more than %d" % limit)
                break
            for t in self.sort(poll(s), allow_panic, what):
                if t.done[0] != "ret":
                    out.append((t, t.done))
                    continue
                v = t.done[1]
                if not isinstance(v, Agg):
                    self.undecided(what, "poll gave %r" % (v,))
                    continue
                if v.v == 0:
                    out.append((t, v.f[0]))
                    continue
                t.done = None
                try:
                    k = self.ex.canon(t, [self.ex.read(t, r) for r in roots])
                except Undecided as e:
                    self.undecided("%s: the suspended state is comparable" % what, e)
                    continue
                old = seen.setdefault(k, [])
                if any(o <= t.pcset for o in old):
                    self.closed += 1
                    continue
                old.append(t.pcset)
                if on_suspend and on_suspend(t.copy()) == "stop":
                    continue
                work.append(t)
        return out

    def future(self, st, root, *args, allow_panic=False, extra=()):
        """run the async function behind `root` to completion"""
        out = []
        for s, v in self.call(st, root, *args):
            p = s.alloc(v, "future")
            out += self.drive(s, lambda t, p=p: self.resume(t, p), [p] + list(extra), root, allow_panic)
        return out

    def polled(self, st, root, fptr, allow_panic=False, extra=()):
        """poll the hand written future at fptr through its root until ready"""
        return self.drive(st, lambda t: self.raw(t, root, [fptr, CX]), [fptr] + list(extra), root, allow_panic)

    # ------------------------------------------------------------ looking into values
    def force(self, st, v):
        """[(state, Agg)] of an enum value that may be symbolic"""
        if isinstance(v, Sym):
            try:
                return [(st, self.ex.expand(st, v))]
            except Fork as f:
                out = []
                for o in f.opts:
                    c = st.copy()
                    if o(c) is not DEAD:
                        out += self.force(c, v)
                return out
        return [(st, v)]

    def vname(self, ty, v):
        return self.m.T[ty]["variants"][v]["name"]

    def ty(self, name):
        return self.m.by_name[name]

    def field(self, name, v, fld):
        """field of a struct value by the names of type and field"""
        t = self.m.T[self.ty(name)]
        for i, f in enumerate(t["variants"][0]["fields"]):
            if f[0] == fld:
                return v.f[i]
        raise Undecided("%s has no field %s" % (name, fld))

    def field_ty(self, name, fld):
        for f in self.m.T[self.ty(name)]["variants"][0]["fields"]:
            if f[0] == fld:
                return f[1]
        raise Undecided("%s has no field %s" % (name, fld))

    def fpath(self, name, fld):
        t = self.m.T[self.ty(name)]
        for i, f in enumerate(t["variants"][0]["fields"]):
            if f[0] == fld:
                return i
        raise Undecided("%s has no field %s" % (name, fld))

    def err(self, st, v):
        """(variant name, fields) of a bromine error"""
        if isinstance(v, Obj):
            return v.k, v
        t = self.m.T[self.ty("bromine::error::Error")]
        return t["variants"][v.v]["name"], v.f

    def rope(self, st, v):
        return rope_of(self.ex, st, v)

    # ------------------------------------------------------------ events
    EVENT = "bromine::events::event::Event"

    def sym_event(self, st, name):
        return st.alloc(self.ex.sym(st, self.ty(self.EVENT), name), "event")

    TYPES = {"Initiator": 0, "Response": 1, "End": 2, "Error": 3}

    def view(self, st, ep):
        """[(state, View)] what the accessors of the event at `ep` report"""
        out = []
        for s, i in self.call(st, "root_ev_id", ep):
            for s, t in self.call(s, "root_ev_type", ep):
                for s, t in self.force(s, t):
                    tn = self.vname(self.ty("bromine::events::event::EventType"), t.v)
                    for s, r in self.call(s, "root_ev_ref", ep):
                        for s, r in self.force(s, r):
                            for s, n in self.call(s, "root_ev_ns", ep):
                                for s, n in self.force(s, self.ex.read(s, n)):
                                    ns = None if n.v == 0 else self.rope(s, n.f[0])
                                    for s, nm in self.call(s, "root_ev_name", ep):
                                        nm = self.rope(s, nm)
                                        for s, d in self.call(s, "root_ev_data", ep):
                                            out.append((s, View(i, tn, None if r.v == 0 else r.f[0], ns, nm, self.rope(s, d))))
        return out


class View:
    __slots__ = ("id", "type", "ref", "ns", "name", "data", "conn")

    def __init__(self, i, t, r, ns, n, d):
        self.id, self.type, self.ref, self.ns, self.name, self.data = i, t, r, ns, n, d

    def __repr__(self):
        return "View(id=%s, %s, ref=%s, ns=%r, name=%r, data=%r)" % (self.id, self.type, self.ref, self.ns, self.name, self.data)


def short(e):
    t = []
    for x in e:
        r = repr(x)
        t.append(r if len(r) < 160 else r[:157] + "...")
    return "(" + ", ".join(t) + ")"


def lo(n, bits):
    """the low bits of a length as a machine integer"""
    if isinstance(n, int):
        return n & ((1 << bits) - 1)
    return norm_int(z3.Extract(bits - 1, 0, n))


def header_rope(v, extra=Rope(), version=(0, 9, 0)):
    """the documented header of an event"""
    r = Rope([("i", bv(x, 8), 1) if not isinstance(x, int) else ("c", bytes([x])) for x in version])
    r = r + rint(v.id, 8) + rconst(bytes([G.TYPES[v.type]]))
    r = r + (rconst(b"\0") if v.ref is None else rconst(b"\xff") + rint(v.ref, 8))
    ns = v.ns if v.ns is not None else Rope()
    return r + rint(lo(ns.len, 16), 2) + ns + rint(lo(v.name.len, 16), 2) + v.name + extra


def frame_rope(v, extra=Rope(), version=(0, 9, 0)):
    h = header_rope(v, extra, version)
    return rint(bv(ladd(h.len, v.data.len), 64), 8) + rint(lo(h.len, 16), 2) + h + v.data


def fits(v, extra=Rope()):
    """the header of the event fits its length field"""
    return lule(header_rope(v, extra).len, 65535)


def req_view(g, st, a, b, what, ids=True, empty_ns=True):
    """the event a looks like b"""
    if ids:
        g.int_eq(st, a.id, b.id, what + ": same id")
    g.req(st, a.type == b.type, what + ": same type", "%s %s" % (a.type, b.type))
    if (a.ref is None) != (b.ref is None):
        g.fail(st, what + ": same reference id", "%s %s" % (a.ref, b.ref))
    elif a.ref is not None:
        g.int_eq(st, a.ref, b.ref, what + ": same reference id")
    else:
        g.req(st, True, what + ": same reference id")
    if empty_ns:
        g.eq(st, a.ns or Rope(), b.ns or Rope(), what + ": same namespace")
        if a.ns is not None and b.ns is None:
            g.req(st, True, what + ": same namespace")
    elif (a.ns is None) != (b.ns is None):
        g.fail(st, what + ": same namespace", "%s %s" % (a.ns, b.ns))
    elif a.ns is not None:
        g.eq(st, a.ns, b.ns, what + ": same namespace")
    g.eq(st, a.name, b.name, what + ": same name")
    g.eq(st, a.data, b.data, what + ": same payload")


def guarded(f):
    """a goal function: its own internal failure makes the property undecided, never violated"""
    def run(g):
        g.goal = f.__name__
        try:
            f(g)
        except (Undecided, KeyError, IndexError, AttributeError, TypeError, ValueError, z3.Z3Exception) as e:
            if getattr(g.ex, "debug", False):
                raise
            g.undecided("goal %s is within reach" % f.__name__, repr(e))
        except Fork as e:
            g.undecided("goal %s is within reach" % f.__name__, "fork outside of a run")
    run.__name__ = f.__name__
    run.__doc__ = f.__doc__
    return run
