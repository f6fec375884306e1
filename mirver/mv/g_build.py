"""C23: the builder's checks and what becomes of its configuration."""
import re
from goal import *
from g_emit import ctx_of, CTX, strs
from g_conn import client_run, run_task, tasks, iteration, handler_runs, hooked, maps_of
from g_pool import same_value, count_of, GUARD, POOL
from g_stop import sender
from lib import seqm

BUILDER = "bromine::ipc::builder::IPCBuilder<opq::AnyListener>"
OPENED = ("connect", "connect_fail", "bind", "bind_fail", "accept", "spawn")


def builder(g, st, **over):
    b = g.ex.sym(st, g.ty(BUILDER), "builder")
    f = list(b.f)
    for k, v in over.items():
        f[g.fpath(BUILDER, k)] = v
    return Agg(b.v, tuple(f))


ADDR = lambda: Agg(1, (Obj("AnyAddr", id="addr"),))


def req_build_error(g, s, v, what):
    g.req(s, v.v == 1 and g.err(s, v.f[0])[0] == "BuildError", what + ": a build error", v)
    g.req(s, not any(e[0] in OPENED for e in s.trace), what + ": no connection is opened", s.trace)


@guarded
def incomplete(g):
    """without address, or for a pool of size zero, building fails with a build error and opens nothing, whatever else was configured;
    with an address and a size above zero it is not refused"""
    g.expect("server", "client", "pool", "empty pool", "accepted")
    for root, what in (("root_build_server", "server"), ("root_build_client", "client")):
        st = g.start()
        for s, v in g.future(st, root, builder(g, st, address=Agg(0, ()))):
            g.cover(what)
            req_build_error(g, s, v, what + " without address")
    st = g.start()
    n = z3.BitVec("size", 64)
    for s, v in g.future(st, "root_build_pool", builder(g, st, address=Agg(0, ())), n):
        g.cover("pool")
        req_build_error(g, s, v, "pooled client without address")
    st = g.start()
    for s, v in g.future(st, "root_build_pool", builder(g, st), 0):
        g.cover("empty pool")
        req_build_error(g, s, v, "pool of size zero")
    for what, root, x in (("client", "root_build_client", ()), ("pool", "root_build_pool", (1,))):
        st = g.start()
        for s, v in g.future(st, root, builder(g, st, address=ADDR()), *x):
            if v.v == 0:
                g.cover("accepted")
            else:
                g.req(s, any(e[0] == "connect_fail" for e in s.trace), "%s: building fails only if connecting fails" % what, s.trace)


def config(g, st, b):
    """what is configured in a builder"""
    return {k: g.field(BUILDER, b, k) for k in ("timeout", "default_serializer", "data", "listener_options", "stream_options")}


def req_ctx(g, s, c, want, what, listeners=None):
    """the context at c has the configuration"""
    def get(f):
        return g.ex.read(s, Ptr(c.a, c.p + (g.fpath(CTX, f),)))
    g.req(s, same_value(g, s, get("default_reply_timeout"), want["timeout"]), what + ": the reply timeout is the one configured", get("default_reply_timeout"))
    g.req(s, same_value(g, s, get("default_serializer"), want["default_serializer"]), what + ": the serializer is the one configured", get("default_serializer"))
    d = get("data")
    x = g.ex.read(s, d)
    while isinstance(x, Agg) and len(x.f) == 1 and not same_value(g, s, x, want["data"]):
        x = x.f[0]
    g.req(s, same_value(g, s, x, want["data"]), what + ": the shared data is the builder's", x)
    return d, get("reply_listeners"), get("emitter")


SETTERS = {
    None: (None, None),
    "address": ("root_b_address", lambda g, st: Obj("AnyAddr", id="addr2")),
    "timeout": ("root_b_timeout", lambda g, st: g.ex.sym(st, g.field_ty(BUILDER, "timeout"), "timeout2")),
    "default_serializer": ("root_b_serializer", lambda g, st: g.ex.sym(st, g.field_ty(BUILDER, "default_serializer"), "serializer2")),
    "listener_options": ("root_b_sopt", lambda g, st: Obj("AnyOpts", id="opts2")),
    "stream_options": ("root_b_copt", lambda g, st: Obj("AnyOpts2", id="opts2")),
    "a shared value": ("root_b_insert", lambda g, st: Obj("AnyShared", id="shared")),
    "many shared values": ("root_b_insert_all", lambda g, st: Obj("typemap", id="other", ops=Agg(0, ()))),
    "a handler": ("root_b_on", lambda g, st: strs(g, st, "n1")[0]),
    "a namespace": ("root_b_ns", lambda g, st: g.ex.sym(st, g.ty("bromine::namespaces::namespace::Namespace"), "ns")),
}
INSERTED = {"a shared value": "opq::AnyKey", "many shared values": "all of"}


def configured(g):
    """[(setter, state, builder, address, configuration expected, handler tables)] of an arbitrary builder after one setter"""
    out = []
    for k, (root, mk) in SETTERS.items():
        st = g.start()
        b = builder(g, st, address=ADDR(), data=Obj("typemap", id="data0", ops=Agg(0, ())))
        want = config(g, st, b)
        maps = maps_of(g, st, b)
        addr = Obj("AnyAddr", id="addr")
        if root is None:
            out.append((k, st, b, addr, want, maps))
            continue
        x = mk(g, st)
        if k == "address":
            addr = x
        elif k in INSERTED:
            want["data"] = want["data"].set(ops=Agg(0, (Agg(0, (Obj("key", id=INSERTED[k]), x)),)))
        elif k in want:
            want[k] = x
        for s, b2 in g.call(st, root, b, x):
            out.append((k, s, b2, addr, want, maps))
    return out


def req_handlers(g, what, entries, maps):
    """one event received on each connection: its handler is looked up in the builder's tables"""
    for w, s, kind, first, p, _, v in iteration(g, entries):
        for q in tasks(s.trace):
            for t, r in handler_runs(g, s, q, what + ": handler task"):
                key = g.ex.rope_key(v.name)
                cbs = [e for e in t.trace if e[0] == "callback"]
                for e in cbs:
                    if v.ns is None:
                        ok = any(e[1] == "%s[%s]" % (x, key) for x in maps["cb"])
                    else:
                        ok = any(e[1].startswith("%s[%s]" % (x, g.ex.rope_key(v.ns))) and e[1].endswith("[%s]" % key) for x in maps["ns"])
                    g.req(t, ok, what + ": handlers and namespaces are the builder's", e)
                    yield t, e, v
                if not cbs and v.ns is None:
                    g.req(t, norm_bool(z3.And(*[z3.Not(z3.Bool("has(%s,%s)" % (x, key))) for x in maps["cb"]])), what + ": the builder's handlers run", t.trace)
                if not cbs and v.ns is not None:
                    for x in maps["ns"]:
                        a = ("S", "%s[%s]" % (x, g.ex.rope_key(v.ns)))
                        if g.ex.entails(t, z3.Bool("has(%s,%s)" % (x, g.ex.rope_key(v.ns)))):
                            bases = maps_of(g, t, t.mem[a]).get("cb", []) if a in t.mem else []
                            g.req(t, bool(bases) and norm_bool(z3.And(*[z3.Not(z3.Bool("has(%s,%s)" % (y, key))) for y in bases])), what + ": the builder's namespaces are used", v)


@guarded
def client_config(g):
    """a client connects once, to the builder's address with its client options, and its context has the builder's timeout, serializer and
    shared data; each setter changes what it sets and nothing else"""
    g.expect(*["client after setting %s" % k for k in SETTERS])
    for k, st, b, addr, want, maps in configured(g):
        what = "client after setting %s" % k
        for s, v in g.future(st, "root_build_client", b):
            con = [e for e in s.trace if e[0] in ("connect", "connect_fail")]
            g.req(s, len(con) == 1 and not any(e[0] in ("bind", "accept") for e in s.trace), what + ": one connection is opened", s.trace)
            for e in con:
                g.req(s, same_value(g, s, e[1], addr), what + ": to the address configured", e)
                g.req(s, same_value(g, s, e[2], want["stream_options"]), what + ": with the client options configured", e)
            if v.v == 0:
                g.cover(what)
                req_ctx(g, s, s.alloc(v.f[0], "ctx"), want, what)


@guarded
def client_handlers(g):
    """the client's events are handled by the builder's handlers and namespaces, with contexts that have its configuration and the
    client's own reply registrations"""
    g.expect("handler")
    st = g.start()
    b = builder(g, st, address=ADDR())
    want, maps = config(g, st, b), maps_of(g, st, b)
    ent = client_run(g, st, "client", "root_build_client", b)
    own = set()
    for s, c, ts in ent[0][1][0]:
        own.add(g.ex.read(s, Ptr(c.a, c.p + (g.fpath(CTX, "reply_listeners"),))).a)
    for t, e, v in req_handlers(g, "client", ent, maps):
        g.cover("handler")
        d, l, em = req_ctx(g, t, e[2], want, "client: handler context")
        g.req(t, own == {l.a}, "client: handlers see the connection's reply registrations", (own, l))


def serve(g, st, root, args, n):
    """a server with n accepted connections: states in which it waits for the next"""
    st.gh["accepts"] = n
    out = []
    for s, v in g.call(st, root, *args):
        p = s.alloc(v, "future")

        def on(t):
            if sum(1 for e in t.trace if e[0] == "accept") == n and "accepting" in t.gh:
                out.append(t)
        g.drive(s, lambda t: g.resume(t, p), [p], "server", on_suspend=on)
    return out


@guarded
def server_config(g):
    """a server listens once, on the builder's address with its server options"""
    g.expect(*["server after setting %s" % k for k in SETTERS])
    for k, st, b, addr, want, maps in configured(g):
        what = "server after setting %s" % k
        for t in serve(g, st, "root_build_server", [b], 1):
            g.cover(what)
            bd = [e for e in t.trace if e[0] == "bind"]
            g.req(t, len(bd) == 1 and not any(e[0] == "connect" for e in t.trace), what + ": one listener is opened", t.trace)
            for e in bd:
                g.req(t, same_value(g, t, e[1], addr), what + ": on the address configured", e)
                g.req(t, same_value(g, t, e[2], want["listener_options"]), what + ": with the server options configured", e)


@guarded
def server_connections(g):
    """every connection of a server handles events with the builder's handlers and namespaces, in contexts with its configuration; two
    connections share the data and have reply registrations and writers of their own"""
    g.expect("first connection", "second connection", "both")
    hooked(g)
    st = g.start()
    b = builder(g, st, address=ADDR())
    want, maps = config(g, st, b), maps_of(g, st, b)
    for t in serve(g, st, "root_build_server", [b], 2):
        ts = tasks(t.trace)
        g.req(t, len(ts) == 2, "one task per connection", t.trace)
        if len(ts) != 2:
            continue
        got = [set(), set()]
        for i in range(2):
            ent = [("server", ([(t, None, [ts[i]])], maps))]
            for u, e, v in req_handlers(g, "server connection", ent, maps):
                g.cover("first connection" if i == 0 else "second connection")
                d, l, em = req_ctx(g, u, e[2], want, "server connection: handler context")
                got[i].add((d.a, l.a, _stream(g, u, em)))
        # the second task is run after the first: what it allocates is its own
        for u, first in _after_first(g, t, ts):
            ent = [("server", ([(u, None, [ts[1]])], maps))]
            for w, e, v in req_handlers(g, "server connection", ent, maps):
                d, l, em = req_ctx(g, w, e[2], want, "server connection: handler context")
                g.cover("both")
                g.req(w, d.a == first[0], "the connections share the server's data", (d, first))
                g.req(w, l.a != first[1], "each connection has reply registrations of its own", (l, first))
                g.req(w, _stream(g, w, em) != first[2], "each connection has a writer of its own", (em, first))
            break


@guarded
def server_any(g):
    """every connection of a server, whichever number it is: the states in which a server waits for the next connection are closed, and from
    each of them the next connection gets one task that handles its events with the builder's handlers and namespaces, in a context
    with the server's configuration and data and with reply registrations and a writer of its own"""
    g.expect("first connection", "later connection", "handler")
    hooked(g)
    st = g.start()
    b = builder(g, st, address=ADDR())
    want, maps = config(g, st, b), maps_of(g, st, b)
    work, seen, data = [], set(), set()

    def waits(t, p, first):
        t.trace, t.done = [], None
        key = g.ex.canon(t, [g.ex.read(t, p)])
        key = (key, tuple(sorted(str(c) for c in t.pc)))
        if key in seen:
            g.closed += 1
            return
        seen.add(key)
        work.append((t, p, first))
    st.gh["accepts"] = 0
    for s, v in g.call(st, "root_build_server", b):
        p = s.alloc(v, "future")

        def on(t):
            if "accepting" in t.gh:
                waits(t, p, True)
        g.drive(s, lambda t: g.resume(t, p), [p], "server", on_suspend=on)
    n = 0
    while work:
        s0, p, first = work.pop()
        n += 1
        if n > 40:
            g.undecided("the states between two connections are closed", n)
            return
        s = s0.copy()
        s.gh["accepts"] = 1
        got = []

        def on(t):
            if "accepting" in t.gh and any(e[0] == "accept" for e in t.trace):
                got.append(t)
        g.drive(s, lambda t: g.resume(t, p), [p], "server", on_suspend=on)
        for t in got:
            ts = tasks(t.trace)
            g.req(t, len(ts) == 1 and not any(e[0] in ("bind", "connect") for e in t.trace), "a connection is handled by one task", t.trace)
            if len(ts) != 1:
                continue
            g.cover("first connection" if first else "later connection")
            u = t.copy()
            waits(u, p, False)
            for w, e, v in req_handlers(g, "any connection of a server", [("server", ([(t, None, ts)], maps))], maps):
                g.cover("handler")
                d, l, em = req_ctx(g, w, e[2], want, "any connection of a server: handler context")
                data.add(d.a)
                g.req(w, d.a in s0.mem and len(data) == 1, "every connection has the data of the server", (d, data))
                g.req(w, l.a not in s0.mem, "every connection has reply registrations of its own", l)
                g.req(w, _stream(g, w, em) not in s0.mem, "every connection has a writer of its own", em)


def _stream(g, s, em):
    while isinstance(em, Agg) and len(em.f) == 1:
        em = em.f[0]
    return em.a if isinstance(em, Ptr) else repr(em)


def _after_first(g, t, ts):
    """states after the first connection ran a handler, with (data, registrations, writer) of its context"""
    ent = [("server", ([(t, None, [ts[0]])], {}))]
    for w, s, kind, first, p, _, v in iteration(g, ent):
        for q in tasks(s.trace):
            if q.a in [x.a for x in ts]:
                continue
            for u, r in handler_runs(g, s, q, "server: handler task"):
                for e in [e for e in u.trace if e[0] == "callback"]:
                    c = e[2]
                    def get(f):
                        return g.ex.read(u, Ptr(c.a, c.p + (g.fpath(CTX, f),)))
                    x = u.copy()
                    x.trace, x.done, x.frames = [], None, []
                    yield x, (get("data").a, get("reply_listeners").a, _stream(g, u, get("emitter")))


@guarded
def defaults(g):
    """a new builder has a timeout of 60 seconds, the default options, the first serializer available and no handler but the one for
    error events"""
    g.expect("new", "default", "error handler", "no other handler")
    for root, what in (("root_b_new", "new"), ("root_b_default", "default")):
        st = g.start()
        for s, b in g.call(st, root):
            for s, b in g.call(s, "root_b_address", b, Obj("AnyAddr", id="addr")):
                for s, ser in g.call(s, "root_serde_first"):
                    s.trace = []
                    for t, v in g.future(s, "root_build_client", b):
                        con = [e for e in t.trace if e[0] in ("connect", "connect_fail")]
                        g.req(t, len(con) == 1 and isinstance(con[0][2], Obj) and con[0][2].k == "AnyDefault", "the options are the default ones", con)
                        if v.v == 1:
                            continue
                        g.cover(what)
                        c = t.alloc(v.f[0], "ctx")
                        d = g.ex.read(t, Ptr(c.a, c.p + (g.fpath(CTX, "default_reply_timeout"),)))
                        g.int_eq(t, d.s, 60, "the reply timeout is 60 seconds")
                        g.int_eq(t, d.n, 0, "the reply timeout is 60 seconds", 32)
                        x = g.ex.read(t, Ptr(c.a, c.p + (g.fpath(CTX, "default_serializer"),)))
                        g.req(t, same_value(g, t, x, ser), "the serializer is the first available", (x, ser))
                    if what == "new":
                        for w, u, kind, first, p, maps, v in iteration(g, client_run(g, s, "client", "root_build_client", b)):
                            for q in tasks(u.trace):
                                for t, r in handler_runs(g, u, q, "handler task"):
                                    if any(e[0] == "callback" for e in t.trace):
                                        g.fail(t, "a new builder has no callback", t.trace)
                                    g.cover("no other handler")
                            g.cover("error handler")


@guarded
def pools(g):
    """a pool of size n opens exactly n connections with the builder's address and options; its connections share data and reply
    registrations, have stop senders and writers of their own, and counters of their own that start at zero"""
    g.limits.add("pools: pools of 1 to 4 connections (pool_any covers every size)")
    g.expect("pool handlers", *["size %d" % n for n in range(1, 5)])
    for n in range(1, 5):
        st = g.start()
        b = builder(g, st, address=ADDR())
        want, maps = config(g, st, b), maps_of(g, st, b)
        for s, v in g.future(st, "root_build_pool", b, n):
            con = [e for e in s.trace if e[0] == "connect"]
            bad = [e for e in s.trace if e[0] == "connect_fail"]
            for e in con + bad:
                g.req(s, same_value(g, s, e[1], Obj("AnyAddr", id="addr")), "each connection is opened to the address configured", e)
                g.req(s, same_value(g, s, e[2], want["stream_options"]), "each connection is opened with the client options configured", e)
            if v.v == 1:
                g.req(s, len(bad) == 1, "building a pool fails only if connecting fails", s.trace)
                continue
            g.cover("size %d" % n)
            g.req(s, len(con) == n and not bad, "a pool of size n opens n connections", s.trace)
            p = s.alloc(v.f[0], "pool")
            cp = Ptr(p.a, p.p + (g.fpath(POOL, "contexts"),))
            cs = g.ex.read(s, cp)
            g.req(s, isinstance(cs, Seq) and len(cs.items) == n, "a pool of size n has n connections", cs)
            seen = []
            for i in range(len(cs.items)):
                e = Ptr(cp.a, cp.p + (("e", i),))
                q, o = count_of(g, s, e)
                g.int_eq(s, o.v, 0, "no guard is outstanding at first")
                c = Ptr(e.a, e.p + (g.fpath(GUARD, "inner"),))
                d, l, em = req_ctx(g, s, c, want, "pool")
                x = sender(g, s, c)
                g.req(s, len(x) == 1 and x[0][1] is not None, "each connection of a pool can be stopped", x)
                seen.append((d.a, l.a, _stream(g, s, em), x[0][1], q.a))
            if n == 2 and len(seen) == 2:
                hooked(g)
                ts = tasks(s.trace)
                hit = 0
                for t, e, v in req_handlers(g, "pool connection", [("pool", ([(s, None, ts)], maps))], maps):
                    d, l, em = req_ctx(g, t, e[2], want, "pool connection: handler context")
                    g.req(t, l.a == seen[0][1] and _stream(g, t, em) in (seen[0][2], seen[1][2]), "a handler of a pooled connection sees the pool's registrations and its own connection's writer", e)
                    hit += 1
                if hit:
                    g.cover("pool handlers")
            if seen:
                g.req(s, len({x[0] for x in seen}) == 1, "the connections of a pool share the data", seen)
                g.req(s, len({x[1] for x in seen}) == 1, "the connections of a pool share the reply registrations", seen)
                g.req(s, len({x[2] for x in seen}) == n, "the connections of a pool have writers of their own", seen)
                g.req(s, len({x[3] for x in seen}) == n, "the connections of a pool have stop senders of their own", seen)
                g.req(s, len({x[4] for x in seen}) == n, "the connections of a pool have counters of their own", seen)


def step_of(x, y, k):
    """the value that is x when one connection was made and y when two were, for k connections; None if it does not count"""
    if x is y or (type(x) is type(y) and isinstance(x, (int, str, bytes, bool, type(None))) and x == y):
        return y
    if isinstance(x, int) and isinstance(y, int) and not isinstance(x, bool):
        return z3.simplify(bv(x, 64) + bv(y - x, 64) * (k - 1))
    if isinstance(x, z3.BitVecRef) or isinstance(y, z3.BitVecRef):
        if is_sym(x) and is_sym(y) and x.eq(y):
            return y
        w = (x if is_sym(x) else y).size()
        d = z3.simplify(bv(y, w) - bv(x, w))
        if not z3.is_bv_value(d) or w > 64:
            return y
        return norm_int(bv(x, w) + d * ((k - 1) if w == 64 else z3.Extract(w - 1, 0, k - 1)))
    if isinstance(x, Agg) and isinstance(y, Agg) and x.v == y.v and len(x.f) == len(y.f):
        return Agg(y.v, tuple(step_of(a, b, k) for a, b in zip(x.f, y.f)), y.ty)
    if isinstance(x, Cor) and isinstance(y, Cor) and x.v == y.v and len(x.up) == len(y.up) and x.sv.keys() == y.sv.keys():
        return Cor(y.ty, y.v, tuple(step_of(a, b, k) for a, b in zip(x.up, y.up)), {a: step_of(x.sv[a], y.sv[a], k) for a in y.sv})
    if isinstance(x, Seq) and isinstance(y, Seq) and len(x.items) == 1 and len(y.items) == 2:
        return seqm(Obj("many", n=k, x=y.items[0]), ())
    if isinstance(x, Obj) and isinstance(y, Obj) and x.k == y.k and x.d.keys() == y.d.keys():
        return Obj(y.k, **{a: step_of(x.d[a], y.d[a], k) for a in y.d})
    return y


def merged(v, out):
    """v with the elements pushed to a sequence of many counted among the many; the pushed elements go to out"""
    if isinstance(v, Obj) and v.k == "seqm":
        out += v.items
        return seqm(v.many.set(n=z3.simplify(bv(v.n, 64))), ())
    if isinstance(v, Agg):
        return Agg(v.v, tuple(merged(x, out) for x in v.f), v.ty)
    if isinstance(v, Cor):
        return Cor(v.ty, v.v, tuple(merged(x, out) for x in v.up), {a: merged(x, out) for a, x in v.sv.items()})
    return v


@guarded
def pool_any(g):
    """pools of every size: the states in which a pool of any size n waits for its connections are closed under making one more, each
    connection is opened with the builder's address and options and gets one context as configured, and a pool is ready with exactly n"""
    g.expect("first connection", "second connection", "later connection", "pool of one", "pool of two", "larger pool", "handler")
    hooked(g)
    st = g.start()
    b = builder(g, st, address=ADDR())
    want, maps = config(g, st, b), maps_of(g, st, b)
    n = z3.BitVec("pool_size", 64)
    st.assume(z3.And(n != 0, z3.ULT(n, 2 ** 32)))
    st.gh["connects"] = 0
    start = []
    for s, v in g.call(st, "root_build_pool", b, n):
        p = s.alloc(v, "future")

        def first(t):
            if "connecting" in t.gh:
                start.append((t, p))
            return "stop"
        for t, v in g.drive(s, lambda t: g.resume(t, p), [p], "pool", on_suspend=first):
            g.req(t, False, "a pool that can be built opens a connection", v)
    shared = set()

    def check(t, old, e, what):
        """e is the guard or context of a connection made after the state old"""
        d, l, em = req_ctx(g, t, e, want, what)
        x = sender(g, t, e)
        shared.add((d.a, l.a))
        g.req(t, len(shared) == 1, what + ": shares the pool's data and reply registrations", shared)
        g.req(t, len(x) == 1 and x[0][1] is not None, what + ": can be stopped", x)
        g.req(t, _stream(g, t, em) not in old.mem, what + ": has a writer of its own", em)
        g.req(t, all(str(y[1]) not in old.mem for y in x), what + ": has a stop sender of its own", x)
        return _stream(g, t, em), x[0][1]

    def key(t):
        """the state of the future, up to the names of memory and of channels"""
        names = {}
        k = repr(g.ex.canon(t, [g.ex.read(t, p)], with_trace=False, with_gh=False))
        return re.sub(r"\b(\w+)!\d+", lambda m: "%s!%d" % (m.group(1), names.setdefault(m.group(0), len(names))), k)

    def step(s0, p, what):
        """one more connection: (states that wait for the next, pools that are ready)"""
        s = s0.copy()
        s.trace, s.done = [], None
        s.gh["connects"], s.gh["conn_base"] = 1, "%s." % what
        s.gh.pop("connecting", None)
        nxt = []

        def on(t):
            if any(e[0] == "connect" for e in t.trace):
                nxt.append(t)
                return "stop"
        ready = []
        for t, v in g.drive(s, lambda t: g.resume(t, p), [p], "pool", on_suspend=on):
            bad = [e for e in t.trace if e[0] == "connect_fail"]
            if v.v == 1:
                g.req(t, len(bad) == 1, "building a pool fails only if connecting fails", t.trace)
                continue
            g.req(t, not bad, "a pool is ready only with all its connections", t.trace)
            ready.append((t, v))
        for t in nxt + [x[0] for x in ready]:
            con = [e for e in t.trace if e[0] == "connect"]
            g.req(t, len(con) == 1 and len(tasks(t.trace)) == 2, what + ": one connection at a time, with its tasks", t.trace)
            for e in con:
                g.req(t, same_value(g, t, e[1], Obj("AnyAddr", id="addr")), "each connection is opened to the address configured", e)
                g.req(t, same_value(g, t, e[2], want["stream_options"]), "each connection is opened with the client options configured", e)
            ent = [("pool", ([(t, None, tasks(t.trace))], maps))]
            # the second connection is the later one after k = 1
            for w, e, v in req_handlers(g, "any connection of a pool", ent, maps) if what != "second connection" else ():
                g.cover("handler")
                d, l, em = req_ctx(g, w, e[2], want, "any connection of a pool: handler context")
                shared.add((d.a, l.a))
                g.req(w, len(shared) == 1, "handlers of a pool see its data and reply registrations", shared)
        g.cover(what)
        uniq = {}
        for t in nxt:
            uniq.setdefault((key(t), tuple(sorted(str(c) for c in t.pc))), t)
        return list(uniq.values()), ready

    def finished(t, v, s0, num, first, more):
        """num: the number of connections of a ready pool; more: the contexts it had made before the last"""
        g.int_eq(t, num, n, "a pool of size n has n connections")
        q = t.alloc(v.f[0], "pool")
        cp = Ptr(q.a, q.p + (g.fpath(POOL, "contexts"),))
        cs = g.ex.read(t, cp)
        its = list(cs.items) if isinstance(cs, Seq) else [cs.many.x] + list(cs.items) if isinstance(cs, Obj) and cs.k == "seqm" else None
        if its is None:
            raise Undecided("the connections of a pool: %r" % (cs,))
        g.int_eq(t, len(its) if isinstance(cs, Seq) else cs.n, n, "a pool of size n has n connections")
        seen = []
        for i, e in enumerate(its):
            ep = t.alloc(e, "guard")
            a, o = count_of(g, t, ep)
            g.int_eq(t, o.v, 0, "no guard is outstanding at first")
            g.req(t, a.a not in s0.mem, "each connection of a pool has a counter of its own", a)
            last = i == len(its) - 1
            c = Ptr(ep.a, ep.p + (g.fpath(GUARD, "inner"),))
            old = s0 if last else first
            k = check(t, old, c, "a connection of a pool")
            if not last:
                g.req(t, k in more, "the connections made are the pool's", (k, more))
            seen.append(k + (a.a,))
        for j, w in enumerate(("writers", "stop senders", "counters")):
            g.req(t, len({x[j] for x in seen}) == len(seen), "the connections of a pool have %s of their own" % w, seen)

    def made(s):
        """the contexts a waiting pool has made"""
        out = set()

        def walk(v):
            if isinstance(v, Agg):
                for x in v.f:
                    walk(x)
            if isinstance(v, Cor):
                for x in list(v.up) + list(v.sv.values()):
                    walk(x)
            its = v.items if isinstance(v, Seq) else (v.many.x,) if isinstance(v, Obj) and v.k == "seqm" else ()
            for x in its:
                c = s.alloc(x, "context")
                y = sender(g, s, c)
                out.add((_stream(g, s, g.ex.read(s, Ptr(c.a, c.p + (g.fpath(CTX, "emitter"),)))), y[0][1]))
        walk(g.ex.read(s, p))
        return out

    def at(s0, s1, s2, kk):
        """the pool waits after kk connections"""
        w = s2.copy()
        w.trace, w.done, w.pc, w.pcset = [], None, list(s0.pc), s0.pcset
        w.gh["conn_base"] = ""
        w.assume(z3.And(z3.UGE(kk, 1), z3.ULT(kk, n)))
        g.ex.write(w, p, step_of(g.ex.read(s1, p), g.ex.read(s2, p), kk))
        return w

    def later(s0, s1, s2):
        k = z3.BitVec("connections", 64)
        w = at(s0, s1, s2, k)
        nxt, ready = step(w, p, "later connection")
        new = []
        closed = True
        for t in nxt:
            out = []
            v = merged(g.ex.read(t, p), out)
            u, x = t.copy(), at(s0, s1, s2, k + 1)
            g.ex.write(u, p, v)
            new.append((t, out))
            if key(u) != key(x):
                closed = False
                g.undecided("the states of a pool that waits for a connection are closed", "the state after one more connection differs in more than its number")
            else:
                g.closed += 1
        # a state that is not known to occur decides nothing
        g.abstract = not closed
        for t, v in ready:
            g.cover("larger pool")
            finished(t, v, w, k + 1, s0, made(w))
        for t, out in new:
            g.req(t, z3.ULT(k + 1, n), "a pool makes no more than n connections", None)
            if len(out) != 1:
                raise Undecided("the connections of a pool that waits for the next: %r" % (out,))
            check(t, w, t.alloc(out[0], "context"), "a new connection of a pool")
        g.abstract = False

    for s0, p in start:
        n1, r1 = step(s0, p, "first connection")
        for t, v in r1:
            g.cover("pool of one")
            finished(t, v, s0, 1, s0, set())
        for s1 in n1:
            n2, r2 = step(s1, p, "second connection")
            for t, v in r2:
                g.cover("pool of two")
                finished(t, v, s1, 2, s0, made(s1))
            for s2 in n2:
                later(s0, s1, s2)


GOALS = {"C23": [incomplete, client_config, client_handlers, server_config, server_connections, server_any, defaults, pools, pool_any]}
