"""C07, C09, C10, C24: what a connection does with the events it receives.

The reading loop is decided by its invariant: the first iteration starts in the state S0 in which the task first waits for an
event; every path through it, for an arbitrary event, either ends or waits for the next event in a state equal to S0 (up to the
names of memory), so the obligations of one iteration hold for each. Event::from_async_read is used by its contract (C01, C03)."""
from goal import *
from g_emit import whole_frame, writes, concat, strs, ctx_of, CTX
from g_payload import error_spec

READ = "bromine::events::event::Event::from_async_read"


def read_hook(ex, st, a):
    r = a.args[0]
    return Obj("fut", op="read_event", r=r if isinstance(r, Ptr) else st.alloc(r, "rd"))


@L.fut("read_event")
def f_read_event(ex, st, p, f):
    """contract of Event::from_async_read: any event, or an error; at most one event is delivered in this exploration"""
    q, k = L.io_target(ex, st, f.r)
    rid = ex.read(st, q).id
    pend = st.copy()
    pend.gh["reading"] = rid
    if st.gh.get(("nread", rid), 0):
        return [(pend, PENDING)]
    t = ex.m.T[ex.m.by_name["bromine::error::Error"]]
    bad = []
    for i, v in enumerate(t["variants"]):
        if v["name"] == "IoError":
            b = st.copy()
            L.done(ex, b, p, None)
            b.ev("read_err", rid)
            bad.append((b, Ready(Err(Agg(i, (ioerr(L.TRANSPORT),))))))
        elif v["name"] == "CorruptedEvent":
            b = st.copy()
            L.done(ex, b, p, None)
            b.ev("read_err", rid)
            bad.append((b, Ready(Err(Agg(i, ())))))
    L.done(ex, st, p, None)
    st.gh[("nread", rid)] = 1
    st.ev("read_event", rid)
    e = ex.sym(st, ex.m.by_name[G.EVENT], "received")
    return [(pend, PENDING)] + bad + [(st, Ready(Ok(e)))]


def hooked(g):
    g.ex.hooks[READ] = read_hook
    if not any(f["path"] == READ for f in g.m.F):
        raise Undecided("Event::from_async_read is not called by the connection")
    g.used.add("Event::from_async_read (C01, C03)")


def maps_of(g, st, v, out=None, seen=None):
    """all hash maps reachable inside a value: {'ns': base, 'cb': base}"""
    if out is None:
        out, seen = {}, set()
    if isinstance(v, Obj) and v.k == "hmap":
        n = g.m.tn(v.vty)
        if "Namespace" in n:
            out.setdefault("ns", []).append(v.base)
        elif "Fn(" in n:
            out.setdefault("cb", []).append(v.base)
    elif isinstance(v, Agg):
        for x in v.f:
            maps_of(g, st, x, out, seen)
    elif isinstance(v, Cor):
        for x in list(v.up) + list(v.sv.values()):
            maps_of(g, st, x, out, seen)
    elif isinstance(v, Ptr) and not isinstance(v.a, Const) and v.a not in seen:
        seen.add(v.a)
        maps_of(g, st, st.mem.get(v.a), out, seen)
    return out


def tasks(tr):
    return [e[1] for e in tr if e[0] == "spawn"]


def run_task(g, st, p, what):
    """drive a spawned task to its end: (finished [(state, value)], suspended [state])"""
    susp = []

    def on(s):
        susp.append(s)
    fin = g.drive(st, lambda t: g.resume(t, p), [p], what, on_suspend=on)
    return fin, susp


def client_tasks(g):
    """a client that has connected: [(state, context pointer, [task])], and the client's maps"""
    st = g.start()
    cl = g.ex.sym(st, g.ty("bromine::ipc::client::IPCClient"), "client")
    maps = maps_of(g, st, cl)
    return client_run(g, st, "client", "root_connect", cl, Obj("AnyAddr", id="addr"), Obj("AnyOpts2", id="opts"))[0][1][0], maps


def client_run(g, st, what, root, *args):
    """a client connected by `root`: one entry for iteration()"""
    hooked(g)
    out = []
    for s, v in g.future(st, root, *args):
        if v.v == 0:
            out.append((s, s.alloc(v.f[0], "ctx"), tasks(s.trace)))
    return [(what, (out, None))]


def server_tasks(g):
    """a server with one accepted connection: [(state, None, [task])], and the server's maps"""
    hooked(g)
    st = g.start()
    srv = g.ex.sym(st, g.ty("bromine::ipc::server::IPCServer"), "server")
    maps = maps_of(g, st, srv)
    st.gh["accepts"] = 1
    out = []
    for s, v in g.call(st, "root_start", srv, Obj("AnyAddr", id="addr"), Obj("AnyOpts", id="opts")):
        p = s.alloc(v, "future")
        found = []

        def on(t):
            if any(e[0] == "accept" for e in t.trace) and "accepting" in t.gh:
                found.append(t)
        g.drive(s, lambda t: g.resume(t, p), [p], "server", on_suspend=on)
        for t in found:
            out.append((t, None, tasks(t.trace)))
    return out, maps


def readers(g, conns=None):
    """[(what, state, task)] of the tasks that read a connection, one per kind of connection"""
    out = []
    for what, (conns, maps) in conns or (("client", client_tasks(g)), ("server", server_tasks(g))):
        for s, c, ts in conns:
            for p in ts:
                s0 = s.copy()
                s0.trace = []
                _, susp = run_task(g, s0, p, what + ": task")
                first = [t for t in susp if "reading" in t.gh and not any(e[0] == "read_event" for e in t.trace)]
                if first:
                    out.append((what, s0, p, first, maps, c))
    return out


def after_event(g, st, p, what):
    """states after one received event: [(state, 'ended' | 'waiting')]"""
    fin, susp = run_task(g, st, p, what)
    out = [(s, "ended") for s, v in fin if any(e[0] == "read_event" for e in s.trace)]
    out += [(s, "waiting") for s in susp if any(e[0] == "read_event" for e in s.trace) and "reading" in s.gh]
    return fin, out


def received(g, s):
    return s.alloc(g.ex.sym(s, g.ty(G.EVENT), "received"), "received")


def handler_runs(g, s, p, what):
    """drive the task spawned for an event"""
    s = s.copy()
    s.trace = []
    s.frames, s.done = [], None
    return g.drive(s, lambda t: g.resume(t, p), [p], what)


def iteration(g, conns=None):
    """[(what, state after one event, kind, first waiting states, task, maps, view of the event)]"""
    out = []
    for what, s0, p, first, maps, c in readers(g, conns):
        fin, nxt = after_event(g, s0, p, what)
        for s, kind in nxt:
            s.done, s.frames = None, []
            e = received(g, s)
            for t, v in g.view(s, e):
                v.conn = (s0, c)
                out.append((what, t, kind, first, p, maps, v))
    return out


@guarded
def one_destination(g):
    """each received event goes to the waiting listener, or is dropped, or starts one handler task of the right handler set"""
    g.expect(*["%s: %s" % (w, x) for w in ("client", "server") for x in
               ("listener", "gone listener", "no listener", "end dropped", "namespace", "unknown namespace", "global")])
    for what, s, kind, first, p, maps, v in iteration(g):
        tr = s.trace
        i = [k for k, e in enumerate(tr) if e[0] == "read_event"][0]
        tr = tr[i + 1:]
        sp = tasks(tr)
        look = [e for e in tr if e[0] == "map_get"]
        sent = [e for e in tr if e[0] == "sent"]
        g.req(s, kind == "waiting", what + ": the connection goes on reading after an event", kind)
        k0 = {g.ex.canon(f, [g.ex.read(f, p)], with_trace=False, with_gh=False) for f in first}
        if kind == "waiting":
            g.req(s, g.ex.canon(s, [g.ex.read(s, p)], with_trace=False, with_gh=False) in k0,
                  what + ": the connection waits for the next event in the state in which it waited for this one")
        g.req(s, not any(e[0] in ("map_remove", "map_insert", "write", "lock", "callback", "oneshot_send") for e in tr),
              what + ": receiving an event changes no registration and writes nothing itself", tr)
        if v.ref is not None:
            g.req(s, any(e[2] is v.ref or g.ex.entails(s, norm_bool(bv(e[2], 64) == bv(v.ref, 64))) for e in look), what + ": a reply is looked up by its reference id", tr)
        for e in look:
            g.req(s, v.ref is not None and norm_bool(bv(e[2], 64) == bv(v.ref, 64)), what + ": only the reference id is looked up", e)
        hit = any(e[3] for e in look)
        if sent:
            g.cover(what + ": listener")
            g.req(s, v.ref is not None and hit and len(sent) == 1, what + ": only a reply is given to a listener, once", tr)
            if v.ref is not None:
                g.req(s, sent[0][1][0] == "listener" and sent[0][1][2] == L.keyname(v.ref), what + ": to the listener of its reference id", sent)
            ep = s.alloc(sent[0][2], "sent")
            for t, w in g.view(s, ep):
                req_view(g, t, w, v, what + ": the listener's event", empty_ns=False)
            g.req(s, not sp, what + ": a reply with a listener starts no handler", tr)
            continue
        if hit:
            g.cover(what + ": gone listener")
            g.req(s, any(e[0] in ("send_fail", "closed") for e in tr), what + ": a live listener gets the event", tr)
        elif v.ref is not None:
            g.cover(what + ": no listener")
        if v.type == "End":
            g.cover(what + ": end dropped")
            g.req(s, not sp, what + ": an end event without listener starts no handler", tr)
            continue
        g.req(s, len(sp) == 1, what + ": one handler task per ordinary event", tr)
        if len(sp) != 1:
            continue
        for t, r in handler_runs(g, s, sp[0], what + ": handler task"):
            cbs = [e for e in t.trace if e[0] == "callback"]
            g.req(t, len(cbs) <= 1, what + ": at most one callback runs", t.trace)
            key = g.ex.rope_key(v.name)
            if v.ns is not None:
                want = ["%s[%s]" % (b, g.ex.rope_key(v.ns)) for b in maps.get("ns", [])]
                other = maps.get("cb", [])
                known_ns = any(g.ex.entails(t, z3.Bool("has(%s,%s)" % (b, g.ex.rope_key(v.ns)))) for b in maps.get("ns", []))
                g.cover(what + (": namespace" if known_ns else ": unknown namespace"))
                if not known_ns:
                    g.req(t, not cbs, what + ": no handler of another set runs for a namespace that is not registered", cbs)
                    continue
                for e in cbs:
                    g.req(t, any(e[1].startswith(w) for w in want) and e[1].endswith("[%s]" % key), what + ": the namespace's handler for the name runs", e)
            else:
                g.cover(what + ": global")
                want = ["%s[%s]" % (b, key) for b in maps.get("cb", [])]
                for e in cbs:
                    g.req(t, e[1] in want, what + ": the global handler for the name runs", e)
            if not cbs:
                # nothing is registered under the name in the set that was asked
                c = [z3.Bool("has(%s,%s)" % (b, key)) for b in maps.get("cb", [])] if v.ns is None else None
                if c:
                    g.req(t, norm_bool(z3.And(*[z3.Not(x) for x in c])), what + ": a registered handler runs", t.trace)


@guarded
def handler_context(g):
    """the context a handler gets carries the id of the event being handled and belongs to the connection the event came from;
    so do clones of it; the context of the connection itself carries none"""
    g.expect("client: handler", "server: handler", "client: own context")
    for s, c, ts in client_tasks(g)[0]:
        for t, ref in [(t, r) for t, r in _ref(g, s, c)]:
            g.cover("client: own context")
            g.req(t, ref is None, "client: the connection's own context carries no reference id", ref)
    for what, s, kind, first, p, maps, v in iteration(g):
        for q in tasks(s.trace):
            for t, r in handler_runs(g, s, q, what + ": handler task"):
                for e in [e for e in t.trace if e[0] == "callback"]:
                    g.cover(what + ": handler")
                    for t2, ref in _ref(g, t, e[2]):
                        g.req(t2, ref is not None, what + ": the handler's context carries a reference id", t.trace)
                        if ref is not None:
                            g.int_eq(t2, ref, v.id, what + ": the handler's context carries the id of the event being handled")
                    for t2, c2 in g.call(t, "root_clone_ctx", e[2]):
                        for t3, ref in _ref(g, t2, t2.alloc(c2, "clone")):
                            g.req(t3, ref is not None and norm_bool(bv(ref, 64) == bv(v.id, 64)), what + ": a clone of it carries the same id", ref)
                    ep = t.alloc(e[3], "handled")
                    for t2, w in g.view(t, ep):
                        req_view(g, t2, w, v, what + ": the event the handler gets", empty_ns=False)


def _ref(g, s, c):
    v = g.ex.read(s, Ptr(c.a, c.p + (g.fpath(CTX, "ref_id"),)))
    return [(t, None if o.v == 0 else o.f[0]) for t, o in g.force(s, v)]


def decode(g, s, b):
    """[(state, View)] of the one event in the bytes b, by the real decoder"""
    s = s.copy()
    hooks, g.ex.hooks = g.ex.hooks, {}
    s.gh[("in", "wire")] = b
    s.gh["calm"] = True
    r = s.alloc(Obj("AnyReader", id="wire", pos=0), "wire")
    out = []
    try:
        for t, v in g.future(s, "root_decode", r):
            if v.v == 1:
                g.fail(t, "what was sent decodes", g.err(t, v.f[0]))
                continue
            g.req(t, leq(g.ex.read(t, r).pos, b.len), "nothing follows the event")
            out += g.view(t, t.alloc(v.f[0], "decoded"))
    finally:
        g.ex.hooks = hooks
    return out


@guarded
def closing_reply(g):
    """one closing reply per handled event, after the handler ended, under the connection's lock"""
    g.expect(*["%s: %s" % (w, x) for w in ("client", "server") for x in ("success", "failure", "no handler")])
    for what, s, kind, first, p, maps, v in iteration(g):
        g.req(s, not any(e[0] in ("map_remove", "map_insert") for e in s.trace), what + ": receiving an event touches no registration", s.trace)
        if v.type != "End" and not any(e[0] == "sent" for e in s.trace):
            g.req(s, len(tasks(s.trace)) == 1, what + ": an event that no listener takes is handled once", s.trace)
        for q in tasks(s.trace):
            for t, r in handler_runs(g, s, q, what + ": handler task"):
                tr = t.trace
                cb = [e for e in tr if e[0] == "callback"]
                ok = [e for e in tr if e[0] == "callback_ok"]
                bad = [e for e in tr if e[0] == "callback_err"]
                g.req(t, not any(e[0] in ("map_remove", "map_insert") for e in tr), what + ": handling an event touches no registration", tr)
                g.req(t, not any(e[0] == "spawn" for e in tr), what + ": the reply is sent by the task that handled the event", tr)
                if any(e[0] in ("write_fail", "flush_fail") for e in tr):
                    i = [k for k, e in enumerate(tr) if e[0] in ("write_fail", "flush_fail")][0]
                    g.req(t, not any(e[0] == "write" for e in tr[i:]), what + ": nothing more is sent after a failure to send", tr)
                    continue
                w = writes(tr)
                if not w:
                    # a reply whose header does not fit, or an error text that does not fit its length field
                    msg = [e for e in tr if e[0] == "fmt"]
                    g.req(t, bool(bad) and bool(msg) and NOT(lule(msg[-1][3].len, 0xFFFFFFFF)), what + ": a reply is sent", tr)
                    continue
                if cb:
                    j = max(k for k, e in enumerate(tr) if e[0] in ("callback_ok", "callback_err"))
                    g.req(t, all(k > j for k, e in enumerate(tr) if e[0] == "write"), what + ": the reply is sent after the handler ended", tr)
                b = whole_frame(g, t, what)
                if b is None:
                    continue
                for t2, d in decode(g, t, b):
                    if bad:
                        g.cover(what + ": failure")
                        g.req(t2, d.type == "Error", what + ": a failed handler sends an error event", d)
                        g.eq(t2, d.name, rconst(b"error"), what + ": named error")
                        txt = [e[3] for e in tr if e[0] == "fmt" and _about(g, t2, e[2], bad[0][1])]
                        g.req(t2, bool(txt), what + ": with the text of the handler's error", tr)
                        if txt:
                            g.eq(t2, d.data, error_spec(500, txt[-1]), what + ": code 500 and the text of the handler's error")
                    else:
                        g.cover(what + (": success" if cb else ": no handler"))
                        g.req(t2, d.type == "End", what + ": a handled event is closed by an end event", d)
                        g.eq(t2, d.data, ok[0][2] if ok else Rope(), what + ": with the response as payload")
                    g.req(t2, d.ref is not None, what + ": the reply references an event", d)
                    if d.ref is not None:
                        g.int_eq(t2, d.ref, v.id, what + ": the reply references the handled event")


def _about(g, s, x, cid):
    for _ in range(4):
        if isinstance(x, Ptr):
            x = g.ex.read(s, x)
    return isinstance(x, Obj) and x.k == "anyerror" and x.d.get("id") == cid



def lock_of_emit(g, s, c):
    """the lock and writer an emit through the context at c uses"""
    s = s.copy()
    s.trace = []
    name, = strs(g, s, "name")
    from g_emit import emitted
    for t, v in emitted(g, s, "root_emit", [c, Ptr(Const(name)), Obj("AnyPayload", id="payload")]):
        if v.v == 0:
            return [e[1] for e in t.trace if e[0] == "lock"], {e[1] for e in writes(t.trace)}
    return None, None


@guarded
def connection_lock(g):
    """the closing reply of a handler, what the handler emits and what the owner of the context emits go through one lock to one
    writer, which is the write half of that connection's own stream"""
    g.expect("client: reply", "server: reply", "client: handler's emit", "server: handler's emit")
    own, seen = {}, set()
    for what, s, kind, first, p, maps, v in iteration(g):
        rid = [e[1] for e in s.trace if e[0] == "read_event"][0]
        for q in tasks(s.trace):
            for t, r in handler_runs(g, s, q, what + ": handler task"):
                lk = [e[1] for e in t.trace if e[0] == "lock"]
                wr = {e[1] for e in writes(t.trace)}
                s0, c = v.conn
                if id(s0) not in own:
                    own[id(s0)] = lock_of_emit(g, s0, c) if c is not None else None
                ref = own[id(s0)]
                for e in [e for e in t.trace if e[0] == "callback"]:
                    if (id(s0), e[1], e[2].a) in seen:
                        continue
                    seen.add((id(s0), e[1], e[2].a))
                    g.cover(what + ": handler's emit")
                    l2, w2 = lock_of_emit(g, t, e[2])
                    if ref is None:
                        ref = own[id(s0)] = (l2, w2)
                    g.req(t, l2 == ref[0] and w2 == ref[1], what + ": a handler's emit uses the connection's lock and writer", "%s %s %s" % (l2, w2, ref))
                if wr and ref is not None:
                    g.cover(what + ": reply")
                    g.req(t, lk == ref[0] and wr == ref[1], what + ": the closing reply uses the connection's lock and writer", "%s %s %s" % (lk, wr, ref))
                    g.req(t, wr == {rid}, what + ": it is written to the stream the event was read from", "%s %s" % (wr, rid))


GOALS = {"C07": [handler_context], "C08": [connection_lock], "C09": [one_destination], "C10": [closing_reply]}
