"""C24: stopping a connection."""
from goal import *
from g_emit import ctx_of, CTX, strs, emitted
from g_conn import client_run, run_task, tasks, iteration, handler_runs, hooked, maps_of


def sender(g, s, c):
    """[(state, channel | None, pointer to the place of the sender)] of the context at c"""
    p = Ptr(c.a, c.p + (g.fpath(CTX, "stop_sender"),))
    out = []

    def find(v, p):
        if isinstance(v, Ptr):
            return find(g.ex.read(s, v), v)
        if isinstance(v, Sym) or (isinstance(v, Agg) and v.v is not None and _is_option(v)):
            return p, v
        if isinstance(v, Agg) and len(v.f) == 1:
            return find(v.f[0], Ptr(p.a, p.p + (0,)))
        raise Undecided("stop sender %r" % (v,))
    q, v = find(g.ex.read(s, p), p)
    for t, o in g.force(s, v):
        out.append((t, None if o.v == 0 else o.f[0].ch, q))
    return out


def _is_option(v):
    return len(v.f) == 0 or (len(v.f) == 1 and isinstance(v.f[0], Obj) and v.f[0].k == "otx")


def signals(tr):
    return [e for e in tr if e[0] in ("oneshot_send", "oneshot_send_fail", "oneshot_drop", "abort")]


def stops(g, s, c):
    s = s.copy()
    s.trace = []
    v = g.ex.read(s, c)
    return g.future(s, "root_stop", v)


@guarded
def stop_once(g):
    """stopping a context signals its channel once if it has not been stopped, and from then on stopping it or a clone of it made
    before or after, also when another stop got there first, succeeds and does nothing"""
    g.expect("first stop", "gone task", "repeated stop", "no stop sender")
    st = g.start()
    c = ctx_of(g, st)
    for s, c2 in g.call(st, "root_clone_ctx", c):
        c2 = s.alloc(c2, "clone")
        for t, ch, q in sender(g, s, c):
            for u, r in stops(g, t, c):
                sig = signals(u.trace)
                sent = [e for e in sig if e[0] == "oneshot_send"]
                if ch is None:
                    g.cover("no stop sender")
                    g.req(u, not sig, "stopping a stopped context signals nothing", u.trace)
                    g.req(u, r.v == 0, "stopping a stopped context succeeds", r)
                    continue
                gone = ch in u.gh.get("gone", ()) and all(e[1] == ch and e[0] != "oneshot_send" for e in sig)
                g.req(u, gone or len(sig) == 1 and sig[0][1] == ch and sig[0][0] in ("oneshot_send", "oneshot_send_fail"), "the first stop signals the task of its connection once", u.trace)
                if sent:
                    g.cover("first stop")
                    g.req(u, r.v == 0, "the first stop succeeds", r)
                else:
                    g.cover("gone task")
                for k, x in (("same context", c), ("earlier clone", c2)):
                    for w, r2 in stops(g, u, x):
                        g.cover("repeated stop")
                        g.req(w, not signals(w.trace), "stopping again signals nothing: " + k, w.trace)
                        g.req(w, r2.v == 0, "stopping again succeeds: " + k, r2)
                for w, c3 in g.call(u, "root_clone_ctx", c):
                    for w2, r3 in stops(g, w, w.alloc(c3, "clone")):
                        g.req(w2, not signals(w2.trace) and r3.v == 0, "stopping again through a later clone does nothing", w2.trace)


@guarded
def stop_ends_reading(g):
    """the task that waits for a stop ends exactly the task that reads the connection, and only once it was signalled; the reading task
    keeps the stop sender alive, so dropping contexts signals nothing"""
    g.expect("reading task", "stop task", "abort", "waiting")
    hooked(g)
    st = g.start()
    cl = g.ex.sym(st, g.ty("bromine::ipc::client::IPCClient"), "client")
    for _, (conns, _) in client_run(g, st, "client", "root_connect", cl, Obj("AnyAddr", id="addr"), Obj("AnyOpts2", id="opts")):
        for s, c, ts in conns:
            g.req(s, not signals(s.trace), "connecting signals nothing", s.trace)
            ch = [(t, x, q) for t, x, q in sender(g, s, c)]
            g.req(s, len(ch) == 1 and ch[0][1] is not None, "a client can be stopped", ch)
            if not ch or ch[0][1] is None:
                continue
            _, ch, place = ch[0]
            reading, waiting = [], []
            for p in ts:
                s0 = s.copy()
                s0.trace = []
                fin, susp = run_task(g, s0, p, "task")
                r = [t for t in susp if "reading" in t.gh]
                if r:
                    g.cover("reading task")
                    reading.append(p)
                    for t in r:
                        g.req(t, place.a in reach(g, t, p), "the reading task keeps the stop sender", place)
                        g.req(t, not signals(t.trace), "reading signals nothing", t.trace)
                else:
                    waiting.append((p, fin, susp))
            g.req(s, len(reading) == 1, "one task reads the connection", ts)
            n = 0
            for p, fin, susp in waiting:
                for t, v in [(t, v) for t, v in fin] + [(t, None) for t in susp]:
                    ab = [k for k, e in enumerate(t.trace) if e[0] == "abort"]
                    got = [k for k, e in enumerate(t.trace) if e[0] in ("oneshot_recv", "oneshot_closed") and e[1] == ch]
                    if ab:
                        g.cover("abort")
                        n += 1
                        g.req(t, bool(got) and got[0] < ab[0], "the reading task is ended only after a stop", t.trace)
                        g.req(t, reading and t.trace[ab[0]][1].a == reading[0].a, "exactly the reading task of this connection is ended", t.trace)
                    elif got:
                        g.fail(t, "a signalled stop ends the reading task", t.trace)
                    else:
                        g.cover("waiting")
                if fin or susp:
                    g.cover("stop task")
            g.req(s, n > 0, "a stop ends the reading task", ts)


def reach(g, st, p):
    """addresses reachable from p"""
    seen, work = set(), [p]
    while work:
        v = work.pop()
        if isinstance(v, Ptr):
            if isinstance(v.a, Const):
                continue
            if v.a not in seen:
                seen.add(v.a)
                work.append(st.mem.get(v.a))
        elif isinstance(v, Agg):
            work += list(v.f)
        elif isinstance(v, Cor):
            work += list(v.up) + list(v.sv.values())
        elif isinstance(v, Obj):
            work += [x for x in v.d.values() if isinstance(x, (Ptr, Agg, Cor, Obj))]
    return seen


@guarded
def nothing_else_stops(g):
    """receiving and handling events, replying and emitting never signal the stop of the connection"""
    g.expect("client: event", "server: event", "client: handler", "server: handler", "emit")
    for what, s, kind, first, p, maps, v in iteration(g):
        g.cover(what + ": event")
        g.req(s, not signals(s.trace), what + ": receiving an event signals nothing", s.trace)
        for q in tasks(s.trace):
            for t, r in handler_runs(g, s, q, what + ": handler task"):
                g.cover(what + ": handler")
                g.req(t, not signals(t.trace), what + ": handling an event and replying signals nothing", t.trace)
    st = g.start()
    c = ctx_of(g, st)
    name, = strs(g, st, "name")
    for t, v in emitted(g, st, "root_emit", [c, Ptr(Const(name)), Obj("AnyPayload", id="payload")]):
        g.cover("emit")
        g.req(t, not signals(t.trace), "emitting signals nothing", t.trace)


GOALS = {"C24": [stop_once, stop_ends_reading, nothing_else_stops]}
