"""C11: handlers and namespaces are looked up by exact name, the last registration wins.

A handler set is arbitrary: its table stands for whatever was registered before. Registering is decided to change the look-up of
one name only, which by induction on the registrations gives the property for every sequence of them."""
from goal import *
from g_emit import strs, ctx_of
from g_conn import client_run, handler_runs, tasks, iteration, maps_of, hooked

HANDLER = "bromine::events::event_handler::EventHandler"
BUILDER = "bromine::ipc::builder::IPCBuilder<opq::AnyListener>"
NS = "bromine::namespaces::namespace::Namespace"


def same(g, st, a, b):
    """formula or truth value: the names are equal"""
    r = L.rope_eq_atom(g.ex, st, a, b)
    return r


def conj(*xs):
    if any(x is False for x in xs):
        return False
    xs = [x for x in xs if x is not True]
    return True if not xs else norm_bool(z3.And(*[zb(x) for x in xs]))


def handled(g, st, h, ctx):
    """[(state, event view, callbacks, result)] of handling an arbitrary event"""
    e = g.sym_event(st, "event")
    ev = g.ex.read(st, e)
    for s, v in g.view(st, e):
        s.trace = []
        for t, r in g.future(s, "root_handle", h, ctx, ev):
            yield t, v, [x for x in t.trace if x[0] == "callback"], r


def req_result(g, t, r, what):
    """the result is the callback's"""
    ok = [x for x in t.trace if x[0] == "callback_ok"]
    bad = [x for x in t.trace if x[0] == "callback_err"]
    if bad:
        g.req(t, r.v == 1 and isinstance(r.f[0], Obj) and r.f[0].d.get("id") == bad[0][1], what + ": the callback's error is the result", r)
    elif ok:
        g.req(t, r.v == 0, what + ": the callback's response is the result", r)
        if r.v == 0:
            g.eq(t, response_bytes(g, t, r.f[0]), ok[0][2], what + ": the callback's response is the result")
    else:
        g.fail(t, what + ": the callback is run to its end", t.trace)


def response_bytes(g, t, v):
    for _ in range(4):
        if isinstance(v, Rope):
            return v
        if isinstance(v, Agg) and len(v.f) == 1:
            v = v.f[0]
    raise Undecided("response %r" % (v,))


def has(base, g, key):
    return z3.Bool("has(%s,%s)" % (base, g.ex.rope_key(key)))


@guarded
def registration(g):
    """after registering under n1 and then under n2 in an arbitrary handler set: an event named n2 goes to the second callback, else one
    named n1 to the first, else to what was there before; exactly one callback, with the given context and event, and its result"""
    registered(g, lambda s, h, n1, n2: [t for s, _ in g.call(s, "root_on", h, n1) for t, _ in g.call(s, "root_on2", h, n2)])


def registered(g, register):
    g.expect("second", "first", "earlier", "none")
    st = g.start()
    h = st.alloc(g.ex.sym(st, g.ty(HANDLER), "set"), "set")
    base = maps_of(g, st, g.ex.read(st, h)).get("cb", [])
    n1, n2 = strs(g, st, "n1", "n2")
    ctx = ctx_of(g, st)
    if True:
        for s in register(st, h, Ptr(Const(n1)), Ptr(Const(n2))):
            for t, v, cbs, r in handled(g, s, h, ctx):
                g.req(t, len(cbs) <= 1, "at most one callback runs", cbs)
                e1, e2 = same(g, t, v.name, n1), same(g, t, v.name, n2)
                if not cbs:
                    g.cover("none")
                    g.req(t, conj(NOT(e1), NOT(e2), *[NOT(has(b, g, v.name)) for b in base]), "a registered callback runs", v)
                    g.req(t, r.v == 0, "without callback the result is a response", r)
                    if r.v == 0:
                        g.eq(t, response_bytes(g, t, r.f[0]), Rope(), "without callback the response is empty")
                    continue
                c = cbs[0]
                if c[1] == "cb2":
                    g.cover("second")
                    g.req(t, e2, "the second callback runs for its name only", (v.name, n2))
                elif c[1] == "cb1":
                    g.cover("first")
                    g.req(t, conj(e1, NOT(e2)), "the first callback runs for its name only, unless it was replaced", (v.name, n1))
                else:
                    g.cover("earlier")
                    g.req(t, conj(NOT(e1), NOT(e2)), "an earlier callback runs only when its name was not registered again", c)
                    g.req(t, any(c[1] == "%s[%s]" % (b, g.ex.rope_key(v.name)) for b in base), "the earlier callback of exactly the event's name runs", c)
                p = c[2]
                for _ in range(3):
                    q = g.ex.read(t, p)
                    if isinstance(q, Ptr):
                        p = q
                g.req(t, p.a == ctx.a and p.p == ctx.p, "the callback gets the given context", (c[2], ctx))
                for t2, w in g.view(t, t.alloc(c[3], "got")):
                    req_view(g, t2, w, v, "the callback's event", empty_ns=False)
                req_result(g, t, r, "one callback")


@guarded
def registration_macros(g):
    """as `registration`, for handlers registered with the macros `events!` and `callback!`"""
    for root in ("root_events", "root_events_path", "root_callback"):
        registered(g, lambda s, h, n1, n2: [t for t, _ in g.call(s, root, h, n1, n2)])


@guarded
def fresh_set(g):
    """a new handler set runs no callback for any event"""
    g.expect("empty")
    st = g.start()
    ctx = ctx_of(g, st)
    for s, v in g.call(st, "root_handler_new"):
        for t, v, cbs, r in handled(g, s, s.alloc(v, "set"), ctx):
            g.cover("empty")
            g.req(t, not cbs, "no callback runs", cbs)
            g.req(t, r.v == 0, "the result is a response", r)
            if r.v == 0:
                g.eq(t, response_bytes(g, t, r.f[0]), Rope(), "the response is empty")


def any_builder(g, st):
    b = g.ex.sym(st, g.ty(BUILDER), "builder")
    return b, maps_of(g, st, b)


def runs(g, st, b, what):
    """[(state, view of the received event, callbacks)] of a client built from b that receives one event that starts a handler"""
    for _, s, kind, first, p, maps, v in iteration(g, client_run(g, st, what, "root_build_client", b)):
        if any(e[0] == "sent" for e in s.trace):
            continue
        for q in tasks(s.trace):
            for t, r in handler_runs(g, s, q, what + ": handler task"):
                yield t, v, [e for e in t.trace if e[0] == "callback"]


@guarded
def namespaces(g):
    """after adding two namespaces to an arbitrary builder: an event of the second's name goes to the second's set, else one of the
    first's name to the first's, else to an earlier one of that name; and to no other set"""
    g.expect("second", "first", "earlier", "global", "nothing")
    st = g.start()
    b, maps = any_builder(g, st)
    sets = {}
    nsv = {}
    for k in ("first", "second"):
        v = g.ex.sym(st, g.ty(NS), "ns-" + k)
        sets[k] = maps_of(g, st, v).get("cb", [])
        nsv[k] = v
        st_name = g.field(NS, v, "name")
        nsv[k + "name"] = g.rope(st, st_name)
    for s, b in g.call(st, "root_b_ns", b, nsv["first"]):
        for s, b in g.call(s, "root_b_ns", b, nsv["second"]):
            for t, v, cbs in runs(g, s, b, "client"):
                g.req(t, len(cbs) <= 1, "at most one callback runs", cbs)
                key = g.ex.rope_key(v.name)
                if v.ns is None:
                    g.cover("global")
                    for c in cbs:
                        g.req(t, any(c[1] == "%s[%s]" % (x, key) for x in maps["cb"]), "an event without namespace goes to the global handlers", c)
                    continue
                e1, e2 = same(g, t, v.ns, nsv["firstname"]), same(g, t, v.ns, nsv["secondname"])
                if not cbs:
                    g.cover("nothing")
                    for k, e in (("second", e2), ("first", conj(e1, NOT(e2)))):
                        for x in sets[k]:
                            g.req(t, conj(e, has(x, g, v.name)) is False or NOT(conj(e, has(x, g, v.name))), "a callback registered in the addressed namespace runs", (k, v))
                    continue
                c = cbs[0]
                if any(c[1] == "%s[%s]" % (x, key) for x in sets["second"]):
                    g.cover("second")
                    g.req(t, e2, "the namespace added last under the name is used", (v.ns, c))
                elif any(c[1] == "%s[%s]" % (x, key) for x in sets["first"]):
                    g.cover("first")
                    g.req(t, conj(e1, NOT(e2)), "a replaced namespace is not used", (v.ns, c))
                else:
                    g.cover("earlier")
                    g.req(t, conj(NOT(e1), NOT(e2)), "an earlier namespace is used only when its name was not added again", (v.ns, c))
                    g.req(t, any(c[1].startswith("%s[%s]" % (x, g.ex.rope_key(v.ns))) and c[1].endswith("[%s]" % key) for x in maps["ns"]),
                          "the earlier namespace of exactly the event's namespace runs its handler of the event's name", c)


@guarded
def namespace_builder(g):
    """a namespace built through the builder holds exactly the callbacks registered on it, under exactly its name"""
    g.expect("own", "registered before", "other namespace", "unknown name", "global")
    st = g.start()
    b, maps = any_builder(g, st)
    n, m = strs(g, st, "ns", "name")
    for s0, nb in g.call(st, "root_b_nsb", b, Ptr(Const(n))):
        g.req(s0, maps_of(g, s0, nb).get("cb", []).count(None) == 1, "a new namespace has no callbacks", maps_of(g, s0, nb))
        # after any registrations, it holds any callbacks
        nb = with_base(nb, None, "nsb")
        for on in (False, True):
            for s, nb2 in g.call(s0.copy(), "root_nsb_on", nb, Ptr(Const(m))) if on else [(s0.copy(), nb)]:
                for s, b2 in g.call(s, "root_nsb_build", nb2):
                    for t, v, cbs in runs(g, s, b2, "client"):
                        g.req(t, len(cbs) <= 1, "at most one callback runs", cbs)
                        key = g.ex.rope_key(v.name)
                        en, em = (False if v.ns is None else same(g, t, v.ns, n)), same(g, t, v.name, m)
                        last = conj(en, em) if on else False
                        mine = [c for c in cbs if c[1] == "cb1"]
                        theirs = [c for c in cbs if c[1] == "nsb[%s]" % key]
                        if mine:
                            g.cover("own")
                            g.req(t, last, "the callback runs for its name in its namespace only", v)
                        else:
                            g.req(t, NOT(last), "the callback registered on the namespace runs", v)
                        if theirs:
                            g.cover("registered before")
                            g.req(t, en, "a callback of the namespace runs for its events only", v)
                        elif not mine:
                            g.req(t, NOT(conj(en, z3.Bool("has(nsb,%s)" % key))), "a callback registered on the namespace before runs", v)
                        if cbs and not mine and not theirs:
                            g.cover("global" if v.ns is None else "other namespace")
                            g.req(t, NOT(en), "no other callback runs for an event of the namespace", cbs)
                            if v.ns is None:
                                g.req(t, any(cbs[0][1] == "%s[%s]" % (x, key) for x in maps["cb"]), "an event without namespace goes to the global handlers", cbs)
                        if not cbs:
                            g.cover("unknown name")


def with_base(v, old, new):
    if isinstance(v, Obj) and v.k == "hmap" and v.base == old:
        return v.set(base=new)
    if isinstance(v, Agg):
        return Agg(v.v, tuple(with_base(x, old, new) for x in v.f), v.ty)
    return v


@guarded
def provider(g):
    """a namespace from a provider has the provider's name and exactly the callbacks the provider registered"""
    g.expect("provider")
    for s, v in [x for root in ("root_ns_provider", "root_namespace") for x in g.call(g.start(), root)]:
        reg = [e for e in s.trace if e[0] == "register"]
        g.req(s, len(reg) == 1, "the provider registers once", s.trace)
        g.req(s, bool(reg) and maps_of(g, s, reg[0][1]).get("cb") == [None], "on an empty handler set", reg)
        g.req(s, maps_of(g, s, v).get("cb") == ["provider"], "the namespace has what the provider registered", v)
        p = s.alloc(v, "ns")
        for t, n in g.call(s, "root_ns_name", p):
            g.cover("provider")
            g.eq(t, g.rope(t, n), t.gh["provider.name"], "the namespace has the provider's name")


GOALS = {"C11": [registration, registration_macros, fresh_set, namespaces, namespace_builder, provider]}
