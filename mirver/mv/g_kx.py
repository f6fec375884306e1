"""C20, C21: the key exchange and the listener that does it for every connection.

The exchange runs over an arbitrary transport whose bytes are whatever the peer sends. What the intermediate encrypted stream does is
taken from its contract (C17..C19: a write that completes and is flushed is sent under the stream's key); secret_packet and secret_read
decide on the stream itself what this contract leaves out: that the secret is exactly one packet, that the stream is idle afterwards
and that a new key then starts both counts at zero."""
from goal import *
from g_crypt import STREAM, streams, used, events, written, packets, nonce_of, incoming, IN, NPACK, read_explore, read_ops

KEYS = "bromine::protocol::encrypted::Keys"
OPTS = "bromine::protocol::encrypted::EncryptionOptions<opq::AnyOpts>"
OPTS2 = "bromine::protocol::encrypted::EncryptionOptions<opq::AnyOpts2>"
LISTENER = "bromine::protocol::encrypted::EncryptedListener<opq::AnyListener>"
FAILS = ("read_end", "write_fail", "flush_fail", "enc_read_fail", "shutdown_fail")
SECRET = Rope([("s", "keys.secret", 0, 32)])


def own_key(g):
    return Rope([("t", ("pub", g.ex.rope_key(SECRET)), 32)])


def keys_of(g, st, peers=None):
    """arbitrary keys: any secret, either setting of the allow-unknown option, any list of known peers (or the given ones)"""
    k = g.ex.sym(st, g.ty(KEYS), "keys")
    f = list(k.f)
    f[g.fpath(KEYS, "secret")] = SECRET
    if peers is not None:
        f[g.fpath(KEYS, "known_peers")] = peers
    else:
        st.gh["members"] = {f[g.fpath(KEYS, "known_peers")].name: "peer"}
    return Agg(k.v, tuple(f))


def known_peer(g, s, k, other):
    """the condition that the key is among the known ones"""
    v = g.field(KEYS, k, "known_peers")
    if isinstance(v, Seq):
        return OR(*[NOT(rope_neq_formula(x, other)) for x in v.items])
    c = z3.Bool("contains(%s,%s)" % (v.name, g.ex.rope_key(other)))
    s.assume(z3.Implies(c, z3.UGT(L.symvec_len(v), 0)))
    return c


def shared(g, other):
    return Rope([("t", ("dh", g.ex.rope_key(SECRET), g.ex.rope_key(other)), 32)])


def raw_writes(tr, tag):
    return [e for e in tr if e[0] in ("write", "write_fail") and e[1] == tag]


def enc_writes(tr):
    return [e for e in tr if e[0] in ("write", "write_fail") and isinstance(e[1], tuple)]


def flushed_after(tr, e, enc):
    """the event is followed by a completed flush of the same stream"""
    i = [id(x) for x in tr].index(id(e))
    return any(x[0] == "flush" and isinstance(x[1], tuple) == enc for x in tr[i:])


def exchanged(g, s, v, k, side, tag, tr):
    """what one run of a key exchange over the transport `tag` did (events tr) and gave (v)"""
    other = g.ex.rope_slice(s, L.stream_content(g.ex, s, tag), 0, 32)
    got_key = any(e[0] == "read" and e[1] == tag for e in tr)
    allow = g.field(KEYS, k, "allow_unknown")
    fine = OR(allow, known_peer(g, s, k, other))
    w = raw_writes(tr, tag)
    ew = enc_writes(tr)
    dh = shared(g, other)
    g.req(s, sum(1 for e in tr if e[0] == "read") <= 1 and all(e[2:] == (0, 32) for e in tr if e[0] == "read"), "%s: the peer's key is the first 32 bytes of the transport" % side, tr)
    for e in tr:
        if e[0] in ("read", "read_end", "write", "write_fail", "flush", "flush_fail", "shutdown") and isinstance(e[1], str):
            g.req(s, e[1] == tag, "%s: only the connection's own transport is used" % side, e)
    g.req(s, len(w) <= 1, "%s: sends nothing but its own public key in the clear" % side, w)
    for e in w:
        g.eq(s, e[2], own_key(g), "%s: sends its own public key" % side)
    # the intermediate stream is used under the Diffie-Hellman key only
    for e in ew + [e for e in tr if e[0] in ("enc_read", "enc_read_fail")]:
        for x in e[1][1] if e[0].startswith("write") else e[1]:
            g.eq(s, x, dh, "%s: what is sent encrypted is under the Diffie-Hellman key" % side)
    if side == "server":
        # a known key has to be there before anything is sent
        if w or ew:
            g.req(s, AND(got_key, fine), "server: nothing is sent before the peer is known", tr)
    if v.v == 1:
        kind, f = g.err(s, v.f[0])
        if kind == "UnknownPeer":
            g.cover(side + " refuses")
            g.req(s, AND(got_key, NOT(fine)), "%s: only an unknown peer is refused" % side, tr)
            g.eq(s, g.rope(s, f[0]), other, "%s: the refusal names the peer's key" % side)
            if side == "server":
                g.req(s, not w and not ew, "server: a refused peer was sent nothing", tr)
        else:
            g.cover(side + " fails")
            g.req(s, any(e[0] in FAILS for e in tr), "%s: fails only if the transport fails, ends or the peer is unknown" % side, [kind, tr])
        if got_key:
            # whatever the error: an unknown peer gets the unknown-peer error
            g.req(s, OR(fine, kind == "UnknownPeer"), "%s: an unknown peer is refused as such" % side, [kind, tr])
        return
    g.cover(side + " succeeds")
    g.req(s, got_key, "%s: succeeds only with the peer's key" % side, tr)
    g.req(s, fine, "%s: succeeds only with a known peer, or if unknown peers are allowed" % side, tr)
    g.req(s, not any(e[0] in FAILS for e in tr), "%s: a failure of the transport is reported" % side, tr)
    g.req(s, len(w) == 1 and w[0][0] == "write" and flushed_after(tr, w[0], False), "%s: its own public key was sent and flushed" % side, tr)
    if side == "server":
        g.req(s, len(ew) == 1 and ew[0][0] == "write" and flushed_after(tr, ew[0], True), "server: one secret was sent and flushed", tr)
        if len(ew) != 1:
            return
        secret = ew[0][2]
        rands = [Rope([("s", e[1], 0, e[2])]) for e in tr if e[0] == "rand"]
        hashes = [Rope([("t", ("sha256", g.ex.rope_key(r)), 32)]) for r in rands if r.len == 32]
        g.req(s, any(rope_same(secret, h) for h in hashes + [r for r in rands if r.len == 32]), "server: the secret is a fresh random one of 32 bytes", [secret, tr])
    else:
        g.req(s, not ew, "client: sends nothing but its public key", tr)
        rd = [e for e in tr if e[0] == "enc_read"]
        got = Rope()
        for e in rd:
            got = got + e[2]
        g.req(s, leq(got.len, 32), "client: the secret it receives has 32 bytes", rd)
        secret = got
    # the stream that comes out
    sp = s.alloc(v.f[0], "stream")
    rp, wp = (Ptr(sp.a, sp.p + (g.fpath(STREAM, x),)) for x in ("read_half", "write_half"))
    for h, kind in ((rp, "AnyReader"), (wp, "AnyWriter")):
        o = all_objs(g, s, g.ex.read(s, h), kind)
        g.req(s, bool(o) and all(x.id == tag for x in o), "%s: the stream is the one of the connection" % side, o)
    for t, e, d in used_on(g, s, rp, wp, tag):
        for x, what in ((e, "sent"), (d, "received")):
            g.eq(t, x[1], secret, "%s: what is %s afterwards is under the agreed secret" % (side, what))
            g.eq(t, x[2], nonce_of(0), "%s: what is %s afterwards is counted from zero" % (side, what))


def all_objs(g, s, v, kind):
    out, work, seen = [], [v], set()
    while work:
        x = work.pop()
        if isinstance(x, Obj):
            if x.k == kind:
                out.append(x)
            work += list(x.d.values())
        elif isinstance(x, Agg):
            work += list(x.f)
        elif isinstance(x, Cor):
            work += list(x.up)
        elif isinstance(x, Ptr) and not isinstance(x.a, Const) and x.a not in seen:
            seen.add(x.a)
            work.append(s.mem.get(x.a))
    return out


def used_on(g, s, rp, wp, tag):
    """g_crypt's used() for a stream over another transport than T"""
    t = s.copy()
    t.trace = []
    if tag != "T":
        for a, v in list(t.mem.items()):
            t.mem[a] = retag(v, tag)
        if ("in", tag) in t.gh:
            t.gh[IN] = t.gh.pop(("in", tag))
    return used(g, t, rp, wp)


def retag(v, tag):
    if isinstance(v, Obj):
        return v.set(id="T") if v.k in ("AnyReader", "AnyWriter", "AnyStream") and v.id == tag else v
    if isinstance(v, Agg):
        return Agg(v.v, tuple(retag(y, tag) for y in v.f), v.ty)
    return v


def run_kx(g, root, side, peers=None):
    st = g.start()
    k = keys_of(g, st, peers)
    kp = st.alloc(k, "keys")
    for s, v in g.future(st, root, Obj("AnyStream", id="T", pos=0), kp, extra=[kp]):
        exchanged(g, s, v, k, side, "T", list(s.trace))


OUTCOMES = ("succeeds", "refuses", "fails")


@guarded
def server(g):
    """the server's side, for all keys, lists of known peers and bytes of the peer"""
    g.expect(*["server " + x for x in OUTCOMES])
    run_kx(g, "root_kx_server", "server")


@guarded
def client(g):
    """the client's side, for all keys, lists of known peers and bytes of the peer"""
    g.expect(*["client " + x for x in OUTCOMES])
    run_kx(g, "root_kx_client", "client")


def few(g, root, side):
    for n in range(3):
        run_kx(g, root, side, Seq([Rope([("s", "known%d" % i, 0, 32)]) for i in range(n)]))


@guarded
def server_few(g):
    """the server's side with lists of up to two known peers, element by element"""
    g.limits.add("server_few: lists of at most two known peers")
    few(g, "root_kx_server", "server")


@guarded
def client_few(g):
    """the client's side with lists of up to two known peers, element by element"""
    g.limits.add("client_few: lists of at most two known peers")
    few(g, "root_kx_client", "client")


@guarded
def defaults(g):
    """the default options allow no peer and have a fresh secret"""
    st = g.start()
    for s, v in g.call(st, "root_enc_opts"):
        k = g.field(OPTS, v, "keys")
        p = g.field(KEYS, k, "known_peers")
        g.req(s, (isinstance(p, Seq) and not p.items) or (isinstance(p, Rope) and not p.segs), "default options know no peer", p)
        g.req(s, NOT(g.field(KEYS, k, "allow_unknown")), "default options do not allow unknown peers", k)
        sec = g.rope(s, g.field(KEYS, k, "secret"))
        g.req(s, any(e[0] == "rand" and e[2] == 32 and rope_same(sec, Rope([("s", e[1], 0, 32)])) for e in s.trace), "default options have a fresh random secret", sec)
        g.cover("default options")


def options(g, st, name):
    o = g.ex.sym(st, g.ty(name), "opts")
    f = list(o.f)
    f[g.fpath(name, "keys")] = keys_of(g, st)
    f[g.fpath(name, "inner_options")] = Obj("inner_options", id="inner_options")
    return Agg(o.v, tuple(f))


@guarded
def bound(g):
    """an encrypted listener is the inner one bound to the address with the inner options, and has the configured keys"""
    g.expect("bound", "fails")
    st = g.start()
    o = options(g, st, OPTS)
    a = Obj("AnyAddr", id="addr")
    for s, v in g.future(st, "root_enc_bind", a, o):
        ev = [e for e in s.trace if e[0] in ("bind", "bind_fail")]
        g.req(s, len(ev) == 1 and same(ev[0][1], a) and same(ev[0][2], g.field(OPTS, o, "inner_options")), "the inner listener is bound once, to the address and with the inner options", ev)
        if v.v == 0:
            g.cover("bound")
            g.req(s, ev[0][0] == "bind", "binding fails if the inner listener's does", ev)
            g.req(s, same(g.field(LISTENER, v.f[0], "keys"), g.field(OPTS, o, "keys")), "the listener has the configured keys", v)
            x = g.field(LISTENER, v.f[0], "inner")
            g.req(s, isinstance(x, Obj) and x.id == "listener", "the listener is the one that was bound", x)
        else:
            g.cover("fails")
            g.req(s, ev[0][0] == "bind_fail", "binding fails only if the inner listener's does", ev)


def same(a, b):
    return repr(a) == repr(b)


@guarded
def connected(g):
    """opening an encrypted connection connects the inner stream to the address with the inner options and runs the client's side over it"""
    g.expect("client succeeds", "client refuses", "client fails", "fails")
    st = g.start()
    o = options(g, st, OPTS2)
    a = Obj("AnyAddr", id="addr")
    for s, v in g.future(st, "root_enc_connect", a, o):
        ev = [e for e in s.trace if e[0] in ("connect", "connect_fail")]
        g.req(s, len(ev) == 1 and same(ev[0][1], a) and same(ev[0][2], g.field(OPTS2, o, "inner_options")), "the inner stream is connected once, to the address and with the inner options", ev)
        if ev and ev[0][0] == "connect_fail":
            g.cover("fails")
            g.req(s, v.v == 1, "connecting fails if the inner stream's does", v)
            continue
        exchanged(g, s, v, g.field(OPTS2, o, "keys"), "client", "conn0", [e for e in s.trace if e[0] != "connect"])


@guarded
def secret_packet(g):
    """on a new stream: 32 bytes that are written and flushed are one packet, under the stream's key and with the first nonce; the stream
    is idle then and takes a new key"""
    g.expect("sent")
    secret = Rope([("s", "secret", 0, 32)])
    st = g.start()
    for s, key, sp, rp, wp in streams(g, st):
        s.trace = []
        work = [(s, secret, 0)]
        accepted = []
        while work:
            s0, rest, n = work.pop()
            if n > 2:
                g.undecided("the secret is accepted", n)
                return
            for t, v in g.drive(s0, lambda x, rest=rest: g.raw(x, "root_encs_write", [sp, CX, Ptr(Const(rest))]), [sp], "write"):
                for t, v in g.force(t, v):
                    if v.v == 1:
                        g.req(t, any(e[0] in FAILS for e in t.trace), "writing the secret fails only if the transport fails", t.trace)
                        continue
                    if g.ex.entails(t, leq(v.f[0], rest.len)):
                        accepted.append(t)
                    elif isinstance(v.f[0], int):
                        work.append((t, g.ex.rope_slice(t, rest, v.f[0], lsub(rest.len, v.f[0])), n + 1))
                    else:
                        g.undecided("the secret is accepted", v)
        for t in accepted:
            t.done = None
            for u, v in g.drive(t, lambda x: g.raw(x, "root_encs_flush", [sp, CX]), [sp], "flush"):
                for u, v in g.force(u, v):
                    if v.v == 1:
                        g.req(u, any(e[0] in FAILS for e in u.trace), "flushing the secret fails only if the transport fails", u.trace)
                        continue
                    g.cover("sent")
                    enc = events(u.trace, "encrypt")
                    g.req(u, len(enc) == 1, "the secret is one packet", u.trace)
                    for e in enc[:1]:
                        g.eq(u, e[3], secret, "the packet is the secret")
                        g.eq(u, e[1], key, "the packet is under the stream's key")
                        g.eq(u, e[2], nonce_of(0), "the packet has the first nonce")
                    g.eq(u, written(u.trace), packets(u.trace), "the packet is all that is written")
                    new_key(g, u, sp, rp, wp)


def new_key(g, s, sp, rp, wp):
    """a new key is installed on the stream, which is idle"""
    key2 = Rope([("s", "key2", 0, 32)])
    s.done, s.frames, s.trace = None, [], []
    for t, _ in g.call(s, "root_enc_update", sp, key2):
        t.done = None
        for w, e, d in used(g, t, rp, wp):
            for x, what in ((e, "sent"), (d, "received")):
                g.eq(w, x[1], key2, "what is %s after the key change is under the new key" % what)
                g.eq(w, x[2], nonce_of(0), "what is %s after the key change is counted from zero" % what)


@guarded
def secret_read(g):
    """after every read that handed out bytes, in whatever pieces and after whatever other reads, the stream is idle and takes a new key
    (delegates: reading from the stream is reading from its half)"""
    g.expect("read")
    g.only = ("after the key change", "does not panic")
    st = g.start()
    for s, key, sp, rp, wp in streams(g, st):
        s.trace = []
        s.gh[IN] = incoming(NPACK)
        s.gh["truncates"] = True

        def on(t, k, h):
            u = t.copy()
            u.assume(lult(0, h.len))
            if k != "ok" or g.ex.check(u.pc) == "unsat":
                return
            g.cover("read")
            u.gh.pop("truncates", None)
            new_key(g, u, sp, rp, wp)

        read_explore(g, s, key, rp, more=[sp], step=lambda g, key, rp, t, d, packets: read_ops(g, key, rp, t, d, packets, on))


# ------------------------------------------------------------------ C21

@guarded
def accepting(g):
    """accepting on an encrypted listener, for every sequence of connection attempts: the states between two attempts are all alike, and
    what becomes of one attempt is decided for every attempt"""
    g.expect("accepted", "listener fails", "a peer was dropped")
    st = g.start()
    k = keys_of(g, st)
    lp = st.alloc(Agg(0, tuple(k if i == g.fpath(LISTENER, "keys") else Obj("AnyListener", id="L") for i in range(2))), "listener")
    work, seen = [], set()
    for s, f in g.call(st, "root_enc_accept", lp):
        p = s.alloc(f, "future")
        s.gh["accepts"] = 2
        work.append((s, p))
    steps = 0
    while work:
        s, p = work.pop()
        steps += 1
        if steps > 3000:
            g.undecided("the states between two attempts are alike", steps)
            return
        for x in ("accepting", "woken"):
            s.gh.pop(x, None)
        for t in g.sort(g.resume(s, p), False, "accept"):
            v = t.done[1] if t.done[0] == "ret" else None
            if v is None:
                continue
            if v.v == 1:
                g.req(t, t.gh.get("woken") is True, "accept answers not-ready only if it will be woken", t.trace)
                t.done = None
                if t.gh.get("accepting"):
                    accept_trace(g, t, k, None)
                    # between two attempts: what earlier ones did is done with
                    t.trace = []
                    for x in [x for x in t.gh if isinstance(x, tuple) and x[0] == "in"]:
                        del t.gh[x]
                    t = fresh_pc(t)
                key = g.ex.canon(t, [g.ex.read(t, p)])
                key = (key, tuple(sorted(str(c) for c in t.pc)))
                if key in seen:
                    g.closed += 1
                    continue
                seen.add(key)
                work.append((t, p))
                continue
            accept_trace(g, t, k, v.f[0])


def fresh_pc(t):
    """the state without what is known about the bytes of earlier connections"""
    u = State()
    u.n, u.choices, u.gh, u.mem = t.n, dict(t.choices), dict(t.gh), dict(t.mem)
    return u


def accept_trace(g, s, k, v):
    """the attempts since the last wait for a connection; v: what accept gave, None if it waits"""
    tr = s.trace
    at = [i for i, e in enumerate(tr) if e[0] == "accept"]
    for e in tr:
        if e[0] in ("accept", "accept_fail"):
            g.req(s, e[1] == "L", "connections are accepted from the inner listener", e)
    failed = [i for i, e in enumerate(tr) if e[0] == "accept_fail"]
    if v is None or v.v == 1:
        for i, j in zip(at, at[1:] + [len(tr)]):
            g.cover("a peer was dropped")
            seg = [e for e in tr[i + 1:j] if e[0] != "accept_fail"]
            # a dropped peer is one whose exchange failed
            tag = "peer%d" % tr[i][2]
            other = g.ex.rope_slice(s, L.stream_content(g.ex, s, tag), 0, 32) if any(e[0] == "read" for e in seg) else None
            bad = any(e[0] in FAILS for e in seg)
            if other is not None and not bad:
                bad = NOT(OR(g.field(KEYS, k, "allow_unknown"), known_peer(g, s, k, other)))
            g.req(s, bad, "only a peer whose key exchange failed is dropped", seg)
    if v is None:
        return
    if v.v == 1:
        g.cover("listener fails")
        g.req(s, bool(failed) and failed[-1] == len(tr) - 1, "accept fails only if the inner listener fails", tr)
        return
    g.cover("accepted")
    g.req(s, bool(at) and not failed, "a connection comes from the inner listener", tr)
    if not at:
        return
    n = tr[at[-1]][2]
    stream, remote = v.f[0].f
    g.req(s, isinstance(remote, Obj) and remote.id == "remote%d" % n, "the address is the one of the connection", remote)
    # what the exchange itself owes is C20's
    g.only = ("the stream is the one of the connection", "only the connection's own transport", "a failure of the transport is reported")
    exchanged(g, s, Agg(0, (stream,)), k, "server", "peer%d" % n, tr[at[-1] + 1:])
    g.only = None


# ------------------------------------------------------------------ C18

@guarded
def handshakes(g):
    """the keys under which servers send their secrets (always with the first nonce, see secret_packet)"""
    g.expect("compared")
    st = g.start()
    k = keys_of(g, st)
    kp = st.alloc(k, "keys")
    for s, v in g.future(st, "root_kx_server", Obj("AnyStream", id="T", pos=0), kp, extra=[kp]):
        if v.v == 0:
            rands = [e[1] for e in s.trace if e[0] == "rand"]
            for e in enc_writes(s.trace):
                g.cover("compared")
                g.req(s, all(any(r in g.ex.rope_key(x) for r in rands) for x in e[1][1]), "two handshakes of one key pair use different keys or nonces", e)


GOALS = {
    "C18": [handshakes],
    "C20": [server, client, server_few, client_few, defaults, connected, secret_packet, secret_read],
    "C21": [accepting, bound],
}
