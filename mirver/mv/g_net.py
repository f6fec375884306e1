"""C23: the built-in transports use the address and the options they are given."""
import lib as L
from goal import *
from lib import c, fut, done, pending, Ready, Ok, Err, PENDING, ioerr, res, _through
from vals import *

SOCKADDR = "core::net::socket_addr::SocketAddr"
TCPOPTS = "bromine::protocol::tcp::TcpOptions"


# ---- contracts of tokio's sockets (assumed)

def plain(ex, st, v):
    """an address, given by value or by reference"""
    while isinstance(v, Ptr):
        v = ex.read(st, Ptr(*_through(ex, st, v)))
    return v


@c("tokio::net::tcp::listener::TcpListener::bind", "tokio::net::tcp::stream::TcpStream::connect", "tokio::net::unix::stream::UnixStream::connect",
   note="the future binds or connects one new socket to the address, or fails")
def net_open(ex, st, a):
    return Obj("fut", op="net_open", what=a.path.rsplit("::", 1)[1], addr=plain(ex, st, a.args[0]))


def sockets(st):
    return sum(1 for e in st.trace if e[0] in ("net_bind", "net_connect", "net_accept"))


@fut("net_open")
def f_net_open(ex, st, p, f):
    pend = pending(st, f.what)
    bad = st.copy()
    done(ex, st, p, None)
    done(ex, bad, p, None)
    bad.ev("net_%s_fail" % f.what, f.addr)
    n = "socket%d" % sockets(st)
    st.ev("net_%s" % f.what, f.addr, n)
    return [(pend, PENDING), (bad, Ready(Err(ioerr(L.TRANSPORT)))), (st, Ready(Ok(Obj("socket", id=n))))]


@c("tokio::net::unix::listener::UnixListener::bind", note="binds one new socket to the address, or fails")
def net_bind(ex, st, a):
    bad = st.copy()
    addr = plain(ex, st, a.args[0])
    bad.ev("net_bind_fail", addr)
    n = "socket%d" % sockets(st)
    st.ev("net_bind", addr, n)
    return res((st, Ok(Obj("socket", id=n))), (bad, Err(ioerr(L.TRANSPORT))))


@c("tokio::net::tcp::listener::TcpListener::set_ttl", "tokio::net::tcp::stream::TcpStream::set_ttl", note="sets the time to live of the socket, or fails")
def net_ttl(ex, st, a):
    bad = st.copy()
    s = plain(ex, st, a.args[0])
    bad.ev("net_ttl_fail", s.id, a.args[1])
    st.ev("net_ttl", s.id, a.args[1])
    return res((st, Ok()), (bad, Err(ioerr(L.TRANSPORT))))


@c("tokio::net::tcp::listener::TcpListener::accept", "tokio::net::unix::listener::UnixListener::accept", note="the future gives the next connection and its address, or fails")
def net_accept(ex, st, a):
    return Obj("fut", op="net_accept", l=plain(ex, st, a.args[0]).id)


@fut("net_accept")
def f_net_accept(ex, st, p, f):
    pend = pending(st, "accept")
    bad = st.copy()
    done(ex, st, p, None)
    done(ex, bad, p, None)
    bad.ev("net_accept_fail", f.l)
    n = "socket%d" % sockets(st)
    st.ev("net_accept", f.l, n)
    return [(pend, PENDING), (bad, Ready(Err(ioerr(L.TRANSPORT)))), (st, Ready(Ok(Agg(0, (Obj("socket", id=n), Obj("netaddr", id=n))))))]


@c("tokio::net::unix::stream::UnixStream::ready", "tokio::net::tcp::stream::TcpStream::ready", note="the future waits until the socket is ready, or fails; the socket stays as it is")
def net_ready(ex, st, a):
    return Obj("fut", op="net_ready", s=plain(ex, st, a.args[0]).id)


@fut("net_ready")
def f_net_ready(ex, st, p, f):
    pend = pending(st, "ready")
    bad = st.copy()
    done(ex, st, p, None)
    done(ex, bad, p, None)
    bad.ev("net_ready_fail", f.s)
    return [(pend, PENDING), (bad, Ready(Err(ioerr(L.TRANSPORT)))), (st, Ready(Ok(Obj("ready", id=f.s))))]


@c("<tokio::io::interest::Interest as core::ops::bit::BitOr>::bitor", "tokio::io::interest::Interest::add", note="some interest")
def interest(ex, st, a):
    return Obj("interest")


@c("tokio::net::tcp::stream::TcpStream::into_split", "tokio::net::unix::stream::UnixStream::into_split", note="the two halves of the socket")
def net_split(ex, st, a):
    s = a.args[0]
    return Agg(0, (Obj("readhalf", id=s.id), Obj("writehalf", id=s.id)))


# ---- goals

def same(a, b):
    return repr(a) == repr(b)


def opened(g, s, v, a, what, ttl):
    """one socket, at the address a, with the time to live ttl (None: untouched), or the error of what failed"""
    ev = [e for e in s.trace if e[0].startswith("net_")]
    tries = [e for e in ev if e[0] in ("net_" + what, "net_%s_fail" % what)]
    g.req(s, len(tries) == 1 and same(tries[0][1], a), "one socket is opened, by %s to the address that was given" % what, ev)
    fails = [e for e in ev if e[0].endswith("_fail")]
    if v.v == 1:
        g.cover(what + " fails")
        g.req(s, len(fails) >= 1, "opening fails only if the system refuses", ev)
        return
    g.cover(what)
    g.req(s, not fails, "opening succeeds only if nothing failed", ev)
    x = v.f[0]
    g.req(s, isinstance(x, Obj) and x.k == "socket" and tries[0][0] == "net_" + what and x.id == tries[0][2], "the socket is the one that was opened", x)
    t = [e for e in ev if e[0] == "net_ttl"]
    if ttl is None:
        g.req(s, not t, "without a time to live in the options none is set", ev)
    else:
        g.req(s, len(t) >= 1 and t[-1][1] == x.id, "the time to live is set on the socket that was opened", ev)
        if t:
            g.int_eq(s, t[-1][2], ttl, "the time to live is the one in the options", 32)


def accepted(g, root):
    st = g.start()
    l = st.alloc(Obj("socket", id="listener"), "listener")
    for s, v in g.future(st, root, l):
        ev = [e for e in s.trace if e[0].startswith("net_")]
        g.req(s, len(ev) == 1 and ev[0][0] in ("net_accept", "net_accept_fail") and ev[0][1] == "listener", "accepting accepts one connection of this listener", ev)
        if v.v == 1:
            g.cover("accept fails")
            g.req(s, ev[0][0] == "net_accept_fail", "accepting fails only if the system refuses", ev)
        else:
            g.cover("accept")
            x, y = v.f[0].f
            g.req(s, ev[0][0] == "net_accept" and isinstance(x, Obj) and isinstance(y, Obj) and x.k == "socket" and y.k == "netaddr" and x.id == y.id == ev[0][2], "the accepted connection is returned with its address", v)


def halves(g, root):
    st = g.start()
    for s, v in g.call(st, root, Obj("socket", id="socket")):
        g.cover("split")
        r, w = v.f
        g.req(s, isinstance(r, Obj) and isinstance(w, Obj) and (r.k, w.k, r.id, w.id) == ("readhalf", "writehalf", "socket", "socket"), "a connection is split into its own halves", v)


@guarded
def tcp(g):
    """TCP: binding and connecting open one socket at the given address and set the time to live of the options on it, accepting returns
    the accepted connection, and splitting gives its own halves"""
    g.expect("bind", "bind fails", "connect", "connect fails", "accept", "accept fails", "split")
    for root, what in (("root_tcp_bind", "bind"), ("root_tcp_connect", "connect")):
        st = g.start()
        a = g.ex.sym(st, g.ty(SOCKADDR), "addr")
        o = g.ex.sym(st, g.ty(TCPOPTS), "opts")
        for s0, t in g.force(st, g.field(TCPOPTS, o, "ttl")):
            f = list(o.f)
            f[g.fpath(TCPOPTS, "ttl")] = t
            for s, v in g.future(s0, root, a, Agg(o.v, tuple(f))):
                opened(g, s, v, a, what, t.f[0] if t.v == 1 else None)
    accepted(g, "root_tcp_accept")
    halves(g, "root_tcp_split")


@guarded
def unix(g):
    """Unix sockets: binding and connecting open one socket at the given path, accepting returns the accepted connection, and splitting
    gives its own halves"""
    g.expect("bind", "bind fails", "connect", "connect fails", "accept", "accept fails", "split")
    for root, what in (("root_unix_bind", "bind"), ("root_unix_connect", "connect")):
        st = g.start()
        a = Obj("path", id="addr")
        for s, v in g.future(st, root, a):
            opened(g, s, v, a, what, None)
    accepted(g, "root_unix_accept")
    halves(g, "root_unix_split")


GOALS = {"C23": [tcp, unix]}
