"""C07, C08: what an emit puts on the connection."""
from goal import *

CTX = "bromine::ipc::context::Context"


def ctx_of(g, st, name="ctx"):
    return st.alloc(g.ex.sym(st, g.ty(CTX), name), "ctx")


def strs(g, st, *names):
    out = []
    for n in names:
        r = g.ex.symbytes(st, n)
        g.ex.set_utf8(st, r)
        out.append(r)
    return out


def ctx_ref(g, st, c):
    """[(state, reference id | None)] carried by the context"""
    v = g.ex.read(st, Ptr(c.a, c.p + (g.fpath(CTX, "ref_id"),)))
    return [(s, None if o.v == 0 else o.f[0]) for s, o in g.force(st, v)]


def writes(tr):
    return [e for e in tr if e[0] == "write"]


def concat(tr):
    r = Rope()
    for e in writes(tr):
        r = r + e[2]
    return r


def emitted(g, st, emit, args):
    """run an emit to its end: [(state, result)]"""
    out = []
    for s, v in g.call(st, emit, *args):
        p = s.alloc(v, "emit")
        out += g.polled(s, "root_emit_poll", p)
    return out


@guarded
def emit_is_reply(g):
    """an event emitted through a context that carries a reference id is a reply to it, all others are initiators"""
    g.expect("emit: reply", "emit: initiator", "emit_to: reply", "emit_to: initiator", "emit: payload failure")
    for root in ("root_emit", "root_emit_to"):
        what = root[5:]
        st = g.start()
        c = ctx_of(g, st)
        ns, name = strs(g, st, "ns", "name")
        payload = Obj("AnyPayload", id="payload")
        args = [c] + ([Ptr(Const(ns))] if root == "root_emit_to" else []) + [Ptr(Const(name)), payload]
        for s0, ref in ctx_ref(g, st, c):
            for s, v in emitted(g, s0, root, args):
                w = writes(s.trace)
                data = [e for e in s.trace if e[0] == "into_payload"]
                if any(e[0] == "payload_failed" for e in s.trace):
                    g.cover("%s: payload failure" % what)
                    g.req(s, v.v == 1, what + ": a payload that cannot be made fails the emit")
                    g.req(s, not w, what + ": nothing is written without a payload")
                    continue
                if v.v == 1:
                    continue
                g.req(s, len(data) == 1, what + ": the payload is serialised once", data)
                if len(data) != 1:
                    continue
                view = View(v.f[0], "Initiator" if ref is None else "Response", ref, ns if root == "root_emit_to" else None, name, sent_payload(g, s, "payload"))
                g.cover("%s: %s" % (what, "initiator" if ref is None else "reply"))
                if g.ex.feasible(s, NOT(fits(view))):
                    g.req(s, fits(view), what + ": what is sent fits a frame")
                g.eq(s, concat(s.trace), frame_rope(view), what + ": type, reference id, namespace, name and payload are those asked for")



def sent_payload(g, st, pid):
    return Rope([("s", "payload(%s)" % pid, 0, z3.BitVec("payload(%s).len" % pid, 64))])


def whole_frame(g, s, what, lock=None):
    """obligations on the trace of one successful sending: everything that is written goes to one writer, under one lock that
    is taken once, is flushed after the last write, and the lock is released only after the flush. Returns the bytes"""
    w = writes(s.trace)
    ev = [e for e in s.trace if e[0] in ("lock", "write", "flush", "unlock", "write_fail", "flush_fail")]
    g.req(s, len(w) >= 1, what + ": something is written", ev)
    if not w:
        return None
    g.req(s, all(e[1] == w[0][1] for e in w), what + ": one writer", ev)
    locks = [i for i, e in enumerate(ev) if e[0] == "lock"]
    first = min(i for i, e in enumerate(ev) if e[0] == "write")
    last = max(i for i, e in enumerate(ev) if e[0] == "write")
    g.req(s, len(locks) == 1 and locks[0] < first, what + ": the writer's lock is taken once, before the first byte", ev)
    if len(locks) == 1:
        m = ev[locks[0]][1]
        if lock is not None:
            g.req(s, m == lock, what + ": the lock is the connection's", "%s %s" % (m, lock))
        ul = [i for i, e in enumerate(ev) if e[0] == "unlock" and e[1] == m]
        g.req(s, all(i > last for i in ul), what + ": the lock is held until the last byte is written", ev)
        fl = [i for i, e in enumerate(ev) if e[0] == "flush" and e[1] == w[0][1]]
        g.req(s, any(i > last for i in fl), what + ": flushed after the last byte", ev)
    return concat(s.trace)


@guarded
def one_frame_under_lock(g):
    """a successful emit wrote exactly one whole frame with the lock held from before the first byte to after the last, flushed it
    and gave the frame's id; an emit that fails gives the error of what failed"""
    g.expect("emit: sent", "emit: write failed", "emit: flush failed", "emit: too large", "emit_to: sent")
    for root in ("root_emit", "root_emit_to"):
        what = root[5:]
        st = g.start()
        c = ctx_of(g, st)
        ns, name = strs(g, st, "ns", "name")
        args = [c] + ([Ptr(Const(ns))] if root == "root_emit_to" else []) + [Ptr(Const(name)), Obj("AnyPayload", id="payload")]
        for s0, ref in ctx_ref(g, st, c):
            for s, v in emitted(g, s0, root, args):
                k = [e[0] for e in s.trace]
                if v.v == 0:
                    g.cover(what + ": sent")
                    b = whole_frame(g, s, what)
                    g.req(s, "write_fail" not in k and "flush_fail" not in k, what + ": success only when every write and the flush succeeded")
                    if b is None:
                        continue
                    view = View(v.f[0], "Initiator" if ref is None else "Response", ref, ns if root == "root_emit_to" else None, name, sent_payload(g, s, "payload"))
                    g.eq(s, b, frame_rope(view), what + ": exactly one whole frame, carrying the id that is given back")
                    continue
                en, ef = g.err(s, v.f[0])
                if "write_fail" in k or "flush_fail" in k:
                    g.cover(what + (": write failed" if "write_fail" in k else ": flush failed"))
                    g.req(s, en == "IoError" and isinstance(ef[0], Obj) and ef[0].d.get("kind") == L.TRANSPORT, what + ": the transport's error is given", "%s %r" % (en, ef))
                    if "write_fail" in k:
                        i = k.index("write_fail")
                        g.req(s, not any(x in ("write", "flush") for x in k[i + 1:]), what + ": nothing more is sent after a failed write", s.trace)
                elif "payload_failed" in k:
                    g.req(s, not writes(s.trace), what + ": nothing is written without a payload")
                else:
                    g.cover(what + ": too large")
                    view = View(z3.BitVecVal(0, 64), "Initiator" if ref is None else "Response", ref, ns if root == "root_emit_to" else None, name, sent_payload(g, s, "payload"))
                    g.req(s, NOT(fits(view)), what + ": refused only when the header does not fit", "%s %r" % (en, ef))
                    g.req(s, not writes(s.trace), what + ": nothing of a frame that does not fit is written")
                g.req(s, k.count("lock") == k.count("unlock"), what + ": a failed emit releases the lock", s.trace)


@guarded
def clones_share_lock(g):
    """emits through a context, a clone of it, and clones of clones take the same lock and write to the same writer"""
    g.expect("clone", "clone of clone")
    st = g.start()
    c = ctx_of(g, st)
    name, = strs(g, st, "name")

    def target(s, c):
        out = []
        for s, v in emitted(g, s, "root_emit", [c, Ptr(Const(name)), Obj("AnyPayload", id="payload")]):
            if v.v == 0:
                s2 = s
                lk = [e[1] for e in s.trace if e[0] == "lock"]
                wr = {e[1] for e in writes(s.trace)}
                out.append((s2, lk, wr))
        return out
    for s, c2 in g.call(st, "root_clone_ctx", c):
        p2 = s.alloc(c2, "clone")
        for s, c3 in g.call(s, "root_clone_ctx", p2):
            p3 = s.alloc(c3, "clone")
            a = target(s, c)
            for what, p in (("clone", p2), ("clone of clone", p3)):
                for t, lk, wr in target(s, p):
                    g.cover(what)
                    for _, lk0, wr0 in a[:1]:
                        g.req(t, lk == lk0, what + ": the same lock", "%s %s" % (lk, lk0))
                        g.req(t, wr == wr0, what + ": the same writer", "%s %s" % (wr, wr0))


GOALS = {"C07": [emit_is_reply], "C08": [one_frame_under_lock, clones_share_lock]}
