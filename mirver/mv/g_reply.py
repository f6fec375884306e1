"""C12, C13: waiting for replies."""
from goal import *
from g_emit import writes, concat, strs, ctx_of, ctx_ref, sent_payload, CTX
from g_payload import error_data


def dur(g, name):
    return Obj("dur", s=z3.BitVec(name + ".secs", 64), n=z3.BitVec(name + ".nanos", 32))


def dur_eq(a, b):
    if not (isinstance(a, Obj) and isinstance(b, Obj) and a.k == b.k == "dur"):
        return False
    return AND(norm_bool(bv(a.s, 64) == bv(b.s, 64)), norm_bool(bv(a.n, 32) == bv(b.n, 32)))


def default_timeout(g, s, c):
    v = g.ex.read(s, c)
    ds = [x for x in v.f if isinstance(x, Obj) and x.k == "dur"]
    if len(ds) != 1:
        raise Undecided("the context's default timeout is not the only duration in it")
    return ds[0]


def setups(g, root, root_t):
    """[(what, state, future value, expected timeout, expected view without id)]"""
    out = []
    for kind in ("default timeout", "given timeout", "timeout given again"):
        st = g.start()
        c = ctx_of(g, st)
        name, = strs(g, st, "name")
        d = dur(g, "given")
        st.assume(z3.ULT(d.n, 1000000000))
        d1 = dur(g, "given1")
        st.assume(z3.ULT(d1.n, 1000000000))
        calls = {"default timeout": (root, ()), "given timeout": (root_t, (d,)), "timeout given again": (root_t + "t", (d1, d))}
        want = default_timeout(g, st, c) if kind == "default timeout" else d
        for s0, ref in ctx_ref(g, st, c):
            for s, e in g.call(s0, "root_emit", c, Ptr(Const(name)), Obj("AnyPayload", id="payload")):
                for s, f in g.call(s, calls[kind][0], e, *calls[kind][1]):
                    v = View(None, "Initiator" if ref is None else "Response", ref, None, name, sent_payload(g, s, "payload"))
                    out.append((kind, s, f, want, v))
    return out


def was_sent(tr):
    w = [i for i, e in enumerate(tr) if e[0] == "write"]
    f = [i for i, e in enumerate(tr) if e[0] == "flush"]
    return bool(w and f and f[-1] > w[-1])


def registered_first(g, s, what, view):
    """the registration of the event happens before its first byte is written: (map, key, channel) | None"""
    tr = s.trace
    ins = [(i, e) for i, e in enumerate(tr) if e[0] == "map_insert"]
    w = [i for i, e in enumerate(tr) if e[0] in ("write", "write_fail")]
    if w:
        g.req(s, len(ins) == 1 and ins[0][0] < w[0], what + ": registered once, before the first byte is written", tr)
    g.req(s, len(ins) <= 1, what + ": registered once", tr)
    if not ins:
        return None
    _, e = ins[0]
    if was_sent(tr) and "write_fail" not in [x[0] for x in tr]:
        view.id = e[2]
        g.eq(s, concat(tr), frame_rope(view), what + ": the registration is under the id of the event that is sent")
    tx = e[3]
    return e[1], e[2], tx.d.get("ch") if isinstance(tx, Obj) else None


def removed(g, s, what, reg):
    if reg is None:
        return
    tr = s.trace
    i = [k for k, e in enumerate(tr) if e[0] == "map_insert"]
    i = i[0] if i else -1
    ok = [e for e in tr[i + 1:] if e[0] == "map_remove" and e[1] == reg[0]]
    g.req(s, any(g.ex.entails(s, norm_bool(bv(e[2], 64) == bv(reg[1], 64))) for e in ok), what + ": the registration is gone afterwards", tr)


def suspended(g, s, what, want, reg_ch=None):
    g.req(s, "receiving" in s.gh, what + ": while it waits it listens for replies", s.gh)
    g.req(s, "sleeping" in s.gh, what + ": while it waits a timer runs", s.gh)
    if "sleeping" in s.gh:
        g.req(s, dur_eq(s.gh["sleeping"], want), what + ": the timer is the timeout of the call, else the connection's default", s.gh["sleeping"])


def received_msg(g, s, ch, n):
    return s.alloc(g.ex.sym(s, g.ty(G.EVENT), "%s.msg%d" % (ch, n)), "msg")


@guarded
def await_reply(g):
    """awaiting a reply: registered before sending, the first reply / the peer's error / the timeout error, never left registered"""
    g.expect(*["%s: %s" % (k, x) for k in ("default timeout", "given timeout") for x in
               ("reply", "error reply", "malformed error reply", "timeout", "send failure", "flush failure", "payload failure", "too large", "waiting")])
    for what, st, f, want, view in setups(g, "root_await_reply", "root_await_reply_t"):
        p = st.alloc(f, "reply")

        def on(s):
            if was_sent(s.trace):
                g.cover(what + ": waiting")
                suspended(g, s, what, want)
        for s, v in g.drive(st, lambda t: g.raw(t, "root_reply_poll", [p, CX]), [p], "await_reply", on_suspend=on):
            tr = s.trace
            k = [e[0] for e in tr]
            reg = registered_first(g, s, what, view)
            removed(g, s, what, reg)
            rc = [e for e in tr if e[0] == "recv"]
            if "payload_failed" in k:
                g.cover(what + ": payload failure")
                g.req(s, v.v == 1 and g.err(s, v.f[0])[0] == "payload_error", what + ": a payload that cannot be made gives that error", v)
                g.req(s, not writes(tr), what + ": and sends nothing")
            elif "write_fail" in k or "flush_fail" in k:
                g.cover(what + (": send failure" if "write_fail" in k else ": flush failure"))
                g.req(s, v.v == 1 and g.err(s, v.f[0])[0] == "IoError", what + ": a failure to send gives that error", v)
                g.req(s, not rc, what + ": nothing is received for an event that was not sent")
            elif not was_sent(tr):
                g.cover(what + ": too large")
                view.id = z3.BitVecVal(0, 64)
                g.req(s, v.v == 1 and NOT(fits(view)), what + ": refused only when the header does not fit", v)
            elif rc:
                g.req(s, len(rc) == 1, what + ": one reply is taken", tr)
                g.req(s, reg is not None and rc[0][1] == reg[2], what + ": from the registered listener", "%s %s" % (rc, reg))
                for t, m in g.view(s, received_msg(g, s, rc[0][1], rc[0][2])):
                    if m.type != "Error":
                        g.cover(what + ": reply")
                        g.req(t, v.v == 0, what + ": a reply is given", v)
                        if v.v == 0:
                            for t2, w in g.view(t, t.alloc(v.f[0], "got")):
                                req_view(g, t2, w, m, what + ": the reply given", empty_ns=False)
                        continue
                    g.req(t, v.v == 1, what + ": an error event gives an error", v)
                    if v.v != 1:
                        continue
                    en, ef = g.err(t, v.f[0])
                    for t2, r in g.call(t, "root_err_from", Ptr(Const(m.data))):
                        if r.v == 1:
                            g.cover(what + ": malformed error reply")
                            continue
                        g.cover(what + ": error reply")
                        g.req(t2, en == "ErrorEvent", what + ": an error event gives the peer's error", en)
                        if en == "ErrorEvent":
                            a, b = ef[0], r.f[0]
                            for x, y in zip(a.f, b.f):
                                if isinstance(x, Rope):
                                    g.eq(t2, x, y, what + ": with its message")
                                else:
                                    g.int_eq(t2, x, y, what + ": with its code", 16)
            elif "slept" in k:
                g.cover(what + ": timeout")
                g.req(s, v.v == 1 and g.err(s, v.f[0])[0] == "Timeout", what + ": no reply in time gives the timeout error", v)
                d = [e[1] for e in tr if e[0] == "slept"][-1]
                g.req(s, dur_eq(d, want), what + ": after the timeout of the call, else the connection's default", d)
            elif "recv_none" in k:
                g.req(s, v.v == 1, what + ": no reply gives no event", v)
            else:
                g.fail(s, what + ": it ends only with a reply, an error or the timeout", v)


@guarded
def reply_stream(g):
    """a reply stream: registered before sending; yields what is received in order; ends for good and unregistered"""
    g.expect(*["%s: %s" % (k, x) for k in ("default timeout", "given timeout") for x in
               ("opened", "event", "end event", "timeout", "send failure", "payload failure", "waiting", "ended")])
    for what, st, f, want, view in setups(g, "root_stream_replies", "root_stream_replies_t"):
        p = st.alloc(f, "opening")
        for s, v in g.polled(st, "root_stream_poll", p):
            tr = s.trace
            k = [e[0] for e in tr]
            reg = registered_first(g, s, what, view)
            if v.v == 1:
                removed(g, s, what, reg)
                if "payload_failed" in k:
                    g.cover(what + ": payload failure")
                    g.req(s, g.err(s, v.f[0])[0] == "payload_error" and not writes(tr), what + ": a payload that cannot be made gives that error and sends nothing", v)
                elif "write_fail" in k or "flush_fail" in k:
                    g.cover(what + ": send failure")
                    g.req(s, g.err(s, v.f[0])[0] == "IoError", what + ": a failure to send gives that error", v)
                else:
                    view.id = z3.BitVecVal(0, 64)
                    g.req(s, not was_sent(tr) and NOT(fits(view)), what + ": refused only when the header does not fit", v)
                continue
            g.cover(what + ": opened")
            g.req(s, was_sent(tr) and not any(x in k for x in ("write_fail", "flush_fail", "payload_failed")), what + ": a stream is given only for an event that was sent", tr)
            g.req(s, "map_remove" not in k, what + ": the stream is registered while it lives", tr)
            g.req(s, "recv" not in k, what + ": no reply is taken before the stream is polled", tr)
            if reg is None:
                continue
            q = s.alloc(v.f[0], "stream")
            stream_life(g, s, q, what, want, reg)


def stream_life(g, s, q, what, want, reg):
    """poll the stream again and again: every reachable state between two answers, live or ended"""
    def norm(s, v):
        s = s.copy()
        s.done, s.frames, s.trace = None, [], []
        s.gh = {k: x for k, x in s.gh.items() if not (isinstance(k, tuple) and k[0] == "nrecv")}
        return s
    work, seen = [(norm(s, None), "live")], set()
    n = 0
    while work:
        s, phase = work.pop()
        key = (phase, g.ex.canon(s, [g.ex.read(s, q)], with_trace=False, with_gh=False))
        if key in seen:
            g.closed += 1
            continue
        seen.add(key)
        n += 1
        if n > 40:
            g.undecided(what + ": the states of the stream are closed", "more than 40")
            return

        def on(t):
            if phase == "live":
                g.cover(what + ": waiting")
                suspended(g, t, what, want)
                g.req(t, not any(e[0] == "recv" for e in t.trace), what + ": an event that was taken is yielded at once", t.trace)
            else:
                g.fail(t, what + ": an ended stream answers at once", t.trace)
        for t, v in g.drive(s, lambda t: g.raw(t, "root_stream_next", [q, CX]), [q], what + ": poll_next", on_suspend=on):
            tr = t.trace
            k = [e[0] for e in tr]
            rc = [e for e in tr if e[0] == "recv"]
            if phase == "ended":
                g.cover(what + ": ended")
                g.req(t, v.v == 0, what + ": an ended stream answers that it ended", v)
                work.append((norm(t, v), "ended"))
                continue
            if rc:
                g.req(t, len(rc) == 1 and rc[0][1] == reg[2], what + ": one event from the registered listener per answer", "%s %s" % (rc, reg))
                ok = v.v == 1 and isinstance(v.f[0], Agg) and v.f[0].v == 0
                g.req(t, ok, what + ": an event received is yielded", v)
                if not ok:
                    continue
                for t2, m in g.view(t, received_msg(g, t, rc[0][1], rc[0][2])):
                    for t3, w in g.view(t2, t2.alloc(v.f[0].f[0], "got")):
                        req_view(g, t3, w, m, what + ": the event yielded", empty_ns=False)
                        if m.type == "End":
                            g.cover(what + ": end event")
                            removed(g, t3, what + ": after the end event", reg)
                            work.append((norm(t3, v), "ended"))
                        else:
                            g.cover(what + ": event")
                            g.req(t3, "map_remove" not in k, what + ": the stream stays registered until it ends", tr)
                            work.append((norm(t3, v), "live"))
            elif "recv_none" in k:
                g.req(t, v.v == 0, what + ": no more replies ends the stream", v)
                removed(g, t, what + ": after the last reply", reg)
                work.append((norm(t, v), "ended"))
            elif "slept" in k:
                g.cover(what + ": timeout")
                en = g.err(t, v.f[0].f[0])[0] if v.v == 1 and v.f[0].v == 1 else None
                g.req(t, en == "Timeout", what + ": nothing in time yields a timeout error", v)
                d = [e[1] for e in tr if e[0] == "slept"][-1]
                g.req(t, dur_eq(d, want), what + ": after the timeout of the call, else the connection's default", d)
                removed(g, t, what + ": after the timeout", reg)
                work.append((norm(t, v), "ended"))
            else:
                g.fail(t, what + ": a live stream answers only with an event, the timeout or the end", v)


GOALS = {"C12": [await_reply], "C13": [reply_stream]}
