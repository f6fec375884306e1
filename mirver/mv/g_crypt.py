"""C17, C18, C19: the encrypted stream.

Both halves are decided through a class invariant found by exploration: starting from a fresh half, every operation is run from every
state that earlier operations can leave behind; after an operation the byte contents, lengths and counters in the state are replaced by
arbitrary ones, so that finitely many states stand for all histories. What a state owes is measured by draining it with a transport that
neither waits nor fails:
  write half: O(s) = bytes of packets already encrypted but not yet written, U(s) = accepted bytes not yet encrypted, n(s) = next count
  read half:  P(s) = decrypted bytes not yet handed out, n(s) = next count
Each operation s -> s' is decided to satisfy
  written ++ O(s') = O(s) ++ packets of what it encrypted          encrypted ++ U(s') = U(s) ++ accepted bytes
  handed out ++ P(s') = P(s) ++ decrypted                          counts n(s), n(s)+1, ... in this order, n(s') next
which by induction gives the properties for every sequence of operations."""
from goal import *
from machine import machine, difference

MAXP = (1 << 32) - 1 - 16
SMALL = 1 << 31


def new_stream(g, st):
    """[(state, value)] of an encrypted stream over an arbitrary transport"""
    key = Rope([("s", "key", 0, 32)])
    return key, g.call(st, "root_enc_new", Obj("AnyStream", id="T", pos=0), key)


def halves(g, st):
    """[(state, key, pointer to the read half, pointer to the write half)] of a new stream"""
    key, l = new_stream(g, st)
    out = []
    for s, v in l:
        for t, r in g.call(s, "root_encs_split", v):
            out.append((t, key, t.alloc(r.f[0], "rd"), t.alloc(r.f[1], "wr")))
    return out


# ------------------------------------------------------------------ replacing contents by arbitrary ones

def symbols(x, memo=None):
    """the names of the symbols in a term"""
    memo = {} if memo is None else memo
    out, work, seen = set(), [x], set()
    while work:
        y = work.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if y.num_args() == 0:
            if not z3.is_bv_value(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(y.decl().name())
        else:
            work += y.children()
    return out


def generalise(g, st, roots, keep=None, tag="gen"):
    """the state with every byte content, length and counter reachable from the roots replaced by an arbitrary one (cipher keys excepted);
    what is made of symbols and contents that keep(name) names stays; equal contents stay equal, and a content known to be shorter than 1024 bytes, or than a packet, stays so"""
    s = State()
    s.n, s.gh, s.choices = st.n, dict(st.gh), dict(st.choices)
    s.mem = dict(st.mem)
    ropes, lens, vals = {}, {}, {}
    ex = g.ex
    seen, order = set(), []
    def fresh_len(old, name):
        n = z3.BitVec(name + ".len", 64)
        s.assume(z3.ULT(n, LENMAX))
        for lim in (1024, SMALL, MAXP + 1 + 20):
            if ex.entails(st, lult(old, lim)):
                s.assume(z3.ULT(n, lim))
                break
        if ex.entails(st, lult(0, old)):
            s.assume(n != 0)
        return n

    def kept(x):
        return keep is not None and all(keep(n) for n in symbols(x))

    if keep is not None:
        for c in st.pc:
            if is_sym(c) and kept(c):
                s.assume(c)

    def kept_seg(x):
        n = seglen(x)
        if is_sym(n) and not kept(n):
            return False
        return (x[0] == "s" and keep(x[1])) or x[0] == "c" or (x[0] in ("i", "f") and (not is_sym(x[1]) or kept(x[1]))) or (x[0] == "x" and all(kept_seg(y) for y in x[1].segs))

    def rope(r):
        if r.const() is not None or (keep is not None and all(kept_seg(x) for x in r.segs)):
            return r
        k = ex.rope_key(r)
        if k not in ropes:
            if not isinstance(r.len, int) and ex.entails(st, leq(r.len, 0)):
                return Rope()
            name = "%s%d" % (tag, len(ropes))
            n = r.len if isinstance(r.len, int) else fresh_len(r.len, name)
            ropes[k] = Rope([("s", name, 0, n)])
            if not isinstance(n, int):
                lens[str(r.len)] = n
        return ropes[k]

    def num(x):
        if not is_sym(x) or isinstance(x, z3.BoolRef) or kept(x):
            return x
        k = str(x)
        if k in lens:
            return lens[k]
        if k not in vals:
            vals[k] = z3.BitVec("%s.val%d" % (tag, len(vals)), x.size())
        return vals[k]

    def walk(x, key=False):
        if isinstance(x, Rope):
            return x if key else rope(x)
        if is_sym(x):
            return num(x)
        if isinstance(x, Agg):
            return Agg(x.v, tuple(walk(y) for y in x.f), x.ty)
        if isinstance(x, Seq):
            return Seq([walk(y) for y in x.items])
        if isinstance(x, Cor):
            live = ex.m.T[x.ty]["vf"]
            return Cor(x.ty, x.v, tuple(walk(y) for y in x.up),
                       {k: walk(v) for k, v in x.sv.items() if x.v < len(live) and k in live[x.v]})
        if isinstance(x, Ptr):
            m = tuple(num(y) for y in x.m) if isinstance(x.m, tuple) else num(x.m) if x.m is not None else None
            p = tuple(tuple(num(z) for z in y) if isinstance(y, tuple) else y for y in x.p)
            if isinstance(x.a, Const):
                return Ptr(Const(walk(x.a.val)), p, m)
            if x.a not in seen:
                seen.add(x.a)
                order.append(x.a)
            return Ptr(x.a, p, m)
        if isinstance(x, Obj):
            if x.k == "atomic":
                v = z3.BitVec("%s.count(%s)" % (tag, x.id), x.bits)
                s.assume(z3.ULT(v, 1 << 62))
                return x.set(v=v)
            return Obj(x.k, **{k: (walk(v, key=(k == "key")) if k not in ("id",) else v) for k, v in x.d.items()})
        return x
    # ropes before the numbers that are their lengths: two passes
    for r in roots:
        walk(r)
    i = 0
    while i < len(order):
        walk(st.mem.get(order[i]))
        i += 1
    seen, order = set(), []
    for r in roots:
        walk(r)
    i = 0
    while i < len(order):
        s.mem[order[i]] = walk(st.mem.get(order[i]))
        i += 1
    return s


# ------------------------------------------------------------------ observations

def events(tr, *kinds):
    return [e for e in tr if e[0] in kinds]


def written(tr):
    r = Rope()
    for e in events(tr, "write"):
        r = r + e[2]
    return r


def plain(tr):
    r = Rope()
    for e in events(tr, "encrypt"):
        r = r + e[3]
    return r


def packets(tr):
    r = Rope()
    for e in events(tr, "encrypt"):
        r = r + rint(lo(e[4].len, 32), 4) + e[4]
    return r


def count_in(nonce):
    """the count a nonce is made of"""
    return rope_int(_first(nonce, 8), 8)


def _first(r, n):
    out, k = [], 0
    for s in r.segs:
        m = seglen(s)
        if not isinstance(m, int):
            raise Undecided("nonce %r" % (r,))
        if k + m <= n:
            out.append(s)
            k += m
        else:
            out.append(Exec.cut(None, s, 0, n - k) if False else _cut(s, 0, n - k))
            k = n
        if k == n:
            break
    return Rope(out)


def _cut(s, off, n):
    if s[0] == "c":
        return ("c", s[1][off:off + n])
    if s[0] == "i":
        x = rope_int(Rope([s]), seglen(s))
        bits = 8 * seglen(s)
        return ("i", norm_int(z3.Extract(bits - 8 * off - 1, bits - 8 * (off + n), bv(x, bits))), n)
    raise Undecided("nonce %r" % (s,))


def nonce_of(c):
    """the nonce of the c-th packet: c as eight big-endian bytes followed by the first four of them"""
    hi = c >> 32 if isinstance(c, int) else norm_int(z3.Extract(63, 32, c))
    return rint(c, 8) + rint(hi, 4)


def req_nonces(g, s, key, evs, c0, what):
    """the k-th of the events uses the key and the nonce of count c0 + k"""
    for k, e in enumerate(evs):
        g.eq(s, e[1], key, what + ": under the session key")
        g.eq(s, e[2], nonce_of(norm_int(bv(c0, 64) + k)), what + ": with the nonce of the next count")


# ------------------------------------------------------------------ write half

OPS = {"write": "root_enc_write", "flush": "root_enc_flush", "shutdown": "root_enc_shutdown"}


def run_op(g, st, op, wp, data=None, calm=False):
    """outcomes of one poll: [(state, 'ok' | 'err' | 'pending', value)]"""
    s = st.copy()
    s.trace = []
    s.gh.pop("woken", None)
    s.gh.pop("calm", None)
    if calm:
        s.gh["calm"] = True
    args = [wp, CX]
    if op == "write":
        args.append(Ptr(Const(data)))
    out = []
    for t in g.sort(g.raw(s, OPS[op], args), False, op):
        v = t.done[1]
        t.done, t.frames = None, []
        t.gh.pop("calm", None)
        if v.v == 1:
            out.append((t, "pending", None))
            continue
        for u, r in g.force(t, v.f[0]):
            out.append((u, "ok" if r.v == 0 else "err", r.f[0] if r.f else None))
    return out


def resliced(g, st, r):
    """the same content with slices of slices resolved as far as the path decides them"""
    out = Rope()
    for s in r.segs:
        if s[0] == "x":
            n = s[3]
            if s[2] == 0 and g.ex.entails(st, leq(s[3], s[1].len)):
                out = out + s[1]
            else:
                out = out + g.ex.rope_slice(st, s[1], s[2], n)
        else:
            out = out + Rope([s])
    return out


PROBE = Rope([("s", "probe", 0, 1)])


def drain(g, st, wp, pc=None):
    """[(state, O, U, n, trace)]: what the half still has to write, still has to encrypt, and its next count. A byte is written first so
    that there is a packet to see the count in"""
    s0 = st.copy()
    if pc is not None:
        for c in pc:
            s0.assume(c)
    out = []
    for s, k, _ in run_op(g, s0, "write", wp, PROBE, calm=True):
        if k != "ok":
            raise Undecided("a write to a transport that is ready: %s" % k)
        tr1 = list(s.trace)
        for t, k2, _ in run_op(g, s, "flush", wp, calm=True):
            tr = tr1 + list(t.trace)
            if k2 != "ok":
                raise Undecided("a flush of a transport that is ready: %s" % k2)
            enc = [i for i, e in enumerate(tr) if e[0] == "encrypt"]
            if not enc:
                g.fail(t, "a flushed byte is encrypted", tr)
                continue
            o = written(tr[:enc[0]])
            u = plain(tr)
            # without the probe
            u = resliced(g, t, u)
            if not u.segs or not same_seg(u.segs[-1], PROBE.segs[0]):
                g.fail(t, "what is written last is encrypted last", u)
                continue
            out.append((t, o, Rope(u.segs[:-1]), count_in(tr[enc[0]][2]), tr))
    return out


def cases(items, same):
    """[(conditions, value)] with the conditions of equal values joined"""
    res = []
    for pc, v in items:
        for r in res:
            if same(r[1], v):
                r[0].append(pc)
                break
        else:
            res.append(([pc], v))
    out = []
    for pcs, v in res:
        c = True if any(not p for p in pcs) else norm_bool(OR(*[AND(*p) for p in pcs]))
        out.append(((), v) if c is True else ((c,), v))
    if len(out) == 1:
        out = [((), out[0][1])]  # the runs cover every case
    return out


def owed(g, st, wp):
    """[(conditions, O, U, n)]: what the half owes, by cases"""
    l = [(s.pc[len(st.pc):], (o, u, c)) for s, o, u, c, tr in drain(g, st, wp)]
    return [(pc,) + v for pc, v in cases(l, lambda a, b: rope_same(a[0], b[0]) and rope_same(a[1], b[1]) and str(a[2]) == str(b[2]))]


def explore(g, st, ptrs, step, limit=600, depth=None):
    """every operation from every state that operations leave behind. With a depth: sequences of that many operations from a new half,
    nothing generalised, so that what fails is reachable. step(state, number of operations before) -> states after one operation"""
    seen, work = set(), [(st, 0)]
    n = 0
    while work:
        s0, d = work.pop()
        if n >= limit:
            g.undecided("the states of the half are closed", n)
            return
        n += 1
        g.abstract = depth is None and d > 0
        for t in step(s0, d if depth is not None else 0):
            if depth is None:
                t = generalise(g, t, ptrs)
            elif d + 1 >= depth:
                continue
            t.trace = []
            k = g.ex.canon(t, ptrs, with_trace=False)
            if k in seen:
                g.closed += 1
                continue
            seen.add(k)
            work.append((t, d + 1))
    g.abstract = False


def write_ops(g, key, wp, s0, d, bound=SMALL):
    """[state] after one write, flush or shutdown, each decided"""
    owe = owed(g, s0, wp)
    inp = g.ex.symbytes(s0, "input%d" % d)
    s1 = s0.copy()
    s1.assume(z3.ULT(inp.len, bound))
    out = []
    for op in ("write", "flush", "shutdown"):
        for t, k, v in run_op(g, s1 if op == "write" else s0, op, wp, inp):
            tr = t.trace
            # bytes written to the transport and not yet flushed; a shutdown that happened
            dirty = t.gh.get("dirty", False)
            for e in tr:
                if e[0] in ("write", "write_fail"):
                    dirty = True
                elif e[0] == "flush":
                    dirty = False
            t.gh["dirty"] = dirty
            for pc, o0, u0, c0 in owe:
                u = t.copy()
                for c in pc:
                    u.assume(c)
                if not pc or g.ex.check(u.pc) != "unsat":
                    write_step(g, key, s0, u, op, k, v, inp, (o0, u0, c0), wp)
            if events(tr, "shutdown"):
                t.gh["shut"] = True
            if k == "err":
                t.gh["broken"] = True
            t.gh.pop("woken", None)
            out.append(t)
    return out


WCOVER = ("write accepted", "write refused for now", "write sent a packet", "flush completes", "flush waits", "shutdown completes", "shutdown waits", "error", "write while busy")


def write_start(g):
    st = g.start()
    for s, key, rp, wp in halves(g, st):
        s.trace = []
        s.gh["dirty"] = False
        yield s, key, wp


@guarded
def write_half(g):
    """every write, flush and shutdown, from every state of the write half, keeps what was accepted, in order"""
    g.requires.add("one call of poll_write is given less than 2 GiB (large_writes and large_packets, bounded, go beyond)")
    g.expect(*WCOVER)
    for s, key, wp in write_start(g):
        explore(g, s, [wp], lambda t, d: write_ops(g, key, wp, t, d))


@guarded
def first_writes(g):
    """the first three operations of a write half, with nothing generalised"""
    g.limits.add("first_writes: the first three operations")
    for s, key, wp in write_start(g):
        explore(g, s, [wp], lambda t, d: write_ops(g, key, wp, t, d), depth=3)


@guarded
def large_writes(g):
    """the first two operations, writes of up to three full packets included"""
    g.limits.add("large_writes: the first two operations, writes of at most three full packets")
    for s, key, wp in write_start(g):
        explore(g, s, [wp], lambda t, d: write_ops(g, key, wp, t, d, bound=3 * MAXP), depth=2)


def write_step(g, key, s0, t, op, k, v, inp, owe, wp):
    o0, u0, c0 = owe
    tr = t.trace
    enc = events(tr, "encrypt")
    broken = t.gh.get("broken")
    g.req(t, not events(tr, "encrypt_fail"), "encrypting within the packet size succeeds", tr)
    for e in events(tr, "write", "write_fail"):
        g.req(t, e[1] == "T", "only the inner transport is written to", e)
    req_nonces(g, t, key, enc, c0, "what is encrypted")
    for e in enc:
        g.req(t, lule(e[4].len, 0xFFFFFFFF), "the packet length fits its field", e)
    if k == "pending":
        g.req(t, t.gh.get("woken") is True, op + " answers not-ready only if the transport will wake it", tr)
        g.cover({"write": "write refused for now", "flush": "flush waits", "shutdown": "shutdown waits"}[op])
    acc = Rope()
    if op == "write" and k == "ok":
        n = v
        g.req(t, lule(n, inp.len), "a write accepts at most what it was given", v)
        g.cover("write accepted")
        acc = g.ex.rope_slice(t, inp, 0, n)
        if enc:
            g.cover("write sent a packet")
        if not o0.segs or True:
            pass
        g.req(t, OR(lult(0, n), NOT(lult(0, inp.len))), "a write accepts something", v)
        if g.ex.entails(t, lult(0, o0.len)):
            g.cover("write while busy")
    if k == "err":
        g.cover("error")
        g.req(t, bool(events(tr, "write_fail", "flush_fail", "shutdown_fail")), op + " fails only if the transport failed", tr)
        # how much of a packet was written is unknown after an error: the count goes on
        for d, o1, u1, c1, dtr in drain(g, t, wp):
            g.int_eq(d, c1, norm_int(bv(c0, 64) + len(enc)), "after an error the next packet has the next count")
        return
    g.req(t, not events(tr, "write_fail", "flush_fail", "shutdown_fail"), op + " reports a failure of the transport", tr)
    for d, o1, u1, c1, dtr in drain(g, t, wp):
        g.int_eq(d, c1, norm_int(bv(c0, 64) + len(enc)), "the next packet has the next count")
        g.eq(d, written(tr) + o1, o0 + packets(tr), "what is written is exactly the packets of what was encrypted, in order")
        g.eq(d, plain(tr) + u1, u0 + acc, "what is encrypted is exactly what was accepted, in order")
        if k == "ok" and op in ("flush", "shutdown"):
            g.cover(op + " completes")
            g.req(d, leq(o1.len, 0), op + " completes only when everything was written", o1)
            g.req(d, leq(u1.len, 0), op + " completes only when everything was encrypted", u1)
            g.req(d, not t.gh.get("dirty"), op + " completes only when the transport was flushed", tr)
            if op == "shutdown":
                g.req(d, bool(events(tr, "shutdown")) or t.gh.get("shut") is True, "shutdown completes only when the transport was shut down", tr)


# ------------------------------------------------------------------ read half

IN = ("in", "T")
MAXPOLL = 1
NPACK = 5


def read_op(g, st, rp, cap=None, prior=None, calm=False, packets=MAXPOLL):
    """outcomes of one poll_read: [(state, 'ok' | 'err' | 'pending', handed out bytes)]. The caller's buffer holds `prior` and has room
    for `cap` more bytes. A poll that goes on after `packets` packets (they were empty) is cut there, see resumes"""
    s = st.copy()
    s.trace = []
    s.gh.pop("woken", None)
    s.gh.pop("calm", None)
    if calm:
        s.gh["calm"] = True
    s.gh["packets"] = packets
    prior = prior if prior is not None else Rope()
    b = s.alloc(Obj("readbuf", cap=ladd(prior.len, cap), filled=prior), "readbuf")
    out = []
    for t in g.sort(g.raw(s, "root_enc_read", [rp, CX, b]), False, "read"):
        v = t.done[1]
        t.done, t.frames = None, []
        t.gh.pop("calm", None)
        t.gh.pop("packets", None)
        cut = t.gh.pop("cut", None)
        if cut is not None and not getattr(g, "uncut", False):
            resumes(g, t, cut, "root_enc_read", [rp, CX, b], [rp, b])
        buf = g.ex.read(t, b)
        del t.mem[b.a]
        for u, k in [(t, "pending")] if v.v == 1 else [(u, "ok" if r.v == 0 else "err") for u, r in g.force(t, v.f[0])]:
            f = buf.filled
            g.req(u, not buf.d.get("cleared"), "a read keeps what the caller's buffer already holds", buf)
            if prior.segs:
                g.eq(u, g.ex.rope_slice(u, f, 0, prior.len), prior, "a read keeps what the caller's buffer already holds")
                f = g.ex.rope_slice(u, f, prior.len, lsub(f.len, prior.len))
            out.append((u, k, f))
    return out


class Uncut(Exception):
    """the rest of a poll that was cut is not a poll of the state in which it stopped"""


def resumes(g, t, cut, root, args, roots):
    """the poll that ended in t was cut; what it would have done is what the next poll does: polled again, the same place is reached in
    the same state. So a poll with any number of packets is the polls of its parts one after the other, and what holds of each holds
    of it. (Otherwise the goal is decided for a bounded number of packets.)"""
    skip = ("woken", "packets", "cut", "again", "calm")
    u = t.copy()
    u.trace, u.done = [], None
    u.gh["again"] = True
    l = [x for x in g.raw(u, root, args) if not (x.done[0] in ("panic", "undecided") and g.ex.check(x.pc) == "unsat")]
    a = g.ex.cuts[cut]
    if len(l) != 1 or l[0].done != ("cut", "leaf"):
        raise Uncut("%s" % [x.done for x in l])
    b = l[0]
    for c in b.pc:
        if c.get_id() not in a.pcset and not g.ex.entails(a, c):
            raise Uncut("only if %s" % c)
    for c in a.pc:
        if c.get_id() not in b.pcset:
            raise Uncut("no longer %s" % c)
    x, y = machine(g.ex, a, roots, skip), machine(g.ex, b, roots, skip)
    if x != y:
        raise Uncut(difference(x, y))
    g.resumed = getattr(g, "resumed", 0) + 1


BIG = 1 << 46


def incoming(n, tag="pk"):
    """a byte stream as packets: any stream is of this form, up to where it ends (which it may anywhere: gh['truncates'])"""
    r = Rope()
    for i in range(n):
        k = z3.BitVec("%s%d.size" % (tag, i), 32)
        r = r + Rope([("i", k, 4)]) + Rope([("s", "%s%d" % (tag, i), 0, norm_int(z3.ZeroExt(32, k)))])
    return r


def reader_pos(g, st, rp):
    """how much of the transport's bytes was taken (the reader may be inside a suspended future)"""
    found = []
    seen, work = set(), [g.ex.read(st, rp)]
    while work:
        x = work.pop()
        if isinstance(x, Obj):
            if x.k == "AnyReader":
                found.append(x.pos)
            work += list(x.d.values())
        elif isinstance(x, Agg):
            work += list(x.f)
        elif isinstance(x, Seq):
            work += list(x.items)
        elif isinstance(x, Cor):
            live = g.m.T[x.ty]["vf"]
            work += [v for k, v in x.sv.items() if x.v < len(live) and k in live[x.v]] + list(x.up)
        elif isinstance(x, Ptr) and not isinstance(x.a, Const) and x.a not in seen:
            seen.add(x.a)
            work.append(st.mem.get(x.a))
    if not found:
        raise Undecided("no reader")
    out = found[0]
    for p in found[1:]:
        if leq(p, out) is not True:
            # moved values leave their old copies behind: the one that is furthest counts
            out = p if g.ex.entails(st, lule(out, p)) else out
    return out


def held(g, st, rp):
    """[(conditions, P)]: the decrypted bytes that the half holds: what it hands out when the transport gives nothing more"""
    s = st.copy()
    d = L.stream_content(g.ex, s, "T")
    pos = reader_pos(g, s, rp)
    s.gh[IN] = g.ex.rope_slice(s, d, 0, pos)
    out, work = [], [(s, Rope(), 0)]
    base = len(st.pc)
    while work:
        t, got, n = work.pop()
        if n > 3:
            raise Undecided("draining the read half does not end")
        for u, k, h in read_op(g, t, rp, BIG, calm=True):
            if events(u.trace, "decrypt", "decrypt_fail"):
                out.append((u.pc[base:], got))  # an empty packet body, or one received in full: that is not decrypted yet
                continue
            if k == "ok" and not g.ex.entails(u, leq(h.len, 0)):
                work.append((u, got + h, n + 1))
            else:
                out.append((u.pc[base:], got))
    return cases(out, rope_same)


def next_count(g, st, rp):
    """the count of the next packet the half decrypts, or None"""
    work, out = [(st, 0)], []
    while work:
        t, n = work.pop()
        for u, k, h in read_op(g, t, rp, BIG, calm=True, packets=1):
            ev = events(u.trace, "decrypt", "decrypt_fail")
            if ev:
                out.append(count_in(ev[0][2]))
            elif k == "ok" and n < 3:
                work.append((u, n + 1))
    if not out:
        return None
    if any(str(o) != str(out[0]) for o in out):
        raise Undecided("counts %s" % out)
    return out[0]


def read_ops(g, key, rp, s0, d, packets=MAXPOLL, on=None):
    """[state] after one read, decided (and given to `on`). The ghost 'acc' is how many of the transport's bytes the packets decrypted so far account for"""
    cap = z3.BitVec("room%d" % d, 64)
    s1 = s0.copy()
    s1.assume(z3.ULT(cap, LENMAX))
    prior = g.ex.symbytes(s1, "prior%d" % d)
    s1.gh.setdefault("acc", 0)
    ended0 = s1.gh.get("ended")
    p0s = held(g, s0, rp)
    c0 = next_count(g, s0, rp)
    out = []
    for t, k, h in read_op(g, s1, rp, cap, prior, packets=packets):
        p1s = held(g, t, rp)
        for pc0, p0 in p0s:
            for pc1, p1 in p1s:
                u = t.copy()
                for c in list(pc0) + list(pc1):
                    u.assume(c)
                if (pc0 or pc1) and g.ex.check(u.pc) == "unsat":
                    continue
                read_step(g, key, u, k, h, p0, p1, c0, cap, ended0)
        dec = events(t.trace, "decrypt", "decrypt_fail")
        c1 = next_count(g, t, rp)
        if c1 is not None and c0 is not None:
            g.int_eq(t, c1, norm_int(bv(c0, 64) + len(dec)), "the next packet is expected with the next count")
        acc = t.gh["acc"]
        for e in dec:
            acc = ladd(ladd(acc, 4), e[3].len)
        t.gh["acc"] = acc
        if events(t.trace, "read_end"):
            t.gh["ended"] = True
        t.gh.pop("woken", None)
        if on:
            on(t, k, h)
        out.append(t)
    return out


def read_step(g, key, t, k, h, p0, p1, c0, cap, ended0):
    tr = t.trace
    dec = events(tr, "decrypt", "decrypt_fail")
    room = lult(0, cap)
    data = L.stream_content(g.ex, t, "T")
    if k == "pending":
        g.cover("not ready")
        g.req(t, t.gh.get("woken") is True, "a read answers not-ready only if the transport will wake it", tr)
        g.req(t, leq(h.len, 0), "a read that is not ready hands out nothing", h)
    if c0 is not None:
        for i, e in enumerate(dec):
            g.eq(t, e[1], key, "what is decrypted: under the session key")
            g.eq(t, e[2], nonce_of(norm_int(bv(c0, 64) + i)), "what is decrypted: with the nonce of the next count")
    acc = t.gh["acc"]
    for e in dec:
        ct = e[3]
        end = ladd(ladd(acc, 4), ct.len)
        g.req(t, AND(lule(end, data.len), lule(ct.len, 0xFFFFFFFF)), "what is decrypted is the next packet of the stream", e)
        if g.ex.entails(t, AND(lule(end, data.len), lule(ct.len, 0xFFFFFFFF))):
            g.eq(t, g.ex.rope_slice(t, data, acc, 4), rint(lo(ct.len, 32), 4), "what is decrypted is the next packet of the stream")
            g.eq(t, g.ex.rope_slice(t, data, ladd(acc, 4), ct.len), ct, "what is decrypted is the next packet of the stream")
        acc = end
    got = Rope()
    for e in dec:
        if e[0] == "decrypt":
            got = got + e[4]
    g.eq(t, h + p1, p0 + got, "what is handed out is exactly what was decrypted, in order")
    if k == "ok":
        g.cover("data handed out")
        g.req(t, OR(NOT(room), lult(0, h.len)), "a read that succeeds hands out data", h)
        g.req(t, lule(h.len, cap), "a read hands out no more than there is room for", h)
        if dec:
            g.cover("a packet was read")
        if p1.segs and h.segs:
            g.cover("more than there is room for")
    else:
        g.req(t, OR(leq(p1.len, 0), NOT(room)), "a read hands out data as soon as there is some", p1)
    if k == "err":
        g.cover("error")
        g.req(t, leq(h.len, 0), "a read that fails hands out nothing", h)
        g.req(t, bool(events(tr, "read_end", "decrypt_fail")) or ended0 is True, "a read fails only if the transport failed or ended or a packet does not authenticate", tr)
    else:
        g.req(t, not events(tr, "decrypt_fail"), "a packet that does not authenticate is an error", tr)
        if events(tr, "read_end"):
            g.fail(t, "the end of the transport is an error", tr)


def renamed(st, pairs, names):
    """the state with symbols and contents renamed"""
    s = State()
    s.n, s.choices = st.n, dict(st.choices)

    def e(x):
        if is_sym(x):
            return z3.substitute(x, *pairs)
        if isinstance(x, Rope):
            return Rope([seg(y) for y in x.segs])
        if isinstance(x, Agg):
            return Agg(x.v, tuple(e(y) for y in x.f), x.ty)
        if isinstance(x, Seq):
            return Seq([e(y) for y in x.items])
        if isinstance(x, Cor):
            return Cor(x.ty, x.v, tuple(e(y) for y in x.up), {k: e(y) for k, y in x.sv.items()})
        if isinstance(x, Ptr):
            a = Const(e(x.a.val)) if isinstance(x.a, Const) else x.a
            return Ptr(a, tuple(e(y) if isinstance(y, tuple) else y for y in x.p), tuple(e(y) for y in x.m) if isinstance(x.m, tuple) else e(x.m))
        if isinstance(x, Obj):
            return Obj(x.k, **{k: e(v) for k, v in x.d.items()})
        if isinstance(x, tuple):
            return tuple(e(y) for y in x)
        return x

    def seg(y):
        if y[0] == "c":
            return y
        if y[0] == "i":
            return ("i", e(y[1]), y[2])
        if y[0] == "s":
            return ("s", names.get(y[1], y[1]), e(y[2]), e(y[3]))
        if y[0] == "x":
            return ("x", e(y[1]), e(y[2]), e(y[3]))
        if y[0] == "f":
            return ("f", e(y[1]), e(y[2]))
        return (y[0], y[1], e(y[2]))
    for a, v in st.mem.items():
        s.mem[a] = e(v)
    for k, v in st.gh.items():
        s.gh[k] = e(v)
    for c in st.pc:
        s.assume(e(c) if is_sym(c) else c)
    return s


def read_rebase(g, t, rp, more=()):
    """the state with the packets that are done with forgotten, and everything else that is not about the packet in progress arbitrary"""
    n = NPACK
    packs = incoming(n)
    ended = t.gh.get("ended")
    k, at = 0, 0
    while not ended and leq(at, t.gh["acc"]) is not True:
        if k == n:
            raise Undecided("position %s" % t.gh["acc"])
        at = ladd(at, ladd(4, packs.segs[2 * k + 1][3]))
        k += 1
    size = lambda i, p="pk": z3.BitVec("%s%d.size" % (p, i), 32)
    # two steps, because the names overlap: the packets that are done with become old ones
    pairs = [(size(i), size(i, "old") if i < k else size(i - k)) for i in range(n)]
    names = {"pk%d" % i: ("old%d" % i if i < k else "pk%d" % (i - k)) for i in range(n)}
    pos = reader_pos(g, t, rp)
    if ended:
        base = pos
    else:
        base = at

    def reset(v):
        if isinstance(v, Obj):
            if v.k == "AnyReader":
                return v.set(pos=lsub(v.pos, base))
            return v
        if isinstance(v, Agg):
            return Agg(v.v, tuple(reset(y) for y in v.f), v.ty)
        if isinstance(v, Cor):
            return Cor(v.ty, v.v, tuple(reset(y) for y in v.up), {k: reset(y) for k, y in v.sv.items()})
        return v
    t = t.copy()
    for a in list(t.mem):
        t.mem[a] = reset(t.mem[a])
    t = renamed(t, pairs, names)
    t.gh.pop(IN, None)
    x = generalise(g, t, [rp] + list(more), keep=lambda nm: nm.startswith("pk"))
    x.gh["acc"] = 0
    x.gh[IN] = Rope() if ended else packs
    return x


def read_explore(g, st, key, rp, limit=600, depth=None, packets=MAXPOLL, more=(), step=None):
    try:
        return read_states(g, st, key, rp, limit, depth, packets, more, step)
    except (Uncut, Undecided) as e:
        if getattr(g, "uncut", False):
            raise
        g.uncut = True
        g.limits.add("%s: the transport delivers at most two packets in one poll (%s)" % (g.goal, str(e)[:200]))
        return read_states(g, st, key, rp, limit, depth, 2, more, step)


def read_states(g, st, key, rp, limit, depth, packets, more, step):
    seen, work = set(), [(st, 0)]
    n = 0
    while work:
        s0, d = work.pop()
        if n >= limit:
            g.undecided("the states of the half are closed", n)
            return
        n += 1
        g.abstract = depth is None and d > 0
        for t in (step or read_ops)(g, key, rp, s0, d, packets):
            if depth is None:
                t = read_rebase(g, t, rp, more)
            elif d + 1 >= depth:
                continue
            t.trace = []
            k = g.ex.canon(t, [rp] + list(more), with_trace=False)
            k = (k, tuple(sorted(str(c) for c in t.pc)))
            if k in seen:
                g.closed += 1
                continue
            seen.add(k)
            work.append((t, d + 1))
    g.abstract = False


@guarded
def read_half(g):
    """every read, from every state of the read half, hands out exactly what was decrypted, and decrypts exactly the packets received"""
    g.expect("not ready", "data handed out", "a packet was read", "more than there is room for", "error")
    st = g.start()
    for s, key, rp, wp in halves(g, st):
        s.trace = []
        s.gh[IN] = incoming(NPACK)
        s.gh["truncates"] = True
        read_explore(g, s, key, rp)


@guarded
def first_reads(g):
    """the first two reads of a read half, with nothing generalised"""
    g.limits.add("first_reads: the first two reads")
    st = g.start()
    for s, key, rp, wp in halves(g, st):
        s.trace = []
        s.gh[IN] = incoming(5)
        s.gh["truncates"] = True
        read_explore(g, s, key, rp, depth=2, packets=1)


@guarded
def any_writes(g):
    """the first operations of a write half after any number of packets, with nothing else generalised"""
    g.limits.add("any_writes: the first two operations after any number of packets written and flushed one by one")
    later_writes(g)


def later_writes(g):
    for s0, key, wp in write_start(g):
        for s in counted(g, s0, [wp], one_sent(g, wp)):
            explore(g, s, [wp], lambda t, d: write_ops(g, key, wp, t, d), depth=2)


@guarded
def any_reads(g):
    """the first reads of a read half after any number of packets, with nothing else generalised"""
    g.limits.add("any_reads: the first two reads after any number of packets read one by one")
    later_reads(g)


def later_reads(g):
    st = g.start()
    for s0, key, rp, wp in halves(g, st):
        s0.trace = []
        s0.gh[IN] = incoming(5)
        s0.gh["truncates"] = True
        for s in counted(g, s0, [rp], one_received(g, rp, wp)):
            read_explore(g, s, key, rp, depth=2, packets=1)


# ------------------------------------------------------------------ the stream as a whole

STREAM = "bromine::protocol::encrypted::EncryptedStream<opq::AnyStream>"
WOPS = (("write", "root_encs_write", "root_enc_write"), ("flush", "root_encs_flush", "root_enc_flush"), ("shutdown", "root_encs_shutdown", "root_enc_shutdown"))


def streams(g, st):
    """[(state, key, pointer to the stream, to its read half, to its write half)] of a new stream"""
    key, l = new_stream(g, st)
    out = []
    for s, v in l:
        p = s.alloc(v, "stream")
        out.append((s, key, p, Ptr(p.a, p.p + (g.fpath(STREAM, "read_half"),)), Ptr(p.a, p.p + (g.fpath(STREAM, "write_half"),))))
    return out


def outcomes(g, st, root, args, roots):
    """the outcomes of a call, comparable"""
    out = []
    for t in g.sort(g.raw(st.copy(), root, args), False, root):
        cut = t.gh.pop("cut", None)
        if cut is not None:
            resumes(g, t, cut, root, args, roots)
        out.append((g.ex.canon(t, roots + [t.done[1]]), tuple(sorted(str(c) for c in t.pc)), t))
    return out


@guarded
def delegates(g):
    """reading, writing, flushing and shutting down an unsplit stream is what its halves do, in all states of the two halves; the halves of
    a split stream are the ones it had"""
    g.expect("compared", "suspended", "split")
    g.requires.add("one call of poll_write is given less than 2 GiB (large_writes and large_packets, bounded, go beyond)")
    st = g.start()
    for s, key, sp, rp, wp in streams(g, st):
        s.trace = []
        s.gh[IN] = incoming(NPACK)
        s.gh["truncates"] = True
        s.gh["acc"] = 0
        work, seen = [s], set()
        while work:
            s0 = work.pop()
            g.abstract = bool(seen)
            inp = g.ex.symbytes(s0, "input")
            s0.assume(z3.ULT(inp.len, SMALL))
            cap = z3.BitVec("room", 64)
            s0.assume(z3.ULT(cap, LENMAX))
            b = s0.alloc(Obj("readbuf", cap=cap, filled=Rope()), "readbuf")
            s0.gh["packets"] = 1
            for what, whole, half, hp, more in [(k, a, c, wp, [Ptr(Const(inp))] if k == "write" else []) for k, a, c in WOPS] + [("read", "root_encs_read", "root_enc_read", rp, [b])]:
                l1 = outcomes(g, s0, whole, [sp, CX] + more, [sp, b])
                l2 = outcomes(g, s0, half, [hp, CX] + more, [sp, b])
                g.cover("compared")
                g.req(s0, sorted((x[:2] for x in l1), key=repr) == sorted((x[:2] for x in l2), key=repr), "%s of an encrypted stream is what its half does" % what,
                      lambda: "%s\n!=\n%s" % (sorted((x[0] for x in l1), key=repr), sorted((x[0] for x in l2), key=repr)))
                for _, _, t in l2:
                    if t.done[1].v == 1:
                        g.cover("suspended")
                    for e in events(t.trace, "decrypt", "decrypt_fail"):
                        t.gh["acc"] = ladd(ladd(t.gh["acc"], 4), e[3].len)
                    if events(t.trace, "read_end"):
                        t.gh["ended"] = True
                    t.done, t.frames, t.trace = None, [], []
                    for k in ("woken", "packets"):
                        t.gh.pop(k, None)
                    del t.mem[b.a]
                    t = read_rebase(g, t, rp, [sp])
                    k = (g.ex.canon(t, [sp]), tuple(sorted(str(c) for c in t.pc)))
                    if k in seen:
                        g.closed += 1
                        continue
                    if len(seen) > 2000:
                        g.undecided("the states of the stream are closed", len(seen))
                        return
                    seen.add(k)
                    work.append(t)
            for t, r in g.call(s0, "root_encs_split", g.ex.read(s0, sp)):
                v = g.ex.read(s0, sp)
                g.cover("split")
                k1 = g.ex.canon(t, [r.f[0], r.f[1]])
                k2 = g.ex.canon(s0, [g.ex.read(s0, rp), g.ex.read(s0, wp)])
                g.req(t, k1 == k2, "a split stream has the halves it had", lambda: "%s\n!=\n%s" % (k1, k2))


@guarded
def first_delegates(g):
    """reading, writing, flushing and shutting down an unsplit stream is what its halves do, in the states of its first operations, with nothing
    generalised; the halves of a split stream are the ones it had"""
    g.limits.add("first_delegates: the first two operations")
    g.expect("compared", "suspended", "split")
    st = g.start()
    for s, key, sp, rp, wp in streams(g, st):
        s.trace = []
        s.gh[IN] = incoming(4)
        work, n = [(s, 0)], 0
        while work:
            s0, d = work.pop()
            inp = g.ex.symbytes(s0, "input%d" % d)
            s0.assume(z3.ULT(inp.len, SMALL))
            cap = z3.BitVec("room%d" % d, 64)
            s0.assume(z3.ULT(cap, LENMAX))
            b = s0.alloc(Obj("readbuf", cap=cap, filled=Rope()), "readbuf")
            s0.gh["packets"] = 1
            for what, whole, half, hp, more in [(k, a, c, wp, [Ptr(Const(inp))] if k == "write" else []) for k, a, c in WOPS] + [("read", "root_encs_read", "root_enc_read", rp, [b])]:
                l1 = outcomes(g, s0, whole, [sp, CX] + more, [sp, b])
                l2 = outcomes(g, s0, half, [hp, CX] + more, [sp, b])
                g.cover("compared")
                g.req(s0, sorted(x[:2] for x in l1) == sorted(x[:2] for x in l2), "%s of an encrypted stream is what its half does" % what,
                      lambda: "%s\n!=\n%s" % (sorted(x[0] for x in l1), sorted(x[0] for x in l2)))
                for _, _, t in l2:
                    if t.done[1].v == 1:
                        g.cover("suspended")
                    t.done, t.trace = None, []
                    t.gh.pop("woken", None)
                    if d < 1:
                        work.append((t, d + 1))
            for t, r in g.call(s0, "root_encs_split", g.ex.read(s0, sp)):
                v = g.ex.read(s0, sp)
                g.cover("split")
                k1 = g.ex.canon(t, [r.f[0], r.f[1]])
                k2 = g.ex.canon(s0, [g.ex.read(s0, rp), g.ex.read(s0, wp)])
                g.req(t, k1 == k2, "a split stream has the halves it had", lambda: "%s\n!=\n%s" % (k1, k2))


# ------------------------------------------------------------------ C18

NONCES = ("next count", "restart", "leaves the", "nonce", "count from zero", "of the key")


@guarded
def nonces_sent(g):
    """from every state of the write half, every packet is encrypted with the nonce of the next count, under the session key; sending and
    failing to send leave the count of received packets alone"""
    g.requires.add("one call of poll_write is given less than 2 GiB (large_writes and large_packets, bounded, go beyond)")
    sent(g)


@guarded
def first_sent(g):
    """the first three operations of a write half, with nothing generalised"""
    g.limits.add("first_sent: the first three operations")
    sent(g, depth=3)


def one_sent(g, wp):
    def one(s):
        out = []
        s = s.copy()
        for t, k, _ in run_op(g, s, "write", wp, PROBE, calm=True):
            out += [u for u, k2, _ in run_op(g, t, "flush", wp, calm=True) if k == k2 == "ok"]
        for t in out:
            t.trace = []
        return out
    return one


def rewound(g, st, roots):
    """the state with what was taken from the transport taken off its content"""
    seen = set()

    def walk(x):
        if isinstance(x, Obj):
            if x.k == "AnyReader":
                return x.set(pos=0)
            return Obj(x.k, **{k: walk(v) for k, v in x.d.items()})
        if isinstance(x, Agg):
            return Agg(x.v, tuple(walk(y) for y in x.f), x.ty)
        if isinstance(x, Seq):
            return Seq([walk(y) for y in x.items])
        if isinstance(x, Cor):
            return Cor(x.ty, x.v, tuple(walk(y) for y in x.up), {k: walk(v) for k, v in x.sv.items()})
        if isinstance(x, Ptr) and not isinstance(x.a, Const) and x.a not in seen:
            seen.add(x.a)
            st.mem[x.a] = walk(st.mem.get(x.a))
        return x
    for r in roots:
        walk(r)
    return st


def one_received(g, rp, wp):
    def one(s):
        s = s.copy()
        content = s.gh[IN]
        s.gh[IN] = Rope([("i", 17, 4), ("s", "one", 0, 17)])
        out = []
        for t, k, h in read_op(g, s, rp, BIG, calm=True, packets=1):
            if k == "ok" and events(t.trace, "decrypt") and not is_sym(reader_pos(g, t, rp)) and reader_pos(g, t, rp) == 21:
                t.trace = []
                t = rewound(g, t, [rp, wp])
                t.gh[IN] = content
                out.append(t)
        return out
    return one


def sent(g, depth=None, counts=False):
    g.only = NONCES + ("session key",)
    if not counts:
        g.expect("sent")
    st = g.start()
    for s, key, rp, wp in halves(g, st):
        s.trace = []
        s.gh["dirty"] = False
        s.gh[IN] = incoming(2)

        def step(t, d):
            c0 = next_count(g, t, rp)
            out = write_ops(g, key, wp, t, d)
            for u in out:
                if events(u.trace, "encrypt"):
                    g.cover("sent")
                g.int_eq(u, next_count(g, u, rp), c0, "sending leaves the count of received packets alone")
            return out
        for s in counted(g, s, [wp, rp], one_sent(g, wp)) if counts else [s]:
            explore(g, s, [wp, rp], step, depth=depth)


def atomics(g, st, roots):
    """{address: atomic} of what is reachable from the roots"""
    out, seen, work = {}, set(), list(roots)
    while work:
        x = work.pop()
        if isinstance(x, Ptr):
            if isinstance(x.a, Const) or x.a in seen:
                continue
            seen.add(x.a)
            v = st.mem.get(x.a)
            if isinstance(v, Obj) and v.k == "atomic":
                out[x.a] = v
            else:
                work.append(v)
        elif isinstance(x, Agg):
            work += list(x.f)
        elif isinstance(x, Seq):
            work += list(x.items)
        elif isinstance(x, Cor):
            work += list(x.up) + list(x.sv.values())
        elif isinstance(x, Obj):
            work += list(x.d.values())
    return out


def counted(g, s, roots, one):
    """the states after any number c >= 1 of operations `one`, or none if they differ in more than counters. one(state) -> states. By
    induction: c = 1 is the state after one of them, and the state with c leads to the state with c + 1"""
    out = []
    for t in one(s):
        a0, a1 = atomics(g, s, roots), atomics(g, t, roots)
        moved = [a for a, o in a1.items() if a in a0 and str(o.v) != str(a0[a].v)]
        if not moved or any(not isinstance(a1[a].v, int) for a in moved):
            return []

        def at(c):
            u = t.copy()
            for a in moved:
                u.mem[a] = a1[a].set(v=norm_int((z3.Extract(a1[a].bits - 1, 0, c) if a1[a].bits < 64 else c) + (a1[a].v - 1)))
            u.trace = []
            return u
        c = z3.BitVec("before", 64)
        u = at(c)
        u.assume(z3.ULT(c, 1 << 62))
        u.assume(z3.UGE(c, 1))
        want = g.ex.canon(at(c + 1), roots, with_trace=False)
        for w in one(u):
            if g.ex.canon(w, roots, with_trace=False) == want:
                continue
            # from some counts it leads elsewhere: the least of them is the last one known to be reached
            low, high = 1, 1 << 62
            while low < high:
                mid = (low + high) // 2
                if g.ex.check(w.pc + [z3.ULE(c, mid)]) == "unsat":
                    low = mid + 1
                else:
                    high = mid
            u.assume(z3.ULE(c, low))
        out.append(u)
    return out


@guarded
def any_sent(g):
    """the first operations of a write half after any number of packets, with nothing else generalised"""
    g.limits.add("any_sent: the first two operations after any number of packets written and flushed one by one")
    sent(g, depth=2, counts=True)


@guarded
def any_received(g):
    """the first reads of a read half after any number of packets, with nothing else generalised"""
    g.limits.add("any_received: the first two reads after any number of packets read one by one")
    received(g, 5, depth=2, packets=1, counts=True)


@guarded
def nonces_received(g):
    """from every state of the read half, every packet is decrypted with the nonce of the next count, under the session key; receiving and
    failing to receive leave the count of sent packets alone"""
    received(g, NPACK)


@guarded
def first_received(g):
    """the first two reads of a read half, with nothing generalised"""
    g.limits.add("first_received: the first two reads")
    received(g, 5, depth=2, packets=1)


def received(g, npack, counts=False, **kw):
    g.only = NONCES + ("session key",)
    if not counts:
        g.expect("received")
    st = g.start()
    for s, key, rp, wp in halves(g, st):
        s.trace = []
        s.gh[IN] = incoming(npack)
        s.gh["truncates"] = True

        def step(g, key, rp, t, d, packets):
            c0 = sent_count(g, t, wp)
            out = [u for u in read_ops(g, key, rp, t, d, packets) if g.ex.check(u.pc) != "unsat"]
            for u in out:
                if events(u.trace, "decrypt"):
                    g.cover("received")
                g.int_eq(u, sent_count(g, u, wp), c0, "receiving leaves the count of sent packets alone")
            return out
        for s in counted(g, s, [wp, rp], one_received(g, rp, wp)) if counts else [s]:
            read_explore(g, s, key, rp, more=[wp], step=step, **kw)


def sent_count(g, st, wp):
    l = drain(g, st, wp)
    if not l or any(str(x[3]) != str(l[0][3]) for x in l):
        raise Undecided("counts %s" % [x[3] for x in l])
    return l[0][3]


def used(g, st, rp, wp):
    """[(state, key and nonce of the next packet sent, key and nonce of the next one received)]"""
    out = []
    for s, o, u, c, tr in drain(g, st, wp):
        e = events(tr, "encrypt")[0]
        s.trace = []
        s.gh[IN] = g.ex.rope_slice(s, L.stream_content(g.ex, s, "T"), 0, reader_pos(g, s, rp)) + incoming(1, "next")
        for t, k, h in read_op(g, s, rp, BIG, calm=True, packets=1):
            d = events(t.trace, "decrypt", "decrypt_fail")
            if d:
                out.append((t, e, d[0]))
    return out


@guarded
def key_change(g):
    """a new stream counts from zero under its key; installing a key restarts both counts at zero under that key, whatever they were"""
    g.expect("new", "changed", "changed with buffered bytes")
    st = g.start()
    for s, key, sp, rp, wp in streams(g, st):
        s.gh[IN] = Rope()
        for t, e, d in used(g, s, rp, wp):
            g.cover("new")
            for x, what in ((e, "sent"), (d, "received")):
                g.eq(t, x[1], key, "the first packet %s uses the key the stream was made with" % what)
                g.eq(t, x[2], nonce_of(0), "the packets %s of a new stream count from zero" % what)
        s.trace = []
        inp = g.ex.symbytes(s, "input")
        s2 = s.copy()
        s2.assume(z3.ULT(inp.len, 1000))
        buffered = [t for t in g.sort(g.raw(s2, "root_encs_write", [sp, CX, Ptr(Const(inp))]), False, "write")]
        for t in buffered:
            t.done, t.frames, t.trace = None, [], []
        key2 = Rope([("s", "key2", 0, 32)])
        for what, l in (("changed", [s]), ("changed with buffered bytes", buffered)):
            for t in l:
                u = generalise(g, t, [sp])
                u.gh[IN] = Rope()
                for v, _ in g.call(u, "root_enc_update", sp, key2):
                    g.cover(what)
                    for w, e, d in used(g, v, rp, wp):
                        for x, k in ((e, "sent"), (d, "received")):
                            g.eq(w, x[1], key2, "the first packet %s after a key change uses the new key" % k)
                            g.eq(w, x[2], nonce_of(0), "the packets %s after a key change restart at count zero" % k)


@guarded
def nonces_distinct(g):
    """different counts make different nonces"""
    st = g.start()
    a, b = z3.BitVec("count.a", 64), z3.BitVec("count.b", 64)
    st.assume(a != b)
    x, y = nonce_of(a), nonce_of(b)
    g.req(st, NOT(norm_bool(bv(rope_int(x, 12), 96) == bv(rope_int(y, 12), 96))), "different counts make different nonces")


@guarded
def directions(g):
    """the packets of the two directions of one connection"""
    st = g.start()
    for s, key, sp, rp, wp in streams(g, st):
        s.gh[IN] = Rope()
        for t, e, d in used(g, s, rp, wp):
            same = AND(norm_bool(z3.BoolVal(rope_same(e[1], d[1]))), NOT(rope_neq_formula(e[2], d[2])))
            g.req(t, NOT(same), "the two directions of a connection use different nonces or keys", [e[1:3], d[1:3]])


# ------------------------------------------------------------------ C19

OPENED = ("what is decrypted", "next count", "what is handed out is exactly what was decrypted", "that fails hands out nothing", "does not authenticate", "the end of the transport", "session key")
SEALED = ("what is written is exactly the packets", "packet length fits", "only the inner transport", "session key", "next count", "encrypting within")


@guarded
def sealed_packets(g):
    """from every state of the write half, what is written to the transport is length and ciphertext of packets, nothing else"""
    g.only = SEALED
    g.requires.add("one call of poll_write is given less than 2 GiB (large_writes and large_packets, bounded, go beyond)")
    g.expect(*WCOVER)
    for s, key, wp in write_start(g):
        explore(g, s, [wp], lambda t, d: write_ops(g, key, wp, t, d))


@guarded
def first_sealed(g):
    """the first three operations of a write half, with nothing generalised"""
    g.limits.add("first_sealed: the first three operations")
    g.only = SEALED
    for s, key, wp in write_start(g):
        explore(g, s, [wp], lambda t, d: write_ops(g, key, wp, t, d), depth=3)


@guarded
def opened_packets(g):
    """from every state of the read half, bytes are handed out only from packets that authenticate in sequence; one that does not is an error"""
    g.expect("not ready", "data handed out", "a packet was read", "more than there is room for", "error")
    opened(g, NPACK)


@guarded
def first_opened(g):
    """the first two reads of a read half, with nothing generalised"""
    g.limits.add("first_opened: the first two reads")
    opened(g, 5, depth=2, packets=1)


def opened(g, npack, **kw):
    g.only = OPENED
    st = g.start()
    for s, key, rp, wp in halves(g, st):
        s.trace = []
        s.gh[IN] = incoming(npack)
        s.gh["truncates"] = True
        read_explore(g, s, key, rp, **kw)


@guarded
def any_sealed(g):
    """the first operations of a write half after any number of packets, with nothing else generalised"""
    g.limits.add("any_sealed: the first two operations after any number of packets written and flushed one by one")
    g.only = SEALED
    later_writes(g)


@guarded
def any_opened(g):
    """the first reads of a read half after any number of packets, with nothing else generalised"""
    g.limits.add("any_opened: the first two reads after any number of packets read one by one")
    g.only = OPENED
    later_reads(g)


@guarded
def large_packets(g):
    """the first two operations, writes of up to three full packets included: packets that fit their length field, in sequence"""
    g.only = SEALED
    g.limits.add("large_packets: the first two operations, writes of at most three full packets")
    for s, key, wp in write_start(g):
        explore(g, s, [wp], lambda t, d: write_ops(g, key, wp, t, d, bound=3 * MAXP), depth=2)


GOALS = {
    "C17": [write_half, first_writes, any_writes, large_writes, read_half, first_reads, any_reads, delegates, first_delegates],
    "C18": [nonces_sent, first_sent, any_sent, nonces_received, first_received, any_received, key_change, nonces_distinct, directions],
    "C19": [sealed_packets, first_sealed, any_sealed, large_packets, opened_packets, first_opened, any_opened],
}
