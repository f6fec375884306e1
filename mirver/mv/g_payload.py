"""C05 event ids; C14-C16 payloads"""
from goal import *
from g_codec import CONSTRUCT, at, z64

CTX = "bromine::ipc::context::Context"
SERS = {"Messagepack": (0, "rmp"), "Bincode": (1, "bincode"), "Postcard": (2, "postcard"), "Json": (3, "json")}
DYN = "bromine::events::payload_serializer::DynamicSerializer"


def context(g, st, name="ctx"):
    return st.alloc(g.ex.sym(st, g.ty(CTX), name), "ctx")


def mk_event(g, st, root, k):
    typ = dict(CONSTRUCT)[root]
    name = g.ex.symbytes(st, "name%d" % k)
    g.ex.set_utf8(st, name)
    args = [g.ex.sym(st, g.ty("core::option::Option<alloc::string::String>"), "ns%d" % k), name, g.ex.symbytes(st, "data%d" % k)]
    if typ != "Initiator":
        args.append(z3.BitVec("ref%d" % k, 64))
    return g.call(st, root, *args)


def counter_steps(g, s, since, what):
    """values taken from shared counters: every access must be one indivisible increment"""
    got = []
    for e in s.trace[since:]:
        if e[0] == "a_rmw":
            g.int_eq(s, bv(e[3], e[2].size() if is_sym(e[2]) else 64), bv(e[2], e[2].size() if is_sym(e[2]) else 64) + 1, what + ": the counter is incremented in one indivisible step", 64)
            g.req(s, not str(e[1]).startswith("tls!"), what + ": the counter is shared by all threads", e[1])
            got.append((e[1], e[2]))
        elif e[0] == "a_store":
            g.fail(s, what + ": the counter is incremented in one indivisible step", "store")
    return got


@guarded
def unique_ids(g):
    """two events, created in any order and interleaving, at any two clock readings"""
    roots = [r for r, _ in CONSTRUCT]
    g.expect(*roots)
    for r1 in roots:
        for r2 in roots:
            for s, e1 in mk_event(g, g.start(), r1, 1):
                c1 = counter_steps(g, s, 0, r1)
                g.req(s, len(c1) == 1, r1 + ": one number is drawn per event", c1)
                n = len(s.trace)
                for s2, e2 in mk_event(g, s, r2, 2):
                    c2 = counter_steps(g, s2, n, r2)
                    g.req(s2, len(c2) == 1, r2 + ": one number is drawn per event", c2)
                    if len(c1) != 1 or len(c2) != 1:
                        continue
                    g.req(s2, c1[0][0] == c2[0][0], "both numbers come from the same counter")
                    a, b = c1[0][1], c2[0][1]
                    # distinct indivisible increments of one counter return distinct numbers; fewer than 2^32 have been made
                    s2.assume(bv(a, 64) != bv(b, 64))
                    s2.assume(z3.ULT(bv(a, 64), 1 << 32))
                    s2.assume(z3.ULT(bv(b, 64), 1 << 32))
                    for s3, i1 in g.call(s2, "root_ev_id", s2.alloc(e1, "e1")):
                        for s4, i2 in g.call(s3, "root_ev_id", s3.alloc(e2, "e2")):
                            g.cover(r1)
                            g.req(s4, bv(i1, 64) != bv(i2, 64), "two events have different ids", "%s %s" % (i1, i2))


# ---------------------------------------------------------------- C14

@guarded
def raw_payload(g):
    g.expect("into", "from", "new")
    st = g.start()
    d = g.ex.symbytes(st, "d")
    c = context(g, st)
    for s, p in g.call(st, "root_byte_from_bytes", d):
        for s2, r in g.call(s, "root_byte_into", p, c):
            g.req(s2, r.v == 0, "a raw payload converts")
            if r.v == 0:
                g.cover("into")
                g.eq(s2, g.rope(s2, r.f[0]), d, "a raw payload is its bytes")
        for s2, r in g.call(s, "root_byte_bytes", p):
            g.eq(s2, g.rope(s2, r), d, "into_bytes gives the bytes")
    for s, p in g.call(st, "root_byte_new", d):
        g.cover("new")
        for s2, r in g.call(s, "root_byte_inner", p):
            g.eq(s2, g.rope(s2, r), d, "into_inner gives the bytes")
        for s2, r in g.call(s, "root_byte_into", p, c):
            g.req(s2, r.v == 0, "a raw payload converts")
            if r.v == 0:
                g.eq(s2, g.rope(s2, r.f[0]), d, "a raw payload is its bytes")
    for s, r in g.call(st, "root_byte_from", Ptr(Const(d))):
        g.req(s, r.v == 0, "raw bytes decode")
        if r.v == 0:
            g.cover("from")
            for s2, b in g.call(s, "root_byte_bytes", r.f[0]):
                g.eq(s2, g.rope(s2, b), d, "a raw payload decodes to the bytes")


def tandem_spec(a, b):
    return rint(bv(a.len, 64), 8) + a + rint(bv(b.len, 64), 8) + b


@guarded
def tandem_encode(g):
    g.expect("encoded", "first fails", "second fails")
    st = g.start()
    c = context(g, st)
    a, b = Obj("AnyPayload", id="p1"), Obj("AnyPayload", id="p2")
    for s, r in g.call(st, "root_tandem_into", a, b, c):
        parts = [e for e in s.trace if e[0] == "into_payload"]
        if r.v == 1:
            e = r.f[0]
            g.req(s, isinstance(e, Obj) and e.k == "payload_error", "the error of a part is returned", e)
            if isinstance(e, Obj) and e.k == "payload_error":
                g.cover("first fails" if e.id == "p1" else "second fails")
                g.req(s, any(x[1] == e.id for x in parts), "the error is that of a part that was converted")
            continue
        g.cover("encoded")
        g.req(s, not any(x[0] == "payload_failed" for x in s.trace), "a failing part is not ignored")
        p1, p2 = g.ex.symbytes(s, "payload(p1)"), g.ex.symbytes(s, "payload(p2)")
        g.eq(s, g.rope(s, r.f[0]), tandem_spec(p1, p2), "a tandem payload is length, bytes, length, bytes")


@guarded
def tandem_decode(g):
    g.expect("decoded", "first fails", "second fails")
    st = g.start()
    p1, p2, rest = g.ex.symbytes(st, "p1"), g.ex.symbytes(st, "p2"), g.ex.symbytes(st, "rest")
    for s, r in g.call(st, "root_tandem_from", Ptr(Const(tandem_spec(p1, p2) + rest))):
        calls = {e[1]: e[2] for e in s.trace if e[0] == "from_payload"}
        for k, w, p in (("AnyFrom", "first", p1), ("AnyFrom2", "second", p2)):
            if k in calls:
                g.eq(s, calls[k], p, "the %s part is decoded from exactly its own bytes" % w)
        if r.v == 1:
            e = r.f[0]
            g.req(s, isinstance(e, Obj) and e.k == "payload_error", "a tandem payload that was encoded decodes", e)
            if isinstance(e, Obj) and e.k == "payload_error":
                g.cover("first fails" if e.id == "AnyFrom" else "second fails")
            continue
        g.cover("decoded")
        for s2, t in g.call(s, "root_tandem_inner", r.f[0]):
            g.req(s2, [x.k for x in t.f] == ["AnyFrom", "AnyFrom2"], "the parts are returned in order")
            g.eq(s2, t.f[0].src, p1, "the first value is that of the first part")
            g.eq(s2, t.f[1].src, p2, "the second value is that of the second part")
            fails = [x for x in s2.trace if x[0] == "from_failed"]
            g.req(s2, not fails, "a failing part is not ignored")


ERR = "bromine::events::error_event::ErrorEventData"


def error_data(g, code, msg):
    t = g.m.T[g.ty(ERR)]
    vals = {"code": code, "message": msg}
    return Agg(0, [vals[f[0]] for f in t["variants"][0]["fields"]])


def error_spec(code, msg):
    return rint(code, 2) + rint(lo(msg.len, 32), 4) + msg


@guarded
def error_payload(g):
    g.expect("encoded", "refused", "decoded")
    st = g.start()
    code, msg = z3.BitVec("code", 16), g.ex.symbytes(st, "msg")
    g.ex.set_utf8(st, msg)
    c = context(g, st)
    for s, r in g.call(st, "root_err_into", error_data(g, code, msg), c):
        if r.v == 1:
            g.cover("refused")
            g.req(s, NOT(lule(msg.len, (1 << 32) - 1)), "only a message that does not fit its length field is refused")
            continue
        g.cover("encoded")
        enc = g.rope(s, r.f[0])
        g.req(s, lule(msg.len, (1 << 32) - 1), "a message that does not fit its length field is refused")
        g.eq(s, enc, error_spec(code, msg), "an error payload is code, length and message")
        for s2, d in g.call(s, "root_err_from", Ptr(Const(enc + g.ex.symbytes(s, "rest")))):
            if d.v == 1:
                g.fail(s2, "an encoded error decodes", g.err(s2, d.f[0]))
                continue
            g.cover("decoded")
            g.int_eq(s2, g.field(ERR, d.f[0], "code"), code, "the code decodes", 16)
            g.eq(s2, g.rope(s2, g.field(ERR, d.f[0], "message")), msg, "the message decodes")


# ---------------------------------------------------------------- C15

def allocs(g, s, n):
    for e in s.trace:
        if e[0] == "alloc":
            g.req(s, z3.Or(z3.ULE(bv(e[1], 64), 1 << 20), z3.ULE(bv(e[1], 64), bv(n, 64))), "allocates no more than a megabyte or what is there")


@guarded
def raw_any(g):
    g.expect("value")
    st = g.start()
    b = g.ex.symbytes(st, "b")
    for s, r in g.call(st, "root_byte_from", Ptr(Const(b))):
        g.cover("value")
        allocs(g, s, b.len)
        g.req(s, r.v == 0, "any bytes are a raw payload")


@guarded
def tandem_any(g):
    g.expect("value", "error")
    st = g.start()
    b = g.ex.symbytes(st, "b")
    n = bv(b.len, 64)
    l1 = at("b", 0, 8)
    l2 = at("b", l1 + 8, 8)
    short = z3.Or(z3.ULT(n, 8), z3.ULT(n - 8, l1), z3.ULT(n - 8 - l1, 8), z3.ULT(n - 16 - l1, l2))
    for s, r in g.call(st, "root_tandem_from", Ptr(Const(b))):
        allocs(g, s, b.len)
        if r.v == 0:
            g.cover("value")
            g.req(s, z3.Not(short), "no value from a tandem payload that ends before its lengths")
            for s2, t in g.call(s, "root_tandem_inner", r.f[0]):
                g.eq(s2, t.f[0].src, Rope([("s", "b", 8, norm_int(l1))]), "the first part is decoded from its own bytes")
                g.eq(s2, t.f[1].src, Rope([("s", "b", norm_int(l1 + 16), norm_int(l2))]), "the second part is decoded from its own bytes")
        else:
            g.cover("error")
            e = r.f[0]
            if not (isinstance(e, Obj) and e.k == "payload_error"):
                g.req(s, short, "only a truncated tandem payload is refused", e)


@guarded
def error_any(g):
    g.expect("value", "error")
    st = g.start()
    b = g.ex.symbytes(st, "b")
    n = bv(b.len, 64)
    ln = z64(at("b", 2, 4))
    bad = z3.Or(z3.ULT(n, 6), z3.ULT(n - 6, ln), z3.Not(g.ex.utf8_at("b", z3.BitVecVal(6, 64), ln)))
    for s, r in g.call(st, "root_err_from", Ptr(Const(b))):
        allocs(g, s, b.len)
        if r.v == 0:
            g.cover("value")
            g.req(s, z3.Not(bad), "no value from a truncated or non UTF-8 error payload")
            g.int_eq(s, g.field(ERR, r.f[0], "code"), at("b", 0, 2), "the code is the one in the bytes", 16)
            g.eq(s, g.rope(s, g.field(ERR, r.f[0], "message")), Rope([("s", "b", 6, norm_int(ln))]), "the message is the one in the bytes")
        else:
            g.cover("error")
            g.req(s, bad, "only a truncated or non UTF-8 error payload is refused", g.err(s, r.f[0]))


@guarded
def serde_any(g):
    g.expect("value", "error")
    for root in ("root_serde_from", "root_serde_value"):
        st = g.start()
        b = g.ex.symbytes(st, "b")
        for s, r in g.call(st, root, Ptr(Const(b))):
            allocs(g, s, b.len)
            g.cover("value" if r.v == 0 else "error")


# ---------------------------------------------------------------- C16

def formats(g):
    """the formats compiled in: those the crate has the contracts of its encoders for"""
    return g.m.features


def first(fs):
    return [k for k in SERS if k in fs][0]


def dyn(g, name):
    vs = [v["name"] for v in g.m.T[g.ty(DYN)]["variants"]]
    return Agg(vs.index(name), ())


def data():
    return Obj("AnyData", id="d")


def ser_rope(k, ident="d"):
    return rconst(bytes([SERS[k][0]])) + Rope([("t", ("ser", SERS[k][1], ident), z3.BitVec("serlen(%s,%s)" % (SERS[k][1], ident), 64))])


@guarded
def serialize(g):
    fs = formats(g)
    g.expect(*["serialized " + k for k in fs])
    for k in SERS:
        st = g.start()
        c = context(g, st)
        for root, args in (("root_serde_into", (dyn(g, k), data(), c)), ("root_serde_clone", (dyn(g, k), data(), c)), ("root_serde_try", (dyn(g, k), data()))):
            for s, r in g.call(st, root, *args):
                tried = [e for e in s.trace if e[0] == "serialize"]
                if k not in fs:
                    g.req(s, r.v == 1, "serializing with a format that is not compiled in fails", k)
                    if r.v == 1:
                        g.req(s, g.err(s, r.f[0])[0] == "Serialization", "the error is a serialization error")
                    continue
                if r.v == 1:
                    g.req(s, g.err(s, r.f[0])[0] == "Serialization" and any(e[0] == "ser_failed" for e in s.trace), "serializing fails only if the format's encoder fails", r.f[0])
                    continue
                g.cover("serialized " + k)
                g.eq(s, g.rope(s, r.f[0]), ser_rope(k), "format byte and encoding of " + k)


@guarded
def deserialize(g):
    fs = formats(g)
    g.expect("unknown", *["decoded " + k for k in fs])
    for root in ("root_serde_from", "root_serde_value"):
        st = g.start()
        b = g.ex.symbytes(st, "b")
        f = at("b", 0)
        for s, r in g.call(st, root, Ptr(Const(b))):
            used = [e for e in s.trace if e[0] == "deserialize"]
            for e in used:
                k = [x for x in SERS if SERS[x][1] == e[1]]
                g.req(s, len(k) == 1 and norm_bool(f == SERS[k[0]][0]), "the format is the one the first byte names", e[1])
                g.eq(s, e[2], g.ex.rope_slice(s, b, 1, lsub(b.len, 1)), "the value is decoded from the bytes after the format byte")
            if r.v == 1:
                k = g.err(s, r.f[0])[0]
                if not used:
                    g.cover("unknown")
                    g.req(s, z3.Or(bv(b.len, 64) == 0, z3.Not(z3.Or(*[f == SERS[x][0] for x in fs]))), "a payload in an available format is not refused", k)
                else:
                    g.req(s, k == "Serialization", "the decoder's error is returned", k)
                continue
            g.req(s, len(used) == 1, "the value comes from one decoder")
            if used:
                g.cover("decoded " + [x for x in SERS if SERS[x][1] == used[0][1]][0])
            if root == "root_serde_from":
                for s2, d in g.call(s, "root_serde_data", r.f[0]):
                    g.req(s2, d.k == "AnyData" and d.d.get("fmt") == used[0][1], "the decoded value is returned")
            else:
                g.req(s, r.f[0].k == "AnyData" and r.f[0].d.get("fmt") == used[0][1], "the decoded value is returned")


@guarded
def default_serializer(g):
    """a value passed to emit is serialized with the context's default"""
    fs = formats(g)
    g.expect(*["by default " + k for k in fs])
    for k in fs:
        for root in ("root_serde_default", "root_serde_create"):
            st = g.start()
            cv = g.ex.sym(st, g.ty(CTX), "ctx")
            i = g.fpath(CTX, "default_serializer")
            c = st.alloc(Agg(0, [dyn(g, k) if j == i else x for j, x in enumerate(cv.f)]), "ctx")
            for s, r in g.call(st, root, data(), c):
                if r.v == 1:
                    g.req(s, any(e[0] == "ser_failed" for e in s.trace), "serializing fails only if the format's encoder fails")
                    continue
                g.cover("by default " + k)
                g.eq(s, g.rope(s, r.f[0]), ser_rope(k), "the context's default serializer is used")
    st = g.start()
    for s, v in g.call(st, "root_serde_first"):
        g.req(s, g.vname(g.ty(DYN), v.v) == first(fs), "without configuration the first compiled in format is the default", v)


@guarded
def format_numbers(g):
    fs = formats(g)
    g.expect("known", "unknown")
    st = g.start()
    n = z3.BitVec("n", 64)
    for s, r in g.call(st, "root_serde_prim", n):
        if r.v == 0:
            g.cover("known")
            k = g.vname(g.ty(DYN), r.f[0].v)
            g.req(s, k in fs and norm_bool(n == SERS[k][0]), "the number names the format", k)
        else:
            g.cover("unknown")
            g.req(s, z3.Not(z3.Or(*[n == SERS[x][0] for x in fs])), "only unknown or unavailable formats are refused")


GOALS = {
    "C05": [unique_ids],
    "C14": [raw_payload, tandem_encode, tandem_decode, error_payload],
    "C15": [raw_any, tandem_any, error_any, serde_any],
    "C16": [serialize, deserialize, default_serializer, format_numbers],
}
