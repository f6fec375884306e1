"""C01-C06: events and their encoding"""
from goal import *


def decoded(g, st, content, rid="r"):
    """decode an event from a reader that delivers `content`; [(state, result, reader pointer)]"""
    st.gh[("in", rid)] = content
    r = st.alloc(Obj("AnyReader", id=rid, pos=0), "reader")
    return [(s, v, r) for s, v in g.future(st, "root_decode", r, extra=[r])]


def stream_failed(s):
    """the transport itself failed on this path"""
    return any(e[0] == "read_end" and e[1] == "transport" for e in s.trace)


@guarded
def encode_then_decode(g):
    g.expect("encoded", "refused", "decoded")
    st = g.start()
    e = g.sym_event(st, "e")
    for s, v in g.view(st, e):
        for s, r in g.call(s, "root_encode", g.ex.read(s, e)):
            if r.v == 1:
                g.cover("refused")
                g.req(s, NOT(fits(v)), "encoding fails only if the header does not fit its length field")
                continue
            g.cover("encoded")
            g.req(s, fits(v), "a header that does not fit is refused")
            f = g.rope(s, r.f[0])
            rest = g.ex.symbytes(s, "rest")
            for s2, d, rd in decoded(g, s, f + rest):
                if d.v == 1:
                    if stream_failed(s2):
                        continue
                    g.fail(s2, "an encoded event decodes", g.err(s2, d.f[0]))
                    continue
                g.cover("decoded")
                ep = s2.alloc(d.f[0], "decoded")
                for s3, w in g.view(s2, ep):
                    req_view(g, s3, w, v, "decoded event")
                    g.int_eq(s3, g.ex.read(s3, rd).pos, f.len, "decoding consumes exactly the frame")


@guarded
def encode_layout(g):
    g.expect("encoded")
    st = g.start()
    e = g.sym_event(st, "e")
    for s, v in g.view(st, e):
        for s, r in g.call(s, "root_encode", g.ex.read(s, e)):
            if r.v == 1:
                g.req(s, NOT(fits(v)), "every event whose header fits its length field is encoded")
                continue
            g.cover("encoded")
            g.eq(s, g.rope(s, r.f[0]), frame_rope(v), "the bytes are the documented frame")


def be(g, st, c, off, n):
    return rope_int(g.ex.rope_slice(st, c, off, n), n)


def at(name, off, n=1):
    """big endian integer of n bytes at `off` of the symbolic content `name` as a bit vector"""
    a = base_array(name)
    o = bv(off, 64)
    bs = [z3.Select(a, o + i) for i in range(n)]
    return z3.Concat(*bs) if n > 1 else bs[0]


def z64(x):
    return z3.ZeroExt(64 - x.size(), x)


@guarded
def decoded_event(g):
    """a decoded event reports the type, the reference and the content that are on the wire"""
    old, g.only = g.only, ("in the bytes", "there is a reference id", "there is no namespace", "the payload is the bytes")
    try:
        decode_all(g)
    finally:
        g.only = old


@guarded
def decode_anything(g):
    """for every byte sequence: an error, or the event that the bytes encode"""
    decode_all(g)


def decode_all(g):
    """for every byte sequence: an error, or the event that the bytes encode"""
    g.expect("event", "error", "event with namespace", "event with reference")
    st = g.start()
    c = g.ex.symbytes(st, "in")
    n = bv(c.len, 64)
    total, hl = at("in", 0, 8), z64(at("in", 8, 2))
    H = z3.BitVecVal(10, 64)                      # the header starts here
    marker = at("in", H + 12)
    has_ref = marker == 0xFF
    p = z3.If(has_ref, H + 21, H + 13)            # namespace length
    nsl = z64(at("in", p, 2))
    q = p + 2 + nsl                               # name length
    nl = z64(at("in", q, 2))
    end = q + 2 + nl
    hend = H + hl
    u_ns = g.ex.utf8_at("in", p + 2, nsl)
    u_nm = g.ex.utf8_at("in", q + 2, nl)
    conds = {
        "the stream ends inside the frame": z3.Or(z3.ULT(n, 10), z3.ULT(n - 10, total)),
        "the total length is smaller than the header length": z3.ULT(total, hl),
        "the major version is not 0": at("in", H) != 0,
        "the event type is unknown": z3.UGT(at("in", H + 11), 3),
        "the reference marker is neither 0x00 nor 0xFF": z3.And(marker != 0, marker != 0xFF),
        "the header fields do not fit in the header length": z3.Or(z3.ULT(hl, 13), z3.And(z3.UGE(hl, 13), z3.UGT(end, hend))),
        "the namespace is not UTF-8": z3.And(nsl != 0, z3.Not(u_ns)),
        "the name is not UTF-8": z3.Not(u_nm),
    }
    valid = z3.And(*[z3.Not(x) for x in conds.values()])
    for s, d, rd in decoded(g, st, c, "r"):
        for e in s.trace:
            if e[0] == "alloc":
                g.req(s, z3.Or(z3.ULE(bv(e[1], 64), 1 << 20), z3.ULE(bv(e[1], 64), n)), "allocates no more than a megabyte or what has arrived")
        if d.v == 1:
            g.cover("error")
            if not stream_failed(s):
                g.req(s, z3.Not(valid), "a well-formed frame is not refused", g.err(s, d.f[0]))
            continue
        g.cover("event")
        for k, x in conds.items():
            g.req(s, z3.Not(x), "no event when " + k)
        ep = s.alloc(d.f[0], "decoded")
        for s, w in g.view(s, ep):
            g.int_eq(s, w.id, at("in", H + 3, 8), "the id is the one in the bytes")
            g.req(s, at("in", H + 11) == g.TYPES[w.type], "the type is the one in the bytes")
            g.req(s, has_ref if w.ref is not None else z3.Not(has_ref), "there is a reference id exactly if the marker says so")
            if w.ref is not None:
                g.cover("event with reference")
                g.int_eq(s, w.ref, at("in", H + 13, 8), "the reference id is the one in the bytes")
            if w.ns is None:
                g.req(s, nsl == 0, "there is no namespace exactly if its length is 0")
            else:
                g.cover("event with namespace")
                g.eq(s, w.ns, Rope([("s", "in", norm_int(p + 2), norm_int(nsl))]), "the namespace is the one in the bytes")
            g.eq(s, w.name, Rope([("s", "in", norm_int(q + 2), norm_int(nl))]), "the name is the one in the bytes")
            g.eq(s, w.data, Rope([("s", "in", norm_int(hend), norm_int(total - hl))]), "the payload is the bytes after the header")
            g.int_eq(s, g.ex.read(s, rd).pos, H + total, "exactly the frame is consumed")


@guarded
def longer_header(g):
    """extra header fields are skipped, whatever the minor version"""
    g.expect("decoded")
    st = g.start()
    e = g.sym_event(st, "e")
    for s, v in g.view(st, e):
        extra = g.ex.symbytes(s, "extra")
        minor, patch = z3.BitVec("minor", 8), z3.BitVec("patch", 8)
        s.assume(fits(v, extra))
        for s2, d, rd in decoded(g, s, frame_rope(v, extra, (0, minor, patch)) + g.ex.symbytes(s, "rest")):
            if d.v == 1:
                if not stream_failed(s2):
                    g.fail(s2, "a frame with extra header fields decodes", g.err(s2, d.f[0]))
                continue
            g.cover("decoded")
            ep = s2.alloc(d.f[0], "decoded")
            for s3, w in g.view(s2, ep):
                req_view(g, s3, w, v, "event with extra header fields")
                g.int_eq(s3, g.ex.read(s3, rd).pos, frame_rope(v, extra).len, "the frame is consumed with its extra fields")


@guarded
def other_major(g):
    """another major version is refused with the version received"""
    g.expect("refused")
    st = g.start()
    e = g.sym_event(st, "e")
    for s, v in g.view(st, e):
        extra = g.ex.symbytes(s, "extra")
        ver = [z3.BitVec(x, 8) for x in ("major", "minor", "patch")]
        s.assume(ver[0] != 0)
        s.assume(fits(v, extra))
        for s2, d, rd in decoded(g, s, frame_rope(v, extra, ver)):
            if d.v == 0:
                g.fail(s2, "another major version is refused")
                continue
            if stream_failed(s2):
                continue
            g.cover("refused")
            k, f = g.err(s2, d.f[0])
            g.req(s2, k == "UnsupportedVersion", "the error is an unsupported version", k)
            if k == "UnsupportedVersion":
                want = Rope()
                for i, x in enumerate(ver):
                    want = want + (rconst(b".") if i else Rope()) + L.text("dec", x)
                g.eq(s2, g.rope(s2, f[0]), want, "the error names the version received")


CONSTRUCT = [("root_initiator", "Initiator"), ("root_response", "Response"), ("root_error", "Error"), ("root_end", "End")]


@guarded
def constructors(g):
    g.expect(*[r for r, _ in CONSTRUCT])
    for root, typ in CONSTRUCT:
        st = g.start()
        nsv = g.ex.sym(st, g.ty("core::option::Option<alloc::string::String>"), "ns")
        name, data, ref = g.ex.symbytes(st, "name"), g.ex.symbytes(st, "data"), z3.BitVec("ref", 64)
        g.ex.set_utf8(st, name)
        for s, nsv in g.force(st, nsv):
            args = [nsv, name, data] + ([] if typ == "Initiator" else [ref])
            for s, e in g.call(s, root, *args):
                g.cover(root)
                ep = s.alloc(e, "event")
                for s, w in g.view(s, ep):
                    req_view(g, s, w, View(w.id, typ, None if typ == "Initiator" else ref, None if nsv.v == 0 else g.rope(s, nsv.f[0]), name, data), root, ids=False, empty_ns=False)


@guarded
def accessors(g):
    """the payload accessors see the event's data and nothing else, and pass the error on"""
    g.expect("decoded", "error", "bytes")
    st = g.start()
    e = g.sym_event(st, "e")
    for s, v in g.view(st, e):
        for s2, p in g.call(s, "root_ev_payload", e):
            calls = [x for x in s2.trace if x[0] == "from_payload"]
            g.req(s2, len(calls) == 1, "the payload is decoded once")
            for x in calls:
                g.eq(s2, x[2], v.data, "the payload is decoded from the event's data")
            if p.v == 0:
                g.cover("decoded")
                g.req(s2, isinstance(p.f[0], Obj) and p.f[0].k == "AnyFrom", "the decoded value is returned")
            else:
                g.cover("error")
                g.req(s2, isinstance(p.f[0], Obj) and p.f[0].k == "payload_error", "the error of the payload is returned")
        for s2, p in g.call(s, "root_ev_bytes", e):
            if p.v == 1:
                g.fail(s2, "the raw payload decodes")
                continue
            g.cover("bytes")
            for s3, b in g.call(s2, "root_byte_bytes", p.f[0]):
                g.eq(s3, g.rope(s3, b), v.data, "the raw payload is the event's data")


GOALS = {
    "C01": [encode_then_decode],
    "C02": [encode_layout],
    "C03": [decode_anything],
    "C04": [longer_header, other_major],
    "C06": [constructors, accessors, decoded_event],
}
