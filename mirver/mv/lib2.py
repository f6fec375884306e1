"""Further library contracts: the parts of std the code under verification does not use today, but a changed version of it may.
Checked against the real library by the conformance runs (roots/src/conform.rs)."""
import re
import z3
from vals import *
from core import Undecided, Panic, INT_BITS, Fork, PUSHED
from lib import (c, res, Some, Ok, Err, NONE, rope_of, cont_of, slice_ptr, _through, do_index, seqm, text, rope_eq_atom, iter_item, vec_from_iter, opt, u8ty, _len, is_unbounded, unbounded_next, symvec_len, iter_next)

SLICE = "core::slice::<impl [T]>::"
STR = "core::str::<impl str>::"
ITERS = ["<core::slice::iter::Iter<'a, T> as core::iter::traits::%s>::%s", "<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::%s>::%s",
         "<core::array::iter::IntoIter<T, N> as core::iter::traits::%s>::%s", "<core::slice::iter::IterMut<'a, T> as core::iter::traits::%s>::%s",
         "<core::slice::iter::Iter<'_, T> as core::iter::traits::%s>::%s", "<core::slice::iter::IterMut<'_, T> as core::iter::traits::%s>::%s"]


def its(m, tr="iterator::Iterator"):
    return [x % (tr, m) for x in ITERS]


def base_of(ex, st, p):
    b = Ptr(*_through(ex, st, p))
    off = b.m[1] if b.m and b.m[0] == "sl" else 0
    return b, off, ex.seq_len(st, b)


def sub(ex, st, b, off, lo, n, mut=False):
    """the part of the slice at b that begins at lo (relative to the slice) and has n elements"""
    v = ex.load(st, b.a, b.p)
    if isinstance(v, Rope) and not mut:
        return Ptr(Const(ex.rope_slice(st, v, ladd(lo, off), n)))
    return Ptr(b.a, b.p, ("sl", ladd(lo, off), n))


# ==================================================================== boxes under construction (vec![..])

@c("alloc::boxed::Box::<T>::new_uninit")
def new_uninit(ex, st, a):
    return st.alloc(None, "box")


@c("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::<impl [T]>::into_vec")
def into_vec(ex, st, a):
    v = a.args[0]
    return ex.read(st, v) if isinstance(v, Ptr) else v


# ==================================================================== slices

@c(SLICE + "last", SLICE + "last_mut", SLICE + "first_mut")
def slice_last(ex, st, a):
    b, off, n = base_of(ex, st, a.args[0])
    z, nz = ex.split(st, leq(n, 0))
    i = 0 if "first" in a.path else lsub(n, 1)
    return res((z, NONE), (nz, Some(Ptr(b.a, b.p + (("e", ladd(off, i)),)))))


@c(SLICE + "get_mut")
def slice_get_mut(ex, st, a):
    ok, bad, mk = do_index(ex, st, a.args[0], a.args[1], a.inst["args"][-1], True)
    return ([(ok, Some(mk(ok)))] if ok is not None else []) + ([(bad, NONE)] if bad is not None else [])


@c(SLICE + "split_at", SLICE + "split_at_mut", STR + "split_at", SLICE + "split_at_checked", SLICE + "split_at_mut_checked")
def split_at(ex, st, a):
    b, off, n = base_of(ex, st, a.args[0])
    k = a.args[1]
    ok, bad = ex.split(st, lule(k, n))
    out = []
    mut = "_mut" in a.path
    chk = a.path.endswith("checked")
    if a.path.startswith(STR) and ok is not None:
        raise Undecided("str::split_at")
    if ok is not None:
        v = Agg(0, (sub(ex, ok, b, off, 0, k, mut), sub(ex, ok, b, off, k, lsub(n, k), mut)))
        out.append((ok, Some(v) if chk else v))
    if bad is not None:
        out.append((bad, NONE if chk else Panic("split_at: out of bounds")))
    return out


@c(SLICE + "split_first", SLICE + "split_last")
def split_first(ex, st, a):
    b, off, n = base_of(ex, st, a.args[0])
    z, nz = ex.split(st, leq(n, 0))
    out = [(z, NONE)] if z is not None else []
    if nz is not None:
        last = a.path.endswith("last")
        i = lsub(n, 1) if last else 0
        out.append((nz, Some(Agg(0, (Ptr(b.a, b.p + (("e", ladd(off, i)),)), sub(ex, nz, b, off, 0 if last else 1, lsub(n, 1)))))))
    return out


@c(SLICE + "first_chunk", SLICE + "split_first_chunk", SLICE + "last_chunk")
def first_chunk(ex, st, a):
    g = re.search(r"\[[^;]+; (\d+)", ex.m.tn(a.retty) if getattr(a, "retty", None) is not None else "")
    raise Undecided("no contract for %s" % a.path)


@c(SLICE + "starts_with", SLICE + "ends_with")
def starts_with(ex, st, a):
    x, y = rope_of(ex, st, a.args[0]), rope_of(ex, st, a.args[1])
    return prefix(ex, st, x, y, a.path.endswith("ends_with"))


def prefix(ex, st, x, y, end):
    ok, bad = ex.split(st, lule(y.len, x.len))
    out = []
    if ok is not None:
        out.append((ok, rope_eq_atom(ex, ok, ex.rope_slice(ok, x, lsub(x.len, y.len) if end else 0, y.len), y)))
    if bad is not None:
        out.append((bad, False))
    return out


@c(SLICE + "fill")
def fill(ex, st, a):
    b, off, n = base_of(ex, st, a.args[0])
    v = ex.load(st, b.a, b.p)
    if isinstance(v, Rope):
        ex.write(st, b, Rope([("f", a.args[1], n)]))
    elif isinstance(n, int):
        ex.write(st, b, Seq([a.args[1]] * n))
    else:
        raise Undecided("fill")
    return UNIT


@c(SLICE + "reverse")
def reverse(ex, st, a):
    b, off, n = base_of(ex, st, a.args[0])
    v = ex.read(st, b)
    if not isinstance(n, int) or n > 256:
        raise Undecided("reverse of a slice of unknown length")
    if isinstance(v, Rope):
        ex.write(st, b, Rope([("i", bv(rope_byte(v, i), 8), 1) for i in reversed(range(n))]))
    else:
        ex.write(st, b, Seq(reversed(v.items)))
    return UNIT


@c(SLICE + "swap")
def swap(ex, st, a):
    b, off, n = base_of(ex, st, a.args[0])
    i, j = a.args[1], a.args[2]
    ok, bad = ex.split(st, AND(lult(i, n), lult(j, n)))
    if ok is not None:
        p, q = Ptr(b.a, b.p + (("e", ladd(off, i)),)), Ptr(b.a, b.p + (("e", ladd(off, j)),))
        x, y = ex.read(ok, p), ex.read(ok, q)
        ex.write(ok, p, y)
        ex.write(ok, q, x)
    return res((ok, UNIT), (bad, Panic("swap: index out of bounds")))


@c(SLICE + "chunks", SLICE + "chunks_exact", SLICE + "windows")
def chunks(ex, st, a):
    b, off, n = base_of(ex, st, a.args[0])
    k = a.args[1]
    z, nz = ex.split(st, leq(k, 0))
    out = [(z, Panic("chunks of size 0"))] if z is not None else []
    if nz is not None:
        kind = a.path.rsplit("::", 1)[1]
        out.append((nz, Obj("chunks", base=b, off=off, i=0, n=n, step=k, kind=kind)))
    return out


@c("<core::slice::iter::Chunks<'a, T> as core::iter::traits::iterator::Iterator>::next", "<core::slice::iter::ChunksExact<'a, T> as core::iter::traits::iterator::Iterator>::next",
   "<core::slice::iter::Windows<'a, T> as core::iter::traits::iterator::Iterator>::next")
def chunks_next(ex, st, a):
    o = ex.read(st, a.args[0])
    left = lsub(o.n, o.i)
    if o.d.get("turns", 0) >= 3 and not (isinstance(left, int) and isinstance(o.step, int)):
        raise Undecided("more than three pieces of something of unknown length")
    if o.kind == "chunks":
        end, more = ex.split(st, leq(left, 0))
    else:
        end, more = ex.split(st, lult(left, o.step))
    out = [(end, NONE)] if end is not None else []
    if more is not None:
        full, part = ex.split(more, lule(o.step, left))
        for s, m in ((full, o.step), (part, left)):
            if s is not None:
                ex.write(s, a.args[0], o.set(i=ladd(o.i, 1 if o.kind == "windows" else m), turns=o.d.get("turns", 0) + 1))
                out.append((s, Some(sub(ex, s, o.base, o.off, o.i, m))))
    return out


@c("<core::slice::iter::Chunks<'a, T> as core::iter::traits::collect::IntoIterator>::into_iter")
def chunks_self(ex, st, a):
    return a.args[0]


def lex(ex, x, y, bits):
    """(less, equal) of two integers"""
    return norm_bool(z3.ULT(bv(x, bits), bv(y, bits))), norm_bool(bv(x, bits) == bv(y, bits))


def bytes_less(ex, st, x, y):
    """(x < y, x == y) of byte contents"""
    if x.const() is not None and y.const() is not None:
        return x.const() < y.const(), x.const() == y.const()
    raise Undecided("order of byte strings")





def ordering(ex, st, a, lt, eq, op):
    """outcome of a comparison operator; `cmp` gives core::cmp::Ordering (variants Less, Equal, Greater)"""
    lt, eq = norm_bool(zb(lt)), norm_bool(zb(eq))
    if op == "lt":
        return lt
    if op == "le":
        return OR(lt, eq)
    if op == "ge":
        return NOT(lt)
    if op == "gt":
        return AND(NOT(lt), NOT(eq))
    L, r = ex.split(st, lt)
    E, G = ex.split(r, eq) if r is not None else (None, None)
    w = Some if op == "partial_cmp" else (lambda v: v)
    return res((L, w(Agg(0, ()))), (E, w(Agg(1, ()))), (G, w(Agg(2, ()))))


@c("*core::cmp::Partial Ord*")
def _never(ex, st, a):
    raise Undecided(a.path)


def _deref(ex, st, v):
    for _ in range(8):
        if isinstance(v, Ptr):
            v = ex.read(st, v)
    return v


@c("core::slice::cmp::<impl core::cmp::PartialOrd for [T]>::*", "core::slice::cmp::<impl core::cmp::Ord for [T]>::*", "core::str::traits::<impl core::cmp::PartialOrd for str>::*",
   "core::str::traits::<impl core::cmp::Ord for str>::*", "<alloc::string::String as core::cmp::PartialOrd>::*", "<alloc::string::String as core::cmp::Ord>::*", "<alloc::vec::Vec<T, A*> as core::cmp::PartialOrd*>::*")
def seq_cmp(ex, st, a):
    x, y = rope_of(ex, st, a.args[0]), rope_of(ex, st, a.args[1])
    lt, eq = bytes_less(ex, st, x, y)
    return ordering(ex, st, a, lt, eq, a.path.rsplit("::", 1)[1])


# ==================================================================== vectors

@c("alloc::vec::Vec::<T, A>::insert")
def vec_insert(ex, st, a):
    p, i, x = a.args
    v = ex.read(st, p)
    if isinstance(v, Rope):
        ok, bad = ex.split(st, lule(i, v.len))
        if ok is not None:
            new = ex.rope_slice(ok, v, 0, i) + Rope([("i", bv(x, 8), 1)]) + ex.rope_slice(ok, v, i, lsub(v.len, i))
            ex.write(ok, p, new)
    elif isinstance(v, Seq) and isinstance(i, int):
        ok, bad = (st, None) if i <= len(v.items) else (None, st)
        if ok is not None:
            ex.write(ok, p, Seq(v.items[:i] + (x,) + v.items[i:]))
    else:
        raise Undecided("insert into %r" % (v,))
    return res((ok, UNIT), (bad, Panic("insert: index out of bounds")))


@c("alloc::vec::Vec::<T, A>::remove", "alloc::vec::Vec::<T, A>::swap_remove")
def vec_remove(ex, st, a):
    p, i = a.args
    v = ex.read(st, p)
    sw = a.path.endswith("swap_remove")
    if isinstance(v, Rope):
        ok, bad = ex.split(st, lult(i, v.len))
        out = [(bad, Panic("remove: index out of bounds"))] if bad is not None else []
        if ok is not None:
            x = rope_byte(v, i)
            n1 = lsub(v.len, 1)
            if sw:
                raise Undecided("swap_remove")
            ex.write(ok, p, ex.rope_slice(ok, v, 0, i) + ex.rope_slice(ok, v, ladd(i, 1), lsub(n1, i)))
            out.append((ok, x))
        return out
    if isinstance(v, Seq) and isinstance(i, int):
        if i >= len(v.items):
            return Panic("remove: index out of bounds")
        items = list(v.items)
        x = items[i]
        if sw:
            items[i] = items[-1]
            items.pop()
        else:
            items.pop(i)
        ex.write(st, p, Seq(items))
        return x
    raise Undecided("remove from %r" % (v,))


@c("alloc::vec::Vec::<T, A>::append")
def vec_append(ex, st, a):
    p, q = a.args
    v, w = ex.read(st, p), cont_of(ex, st, a.args[1])
    q = Ptr(*_through(ex, st, q))
    if isinstance(v, Rope) and isinstance(w, Rope):
        ex.write(st, p, v + w)
        ex.write(st, q, Rope())
    elif isinstance(v, Seq) and isinstance(w, Seq):
        ex.write(st, p, Seq(v.items + w.items))
        ex.write(st, q, Seq(()))
    else:
        raise Undecided("append")
    return UNIT


@c("alloc::vec::Vec::<T, A>::drain", "bytes::bytes_mut::BytesMut::drain", "alloc::string::String::drain")
def vec_drain(ex, st, a):
    from lib import range_of
    p = Ptr(*_through(ex, st, a.args[0]))
    v = ex.read(st, p)
    n = v.len if isinstance(v, Rope) else len(v.items)
    rg = range_of(ex, st, a.args[1], a.argtys[1] if a.argtys else a.inst["args"][-1], n)
    if rg is None:
        raise Undecided("drain")
    s0, e0 = rg
    ok, bad = ex.split(st, AND(lule(s0, e0), lule(e0, n)))
    out = [(bad, Panic("drain: range out of bounds"))] if bad is not None else []
    if ok is not None:
        if isinstance(v, Rope):
            src = ex.rope_slice(ok, v, s0, lsub(e0, s0))
            ex.write(ok, p, ex.rope_slice(ok, v, 0, s0) + ex.rope_slice(ok, v, e0, lsub(n, e0)))
            m = src.len
        else:
            if not (isinstance(s0, int) and isinstance(e0, int)):
                raise Undecided("drain")
            src = Seq(v.items[s0:e0])
            ex.write(ok, p, Seq(v.items[:s0] + v.items[e0:]))
            m = len(src.items)
        # the range leaves the vector at once; nobody can look at it before the iterator is gone
        out.append((ok, Obj("iter", src=src, i=0, n=m, by="val")))
    return out


@c("bytes::bytes::Bytes::slice")
def bytes_slice(ex, st, a):
    from lib import range_of
    v = rope_of(ex, st, a.args[0])
    rg = range_of(ex, st, a.args[1], a.argtys[1] if a.argtys else a.inst["args"][-1], v.len)
    if rg is None:
        raise Undecided("Bytes::slice")
    s0, e0 = rg
    ok, bad = ex.split(st, AND(lule(s0, e0), lule(e0, v.len)))
    return res((ok, ex.rope_slice(ok, v, s0, lsub(e0, s0)) if ok is not None else None), (bad, Panic("slice out of bounds")))


# ==================================================================== iterators

def iter_obj(ex, st, v):
    o = _deref(ex, st, v)
    if isinstance(o, Obj) and o.k == "iter":
        return o
    raise Undecided("iterator %r" % (o,))


def known(o):
    if not isinstance(o.n, int):
        raise Undecided("iteration over a container of unknown length")
    return o


@c(*its("next_back", "double_ended::DoubleEndedIterator"), "<alloc::vec::drain::Drain<'_, T, A> as core::iter::traits::double_ended::DoubleEndedIterator>::next_back")
def next_back(ex, st, a):
    if is_unbounded(ex, st, iter_obj(ex, st, a.args[0])):
        # the elements are arbitrary, and so is their order
        return iter_next(ex, st, a)
    o = known(iter_obj(ex, st, a.args[0]))
    if o.i >= o.n:
        return NONE
    ex.write(st, a.args[0], o.set(n=o.n - 1))
    return Some(iter_item(ex, st, o, o.n - 1))


@c("<core::slice::iter::IterMut<'a, T> as core::iter::traits::iterator::Iterator>::next", "<alloc::vec::drain::Drain<'_, T, A> as core::iter::traits::iterator::Iterator>::next",
   "<core::slice::iter::IterMut<'_, T> as core::iter::traits::iterator::Iterator>::next")
def iter_next2(ex, st, a):
    o = known(iter_obj(ex, st, a.args[0]))
    if o.i >= o.n:
        return NONE
    ex.write(st, a.args[0], o.set(i=o.i + 1))
    return Some(iter_item(ex, st, o, o.i))


@c(*its("nth"))
def iter_nth(ex, st, a):
    if is_unbounded(ex, st, iter_obj(ex, st, a.args[0])) and isinstance(a.args[1], int) and a.args[1] <= 4:
        def turns(s, o, k):
            out = []
            for s2, o2, x in unbounded_next(ex, s, o, (a.args[0], k)):
                if x is not None and k > 0:
                    out += turns(s2, o2, k - 1)
                else:
                    ex.write(s2, a.args[0], o2)
                    out.append((s2, NONE if x is None else Some(x)))
            return out
        return turns(st, iter_obj(ex, st, a.args[0]), a.args[1])
    o = known(iter_obj(ex, st, a.args[0]))
    k = a.args[1]
    if not isinstance(k, int):
        raise Undecided("nth")
    i = min(o.i + k, o.n)
    ex.write(st, a.args[0], o.set(i=min(i + 1, o.n)))
    return Some(iter_item(ex, st, o, i)) if i < o.n else NONE


@c(*its("advance_by"))
def iter_adv(ex, st, a):
    o = known(iter_obj(ex, st, a.args[0]))
    k = a.args[1]
    if not isinstance(k, int):
        raise Undecided("advance_by")
    m = min(k, o.n - o.i)
    ex.write(st, a.args[0], o.set(i=o.i + m))
    return Ok() if m == k else Err(k - m)


@c(*its("last"))
def iter_last(ex, st, a):
    o = known(a.args[0])
    return Some(iter_item(ex, st, o, o.n - 1)) if o.i < o.n else NONE


@c(*its("count"))
def iter_count(ex, st, a):
    o = a.args[0]
    return lsub(o.n, o.i)


@c(*its("size_hint"))
def iter_hint(ex, st, a):
    o = iter_obj(ex, st, a.args[0])
    n = lsub(known(o).n, o.i)
    return Agg(0, (n, Some(n)))


@c(*its("is_empty", "exact_size::ExactSizeIterator"))
def iter_is_empty(ex, st, a):
    o = iter_obj(ex, st, a.args[0])
    return leq(o.n, o.i)


@c("core::slice::iter::Iter::<'a, T>::as_slice")
def iter_slice(ex, st, a):
    o = iter_obj(ex, st, a.args[0])
    b, off, n = base_of(ex, st, o.src)
    return sub(ex, st, b, off, o.i, lsub(o.n, o.i))


@c(*its("__iterator_get_unchecked"))
def iter_unchecked(ex, st, a):
    o = known(iter_obj(ex, st, a.args[0]))
    if not isinstance(a.args[1], int):
        raise Undecided("zip")
    return iter_item(ex, st, o, o.i + a.args[1])


@c(*(its("any") + its("all") + its("find") + its("position") + its("find_map") + its("rposition")))
def iter_search(ex, st, a):
    p, f = a.args
    o = iter_obj(ex, st, p)
    op = a.path.rsplit("::", 1)[1]
    fp = st.alloc(f, "clos") if not isinstance(f, FnV) else f
    if o.n is None:
        return unbounded_search(ex, st, p, o, op, fp)
    known(o)
    idx = list(range(o.i, o.n))
    if op == "rposition":
        idx.reverse()

    if op in ("any", "all") and len(idx) > 4:
        return iter_bools(ex, st, p, o, idx, fp, op, lambda ex, s: step(0)(ex, s))

    def step(j):
        if j >= len(idx):
            return lambda ex, s: finish(ex, s, None, None)

        def go(ex, s):
            it = iter_item(ex, s, o, idx[j])
            arg = s.alloc(it, "r") if op == "find" else it
            return ex.call_closure(s, fp, [arg], cont)

        def cont(ex, s, r):
            if op == "find_map":
                if not isinstance(r, Agg):
                    r = Agg(ex.variant(s, r), (ex.proj(s, r, 0),)) if ex.variant(s, r) == 1 else NONE
                if r.v == 1:
                    return finish(ex, s, idx[j], r)
                return step(j + 1)(ex, s)
            hit, no = ex.split(s, r if op != "all" else NOT(r))
            out = []
            if hit is not None and no is not None:
                raise Fork([lambda q: q.assume(r if op != "all" else NOT(r)), lambda q: q.assume(NOT(r) if op != "all" else r)])
            return finish(ex, s, idx[j], None) if hit is not None else step(j + 1)(ex, s)
        return go

    def finish(ex, s, i, r):
        if isinstance(p, Ptr):
            cur = ex.read(s, p)
            if isinstance(cur, Obj) and cur.k == "iter" and op != "rposition":
                ex.write(s, p, cur.set(i=o.n if i is None else i + 1))
        if op in ("any", "all"):
            return (op == "any") == (i is not None)
        if i is None:
            return NONE
        if op == "find":
            return Some(iter_item(ex, s, o, i))
        if op == "find_map":
            return r
        return Some(i - o.i)
    return step(0)(ex, st)


def unbounded_search(ex, st, p, o, op, fp):
    """any, all, find and find_map over a container of any length, element by element as far as it makes a difference"""
    if not is_unbounded(ex, st, o) or op not in ("any", "all", "find", "find_map", "position", "rposition"):
        raise Undecided("iteration over a container of unknown length")

    def finish(ex, s, o2, x, r):
        if isinstance(p, Ptr):
            cur = ex.read(s, p)
            if isinstance(cur, Obj) and cur.k == "iter":
                ex.write(s, p, o2)
        if op in ("any", "all"):
            return (op == "any") == (x is not None)
        if x is None:
            return NONE
        if op in ("position", "rposition"):
            i = z3.BitVec(s.fresh("position"), 64)
            v = ex.read(s, o2.src)
            if v.k == "symvec":
                s.assume(z3.ULT(i, symvec_len(v)))
            return Some(i)
        return Some(x) if op == "find" else r

    def step(ex, s0, o1):
        out = []
        for s, o2, x in unbounded_next(ex, s0, o1, (fp,)):
            if x is None:
                out.append((s, finish(ex, s, o2, None, None)))
                continue
            arg = s.alloc(x, "r") if op == "find" else x
            q = ex.call_closure(s, fp, [arg], cont(o2, x))
            out += [(s, q)] if not isinstance(q, list) else q
        return out

    def cont(o2, x):
        def k(ex, s, r):
            if op == "find_map":
                if not isinstance(r, Agg):
                    r = Agg(ex.variant(s, r), (ex.proj(s, r, 0),)) if ex.variant(s, r) == 1 else NONE
                return finish(ex, s, o2, x, r) if r.v == 1 else step(ex, s, o2)
            hit, no = ex.split(s, r if op != "all" else NOT(r))
            out = []
            if hit is not None:
                out.append((hit, finish(ex, hit, o2, x, None)))
            if no is not None:
                out += step(ex, no, o2)
            return out
        return k
    return step(ex, st, o)


def iter_bools(ex, st, p, o, idx, fp, op, split):
    """any and all of a closure without effects: one formula instead of a path for each element. split: element by element, when the closure
    turns out to branch or to have effects"""
    s0 = st.copy()

    def same(s):
        return len(s.pc) == len(st.pc) and s.trace == st.trace and all(s.mem.get(k) is v for k, v in st.mem.items() if k != p.a)

    def step(j, acc):
        def cont(ex, s, r):
            if j >= 0:
                if not same(s) or not isinstance(r, (bool, z3.BoolRef)):
                    c = s0.copy()
                    for k in c.__slots__:
                        setattr(s, k, getattr(c, k))
                    return split(ex, s)
                acc2 = acc + [r]
            else:
                acc2 = acc
            if j + 1 == len(idx):
                if isinstance(p, Ptr):
                    ex.write(s, p, o.set(n=None, src=None))
                return OR(*acc2) if op == "any" else AND(*acc2)
            return ex.call_closure(s, fp, [iter_item(ex, s, o, idx[j + 1])], step(j + 1, acc2))
        return cont
    return step(-1, [])(ex, st, None)


@c("<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::try_fold", "<alloc::vec::into_iter::IntoIter<T, A> as core::iter::traits::iterator::Iterator>::try_for_each")
def into_iter_try_fold(ex, st, a):
    """element by element until the closure's result is not a Continue, an Ok or a Some"""
    p, f = a.args[0], a.args[-1]
    each = a.path.endswith("try_for_each")
    name = ex.m.T[a.destty]["path"] if a.destty is not None else ""
    go = {"core::ops::control_flow::ControlFlow": 0, "core::result::Result": 0, "core::option::Option": 1}.get(name)
    if go is None:
        raise Undecided("try_fold to %s" % name)
    fp = st.alloc(f, "clos") if not isinstance(f, FnV) else f

    def turn(ex, s, acc):
        o = iter_obj(ex, s, p)
        if is_unbounded(ex, s, o):
            nx = unbounded_next(ex, s, o, (fp, acc, p))
        else:
            known(o)
            nx = [(s, o, None)] if o.i >= o.n else [(s, o.set(i=o.i + 1), iter_item(ex, s, o, o.i))]
        out = []
        for s2, o2, x in nx:
            ex.write(s2, p, o2)
            if x is None:
                out.append((s2, Agg(go, (acc,))))
                continue
            q = ex.call_closure(s2, fp, ([] if each else [acc]) + [x], after)
            out += q if isinstance(q, list) else [(s2, q)]
        return out

    def after(ex, s, r):
        if not isinstance(r, Agg):
            r = Agg(ex.variant(s, r), (ex.proj(s, r, 0),))
        return turn(ex, s, r.f[0] if r.f else UNIT) if r.v == go else r
    return turn(ex, st, UNIT if each else a.args[1])


@c(*its("for_each"))
def iter_for_each(ex, st, a):
    o, f = a.args
    known(o)
    fp = st.alloc(f, "clos") if not isinstance(f, FnV) else f

    def step(i):
        def cont(ex, s, _):
            if i >= o.n:
                return UNIT
            return ex.call_closure(s, fp, [iter_item(ex, s, o, i)], step(i + 1))
        return cont
    return step(o.i)(ex, st, None)


def is_many(x):
    return isinstance(x, Obj) and x.k == "many"


def items(ex, st, it, ty, k):
    """the elements of an iterator value of type ty (adapters over containers of known length), then k(ex, st, elements)"""
    if isinstance(it, Obj) and it.k == "iter":
        if it.by == "val" and isinstance(it.src, Obj) and it.src.k == "seqm" and it.i == 0:
            return k(ex, st, [it.src.many] + list(it.src.items))
        known(it)
        return k(ex, st, [iter_item(ex, st, it, i) for i in range(it.i, it.n)])
    t = ex.m.T[ty]
    p = t.get("path", "")
    args = t.get("args", [])
    if p == "core::ops::range::Range" and isinstance(it, Agg) and isinstance(it.f[0], int) and isinstance(it.f[1], int):
        return k(ex, st, list(range(it.f[0], it.f[1])))
    if not isinstance(it, Agg) or not p.startswith("core::iter::adapters::"):
        raise Undecided("collect of %s" % t["name"])
    kind = p.rsplit("::", 1)[1]
    inner, ity = it.f[0], args[0]
    if kind not in ("Rev", "Map"):
        k0 = k

        def k(ex, s, l):
            if any(is_many(x) for x in l):
                raise Undecided("collect of %s of any length" % t["name"])
            return k0(ex, s, l)
    if kind in ("Copied", "Cloned"):
        return items(ex, st, inner, ity, lambda ex, s, l: k(ex, s, [_deref1(ex, s, x) for x in l]))
    if kind == "Rev":
        return items(ex, st, inner, ity, lambda ex, s, l: k(ex, s, l[::-1]))
    if kind == "Enumerate":
        return items(ex, st, inner, ity, lambda ex, s, l: k(ex, s, [Agg(0, (it.f[1] + i, x)) for i, x in enumerate(l)]))
    if kind in ("Take", "Skip"):
        n = it.f[1]
        if not isinstance(n, int):
            raise Undecided("collect of %s" % t["name"])
        return items(ex, st, inner, ity, lambda ex, s, l: k(ex, s, l[:n] if kind == "Take" else l[n:]))
    if kind in ("Map", "Filter"):
        f = it.f[1]

        def then(ex, s, l):
            fp = s.alloc(f, "clos") if not isinstance(f, FnV) else f

            def step(i, acc):
                def cont(ex, s2, v):
                    ac = acc
                    if i > 0:
                        if kind == "Map":
                            ac = acc + [v]
                        else:
                            y, n = ex.split(s2, v)
                            if y is not None and n is not None:
                                raise Fork([lambda q: q.assume(v), lambda q: q.assume(NOT(v))])
                            ac = acc + [l[i - 1]] if y is not None else acc
                    if i >= len(l):
                        return k(ex, s2, ac)
                    if is_many(l[i]):
                        # an arbitrary one of many: what the closure does must not depend on which, and touch nothing else
                        mem, pc, tr, m = dict(s2.mem), len(s2.pc), len(s2.trace), l[i]

                        def same(ex, s3, v):
                            if len(s3.pc) != pc or len(s3.trace) != tr or any(s3.mem.get(q) is not w for q, w in mem.items()):
                                raise Undecided("map over any number of elements")
                            return step(i + 1, acc)(ex, s3, Obj("many", n=m.n, x=v))
                        return ex.call_closure(s2, fp, [m.x], same)
                    return ex.call_closure(s2, fp, [l[i] if kind == "Map" else s2.alloc(l[i], "r")], step(i + 1, ac))
                return cont
            return step(0, [])(ex, s, None)
        return items(ex, st, inner, ity, then)
    raise Undecided("collect of %s" % t["name"])


def _deref1(ex, st, x):
    return ex.read(st, x) if isinstance(x, Ptr) else x


@c("<alloc::vec::Vec<T> as core::iter::traits::collect::FromIterator<T>>::from_iter")
def vec_collect(ex, st, a):
    """collect into a vector: the iterator's elements in order"""
    ty = a.argtys[0] if a.argtys else a.inst["args"][-1]
    byte = u8ty(ex, a.inst["args"][0])

    def done(ex, s, l):
        if any(is_many(x) for x in l):
            if not is_many(l[0]) or any(is_many(x) for x in l[1:]):
                raise Undecided("collect of any number of elements")
            return seqm(l[0], l[1:])
        return Rope([("i", bv(x, 8), 1) for x in l]) if byte else Seq(l)
    it = a.args[0]
    if isinstance(it, Obj) and it.k == "iter" and isinstance(it.src, Rope) and it.by == "val" and byte:
        return ex.rope_slice(st, it.src, it.i, lsub(it.n, it.i))
    return items(ex, st, it, ty, done)


# ==================================================================== strings

def whole(ex, st, r, f, tag, n=None):
    """a text that only r determines; computed for constants"""
    cst = r.const()
    if cst is not None:
        try:
            return rconst(f(cst.decode("utf-8")).encode())
        except UnicodeDecodeError:
            pass
    t = text(tag, ex.rope_key(r))
    if n is not None:
        t = Rope([("t", t.segs[0][1], n)])
    else:
        st.assume(lult(t.len, LENMAX))
    ex.set_utf8(st, t)
    return t


RUST_WS = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


@c("alloc::str::<impl str>::to_lowercase", "alloc::str::<impl str>::to_uppercase")
def to_case(ex, st, a):
    op = a.path.rsplit("::", 1)[1]
    return whole(ex, st, rope_of(ex, st, a.args[0]), str.lower if op == "to_lowercase" else str.upper, op)


def ascii_case(up):
    return lambda t: "".join((ch.upper() if up else ch.lower()) if ord(ch) < 128 else ch for ch in t)


@c("alloc::str::<impl str>::to_ascii_lowercase", "alloc::str::<impl str>::to_ascii_uppercase")
def to_ascii(ex, st, a):
    op = a.path.rsplit("::", 1)[1]
    r = rope_of(ex, st, a.args[0])
    return whole(ex, st, r, ascii_case(op.endswith("uppercase")), op, r.len)


@c(STR + "eq_ignore_ascii_case")
def eq_ignore(ex, st, a):
    x, y = rope_of(ex, st, a.args[0]), rope_of(ex, st, a.args[1])
    return rope_eq_atom(ex, st, whole(ex, st, x, ascii_case(False), "to_ascii_lowercase", x.len), whole(ex, st, y, ascii_case(False), "to_ascii_lowercase", y.len))


@c(STR + "chars")
def chars(ex, st, a):
    return Obj("chars", rope=rope_of(ex, st, a.args[0]))


def nchars(ex, st, r):
    cst = r.const()
    if cst is not None:
        return len(cst.decode("utf-8", "replace"))
    n = z3.BitVec("chars(%s)" % ex.rope_key(r), 64)
    # a character has one to four bytes
    st.assume(AND(lule(n, r.len), lule(r.len, norm_int(4 * n))))
    return n


@c("<core::str::iter::Chars<'a> as core::iter::traits::iterator::Iterator>::count")
def chars_count(ex, st, a):
    return nchars(ex, st, a.args[0].rope)


@c("<alloc::string::String as core::iter::traits::collect::FromIterator<char>>::from_iter", note="the characters of a string, or the first of them: a beginning of it")
def string_from_chars(ex, st, a):
    it, most = a.args[0], None
    if isinstance(it, Agg) and "Take<" in ex.m.tn(a.argtys[0]) and len(it.f) == 2:
        it, most = it.f
    if not (isinstance(it, Obj) and it.k == "chars"):
        raise Undecided("characters of %r" % (it,))
    r = it.rope
    cst = r.const()
    if most is None:
        return r
    if cst is not None and isinstance(most, int):
        return rconst(cst.decode("utf-8", "replace")[:most].encode())
    whole, cut = ex.split(st, lule(nchars(ex, st, r), most))
    out = []
    if whole is not None:
        out.append((whole, r))
    if cut is not None:
        k = z3.BitVec("first(%s;%s)" % (ex.rope_key(r), most), 64)
        cut.assume(AND(lule(most, k), z3.ULT(k, bv(r.len, 64))))
        out.append((cut, ex.rope_slice(cut, r, 0, k)))
    return out


def pattern(ex, st, a):
    v = _deref(ex, st, a.args[1])
    if isinstance(v, Rope):
        return v
    if isinstance(v, int) and ex.m.tn(a.argtys[1]) == "char":
        return rconst(chr(v).encode())
    raise Undecided("string pattern")


@c(STR + "starts_with", STR + "ends_with")
def str_starts(ex, st, a):
    return prefix(ex, st, rope_of(ex, st, a.args[0]), pattern(ex, st, a), a.path.endswith("ends_with"))


@c(STR + "contains")
def str_contains(ex, st, a):
    x, y = rope_of(ex, st, a.args[0]), pattern(ex, st, a)
    if x.const() is not None and y.const() is not None:
        return y.const() in x.const()
    return z3.Bool("within(%s;%s)" % (ex.rope_key(y), ex.rope_key(x)))


@c(STR + "strip_prefix", STR + "strip_suffix")
def strip(ex, st, a):
    x, y = rope_of(ex, st, a.args[0]), pattern(ex, st, a)
    end = a.path.endswith("suffix")
    r = prefix(ex, st, x, y, end)
    out = []
    for s, b in r:
        hit, no = ex.split(s, b)
        if hit is not None:
            t = ex.rope_slice(hit, x, 0 if end else y.len, lsub(x.len, y.len))
            ex.set_utf8(hit, t)
            out.append((hit, Some(Ptr(Const(t)))))
        if no is not None:
            out.append((no, NONE))
    return out


@c(SLICE + "strip_prefix", SLICE + "strip_suffix")
def slice_strip(ex, st, a):
    x, y = rope_of(ex, st, a.args[0]), rope_of(ex, st, a.args[1])
    out = []
    for s, b in prefix(ex, st, x, y, a.path.endswith("suffix")):
        hit, no = ex.split(s, b)
        if hit is not None:
            out.append((hit, Some(Ptr(Const(ex.rope_slice(hit, x, 0 if a.path.endswith("suffix") else y.len, lsub(x.len, y.len)))))))
        if no is not None:
            out.append((no, NONE))
    return out


@c("core::char::convert::<impl core::convert::From<u8> for char>::from")
def char_from(ex, st, a):
    v = a.args[0]
    return v if isinstance(v, int) else norm_int(z3.ZeroExt(24, bv(v, 8)))


@c(STR + "trim", STR + "trim_start", STR + "trim_end", STR + "trim_end_matches", STR + "trim_start_matches", STR + "trim_matches")
def trim(ex, st, a):
    """decided where nothing or one ASCII character is cut off at an end; undecided for the other strings"""
    op = a.path.rsplit("::", 1)[1]
    r = rope_of(ex, st, a.args[0])
    cst = r.const()
    if cst is not None and not op.endswith("matches"):
        t = cst.decode("utf-8", "surrogateescape")
        t = t.strip(RUST_WS) if op == "trim" else t.lstrip(RUST_WS) if op == "trim_start" else t.rstrip(RUST_WS)
        return Ptr(Const(rconst(t.encode("utf-8", "surrogateescape"))))
    if op.endswith("matches"):
        p = pattern(ex, st, a)
        if p.const() is None or len(p.const()) != 1:
            raise Undecided(op)
        ch = p.const()[0]

        def cut(b):
            return leq(b, ch) if isinstance(b, int) else norm_bool(bv(b, 8) == ch)
        keep = lambda b: NOT(cut(b))
    else:
        def cut(b):
            return norm_bool(z3.Or(bv(b, 8) == 32, z3.And(z3.UGE(bv(b, 8), 9), z3.ULE(bv(b, 8), 13))))

        def keep(b):
            return norm_bool(z3.And(z3.ULT(bv(b, 8), 0x80), z3.Not(zb(cut(b)))))
    ends = [e for e in ("start", "end") if op in ("trim", "trim_matches") or e in op]
    todo, out = [(st, r, 0)], []
    for e in ends:
        nxt = []
        for s, x, _ in todo:
            empty, s = ex.split(s, leq(x.len, 0))
            if empty is not None:
                nxt.append((empty, x, 0))
            if s is None:
                continue
            at = lambda y, i, e=e: rope_byte(y, i if e == "start" else lsub(lsub(y.len, 1), i))
            no, s = ex.split(s, keep(at(x, 0)))
            if no is not None:
                nxt.append((no, x, 0))
            if s is None:
                continue
            one, rest = ex.split(s, cut(at(x, 0)))
            if one is not None:
                y = ex.rope_slice(one, x, 1 if e == "start" else 0, lsub(x.len, 1))
                z, one = ex.split(one, leq(y.len, 0))
                if z is not None:
                    nxt.append((z, y, 0))
                if one is not None:
                    k, more = ex.split(one, keep(at(y, 0)))
                    if k is not None:
                        nxt.append((k, y, 0))
                    if more is not None:
                        nxt.append((more, None, 1))
            if rest is not None:
                nxt.append((rest, None, 1))
        out += [x for x in nxt if x[1] is None]
        todo = [x for x in nxt if x[1] is not None]
    res_ = []
    for s, x, bad in todo + out:
        if bad:
            s.done = ("undecided", "trim of a string with more to cut off", s.line)
            res_.append((s, PUSHED))
            continue
        ex.set_utf8(s, x)
        res_.append((s, Ptr(Const(x))))
    return res_


@c(STR + "is_char_boundary")
def boundary(ex, st, a):
    r, i = rope_of(ex, st, a.args[0]), a.args[1]
    inside = lult(i, r.len)
    b = rope_byte(r, i) if inside is not False else 0
    return OR(leq(i, 0), leq(i, r.len), AND(inside, norm_bool(bv(b, 8) & 0xC0 != 0x80)))


# ==================================================================== numbers

NUM = "core::num::<impl *>::"


def num(a):
    g = re.match(r"core::num::<impl ([ui])(\w+)>::(\w+)$", a.path)
    if not g:
        raise Undecided(a.path)
    return g.group(1) == "i", 64 if g.group(2) == "size" else int(g.group(2)), g.group(3)


@c(NUM + "leading_zeros", NUM + "trailing_zeros", NUM + "count_ones")
def bits_of(ex, st, a):
    _, n, op = num(a)
    x = a.args[0]
    if isinstance(x, int):
        x &= (1 << n) - 1
        return n - x.bit_length() if op == "leading_zeros" else (n if x == 0 else (x & -x).bit_length() - 1) if op == "trailing_zeros" else bin(x).count("1")
    if op == "count_ones":
        return norm_int(sum([z3.ZeroExt(31, z3.Extract(i, i, x)) for i in range(n)], z3.BitVecVal(0, 32)))
    r = z3.BitVecVal(n, 32)
    for i in (range(n) if op == "leading_zeros" else reversed(range(n))):
        r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(n - 1 - i if op == "leading_zeros" else i, 32), r)
    return norm_int(r)


@c(NUM + "abs_diff")
def abs_diff(ex, st, a):
    s, n, _ = num(a)
    if s:
        raise Undecided(a.path)
    x, y = bv(a.args[0], n), bv(a.args[1], n)
    return norm_int(z3.If(z3.ULT(x, y), y - x, x - y))


@c(NUM + "div_ceil")
def div_ceil(ex, st, a):
    s, n, _ = num(a)
    if s:
        raise Undecided(a.path)
    x, y = bv(a.args[0], n), bv(a.args[1], n)
    bad, ok = ex.split(st, norm_bool(y == 0))
    return res((ok, norm_int(z3.UDiv(x, y) + z3.If(z3.URem(x, y) == 0, z3.BitVecVal(0, n), z3.BitVecVal(1, n)))), (bad, Panic("division by zero")))


@c(NUM + "rotate_left", NUM + "rotate_right")
def rotate(ex, st, a):
    _, n, op = num(a)
    if not isinstance(a.args[1], int):
        raise Undecided(a.path)
    f = z3.RotateLeft if op.endswith("left") else z3.RotateRight
    return norm_int(f(bv(a.args[0], n), a.args[1] % n))


@c(NUM + "is_power_of_two")
def pow2(ex, st, a):
    _, n, _ = num(a)
    x = bv(a.args[0], n)
    return norm_bool(z3.And(x != 0, x & (x - 1) == 0))


@c(NUM + "pow", NUM + "checked_pow", NUM + "saturating_pow", NUM + "wrapping_pow")
def power(ex, st, a):
    s, n, op = num(a)
    x, y = a.args
    if s or not isinstance(x, int) or not isinstance(y, int):
        raise Undecided(a.path)
    r = x ** y
    if op == "checked_pow":
        return Some(r) if r < 1 << n else NONE
    if op == "wrapping_pow":
        return r & ((1 << n) - 1)
    if op == "saturating_pow":
        return min(r, (1 << n) - 1)
    return r if r < 1 << n else Panic("attempt to multiply with overflow")


@c("core::cmp::impls::<impl core::cmp::Ord for *>::clamp")
def clamp(ex, st, a):
    x, lo, hi = a.args
    t = ex.m.T[a.argtys[0]]
    if t.get("signed"):
        raise Undecided("signed clamp")
    n = t.get("bits", 64)
    x, lo, hi = bv(x, n), bv(lo, n), bv(hi, n)
    ok, bad = ex.split(st, norm_bool(z3.ULE(lo, hi)))
    return res((ok, norm_int(z3.If(z3.ULT(x, lo), lo, z3.If(z3.ULT(hi, x), hi, x)))), (bad, Panic("clamp: min > max")))


# ==================================================================== durations

DUR = "core::time::Duration::"
G = 1000000000


def dur_of(ex, st, v):
    v = _deref(ex, st, v)
    if isinstance(v, Obj) and v.k == "dur":
        return v
    raise Undecided("duration %r" % (v,))


def D(s, n):
    return Obj("dur", s=norm_int(s), n=norm_int(n))


def dur_lt(x, y):
    return norm_bool(z3.Or(z3.ULT(bv(x.s, 64), bv(y.s, 64)), z3.And(bv(x.s, 64) == bv(y.s, 64), z3.ULT(bv(x.n, 32), bv(y.n, 32)))))


def dur_eq(x, y):
    return norm_bool(z3.And(bv(x.s, 64) == bv(y.s, 64), bv(x.n, 32) == bv(y.n, 32)))


@c("<core::time::Duration as core::cmp::PartialOrd>::*", "<core::time::Duration as core::cmp::Ord>::*")
def dur_cmp(ex, st, a):
    op = a.path.rsplit("::", 1)[1]
    x, y = dur_of(ex, st, a.args[0]), dur_of(ex, st, a.args[1])
    if op in ("min", "max"):
        lt = dur_lt(y, x)
        s1, s2 = ex.split(st, lt)
        return res((s1, y if op == "min" else x), (s2, x if op == "min" else y))
    if op not in ("lt", "le", "gt", "ge", "cmp", "partial_cmp"):
        raise Undecided(a.path)
    return ordering(ex, st, a, dur_lt(x, y), dur_eq(x, y), op)


def dur_add(x, y):
    """(sum, overflow)"""
    n = z3.ZeroExt(1, bv(x.n, 32)) + z3.ZeroExt(1, bv(y.n, 32))
    cr = z3.UGE(n, G)
    s = z3.ZeroExt(2, bv(x.s, 64)) + z3.ZeroExt(2, bv(y.s, 64)) + z3.If(cr, z3.BitVecVal(1, 66), z3.BitVecVal(0, 66))
    return D(z3.Extract(63, 0, s), z3.Extract(31, 0, z3.If(cr, n - G, n))), norm_bool(z3.UGE(s, z3.BitVecVal(1 << 64, 66)))


def dur_sub(x, y):
    lt = dur_lt(x, y)
    bo = z3.ULT(bv(x.n, 32), bv(y.n, 32))
    n = z3.If(bo, bv(x.n, 32) + G - bv(y.n, 32), bv(x.n, 32) - bv(y.n, 32))
    s = bv(x.s, 64) - bv(y.s, 64) - z3.If(bo, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    return D(s, n), lt


MAXD = Obj("dur", s=(1 << 64) - 1, n=G - 1)


@c("<core::time::Duration as core::ops::arith::Add>::add", "<core::time::Duration as core::ops::arith::Sub>::sub", DUR + "checked_add", DUR + "checked_sub", DUR + "saturating_add", DUR + "saturating_sub",
   DUR + "abs_diff", "<core::time::Duration as core::ops::arith::AddAssign>::add_assign", "<core::time::Duration as core::ops::arith::SubAssign>::sub_assign")
def dur_arith(ex, st, a):
    op = a.path.rsplit("::", 1)[1]
    x, y = dur_of(ex, st, a.args[0]), dur_of(ex, st, a.args[1])
    if op == "abs_diff":
        lo, hi = ex.split(st, dur_lt(x, y))
        return res((lo, dur_sub(y, x)[0]), (hi, dur_sub(x, y)[0]))
    add = "add" in op
    r, o = dur_add(x, y) if add else dur_sub(x, y)
    bad, ok = ex.split(st, o)
    if op.startswith("checked"):
        return res((ok, Some(r)), (bad, NONE))
    if op.startswith("saturating"):
        return res((ok, r), (bad, MAXD if add else D(0, 0)))
    if op.endswith("assign"):
        if ok is not None:
            ex.write(ok, a.args[0], r)
        return res((ok, UNIT), (bad, Panic("overflow of durations")))
    return res((ok, r), (bad, Panic("overflow of durations")))


@c("<core::time::Duration as core::ops::arith::Mul<u32>>::mul", "<core::time::Duration as core::ops::arith::Div<u32>>::div", DUR + "checked_mul", DUR + "checked_div", DUR + "saturating_mul")
def dur_scale(ex, st, a):
    op = a.path.rsplit("::", 1)[1]
    x, k = dur_of(ex, st, a.args[0]), a.args[1]
    if "mul" in op:
        t = z3.ZeroExt(32, bv(x.n, 32)) * z3.ZeroExt(32, bv(k, 32))
        s = z3.ZeroExt(36, bv(x.s, 64)) * z3.ZeroExt(68, bv(k, 32)) + z3.ZeroExt(36, z3.UDiv(t, z3.BitVecVal(G, 64)))
        r, o = D(z3.Extract(63, 0, s), z3.Extract(31, 0, z3.URem(t, z3.BitVecVal(G, 64)))), norm_bool(z3.UGE(s, z3.BitVecVal(1 << 64, 100)))
    else:
        o = norm_bool(bv(k, 32) == 0)
        kk = z3.ZeroExt(32, bv(k, 32))
        rem = z3.URem(bv(x.s, 64), kk)
        n = z3.UDiv(bv(x.n, 32), bv(k, 32))
        # what is left of the seconds, in nanoseconds, with what is left of the nanoseconds
        q = z3.UDiv(z3.ZeroExt(32, rem) * G + z3.ZeroExt(64, z3.URem(bv(x.n, 32), bv(k, 32))), z3.ZeroExt(32, kk))
        r = D(z3.UDiv(bv(x.s, 64), kk), n + z3.Extract(31, 0, q))
    bad, ok = ex.split(st, o)
    if op.startswith("checked"):
        return res((ok, Some(r)), (bad, NONE))
    if op.startswith("saturating"):
        return res((ok, r), (bad, MAXD))
    return res((ok, r), (bad, Panic("overflow of durations")))


@c(DUR + "from_micros", DUR + "from_nanos", DUR + "from_mins", DUR + "from_hours")
def dur_from(ex, st, a):
    x = bv(a.args[0], 64)
    op = a.path.rsplit("::", 1)[1]
    if op in ("from_mins", "from_hours"):
        raise Undecided(a.path)
    per = 1000000 if op == "from_micros" else G
    return D(z3.UDiv(x, z3.BitVecVal(per, 64)), z3.Extract(31, 0, z3.URem(x, z3.BitVecVal(per, 64))) * (G // per))


@c(DUR + "as_micros", DUR + "as_nanos")
def dur_as(ex, st, a):
    d = dur_of(ex, st, a.args[0])
    k = 1000000 if a.path.endswith("micros") else G
    return norm_int(z3.ZeroExt(64, bv(d.s, 64)) * k + z3.ZeroExt(96, z3.UDiv(bv(d.n, 32), z3.BitVecVal(G // k, 32))))


@c(DUR + "is_zero")
def dur_zero(ex, st, a):
    d = dur_of(ex, st, a.args[0])
    return AND(norm_bool(bv(d.s, 64) == 0), norm_bool(bv(d.n, 32) == 0))


@c(DUR + "new")
def dur_new2(ex, st, a):
    s, n = a.args
    x = D(s, z3.URem(bv(n, 32), z3.BitVecVal(G, 32)))
    r, o = dur_add(x, D(z3.ZeroExt(32, z3.UDiv(bv(n, 32), z3.BitVecVal(G, 32))), 0))
    bad, ok = ex.split(st, o)
    return res((ok, r), (bad, Panic("overflow in Duration::new")))


@c("std::time::Instant::elapsed", "std::time::Instant::duration_since", "tokio::time::instant::Instant::elapsed", "tokio::time::instant::Instant::duration_since")
def inst_elapsed(ex, st, a):
    n = st.fresh("clock")
    ns = z3.BitVec(n + ".n", 32)
    st.assume(z3.ULT(ns, G))
    return Obj("dur", s=z3.BitVec(n + ".s", 64), n=ns)


# ==================================================================== cells and thread locals

@c("core::cell::Cell::<T>::new")
def cell_new(ex, st, a):
    return Obj("cell", v=a.args[0])


def cell(ex, st, p):
    p = Ptr(*_through(ex, st, p))
    o = ex.read(st, p)
    if not isinstance(o, Obj) or o.k != "cell":
        raise Undecided("cell %r" % (o,))
    return p, o


@c("core::cell::Cell::<T>::get", "core::cell::Cell::<T>::replace", "core::cell::Cell::<T>::set", "core::cell::Cell::<T>::into_inner")
def cell_op(ex, st, a):
    op = a.path.rsplit("::", 1)[1]
    if op == "into_inner":
        return a.args[0].v
    p, o = cell(ex, st, a.args[0])
    if op != "get":
        ex.write(st, p, o.set(v=a.args[1]))
    return UNIT if op == "set" else o.v


@c("std::thread::local::LocalKey::<T>::with", "std::thread::local::LocalKey::<T>::try_with")
def tls_with(ex, st, a):
    """the closure gets this thread's value, which is unknown at first: other calls on this thread may have changed it"""
    p, f = a.args
    key = ("tls", str(p.a) if isinstance(p, Ptr) and not isinstance(p.a, Const) else repr(p))
    if key not in st.mem:
        st.mem[key] = ex.sym(st, a.inst["args"][0], "tls!%s" % key[1])
    tr = a.path.endswith("try_with")
    return ex.call_closure(st, f, [Ptr(key)], lambda ex, s, v: Ok(v) if tr else v)


@c(NUM + "abs", NUM + "unsigned_abs")
def iabs(ex, st, a):
    _, n, op = num(a)
    x = bv(a.args[0], n)
    bad, ok = ex.split(st, norm_bool(x == z3.BitVecVal(1 << (n - 1), n))) if op == "abs" else (None, st)
    return res((ok, norm_int(z3.If(x < 0, -x, x))), (bad, Panic("attempt to negate with overflow")))
