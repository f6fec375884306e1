"""C22: the connection pool."""
from goal import *
from g_emit import CTX

GUARD = "bromine::ipc::context::PoolGuard<bromine::ipc::context::Context>"
POOL = "bromine::ipc::context::PooledContext"


def same_value(g, st, a, b):
    """the values are the same: same content, shared parts at the same place"""
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.a == b.a and a.p == b.p
    if isinstance(a, Rope) and isinstance(b, Rope):
        return rope_same(a, b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        return a.v == b.v and len(a.f) == len(b.f) and all(same_value(g, st, x, y) for x, y in zip(a.f, b.f))
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.name == b.name
    if isinstance(a, Sym) and isinstance(b, Agg):
        return all(same_value(g, t, x, b) for t, x in g.force(st.copy(), a) if g.ex.check(t.pc) != "unsat")
    if isinstance(b, Sym) and isinstance(a, Agg):
        return same_value(g, st, b, a)
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.k == b.k and set(a.d) == set(b.d) and all(same_value(g, st, a.d[k], b.d[k]) for k in a.d)
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    return type(a) == type(b) and a == b


def count_of(g, st, p):
    """(place of the counter, id) of the guard at p"""
    v = g.ex.read(st, Ptr(p.a, p.p + (g.fpath(GUARD, "count"),)))
    for _ in range(4):
        x = g.ex.read(st, v)
        if isinstance(x, Ptr):
            v = x
            continue
        if isinstance(x, Agg) and len(x.f) == 1:
            v = Ptr(v.a, v.p + (0,))
            continue
        if isinstance(x, Obj) and x.k == "atomic":
            return v, x
        break
    raise Undecided("the counter of a pool guard: %r" % (v,))


def writes(tr):
    return [e for e in tr if e[0] in ("a_rmw", "a_store")]


def req_add(g, s, o, d, what):
    """the only change of any counter is that of o, by d, in one step"""
    w = writes(s.trace)
    g.req(s, len(w) == 1 and w[0][0] == "a_rmw" and w[0][1] == o.id, what + ": exactly its own counter is changed, in one step", s.trace)
    if len(w) == 1 and w[0][0] == "a_rmw":
        g.int_eq(s, w[0][3], norm_int(bv(w[0][2], 64) + (d % (1 << 64))), what + ": the count is changed by %+d" % d)


def req_guard(g, s, v, src, what):
    """the guard v is for the connection of the guard at src and counts on its counter"""
    p = s.alloc(v, "guard")
    (q, o), (q2, o2) = count_of(g, s, p), count_of(g, s, src)
    g.req(s, q.a == q2.a and q.p == q2.p, what + ": it shares the counter of its connection", (q, q2))
    i = g.fpath(GUARD, "inner")
    a, b = g.ex.read(s, Ptr(p.a, p.p + (i,))), g.ex.read(s, Ptr(src.a, src.p + (i,)))
    g.req(s, same_value(g, s, a, b), what + ": it is a guard of the same connection", lambda: "%r %r" % (a, b))


def guard(g, st, name="guard"):
    return st.alloc(g.ex.sym(st, g.ty(GUARD), name), name)


@guarded
def guard_counts(g):
    """cloning a guard adds one to its connection's count and gives a guard of the same connection; dropping subtracts one; looking at the
    connection through a guard changes no count"""
    g.expect("clone", "drop", "deref")
    for n in (0, 1):
        st = g.start()
        p = guard(g, st)
        if n:
            L.mark_shared(g.ex, st, g.ex.read(st, Ptr(p.a, p.p + (g.fpath(GUARD, "count"),))))
        _, o = count_of(g, st, p)
        for s, v in g.call(st, "root_pool_clone", p):
            g.cover("clone")
            req_add(g, s, o, 1, "cloning a guard")
            req_guard(g, s, v, p, "cloning a guard")
            s.trace = []
            for t, _ in g.call(s, "root_pool_drop", v):
                req_add(g, t, o, -1, "dropping the clone")
        for s, v in g.call(st, "root_pool_drop", g.ex.read(st, p)):
            g.cover("drop")
            req_add(g, s, o, -1, "dropping a guard")
        for r in ("root_pool_deref", "root_pool_deref_mut"):
            for s, v in g.call(st, r, p):
                g.cover("deref")
                g.req(s, not writes(s.trace), "using a guard changes no count", s.trace)
                q = v
                g.req(s, isinstance(q, Ptr) and q.a == p.a and tuple(q.p) == tuple(p.p) + (g.fpath(GUARD, "inner"),), "a guard gives access to its own connection", v)


@guarded
def least_used(g):
    """acquiring from a pool of any size gives a guard of a connection whose count is at most that of any other, and counts it"""
    g.expect("acquire")
    st = g.start()
    pool = st.alloc(g.ex.sym(st, g.ty(POOL), "pool"), "pool")
    c = g.ex.read(st, Ptr(pool.a, pool.p + (g.fpath(POOL, "contexts"),)))
    if not (isinstance(c, Obj) and c.k == "symvec"):
        raise Undecided("a pool of arbitrary size: %r" % (c,))
    cp = Ptr(pool.a, pool.p + (g.fpath(POOL, "contexts"),))
    veclen = L.symvec_len(c)
    st.assume(z3.UGT(veclen, 0))  # C23: a pool is never built empty
    for w in "ij":  # positions of two connections of the pool
        st.assume(z3.ULT(z3.BitVec("idx_" + w, 64), veclen))
    for s, v in g.call(st, "root_pool_acquire", pool):
        g.cover("acquire")
        if len([e for e in s.trace if e[0] == "pick"]) != 1:
            raise Undecided("the choice of a connection")
        pi, pj = Ptr(cp.a, cp.p + (("e", "i"),)), Ptr(cp.a, cp.p + (("e", "j"),))
        (qi, oi), (qj, oj) = count_of(g, st, pi), count_of(g, st, pj)
        loads = {e[1]: e[2] for e in s.trace if e[0] == "a_load"}
        g.req(s, norm_bool(z3.ULE(bv(oi.v, 64), bv(oj.v, 64))), "no connection is used less than the chosen one", s.trace)
        req_add(g, s, oi, 1, "acquiring")
        req_guard(g, s, v, pi, "acquiring")


def small_pool(g, st, n):
    gs = []
    for i in range(n):
        gs.append(g.ex.sym(st, g.ty(GUARD), "guard%d" % i))
    return st.alloc(Agg(0, (Seq(gs),)), "pool")


@guarded
def small_pools(g):
    """the same for pools of 1 to 4 connections, without the contract of the search: whatever way the search is written"""
    g.limits.add("small_pools: pools of 1 to 4 connections (least_used covers every size)")
    for n in range(1, 5):
        g.expect("size %d" % n)
        st = g.start()
        pool = small_pool(g, st, n)
        cp = Ptr(pool.a, pool.p + (0,))
        pre = [count_of(g, st, Ptr(cp.a, cp.p + (("e", i),))) for i in range(n)]
        for s, v in g.call(st, "root_pool_acquire", pool):
            w = writes(s.trace)
            k = [i for i in range(n) if w and w[0][1] == pre[i][1].id]
            g.req(s, len(k) == 1, "acquiring counts one connection of the pool", s.trace)
            if len(k) != 1:
                continue
            g.cover("size %d" % n)
            i = k[0]
            for j in range(n):
                g.req(s, norm_bool(z3.ULE(bv(pre[i][1].v, 64), bv(pre[j][1].v, 64))), "no connection is used less than the chosen one", (i, j))
            req_add(g, s, pre[i][1], 1, "acquiring")
            req_guard(g, s, v, Ptr(cp.a, cp.p + (("e", i),)), "acquiring")


@guarded
def pool_clone(g):
    """a clone of the pool has the same connections with the same counters"""
    g.expect("clone")
    st = g.start()
    pool = st.alloc(g.ex.sym(st, g.ty(POOL), "pool"), "pool")
    cp = Ptr(pool.a, pool.p + (g.fpath(POOL, "contexts"),))
    for s, v in g.call(st, "root_poolctx_clone", pool):
        p = s.alloc(v, "pool2")
        cv = g.ex.read(s, Ptr(p.a, p.p + (g.fpath(POOL, "contexts"),)))
        el = [e for e in s.trace if e[0] == "clone_elem"]
        if isinstance(cv, Ptr):
            g.cover("clone")
            continue
        g.req(s, bool(el), "every connection of the pool is in its clone", s.trace)
        if not el:
            continue
        g.cover("clone")
        src = Ptr(cp.a, cp.p + (("e", "e"),))
        new = g.ex.read(s, Ptr(p.a, p.p + (g.fpath(POOL, "contexts"), ("e", "e"))))
        req_add(g, s, count_of(g, st, src)[1], 1, "cloning the pool")
        req_guard(g, s, new, src, "cloning the pool")


GOALS = {"C22": [guard_counts, least_used, small_pools, pool_clone]}
