"""Conformance of the library contracts: the root_conf_* functions (roots/src/conform.rs) are executed under the contracts
and must give the bytes the same functions give natively (harness --conform). Where a contract leaves open what other
tasks do (root_conf_in_*), the native bytes must be among the outcomes it allows."""
from vals import *


def may_be(g, s, want):
    """some outcome of this path is `want`"""
    v = s.done[1] if s.done and s.done[0] == "ret" else None
    if not isinstance(v, Rope):
        return False
    n = v.len
    if not isinstance(n, int) or n != len(want):
        return False
    x = rope_int(v, n)
    return g.ex.check(s.pc, [bv(x, 8 * n) == int.from_bytes(want, "big")]) == "sat"


def run(m, native, only=None):
    """([(name, status, detail)], contracts exercised): status agrees, allows, differs or undecided"""
    from goal import G
    out, tested = [], set()
    for name in sorted(m.roots):
        if not name.startswith("root_conf_"):
            continue
        k = name[len("root_conf_"):]
        if only and k != only:
            continue
        g = G("conform", m)
        ends = g.raw(g.start(), name, [])
        tested |= set(g.ex.under_contract)
        und = [str(u) for s in ends for u in s.und]
        if k not in native:
            out.append((k, "undecided", "not run natively"))
            continue
        if k.startswith("in_"):
            hit = [s for s in ends if not s.und and may_be(g, s, native[k])]
            if hit:
                out.append((k, "allows", "%d of %d outcomes" % (len(hit), len(ends))))
            elif und:
                out.append((k, "undecided", "; ".join(und)))
            else:
                out.append((k, "differs", "none of %d outcomes is the native %s" % (len(ends), native[k].hex())))
            continue
        if und or len(ends) != 1:
            out.append((k, "undecided", "; ".join(und) or "%d outcomes" % len(ends)))
            continue
        d = ends[0].done
        v = d[1] if d and d[0] == "ret" else None
        b = v.const() if isinstance(v, Rope) else None
        if b is None:
            if may_be(g, ends[0], native[k]):
                out.append((k, "allows", "a symbolic outcome"))
            else:
                out.append((k, "undecided", repr(d)[:600]))
        elif b != native[k]:
            i = next((i for i, (x, y) in enumerate(zip(b, native[k])) if x != y), min(len(b), len(native[k])))
            out.append((k, "differs", "at byte %d: %s by contract, %s natively (after %s)" % (i, b[i:i + 24].hex(), native[k][i:i + 24].hex(), b[max(0, i - 24):i].hex())))
        else:
            out.append((k, "agrees", "%d bytes" % len(b)))
    return out, tested
