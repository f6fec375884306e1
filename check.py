#!/usr/bin/env python3-vt
"""check.py PROPERTY: decide one property for /repo's current working tree.

1. rustc (nightly) compiles /repo through mirver/roots; the exporter writes the monomorphic MIR of everything reachable.
2. the goals of the property (mirver/mv/g_*.py) are discharged over that MIR against the contracts in mirver/mv/lib.py.
3. the replay harness (harness/) runs the real library: it replays what a failed obligation claims, stands in (bounded)
   where an obligation is out of the verifier's reach, and cross-checks the assumed contracts otherwise.
Exit 0: held. Exit 1 with a VIOLATION line: broken."""
import argparse
import json
import multiprocessing
import os
import pickle
import re
import resource
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
sys.path.insert(0, os.path.join(HERE, "mirver", "mv"))
T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def sh(cmd, env=None, cwd=None, timeout=700):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        out = x.stdout
        if isinstance(out, bytes):
            out = out.decode("utf-8", "replace")
        return 124, (out or "") + "\ntimeout"


# ---------------------------------------------------------------- 1. extraction

def driver():
    src = os.path.join(HERE, "mirver/driver/src/main.rs")
    out = os.path.join(BUILD, "driver")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    rc, o = sh(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", out])
    if rc:
        raise RuntimeError("the exporter does not build:\n" + o[-3000:])
    return out


def extract(features=None):
    """MIR of /repo's current tree as seen from the roots"""
    d = driver()
    rc, root = sh(["rustc", "+nightly", "--print", "sysroot"])
    sysroot = root.strip().splitlines()[-1]
    out = os.path.join(BUILD, "mir.json")
    if os.path.exists(out):
        os.remove(out)
    env = {
        "CARGO_TARGET_DIR": os.path.join(BUILD, "mirtarget"), "LD_LIBRARY_PATH": sysroot + "/lib",
        "RUSTFLAGS": '-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums --cfg curve25519_dalek_backend="serial"',
        "MIRVER_OUT": out, "MIRVER_CUT": os.path.join(HERE, "mirver/cut.txt"), "RUSTC_WORKSPACE_WRAPPER": d,
    }
    r = os.path.join(HERE, "mirver/roots")
    os.utime(os.path.join(r, "src/lib.rs"))
    rc, o = sh(["cargo", "+nightly", "check", "--offline"], env, r)
    if rc or not os.path.exists(out):
        raise RuntimeError("MIR extraction failed:\n" + o[-3000:])
    return out


# ---------------------------------------------------------------- 2. goals

MODULES = ["g_codec", "g_payload", "g_emit", "g_conn", "g_reply", "g_stop", "g_registry", "g_crypt", "g_kx", "g_pool", "g_build", "g_net"]


def goals_of(prop):
    out = []
    for m in MODULES:
        if not os.path.exists(os.path.join(HERE, "mirver/mv", m + ".py")):
            continue
        mod = __import__(m)
        out += [(m, f) for f in mod.GOALS.get(prop, [])]
    return out


def run_goal(prop, f, mod, deadline, timeout_ms, pipe):
    """in a child process"""
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        import goal
        g = goal.G(prop, mod, timeout_ms, deadline)
        g.goal = f.__name__
        t = time.time()
        try:
            f(g)
        except MemoryError:
            g.undecided("goal %s is within reach" % f.__name__, "memory")
        except RecursionError:
            g.undecided("goal %s is within reach" % f.__name__, "recursion")
        fns = sorted({mod.F[i]["path"] for i in g.ex.executed})
        pipe.send({
            "goal": f.__name__, "doc": (f.__doc__ or "").strip(), "obl": [(n, s, d) for n, s, d in g.obl], "covers": g.covers, "paths": g.paths, "closed": g.closed,
            "queries": g.ex.stats.queries, "integer": g.ex.stats.integer, "solver_s": g.ex.stats.solver_s, "steps": g.ex.stats.steps, "wall_s": time.time() - t,
            "functions": fns, "contracts": sorted(g.ex.under_contract), "limits": sorted(g.limits), "requires": sorted(g.requires), "used": sorted(g.used),
        })
    except BaseException:
        pipe.send({"goal": f.__name__, "crash": traceback.format_exc()})
    finally:
        pipe.close()


def prove(prop, mod, budget, timeout_ms, jobs):
    todo = goals_of(prop)
    deadline = time.time() + budget
    running, results = [], []
    ctx = multiprocessing.get_context("fork")
    while todo or running:
        while todo and len(running) < jobs:
            m, f = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=run_goal, args=(prop, f, mod, deadline, timeout_ms, b))
            p.start()
            b.close()
            running.append((p, a, f))
        for x in list(running):
            p, a, f = x
            r = None
            if a.poll(0.02):
                try:
                    r = a.recv()
                except EOFError:
                    r = {"goal": f.__name__, "crash": "the goal's process ended (exit code %s)" % p.exitcode}
            elif not p.is_alive() and not a.poll(0):
                r = {"goal": f.__name__, "crash": "the goal's process ended (exit code %s)" % p.exitcode}
            elif time.time() > deadline + 60:
                p.kill()
                r = {"goal": f.__name__, "crash": "time limit"}
            if r is not None:
                p.join(5)
                running.remove(x)
                results.append(r)
    return results


# ---------------------------------------------------------------- 3. harness

def build_harness():
    h = os.path.join(HERE, "harness")
    if not os.path.isdir(h):
        return None, "no harness"
    env = {"CARGO_TARGET_DIR": os.path.join(BUILD, "harness"), "RUSTFLAGS": ""}
    rc, o = sh(["cargo", "+" + TOOLCHAIN, "build", "--offline", "--locked"], env, h)
    if rc:
        return None, o[-3000:]
    return os.path.join(BUILD, "harness/debug/harness"), ""


TOOLCHAIN = "1.85.1"


def run_harness(exe, prop, seed, tier, budget):
    """(ran, list of failures, counts)"""
    rc, o = sh(["timeout", "-k", "5", str(budget), exe, prop, "--seed", str(seed), "--tier", tier], {"RUST_BACKTRACE": "0"}, BUILD, budget + 30)
    fails, stat = [], None
    for line in o.splitlines():
        if line.startswith("FAIL "):
            fails.append(json.loads(line[5:]))
        elif line.startswith("STAT "):
            stat = json.loads(line[5:])
    if stat is None and not fails:
        return False, [], {"output": o[-2000:], "rc": rc}
    return True, fails, stat or {}


def conformance(mod, exe):
    """the library contracts against the library: (results, contracts exercised)"""
    rc, o = sh([exe, "--conform"], {"RUST_BACKTRACE": "0"}, BUILD, 60)
    native = {}
    for line in o.splitlines():
        k, _, v = line.partition(" ")
        if re.fullmatch("[0-9a-f]*", v):
            native[k] = bytes.fromhex(v)
    import conform
    import lia
    out, tested = conform.run(mod, native)
    n, bad = lia.selftest(40, int(os.environ.get("VERIF_SEED", "1") or 1))
    out.append(("integer translation of bit vectors", "differs" if bad else "agrees", "%d random formulas decided alike %s" % (n, [str(b)[:200] for b in bad[:2]] if bad else "")))
    return out, tested


# ---------------------------------------------------------------- known findings

def known(prop):
    """[(fingerprint regex, text)] of the property's recorded findings"""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="build the exporter only")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--no-harness", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.prop
    if a.setup:
        os.makedirs(BUILD, exist_ok=True)
        print(driver())
        return
    quick = tier == "quick"
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)

    # the harness builds while the MIR is extracted and the goals run
    hq = multiprocessing.get_context("fork").Pipe(False)
    hp = None
    if not a.no_harness:
        def hb(c):
            try:
                c.send(build_harness())
            except BaseException as e:
                c.send((None, repr(e)))
        hp = multiprocessing.get_context("fork").Process(target=hb, args=(hq[1],))
        hp.start()

    results, problem = [], None
    try:
        path = extract()
        log("MIR extracted")
        from core import Module
        mod = Module(path)
        results = prove(prop, mod, 420 if quick else 2400, 20000 if quick else 60000, a.jobs)
    except Exception as e:
        problem = str(e)
        log("proof not possible:", problem[-1500:])

    exe, herr = None, "not asked for"
    if hp is not None:
        exe, herr = hq[0].recv() if hq[0].poll(600) else (None, "harness build time limit")
        hp.join(10)
        if exe is None:
            log("harness not available:", herr[-1500:])

    conf, conf_tested = [], set()
    if exe and results:
        try:
            conf, conf_tested = conformance(mod, exe)
        except Exception as e:
            conf = [("all", "undecided", repr(e))]
        for k, st, d in conf:
            if st not in ("agrees", "allows"):
                log("contract conformance:", k, st, d[:600])

    # ---- obligations
    obl = {}
    failed, undecided = [], []
    for r in results:
        if "crash" in r:
            undecided.append(("%s/%s: the goal runs" % (prop, r["goal"]), r["crash"][-2000:]))
            continue
        for n, s, d in r["obl"]:
            o = obl.setdefault(n, {"proved": 0, "failed": 0, "undecided": 0})
            o[s] += 1
            if s == "failed":
                failed.append((n, d))
            elif s == "undecided":
                undecided.append((n, d))
        for k, hit in r["covers"].items():
            if not hit:
                undecided.append(("%s/%s (coverage: no path reaches this case)" % (prop, k), None))
    if not results and problem is None:
        problem = "no goals"
    for k, st, d in conf:
        if st == "differs":
            undecided.append(("%s: the library contracts agree with the library (%s)" % (prop, k), d))
    if problem:
        undecided.append(("%s: obligations are generated" % prop, problem[-3000:]))
    total = sum(sum(o.values()) for o in obl.values())
    proved = sum(o["proved"] for o in obl.values())
    # what was decided for stated sizes only does not count as proved
    lim = [r for r in results if "crash" not in r and r["limits"]]
    bounded = sum(1 for r in lim for n, s, d in r["obl"] if s == "proved")

    # ---- the real code
    ran, fails, stat = False, [], {}
    if exe:
        ran, fails, stat = run_harness(exe, prop, seed, tier, 150 if quick else 900)
        if not ran:
            log("harness gave no answer:", stat)

    kf = known(prop)
    hit_known = {}

    def is_known(txt):
        for rx, t in kf:
            if rx.search(txt):
                hit_known[t] = hit_known.get(t, 0) + 1
                return True
        return False
    failed = [(n, d) for n, d in failed if not is_known("obligation " + n)]
    fails = [f for f in fails if not is_known("scenario " + f.get("scenario", ""))]

    for t, n in sorted(hit_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, t))

    verdict = 0
    replay = os.path.join("evidence", "replay-%s.json" % prop)
    rp = os.path.join(HERE, replay)
    if os.path.exists(rp):
        os.remove(rp)
    names = sorted({n for n, _ in failed})
    if failed or fails:
        verdict = 1
        json.dump({
            "property": prop,
            "failed_obligations": names,
            "verifier_output": [{"obligation": n, "output": d} for n, d in failed[:20]],
            "failing_inputs": fails[:20],
            "replay_command": "cd /verif && cargo +%s run --offline --locked --manifest-path harness/Cargo.toml -- %s --seed %d --tier %s" % (TOOLCHAIN, prop, seed, tier) if fails else None,
        }, open(rp, "w"), indent=1, default=str)
    for n in names:
        log("FAILED obligation:", n)
        d = next(d for m, d in failed if m == n)
        log("   ", json.dumps(d, default=str)[:1200])
    for f in fails[:10]:
        log("FAILED on the real code:", json.dumps(f)[:1000])
    for n in sorted({n for n, _ in undecided})[:20]:
        d = next(d for m, d in undecided if m == n)
        log("undecided:", n, "--", str(d)[:600])

    level = "proof"
    cov = {
        "obligations": total - bounded, "discharged": proved - bounded,
        "bounded_obligations": bounded, "bounds": sorted({l for r in lim for l in r["limits"]}),
        "known_finding_obligations": sum(hit_known.values()),
        "distinct_obligations": len(obl), "undecided": sorted({n for n, _ in undecided})[:50],
        "failed": names,
        "checker_cmd": "python3-vt /verif/check.py %s --tier %s" % (prop, tier),
        "back_end": __import__("z3").get_full_version() if results else "none",
        "solver_s": round(sum(r.get("solver_s", 0) for r in results), 2),
        "solver_queries": sum(r.get("queries", 0) for r in results),
        "decided_as_integers": sum(r.get("integer", 0) for r in results),
        "symbolic_steps": sum(r.get("steps", 0) for r in results),
        "paths": sum(r.get("paths", 0) for r in results),
        "loops_closed_by_invariant": sum(r.get("closed", 0) for r in results),
        "goals": [{k: r.get(k) for k in ("goal", "doc", "paths", "wall_s", "limits", "used")} | {"obligations": len(r.get("obl", []))} for r in results if "crash" not in r],
        "functions_under_contract": sorted({f for r in results for f in r.get("functions", []) if f.startswith(("bromine", "<bromine")) or "bromine::" in f}),
        "library_contracts_used": sorted({f for r in results for f in r.get("contracts", [])}),
        "library_contracts_tested": {
            "how": "the root_conf_* functions (mirver/roots/src/conform.rs) give the same bytes under the contracts as natively (agrees), or the native outcome is among those the contracts allow (allows)",
            "runs": {k: "%s: %s" % (st, d[:200]) for k, st, d in conf},
            "used_here_and_exercised": len({f for r in results for f in r.get("contracts", [])} & conf_tested),
            "used_here_and_not_exercised": sorted({f for r in results for f in r.get("contracts", [])} - conf_tested),
        },
        "real_code_runs": stat if ran else {"not_run": (herr if not exe else stat)},
        "trusted_base": [],
    }
    try:
        import lib
        cov["trusted_base"] = list(lib.TRUSTED)
    except Exception:
        pass
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": cov["trusted_base"] + sorted({"precondition: " + x for r in results for x in r.get("requires", [])}),
        "wall_s": round(time.time() - T0, 2), "violations": len(names) + len(fails),
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, default=str)
    log("%s: %d obligations, %d discharged, %d failed, %d undecided; real code: %s" % (prop, total, proved, len(failed), len(undecided), json.dumps(stat)[:300]))
    if verdict:
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if fails else " no-failing-input-found"))
    elif not ran and (undecided or not total):
        # nothing decided the property: this is no pass, and no violation that could be shown either
        log("WARNING: no obligation failed and the property could not be decided completely")
    sys.stdout.flush()
    sys.exit(verdict)


if __name__ == "__main__":
    main()
