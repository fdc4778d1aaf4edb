"""Runs the harnesses of one property: path exploration in parallel, replay of every counterexample, evidence."""
from __future__ import annotations

import faulthandler
import importlib
import json
import multiprocessing as mp
import os
import pickle
import random
import signal
import sys
import time
import traceback

from . import harness as H
from .core import Engine, StopAll, z3
from .harness import REPO, RealCtx, ReplayInvalid, ReplayViolation, SymCtx, concrete_inputs, nice_model

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Harness:
    def __init__(self, body, name=None, params=(None,), thorough=None, mode="exact", covers=(), bounds="", max_branches=3000, max_ticks=20000, query_ms=15000, replay_s=20, hang_is_violation=True):
        self.body = body
        self.name = name or body.__name__
        self.params = list(params)
        self.thorough = list(thorough) if thorough is not None else None
        self.mode = mode
        self.covers = list(covers)
        self.bounds = bounds
        self.max_branches = max_branches
        self.max_ticks = max_ticks
        self.query_ms = query_ms
        self.replay_s = replay_s
        self.hang_is_violation = hang_is_violation

    def plist(self, tier):
        return self.thorough if tier == "thorough" and self.thorough is not None else self.params


_FACT = None


def loader_factory():
    global _FACT
    from .model_pa import make_all
    from .xform import Loader

    if _FACT is None:
        _FACT = make_all()
    return Loader(_FACT)


# --------------------------------------------------------------------------------------------- exploring one job
def run_job(h: Harness, params, prefixes, seed, slice_s, max_wit):
    e = Engine(float_mode=h.mode, query_timeout_ms=h.query_ms, max_branches=h.max_branches, max_ticks=h.max_ticks)
    t0 = time.time()
    e.deadline = None
    soft = t0 + slice_s
    res = dict(paths=0, ok=0, checks=0, cands=[], covers=set(), wits=[], unsupported={}, undecided=0, leftover=[], transitions=0, hangs=0)
    cur = {}
    rnd = random.Random(seed)
    seen_msgs: dict = {}

    def on_check(ctx, cond, msg):
        res["checks"] += 1
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if e.pos < len(e.prefix):
            # already examined on the path this prefix was split from
            e.solver.add(cond)
            e.model = None
            return
        neg = z3.Not(cond)
        r = e.check_abstract(neg) if h.mode == "fp" else z3.unknown
        if h.mode == "fp" and r == z3.sat:
            r = e.check_abstract(neg, conv=False)
        if r != z3.unsat:
            r = e.check(neg)
        if r == z3.sat:
            fb, e._fb_model = e._fb_model, None
            k = seen_msgs.get(msg, 0)
            seen_msgs[msg] = k + 1
            if k < 6:
                m = fb if h.mode == "fp" and fb is not None else nice_model(e, ctx, [neg])
                ms = [m] if m is not None else []
                if h.mode == "rn" and k < 2:
                    ms += H.diverse_models(e, ctx, [neg], 6, rnd)
                for m in ms:
                    res["cands"].append(dict(msg=msg, values=concrete_inputs(ctx, m), kind="assertion"))
            # go on with the inputs that satisfy the assertion
            e.solver.add(cond)
            e.model = None
            r2 = e.check()
            if r2 == z3.unsat:
                from .core import Infeasible

                raise Infeasible
            return
        if r == z3.unknown:
            res["undecided"] += 1
            res["unsupported"]["solver: unknown on assertion: " + msg] = res["unsupported"].get("solver: unknown on assertion: " + msg, 0) + 1
        e.solver.add(cond)
        if e.model is not None and not z3.is_true(e.model.eval(cond, model_completion=True)):
            e.model = None

    def fn():
        ctx = SymCtx(e, loader_factory, params)
        ctx.on_check = on_check
        cur["ctx"] = ctx
        h.body(ctx)

    def on_end(eng, outcome, val):
        ctx = cur["ctx"]
        res["covers"] |= ctx.covered
        if outcome == "infeasible":
            return False
        res["paths"] += 1
        res["transitions"] += len(eng.trace) + 1

        def witness():
            try:
                m = nice_model(eng, ctx, [], 600)
                return None if m is None else concrete_inputs(ctx, m)
            except Exception:  # noqa: BLE001
                return None

        if outcome == "ok":
            res["ok"] += 1
            if len(res["wits"]) < max_wit or rnd.random() < max_wit / (res["ok"] + 1):
                w = witness()
                if w is not None:
                    w = dict(values=w, kind="path")
                    if len(res["wits"]) < max_wit:
                        res["wits"].append(w)
                    else:
                        res["wits"][rnd.randrange(len(res["wits"]))] = w
        elif outcome == "exception":
            msg = f"unexpected {type(val).__name__}: {val}"[:300]
            kind = "memory" if type(val).__name__ == "MemoryUnsafe" else "exception"
            key = msg[:80]
            if seen_msgs.get(key, 0) < 4:
                seen_msgs[key] = seen_msgs.get(key, 0) + 1
                w = witness()
                tb = "".join(traceback.format_exception(val)[-12:])[-2500:]
                if w is not None:
                    res["cands"].append(dict(msg=msg, values=w, kind=kind, tb=tb))
                else:
                    res["undecided"] += 1
        elif outcome in ("hang", "budget"):
            key = outcome + str(val)
            if seen_msgs.get(key, 0) < 3:
                seen_msgs[key] = seen_msgs.get(key, 0) + 1
                w = witness()
                if w is not None:
                    res["cands"].append(dict(msg=f"does not finish ({val})", values=w, kind="hang" if outcome == "hang" else "budget"))
            if outcome == "budget":
                res["undecided"] += 1
                k = "budget: " + str(val)
                res["unsupported"][k] = res["unsupported"].get(k, 0) + 1
        else:
            k = str(val)[:160]
            res["undecided"] += 1
            n = res["unsupported"][k] = res["unsupported"].get(k, 0) + 1
            if n <= 4:
                if n == 1 and os.environ.get("SX_DEBUG"):
                    print("UNSUPPORTED", k, "".join(traceback.format_tb(eng.last_tb)[-7:]), eng.trace, file=sys.stderr)
                w = witness()
                if w is not None:
                    res["cands"].append(dict(msg="", values=w, kind="unsupported"))
        return False

    stack = [list(p) for p in prefixes]
    while stack:
        if time.time() > soft:
            break
        n, stack = e.explore(fn, on_end, prefixes=stack, max_paths=1)
    res["leftover"] = stack
    res.update(queries=e.queries, solver_s=e.solver_s, unknown=e.unknown, functions=e.functions)
    return res


# --------------------------------------------------------------------------------------------- replay
def replay(h: Harness, params, values, timeout, found=False):
    """Run the body on the real code in a child process. Returns (verdict, message).

    A failure found under a schedule of the threads is tried as it comes, then with the schedule enforced."""
    r = _replay(h, params, values, timeout, False)
    if found and r[0] != "violation" and values.get("!schedule"):
        r = _replay(h, params, values, timeout, True)
    return r


def _replay(h: Harness, params, values, timeout, forced):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.setsid()
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 2)
            os.dup2(devnull, 1)
            faulthandler.disable()
            try:
                ctx = RealCtx(values, params, forced)
                h.body(ctx)
                out = ("ok", "")
            except ReplayViolation as x:
                out = ("violation", str(x))
            except ReplayInvalid as x:
                out = ("invalid", str(x))
            except BaseException as x:  # noqa: BLE001
                out = ("violation", f"unexpected {type(x).__name__}: {x}"[:300])
            os.write(w, json.dumps(out).encode())
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    t0 = time.time()
    data = b""
    import select

    verdict = None
    while True:
        left = timeout - (time.time() - t0)
        if left <= 0:
            verdict = ("violation", f"the call does not return (no result after {timeout} s)")
            break
        if select.select([r], [], [], left)[0]:
            d = os.read(r, 65536)
            if not d:
                break
            data += d
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    _, st = os.waitpid(pid, 0)
    if verdict:
        return verdict
    if data:
        return tuple(json.loads(data))
    return ("violation", f"the process died (status {st})")


# --------------------------------------------------------------------------------------------- pool
def _worker(conn, harnesses):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(20000)
    z3.set_param("memory_max_size", 3500)
    while True:
        try:
            job = conn.recv()
        except EOFError:
            return
        if job is None:
            return
        hi, params, prefixes, seed, slice_s, max_wit = job
        try:
            res = run_job(harnesses[hi], params, prefixes, seed, slice_s, max_wit)
        except BaseException as x:  # noqa: BLE001
            res = dict(error=f"{type(x).__name__}: {x}\n" + traceback.format_exc()[-2000:])
        import resource

        big = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > 1_200_000
        res["last"] = big
        conn.send(pickle.dumps(res))
        if big:
            return  # a fresh process takes over


class Check:
    def __init__(self, prop, harnesses, tier, budget_s, seed, verbose=False, procs=None):
        self.prop, self.hs, self.tier, self.budget = prop, harnesses, tier, budget_s
        self.seed = seed
        self.verbose = verbose
        self.procs = procs or min(8, len(os.sched_getaffinity(0)))

    def run(self):
        t0 = time.time()
        ctxm = mp.get_context("fork")
        jobs = []
        stats = []
        for hi, h in enumerate(self.hs):
            for p in h.plist(self.tier):
                jobs.append((hi, p, [[]]))
            stats.append(dict(name=h.name, bounds=h.bounds, params=len(h.plist(self.tier)), paths=0, ok=0, checks=0, covers=set(), unsupported={}, undecided=0, queries=0, solver_s=0.0, unknown=0, transitions=0, cands=[], wits=[], functions=set(), errors=[], left=0))
        jobs = jobs[::-1]
        ws = []
        for _ in range(self.procs):
            a, b = ctxm.Pipe()
            p = ctxm.Process(target=_worker, args=(b, self.hs), daemon=True)
            p.start()
            b.close()
            ws.append([p, a, None, 0.0])
        rnd = random.Random(self.seed)
        deadline = t0 + self.budget
        slice_s = 1.0 if self.tier == "quick" else 6.0
        self.reals = {}
        njob = 0
        retries = 16
        try:
            while True:
                idle = [w for w in ws if w[2] is None]
                if time.time() < deadline:
                    # split when there are fewer jobs than idle workers
                    while jobs and len(jobs) < len(idle):
                        k = max(range(len(jobs)), key=lambda i: len(jobs[i][2]))
                        hi, p, pre = jobs[k]
                        if len(pre) < 2:
                            break
                        jobs[k : k + 1] = [(hi, p, pre[::2]), (hi, p, pre[1::2])]
                    while jobs and idle:
                        w = idle.pop()
                        job = jobs.pop()
                        njob += 1
                        w[2] = job
                        w[3] = time.time()
                        try:
                            sl = slice_s if njob > self.procs * 2 else 0.4
                            w[1].send((*job, self.seed * 1000 + njob, sl, 2 if self.tier == "quick" else 4))
                        except (BrokenPipeError, OSError):
                            pass
                busy = [w for w in ws if w[2] is not None]
                if not busy:
                    break
                ready = mp.connection.wait([w[1] for w in busy], timeout=1.0)
                for w in busy:
                    if w[1] in ready:
                        try:
                            res = pickle.loads(w[1].recv())
                        except (EOFError, OSError):
                            res = dict(error="worker died")
                            self._respawn(w, ctxm)
                            if retries > 0:
                                # once more in a fresh process, before the job is given up
                                retries -= 1
                                jobs.append(w[2])
                                w[2] = None
                                continue
                        if res.get("last"):
                            self._respawn(w, ctxm)
                        job, w[2] = w[2], None
                        self._merge(stats, job, res, jobs)
                    elif time.time() - w[3] > slice_s + 90 + 2 * self.hs[w[2][0]].query_ms / 1000:
                        w[0].kill()
                        job = w[2]
                        self._respawn(w, ctxm)
                        w[2] = None
                        self._merge(stats, job, dict(error="job overran its time"), jobs)
                if time.time() > deadline + 60 + max((2 * self.hs[w[2][0]].query_ms / 1000 for w in busy if w[2]), default=0):
                    break
        finally:
            for w in ws:
                w[0].kill()
        for hi, p, pre in jobs:
            stats[hi]["left"] += len(pre)
        for w in ws:
            if w[2] is not None:
                stats[w[2][0]]["left"] += len(w[2][2])
        self.stats = stats
        self.explore_s = time.time() - t0
        return stats

    def _respawn(self, w, ctxm):
        try:
            w[0].kill()
        except Exception:  # noqa: BLE001
            pass
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=_worker, args=(b, self.hs), daemon=True)
        p.start()
        b.close()
        w[0], w[1] = p, a

    def _merge(self, stats, job, res, jobs):
        hi, p, pre = job
        s = stats[hi]
        if "error" in res:
            s["errors"].append(res["error"])
            s["undecided"] += 1
            if self.verbose:
                print("ERROR", s["name"], p, res["error"], file=sys.stderr)
            return
        for k in ("paths", "ok", "checks", "undecided", "queries", "solver_s", "unknown", "transitions"):
            s[k] += res[k]
        s["covers"] |= res["covers"]
        s["functions"] |= res["functions"]
        for k, v in res["unsupported"].items():
            s["unsupported"][k] = s["unsupported"].get(k, 0) + v
        s["cands"] += [(p, c) for c in res["cands"]]
        s["wits"] += [(p, c) for c in res["wits"]]
        left = res["leftover"]
        if left:
            n = min(4, max(1, len(left) // 2))
            for i in range(n):
                if left[i::n]:
                    jobs.append((hi, p, left[i::n]))


def load_known(path):
    """known findings: property -> list of (harness, message prefix)"""
    out = []
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: "):
                out.append(json.loads(line[len("known: ") :]))
    return out


def main(prop, title, harnesses, tier, *, budget=None, seed=1, verbose=False, assumptions=(), out_dir=None, only=None):
    t0 = time.time()
    if only:
        harnesses = [h for h in harnesses if h.name in only]
    budget = budget or (400 if tier == "quick" else 700)
    # the real code is imported once, before forking
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    import_error = None
    try:
        importlib.import_module("rxls.reader")
    except BaseException as x:  # noqa: BLE001
        import_error = x
    c = Check(prop, harnesses, tier, budget, seed, verbose)
    stats = c.run()
    rnd = random.Random(seed)
    violations = []
    known_hits = []
    unreproduced = []
    validated = 0
    val_bad = 0
    known = [k for k in load_known(os.path.join(VERIF, "known_findings.txt")) if k["property"] == prop]

    def report(h, p, c, verdict):
        msg = verdict[1]
        for k in known:
            if k["harness"] == h.name and msg.startswith(k["message"]):
                if k not in known_hits:
                    known_hits.append(k)
                return
        violations.append(dict(property=prop, harness=h.name, params=p, values=c["values"], kind=c["kind"], claim=c.get("msg", ""), observed=msg))

    rep_deadline = time.time() + (100 if tier == "quick" else 300)
    for h, s in zip(harnesses, stats):
        tried: dict = {}
        shown = set()
        for p, cand in s["cands"]:
            key = (cand["kind"], cand["msg"][:60])
            if tried.get(key, 0) >= (16 if h.mode == "rn" else 5) or time.time() > rep_deadline:
                continue
            if (key in shown) and not verbose:
                continue
            tried[key] = tried.get(key, 0) + 1
            v = replay(h, p, cand["values"], h.replay_s, True)
            if v[0] == "violation":
                shown.add(key)
                report(h, p, cand, v)
            elif cand["kind"] in ("assertion", "exception", "memory", "hang"):
                unreproduced.append(dict(harness=h.name, params=p, values=cand["values"], msg=cand["msg"], replay=v, tb=cand.get("tb", "")))
        wits = s["wits"]
        rnd.shuffle(wits)
        for p, cand in wits[: (12 if tier == "quick" else 60)]:
            if time.time() > rep_deadline:
                break
            v = replay(h, p, cand["values"], h.replay_s)
            if v[0] == "ok":
                validated += 1
            elif v[0] == "violation":
                val_bad += 1
                report(h, p, cand, v)
            elif verbose:
                print("invalid witness", h.name, p, cand["values"], v)
    # messages that some replay reproduced are settled
    rep_msgs = {(v["harness"], v["claim"][:60]) for v in violations}
    unreproduced = [u for u in unreproduced if (u["harness"], u["msg"][:60]) not in rep_msgs]

    undecided = []
    for h, s in zip(harnesses, stats):
        miss = [x for x in h.covers if x not in s["covers"]]
        for k, n in s["unsupported"].items():
            undecided.append(f"{h.name}: {n} path(s): {k}")
        for x in s["errors"]:
            undecided.append(f"{h.name}: job error: {x.splitlines()[0]}")
        if s["left"]:
            undecided.append(f"{h.name}: {s['left']} path prefixes left unexplored within the time budget")
        if miss and not s["left"] and not s["unsupported"] and not any(v["harness"] == h.name for v in violations):
            undecided.append(f"{h.name}: not reached on any path: {', '.join(miss)}")
    for u in unreproduced:
        undecided.append(f"{u['harness']}: counterexample not reproduced on the real code: {u['msg']} {json.dumps(u['values'], default=str)[:200]}")
        if verbose:
            print("UNREPRODUCED", json.dumps(u, default=str, indent=1))

    out_dir = out_dir or os.path.join(VERIF, "evidence")
    os.makedirs(out_dir, exist_ok=True)
    samples = []
    for h, s in zip(harnesses, stats):
        for p, w in s["wits"][:2]:
            samples.append(dict(harness=h.name, params=repr(p), inputs=w["values"]))
    T = lambda k: sum(s[k] for s in stats)
    functions = sorted(set().union(*[s["functions"] for s in stats])) if stats else []
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=T("paths"),
            transitions=T("transitions"),
            traces_validated_against_impl=validated,
            samples=samples[:24],
            exhaustive=not undecided,
            paths_decided=T("ok"),
            assertions_checked=T("checks"),
            queries=T("queries"),
            solver_s=round(T("solver_s"), 2),
            solver_unknown=T("unknown"),
            functions_encoded=functions,
            harnesses=[dict(name=s["name"], bounds=s["bounds"], configurations=s["params"], paths=s["paths"], assertions=s["checks"], queries=s["queries"], solver_s=round(s["solver_s"], 2), undecided=s["undecided"], unexplored_prefixes=s["left"], reached=sorted(s["covers"])) for s in stats],
            undecided=undecided[:60],
            known_findings=[k["id"] for k in known_hits],
            explanation="states = feasible symbolic paths of the instrumented current source; transitions = branch decisions on them; each assertion is decided by z3 for all inputs of its path; sampled path witnesses are executed on the real code",
        ),
        assumptions=list(assumptions),
        wall_s=round(time.time() - t0, 2),
        violations=len(violations),
    )
    tmp = os.path.join(out_dir, f".{prop}.json.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    os.replace(tmp, os.path.join(out_dir, f"{prop}.json"))

    print(f"{prop} {title}: {T('paths')} paths, {T('checks')} assertions, {T('queries')} queries, solver {T('solver_s'):.1f} s, explored in {c.explore_s:.1f} s, wall {time.time() - t0:.1f} s, {validated} witnesses agree with the real code")
    if verbose:
        for s in stats:
            print(f"   {s['name']}: {s['paths']} paths ({s['ok']} ok), {s['checks']} checks, {s['queries']} queries, solver {s['solver_s']:.1f} s, left {s['left']}, covers {sorted(s['covers'])}")
    for k in known_hits:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for u in undecided[:20]:
        print(f"INCONCLUSIVE property={prop} {u}")
    if violations:
        # every distinct failure gets its own replay file; one VIOLATION line each
        seen = set()
        n = 0
        for v in violations:
            key = (v["harness"], v["observed"][:60])
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(out_dir, f"{prop}.violation{n}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1, default=str)
            print(f"VIOLATION property={prop} replay={path}  [{v['harness']}] {v['observed']}")
            if verbose:
                print("   ", json.dumps(dict(params=v["params"], values=v["values"], claim=v["claim"]), default=str)[:600])
            n += 1
            if n >= 8:
                break
        return 1
    if import_error is not None:
        print(f"INCONCLUSIVE property={prop} the code under test cannot be imported: {import_error!r}")
    if T("paths") == 0 or (T("ok") == 0 and not known_hits):
        print(f"ERROR property={prop}: nothing could be decided")
        return 3
    return 0
