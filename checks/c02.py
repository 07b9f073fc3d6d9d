"""C02: a build cut short leaves nothing behind.  Oracle: the same request in a
forked process in which nothing went wrong."""
import json
import logging
import os
import sys
import tempfile

from sim import designs, fsfault, isa, reqs, sched, solver
from sim.core import HarnessError, rng_for

ALSO = (designs.__file__,)


# requests that make something new every time
ONCE = ("map", "rule", "bad", "avf")


def setup():
    solver.install()


def generate(rng, tier):
    w = reqs.gen_world(rng, 2)
    w["stim"] = w["stim"][:4]
    w["closures"] += [["bb"], ["mapping"]]
    rs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        c = rng.random()
        if c < 0.1:
            r = ["map", 6, rng.randrange(4), rng.random() < 0.6, rng.random() < 0.4]
        elif c < 0.17:
            r = ["rule", 6, rng.randrange(4), rng.choice([0, 1, 3]), rng.randrange(2)]
        elif c < 0.24:
            r = ["bad", sorted(rng.sample(range(reqs.NMISUSES), 4))]
        elif c < 0.3:
            r = ["avf", rng.randrange(2), rng.choice([1, 2])]
        elif c < 0.4:
            r = ["fc", 5, rng.choice(reqs.FAMS), [], [], False]
        else:
            sub = dict(w, closures=w["closures"][:5])
            r = reqs.gen_req(rng, sub)
        rs.append(r)
        if r[0] not in ONCE and rng.random() < 0.4:
            rs.append(reqs.mutate(rng, w, r) if r[0] != "fc" or r[1] != 5 else r)
    steps = []
    for i in range(len(rs)):
        for _ in range(rng.choice([1, 1, 2, 3])):
            if rng.random() < 0.75:
                steps.append(["line", i, round(rng.random(), 6), round(rng.random(), 6),
                              rng.choice(["KeyboardInterrupt", "MemoryError", "OSError", "RuntimeError"])])
            else:
                steps.append(["fs", i, round(rng.random(), 6), rng.choice(["enospc", "eacces", "torn"]), round(rng.random(), 3)])
        if rng.random() < 0.3:
            steps.append(["spoil", i, rng.choice(["empty", "remove", "garbage", "half", "file"])])
        if rng.random() < 0.5:
            steps.append(["retry", i])
    if rng.random() < 0.4:
        rng.shuffle(steps)
    w.update(reqs=rs, steps=steps)
    return w


def contains(e, wanted):
    seen = set()
    while e is not None and id(e) not in seen:
        if e is wanted:
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


def execute(plan, ctx):
    w = reqs.World(plan)
    rs, stim = plan["reqs"], plan["stim"]
    solver.CONTROL.reset(ctx, plan["seed"])
    want = [isa.fork_eval(lambda: w.behave(r, w.get(r), stim)) for r in rs]
    have = {}
    tempfile.tempdir = os.getcwd()
    logging.disable(logging.CRITICAL)
    devnull = open(os.devnull, "w")

    def quietly(fn):
        old = sys.stdout
        sys.stdout = devnull
        try:
            return fn()
        finally:
            sys.stdout = old

    def retry(i, why):
        r = rs[i]
        obj = quietly(lambda: w.get(r))
        b = json.loads(json.dumps(quietly(lambda: w.behave(r, obj, stim))))
        ctx.ev(why, i, r[0], b)
        ctx.check(b == want[i], "behaviour",
                  lambda: f"{why} {r} after {done}: behaves {b}, in a clean process {want[i]}")
        if r[0] == "bad":
            b = json.loads(json.dumps(quietly(lambda: w.get(r))))
            ctx.check(b == want[i], "behaviour",
                      lambda: f"{why} {r}, repeated, after {done}: {b}, tried first in a clean process {want[i]}")
        if r[0] not in ONCE:
            again = w.get(r)
            ctx.check(again is obj, "not-stable", lambda: f"{why} {r}: two requests after a fault gave two objects")
            if i in have:
                ctx.check(have[i] is obj, "not-stable", lambda: f"{why} {r}: another object than before the fault")
            have[i] = obj

    done = []
    hits = 0
    for s in plan["steps"]:
        kind, i = s[0], s[1]
        if i >= len(rs):
            continue
        r = rs[i]
        ctx.steps += 1
        if kind == "retry":
            retry(i, "retry")
            continue
        if kind == "spoil":
            fsfault.spoil(None, ctx, s[2])
            if s[2] == "file":
                try:
                    quietly(lambda: w.get(r))
                except OSError:
                    pass
                fsfault.unspoil()
            else:
                retry(i, "retry after spoiled files")
            done.append(s)
            continue
        if kind == "line":
            def probe():
                with sched.Interrupter(ctx, record=True, also=ALSO) as it:
                    quietly(lambda: w.get(r))
                return it.lines
            lines = [tuple(x) for x in isa.fork_eval(probe)]
            nth = sched.pick_point(lines, s[2], s[3])
            if nth is None:
                continue
            it = sched.Interrupter(ctx, nth, s[4], also=ALSO)
            obj = None
            try:
                with it:
                    obj = quietly(lambda: w.get(r))
            except BaseException as e:
                err = e
            else:
                err = None
            if not it.fired:
                raise HarnessError("interrupt point not reached")
            hits += 1
            done.append([kind, i, it.where, s[4]])
            ctx.ev("interrupted", i, r[0], it.where, s[4], type(err).__name__)
            ctx.cover.add(f"{r[0]}:{it.where}:{lines[nth - 1][1]}")
            ctx.check(err is not None and contains(err, it.raised), "error-swallowed",
                      lambda: f"{s[4]} raised in {it.where} while serving {r} did not reach the caller (got {err!r})")
        else:
            def probe():
                with fsfault.Faulty(ctx) as f:
                    quietly(lambda: w.get(r))
                return f.ops
            ops = isa.fork_eval(probe)
            if not ops:
                continue
            with fsfault.Faulty(ctx, 1 + int(s[2] * len(ops)), s[4], s[3]) as f:
                try:
                    quietly(lambda: w.get(r))
                    err = None
                except Exception as e:
                    err = e
            ctx.ev("fsfault", i, r[0], f.fired, type(err).__name__)
            if f.fired is None:
                raise HarnessError("file fault not reached")
            hits += 1
            done.append([kind, i, f.fired])
            ctx.cover.add(f"{r[0]}:{f.fired}")
            ctx.check(err is not None, "error-swallowed", lambda: f"{f.fired} while serving {r} did not reach the caller")
    ctx.nontrivial = hits > 0
    for i in range(len(rs)):
        retry(i, "final")
