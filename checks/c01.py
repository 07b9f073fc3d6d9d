"""C01: one closure/family/register generator/assembler gives one class per
arguments under any thread schedule.  Oracle: object identity over the recorded
history, and the behaviour of the same request built alone in a fresh process."""
import json

from sim import isa, reqs, sched
from sim.core import brief


def generate(rng, tier):
    w = reqs.gen_world(rng)
    nt = rng.choice([2, 2, 3, 4])
    base = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        r = reqs.gen_req(rng, w)
        base.append(r)
        if rng.random() < 0.6:
            base.append(reqs.mutate(rng, w, r))
    threads = []
    for k in range(nt):
        th = [rng.choice(base) if rng.random() < 0.9 else reqs.gen_req(rng, w)
              for _ in range(rng.randint(1, 3))]
        if k < 2 and base[0] not in th:
            th.insert(rng.randint(0, len(th)), base[0])
        threads.append(th)
    w.update(threads=threads, pre=[rng.choice(base) for _ in range(rng.choice([0, 0, 0, 1]))],
             sched=sched.gen_spec(rng, nt, rng.choice([150, 500, 1500])),
             pairs=rng.random() < 0.4, flood=rng.choice([0, 0, 0, 0, 0, 0, 0, 150, 300, 600]))
    return w


def flood(w, reqs_made, n):
    """A long-lived process asks for many other things in between."""
    from hwtypes import BitVector
    from hwtypes.adt import Tuple
    from peak.family import PyFamily
    A1, A2 = isa.assemblers()
    fam = PyFamily()
    kinds = {r[0] for r in reqs_made}
    for i in range(n):
        for c in {r[1] for r in reqs_made if r[0] == "fc"}:
            if w.plan["closures"][c][0] in ("acc", "attr"):
                w.fcs[c](fam, 4 + i % 60, i // 60)
            elif w.plan["closures"][c][0] == "alu":
                w.fcs[c](fam, 4 + i)
        if "reg" in kinds:
            fam.gen_register(BitVector[12], i, has_enable=bool(i & 1))
        if "areg" in kinds:
            fam.gen_attr_register(BitVector[12], i)
        T = Tuple[BitVector[i + 1], BitVector[5]]
        if "asm" in kinds:
            (A1 if i & 1 else A2)(T)
        if kinds & {"view", "adt_t"}:
            g = 1 + i & 1
            w.view_t(g, "bv")[T, A2 if g == 2 else A1, BitVector]


def execute(plan, ctx):
    w = reqs.World(plan)
    allreqs = {}
    for r in plan["pre"] + [r for th in plan["threads"] for r in th]:
        allreqs.setdefault(str(r), r)
    stim = plan["stim"]
    # what each request gives when made alone in a fresh process
    ref = {}
    for s, r in allreqs.items():
        ref[s] = isa.fork_eval(lambda: w.behave(r, w.get(r), stim))
    got = []
    for r in plan["pre"]:
        got.append(("pre", r, w.get(r)))
    s = sched.Sched(ctx, plan["sched"])
    results = [[] for _ in plan["threads"]]
    flying = {}
    peak_overlap = [0]

    def body(k):
        def fn(s):
            for r in plan["threads"][k]:
                key = str(w.key(r))
                flying[key] = flying.get(key, 0) + 1
                peak_overlap[0] = max(peak_overlap[0], flying[key])
                try:
                    obj = w.get(r)
                finally:
                    flying[key] -= 1
                results[k].append((r, obj))
        return fn
    for k in range(len(plan["threads"])):
        s.spawn(f"t{k}", body(k))
    for t in s.run():
        if t.error is not None:
            raise t.error
    ctx.cover.add(f"sched:{s.sigs & 0xffff}")
    ctx.fault("preemption", max(0, len(s.switches) - len(plan["threads"])))
    if peak_overlap[0] >= 2:
        ctx.nontrivial = True
        ctx.fault("overlapping_same_request")
    for k, rs in enumerate(results):
        got += [(f"t{k}", r, o) for r, o in rs]
    if plan.get("flood"):
        flood(w, list(allreqs.values()), plan["flood"])
        ctx.fault("flood_of_other_requests")
    for st, r in allreqs.items():
        got.append(("after", r, w.get(r)))
    first = {}
    for who, r, o in got:
        key = w.key(r)
        ctx.steps += 1
        ctx.probe("request:" + r[0])
        ctx.cover.add(f"{r[0]}:{r[2] if r[0] == 'fc' else r[1]}:{r[1] if r[0] == 'fc' else ''}")
        if key in first:
            ctx.check(first[key][1] is o, "two-objects",
                      lambda: f"{who} asked {r} and got another object than {first[key][0]} did")
        else:
            first[key] = (who, o, r)
    objs = list(first.items())
    for i, (ka, (wa, oa, ra)) in enumerate(objs):
        for kb, (wb, ob, rb) in objs[i + 1:]:
            if oa is ob and not same_by_design(w, ra, rb):
                ctx.fail("one-object", f"{ra} and {rb} got the same object")
    seen = set()
    for who, r, o in got:
        if (str(r), id(o)) in seen:
            continue
        seen.add((str(r), id(o)))
        b = json.loads(json.dumps(w.behave(r, o, stim)))
        ctx.ev(who, r[:3], b)
        ctx.check(b == ref[str(r)], "behaviour",
                  lambda: f"{who} {r}: behaves {b}, built alone {ref[str(r)]}")


def same_by_design(w, a, b):
    """Different requests that may legitimately share one object."""
    if w.bound(a) == w.bound(b):
        return True     # same arguments, passed in another style
    if a[0] != b[0]:
        return True     # e.g. a typed view obtained directly and through a family
    if a[0] in ("reg", "areg"):
        # two families of one type that differ only in their assembler
        ka, kb = w.key(a), w.key(b)
        return ka[1].rstrip("2") == kb[1].rstrip("2") and ka[2:] == kb[2:]
    return False
