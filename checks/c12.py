"""C12: every rewrite rule returned is correct on all inputs.  Oracle: the
rule evaluated for every input on an integer model of both designs, and a
sample of it on the real Python designs."""
from sim import history, mapping, maprun, solver
from sim.core import rng_for


def setup():
    solver.install()


def gen_cfg(rng, boxes):
    return dict(simple=True if boxes else rng.random() < 0.5, ivar=rng.choice(maprun.IVARS))


def gen_solve(rng, faulty):
    d = dict(ext=rng.random() < 0.55, seed=rng.randrange(1 << 30), style=rng.choice(["mix", "rand", "zeros", "ones", "sparse"]),
             itr=rng.choice([2, 20, 20, 100]), init=rng.choice([-1, -1, 0, 3]), faults=[])
    if rng.random() < faulty:
        d["faults"] = [[rng.randint(1, 6), rng.choice(["unknown", "crash", "memout", "interrupt"])]]
    return d


def generate(rng, tier):
    spec = mapping.gen_problem(rng)
    cfgs = []
    for _ in range(rng.choice([1, 2, 2])):
        c = gen_cfg(rng, bool(spec["boxes"]))
        c["solves"] = [gen_solve(rng, 0.2) for _ in range(rng.choice([2, 3, 4]))]
        cfgs.append(c)
    return dict(spec=spec, cfgs=cfgs)


def execute(plan, ctx):
    from peak import family
    from peak.mapper.mapper import LoopException
    prob = mapping.Problem(plan["spec"])
    rng = rng_for(plan["seed"], "stim")
    for cfg in plan["cfgs"]:
        solver.CONTROL.reset(ctx, plan["seed"])
        am, im = maprun.mappers(prob, cfg)
        ctx.cover.add(f"forms:{len(prob.arch.forms)}:{cfg['simple']}:{cfg['ivar']}:{bool(plan['spec']['boxes'])}")
        for sv in cfg["solves"]:
            ctx.steps += 1
            solver.CONTROL.reset(ctx, sv["seed"], sv["style"], sv["faults"])
            solver.CONTROL.max_queries = 5000
            what = f"simple={cfg['simple']} ivar={cfg['ivar']} external={sv['ext']} solver seed {sv['seed']} {sv['style']}"
            try:
                rr = im.solve("z3", external_loop=sv["ext"], itr_limit=sv["itr"], num_init=sv["init"])
            except LoopException:
                ctx.ev("limit", what)
                continue
            except BaseException as e:
                if solver.CONTROL.fired:
                    ctx.ev("solver trouble", type(e).__name__)
                    continue
                raise
            ctx.check(not solver.CONTROL.fired, "error-swallowed",
                      lambda: f"{what}: the solver failed ({solver.CONTROL.fired}) and the mapper answered {maprun.show(rr)}")
            ctx.ev("rule", what, maprun.show(rr) if rr is None else "")
            if rr is None:
                continue
            bad, got = maprun.read_rule(prob, rr)
            ctx.check(bad is None, "bad-rule", lambda: f"{what}: the rule {maprun.show(rr)} {bad}")
            choices, binding, ob = got
            ctx.ev(sorted(map(str, binding.items())), ob)
            ctx.probe("rules")
            ctx.nontrivial = True
            ctx.cover.add(f"rule:{sum(b[0] == 'ir' for b in binding.values())}:{sum(b[0] == 'k' for b in binding.values())}:"
                          f"{sum(b[0] == 'free' for b in binding.values())}:{len(choices)}:{len(ob)}")
            ce = prob.counterexample(choices, binding, ob)
            ctx.check(ce is None, "wrong-rule", lambda: f"{what}: the rule {maprun.show(rr)} is wrong at {ce}")
            if not plan["spec"]["boxes"]:
                d = maprun.run_rule(prob, rr, binding, ob, rng, family.PyFamily())
                ctx.check(d is None, "wrong-rule", lambda: f"{what}: the rule {maprun.show(rr)} run on the Python designs {d}")


generate, execute = history.with_past(generate, execute)
