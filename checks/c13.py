"""C13: no false "no rule", and solver trouble is reported.  Oracle: exhaustive
search for a rule on an integer model of both designs."""
from sim import history, mapping, maprun, solver


def setup():
    solver.install()


def generate(rng, tier):
    spec = mapping.gen_problem(rng)
    solves = []
    for _ in range(rng.choice([3, 4, 5])):
        d = dict(simple=True if spec["boxes"] else rng.random() < 0.5, ivar=rng.choice(maprun.IVARS), ext=rng.random() < 0.6,
                 seed=rng.randrange(1 << 30), style=rng.choice(["mix", "rand", "zeros", "ones", "sparse"]),
                 itr=rng.choice([0, 1, 2, 3, 1000, 1000]), init=rng.choice([-1, -1, -1, 0, 3]), faults=[])
        if rng.random() < 0.45:
            d["faults"] = [[rng.choice([1, 1, 2, 2, 3, 4, 5, 8]), rng.choice(["unknown", "unknown", "crash", "memout", "interrupt"])]
                           for _ in range(rng.choice([1, 1, 2]))]
        solves.append(d)
    return dict(spec=spec, solves=solves)


def execute(plan, ctx):
    from peak.mapper.mapper import LoopException
    prob = mapping.Problem(plan["spec"])
    try:
        some = next(prob.solutions(words=True), None)
        maybe = some or next(prob.solutions(), None)
    except mapping.Budget:
        ctx.probe("undecided")
        return
    ctx.probe("with a rule" if some else "without a rule" if not maybe else "arguable")
    ctx.ev("exists", bool(some), bool(maybe))
    mappers = {}
    for sv in plan["solves"]:
        ctx.steps += 1
        key = (sv["simple"], sv["ivar"])
        if key not in mappers:
            solver.CONTROL.reset(ctx, plan["seed"])
            mappers[key] = maprun.mappers(prob, sv)
        am, im = mappers[key]
        what = f"simple={sv['simple']} ivar={sv['ivar']} external={sv['ext']} limit={sv['itr']} solver seed {sv['seed']} {sv['style']}"
        for attempt in ("first", "retry"):
            faults = sv["faults"] if attempt == "first" else []
            itr = sv["itr"] if attempt == "first" else 5000
            solver.CONTROL.reset(ctx, sv["seed"], sv["style"], faults)
            solver.CONTROL.max_queries = 20000
            rr = err = None
            try:
                rr = im.solve("z3", external_loop=sv["ext"], itr_limit=itr, num_init=sv["init"])
            except BaseException as e:
                err = e
            fired, queries = solver.CONTROL.fired, solver.CONTROL.query
            ctx.ev(what, attempt, type(err).__name__, rr is not None, queries)
            ctx.cover.add(f"{attempt}:{sv['simple']}:{sv['ext']}:{bool(some)}:{rr is not None}:{type(err).__name__}:{fired[0][1] if fired else ''}")
            if fired:
                ctx.nontrivial = True
                ctx.check(err is not None, "trouble-hidden",
                          lambda: f"{what}: the solver failed at query {fired} and the mapper answered {maprun.show(rr)}")
                continue
            if isinstance(err, LoopException):
                ctx.check(sv["ext"] and queries >= itr, "limit-too-early",
                          lambda: f"{what}: gave up after {queries} queries, limit {itr}")
                ctx.fault("iteration_limit")
                ctx.nontrivial = True
                if attempt == "first":
                    continue
                break
            if err is not None:
                raise err
            if rr is None:
                ctx.check(not some, "false-none", lambda: f"{what}: {attempt}: no rule reported, but this one is right: {some}")
            else:
                ctx.check(maybe, "false-rule", lambda: f"{what}: {attempt}: {maprun.show(rr)}, but no binding is right")
                bad, got = maprun.read_rule(prob, rr)
                ctx.check(bad is None, "bad-rule", lambda: f"{what}: the rule {maprun.show(rr)} {bad}")
            if attempt == "first":
                break
    if some:
        ctx.nontrivial = True


generate, execute = history.with_past(generate, execute)
