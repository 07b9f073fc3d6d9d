"""C16: path constraints.  Oracle: exhaustive search for rules under the
restriction on an integer model of both designs."""
import itertools

from sim import history, mapping, maprun, solver
from sim.core import rng_for

BAD = ["unknown", "inner", "deeper", "big", "other enum", "word", "junk", "negative"]


def setup():
    solver.install()


def generate(rng, tier):
    spec = mapping.gen_problem(rng)
    if rng.random() < 0.5:
        run_time_field(spec, rng)
    ms = []
    for _ in range(rng.choice([2, 3, 4])):
        c = rng.random()
        ms.append(dict(ivar=rng.choice(maprun.IVARS), simple=True if spec["boxes"] else rng.random() < 0.5,
                       seed=rng.randrange(1 << 30), how="none" if c < 0.12 else rng.choice(BAD) if c < 0.3 else "good",
                       n=rng.choice([1, 1, 2]), vals=rng.choice([1, 1, 2, 3, 4, 6]), toward=rng.random() < 0.6, run_time=rng.random() < 0.5))
    ops = []
    for _ in range(rng.choice([4, 6, 8])):
        ops.append(dict(m=rng.randrange(len(ms)), ext=rng.random() < 0.6, seed=rng.randrange(1 << 30),
                        style=rng.choice(["mix", "rand", "zeros", "ones", "sparse"]), init=rng.choice([-1, -1, 0, 3]),
                        faults=[[rng.randint(1, 5), rng.choice(["unknown", "crash", "memout", "interrupt"])]] if rng.random() < 0.12 else []))
    return dict(spec=spec, ms=ms, ops=ops)


def run_time_field(spec, rng):
    """Makes an instruction field which some rule sets an ordinary input, given
    when the rule is used."""
    try:
        sols = list(itertools.islice(mapping.Problem(spec).solutions(budget=100_000, words=True), 5))
    except mapping.Budget:
        return
    if not sols:
        return
    binding = rng.choice(sols)[1]
    cand = []
    for x in spec["arch"]["ins"]:
        fs = [(x[0],)] if x[1][0] in mapping.LEAF else [(x[0], f[0]) for f in x[1][1]] if x[1][0] == "prod" else []
        for p in fs:
            t = x[1] if len(p) == 1 else dict(f[:2] for f in x[1][1])[p[1]]
            if x[2] and binding.get(p, "-")[0] == "k" and t[0] in mapping.LEAF and (t[0] != "enum" or t[1] in mapping.DENSE):
                cand.append((mapping.domain(t), p, x))
    if not cand:
        return
    d, p, x = rng.choice([c for c in cand if c[0] == max(cand)[0]])
    if len(p) == 2:
        x[1] = ["prod", [f[:2] + ([] if f[0] == p[1] else [True]) for f in x[1][1]]]
    x[2] = False


def pick(prob, m, rng, sols):
    """allowed: {arch leaf: [values]}"""
    A = prob.arch
    cand = [p for p, t, c in A.leaves if bool(c) != m["run_time"]] or [p for p, t, c in A.leaves]
    allowed = {}
    sol = rng.choice(sols)[1] if sols and m["toward"] else {}
    if m["run_time"] and m["toward"]:
        for p in rng.sample(cand, len(cand)):
            vs = None if A.const[p] else almost(prob, p, mapping.domain(A.leaf_t[p]), rng)
            if vs:
                return {p: vs}
    for p in rng.sample(cand, min(m["n"], len(cand))):
        d = mapping.domain(A.leaf_t[p])
        vs = rng.sample(range(d), min(m["vals"], d))
        if sol.get(p, ("",))[0] == "k" and rng.random() < 0.8:
            vs[rng.randrange(len(vs))] = sol[p][1]
        allowed[p] = sorted(set(vs), key=lambda x: rng.random())
    return allowed


def almost(prob, p, d, rng):
    """Values of a run-time leaf for most of which some rule is right."""
    vals = rng.sample(range(d), min(d, 16))
    try:
        for v in vals[:3]:
            for form, binding, ob in prob.solutions({p: [v]}, budget=60_000, words=True):
                if p not in binding:
                    continue
                good = [x for x in vals if prob.counterexample(prob.arch.forms[form][1], binding, ob, {p: [x]}, True) is None]
                bad = [x for x in vals if x not in good]
                if not bad:
                    break
                vs = rng.sample(bad, rng.choice([0, 1, 1])) + rng.sample(good, min(len(good), rng.choice([1, 2, 3, 5])))
                return vs if rng.random() < 0.6 else vs[::-1]
    except mapping.Budget:
        pass
    return None


def value(prob, t, v, rng):
    """A way of writing an allowed value."""
    from hwtypes import Bit, BitVector
    if t[0] == "enum":
        return getattr(mapping.ENUMS[t[1]], mapping.MEMBERS[t[1]][v])
    if t[0] == "bit":
        return rng.choice([v, bool(v), Bit(v)])
    if t[0] == "s":
        return rng.choice([v, BitVector[t[1]](v)])
    return rng.choice([v, v, BitVector[t[1]](v), v - (1 << t[1]) if v >> (t[1] - 1) else v])


def ill(prob, how, rng):
    """(path, value) of a constraint that must be refused, or None."""
    from hwtypes import Bit, BitVector
    A = prob.arch
    p, t, c = rng.choice(A.leaves)
    v = maprun.word(prob, t, 0)
    if how == "unknown":
        return rng.choice([("nowhere",), (p[0], "nowhere"), (), ("x" * len(A.real_path(p)),)]), v
    if how == "deeper":
        return A.real_path(p) + (rng.choice(["deeper", 0, v]),), v
    if how == "inner":
        inner = [p for p, t, c in A.leaves if len(p) > 1]
        if not inner:
            return None
        p = A.real_path(rng.choice(inner))
        return p[:rng.randrange(1, len(p))], rng.choice([v, 0, 1])
    if how in ("big", "negative"):
        w = 1 if t[0] == "bit" else prob.word_width(t)
        x = rng.randrange(1 << w, 4 << w) if how == "big" else -rng.randrange((1 << w) + 1, 4 << w)
        if t[0] == "enum" and rng.random() < 0.5:
            return A.real_path(p), BitVector[w + 2](x)
        return A.real_path(p), rng.choice([x, x, BitVector[w + 2](x)]) if how == "big" else x
    if how == "other enum":
        es = [p for p, t, c in A.leaves]
        p = rng.choice(es)
        t = A.leaf_t[p]
        e = rng.choice([n for n in mapping.ENUMS if t != ["enum", n]])
        return A.real_path(p), rng.choice(list(mapping.ENUMS[e].enumerate()))
    if how == "word":
        es = [p for p, t, c in A.leaves if t[0] == "enum" and t[1] not in mapping.DENSE]
        if not es:
            return None
        p = rng.choice(es)
        t = A.leaf_t[p]
        w = prob.word_width(t)
        return A.real_path(p), BitVector[w](rng.choice([x for x in range(1 << w) if prob.decode(t, x) is None]))
    if how == "junk":
        return A.real_path(p), rng.choice(["junk", object, [None]])
    raise AssertionError(how)


def execute(plan, ctx):
    from peak import family
    from peak.mapper.mapper import LoopException
    prob = mapping.Problem(plan["spec"])
    A = prob.arch
    rng = rng_for(plan["seed"], "stim")
    sols = []
    try:
        for s in prob.solutions(words=True):
            sols.append(s)
            if len(sols) > 20:
                break
    except mapping.Budget:
        pass
    built = []
    for m in plan["ms"]:
        ctx.steps += 1
        r = rng_for(m["seed"], "c")
        solver.CONTROL.reset(ctx, plan["seed"])
        allowed = {} if m["how"] == "none" else pick(prob, m, r, sols)
        cons = {}
        for p, vs in allowed.items():
            x = tuple(value(prob, A.leaf_t[p], v, r) for v in vs)
            cons[A.real_path(p)] = x[0] if len(x) == 1 and r.random() < 0.5 else x
        if m["how"] not in ("none", "good"):
            bad = ill(prob, m["how"], r)
            if bad is None:
                continue
            path, v = bad
            if path in cons:
                old = cons[path] if isinstance(cons[path], tuple) else (cons[path],)
                v = old + (v,)
            cons[path] = v
            before = dict(cons)
            try:
                maprun.mappers(prob, m, cons)
            except Exception as e:
                ctx.ev("refused", m["how"], type(e).__name__)
                ctx.cover.add(f"refused:{m['how']}:{type(e).__name__}")
                ctx.fault("ill:" + m["how"])
                continue
            ctx.fail("ill-accepted", f"constraints {before} with {m['how']} constraint {path}: {v!r} were accepted")
        given = dict(cons)
        am, im = maprun.mappers(prob, m, None if m["how"] == "none" else cons)
        ctx.check(cons == given, "constraints-changed", lambda: f"constraints {given} became {cons}")
        built.append((m, allowed, given, am, im))
    if not built:
        return
    answers = {}
    for op in plan["ops"]:
        ctx.steps += 1
        i = op["m"] % len(built)
        m, allowed, given, am, im = built[i]
        if i not in answers:
            try:
                some = next(prob.solutions(allowed, words=True), None)
                maybe = some or next(prob.solutions(allowed), None)
                answers[i] = some, maybe
            except mapping.Budget:
                answers[i] = None, True
                ctx.probe("undecided")
        some, maybe = answers[i]
        what = f"constraints {given} simple={m['simple']} ivar={m['ivar']} external={op['ext']} solver seed {op['seed']} {op['style']}"
        solver.CONTROL.reset(ctx, op["seed"], op["style"], op["faults"])
        solver.CONTROL.max_queries = 20000
        try:
            rr = im.solve("z3", external_loop=op["ext"], itr_limit=5000, num_init=op["init"])
        except LoopException:
            continue
        except BaseException as e:
            if solver.CONTROL.fired:
                ctx.ev("solver trouble", type(e).__name__)
                continue
            raise
        ctx.check(not solver.CONTROL.fired, "trouble-hidden", lambda: f"{what}: the solver failed, answer {maprun.show(rr)}")
        ctx.ev(what, rr is not None)
        if allowed:
            ctx.nontrivial = True
        ctx.cover.add(f"{len(allowed)}:{m['simple']}:{sorted(bool(A.const[p]) for p in allowed)}:{[len(v) for v in allowed.values()]}:{bool(some)}:{rr is not None}")
        if rr is None:
            ctx.probe("none")
            ctx.check(not some, "false-none", lambda: f"{what}: no rule reported, but this one is right: {some}")
            continue
        ctx.probe("rule")
        bad, got = maprun.read_rule(prob, rr, allowed)
        ctx.check(bad is None, "bad-rule", lambda: f"{what}: the rule {maprun.show(rr)} {bad}")
        choices, binding, ob = got
        judged = dict(binding)
        for p, vs in allowed.items():
            if p not in binding:
                continue
            if A.const[p] or binding[p][0] == "k":
                ctx.check(binding[p][0] == "k" and binding[p][1] in vs, "not-allowed",
                          lambda: f"{what}: the rule {maprun.show(rr)} gives {p} the value {binding[p]}, allowed are {vs}")
            if not A.const[p]:
                judged[p] = ("free",)
                ctx.probe("run-time restricted")
        ce = prob.counterexample(choices, judged, ob, allowed)
        ctx.check(ce is None, "wrong-rule", lambda: f"{what}: the rule {maprun.show(rr)} is wrong at {ce}")
        ctx.check(maybe, "false-rule", lambda: f"{what}: {maprun.show(rr)}, but no binding is right under the constraints")
        if not plan["spec"]["boxes"]:
            d = maprun.run_rule(prob, rr, binding, ob, rng, family.PyFamily(), allowed=allowed)
            ctx.check(d is None, "wrong-rule", lambda: f"{what}: the rule {maprun.show(rr)} run on the Python designs {d}")


generate, execute = history.with_past(generate, execute)
