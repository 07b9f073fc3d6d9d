"""Runs with a past: one process works on several problems one after the other,
often ones that look alike."""
import copy

from . import mapping

SWAPS = {"add": ["sub"], "sub": ["add"], "and": ["or", "xor"], "or": ["and", "xor"], "xor": ["and", "or"]}


def relative(rng, spec, sides=("arch", "ir", "ir")):
    """A problem with the same interface and another meaning."""
    spec = copy.deepcopy(spec)
    nodes = []

    def walk(e):
        if isinstance(e, list):
            if len(e) == 3 and isinstance(e[0], str) and e[0] in SWAPS:
                nodes.append(e)
            for x in e:
                walk(x)
    side = spec[rng.choice(sides)]
    walk(side["body"])
    for e in rng.sample(nodes, min(len(nodes), rng.choice([1, 1, 2]))):
        e[0] = rng.choice(SWAPS[e[0]])
    if not nodes:
        side["body"] = side["body"][::-1] if len({str(o[1]) for o in side["outs"]}) == 1 else [
            ["inv", e] for e in side["body"]]
    return spec


def with_past(generate, execute, p=0.2, alike=0.6):
    def gen(rng, tier):
        first = generate(rng, tier)
        if rng.random() >= p:
            return first
        plans = [first]
        shared = rng.random() < 0.4
        for _ in range(rng.choice([1, 1, 2])):
            if rng.random() < alike:
                old = rng.choice(plans)
                plans.append(dict(copy.deepcopy(old), spec=relative(rng, old["spec"], ["ir"] if shared else ["arch", "ir", "ir"])))
            else:
                plans.append(generate(rng, tier))
        return dict(history=plans, shared=shared)

    def exe(plan, ctx):
        if "history" not in plan:
            return execute(plan, ctx)
        ctx.probe("with a past")
        if plan["shared"]:
            # one architecture mapper takes the instructions of several problems
            mapping.SHARED = {}
            for sub in plan["history"]:
                mapping.Problem(sub["spec"])
            ctx.probe("with a shared architecture")
        for k, sub in enumerate(plan["history"]):
            execute(dict(sub, seed=f"{plan['seed']}.{k}"), ctx)
    return gen, exe
