"""C14: verification accepts exactly the correct rules.  Oracle: the rule
evaluated for every input on an integer model of both designs."""
import itertools

from sim import history, mapping, maprun, solver
from sim.core import rng_for


def setup():
    solver.install()


def generate(rng, tier):
    spec = mapping.gen_problem(rng, ir_const=0.2)
    ops = []
    for _ in range(rng.choice([6, 10, 14])):
        c = rng.random()
        if c < 0.25:
            o = ["right", rng.randrange(1 << 20)]
        elif c < 0.75:
            o = ["damage", rng.randrange(1 << 20),
                 [rng.choice(["flip", "flip", "swap", "swap", "outs", "fix", "flip", "both", "both"]) for _ in range(rng.choice([1, 1, 1, 2, 3]))]]
        elif c < 0.85:
            o = ["random", rng.randrange(1 << 20)]
        elif c < 0.9:
            o = ["mapper", rng.randrange(1 << 20)]
        else:
            o = ["malformed", rng.randrange(1 << 20),
                 rng.choice(["arch path", "ir path", "out path", "out path2", "constant", "width", "unbound const", "missing", "missing ir", "inner path"])]
        f = []
        if rng.random() < 0.2:
            f = [[1, rng.choice(["unknown", "crash", "memout", "interrupt"])]]
        ops.append(o + [f, rng.choice(["mix", "rand", "zeros", "ones", "sparse"])])
    return dict(spec=spec, ops=ops)


def random_rule(prob, rng):
    form = rng.choice(prob.arch.forms)
    bs = list(itertools.islice(prob.bindings(form), 50))
    obs = list(prob.obindings())
    if not bs or not obs:
        return None
    b = rng.choice(bs)
    binding = {}
    for p, t in form[0]:
        binding[p] = (("ir", b[p]) if p in b else
                      ("k", rng.randrange(mapping.domain(t))) if prob.arch.const[p] else ("free",))
    return form[1], binding, rng.choice(obs)


def damage(prob, rule, how, rng):
    choices, binding, ob = rule
    A = prob.arch
    binding, ob = dict(binding), list(ob)
    for h in how:
        if h == "flip":
            ks = [p for p, b in binding.items() if b[0] == "k" and mapping.domain(A.leaf_t[p]) > 1]
            if ks:
                p = rng.choice(ks)
                binding[p] = ("k", rng.choice([v for v in range(mapping.domain(A.leaf_t[p])) if v != binding[p][1]]))
        elif h == "swap":
            prs = [(p, q) for p in binding for q in binding if str(p) < str(q) and A.leaf_t[p] == A.leaf_t[q]
                   and bool(A.const[p]) == bool(A.const[q]) and binding[p] != binding[q]]
            if prs:
                p, q = rng.choice(sorted(prs, key=str))
                binding[p], binding[q] = binding[q], binding[p]
        elif h == "outs":
            alt = [o for o in prob.obindings() if o != ob]
            if alt:
                ob = rng.choice(alt)
        elif h == "both":
            # one result of the instruction claimed on two outputs
            more = [(i, a) for i, a0 in ob for a in range(len(A.outs)) if a not in [y for x, y in ob] and A.outs[a][1] == prob.ir.outs[i][1]]
            if more:
                ob.insert(rng.randrange(len(ob) + 1), rng.choice(more))
        elif h == "fix":
            fs = [p for p, b in binding.items() if b[0] == "free"]
            if fs:
                p = rng.choice(sorted(fs, key=str))
                binding[p] = ("k", rng.randrange(mapping.domain(A.leaf_t[p])))
    return choices, binding, ob


def real_rule(prob, rule, rng):
    """(ibinding, obinding) lists for RewriteRule."""
    from peak.mapper.utils import Unbound
    choices, binding, ob = rule
    A, I = prob.arch, prob.ir
    ib = []
    for p, b in binding.items():
        t = A.leaf_t[p]
        v = Unbound if b[0] == "free" else I.real_path(b[1]) if b[0] == "ir" else maprun.word(prob, t, b[1])
        if b[0] == "k" and t[0] == "enum" and rng.random() < 0.3:
            v = getattr(mapping.ENUMS[t[1]], mapping.MEMBERS[t[1]][b[1]])
        ib.append((v, A.real_path(p)))
    rng.shuffle(ib)
    outs = [(I.out_path(i), A.out_path(a)) for i, a in ob]
    outs += [(Unbound, A.out_path(a)) for a in range(len(A.outs)) if a not in [x for i, x in ob]]
    rng.shuffle(outs)
    return ib, outs


def malform(prob, how, ib, ob, rng):
    """Damage beyond meaning; None when not applicable."""
    from hwtypes import Bit, BitVector
    from peak.mapper.utils import Unbound
    A = prob.arch
    j = rng.randrange(len(ib))
    ib, ob = list(ib), list(ob)
    rev = {A.real_path(p): p for p, t, c in A.leaves}
    if how == "arch path":
        ib[j] = (ib[j][0], ("nowhere",))
    elif how == "inner path":
        ib[j] = (ib[j][0], ib[j][1] + ("deeper",))
    elif how == "ir path":
        js = [i for i, (x, y) in enumerate(ib) if isinstance(x, tuple)]
        j = rng.choice(js)
        ib[j] = (("nowhere",), ib[j][1])
    elif how == "out path":
        js = [i for i, (x, y) in enumerate(ob) if x is not Unbound]
        j = rng.choice(js)
        ob[j] = (("nowhere",), ob[j][1])
    elif how == "out path2":
        js = [i for i, (x, y) in enumerate(ob) if x is not Unbound]
        j = rng.choice(js)
        ob[j] = (ob[j][0], ("nowhere",))
    elif how == "constant":
        js = [i for i, (x, y) in enumerate(ib) if A.leaf_t[rev[y]][0] == "enum" and A.leaf_t[rev[y]][1] in ("E3", "F3")
              and not isinstance(x, tuple)]
        if not js:
            return None
        j = rng.choice(js)
        t = A.leaf_t[rev[ib[j][1]]]
        w = prob.word_width(t)
        bad = [v for v in range(1 << w) if prob.decode(t, v) is None]
        ib[j] = (BitVector[w](rng.choice(bad)), ib[j][1])
    elif how == "width":
        js = [i for i, (x, y) in enumerate(ib) if not isinstance(x, tuple) and x is not Unbound]
        if not js:
            return None
        j = rng.choice(js)
        w = prob.word_width(A.leaf_t[rev[ib[j][1]]]) or 1
        n = w + rng.choice([1, 3])
        # a value that does not fit
        v = rng.randrange(1 << w, 1 << n)
        ib[j] = (rng.choice([v, BitVector[n](v)]), ib[j][1])
    elif how == "unbound const":
        js = [i for i, (x, y) in enumerate(ib) if A.const[rev[y]] and not isinstance(x, tuple)]
        if not js:
            return None
        j = rng.choice(js)
        ib[j] = (Unbound, ib[j][1])
    elif how == "missing":
        del ib[j]
    elif how == "missing ir":
        js = [i for i, (x, y) in enumerate(ib) if isinstance(x, tuple)]
        j = rng.choice(js)
        p = rev[ib[j][1]]
        ib[j] = (maprun.word(prob, A.leaf_t[p], 0), ib[j][1])
    return ib, ob


def execute(plan, ctx):
    from peak.mapper import RewriteRule
    prob = mapping.Problem(plan["spec"])
    rng = rng_for(plan["seed"], "rules")
    solver.CONTROL.reset(ctx, plan["seed"])
    try:
        sols = list(itertools.islice(prob.solutions(words=True), 6))
    except mapping.Budget:
        sols = []
    ctx.probe("with a rule" if sols else "without a rule")
    for op in plan["ops"]:
        ctx.steps += 1
        kind, seed = op[0], op[1]
        faults, style = op[-2], op[-1]
        r = rng_for(plan["seed"], seed)
        if kind == "mapper":
            solver.CONTROL.reset(ctx, seed, style)
            am, im = maprun.mappers(prob, dict(simple=True, ivar="OneHot"))
            rr = im.solve("z3", external_loop=True, itr_limit=500)
            if rr is None:
                continue
            bad, rule = maprun.read_rule(prob, rr)
            ctx.check(bad is None, "bad-rule", lambda: f"the rule {maprun.show(rr)} {bad}")
        else:
            rule = (r.choice(sols)[:] if sols and kind != "random" else None)
            if rule is not None:
                fi, b, ob = rule
                rule = prob.arch.forms[fi][1], b, ob
            else:
                rule = random_rule(prob, r)
            if rule is None:
                continue
            if kind == "damage":
                rule = damage(prob, rule, op[2], r)
                for h in op[2]:
                    ctx.fault("rule:" + h)
            ib, obn = real_rule(prob, rule, r)
            if kind == "malformed":
                bad = malform(prob, op[2], ib, obn, r)
                if bad is None:
                    continue
                ctx.fault("malformed:" + op[2])
                solver.CONTROL.reset(ctx, seed, style)
                try:
                    res = RewriteRule(*bad, prob.ir.closure(), prob.arch.closure()).verify()
                except Exception as e:
                    ctx.ev("refused", op[2], type(e).__name__)
                    ctx.cover.add(f"malformed:{op[2]}:{type(e).__name__}")
                    continue
                ctx.fail("malformed-accepted", f"a rule with a bad {op[2]} was verified with answer {res}: {bad}")
            rr = RewriteRule(ib, obn, prob.ir.closure(), prob.arch.closure())
        judge(ctx, prob, rr, rule, kind, (seed, style, faults))
    rng.random()


def judge(ctx, prob, rr, rule, kind, sol):
    """rr.verify() tells the truth about rr, which stands for rule."""
    seed, style, faults = sol
    A, I = prob.arch, prob.ir
    choices, binding, ob = rule
    wrong = prob.counterexample(choices, binding, ob)
    wrongw = wrong or prob.counterexample(choices, binding, ob, words=True)
    solver.CONTROL.reset(ctx, seed, style, faults)
    what = f"{maprun.show(rr)}"
    try:
        res = rr.verify()
    except BaseException as e:
        if solver.CONTROL.fired:
            ctx.ev("solver trouble", type(e).__name__)
            solver.CONTROL.reset(ctx, seed, style)
            res = rr.verify()
        else:
            raise
    ctx.check(not solver.CONTROL.fired, "trouble-hidden", lambda: f"{what}: the solver failed, verify returned {res}")
    ctx.ev(kind, bool(wrong), res is None)
    ctx.cover.add(f"{kind}:{bool(wrong)}:{len(choices)}:{sum(b[0] == 'free' for b in binding.values())}:{bool(prob.spec['boxes'])}")
    ctx.nontrivial = ctx.nontrivial or bool(wrong)
    if res is None:
        ctx.check(not wrong, "wrong-accepted", lambda: f"verify accepted {what}, wrong at {wrong}")
        return None
    ctx.check(wrongw, "right-refused", lambda: f"verify refused {what} with {res}, right for every input")
    # the counterexample really is one
    irv, frv = res
    A, I = prob.arch, prob.ir
    want_i = {I.real_path(p) for p, t, c in I.leaves}
    want_f = {A.real_path(p) for p, b in binding.items() if b[0] == "free"}
    ctx.check(set(irv) == want_i and set(frv) == want_f, "bad-counterexample",
              lambda: f"{what}: counterexample {res} is not about the inputs {want_i} {want_f}")
    iv = {p: dec(prob, t, irv[I.real_path(p)]) for p, t, c in I.leaves}
    av = {p: (b[1] if b[0] == "k" else iv[b[1]] if b[0] == "ir" else dec(prob, A.leaf_t[p], frv[A.real_path(p)]))
          for p, b in binding.items()}
    ctx.check(differs(prob, choices, iv, av, ob), "bad-counterexample",
              lambda: f"{what}: the two sides agree on the counterexample {res}")
    if not prob.spec["boxes"] and -1 not in iv.values() and -1 not in av.values():
        from peak import family
        fam = family.PyFamily()
        ii, ai = rr.build_inputs(irv, frv, fam)
        io, ao = I.closure()(fam)()(**ii), A.closure()(fam)()(**ai)
        io = io if isinstance(io, tuple) else (io,)
        ao = ao if isinstance(ao, tuple) else (ao,)
        ctx.check(any(int(io[i]) != int(ao[a]) for i, a in ob), "bad-counterexample",
                  lambda: f"{what}: the Python designs agree on the counterexample {res}")
    return res


def dec(prob, t, w):
    v = prob.decode(t, int(w))
    return -1 if v is None else v


def differs(prob, choices, iv, av, ob):
    A, I = prob.arch, prob.ir
    a, i = A.vector(av, choices), I.vector(iv, {})
    calls = [(n, "a") for n in A.calls] + [(n, "i") for n in I.calls]
    odoms = [list(itertools.product(*[range(2 if w == 0 else 1 << w) for w in prob.spec["boxes"][c[0]]["outs"]]))
             for c, s in calls]
    for os_ in itertools.product(*odoms):
        ao, ains = A.fn(a, os_[:len(A.calls)])
        io, iins = I.fn(i, os_[len(A.calls):])
        allins = ains + iins
        if any(calls[x][0][0] == calls[y][0][0] and allins[x] == allins[y] and os_[x] != os_[y]
               for x in range(len(calls)) for y in range(x)):
            continue
        if any(io[x] != ao[y] for x, y in ob):
            return True
    return False


generate, execute = history.with_past(generate, execute)
