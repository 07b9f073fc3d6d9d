"""C03: histories of assembling other types, and concurrent use, never change
what an assembler says about a type.  Oracle: the same observation made alone
in a fresh copy of the process."""
from sim import adt, isa, sched
from sim.core import brief


def related(rng, t):
    """A type likely to interfere with t: same name / opcodes / field names."""
    k = t[0]
    if k == "enum":
        m = [list(x) for x in t[2]]
        how = rng.choice(["more", "rename", "wider", "offset"])
        if how == "more":
            m = m + [["extra", max([v or 0 for _, v in m]) + rng.randint(1, 9)]]
        elif how == "wider":
            codes = adt.enum_codes(t)
            m = [[n, codes[n]] for n, _ in m] + [["top", 31]]
        elif how == "offset":
            codes = adt.enum_codes(t)
            m = [[n, codes[n] + 1] for n, _ in m]
        else:
            m = [["r" + n, v] for n, v in m]
        return ["enum", t[1], m]
    if k in ("prod", "tu"):
        fs = [list(x) for x in t[2]]
        if rng.random() < 0.5:
            fs.reverse()
        else:
            i = rng.randrange(len(fs))
            fs[i] = [fs[i][0], related(rng, fs[i][1])]
        return [k, t[1], fs]
    if k == "tup":
        return ["tup", list(reversed(t[1]))] if rng.random() < 0.5 else ["tup", t[1] + [["bit"]]]
    if k == "sum":
        o = [x for x in t[1]]
        e = ["bv", rng.randint(1, 7)]
        if adt.ident(e) not in [adt.ident(x) for x in o]:
            o.append(e)
        return ["sum", o]
    return ["bv", rng.randint(1, 6)]


def generate(rng, tier):
    g = adt.Gen(rng, max_width=20, dup_names=0.3, zero_ok=True)
    n = rng.randint(2, 5)
    types = []
    for _ in range(n):
        t = g.type(rng.choice([0, 1, 2, 2]), top=rng.random() < 0.8)
        types.append(t)
        if rng.random() < 0.6:
            r = related(rng, t)
            if adt.width(r) <= 26:
                types.append(r)
        if rng.random() < 0.3:
            types.append(rng.choice(adt.subtypes(t)))
    words = [[rng.randrange(1 << max(adt.width(t), 0)) if adt.width(t) else 0 for _ in range(6)] +
             [0, (1 << adt.width(t)) - 1] for t in types]
    if rng.random() < 0.5:
        # every word of the small types
        for i, t in enumerate(types):
            if adt.width(t) <= 5:
                words[i] = list(range(1 << adt.width(t)))
    values = [[adt.gen_value(rng, t) for _ in range(4)] for t in types]
    ops = []
    for _ in range(rng.randint(8, 40)):
        i = rng.randrange(len(types))
        c = rng.random()
        if c < 0.3:
            ops.append([i, rng.choice(isa.OPS_TYPE), None])
        elif c < 0.55:
            ops.append([i, rng.choice(isa.OPS_VALUE), rng.randrange(4)])
        else:
            ops.append([i, rng.choice(isa.OPS_WORD), rng.randrange(len(words[i]))])
    plan = dict(types=types, words=words, values=values, ops=ops)
    c = rng.random()
    if c < 0.3:
        # the same type handled by several threads at once, on different data
        nt = rng.randint(2, 3)
        i = max(rng.sample(range(len(types)), min(2, len(types))), key=lambda i: len(str(types[i])))
        hot = rng.sample(["dec:1", "dec:2", "valid:1", "valid:2", "viewmatch:1", "extract", "match", "enc:1", "enc:2", "view:1", "view:2"], 2)
        th = [[[i, op, rng.randrange(4 if op in isa.OPS_VALUE else len(words[i]))] for op in rng.choices(hot, k=8)] for _ in range(nt)]
        plan["values"][i] = [adt.gen_value(rng, types[i]) for _ in range(4)]
        if rng.random() < 0.7:
            # all of the words decode
            plan["valid_words"] = i
        plan["threads"] = th
        plan["sched"] = sched.gen_spec(rng, nt, 600)
        plan["ops"] = ops[:rng.randint(0, 3)]
    elif c < 0.6:
        nt = rng.randint(2, 3)
        th = [[] for _ in range(nt)]
        for o in ops:
            th[rng.randrange(nt)].append(o)
        plan["threads"] = [x[:10] for x in th]
        plan["sched"] = sched.gen_spec(rng, nt, 900)
        plan["ops"] = ops[:rng.randint(0, 4)]
    return plan


def execute(plan, ctx):
    types = adt.Types()
    ts, words, values = plan["types"], list(plan["words"]), plan["values"]
    for t in ts:
        types.build(t)
    if "valid_words" in plan:
        i = plan["valid_words"]
        own = isa.fork_eval(lambda: [isa.observe(types, ts[i], words[i], values[i], "enc:1", k)[1] for k in range(len(values[i]))])
        words[i] = [own[k % len(own)] for k in range(len(words[i]))]
    need = {}
    for i, op, arg in plan["ops"] + [o for th in plan.get("threads", []) for o in th]:
        need.setdefault(i, set()).add((op, arg))

    def alone(i):
        return isa.fork_eval(lambda: [[op, arg, isa.observe(types, ts[i], words[i], values[i], op, arg)]
                                      for op, arg in sorted(need[i], key=str)])
    ref = {}
    for i in sorted(need):
        for op, arg, val in alone(i):
            ref[i, op, arg] = val

    def one(i, op, arg, where):
        got = isa.observe(types, ts[i], words[i], values[i], op, arg)
        ctx.steps += 1
        want = ref[i, op, arg]
        ctx.ev(where, i, op, arg, got)
        ctx.probe("obs:" + op)
        ctx.check(got == want, "history-dependent",
                  lambda: f"{where}: {op} arg {arg} of type #{i} {ts[i]}: {got!r}, but {want!r} in a fresh process "
                          f"(word {words[i][arg] if op in isa.OPS_WORD else None}, value {values[i][arg] if op in isa.OPS_VALUE else None})")

    for k, (i, op, arg) in enumerate(plan["ops"]):
        one(i, op, arg, "seq")
        ctx.cover.add(f"{ts[i][0]}/{op}")
    if plan.get("threads"):
        s = sched.Sched(ctx, plan["sched"])
        results = [[] for _ in plan["threads"]]

        def body(k):
            def fn(s):
                for i, op, arg in plan["threads"][k]:
                    results[k].append((i, op, arg, isa.observe(types, ts[i], words[i], values[i], op, arg)))
            return fn
        for k in range(len(plan["threads"])):
            s.spawn(f"t{k}", body(k))
        for t in s.run():
            if t.error is not None:
                raise t.error
        ctx.cover.add(f"sched:{s.sigs & 0xffff}")
        ctx.fault("preemption", max(0, len(s.switches) - len(plan["threads"])))
        for k, rs in enumerate(results):
            for i, op, arg, got in rs:
                want = ref[i, op, arg]
                ctx.ev("thread", k, i, op, arg, got)
                ctx.check(got == want, "history-dependent",
                          lambda: f"thread {k}: {op} arg {arg} of type #{i} {ts[i]}: {got!r}, but {want!r} in a fresh process")
    ctx.nontrivial = len(need) >= 2 or sum(map(bool, plan.get("threads", []))) >= 2
    # afterwards, once more, alone and at the end of the history
    for i in sorted(need):
        for op, arg in sorted(need[i], key=str)[:8]:
            one(i, op, arg, "end")
