"""C15: stored rewrite rules.  A writer process stores rules as text and dies
(possibly in the middle of a write); the medium may damage the text; a reader
process reads them back.  Oracle: the rule as first written, an independent
reading of the text, and an integer model of both designs."""
import itertools
import json

from sim import mapping, maprun, solver
from sim.core import rng_for
from sim.isa import fork_eval

from . import c14


def setup():
    solver.install()


TEXT = ["torn", "flip", "zeros", "mixed", "dup"]
EDIT = ["value", "width", "type", "path", "swap", "drop", "repeat", "unbound", "junk", "outs", "field"]


def generate(rng, tier):
    spec = mapping.gen_problem(rng, ir_const=0.2, boxes=0.08)
    if rng.random() < 0.35:
        # names that also mean something in the stored text
        names = rng.sample(["unbound", "unbound_x", "Bit", "BitVector", "value", "type", "width", "ibinding"], 6)
        for d in (spec["ir"], spec["arch"]):
            ns = [i[0] for i in d["ins"]]
            rename(d, {n: m for n, m in zip(ns, rng.sample(names, len(names))) if rng.random() < 0.6})
            for n, m in zip(d["outs"], rng.sample(names, len(names))):
                if n[0] is not None:
                    n[0] = m
    files = []
    for _ in range(rng.choice([2, 3, 4])):
        c = rng.random()
        how = [] if c < 0.4 else [rng.choice(TEXT)] if c < 0.55 else [rng.choice(EDIT) for _ in range(rng.choice([1, 1, 1, 2]))]
        files.append(dict(route=rng.choice(["mapper", "right", "right", "damaged", "random"]), seed=rng.randrange(1 << 30),
                          how=how, again=rng.random() < 0.4, indent=rng.choice([None, 1]),
                          faults=[[1, rng.choice(["unknown", "crash", "memout", "interrupt"])]] if rng.random() < 0.1 else []))
    return dict(spec=spec, files=files, crash=rng.random() < 0.3)


def rename(d, ren):
    def go(e):
        if not isinstance(e, list):
            return e
        if e and e[0] in ("in", "is", "case") and len(e) > 1 and isinstance(e[1], list):
            return [e[0], [ren.get(e[1][0], e[1][0])] + e[1][1:]] + [go(x) for x in e[2:]]
        return [go(x) for x in e]
    for i in d["ins"]:
        i[0] = ren.get(i[0], i[0])
    d["body"] = go(d["body"])
    d["calls"] = [[b, go(args)] for b, args in d.get("calls", [])]


def say(rr):
    """What a rule says, in plain terms."""
    from hwtypes import AbstractBit
    from peak.mapper.utils import Unbound
    ib, ob = [], []
    for x, p in rr.ibinding:
        if x is Unbound:
            x = ["unbound"]
        elif isinstance(x, tuple):
            x = ["path"] + [e if isinstance(e, (int, str)) else repr(e) for e in x]
        else:
            x = ["bit", int(x)] if isinstance(x, AbstractBit) else ["bv", x.size, int(x.as_uint())]
        ib.append([x, [e if isinstance(e, (int, str)) else repr(e) for e in p]])
    for x, p in rr.obinding:
        ob.append([["unbound"] if x is Unbound else ["path", *x], list(p)])
    return [ib, ob]


def is_int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def const(x):
    """["bit"|"bv", ..] a stored constant stands for, else None."""
    if not set(x) >= {"type", "width", "value"} or not is_int(x["width"]) or not isinstance(x["value"], int):
        return None
    if x["type"] == "BitVector" and x["width"] >= 0 and 0 <= x["value"] < 1 << x["width"]:
        return ["bv", x["width"], int(x["value"])]
    if x["type"] == "Bit" and x["width"] == 1 and x["value"] in (0, 1):
        return ["bit", int(x["value"])]
    return None


def stated(text):
    """(what a stored text says, its constants); None for what it does not say."""
    try:
        d = json.loads(text)
    except ValueError:
        return None, []
    if not isinstance(d, dict) or not isinstance(d.get("ibinding"), list) or not isinstance(d.get("obinding"), list):
        return None, []

    def path(p):
        return isinstance(p, list) and all(isinstance(e, str) or is_int(e) for e in p)
    ib, ob, consts, ok = [], [], [], True
    for sec, out in ((d["ibinding"], ib), (d["obinding"], ob)):
        for e in sec:
            if isinstance(e, list) and e and isinstance(e[0], dict) and sec is d["ibinding"]:
                consts.append(const(e[0]))
            if not isinstance(e, list) or len(e) != 2 or not path(e[1]):
                ok = False
                continue
            x = e[0]
            if x == "unbound":
                x = ["unbound"]
            elif path(x):
                x = ["path", *x]
            elif isinstance(x, dict) and sec is d["ibinding"]:
                x = consts[-1]
            else:
                ok = False
            out.append([x, e[1]])
    return [ib, ob] if ok and None not in consts else None, consts


def fits(prob, st):
    """The stated rule with constants of the widths of their inputs."""
    A = prob.arch
    t = {A.real_path(p): t for p, t, c in A.leaves}
    ib = []
    for x, p in st[0]:
        k = t.get(tuple(p))
        if k is not None and x[0] in ("bit", "bv"):
            x = ["bit", x[-1]] if k[0] == "bit" else ["bv", prob.word_width(k), x[-1]]
        ib.append([x, p])
    return [ib, st[1]]


def as_rule(prob, rr):
    """(choices, binding, obinding) of any well-typed rule, else None."""
    from peak.mapper.utils import Unbound
    A, I = prob.arch, prob.ir
    rev = {A.real_path(p): p for p, t, c in A.leaves}
    irev = {I.real_path(p): p for p, t, c in I.leaves}
    binding = {}
    for x, p in rr.ibinding:
        p = rev.get(p)
        if p is None or p in binding:
            return None
        t = A.leaf_t[p]
        if x is Unbound:
            binding[p] = ("free",)
        elif isinstance(x, tuple):
            q = irev.get(x)
            if q is None or I.leaf_t[q] != t:
                return None
            binding[p] = ("ir", q)
        else:
            v = prob.decode(t, int(x))
            if v is None:
                return None
            binding[p] = ("k", v)
    form = next((f for f in A.forms if {p for p, t in f[0]} == set(binding)), None)
    if form is None or {b[1] for b in binding.values() if b[0] == "ir"} != {p for p, t, c in I.leaves}:
        return None
    if len([1 for b in binding.values() if b[0] == "ir"]) != len(I.leaves):
        return None
    onames = {A.out_path(i): i for i in range(len(A.outs))}
    inames = {I.out_path(i): i for i in range(len(I.outs))}
    ob = []
    for x, p in rr.obinding:
        if x is Unbound:
            continue
        if x not in inames or p not in onames or I.outs[inames[x]][1] != A.outs[onames[p]][1]:
            return None
        ob.append((inames[x], onames[p]))
    return (form[1], binding, sorted(ob)) if ob else None


def damage(text, how, rng, other):
    """The text after the medium or a hand has damaged it."""
    for h in how:
        if h == "torn":
            text = text[:rng.randrange(len(text))]
        elif h == "flip":
            b = bytearray(text.encode())
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(7)
            text = b.decode("latin1")
        elif h == "zeros":
            i = rng.randrange(len(text))
            text = text[:i] + "\0" * rng.randrange(1, 16) + text[i + 16:]
        elif h == "mixed":
            i = rng.randrange(len(text))
            text = text[:i] + other[i:]
        elif h == "dup":
            i = rng.randrange(len(text))
            text = text[:i] + text[max(0, i - rng.randrange(1, 20)):]
        else:
            try:
                d = json.loads(text)
                edit(d, h, rng)
                text = json.dumps(d)
            except (ValueError, TypeError, KeyError, IndexError, AttributeError):
                pass  # an earlier edit left nothing of this kind to edit
    return text


def edit(d, h, rng):
    ib, ob = d["ibinding"], d["obinding"]
    ks = [e for e in ib if isinstance(e[0], dict)]
    if h in ("value", "width", "type", "field") and ks:
        k = rng.choice(ks)[0]
        if h == "value":
            v = k["value"]
            k["value"] = rng.choice([v ^ 1, v + 1, v + (1 << k["width"]), -1, (1 << k["width"]) - 1, str(v), None, 0.5, [v], not v])
        elif h == "width":
            k["width"] = rng.choice([k["width"] + 1, k["width"] + 8, max(1, k["width"] - 1), 0, -1, str(k["width"]), None])
        elif h == "type":
            k["type"] = rng.choice(["Bit", "BitVector", "bitvector", "SIntVector", "", None])
        else:
            del k[rng.choice(sorted(k))]
    elif h == "path" and ib:
        e = rng.choice(ib + ob)
        p = e[rng.choice([0, 1])] if isinstance(e[0], list) else e[1]
        if p:
            p[rng.randrange(len(p))] = rng.choice(["nowhere", 0, 1, "", None, rng.choice(ib)[1][0], rng.choice(ob)[1][0]])
    elif h == "swap":
        sec = rng.choice([ib, ob])
        if len(sec) > 1:
            a, b = rng.sample(sec, 2)
            a[0], b[0] = b[0], a[0]
    elif h == "drop":
        sec = rng.choice([ib, ib, ob])
        if sec:
            del sec[rng.randrange(len(sec))]
    elif h == "repeat" and ib:
        sec = rng.choice([ib, ib, ob])
        if sec:
            e = json.loads(json.dumps(rng.choice(sec)))
            if rng.random() < 0.5:
                e[0] = json.loads(json.dumps(rng.choice(sec)))[0]
            sec.insert(rng.randrange(len(sec) + 1), e)
    elif h == "unbound" and ib:
        rng.choice(ib + ob)[0] = rng.choice(["unbound", "Unbound", "x", "unbond", None, 3, []])
    elif h == "junk":
        rng.choice([lambda: d.pop("ibinding"), lambda: d.pop("obinding"), lambda: d.update(extra=1), lambda: ib.append("junk"),
                    lambda: ib.append([]), lambda: ib and ib[0].append("more"), lambda: ib.insert(0, None)])()
    elif h == "outs" and ob:
        e = rng.choice(ob)
        e[rng.choice([0, 1])] = rng.choice(ob)[rng.choice([0, 1])]


def make(prob, f, ctx):
    """A rule of the real library by the wanted route, or None."""
    from peak.mapper import RewriteRule
    r = rng_for(f["seed"], "make")
    if f["route"] == "mapper":
        solver.CONTROL.reset(ctx, f["seed"], "mix")
        am, im = maprun.mappers(prob, dict(simple=True, ivar="OneHot"))
        return im.solve("z3", external_loop=True, itr_limit=500)
    rule = None
    if f["route"] != "random":
        try:
            sols = list(itertools.islice(prob.solutions(words=True), 4))
        except mapping.Budget:
            sols = []
        if sols:
            fi, b, ob = r.choice(sols)
            rule = prob.arch.forms[fi][1], b, ob
    if rule is None:
        rule = c14.random_rule(prob, r)
    if rule is None:
        return None
    if f["route"] == "damaged":
        rule = c14.damage(prob, rule, ["flip", "swap"], r)
    return RewriteRule(*c14.real_rule(prob, rule, r), prob.ir.closure(), prob.arch.closure())


def has_types(rr):
    return any(not isinstance(e, (int, str)) for x, p in rr.ibinding for e in (p if isinstance(x, type) or not isinstance(x, tuple) else p + x))


def execute(plan, ctx):
    from peak.mapper import read_serialized_bindings
    prob = mapping.Problem(plan["spec"])

    def writer():
        out = []
        for f in plan["files"]:
            rr = make(prob, f, ctx)
            if rr is None:
                out.append(None)
                continue
            before = say(rr)
            d = rr.serialize_bindings()
            ctx.check(say(rr) == before, "writing-changed-rule", lambda: f"{before} became {say(rr)}")
            if has_types(rr):
                # paths through sums name types, which only live in their process
                back = read_serialized_bindings(d, prob.ir.closure(), prob.arch.closure())
                ctx.check(say(back) == before and back.ibinding == rr.ibinding and back.obinding == rr.obinding, "changed",
                          lambda: f"{before} was read back as {say(back)}")
                out.append(None)
                continue
            text = json.dumps(d, indent=f["indent"])
            # writing is a pure read, even if the caller edits what it got
            if d["ibinding"]:
                d["ibinding"].pop()
                d["obinding"].clear()
            text2 = json.dumps(rr.serialize_bindings(), indent=f["indent"])
            ctx.check(text == text2 and say(rr) == before, "writing-not-pure", lambda: f"{before}: wrote {text}, then {text2}")
            solver.CONTROL.reset(ctx, f["seed"], "mix")
            out.append([text, before, rr.verify() is None])
        return out
    written = fork_eval(writer)
    ctx.ev("written", written)
    texts = [w[0] for w in written if w]
    if not texts:
        return
    disk = []
    for f, w in zip(plan["files"], written):
        if w is None:
            continue
        r = rng_for(f["seed"], "disk")
        text = w[0]
        if f["how"]:
            text = damage(text, f["how"], r, r.choice(texts))
            for h in f["how"]:
                ctx.fault("stored:" + h)
        disk.append([f, w, text, text != w[0]])
    if plan["crash"]:
        # the writer died while writing the last file
        r = rng_for(plan["seed"], "crash")
        disk[-1][2] = disk[-1][2][:r.randrange(len(disk[-1][2]) + 1)]
        disk[-1][3] = disk[-1][2] != disk[-1][1][0]
        ctx.fault("writer_crash")
    for n, (f, w, text, hurt) in enumerate(disk):
        with open(f"rule{n}.json", "w", encoding="latin1") as fp:
            fp.write(text)
    if len(disk) > 0:
        ctx.nontrivial = True

    def reader():
        res = []
        for n, (f, w, text, hurt) in enumerate(disk):
            ctx.steps += 1
            with open(f"rule{n}.json", encoding="latin1") as fp:
                text = fp.read()
            st, consts = stated(text)
            intact = st is not None and st == stated(w[0])[0]
            try:
                rr = read_serialized_bindings(json.loads(text), prob.ir.closure(), prob.arch.closure())
            except Exception as e:
                ctx.check(hurt, "intact-refused", lambda: f"{w[1]} stored as {text} cannot be read: {type(e).__name__}: {e}")
                res.append(["refused", type(e).__name__])
                continue
            if intact:
                ctx.check(say(rr) == w[1], "changed", lambda: f"{w[1]} stored as {text} was read back as {say(rr)}")
            else:
                got = [x[-1] for x, p in say(rr)[0] if x[0] in ("bit", "bv")]
                ctx.check(got == [c and c[-1] for c in consts], "other-constant", lambda: f"the damaged text {text} was read as {say(rr)}")
                ctx.check(st is None or say(rr) == fits(prob, st), "other-rule", lambda: f"the damaged text {text} was read as {say(rr)}")
            if not hurt:
                text2 = json.dumps(rr.serialize_bindings(), indent=f["indent"])
                ctx.check(text2 == text, "rewritten-differently", lambda: f"{text} was written back as {text2}")
            rule = as_rule(prob, rr)
            if rule is None:
                # not well-formed: any refusal is fine, but not a crash of another kind of the reader
                solver.CONTROL.reset(ctx, f["seed"], "mix")
                try:
                    rr.verify()
                    res.append(["verified", st == w[1]])
                except Exception as e:
                    res.append(["verify refused", type(e).__name__])
                continue
            got = c14.judge(ctx, prob, rr, rule, "stored", (f["seed"], "mix", f["faults"]))
            if intact:
                ctx.check((got is None) == w[2], "verified-differently",
                          lambda: f"{w[1]} verified {w[2]} before storage and {got} after")
                if f["again"]:
                    rr2 = read_serialized_bindings(rr.serialize_bindings(), prob.ir.closure(), prob.arch.closure())
                    ctx.check(say(rr2) == w[1], "changed", lambda: f"{w[1]} was read back as {say(rr2)}")
            res.append(["rule", got is None, intact])
        return res
    out = fork_eval(reader)
    ctx.ev("read", out)
    for o, (f, w, text, hurt) in zip(out, disk):
        ctx.cover.add(f"{o}:{f['how']}")
        ctx.probe(o[0] + (" hurt" if hurt else " intact"))
