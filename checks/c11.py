"""C11: a black box exchanges exactly the values of its own current call.
Oracle: per box, the outputs last supplied and the arguments last accepted; per
hierarchy, a tree of names."""
from hwtypes import SMTBit, SMTBitVector

from sim import designs, isa, reqs, sched


def generate(rng, tier):
    boxes = []
    for _ in range(rng.randint(1, 3)):
        boxes.append([[rng.choice([0, 1, 4, 4]) for _ in range(rng.randint(1, 4))],
                      [rng.choice([0, 1, 4, 4]) for _ in range(rng.randint(1, 3))], rng.random() < 0.5,
                      rng.choice(["plain", "plain", "assembled", "derived", "mixin", "inherits"])])
    if rng.random() < 0.5:
        boxes[0][0] = [rng.choice([0, 1, 4, 4]) for _ in range(2)]
    nt = rng.choice([1, 1, 2])
    threads = []
    for _ in range(nt):
        ops = [["tree", gen_tree(rng, len(boxes), 2)]]
        for _ in range(rng.randint(15, 45)):
            c = rng.random()
            r = [rng.random() for _ in range(3)]
            if c < 0.2:
                ops.append(["set", r[0], rng.randrange(1 << 20)])
            elif c < 0.5:
                ops.append(["call", r[0], rng.randrange(1 << 20), rng.choice(["pos", "kw", "kw"])])
            elif c < 0.62:
                ops.append(["badcall", r[0], rng.choice(["few", "many", "mixed", "none", "name", "missing", "extra"]), rng.choice([0, 1])])
            elif c < 0.68:
                ops.append(["badset", r[0], rng.choice(["few", "many", "none"])])
            elif c < 0.78:
                ops.append(["find", r[0]])
            elif c < 0.84:
                ops.append(["path", r[0]])
            elif c < 0.9:
                ops.append(["replace", r[0], gen_tree(rng, len(boxes), 1)])
            elif c < 0.93:
                ops.append(["spoil", r[0]])
            elif c < 0.96:
                ops.append(["cut", rng.choice(["call", "set"]), r[0], r[1], rng.randrange(1 << 20)])
            else:
                ops.append(["pe", [rng.randrange(1 << 20) for _ in range(2)]])
            if rng.random() < 0.04:
                ops.append(["tree", gen_tree(rng, len(boxes), 2)])
        threads.append(ops)
    return dict(boxes=boxes, threads=threads, sched=sched.gen_spec(rng, nt, 500))


def gen_tree(rng, nb, depth):
    """["box", k] | ["reg"] | ["areg"] | ["obj"] | ["list", k] | ["node", [[name, tree]...]]"""
    c = rng.random()
    if depth == 0 or c < 0.3 and depth < 2:
        return rng.choice([["box", rng.randrange(nb)]] * 6 + [["reg"], ["areg"], ["obj"], ["list", rng.randrange(nb)]])
    names = ["a", "b", "m0", "m1", "mul", "zed", "FPU", "_m", "_hid", "x_1", "__w"]
    rng.shuffle(names)
    return ["node", [[n, gen_tree(rng, nb, depth - 1)] for n in names[:rng.randint(1, 4)]]]


class Unit:
    """Model of one box instance."""

    def __init__(self, kind, obj):
        self.kind, self.obj = kind, obj
        self.ins = None
        self.outs = None


class Run:
    def __init__(self, plan, ctx, tid, shared, single):
        self.plan, self.ctx, self.tid, self.single = plan, ctx, tid, single
        self.classes, self.pe = shared
        self.roots = []
        self.units = []
        self.n = 0

    # ---------------------------------------------------------- values
    def value(self, w):
        self.n += 1
        name = f"t{self.tid}_{self.n}"
        return SMTBitVector[w](name=name) if w else SMTBit(name=name)

    def same(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, tuple) != isinstance(b, tuple):
            return False
        if isinstance(a, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return type(a) is type(b) and a.value is b.value

    def show(self, a):
        return "None" if a is None else str([str(x.value) for x in a] if isinstance(a, tuple) else str(a.value))

    # ---------------------------------------------------------- hierarchy
    def build(self, t):
        """(object, model) where model is a Unit, a dict of children or None."""
        from peak import Peak
        from peak.family import SMTFamily
        k = t[0]
        if k == "box":
            u = Unit(t[1], self.classes[t[1]]())
            self.units.append(u)
            return u.obj, u
        if k == "reg":
            return SMTFamily().gen_register(SMTBitVector[4], 0)(), {}
        if k == "areg":
            return SMTFamily().gen_attr_register(SMTBitVector[4], 0)(), {}
        if k == "obj":
            return object(), None
        if k == "list":
            return [self.classes[t[1]]()], None

        class Node(Peak):
            pass
        o, m = Node(), {}
        for n, sub in t[1]:
            so, sm = self.build(sub)
            setattr(o, n, so)
            m[n] = (sub, so, sm)
        return o, m

    def flat(self, m, path=()):
        if isinstance(m, Unit):
            return {path: m}
        out = {}
        for n, (t, so, sm) in (m or {}).items():
            if sm is not None:
                out.update(self.flat(sm, path + (n,)))
        return out

    def live(self):
        return [u for o, m, t in self.roots for u in self.flat(m).values()] or self.units

    def pick(self, r):
        us = self.live()
        return us[int(r * len(us))] if us else None

    def find(self, i, why):
        from peak.black_box import get_black_boxes
        o, m, t = self.roots[i]
        got = get_black_boxes(o)
        want = self.flat(m)
        self.ctx.ev(self.tid, "find", sorted(map(str, got)))
        self.ctx.check(set(got) == set(want), "wrong-paths",
                       lambda: f"{why}: boxes found at {sorted(got)}, the hierarchy has {sorted(want)}")
        for p in want:
            self.ctx.check(got[p] is want[p].obj, "wrong-box", lambda: f"{why}: path {p} gives another box")
        return got

    # ---------------------------------------------------------- boxes
    def spec(self, u):
        return self.plan["boxes"][u.kind]

    def call(self, u, seed, style):
        ins, outs, named, how = self.spec(u)
        args = tuple(self.value(w) for w in ins)
        if style == "pos":
            return args, u.obj(*args)
        names = list(zip(designs.BOX_ARGS[len(ins)], args))
        k = seed % len(names)
        names = names[k:] + names[:k]
        if seed & 64:
            names.reverse()
        return args, u.obj(**dict(names))

    def inputs(self, u):
        try:
            return u.obj._get_inputs()
        except ValueError:
            return None

    def look(self, u, why):
        got = self.inputs(u)
        got = got if got is None else tuple(got)
        self.ctx.check(self.same(got, u.ins), "wrong-inputs",
                       lambda: f"{why}: box {self.spec(u)} reports inputs {self.show(got)}, last accepted call had {self.show(u.ins)}")

    def outs(self, u):
        """What a call returns now (leaves a call behind)."""
        if u.outs is None:
            return
        args, ret = self.call(u, 0, "pos")
        u.ins = args
        want = u.outs[0] if len(u.outs) == 1 else u.outs
        self.ctx.check(self.same(ret, want), "wrong-outputs",
                       lambda: f"box {self.spec(u)} returned {self.show(ret)}, supplied {self.show(want)}")

    def step(self, op):
        ctx = self.ctx
        k = op[0]
        if k == "tree":
            t = op[1] if op[1][0] in ("node", "box") else ["node", [["a", op[1]]]]
            o, m = self.build(t)
            self.roots.append((o, m, t))
            self.find(len(self.roots) - 1, "fresh hierarchy")
            for u in self.flat(m).values():
                self.look(u, "fresh")
            return
        if k == "find":
            self.find(int(op[1] * len(self.roots)), "later")
            return
        if k == "path":
            from peak.black_box import get_black_box
            o, m, t = self.roots[int(op[1] * len(self.roots))]
            for p, u in self.flat(m).items():
                ctx.check(get_black_box(o, p) is u.obj, "wrong-box", lambda: f"get_black_box{p} gives another object")
            for p in [("nope",), ("a", "nope")]:
                try:
                    get_black_box(o, p)
                except ValueError:
                    continue
                ctx.fail("accepted", f"get_black_box accepted the path {p}")
            return
        if k == "replace":
            o, m, t = self.roots[int(op[1] * len(self.roots))]
            if not isinstance(m, dict) or not m:
                return
            n = sorted(m)[int(op[1] * 997) % len(m)]
            if m[n][0][0] == "areg":
                return
            so, sm = self.build(op[2])
            setattr(o, n, so)
            m[n] = (op[2], so, sm)
            ctx.fault("component_replaced")
            self.find([i for i, r in enumerate(self.roots) if r[0] is o][0], "after replacing a component")
            return
        if k == "spoil":
            i = int(op[1] * len(self.roots))
            d = self.find(i, "before")
            ctx.fault("result_modified_by_caller")
            d.pop(next(iter(d), None), None)
            d["zz"] = None
            self.find(i, "after the caller changed the dict he got")
            return
        if k == "pe":
            self.run_pe(op[1])
            return
        u = self.pick(op[2] if k == "cut" else op[1])
        if u is None:
            return
        ins, outs, named, how = self.spec(u)
        ctx.cover.add(f"{k}:{op[2] if k in ('badcall', 'badset') else op[3] if k == 'call' else op[1] if k == 'cut' else ''}"
                      f":{len(ins)}:{len(outs)}:{int(named)}:{u.outs is None}")
        if k == "set":
            vals = tuple(self.value(w) for w in outs)
            u.obj._set_outputs(*vals)
            u.outs = vals
            self.look(u, "after supplying outputs")
        elif k == "call":
            if u.outs is None:
                self.refused(u, lambda: self.call(u, op[2], op[3]), "a call without outputs")
                return
            args, ret = self.call(u, op[2], op[3])
            want = u.outs[0] if len(u.outs) == 1 else u.outs
            ctx.check(self.same(ret, want), "wrong-outputs",
                      lambda: f"box {self.spec(u)} returned {self.show(ret)}, supplied {self.show(want)}")
            u.ins = args
            self.look(u, f"after a call ({op[3]})")
        elif k == "badcall":
            names = designs.BOX_ARGS[len(ins)]
            args = [self.value(w) for w in ins]
            kw = dict(zip(names, args))
            how = op[2]
            if how == "few" and len(ins) < 2:
                how = "none"
            f = {"few": lambda: u.obj(*args[:-1]), "many": lambda: u.obj(*args, args[0]),
                 "mixed": lambda: u.obj(*args, **{names[0]: args[0]}), "none": lambda: u.obj(),
                 "name": lambda: u.obj(**{("q" + n if i == 0 else n): v for i, (n, v) in enumerate(kw.items())}),
                 "missing": lambda: u.obj(**dict(list(kw.items())[1:])),
                 "extra": lambda: u.obj(**kw, extra=args[0])}[how]
            self.refused(u, f, f"a malformed call ({how})")
        elif k == "badset":
            vals = [self.value(w) for w in outs]
            f = {"few": lambda: u.obj._set_outputs(*vals[:-1]), "many": lambda: u.obj._set_outputs(*vals, vals[0]),
                 "none": lambda: u.obj._set_outputs()}[op[2]]
            self.refused(u, f, f"malformed outputs ({op[2]})")
        elif k == "cut" and self.single and (op[1] == "set" or u.outs is not None):
            vals = tuple(self.value(w) for w in outs)
            seed = op[4]

            def once(nth=None):
                with sched.Interrupter(ctx, nth) as it:
                    try:
                        if op[1] == "set":
                            u.obj._set_outputs(*vals)
                            r = vals
                        else:
                            r = self.call(u, seed, "pos")[0]
                    except KeyboardInterrupt:
                        r = None
                return r, it
            n = isa.fork_eval(lambda: once()[1].count)
            m = self.n
            if not n:
                return
            r, it = once(1 + int(op[3] * n))
            ctx.check(r is None, "error-swallowed", "the interrupt was swallowed")
            if op[1] == "set":
                # either the old or the new outputs
                old = u.outs
                if old is None:
                    try:
                        args, ret = self.call(u, 0, "pos")
                    except ValueError:
                        self.look(u, "after an interrupted set")
                        return
                else:
                    args, ret = self.call(u, 0, "pos")
                u.ins = args
                new = vals[0] if len(vals) == 1 else vals
                ow = None if old is None else old[0] if len(old) == 1 else old
                ctx.check(self.same(ret, new) or (ow is not None and self.same(ret, ow)), "torn",
                          lambda: f"after interrupted outputs the box returns {self.show(ret)}")
                u.outs = vals if self.same(ret, new) else old
            else:
                got = self.inputs(u)
                if not self.same(got, u.ins):
                    ctx.check(got is not None and len(got) == len(ins)
                              and all(str(x.value).startswith(f"t{self.tid}_{m + 1 + j}") for j, x in enumerate(got)), "torn",
                              lambda: f"after an interrupted call the box reports {self.show(got)}")
                    u.ins = got
        for v in self.live():
            self.look(v, f"another box after {k}")

    def refused(self, u, f, what):
        self.ctx.fault("refused:" + what)
        try:
            f()
        except Exception:
            pass
        else:
            self.ctx.fail("accepted", f"box {self.spec(u)}: {what} was accepted")
        self.look(u, f"after {what}")
        if u.outs is not None:
            self.outs(u)

    def run_pe(self, seeds):
        """A design that calls boxes in a hierarchy; the symbols flow through."""
        from peak.black_box import get_black_boxes
        o = self.pe()
        bbs = get_black_boxes(o)
        self.ctx.check(set(bbs) == {("u", "m0"), ("u", "m1"), ("mul",), ("v", "m0"), ("v", "m1")}, "wrong-paths",
                       lambda: f"boxes of the design found at {sorted(bbs)}")
        for s in seeds:
            T = {}
            for p in sorted(bbs):
                T[p] = (self.value(4), self.value(0))
                bbs[p]._set_outputs(*T[p])
            x, y, b = self.value(4), self.value(4), self.value(0)
            r = o(x, y, b) if s & 1 else o(s=b, x=x, y=y)
            want = {("u", "m0"): (b, x, y), ("u", "m1"): (T["u", "m0"][1], y, T["u", "m0"][0]),
                    ("mul",): (T["u", "m1"][1], T["u", "m1"][0], x),
                    ("v", "m0"): (T["mul",][1], T["mul",][0], T["u", "m1"][0]),
                    ("v", "m1"): (T["v", "m0"][1], T["u", "m1"][0], T["v", "m0"][0])}
            for p in want:
                got = bbs[p]._get_inputs()
                self.ctx.check(self.same(tuple(got), want[p]), "wrong-inputs",
                               lambda: f"design: box {p} reports {self.show(tuple(got))}, expected {self.show(want[p])}")
            exp = b.ite(T["v", "m1"][0], T["mul",][0])
            eq = (r == exp).value.simplify()
            self.ctx.check(eq.is_true(), "wrong-outputs", lambda: f"design returned {r.value}, expected {exp.value}")

    def run(self, ops):
        for op in ops:
            self.ctx.steps += 1
            self.step(op)
        for u in self.units:
            self.look(u, "at the end")
            if u.outs is not None:
                self.outs(u)
        for i in range(len(self.roots)):
            self.find(i, "at the end")


PE = None


def setup():
    global PE
    PE = designs.make_bbpe().SMT


def execute(plan, ctx):
    from peak.family import SMTFamily
    shared = [designs.make_box(*b)(SMTFamily()) for b in plan["boxes"]], PE
    if len(plan["threads"]) == 1:
        r = Run(plan, ctx, 0, shared, True)
        r.run(plan["threads"][0])
        ctx.nontrivial = len(r.units) >= 2
        return
    s = sched.Sched(ctx, plan["sched"])
    for k, ops in enumerate(plan["threads"]):
        s.spawn(f"t{k}", lambda s, k=k, ops=ops: Run(plan, ctx, k, shared, False).run(ops))
    for t in s.run():
        if t.error is not None:
            raise t.error
    ctx.fault("preemption", max(0, len(s.switches) - 2))
    ctx.nontrivial = len(s.switches) > 2
