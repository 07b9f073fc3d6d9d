"""C08: each memory cell returns the last enabled write to its address.
Oracle: a Python list per memory."""
from hwtypes import Bit, BitVector, SIntVector, SMTBit, UIntVector

from sim import adt, isa, sched
from sim.core import HarnessError


def gen_value(rng, plan):
    if plan["cell"] == "bv":
        return rng.randrange(1 << plan["width"])
    if plan["cell"] == "bit":
        return rng.randrange(2)
    return adt.gen_value(rng, plan["type"])


def generate(rng, tier):
    cell = rng.choice(["bv", "bv", "bit", "adt"])
    plan = dict(cell=cell, width=rng.choice([1, 4, 16]), type=adt.Gen(rng, max_width=16).type(1, top=True))
    plan["images"] = [[gen_value(rng, plan) for _ in range(rng.choice([0, 1, 3, 8, 20, 0, 1, 3, 8, 20, 280]))] for _ in range(2)]
    plan["tuples"] = rng.random() < 0.3
    plan["mems"] = []
    nt = rng.choice([1, 1, 2])
    for _ in range(rng.randint(2, 4)):
        plan["mems"].append([rng.choice(["ram", "ram", "ram", "rom", "memory"]), rng.choice([1, 2, 4, 7, 16, 40, 1, 2, 4, 7, 16, 40, 300 if nt == 1 else 40]),
                             rng.randrange(2), gen_value(rng, plan) if rng.random() < 0.6 else None, rng.randrange(nt)])
    threads = []
    for k in range(nt):
        ops = []
        own = [i for i, m in enumerate(plan["mems"]) if m[4] == k]
        for _ in range(rng.randint(20, 60) if own else 0):
            i = rng.choice(own)
            n = plan["mems"][i][1]
            a = rng.choice([0, n - 1, rng.randrange(n), rng.randrange(n)])
            st = rng.choice(["int", "bv", "bv32", "ubv"])
            c = rng.random()
            if c < 0.62:
                ops.append(["access", i, a, st, gen_value(rng, plan), rng.random() < 0.55, rng.choice(["bit", "int", "bool", "kw"])])
            elif c < 0.72:
                ops.append(["bad", i, rng.choice(["range", "range", "far", "none", "wen", "str", "missing"]), a, gen_value(rng, plan)])
            elif c < 0.82:
                ops.append(["cut", i, a, gen_value(rng, plan), rng.random()])
            elif c < 0.86:
                ops.append(["image", plan["mems"][i][2], rng.randrange(rng.choice([20, 20, 280])), gen_value(rng, plan)])
            elif c < 0.9:
                ops.append(["rebuild", i])
            else:
                ops.append(["scan", i])
        threads.append(ops)
    plan.update(threads=threads, sched=sched.gen_spec(rng, nt, 600))
    return plan


class Machine:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.types = adt.Types()
        # two threads changing the shared image would race in the harness itself
        self.images = [[self.obj(v) for v in im] for im in plan["images"]]
        self.model_images = [list(im) for im in plan["images"]]
        self.mems = [None] * len(plan["mems"])
        self.model = [None] * len(plan["mems"])

    def T(self):
        c = self.plan["cell"]
        return BitVector[self.plan["width"]] if c == "bv" else Bit if c == "bit" else self.types.build(self.plan["type"])

    def obj(self, v):
        c = self.plan["cell"]
        return self.T()(v) if c != "adt" else self.types.value(self.plan["type"], v)

    def read(self, o):
        if isinstance(o, int) and not isinstance(o, bool):
            return ["raw", o]       # the library's default content
        c = self.plan["cell"]
        return int(o) if c != "adt" else self.types.read(self.plan["type"], o)

    def build(self, i):
        from peak.memory import RAM, ROM, Memory
        kind, n, im, init, _ = self.plan["mems"][i]
        cls = {"ram": RAM, "rom": ROM, "memory": Memory}[kind]
        data = tuple(self.images[im]) if self.plan["tuples"] else self.images[im]
        if init is None:
            self.mems[i] = cls(self.T(), n, data)
            d = ["raw", 0]
        else:
            self.mems[i] = cls(self.T(), n, data, self.obj(init))
            d = init
        src = self.model_images[im]
        self.model[i] = [src[a] if a < len(src) else d for a in range(n)]

    def addr(self, a, style):
        return {"int": lambda: a, "bv": lambda: BitVector[10](a), "bv32": lambda: BitVector[32](a),
                "ubv": lambda: UIntVector[10](a)}[style]()

    def peek(self, i, a):
        kind = self.plan["mems"][i][0]
        m = self.mems[i]
        if kind == "rom":
            return self.read(m(BitVector[10](a)))
        return self.read(m(BitVector[10](a), self.obj(self.filler()), Bit(0)))

    def filler(self):
        im = self.plan["images"]
        return next((v for x in im for v in x), None) if any(im) else self.first()

    def first(self):
        import random
        return gen_value(random.Random(0), self.plan)

    def scan(self, i, why):
        for a, want in enumerate(self.model[i]):
            got = self.peek(i, a)
            self.ctx.check(got == want, "wrong-cell",
                           lambda: f"{self.plan['mems'][i]} {why}: cell {a} reads {got}, expected {want}")

    def run(self, tid, ops, single):
        ctx = self.ctx
        for i, m in enumerate(self.plan["mems"]):
            if m[4] == tid:
                self.build(i)
        for op in ops:
            ctx.steps += 1
            k = op[0]
            if k == "image":
                # the user reuses the list he passed for something else
                if single and op[2] < len(self.images[op[1]]):
                    self.images[op[1]][op[2]] = self.obj(op[3])
                    self.model_images[op[1]][op[2]] = op[3]
                    ctx.fault("image_overwritten")
                continue
            i = op[1]
            kind = self.plan["mems"][i][0]
            m = self.mems[i]
            what = f"{self.plan['mems'][i]}"
            ctx.cover.add(f"{k}:{kind}:{self.plan['cell']}:{op[2] if k == 'bad' else ''}")
            if k == "scan":
                self.scan(i, "scan")
            elif k == "rebuild":
                self.build(i)
                ctx.fault("restart")
            elif k == "access":
                a = op[2]
                want = self.model[i][a]
                if kind == "rom":
                    got = self.read(m(self.addr(a, op[3])))
                else:
                    en = {"bit": Bit(op[5]), "int": int(op[5]), "bool": bool(op[5]), "kw": Bit(op[5])}[op[6]]
                    if op[6] == "kw":
                        got = self.read(m(data=self.obj(op[4]), addr=self.addr(a, op[3]), wen=en))
                    else:
                        got = self.read(m(self.addr(a, op[3]), self.obj(op[4]), en))
                    if op[5]:
                        self.model[i][a] = op[4]
                ctx.ev(tid, op[:3], got)
                ctx.check(got == want, "wrong-cell", lambda: f"{what}: access to {a} returned {got}, cell held {want}")
                got = self.peek(i, a)
                ctx.check(got == self.model[i][a], "wrong-cell",
                          lambda: f"{what}: cell {a} holds {got} after {op}, expected {self.model[i][a]}")
            elif k == "bad":
                n = len(self.model[i])
                how = op[2]
                o = self.obj(op[4])
                rom = kind == "rom"
                call = {"range": lambda: m(n) if rom else m(BitVector[10](n), o, Bit(1)),
                        "far": lambda: m(n + 1000) if rom else m(n + 1000, o, Bit(1)),
                        "none": lambda: m(None) if rom else m(BitVector[10](op[3]), None, Bit(1)),
                        "wen": lambda: m(SMTBit(name="zz")) if rom else m(BitVector[10](op[3]), o, SMTBit(name="zz")),
                        "str": lambda: m("x") if rom else m("x", o, Bit(1)),
                        "missing": lambda: m() if rom else m(BitVector[10](op[3]), o)}[how]
                ctx.fault("refused_access:" + how)
                try:
                    call()
                except Exception as e:
                    ctx.ev(tid, "refused", how, type(e).__name__)
                else:
                    ctx.fail("accepted", f"{what}: access {op} of a memory with {n} cells did not fail")
                self.scan(i, f"after a refused access {op}")
            elif k == "cut" and single and kind != "rom":
                a, v, u = op[2:5]

                def once(nth=None):
                    with sched.Interrupter(ctx, nth, record=True) as it:
                        try:
                            m(BitVector[10](a), self.obj(v), Bit(1))
                            return it, True
                        except KeyboardInterrupt:
                            return it, False
                n = isa.fork_eval(lambda: once()[0].count)
                if not n:
                    continue
                it, ok = once(1 + int(u * n))
                ctx.check(not ok, "error-swallowed", lambda: f"{what}: interrupt was swallowed")
                got = self.peek(i, a)
                ctx.ev("cut", i, a, got)
                ctx.check(got in (self.model[i][a], v), "torn-write",
                          lambda: f"{what}: interrupted write of {v} left {got}, before {self.model[i][a]}")
                self.model[i][a] = got
                self.scan(i, "after an interrupted write")
        for i, mm in enumerate(self.plan["mems"]):
            if mm[4] == tid:
                self.scan(i, "at the end")


def execute(plan, ctx):
    mc = Machine(plan, ctx)
    if len(plan["threads"]) == 1:
        mc.run(0, plan["threads"][0], True)
        ctx.nontrivial = len(plan["threads"][0]) > 3
        return
    s = sched.Sched(ctx, plan["sched"])
    for k, ops in enumerate(plan["threads"]):
        s.spawn(f"t{k}", lambda s, k=k, ops=ops: mc.run(k, ops, False))
    for t in s.run():
        if t.error is not None:
            raise t.error
    ctx.fault("preemption", max(0, len(s.switches) - 2))
    ctx.nontrivial = len(s.switches) > 2
