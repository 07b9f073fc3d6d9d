"""C10: elaborated hardware, simulated event by event with clocks, resets and
power loss, against an integer interpreter of the same design."""
import copy
import json
import random

from checks.c09 import Design, Values, gen_args, cover
from sim import adt, isa, netlist, program
from sim.core import HarnessError, Violation


def generate(rng, tier):
    prog = program.Gen(rng, hw=True).program()
    top = len(prog["comps"]) - 1
    if rng.random() < 0.15:
        top = rng.randrange(len(prog["comps"]))
    ops = []
    for _ in range(rng.choice([8, 14, 20, 30])):
        r = rng.random()
        if r < 0.55:
            for _ in range(rng.choice([1, 1, 2, 4])):
                ops.append(["cycle", gen_args(rng, prog, top), rng.randrange(1 << 16)])
        elif r < 0.7:
            ops.append(["glitch", [gen_args(rng, prog, top) for _ in range(rng.randint(1, 3))], rng.randrange(1 << 16)])
        elif r < 0.8:
            ops.append(["stall", rng.choice([0, 1, 1000, 10 ** 6])])
        elif r < 0.95:
            ops.append(["reset", rng.choice(["low", "high", "unsettled", "edge"]), rng.choice([0, 1, 3, 50]),
                        rng.randrange(3), gen_args(rng, prog, top), rng.randrange(1 << 16)])
        else:
            ops.append(["power", rng.choice(["init", "garbage"]), rng.choice([0, 2, 40]), rng.randrange(1 << 16)])
    return dict(prog=prog, top=top, ops=ops, spread=rng.choice([1, 5, 30]), before=rng.sample(["Py", "PyX", "SMT"], rng.randint(0, 3)),
                parts=rng.sample(range(len(prog["comps"])), rng.randint(0, len(prog["comps"]))),
                wrap=rng.random() < 0.3)


def elaborate(d, plan):
    """JSON netlist of the design and the name of its top module (in a forked
    process, because the netlist library keeps global state)."""
    def job():
        import magma as m
        top = plan["top"]
        for i in plan["parts"]:
            hardware(d, plan, i)
        M = hardware(d, plan, top)
        if plan["wrap"]:
            M = wrapped(d, plan, M)
        m.compile("hw", M, output="coreir")
        with open("hw.json") as f:
            data = json.load(f)
        return data, data["top"]
    try:
        return isa.fork_eval(job)
    except HarnessError as e:
        if "died" in str(e) or "\n" in str(e):
            raise Violation("not-elaborated", f"{str(e)[-1500:]}\n{d.text}")
        raise
    except Violation as e:
        raise Violation("not-elaborated", f"{e.msg}\n{d.text}")


def hardware(d, plan, i):
    return getattr(d.mod, f"comp{i}_fc").Magma


class Layout(dict):
    def __hash__(self):
        return hash(tuple(sorted(self)))


def wrapped(d, plan, M):
    """The design behind ports which take a packed instruction word."""
    from peak.assembler import Assembler
    from peak.rtl_utils import wrap_with_disassembler
    for n, t, _ in plan["prog"]["comps"][plan["top"]]["ins"]:
        if t[0] == "prod":
            asm = Assembler(d.types.build(t))
            return wrap_with_disassembler(M, asm.disassemble, asm.width, Layout(asm.layout), type(M.interface.ports[n]))
    return M


def execute(plan, ctx):
    prog = plan["prog"]
    d = Design(prog)
    for f in plan["before"]:
        d.cls(plan["top"], f)
    data, name = elaborate(d, plan)
    try:
        net = netlist.Netlist(data, name)
        Run(plan, ctx, d, net).go()
    except netlist.Bad as e:
        raise Violation("bad-netlist", f"{e}\n{d.text}")
    cover(ctx, prog)
    ctx.probe("gates", len(net.gates))


class Run:
    def __init__(self, plan, ctx, d, net):
        self.plan, self.ctx, self.d, self.net = plan, ctx, d, net
        self.prog = plan["prog"]
        self.top = plan["top"]
        self.comp = self.prog["comps"][self.top]
        self.rng = random.Random(plan["seed"])
        self.interp = program.Interp(self.prog)
        self.values = Values(d, "Py")
        self.model = program.initial(self.prog, self.top)
        self.args = [[adt.gen_value(self.rng, t) for _, t, _ in self.comp["ins"]]][0]
        self.known = True
        self.sim = netlist.Sim(net, self.rng, plan["spread"])
        self.shape()
        self.put(self.args, 0)

    # -------------------------------------------------------------- interface
    def shape(self):
        want = {n: (wid(t), True) for n, t, _ in self.comp["ins"]}
        self.outs = ["O"] if len(self.comp["outs"]) == 1 else [f"O{k}" for k in range(len(self.comp["outs"]))]
        want.update({o: (wid(t), False) for o, (_, t) in zip(self.outs, self.comp["outs"])})
        have = {n: (netlist.size(ty), n in self.net.inputs) for n, (ty, _) in self.net.ports.items() if n not in ("CLK", "ASYNCRESET")}
        self.ctx.check(want == have, "wrong-ports", lambda: f"ports {have} instead of {want}\n{self.d.text}")
        if stateful(self.prog, self.top):
            for n in ("CLK", "ASYNCRESET"):
                self.ctx.check(n in self.net.ports, "wrong-ports", lambda: f"no port {n}\n{self.d.text}")

    def word(self, t, v, salt):
        if t[0] in program.LEAF:
            return v & program.mask(t)
        return self.values.padded(t, self.values.word(t, v), salt)

    def put(self, args, salt, slow=False):
        self.args = args
        items = [(n, self.word(t, a, salt >> k)) for k, ((n, t, _), a) in enumerate(zip(self.comp["ins"], args))]
        if slow:
            self.rng.shuffle(items)
        for n, w in items:
            self.sim.set(n, w)
            if slow:
                self.sim.run(self.sim.now + self.rng.randint(0, 4))

    def expected(self, commit=False):
        st = self.model if commit else copy.deepcopy(self.model)
        return self.interp.step(self.top, st, copy.deepcopy(self.args))

    def settle(self, what):
        self.sim.run()
        if not self.known:
            return
        exp = self.expected()
        for o, (n, t), e in zip(self.outs, self.comp["outs"], exp):
            w = self.sim.get(o)
            try:
                got = self.read(t, w)
            except Exception as x:
                raise Violation("bad-word", f"{what}: output {o} is {w:#x} which stands for no value ({type(x).__name__})\n{self.d.text}")
            self.ctx.check(got == e, "wrong-output", lambda: f"{what}: inputs {self.args}: output {o} is {got} instead of {e}\n{self.d.text}")
        self.ctx.steps += 1

    def read(self, t, w):
        from hwtypes import BitVector
        if t[0] in program.LEAF:
            return w
        A1, _ = isa.assemblers()
        return self.d.types.read(t, A1(self.d.types.build(t)).disassemble(BitVector[adt.width(t)](w)))

    # -------------------------------------------------------------- events
    def edge(self, salt):
        """A full clock period; inputs may move while the clock is high."""
        self.sim.clock(1)
        if self.known:
            self.expected(commit=True)
        if salt & 4:
            self.sim.run(self.sim.now + (salt >> 4 & 15))
        else:
            self.sim.run()
        if salt & 8:
            self.ctx.fault("input-moves-while-clock-high")
            self.put([adt.gen_value(self.rng, t) for _, t, _ in self.comp["ins"]], salt >> 3, True)
        self.sim.clock(0)

    def go(self):
        for n, op in enumerate(self.plan["ops"]):
            k = op[0]
            self.ctx.ev(n, k)
            getattr(self, "do_" + k)(n, op)
        self.settle("at the end")
        self.ctx.sim_time += self.sim.now
        if stateful(self.prog, self.top):
            self.ctx.nontrivial = True

    def do_cycle(self, n, op):
        self.put(op[1], op[2], bool(op[2] & 1))
        self.settle(f"op {n} cycle")
        self.edge(op[2])

    def do_glitch(self, n, op):
        self.ctx.fault("input-glitch")
        for k, a in enumerate(op[1]):
            self.put(a, op[2] >> k, True)
            if op[2] >> k & 2:
                self.settle(f"op {n} glitch {k}")
            else:
                self.sim.run(self.sim.now + (op[2] >> k & 7))

    def do_stall(self, n, op):
        self.ctx.fault("clock-stall")
        self.sim.run(self.sim.now + op[1])
        self.settle(f"op {n} after a stall")

    def do_reset(self, n, op):
        _, when, hold, edges, args, salt = op
        self.ctx.fault(f"async-reset-{when}")
        s = self.sim
        if when == "high":
            self.settle(f"op {n} before the reset")
            s.clock(1)
            s.run(s.now + (salt & 31))
        elif when == "unsettled":
            self.put(args, salt, True)
        elif when == "edge":
            # a clock edge just before: the new values are still under way
            self.settle(f"op {n} before the reset")
            s.clock(1)
        s.reset(1)
        self.model = program.initial(self.prog, self.top)
        self.known = True
        s.run(s.now + hold)
        for k in range(edges):
            self.ctx.fault("clock-edge-during-reset")
            s.clock(0)
            s.run(s.now + (salt >> k & 7))
            if salt >> k & 8:
                self.put(args, salt >> k, True)
            s.clock(1)
            s.run(s.now + (salt >> k & 15))
        if salt & 1:
            self.settle(f"op {n} during the reset")
        if salt & 2:
            s.clock(0)
            s.reset(0)
        else:
            s.reset(0)
            s.run(s.now + (salt >> 5 & 7))
            s.clock(0)
        if stateful(self.prog, self.top) and s.arst is not None:
            self.settle(f"op {n} after the reset")
        self.put(args, salt >> 2, bool(salt & 4))
        self.settle(f"op {n} first inputs after the reset")

    def do_power(self, n, op):
        """Power loss: everything volatile is gone."""
        self.ctx.fault(f"power-loss-{op[1]}")
        self.sim = netlist.Sim(self.net, self.rng, self.plan["spread"], op[1] == "garbage", self.sim.now)
        self.model = program.initial(self.prog, self.top)
        self.put(self.args, op[3])
        if op[1] == "garbage":
            self.known = False
            self.sim.run()
            self.do_reset(n, ["reset", "low", op[2], op[3] & 1, self.args, op[3]])
        self.settle(f"op {n} after power-up")


def wid(t):
    return program.width(t) if t[0] in program.LEAF else adt.width(t)


def stateful(prog, i):
    return any(s[1] != "sub" or stateful(prog, s[2]) for s in prog["comps"][i]["state"])
