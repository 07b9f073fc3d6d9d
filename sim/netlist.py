"""Event-driven simulation of coreir netlists.

Every primitive has its own delay, drawn from the seed; registers sample at the
rising clock edge and obey the asynchronous reset at any time."""
import heapq

from .core import HarnessError


class Bad(Exception):
    """The netlist is malformed."""


def arr(ty):
    return ty[1] if isinstance(ty, list) and ty[0] == "Array" else None


BIN = ["add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem"]
CMP = ["eq", "neq", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge"]
RED = ["andr", "orr", "xorr"]
A = lambda n: ["Array", n, "Bit"]  # noqa: E731


def ports(prim, g):
    """Port types of a primitive; g: its parameters."""
    lib, op = prim.split(".")
    w = g.get("width")
    if lib == "coreir":
        if op in BIN:
            return dict(in0=A(w), in1=A(w), out=A(w))
        if op in CMP:
            return dict(in0=A(w), in1=A(w), out="Bit")
        if op in RED:
            return {"in": A(w), "out": "Bit"}
        if op in ("not", "neg", "wire"):
            return {"in": A(w), "out": A(w)}
        if op == "const":
            return dict(out=A(w))
        if op == "undriven":
            return dict(out=A(w))
        if op == "term":
            return {"in": A(w)}
        if op == "mux":
            return dict(in0=A(w), in1=A(w), sel="Bit", out=A(w))
        if op == "reg":
            return {"in": A(w), "clk": "Bit", "out": A(w)}
        if op == "reg_arst":
            return {"in": A(w), "clk": "Bit", "arst": "Bit", "out": A(w)}
        if op == "wrap":
            return {"in": "Bit", "out": "Bit"}
        if op == "slice":
            return {"in": A(w), "out": A(g["hi"] - g["lo"])}
        if op == "concat":
            return dict(in0=A(g["width0"]), in1=A(g["width1"]), out=A(g["width0"] + g["width1"]))
        if op in ("zext", "sext"):
            return {"in": A(g["width_in"]), "out": A(g["width_out"])}
    if lib == "corebit":
        if op in ("and", "or", "xor"):
            return dict(in0="Bit", in1="Bit", out="Bit")
        if op in ("not", "wire"):
            return {"in": "Bit", "out": "Bit"}
        if op in ("const", "undriven"):
            return dict(out="Bit")
        if op == "term":
            return {"in": "Bit"}
        if op == "mux":
            return dict(in0="Bit", in1="Bit", sel="Bit", out="Bit")
        if op == "concat":
            return dict(in0="Bit", in1="Bit", out=A(2))
        if op == "reg":
            return {"in": "Bit", "clk": "Bit", "out": "Bit"}
        if op == "reg_arst":
            return {"in": "Bit", "clk": "Bit", "arst": "Bit", "out": "Bit"}
    if prim == "commonlib.muxn":
        n = g["N"]
        return {"in": {"data": ["Array", n, A(w)], "sel": A(max(1, (n - 1).bit_length()))}, "out": A(w)}
    raise HarnessError(f"unknown primitive {prim}")


def size(ty):
    if isinstance(ty, dict):
        return sum(size(t) for t in ty.values())
    if isinstance(ty, list):
        if ty[0] == "Array":
            return ty[1] * size(ty[2])
        if ty[0] == "Record":
            return sum(size(t) for _, t in ty[1])
    return 1            # Bit, BitIn, Named


def select(ty, parts):
    """Offset and type of a selection."""
    off = 0
    for p in parts:
        if isinstance(ty, dict) or ty[0] == "Record":
            items = ty.items() if isinstance(ty, dict) else ty[1]
            for n, t in items:
                if n == p:
                    ty = t
                    break
                off += size(t)
            else:
                raise Bad(f"no port {p}")
        elif isinstance(ty, list) and ty[0] == "Array":
            if ":" in p:
                lo, hi = map(int, p.split(":"))
                off += lo * size(ty[2])
                ty = ["Array", hi - lo, ty[2]]
            else:
                if not 0 <= int(p) < ty[1]:
                    raise Bad(f"no bit {p}")
                off += int(p) * size(ty[2])
                ty = ty[2]
        else:
            raise Bad(f"no part {p}")
    return off, ty


def value(v):
    """A configuration value of the JSON."""
    if v[0] == "Int":
        return v[1]
    if v[0] == "Bool":
        return int(v[1])
    if isinstance(v[0], list) and v[0][0] == "BitVector":
        s = v[1] if isinstance(v[1], str) else f"{v[1]}"
        if "'h" in s:
            return int(s.split("'h")[1], 16)
        return int(s, 0)
    raise HarnessError(f"unknown value {v}")


OUTS = ("out",)


class Netlist:
    def __init__(self, data, top):
        self.mods = {}
        for ns, x in data["namespaces"].items():
            for n, m in x.get("modules", {}).items():
                self.mods[f"{ns}.{n}"] = m
        if top not in self.mods:
            raise Bad(f"no module {top}")
        self.parent = []
        self.gates = []         # (op, params, {port: [bits]})
        t = self.mods[top]["type"]
        self.ports = {}
        base = self.new(size(t))
        off = 0
        for n, ty in t[1]:
            s = size(ty)
            self.ports[n] = (ty, list(range(base + off, base + off + s)))
            off += s
        self.flatten(top, t, base)
        self.finish()

    def new(self, n):
        b = len(self.parent)
        self.parent.extend(range(b, b + n))
        return b

    def find(self, b):
        while self.parent[b] != b:
            self.parent[b] = self.parent[self.parent[b]]
            b = self.parent[b]
        return b

    def flatten(self, name, ty, base):
        m = self.mods[name]
        where = {"self": (ty, base)}
        for n, i in m.get("instances", {}).items():
            ref = i.get("modref")
            if ref in self.mods:
                t = self.mods[ref]["type"]
                b = self.new(size(t))
                where[n] = (t, b)
                self.flatten(ref, t, b)
                continue
            prim = i.get("genref") or ref
            g = {k: value(v) for k, v in i.get("genargs", {}).items() if v[0] in ("Int", "Bool")}
            g.update({k: value(v) for k, v in i.get("modargs", {}).items()})
            t = ports(prim, g)
            b = self.new(size(t))
            where[n] = (t, b)
            self.gates.append((prim, g, t, b))
        for a, b in m.get("connections", []):
            self.join(where, a, b)

    def join(self, where, a, b):
        ends = []
        for e in (a, b):
            n, *parts = e.split(".")
            if n not in where:
                raise Bad(f"no instance {n}")
            ty, base = where[n]
            off, t = select(ty, parts)
            ends.append((base + off, size(t)))
        if ends[0][1] != ends[1][1]:
            raise Bad(f"{a} and {b} differ in width")
        for k in range(ends[0][1]):
            x, y = self.find(ends[0][0] + k), self.find(ends[1][0] + k)
            self.parent[x] = y

    def finish(self):
        driven = {}
        gates = []
        for prim, g, t, b in self.gates:
            bits = {}
            off = b
            for n, ty in t.items():
                if isinstance(ty, dict):        # muxn
                    for m, x in ty.items():
                        bits[m] = [self.find(k) for k in range(off, off + size(x))]
                        off += size(x)
                    continue
                bits[n] = [self.find(k) for k in range(off, off + size(ty))]
                off += size(ty)
            i = len(gates)
            for k in bits.get("out", []):
                if k in driven:
                    raise Bad(f"two drivers: {prim} and {gates[driven[k]][0] if driven[k] >= 0 else 'input'}")
                driven[k] = i
            gates.append((prim, g, bits))
        self.gates = gates
        for n, (ty, bits) in self.ports.items():
            self.ports[n] = (ty, [self.find(k) for k in bits])
        self.inputs = {n for n, (ty, _) in self.ports.items() if is_in(ty)}
        for n in self.inputs:
            for k in self.ports[n][1]:
                if k in driven:
                    raise Bad(f"input {n} is driven from inside")
                driven[k] = -1
        self.driven = driven
        for prim, g, bits in gates:
            for n, bs in bits.items():
                if n != "out" and any(k not in driven for k in bs):
                    raise Bad(f"an input of {prim} is not driven")
        for n, (ty, bits) in self.ports.items():
            if any(k not in driven for k in bits):
                raise Bad(f"output {n} is not driven")


def is_in(ty):
    if ty == "BitIn":
        return True
    if isinstance(ty, list):
        if ty[0] == "Named":
            return ty[1].endswith("In")
        if ty[0] == "Array":
            return is_in(ty[2])
    return False


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def behaviour(prim, g, w):
    """Function of a combinational primitive on the numbers of its inputs."""
    lib, op = prim.split(".")
    m = (1 << w) - 1 if w else 0
    n = g.get("width", 1)
    fs = dict(
        add=lambda a, b: a + b & m, sub=lambda a, b: a - b & m, mul=lambda a, b: a * b & m,
        shl=lambda a, b: a << b & m if b < w else 0, lshr=lambda a, b: a >> b,
        ashr=lambda a, b: sgn(a, w) >> min(b, w) & m,
        udiv=lambda a, b: a // b if b else m, urem=lambda a, b: a % b if b else a,
        eq=lambda a, b: int(a == b), neq=lambda a, b: int(a != b),
        ult=lambda a, b: int(a < b), ule=lambda a, b: int(a <= b), ugt=lambda a, b: int(a > b), uge=lambda a, b: int(a >= b),
        slt=lambda a, b: int(sgn(a, n) < sgn(b, n)), sle=lambda a, b: int(sgn(a, n) <= sgn(b, n)),
        sgt=lambda a, b: int(sgn(a, n) > sgn(b, n)), sge=lambda a, b: int(sgn(a, n) >= sgn(b, n)),
        andr=lambda a: int(a == (1 << n) - 1), orr=lambda a: int(a != 0), xorr=lambda a: bin(a).count("1") & 1,
        neg=lambda a: -a & m, wire=lambda a: a, wrap=lambda a: a,
        zext=lambda a: a, sext=lambda a: sgn(a, g["width_in"]) & m,
        slice=lambda a: a >> g.get("lo", 0) & m, undriven=lambda: 0,
        mux=lambda a, b, s: b if s else a,
    )
    fs["and"] = lambda a, b: a & b
    fs["or"] = lambda a, b: a | b
    fs["xor"] = lambda a, b: a ^ b
    fs["not"] = lambda a: ~a & m
    if op == "const":
        c = g["value"]
        return lambda: c
    if op == "concat":
        k = g.get("width0", 1)
        return lambda a, b: a | b << k
    if op == "muxn":
        n, w = g["N"], g["width"]
        return lambda d, s: d >> w * s & (1 << w) - 1 if s < n else 0
    return fs[op]


class Sim:
    """State of one powered circuit."""

    def __init__(self, net, rng, spread, garbage=False, now=0):
        self.net = net
        self.now = now
        self.seq = 0
        self.queue = []
        self.vals = [0] * len(net.parent)
        self.fan = {}
        self.fns, self.ins, self.out, self.delay, self.last = [], [], [], [], []
        self.regs = []
        self.evals = 0
        self.clk = net.ports["CLK"][1][0] if "CLK" in net.ports else None
        self.arst = net.ports["ASYNCRESET"][1][0] if "ASYNCRESET" in net.ports else None
        for i, (prim, g, bits) in enumerate(net.gates):
            self.out.append(bits.get("out", []))
            self.delay.append(rng.randint(1, spread))
            self.last.append(None)
            op = prim.split(".")[1]
            if op in ("reg", "reg_arst"):
                if bits["clk"][0] != self.clk:
                    raise Bad("a register is clocked by something else than the clock")
                if "arst" in bits and bits["arst"][0] != self.arst:
                    raise Bad("a register is reset by something else than the reset")
                init = int(g.get("init", 0))
                self.fns.append(None)
                self.ins.append([bits["in"]])
                self.regs.append([i, bits["in"], init, "arst" in bits, g.get("arst_posedge", 1), g.get("clk_posedge", 1)])
                w = len(bits["in"])
                self.drive(i, rng.randrange(1 << w) if garbage else init & ((1 << w) - 1))
                continue
            if op == "term":
                self.fns.append(None)
                self.ins.append([])
                continue
            ins = [b for n, b in bits.items() if n != "out"]
            self.fns.append(behaviour(prim, g, len(bits["out"])))
            self.ins.append(ins)
            for b in ins:
                for k in b:
                    self.fan.setdefault(k, set()).add(i)
        self.fan = {k: sorted(v) for k, v in self.fan.items()}
        for i in range(len(net.gates)):
            if self.fns[i] is not None:
                self.evaluate(i)

    def word(self, bits):
        v = 0
        for n, k in enumerate(bits):
            v |= self.vals[k] << n
        return v

    def drive(self, i, v):
        """Output of gate i becomes v after its delay."""
        if self.last[i] == v:
            return
        self.last[i] = v
        self.seq += 1
        heapq.heappush(self.queue, (self.now + self.delay[i], self.seq, i, v))

    def evaluate(self, i):
        self.evals += 1
        self.drive(i, self.fns[i](*[self.word(b) for b in self.ins[i]]))

    def put(self, bits, v):
        hit = set()
        for n, k in enumerate(bits):
            b = v >> n & 1
            if self.vals[k] != b:
                self.vals[k] = b
                hit.update(self.fan.get(k, ()))
        for i in sorted(hit):
            self.evaluate(i)

    def run(self, until=None, limit=200000):
        """Advance the time; without `until`, to a quiet circuit."""
        n = 0
        while self.queue and (until is None or self.queue[0][0] <= until):
            t, _, i, v = heapq.heappop(self.queue)
            self.now = t
            self.put(self.out[i], v)
            n += 1
            if n > limit:
                raise Bad("the circuit does not settle")
        if until is not None:
            self.now = max(self.now, until)

    def quiet(self):
        return not self.queue

    def set(self, name, v):
        self.put(self.net.ports[name][1], v)

    def get(self, name):
        return self.word(self.net.ports[name][1])

    def clock(self, level):
        if self.clk is None or self.vals[self.clk] == level:
            return
        self.vals[self.clk] = level
        new = []
        for i, b, init, has, pol, edge in self.regs:
            if level == edge and not (has and self.resetting(pol)):
                new.append((i, self.word(b)))
        for i, v in new:
            self.drive(i, v)
        for i in self.fan.get(self.clk, ()):
            self.evaluate(i)

    def resetting(self, pol):
        return self.vals[self.arst] == pol

    def reset(self, level):
        if self.arst is None:
            return
        self.vals[self.arst] = level
        for i, b, init, has, pol, _ in self.regs:
            if has and self.resetting(pol):
                self.drive(i, init & ((1 << len(b)) - 1))
        for i in self.fan.get(self.arst, ()):
            self.evaluate(i)
