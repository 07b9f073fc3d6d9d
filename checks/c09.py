"""C09: executable forms of generated sequential designs against an integer
interpreter."""
import copy

from sim import adt, isa, program, sched
from sim.core import HarnessError, Violation

FORMS = ("Py", "PyX", "SMT", "free", "mixed")


def generate(rng, tier):
    prog = program.Gen(rng).program()
    top = prog["comps"][-1]
    forms = ["Py", "PyX", "SMT"]
    forms += rng.sample(["free", "mixed"], rng.choice([1, 1, 2]))
    n = rng.choice([1, 2, 2, 3])
    insts = [len(prog["comps"]) - 1 if rng.random() < 0.8 else rng.randrange(len(prog["comps"])) for _ in range(n)]
    ops = []
    for _ in range(rng.choice([6, 10, 16, 24])):
        i = rng.randrange(n)
        r = rng.random()
        if r < 0.08:
            ops.append(["restart", i])
        elif r < 0.14:
            ops.append(["crash", i, gen_args(rng, prog, insts[i]), rng.random(), rng.random(), rng.choice(["KeyboardInterrupt", "MemoryError"])])
        else:
            # repeated inputs keep states apart from inputs
            for _ in range(rng.choice([1, 1, 1, 3])):
                ops.append(["step", i, gen_args(rng, prog, insts[i]), rng.randrange(4), rng.randrange(1 << 16)])
    return dict(prog=prog, forms=forms, insts=insts, ops=ops, order=rng.sample(["Py", "PyX", "SMT"], 3))


def gen_args(rng, prog, i):
    return [adt.gen_value(rng, t) for _, t, _ in prog["comps"][i]["ins"]]


class Design:
    """The generated module and its forms."""

    def __init__(self, prog):
        import importlib.util
        src = program.Source(prog)
        text = src.text()
        with open("design.py", "w") as f:
            f.write(text)
        spec = importlib.util.spec_from_file_location("design", "design.py")
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        self.types = adt.Types()
        self.adts = src.adts
        mod.TYPES.extend(self.types.build(t) for t in src.adts)
        self.mod = mod
        self.file = mod.__file__
        self.text = text
        self.prog = prog

    def cls(self, i, form):
        fc = getattr(self.mod, f"comp{i}_fc")
        return dict(Py=lambda: fc.Py, PyX=lambda: fc.PyX).get(form, lambda: fc.SMT)()


def family_of(form):
    from peak.family import PyFamily, PyXFamily, SMTFamily
    return {"Py": PyFamily, "PyX": PyXFamily}.get(form, SMTFamily)()


class Values:
    """Values of the types in one form."""

    def __init__(self, design, form):
        self.d, self.form = design, form
        self.fam = family_of(form)
        self.free = {}          # pysmt symbol -> constant
        self.n = 0

    def leaf_t(self, t):
        k = t[0]
        if k == "bit":
            return self.fam.Bit
        return {"bv": self.fam.BitVector, "sbv": self.fam.Signed, "ubv": self.fam.Unsigned}[k][t[1]]

    def word(self, t, v):
        from hwtypes import BitVector
        A1, _ = isa.assemblers()
        T = self.d.types.build(t)
        return int(A1(T).assemble(self.d.types.value(t, v), BitVector))

    def put(self, t, v, how, salt):
        """A value for an input.  how: 0..3 selects among equivalent ways."""
        leaf = t[0] in program.LEAF
        if self.form == "Py":
            return self.d.types.value(t, v)
        free = self.form == "free" or self.form == "mixed" and salt & 1
        if leaf:
            T = self.leaf_t(t)
            if free:
                x = T(name=f"{self.form}_{self.n}")
                self.n += 1
                self.note(x, v, t)
                return x
            return T(v)
        T = self.fam.get_adt_t(self.d.types.build(t))
        w = adt.width(t)
        word = self.padded(t, self.word(t, v), salt)
        if free:
            x = self.fam.BitVector[w](name=f"{self.form}_{self.n}")
            self.n += 1
            self.note(x, word, ["bv", w])
            return T(x)
        if how % 2:
            return T(self.d.types.value(t, v))
        return T(self.fam.BitVector[w](word))

    def padded(self, t, word, salt):
        """Sets bits of the word which the instruction does not use."""
        from hwtypes import BitVector
        A1, _ = isa.assemblers()
        T, w = self.d.types.build(t), adt.width(t)
        dis = lambda x: self.d.types.read(t, A1(T).disassemble(BitVector[w](x)))  # noqa: E731
        if salt & 6 or adt.used_bits(t, dis(word)) == w:
            return word
        for b in range(w):
            if salt >> b % 13 & 8:
                try:
                    if dis(word ^ 1 << b) == dis(word):
                        word ^= 1 << b
                except Exception:
                    pass
        return word

    def note(self, x, v, t):
        from pysmt import shortcuts as ps
        self.free[x.value] = ps.Bool(bool(v)) if t[0] == "bit" else ps.BV(v, t[1])

    def number(self, x):
        """Number of a bit or bit-vector value of this form."""
        if self.form in ("Py", "PyX"):
            return int(x) if not hasattr(x, "as_uint") else x.as_uint()
        f = x.value.substitute(self.free).simplify() if self.free else x.value.simplify()
        if not f.is_constant():
            raise Violation("not-determined", f"{str(f)[:200]} still depends on something after all inputs were filled in")
        return int(f.constant_value())

    def get(self, t, x, what):
        """JSON value of an output or state element."""
        from hwtypes import BitVector
        if t[0] in program.LEAF:
            T = self.leaf_t(t)
            if not isinstance(x, T):
                raise Violation("wrong-type", f"{what} is a {type(x)} instead of a {T}")
            return self.number(x)
        if self.form == "Py":
            try:
                return self.d.types.read(t, x)
            except TypeError as e:
                raise Violation("wrong-type", f"{what}: {e}")
        T = self.fam.get_adt_t(self.d.types.build(t))
        if not isinstance(x, T):
            raise Violation("wrong-type", f"{what} is a {type(x)} instead of a {T}")
        A1, _ = isa.assemblers()
        w = self.number(x._to_bitvector_())
        PT = self.d.types.build(t)
        try:
            return self.d.types.read(t, A1(PT).disassemble(BitVector[adt.width(t)](w)))
        except Exception as e:
            raise Violation("bad-word", f"{what}: the word {w:#x} stands for no value: {type(e).__name__}")


class Node:
    """One simulated instance: the same design in every form."""

    def __init__(self, design, i, vals):
        self.d, self.i, self.vals = design, i, vals
        self.restart()

    def restart(self):
        self.model = program.initial(self.d.prog, self.i)
        self.objs = {f: self.d.cls(self.i, f)() for f in self.vals}


def states(v, prog, i, obj, model, path="self"):
    """(name, real, expected) for every state element."""
    for name, kind, t, _ in prog["comps"][i]["state"]:
        x = getattr(obj, name)
        p = f"{path}.{name}"
        if kind == "sub":
            yield from states(v, prog, t, x, model[name], p)
        else:
            yield p, t, x.prev() if kind in ("reg", "regne") else x, model[name]


def execute(plan, ctx):
    prog = plan["prog"]
    d = Design(prog)
    for i in range(len(prog["comps"])):
        for f in plan["order"]:
            try:
                d.cls(i, f)
            except Exception as e:
                raise Violation("not-built", f"{f} form of component {i}: {type(e).__name__}: {e}\n{d.text}")
    vals = {f: Values(d, f) for f in plan["forms"]}
    nodes = [Node(d, i, vals) for i in plan["insts"]]
    interp = program.Interp(prog)
    for n, op in enumerate(plan["ops"]):
        k, i = op[0], op[1]
        node = nodes[i]
        comp = prog["comps"][node.i]
        if k == "restart":
            ctx.fault("restart")
            node.restart()
            check_state(ctx, d, node, vals, n)
            continue
        if k == "crash":
            crash(ctx, plan, node, comp, vals, op, d)
            check_others(ctx, d, nodes, vals, n)
            continue
        args = op[2]
        expect = interp.step(node.i, node.model, copy.deepcopy(args))
        ctx.steps += 1
        for f, v in vals.items():
            ctx.ev(n, i, f)
            what = f"op {n} instance {i} of component {node.i} form {f}"
            try:
                real = call(comp, node.objs[f], [v.put(t, a, op[3], op[4] >> j) for j, ((_, t, _), a) in enumerate(zip(comp["ins"], args))], op[3])
            except Violation:
                raise
            except HarnessError:
                raise
            except Exception as e:
                raise Violation("form-failed", f"{what}: {type(e).__name__}: {e}\n{d.text}")
            outs = real if isinstance(real, tuple) and len(comp["outs"]) > 1 else (real,)
            ctx.check(len(outs) == len(comp["outs"]), "wrong-shape", lambda: f"{what}: {len(outs)} outputs")
            got = [v.get(t, x, f"{what} output {a}") for (a, t), x in zip(comp["outs"], outs)]
            ctx.check(got == expect, "wrong-output", lambda: f"{what}: inputs {args}: {got} instead of {expect}\n{d.text}")
        check_state(ctx, d, node, vals, n)
        if len(comp["state"]) or n:
            ctx.nontrivial = True
    cover(ctx, prog)


def call(comp, obj, args, how):
    if how >= 2:
        kw = {n: a for (n, _, _), a in zip(comp["ins"], args)}
        if how == 3:
            kw = dict(reversed(kw.items()))
        return obj(**kw)
    return obj(*args)


def check_state(ctx, d, node, vals, n):
    for f, v in vals.items():
        for p, t, x, want in states(v, d.prog, node.i, node.objs[f], node.model):
            got = v.get(t, x, f"after op {n} form {f} state {p}")
            ctx.check(got == want, "wrong-state", lambda: f"after op {n} form {f}: state {p} is {got} instead of {want}\n{d.text}")


def check_others(ctx, d, nodes, vals, n):
    for node in nodes:
        check_state(ctx, d, node, vals, n)


def crash(ctx, plan, node, comp, vals, op, d):
    """Interrupt a step at some point, lose the instance, start a fresh one."""
    for f, v in vals.items():
        args = [v.put(t, a, 0, 0) for (_, t, _), a in zip(comp["ins"], op[2])]
        with sched.Interrupter(ctx, record=True, also=(d.file,)) as it:
            call(comp, d.cls(node.i, f)(), args, 0)
        nth = sched.pick_point(it.lines, op[3], op[4])
        with sched.Interrupter(ctx, nth, op[5], also=(d.file,)) as it:
            try:
                call(comp, node.objs[f], args, 0)
            except BaseException as e:
                if e is not it.raised:
                    raise
    node.restart()


def cover(ctx, prog):
    for i, c in enumerate(prog["comps"]):
        kinds = sorted({s[1] for s in c["state"]})
        depth = max([0] + [nest(s) for s in c["body"]])
        rets = sum(s[0] == "ret" for s in program.walk(c["body"]))
        ctx.cover.add(f"{kinds}:{depth}:{min(rets, 3)}:{[t[0] for _, t, _ in c['ins'] if t[0] not in program.LEAF]}")


def nest(s):
    if s[0] != "if":
        return 0
    return 1 + max([0] + [nest(x) for _, b in s[1] for x in b] + [nest(x) for x in s[2] or []])
