"""C18: an IR library keeps exactly the instructions successfully added.
Oracle: a dict per library and an integer interpreter of the functions given."""
from hwtypes import Bit, BitVector, SIntVector, SMTBit, SMTBitVector
from hwtypes.adt import Enum, Product

from sim import isa, reqs, sched
from sim.core import HarnessError

PLAIN = ["a", "b", "c", "x", "y", "in0", "in1", "data", "addr", "z9", "Out", "op"]
NASTY = ["family", "_fun_", "t0", "_t0", "t1", "_t1", "Peak", "name_outputs", "peak_fc", "_family_closure", "self",
         "cls", "fun", "_family", "_family_", "_Peak", "__call__", "fun_call"]
NASTY_FIELDS = [n for n in NASTY if n not in ("self", "cls")]     # hwtypes has no such fields
KINDS = ["b4", "b4", "b8", "bit", "s4", "enum", "enum", "enum2", "prod", "prod2"]
FAMS = ["py", "py", "pyx", "smt", "smt"]


class Color(Enum):
    red = 0
    green = 2
    blue = 1


class Other:
    class Color(Enum):          # distinct types of one name
        red = 1
        green = 0
        blue = 3


class Pt(Product):
    u = BitVector[4]
    v = Bit


class Other2:
    class Pt(Product):
        v = BitVector[8]
        u = BitVector[4]


ADTS = dict(enum=Color, enum2=Other.Color, prod=Pt, prod2=Other2.Pt)
PFIELDS = dict(prod=dict(u="b4", v="bit"), prod2=dict(v="b8", u="b4"))
ENUMS = ("enum", "enum2")


def T(k, fam=None):
    if k in ADTS:
        return ADTS[k]
    if fam is None:
        return {"b4": BitVector[4], "b8": BitVector[8], "bit": Bit, "s4": SIntVector[4]}[k]
    return {"b4": fam.BitVector[4], "b8": fam.BitVector[8], "bit": fam.Bit, "s4": fam.Signed[4]}[k]


def width(k):
    return {"b4": 4, "b8": 8, "bit": 1, "s4": 4}[k]


# ---------------------------------------------------------- functions
# ["in", i] ["k", v] ["inv", e] ["add|sub|and|xor", e, e] ["mux", bit, e, e] ["eq", e, e] ["bitof", e, i] ["is", i, member]
def gen_expr(rng, ins, k, d):
    same = [i for i, (n, t) in enumerate(ins) if t == k]
    fields = [(i, f) for i, (n, t) in enumerate(ins) if t in ("prod", "prod2") for f, ft in PFIELDS[t].items() if ft == k]
    if fields and rng.random() < 0.4:
        return ["fld", *rng.choice(fields)]
    c = rng.random()
    if d == 0 or c < 0.2:
        if same and rng.random() < 0.85:
            return ["in", rng.choice(same)]
        return ["k", rng.randrange(1 << width(k))]
    if k == "bit":
        c = rng.random()
        if c < 0.25:
            return ["inv", gen_expr(rng, ins, k, d - 1)]
        if c < 0.5:
            return [rng.choice(["and", "xor"]), gen_expr(rng, ins, k, d - 1), gen_expr(rng, ins, k, d - 1)]
        en = [i for i, (n, t) in enumerate(ins) if t in ENUMS]
        if en and c < 0.7:
            return ["is", rng.choice(en), rng.choice(["red", "green", "blue"])]
        w = rng.choice(["b4", "b8"])
        if c < 0.85:
            return ["eq", gen_expr(rng, ins, w, d - 1), gen_expr(rng, ins, w, d - 1)]
        return ["bitof", gen_expr(rng, ins, w, d - 1), rng.randrange(4)]
    if rng.random() < 0.25:
        return ["mux", gen_expr(rng, ins, "bit", d - 1), gen_expr(rng, ins, k, d - 1), gen_expr(rng, ins, k, d - 1)]
    if rng.random() < 0.15:
        return ["inv", gen_expr(rng, ins, k, d - 1)]
    return [rng.choice(["add", "sub", "and", "xor"]), gen_expr(rng, ins, k, d - 1), gen_expr(rng, ins, k, d - 1)]


def gen_instr(rng):
    def names(n):
        out = []
        while len(out) < n:
            x = rng.choice(NASTY_FIELDS) if rng.random() < 0.15 else rng.choice(PLAIN)
            if x not in out:
                out.append(x)
        return out
    ins = [[n, rng.choice(KINDS)] for n in names(rng.randint(1, 4))]
    outs = [[n, rng.choice(["b4", "b8", "bit", "s4"])] for n in names(rng.randint(1, 3))]
    return dict(ins=ins, outs=outs, fun=[gen_expr(rng, ins, k, 2) for n, k in outs])


def gen_generic(rng, g):
    """One function given to several libraries, for various types."""
    n = rng.choice([1, 2, 2, 3])
    names = rng.sample(PLAIN, n + 1)
    ops = rng.choice([["add", "sub", "xor"], ["and", "xor"]])

    def expr(d):
        if d == 0 or rng.random() < 0.2:
            return ["in", rng.randrange(n)]
        if rng.random() < 0.25:
            return ["inv", expr(d - 1)]
        return [rng.choice(ops), expr(d - 1), expr(d - 1)]
    fun = [expr(2)]
    kinds = ["b4", "b8", "s4"] + (["bit"] if "add" not in ops else [])

    def instr():
        k = rng.choice(kinds)
        return dict(ins=[[x, k] for x in names[:n]], outs=[[names[n], k]], fun=fun, generic=g)
    return instr


def generate(rng, tier):
    nl = rng.choice([1, 2, 2, 3])
    nt = rng.choice([1, 1, 2, 3])
    pool = ["Add", "Sub", "Mul", "i32_add", "x", "Not2"] + rng.sample(NASTY, 2)
    threads = []
    generics = [gen_generic(rng, g) for g in range(rng.choice([1, 2]))]
    pool_g = rng.sample(pool, 2)
    for _ in range(nt):
        ops = []
        for _ in range(rng.randint(8, 22) // nt + 2):
            lib = rng.randrange(nl)
            name = rng.choice(pool)
            c = rng.random()
            if c < 0.55:
                cls = None if rng.random() < 0.7 else rng.choice(["Foo", "Bar"] + NASTY)
                if rng.random() < 0.25:
                    ops.append(["add", lib, rng.choice(pool_g), rng.choice(generics)(), rng.choice([None, None, "Foo"])])
                    continue
                ops.append(["add", lib, name, gen_instr(rng), cls])
            elif c < 0.65:
                ops.append(["addfc", lib, name, gen_instr(rng)])
            elif c < 0.78:
                ops.append(["bad", lib, name + rng.choice(["", "_bad"]),
                            rng.choice(["ident", "kwname", "noinput", "clash", "nofields"]), gen_instr(rng)])
            elif c < 0.88:
                ops.append(["cut", lib, name, gen_instr(rng), rng.random(), rng.choice(["KeyboardInterrupt", "MemoryError"])])
            else:
                ops.append(["use", rng.choice(FAMS), rng.randrange(1 << 30)])
        threads.append(ops)
    return dict(libs=nl, threads=threads, stim=[rng.randrange(1 << 40) for _ in range(4)],
                sched=sched.gen_spec(rng, nt, 300))


def calc(e, ins, vals, k):
    """Integer meaning of an expression of kind k."""
    op = e[0]
    m = (1 << width(k)) - 1
    if op == "in":
        return vals[e[1]]
    if op == "k":
        return e[1] & m
    if op == "fld":
        return vals[e[1]][e[2]]
    if op == "inv":
        return ~calc(e[1], ins, vals, k) & m
    if op in ("add", "sub", "and", "xor"):
        a, b = calc(e[1], ins, vals, k), calc(e[2], ins, vals, k)
        return {"add": a + b, "sub": a - b, "and": a & b, "xor": a ^ b}[op] & m
    if op == "mux":
        return calc(e[2], ins, vals, k) if calc(e[1], ins, vals, "bit") else calc(e[3], ins, vals, k)
    if op == "eq":
        w = kind_of(e[1], ins) or kind_of(e[2], ins) or "b4"
        return int(calc(e[1], ins, vals, w) == calc(e[2], ins, vals, w))
    if op == "bitof":
        w = kind_of(e[1], ins) or "b4"
        return calc(e[1], ins, vals, w) >> e[2] & 1
    if op == "is":
        return int(vals[e[1]] == e[2])
    raise HarnessError(op)


def kind_of(e, ins):
    """Kind of an expression as far as its shape tells (None: a bare constant)."""
    if e[0] == "in":
        return ins[e[1]][1]
    if e[0] == "fld":
        return PFIELDS[ins[e[1]][1]][e[2]]
    if e[0] == "k":
        return None
    if e[0] in ("eq", "bitof", "is"):
        return "bit"
    for s in e[2:] if e[0] == "mux" else e[1:]:
        k = kind_of(s, ins)
        if k is not None:
            return k
    return None


def build(e, fam, ins, vals, k):
    """The same on values of a family."""
    op = e[0]
    if op == "in":
        return vals[e[1]]
    if op == "k":
        return T(k, fam)(e[1] & ((1 << width(k)) - 1))
    if op == "fld":
        return getattr(vals[e[1]], e[2])
    if op == "inv":
        return ~build(e[1], fam, ins, vals, k)
    if op in ("add", "sub", "and", "xor"):
        a, b = build(e[1], fam, ins, vals, k), build(e[2], fam, ins, vals, k)
        return a + b if op == "add" else a - b if op == "sub" else a & b if op == "and" else a ^ b
    if op == "mux":
        return build(e[1], fam, ins, vals, "bit").ite(build(e[2], fam, ins, vals, k), build(e[3], fam, ins, vals, k))
    if op == "eq":
        w = kind_of(e[1], ins) or kind_of(e[2], ins) or "b4"
        return build(e[1], fam, ins, vals, w) == build(e[2], fam, ins, vals, w)
    if op == "bitof":
        w = kind_of(e[1], ins) or "b4"
        return build(e[1], fam, ins, vals, w)[e[2]]
    if op == "is":
        v = vals[e[1]]
        r = v == getattr(ADTS[ins[e[1]][1]], e[2])
        return r if not isinstance(r, bool) else fam.Bit(r)
    raise HarnessError(op)


class Entry:
    def __init__(self, instr, fc=None):
        self.instr, self.fc = instr, fc


class Lab:
    def __init__(self, plan, ctx):
        from peak.ir import IR
        self.plan, self.ctx = plan, ctx
        self.libs = [IR() for _ in range(plan["libs"])]
        self.model = [{} for _ in self.libs]
        self.calls = []
        self.syms = {}
        self.generics = {}

    def fun(self, instr):
        ins, outs = instr["ins"], instr["outs"]

        def f(family, *args):
            if len(args) != len(ins):
                raise TypeError(f"the function of {ins} was given {len(args)} arguments")
            r = tuple(build(e, family, ins, args, k) for e, (n, k) in zip(instr["fun"], outs))
            return r if len(r) > 1 else r[0]
        if "generic" in instr:
            return self.generics.setdefault(instr["generic"], f)
        return f

    def interfaces(self, instr):
        from collections import OrderedDict
        return (Product.from_fields("Input", OrderedDict((n, T(k)) for n, k in instr["ins"])),
                Product.from_fields("Output", OrderedDict((n, T(k)) for n, k in instr["outs"])))

    def add(self, lib, name, instr, cls):
        I, O = self.interfaces(instr)
        kw = {} if cls is None else dict(cls_name=cls)
        self.libs[lib].add_peak_instruction(name, I, O, self.fun(instr), **kw)

    # ------------------------------------------------------ observing
    def contents(self, lib, why):
        got = self.libs[lib].instructions
        want = self.model[lib]
        self.ctx.check(set(got) == set(want), "wrong-contents",
                       lambda: f"{why}: library {lib} holds {sorted(got)}, successfully added {sorted(want)}")
        for n, e in want.items():
            if e.fc is None:
                e.fc = got[n]
            self.ctx.check(got[n] is e.fc, "replaced", lambda: f"{why}: instruction {n} of library {lib} was replaced")

    def behave(self, lib, name, fname, seed, strict=True):
        ctx = self.ctx
        e = self.model[lib][name]
        ins, outs = e.instr["ins"], e.instr["outs"]
        fam = reqs.family(fname)
        cls = e.fc(fam)
        what = f"instruction {name} ({e.instr}) of library {lib} in family {fname}"
        want_i = [(n, T(k)) for n, k in ins]
        want_o = [(n, T(k)) for n, k in outs]
        got_i, got_o = list(cls.input_t.field_dict.items()), list(cls.output_t.field_dict.items())
        ctx.check([n for n, t in got_i] == [n for n, t in want_i] and all(a is b for (n, a), (m, b) in zip(got_i, want_i)),
                  "wrong-interface", lambda: f"{what}: inputs {got_i}, declared {want_i}")
        ctx.check([n for n, t in got_o] == [n for n, t in want_o] and all(a is b for (n, a), (m, b) in zip(got_o, want_o)),
                  "wrong-interface", lambda: f"{what}: outputs {got_o}, declared {want_o}")
        obj = cls()
        for n in range(3):
            import random
            r = random.Random(seed + n)
            vals, args, sub = [], [], {}
            for j, (nm, k) in enumerate(ins):
                if k in ENUMS:
                    v = r.choice(["red", "green", "blue"])
                    m = getattr(ADTS[k], v)
                    vals.append(v)
                    args.append(m if fname != "smt" else fam.get_adt_t(ADTS[k])(m))
                    continue
                if k in ADTS:
                    v = {f: r.randrange(1 << width(ft)) for f, ft in PFIELDS[k].items()}
                    vals.append(v)
                    if fname == "smt":
                        args.append(fam.get_adt_t(ADTS[k]).from_fields(**{f: T(ft, fam)(v[f]) for f, ft in PFIELDS[k].items()}))
                    else:
                        args.append(ADTS[k](**{f: T(ft, fam)(v[f]) for f, ft in PFIELDS[k].items()}))
                    continue
                v = r.randrange(1 << width(k))
                vals.append(v)
                if fname == "smt" and n:
                    key = (j, 0 if k == "bit" else width(k))
                    if key not in self.syms:
                        self.syms[key] = SMTBitVector[key[1]](name=f"i{j}_{key[1]}") if key[1] else SMTBit(name=f"i{j}")
                    s = self.syms[key]
                    sub[s.value] = (v, 0 if k == "bit" else width(k))
                    args.append(s if k in ("b4", "b8", "bit") else T(k, fam)(s))
                else:
                    args.append(T(k, fam)(v))
            if r.random() < 0.5:
                got = obj(*args)
            else:
                got = obj(**dict(reversed(list(zip([n for n, k in ins], args)))))
            got = got if isinstance(got, tuple) else (got,)
            want = [calc(x, ins, vals, k) for x, (nm, k) in zip(e.instr["fun"], outs)]
            got = [self.num(x, sub) for x in got]
            got = [x % (1 << width(k)) for x, (nm, k) in zip(got, outs)] if len(got) == len(outs) else got
            ctx.ev("use", lib, name, fname, got)
            ctx.check(got == want, "wrong-result", lambda: f"{what}: inputs {vals} gave {got}, the function gives {want}")

    def num(self, x, sub):
        if isinstance(x, (SMTBit, SMTBitVector)) and sub:
            from pysmt.shortcuts import BV, Bool
            c = x.value.substitute({s: BV(v, w) if w else Bool(bool(v)) for s, (v, w) in sub.items()}).simplify()
            return int(c.constant_value())
        return reqs.as_int(x)

    # ------------------------------------------------------ operations
    def step(self, op, single):
        ctx = self.ctx
        k = op[0]
        if k == "use":
            fname, seed = op[1:]
            for lib, m in enumerate(self.model):
                for name in list(m):
                    if m[name].fc is not None:
                        self.behave(lib, name, fname, seed)
            return
        lib, name = op[1], op[2]
        dup = name in self.model[lib]
        if k in ("add", "addfc"):
            instr = op[3]
            nasty = any(n in NASTY for n, t in instr["ins"] + instr["outs"]) or name in NASTY or (
                k == "add" and op[4] in NASTY)
            ctx.cover.add(f"{k}:{len(instr['ins'])}:{len(instr['outs'])}:{dup}:{nasty}")
            entry = Entry(instr)
            if k == "add":
                f = lambda: self.add(lib, name, instr, op[4])  # noqa: E731
            else:
                tmp = Lab(dict(self.plan, libs=1), ctx)
                safe = dict(instr, ins=[[f"i{j}", t] for j, (n, t) in enumerate(instr["ins"])],
                            outs=[[f"o{j}", t] for j, (n, t) in enumerate(instr["outs"])])
                tmp.add(0, "Tmp", safe, None)
                entry.instr, entry.fc = safe, tmp.libs[0].instructions["Tmp"]
                nasty = False
                f = lambda: self.libs[lib].add_instruction(name, entry.fc)  # noqa: E731
            try:
                f()
            except Exception as e:
                ctx.ev("add refused", lib, name, type(e).__name__)
                err = e
            else:
                err = None
            if single or not self.contended(lib, name):
                ctx.check(not (dup and err is None), "duplicate-accepted", lambda: f"second addition of {name} to library {lib} accepted")
                if err is not None and not dup and not nasty:
                    raise err
                if err is None:
                    self.model[lib][name] = entry
                self.contents(lib, f"after {k} {name}") if single else None
            else:
                self.calls.append((lib, name, entry, err))
        elif k == "bad" and single:
            how, instr = op[3], op[4]
            I, O = self.interfaces(instr)
            f = self.fun(instr)
            lib_o = self.libs[lib]
            ctx.fault("failing_addition:" + how)
            before = dict(lib_o.instructions)
            try:
                if how == "ident":
                    lib_o.add_peak_instruction(name + ".x y", I, O, f)
                elif how == "kwname":
                    lib_o.add_peak_instruction(name, I, O, f, cls_name="class")
                elif how == "noinput":
                    lib_o.add_peak_instruction(name, None, O, f)
                elif how == "nofields":
                    lib_o.add_peak_instruction(name, I, int, f)
                else:
                    lib_o.add_peak_instruction(name, I)
            except Exception as e:
                ctx.ev("bad", how, type(e).__name__)
                after = dict(lib_o.instructions)
                ctx.check(before == after, "wrong-contents", lambda: f"failed addition ({how}) changed the library: {sorted(before)} -> {sorted(after)}")
                self.contents(lib, "after a failed addition")
            else:
                # accepted after all: then it is an instruction like any other
                new = set(lib_o.instructions) - set(before)
                for n in new:
                    self.model[lib][n] = Entry(instr)
                self.contents(lib, "after an unusual addition")
        elif k == "cut" and single:
            instr = op[3]
            ctx.cover.add(f"cut:{dup}")
            entry = Entry(instr)

            def once(nth=None, exc="KeyboardInterrupt"):
                with sched.Interrupter(ctx, nth, exc) as it:
                    try:
                        self.add(lib, name, instr, None)
                        return it, None
                    except BaseException as e:
                        return it, e
            n = isa.fork_eval(lambda: once()[0].count)
            if not n:
                return
            it, err = once(1 + int(op[4] * n), op[5])
            ctx.check(err is not None, "error-swallowed", "an interrupt during an addition was swallowed")
            ctx.ev("cut", lib, name, it.where, name in self.libs[lib].instructions)
            if not dup and name in self.libs[lib].instructions:
                # the interrupt came after the addition took effect: it must be whole
                self.model[lib][name] = entry
            self.contents(lib, "after an interrupted addition")

    def contended(self, lib, name):
        n = sum(1 for ops in self.plan["threads"] for op in ops if op[0] in ("add", "addfc") and op[1] == lib and op[2] == name)
        return n > 1

    def settle(self):
        """Concurrent additions of one name: exactly one of them won."""
        by = {}
        for lib, name, entry, err in self.calls:
            by.setdefault((lib, name), []).append((entry, err))
        for (lib, name), rs in by.items():
            won = [e for e, err in rs if err is None]
            self.ctx.check(len(won) <= 1, "duplicate-accepted",
                           lambda: f"{len(won)} additions of {name} to library {lib} succeeded")
            if won:
                self.model[lib][name] = won[0]
            else:
                nasty = any(n in NASTY for n, t in sum((e.instr["ins"] + e.instr["outs"] for e, err in rs), [])) or name in NASTY
                nasty = nasty or any(op[0] == "add" and op[1] == lib and op[2] == name and op[4] in NASTY
                                     for ops in self.plan["threads"] for op in ops)
                self.ctx.check(nasty, "refused", lambda: f"no addition of {name} succeeded: {rs[0][1]!r}")


def execute(plan, ctx):
    lab = Lab(plan, ctx)
    single = len(plan["threads"]) == 1

    def body(ops):
        for op in ops:
            ctx.steps += 1
            if single or op[0] in ("add", "addfc"):
                lab.step(op, single)
    if single:
        body(plan["threads"][0])
    else:
        s = sched.Sched(ctx, plan["sched"])
        for k, ops in enumerate(plan["threads"]):
            s.spawn(f"t{k}", lambda s, ops=ops: body(ops))
        for t in s.run():
            if t.error is not None:
                raise t.error
        ctx.fault("preemption", max(0, len(s.switches) - len(plan["threads"])))
        lab.settle()
    for lib in range(plan["libs"]):
        lab.contents(lib, "at the end")
        for n in sorted(lab.model[lib]):
            for i, fam in enumerate(["py", "smt", "pyx"]):
                lab.behave(lib, n, fam, plan["stim"][i])
    ctx.nontrivial = sum(len(m) for m in lab.model) >= 2
