"""C07: a register returns the last accepted write, and only its own.
Oracle: one stored word per instance (per assignment of the free symbols)."""
import warnings

from hwtypes import SMTBit, SMTBitVector
from hwtypes.adt import Enum

from sim import adt, isa, reqs, sched
from sim.core import HarnessError

LANES = 3


# --------------------------------------------------------------- generation
def gen_cell(rng, types, values):
    fam = rng.choice(reqs.FAMS)
    kind = rng.choice(["reg", "reg", "areg", "areg", "old", "old2"])
    c = rng.choice(["bv", "bv", "bit", "sbv", "adt", "enum"])
    if kind == "old2":      # a plain Python class
        fam = rng.choice(["py", "pyx"])
    if kind in ("old", "old2"):
        c = rng.choice(["bv", "bv", "bit"])
        if kind == "old2":
            c = "bv"
    if c in ("adt", "enum"):
        if c == "enum" and fam == "py":
            ti = next((i for i, t in enumerate(types) if t[0] == "enum"), None)
            if ti is None:
                c = "bv"
        elif c == "adt" or c == "enum":
            if fam == "py":
                fam = rng.choice(reqs.FAMS[1:])
            ti = rng.randrange(len(types))
            c = "adt"
    if c in ("adt", "enum"):
        spec = ["adt", ti, rng.choice(values[ti])]
    elif c == "bit":
        spec = ["bit", rng.randrange(2)]
    else:
        w = rng.choice([1, 3, 4, 8, 33])
        spec = [c, w, rng.choice([0, 1, 2, (1 << w) - 1, rng.randrange(1 << w)]) % (1 << w)]
    return [kind, fam, spec, bool(rng.randrange(2))]


def gen_ops(rng, cells, values, n):
    """Operations of one thread over its own instances."""
    ops, inst, holds = [], [], []

    def val(ci):
        spec, fam = cells[ci][2], cells[ci][1]
        if "smt" in fam and rng.random() < 0.4:
            return ["sym", rng.randrange(4)]
        if spec[0] == "adt":
            return ["v", rng.choice(values[spec[1]])]
        if spec[0] == "bv" and rng.random() < 0.25:     # a value of a subtype
            return [rng.choice(["Signed", "Unsigned"]), rng.randrange(1 << spec[1])]
        return ["v", rng.randrange(2 if spec[0] == "bit" else 1 << spec[1])]

    def en(ci):
        if "smt" in cells[ci][1] and rng.random() < 0.3:
            return ["sym", rng.randrange(4)]
        return ["v", rng.randrange(2)]
    for _ in range(n):
        c = rng.random()
        if c < 0.12 or not inst:
            if rng.random() < 0.35 and len(cells) > 1:
                cs = [rng.randrange(len(cells)) for _ in range(rng.randint(2, 4))]
                ops.append(["hold", cs, rng.randrange(3)])
                inst += cs
            else:
                ci = rng.randrange(len(cells))
                ops.append(["new", ci])
                inst.append(ci)
            continue
        i = rng.randrange(len(inst))
        ci = inst[i]
        c = rng.random()
        if c < 0.5:
            op = ["write", i, val(ci), en(ci), rng.choice(["pos", "kw", "mix"])]
            if rng.random() < 0.1:
                op = ["cut", i, val(ci), ["v", 1], "pos", rng.random()]
            ops.append(op)
        elif c < 0.75:
            ops.append(["read", i, rng.randint(1, 3)])
        elif c < 0.9:
            ops.append(["bad", i, rng.choice(["width", "int", "none", "str", "bit", "missing", "extra", "class", "sign"])])
        else:
            ops.append(["all"])
    return ops


def generate(rng, tier):
    g = adt.Gen(rng, max_width=12, dup_names=0.3)
    types = [g.type(1, top=True) for _ in range(2)] + [adt.gen_enum(rng, "Mode", small=True)]
    values = [[adt.gen_value(rng, t) for _ in range(4)] for t in types]
    cells = [gen_cell(rng, types, values) for _ in range(rng.randint(2, 5))]
    # siblings: same arguments but for one
    for _ in range(rng.randint(0, 2)):
        k, f, s, e = rng.choice(cells)
        c = rng.random()
        if c < 0.4:
            cells.append([k, f, list(s), not e])
        elif s[0] == "bv":
            cells.append([k, f, ["bv", s[1], (s[2] + 1) % (1 << s[1])], e])
        elif s[0] == "adt":
            cells.append([k, f, ["adt", s[1], rng.choice(values[s[1]])], e])
    nt = rng.choice([1, 1, 2, 3])
    threads = [gen_ops(rng, cells, values, rng.randint(15, 40) // nt + 4) for _ in range(nt)]
    lanes = [[rng.randrange(1 << 40) for _ in range(4)] for _ in range(LANES)]
    return dict(types=types, values=values, cells=cells, threads=threads, lanes=lanes,
                sched=sched.gen_spec(rng, nt, 400))


# --------------------------------------------------------------- execution
class Cells:
    def __init__(self, plan):
        self.plan = plan
        self.w = reqs.World(dict(types=plan["types"], values=plan["values"], closures=[]))
        self.cls, self.T, self.width, self.fam, self.init = [], [], [], [], []
        self.syms = {}
        for kind, fname, spec, en in plan["cells"]:
            fam = reqs.family(fname)
            T, init = self.w.reg_t(fam, fname, spec)
            if kind == "reg":
                cls = fam.gen_register(T, init, has_enable=en)
            elif kind == "areg":
                cls = fam.gen_attr_register(T, init)
            else:
                from peak.register import gen_register, gen_register2
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    if kind == "old":
                        Tp, ip = self.w.reg_t(reqs.family("py"), "py", spec)
                        cls = gen_register(Tp, ip)(fam)
                    else:
                        cls = gen_register2(fam, T, init=init)
            self.cls.append(cls)
            self.T.append(T)
            self.fam.append(fam)
            self.width.append(1 if spec[0] == "bit" else adt.width(plan["types"][spec[1]]) if spec[0] == "adt" else spec[1])
            self.init.append([self.raw(len(self.T) - 1, T(init))] * LANES if spec[0] == "adt" else [spec[-1]] * LANES)

    def raw(self, ci, x):
        kind, fname, spec, en = self.plan["cells"][ci]
        if fname == "py" and spec[0] == "adt":      # enum members stand for themselves
            return [a for a, b in self.plan["types"][spec[1]][2]].index(x.name)
        return reqs.as_int(x)

    def has_en(self, ci):
        k = self.plan["cells"][ci]
        return k[0] in ("old", "old2") or (k[0] == "reg" and k[3])

    def sym(self, w, k, bit=False):
        key = (w, k, bit)
        if key not in self.syms:
            self.syms[key] = SMTBit(name=f"s{k}_b") if bit else SMTBitVector[w](name=f"s{k}_{w}")
        return self.syms[key]

    def value(self, ci, v):
        """(object to write, its word in every lane)"""
        kind, fname, spec, en = self.plan["cells"][ci]
        T, w = self.T[ci], self.width[ci]
        if v[0] == "sym":
            s = self.sym(w, v[1], spec[0] == "bit")
            if spec[0] == "adt":
                o = T(s)
            elif spec[0] == "bit":
                o = s
            else:
                o = T(s)
            return o, [l[v[1]] % (1 << w) for l in self.plan["lanes"]]
        if spec[0] == "adt":
            o = T(self.w.types.value(self.plan["types"][spec[1]], v[1]))
            return o, [self.raw(ci, o)] * LANES
        if v[0] in ("Signed", "Unsigned"):
            T = getattr(self.fam[ci], v[0])[w]
        return T(v[1]), [v[1]] * LANES

    def enable(self, ci, v):
        if v[0] == "sym":
            return self.sym(1, v[1], True), [l[v[1]] & 1 for l in self.plan["lanes"]]
        return self.fam[ci].Bit(v[1]), [v[1]] * LANES

    def lanes(self, ci, x):
        """The word x stands for in every lane."""
        w = self.width[ci]
        if isinstance(x, Enum):
            return [self.raw(ci, x)] * LANES
        y = x
        while hasattr(y, "_value_") and not isinstance(y, (SMTBit, SMTBitVector)):
            n = y._value_
            if isinstance(n, int):
                break
            y = n
        if not isinstance(y, (SMTBit, SMTBitVector)):
            return [reqs.as_int(x) % (1 << w)] * LANES
        from pysmt.shortcuts import BV, Bool
        out = []
        for l in self.plan["lanes"]:
            sub = {s.value: Bool(bool(l[k] & 1)) if bit else BV(l[k] % (1 << w), w)
                   for (w, k, bit), s in list(self.syms.items())}
            c = y.value.substitute(sub).simplify()
            if not c.is_constant():
                raise HarnessError(f"{c} is not constant")
            out.append(int(c.constant_value()))
        return out


def run_thread(cs, ctx, tid, ops, single):
    from peak import Peak
    inst = []      # [ci, object or (holder, path), lanes]
    done = [0]

    def where(i):
        ci = inst[i][0]
        return f"thread {tid} instance {i} of {cs.plan['cells'][ci]}"

    def add(ci, get, put=None):
        inst.append([ci, get, put, list(cs.init[ci])])

    def new_holder(cis, style):
        class Holder(Peak):
            pass
        top = Holder()
        at = top
        for n, ci in enumerate(cis):
            if style == 2 and n:
                sub = Holder()
                setattr(at, f"sub{n}", sub)
                at = sub
            name = f"r{n}" if style != 1 else f"x{n}"
            setattr(at, name, cs.cls[ci]())
            if cs.plan["cells"][ci][0] == "areg":
                add(ci, lambda at=at, name=name: getattr(at, name), lambda v, at=at, name=name: setattr(at, name, v))
            else:
                # always reached through the holder
                add(ci, lambda at=at, name=name: getattr(at, name))

    def read(i):
        ci, get, put, model = inst[i]
        kind = cs.plan["cells"][ci][0]
        if kind == "areg":
            got = get()
        elif kind == "old2":
            got = get()(cs.value(ci, ["v", 0])[0], cs.fam[ci].Bit(0))
        else:
            got = get().prev()
        return cs.lanes(ci, got)

    def look(i, why):
        got = read(i)
        ctx.ev(tid, "look", i, got)
        ctx.check(got == inst[i][3], "wrong-value",
                  lambda: f"{where(i)} {why}: holds {got}, last accepted write {inst[i][3]} (op {done[0]})")

    def write(i, v, en, style):
        ci, get, put, model = inst[i]
        o, lanes = cs.value(ci, v)
        kind = cs.plan["cells"][ci][0]
        if kind == "areg":
            old = get()
            put(o)
            return cs.lanes(ci, old), lanes
        r = get()
        if not cs.has_en(ci):
            ret = r(o) if style == "pos" else r(value=o)
            return cs.lanes(ci, ret), lanes
        e, el = cs.enable(ci, en)
        ret = r(o, e) if style == "pos" else r(en=e, value=o) if style == "kw" else r(o, en=e)
        return cs.lanes(ci, ret), [a if f else b for a, b, f in zip(lanes, model, el)]

    for op in ops:
        done[0] += 1
        ctx.steps += 1
        k = op[0]
        if k == "new":
            ci = op[1]
            obj = cs.cls[ci]()
            if cs.plan["cells"][ci][0] == "areg":
                add(ci, lambda obj=obj: obj._peak_(), lambda v, obj=obj: obj._poke_(v))
            else:
                add(ci, lambda obj=obj: obj)
            look(len(inst) - 1, "fresh")
            continue
        if k == "hold":
            n = len(inst)
            new_holder(op[1], op[2])
            for i in range(n, len(inst)):
                look(i, "fresh")
            continue
        if k == "all":
            for i in range(len(inst)):
                look(i, "later")
            continue
        i = op[1]
        if i >= len(inst):
            continue
        ci = inst[i][0]
        ctx.cover.add(f"{k}:{cs.plan['cells'][ci][0]}:{cs.plan['cells'][ci][1]}:{cs.plan['cells'][ci][2][0]}")
        if k == "write":
            before = inst[i][3]
            ret, after = write(i, op[2], op[3], op[4])
            ctx.ev(tid, "write", i, ret, after)
            ctx.check(ret == before, "wrong-value",
                      lambda: f"{where(i)}: call returned {ret}, held before {before}")
            inst[i][3] = after
            look(i, "after a write")
        elif k == "cut" and single:
            before = inst[i][3]

            def once(nth=None):
                with sched.Interrupter(ctx, nth, record=True) as it:
                    try:
                        return write(i, op[2], op[3], op[4]), it
                    except KeyboardInterrupt:
                        return None, it
            n = isa.fork_eval(lambda: once()[1].count)
            if not n:
                continue
            _, want = isa.fork_eval(lambda: write(i, op[2], op[3], op[4]))
            r, it = once(1 + int(op[5] * n))
            ctx.check(r is None, "error-swallowed", lambda: f"{where(i)}: the interrupt was swallowed")
            got = read(i)
            ctx.ev(tid, "cut", i, got)
            ctx.check(got in (before, want), "torn-write",
                      lambda: f"{where(i)}: interrupted write left {got}, before {before}, offered {want}")
            inst[i][3] = got
        elif k == "read":
            for _ in range(op[2]):
                look(i, "read")
        elif k == "bad":
            bad(cs, ctx, inst, i, op[2], where)
            look(i, "after a refused access")
    for i in range(len(inst)):
        look(i, "at the end")
    return len(inst)


def bad(cs, ctx, inst, i, how, where):
    ci, get, put, model = inst[i]
    kind, fname, spec, en = cs.plan["cells"][ci]
    fam, w = cs.fam[ci], cs.width[ci]
    if kind == "areg":
        v = {"width": lambda: fam.BitVector[w + 1](0), "int": lambda: 1, "none": lambda: None, "str": lambda: "0",
             "bit": lambda: fam.BitVector[1](0) if spec[0] == "bit" else fam.Bit(0),
             "sign": lambda: fam.Unsigned[w](0) if spec[0] == "sbv" else (fam.Signed[w + 1](0)),
             "missing": lambda: (), "extra": lambda: [0], "class": lambda: cs.T[ci]}[how]()
        if isinstance(v, cs.T[ci]):
            return
        ctx.fault("rejected_assignment")
        try:
            put(v)
        except Exception:
            return
        ctx.fail("accepted", f"{where(i)}: assignment of {v!r} was accepted")
    r = get()
    o = cs.value(ci, ["v", spec[2] if spec[0] == "adt" else 0])[0]
    e = fam.Bit(1)
    calls = {"none": lambda: r(None, e) if cs.has_en(ci) else r(),
             "missing": lambda: r(o) if cs.has_en(ci) else r(),
             "extra": lambda: r(o, e, e) if cs.has_en(ci) else r(o, e),
             "class": lambda: r(data=o)}
    if how not in calls:
        return
    ctx.fault("refused_call")
    try:
        calls[how]()
    except Exception:
        return
    ctx.fail("accepted", f"{where(i)}: a malformed call ({how}) was accepted")


def execute(plan, ctx):
    cs = Cells(plan)
    if len(plan["threads"]) == 1:
        n = run_thread(cs, ctx, 0, plan["threads"][0], True)
        ctx.nontrivial = n >= 2
        return
    s = sched.Sched(ctx, plan["sched"])
    for k, ops in enumerate(plan["threads"]):
        s.spawn(f"t{k}", lambda s, k=k, ops=ops: run_thread(cs, ctx, k, ops, False))
    for t in s.run():
        if t.error is not None:
            raise t.error
    ctx.fault("preemption", max(0, len(s.switches) - len(plan["threads"])))
    ctx.nontrivial = len(s.switches) > len(plan["threads"])
