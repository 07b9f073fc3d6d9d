"""Requests a user can make for classes, registers, assemblers and typed views,
and what can be observed about the object obtained.  Shared by C01 and C02."""
from hwtypes import Bit, BitVector, SMTBit, SMTBitVector

from . import adt, designs, isa
from .core import HarnessError

FAMS = ["py", "pyx", "pyx2", "smt", "smt2"]


_alt = []


def alt_assembler():
    """A user's own assembler: the first-generation one under another class."""
    if not _alt:
        class UserAssembler(isa.assemblers()[0]):
            pass
        # which happens to have the name of the library's
        UserAssembler.__name__ = UserAssembler.__qualname__ = isa.assemblers()[0].__name__
        _alt.append(UserAssembler)
    return _alt[0]


def family(name):
    from peak.family import PyFamily, PyXFamily, SMTFamily
    A2 = alt_assembler()
    if name == "py":
        return PyFamily()
    if name == "pyx":
        return PyXFamily()
    if name == "pyx2":
        return PyXFamily(assembler=A2)
    if name == "smt":
        return SMTFamily()
    if name == "smt2":
        return SMTFamily(assembler=A2)
    raise HarnessError(name)


def as_int(x):
    if isinstance(x, (SMTBit, SMTBitVector)):
        return isa.smt_const(x)
    if isinstance(x, (Bit, BitVector)):
        return int(x)
    if isinstance(x, (bool, int)):
        return int(x)
    if hasattr(x, "_value_"):
        v = x._value_
        return v if isinstance(v, int) else as_int(v)
    raise TypeError(f"result {x!r} is no bit or bit-vector")


def outs(r):
    return [as_int(x) for x in r] if isinstance(r, tuple) else [as_int(r)]


def chain(e):
    seen = []
    while e is not None and e not in seen:
        seen.append(e)
        e = e.__cause__ or e.__context__
    return seen


# what a fault raises; the misuses below raise none of these by themselves
FAULTS = (KeyboardInterrupt, MemoryError, OSError, RuntimeError)


def misuses():
    """Definitions that must fail, the same way every time they are tried."""
    from hwtypes.adt import Enum, Product
    from peak import Peak, name_outputs
    from peak.assembler import AssembledADT as V1
    from peak.assembler2.assembled_adt import AssembledADT as V2
    from peak.family import PyFamily, PyXFamily
    A1, A2 = isa.assemblers()
    B = BitVector

    def no_arg(self, a, b: B[4]) -> B[4]:
        return b

    def no_return(self, a: B[4]):
        return a

    def named(self, a, b: B[4]):
        return b

    class Neg(Enum):
        a = -1
        b = 2

    class Emp(Enum):
        pass

    class Odd(Product):
        a = B[2]
        b = int

    for f in (no_arg, no_return, named):
        f.__name__ = "__call__"
    named = name_outputs(o=B[4])(named)

    def cls(f):
        return lambda: type(Peak)("P", (Peak,), {"__call__": f})
    out = [cls(no_arg), cls(no_return), cls(named)]
    for V, A in ((V1, A1), (V2, A2)):
        for T in (Neg, Emp, Odd, int):
            out.append(lambda A=A, T=T: A(T))
            out.append(lambda V=V, A=A, T=T: V[T, A, B])
    out.append(lambda: PyXFamily().get_adt_t(int))
    out.append(lambda: PyFamily().gen_register(B[4], None)())
    out.append(lambda: PyFamily().gen_register(B[4], [0])())
    return out


NMISUSES = 22


class World:
    """The closures and types of one plan."""

    def __init__(self, plan):
        self.plan = plan
        alt_assembler()
        self.types = adt.Types()
        for t in plan["types"]:
            self.types.build(t)
        self.bad = misuses()
        assert len(self.bad) == NMISUSES
        self.fcs = []
        for c in plan["closures"]:
            mk = {"alu": designs.make_alu, "acc": designs.make_acc, "attr": designs.make_attr,
                  "dec": designs.make_dec, "bb": designs.make_bb}.get(c[0])
            if mk is not None:
                self.fcs.append(mk())
            elif c[0] == "mapping":
                self.fcs.append((designs.make_march(), [designs.make_mir(k) for k in range(4)]))
            else:
                self.fcs.append(designs.make_top(self.fcs[c[1]], self.fcs[c[2]]))

    # ------------------------------------------------------ obtaining
    def reg_t(self, fam, fname, spec):
        """(T, init) of a register request: spec = ["bv", w, init] | ["bit", i] | ["adt", type, value]"""
        if spec[0] == "bv":
            return fam.BitVector[spec[1]], spec[2]
        if spec[0] == "sbv":
            return fam.Signed[spec[1]], spec[2]
        if spec[0] == "bit":
            return fam.Bit, spec[1]
        t = self.plan["types"][spec[1]]
        return fam.get_adt_t(self.types.build(t)), self.types.value(t, spec[2])

    def get(self, req):
        k = req[0]
        A1, A2 = isa.assemblers()
        if k == "fc":
            _, i, fname, args, kw = req[:5]
            fc = self.fcs[i]
            if fname in ("py", "pyx", "smt") and not args and not kw and req_style(req):
                return {"py": lambda: fc.Py, "pyx": lambda: fc.PyX, "smt": lambda: fc.SMT}[fname]()
            return fc(family(fname), *args, **dict((a, b) for a, b in kw))
        if k == "reg":
            _, fname, spec, en = req
            fam = family(fname)
            T, init = self.reg_t(fam, fname, spec)
            return fam.gen_register(T, init, has_enable=en)
        if k == "areg":
            _, fname, spec = req
            fam = family(fname)
            T, init = self.reg_t(fam, fname, spec)
            return fam.gen_attr_register(T, init)
        if k == "asm":
            _, gen, ti, kw = req
            T = self.types.build(self.plan["types"][ti])
            return (A2 if gen == 2 else A1)(**{"isa": T}) if kw else (A2 if gen == 2 else A1)(T)
        if k == "view":
            _, gen, ti, bvk = req
            return self.view_t(gen, bvk)[self.types.build(self.plan["types"][ti]), A2 if gen == 2 else A1,
                                         SMTBitVector if bvk == "smt" else BitVector]
        if k == "adt_t":
            _, fname, ti = req
            return family(fname).get_adt_t(self.types.build(self.plan["types"][ti]))
        if k == "map":
            from peak.mapper import ArchMapper
            _, i, n, simple, ext = req
            arch_fc, irs = self.fcs[i]
            return ArchMapper(arch_fc).process_ir_instruction(irs[n], simple_formula=simple).solve(
                "z3", external_loop=ext)
        if k == "rule":
            from peak.mapper.mapper import RewriteRule
            _, i, n, op, neg = req
            arch_fc, irs = self.fcs[i]
            rr = RewriteRule([(BitVector[2](op), ("inst", "op")), (Bit(neg), ("inst", "neg")),
                              (("x",), ("a",)), (("y",), ("b",))], [((0,), (0,))], irs[n], arch_fc)
            return rr, rr.verify() is None
        if k == "bad":
            res = []
            for n in req[1]:
                try:
                    self.bad[n]()
                except BaseException as e:
                    if any(isinstance(x, FAULTS) for x in chain(e)):
                        raise
                    res.append([n, "raised", type(e).__name__])
                else:
                    res.append([n, "accepted"])
            return res
        if k == "avf":
            from peak.assembler.utils import assemble_values_in_func
            fn = designs.VALUE_FUNCS[req[1]]
            # an earlier function of the same name is in scope, as it is when
            # the result replaces the original
            scope = {fn.__name__: designs.stale_values, "Word": designs.Word}
            return assemble_values_in_func(
                {designs.Word: (designs.Mode, (A2 if req[2] == 2 else A1)(designs.Mode).assemble)}, fn, scope, {"Mode": designs.Mode})
        raise HarnessError(req)

    def view_t(self, gen, bvk):
        from peak.assembler import AssembledADT as D1
        from peak.assembler2.assembled_adt import AssembledADT as D2
        return D2 if gen == 2 else D1

    # ------------------------------------------------------ identity
    def key(self, req):
        """Requests with equal keys ask for the same thing in the same way."""
        k = req[0]
        if k == "fc":
            return ("fc", req[1], req[2], tuple(req[3]), tuple(sorted(map(tuple, req[4]))))
        if k == "adt_t":
            return ("adt_t", req[1], adt.ident(self.plan["types"][req[2]]))
        if k == "view":
            return ("view", req[1], adt.ident(self.plan["types"][req[2]]), req[3])
        if k == "asm":
            return ("asm", req[1], adt.ident(self.plan["types"][req[2]]), req[3])
        if k in ("reg", "areg"):
            fam = req[1]
            spec = req[2]
            if spec[0] == "adt":
                spec = ("adt", adt.ident(self.plan["types"][spec[1]]), repr(spec[2]))
            return (k, fam, tuple(spec)) + tuple(req[3:])
        return tuple(req)

    def bound(self, req):
        """Requests with different bounds must get different objects."""
        if req[0] == "fc":
            names = {"bb": [], "alu": ["width"], "acc": ["width", "init"], "attr": ["width", "init"],
                     "dec": ["width"], "top": ["width", "init"]}[self.plan["closures"][req[1]][0]]
            d = {"width": 4, "init": 0, "neg": False, "swap": False, "step": 1, "en": True, "lim": 5, "second": False}
            d.update(zip(names, req[3]))
            d.update(dict(map(tuple, req[4])))
            return ("fc", req[1], req[2], tuple(sorted(d.items())))
        # the name of a parameter makes no difference to the object
        return self.key(req)[:3] if req[0] == "asm" else self.key(req)

    # ------------------------------------------------------ behaviour
    def behave(self, req, obj, stim):
        k = req[0]
        if k == "fc":
            return self.run_design(self.plan["closures"][req[1]][0], req, obj, stim)
        if k in ("reg", "areg"):
            fam = family(req[1])
            T, init = self.reg_t(fam, req[1], req[2])
            if req[2][0] == "adt":
                t = self.plan["types"][req[2][1]]
                vals = [T(self.types.value(t, v)) for v in self.plan["values"][req[2][1]]]
            else:
                vals = [T(int(v) & 1) if req[2][0] == "bit" else T(v % (1 << req[2][1])) for v in stim]
            a, b = obj(), obj()
            out = []
            sh = (lambda x: repr(x)) if req[2][0] == "adt" else as_int
            for n, v in enumerate(vals):
                if k == "reg" and req[3]:
                    out.append([sh(a(v, fam.Bit((stim[n % len(stim)] >> 2) & 1))), sh(a.prev()), sh(b.prev())])
                elif k == "reg":
                    out.append([sh(a(v)), sh(a.prev()), sh(b.prev())])
                else:
                    out.append([sh(a._peak_()), a._poke_(v), sh(a._peak_()), sh(b._peak_())])
            return [isinstance(a, type(fam).RegBase if k == "reg" else type(fam).AttrRegBase), out]
        if k == "asm":
            t = self.plan["types"][req[2]]
            return [int(obj.width), [isa.safe(lambda: int(obj.assemble(self.types.value(t, v))))
                                     for v in self.plan["values"][req[2]]],
                    [isa.safe(lambda: int(bool(obj.is_valid(BitVector[int(obj.width)](s % (1 << int(obj.width)))))))
                     for s in stim]]
        if k in ("view", "adt_t"):
            ti = req[2]
            t = self.plan["types"][ti]
            if k == "adt_t" and req[1] == "py":
                return obj is self.types.build(t)
            out = []
            for v in self.plan["values"][ti]:
                x = obj(self.types.value(t, v))
                out.append([as_int(x._value_), as_int(obj(x._value_) == x)])
                for key, i, sub in isa.keys(self.types, t)[:3]:
                    f = isa.safe(lambda: x[key] if t[0] in ("sum", "tup") else getattr(x, key))
                    if not isinstance(f, str):
                        f = [as_int(f.match)] + outs(f._value) if t[0] in ("sum", "tu") else outs(f)
                    out.append(f)
            return out
        if k == "map":
            return [obj is not None, obj is not None and obj.verify() is None]
        if k == "rule":
            return [obj[1], obj[0].verify() is None]
        if k == "bad":
            return obj
        if k == "avf":
            return [int(obj(BitVector[4](s & 15))) for s in stim]
        raise HarnessError(req)

    def run_design(self, kind, req, cls, stim):
        b = dict(self.bound(req)[3])
        fam = family(req[2])
        w = b["width"]
        T, B = fam.BitVector[w], fam.Bit
        x, y = cls(), cls()
        out = []
        for n, s in enumerate(stim):
            o = y if n % 3 == 2 else x
            v, u = s & ((1 << w) - 1), (s >> 3) & ((1 << w) - 1)
            bit, op = (s >> 1) & 1, (s >> 5) & 3
            if kind == "alu":
                r = o(fam.BitVector[2](op), T(v), T(u))
            elif kind in ("acc", "attr"):
                r = o(T(v), B(bit))
            elif kind == "bb":
                a, c = fam.BitVector[4](v & 15), fam.BitVector[4](u & 15)
                if "smt" in req[2]:
                    o.p._set_outputs(fam.BitVector[4](op + 1))
                    o.q._set_outputs(fam.BitVector[4](v & 7))
                r = o(a, c, B(bit))
                if "smt" in req[2]:
                    r = (r,) + tuple(o.p._get_inputs()) + tuple(o.q._get_inputs())
            elif kind == "top":
                r = o(fam.BitVector[2](op), T(v), B(bit))
            else:
                I = designs.Inst2 if b["second"] else designs.Inst
                m = [designs.Mode.hold, designs.Mode.add, designs.Mode.xor][op % 3]
                imm = BitVector[4](u & 15)
                i = I(imm, m) if b["second"] else I(m, imm)
                if req[2] != "py":
                    i = fam.get_adt_t(I)(i)
                r = o(i, fam.BitVector[4](v & 15))
            out.append(outs(r))
        return [out, [str(cls.__name__)]]


def req_style(req):
    return len(req) > 5 and bool(req[5])


def gen_world(rng, ntypes=3):
    g = adt.Gen(rng, max_width=14, dup_names=0.4)
    types = [g.type(rng.choice([1, 1, 2]), top=True) for _ in range(ntypes)]
    if rng.random() < 0.5:
        t = rng.choice(types)
        if t[0] in ("prod", "tu"):
            types.append([t[0], t[1], list(reversed(t[2]))])
    values = [[adt.gen_value(rng, t) for _ in range(4)] for t in types]
    closures = [["alu"], ["acc"], ["top", 1, 0], ["attr"], ["dec"]]
    stim = [rng.randrange(256) for _ in range(10)]
    return dict(types=types, values=values, closures=closures, stim=stim)


def gen_req(rng, w):
    k = rng.choice(["fc", "fc", "fc", "reg", "reg", "areg", "asm", "view", "view", "adt_t"])
    fam = rng.choice(FAMS)
    if k == "fc":
        i = rng.randrange(len(w["closures"]))
        kind = w["closures"][i][0]
        args = [rng.choice([3, 4])] if kind != "dec" else []
        if rng.random() < 0.3:
            args = []
        if kind in ("acc", "attr", "top") and args and rng.random() < 0.5:
            args.append(rng.choice([0, 1, 5]))
        kw = []
        if rng.random() < 0.5:
            opts = {"alu": [["neg", True], ["swap", True]], "acc": [["step", 3], ["en", False]],
                    "attr": [["lim", 2]], "dec": [["second", True]], "top": []}[kind]
            kw = [o for o in opts if rng.random() < 0.8]
            rng.shuffle(kw)
        return ["fc", i, fam, args, kw, rng.random() < 0.5]
    if k in ("reg", "areg"):
        s = rng.choice(["bv", "bv", "bit", "sbv", "adt"])
        if s == "adt":
            ti = rng.randrange(len(w["types"]))
            if fam in ("py",):
                fam = "pyx"
            spec = ["adt", ti, rng.choice(w["values"][ti])]
        elif s == "bit":
            spec = ["bit", rng.randrange(2)]
        else:
            wd = rng.choice([3, 4, 5])
            spec = [s, wd, rng.choice([0, 2, 3])]
        return [k, fam, spec] + ([bool(rng.randrange(2))] if k == "reg" else [])
    ti = rng.randrange(len(w["types"]))
    if k == "asm":
        return ["asm", rng.choice([1, 2]), ti, rng.random() < 0.3]
    if k == "view":
        return ["view", rng.choice([1, 2]), ti, rng.choice(["bv", "smt"])]
    return ["adt_t", fam, ti]


def mutate(rng, w, req):
    """A request close to req: same closure, other family / option / type."""
    r = [list(x) if isinstance(x, list) else x for x in req]
    k = r[0]
    if k == "fc":
        c = rng.random()
        if c < 0.5:
            r[2] = rng.choice(FAMS)
        elif c < 0.75:
            r[4] = list(reversed(r[4]))
        else:
            r[3] = [3 if a == 4 else 4 if a == 3 else a for a in r[3]]
    elif k in ("reg", "areg"):
        c = rng.random()
        if c < 0.35 and k == "reg":
            r[3] = not r[3]
        elif c < 0.6 and r[2][0] != "adt":
            r[1] = rng.choice(FAMS)
        elif r[2][0] in ("bv", "sbv"):
            r[2] = [rng.choice(["bv", "sbv"]), r[2][1], rng.choice([0, 2, 3])]
        elif r[2][0] == "bit":
            r[2] = ["bit", 1 - r[2][1]]
        else:
            r[2] = ["adt", r[2][1], rng.choice(w["values"][r[2][1]])]
    elif k == "asm":
        r[1] = 3 - r[1]
    elif k == "view":
        if rng.random() < 0.5:
            r[1] = 3 - r[1]
        else:
            r[3] = "smt" if r[3] == "bv" else "bv"
    else:
        r[1] = rng.choice(FAMS)
    return r
