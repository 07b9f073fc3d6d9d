"""Small hand-written designs used where a check needs families of closures
(C01, C02, C11).  Each factory returns a fresh family_closure."""
from hwtypes import Bit, BitVector
from hwtypes.adt import Enum, Product

from peak import Const, Peak, family_closure, name_outputs


class Mode(Enum):
    hold = 0
    add = 1
    xor = 2


class Inst(Product):
    mode = Mode
    imm = BitVector[4]


class Inst2(Product):
    imm = BitVector[4]
    mode = Mode


class Word:
    """Stands for Mode in the functions below: same names, no usable values."""
    hold = add = xor = None


def values_a(x):
    if x == Word.xor:
        return x + Word.add
    return x ^ Word.xor


def values_b(x):
    y = x - Word.add
    return y if x == Word.add else y + Word.xor + Mode.xor.value


VALUE_FUNCS = [values_a, values_b]


def stale_values(x):
    return x


def make_alu():
    @family_closure
    def alu_fc(family, width=4, *, neg=False, swap=False):
        T = family.BitVector[width]
        B = family.Bit
        k = width - 1
        inv = T((1 << width) - 1 if neg else 0)
        off = T(3 if swap else 0)

        @family.assemble(locals(), globals())
        class Alu(Peak):
            def __call__(self, op: BitVector[2], a: T, b: T) -> (T, B):
                if op == 0:
                    r = a + b
                elif op == 1:
                    r = a & b
                elif op == 2:
                    r = a ^ b
                else:
                    r = a - b + off
                r = r ^ inv
                return r, r[k]
        return Alu
    return alu_fc


def make_acc():
    """Accumulator on a value register."""
    @family_closure
    def acc_fc(family, width=4, init=0, *, step=1, en=True):
        T = family.BitVector[width]
        B = family.Bit
        R = family.gen_register(T, init, has_enable=True)

        @family.assemble(locals(), globals())
        class Acc(Peak):
            def __init__(self):
                self.r = R()
                self.s = R()

            def __call__(self, x: T, w: B) -> T:
                old = self.r(x + step, w)
                return self.s(old, ~w) + old
        return Acc
    return acc_fc


def make_attr():
    """State machine on attribute registers."""
    @family_closure
    def attr_fc(family, width=4, init=0, *, lim=5):
        T = family.BitVector[width]
        B = family.Bit
        R = family.gen_attr_register(T, init)
        F = family.gen_attr_register(B, 0)

        @family.assemble(locals(), globals())
        class Fsm(Peak):
            def __init__(self):
                self.n = R()
                self.f = F()

            def __call__(self, x: T, rst: B) -> (T, B):
                cur = self.n
                flag = self.f
                if rst:
                    self.n = T(init)
                    self.f = B(0)
                elif cur == lim:
                    self.n = x
                    self.f = ~flag
                else:
                    self.n = cur + 1
                return cur, flag
        return Fsm
    return attr_fc


def make_dec():
    """Decodes an assembled instruction."""
    @family_closure
    def dec_fc(family, width=4, *, second=False):
        I = Inst2 if second else Inst
        T = family.BitVector[4]
        R = family.gen_register(T, 3)
        IT = family.get_adt_t(I)
        MT = family.get_adt_t(Mode)

        @family.assemble(locals(), globals())
        class Dec(Peak):
            def __init__(self):
                self.r = R()

            def __call__(self, inst: Const(I), x: T) -> T:
                if inst.mode == MT(Mode.hold):
                    v = x
                elif inst.mode == MT(Mode.add):
                    v = x + inst.imm
                else:
                    v = x ^ inst.imm
                return self.r(v, family.Bit(1))
        return Dec
    return dec_fc


def make_top(acc_fc, alu_fc):
    """Uses two other closures, both through the shared caches."""
    @family_closure
    def top_fc(family, width=4, init=0):
        T = family.BitVector[width]
        B = family.Bit
        Acc = acc_fc(family, width, init, step=2)
        Alu = alu_fc(family, width, swap=True)

        @family.assemble(locals(), globals())
        class Top(Peak):
            def __init__(self):
                self.acc = Acc()
                self.alu = Alu()
                self.acc2 = Acc()

            def __call__(self, op: BitVector[2], x: T, w: B) -> (T, B):
                a = self.acc(x, w)
                r, m = self.alu(op, a, x)
                b = self.acc2(r, ~w)
                return a + b, m
        return Top
    return top_fc


def make_bb():
    """A design around black boxes."""
    from peak.black_box import BlackBox

    @family_closure
    def box_fc(family):
        T = family.BitVector[4]

        @family.assemble(locals(), globals())
        class Box(Peak, BlackBox):
            def __call__(self, a: T, b: T) -> T:
                return a ^ b
        return Box

    @family_closure
    def bb_fc(family):
        T = family.BitVector[4]
        B = family.Bit
        Box = box_fc(family)

        @family.assemble(locals(), globals())
        class Host(Peak):
            def __init__(self):
                self.p = Box()
                self.q = Box()

            def __call__(self, a: T, b: T, c: B) -> T:
                x = self.p(a, b)
                y = self.q(x, a)
                if c:
                    return x + y
                else:
                    return y
        return Host
    return bb_fc


class MOp(Enum):
    add = 0
    xor = 1
    band = 3


class MInst(Product):
    op = MOp
    neg = Bit


def make_march():
    @family_closure
    def march_fc(family):
        T = BitVector[2]
        M = family.get_adt_t(MOp)

        @family.assemble(locals(), globals())
        class MArch(Peak):
            def __call__(self, inst: Const(MInst), a: T, b: T) -> T:
                if inst.neg:
                    c = ~b
                else:
                    c = b
                if inst.op == M(MOp.add):
                    r = a + c
                elif inst.op == M(MOp.xor):
                    r = a ^ c
                else:
                    r = a & c
                return r
        return MArch
    return march_fc


def make_mir(k):
    """IR instructions; 3 is not implementable by make_march."""
    f = [lambda x, y: x + y, lambda x, y: ~(x ^ y), lambda x, y: x & ~y, lambda x, y: x - y][k]

    @family_closure
    def mir_fc(family):
        T = BitVector[2]

        @family.assemble(locals(), globals())
        class Mir(Peak):
            def __call__(self, x: T, y: T) -> T:
                return f(x, y)
        return Mir
    return mir_fc


def make_box(ins, outs, named, how="plain"):
    """A black box with the given input and output types (widths; 0 = Bit)."""
    from peak.black_box import BlackBox
    if how != "plain" and len(ins) == 2:
        return make_family_box(ins, outs, named, how)

    @family_closure
    def gbox_fc(family):
        I = [family.BitVector[w] if w else family.Bit for w in ins] + [family.Bit] * 4
        O = [family.BitVector[w] if w else family.Bit for w in outs]
        A, B, C, D = I[:4]
        R = tuple(O) if len(O) > 1 else O[0]
        zero = tuple(o(0) for o in O) if len(O) > 1 else O[0](0)

        def deco(fn):
            return name_outputs(**{f"o{len(O) - i}": o for i, o in enumerate(O)})(fn) if named else fn

        if len(ins) == 1:
            class Box(Peak, BlackBox):
                @deco
                def __call__(self, zed: A) -> R:
                    return zero
        elif len(ins) == 2:
            class Box(Peak, BlackBox):
                @deco
                def __call__(self, zed: A, a: B) -> R:
                    return zero
        elif len(ins) == 3:
            class Box(Peak, BlackBox):
                @deco
                def __call__(self, b: A, zed: B, a: C) -> R:
                    return zero
        else:
            class Box(Peak, BlackBox):
                @deco
                def __call__(self, d: A, c: B, b: C, a: D) -> R:
                    return zero
        if hasattr(Box, "create_call") and type(family).__name__ == "SMTFamily":
            Box.create_call()
        return Box
    return gbox_fc


def make_family_box(ins, outs, named, how):
    """A box with two inputs made the way users do, with family.assemble; or a
    box derived from such a box."""
    from peak.black_box import BlackBox

    @family_closure
    def fbox_fc(family):
        A, B = [family.BitVector[w] if w else family.Bit for w in ins]
        O = [family.BitVector[w] if w else family.Bit for w in outs]
        R = tuple(O) if len(O) > 1 else O[0]
        zero = tuple(o(0) for o in O) if len(O) > 1 else O[0](0)

        def base():
            @family.assemble(locals(), globals())
            class Box(Peak, BlackBox):
                def __call__(self, zed: A, a: B) -> R:
                    return zero
            return Box
        Box = base()
        if how == "derived":
            @family.assemble(locals(), globals())
            class Sub(Box):
                def __call__(self, zed: A, a: B) -> R:
                    return zero
            return Sub
        if how == "mixin":
            class Extra:
                extra = 1

            @family.assemble(locals(), globals())
            class Mixed(Extra, Box):
                def __call__(self, zed: A, a: B) -> R:
                    return zero
            return Mixed
        if how == "inherits":
            class Plain(Box):
                pass
            return Plain
        return Box
    return fbox_fc


BOX_ARGS = {1: ["zed"], 2: ["zed", "a"], 3: ["b", "zed", "a"], 4: ["d", "c", "b", "a"]}


def make_bbpe():
    """Boxes in a hierarchy of designs, called by keyword and by position."""
    from peak.black_box import BlackBox

    @family_closure
    def mul_fc(family):
        T = family.BitVector[4]
        B = family.Bit

        @family.assemble(locals(), globals())
        class Mul(Peak, BlackBox):
            def __call__(self, mode: B, in0: T, in1: T) -> (T, B):
                return in0 ^ in1, mode
        return Mul

    @family_closure
    def unit_fc(family):
        T = family.BitVector[4]
        B = family.Bit
        Mul = mul_fc(family)
        R = family.gen_attr_register(T, 0)

        @family.assemble(locals(), globals())
        class Unit(Peak):
            def __init__(self):
                self.last = R()
                self.m0 = Mul()
                self.m1 = Mul()

            def __call__(self, x: T, y: T, s: B) -> (T, B):
                p, c = self.m0(s, x, y)
                q, d = self.m1(in1=p, mode=c, in0=y)
                self.last = q
                return q, d
        return Unit

    @family_closure
    def bbpe_fc(family):
        T = family.BitVector[4]
        B = family.Bit
        Mul = mul_fc(family)
        Unit = unit_fc(family)

        @family.assemble(locals(), globals())
        class Bbpe(Peak):
            def __init__(self):
                self.u = Unit()
                self.mul = Mul()
                self.v = Unit()

            def __call__(self, x: T, y: T, s: B) -> T:
                a, b = self.u(x, y, s)
                c, d = self.mul(in0=a, in1=x, mode=b)
                e, f = self.v(c, a, d)
                if s:
                    return e
                else:
                    return c
        return Bbpe
    return bbpe_fc
