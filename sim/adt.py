"""Generated instruction types, described as JSON, and their values.

Schema                          value
 ["bv", w] ["sbv", w] ["ubv",w]  int (unsigned reading of the bits)
 ["bit"]                         0/1
 ["enum", name, [[m, int|null]]] member name
 ["prod", name, [[f, T]...]]     [v, ...]
 ["tup", [T...]]                 [v, ...]
 ["sum", [T...]]                 [option index, v]
 ["tu", name, [[f, T]...]]       [field index, v]

Nothing here uses the library under test: types and values are built with
hwtypes only, and values are read back from hwtypes objects only.
"""
from hwtypes import Bit, BitVector, SIntVector, UIntVector
from hwtypes.adt import Enum, Product, Sum, Tuple, TaggedUnion
from hwtypes.adt_meta import EnumMeta, ProductMeta, TaggedUnionMeta

NAMES = ["A", "B", "Add", "Op", "Alu", "Imm", "Mode", "X", "Y", "Reg"]
FIELDS = ["a", "b", "c", "op", "imm", "rs", "rt", "mode", "x0", "x10"]


# ------------------------------------------------------------- generation
def gen_enum(rng, name, small=False, zero_ok=False):
    style = rng.choice(["auto", "dense", "sparse", "onehot", "mixed", "ranges", "dense1"])
    n = rng.randint(2, 6 if small else 9)
    names = [f"m{i}" for i in range(n)]
    rng.shuffle(names)
    if style == "auto":
        vals = [None] * n
    elif style == "dense":
        vals = list(range(n))
    elif style == "dense1":
        lo = rng.randint(1, 4)
        vals = list(range(lo, lo + n))
    elif style == "onehot":
        k = min(n, 5)
        pool = [1 << i for i in range(5)] + [0]
        vals = rng.sample(pool, k)
        names = names[:k]
    elif style == "ranges":
        vals, x = [], rng.randint(0, 3)
        while len(vals) < n:
            for _ in range(rng.randint(1, 4)):
                vals.append(x)
                x += 1
            x += rng.randint(1, 4)
        vals = vals[:n]
    elif style == "sparse":
        vals = rng.sample(range(0, 31), n)
    else:
        vals = [v if rng.random() < 0.6 else None for v in rng.sample(range(0, 15), n)]
    if style not in ("auto",) and not any(v for v in vals if v):
        vals[-1] = 1 if 1 not in vals else 2
    if zero_ok and rng.random() < 0.06:
        names, vals = ["m0"], [0]
    return ["enum", name, [[a, b] for a, b in zip(names, vals)]]


def enum_codes(t):
    """member -> code, per the documented rule: explicit values are kept, auto
    members take the smallest free codes in declaration order."""
    used = {v for _, v in t[2] if v is not None}
    out, c = {}, 0
    for m, v in t[2]:
        if v is not None:
            out[m] = v
    for m, v in t[2]:
        if v is None:
            while c in used:
                c += 1
            used.add(c)
            out[m] = c
    return out


class Gen:
    """Random types; keeps the names it used so that distinct types can share
    a name on purpose."""

    def __init__(self, rng, max_width=24, dup_names=0.0, signed=0.15, zero_ok=False, ones=0.0):
        self.rng, self.max_width, self.dup, self.signed = rng, max_width, dup_names, signed
        self.zero_ok, self.ones = zero_ok, ones
        self.made = []
        self.n = 0

    def name(self):
        self.n += 1
        if self.rng.random() < self.dup:
            return self.rng.choice(NAMES)
        return f"{self.rng.choice(NAMES)}{self.n}"

    def leaf(self):
        r = self.rng
        x = r.random()
        if x < 0.2:
            return ["bit"]
        if x < 0.2 + self.signed:
            return [r.choice(["sbv", "ubv"]), r.randint(1, 5)]
        if self.ones and r.random() < self.ones:
            return ["bv", 1]
        return ["bv", r.randint(1, 6)]

    def type(self, depth=2, top=False):
        r = self.rng
        if self.made and not top and r.random() < 0.2:
            return r.choice(self.made)
        for _ in range(60):
            t = self._type(depth, top)
            if width(t) <= self.max_width:
                if t[0] in ("prod", "tu", "enum"):
                    self.made.append(t)
                return t
        return gen_enum(r, self.name())

    def _type(self, depth, top):
        r = self.rng
        if depth == 0:
            return self.leaf() if r.random() < 0.65 else gen_enum(r, self.name(), zero_ok=self.zero_ok)
        k = r.choice(["enum", "prod", "prod", "tup", "sum", "sum", "tu", "tu"] +
                     ([] if top else ["leaf", "leaf", "enum"]))
        if k == "leaf":
            return self.leaf()
        if k == "enum":
            return gen_enum(r, self.name(), zero_ok=self.zero_ok)
        if k in ("prod", "tu"):
            n = r.randint(2 if k == "tu" and not self.zero_ok else 1, 4) if k == "prod" else r.randint(2, 5)
            fs = r.sample(FIELDS, n)
            return [k, self.name(), [[f, self.type(depth - 1)] for f in fs]]
        if k == "tup":
            return ["tup", [self.type(depth - 1) for _ in range(r.randint(1, 3))]]
        n = r.randint(2, 5)
        if self.zero_ok and r.random() < 0.1:
            n = 1
        opts = []
        for _ in range(n * 4):
            t = self.type(depth - 1)
            if t[0] in ("sbv", "ubv"):
                continue    # hwtypes cannot tell these from a BitVector option
            # hwtypes takes a Product for an instance of the Tuple of its fields,
            # a TaggedUnion for one of the Sum of its options
            if ident(t) not in [ident(o) for o in opts] and shape(t) not in [shape(o) for o in opts]:
                opts.append(t)
            if len(opts) == n:
                break
        if len(opts) < 2 and not self.zero_ok:
            opts = [["bv", 3], ["bit"]]
        return ["sum", opts]


def ident(t):
    """Equal idents denote the same Python type."""
    if t[0] == "sum":
        return ("sum", frozenset(ident(o) for o in t[1]))
    if t[0] == "tup":
        return ("tup", tuple(ident(o) for o in t[1]))
    if t[0] in ("prod",):
        return ("prod", t[1], tuple((f, ident(x)) for f, x in t[2]))
    if t[0] == "tu":
        return ("tu", t[1], frozenset((f, ident(x)) for f, x in t[2]))
    if t[0] == "enum":
        if any(v is None for _, v in t[2]):
            return ("enum", t[1], tuple((m, v) for m, v in t[2]))
        return ("enum", t[1], frozenset((m, v) for m, v in t[2]))
    return tuple(t)


def shape(t):
    if t[0] in ("prod", "tup"):
        return ("tup", tuple(ident(x) for _, x in fields(t)))
    if t[0] == "tu":
        return ("sum", frozenset(ident(x) for _, x in t[2]))
    return ident(t)


def width(t):
    k = t[0]
    if k in ("bv", "sbv", "ubv"):
        return t[1]
    if k == "bit":
        return 1
    if k == "enum":
        return max(enum_codes(t).values()).bit_length()
    if k == "prod":
        return sum(width(x) for _, x in t[2])
    if k == "tup":
        return sum(width(x) for x in t[1])
    opts = options(t)
    return (len(opts) - 1).bit_length() + max(width(o) for o in opts)


def options(t):
    return t[1] if t[0] == "sum" else [x for _, x in t[2]]


def fields(t):
    return list(enumerate(t[1])) if t[0] == "tup" else [(f, x) for f, x in t[2]]


def subtypes(t, out=None):
    out = [] if out is None else out
    out.append(t)
    if t[0] in ("prod", "tu"):
        for _, x in t[2]:
            subtypes(x, out)
    elif t[0] in ("tup", "sum"):
        for x in t[1]:
            subtypes(x, out)
    return out


def gen_value(rng, t):
    k = t[0]
    if k in ("bv", "sbv", "ubv"):
        w = t[1]
        return rng.choice([0, (1 << w) - 1, 1 << (w - 1), rng.randrange(1 << w), rng.randrange(1 << w), rng.randrange(1 << w)])
    if k == "bit":
        return rng.randrange(2)
    if k == "enum":
        return rng.choice(t[2])[0]
    if k in ("prod", "tup"):
        return [gen_value(rng, x) for _, x in fields(t)]
    i = rng.randrange(len(options(t)))
    return [i, gen_value(rng, options(t)[i])]


def count(t):
    k = t[0]
    if k in ("bv", "sbv", "ubv"):
        return 1 << t[1]
    if k == "bit":
        return 2
    if k == "enum":
        return len(t[2])
    if k in ("prod", "tup"):
        n = 1
        for _, x in fields(t):
            n *= count(x)
        return n
    return sum(count(o) for o in options(t))


def all_values(t):
    import itertools
    k = t[0]
    if k in ("bv", "sbv", "ubv"):
        yield from range(1 << t[1])
    elif k == "bit":
        yield from (0, 1)
    elif k == "enum":
        yield from (m for m, _ in t[2])
    elif k in ("prod", "tup"):
        for c in itertools.product(*[list(all_values(x)) for _, x in fields(t)]):
            yield list(c)
    else:
        for i, o in enumerate(options(t)):
            for v in all_values(o):
                yield [i, v]


def used_bits(t, v):
    """How many bits of the word the instruction uses (the rest is padding)."""
    k = t[0]
    if k in ("prod", "tup"):
        return sum(used_bits(x, y) for (_, x), y in zip(fields(t), v))
    if k in ("sum", "tu"):
        return (len(options(t)) - 1).bit_length() + used_bits(options(t)[v[0]], v[1])
    return width(t)


# ------------------------------------------------------------- building
class Types:
    """Builds hwtypes types for schemas (once each) and converts values.

    `prefix`-free on purpose: two worlds in one process share classes exactly
    when hwtypes would share them."""

    def __init__(self):
        self.cache = {}

    def build(self, t):
        key = ident(t)
        try:
            return self.cache[key]
        except KeyError:
            pass
        out = self.cache[key] = self._build(t)
        return out

    def _build(self, t):
        k = t[0]
        if k == "bv":
            return BitVector[t[1]]
        if k == "sbv":
            return SIntVector[t[1]]
        if k == "ubv":
            return UIntVector[t[1]]
        if k == "bit":
            return Bit
        if k == "enum":
            ns = {"__module__": "isa", "__qualname__": t[1]}
            for m, v in t[2]:
                ns[m] = EnumMeta.Auto() if v is None else v
            return EnumMeta(t[1], (Enum,), ns)
        if k == "prod":
            ns = {"__module__": "isa", "__qualname__": t[1]}
            for f, x in t[2]:
                ns[f] = self.build(x)
            return ProductMeta(t[1], (Product,), ns)
        if k == "tu":
            ns = {"__module__": "isa", "__qualname__": t[1]}
            for f, x in t[2]:
                ns[f] = self.build(x)
            return TaggedUnionMeta(t[1], (TaggedUnion,), ns)
        if k == "tup":
            return Tuple[tuple(self.build(x) for x in t[1])]
        if k == "sum":
            return Sum[tuple(self.build(x) for x in t[1])]
        raise AssertionError(t)

    def value(self, t, v):
        T = self.build(t)
        k = t[0]
        if k in ("bv", "sbv", "ubv", "bit"):
            return T(v)
        if k == "enum":
            return getattr(T, v)
        if k in ("prod", "tup"):
            return T(*[self.value(x, y) for (_, x), y in zip(fields(t), v)])
        if k == "sum":
            return T(self.value(t[1][v[0]], v[1]))
        f, x = t[2][v[0]]
        return T(**{f: self.value(x, v[1])})

    def read(self, t, obj):
        """hwtypes object -> JSON value.  Raises TypeError when the object is
        not of the type described."""
        T = self.build(t)
        k = t[0]
        if not isinstance(obj, T):
            raise TypeError(f"{obj!r} is not a {T!r}")
        if k in ("bv", "sbv", "ubv"):
            return obj.as_uint()
        if k == "bit":
            return int(bool(obj))
        if k == "enum":
            for m, _ in t[2]:
                if getattr(T, m) is obj:
                    return m
            for m, _ in t[2]:
                if getattr(T, m) == obj:
                    return m
            raise TypeError("no such member")
        if k in ("prod", "tup"):
            return [self.read(x, obj[i]) for i, (_, x) in enumerate(fields(t))]
        if k == "sum":
            val = obj._value_
            for i, o in enumerate(t[1]):
                if type(val) is self.build(o):
                    return [i, self.read(o, val)]
            raise TypeError("no such option")
        for i, (f, x) in enumerate(t[2]):
            m = getattr(obj, f)
            if m.match:
                return [i, self.read(x, m.value)]
        raise TypeError("no field set")


def has_zero(t):
    """Any zero-width part (one-member enum with code 0, one-option sum)?
    Symbolic words cannot express those: SMT bit-vectors have positive width."""
    return any(width(s) == 0 or (s[0] in ("sum", "tu") and len(options(s)) == 1) for s in subtypes(t))
