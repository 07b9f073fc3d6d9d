"""Mapping problems: small architectures and IR instructions with a reference
meaning on plain integers, and a brute-force judge of rewrite rules.

Types:  ["bit"] ["bv",w] ["s",w] ["enum",name] ["prod",[[field,T]..]]
        ["tup",[T..]] ["sum",[T..]] ["tu",[[tag,T]..]]
Paths:  [input, field/index/alternative number/tag, ..]
Expressions (kind: "bit" or a width):
        ["in",path] ["k",v] ["inv",e] ["add|sub|and|or|xor|mul",e,e]
        ["mux",c,e,e] ["eq|ult",e,e] ["bitof",e,i] ["is",path,member]
        ["case",path,[e..]] ["bb",call,output]"""
import itertools
import operator

from hwtypes import Bit, BitVector, SIntVector, SMTBit, SMTBitVector
from hwtypes.adt import Enum, Product, Sum, TaggedUnion, Tuple

from .core import HarnessError


class E2(Enum):
    a = 0
    b = 1


class E3(Enum):
    a = 1
    b = 2
    c = 4


class E4(Enum):
    a = 0
    b = 1
    c = 2
    d = 3


class F3(Enum):
    x = 0
    y = 1
    z = 2


ENUMS = dict(E2=E2, E3=E3, E4=E4, F3=F3)
MEMBERS = dict(E2=["a", "b"], E3=["a", "b", "c"], E4=["a", "b", "c", "d"], F3=["x", "y", "z"])
DENSE = ("E2", "E4")
LEAF = ("bit", "bv", "s", "enum")


def twidth(t):
    if t[0] == "bit":
        return 0
    if t[0] in ("bv", "s"):
        return t[1]
    raise HarnessError(t)


def domain(t):
    """Number of values of a leaf type."""
    if t[0] == "bit":
        return 2
    if t[0] in ("bv", "s"):
        return 1 << t[1]
    return len(MEMBERS[t[1]])


def word_domain(t):
    if t[0] == "enum" and t[1] not in DENSE:
        return range(-1, domain(t))
    return range(domain(t))


def kind(t):
    return "bit" if t[0] == "bit" else t[1]


def parts(t):
    if t[0] == "prod":
        return [(x[0], x[1]) for x in t[1]]
    if t[0] in ("tup", "sum"):
        return list(enumerate(t[1]))
    if t[0] == "tu":
        return [(x[0], x[1]) for x in t[1]]
    return []


def child(t, p):
    return dict(parts(t))[p]


def leaves(t, path):
    """All leaves of all alternatives: [(path, leaf type)]."""
    if t[0] in LEAF:
        return [(path, t)]
    return [x for p, s in parts(t) for x in leaves(s, path + (p,))]


def forms(t, path):
    """[(leaves, choices {path of the sum: alternative})] in the library's order."""
    if t[0] in LEAF:
        return [([(path, t)], {})]
    if t[0] in ("sum", "tu"):
        return [(ls, {path: p, **c}) for p, s in parts(t) for ls, c in forms(s, path + (p,))]
    out = []
    for combo in itertools.product(*[forms(s, path + (p,)) for p, s in parts(t)]):
        out.append(([x for ls, c in combo for x in ls], {k: v for ls, c in combo for k, v in c.items()}))
    return out


class Side:
    """One design (architecture or IR instruction)."""

    def __init__(self, prob, d, name):
        self.prob, self.d, self.name = prob, d, name
        self.ins = [(n, t, c) for n, t, c in d["ins"]]
        self.leaves = [(p, t, c or self._inner_const(t0, p)) for n, t0, c in self.ins for p, t in leaves((t0), (n,))]
        self.index = {p: i for i, (p, t, c) in enumerate(self.leaves)}
        self.tags = {}
        for n, t, c in self.ins:
            for ls, ch in forms((t), (n,)):
                for k in ch:
                    self.tags.setdefault(k, len(self.leaves) + len(self.tags))
        self.forms = []
        for combo in itertools.product(*[forms((t), (n,)) for n, t, c in self.ins]):
            self.forms.append(([x for ls, ch in combo for x in ls], {k: v for ls, ch in combo for k, v in ch.items()}))
        self.leaf_t = {p: t for p, t, c in self.leaves}
        self.const = {p: c for p, t, c in self.leaves}
        self.calls = d.get("calls", [])
        self.boxes = prob.spec.get("boxes", {})
        self.outs = d["outs"]
        self.fn = self._compile()
        self.fc = prob.cache.get(name)

    def _inner_const(self, t, path):
        """Is the leaf under a field marked constant inside the type?"""
        for p in path[1:]:
            f = dict((x[0], x) for x in t[1]) if t[0] in ("prod", "tu") else {}
            if p in f and len(f[p]) > 2 and f[p][2]:
                return True
            t = child((t), p)
        return False

    # ------------------------------------------------ integer meaning
    def _compile(self):
        lines = ["def fn(v, bb):", " ins = []"]
        for n, (box, args) in enumerate(self.calls):
            ks = self.boxes[box]["ins"]
            lines.append(f" ins.append(({''.join(self._py(a, 'bit' if w == 0 else w) + ', ' for a, w in zip(args, ks))}))")
        outs = "".join(self._py(e, kind(t)) + ", " for e, (n, t) in zip(self.d["body"], self.outs))
        lines.append(f" return ({outs}), ins")
        gs = {}
        exec("\n".join(lines), gs)
        return gs["fn"]

    def _py(self, e, k):
        op = e[0]
        m = 1 if k == "bit" else (1 << k) - 1
        if op == "in":
            return f"v[{self.index[tuple(e[1])]}]"
        if op == "k":
            return str(e[1] & m)
        if op == "inv":
            return f"(~{self._py(e[1], k)}&{m})"
        if op in ("add", "sub", "and", "or", "xor", "mul"):
            a, b = self._py(e[1], k), self._py(e[2], k)
            return f"(({a}{dict(add='+', sub='-', xor='^', mul='*', **{'and': '&', 'or': '|'})[op]}{b})&{m})"
        if op == "mux":
            return f"({self._py(e[2], k)} if {self._py(e[1], 'bit')} else {self._py(e[3], k)})"
        if op in ("eq", "ult"):
            w = self.prob.w
            return f"int({self._py(e[1], w)}{'==' if op == 'eq' else '<'}{self._py(e[2], w)})"
        if op == "bitof":
            return f"({self._py(e[1], self.prob.w)}>>{e[2]}&1)"
        if op == "is":
            p = tuple(e[1])
            return f"int(v[{self.index[p]}]=={MEMBERS[self.leaf_t[p][1]].index(e[2])})"
        if op == "case":
            p = tuple(e[1])
            tag = self.tags[p]
            alts = [q for q, s in parts(self.type_at(p))]
            r = self._py(e[2][-1], k)
            for q, x in list(zip(range(len(alts)), e[2]))[-2::-1]:
                r = f"({self._py(x, k)} if v[{tag}]=={q} else {r})"
            return r
        if op == "bb":
            return f"bb[{e[1]}][{e[2]}]"
        raise HarnessError(op)

    def type_at(self, path):
        t = {n: t for n, t, c in self.ins}[path[0]]
        for p in path[1:]:
            t = (child(t, p))
        return t

    def vector(self, vals, choices):
        """The argument of fn: leaf values by path, sum choices by path."""
        v = [vals.get(p, 0) for p, t, c in self.leaves] + [0] * len(self.tags)
        for k, i in self.tags.items():
            if k in choices:
                v[i] = [q for q, s in parts(self.type_at(k))].index(choices[k])
        return v

    # ------------------------------------------------ the real design
    def real_path(self, path):
        t = {n: t for n, t, c in self.ins}.get(path[0])
        out = [path[0]]
        for p in path[1:]:
            out.append(self.prob.T(child(t, p)) if t[0] == "sum" else p)
            t = (child(t, p))
        return tuple(out)

    def out_path(self, i):
        return (self.outs[i][0] if self.outs[i][0] is not None else i,)

    def closure(self):
        if self.fc is None:
            self.fc = self._closure()
        return self.fc

    def _closure(self):
        from peak import Const, Peak, family_closure, name_outputs
        from .designs import make_box
        side = self
        boxes = [self.prob.box(b) for b, args in self.calls]
        ann = {}
        for n, t, c in self.ins:
            T = self.prob.T(t)
            ann[n] = Const(T) if c else T
        outs = [(n, self.prob.T(t)) for n, t in self.outs]
        named = self.outs[0][0] is not None
        src = [f"def __call__(self, {', '.join(f'{n}: T_{n}' for n in ann)}){'' if named else ' -> RET'}:",
               f"    return RUN(self, dict({', '.join(f'{n}={n}' for n in ann)}))"]
        src = "\n".join(src)

        def fc(family):
            gs = {f"T_{n}": t for n, t in ann.items()}
            gs["RET"] = tuple(t for n, t in outs) if len(outs) > 1 else outs[0][1]
            gs["RUN"] = lambda obj, env: side.run(family, obj, env)
            exec(src, gs)
            call = gs["__call__"]
            if named:
                call = name_outputs(**dict(outs))(call)
            Boxes = [b(family) for b in boxes]

            class Design(Peak):
                def __init__(self):
                    for i, B in enumerate(Boxes):
                        setattr(self, f"box{i}", B())
                __call__ = call
            Design.__name__ = self.name
            return Design
        return family_closure(fc)

    def run(self, fam, obj, env):
        bb = []
        for i, (box, args) in enumerate(self.calls):
            ks = self.boxes[box]["ins"]
            r = getattr(obj, f"box{i}")(*[self.build(a, "bit" if w == 0 else w, fam, env, bb) for a, w in zip(args, ks)])
            bb.append(r if isinstance(r, tuple) else (r,))
        out = tuple(self.build(e, kind(t), fam, env, bb) for e, (n, t) in zip(self.d["body"], self.outs))
        return out if len(out) > 1 else out[0]

    def walk(self, env, path):
        v = env[path[0]]
        t = {n: t for n, t, c in self.ins}[path[0]]
        for p in path[1:]:
            s = child(t, p)
            if t[0] == "prod":
                v = getattr(v, p)
            elif t[0] == "tup":
                v = v[p]
            elif t[0] == "sum":
                v = v[self.prob.T(s)].value
            else:
                v = getattr(v, p).value
            t = (s)
        return v

    def build(self, e, k, fam, env, bb):
        op = e[0]
        sub = lambda x, kk=k: self.build(x, kk, fam, env, bb)  # noqa: E731
        if op == "in":
            return self.walk(env, e[1])
        if op == "k":
            return fam.Bit(e[1] & 1) if k == "bit" else fam.BitVector[k](e[1] & ((1 << k) - 1))
        if op == "inv":
            return ~sub(e[1])
        if op in ("add", "sub", "and", "or", "xor", "mul"):
            f = {"add": operator.add, "sub": operator.sub, "and": operator.and_, "or": operator.or_,
                 "xor": operator.xor, "mul": operator.mul}[op]
            return f(sub(e[1]), sub(e[2]))
        if op == "mux":
            return sub(e[1], "bit").ite(sub(e[2]), sub(e[3]))
        if op == "eq":
            return sub(e[1], self.prob.w) == sub(e[2], self.prob.w)
        if op == "ult":
            return sub(e[1], self.prob.w).bvult(sub(e[2], self.prob.w))
        if op == "bitof":
            return sub(e[1], self.prob.w)[e[2]]
        if op == "is":
            p = tuple(e[1])
            r = self.walk(env, p) == getattr(ENUMS[self.leaf_t[p][1]], e[2])
            return fam.Bit(r) if isinstance(r, bool) else r
        if op == "case":
            p = tuple(e[1])
            v = self.walk(env, p)
            t = self.type_at(p)
            res = None
            for (q, s), x in zip(parts(t), e[2]):
                m = (v[self.prob.T(s)] if t[0] == "sum" else getattr(v, q)).match
                if isinstance(m, SMTBit):
                    y = sub(x)
                    res = y if res is None else m.ite(y, res)
                elif m:
                    return sub(x)
            return res
        if op == "bb":
            return bb[e[1]][e[2]]
        raise HarnessError(op)


SHARED = None


class Problem:
    def __init__(self, spec):
        self.spec = spec
        self.w = spec["w"]
        self.cache = {}
        self._types = {}
        self._boxes = {}
        self.mates = [spec]
        known = None if SHARED is None else SHARED.setdefault(repr([spec["arch"], spec["boxes"]]), self)
        if known is None or known is self:
            self.arch = Side(self, spec["arch"], "Arch")
        else:
            # one architecture, many instructions
            self._types, self._boxes, self.arch = known._types, known._boxes, known.arch
            known.mates.append(spec)
        self.ir = Side(self, spec["ir"], "Ir")

    def T(self, t):
        key = repr(t)
        if key not in self._types:
            self._types[key] = self._T(t)
        return self._types[key]

    def _T(self, t):
        from peak import Const
        k = t[0]
        if k == "bit":
            return Bit
        if k == "bv":
            return BitVector[t[1]]
        if k == "s":
            return SIntVector[t[1]]
        if k == "enum":
            return ENUMS[t[1]]
        if k == "prod":
            from collections import OrderedDict
            return Product.from_fields("Rec", OrderedDict(
                (x[0], Const(self.T(x[1])) if len(x) > 2 and x[2] else self.T(x[1])) for x in t[1]))
        if k == "tup":
            return Tuple[tuple(self.T(s) for s in t[1])]
        if k == "sum":
            return Sum[tuple(self.T(s) for s in t[1])]
        if k == "tu":
            return TaggedUnion.from_fields("Rec", {g: self.T(s) for g, s in t[1]})
        raise HarnessError(k)

    def box(self, b):
        if b not in self._boxes:
            from .designs import make_box
            d = self.spec["boxes"][b]
            self._boxes[b] = make_box(d["ins"], d["outs"], True)
        return self._boxes[b]

    # ------------------------------------------------ words of leaves
    def encode(self, t, v):
        """The word (as int) of a leaf value."""
        if t[0] != "enum":
            return v
        return self._enum(t[1])[0][v]

    def decode(self, t, word):
        """Leaf value of a word, None when the word is not valid."""
        if t[0] != "enum":
            return word if 0 <= word < domain(t) else None
        return self._enum(t[1])[1].get(word)

    def _enum(self, n):
        key = ("enum", n)
        if key not in self.cache:
            from peak.assembler import Assembler
            A = Assembler(ENUMS[n])
            enc = [int(A.assemble(getattr(ENUMS[n], m), BitVector)) for m in MEMBERS[n]]
            self.cache[key] = (enc, {w: i for i, w in enumerate(enc)}, int(A.width))
        return self.cache[key]

    def word_width(self, t):
        return 0 if t[0] == "bit" else t[1] if t[0] in ("bv", "s") else self._enum(t[1])[2]

    # ------------------------------------------------ judging a rule
    def counterexample(self, choices, binding, obinding, allowed=None, words=False):
        """binding: {arch leaf: ("ir", ir leaf) | ("k", value) | ("free",)};
        obinding: [(ir out index, arch out index)].  None when the rule is
        right for every input, else the inputs on which it is wrong.  With
        `words` inputs range over all words, not only over those that stand
        for a value (-1: some word that does not)."""
        dom = word_domain if words else lambda t: range(domain(t))
        A, I = self.arch, self.ir
        allowed = allowed or {}
        irl = [p for p, t, c in I.leaves]
        free = sorted((p for p, b in binding.items() if b[0] == "free"), key=str)
        doms = [dom(I.leaf_t[p]) for p in irl]
        doms += [allowed[p] if p in allowed else dom(A.leaf_t[p]) for p in free]
        fixed = {p: b[1] for p, b in binding.items() if b[0] == "k"}
        bound = [(p, irl.index(b[1])) for p, b in binding.items() if b[0] == "ir"]
        av = A.vector(fixed, choices)
        iv = I.vector({}, {})
        set_a = [(A.index[p], j) for p, j in bound] + [(A.index[p], len(irl) + n) for n, p in enumerate(free)]
        set_i = [(I.index[p], j) for j, p in enumerate(irl)]
        ncalls = len(A.calls) + len(I.calls)
        afn, ifn = A.fn, I.fn
        for combo in itertools.product(*doms):
            for x, j in set_a:
                av[x] = combo[j]
            for x, j in set_i:
                iv[x] = combo[j]
            if not ncalls:
                ao, io = afn(av, ())[0], ifn(iv, ())[0]
                for i, a in obinding:
                    if io[i] != ao[a]:
                        return dict(zip(irl, combo)), dict(zip(free, combo[len(irl):])), io, ao
                continue
            calls = [(n, "a") for n in A.calls] + [(n, "i") for n in I.calls]
            odoms = [list(itertools.product(*[range(2 if w == 0 else 1 << w) for w in self.spec["boxes"][c[0]]["outs"]]))
                     for c, s in calls]
            for os_ in itertools.product(*odoms):
                ao, ains = afn(av, os_[:len(A.calls)])
                io, iins = ifn(iv, os_[len(A.calls):])
                allins = ains + iins
                if any(calls[x][0][0] == calls[y][0][0] and allins[x] == allins[y] and os_[x] != os_[y]
                       for x in range(len(calls)) for y in range(x)):
                    continue
                for i, a in obinding:
                    if io[i] != ao[a]:
                        return dict(zip(irl, combo)), dict(zip(free, combo[len(irl):])), io, ao
        return None

    def obindings(self):
        """Output bindings as the mapper's space defines them: every IR output
        is bound to its own architecture output of the same type."""
        A, I = self.arch, self.ir
        for perm in itertools.permutations(range(len(A.outs)), len(I.outs)):
            if all(I.outs[i][1] == A.outs[a][1] for i, a in enumerate(perm)):
                yield list(enumerate(perm))

    def same_type(self, ip, ap):
        return self.ir.leaf_t[ip] == self.arch.leaf_t[ap] and bool(self.ir.const[ip]) == bool(self.arch.const[ap])

    def bindings(self, form, constrained=()):
        """Input bindings of one form: every IR leaf on its own arch leaf."""
        irl = [p for p, t, c in self.ir.leaves]
        als = [p for p, t in form[0]]
        cand = [[ap for ap in als if ap not in constrained and self.same_type(ip, ap)] for ip in irl]
        for combo in itertools.product(*cand):
            if len(set(combo)) == len(combo):
                yield dict(zip(combo, irl))

    def solutions(self, allowed=None, budget=3_000_000, words=False):
        """Every right rule: (form number, binding, obinding).  Raises Budget
        when the space is too large to decide."""
        allowed = allowed or {}
        A = self.arch
        spent = 0
        size = 1
        for p, t, c in self.ir.leaves:
            size *= domain(t)
        for fi, form in enumerate(A.forms):
            for b in self.bindings(form, allowed):
                base = {ap: ("ir", ip) for ap, ip in b.items()}
                consts = [p for p, t in form[0] if p not in b and A.const[p]]
                for p, t in form[0]:
                    if p not in b and not A.const[p]:
                        base[p] = ("free",)
                for vals in itertools.product(*[allowed[p] if p in allowed else range(domain(A.leaf_t[p])) for p in consts]):
                    binding = {**base, **{p: ("k", v) for p, v in zip(consts, vals)}}
                    for ob in self.obindings():
                        spent += 1
                        if spent * size > budget:
                            raise Budget()
                        if self.counterexample(form[1], binding, ob, allowed, words) is None:
                            yield fi, binding, ob


class Budget(Exception):
    pass


# ------------------------------------------------------------- generating
def gen_expr(rng, g, k, d):
    """g: dict(leaves=[(path, T)] readable here, w, calls, boxes)."""
    w = g["w"]
    same = [p for p, t in g["leaves"] if t[0] != "enum" and (("bit" if t[0] == "bit" else t[1]) == k) and t[0] != "s"]
    c = rng.random()
    bbs = [(i, j) for i, outs in enumerate(g.get("calls", [])) for j, x in enumerate(outs) if ("bit" if x == 0 else x) == k]
    if bbs and rng.random() < 0.4:
        return ["bb", *rng.choice(bbs)]
    if d <= 0 or c < 0.2:
        if same and rng.random() < 0.9:
            return ["in", list(rng.choice(same))]
        return ["k", rng.randrange(1 << (1 if k == "bit" else k))]
    if k == "bit":
        enums = [(p, t) for p, t in g["leaves"] if t[0] == "enum"]
        if enums and c < 0.5:
            p, t = rng.choice(enums)
            return ["is", list(p), rng.choice(MEMBERS[t[1]])]
        c = rng.random()
        if c < 0.25:
            return ["inv", gen_expr(rng, g, k, d - 1)]
        if c < 0.5:
            return [rng.choice(["and", "or", "xor"]), gen_expr(rng, g, k, d - 1), gen_expr(rng, g, k, d - 1)]
        if c < 0.75:
            return [rng.choice(["eq", "ult"]), gen_expr(rng, g, w, d - 1), gen_expr(rng, g, w, d - 1)]
        return ["bitof", gen_expr(rng, g, w, d - 1), rng.randrange(w)]
    c = rng.random()
    if c < 0.4:
        return ["mux", gen_expr(rng, g, "bit", d - 1), gen_expr(rng, g, k, d - 1), gen_expr(rng, g, k, d - 1)]
    if c < 0.5:
        return ["inv", gen_expr(rng, g, k, d - 1)]
    return [rng.choice(["add", "sub", "and", "or", "xor", "mul"]), gen_expr(rng, g, k, d - 1), gen_expr(rng, g, k, d - 1)]


def gen_out(rng, g, tree, k, d):
    """Expression over a tree of readable inputs; splits on sums."""
    sums = [p for p, t in tree if t[0] in ("sum", "tu")]
    if sums:
        p = sums[0]
        t = dict(tree)[p]
        rest = [(q, s) for q, s in tree if q != p]
        return ["case", list(p), [gen_out(rng, g, rest + expand((q,), s, p), k, d) for q, s in parts(t)]]
    g = dict(g, leaves=[(p, t) for p, t in tree if t[0] in LEAF])
    ops = [(p, t) for p, t in g["leaves"] if t[0] == "enum"]
    if ops and k != "bit" and rng.random() < 0.8:
        p, t = rng.choice(ops)
        ms = MEMBERS[t[1]]
        e = gen_expr(rng, g, k, d - 1)
        for m in ms[:-1]:
            e = ["mux", ["is", list(p), m], gen_expr(rng, g, k, d - 1), e]
        return e
    return gen_expr(rng, g, k, d)


def expand(suffix, t, base):
    """Readable parts of a value at base+suffix: leaves and sums."""
    p = tuple(base) + tuple(suffix)
    if t[0] in ("prod", "tup"):
        return [x for q, s in parts(t) for x in expand((q,), s, p)]
    return [(p, t)]


def specialise(e, sub, choices):
    """Replace leaves (sub: path -> expression or enum member) and decide cases."""
    op = e[0]
    if op == "in":
        r = sub[tuple(e[1])]
        return r
    if op == "k":
        return e
    if op == "is":
        r = sub[tuple(e[1])]
        if r[0] == "member":
            return ["k", int(r[1] == e[2])]
        return ["is", r[1], e[2]]
    if op == "case":
        return specialise(e[2][choices[tuple(e[1])]], sub, choices)
    if op == "bb":
        return e
    if op == "bitof":
        return ["bitof", specialise(e[1], sub, choices), e[2]]
    r = [op] + [specialise(x, sub, choices) for x in e[1:]]
    if op == "mux" and r[1][0] == "k":
        return r[2] if r[1][1] & 1 else r[3]
    if op == "inv" and r[1][0] == "k":
        return ["k", ~r[1][1]]
    return r


def mentions(e):
    if e[0] in ("in", "is"):
        return {tuple(e[1])}
    if e[0] in ("k", "bb"):
        return set()
    if e[0] == "case":
        return set().union(*[mentions(x) for x in e[2]])
    return set().union(*[mentions(x) for x in e[1:] if isinstance(x, list)])


def disguise(rng, e):
    """Another expression with the same meaning."""
    op = e[0]
    if op in ("in", "k", "is", "bb", "case"):
        return e
    r = [op] + [disguise(rng, x) if isinstance(x, list) else x for x in e[1:]]
    if op in ("add", "and", "or", "xor", "mul", "eq") and rng.random() < 0.5:
        r = [op, r[2], r[1]]
    if op == "sub" and rng.random() < 0.4:
        return ["add", ["add", r[1], ["inv", r[2]]], ["k", 1]]
    if op in ("and", "or") and rng.random() < 0.3:
        return ["inv", ["or" if op == "and" else "and", ["inv", r[1]], ["inv", r[2]]]]
    if op == "mux" and rng.random() < 0.3:
        return ["mux", ["inv", r[1]], r[3], r[2]]
    return r


def gen_problem(rng, sums=True, boxes=0.15, multi_out=0.4, ir_const=0.25, inner_const=0.1, signed=0.15, datas=(1, 3)):
    w = rng.choice([1, 2, 2, 2, 3])
    bx = {}
    if rng.random() < boxes:
        w = rng.choice([1, 1, 2])
        bx["b0"] = dict(ins=[rng.choice([w, w, 0]) for _ in range(rng.choice([1, 2]))], outs=[rng.choice([w, w, 0])])
        if rng.random() < 0.3 and w == 1:
            bx["b0"]["outs"].append(0)
    bv = ["bv", w]

    def small():
        return rng.choice([bv, bv, ["bit"], ["enum", rng.choice(list(ENUMS))]])

    def record():
        n = rng.choice([1, 2, 2, 3])
        ts = [["enum", rng.choice(list(ENUMS))] if i == 0 and rng.random() < 0.7 else small() for i in range(n)]
        if rng.random() < 0.3:
            return ["tup", ts]
        names = rng.sample(["op", "imm", "neg", "sel", "cin", "aux"], n)
        fs = [[a, t] for a, t in zip(names, ts)]
        return ["prod", fs]
    ins = []
    c = rng.random()
    if c < 0.2:
        for n in rng.sample(["op", "mode", "kimm"], rng.choice([1, 2])):
            ins.append([n, small(), True])
    elif c < 0.55 or not sums:
        ins.append(["inst", record(), True])
    elif c < 0.75:
        alts = [record() for _ in range(2)]
        if rng.random() < 0.3:
            alts[0] = bv
        if alts[0] != alts[1]:
            ins.append(["inst", ["sum", alts], rng.random() < 0.9])
        else:
            ins.append(["inst", alts[0], True])
    elif c < 0.95:
        ins.append(["inst", ["tu", [["x", record()], ["y", rng.choice([record(), bv])]]], rng.random() < 0.9])
    else:
        pass
    if ins and ins[0][1][0] == "prod" and rng.random() < inner_const:
        # constant fields inside an ordinary input
        ins[0][2] = False
        ins[0][1] = ["prod", [[f, t, True] for f, t in ins[0][1][1]]]
    if any(not c for n, t, c in ins):
        # run-time enums: every word is an instruction
        def dense(t):
            if t[0] == "enum":
                return t if t[1] in DENSE else ["enum", "E4"]
            if t[0] in ("prod", "tu"):
                return [t[0], [[x[0], dense(x[1]) if len(x) < 3 else x[1]] + x[2:] for x in t[1]]]
            if t[0] in ("tup", "sum"):
                return [t[0], [dense(x) for x in t[1]]]
            return t
        ins = [[n, t if c else dense(t), c] for n, t, c in ins]
        if any(t[0] == "sum" and t[1][0] == t[1][1] for n, t, c in ins):
            ins = [[n, t[1][0] if t[0] == "sum" else t, c] for n, t, c in ins]
    nd = rng.randint(*datas)
    for n in rng.sample(["a", "b", "c", "in0"], nd):
        t = rng.choice([bv, bv, bv, bv, ["bit"], ["enum", "E2"]])
        if t == bv and rng.random() < 0.06:
            t = ["bv", w + 1]
        ins.append([n, t, False])
    rng.shuffle(ins)
    tree = [x for n, t, c in ins for x in expand((n,), t, ())]
    g = dict(w=w, leaves=[], calls=[])
    calls = []
    if bx:
        rd = dict(g, leaves=[(p, t) for p, t in tree if t[0] in LEAF])
        for _ in range(rng.choice([1, 1, 2]) if w == 1 else 1):
            calls.append(["b0", [gen_expr(rng, rd, "bit" if x == 0 else x, 1) for x in bx["b0"]["ins"]]])
            g["calls"].append(bx["b0"]["outs"])
    nouts = 1 if rng.random() > multi_out else 2
    named = rng.random() < 0.7
    outs = []
    for i in range(nouts):
        outs.append([f"o{i}" if named else None, rng.choice([bv, bv, bv, ["bit"]])])
    body = [gen_out(rng, g, tree, kind(t), 3) for n, t in outs]
    arch = dict(ins=ins, outs=outs, body=body, calls=calls)

    # ---- the IR instruction
    side = Side(Problem0(w, bx), arch, "x")
    form = rng.choice(side.forms)
    choices = {p: [q for q, s in parts(side.type_at(p))].index(v) for p, v in form[1].items()}
    used = set()
    for e in body + [a for b, args in calls for a in args]:
        used |= mentions(e)
    sub, irins = {}, []
    for p, t in form[0]:
        c = side.const[p]
        take = (p in used or rng.random() < 0.1) if not c else rng.random() < ir_const
        if c and t[0] == "enum" and rng.random() < 0.7:
            take = False
        if take and len(irins) < 4:
            n = ["x", "y", "z", "u"][len(irins)]
            irins.append([n, t, bool(c)])
            sub[p] = ["in", [n]] if t[0] != "enum" else ["en", [n]]
        elif t[0] == "enum":
            sub[p] = ["member", rng.choice(MEMBERS[t[1]])]
        else:
            sub[p] = ["k", rng.randrange(domain(t))]
    for p, t, c in side.leaves:
        sub.setdefault(p, ["member", MEMBERS[t[1]][0]] if t[0] == "enum" else ["k", 0])
    if not irins:
        p, t = next(((p, t) for p, t, c in side.leaves if t[0] != "enum"), (None, bv))
        irins.append(["x", t, False])
    c = rng.random()
    pick = rng.sample(range(nouts), rng.choice([1, nouts]))
    ibody = [specialise(body[i], sub, choices) for i in pick]
    iouts = [[f"r{n}" if named or rng.random() < 0.5 else None, outs[i][1]] for n, i in enumerate(pick)]
    if any(n is None for n, t in iouts):
        iouts = [[None, t] for n, t in iouts]
    icalls = [[b, [specialise(a, sub, choices) for a in args]] for b, args in calls]
    gi = dict(w=w, leaves=[((n,), t) for n, t, c2 in irins], calls=g["calls"])
    if c < 0.2:
        j = rng.randrange(len(ibody))
        ibody[j] = [rng.choice(["xor", "and", "or"]), ibody[j], gen_expr(rng, gi, kind(iouts[j][1]), 1)]
    elif c < 0.3:
        ibody = [gen_expr(rng, gi, kind(t), 2) for n, t in iouts]
    ibody = [disguise(rng, e) for e in ibody]
    usedbb = sorted({i for e in ibody for i in bbs_of(e)} | {i for b, args in icalls for a in args for i in bbs_of(a)})
    if icalls and (len(usedbb) < len(icalls)):
        keep = usedbb
        ren = {o: n for n, o in enumerate(keep)}
        icalls = [icalls[o] for o in keep]
        ibody = [rename_bb(e, ren) for e in ibody]
        icalls = [[b, [rename_bb(a, ren) for a in args]] for b, args in icalls]
    order = list(range(len(irins)))
    rng.shuffle(order)
    irins = [irins[i] for i in order]
    ir = dict(ins=irins, outs=iouts, body=ibody, calls=icalls)
    if len(irins) >= 2 and rng.random() < 0.12 and not any(c for n, t, c in irins):
        # the same inputs grouped in a product
        names = [n for n, t, c in irins]
        ir = dict(ir, ins=[["p", ["prod", [[n, t] for n, t, c in irins]], False]])
        ir["body"] = [group(e, names) for e in ibody]
        ir["calls"] = [[b, [group(a, names) for a in args]] for b, args in icalls]
    return dict(w=w, arch=arch, ir=ir, boxes=bx)


def group(e, names):
    if e[0] in ("in", "is"):
        return [e[0], ["p"] + e[1]] + e[2:]
    return [group(x, names) if isinstance(x, list) else x for x in e]


def bbs_of(e):
    if e[0] == "bb":
        return {e[1]}
    if e[0] in ("in", "is", "k"):
        return set()
    return set().union(set(), *[bbs_of(x) for x in e[1:] if isinstance(x, list)])


def rename_bb(e, ren):
    if e[0] == "bb":
        return ["bb", ren[e[1]], e[2]]
    if e[0] in ("in", "is", "k"):
        return e
    return [rename_bb(x, ren) if isinstance(x, list) else x for x in e]


class Problem0:
    """Just enough of a problem to look at the shape of a design."""

    def __init__(self, w, boxes):
        self.w, self.spec, self.cache = w, dict(boxes=boxes), {}
