"""Generated sequential peak programs: source text for the library, and an
independent interpreter on integers.

A program is JSON: {"comps": [component...]}; the last component is the top,
components may instantiate earlier ones.  Types are the schemas of sim.adt.

component: name, ins [[name, type, const]], outs [[name, type]], named,
           state [[name, kind, type, init]] with kind attr (attribute register),
           plain (ordinary attribute), reg (register with enable), regne
           (without), sub (type = index of the component), body [statement...]
statement: ["let", name, e] ["set", attr, e] ["call", [targets], sub, [e...], kw]
           ["if", [[cond, [..]]...], [..] | None] ["ret", [e...]]
expression: [op, type, ...], see `src` and `Interp.ev`.
"""
from . import adt

LEAF = ("bit", "bv", "sbv", "ubv")
BIT = ["bit"]


def width(t):
    return 1 if t[0] == "bit" else t[1]


def mask(t):
    return (1 << width(t)) - 1


def tname(t, names):
    k = t[0]
    if k == "bit":
        return "Bit"
    if k in ("bv", "sbv", "ubv"):
        return {"bv": "B", "sbv": "S", "ubv": "U"}[k] + str(t[1])
    return names[repr(adt.ident(t))]


# ------------------------------------------------------------- source text
BIN = dict(add="+", sub="-", mul="*", shl="<<", shr=">>", xor="^", **{"and": "&", "or": "|"})
CMP = dict(eq="==", ne="!=", lt="<", le="<=", gt=">", ge=">=")
MCMP = dict(lt="bvult", le="bvule", gt="bvugt", ge="bvuge")


class Source:
    def __init__(self, prog):
        self.prog = prog
        self.hw = prog.get("hw")
        self.adts = []          # schemas, in order of their number
        self.names = {}

    def t(self, t):
        if t[0] not in LEAF:
            key = repr(adt.ident(t))
            if key not in self.names:
                for s in adt.subtypes(t)[1:]:
                    self.t(s)
                self.names[key] = f"T{len(self.adts)}"
                self.adts.append(t)
        else:
            self.leafs.add(tuple(t))
        return tname(t, self.names)

    def const(self, t, v, kind="v"):
        """Literal of a value in the family's representation."""
        k = t[0]
        if k in LEAF:
            return f"{self.t(t)}({v})"
        n = self.t(t)
        if k == "enum":
            return f"{n}_c({n}.{v})"
        subs = [self.const(x, y) for (_, x), y in zip(adt.fields(t), v)] if k in ("prod", "tup") else None
        if k in ("prod", "tup"):
            return f"{n}_c({', '.join(subs)})"
        o = adt.options(t)[v[0]]
        if k == "sum":
            return f"{n}_c({self.key(o)}, {self.const(o, v[1])})"
        return f"{n}_c({t[2][v[0]][0]}={self.const(o, v[1])})"

    def key(self, t):
        """Alternative of a Sum: named by the Python type."""
        k = t[0]
        if k in LEAF:
            return "Bit_" if k == "bit" else {'bv': 'BitVector', 'sbv': 'SIntVector', 'ubv': 'UIntVector'}[k] + f"[{t[1]}]"
        return self.t(t)

    def step(self, t, p):
        """Access of part p of a value of type t."""
        k = t[0]
        if k == "prod":
            return f".{t[2][p][0]}"
        if k == "tup":
            return f"[{p}]"
        if k == "sum":
            return f"[{self.key(t[1][p])}].value"
        return f".{t[2][p][0]}.value"

    def path(self, t, path):
        out = ""
        for p in path:
            out += self.step(t, p)
            t = part(t, p)
        return out

    def e(self, e):
        op, t = e[0], e[1]
        s = self.e
        if op == "v":
            return e[2]
        if op == "a":
            # magma's wrapper of a register only has the operators
            return f"(self.{e[2]} {self.hwop(e)} {self.t(t)}(0))" if self.hw else f"self.{e[2]}"
        if op == "k":
            return self.const(t, e[2])
        if op == "lit":
            return str(e[2])
        if op == "path":
            return s(e[2]) + self.path(e[2][1], e[3])
        if op in BIN:
            return f"({self.raw(e[2])} {BIN[op]} {s(e[3])})"
        if op == "cmp":
            if e[2] in MCMP and e[3][1][0] == "bv":
                return f"{s(e[3])}.{MCMP[e[2]]}({s(e[4])})"
            return f"({self.raw(e[3])} {CMP[e[2]]} {s(e[4])})"
        if op == "inv":
            return f"(~{self.raw(e[2])})"
        if op == "neg":
            return f"(-{self.raw(e[2])})"
        if op == "ite":
            return f"{s(e[2])}.ite({s(e[3])}, {s(e[4])})"
        if op == "ifexp":
            return f"({s(e[3])} if {s(e[2])} else {s(e[4])})"
        if op == "band":
            return f"({s(e[2])} and {s(e[3])})"
        if op == "bor":
            return f"({s(e[2])} or {s(e[3])})"
        if op == "not":
            return f"(not {s(e[2])})"
        if op == "idx":
            return f"{self.raw(e[2])}[{e[3]}]"
        if op == "slice":
            return f"{self.raw(e[2])}[{e[3]}:{e[4]}]"
        if op == "cat":
            return f"{s(e[2])}.concat({s(e[3])})"
        if op in ("zext", "sext"):
            return f"{s(e[2])}.{op}({e[3]})"
        if op == "cast":
            return f"{self.t(t)}({s(e[2])})"
        if op == "eqe":     # enum against a member; e[4]: how the member is written
            m = f"{self.t(e[2][1])}.{e[3]}"
            if e[4] == "a":
                m = f"{self.t(e[2][1])}_a({m})"
            return f"({s(e[2])} {e[5]} {m})"
        if op == "match":
            at = e[2][1]
            key = f"[{self.key(adt.options(at)[e[3]])}]" if at[0] == "sum" else f".{at[2][e[3]][0]}"
            return f"{s(e[2])}{key}.match"
        if op == "mk":
            n = self.t(t)
            k = t[0]
            if k == "enum":
                return f"{n}_c({n}.{e[2]})"
            if k == "prod":
                return f"{n}_c({', '.join((f + '=' if e[3] else '') + s(x) for (f, _), x in zip(t[2], e[2]))})"
            if k == "tup":
                return f"{n}_c({', '.join(map(s, e[2]))})"
            if k == "sum":
                return f"{n}_c({self.key(t[1][e[2]])}, {s(e[3])})"
            return f"{n}_c({t[2][e[2]][0]}={s(e[3])})"
        if op == "reg":
            args = [s(x) for x in e[3]]
            if e[4] and len(args) == 2:
                return f"self.{e[2]}(value={args[0]}, en={args[1]})" if e[4] == 1 else f"self.{e[2]}(en={args[1]}, value={args[0]})"
            return f"self.{e[2]}({', '.join(args)})"
        if op == "prev":
            return f"self.{e[2]}.prev()"
        raise AssertionError(e)

    def raw(self, e):
        return f"self.{e[2]}" if e[0] == "a" else self.e(e)

    def hwop(self, e):
        return "|^+"[len(e[2] + str(e[1])) % (2 if e[1][0] == "bit" else 3)]

    def stmts(self, body, ind, comp):
        pad = "    " * ind
        out = []
        for st in body:
            k = st[0]
            if k == "let":
                out.append(f"{pad}{st[1]} = {self.e(st[2])}")
            elif k == "set":
                out.append(f"{pad}self.{st[1]} = {self.e(st[2])}")
            elif k == "call":
                sub = self.prog["comps"][dict((x[0], x[2]) for x in comp["state"])[st[2]]]
                args = [self.e(x) for x in st[3]]
                if st[4]:
                    args = [f"{n}={a}" for (n, _, _), a in zip(sub["ins"], args)]
                    args = args[st[4] % len(args):] + args[:st[4] % len(args)] if args else args
                tg = ", ".join(st[1])
                out.append(f"{pad}{tg} = self.{st[2]}({', '.join(args)})")
            elif k == "if":
                for n, (c, b) in enumerate(st[1]):
                    out.append(f"{pad}{'if' if n == 0 else 'elif'} {self.e(c)}:")
                    out += self.stmts(b, ind + 1, comp)
                if st[2] is not None:
                    out.append(f"{pad}else:")
                    out += self.stmts(st[2], ind + 1, comp)
            elif k == "ret":
                out.append(f"{pad}return {', '.join(self.e(x) for x in st[1])}")
            else:
                raise AssertionError(st)
        return out or [f"{pad}pass"]

    def comp(self, i):
        c = self.prog["comps"][i]
        self.leafs = {("bit",)}
        n = c["name"]
        cls = ["        def __init__(self):"]
        pre = []
        for x in c["state"]:
            name, kind, t, init = x
            if kind == "sub":
                cls.append(f"            self.{name} = C{t}()")
            elif kind == "plain":
                cls.append(f"            self.{name}: {self.rt(t)} = {self.const(t, init)}")
            else:
                R = f"R_{name}"
                gen = "gen_attr_register" if kind == "attr" else "gen_register"
                extra = ", has_enable=False" if kind == "regne" else ""
                pre.append(f"    {R} = family.{gen}({self.rt(t)}, {self.init(t, init)}{extra})")
                cls.append(f"            self.{name} = {R}()")
        if len(cls) == 1:
            cls = []
        ann = ", ".join(f"{a}: " + (f"Const({self.t(t)})" if k else self.t(t)) for a, t, k in c["ins"])
        outs = [self.t(t) for _, t in c["outs"]]
        ret = outs[0] if len(outs) == 1 else f"({', '.join(outs)})"
        if c["named"]:
            cls.append(f"        @name_outputs({', '.join(f'{a}={o}' for (a, _), o in zip(c['outs'], outs))})")
        cls.append(f"        def __call__(self{', ' if ann else ''}{ann}) -> {ret}:")
        cls += self.stmts(c["body"], 3, c)
        for x in c["state"]:
            if x[1] == "sub":
                pre.append(f"    C{x[2]} = comp{x[2]}_fc(family)")
        head = [f"@family_closure", f"def comp{i}_fc(family):"]
        lines = []
        for t in sorted(self.leafs):
            if t[0] == "bit":
                lines.append("    Bit = family.Bit")
            else:
                f = {"bv": "BitVector", "sbv": "Signed", "ubv": "Unsigned"}[t[0]]
                lines.append(f"    {tname(list(t), {})} = family.{f}[{t[1]}]")
        for k in range(len(self.adts)):
            lines.append(f"    T{k} = TYPES[{k}]")
            lines.append(f"    T{k}_c = family.get_constructor(T{k})")
            lines.append(f"    T{k}_a = family.get_adt_t(T{k})")
        port = ", set_port_names=True" if c.get("ports") else ""
        lines += pre + ["", f"    @family.assemble(locals(), globals(){port})", f"    class {n}(Peak{', typecheck=True' if c.get('typecheck') else ''}):"]
        return "\n".join(head + lines + cls + [f"    return {n}", ""])

    def rt(self, t):
        """The type of a register."""
        return self.t(t) if t[0] in LEAF else self.t(t) + "_a"

    def init(self, t, v):
        if t[0] in LEAF:
            return str(v)
        return self.pyconst(t, v)

    def pyconst(self, t, v):
        """Literal of a value as plain Python value."""
        k = t[0]
        if k in LEAF:
            return f"{self.key(t)}({v})"
        n = self.t(t)
        if k == "enum":
            return f"{n}.{v}"
        if k in ("prod", "tup"):
            return f"{n}({', '.join(self.pyconst(x, y) for (_, x), y in zip(adt.fields(t), v))})"
        o = adt.options(t)[v[0]]
        return f"{n}({'' if k == 'sum' else t[2][v[0]][0] + '='}{self.pyconst(o, v[1])})"

    def text(self):
        parts = [self.comp(i) for i in range(len(self.prog["comps"]))]
        # every component refers to all types seen so far
        return "\n\n".join(["from hwtypes import Bit as Bit_, BitVector, SIntVector, UIntVector", "from peak import Const, Peak, family_closure, name_outputs",
                            "TYPES = []"] + parts)


def part(t, p):
    return t[2][p][1] if t[0] in ("prod", "tu") else t[1][p]


# ------------------------------------------------------------- interpreter
def sgn(v, t):
    return v - (1 << t[1]) if t[0] == "sbv" and v >> (t[1] - 1) else v


class Returned(Exception):
    pass


def initial(prog, i):
    st = {}
    for name, kind, t, init in prog["comps"][i]["state"]:
        st[name] = initial(prog, t) if kind == "sub" else init & mask(t) if t[0] in LEAF else init
    return st


class Interp:
    def __init__(self, prog):
        self.prog = prog

    def step(self, i, st, args):
        """One call: outputs; `st` is updated in place."""
        c = self.prog["comps"][i]
        env = dict(zip([n for n, _, _ in c["ins"]], args))
        try:
            self.run(c, st, env, c["body"])
        except Returned as r:
            return r.args[0]
        raise AssertionError("no return")

    def run(self, c, st, env, body):
        for s in body:
            k = s[0]
            if k == "let":
                env[s[1]] = self.ev(s[2], st, env)
            elif k == "set":
                st[s[1]] = self.ev(s[2], st, env)
            elif k == "call":
                i = dict((x[0], x[2]) for x in c["state"])[s[2]]
                r = self.step(i, st[s[2]], [self.ev(a, st, env) for a in s[3]])
                env.update(zip(s[1], r))
            elif k == "if":
                for cond, b in s[1]:
                    if self.ev(cond, st, env):
                        self.run(c, st, env, b)
                        break
                else:
                    if s[2] is not None:
                        self.run(c, st, env, s[2])
            else:
                raise Returned([self.ev(e, st, env) for e in s[1]])

    def ev(self, e, st, env):
        op, t = e[0], e[1]
        if op == "v":
            return env[e[2]]
        if op == "a":
            return st[e[2]]
        if op in ("k", "lit"):
            return e[2] & mask(t) if t[0] in LEAF else e[2]
        if op == "path":
            v, pt = self.ev(e[2], st, env), e[2][1]
            for p in e[3]:
                if pt[0] in ("prod", "tup"):
                    v = v[p]
                else:
                    assert v[0] == p
                    v = v[1]
                pt = part(pt, p)
            return v
        if op == "reg":
            args = [self.ev(a, st, env) for a in e[3]]
            old = st[e[2]]
            if len(args) == 1 or args[1]:
                st[e[2]] = args[0]
            return old
        if op == "prev":
            return st[e[2]]
        if op == "eqe":
            r = self.ev(e[2], st, env) == e[3]
            return int(r if e[5] == "==" else not r)
        if op == "match":
            return int(self.ev(e[2], st, env)[0] == e[3])
        if op == "mk":
            if t[0] == "enum":
                return e[2]
            if t[0] in ("prod", "tup"):
                return [self.ev(x, st, env) for x in e[2]]
            return [e[2], self.ev(e[3], st, env)]
        if op == "ifexp":
            return self.ev(e[3] if self.ev(e[2], st, env) else e[4], st, env)
        if op == "idx":
            return self.ev(e[2], st, env) >> e[3] & 1
        if op == "slice":
            return self.ev(e[2], st, env) >> e[3] & ((1 << (e[4] - e[3])) - 1)
        a = [self.ev(x, st, env) for x in e[2:] if isinstance(x, list)]
        ts = [x[1] for x in e[2:] if isinstance(x, list)]
        if op == "cmp":
            x, y = sgn(a[0], ts[0]), sgn(a[1], ts[0])
            return int(dict(eq=x == y, ne=x != y, lt=x < y, le=x <= y, gt=x > y, ge=x >= y)[e[2]])
        if op == "ite":
            return a[1] if a[0] else a[2]
        if op in ("band", "and"):
            return a[0] & a[1]
        if op in ("bor", "or"):
            return a[0] | a[1]
        if op == "xor":
            return a[0] ^ a[1]
        if op == "not":
            return 1 - a[0]
        m = mask(t)
        if op == "inv":
            return ~a[0] & m
        if op == "neg":
            return -a[0] & m
        if op == "add":
            return a[0] + a[1] & m
        if op == "sub":
            return a[0] - a[1] & m
        if op == "mul":
            return a[0] * a[1] & m
        if op == "shl":
            return a[0] << a[1] & m if a[1] < width(t) else 0
        if op == "shr":
            return (sgn(a[0], t) >> min(a[1], width(t))) & m
        if op == "cat":
            return a[0] | a[1] << width(ts[0])
        if op == "zext":
            return a[0]
        if op == "sext":
            return sgn(a[0], ["sbv", width(ts[0])]) & m
        if op == "cast":
            return a[0]
        raise AssertionError(e)


# ------------------------------------------------------------- generation
NAMES = ["x", "y", "acc", "tmp", "r0", "v", "out", "n_0", "res", "a", "b", "st", "cond", "key", "op"]
PYNAMES = ["Alu", "Core", "Unit", "Pe", "Fsm"]


class Gen:
    def __init__(self, rng, hw=False):
        self.rng, self.hw = rng, hw
        self.tg = adt.Gen(rng, max_width=9, signed=0.1 if hw else 0.2, ones=0.3 if hw else 0.0)
        self.w = rng.choice([2, 3, 4])
        self.n = 0

    def leaf(self):
        r = self.rng.random()
        if r < 0.3:
            return ["bit"]
        if r < 0.8:
            return ["bv", self.w]
        if r < 0.9:
            return [self.rng.choice(["sbv", "ubv"]), self.w]
        return ["bv", self.rng.randint(1, 5)]

    def program(self):
        rng = self.rng
        self.insts = [self.tg.type(2, top=True) for _ in range(rng.choice([1, 1, 2]))]
        if self.hw and self.insts[0][0] != "prod" and rng.random() < 0.4:
            for _ in range(4):
                self.insts[0] = self.tg.type(2, top=True)
                if self.insts[0][0] == "prod":
                    break
        comps = []
        for i in range(rng.choice([1, 2, 2, 3])):
            comps.append(self.comp(i, comps))
        return dict(comps=comps, hw=self.hw)

    # ---------------------------------------------------------- a component
    def comp(self, i, comps):
        rng, hw = self.rng, self.hw
        self.prog = comps
        self.count = 0
        ins, state = [], []
        for k in range(rng.choice([1, 1, 2, 2, 3])):
            ins.append([f"i{k}" if rng.random() < 0.8 else ["inst", "data", "value"][k], self.leaf(), rng.random() < 0.15])
        if rng.random() < 0.65:
            t = rng.choice(self.insts)
            if rng.random() < 0.35:
                t = rng.choice([s for s in adt.subtypes(t) if s[0] not in LEAF] or [t])
            ins.insert(rng.randint(0, len(ins)), ["ins", t, rng.random() < 0.7])
        for k in range(rng.choice([0, 1, 1, 2, 3])):
            kind = rng.choice(["attr", "attr", "reg", "reg", "regne"] + ([] if hw else ["plain"]))
            t = self.leaf()
            if not hw and rng.random() < 0.25 and kind != "plain":
                t = rng.choice([s for x in self.insts for s in adt.subtypes(x) if s[0] not in LEAF])
            init = adt.gen_value(rng, t) if rng.random() < 0.75 or t[0] not in LEAF else 0
            if t[0] == "sbv" and init >> (t[1] - 1):
                init -= 1 << t[1]
            state.append([f"s{k}", kind, t, init])
        for k in range(rng.choice([0, 1, 1, 2]) if i else 0):
            state.append([f"u{k}", "sub", rng.randrange(i), None])
        rng.shuffle(state)
        outs = []
        for k in range(rng.choice([1, 1, 2, 3])):
            t = self.leaf()
            if rng.random() < 0.12:
                t = rng.choice([s for x in self.insts for s in adt.subtypes(x) if s[0] not in LEAF])
            outs.append([f"o{k}", t])
        c = dict(name=f"{rng.choice(PYNAMES)}{i}", ins=ins, outs=outs, named=rng.random() < 0.4, state=state, body=[])
        c["typecheck"] = rng.random() < 0.12
        c["ports"] = False
        self.c = c
        self.locals = rng.sample(NAMES, len(NAMES))
        self.pool = rng.choice([1, 2, 2])
        vals = [(["v", t, n], t) for n, t, _ in ins]
        vals += [(["a", t, n], t) for n, k, t, _ in state if k in ("attr", "plain")]
        body = c["body"]
        todo = [s for s in state if s[1] in ("reg", "regne", "sub")]
        if not hw:
            todo = [s for s in todo if rng.random() < 0.93] + [s for s in todo if rng.random() < 0.12]
        rng.shuffle(todo)
        self.live = vals        # values in scope: (expr, type)
        self.reads = {}
        self.expand(self.live)
        first = list(vals)
        pv = [s for s in state if s[1] in ("reg", "regne")]
        if pv and rng.random() < 0.3:
            s = rng.choice(pv)
            v = self.local(s[2])
            body.append(["let", v[2], ["prev", s[2], s[0]]])
        for s in todo:
            self.free(body, 1)
            self.callstmt(body, s)
        self.attrs = [s for s in state if s[1] in ("attr", "plain")]
        self.tail(body, rng.choice([1, 2, 2, 3]))
        self.live = first
        written = {x[1] for x in walk(body) if x[0] == "set"}
        for s in self.attrs:
            if s[0] not in written:
                body.insert(0, ["set", s[0], ["a", s[2], s[0]] if rng.random() < 0.1 else self.const(s[2])])
        return c

    def expand(self, vals):
        """Unconditional parts of ADT values."""
        i = 0
        while i < len(vals):
            e, t = vals[i]
            i += 1
            if t[0] in ("prod", "tup"):
                root, path = (e[2], e[3]) if e[0] == "path" else (e, [])
                for p, (_, x) in enumerate(adt.fields(t)):
                    vals.append((["path", x, root, path + [p]], x))

    def local(self, t, fresh=False):
        """A name to assign a value of type t to (reused for the same type)."""
        old = [e for e, x in self.live if e[0] == "v" and x == t and e[2] not in [n for n, _, _ in self.c["ins"]]]
        if old and not fresh and self.rng.random() < 0.35:
            return self.rng.choice(old)
        used = {e[2] for e, _ in self.live if e[0] == "v"} | self.reads.keys()
        for n in self.locals:
            if n not in used and n not in [x for x, _, _ in self.c["ins"]]:
                break
        else:
            self.count += 1
            n = f"w{self.count}"
        self.reads[n] = t
        return ["v", t, n]

    def define(self, v):
        self.live[:] = [(e, t) for e, t in self.live if not (e == v or e[0] == "path" and e[2] == v)]
        add = [(v, v[1])]
        self.expand(add)
        self.live += add

    def assign(self, body, e, fresh=False):
        v = self.local(e[1], fresh)
        body.append(["let", v[2], e])
        self.define(v)
        return v

    # ---------------------------------------------------------- expressions
    def const(self, t):
        rng = self.rng
        if t[0] in LEAF or t[0] == "enum":
            return ["k", t, adt.gen_value(rng, t)]
        return self.make(t, 1)

    def make(self, t, d):
        rng = self.rng
        if t[0] == "enum":
            return ["mk", t, rng.choice(t[2])[0]]
        if t[0] in ("prod", "tup"):
            return ["mk", t, [self.expr(x, d - 1) for _, x in adt.fields(t)], rng.random() < 0.5]
        k = rng.randrange(len(adt.options(t)))
        return ["mk", t, k, self.expr(adt.options(t)[k], d - 1)]

    def expr(self, t, d):
        rng = self.rng
        have = [e for e, x in self.live if x == t]
        if t[0] not in LEAF:
            r = rng.random()
            if have and r < 0.6:
                return rng.choice(have)
            if d > 0 and r < 0.8 and len(have) > 1:
                return ["ifexp", t, self.cond(d - 1), rng.choice(have), rng.choice(have)]
            return self.make(t, max(d, 1))
        if d <= 0 or rng.random() < 0.25:
            if have and rng.random() < 0.9:
                return rng.choice(have)
            wide = [e for e, x in self.live if x[0] in ("bv", "ubv", "sbv")]
            if t[0] == "bit" and wide and rng.random() < 0.8:
                e = rng.choice(wide)
                return ["idx", t, e, rng.randrange(e[1][1])]
            return self.const(t)
        s = lambda x=t: self.expr(x, d - 1)  # noqa: E731
        if t[0] == "bit":
            op = rng.choice(["and", "or", "xor", "inv", "cmp", "cmp", "idx", "ite", "cmp", "ifexp"])
            if op in ("and", "or", "xor"):
                return [op, t, s(), s()]
            if op == "inv":
                return ["inv", t, s()]
            if op in ("ite", "ifexp"):
                return [op, t, s(BIT), s(), s()]
            if op == "idx":
                a = self.someleaf()
                return ["idx", t, self.expr(a, d - 1), rng.randrange(a[1])]
            a = self.someleaf() if rng.random() < 0.85 else BIT
            ops = ["eq", "ne", "lt", "le", "gt", "ge"] if a[0] != "bit" else ["eq", "ne"]
            return ["cmp", t, rng.choice(ops), self.expr(a, d - 1), self.rhs(a, d - 1)]
        op = rng.choice(["add", "sub", "and", "or", "xor", "inv", "ite", "ifexp", "shl", "shr", "mul", "neg", "wide", "cast"])
        if op in ("add", "sub", "and", "or", "xor", "shl", "shr", "mul"):
            return [op, t, s(), self.rhs(t, d - 1) if op in ("add", "sub") else s()]
        if op in ("ite", "ifexp"):
            return [op, t, s(BIT), s(), s()]
        if op == "inv" or op == "neg":
            return [op, t, s()]
        if op == "cast":
            o = [["bv", t[1]], ["sbv", t[1]], ["ubv", t[1]]]
            o.remove(t)
            return ["cast", t, s(rng.choice([x for x in o if x[0] != t[0]]))]
        # width changes, on plain bit vectors
        if t[0] == "bv":
            r = rng.random()
            if t[1] > 1 and r < 0.35:
                a = rng.randint(1, t[1] - 1)
                return ["cat", t, s(["bv", a]), s(["bv", t[1] - a])]
            if t[1] > 1 and r < 0.7:
                a = rng.randint(1, t[1] - 1)
                return ["zext" if self.hw else rng.choice(["zext", "sext"]), t, s(["bv", a]), t[1] - a]
            lo = rng.randint(0, 2)
            w = t[1] + lo + rng.randint(0, 1)
            return ["slice", t, s(["bv", w]), lo, lo + t[1]]
        return ["xor", t, s(), s()]

    def rhs(self, t, d):
        """Right operand: sometimes a plain integer."""
        if t[0] == "bv" and self.rng.random() < 0.3:
            return ["lit", t, self.rng.randrange(1 << t[1])]
        return self.expr(t, d)

    def someleaf(self):
        c = [t for _, t in self.live if t[0] in LEAF and t[0] != "bit"]
        return self.rng.choice(c) if c and self.rng.random() < 0.8 else ["bv", self.w]

    def matchable(self):
        return [(e, t) for e, t in self.live if t[0] in ("sum", "tu")]

    def cond(self, d):
        """A condition: may compare enums and use and, or, not."""
        rng = self.rng
        r = rng.random()
        en = [(e, t) for e, t in self.live if t[0] == "enum"]
        if en and r < 0.5:
            e, t = rng.choice(en)
            return ["eqe", BIT, e, rng.choice(t[2])[0], rng.choice("ma"), rng.choice(["==", "==", "==", "!="])]
        m = self.matchable()
        if m and r < 0.6:
            e, t = rng.choice(m)
            return ["match", BIT, e, rng.randrange(len(adt.options(t)))]
        if d > 0 and r < 0.75:
            k = rng.choice(["band", "bor", "not"])
            return [k, BIT, self.cond(d - 1)] + ([] if k == "not" else [self.cond(d - 1)])
        return self.expr(BIT, d)

    # ---------------------------------------------------------- statements
    def free(self, body, d, rets=False):
        """Some statements that do not return."""
        rng = self.rng
        for _ in range(rng.choice([0, 1, 1, 2])):
            r = rng.random()
            if r < 0.45:
                self.assign(body, self.expr(self.leaf(), 2))
            elif r < 0.6 and self.attrset():
                n, _, t, _ = rng.choice(self.attrset())
                body.append(["set", n, self.expr(t, 2)])
                self.forget(n, "a")
            elif d > 0:
                self.branch(body, d - 1)

    def attrset(self):
        return [s for s in self.c["state"] if s[1] in ("attr", "plain")]

    def scope(self, fn):
        """Run fn in a nested scope; returns the names assigned in it."""
        saved = list(self.live)
        body = []
        fn(body)
        mine = {e[2]: t for e, t in self.live if e[0] == "v"}
        self.live[:] = saved
        # what was assigned inside no longer has its earlier parts
        for x in walk(body):
            for n in [x[1]] if x[0] in ("let", "set") else x[1] if x[0] == "call" else []:
                self.forget(n, "a" if x[0] == "set" else "v")
        return body, mine

    def forget(self, name, kind):
        hit = [e for e, t in self.live if e[0] == kind and e[2] == name]
        if hit:
            self.live[:] = [(e, t) for e, t in self.live if not (e[0] == "path" and e[2] == hit[0])]
            add = [(hit[0], hit[0][1])]
            self.expand(add)
            self.live += add[1:]

    def branch(self, body, d):
        """if/elif/else or a full case split over a sum, without returns."""
        rng = self.rng
        m = self.matchable()
        targets = [self.local(self.leaf()) for _ in range(rng.choice([1, 1, 2]))]

        def inner(b):
            self.free(b, d)
            for v in targets:
                if rng.random() < 0.8 or v[2] not in known:
                    b.append(["let", v[2], self.expr(v[1], 2)])
                    self.define(v)
        known = {e[2] for e, _ in self.live if e[0] == "v"}
        if m and rng.random() < 0.5:
            e, t = rng.choice(m)
            self.cases(body, e, t, inner)
        else:
            arms = [[self.cond(1), self.scope(inner)[0]] for _ in range(rng.choice([1, 1, 1, 2]))]
            full = rng.random() < 0.7 or any(v[2] not in known for v in targets)
            body.append(["if", arms, self.scope(inner)[0] if full else None])
        for v in targets:
            self.define(v)

    def cases(self, body, e, t, inner):
        rng = self.rng
        alts = list(range(len(adt.options(t))))
        rng.shuffle(alts)
        arms = []
        for n, k in enumerate(alts):
            def fn(b, k=k):
                root, path = (e[2], e[3]) if e[0] == "path" else (e, [])
                o = adt.options(t)[k]
                val = ["path", o, root, path + [k]]
                if rng.random() < 0.5:
                    self.assign(b, val, fresh=True)
                else:
                    add = [(val, o)]
                    self.expand(add)
                    self.live.extend(add)
                inner(b)
            arms.append([["match", BIT, e, k], self.scope(fn)[0]])
        if rng.random() < 0.7:
            body.append(["if", arms[:-1], arms[-1][1]])
        else:
            body.append(["if", arms, self.scope(inner)[0]])

    def callstmt(self, body, s):
        rng = self.rng
        n, kind, t, _ = s
        if kind == "sub":
            sub = self.prog[t]
            args = [self.expr(x, 2) for _, x, _ in sub["ins"]]
            tg = []
            for _, x in sub["outs"]:
                v = self.local(x, fresh=True)
                while v in tg:
                    v = self.local(x, fresh=True)
                tg.append(v)
            body.append(["call", [v[2] for v in tg], n, args, rng.choice([0, 0, 1, 2])])
            for v in tg:
                self.define(v)
        else:
            args = [self.expr(t, 2)] + ([self.cond(1) if False else self.expr(BIT, 2)] if kind == "reg" else [])
            e = ["reg", t, n, args, rng.choice([0, 0, 0, 1, 2])]
            r = rng.random()
            if r < 0.2 and t[0] in LEAF:
                k = rng.choice(["add", "xor"]) if t[0] != "bit" else "xor"
                e = [k, t, e, self.expr(t, 1)]
            self.assign(body, e)

    def sets(self, body):
        rng = self.rng
        for n, _, t, _ in self.attrset():
            if rng.random() < 0.4:
                body.append(["set", n, self.expr(t, 2)])
                self.forget(n, "a")

    def ret(self, body):
        body.append(["ret", [self.expr(t, 2) for _, t in self.c["outs"]]])

    def tail(self, body, d):
        """Ends with a return on every path."""
        rng = self.rng
        self.free(body, 1)
        self.sets(body)
        r = rng.random()
        if d <= 0 or r < 0.25:
            return self.ret(body)
        m = self.matchable()
        if m and r < 0.5:
            e, t = rng.choice(m)
            return self.cases(body, e, t, lambda b: self.tail(b, d - 2))
        if r < 0.75:
            arms = [[self.cond(1), self.scope(lambda b: self.tail(b, d - 2))[0]] for _ in range(rng.choice([1, 1, 2]))]
            body.append(["if", arms, self.scope(lambda b: self.tail(b, d - 1))[0]])
            return
        # early return, then the rest
        def early(b):
            self.sets(b)
            self.ret(b)
        arms = [[self.cond(1), self.scope(early)[0]]]
        body.append(["if", arms, None])
        self.tail(body, d - 1)


def walk(body):
    for s in body:
        yield s
        if s[0] == "if":
            for _, b in s[1]:
                yield from walk(b)
            if s[2] is not None:
                yield from walk(s[2])
