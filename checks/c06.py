"""C06: a store of live instruction words edited through typed views.

Model: every slot holds (type, abstract value, exact word).  Each operation is
performed through four views (two assembler generations x concrete/symbolic
words) and every observation is compared with the model.  Misuse is injected
between the edits and must raise and change nothing."""
import copy

from hwtypes import BitVector, Bit, SMTBitVector, SMTBit
from hwtypes.adt import Tuple

from sim import adt, isa
from sim.core import brief, HarnessError

LEAF = ("bv", "sbv", "ubv", "bit")


def generate(rng, tier):
    g = adt.Gen(rng, max_width=rng.choice([8, 14, 20, 30]), dup_names=0.1)
    top = g.type(rng.choice([1, 2, 2, 3]), top=True)
    types, seen = [], set()
    for s in adt.subtypes(top):
        if adt.ident(s) not in seen:
            seen.add(adt.ident(s))
            types.append(s)
    if rng.random() < 0.3:
        t2 = g.type(rng.choice([1, 2]), top=True)
        for s in adt.subtypes(t2):
            if adt.ident(s) not in seen:
                seen.add(adt.ident(s))
                types.append(s)
    big = [i for i, t in enumerate(types) if t[0] not in LEAF]
    ops = []
    for _ in range(rng.randint(10, 50)):
        k = rng.choice(["inst", "word", "word", "fields", "fields", "fields", "read", "read", "replace", "replace",
                        "match", "eq", "eq", "copy", "misuse", "class"])
        ti = rng.choice(big) if rng.random() < 0.85 else rng.randrange(len(types))
        if rng.random() < 0.4:
            ti = 0
        ops.append([k, ti, rng.randrange(1 << 30), adt.gen_value(rng, types[ti]), rng.randrange(1 << 30)])
    return dict(types=types, ops=ops)


class Flavour:
    def __init__(self, gen, sym):
        from peak.assembler import AssembledADT as V1
        from peak.assembler2.assembled_adt import AssembledADT as V2
        A1, A2 = isa.assemblers()
        self.gen, self.sym = gen, sym
        self.V, self.A = (V1, A1) if gen == 1 else (V2, A2)
        self.BV = SMTBitVector if sym else BitVector
        self.Bit = SMTBit if sym else Bit
        self.env = {}
        self.name = f"asm{gen}/{'symbolic' if sym else 'concrete'}"

    def view(self, T):
        return self.V[T, self.A, self.BV]

    def rd(self, x):
        """int value of a bit / bit-vector / view"""
        if hasattr(x, "_to_bitvector_"):
            x = x._to_bitvector_()
        if not isinstance(x, (self.BV, self.Bit)):
            raise TypeError(f"{self.name}: unexpected {type(x)}")
        if self.sym:
            v = x.value.substitute(self.env).simplify()
            if not v.is_constant():
                raise TypeError(f"{self.name}: {v} is not determined")
            return int(v.constant_value())
        return int(bool(x)) if isinstance(x, self.Bit) else x.as_uint()


def cover_mask(A1, types, t, v):
    """Bits of the word that the value uses (by the assembler's published layout)."""
    k = t[0]
    if k in LEAF or k == "enum":
        return (1 << adt.width(t)) - 1
    lay = A1(types.build(t)).layout
    ks = isa.keys(types, t)
    if k in ("prod", "tup"):
        m = 0
        for key, i, x in ks:
            m |= cover_mask(A1, types, x, v[i]) << lay[key][0]
        return m
    tl = A1(types.build(t)).tag_layout
    m = ((1 << (tl[1] - tl[0])) - 1) << tl[0]
    key, i, x = ks[v[0]]
    return m | cover_mask(A1, types, x, v[1]) << lay[key][0]


def encode(A1, types, t, v):
    return A1(types.build(t)).assemble(types.value(t, v), BitVector).as_uint()


def execute(plan, ctx):
    A1, A2 = isa.assemblers()
    types = adt.Types()
    ts = plan["types"]
    for t in ts:
        types.build(t)
    flavours = [Flavour(1, False), Flavour(2, False), Flavour(1, True), Flavour(2, True)]
    by_ident = {adt.ident(t): i for i, t in enumerate(ts)}
    slots = []
    nvar = [0]

    def add(ti, v, word, objs, why):
        slots.append((ti, v, word, objs))
        check_slot(len(slots) - 1, why)
        if len(slots) > 30:
            del slots[0]

    def check_slot(k, why):
        ti, v, word, objs = slots[k]
        for f in flavours:
            got = f.rd(objs[f.name])
            ctx.ev("slot", k, f.name, got)
            ctx.check(got == word, "word",
                      lambda: f"{why}: {f.name}: slot of type {ts[ti]} holds word {got}, expected {word} (instruction {v})")

    def pick(ti, r):
        c = [s for s in slots if s[0] == ti]
        return c[r % len(c)] if c else None

    def leaf_obj(f, t, x):
        return f.Bit(x) if t[0] == "bit" else f.view(types.build(t))(x)

    def obj_for(f, ti, v):
        t = ts[ti]
        if t[0] in LEAF:
            return leaf_obj(f, t, v)
        return f.view(types.build(t))(types.value(t, v))

    def component(ti, r, v):
        """An existing slot of the type, or a new one from the value."""
        s = pick(ti, r) if r % 3 else None
        if s is None:
            s = (ti, v, encode(A1, types, ts[ti], v), {f.name: obj_for(f, ti, v) for f in flavours})
        return s

    def build(ti, comps, default, style, sel=None):
        """from_fields with the components; returns (word, objs)."""
        t = ts[ti]
        T = types.build(t)
        a = A1(T)
        ks = isa.keys(types, t)
        w = adt.width(t)
        word = {1: (1 << w) - 1 if default else 0, 2: 0}
        if t[0] in ("prod", "tup"):
            for (key, i, x), c in zip(ks, comps):
                lo, hi = a.layout[key]
                for g in word:
                    word[g] = word[g] & ~(((1 << (hi - lo)) - 1) << lo) | c[2] << lo
        else:
            key, i, x = ks[sel]
            lo, hi = a.layout[key]
            c = comps[0]
            tl = a.tag_layout
            tag = a.assemble_tag(key, BitVector).as_uint()
            for g in word:
                word[g] = word[g] & ~(((1 << (hi - lo)) - 1) << lo) | c[2] << lo
                word[g] = word[g] & ~(((1 << (tl[1] - tl[0])) - 1) << tl[0]) | tag << tl[0]
        objs = {}
        for f in flavours:
            V = f.view(T)
            args = [c[3][f.name] for c in comps]
            kw = {}
            if f.gen == 1 and default is not None:
                kw["default_bv"] = default
            if t[0] == "prod":
                names = [key for key, i, x in ks]
                n = style % (len(names) + 1)
                kw.update(dict(zip(names[n:], args[n:])))
                args = args[:n]
                objs[f.name] = V.from_fields(*args, **kw)
            elif t[0] == "tup":
                objs[f.name] = V.from_fields(*args, **kw)
            elif t[0] == "tu":
                kw[ks[sel][0]] = args[0]
                objs[f.name] = V.from_fields(**kw)
            else:
                objs[f.name] = V.from_fields(ks[sel][0], args[0], **kw)
        return word, objs

    def finish(ti, v, words, objs, why):
        # the generations may differ in padding only when a default was asked for
        if words[1] == words[2]:
            add(ti, v, words[1], objs, why)
            return
        for f in flavours:
            got = f.rd(objs[f.name])
            ctx.check(got == words[f.gen], "padding", lambda: f"{why}: {f.name}: {ts[ti]}: word {got}, expected {words[f.gen]}")
        # carry on with the first generation's word everywhere
        w = words[1]
        objs = {f.name: objs[f.name] if f.gen == 1 else f.view(types.build(ts[ti]))(f.BV[adt.width(ts[ti])](w)) for f in flavours}
        ctx.probe("default_padding")
        add(ti, v, w, objs, why)

    def snapshot():
        return [[f.rd(s[3][f.name]) for f in flavours] for s in slots]

    for n, (k, ti, r, v, r2) in enumerate(plan["ops"]):
        t = ts[ti]
        T = types.build(t)
        w = adt.width(t)
        ks = isa.keys(types, t)
        ctx.steps += 1
        ctx.ev("op", n, k, ti)
        ctx.cover.add(f"{k}:{t[0]}")
        why = f"op {n} {k}"
        if k == "inst":
            add(ti, v, encode(A1, types, t, v), {f.name: obj_for(f, ti, v) for f in flavours}, why)
        elif k == "word":
            word = encode(A1, types, t, v)
            pad = ((1 << w) - 1) & ~cover_mask(A1, types, t, v)
            word |= pad & r
            objs = {}
            for f in flavours:
                if f.sym and r2 % 2:
                    nvar[0] += 1
                    x = f.BV[w](name=f"w{nvar[0]}_{f.gen}")
                    from pysmt import shortcuts as smt
                    f.env[x.value] = smt.BV(word, w)
                else:
                    x = f.BV[w](word)
                if t[0] == "bit":
                    objs[f.name] = x[0]
                elif r2 % 3 == 0 and t[0] not in LEAF:
                    objs[f.name] = f.view(T)._from_bitvector_(x)
                else:
                    objs[f.name] = f.view(T)(x)
            add(ti, v, word, objs, why)
        elif k == "fields":
            if t[0] in ("prod", "tup"):
                comps = [component(by_ident[adt.ident(x)], r + i * 7, v[i]) for key, i, x in ks]
                nv = [c[1] for c in comps]
                words, objs = build(ti, comps, [None, 0, 1][r2 % 3], r2)
                finish(ti, nv, words, objs, why)
            elif t[0] in ("sum", "tu"):
                key, i, x = ks[v[0]]
                c = component(by_ident[adt.ident(x)], r, v[1])
                words, objs = build(ti, [c], [None, 0, 1][r2 % 3], r2, sel=i)
                finish(ti, [i, c[1]], words, objs, why)
            elif t[0] == "enum":
                e = encode(A1, types, t, v)
                objs = {f.name: f.view(T).from_fields(types.value(t, v) if f.gen == 1 and r2 % 2 else f.view(T)(types.value(t, v)))
                        if f.gen == 1 else f.view(T).from_fields(f.BV[w](e)) for f in flavours}
                add(ti, v, e, objs, why)
        elif k == "replace":
            s = pick(ti, r)
            if s is None:
                continue
            if t[0] in ("prod", "tup"):
                j = r2 % len(ks)
                comps = []
                for key, i, x in ks:
                    xi = by_ident[adt.ident(x)]
                    if i == j:
                        comps.append(component(xi, r2 // 7, v[i]))
                    else:
                        lo, hi = A1(T).layout[key]
                        sw = s[2] >> lo & ((1 << (hi - lo)) - 1)
                        comps.append((xi, s[1][i], sw,
                                      {f.name: (getattr(s[3][f.name], key) if isinstance(key, str) else s[3][f.name][key])
                                       for f in flavours}))
                words, objs = build(ti, comps, None, r2)
                finish(ti, [c[1] for c in comps], words, objs, why)
            elif t[0] in ("sum", "tu"):
                key, i, x = ks[v[0]]
                c = component(by_ident[adt.ident(x)], r2 // 7, v[1])
                words, objs = build(ti, [c], None, r2, sel=i)
                finish(ti, [i, c[1]], words, objs, why)
        elif k == "copy":
            s = pick(ti, r)
            if s is None or t[0] in LEAF:
                continue
            how = r2 % 3
            objs = {}
            for f in flavours:
                o = s[3][f.name]
                # pysmt's nodes are not meant to be copied
                objs[f.name] = (f.view(T)(o) if how == 0 else
                                copy.copy(o) if how == 1 or f.sym else copy.deepcopy(o))
                ctx.check(type(objs[f.name]) is f.view(T), "copy",
                          lambda: f"{why}: {f.name}: a copy is of type {type(objs[f.name])}")
            add(ti, s[1], s[2], objs, why)
        elif k in ("read", "match"):
            s = pick(ti, r)
            if s is None or not ks:
                continue
            lay = A1(T).layout
            for key, i, x in ks:
                if k == "read" and i != r2 % len(ks):
                    continue
                lo, hi = lay[key]
                sw = s[2] >> lo & ((1 << (hi - lo)) - 1)
                objs = {}
                for f in flavours:
                    o = s[3][f.name]
                    g = getattr(o, key) if isinstance(key, str) else o[key]
                    if t[0] in ("sum", "tu"):
                        m = f.rd(g.match)
                        ctx.ev("match", f.name, i, m)
                        ctx.check(m == int(s[1][0] == i), "match",
                                  lambda: f"{why}: {f.name}: {t}: match of option {key} is {m} for instruction {s[1]}")
                        g = g.value
                    objs[f.name] = g
                    got = f.rd(g)
                    ctx.check(got == sw, "field", lambda: f"{why}: {f.name}: {t}: field {key} of word {s[2]} ({s[1]}) reads {got}, expected {sw}")
                    want_t = f.view(types.build(x))
                    ctx.check(isinstance(g, want_t), "field-type", lambda: f"{why}: {f.name}: field {key} has type {type(g)}, expected {want_t}")
                if k == "read" and (t[0] not in ("sum", "tu") or s[1][0] == i):
                    val = s[1][1] if t[0] in ("sum", "tu") else s[1][i]
                    add(by_ident[adt.ident(x)], val, sw, objs, why)
            if t[0] in ("sum", "tu"):
                from peak.assembler import _TAG
                tl = A1(T).tag_layout
                for f in flavours:
                    if f.gen == 1:
                        o = s[3][f.name]
                        tag = f.rd(o[_TAG])
                        ctx.check(tag == A1(T).assemble_tag(ks[s[1][0]][0], BitVector).as_uint(), "tag",
                                  lambda: f"{why}: {f.name}: tag {tag} of {s[1]}")
        elif k == "eq":
            s = pick(ti, r)
            o = pick(ti, r2)
            if s is None or t[0] in LEAF:
                continue
            padding = ((1 << w) - 1) & ~cover_mask(A1, types, t, s[1])
            for f in flavours:
                x, y = s[3][f.name], o[3][f.name]
                e, ne = f.rd(x == y), f.rd(x != y)
                ctx.ev("eq", f.name, e, ne)
                ctx.check(e == int(s[2] == o[2]) and ne == 1 - e, "compare",
                          lambda: f"{why}: {f.name}: words {s[2]} and {o[2]} ({s[1]} and {o[1]}): == {e}, != {ne}")
                if not padding:
                    ctx.check(e == int(s[1] == o[1]), "compare", lambda: f"{why}: {f.name}: {s[1]} == {o[1]} gives {e}")
                e = f.rd(x == f.BV[w](o[2]))
                ctx.check(e == int(s[2] == o[2]), "compare", lambda: f"{why}: {f.name}: word comparison {s[2]} == {o[2]} gives {e}")
                # against an abstract instruction
                want = int(s[2] == encode(A1, types, t, v))
                e, ne = f.rd(x == types.value(t, v)), f.rd(x != types.value(t, v))
                ctx.check(e == want and ne == 1 - want, "compare",
                          lambda: f"{why}: {f.name}: {s[1]} (word {s[2]}) against instruction {v}: == {e}, != {ne}")
                if not f.sym and s[2] == o[2]:
                    ctx.check(hash(x) == hash(y), "hash", lambda: f"{why}: equal views with different hashes")
        elif k == "class":
            if t[0] in LEAF:
                continue
            for f in flavours:
                V = f.view(T)
                ctx.check(f.view(T) is V, "class", "view class not stable")
                ctx.check(V._bitvector_t_() is f.BV[w], "class", lambda: f"{why}: bit-vector type {V._bitvector_t_()}, width {w}")
                ctx.check(V.adt_t is T, "class", lambda: f"{why}: adt_t is {V.adt_t}")
                for key, i, x in ks:
                    sub = getattr(V, key) if isinstance(key, str) else V[key]
                    ctx.check(sub is f.view(types.build(x)), "class", lambda: f"{why}: {f.name}: {t}.{key} is {sub}")
        elif k == "misuse":
            before = snapshot()
            misuse(ctx, types, t, T, w, ks, v, r, r2, flavours, pick(ti, r), why)
            ctx.check(snapshot() == before, "misuse-effect", lambda: f"{why}: a refused operation changed a live word")
    for i in range(len(slots)):
        check_slot(i, "at the end")
    ctx.nontrivial = len(slots) > 1


def strict(t):
    """Does a view of this type have to refuse a word of another width?  Plain
    bit-vectors are converted by hwtypes, and a one-field product or tuple takes
    the word as its field."""
    if t[0] in LEAF:
        return False
    return not (t[0] in ("prod", "tup") and len(adt.fields(t)) == 1)


def misuse(ctx, types, t, T, w, ks, v, r, r2, flavours, s, why):
    if t[0] in LEAF:
        return
    for f in flavours:
        V = f.view(T)
        cases = []
        if s is not None:
            o = s[3][f.name]
            cases.append(("unknown attribute", lambda: getattr(o, "no_such_field")))
            cases.append(("unknown key", lambda: o[BitVector[61]] if t[0] == "sum" else o["no_such_field"]))
        if strict(t):
            cases.append(("wrong width", lambda: V(f.BV[w + 1](0))))
            cases.append(("wrong object", lambda: V("word")))
        if t[0] in ("prod", "tup"):
            cases.append(("too few", lambda: V.from_fields()))
            good = [f.Bit(v[i]) if x[0] == "bit" else
                    f.view(types.build(x))(v[i] if x[0] in LEAF else types.value(x, v[i])) for key, i, x in ks]
            cases.append(("too many", lambda: V.from_fields(*good, good[0])))
            bad = list(good)
            j = r2 % len(bad)
            bw = adt.width(ks[j][2])
            bad[j] = f.BV[bw + 1 + r % 2](0)
            if strict(ks[j][2]):
                cases.append(("field of wrong width", lambda: V.from_fields(*bad)))
            n = (j + 1) % len(bad)
            bm = adt.width(ks[n][2])
            if n != j and bm > 1 and (f.gen == 2 or strict(ks[j][2]) or strict(ks[n][2])):
                # the widths are wrong one by one but not in total
                off = list(good)
                off[j], off[n] = f.BV[bw + 1](r % 2), f.BV[bm - 1](0)
                cases.append(("fields of shifted widths", lambda: V.from_fields(*off)))
            if strict(ks[j][2]):
                # a view of a type that happens to have the same width
                other = list(good)
                other[j] = f.view(Tuple[BitVector[bw]])(f.BV[bw](0))
                cases.append(("view of another type", lambda: V.from_fields(*other)))
            if t[0] == "prod":
                cases.append(("unknown keyword", lambda: V.from_fields(*good[:-1], no_such_field=good[-1])))
        elif t[0] == "tu":
            cases.append(("no field", lambda: V.from_fields()))
            cases.append(("unknown option", lambda: V.from_fields(no_such_field=f.BV[1](0))))
            k0, k1 = ks[0], ks[1]
            cases.append(("two options", lambda: V.from_fields(**{
                k0[0]: f.BV[adt.width(k0[2])](0), k1[0]: f.BV[adt.width(k1[2])](0)})))
            if strict(k0[2]):
                cases.append(("payload of wrong width", lambda: V.from_fields(**{k0[0]: f.BV[adt.width(k0[2]) + 1](0)})))
        elif t[0] == "sum":
            cases.append(("unknown option", lambda: V.from_fields(BitVector[61], f.BV[61](0))))
            k0 = ks[0]
            if strict(k0[2]):
                cases.append(("payload of wrong width", lambda: V.from_fields(k0[0], f.BV[adt.width(k0[2]) + 1](0))))
        for name, fn in cases:
            ctx.fault("misuse:" + name)
            try:
                res = fn()
            except HarnessError:
                raise
            except Exception as e:
                ctx.ev("misuse", f.name, name, type(e).__name__)
                continue
            ctx.fail("misuse-accepted", f"{why}: {f.name}: {t}: {name} was accepted and gave {res!r}")
