"""C05: instruction memory with storage faults.  Words are assembled by one
node, stored, damaged, and decoded by another; validity, decoding, both
assemblers and the typed views must tell one consistent story."""
from hwtypes import BitVector, SMTBitVector

from sim import adt, isa
from sim.core import brief

FULL = 9        # types up to this width: every word is examined


def generate(rng, tier):
    g = adt.Gen(rng, max_width=rng.choice([6, 9, 9, 14, 24]), dup_names=0.15, zero_ok=True, signed=0.2)
    types, mems = [], []
    for _ in range(rng.randint(1, 3)):
        t = g.type(rng.choice([0, 1, 2, 2, 3]), top=True)
        types.append(t)
        mems.append([adt.gen_value(rng, t) for _ in range(rng.randint(2, 5))])
    faults = []
    for _ in range(rng.randint(4, 24)):
        i = rng.randrange(len(types))
        n = len(mems[i])
        k = rng.choice(["flip", "flip", "flip2", "torn", "overwrite", "zero", "ones", "dup", "rand"])
        faults.append([i, rng.randrange(n), k, rng.randrange(1 << 30), rng.randrange(1 << 30)])
    return dict(types=types, mems=mems, faults=faults, full=rng.random() < 0.35)


def execute(plan, ctx):
    from peak.assembler import AssembledADT as V1
    from peak.assembler2.assembled_adt import AssembledADT as V2
    A1, A2 = isa.assemblers()
    types = adt.Types()
    seen = {}

    def examine(i, word, intact=None):
        t = plan["types"][i]
        T = types.build(t)
        w = adt.width(t)
        key = (i, word)
        if key not in seen:
            seen[key] = story(ctx, types, t, T, w, word, A1, A2, V1, V2)
        val = seen[key]
        if intact is not None:
            ctx.check(val is not None, "own-encoding-invalid",
                      lambda: f"{t}: encoding {word} of {intact} is reported invalid")
            ctx.check(val == intact, "roundtrip", lambda: f"{t}: {intact} encoded as {word} decodes to {val}")
        return val

    def decode(i, word):
        return examine(i, word)

    mems = []
    for i, (t, mem) in enumerate(zip(plan["types"], plan["mems"])):
        T = types.build(t)
        w = adt.width(t)
        a1, a2 = A1(T), A2(T)
        ctx.check(a1.width == a2.width, "assemblers-disagree", lambda: f"{t}: widths {a1.width} {a2.width}")
        if a1.width != w:
            # the packed width is part of the documented layout
            ctx.fail("width", f"{t}: width {a1.width}, expected {w}")
        cells = []
        for v in mem:
            o = types.value(t, v)
            e1, e2 = a1.assemble(o, BitVector), a2.assemble(o, BitVector)
            ctx.check(e1.size == w and e2.size == w, "width", lambda: f"{t}: {v}: encodings of size {e1.size}, {e2.size}")
            ctx.check(e1.as_uint() == e2.as_uint(), "assemblers-disagree",
                      lambda: f"{t}: {v} -> {e1} and {e2}")
            for A in (a1, a2) if not adt.has_zero(t) else ():
                es = A.assemble(o, SMTBitVector)
                ctx.check(isa.smt_const(es) == e1.as_uint(), "assemblers-disagree",
                          lambda: f"{t}: {v} -> {e1}, symbolically {es}")
            word = e1.as_uint()
            examine(i, word, v)
            cells.append(word)
        mems.append(cells)

    for i, c, kind, r1, r2 in plan["faults"]:
        t = plan["types"][i]
        w = adt.width(t)
        if w == 0 or not mems[i]:
            continue
        cells = mems[i]
        c %= len(cells)
        x = cells[c]
        if kind == "flip":
            x ^= 1 << (r1 % w)
        elif kind == "flip2":
            x ^= (1 << (r1 % w)) | (1 << (r2 % w))
        elif kind == "torn":
            cut = r1 % (w + 1)
            o = cells[r2 % len(cells)]
            m = (1 << cut) - 1
            x = (x & ~m) | (o & m)
        elif kind == "overwrite":
            lo = r1 % w
            n = 1 + r2 % (w - lo)
            m = ((1 << n) - 1) << lo
            x = (x & ~m) | ((r2 << lo) & m)
        elif kind == "zero":
            x = 0
        elif kind == "ones":
            x = (1 << w) - 1
        elif kind == "dup":
            x = cells[r1 % len(cells)]
        else:
            x = r1 & ((1 << w) - 1)
        ctx.fault("word:" + kind)
        cells[c] = x
        val = examine(i, x)
        ctx.probe("damaged_valid" if val is not None else "damaged_invalid")
        ctx.steps += 1
        ctx.cover.add(f"{t[0]}:{kind}:{'v' if val is not None else 'i'}:{w}")
        if val is not None:
            significant(ctx, types, t, A1, x, val, lambda wd: decode(i, wd))
    # a long enough life damages a small word into every possible word
    for i, t in enumerate(plan["types"]):
        w = adt.width(t)
        if plan["full"] and w <= FULL:
            nvalid = 0
            for x in range(1 << w):
                val = examine(i, x)
                nvalid += val is not None
            if adt.count(t) <= 600:
                expect = 0
                T = types.build(t)
                for v in adt.all_values(t):
                    e = A1(T).assemble(types.value(t, v), BitVector).as_uint()
                    got = examine(i, e, v)
                    expect += 1 << (w - adt.used_bits(t, v))
                ctx.check(nvalid == expect, "valid-set",
                          lambda: f"{t}: {nvalid} words are reported valid, {expect} are encodings (up to padding)")
            ctx.fault("word:all", 1 << w)
            ctx.probe("exhausted_words", 1 << w)
        # tags
        if t[0] in ("sum", "tu"):
            tag_story(ctx, types, t, A1(types.build(t)))
    ctx.nontrivial = any(adt.width(t) for t in plan["types"]) and bool(plan["faults"])


def story(ctx, types, t, T, w, word, A1, A2, V1, V2):
    """Everything said about one word, cross-checked.  Returns the decoded value or None."""
    bv = BitVector[w](word)
    sym = not adt.has_zero(t)
    smt = SMTBitVector[w](word) if sym else None
    a1, a2 = A1(T), A2(T)
    v1 = bool(a1.is_valid(bv))
    answers = dict(asm2=bool(a2.is_valid(bv)))
    if sym:
        answers["smt1"] = bool(isa.smt_const(a1.is_valid(smt)))
        answers["smt2"] = bool(isa.smt_const(a2.is_valid(smt)))
    if t[0] not in ("bv", "bit", "sbv", "ubv"):
        answers["view1"] = bool(V1[T, A1, BitVector]._is_valid_(bv))
        answers["view2"] = bool(V2[T, A2, BitVector]._is_valid_(bv))
        if sym:
            answers["symview1"] = bool(isa.smt_const(V1[T, A1, SMTBitVector]._is_valid_(smt)))
            answers["symview2"] = bool(isa.smt_const(V2[T, A2, SMTBitVector]._is_valid_(smt)))
    for k, x in answers.items():
        ctx.check(x == v1, "validity-disagrees", lambda: f"{t}: word {word}: first assembler says {v1}, {k} says {x}")
    try:
        obj = a1.disassemble(bv)
        err = None
    except Exception as e:
        obj, err = None, e
    if not v1:
        ctx.check(err is not None, "invalid-decoded", lambda: f"{t}: word {word} is reported invalid but decodes to {obj!r}")
        ctx.check(isinstance(err, ValueError), "refusal",
                  lambda: f"{t}: invalid word {word} is refused with {brief(err)} instead of ValueError")
        ctx.ev("invalid", w, word)
        return None
    ctx.check(err is None, "valid-refused", lambda: f"{t}: word {word} is reported valid but decoding fails: {brief(err)}")
    val = types.read(t, obj)
    try:
        obj2 = a2.disassemble(bv)
    except Exception as e:
        ctx.fail("valid-refused", f"{t}: word {word} is reported valid but the second assembler fails: {brief(e)}")
    val2 = types.read(t, obj2)
    ctx.check(val == val2, "assemblers-disagree", lambda: f"{t}: word {word} decodes to {val} and {val2}")
    ctx.ev("valid", w, word, val)
    raw_story(ctx, types, t, T, w, word, bv, smt, val, a1, a2)
    # the views at the top level: which option, which field values
    for V, A in ((V1, A1), (V2, A2)):
        for bvt, x, rd in ((BitVector, bv, lambda z: int(z)), (SMTBitVector, smt, isa.smt_const)):
            if x is None:
                continue
            if t[0] in ("bv", "bit", "sbv", "ubv", "enum"):
                continue
            view_story(ctx, types, t, T, V[T, A, bvt](x), val, rd, word, f"{V.__module__} {bvt.__name__}")
    return val


def raw_story(ctx, types, t, T, w, word, bv, smt, val, a1, a2):
    """What the assemblers themselves say about the parts of a valid word."""
    k = t[0]
    if k == "enum":
        for m in T.enumerate():
            got = int(bool(a2.match(bv, m)))
            ctx.check(got == int(m.name == val), "match", lambda: f"{t}: word {word} decodes to {val}, match of {m.name} is {got}")
        return
    ks = isa.keys(types, t)
    sub = a1.sub
    if k in ("sum", "tu"):
        tag = a1.disassemble_tag(bv[sub.tag_idx])
        for key, i, x in ks:
            hit = val[0] == i
            ctx.check(bool(tag == key) == hit, "match", lambda: f"{t}: word {word} decodes to {val}, its tag to {tag!r}")
            answers = dict(match=int(bool(a2.match(bv, key))))
            if smt is not None:
                answers["symbolic match"] = isa.smt_const(a2.match(smt, key))
            for who, got in answers.items():
                ctx.check(got == int(hit), "match", lambda: f"{t}: word {word} decodes to {val}, {who} of {key} is {got}")
        if k == "tu":
            for X in {types.build(x) for key, i, x in ks}:
                hit = any(val[0] == i and types.build(x) is X for key, i, x in ks)
                got = int(bool(a2.match(bv, X)))
                ctx.check(got == int(hit), "match", lambda: f"{t}: word {word} decodes to {val}, match of type {X} is {got}")
    for key, i, x in ks:
        if k in ("sum", "tu") and val[0] != i:
            continue
        X = types.build(x)
        want = val[1] if k in ("sum", "tu") else val[i]
        asked = [("sub", lambda: bv[sub[key].idx]), ("extract", lambda: a2.extract(bv, key))]
        if k == "prod":
            asked.append(("extract by position", lambda: a2.extract(bv, i)))
        if k == "tu":
            asked.append(("extract by type", lambda: a2.extract(bv, X)))
        for who, f in asked:
            part = f()
            for B in (type(a1)(X), type(a2)(X)):
                got = types.read(x, B.disassemble(part))
                ctx.check(got == want, "extract", lambda: f"{t}: word {word} decodes to {val}, {who} of {key} gives {got}")


def view_story(ctx, types, t, T, view, val, rd, word, who):
    k = t[0]
    for key, i, x in isa.keys(types, t):
        f = getattr(view, key) if isinstance(key, str) else view[key]
        if k in ("sum", "tu"):
            m = rd(f.match)
            ctx.check(m == int(val[0] == i), "view-match",
                      lambda: f"{t}: word {word} decodes to {val} but the {who} view's match for option {key} is {m}")
            if val[0] != i:
                continue
            f, want = f.value, val[1]
        else:
            want = val[i]
        leaf(ctx, types, x, f, want, rd, f"{t}: word {word}, {who} view, field {key}", {})


def leaf(ctx, types, t, f, want, rd, where, memo):
    """Compare a view field with the abstract value, recursively."""
    k = t[0]
    if k in ("bv", "sbv", "ubv"):
        got = rd(f) % (1 << t[1])
        ctx.check(got == want, "view-field", lambda: f"{where}: {got}, decoded {want}")
    elif k == "bit":
        got = rd(f)
        ctx.check(got == want, "view-field", lambda: f"{where}: {got}, decoded {want}")
    elif k == "enum":
        got = rd(f == getattr(types.build(t), want))
        ctx.check(got == 1, "view-field", lambda: f"{where}: not equal to {want}")
    else:
        for key, i, x in isa.keys(types, t):
            g = getattr(f, key) if isinstance(key, str) else f[key]
            if k in ("sum", "tu"):
                m = rd(g.match)
                ctx.check(m == int(want[0] == i), "view-match", lambda: f"{where}.{key}: match {m}, decoded {want}")
                if want[0] != i:
                    continue
                leaf(ctx, types, x, g.value, want[1], rd, f"{where}.{key}", memo)
            else:
                leaf(ctx, types, x, g, want[i], rd, f"{where}.{key}", memo)


def significant(ctx, types, t, A1, word, val, decode):
    """encode(decode(word)) equals word wherever a bit matters."""
    T = types.build(t)
    e = A1(T).assemble(types.value(t, val), BitVector).as_uint()
    if e == word:
        return
    diff = e ^ word
    b = 0
    while diff >> b:
        if diff >> b & 1:
            other = decode(word ^ (1 << b))
            ctx.check(other == val, "reencode",
                      lambda: f"{t}: word {word} decodes to {val}, which encodes as {e}; bit {b} differs and is not padding "
                              f"(flipped it decodes to {other})")
        b += 1
    ctx.check(decode(e) == val, "reencode", lambda: f"{t}: word {word} decodes to {val} which encodes as {e}, which decodes differently")


def tag_story(ctx, types, t, a):
    tw = a.tag_width
    ks = isa.keys(types, t)
    enc = {}
    for key, i, x in ks:
        tag = a.assemble_tag(key, BitVector)
        ctx.check(tag.size == tw, "tag-width", lambda: f"{t}: tag of {key} has size {tag.size}, tag width {tw}")
        ctx.check(tag.as_uint() not in enc, "tag-unique", lambda: f"{t}: two options share tag {tag}")
        enc[tag.as_uint()] = key
        ctx.check(tw == 0 or isa.smt_const(a.assemble_tag(key, SMTBitVector)) == tag.as_uint(), "assemblers-disagree",
                  lambda: f"{t}: symbolic tag of {key} differs")
    for tag in range(1 << tw):
        bv = BitVector[tw](tag)
        v = bool(a.is_valid_tag(bv))
        vs = bool(isa.smt_const(a.is_valid_tag(SMTBitVector[tw](tag)))) if tw else v
        ctx.check(v == (tag in enc) == vs, "tag-validity", lambda: f"{t}: tag {tag} valid={v}, symbolically {vs}, assigned={tag in enc}")
        try:
            got = a.disassemble_tag(bv)
            err = None
        except Exception as e:
            got, err = None, e
        if v:
            ctx.check(err is None and got == enc[tag], "tag-decode", lambda: f"{t}: tag {tag} decodes to {got!r} / {err!r}, assigned to {enc[tag]!r}")
        else:
            ctx.check(isinstance(err, ValueError), "tag-refusal",
                      lambda: f"{t}: invalid tag {tag}: {got!r} / {err!r} instead of ValueError")
            ctx.fault("tag:invalid")
