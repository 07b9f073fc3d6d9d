"""Everything a user can observe about the encoding of one instruction type."""
import warnings

from hwtypes import BitVector, SMTBitVector

from . import adt
from .core import HarnessError


def assemblers():
    from peak.assembler import Assembler as A1
    from peak.assembler2.assembler import Assembler as A2
    return A1, A2


def safe(fn):
    try:
        return fn()
    except HarnessError:
        raise
    except Exception as e:
        return "!" + type(e).__name__


def smt_const(x):
    """Value of a constant SMT bit / bit-vector term as int."""
    v = x.value.simplify()
    if not v.is_constant():
        raise TypeError(f"not a constant: {v}")
    return int(v.constant_value())


def read_any(types, t, obj):
    return types.read(t, obj)


def keys(types, t):
    """The keys under which an assembler addresses the parts of type t,
    with the position of each part in the schema."""
    k = t[0]
    if k == "prod":
        return [(f, i, x) for i, (f, x) in enumerate(t[2])]
    if k == "tup":
        return [(i, i, x) for i, x in enumerate(t[1])]
    if k == "tu":
        return [(f, i, x) for i, (f, x) in enumerate(t[2])]
    if k == "sum":
        return [(types.build(x), i, x) for i, x in enumerate(t[1])]
    return []


def observe(types, t, words, values, op, arg=None):
    """One observation; JSON result.  `op` names it."""
    A1, A2 = assemblers()
    T = types.build(t)
    w = adt.width(t)
    kind, _, which = op.partition(":")
    A = A2 if which == "2" else A1
    if kind == "width":
        return safe(lambda: int(A(T).width))
    if kind == "layout":
        def f():
            lay = A1(T).layout
            return [list(lay[k]) for k, i, x in keys(types, t)]
        return safe(f)
    if kind == "enc":
        def f():
            o = A(T).assemble(types.value(t, values[arg]), BitVector)
            return [o.size, o.as_uint()]
        return safe(f)
    if kind == "encsmt":
        def f():
            o = A(T).assemble(types.value(t, values[arg]), SMTBitVector)
            return [o.size, smt_const(o)]
        return safe(f)
    if kind == "dec":
        return safe(lambda: types.read(t, A(T).disassemble(BitVector[w](words[arg]))))
    if kind == "valid":
        return safe(lambda: int(bool(A(T).is_valid(BitVector[w](words[arg])))))
    if kind == "validsmt":
        return safe(lambda: smt_const(A(T).is_valid(SMTBitVector[w](words[arg]))))
    if kind == "tags":
        def f():
            a = A1(T)
            out = [int(a.tag_width), list(a.tag_layout)]
            for k, i, x in keys(types, t):
                out.append(a.assemble_tag(k, BitVector).as_uint())
            return out
        return safe(f)
    if kind == "tagdec":
        def f():
            a = A1(T)
            tw = a.tag_width
            out = []
            names = {k: i for k, i, x in keys(types, t)}
            for tag in range(1 << tw):
                v = int(bool(a.is_valid_tag(BitVector[tw](tag))))
                d = safe(lambda: names[a.disassemble_tag(BitVector[tw](tag))])
                out.append([v, d])
            return out
        return safe(f)
    if kind == "sub":
        def f():
            out = []

            def walk(sub, t, depth):
                out.append([sub.idx.start, sub.idx.stop])
                if t[0] in ("sum", "tu"):
                    out.append([sub.tag_idx.start, sub.tag_idx.stop])
                if depth > 3:
                    return
                for k, i, x in keys(types, t):
                    walk(sub[k], x, depth + 1)
            walk(A1(T).sub, t, 0)
            return out
        return safe(f)
    if kind == "extract":
        def f():
            out = []
            for k, i, x in keys(types, t):
                o = A2(T).extract(BitVector[w](words[arg]), k)
                out.append([o.size, o.as_uint()])
            return out
        return safe(f)
    if kind == "match":
        def f():
            return [int(bool(A2(T).match(BitVector[w](words[arg]), k))) for k, i, x in keys(types, t)]
        return safe(f)
    if kind == "view":
        def f():
            o = build_view(types, t, values[arg], 2 if which == "2" else 1)
            return int(o._to_bitvector_() if hasattr(o, "_to_bitvector_") else o)
        return safe(f)
    if kind == "viewmatch":
        def f():
            from peak.assembler import AssembledADT as V1
            from peak.assembler2.assembled_adt import AssembledADT as V2
            o = (V2 if which == "2" else V1)[T, A, BitVector](BitVector[w](words[arg]))
            out = []
            for k, i, x in keys(types, t):
                g = getattr(o, k) if isinstance(k, str) else o[k]
                if t[0] in ("sum", "tu"):
                    out.append(int(g.match))
                    g = g.value
                out.append(int(g._to_bitvector_() if hasattr(g, "_to_bitvector_") else g))
            return out
        return safe(f)
    if kind == "auto":
        from peak.auto_assembler import generate_assembler
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")

            def f():
                e, d, aw, l = generate_assembler(T)
                v = types.value(t, values[arg])
                o = e(v)
                return [aw, int(o), safe(lambda: types.read(t, d(o)))]
            return safe(f)
    if kind == "bitfield":
        from peak import bitfield

        def f():
            v = types.value(t, values[arg])
            return [bitfield.size(T), int(bitfield.encode(v)), int(bitfield.encode(v, reverse=True))]
        return safe(f)
    raise HarnessError("unknown observation " + op)


def build_view(types, t, v, gen, BV=BitVector):
    """A view of the instruction, built up from its leaves with from_fields."""
    if gen == 1:
        from peak.assembler import AssembledADT as V
    else:
        from peak.assembler2.assembled_adt import AssembledADT as V
    A = assemblers()[gen - 1]

    def go(t, v):
        k = t[0]
        C = V[types.build(t), A, BV]
        if k in ("bv", "sbv", "ubv", "bit"):
            return C(v)
        if k == "enum":
            return C(types.value(t, v))
        if k in ("prod", "tup"):
            return C.from_fields(*[go(x, v[i]) for key, i, x in keys(types, t)])
        key, i, x = keys(types, t)[v[0]]
        if k == "tu":
            return C.from_fields(**{key: go(x, v[1])})
        return C.from_fields(key, go(x, v[1]))
    return go(t, v)


OPS_TYPE = ["width:1", "width:2", "layout", "tags", "tagdec", "sub"]
OPS_VALUE = ["enc:1", "enc:2", "encsmt:1", "encsmt:2", "auto", "bitfield", "view:1", "view:2"]
OPS_WORD = ["dec:1", "dec:2", "valid:1", "valid:2", "validsmt:1", "extract", "match", "viewmatch:1", "viewmatch:2"]


def full_table(types, t, words, values):
    out = {}
    for op in OPS_TYPE:
        out[op] = observe(types, t, words, values, op)
    for op in OPS_VALUE:
        for i in range(len(values)):
            out[f"{op}#{i}"] = observe(types, t, words, values, op, i)
    for op in OPS_WORD:
        for i in range(len(words)):
            out[f"{op}#{i}"] = observe(types, t, words, values, op, i)
    return out


def fork_eval(fn):
    """Run fn in a forked copy of this process (a fresh history) and return its
    JSON result."""
    import json
    import os
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                data = json.dumps(["ok", fn()])
            except BaseException as e:
                import traceback
                from .core import Violation, blame
                from .boot import LIB_ROOTS
                if isinstance(e, Violation):
                    data = json.dumps(["violation", [e.kind, e.msg]])
                elif not isinstance(e, HarnessError) and blame(e, LIB_ROOTS) == "lib":
                    data = json.dumps(["violation", ["unexpected-exception", traceback.format_exc()[-1500:]]])
                else:
                    data = json.dumps(["err", traceback.format_exc()[-1500:]])
            b = data.encode()
            off = 0
            while off < len(b):
                off += os.write(w, b[off:])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not buf:
        raise HarnessError(f"forked evaluation died: wait status {st}")
    st, val = json.loads(buf)
    if st == "violation":
        from .core import Violation
        raise Violation(*val)
    if st == "err":
        raise HarnessError("forked evaluation failed: " + val)
    return val
