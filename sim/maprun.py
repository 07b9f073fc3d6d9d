"""Running the real mapper on a mapping problem and reading its rules."""
from hwtypes import AbstractBit, AbstractBitVector, Bit, BitVector

from . import mapping, solver
from .core import HarnessError

ARCHS = {}
IVARS = ("OneHot", "Binary")


def ivar(name):
    from peak.mapper import index_var
    return getattr(index_var, name)


def mappers(prob, cfg, constraints=None):
    from peak.mapper import ArchMapper
    kw = {} if constraints is None else dict(path_constraints=constraints)
    if mapping.SHARED is not None:
        key = (id(prob.arch), cfg["ivar"], repr(constraints))
        if key not in ARCHS:
            ARCHS[key] = ArchMapper(prob.arch.closure(), IVar=ivar(cfg["ivar"]), **kw)
        am = ARCHS[key]
        im = am.process_ir_instruction(prob.ir.closure(), simple_formula=cfg["simple"])
        for spec in prob.arch.prob.mates:
            if spec["ir"] != prob.spec["ir"]:
                am.process_ir_instruction(mapping.Problem(spec).ir.closure(), simple_formula=cfg["simple"])
                break
        return am, im
    am = ArchMapper(prob.arch.closure(), IVar=ivar(cfg["ivar"]), **kw)
    return am, am.process_ir_instruction(prob.ir.closure(), simple_formula=cfg["simple"])


def read_rule(prob, rr, constrained=()):
    """(problem, None) or (None, (choices, binding, obinding)) of a rule."""
    from peak.mapper.utils import Unbound
    A, I = prob.arch, prob.ir
    rev = {A.real_path(p): p for p, t, c in A.leaves}
    irev = {I.real_path(p): p for p, t, c in I.leaves}
    binding, seen = {}, {}
    for ip, ap in rr.ibinding:
        p = rev.get(tuple(ap))
        if p is None:
            return f"binds an unknown architecture input {ap}", None
        if p in binding:
            return f"binds {ap} twice", None
        t = A.leaf_t[p]
        if ip is Unbound:
            if A.const[p]:
                return f"leaves the constant input {ap} without a value", None
            binding[p] = ("free",)
        elif isinstance(ip, tuple):
            q = irev.get(ip)
            if q is None:
                return f"binds an unknown IR input {ip}", None
            if q in seen:
                return f"binds IR input {ip} twice", None
            seen[q] = p
            if not prob.same_type(q, p):
                return f"binds IR input {ip} to {ap} of another type", None
            if p in constrained:
                return f"binds IR input {ip} to the restricted {ap}", None
            binding[p] = ("ir", q)
        else:
            if not isinstance(ip, (AbstractBit, AbstractBitVector)):
                return f"value of {ap} is {ip!r}", None
            w = prob.word_width(t)
            if (t[0] == "bit") != isinstance(ip, AbstractBit) or (t[0] != "bit" and ip.size != w):
                return f"value of {ap} is {ip!r}, not {w} bits", None
            v = prob.decode(t, int(ip))
            if v is None:
                return f"value {ip!r} of {ap} is not a valid instruction word", None
            if not A.const[p] and p not in constrained:
                return f"fixes the run-time input {ap} to {ip!r}", None
            binding[p] = ("k", v)
    form = next((f for f in A.forms if {p for p, t in f[0]} == set(binding)), None)
    if form is None:
        return f"its architecture inputs {sorted(map(str, binding))} are not those of one instruction form", None
    missing = [p for p, t, c in I.leaves if p not in seen]
    if missing:
        return f"IR inputs {missing} are not bound", None
    onames = {A.out_path(i): i for i in range(len(A.outs))}
    inames = {I.out_path(i): i for i in range(len(I.outs))}
    ob, aseen = [], set()
    for ip, ap in rr.obinding:
        if tuple(ap) not in onames or ap in aseen:
            return f"architecture output {ap} unknown or bound twice", None
        aseen.add(ap)
        if ip is Unbound:
            continue
        if ip not in inames:
            return f"unknown IR output {ip}", None
        if I.outs[inames[ip]][1] != A.outs[onames[ap]][1]:
            return f"binds IR output {ip} to {ap} of another type", None
        ob.append((inames[ip], onames[ap]))
    if sorted(i for i, a in ob) != list(range(len(I.outs))):
        return f"IR outputs bound: {ob}", None
    return None, (form[1], binding, sorted(ob))


def run_rule(prob, rr, binding, ob, rng, fam, n=4, allowed=None):
    """Run both real designs on inputs built by the rule; returns a list of
    disagreements (description) or None."""
    A, I = prob.arch, prob.ir
    for _ in range(n):
        irv = {p: rng.randrange(_dom(t)) for p, t, c in I.leaves}
        frv = {p: rng.choice(allowed[p]) if allowed and p in allowed else rng.randrange(_dom(A.leaf_t[p]))
               for p, b in binding.items() if b[0] == "free"}
        ii, ai = rr.build_inputs({I.real_path(p): word(prob, I.leaf_t[p], v) for p, v in irv.items()},
                                 {A.real_path(p): word(prob, A.leaf_t[p], v) for p, v in frv.items()}, fam)
        io = I.closure()(fam)()(**ii)
        ao = A.closure()(fam)()(**ai)
        io = io if isinstance(io, tuple) else (io,)
        ao = ao if isinstance(ao, tuple) else (ao,)
        for i, a in ob:
            if int(io[i]) != int(ao[a]):
                return f"at {irv} {frv}: IR output {i} is {io[i]!r}, architecture output {a} is {ao[a]!r}"
    return None


def word(prob, t, v):
    if t[0] == "bit":
        return Bit(v)
    return BitVector[prob.word_width(t)](prob.encode(t, v))


def _dom(t):
    from .mapping import domain
    return domain(t)


def show(rr):
    return f"ibinding {rr.ibinding} obinding {rr.obinding}" if rr is not None else "None"
