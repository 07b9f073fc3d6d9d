"""C17: multi-instruction mapping.  Oracle: exhaustive search over wirings and
instructions on an integer model of both designs."""
import itertools

from sim import mapping, maprun, solver
from sim.core import HarnessError

LIMIT = 800_000


def setup():
    solver.install()


# ------------------------------------------------------------- problems
def gen_arch(rng):
    for _ in range(200):
        spec = mapping.gen_problem(rng, ir_const=0, inner_const=0, boxes=0.12, datas=(1, 2), multi_out=0.25)
        a = spec["arch"]
        consts = [i for i in a["ins"] if i[2]]
        if len(consts) != 1 or spec["w"] > 2 or any(not i[2] and i[1][0] not in mapping.LEAF for i in a["ins"]):
            continue
        if instr_count(consts[0][1]) > 40:
            continue
        return spec
    raise HarnessError("no architecture")


def gen_thin(rng):
    """Few operations and instructions that do one thing each."""
    w = rng.choice([1, 1, 2])
    A, B, one = ["in", ["a"]], ["in", ["b"]], ["k", 1]
    ops = rng.sample([["inv", A], ["and", A, B], ["or", A, B], ["xor", A, B], ["add", A, B], ["add", A, one],
                      ["and", ["inv", A], B], A], rng.choice([2, 3, 3]))
    if all(("b",) in mapping.mentions(op) for op in ops):
        ops[0] = ["inv", A]
    if all(("b",) not in mapping.mentions(op) for op in ops):
        ops[1] = ["or", A, B]
    if len(ops) == 2:
        body = ["mux", ["is", ["inst", "op"], "a"], ops[0], ops[1]]
        en = "E2"
    else:
        body = ["mux", ["is", ["inst", "op"], "x"], ops[0], ["mux", ["is", ["inst", "op"], "y"], ops[1], ops[2]]]
        en = "F3"
    ins = [["inst", ["prod", [["op", ["enum", en]]]], True], ["a", ["bv", w], False], ["b", ["bv", w], False]]
    rng.shuffle(ins)
    return dict(w=w, arch=dict(ins=ins, outs=[["o0", ["bv", w]]], body=[body], calls=[]), boxes={}, ops=ops)


def instr_count(t):
    if t[0] in mapping.LEAF:
        return mapping.domain(t)
    n = [instr_count(s) for p, s in mapping.parts(t)]
    if t[0] in ("sum", "tu"):
        return sum(n)
    out = 1
    for x in n:
        out *= x
    return out


def instrs(t, path):
    """All values of an instruction type: ({leaf: value}, {sum path: alternative})."""
    if t[0] in mapping.LEAF:
        for v in range(mapping.domain(t)):
            yield {path: v}, {}
    elif t[0] in ("sum", "tu"):
        for p, s in mapping.parts(t):
            for vals, ch in instrs(s, path + (p,)):
                yield vals, {path: p, **ch}
    else:
        for combo in itertools.product(*[list(instrs(s, path + (p,))) for p, s in mapping.parts(t)]):
            yield {k: v for vals, ch in combo for k, v in vals.items()}, {k: v for vals, ch in combo for k, v in ch.items()}


def gen_multi(rng):
    # a chain of three where the last reads the first as well as the second
    skip = rng.random() < 0.07
    spec = gen_thin(rng) if skip else gen_arch(rng)
    arch = spec["arch"]
    N = 3 if skip else rng.choice([1, 2, 2, 2, 3]) if len([i for i in arch["ins"] if not i[2]]) < 3 else rng.choice([1, 2])
    const = next(i for i in arch["ins"] if i[2])
    data = [i for i in arch["ins"] if not i[2]]
    # an ir instruction made of N instructions
    irins, blocks, calls = [], [], []
    side = mapping.Side(mapping.Problem0(spec["w"], spec["boxes"]), arch, "x")
    pool = list(instrs(const[1], (const[0],)))
    flip = rng.randrange(2)
    for i in range(N):
        vals, choices = rng.choice(pool)
        if skip and rng.random() < 0.9:
            k = rng.choice([n for n, op in enumerate(spec["ops"]) if (("b",) not in mapping.mentions(op)) == (i < 2)])
            vals, choices = next(x for x in pool if x[0]["inst", "op"] == k)
        idx = {p: [q for q, s in mapping.parts(side.type_at(p))].index(v) for p, v in choices.items()}
        sub = {}
        for p, t, c in side.leaves:
            if c:
                v = vals.get(p, 0)
                sub[p] = ["member", mapping.MEMBERS[t[1]][v]] if t[0] == "enum" else ["k", v]
        for n, t, c in data:
            slot = int(n == "b")
            prev = [e for b in blocks for e, (o, ot) in zip(b, arch["outs"]) if ot == t]
            last = [e for e, (o, ot) in zip(blocks[-1], arch["outs"]) if ot == t] if blocks else []
            c = rng.random()
            if t[0] == "enum":
                if len(irins) < (2 if skip else 3) and c < 0.6:
                    irins.append([["x", "y", "z"][len(irins)], t, False])
                    sub[(n,)] = ["en", [irins[-1][0]]]
                else:
                    sub[(n,)] = ["member", rng.choice(mapping.MEMBERS[t[1]])]
            elif skip and i == 2:
                sub[(n,)] = blocks[(slot + flip) % 2][0]
            elif skip and i == 0 and slot == 1 and rng.random() < 0.8:
                sub[(n,)] = ["k", 0]
            elif skip and i == 1 and len(irins) < 2 and slot == 0 and c < 0.85:
                irins.append([["x", "y", "z"][len(irins)], t, False])
                sub[(n,)] = ["in", [irins[-1][0]]]
            elif last and c < 0.6:
                sub[(n,)] = rng.choice(last)
            elif prev and c < 0.7:
                sub[(n,)] = rng.choice(prev)
            elif len(irins) < (2 if skip else 3) and c < 0.95:
                irins.append([["x", "y", "z"][len(irins)], t, False])
                sub[(n,)] = ["in", [irins[-1][0]]]
            else:
                sub[(n,)] = ["k", rng.randrange(mapping.domain(t))]
        off = len(calls)
        calls += [[b, [shift(mapping.specialise(shift(a, off), sub, idx), 0) for a in args]] for b, args in arch["calls"]]
        blocks.append([mapping.specialise(shift(e, off), sub, idx) for e in arch["body"]])
    if not irins:
        irins.append(["x", data[0][1] if data else ["bv", spec["w"]], False])
    pick = rng.sample(range(len(arch["outs"])), rng.choice([1, 1, len(arch["outs"])]))
    body = [blocks[-1][j] for j in pick]
    named = arch["outs"][0][0] is not None
    iouts = [[f"r{n}" if named else None, arch["outs"][j][1]] for n, j in enumerate(pick)]
    g = dict(w=spec["w"], leaves=[((n,), t) for n, t, c in irins], calls=[spec["boxes"][b]["outs"] for b, a in calls])
    c = rng.random()
    if c < 0.2:
        j = rng.randrange(len(body))
        body[j] = [rng.choice(["xor", "and", "or"]), body[j], mapping.gen_expr(rng, g, mapping.kind(iouts[j][1]), 1)]
    elif c < 0.3:
        body = [mapping.gen_expr(rng, g, mapping.kind(t), 2) for n, t in iouts]
    if any(size(e) > 400 for e in body) or any(size(a) > 400 for b, args in calls for a in args):
        return gen_multi(rng)
    body = [mapping.disguise(rng, e) for e in body]
    # keep the calls that matter
    need, todo = set(), [i for e in body for i in mapping.bbs_of(e)]
    while todo:
        i = todo.pop()
        if i not in need:
            need.add(i)
            todo += [j for a in calls[i][1] for j in mapping.bbs_of(a)]
    keep = sorted(need)
    ren = {o: n for n, o in enumerate(keep)}
    calls = [[calls[o][0], [mapping.rename_bb(a, ren) for a in calls[o][1]]] for o in keep]
    body = [mapping.rename_bb(e, ren) for e in body]
    ir = dict(ins=irins, outs=iouts, body=body, calls=calls)
    return dict(spec=dict(spec, ir=ir), N=N)


def size(e):
    return 1 + sum(size(x) for x in e if isinstance(x, list) and x and isinstance(x[0], str))


def shift(e, off):
    if e[0] == "bb":
        return ["bb", e[1] + off, e[2]]
    if e[0] in ("in", "is", "k"):
        return e
    if e[0] == "case":
        return ["case", e[1], [shift(x, off) for x in e[2]]]
    return [shift(x, off) if isinstance(x, list) else x for x in e]


def generate(rng, tier):
    plan = gen_multi(rng)
    plan["N"] = N = plan["N"] if rng.random() < 0.8 else rng.choice([1, 2])
    solves = []
    slow = N == 3
    for _ in range(1 if slow else rng.choice([1, 2, 2])):
        runs = []
        for _ in range(1 if slow else rng.choice([1, 2, 3])):
            runs.append(dict(seed=rng.randrange(1 << 30), style=rng.choice(["mix", "rand", "zeros", "ones", "sparse"]),
                             limit=rng.choice([0, 1, 2, 400, 400, 400]),
                             faults=[[rng.randint(1, 6), rng.choice(["unknown", "crash", "memout", "interrupt"])]] if rng.random() < 0.2 else []))
        solves.append(dict(ivar=rng.choice(maprun.IVARS), real=rng.random() < 0.5, runs=runs))
    return dict(plan, solves=solves)


# ------------------------------------------------------------- the oracle
class Multi:
    def __init__(self, prob, N):
        self.prob, self.N = prob, N
        A, I = prob.arch, prob.ir
        self.const = next(n for n, t, c in A.ins if c)
        self.data = [(n, t) for n, t, c in A.ins if not c]
        self.irl = [(p[0], t) for p, t, c in I.leaves]
        self.pool = list(instrs(dict((n, t) for n, t, c in A.ins)[self.const], (self.const,)))
        self.vectors = [A.vector(vals, choices) for vals, choices in self.pool]
        self.di = [A.index[(n,)] for n, t in self.data]
        self.ii = [I.index[(n,)] for n, t in self.irl]
        self.ncalls = [b for b, args in A.calls]
        self.icalls = [b for b, args in I.calls]

    def sources(self, i):
        """What input n of instruction i may read, by type."""
        A = self.prob.arch
        src = [(("ir", j), t) for j, (n, t) in enumerate(self.irl)]
        for k in range(i):
            src += [(("out", k, o), t) for o, (n, t) in enumerate(A.outs)]
        return src

    def wirings(self):
        per = []
        for i in range(self.N):
            src = self.sources(i)
            per += [[("free",)] + [s for s, t in src if t == dt] for n, dt in self.data]
        nd = len(self.data)
        for combo in itertools.product(*per):
            used = [s[1] for s in combo if s[0] == "ir"]
            if len(used) == len(set(used)) == len(self.irl):
                yield [combo[i * nd:(i + 1) * nd] for i in range(self.N)]

    def out_bindings(self):
        A, I = self.prob.arch, self.prob.ir
        yield from itertools.product(*[[a for a, (n, t) in enumerate(A.outs) if t == it] for m, it in I.outs])

    def wrong(self, wiring, chosen, outs, spend=None):
        """Inputs for which the chosen sequence does not compute the outputs."""
        prob = self.prob
        A, I = prob.arch, prob.ir
        doms = [range(mapping.domain(t)) for n, t in self.irl]
        free = [(i, j) for i, w in enumerate(wiring) for j, s in enumerate(w) if s[0] == "free"]
        doms += [range(mapping.domain(self.data[j][1])) for i, j in free]
        pos = {x: len(self.irl) + n for n, x in enumerate(free)}
        vecs = [list(self.vectors[c]) for c in chosen]
        iv = [0] * (len(I.leaves) + len(I.tags))
        na = len(self.ncalls)
        boxes = prob.spec["boxes"]
        calls = self.ncalls * self.N + self.icalls
        odoms = [list(itertools.product(*[range(2 if w == 0 else 1 << w) for w in boxes[c]["outs"]])) for c in calls]
        for combo in itertools.product(*doms):
            for k, x in enumerate(self.ii):
                iv[x] = combo[k]
            for os_ in (itertools.product(*odoms) if calls else [()]):
                if spend is not None:
                    spend[0] += 1
                    if spend[0] > LIMIT:
                        raise mapping.Budget()
                results, seen = [], []
                for i, w in enumerate(wiring):
                    v = vecs[i]
                    for j, s in enumerate(w):
                        v[self.di[j]] = combo[pos[i, j]] if s[0] == "free" else combo[s[1]] if s[0] == "ir" else results[s[1]][s[2]]
                    o, ins = A.fn(v, os_[i * na:(i + 1) * na])
                    results.append(o)
                    seen += ins
                io, ins = I.fn(iv, os_[self.N * na:])
                seen += ins
                if any(calls[x] == calls[y] and seen[x] == seen[y] and os_[x] != os_[y] for x in range(len(calls)) for y in range(x)):
                    continue
                if any(io[m] != results[-1][a] for m, a in enumerate(outs)):
                    return combo, io, results
        return None

    def search(self):
        """Some right sequence or None; Budget when undecided."""
        spend = [0]
        obs = list(self.out_bindings())
        if not obs:
            return None
        for wiring in self.wirings():
            for chosen in itertools.product(range(len(self.pool)), repeat=self.N):
                for ob in obs:
                    if self.wrong(wiring, chosen, ob, spend) is None:
                        return wiring, chosen, ob
        return None


def read_solution(m, info):
    """(problem, None) or (None, (wiring, chosen, outs)) of a solution."""
    from peak.mapper.utils import Unbound
    prob = m.prob
    A, I = prob.arch, prob.ir
    names = {n: j for j, (n, t) in enumerate(m.irl)}
    onames = {A.out_path(o)[0]: o for o in range(len(A.outs))}
    if len(info.bindings) != m.N or len(info.instructions) != m.N:
        return f"{len(info.bindings)} bindings and {len(info.instructions)} instructions", None
    wiring, chosen, used = [], [], []
    for i, binding in enumerate(info.bindings):
        got = {}
        for src, dst in binding:
            if dst[:2] != ("Arch_in", i) or dst[2] in got:
                return f"instruction {i} binds {dst}", None
            if src is Unbound:
                s, t = ("free",), None
            elif src[0] == "IR_in":
                s = "ir", names[src[1]]
                used.append(src[1])
                t = m.irl[s[1]][1]
            elif src[0] == "Arch_out" and src[1] < i:
                s = "out", src[1], onames[src[2]]
                t = A.outs[s[2]][1]
            else:
                return f"instruction {i} reads {src}", None
            if t is not None and dict(m.data).get(dst[2]) != t:
                return f"{dst} reads {src} of another type", None
            got[dst[2]] = s
        if set(got) != {n for n, t in m.data}:
            return f"instruction {i} binds {sorted(got)}", None
        wiring.append([got[n] for n, t in m.data])
    if sorted(used) != sorted(names):
        return f"the IR inputs used are {used}", None
    for ins in info.instructions:
        (f, word), = ins.items()
        if f != m.const:
            return f"instruction field {f}", None
        c = decode(m, word)
        if c is None:
            return f"{word!r} is not a valid instruction", None
        chosen.append(c)
    outs = {}
    inames = {I.out_path(o)[0]: o for o in range(len(I.outs))}
    for src, dst in info.output_binding:
        if src[:2] != ("Arch_out", m.N - 1) or dst[0] != "IR_out":
            return f"output binding {src} {dst}", None
        outs[inames[dst[1]]] = onames[src[2]]
    if set(outs) != set(range(len(I.outs))) or any(I.outs[k][1] != A.outs[a][1] for k, a in outs.items()):
        return f"output binding {info.output_binding}", None
    return None, (wiring, chosen, [outs[k] for k in range(len(I.outs))])


def decode(m, word):
    """Number of the instruction a word encodes (unused bits do not matter)."""
    from hwtypes import Bit
    if not hasattr(m, "words"):
        from peak.assembler import Assembler, AssembledADT
        from peak import family
        prob = m.prob
        T = prob.T(dict((n, t) for n, t, c in prob.arch.ins)[m.const])
        m.T, m.leafish = T, dict((n, t) for n, t, c in prob.arch.ins)[m.const]
        if m.leafish[0] in ("bit", "bv", "s"):
            m.words = None
        else:
            m.aadt = AssembledADT[T, Assembler, family.PyFamily().BitVector]
            m.words = True
    if m.words is None:
        return int(word)
    view = m.aadt(word)
    for n, (vals, choices) in enumerate(m.pool):
        if matches(m.prob, view, m.leafish, (m.const,), vals, choices):
            return n
    return None


def matches(prob, v, t, path, vals, choices):
    if t[0] in ("bit", "bv", "s"):
        return int(v) == vals[path]
    if t[0] == "enum":
        return bool(v == getattr(mapping.ENUMS[t[1]], mapping.MEMBERS[t[1]][vals[path]]))
    if t[0] in ("sum", "tu"):
        q = choices[path]
        s = mapping.child(t, q)
        part = v[prob.T(s)] if t[0] == "sum" else getattr(v, q)
        return bool(part.match) and matches(prob, part.value, s, path + (q,), vals, choices)
    return all(matches(prob, getattr(v, p) if t[0] == "prod" else v[p], s, path + (p,), vals, choices) for p, s in mapping.parts(t))


def execute(plan, ctx):
    # problems that need a chain are small, but refuting one takes many queries
    more = 2 if plan["spec"].get("ops") else 1
    solver.MAX_MADE = 700 * more
    import contextlib
    import io
    from peak.mapper.mapper import LoopException
    from peak.mapper.multi import Multi as RealMulti
    prob = mapping.Problem(plan["spec"])
    m = Multi(prob, plan["N"])
    cap = 900 if plan["spec"].get("ops") else 300
    count = sum(1 for _ in itertools.islice(m.wirings(), cap))
    if count >= cap:
        ctx.probe("too many wirings")
        return
    try:
        some = m.search()
        known = True
    except mapping.Budget:
        some, known = None, False
        ctx.probe("undecided")
    ctx.ev("exists", bool(some), known, count)
    for sv in plan["solves"]:
        solver.CONTROL.reset(ctx, plan["seed"])
        what0 = f"N={plan['N']} {sv['ivar']} use_real={sv['real']}"
        try:
            solve = RealMulti(prob.arch.closure(), prob.ir.closure(), plan["N"], IVar=maprun.ivar(sv["ivar"]), use_real=sv["real"])
        except ValueError as e:
            if "indings" not in str(e):
                raise
            ctx.check(count == 0 or not list(m.out_bindings()), "false-none", lambda: f"{what0}: {e}, but there are {count} wirings")
            ctx.ev("no bindings")
            continue
        ctx.check(count, "bad-solution", lambda: f"{what0}: bindings found where none exist")
        for run in sv["runs"]:
            ctx.steps += 1
            what = f"{what0} limit={run['limit']} solver seed {run['seed']} {run['style']}"
            for attempt in ("first", "retry"):
                faults, limit = (run["faults"], run["limit"]) if attempt == "first" else ([], 400)
                solver.CONTROL.reset(ctx, run["seed"], run["style"], faults)
                solver.CONTROL.max_queries = 8000
                solver.CONTROL.max_checks = 400 * more
                err = res = None
                try:
                    res = solve(maxloops=limit)
                except BaseException as e:
                    err = e
                fired, queries = solver.CONTROL.fired, solver.CONTROL.query
                ctx.ev(what, attempt, type(err).__name__, res is not None, queries)
                ctx.cover.add(f"{plan['N']}:{sv['ivar']}:{sv['real']}:{count > 5}:{bool(some)}:{type(err).__name__}:{res is not None}:{bool(prob.spec['boxes'])}")
                if fired:
                    ctx.nontrivial = True
                    ctx.check(err is not None, "trouble-hidden", lambda: f"{what}: the solver failed at query {fired}, answer {res}")
                    continue
                if isinstance(err, LoopException):
                    ctx.check(queries >= limit, "limit-too-early", lambda: f"{what}: gave up after {queries} queries")
                    ctx.fault("iteration_limit")
                    if attempt == "first":
                        continue
                    break
                if err is not None:
                    raise err
                if res is None:
                    ctx.probe("none")
                    ctx.nontrivial = ctx.nontrivial or known
                    ctx.check(not some, "false-none", lambda: f"{what}: {attempt}: none reported, but {some} is right")
                    break
                ctx.nontrivial = True
                ctx.probe("found")
                with contextlib.redirect_stdout(io.StringIO()):
                    info = res()
                bad, sol = read_solution(m, info)
                show = f"bindings {info.bindings} instructions {info.instructions} outputs {info.output_binding}"
                ctx.check(bad is None, "bad-solution", lambda: f"{what}: {show}: {bad}")
                ctx.ev(sol)
                ce = m.wrong(*sol)
                ctx.check(ce is None, "wrong-solution", lambda: f"{what}: {show} is wrong at {ce}")
                break
