"""C04: simulated processes with their own iteration orders and definition
orders exchange instruction words.  Every node must publish the same encoding
and decode every word it receives, in any order, after any restart."""
import random

from sim import adt, boot, isa
from sim.core import HarnessError

OPS_T = ["width:1", "width:2", "layout", "tags", "sub", "tagdec"]
OPS_V = ["enc:1", "enc:2", "encsmt:1", "auto", "bitfield", "view:1", "view:2"]


def generate(rng, tier):
    g = adt.Gen(rng, max_width=24, dup_names=rng.choice([0.0, 0.3, 0.6]), zero_ok=True)
    types = [g.type(rng.choice([1, 2, 3, 3]), top=True) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.5:
        # anonymous sums of sums: names of unordered things inside names of unordered things
        opts = []
        for _ in range(rng.randint(2, 4)):
            inner = []
            for _ in range(rng.randint(2, 3)):
                t = g.type(rng.choice([0, 1]), top=rng.random() < 0.6)
                if t[0] not in ("sbv", "ubv") and adt.ident(t) not in [adt.ident(x) for x in inner]:
                    inner.append(t)
            if len(inner) < 2:
                inner = [["bv", 2], ["bit"]]
            o = ["sum", inner] if rng.random() < 0.7 else ["tup", [["sum", inner]]]
            if adt.ident(o) not in [adt.ident(x) for x in opts]:
                opts.append(o)
        if len(opts) > 1:
            types.append(["sum", opts])
    values = [[adt.gen_value(rng, t) for _ in range(5)] for t in types]
    nodes = rng.randint(2, 4)
    orders = [rng.randrange(1 << 30) for _ in range(nodes)]
    msgs = []
    for _ in range(rng.randint(4, 20)):
        i = rng.randrange(len(types))
        msgs.append([rng.randrange(nodes), rng.randrange(nodes), i, rng.randrange(5),
                     rng.choice(["enc:1", "enc:2", "view:1", "view:2"]),
                     rng.choice(["ok", "ok", "dup", "late", "restart", "drop"])])
    return dict(types=types, values=values, orders=orders, msgs=msgs,
                defs=[rng.randrange(1 << 30) for _ in range(nodes)])


def node(plan, order, dseed, work):
    """Body of one simulated process: define the types in its own order, then work."""
    def run():
        boot.set_order(order)
        types = adt.Types()
        rng = random.Random(dseed)
        subs = [s for t in plan["types"] for s in adt.subtypes(t)]
        rng.shuffle(subs)
        A1, A2 = isa.assemblers()
        for s in subs:
            T = types.build(s)
            if rng.random() < 0.3:
                (A1 if rng.random() < 0.5 else A2)(T)
        idx = list(range(len(plan["types"])))
        rng.shuffle(idx)
        return work(types, idx)
    return isa.fork_eval(run)


def publish(plan):
    def work(types, idx):
        out = {}
        for i in idx:
            t, vs = plan["types"][i], plan["values"][i]
            for op in OPS_T:
                out[f"{i}|{op}"] = isa.observe(types, t, [], vs, op)
            for k in range(len(vs)):
                for op in OPS_V:
                    if op == "encsmt:1" and adt.has_zero(t):
                        continue
                    out[f"{i}|{op}|{k}"] = isa.observe(types, t, [], vs, op, k)
        return out
    return work


def receive(plan, inbox):
    def work(types, idx):
        out = []
        for i, word in inbox:
            t = plan["types"][i]
            out.append([isa.observe(types, t, [word], [], "valid:1", 0), isa.observe(types, t, [word], [], "dec:1", 0),
                        isa.observe(types, t, [word], [], "dec:2", 0)])
        return out
    return work


def execute(plan, ctx):
    n = len(plan["orders"])
    tables = []
    for k in range(n):
        tab = node(plan, plan["orders"][k], plan["defs"][k], publish(plan))
        tables.append(tab)
        ctx.fault("node_order")
        ctx.steps += len(tab)
    ref = tables[0]
    for k, tab in enumerate(tables[1:], 1):
        for key in sorted(ref):
            i = int(key.split("|")[0])
            ctx.check(tab[key] == ref[key], "nodes-disagree",
                      lambda: f"{key} of {plan['types'][i]}: {ref[key]!r} in process 0, {tab[key]!r} in process {k}"
                              f" (orders {plan['orders'][0]}, {plan['orders'][k]})")
    inbox = [[] for _ in range(n)]
    want = [[] for _ in range(n)]
    late = []
    restarts = set()
    for src, dst, i, vi, how, fate in plan["msgs"]:
        if src >= n or dst >= n or vi >= len(plan["values"][i]):
            continue
        word = tables[src][f"{i}|{how}|{vi}"]
        if isinstance(word, str):
            # zero-width parts cannot be built through views
            ctx.probe("unbuildable:" + how)
            ctx.check(adt.has_zero(plan["types"][i]), "unbuildable",
                      lambda: f"{how} of {plan['values'][i][vi]} of {plan['types'][i]}: {word}")
            continue
        if isinstance(word, list):
            word = word[1]
        item = (dst, i, word, plan["values"][i][vi])
        ctx.fault("net:" + fate)
        if fate == "drop":
            continue
        if fate == "late":
            late.append(item)
            continue
        if fate == "restart":
            restarts.add(dst)
        for _ in range(2 if fate == "dup" else 1):
            inbox[dst].append([i, word])
            want[dst].append(item[3])
    for dst, i, word, v in reversed(late):
        inbox[dst].append([i, word])
        want[dst].append(v)
    for k in range(n):
        if not inbox[k]:
            continue
        order = plan["orders"][k]
        dseed = plan["defs"][k]
        if k in restarts:
            order, dseed = (order or 0) + 1, dseed + 1
        got = node(plan, order, dseed, receive(plan, inbox[k]))
        for (i, word), v, (ok, d1, d2) in zip(inbox[k], want[k], got):
            ctx.ev("recv", k, i, word, ok, d1, d2)
            ctx.check(ok == 1, "rejected", lambda: f"process {k} rejects word {word} of {plan['types'][i]} ({v})")
            ctx.check(d1 == v and d2 == v, "decoded-differently",
                      lambda: f"process {k} decodes word {word} of {plan['types'][i]} as {d1} / {d2}, sent as {v}")
        ctx.steps += len(got)
    # last, because its iteration orders are those of this host
    ctx.fault("node_native_order")
    native = node(plan, None, plan["defs"][0], publish(plan))
    for key in sorted(ref):
        ctx.check(native[key] == ref[key], "nodes-disagree",
                  lambda: f"{key} of {plan['types'][int(key.split('|')[0])]}: {ref[key]!r} in process 0, {native[key]!r} with native order")
    ctx.table = native
    for t in plan["types"]:
        ctx.cover.add(f"{t[0]}:{len(adt.subtypes(t))}:{adt.width(t)}")
    ctx.nontrivial = any(s[0] in ("sum", "tu", "enum") for t in plan["types"] for s in adt.subtypes(t))
