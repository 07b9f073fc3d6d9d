#!/usr/bin/env python3
"""vsim: deterministic simulation of cdonovick/peak with fault injection.

  run.py check CXX [--tier quick|thorough] [--seed N] [--runs N] [--budget S]
  run.py replay FILE          re-execute a recorded violation exactly
  run.py selftest [CXX ...]   determinism: every run twice, other hosts, other worker counts
  run.py show CXX RUN         print the plan of a run
"""
import argparse
import collections
import ctypes
import importlib
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import core  # noqa: E402

PY = "/opt/venv/bin/python"
HOSTS = 8
BASE = "/verif" if HERE == "/verif" else HERE


def _no_aslr():
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


class Host:
    """A simulated host: own interpreter, own PYTHONHASHSEED."""

    def __init__(self, cid, host, scratch):
        self.host = host
        self.dir = os.path.join(scratch, f"h{host}")
        os.makedirs(self.dir, exist_ok=True)
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "VSIM_DEBUG", "VSIM_PEAK", "TMPDIR")}
        env["PATH"] = "/opt/venv/bin:" + env.get("PATH", "/usr/bin:/bin")
        env["PYTHONHASHSEED"] = str(host)
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = "1"
        if os.environ.get("VSIM_PEAK"):
            env["PYTHONPATH"] = os.path.dirname(os.environ["VSIM_PEAK"].rstrip("/"))
        self.p = subprocess.Popen([PY, os.path.join(HERE, "sim", "worker.py"), cid, str(host), self.dir],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env,
                                  preexec_fn=_no_aslr, cwd=self.dir)
        self.ready = False

    def wait_ready(self):
        if self.ready:
            return
        line = self.p.stdout.readline()
        msg = json.loads(line) if line else {}
        if not msg.get("ready"):
            raise core.HarnessError(f"host {self.host} did not start: {msg.get('fatal', line)}")
        self.ready = True

    def ask(self, **req):
        self.wait_ready()
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise core.HarnessError(f"host {self.host} died")
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.write('{"quit": true}\n')
            self.p.stdin.flush()
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()


class Pool:
    def __init__(self, cid, hosts=range(HOSTS)):
        self.scratch = tempfile.mkdtemp(prefix="vsim-")
        self.hosts = {h: Host(cid, h, self.scratch) for h in hosts}

    def close(self):
        for h in self.hosts.values():
            h.close()
        shutil.rmtree(self.scratch, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def load(cid):
    return importlib.import_module("checks.meta").CHECKS[cid]


def same_violation(res, kind):
    if res["status"] == "violation":
        return res["kind"] == kind
    if res["status"] == "stall":
        return kind == "no-progress"
    return False


# ---------------------------------------------------------------- minimise
def get_path(plan, path):
    for k in path:
        plan = plan[k]
    return plan


def list_paths(plan, meta):
    """All lists in the plan that may be shortened, deepest information last."""
    out = []

    def walk(o, path):
        if isinstance(o, dict):
            for k in sorted(o):
                walk(o[k], path + [k])
        elif isinstance(o, list):
            key = next((k for k in reversed(path) if isinstance(k, str)), None)
            if path and isinstance(path[-1], str) and key in meta["shrink"]:
                out.append(list(path))
            for i, x in enumerate(o):
                if isinstance(x, (dict, list)):
                    walk(x, path + [i])
    walk(plan, [])
    # pinned schedules: one list per scheduler run
    for i, _ in enumerate(plan.get("pinned") or []):
        out.append(["pinned", i])
    return out


def minimise(ask, plan, kind, meta, budget):
    t0 = time.time()
    tried = [0]

    def ok(cand):
        tried[0] += 1
        return same_violation(ask(cand), kind)

    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        for path in list_paths(plan, meta):
            try:
                lst = get_path(plan, path)
            except (KeyError, IndexError, TypeError):
                continue
            n = max(1, len(lst) // 2)
            while n >= 1 and time.time() - t0 < budget:
                i = 0
                while i < len(lst) and time.time() - t0 < budget:
                    cand = json.loads(json.dumps(plan))
                    cl = get_path(cand, path)
                    del cl[i:i + n]
                    if ok(cand):
                        plan = cand
                        lst = get_path(plan, path)
                        changed = True
                    else:
                        i += n
                n //= 2
        # smaller numbers where the check says so
        for path, val in list(num_paths(plan, meta)):
            if time.time() - t0 > budget:
                break
            for v in sorted({0, 1, val // 2}):
                if v < val:
                    cand = json.loads(json.dumps(plan))
                    get_path(cand, path[:-1])[path[-1]] = v
                    if ok(cand):
                        plan = cand
                        changed = True
                        break
    return plan, tried[0]


def num_paths(plan, meta):
    def walk(o, path):
        if isinstance(o, dict):
            for k in sorted(o):
                if isinstance(o[k], int) and not isinstance(o[k], bool) and k in meta.get("shrink_num", ()) and o[k] > 0:
                    yield path + [k], o[k]
                else:
                    yield from walk(o[k], path + [k])
        elif isinstance(o, list):
            for i, x in enumerate(o):
                yield from walk(x, path + [i])
    return walk(plan, [])


# ---------------------------------------------------------------- check
def known_findings(cid):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: "):
                d = json.loads(line[len("finding: "):])
                if d["property"] == cid:
                    out.append(d)
    return out


def cmd_check(a):
    cid = a.check
    meta = load(cid)
    tier = a.tier
    t0 = time.time()
    runs = a.runs or meta["runs"][tier]
    budget = a.budget or (meta.get("budget", {}).get(tier) or (240 if tier == "quick" else 3000))
    cpu = meta.get("cpu", 60)
    wall = cpu * 5
    print(f"{cid}: VERIF_SEED={a.seed} tier={tier} runs={runs}", flush=True)
    agg = dict(runs=0, steps=0, sim_time=0, faults=collections.Counter(), probes=collections.Counter(),
               cover=set(), digests=set(), nontrivial=set(), cpu=0.0, slowest=(0, 0))
    samples = []
    findings = []
    errors = []
    compare = {}
    stop = threading.Event()
    lock = threading.Lock()
    cross = meta.get("cross_hosts", 1)
    known = known_findings(cid)
    known_hit = {}
    done = set()
    unconfirmed = 0

    with Pool(cid, range(a.hosts)) as pool:
        def feeder(h):
            host = pool.hosts[h % a.hosts]
            for i in range(runs):
                # run i lives on host i mod HOSTS, and on `cross`-1 others
                mine = [(i + k * 3) % HOSTS for k in range(cross)]
                if h not in mine or (i, h) in done:
                    continue
                if stop.is_set() or time.time() - t0 > budget:
                    return
                try:
                    res = host.ask(seed=a.seed, run=i, tier=tier, cpu=cpu, wall=wall,
                                   want_plan=(i < 3 or cross > 1))
                except Exception as e:
                    with lock:
                        errors.append(f"run {i} on host {h}: {core.brief(e)}")
                    stop.set()
                    return
                with lock:
                    done.add((i, h))
                    agg["slowest"] = max(agg["slowest"], (round(res["cpu"], 1), i))
                    if h == mine[0]:
                        agg["runs"] += 1
                        for k in ("steps", "sim_time", "cpu"):
                            agg[k] += res[k]
                        agg["faults"].update(res["faults"])
                        agg["probes"].update(res["probes"])
                        agg["cover"].update(res["cover"])
                        agg["digests"].add(res["digest"])
                        if res["nontrivial"]:
                            agg["nontrivial"].add(res["digest"])
                        if len(samples) < 3 and res.get("plan") is not None and res["status"] == "ok":
                            samples.append(dict(run=i, plan=res["plan"], log_tail=res["log_tail"][-12:]))
                    if res["status"] in ("violation", "stall"):
                        f = match_known(known, res)
                        if f is not None:
                            known_hit[f["id"]] = f
                        else:
                            findings.append((i, h, res))
                            stop.set()
                    elif res["status"] == "harness":
                        errors.append(f"run {i} on host {h}: {res['msg']}")
                        if len(errors) > 60:
                            stop.set()
                    elif cross > 1:
                        prev = compare.setdefault(i, (h, res["table"], res["plan"]))
                        if prev[1] != res["table"]:
                            r = dict(res, status="violation", kind="hosts-disagree",
                                     msg=diff_tables(prev[1], res["table"]),
                                     plan=dict(prev[2], hosts=[prev[0], h]))
                            findings.append((i, h, r))
                            stop.set()

        rc = 0
        while True:
            threads = [threading.Thread(target=feeder, args=(h,), daemon=True) for h in range(HOSTS)]
            if a.hosts < HOSTS:
                for h in range(HOSTS):
                    feeder(h)
            else:
                for t in threads:
                    t.start()
                for t in threads:
                    t.join()
            # a violation nobody can repeat is not believed: the search goes on
            # for one that can be, and ends as a harness error without one
            again = False
            for i, h, res in sorted(findings, key=lambda x: (x[2]["status"] == "stall", x[0])):
                if res["status"] == "stall" and unconfirmed and time.time() - t0 > 400:
                    again = True        # slow runs are slow, there is no time for more of them
                    unconfirmed += 1
                    continue
                rc = report(pool, cid, meta, a, i, h, res, cpu, wall)
                if rc == 1:
                    break
                unconfirmed += 1
                again = True
                if res["status"] != "stall":
                    errors.append(f"run {i} on host {h}: {res['kind']} did not recur: {res['msg'][:300]}")
            if rc == 1 or not again or unconfirmed > 40 or len(errors) > 60:
                break
            rc = 0
            findings.clear()
            stop.clear()
        # listed findings are re-demonstrated from their own replay file
        for f in known:
            if f["id"] in known_hit or rc:
                continue
            if f.get("replay"):
                doc = json.load(open(os.path.join(HERE, f["replay"])))
                r = pool.hosts[doc["host"] % a.hosts].ask(plan=doc["plan"], cpu=cpu, wall=wall)
                if match_known([f], r):
                    known_hit[f["id"]] = f
        for f in known_hit.values():
            print(f"KNOWN-FINDING: property={cid} {f['what']}", flush=True)

    wall_s = time.time() - t0
    short = agg["runs"] < min(runs, meta.get("min_runs", 1))
    write_evidence(cid, meta, a, agg, samples, wall_s, len(findings), errors)
    print(f"{cid}: {agg['runs']} runs, {len(agg['nontrivial'])} distinct non-trivial, "
          f"{agg['steps']} steps, faults {dict(agg['faults'])}, {wall_s:.0f}s", flush=True)
    if rc:
        return rc
    if errors:
        print("HARNESS-ERROR " + errors[0][:3000], flush=True)
        return 2
    if short or agg["runs"] == 0:
        print(f"HARNESS-ERROR only {agg['runs']} of {runs} runs completed", flush=True)
        return 2
    return rc


def diff_tables(x, y):
    if isinstance(x, dict) and isinstance(y, dict):
        for k in sorted(set(x) | set(y)):
            if x.get(k) != y.get(k):
                return f"{k}: {x.get(k)!r} on one host, {y.get(k)!r} on another"
    return f"{str(x)[:500]} vs {str(y)[:500]}"


def match_known(known, res):
    for f in known:
        if res.get("kind") == f["kind"] and f["match"] in (res.get("msg") or ""):
            return f
    return None


def report(pool, cid, meta, a, i, h, res, cpu, wall):
    """Pin, confirm, minimise, write the replay file, confirm it in a fresh process."""
    kind = "no-progress" if res["status"] == "stall" else res["kind"]
    plan = res["plan"]
    hosts = plan.get("hosts")

    if hosts and kind == "hosts-disagree":
        def ask(p):
            p = {k: v for k, v in p.items() if k != "hosts"}
            r1 = pool.hosts[hosts[0] % a.hosts].ask(plan=p, cpu=cpu, wall=wall)
            r2 = pool.hosts[hosts[1] % a.hosts].ask(plan=p, cpu=cpu, wall=wall)
            if r1["status"] != "ok":
                return r1
            if r2["status"] != "ok":
                return r2
            if r1["table"] != r2["table"]:
                return dict(r2, status="violation", kind="hosts-disagree", msg=diff_tables(r1["table"], r2["table"]))
            return r2
    else:
        host = pool.hosts[h % a.hosts]

        def ask(p):
            return host.ask(plan=p, cpu=cpu, wall=wall)

    print(f"{cid}: run {i} (VERIF_SEED={a.seed}) host {h}: {kind}: {res['msg'][:1500]}", flush=True)
    # a run out of time gets four times as much: what ends then was only slow
    again = ask(plan) if res["status"] != "stall" else host.ask(plan=plan, cpu=cpu * 4, wall=wall * 4)
    if not same_violation(again, kind):
        what = "exceeded its CPU budget once but not again" if res["status"] == "stall" else "did not recur"
        print(f"NOT-CONFIRMED run {i} {what}: {again['status']} {again['kind']} {again['msg']}", flush=True)
        return 2
    pinned = json.loads(json.dumps(plan))
    if kind != "no-progress" and again["recorded"].get("switches"):
        pinned["pinned"] = again["recorded"]["switches"]
        if not same_violation(ask(pinned), kind):
            pinned = plan
    small, tried = minimise(ask, pinned, kind, meta, 0 if kind == "no-progress" else (a.shrink if a.shrink is not None else 90))
    final = ask(small) if kind != "no-progress" else again
    if not same_violation(final, kind):
        small, final = plan, again
    rdir = os.path.join(os.environ.get("VSIM_REPLAYS", os.path.join(HERE, "replays")))
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{cid}-{a.seed}-{i}.json")
    with open(path, "w") as f:
        json.dump(dict(property=cid, verif_seed=a.seed, run=i, host=h, kind=kind,
                       message=final["msg"], digest=final["digest"], plan=small,
                       original_plan_digest=core.rng_for(core.jdump(plan)).randrange(1 << 60),
                       shrink_attempts=tried, faults=final["faults"], log_tail=final["log_tail"]), f, indent=1)
    # a fresh process must fail the same way
    out = subprocess.run([PY, os.path.join(HERE, "run.py"), "replay", path],
                         capture_output=True, text=True, timeout=900)
    fresh = out.returncode == 1
    print(f"{cid}: minimised with {tried} re-executions; fresh-process replay "
          f"{'reproduces' if fresh else 'DOES NOT reproduce'}: {final['msg'][:1500]}", flush=True)
    print(f"VIOLATION property={cid} replay={path}", flush=True)
    return 1


def write_evidence(cid, meta, a, agg, samples, wall_s, nviol, errors):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    per_hour = agg["runs"] / max(wall_s, 1e-6) * 3600
    cov = dict(
        evaluations=agg["runs"],
        distinct_nontrivial=len(agg["nontrivial"]),
        rule=meta["rule"],
        samples=samples or [dict(note="no run completed")],
        runs_per_hour=round(per_hour),
        seeds_per_hour=round(per_hour),
        simulated_steps=agg["steps"],
        simulated_time=agg["sim_time"],
        simulated_time_unit=meta.get("time_unit", "scheduler steps / operations"),
        faults_injected=dict(sorted(agg["faults"].items())),
        fault_total=sum(agg["faults"].values()),
        distinct_states=len(agg["cover"]),
        distinct_states_measure=meta.get("cover_measure", "distinct coverage keys recorded by the runs"),
        distinct_event_logs=len(agg["digests"]),
        probes={k: v for k, v in sorted(agg["probes"].items())},
        components_real=meta["real"],
        components_stubbed=meta["stub"],
        hosts=HOSTS,
        cpu_s=round(agg["cpu"], 1),
        slowest_run=dict(cpu_s=agg["slowest"][0], run=agg["slowest"][1]),
        harness_errors=len(errors),
    )
    doc = dict(property=cid, tier=a.tier, seed=a.seed, level=meta["level"], coverage=cov,
               assumptions=meta.get("assumptions", []), wall_s=round(wall_s, 2), violations=nviol)
    with open(os.path.join(HERE, "evidence", f"{cid}.json"), "w") as f:
        json.dump(doc, f, indent=1)


def cmd_replay(a):
    doc = json.load(open(a.file))
    cid = doc["property"]
    meta = load(cid)
    cpu = meta.get("cpu", 60)
    hosts = doc["plan"].get("hosts") or [doc["host"]]
    with Pool(cid, hosts) as pool:
        plan = {k: v for k, v in doc["plan"].items() if k != "hosts"}
        rs = [pool.hosts[h].ask(plan=plan, cpu=cpu, wall=cpu * 5) for h in hosts]
        res = next((r for r in rs if r["status"] != "ok"), rs[-1])
        if res["status"] == "ok" and len(rs) > 1 and rs[0]["table"] != rs[1]["table"]:
            res = dict(res, status="violation", kind="hosts-disagree", msg=diff_tables(rs[0]["table"], rs[1]["table"]))
    for line in res["log_tail"]:
        print("  " + line)
    print(f"{res['status']} {res['kind']}: {res['msg']}")
    if res["status"] == "ok":
        print("the recorded violation does not occur on this tree")
        return 0
    if same_violation(res, doc["kind"]):
        exact = res["digest"] == doc["digest"]
        print(f"reproduced ({'identical event log' if exact else 'same violation, event log differs'})")
        print(f"VIOLATION property={cid} replay={os.path.abspath(a.file)}")
        return 1
    return 2 if res["status"] == "harness" else 1


def cmd_selftest(a):
    """Determinism: same plan twice on one host, and the same digests from other
    hosts' interpreters (other hash seeds) and with a different number of workers."""
    bad = 0
    ids = a.checks or sorted(importlib.import_module("checks.meta").CHECKS)
    for cid in ids:
        meta = load(cid)
        cpu = meta.get("cpu", 60)
        n = a.runs or 40
        got = {}
        t0 = time.time()

        def sweep(pool, tag, hosts):
            lock = threading.Lock()

            def work(k, h):
                for i in range(n):
                    if i % len(hosts) == k:
                        r = pool.hosts[h].ask(seed=a.seed, run=i, tier="quick", cpu=cpu, wall=cpu * 5)
                        with lock:
                            got.setdefault(i, {})[tag] = (r["status"], r["digest"], r.get("kind"), r.get("msg"))
            ts = [threading.Thread(target=work, args=(k, h)) for k, h in enumerate(hosts)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        with Pool(cid, range(8)) as pool:
            sweep(pool, "a", list(range(8)))
            sweep(pool, "b", list(range(8)))           # same host, again
            sweep(pool, "c", [5, 2, 7, 0, 1, 3, 6, 4])  # other PYTHONHASHSEED
        with Pool(cid, [3, 1, 6]) as pool:
            sweep(pool, "d", [3, 1, 6])                # fresh processes, 3 workers
        for i in sorted(got):
            vals = {v[:2] for v in got[i].values()}
            if len(vals) != 1:
                bad += 1
                print(f"{cid} run {i}: digests differ {got[i]}")
            elif next(iter(vals))[0] not in ("ok",):
                bad += 1
                print(f"{cid} run {i}: {got[i]['a']}")
        print(f"{cid}: {n} runs x 4, {time.time()-t0:.0f}s, {'ok' if not bad else 'PROBLEMS'}", flush=True)
    return 1 if bad else 0


def cmd_show(a):
    with Pool(a.check, [a.run % HOSTS]) as pool:
        meta = load(a.check)
        r = pool.hosts[a.run % HOSTS].ask(seed=a.seed, run=a.run, tier=a.tier, cpu=meta.get("cpu", 60), wall=300, want_plan=True)
        print(json.dumps(r, indent=1))
    return 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    c = sub.add_parser("check")
    c.add_argument("check")
    c.add_argument("--tier", default=tier)
    c.add_argument("--seed", type=int, default=seed)
    c.add_argument("--runs", type=int)
    c.add_argument("--budget", type=float)
    c.add_argument("--hosts", type=int, default=HOSTS)
    c.add_argument("--shrink", type=float)
    r = sub.add_parser("replay")
    r.add_argument("file")
    s = sub.add_parser("selftest")
    s.add_argument("checks", nargs="*")
    s.add_argument("--runs", type=int)
    s.add_argument("--seed", type=int, default=seed)
    w = sub.add_parser("show")
    w.add_argument("check")
    w.add_argument("run", type=int)
    w.add_argument("--tier", default=tier)
    w.add_argument("--seed", type=int, default=seed)
    a = ap.parse_args()
    try:
        rc = dict(check=cmd_check, replay=cmd_replay, selftest=cmd_selftest, show=cmd_show)[a.cmd](a)
    except core.HarnessError as e:
        print("HARNESS-ERROR", e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
