"""One simulated host: a process that imports the library once and then forks
one child per run, so every run starts from the same process state."""
import gc
import importlib
import json
import os
import resource
import select
import shutil
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import boot, core  # noqa: E402


def child(check, plan, host, wfd, rundir, cpu):
    os.makedirs(rundir, exist_ok=True)
    os.chdir(rundir)
    gc.disable()
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    import random
    random.seed(plan.get("seed", 0))
    ctx = core.Ctx(plan, host)
    try:
        check.execute(plan, ctx)
        res = ctx.result("ok")
    except core.Violation as v:
        if plan.get("debug"):
            traceback.print_exc()
        res = ctx.result("violation", v.kind, v.msg)
    except core.HarnessError as e:
        res = ctx.result("harness", "harness", core.brief(e) + "\n" + traceback.format_exc()[-1500:])
    except BaseException as e:
        if core.blame(e, boot.LIB_ROOTS) == "lib":
            ctx.ev("VIOLATION unexpected-exception")
            res = ctx.result("violation", "unexpected-exception", core.brief(e) + "\n" + traceback.format_exc()[-1500:])
        else:
            res = ctx.result("harness", "harness", core.brief(e) + "\n" + traceback.format_exc()[-1500:])
    data = json.dumps(res).encode()
    os.set_blocking(wfd, True)
    off = 0
    while off < len(data):
        off += os.write(wfd, data[off:off + 65536])
    os.close(wfd)
    os._exit(0)


def run_one(check, plan, host, scratch, idx, cpu, wall):
    rfd, wfd = os.pipe()
    rundir = os.path.join(scratch, f"r{idx}")
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            child(check, plan, host, wfd, rundir, cpu)
        except BaseException:
            traceback.print_exc()
        os._exit(97)
    os.close(wfd)
    buf = b""
    t0 = time.monotonic()
    timed_out = False
    while True:
        left = wall - (time.monotonic() - t0)
        if left <= 0:
            timed_out = True
            break
        r, _, _ = select.select([rfd], [], [], left)
        if not r:
            timed_out = True
            break
        b = os.read(rfd, 1 << 16)
        if not b:
            break
        buf += b
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, st, ru = os.wait4(pid, 0)
    os.close(rfd)
    shutil.rmtree(rundir, ignore_errors=True)
    cpu_used = ru.ru_utime + ru.ru_stime
    try:
        res = json.loads(buf)
    except ValueError:
        res = None
    if res is None:
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) in (signal.SIGXCPU, signal.SIGKILL) and cpu_used >= cpu * 0.9:
            res = dict(status="stall", kind="no-progress",
                       msg=f"run did not finish within {cpu} CPU seconds")
        else:
            res = dict(status="harness", kind="harness",
                       msg=f"run child died: status {st} cpu {cpu_used:.1f} timed_out {timed_out} out {buf[:200]!r}")
        res.update(digest="", faults={}, probes={}, cover=[], steps=0, sim_time=0,
                   nontrivial=False, recorded={}, table=None, log_tail=[], log_len=0)
    res["cpu"] = round(cpu_used, 3)
    return res


def main():
    cid, host, scratch = sys.argv[1], int(sys.argv[2]), sys.argv[3]
    out = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get("VSIM_DEBUG"):
        os.dup2(dn, 2)
    outf = os.fdopen(out, "w", buffering=1)
    os.chdir(scratch)
    try:
        boot.boot()
        check = importlib.import_module("checks." + cid.lower())
        if hasattr(check, "setup"):
            check.setup()
    except BaseException as e:
        outf.write(json.dumps(dict(fatal=core.brief(e) + traceback.format_exc()[-3000:])) + "\n")
        return
    outf.write(json.dumps(dict(ready=True)) + "\n")
    n = 0
    for line in sys.stdin:
        req = json.loads(line)
        if req.get("quit"):
            break
        n += 1
        if "plan" in req and req["plan"] is not None:
            plan = req["plan"]
        else:
            rng = core.rng_for(cid, req["seed"], req["run"])
            plan = check.generate(rng, req["tier"])
            plan["seed"] = rng.randrange(1 << 30)
        res = run_one(check, plan, host, scratch, n, req["cpu"], req["wall"])
        res["tag"] = req.get("tag")
        if res["status"] != "ok" or req.get("want_plan"):
            res["plan"] = plan
        outf.write(json.dumps(res) + "\n")


if __name__ == "__main__":
    main()
