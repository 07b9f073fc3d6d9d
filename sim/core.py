"""Run context shared by every check: one seed -> one plan -> one execution."""
import collections
import hashlib
import json
import os
import random
import sys
import traceback


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, kind, msg):
        super().__init__(kind, msg)
        self.kind = kind
        self.msg = str(msg)[:2000]


class HarnessError(Exception):
    """The harness itself is at fault; never reported as a violation."""


def rng_for(*parts):
    return random.Random(":".join(str(p) for p in parts))


class Ctx:
    def __init__(self, plan, host=0, quiet=True):
        self.plan = plan
        self.host = host
        self.log = []
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.cover = set()
        self.steps = 0          # simulated steps (scheduler points, clock ticks, operations)
        self.sim_time = 0       # simulated time units, where a run has a clock
        self.nontrivial = False
        self.recorded = {}      # choices made during the run that pin it down on replay
        self.table = None       # public observations compared across hosts

    # logging never draws randomness and never reads a clock
    def ev(self, *parts):
        self.log.append(" ".join(str(p) for p in parts))

    def fail(self, kind, msg):
        self.ev("VIOLATION", kind)
        raise Violation(kind, msg)

    def check(self, cond, kind, msg=""):
        if not cond:
            self.fail(kind, msg() if callable(msg) else msg)

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def digest(self):
        h = hashlib.sha256()
        for line in self.log:
            h.update(line.encode())
            h.update(b"\n")
        return h.hexdigest()[:24]

    def result(self, status, kind=None, msg=None):
        return dict(status=status, kind=kind, msg=msg, digest=self.digest(),
                    faults=dict(self.faults), probes=dict(self.probes),
                    cover=sorted(self.cover), steps=self.steps, sim_time=self.sim_time,
                    nontrivial=self.nontrivial, recorded=self.recorded,
                    table=self.table, log_tail=self.log[-40:], log_len=len(self.log))


def blame(exc, lib_roots):
    """Where did an unexpected exception come from?

    'lib' when the code under test (or a dependency called by it) raised it:
    walking from the innermost frame outwards we meet a frame of the library
    before any frame of the harness.  'harness' otherwise.
    """
    tb = exc.__traceback__
    files = []
    while tb is not None:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for f in reversed(files):
        if any(f.startswith(r) for r in lib_roots):
            return "lib"
        if f.startswith(here):
            return "harness"
    return "harness"


def brief(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = ""
    if tb:
        last = tb[-1]
        where = f" at {os.path.basename(last.filename)}:{last.name}"
    return f"{type(exc).__name__}: {str(exc)[:300]}{where}"


def jdump(o):
    return json.dumps(o, sort_keys=True, separators=(",", ":"))
