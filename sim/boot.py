"""Process start-up: put the sources of nondeterminism behind seams.

Imported once per simulated host, before the library.  Seams installed here:

* iteration order of a Sum's options (a frozenset of classes, ordered by
  memory address in a real process) -> order decided by `set_order(seed)`;
* locks created by the library -> simulator locks that a simulated thread
  blocks on cooperatively;
* the solver -> see sim/solver.py (installed on demand);
* memory layout -> address-space randomisation off, one PYTHONHASHSEED per host
  (done by the master when it starts the host).
"""
import gc
import os
import sys
import threading
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True

_order_seed = None


def set_order(seed):
    """Choose the iteration order of unordered type sets (None: native order)."""
    global _order_seed
    _order_seed = seed


def _order_key(t):
    import hashlib
    name = f"{_order_seed}|{getattr(t, '__module__', '')}|{_deep_name(t)}"
    return hashlib.sha256(name.encode()).digest()


def _deep_name(t, depth=0):
    name = getattr(t, "__name__", repr(t))
    if depth > 6:
        return name
    try:
        fd = t.field_dict
        items = list(fd.items())
    except Exception:
        return name
    parts = []
    for k, v in items:
        if isinstance(v, type):
            kn = k if isinstance(k, (str, int)) else ""
            parts.append(f"{kn}:{_deep_name(v, depth + 1)}")
        else:
            parts.append(f"{k}={getattr(v, '_value_', v)!r}" if isinstance(getattr(v, '_value_', None), int) else str(k))
    if not _is_ordered(t):
        parts.sort()
    return f"{name}({','.join(parts)})"


def _is_ordered(t):
    return bool(getattr(type(t), "ORDERED", True))


class SimFrozenSet(frozenset):
    """A frozenset whose iteration order is the simulator's decision."""

    def __iter__(self):
        items = list(super().__iter__())
        if _order_seed is None:
            return iter(items)
        items.sort(key=_order_key)
        return iter(items)

    def __reduce__(self):
        return (SimFrozenSet, (list(super().__iter__()),))


def _install_order_seam():
    from hwtypes import adt_meta
    orig = adt_meta._GetitemSyntax._get_idx

    def _get_idx(cls, idx):
        out = orig(cls, idx)
        if type(out) is frozenset:
            out = SimFrozenSet(out)
        return out

    adt_meta._GetitemSyntax._get_idx = _get_idx


# ---------------------------------------------------------------- locks
current_sched = None
_real_lock = threading.Lock
_real_rlock = threading.RLock


class SimLock:
    def __init__(self):
        self._owner = None
        self._count = 0
        self._real = _real_lock()

    _reentrant = False

    def acquire(self, blocking=True, timeout=-1):
        s = current_sched
        me = s.current_tid() if s is not None else None
        if me is None:
            if self._reentrant and self._owner == ("real", threading.get_ident()):
                self._count += 1
                return True
            ok = self._real.acquire(False)
            if not ok and blocking and (timeout is None or timeout < 0):
                from .core import Violation
                raise Violation("deadlock", "the only thread waits for a lock nobody will release")
            if ok:
                self._owner = ("real", threading.get_ident())
                self._count = 1
            return ok
        if self._reentrant and self._owner == ("sim", me):
            self._count += 1
            return True
        s.lock_point()
        while not self._real.acquire(False):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                return False
            s.block_on(self)
        self._owner = ("sim", me)
        self._count = 1
        return True

    def release(self):
        self._count -= 1
        if self._count > 0:
            return
        self._owner = None
        self._real.release()
        s = current_sched
        if s is not None:
            s.unblock(self)

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    _reentrant = True


PEAK_ROOT = None
LIB_ROOTS = []


def boot():
    global PEAK_ROOT
    import hwtypes
    _install_order_seam()
    import ast_tools
    import ast_tools.passes
    import magma
    import pysmt.shortcuts
    import libcst
    threading.Lock, threading.RLock = SimLock, SimRLock
    try:
        import peak
        import peak.family
        import peak.assembler
        import peak.assembler2.assembler
        import peak.assembler2.assembled_adt
        import peak.mapper
        import peak.mapper.mapper
        import peak.mapper.multi
        import peak.mapper.utils
        import peak.memory
        import peak.register
        import peak.black_box
        import peak.ir
        import peak.bitfield
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import peak.auto_assembler
    finally:
        threading.Lock, threading.RLock = _real_lock, _real_rlock
    PEAK_ROOT = os.path.dirname(os.path.abspath(peak.__file__)) + os.sep
    expect = os.environ.get("VSIM_PEAK", "/repo/peak").rstrip("/") + "/"
    if PEAK_ROOT != expect:
        raise RuntimeError(f"peak imported from {PEAK_ROOT}, expected {expect}")
    site = os.path.dirname(os.path.dirname(os.path.abspath(hwtypes.__file__)))
    LIB_ROOTS[:] = [PEAK_ROOT]
    import logging
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    gc.collect()
    gc.freeze()
