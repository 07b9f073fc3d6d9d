"""Storage seam: the generated source files a build writes to .ast_tools.

`Faulty` counts the file operations of the block and fails the chosen one."""
import builtins
import errno
import inspect
import io
import os
import tempfile

DIR = ".ast_tools"


def generated(f):
    """A source file peak writes: under .ast_tools or in a temporary directory."""
    return isinstance(f, str) and (f.startswith(DIR) or
                                   f.endswith(".py") and f.startswith(tempfile.gettempdir() + os.sep))


class _Torn:
    """A file whose write reaches the disk only in part before it fails."""

    def __init__(self, fp, owner, frac):
        self.fp, self.owner, self.frac = fp, owner, frac

    def write(self, s):
        self.fp.write(s[:int(len(s) * self.frac)])
        self.fp.flush()
        self.owner.hit("torn_write")
        raise OSError(errno.ENOSPC, "simulated: no space left on device")

    def __enter__(self):
        self.fp.__enter__()
        return self

    def __exit__(self, *a):
        return self.fp.__exit__(*a)

    def __getattr__(self, k):
        return getattr(self.fp, k)


class Faulty:
    def __init__(self, ctx, nth=None, frac=0.5, how=None):
        self.ctx, self.nth, self.frac, self.how = ctx, nth, frac, how
        self.ops = []
        self.fired = None

    def hit(self, kind):
        self.fired = kind
        self.ctx.fault("fs:" + kind)

    def _op(self, kind):
        self.ops.append(kind)
        return self.nth is not None and len(self.ops) == self.nth and self.fired is None

    def __enter__(self):
        self._open, self._mk, self._src, self._tmp = builtins.open, os.makedirs, inspect.findsource, tempfile.mkdtemp

        def open_(f, mode="r", *a, **kw):
            if generated(f) and ("w" in mode or "a" in mode):
                if self._op("open"):
                    if self.how == "torn":
                        return _Torn(self._open(f, mode, *a, **kw), self, self.frac)
                    self.hit("open_" + ("enospc" if self.how == "enospc" else "eacces"))
                    raise OSError(errno.ENOSPC if self.how == "enospc" else errno.EACCES, "simulated", f)
            return self._open(f, mode, *a, **kw)

        def makedirs(p, *a, **kw):
            if isinstance(p, str) and p.startswith(DIR) and self._op("mkdir"):
                self.hit("mkdir_eio")
                raise OSError(errno.EIO, "simulated", p)
            return self._mk(p, *a, **kw)

        def mkdtemp(*a, **kw):
            if self._op("mkdtemp"):
                self.hit("mkdtemp_enospc")
                raise OSError(errno.ENOSPC, "simulated: no space left on device")
            return self._tmp(*a, **kw)

        def findsource(obj):
            if self._op("source"):
                self.hit("source_unreadable")
                raise OSError("simulated: could not get source code")
            return self._src(obj)
        builtins.open, os.makedirs, inspect.findsource = open_, makedirs, findsource
        tempfile.mkdtemp = mkdtemp
        return self

    def __exit__(self, *a):
        builtins.open, os.makedirs, inspect.findsource = self._open, self._mk, self._src
        tempfile.mkdtemp = self._tmp
        return False


def spoil(rng, ctx, how):
    """Damage whatever generated files lie around (as another process, an
    editor or a crash would)."""
    if how == "file":
        import shutil
        shutil.rmtree(DIR, ignore_errors=True)
        with open(DIR, "w") as f:
            f.write("not a directory")
        ctx.fault("fs:dir_is_file")
        return
    if not os.path.isdir(DIR):
        os.makedirs(DIR)
    names = sorted(os.listdir(DIR))
    for n in names:
        p = os.path.join(DIR, n)
        if how == "empty":
            open(p, "w").close()
        elif how == "remove":
            os.unlink(p)
        elif how == "garbage":
            with open(p, "w") as f:
                f.write("def __call__(self, *a, **k):\n    raise SystemError('foreign code')\n")
        else:
            with open(p, "r+") as f:
                f.truncate(os.path.getsize(p) // 2)
    ctx.fault("fs:stale_" + how, len(names))


def unspoil():
    if os.path.isfile(DIR):
        os.unlink(DIR)
