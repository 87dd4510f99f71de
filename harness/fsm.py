"""Control of the file-operation monitor (shim/fsmon.c), which is preloaded by run.sh."""
import ctypes
import os
import signal
import sys
import traceback

SO = os.path.join(os.environ["HSV_HOME"], "build", "fsmon.so")
MUT, RD, ST, CL = 1, 2, 4, 8
OFF, COUNT, KILL, KILLPART, FAIL, SCHED, DELAY, SHORT = range(8)
_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(SO)
        _lib.fsm_prefix.argtypes = [ctypes.c_char_p]
        _lib.fsm_xdev.argtypes = [ctypes.c_char_p]
        _lib.fsm_arm.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int]
        _lib.fsm_delay.argtypes = [ctypes.c_long, ctypes.c_int]
        _lib.fsm_sched.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_int]
        _lib.fsm_count.restype = ctypes.c_long
        _lib.fsm_last.restype = ctypes.c_char_p
    return _lib


def b(p):
    return os.fsencode(os.path.realpath(p))


def reset(*prefixes, xdev=None):
    L = lib()
    L.fsm_reset()
    for p in prefixes:
        L.fsm_prefix(b(p))
    L.fsm_xdev(b(xdev) if xdev else b"")


def arm(mode, n=0, err=0, sticky=False, mask=MUT):
    lib().fsm_arm(mode, n, err, int(sticky), mask)


def disarm():
    n = lib().fsm_count()
    last = lib().fsm_last().decode()
    lib().fsm_arm(OFF, 0, 0, 0, 0)
    return n, last


def trace_ops(fn, path, mask=MUT):
    """Names of the watched operations fn performs, in order, run in a child. path: file for the log."""
    import core

    def child():
        with Log(path, everything=mask != MUT) as log:
            arm(COUNT, mask=mask)
            fn()
            n, _ = disarm()
        return n
    n, bad = core.isolated(child)
    if bad:
        raise core.Violation("step failed without any fault", happened=bad)
    return n


def crash(fn, n, partial=False):
    """Runs fn in a child that dies before (or halfway through) its n-th mutating operation: 'killed' or 'done'."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 7
        try:
            arm(KILLPART if partial else KILL, n)
            fn()
            code = 0
        except BaseException:
            disarm()
            traceback.print_exc()
        os._exit(code)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGKILL:
        return "killed"
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
        return "done"
    return f"status {st}"


class Log:
    """Log of file operations (op, path, second path, result, errno) during a with block."""

    def __init__(self, path, everything=False):
        self.path, self.everything = path, everything

    def __enter__(self):
        self.fd = os.open(self.path, os.O_CREAT | os.O_RDWR | os.O_TRUNC | os.O_APPEND, 0o600)
        lib().fsm_log(self.fd, int(self.everything))
        return self

    def __exit__(self, *a):
        lib().fsm_log(-1, 0)
        data = os.pread(self.fd, 1 << 28, 0)
        os.close(self.fd)
        self.ops = []
        for rec in data.split(b"\x1e"):
            if rec:
                op, p1, p2, res, e = rec.split(b"\x1f")
                self.ops.append((op.decode(), os.fsdecode(p1), os.fsdecode(p2), int(res), int(e)))
        return False


def tree(root):
    """{relative path: (kind, mode, content)} without following links."""
    out = {}

    def walk(d, rel):
        with os.scandir(d) as it:
            for e in sorted(it, key=lambda e: e.name):
                r = rel + "/" + e.name if rel else e.name
                if e.is_symlink():
                    out[r] = ("link", 0, os.readlink(e.path))
                elif e.is_dir(follow_symlinks=False):
                    out[r] = ("dir", e.stat(follow_symlinks=False).st_mode, None)
                    walk(e.path, r)
                else:
                    st = e.stat(follow_symlinks=False)
                    with open(e.path, "rb") as f:
                        out[r] = ("file", (st.st_mode, st.st_mtime_ns, st.st_ino), f.read())
    if os.path.isdir(root):
        walk(root, "")
    return out
