"""Runs click / argparse entry points in-process with patched argv and captured output."""
import contextlib
import io
import sys


def run(fn, args, *a):
    """(exit code, stdout text, stderr text, exception)"""
    out, err = io.StringIO(), io.StringIO()
    argv, code, exc, value = sys.argv, 0, None, None
    sys.argv = ["prog"] + [str(x) for x in args]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                value = fn(*a)
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            except BaseException as e:
                if not (isinstance(e, Exception) or type(e).__name__ == "PanicException"):
                    raise
                code, exc = 1, e
    finally:
        sys.argv = argv
    return Res(code, out.getvalue(), err.getvalue(), exc, value)


class Res:
    def __init__(self, code, out, err, exc, value):
        self.code, self.out, self.err, self.exc, self.value = code, out, err, exc, value

    def __repr__(self):
        return f"exit {self.code}; exception {self.exc!r}; stdout {self.out[-1500:]!r}; stderr {self.err[-500:]!r}"
