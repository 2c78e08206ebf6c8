"""Access to the libc fault injector, and forked trials that may be killed by it."""
import ctypes
import errno
import os
import pickle
import signal

OFF, COUNT, ERR, KILL_BEFORE, KILL_AFTER, KILL_PARTIAL, SHORT, ERR_PARTIAL, ERR_FROM, ERR_AFTER = range(10)
NAMES = ["off", "count", "error", "kill-before", "kill-after", "kill-partial", "short", "partial-then-error", "error-from-here", "error-after-effect"]
ERRNOS = [errno.EIO, errno.ENOSPC, errno.EACCES, errno.EDQUOT, errno.EROFS]

lib = ctypes.CDLL(os.environ["RV_SHIM"])
lib.rv_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_int]
lib.rv_disarm.argtypes = [ctypes.c_char_p, ctypes.c_long]
lib.rv_disarm.restype = ctypes.c_long
_buf = ctypes.create_string_buffer(8192)


def arm(prefix, mode=COUNT, k=0, err=errno.EIO, reads=False):
    lib.rv_arm(os.fsencode(prefix), mode, k, err, 1 if reads else 0)


def disarm():
    """The operations seen since arming, one letter each."""
    lib.rv_disarm(_buf, len(_buf))
    return _buf.value.decode()


def fired():
    f = lib.rv_fired()
    return chr(f) if f else None


def in_child(fn):
    """Run fn() in a forked process.  Returns ("killed", None), ("ok", result) or ("exc", text)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:
                out = ("exc", f"{type(e).__name__}: {e}"[:500])
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGKILL:
        return "killed", None
    if not data:
        return "lost", st
    return pickle.loads(data)
