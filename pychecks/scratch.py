"""Runs a Python script of the repository in this process as its command line would, in scratch directories that belong
to an unprivileged user."""
import io, multiprocessing, os, resource, shutil, signal, sys, tempfile, time

NOBODY = 65534


class Scratch:
    """A directory under /tmp that 'nobody' owns."""

    def __init__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="shiva-check-"))
        os.chmod(self.dir, 0o755)
        os.chown(self.dir, NOBODY, NOBODY)

    def remove(self):
        assert self.dir.startswith("/tmp/shiva-check-")
        shutil.rmtree(self.dir, ignore_errors=True)


def unprivileged():
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


class Timeout(BaseException):
    pass


START = time.time()


def enough(base):
    """Whether a violation is confirmed and the check has gone on for long enough to report it."""
    return time.time() > START + 60 and os.path.exists(os.path.join(base, "violation"))


def confirmed(base):
    open(os.path.join(base, "violation"), "w").close()


_code = {}


def run_script(path, text, argv, cwd, timeout=10, env=None):
    """(exit status, output) of `python3 path argv...` in cwd."""
    if path not in _code:
        _code[path] = compile(text, path, "exec")
    old = sys.argv, sys.stdout, sys.stderr, os.getcwd(), dict(os.environ), list(sys.path)
    # as the streams of a process are: text over bytes
    raw = io.BytesIO()
    out, err = (io.TextIOWrapper(raw, encoding="utf-8", errors=e, newline="\n", write_through=True) for e in ("strict", "backslashreplace"))

    def onalarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        sys.argv, sys.stdout, sys.stderr = [path] + argv, out, err
        if env:
            os.environ.update(env)
        os.chdir(cwd)
        try:
            exec(_code[path], {"__name__": "__main__", "__file__": path, "__builtins__": __builtins__})
            rc = 0
        except SystemExit as e:
            rc = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except (Timeout, MemoryError):
            rc = "timeout"
        except BaseException as e:
            err.write("%s: %s" % (type(e).__name__, e))
            rc = 1
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.argv, sys.stdout, sys.stderr = old[0], old[1], old[2]
        os.chdir(old[3])
        os.environ.clear()
        os.environ.update(old[4])
        sys.path[:] = old[5]
    for f in (out, err):
        try:
            f.flush()
        except ValueError:
            pass          # closed by the script
    return rc, raw.getvalue().decode("utf-8", "surrogateescape") if not raw.closed else ""


def tree(d):
    """{relative path: content} of everything below d."""
    r = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            r[os.path.relpath(q, d)] = ("link", os.readlink(q)) if os.path.islink(q) else open(q, "rb").read()
        for x in ds:
            r[os.path.relpath(os.path.join(p, x), d) + "/"] = b""
    return r
