"""Worker side.  `wk.py MODULE` reads case specs (JSON, one per line) on stdin, runs each one in a forked child
and answers with one JSON line per case.  The child's verdict is three-valued:
  ok / violation (an oracle disagreed, or the engine died or raised where the model says it must not) / inconclusive
"""
import sys, os, json, time, signal, tempfile, shutil, random, traceback, select, importlib, gc, faulthandler

SCRATCH_ROOT = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()


class Violation(Exception):
    def __init__(self, key, msg=""):
        super().__init__(f"{key}: {msg}")
        self.key, self.msg = key, msg


class Inconclusive(Exception):
    pass


class Ctx:
    """handed to a case"""
    def __init__(self, spec, scratch, crumb_fd):
        self.spec, self.dir = spec, scratch
        self.seed = spec.get("seed", 0)
        self.n = {}            # counters
        self.samples = []
        self.sig = []          # what this case exercised (for distinctness)
        self.log = []
        self._fd = crumb_fd

    def count(self, k, by=1):
        self.n[k] = self.n.get(k, 0) + by

    def rng(self, *a):
        return random.Random("%s:%s" % (self.seed, ":".join(map(str, a))))

    def steps(self, default=100):
        only = self.spec.get("only")
        return only if only is not None else range(self.spec.get("n", default))

    def crumb(self, s):
        """breadcrumb: the operation about to run (survives a crash of the process)"""
        os.pwrite(self._fd, ("%-120s" % s)[:120].encode("utf-8", "replace"), 0)

    def op(self, kind, detail=""):
        self.count("op." + kind)
        self.crumb(kind)
        self.log.append(f"{kind} {detail}" if detail != "" else kind)
        if self.spec.get("trace"):
            print(self.log[-1], file=sys.stderr, flush=True)

    def check(self, cond, key, msg=""):
        self.count("checked")
        if not cond:
            raise Violation(key, msg() if callable(msg) else msg)

    def eq(self, got, want, key, what=""):
        self.count("checked")
        if got != want:
            raise Violation(key, f"{what}: got {short(got)} want {short(want)}")


def short(x, n=600):
    try:
        s = repr(x)
    except Exception as e:
        s = f"<unreprable {type(x).__name__}: {e}>"
    return s if len(s) <= n else s[:n] + "..."


def run_child(mod, spec, scratch, crumb_fd, wfd):
    ctx = Ctx(spec, scratch, crumb_fd)
    res = {}
    try:
        mod.case(ctx, spec)
        res["verdict"] = "ok"
    except Violation as v:
        res.update(verdict="violation", key=v.key, msg=v.msg, tb=traceback.format_exc()[-3000:])
    except Inconclusive as v:
        res.update(verdict="inconclusive", msg=str(v))
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        res.update(verdict="exception", key=type(e).__name__, msg=str(e)[:2000], tb=traceback.format_exc()[-4000:],
                   last=f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}")
    res["log"] = ctx.log[-400:] if res["verdict"] != "ok" else []
    res["n"] = ctx.n
    res["samples"] = ctx.samples[:2] or ([" ; ".join(ctx.log[:12])[:400]] if ctx.log else [])
    res["sig"] = str(hash(tuple(map(str, ctx.sig)))) if ctx.sig else None
    data = (json.dumps(res, default=short) + "\n").encode()
    while data:
        k = os.write(wfd, data)
        data = data[k:]


def run_case(mod, spec, limit):
    scratch = tempfile.mkdtemp(prefix="dbzv-", dir=SCRATCH_ROOT)
    crumb_fd = os.open(os.path.join(scratch, ".crumb"), os.O_RDWR | os.O_CREAT)
    os.mkdir(scratch + "/db")
    errf = os.path.join(scratch, ".stderr")
    r, w = os.pipe()
    t0 = time.time()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            os.close(r)
            fd = os.open(errf, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
            os.dup2(fd, 1); os.dup2(fd, 2)
            os.chdir(scratch)
            run_child(mod, spec, scratch + "/db", crumb_fd, w)
            os.close(w)
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    timed_out = False
    while True:
        left = t0 + limit - time.time()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
            if buf.endswith(b"\n"):
                break
    os.close(r)
    if not buf.endswith(b"\n") and not timed_out:
        _, st = os.waitpid(pid, 0)       # died by itself
    else:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    crumb = os.pread(crumb_fd, 120, 0).decode("utf-8", "replace").strip()
    os.close(crumb_fd)
    err = ""
    try:
        with open(errf, errors="replace") as f:
            err = f.read()
        if os.environ.get("DBZ_STDERR"): open(os.environ["DBZ_STDERR"], "w").write(err)
        err = err if len(err) < 12000 else err[:9000] + "\n.....\n" + err[-3000:]
    except OSError:
        pass
    if buf.endswith(b"\n"):
        res = json.loads(buf)
    elif timed_out:
        res = {"verdict": "timeout", "key": "hang:" + crumb}
    else:
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
        code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else 0
        if sig == signal.SIGKILL:
            res = {"verdict": "inconclusive", "msg": "killed (memory?)"}
        else:
            res = {"verdict": "crash", "key": "crash:" + crumb, "msg": f"signal {sig} exit {code} during {crumb}"}
    res["stderr"] = err
    res["crumb"] = crumb
    res["t"] = time.time() - t0
    shutil.rmtree(scratch, ignore_errors=True)
    return res


def main():
    mod = importlib.import_module(sys.argv[1])
    if hasattr(mod, "worker_init"):
        mod.worker_init()
    out = os.fdopen(os.dup(1), "w", buffering=1)
    os.dup2(2, 1)
    gc.collect(); gc.freeze()
    for line in sys.stdin:
        spec = json.loads(line)
        res = run_case(mod, spec, spec.get("limit", 60))
        res["spec"] = spec
        out.write(json.dumps(res) + "\n")


if __name__ == "__main__":
    import wk               # (one copy of this module: the cases import its classes by that name)
    wk.main()
