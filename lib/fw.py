"""Runner side of a check: builds, spreads cases over workers, judges, writes evidence."""
import sys, os, json, time, subprocess, threading, queue, re, signal, hashlib, tempfile
LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
sys.path.insert(0, LIB)
import build

PY = "/opt/vp/venv/bin/python"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
OUTDIR = os.path.join(VERIF, ".cache", "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known(pid):
    """-> {key: description} of the listed findings of this property"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def gcc_file(n):
    return subprocess.run(["gcc", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip()


def py_env(variant="plain", preload=(), extra=None):
    site, _ = build.ext(variant)
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "LD_PRELOAD")}
    env.update(PYTHONPATH=os.pathsep.join([site, LIB, os.path.join(VERIF, "checks")]), PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", DBZ_SITE=site, DBZ_LIB=LIB, LANG="C.UTF-8")
    pl = list(preload)
    if variant == "asan":
        pl = [gcc_file("libasan.so"), gcc_file("libubsan.so")] + pl
        env.update(PYTHONMALLOC="malloc", ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:detect_odr_violation=0",
                   UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:abort_on_error=1")
    if variant == "tsan":
        pl = [gcc_file("libtsan.so")] + pl
    if pl:
        env["LD_PRELOAD"] = " ".join(pl)
    if extra:
        env.update(extra)
    return env


class Pool:
    def __init__(self, module, env, jobs):
        self.module, self.env, self.jobs = module, env, jobs

    def run(self, specs, on_result):
        q = queue.Queue()
        for s in specs:
            q.put(s)
        lock = threading.Lock()
        errors = []

        def loop():
            p = None
            try:
                while True:
                    try:
                        s = q.get_nowait()
                    except queue.Empty:
                        break
                    if p is None:
                        p = subprocess.Popen([PY, os.path.join(LIB, "wk.py"), self.module], env=self.env, text=True,
                                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
                        tail = []
                        threading.Thread(target=lambda f=p.stderr: tail.extend(f), daemon=True).start()
                    p.stdin.write(json.dumps(s) + "\n"); p.stdin.flush()
                    line = p.stdout.readline()
                    if not line:
                        p.wait()
                        time.sleep(0.1)
                        raise RuntimeError("worker died: " + "".join(tail)[-3000:])
                    with lock:
                        on_result(json.loads(line))
            except Exception as e:
                errors.append(repr(e))
                while not q.empty():
                    try: q.get_nowait()
                    except queue.Empty: break
            finally:
                if p is not None:
                    try:
                        p.stdin.close(); p.wait(timeout=20)
                    except Exception:
                        p.kill()
        ts = [threading.Thread(target=loop) for _ in range(min(self.jobs, max(1, q.qsize())))]
        [t.start() for t in ts]; [t.join() for t in ts]
        if errors:
            raise RuntimeError(errors[0])


HARNESS_EXC = ("NameError", "ImportError", "ModuleNotFoundError", "SyntaxError", "UnboundLocalError", "MemoryError",
               "BlockingIOError", "HarnessError")


class Check:
    def __init__(self, pid, level="exploration", rule="", assumptions=()):
        self.pid, self.level, self.rule, self.assumptions = pid, level, rule, list(assumptions)
        self.t0 = time.time()
        self.n = {}; self.sigs = set(); self.samples = []
        self.evals = 0; self.inconclusive = []; self.violations = {}; self.known_hit = {}
        self.known = known(pid)
        self.extra = {}
        self.errors, self.pl, self.penv = [], [], None
        self.max_viol = 3
        self.progress = os.environ.get("DBZ_PROGRESS")

    # ---- running
    def cases(self, module, specs, variant="plain", jobs=8, preload=(), env=None, shrink=True, exc_ok=False):
        """run all; a spec may carry "probe": key, a directed case that re-checks one known finding"""
        specs = list(specs)
        only = os.environ.get("DBZ_ONLY")
        if only:
            specs = [s for s in specs if only in json.dumps(s)]
        penv = py_env(variant, preload, env)
        self.pl, self.penv = list(preload), env
        pool = Pool(module, penv, int(os.environ.get("DBZ_JOBS", jobs)))
        retry = []

        def on(res):
            s = res["spec"]
            self.evals += 1
            for k, v in res.get("n", {}).items():
                self.n[k] = self.n.get(k, 0) + v
            if res.get("sig"):
                self.sigs.add(res["sig"])
            if res.get("samples") and len(self.samples) < 5:
                self.samples += res["samples"]
            v = res["verdict"]
            if self.progress and v != "ok":
                print("  ", v, res.get("key"), (res.get("msg") or "")[:300], json.dumps(s)[:150], file=sys.stderr, flush=True)
            if v == "ok":
                return
            if v == "inconclusive":
                self.inconclusive.append(res.get("msg"))
            elif v == "timeout":
                if s.get("retried"):
                    self._violation(res, module, variant)
                else:
                    retry.append(dict(s, retried=1, limit=2 * s.get("limit", 60)))
            elif v == "exception" and (res["key"] in HARNESS_EXC or "Errno 28" in res["msg"] or "Errno 24" in res["msg"]):
                self.errors.append(res)
            elif v == "exception":
                # the engine raised where the workload only does what the API allows
                res["key"] = f"exc:{res['key']}@{res.get('crumb', '')}"
                self._violation(res, module, variant)
            else:
                self._violation(res, module, variant)
        pool.run(specs, on)
        if retry:
            Pool(module, penv, 2).run(retry, on)
        return self

    def _violation(self, res, module, variant):
        key = re.sub(r"\s+", "_", res["key"])
        if key in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return
        if key not in self.violations:
            os.makedirs(OUTDIR, exist_ok=True)
            path = os.path.join(OUTDIR, f"{self.pid}-{hashlib.sha256(key.encode()).hexdigest()[:10]}.json")
            res.update(property=self.pid, module=module, variant=variant, preload=self.pl, env=self.penv)
            json.dump(res, open(path, "w"), indent=1)
            self.violations[key] = [path, 0, res]
        self.violations[key][1] += 1

    def violation(self, key, msg, data=None):
        self._violation({"key": key, "msg": msg, "data": data, "verdict": "violation", "spec": {}}, "-", "-")

    # ---- ending
    def finish(self, min_events=None, distinct=None):
        """min_events {counter: least count}: a run that observed less decides nothing (error exit)"""
        wall = time.time() - self.t0
        nd = distinct if distinct is not None else len(self.sigs)
        cov = dict(evaluations=self.evals, distinct_nontrivial=nd, rule=self.rule, samples=self.samples[:5] or ["-"],
                   events=dict(sorted(self.n.items())), inconclusive=len(self.inconclusive), **self.extra)
        nviol = sum(v[1] for v in self.violations.values())
        ev = dict(property=self.pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=self.level,
                  coverage=cov, wall_s=round(wall, 2), violations=nviol, assumptions=self.assumptions)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        print(f"{self.pid}: {self.evals} cases, {nd} distinct, {self.n.get('checked', 0)} oracle comparisons, "
              f"{len(self.inconclusive)} inconclusive, {wall:.1f}s")
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {self.known[k]}" + ("" if k in self.known_hit else " (not observed in this run)"))
        if self.violations:
            for k, (path, cnt, res) in sorted(self.violations.items()):
                print(f"VIOLATION property={self.pid} replay={path}")
                print(f"  key={k} x{cnt}: {(res.get('msg') or '')[:600]}")
            sys.exit(1)
        if self.errors:
            e = self.errors[0]
            print(f"HARNESS ERROR x{len(self.errors)}: {e.get('key')} {e.get('msg')}\n{e.get('tb')}\nspec={json.dumps(e['spec'])}\nlog tail: {e.get('log')[-10:]}", file=sys.stderr)
            sys.exit(2)
        if len(self.inconclusive) > max(3, self.evals // 5):
            print("too many inconclusive cases:", self.inconclusive[:3], file=sys.stderr)
            sys.exit(3)
        for k, least in (min_events or {}).items():
            if self.n.get(k, 0) < least:
                print(f"observed too little: {k}={self.n.get(k, 0)} < {least}", file=sys.stderr)
                sys.exit(3)
        sys.exit(0)


def seeds(n, salt=""):
    """n case seeds derived from VERIF_SEED"""
    import random
    r = random.Random(f"{SEED}:{salt}")
    return [r.randrange(1 << 40) for _ in range(n)]


def replay(path, shrink=False):
    """re-run a recorded case with tracing; shrink = ddmin over its steps"""
    rec = json.load(open(path))
    env = py_env(rec.get("variant", "plain"), rec.get("preload") or (), rec.get("env"))
    spec = dict(rec["spec"])

    def once(s):
        out = []
        Pool(rec["module"], env, 1).run([s], out.append)
        return out[0]
    if shrink and "n" in spec:
        want = once(spec).get("key")
        print("key:", want)
        cur = list(spec.get("only") or range(spec["n"]))
        k = 2
        while len(cur) >= 2:
            ch = max(1, len(cur) // k)
            parts = [cur[i:i + ch] for i in range(0, len(cur), ch)]
            cands = [dict(spec, only=[x for j, p in enumerate(parts) if j != i for x in p]) for i in range(len(parts))]
            hit = []
            Pool(rec["module"], env, 8).run(cands, lambda r: hit.append(r["spec"]["only"]) if r.get("key") == want else None)
            if hit:
                cur = min(hit, key=len); k = max(k - 1, 2)
            elif ch == 1:
                break
            else:
                k = min(k * 2, len(cur))
        spec["only"] = cur
        print("shrunk to", len(cur), "steps", cur)
    r = once(dict(spec, trace=1))
    print(json.dumps({k: r.get(k) for k in ("verdict", "key", "msg")}, indent=1))
    print(r.get("tb", "")); print(r.get("stderr", "")[-8000:])


if __name__ == "__main__":
    replay(sys.argv[1], "--shrink" in sys.argv)
