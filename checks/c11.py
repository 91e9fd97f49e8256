"""C11: a prefix has at most one writer; the next one, also after a kill, finds the committed state."""
import sys, os


def case(ctx, spec):
    if not spec["create"]: return compete(ctx, spec)
    import wk
    try: compete(ctx, spec)
    except wk.Violation as e: ctx.check(False, "create-race", str(e))


def compete(ctx, spec):
    import subprocess, json, time, re
    r = ctx.rng("w")
    d = ctx.dir
    base = os.path.dirname(d)
    journal = os.path.join(base, "journal")
    script = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "writer.py")
    end = time.time() + spec["secs"]
    n = [0]

    def start(at=None, secs=None, kill=None):
        n[0] += 1
        err = open(os.path.join(base, f"err{n[0]}"), "w+")
        o = dict(seed=r.randrange(1 << 40), secs=secs if secs is not None else max(0, end - time.time()), block=spec["block"], kill=spec["kill"] if kill is None else kill, step=spec.get("step"), start=at)
        p = subprocess.Popen([sys.executable, script, d, journal, json.dumps(o)], stdout=err, stderr=err)
        return p, err

    if not spec["create"]:
        p, err = start(secs=.0001); ctx.crumb("first writer"); p.wait()
        import dbzero as db0
        if not os.path.exists(d + "/px.db0"):
            db0.init(d); db0.open("px", "rw"); db0.close()
    at = time.time() + 1.0
    end = at + spec["secs"]
    ps = [start(at, spec["secs"]) for _ in range(spec["procs"])]
    ctx.crumb("contention")
    while ps:
        for x in list(ps):
            p, err = x
            if p.poll() is None: continue
            ps.remove(x)
            if p.returncode < 0 and -p.returncode in (9, 14) and spec["kill"]:
                ctx.count("kills")
                if time.time() < end - .3: ps.append(start())
                else: end = max(end, time.time() + .4); ps.append(start(kill=0))      # (somebody has to find what it left)
            elif p.returncode:
                err.seek(0); e = err.read()[-1200:]
                last = [y for y in e.strip().splitlines() if y][-1:] or [""]
                ctx.check(False, "writer-failed:" + re.sub(r"[^A-Za-z.]+", "-", last[0].split(":")[0])[-40:], f"exit {p.returncode}: {e}")
        time.sleep(.01)
    held = set()
    who = None
    for l in open(journal):
        l = l.rstrip("\n")
        if l.startswith("F "):
            ctx.check(False, re.sub(r"[: ].*", "", l[2:]) + (":" + l[2:].split(":")[1].split()[0] if l.startswith("F content") else ""), l)
        if l.startswith("O "):
            ctx.count("opens")
            if who not in (None, l): ctx.count("handovers")
            who = l
        if l.startswith("X "):
            ctx.check(l == "X lock", "open-failed", l); ctx.count("refused")
        if l.startswith("C "): ctx.count("commits")
    ctx.count("checked", 1)
    ctx.sig.append(spec["seed"])
    ctx.samples.append(f"{spec}: {n[0]} processes")


def main():
    from fw import Check, seeds, THOROUGH
    c = Check("C11", rule="one case = several processes competing to write one prefix, some killed; distinct = seeds run to the end")
    specs = []
    for i, s in enumerate(seeds(200 if THOROUGH else 30, "c11")):
        specs.append(dict(seed=s, secs=2.5, procs=[2, 3, 5][i % 3], block=i % 4 == 3, kill=i % 2, create=0, step=[None, 1 << 16][i % 2], limit=60))
    for i, s in enumerate(seeds(3, "c11c")):
        # (known finding: processes that create the same prefix at the same time)
        specs.append(dict(seed=s, secs=.3, procs=6, block=False, kill=0, create=1, step=None, limit=60, probe="create-race"))
    c.cases("c11", specs, jobs=6)
    c.finish(min_events=dict(opens=300, handovers=150, refused=100, commits=500, kills=15))


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
    main()
