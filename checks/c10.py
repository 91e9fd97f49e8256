"""C10: processes reading a prefix that another one writes see committed states only, in order, and eventually the last one."""
import sys, os


class Reader:
    def __init__(self, ctx, i, opts):
        import subprocess, json
        self.json = json
        self.out = os.path.join(os.path.dirname(ctx.dir), f"obs{i}")
        here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "reader.py")
        self.err = open(self.out + ".err", "w+")
        self.p = subprocess.Popen([sys.executable, here, ctx.dir, self.out, json.dumps(opts)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, text=True)
        self.ctx, self.killed = ctx, False

    def send(self, *c):
        try: self.p.stdin.write(self.json.dumps(c) + "\n"); self.p.stdin.flush()
        except BrokenPipeError: pass

    def answer(self):
        for l in self.p.stdout:
            if l.startswith("R "): return self.json.loads(l[2:])
        self.p.wait(); self.err.seek(0); e = self.err.read()[-1500:]
        last = [x for x in e.strip().splitlines() if x][-1:] or [""]
        self.ctx.check(False, "reader-failed:" + last[0].split(":")[0][-40:], f"exit {self.p.returncode}: {e}")

    def observations(self):
        if not os.path.exists(self.out): return []
        res = []
        for l in open(self.out):
            try: res.append(self.json.loads(l))
            except ValueError: pass
        return res


def case(ctx, spec):
    import dbzero as db0, world, time, random
    r = ctx.rng("w")
    opts = {}
    if spec.get("step"): opts["page_io_step_size"] = spec["step"]
    auto = spec.get("auto")
    if auto: db0.init(ctx.dir, autocommit_interval=auto)
    else: db0.init(ctx.dir); opts["autocommit"] = False
    others = ["py"] if spec.get("side") else []
    if others: db0.open("py", "rw", **opts)
    db0.open("px", "rw", **opts)
    w = world.World(ctx, r, max_nodes=spec["nodes"], hold=.3)
    if others: side = world.Side()
    db0.commit()
    hist = {0: (world.mdump(w.m))}          # stamp -> expected image
    begun, done = {0: 0.0}, {0: time.monotonic()}
    last = k = 0
    sides = []
    readers, finished = [], []

    def launch():
        readers.append(Reader(ctx, len(readers) + len(finished), dict(seed=r.randrange(1 << 30), cache=r.choice([0, 0, 1 << 20]), others=others)))
        ctx.count("readers")

    for _ in range(spec["readers"]): launch()
    for x in readers: x.answer()
    if spec["mode"] == "free":
        for x in readers: x.send("free")
    for i in ctx.steps(60):
        rr = ctx.rng("step", i)
        w.r = rr
        if auto:
            # every committed state lies between two atomic blocks
            k += 1
            begun[k] = time.monotonic()
            with db0.atomic():
                for _ in range(rr.randrange(1, 4)): w.step()
                w.stamp(k)
                hist[k] = world.mdump(w.m)
            if rr.random() < .5: time.sleep(rr.random() * .01)
            if rr.random() < .1: db0.commit(); done[k] = time.monotonic(); ctx.count("commits")
            if rr.random() < .05: w.held.clear()
            last = k
        else:
            for _ in range(rr.choice([1, 3, 10])): w.step()
            if others:
                sides.append(i); side.l.append(i); side.n = len(sides); side.d[i % 7] = i
            k += 1; w.stamp(k)
            hist[k] = world.mdump(w.m)
            begun[k] = time.monotonic()
            ctx.op("commit", k)
            db0.commit()
            done[k] = time.monotonic()
            ctx.count("commits"); last = k
            if rr.random() < .1: w.held.clear()
        if spec["mode"] == "step" and rr.random() < .5 or i == spec["n"] - 1:
            if auto: db0.commit(); done[k] = time.monotonic()
            for x in readers: x.send("until", k, 30, sorted(w.m.nodes))
            for x in readers:
                ctx.crumb("reader until")
                a = x.answer()
                ctx.check(a["stamp"] == k, "head:stale", f"shows {a['stamp']} 30 s after commit of {k}")
                world.expect(ctx, a["dump"], hist[k], "head")
                if others: ctx.eq(a["side"][:2], [side.n, list(side.l)], "head:side", "second prefix")
                for uid, im in a["held"].items():
                    m = w.m.all.get(int(uid))
                    if m is None or int(uid) not in w.m.nodes: continue
                    ctx.eq(im, {f: world.canon(v) for f, v in vars(m).items() if f[0] != "_" and f != "cls"}, "held", f"node {uid} held by the reader")
                    ctx.count("held_images")
                ctx.count("heads")
                if spec["mode"] == "free": x.send("free")
        if rr.random() < .06:
            # readers come and go, also by being killed
            x = readers.pop(rr.randrange(len(readers)))
            if rr.random() < .5: x.p.kill(); x.killed = True; ctx.count("killed")
            else: x.send("quit"); ctx.crumb("reader quit"); x.answer()
            finished.append(x); launch()
            ctx.crumb("reader start"); readers[-1].answer()
            if spec["mode"] == "free": readers[-1].send("free")
    for x in readers:
        x.send("quit"); ctx.crumb("reader quit"); x.answer(); finished.append(x)
    # ---- the observations
    for x in finished:
        prev = 0
        dumps = {}
        for o in x.observations():
            s = o["stamp"]
            ctx.check(s >= prev, "order", f"{o['kind']}: stamp {s} after {prev}")
            ctx.check(s in hist and begun[s] <= o["t1"], "uncommitted", f"{o['kind']}: stamp {s} seen before its commit began")
            if o["kind"] == "open":
                low = max(c for c, t in done.items() if t < o["t0"])
                ctx.check(s >= low, "open:stale", f"a fresh reader shows {s}, {low} was committed before it started")
            if o.get("dump"):
                world.expect(ctx, o["dump"][0], hist[s], "snapshot")
                ctx.check(o["again"] == s, "snapshot:moved", f"{s} then {o['again']}")
                if o["dump"][1]:
                    n, l, _ = o["dump"][1]
                    ctx.check(n == len(l) and l == sides[:n], "side", f"n={n} l={l[-3:]} of {sides[:n][-3:]}")
                ctx.count("states_seen")
            prev = max(prev, s)
            ctx.count("obs")
    ctx.sig.append((spec["seed"],))
    w.forget()
    if others: side = None
    db0.close()


def main():
    from fw import Check, seeds, THOROUGH
    c = Check("C10", rule="one case = a writer's history observed by several other processes; distinct = distinct seeds run to the end")
    specs = []
    for i, s in enumerate(seeds(400 if THOROUGH else 28, "c10")):
        specs.append(dict(seed=s, n=[40, 80][i % 2], mode=["free", "step"][(i // 2) % 2], readers=[1, 2, 3][i % 3], nodes=[6, 20][(i // 4) % 2],
                          auto=[0, 0, 5, 40][i % 4], side=i % 4 == 1, step=[None, 1 << 16][(i // 3) % 2], limit=90))
    c.cases("c10", specs, jobs=4)
    c.finish(min_events=dict(obs=1000, states_seen=300, heads=100, commits=500))


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
    main()
