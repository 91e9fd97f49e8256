"""C20: state numbers grow exactly with commits that change something, locked sections report them, waiting is truthful."""
import sys, os


def case(ctx, spec):
    import dbzero as db0, world, time, threading, subprocess, json
    r = ctx.rng("w")
    auto = spec["auto"]
    if auto: db0.init(ctx.dir, autocommit_interval=auto)
    else: db0.init(ctx.dir)
    opts = {} if auto else {"autocommit": False}
    db0.open("py", "rw", **opts); db0.open("px", "rw", **opts)
    w = world.World(ctx, r, max_nodes=10)
    side = world.Side()
    ms = world.MSide()
    side.d["k"] = ms.d["k"] = 0
    db0.commit()
    fin = lambda p: db0.get_state_num(p, finalized=True)
    head = lambda p: db0.get_state_num(p)
    seen = {"px": fin("px"), "py": fin("py")}       # last numbers seen
    dirty = {"px": 0, "py": 0}                      # 0 nothing since the last commit, 1 perhaps, 2 surely
    k = 0
    at = {}                                         # prefix -> {state: image} as committed
    hist = {}                                       # stamp -> state at which it was committed (not with automatic commits)
    if spec["waiter"]:
        wp = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib", "waiter.py"), ctx.dir], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

        def answer():
            for l in wp.stdout:
                if l.startswith("A "): return json.loads(l[2:])
            ctx.check(False, "waiter-died", f"{wp.wait()}")
        ctx.crumb("waiter start"); answer()

    def change(px, sure):
        nonlocal k
        if px == "px":
            for _ in range(w.r.randrange(3)): w.step(); dirty["px"] = max(dirty["px"], 1)
            if sure: k += 1; w.stamp(k); dirty["px"] = 2
        else:
            if sure: k += 1; side.d["k"] = k; ms.d["k"] = k; dirty["py"] = 2
            else: world.side_step(w.r, side, ms); dirty["py"] = max(dirty["py"], 1)

    def image(px):
        return world.mdump(w.m) if px == "px" else ms.image()

    def committed():
        """just after a commit"""
        for px in ("px", "py"):
            f = fin(px)
            if auto: ctx.check(f >= seen[px], "decreased", f"{px}: {f} after {seen[px]}")
            else:
                allowed = {0: (0,), 1: (0, 1), 2: (1,)}[dirty[px]]
                ctx.check(f - seen[px] in allowed, "growth:" + ("idle" if not dirty[px] else "changed"), lambda: f"{px}: {seen[px]} -> {f} though {['nothing', 'perhaps something', 'something'][dirty[px]]} changed")
                ctx.check(head(px) == f + 1, "pending", lambda: f"{px}: pending {head(px)} finalized {f}")
                at.setdefault(px, {})[f] = image(px)
            if dirty[px] == 2: ctx.count("grown")
            if not dirty[px]: ctx.count("idle")
            seen[px] = f; dirty[px] = 0

    def look(px, s, want, key):
        with db0.snapshot({px: s}) as sn:
            if px == "px": world.expect(ctx, world.dump(sn.fetch(world.Root), sn.find), want, key)
            else: ctx.eq(sn.fetch(world.Side).image(), want, key)
        ctx.count("states_read")

    committed()
    for i in ctx.steps(60):
        rr = ctx.rng("step", i); w.r = rr
        c = rr.random()
        if c < .3:
            px = rr.choice(["px", "py"]); sure = rr.random() < .6
            ctx.op("change", (px, sure)); change(px, sure)
        elif c < .4:
            ctx.op("reads"); w.verify("live"); db0.find("red"); list(side.l)
        elif c < .6:
            ctx.op("commit"); w.held.clear() if any(dirty.values()) and dirty["px"] else 0; db0.commit(); committed()
        elif c < .62:
            ctx.op("empty-atomic")
            with db0.atomic(): pass
        elif c < .8:
            # a locked section tells which prefixes it changes and at which state that is visible
            if not auto and rr.random() < .6: db0.commit(); committed()
            todo = rr.choice([[], ["px"], ["py"], ["px", "py"], ["py", "px", "py"]])
            ctx.op("locked", todo)
            atomic = rr.random() < .25
            before = {p: k for p in todo}
            with db0.locked() as lk:
                if atomic:
                    with db0.atomic():
                        for p in todo: change(p, True)
                else:
                    for p in todo: change(p, True); time.sleep(rr.choice([0, 0, .012]) if auto else 0)
                if not todo: list(side.l); w.root.cnt
            log = lk.get_mutation_log()
            names = [a for a, _ in log]
            ctx.check(sorted(set(todo)) == sorted(names), "mutation-log:prefixes", lambda: f"changed {todo}, log {log}")
            db0.commit()
            for p, s in log:
                f = fin(p)
                ctx.check(s <= f, "mutation-log:not-reached", lambda: f"{p}: reported {s}, finalized {f} after a commit")
                with db0.snapshot({p: s}) as sn:
                    got = sn.fetch(world.Root).cnt if p == "px" else sn.fetch(world.Side).d["k"]
                ctx.eq(got, w.m.cnt if p == "px" else ms.d["k"], "mutation-log:visible", f"{p} at the reported state {s}")
                if s > 1:
                    with db0.snapshot({p: s - 1}) as sn:
                        got = sn.fetch(world.Root).cnt if p == "px" else sn.fetch(world.Side).d["k"]
                    ctx.check(got <= before[p], "mutation-log:earlier", lambda: f"{p}: {got} is visible at {s - 1} already, the reported state is {s}")
                ctx.count("reported")
            w.held.clear() if dirty["px"] else 0
            if not auto: committed()
            else:
                for p in ("px", "py"): seen[p] = max(seen[p], fin(p))
        elif c < .9:
            if not spec["waiter"]: continue
            s = fin("px"); n = max(1, s - rr.randrange(3))
            ctx.op("wait", (n, s)); wp.stdin.write(json.dumps([n, 20000]) + "\n"); wp.stdin.flush(); a = answer()
            ctx.check(a[0] and a[1] >= n, "waiter:missed", lambda: f"{n}: {a}, finalized {s}"); ctx.count("waits")
        elif spec["waiter"] and not auto:
            s = fin("px")
            far = rr.random() < .3
            ctx.op("waiter", (s, far))
            if far:
                wp.stdin.write(json.dumps([s + 1, 30]) + "\n"); wp.stdin.flush(); ctx.crumb("waiter"); a = answer()
                ctx.check(not a[0] and a[1] <= s, "waiter:too-early", f"{s + 1} reported as reached: {a}")
            else:
                change("px", True); db0.commit() if rr.random() < .5 else 0
                wp.stdin.write(json.dumps([s + 1, 30000]) + "\n"); wp.stdin.flush()
                time.sleep(rr.random() * .01)
                db0.commit(); ctx.crumb("waiter"); a = answer()
                ctx.check(a[0] and a[1] >= s + 1 and a[2] == w.m.cnt, "waiter:missed", f"{s + 1}: {a}, stamp {w.m.cnt}")
                committed()
            ctx.count("waits")
        else:
            ctx.op("reopen")
            h = {p: fin(p) for p in ("px", "py")}; d = dict(dirty)
            w.forget(); side = None; db0.close()
            if auto: db0.init(ctx.dir, autocommit_interval=auto)
            else: db0.init(ctx.dir)
            db0.open("py", "rw", **opts); db0.open("px", "rw", **opts)
            w.reopen_root(); side = world.Side()
            for px in ("px", "py"):
                f = fin(px)
                ctx.check(f >= h[px] and (auto or f <= h[px] + (d[px] > 0)) and (auto or d[px] < 2 or f == h[px] + 1), "reopened", f"{px}: {h[px]} -> {f}, dirty {d[px]}")
                seen[px] = f
                dirty[px] = 1 if px == "px" else 0      # (objects only held by variables are collected by the next writer)
        if not auto and at.get("px") and rr.random() < .15:
            px = rr.choice(["px", "py"]); s = rr.choice(sorted(at[px])); ctx.op("look", (px, s)); look(px, s, at[px][s], "state-content")
    w.forget(); side = None
    if spec["waiter"]: wp.stdin.close(); wp.wait()
    db0.close()
    ctx.sig.append(spec["seed"]); ctx.samples.append("; ".join(ctx.log[:15]))


def main():
    from fw import Check, seeds, THOROUGH
    c = Check("C20", rule="one case = a random history over two prefixes with commits, locked sections and waits; distinct = seeds run to the end")
    specs = []
    for i, s in enumerate(seeds(1500 if THOROUGH else 110, "c20")):
        specs.append(dict(seed=s, n=60, auto=[0, 0, 4][i % 3], waiter=i % 3 == 1, limit=90))
    c.cases("c20", specs)
    c.finish(min_events=dict(grown=800, idle=400, reported=400, waits=200, states_read=150))


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
    main()
