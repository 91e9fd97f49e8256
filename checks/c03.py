"""C03: a snapshot shows exactly the state it was taken of, whatever happens meanwhile; every number can be reopened."""
import sys, os


def case(ctx, spec):
    import dbzero as db0, world
    r = ctx.rng("w")
    db0.init(ctx.dir)
    opts = {"autocommit": False}
    if spec.get("step"): opts["page_io_step_size"] = spec["step"]
    side = spec.get("side")          # a second prefix, committed together with the first, snapshots cover both
    if side: db0.open("py", "rw", **opts)
    db0.open("px", "rw", **opts)
    sm = world.MSide(); sd = world.Side() if side else None
    sh = sm.image()                  # its last committed image
    if side: db0.commit()
    if spec.get("cache"): db0.set_cache_size(spec["cache"])
    w = world.World(ctx, r, max_nodes=spec.get("nodes", 20), hold=spec.get("hold", .35))
    hist = {}                       # state number -> image of the model
    snaps = []                      # [state, snapshot, root or None]
    k = 0

    def look(sn, state, what, other=None):
        ctx.crumb("dump:" + what)
        if other is not None:
            ctx.eq(sn.fetch(world.Side).image(), other, what + ":side")
            ctx.count("side_dumps")
        root = sn.fetch(world.Root)
        world.expect(ctx, world.dump(root, sn.find), hist[state], what)
        ctx.count("snapshot_dumps")
        return root

    for i in ctx.steps(60):
        rr = ctx.rng("step", i); w.r = rr
        c = rr.random()
        if c < .55:
            if side and rr.random() < .3: ctx.op("side"); world.side_step(rr, sd, sm)
            else: w.step()
        elif c < .57:
            # a block (its intermediate states must never be seen)
            m0, nx = w.m.copy(), w.next
            ctx.op("atomic")
            ok = rr.random() < .6
            try:
                with db0.atomic():
                    for _ in range(rr.choice([2, 6])):
                        w.step()
                    if snaps and rr.random() < .5:
                        s = rr.choice(snaps); look(s[1], s[0], "open-in-atomic", s[3])
                    if not ok: raise ZeroDivisionError
            except ZeroDivisionError:
                w.m, w.next = m0, nx; w.held.clear()
        elif c < .72:
            k += 1; w.stamp(k)
            ctx.op("commit", k)
            db0.commit()
            s = db0.get_state_num(prefix="px", finalized=True)
            if s in hist: ctx.check(False, "state-number-reused", f"{s}")
            hist[s] = world.mdump(w.m); sh = sm.image()
            ctx.count("commits")
        elif c < .82 and hist:
            s = rr.choice(list(hist)) if rr.random() < .6 else max(hist)
            how = rr.randrange(3)
            ctx.op("snapshot", f"{s} how{how}")
            if how == 0 and s == max(hist): sn = db0.snapshot()
            elif how == 1: sn = db0.snapshot({"px": s})
            else: sn = db0.snapshot(s)
            o = sh if side else None
            root = look(sn, s, "snapshot-new", o) if rr.random() < .7 else None
            snaps.append([s, sn, root if rr.random() < .5 else None, o])
            if len(snaps) > spec.get("open", 5):
                j = rr.randrange(len(snaps)); ctx.op("snapshot.close")
                snaps[j][2] = root = None; snaps[j][1].close(); del snaps[j]
            root = sn = None
        elif c < .92 and snaps:
            s = rr.choice(snaps)
            ctx.op("look", s[0])
            if s[2] is not None and rr.random() < .6:
                ctx.crumb("dump:snapshot-held")
                world.expect(ctx, world.dump(s[2], s[1].find), hist[s[0]], "snapshot-held"); ctx.count("snapshot_dumps")
            else:
                s[2] = look(s[1], s[0], "snapshot-later", s[3])
        elif c < .94:
            w.verify("live")
        elif c < .97:
            ctx.op("purge"); w.held.clear(); db0.clear_cache()
        elif c < .98:
            ctx.op("resize"); db0.set_cache_size(rr.choice([1 << 16, 1 << 18, 1 << 20, 1 << 28]))
        else:
            ctx.op("reopen")
            for s in snaps: s[2] = None; s[1].close()
            snaps.clear()
            w.stamp(k)
            w.forget(); sd = None; db0.close(); sh = sm.image()
            db0.init(ctx.dir)
            if side: db0.open("py", "rw", **opts)
            db0.open("px", "rw", **opts)
            w.reopen_root()
            if side: sd = world.Side()
            s = db0.get_state_num(prefix="px", finalized=True)
            hist[s] = world.mdump(w.m)
    for s in snaps:
        look(s[1], s[0], "snapshot-end", s[3]); s[2] = None; s[1].close()
    # every committed state is still there under its number
    w.forget(); sd = None
    db0.commit()
    for s in sorted(hist):
        sn = db0.snapshot(s); look(sn, s, "historic"); sn.close()
        ctx.count("historic")
    db0.close()
    db0.init(ctx.dir); db0.open("px", "r")
    for s in rr.sample(sorted(hist), min(6, len(hist))):
        sn = db0.snapshot({"px": s}); look(sn, s, "historic-reopened"); sn.close()
        ctx.count("historic")
    db0.close()
    ctx.sig.append((spec["seed"],))
    ctx.samples.append("; ".join(ctx.log[:12]))


def main():
    from fw import Check, seeds, THOROUGH
    c = Check("C03", rule="one case = a random history with snapshots held open and reopened by number; distinct = distinct seeds whose history ran to the end")
    specs = []
    for i, s in enumerate(seeds(2500 if THOROUGH else 240, "c03")):
        specs.append(dict(seed=s, n=[60, 120, 30][i % 3], hold=[0, .35, .9][(i // 2) % 3], nodes=[6, 20][(i // 6) % 2],
                          step=[None, 1 << 16][(i // 3) % 2], cache=[None, 1 << 16, 1 << 18][(i // 4) % 3], side=i % 4 == 1))
    c.cases("c03", specs)
    c.finish(min_events={"snapshot_dumps": 1500, "historic": 800, "commits": 800, "side_dumps": 200})


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
    main()
