"""C02: what was committed is what any later process reads; held objects stay valid across commits."""
import sys, os


def case(ctx, spec):
    import dbzero as db0, world
    r = ctx.rng("w")
    db0.init(ctx.dir)
    opts = {"autocommit": False}
    if spec.get("slab"): opts["slab_size"] = spec["slab"]
    if spec.get("step"): opts["page_io_step_size"] = spec["step"]
    db0.open("px", "rw", **opts)
    w = world.World(ctx, r, max_nodes=spec.get("nodes", 25), hold=spec.get("hold", .35))
    k = 0
    for i in ctx.steps(120):
        rr = ctx.rng("step", i)
        w.r = rr
        w.step()
        c = rr.random()
        if c < .2:
            k += 1; w.stamp(k)
            ctx.op("commit", k); db0.commit()
            ctx.count("commits")
        elif c < .25:
            w.verify("live")
        elif c < .28:
            w.held.clear()
            if rr.random() < .5: db0.clear_cache()
        elif c < .30:
            ctx.op("close")
            fast = rr.random() < .7
            w.forget()
            (db0.commit() if rr.random() < .5 else None)
            db0.close()
            if not fast:
                d, err = world.dump_process(ctx.dir, "px")
                ctx.check(d is not None, "other-process-open", err)
                world.expect(ctx, d, world.mdump(w.m), "other-process")
                ctx.count("process_reopens")
            db0.init(ctx.dir); db0.open("px", "rw", **opts)
            w.reopen_root()
            w.verify("reopened")
            ctx.count("reopens")
    w.verify("live-end")
    w.forget()
    db0.close()
    d, err = world.dump_process(ctx.dir, "px")
    ctx.check(d is not None, "other-process-open", err)
    world.expect(ctx, d, world.mdump(w.m), "other-process")
    ctx.count("process_reopens")
    ctx.sig.append((spec["seed"],))
    ctx.samples.append("; ".join(ctx.log[:12]))


def main():
    from fw import Check, seeds, THOROUGH
    c = Check("C02", rule="one case = a random history over the whole object model; distinct = distinct seeds whose history ran to the end")
    specs = []
    for i, s in enumerate(seeds(2000 if THOROUGH else 160, "c02")):
        specs.append(dict(seed=s, n=[60, 150, 300][i % 3], hold=[0, .35, .9][(i // 3) % 3], nodes=[8, 25, 60][(i // 9) % 3],
                          slab=[None, 1 << 20][i % 2], step=[None, 1 << 16, 1 << 18][(i // 2) % 3]))
    c.cases("c02", specs)
    c.finish(min_events=dict(dumps=300, commits=1000, reopens=50))


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
    main()
