"""C04: atomic blocks apply all or nothing, in memory, on disk and for every commit."""
import sys, os, time, copy


class Boom(Exception):
    pass


def case(ctx, spec):
    import dbzero as db0, world
    r = ctx.rng("w")
    auto = spec.get("auto")
    db0.init(ctx.dir, **({"autocommit_interval": 20} if auto else {}))
    opts = {"autocommit": bool(auto)}
    if spec.get("step"): opts["page_io_step_size"] = spec["step"]
    foreign = spec.get("foreign")       # objects of a second prefix used as tags; the second prefix changed in blocks too
    if foreign: db0.open("py", "rw", **opts)
    db0.open("px", "rw", **opts)
    sm, sd = world.MSide(), world.Side() if foreign else None
    w = world.World(ctx, r, foreign=foreign, max_nodes=spec.get("nodes", 20), hold=spec.get("hold", .35), weights=spec.get("w"))
    # (mostly) classes, fields and tags known to the prefix before the first block
    for c in () if spec.get("cold") else (world.Node, world.Node2):
        n = c(-1, None)
        for p, v in zip(world.PARTS, ([1], {1: 1}, {1}, (1,), db0.bytearray(b"1"), w.root)): setattr(n, p, v)
        for x in range(world.XN): setattr(n, "x%d" % x, x)
        db0.tags(n).add(*world.TAGS); db0.tags(n).remove(*world.TAGS); del n
    db0.commit()
    k = 0
    seen_states = []

    def inside(rr, n):
        for j in range(n):
            if foreign and rr.random() < .2: ctx.op("side"); world.side_step(rr, sd, sm)
            else: w.step()
            c = rr.random()
            if c < .08: w.verify("inside")
            elif c < .1: db0.clear_cache()
            elif auto and c < .3: time.sleep(.012)

    for i in ctx.steps(60):
        rr = ctx.rng("step", i)
        w.r = rr
        c = rr.random()
        if c < .45:
            out = rr.choice(["ok", "ok", "cancel", "raise", "raise"])
            n = rr.choice([0, 1, 2, 5, 12])
            m0, h0, nx = w.m.copy(), dict(w.held), w.next
            sm0 = copy.deepcopy(sm)
            s0 = db0.get_state_num(prefix="px")
            k += 1
            ctx.op("begin", out)
            try:
                with db0.atomic() as a:
                    if auto: w.stamp(k)
                    inside(rr, n)
                    if auto:
                        w.root.log.append(("s", k)); w.m.log.append(("s", k))
                    ctx.op("end", out)
                    if out == "cancel":
                        a.cancel()
                    elif out == "raise":
                        raise Boom()
            except Boom:
                pass
            ctx.count("blocks." + out)
            if out != "ok":
                # handles obtained inside may belong to objects that no longer exist
                w.m = m0; sm = sm0
                w.held = h0 if rr.random() < .8 else {}
                w.next = nx
                w.verify("after-" + out)
                if foreign: ctx.eq(sd.image(), sm.image(), "other-prefix-after-" + out); ctx.count("side_checks")
                if w.held: ctx.count("held_after_rollback", len(w.held))
            elif rr.random() < .5:
                w.verify("after-ok")
        elif c < .8:
            if auto: 
                # (a change of both halves of the pair must be within a block)
                w.w = dict(w.w, log=0)
            w.step()
        elif c < .9:
            if not auto:
                k += 1; w.stamp(k)
            ctx.op("commit", k); db0.commit(); ctx.count("commits")
        elif c < .94:
            w.verify("live")
        elif c < .97:
            w.held.clear(); db0.clear_cache()
        else:
            ctx.op("close")
            w.forget(); sd = None; db0.close()
            db0.init(ctx.dir, **({"autocommit_interval": 20} if auto else {}))
            if foreign: db0.open("py", "rw", **opts)
            db0.open("px", "rw", **opts)
            w.reopen_root()
            if foreign: sd = world.Side(); ctx.eq(sd.image(), sm.image(), "other-prefix-reopened")
            w.verify("reopened"); ctx.count("reopens")
    w.verify("live-end")
    db0.commit()
    if auto:
        # every state ever committed (mostly by the autocommit thread) has both halves of each pair or none
        top = db0.get_state_num(prefix="px", finalized=True)
        for s in range(max(2, top - 150), top + 1):
            ctx.crumb("historic-state")
            try:
                sn = db0.snapshot({"px": s}) if rr.random() < .5 else db0.snapshot(s)
            except Exception as e:
                raise
            try:
                root = sn.fetch(world.Root)
            except Exception:
                sn.close(); continue
            halves = [x for x in root.log if type(x).__name__ in ("tuple", "Tuple")]
            last = list(halves[-1])[1] if halves else 0
            ctx.count("states_checked")
            ctx.eq(last, root.cnt, "partial-block-committed", f"state {s}: last half of a block vs first half")
            del root, halves
            sn.close()
    w.forget(); sd = None
    db0.close()
    d, err = world.dump_process(ctx.dir, "px")
    ctx.check(d is not None, "other-process-open", err)
    world.expect(ctx, d, world.mdump(w.m), "other-process")
    ctx.sig.append((spec["seed"],))
    ctx.samples.append("; ".join(ctx.log[:12]))


def main():
    from fw import Check, seeds, THOROUGH
    c = Check("C04", rule="one case = a random history with atomic blocks; distinct = distinct seeds whose history ran to the end")
    specs = []
    w = None
    if os.environ.get("C04_KINDS"):
        w = {k: 0 for k in "new drop seta setx delx ref setpart delpart L D S B tag untag ix unix log".split()}; w.update({k: 5 for k in os.environ["C04_KINDS"].split(",")})
    for i, s in enumerate(seeds(2000 if THOROUGH else 200, "c04")):
        specs.append(dict(seed=s, n=[40, 90][i % 2], hold=[0, .35, .9][(i // 2) % 3], nodes=[6, 20][(i // 6) % 2],
                          auto=int(i % 5 == 4), step=[None, 1 << 16][(i // 3) % 2], w=w, cold=int(i % 4 != 3), foreign=int(i % 4 == 2)))
    c.cases("c04", specs)
    c.finish(min_events={"dumps": 500, "blocks.ok": 500, "blocks.raise": 500, "blocks.cancel": 200, "states_checked": 200, "side_checks": 100})


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
    main()
