"""C14: what happens on one prefix changes nothing another one holds."""
import sys, os


def case(ctx, spec):
    import dbzero as db0, world, hashlib
    r = ctx.rng("w")
    P = [f"p{i}" for i in range(spec["n_prefixes"])]
    kw = {p: {"page_io_step_size": 1 << r.choice([16, 18])} if r.random() < .4 else {} for p in P}
    W, committed, at, num, files = {}, {}, {}, {}, {}
    dirty = set()
    snaps = []                  # (snapshot, {prefix: image})
    file = lambda p: os.path.join(ctx.dir, p + ".db0")
    digest = lambda p: hashlib.sha1(open(file(p), "rb").read()).hexdigest()

    def use(p): db0.open(p, "rw", autocommit=False, **kw[p])
    def find(p): return lambda *a: db0.find(*a, prefix=p)
    def number(p): return db0.get_state_num(p, finalized=True)

    def start():
        db0.init(ctx.dir)
        for p in r.sample(P, len(P)): use(p)

    def finished(p):
        """p has just been committed"""
        committed[p] = world.mdump(W[p].m); num[p] = number(p); at[p][num[p]] = committed[p]; files[p] = digest(p); dirty.discard(p)

    def others(p, what):
        """nothing has happened to those not in p"""
        for q in W:
            if q in p: continue
            ctx.eq(number(q), num[q], "state-number", f"{what}: {q}")
            ctx.eq(digest(q), files[q], "file", f"{what}: the file of {q} changed"); ctx.count("untouched")

    def look(q, what):
        use(q); W[q].verify(f"{what}"); ctx.count("looked")

    start()
    for p in P:
        use(p); W[p] = world.World(ctx, r, max_nodes=spec["nodes"], hold=.25); at[p] = {}
    db0.commit()
    for p in P: finished(p)
    k = 0
    for i in ctx.steps(spec["n"]):
        rr = ctx.rng("step", i)
        p = rr.choice(list(W)); w = W[p]; w.r = rr
        c = rr.random()
        use(p)
        if c < .72:
            for _ in range(rr.randrange(1, 5)): w.step()
            dirty.add(p)
            if rr.random() < .3: others(dirty | {p}, "change")
        elif c < .84:
            k += 1; w.stamp(k); ctx.op("commit", p); ctx.count("commits"); one = rr.random() < .7 or dirty - {p}
            if one: db0.commit(p)
            else: db0.commit()
            for q in [p] if one else list(W): finished(q)       # (a commit of all may also remove what was only held here)
            others(dirty | {p}, "commit")
            for q in dirty: ctx.check(number(q) == num[q], "state-number", f"commit of {p}: {q}")
        elif c < .88:
            # an atomic block on this one, cancelled
            m = w.m; ctx.op("cancel", p)
            w.forget(); image = world.mdump(m)
            with db0.atomic() as a:
                root = world.Root(); root.cnt = -5; root.log.append("cancelled"); o = world.Node(10**6, []); db0.tags(o).add("red"); root.nodes[10**6] = o; o = None; root = None
                a.cancel()
            use(p); w.reopen_root(); world.expect(ctx, world.dump(w.root), image, "cancelled"); ctx.count("cancels")
            others(dirty | {p}, "cancel"); dirty.add(p)     # (the next commit may give it a number)
        elif c < .91 and len(snaps) < 4:
            if not dirty:
                ctx.op("snapshot")
                snaps.append((db0.snapshot(), {q: committed[q] for q in W})); ctx.count("snapshots")
        elif c < .94 and len(snaps) < 6:
            s = rr.choice(sorted(at[p])); ctx.op("snapshot-of", (p, s))
            snaps.append((db0.snapshot({p: s}), {p: at[p][s]})); ctx.count("snapshots")
            for q in W: ctx.eq(number(q), num[q], "state-number", f"snapshot: {q}")
        elif c < .96 and not snaps and len(W) > 1:
            # this one is closed, the others go on
            ctx.op("close", p); w.forget(); w = None
            db0.close(p); gone = W.pop(p); dirty.discard(p); committed[p] = world.mdump(gone.m); ctx.count("closed")
            others(dirty, "close")
            for q in rr.sample(sorted(W), 1): look(q, "after-close")
            before = digest(p)
            for q in rr.sample(sorted(W), min(2, len(W))):
                use(q); W[q].r = rr
                for _ in range(6): W[q].step()
                db0.commit(q); finished(q)
            ctx.eq(digest(p), before, "closed-file", p)
            ctx.op("open", p); use(p); W[p] = gone; gone.reopen_root(); gone.verify("opened-again"); finished(p)
        else:
            ctx.op("clear"); db0.clear_cache() if rr.random() < .5 else None
        if rr.random() < .12:
            for q in rr.sample(sorted(W), min(2, len(W))): look(q, "live")
        if snaps and rr.random() < .15:
            sn, images = rr.choice(snaps)
            for q in images:
                world.expect(ctx, world.dump(sn.fetch(world.Root, prefix=q), lambda *a: sn.find(*a, prefix=q)), images[q], "snapshot"); ctx.count("snapshot_dumps")
        if snaps and rr.random() < .05: snaps.pop(rr.randrange(len(snaps)))[0].close()
    for sn, _ in snaps: sn.close()
    snaps.clear()
    for q in W: look(q, "end")
    # the default prefix decides where new objects go, and nothing else: the same queries from another current prefix
    for q in W:
        use(r.choice(P)); world.expect(ctx, world.dump(db0.fetch(world.Root, prefix=q), find(q)), world.mdump(W[q].m), "from-other"); ctx.count("from_other")
    final = {q: world.mdump(W[q].m) for q in W}
    for q in W: W[q].forget()
    db0.close()
    # each on its own, in any order, with the others' files out of sight
    for q in r.sample(P, len(P)):
        hidden = [x for x in P if x != q and r.random() < .5]
        for x in hidden: os.rename(file(x), file(x) + "~")
        db0.init(ctx.dir); db0.open(q, "r"); world.expect(ctx, world.dump(db0.fetch(world.Root)), final[q], "alone"); db0.close(); ctx.count("alone")
        for x in hidden: os.rename(file(x) + "~", file(x))
    ctx.sig.append((spec["seed"], k))


def main():
    from fw import Check, seeds, THOROUGH
    c = Check("C14", rule="one case = interleaved random histories on 2-4 prefixes; distinct = histories with different outcomes")
    c.cases("c14", [dict(seed=s, n=[40, 100, 200][i % 3], n_prefixes=2 + i % 3, nodes=[6, 20][i % 2]) for i, s in enumerate(seeds(2000 if THOROUGH else 120, "c14"))])
    c.finish(min_events=dict(untouched=1200, looked=500, commits=400, snapshot_dumps=100, cancels=100, closed=20, alone=200))


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
    main()
