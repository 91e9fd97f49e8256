"""C08: objects live exactly as long as something refers to them; reported reference counts equal the stored references."""
import sys, os


def case(ctx, spec):
    import dbzero as db0, world
    r = ctx.rng("w")
    db0.init(ctx.dir)
    db0.open("px", "rw", autocommit=False)
    if spec.get("cache"): db0.set_cache_size(spec["cache"])
    heavy = dict(drop=7, tag=6, untag=6, unix=5, L=12, delpart=3, delx=4, ref=5)
    w = world.World(ctx, r, max_nodes=spec.get("nodes", 12), weights=heavy, hold=spec.get("hold", 0))
    ids = {}                        # uid -> uuid
    gone, alive_lang = {}, {}       # dead uid -> uuid ; uid -> object a language variable refers to

    def learn():
        """identifiers of the nodes and collections which exist now"""
        w.held.clear()
        for uid in list(w.m.nodes):
            n = w.root.nodes[uid]
            ids[uid] = db0.uuid(n)
        n = None

    def audit(final=False):
        """just after a commit, no handle kept by the harness except those in alive_lang"""
        m = w.m
        ctx.crumb("audit:refcount")
        for uid in m.all:
            if uid in ids:
                n = db0.fetch(ids[uid])
                ctx.eq(n.uid, uid, "fetch-other", f"node {uid}")
                ctx.eq(db0.getrefcount(n), m.refcount(uid), "refcount", f"node {uid}")
                ctx.count("refcounts")
                n = None
        ctx.crumb("audit:dead")
        for uid, u in gone.items():
            ctx.check(not db0.exists(u), "dead-exists", lambda: f"node {uid} {u}")
            try: db0.fetch(u)
            except Exception: pass
            else: ctx.check(False, "dead-fetched", f"node {uid}")
            ctx.count("dead_checked")
        ctx.crumb("audit:find")
        got = sorted(o.uid for o in db0.find(world.Node))
        ctx.eq(got, sorted(m.all), "find-type", "live objects by type")
        ctx.count("dumps")

    def buried(dead):
        for u in dead:
            w.unhold(u, all_=True)
            if u in ids: gone[u] = ids[u]

    learn()
    k = 0
    for i in ctx.steps(60):
        rr = ctx.rng("step", i); w.r = rr
        c = rr.random()
        if c < .8:
            op = w.choose()
            keep = None
            if rr.random() < .25 and w.m.nodes:
                # keep a language reference to a node across whatever happens to it
                u = rr.choice(list(w.m.nodes))
                if u in ids and u not in alive_lang: keep = u; alive_lang[u] = w.root.nodes[u]; w.m.pins.add(u)
            ctx.op(op[0], str(op[1:])[:200])
            w.to_real(op, w.m)
            buried(w.to_model(op))
            if keep and keep in w.m.nodes and rr.random() < .8:
                # (mostly keep those which nothing else refers to)
                del alive_lang[keep]; w.m.pins.discard(keep); buried(w.m.gc())
        elif c < .9:
            k += 1; w.stamp(k)
            learn()
            ctx.op("commit", k); w.held.clear()
            db0.commit()
            audit()
        elif c < .94:
            ctx.op("look-lang")
            for u, o in alive_lang.items():
                if u not in w.m.nodes: ctx.count("lang_only")
                got = {"n." + kk: world.canon(v) for kk, v in world.node_fields(o).items()}
                want = {"n." + kk: world.canon(v) for kk, v in vars(w.m.all[u]).items() if kk[0] != "_" and kk != "cls"}
                d = world.diff(got, want)
                ctx.check(not d, "lang-only-differs", lambda: f"node {u} {d}")
                ctx.count("lang_only_reads")
            o = None
        elif c < .97:
            ctx.op("release")
            if alive_lang:
                u = rr.choice(list(alive_lang)); del alive_lang[u]; o = None; w.m.pins.discard(u); buried(w.m.gc())
                w.held.clear(); db0.commit(); audit()
        elif c < .985:
            ctx.op("purge"); w.held.clear(); db0.clear_cache()
        else:
            ctx.op("reopen")
            alive_lang.clear(); o = None; w.m.pins.clear(); buried(w.m.gc())
            learn(); w.forget(); db0.close(); db0.init(ctx.dir); db0.open("px", "rw", autocommit=False); w.reopen_root()
            audit()
    learn()
    alive_lang.clear(); o = None; w.m.pins.clear(); buried(w.m.gc())
    w.held.clear(); db0.commit(); audit()
    w.verify("end")
    # drop everything: nothing but the root may remain
    ctx.op("drop-all")
    for uid in sorted(w.m.nodes, reverse=True): 
        for t in sorted(w.m.nodes[uid]._tags): w.step(("untag", uid, t))
        for key, u in [e for e in w.m.ix if e[1] == uid]: w.step(("unix", u, key))
    for uid in sorted(list(w.m.nodes), reverse=True): w.step(("drop", uid))
    # nodes alive by the index or a tag only
    for u in list(w.m.all):
        n = db0.fetch(ids[u]) if u in ids else next(x for x in db0.find(world.Node) if x.uid == u)
        for t in sorted(w.m.all[u]._tags): db0.tags(n).remove(t); w.m.all[u]._tags.discard(t)
        for e in [e for e in w.m.ix if e[1] == u]: w.root.ix.remove(e[0], n); w.m.ix.remove(e)
        n = None
    w.m.gc(); w.held.clear()
    db0.commit()
    for u in ids: gone[u] = ids[u]
    audit(final=True)
    ctx.eq(len(list(db0.find(world.Node))), 0, "drop-all-find")
    w.forget(); db0.close(); db0.init(ctx.dir); db0.open("px", "r")
    ctx.eq(len(list(db0.find(world.Node))), 0, "drop-all-reopened")
    for u in gone.values(): ctx.check(not db0.exists(u), "dead-exists-reopened")
    db0.close()
    ctx.sig.append((spec["seed"],))
    ctx.samples.append("; ".join(ctx.log[:12]))


def main():
    from fw import Check, seeds, THOROUGH
    c = Check("C08", rule="one case = a random history of references made and dropped, audited after every commit; distinct = distinct seeds whose history ran to the end")
    specs = []
    for i, s in enumerate(seeds(2500 if THOROUGH else 240, "c08")):
        specs.append(dict(seed=s, n=[60, 120, 30][i % 3], hold=[0, 0, .5][(i // 2) % 3], nodes=[5, 14][(i // 3) % 2], cache=[None, None, 1 << 18][(i // 4) % 3]))
    c.cases("c08", specs)
    c.finish(min_events={"refcounts": 3000, "dead_checked": 800, "lang_only": 20})


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
    main()
