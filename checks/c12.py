"""C12: results do not depend on the cache; the page cache follows its limit."""
import sys, os


def main():
    from fw import Check, seeds, THOROUGH
    c = Check("C12", rule="one case = a random history under a changing, mostly far too small page cache (the model has no cache), or a bulk history whose data exceeds the cache many times; distinct = seeds run to the end")
    specs = []
    for i, s in enumerate(seeds(1500 if THOROUGH else 130, "c12")):
        specs.append(dict(seed=s, kind="world", n=[80, 160, 300][i % 3], hold=[0, .35, .9][(i // 3) % 3], nodes=[25, 60][i % 2],
                          slab=[None, 1 << 20][i % 2], step=[None, 1 << 16][(i // 2) % 2]))
    for i, s in enumerate(seeds(300 if THOROUGH else 40, "c12b")):
        specs.append(dict(seed=s, kind="bulk", n=[25, 60][i % 2], limit=120))
    c.cases("c12", specs)
    c.finish(min_events=dict(dumps=200, bounds=500, shrinks=30))


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
    main()

import dbzero as db0

SIZES = [0, 0, 1, 1, 4096, 20000, 65536, 1 << 18, 1 << 20, 1 << 26]
SLACK = 600 << 10           # pages in use (objects held, the allocator's own) cannot be released


def size(): return db0.get_cache_stats()["size"]


def bound(ctx, cap, what, slack=SLACK):
    """the cache holds at most its limit, apart from what is in use"""
    s = size()
    ctx.check(0 <= s < 1 << 40, "size:sane", lambda: f"{s}")
    ctx.check(s <= cap + slack, "bound:" + what, lambda: f"{s} bytes cached, limit {cap}")
    ctx.check(db0.get_cache_stats()["capacity"] == cap, "capacity", lambda: f"{db0.get_cache_stats()} {cap}")
    ctx.count("bounds")


def world_case(ctx, spec):
    import world
    r = ctx.rng("w")
    db0.init(ctx.dir)
    opts = {"autocommit": False}
    if spec.get("slab"): opts["slab_size"] = spec["slab"]
    if spec.get("step"): opts["page_io_step_size"] = spec["step"]
    db0.open("px", "rw", **opts)
    w = world.World(ctx, r, max_nodes=spec["nodes"], hold=spec["hold"])
    snaps = []; k = 0
    for i in ctx.steps(100):
        rr = ctx.rng("step", i)
        w.r = rr
        c = rr.random()
        if c < .15:
            s = rr.choice(SIZES)
            ctx.op("set_cache_size", s); db0.set_cache_size(s); ctx.count("resizes")
        elif c < .2:
            ctx.op("clear_cache"); db0.clear_cache(); ctx.count("purges")
        w.step()
        if c > .9:
            k += 1; w.stamp(k); ctx.op("commit"); db0.commit()
            if rr.random() < .3 and len(snaps) < 3: ctx.op("snapshot"); snaps.append((db0.snapshot(), world.mdump(w.m)))
        elif c > .86: w.verify("live")
        elif c > .84:
            for sn, want in snaps:
                ctx.op("snapshot-dump")
                world.expect(ctx, world.dump(sn.fetch(world.Root), sn.find), want, "snapshot")
    w.verify("end")
    for sn, want in snaps:
        ctx.op("snapshot-dump")
        world.expect(ctx, world.dump(sn.fetch(world.Root), sn.find), want, "snapshot"); sn.close()
    del snaps
    w.forget(); db0.close()
    db0.init(ctx.dir); db0.open("px", "r"); db0.set_cache_size(4096)
    w.reopen_root(); w.verify("reopened")
    w.forget(); db0.close()
    ctx.sig.append(spec["seed"]); ctx.samples.append("; ".join(ctx.log[:8]))


@db0.memo(singleton=True)
class Bulk:
    def __init__(self):
        self.l = []; self.d = {}; self.s = set(); self.ix = db0.index(); self.o = []


@db0.memo
class Item:
    def __init__(self, k, t): self.k = k; self.t = t


def bulk_case(ctx, spec):
    r = ctx.rng("w")
    db0.init(ctx.dir)
    db0.open("px", "rw", autocommit=False)
    cap = r.choice([1 << 18, 1 << 19, 1 << 20, 1 << 21])
    ctx.op("set_cache_size", cap); db0.set_cache_size(cap)
    L, D, S, O = [], {}, set(), []
    b = Bulk()
    text = lambda: "%08x" % r.randrange(1 << 32) * r.choice([1, 10, 60])
    for i in ctx.steps(40):
        r = ctx.rng("step", i)
        k = r.randrange(9); n = r.choice([50, 400, 1500])
        if k == 0:
            v = [text() for _ in range(n)]; ctx.op("list", n); b.l.extend(v); L += v
        elif k == 1:
            v = {r.randrange(20000): text() for _ in range(n)}; ctx.op("dict", n)
            for x, y in v.items(): b.d[x] = y
            D.update(v)
        elif k == 2:
            v = [r.randrange(1 << 30) for _ in range(n)]; ctx.op("set", n); b.s.update(v); S |= set(v)
        elif k == 3:
            ctx.op("objects", n)
            for _ in range(n // 4):
                t = text(); o = Item(len(O), t); b.o.append(o); b.ix.add(len(O) % 97, o); db0.tags(o).add("m%d" % (len(O) % 5)); O.append(t)
            o = None
        elif k == 4:
            cap = r.choice([1 << 17, 1 << 18, 1 << 19, 1 << 20, 1 << 22]); ctx.op("set_cache_size", cap)
            db0.commit()
            before = size()
            db0.set_cache_size(cap)
            if before > cap: ctx.count("shrinks")
            bound(ctx, cap, "shrink")
        elif k == 5:
            ctx.op("clear_cache"); db0.commit(); db0.clear_cache(); ctx.count("purges")
            bound(ctx, cap, "bound")
            ctx.check(size() <= SLACK, "purged", lambda: str(size()))
        elif k == 6 and L:
            ctx.op("read")
            for x in [r.randrange(len(L)) for _ in range(300)]: ctx.check(b.l[x] == L[x], "list:item")
            for x in r.sample(sorted(D), min(len(D), 300)): ctx.check(b.d[x] == D[x], "dict:item")
            for x in range(0, len(O), 7): ctx.check(b.o[x].t == O[x], "object:text")
            for x in [r.randrange(1 << 30) for _ in range(20)] + r.sample(sorted(S), min(len(S), 100)): ctx.check((x in b.s) == (x in S), "set:member")
            ctx.count("dumps")
        elif k == 7 and O:
            ctx.op("query")
            t = r.randrange(5)
            ctx.eq(sorted(o.k for o in db0.find("m%d" % t)), [x for x in range(len(O)) if x % 5 == t], "query")
            lo = r.randrange(97)
            ctx.eq(sorted(o.k for o in b.ix.select(lo, lo + 3)), [x for x in range(len(O)) if lo <= x % 97 <= lo + 3], "index")
            o = None
        else: ctx.op("commit"); db0.commit()
        bound(ctx, cap, "after")
    # other prefixes come and go; the limit still holds
    for j in range(3):
        ctx.op("side")
        db0.open("side%d" % j, "rw", autocommit=False)
        x = db0.list(["z" * 900] * 500); del x
        db0.commit()
        db0.close("side%d" % j); bound(ctx, cap, "side")
        ctx.eq(list(b.l)[-5:], L[-5:], "list")
    ctx.eq(len(b.l), len(L), "list:length"); ctx.eq(list(b.l), L, "list")
    ctx.eq({k: v for k, v in b.d.items()}, D, "dict"); ctx.eq(set(b.s), S, "set")
    db0.commit(); db0.clear_cache(); bound(ctx, cap, "end")
    ctx.check(size() <= SLACK, "purged", lambda: str(size()))
    db0.open("px", "rw", autocommit=False)
    del b
    db0.close(); db0.init(ctx.dir); db0.open("px", "r"); cap = 1 << 17; db0.set_cache_size(cap)
    b = Bulk()
    ctx.eq(list(b.l), L, "reopened:list"); bound(ctx, cap, "reader")
    ctx.eq({k: v for k, v in b.d.items()}, D, "reopened:dict"); bound(ctx, cap, "reader")
    ctx.eq(set(b.s), S, "reopened:set"); ctx.eq([o.t for o in b.o], O, "reopened:objects"); bound(ctx, cap, "reader")
    ctx.count("dumps")
    ctx.sig.append(spec["seed"]); ctx.samples.append("; ".join(ctx.log[:8]))
    b = None
    db0.close()


def case(ctx, spec):
    (world_case if spec["kind"] == "world" else bulk_case)(ctx, spec)
