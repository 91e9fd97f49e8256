"""C19: every object has one identifier of its own, which leads to it (and to nothing else) for as long as it lives."""
import sys, os


def case(ctx, spec):
    global db0
    import dbzero as db0, gc
    r = ctx.rng("w")

    @db0.memo
    class IObj:
        def __init__(self, i, size, prefix=None):
            db0.set_prefix(self, prefix)
            self.i = i
            if size == 1: self.extra = "x" * 30
            if size == 2: self.a = 1; self.b = 2; self.c = [1, 2]

    @db0.memo
    class IOther:
        def __init__(self, i, size, prefix=None):
            db0.set_prefix(self, prefix)
            self.i = i

    @db0.memo(singleton=True)
    class IRoot:
        def __init__(self, prefix=None):
            db0.set_prefix(self, prefix)
            self.keep = {}

    @db0.memo(singleton=True)
    class ISingle:
        def __init__(self, prefix=None):
            db0.set_prefix(self, prefix)
            self.i = -1

    P = ["px", "py"]
    CL = dict(IObj=IObj, IOther=IOther)
    def open_(mode):
        db0.init(ctx.dir)
        for p in P: db0.open(p, mode, **({"autocommit": False} if mode == "rw" else {}))
        return {p: IRoot(prefix=p) if mode == "rw" else db0.fetch(IRoot, prefix=p) for p in P}
    roots = open_("rw")
    objs = {}           # i -> (prefix, class, uuid, kind)
    dead = {}           # uuid -> i
    every = {}          # uuid -> who ever had it
    held = {}
    single = {}
    nk = 0

    def known(u, who):
        ctx.check(type(u) is str and u, "not-an-id", lambda: f"{u!r}")
        ctx.check(u not in every or every[u] == who, "id-taken", lambda: f"{u}: {who} and {every.get(u)}")
        every[u] = who

    def new(p, hold=False):
        nonlocal nk
        cls = r.choice(["IObj", "IObj", "IOther"])
        ctx.op("new", (nk, cls, p))
        o = CL[cls](nk, r.randrange(3), p)
        u = db0.uuid(o); known(u, ("o", nk))
        roots[p].keep[nk] = o
        ctx.eq(db0.uuid(o), u, "id-changed-by-keeping")
        objs[nk] = (p, cls, u)
        if hold: held[nk] = o
        nk += 1

    def same(o, i):
        p, cls, u = objs[i]
        ctx.check(o.i == i and type(o).__name__ == cls, "wrong-object", lambda: f"{type(o).__name__} {o.i} for {i}")
        ctx.eq(db0.uuid(o), u, "id-changed", str(i))

    def audit(where, gone=True):
        ctx.crumb("audit")
        for i, (p, cls, u) in objs.items():
            o = db0.fetch(u); same(o, i)
            k = roots[p].keep[i]; same(k, i)
            ctx.check(o is k, "two-instances", lambda: f"{i} {where}")
            ctx.check(o == k and not (o != k), "not-equal", str(i))
            if i in held: ctx.check(held[i] is o, "held-instance", lambda: f"{i} {where}"); same(held[i], i); ctx.count("held")
            ctx.check(db0.exists(u), "not-existing", lambda: f"{i} {where}")
            ctx.check(db0.fetch(CL[cls], u) is o, "typed-fetch", str(i))
            ctx.check(db0.get_prefix_of(o).name == p, "prefix", str(i))
            ctx.count("live")
            o = k = None
        for p, cls in ((p, c) for p in P for c in CL):
            ctx.eq(sorted((o.i, db0.uuid(o)) for o in db0.find(CL[cls], prefix=p)), sorted((i, x[2]) for i, x in objs.items() if x[:2] == (p, cls)), "find", f"{where} {p} {cls}")
        for p in P:
            if p in single:
                s = db0.fetch(ISingle, prefix=p); ctx.eq(db0.uuid(s), single[p], "singleton-id", f"{where} {p}"); ctx.check(db0.fetch(single[p]) is s, "singleton-fetch", p)
                ctx.check(IRoot(prefix=p) is roots[p], "root-instance", p) if where != "r" else None
                
                if where != "r": s.i -= 1
                ctx.eq(db0.fetch(single[p]).i, s.i, "singleton-value", p); ctx.count("singletons")
                s = None
        if gone:
            for u, i in dead.items():
                ctx.check(not db0.exists(u), "dead-exists", lambda: f"{i} {where}")
                try: o = db0.fetch(u)
                except Exception as e: ctx.check(type(e).__name__ not in ("SystemError",), "dead-error", repr(e)[:200]); ctx.count("gone")
                else: ctx.check(False, "dead-fetched", lambda: f"{i} gives {type(o).__name__} {getattr(o, 'i', None)} {where}")
        ctx.crumb("")

    def kill(n):
        for i in r.sample(sorted(objs), min(n, len(objs))):
            p, cls, u = objs.pop(i)
            ctx.op("delete", (i, p)); held.pop(i, None); del roots[p].keep[i]; dead[u] = i

    for i in ctx.steps(spec["steps"]):
        r = rr = ctx.rng("step", i)
        c = rr.randrange(100); p = rr.choice(P)
        if c < 30:
            for _ in range(rr.randrange(1, 4)): new(p, rr.random() < .2)
        elif c < 40:
            ks = [k for k in objs if k not in held]
            if ks: k = rr.choice(ks); ctx.op("hold", k); held[k] = db0.fetch(objs[k][2])
        elif c < 45 and held: k = rr.choice(sorted(held)); ctx.op("release", k); del held[k]
        elif c < 55:
            # what is created in a cancelled block never was; what is deleted in one still is
            ctx.op("cancelled")
            save = dict(objs), dict(dead), nk
            old = [db0.fetch(x[2]) for x in objs.values()] if rr.random() < .3 else None
            old = None
            with db0.atomic() as a:
                for _ in range(rr.randrange(1, 3)): new(p)
                if rr.random() < .6 and objs:
                    k = rr.choice(sorted(save[0]) or [None])
                    if k is not None: del roots[save[0][k][0]].keep[k]
                a.cancel()
            for k in [k for k in objs if k not in save[0]]:
                # its identifier may be given to another one: the address and instance number are back
                every.pop(objs[k][2], None)
            objs.clear(); objs.update(save[0]); dead.clear(); dead.update(save[1]); nk = save[2]
        elif c < 63 and p not in single: ctx.op("singleton", p); single[p] = db0.uuid(ISingle(prefix=p)); known(single[p], ("s", p))
        elif c < 66: ctx.op("clear_cache"); db0.clear_cache(); audit("clear_cache", False)
        elif c < 80:
            kill(rr.randrange(1, 5)); gc.collect(); ctx.op("commit"); db0.commit()
            if rr.random() < .6:
                for _ in range(rr.randrange(1, 5)): new(p)
            audit("deleted")
        elif c < 88: ctx.op("commit"); db0.commit(); audit("commit")
        elif c < 94:
            ctx.op("snapshot"); db0.commit(); at = dict(objs)
            with db0.snapshot() as sn:
                for _ in range(2): new(p)
                for k, (q, cls, u) in at.items():
                    o = sn.fetch(u); ctx.check(o.i == k and db0.uuid(o) == u, "snapshot-fetch", str(k)); ctx.count("in_snapshot"); o = None
        else:
            for mode in rr.choice([["rw"], ["r", "rw"]]):
                ctx.op("reopen." + mode); held.clear(); roots = None; db0.close(); roots = open_(mode); audit(mode)
    held.clear(); db0.commit(); audit("end")
    ctx.sig.append(f"{nk} {len(dead)} {sorted(objs)}")
    roots = None; db0.close()


def main():
    from fw import Check, seeds, THOROUGH
    c = Check("C19", rule="one case = a random history of objects and singletons of two prefixes, their identifiers and the storage reused; distinct = histories with different outcomes")
    specs = [dict(seed=s, steps=[40, 80, 140][i % 3]) for i, s in enumerate(seeds(3000 if THOROUGH else 120, "c19"))]
    c.cases("c19", specs)
    c.finish(min_events=dict(live=20000, gone=5000))


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
    main()
