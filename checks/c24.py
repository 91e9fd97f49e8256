"""C24: weak references resolve while the object lives, are reported expired afterwards (also when its storage is used again), and never count."""
import sys, os


def case(ctx, spec):
    global db0                      # (the prefix of a class with set_prefix is found by its use of a global name)
    import dbzero as db0
    r = ctx.rng("w")

    @db0.memo
    class WObj:
        def __init__(self, i, size, prefix=None):
            db0.set_prefix(self, prefix)
            self.i = i
            self.name = f"obj{i}"
            if size == 1: self.extra = ["x" * 10, i]
            if size == 2: self.next = None; self.a = 1; self.b = 2; self.c = 3

    @db0.memo(singleton=True)
    class WRoot:
        def __init__(self, prefix=None):
            db0.set_prefix(self, prefix)
            self.keep = {}; self.other = []; self.lst = []; self.dct = {}; self.ws = db0.weak_set(); self.box = {}

    @db0.memo
    class Box:
        def __init__(self, ref, prefix=None):
            db0.set_prefix(self, prefix)
            self.ref = ref

    P = ["px", "py"]
    def open_(mode):
        db0.init(ctx.dir)
        for p in P: db0.open(p, mode, **({"autocommit": False} if mode == "rw" else {}))
        return {p: WRoot(prefix=p) if mode == "rw" else db0.fetch(WRoot, prefix=p) for p in P}
    roots = open_("rw")
    objs = {}           # k -> dict(prefix, uuid, strong)
    dead = {}           # k -> uuid
    lst = {p: [] for p in P}; dct = {p: {} for p in P}; box = {p: {} for p in P}; ws = {p: set() for p in P}
    nk = 0

    def get(k):
        p = objs[k]["p"]
        return roots[p].keep[k]

    def look(x, k, where):
        ctx.crumb("look")
        if k in objs:
            ctx.check(db0.expired(x) is False if type(x).__name__ != "WObj" else True, "live-expired", lambda: f"{where} {k}")
            ctx.check(x.i == k and x.name == f"obj{k}", "wrong-object", lambda: f"{where}: {x.i} instead of {k}")
            ctx.check(db0.uuid(x) == objs[k]["uuid"], "wrong-uuid", where); ctx.count("live")
        else:
            ctx.check(db0.expired(x) is True, "dead-not-expired", lambda: f"{where} {k}")
            try: v = x.i
            except db0.ReferenceError: pass
            else: ctx.check(False, "dead-resolved", f"{where}: {k} gives {v}")
            ctx.check(db0.uuid(x) == dead[k], "dead-uuid", lambda: f"{where} {k}: {db0.uuid(x)} instead of {dead[k]}"); ctx.count("expired")

    def audit(where):
        for p in P:
            R = roots[p]
            ctx.crumb("audit:list")
            ctx.eq(len(R.lst), len(lst[p]), "list-len")
            for j, k in enumerate(lst[p]): look(R.lst[j], k, f"{where} {p}.lst[{j}]")
            ctx.crumb("audit:dict")
            for key, k in dct[p].items(): look(R.dct[key], k, f"{where} {p}.dct[{key}]")
            ctx.crumb("audit:attr")
            for key, k in box[p].items(): look(R.box[key].ref, k, f"{where} {p}.box[{key}].ref")
            ctx.crumb("audit:weak_set")
            ctx.eq(sorted(o.i for o in R.ws), sorted(k for k in ws[p] if k in objs), "set-members", f"{where} {p}")
            ctx.eq(len(R.ws), len([k for k in ws[p] if k in objs]), "set-len", f"{where} {p}"); ctx.count("sets")
            for k in objs: ctx.check((get(k) in R.ws) == (k in ws[p]), "set-in", lambda: f"{where} {p} {k}")
        ctx.crumb("audit:refcount")
        for k in objs: ctx.eq(db0.getrefcount(get(k)), objs[k]["strong"], "refcount", f"{where} {k}"); ctx.count("refcounts")
        for k in dead: ctx.check(not db0.exists(dead[k]), "dead-exists", f"{where} {k}")
        ctx.crumb("audit:types")
        for p in P: ctx.eq(sorted(o.i for o in db0.find(WObj, prefix=p)), sorted(k for k in objs if objs[k]["p"] == p), "live-set", f"{where} {p}")
        ctx.crumb("")

    for i in ctx.steps(spec.get("steps", 60)):
        rr = ctx.rng("step", i)
        c = rr.randrange(100)
        p = rr.choice(P)
        live = sorted(objs)
        if c < 22 or not live:
            for _ in range(rr.randrange(1, 4)):
                ctx.op("new")
                o = WObj(nk, rr.randrange(3), prefix=p)
                roots[p].keep[nk] = o
                objs[nk] = dict(p=p, uuid=db0.uuid(o), strong=1); o = None; nk += 1
        elif c < 30:
            k = rr.choice(live); q = objs[k]["p"]
            ctx.op("strong"); roots[q].other.append(get(k)); objs[k]["strong"] += 1; objs[k].setdefault("n", 0); objs[k]["n"] += 1
        elif c < 60:
            k = rr.choice(live); o = get(k)
            w = rr.randrange(5)
            if w == 0: ctx.op("weak.list"); roots[p].lst.append(db0.weak_proxy(o)); lst[p].append(k)
            elif w == 1:
                key = f"k{rr.randrange(6)}"; ctx.op("weak.dict"); roots[p].dct[key] = db0.weak_proxy(o); dct[p][key] = k
            elif w == 2:
                key = rr.randrange(5); ctx.op("weak.attr")
                if key in box[p]: roots[p].box[key].ref = db0.weak_proxy(o)
                else: roots[p].box[key] = Box(db0.weak_proxy(o), p)
                box[p][key] = k
            elif w == 3: ctx.op("weak.add"); roots[p].ws.add(o); ws[p].add(k)
            else:
                # a weak reference made from a weak reference
                if lst[p]:
                    j = rr.randrange(len(lst[p])); k2 = lst[p][j]
                    if k2 in objs: ctx.op("weak.copy"); roots[p].lst.append(db0.weak_proxy(roots[p].lst[j])); lst[p].append(k2)
            o = None
        elif c < 68:
            w = rr.randrange(3)
            if w == 0 and lst[p]:
                j = rr.randrange(len(lst[p])); ctx.op("unweak.list"); del roots[p].lst[j]; del lst[p][j]
            elif w == 1 and dct[p]:
                key = rr.choice(sorted(dct[p])); ctx.op("unweak.dict"); del roots[p].dct[key]; del dct[p][key]
            elif w == 2 and ws[p] & set(objs):
                k = rr.choice(sorted(ws[p] & set(objs))); ctx.op("unweak.set"); roots[p].ws.discard(get(k)); ws[p].discard(k)
        else:
            n = 0
            for k in rr.sample(live, min(len(live), rr.randrange(0, 4))):
                q = objs[k]["p"]
                ctx.op("drop")
                del roots[q].keep[k]
                if objs[k].get("n"):
                    for _ in range(objs[k]["n"]):
                        j = [x.i for x in roots[q].other].index(k); roots[q].other.pop(j)
                dead[k] = objs.pop(k)["uuid"]; n += 1
            # storage becomes free with the commit, and is taken by objects of the same size
            ctx.op("commit"); db0.commit()
            # (the last references to objects may have gone in the flush of the first one)
            if n and rr.random() < .5:
                for _ in range(n + 2):
                    ctx.op("new"); o = WObj(nk, rr.randrange(3), prefix=p)
                    roots[p].keep[nk] = o; objs[nk] = dict(p=p, uuid=db0.uuid(o), strong=1); o = None; nk += 1
                db0.commit()
            x = None
            audit("commit")
            if rr.random() < .2: ctx.op("clear_cache"); db0.clear_cache(); audit("clear_cache")
            if rr.random() < spec["reopen"]:
                for mode in (["rw"] if rr.random() < .6 else ["r", "rw"]):
                    ctx.op("reopen." + mode); roots = None; db0.close(); roots = open_(mode); audit(mode)
    db0.commit(); audit("end")
    roots = None; db0.close(); roots = open_("r"); audit("final"); ctx.sig.append(nk); ctx.sig.append(len(dead)); ctx.sig.append(str(sorted(objs)))
    roots = None; db0.close()


def main():
    from fw import Check, seeds, THOROUGH
    c = Check("C24", rule="one case = a random history of objects of two prefixes, weak references and weak sets to them in both; distinct = histories with different outcomes")
    specs = [dict(seed=s, steps=[50, 90, 140][i % 3], reopen=[.1, .3][i % 2]) for i, s in enumerate(seeds(3000 if THOROUGH else 120, "c24"))]
    c.cases("c24", specs)
    c.finish(min_events=dict(live=2000, expired=2000, sets=1000, refcounts=5000))


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
    main()
