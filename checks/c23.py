"""C23: select_new, select_deleted and select_modified between any two snapshots report exactly the difference of the query's results."""
import sys, os


def case(ctx, spec):
    import dbzero as db0
    r = ctx.rng("w")
    TAGS = ["t0", "t1", "t2", "t3"]

    @db0.memo
    class DObj:
        def __init__(self, i, v, size=0):
            self.i = i; self.v = v
            if size: self.note = "n" * size

    @db0.memo
    class DSub(DObj):
        def __init__(self, i, v, size=0):
            super().__init__(i, v, size); self.w = 0

    @db0.memo(singleton=True)
    class DRoot:
        def __init__(self): self.keep = {}

    def open_():
        db0.init(ctx.dir); db0.open("px", "rw", autocommit=False)
        return DRoot()
    root = open_()
    if spec.get("probe"):
        # a tag whose last holder loses it is gone from the head: queries made there forget it
        ctx.op("probe")
        for i in range(3): root.keep[i] = DObj(i, i); db0.tags(root.keep[i]).add("t1")
        db0.commit(); s1 = db0.snapshot()
        for i in range(3): db0.tags(root.keep[i]).remove("t1")
        db0.commit(); s2 = db0.snapshot()
        d = db0.select_deleted(db0.find("t1"), s1, s2)
        ctx.eq(sorted(o.i for o in d), [0, 1, 2], spec["probe"], "find('t1'), every t1 removed")
        d = None; s1.close(); s2.close(); root = None; db0.close()
        return
    objs = {}           # i -> dict(v, w, tags, cls)
    held = {}
    states = []         # (state number, copy of objs)
    snaps = []          # snapshot objects opened at the time (with their states' index)
    nk = 0

    def get(i):
        if i in held: return held[i]
        o = root.keep[i]
        if r.random() < .3: held[i] = o
        return o

    def new():
        nonlocal nk
        cls = DSub if r.random() < .4 else DObj
        tags = set(r.sample(TAGS, r.choice([0, 1, 1, 2])))
        v = r.choice([r.randrange(10), "v%d" % r.randrange(10), None, 1.5])
        ctx.op("new", (nk, cls.__name__, sorted(tags)))
        o = cls(nk, v, r.choice([0, 0, 3, 60])); root.keep[nk] = o
        if tags: db0.tags(o).add(*tags)
        objs[nk] = dict(v=v, w=0, t=tags, c=cls.__name__, touched=0); nk += 1

    def kill(i):
        ctx.op("delete", i)
        held.pop(i, None)
        o = root.keep[i]
        if objs[i]["t"]: db0.tags(o).remove(*objs[i]["t"])
        o = None
        del root.keep[i]; del objs[i]

    def commit():
        import copy
        ctx.op("commit"); db0.commit()
        s = db0.get_state_num("px", finalized=True)
        if states and states[-1][0] == s: states.pop()
        states.append((s, copy.deepcopy(objs)))

    def query(rr):
        """-> the query and the model's predicate"""
        cls = rr.choice([DObj, DObj, DSub, None])
        k = rr.randrange(6)
        a, b = rr.sample(TAGS, 2)
        if cls is None and k == 0: k = 1
        args, p = {0: ([], lambda m: True), 1: ([a], lambda m: a in m["t"]), 2: ([a, b], lambda m: {a, b} <= m["t"]),
                   3: ([[a, b]], lambda m: bool({a, b} & m["t"])), 4: ([db0.no(b)], lambda m: b not in m["t"]),
                   5: ([a, db0.no(b)], lambda m: a in m["t"] and b not in m["t"])}[k]
        if k == 4 and cls is None: cls = DObj
        q = db0.find(*([cls] if cls else []), *args)
        return f"{cls.__name__ if cls else ''} {k} {a} {b}", q, lambda m: (cls is None or cls is DObj or m["c"] == "DSub") and p(m)

    def compare(rr):
        if len(states) < 2: return
        x, y = sorted(rr.sample(range(len(states)), 2))
        if rr.random() < .5: y = len(states) - 1; x = min(x, y - 1)
        if rr.random() < .3: x = y - 1
        text, q, p = query(rr)
        (s1, m1), (s2, m2) = states[x], states[y]
        h = db0.get_state_num("px")
        ctx.op("compare", (s1, s2, text))
        pre = db0.snapshot({"px": s1}); last = db0.snapshot({"px": s2})
        try:
            r1 = {i for i, m in m1.items() if p(m)}; r2 = {i for i, m in m2.items() if p(m)}
            ctx.crumb("new"); n = db0.select_new(q, pre, last)
            ctx.eq(sorted(o.i for o in n), sorted(r2 - r1), "new", text); ctx.eq(len(n), len(r2 - r1), "new-len", text)
            for o in n: ctx.check(o.v == m2[o.i]["v"], "new-value", text)
            ctx.crumb("deleted"); d = db0.select_deleted(q, pre, last)
            ctx.eq(sorted(o.i for o in d), sorted(r1 - r2), "deleted", text); ctx.eq(len(d), len(r1 - r2), "deleted-len", text)
            for o in d: ctx.check(o.v == m1[o.i]["v"], "deleted-value", text)
            sig = lambda m: (m["v"], m["w"], type(m["v"]).__name__)
            changed = {i for i in r1 & r2 if sig(m1[i]) != sig(m2[i])}
            f = lambda o: (o.v, getattr(o, "w", 0), type(o.v).__name__)
            ctx.crumb("modified"); mq = db0.select_modified(q, pre, last, compare_with=lambda a, b: f(a) == f(b))
            got = list(mq)
            ctx.eq(sorted(b.i for a, b in got), sorted(changed), "modified", text)
            for a, b in got:
                ctx.check(a.i == b.i and f(a) == sig(m1[a.i]) and f(b) == sig(m2[b.i]), "modified-versions", lambda: f"{a.i} {f(a)} {b.i} {f(b)} {text}")
            ctx.crumb("modified-raw")
            raw = {b.i for a, b in db0.select_modified(q, pre, last)}
            ctx.check(raw <= r1 & r2, "modified-outside", lambda: f"{sorted(raw - (r1 & r2))} {text}")
            touched = {i for i in r1 & r2 if m1[i]["touched"] != m2[i]["touched"]}
            ctx.check(changed | touched <= raw, "modified-missed", lambda: f"{sorted((changed | touched) - raw)} {text}")
            ctx.crumb("pre-none")
            ctx.eq(sorted(o.i for o in db0.select_new(q, None, last)), sorted(r2), "new-none", text)
            ctx.count("new", len(r2 - r1)); ctx.count("deleted", len(r1 - r2)); ctx.count("modified", len(changed))
            ctx.count("unchanged", len(r1 & r2 - changed)); ctx.count("pairs")
            n = d = mq = got = a = b = o = None
        finally:
            ctx.crumb(""); pre.close(); last.close()

    # objects with every tag that stay (a tag or class without any holder left is another matter: see known_findings.txt)
    for cls in (DObj, DSub):
        root.keep[nk] = cls(nk, 0); db0.tags(root.keep[nk]).add(*TAGS); objs[nk] = dict(v=0, w=0, t=set(TAGS), c=cls.__name__, touched=0); nk += 1
    for _ in range(r.randrange(3, 12)): new()
    commit()
    for i in ctx.steps(spec.get("steps", 60)):
        rr = r = ctx.rng("step", i)
        c = rr.randrange(100)
        live = sorted(k for k in objs if k > 1)
        if c < 15 or not live: new()
        elif c < 25: kill(rr.choice(live))
        elif c < 40:
            k = rr.choice(live); v = rr.choice([rr.randrange(10), "v%d" % rr.randrange(10), None, 2.5])
            ctx.op("set", (k, v)); get(k).v = v; objs[k]["v"] = v
            objs[k]["touched"] += 0
        elif c < 45:
            k = rr.choice(live)
            if objs[k]["c"] == "DSub": v = rr.randrange(1000); ctx.op("setw", (k, v)); get(k).w = v; objs[k]["w"] = v
        elif c < 48: k = rr.choice(live); ctx.op("touch", k); db0.touch(get(k)); objs[k]["touched"] += 1
        elif c < 58:
            k = rr.choice(live); t = rr.choice(TAGS)
            ctx.op("tag", (k, t)); db0.tags(get(k)).add(t); objs[k]["t"].add(t)
        elif c < 68:
            k = rr.choice(live)
            if objs[k]["t"]: t = rr.choice(sorted(objs[k]["t"])); ctx.op("untag", (k, t)); db0.tags(get(k)).remove(t); objs[k]["t"].discard(t)
        elif c < 72:
            import copy
            save = copy.deepcopy(objs); k0 = nk; ctx.op("cancelled")
            held.clear()
            with db0.atomic() as at:
                new(); k = rr.choice(live); get(k).v = "cancelled"
                at.cancel()
            held.clear(); objs.clear(); objs.update(save)
        elif c < 85: commit()
        elif c < 88:
            commit(); ctx.op("reopen"); held.clear(); root = None; db0.close(); root = open_()
        else: compare(rr)
    for j in range(6): compare(ctx.rng("end", j))
    held.clear(); root = None
    db0.close()
    ctx.sig.append(f"{len(states)} {nk} {sorted(objs)}")


def main():
    import fw
    c = fw.Check("C23", rule="one case = a random history of objects and tags with commits, every pair of states compared through several queries; distinct = histories with different outcomes")
    n = 240 if not fw.THOROUGH else 4000
    specs = [dict(seed=s, steps=60 if not fw.THOROUGH else 200) for s in fw.seeds(n, "c23")]
    specs.append(dict(seed=1, steps=0, probe="deleted:tag-gone"))
    c.cases("c23", specs)
    c.finish(min_events=dict(pairs=2000, new=1400, deleted=800, modified=500, unchanged=2000))


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
    main()
