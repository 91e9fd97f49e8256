"""C06: tag queries equal the set algebra of the current tag assignments."""
import sys, os


def main():
    from fw import Check, seeds, THOROUGH
    c = Check("C06", rule="one case = a random tag history with random query expressions; distinct = distinct histories run to the end; every listed query is compared with the set algebra")
    specs = []
    for i, s in enumerate(seeds(2500 if THOROUGH else 250, "c06")):
        specs.append(dict(seed=s, n=[40, 80, 150][i % 3], size=[5, 30, 150, 600][i % 4] if i % 8 < 7 else 30, hold=[0, .3, .9][(i // 2) % 3], foreign=int(i % 3 == 1),
                          step=[None, 1 << 16][(i // 3) % 2], cache=[None, 1 << 18][(i // 5) % 2]))
    c.cases("c06", specs)
    c.finish(min_events={"queries": 6000, "nonempty": 3000, "kind.no": 100, "kind.or": 100, "kind.sub": 100, "kind.and": 100})


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
    main()

import dbzero as db0          # (the worker side only)


@db0.memo(singleton=True)
class QRoot:
    def __init__(self):
        self.items = {}
        self.labels = [QLabel(i) for i in range(3)]


@db0.memo
class QLabel:
    def __init__(self, i): self.i = i


@db0.memo
class QA:
    def __init__(self, k): self.k = k


@db0.memo
class QA1(QA):
    def __init__(self, k): super().__init__(k); self.z = 1


@db0.memo
class QA2(QA1):
    def __init__(self, k): super().__init__(k); self.y = 1


@db0.memo
class QB:
    def __init__(self, k): self.k = k


@db0.memo(prefix="py")
class FLabel:
    def __init__(self, i): self.i = i


@db0.memo(singleton=True, prefix="py")
class FRoot:
    def __init__(self): self.l = [FLabel(i) for i in range(2)]


TYPES = {"QA": QA, "QA1": QA1, "QA2": QA2, "QB": QB}
SUPER = {"QA": {"QA"}, "QA1": {"QA", "QA1"}, "QA2": {"QA", "QA1", "QA2"}, "QB": {"QB"}}
TAGS = ["s0", "s1", "s2", "s3", "ż", "e0", "e1", "e2", "o0", "o1", "o2", "c0", "f0", "f1"]


class T:
    """tag names -> engine tags"""
    def __init__(self, foreign):
        self.names = [t for t in TAGS if foreign or t[0] != "f"]
        self.foreign = foreign
        self.reload()

    def reload(self):
        self.root = QRoot()
        self.enum = db0.enum("Colors", ["RED", "GREEN", "BLUE"])
        self.cache = {}

    def __call__(self, t):
        if t not in self.cache:
            i = t[0]
            self.cache[t] = (t if i in "sż" else list(self.enum.values())[int(t[1])] if i == "e" else db0.as_tag(self.root.labels[int(t[1])])
                             if i == "o" else db0.as_tag(QLabel) if i == "c" else db0.as_tag(FRoot().l[int(t[1])]))
        return self.cache[t]


class Obj:
    def __init__(self, k, cls): self.k, self.cls, self.tags, self.held = k, cls, set(), True


# expression = ("tag",t) ("type",c) ("or",[e]) ("and",[e]) ("no",e) ("sub",[e]) ("obj",k)
def gen(r, names, ks, depth=0, neg=False):
    c = r.random()
    if depth >= 3 or c < .5: return ("tag", r.choice(names))
    if c < .6: return ("type", r.choice(list(TYPES)))
    if c < .74: return ("or", [gen(r, names, ks, depth + 1) for _ in range(r.choice([1, 2, 2, 3, 5]))])
    if c < .84: return ("and", [gen(r, names, ks, depth + 1) for _ in range(r.choice([1, 2, 3]))])
    if c < .94: return ("sub", gen_top(r, names, ks, depth + 1))
    if c < .97 and ks: return ("obj", r.choice(ks))
    return ("tag", r.choice(names))


def gen_top(r, names, ks, depth=0):
    """arguments of find: at least one positive, negations allowed at this level"""
    out = [gen(r, names, ks, depth) for _ in range(r.choice([1, 1, 2, 2, 3]))]
    for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
        out.append(("no", gen(r, names, ks, depth + 1)))
    r.shuffle(out)
    return out


def ev(e, objs):
    k = e[0]
    if k == "tag": return {o.k for o in objs if e[1] in o.tags}
    if k == "type": return {o.k for o in objs if e[1] in SUPER[o.cls]}
    if k == "obj": return {e[1]}
    if k == "or": return set().union(*[ev(x, objs) for x in e[1]])
    if k == "and": return set.intersection(*[ev(x, objs) for x in e[1]])
    if k == "no": return {o.k for o in objs} - ev(e[1], objs)
    if k == "sub": return set.intersection(*[ev(x, objs) for x in e[1]])


def real(e, tg, get, first=False):
    # a class is a criterion of its own only in the first place
    k = e[0]
    if k == "tag": return tg(e[1])
    if k == "type": return TYPES[e[1]] if first else db0.find(TYPES[e[1]])
    if k == "obj": return get(e[1])
    if k == "or": return [real(x, tg, get) for x in e[1]]
    if k == "and": return tuple(real(x, tg, get) for x in e[1])
    if k == "no": return db0.no(real(e[1], tg, get) if e[1][0] in ("tag", "sub") else db0.find(real(e[1], tg, get)))
    if k == "sub": return db0.find(*[real(x, tg, get, i == 0) for i, x in enumerate(e[1])])


def kinds(e, out):
    out.add(e[0])
    if e[0] in ("or", "and", "sub"):
        for x in e[1]: kinds(x, out)
    elif e[0] == "no": kinds(e[1], out)
    return out


def case(ctx, spec):
    r = ctx.rng("w")
    db0.init(ctx.dir)
    foreign = spec.get("foreign")
    opts = {"autocommit": False}
    if spec.get("step"): opts["page_io_step_size"] = spec["step"]
    if foreign: db0.open("py", "rw", **opts); FRoot()
    db0.open("px", "rw", **opts)
    if spec.get("cache"): db0.set_cache_size(spec["cache"])
    root = QRoot(); tg = T(foreign)
    objs = {}; limbo = set(); nxt = [0]; handles = {}; queries = []; known = set()
    size = spec["size"]
    kinds_seen = set()

    def get(k):
        ctx.op("get", f" {k} {k in handles} {objs[k].held} {objs[k].tags}")
        if k in handles: return handles[k]
        if objs[k].held: o = root.items[k]
        else:
            t = min(objs[k].tags)
            o = next(x for x in db0.find(tg(t)) if x.k == k)
        if r.random() < spec.get("hold", .3): handles[k] = o
        return o

    def new(n):
        for _ in range(n):
            k = nxt[0]; nxt[0] += 1
            c = r.choice(list(TYPES))
            root.items[k] = o = TYPES[c](k)
            objs[k] = Obj(k, c); known.update(SUPER[c])
            ts = r.sample(tg.names, r.choice([0, 1, 1, 2, 4]))
            ctx.op("newobj", f"{k} {c} {ts}")
            if ts:
                if r.random() < .5: db0.tags(o).add(*[tg(t) for t in ts])
                else:
                    m = db0.tags(o)
                    for t in ts: m += tg(t)
                objs[k].tags.update(ts); known.update(ts)

    def settle():
        """objects nothing refers to any more"""
        for k in [k for k, o in objs.items() if not o.held and not o.tags]:
            del objs[k]; handles.pop(k, None); limbo.add(k)
        queries[:] = [(q, e) for q, e in queries if all(k in objs for x in e for k in objkeys(x))]

    def listed(q):
        ks = [o.k for o in q]
        return ks

    def evaluate(q, e, what):
        alive = list(objs.values())
        want = set.intersection(*[ev(x, alive) for x in e])
        ctx.op("list:" + what)
        ks = listed(q)
        got = [k for k in ks if k not in limbo]
        ctx.check(len(ks) == len(set(ks)), what + ":duplicates", lambda: f"{e}: {ks}")
        if set(got) != want:
            ctx.count("checked")
            from wk import Violation
            raise Violation(what + ":" + "+".join(sorted(set().union(*[kinds(x, set()) for x in e]))), f"{e}: missing {sorted(want - set(got))[:10]} extra {sorted(set(got) - want)[:10]} of {len(want)}")
        ctx.count("checked"); ctx.count("queries"); ctx.count("rows", len(ks))
        if want: ctx.count("nonempty")
        kinds_seen.update(*[kinds(x, set()) for x in e])
        c = r.random()
        if limbo: return ks     # dropped any time now (i.e. while listing)
        if c < .2: ctx.op("len:" + what); ctx.eq(len(q), len(ks), what + ":len", str(e))
        elif c < .3: ctx.op("bool:" + what); ctx.eq(bool(q), bool(ks), what + ":bool", str(e))
        elif c < .4:
            a, b = r.choice([None, 0, 1, 3, -2]), r.choice([None, 0, 2, 5, -1]); s = r.choice([None, 1, 2])
            if (a, b) != (None, None) or s == 2:
                ctx.op("slice:" + what)
                ctx.eq([o.k for o in q[a:b:s]], ks[a:b:s], what + ":slice", f"{e} [{a}:{b}:{s}]")
                ctx.eq(len(q[a:b:s]), len(ks[a:b:s]), what + ":slice-len", f"{e} [{a}:{b}:{s}]")
        elif c < .5: ctx.op("again:" + what); ctx.eq(listed(q), ks, what + ":second-listing", str(e))
        elif c < .56:
            m = r.choice([2, 3])
            ctx.op("filter:" + what); ctx.eq([o.k for o in db0.filter(lambda o: o.k % m == 0, q)], [k for k in ks if k % m == 0], what + ":filter", str(e))
        elif c < .62:
            ts = [t for t in tg.names if t in known and t[0] in "sże"]
            ts = r.sample(ts, min(2, len(ts))) or ["f0"]
            if known and all(t in known for t in ts):
                ctx.op("split:" + what)
                rows = [(o.k, d) for o, d in db0.split_by([tg(t) for t in ts], q)]
                ks2 = [k for k, _ in rows if k not in limbo]
                ctx.eq(sorted(ks2), sorted(k for k in want if objs[k].tags & set(ts)), what + ":split-by", f"{e} {ts}")
                for k, d in rows:
                    if k in limbo: continue
                    ok = any(d == tg(t) or str(d) == str(tg(t)) for t in ts if t in objs[k].tags)
                    ctx.check(ok, what + ":split-label", lambda: f"{e} {ts} {k} {d!r} {objs[k].tags}")
        return ks

    new(size)
    for i in ctx.steps(60):
        r = ctx.rng("step", i)
        c = r.random()
        alive = list(objs); q = m = e = None
        if c < .56: queries.clear()         # a query object is only good for the tags as they were
        if c < .14: ctx.op("new"); new(r.choice([1, 1, 3, size // 4 + 1]))
        elif c < .3 and alive:
            ks = r.sample(alive, min(len(alive), r.choice([1, 1, 2, 5, size])))
            ts = r.sample(tg.names, r.choice([1, 1, 2]))
            ctx.op("tag", f"{ks[:20]} {ts}")
            if len(ks) > 1 and r.random() < .5: ctx.op("tag-many"); db0.tags(*[get(k) for k in ks]).add(*[tg(t) for t in ts])
            elif r.random() < .3 and not any(t[0] in "f" for t in ts):
                for k in ks: db0.tags(get(k)).add([tg(t) for t in ts])
            else:
                for k in ks: db0.tags(get(k)).add(*[tg(t) for t in ts])
            for k in ks: objs[k].tags.update(ts)
            known.update(ts)
        elif c < .48 and alive:
            t = r.choice(tg.names)
            ks = [k for k in alive if t in objs[k].tags]
            if not ks: continue
            if r.random() < .5: ks = r.sample(ks, min(len(ks), r.choice([1, 2, 60])))
            ctx.op("untag", f"{ks[:20]} {t}")
            how = r.random()
            if how < .5 or t[0] == "f":
                for k in ks: db0.tags(get(k)).remove(tg(t))
            elif how < .75: db0.tags(*[get(k) for k in ks]).remove(tg(t))
            else:
                for k in ks:
                    m = db0.tags(get(k)); m -= tg(t)
            for k in ks: objs[k].tags.discard(t)
            settle()
        elif c < .56 and len(alive) > 3:
            ks = [k for k in r.sample(alive, min(len(alive), r.choice([1, 2, 70]))) if objs[k].held][:max(1, len(alive) // 2)]
            ctx.op("drop", str(ks[:20]))
            for k in ks:
                if r.random() < .6:
                    ts = objs[k].tags
                    if ts: db0.tags(get(k)).remove(*[tg(t) for t in ts])
                    objs[k].tags = set()
                handles.pop(k, None)
                del root.items[k]
                objs[k].held = False
            settle()
        elif c < .66:
            ctx.op("commit"); handles = {k: v for k, v in handles.items() if k in objs}
            db0.commit(); limbo.clear(); ctx.count("commits")
        elif c < .69: ctx.op("purge"); handles.clear(); db0.clear_cache()
        elif c < .71:
            ctx.op("reopen"); handles.clear(); queries.clear(); root = tg.root = None; tg.cache = {}
            db0.close(); db0.init(ctx.dir)
            if foreign: db0.open("py", "rw", **opts)
            db0.open("px", "rw", **opts)
            root = QRoot(); tg.reload(); limbo.clear()
        elif c < .76 and queries:
            ctx.op("held-query")
            q, e = r.choice(queries)
            if all(k in objs for x in e for k in objkeys(x)): evaluate(q, e, "held")
        else:
            for _ in range(4):
                e = gen_top(r, tg.names, alive)
                ctx.op("query", str(e))
                q = db0.find(*[real(x, tg, get, i == 0) for i, x in enumerate(e)])
                evaluate(q, e, "query")
                ctx.sig.append(str(e))
                if r.random() < .2 and all(t in known for x in e for t in tagsof(x)) and all(t in known for x in e for t in typesof(x)): queries.append((q, e))
    q = m = e = None
    handles.clear(); queries.clear(); root = tg.root = None; tg.cache = {}
    db0.close(); db0.init(ctx.dir)
    if foreign: db0.open("py", "r")
    db0.open("px", "r")
    root = QRoot(); tg.reload(); limbo.clear()
    for t in tg.names:
        evaluate(db0.find(tg(t)), [("tag", t)], "read-only")
    for t in TYPES:
        evaluate(db0.find(TYPES[t]), [("type", t)], "read-only")
    for _ in range(10):
        e = gen_top(r, tg.names, list(objs))
        evaluate(db0.find(*[real(x, tg, get, i == 0) for i, x in enumerate(e)]), e, "read-only")
    for k in kinds_seen: ctx.count("kind." + k)
    ctx.samples.append("; ".join(x for x in ctx.log if x.startswith("query"))[:400])
    handles.clear(); root = tg.root = None; tg.cache = {}
    db0.close()


def objkeys(e):
    if e[0] == "obj": return [e[1]]
    if e[0] in ("or", "and", "sub"): return [k for x in e[1] for k in objkeys(x)]
    return objkeys(e[1]) if e[0] == "no" else []


def tagsof(e):
    if e[0] == "tag": return [e[1]]
    if e[0] in ("or", "and", "sub"): return [k for x in e[1] for k in tagsof(x)]
    return tagsof(e[1]) if e[0] == "no" else []



def typesof(e):
    if e[0] == "type": return [e[1]]
    if e[0] in ("or", "and", "sub"): return [k for x in e[1] for k in typesof(x)]
    return typesof(e[1]) if e[0] == "no" else []
