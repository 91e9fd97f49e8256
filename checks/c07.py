"""C07: index selections and sorts equal the ordering of the keys."""
import sys, os


def main():
    from fw import Check, seeds, THOROUGH
    c = Check("C07", rule="one case = a random history of add/remove/clear/delete/commit on several indexes with random selections and sorts, each compared with a sorted list; distinct = histories run to the end")
    specs = []
    for i, s in enumerate(seeds(2500 if THOROUGH else 240, "c07")):
        specs.append(dict(seed=s, n=[50, 100, 180][i % 3], size=[4, 30, 200, 700][i % 4], kind=["int", "int", "datetime", "date", "time"][i % 5], spread=["dup", "near", "wide"][(i // 3) % 3],
                          hold=[0, .5][(i // 2) % 2], step=[None, 1 << 16][(i // 4) % 2], cache=[None, None, 1 << 18][(i // 5) % 3]))
    for k in ("decimal", "aware"):
        specs.append(dict(seed=1, kind=k, probe=1, n=0))
    c.cases("c07", specs)
    c.finish(min_events={"select": 1000, "sort": 500, "rows": 50000, "commits": 500, "reopens": 200, "sort2": 100, "combined": 800})


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
    main()

import dbzero as db0
import datetime as dt, decimal
from collections import Counter


@db0.memo(singleton=True)
class XRoot:
    def __init__(self, k):
        self.objs = {}
        self.ix = [db0.index() for _ in range(k)]


@db0.memo
class XA:
    def __init__(self, n): self.n = n


@db0.memo
class XB:
    def __init__(self, n): self.n = n; self.own = db0.index()


EXT = [-2**63, -2**63 + 1, -2**32 - 1, -2**32, -2**31, -257, -256, -255, -1, 0, 1, 127, 128, 255, 256, 2**31 - 1, 2**31, 2**32, 2**53 + 1, 2**62, 2**63 - 2, 2**63 - 1]


def key(kind, spread, r):
    if kind == "int":
        if spread == "dup": return r.randrange(-3, 4)
        if spread == "near": return r.randrange(-60, 60)
        return r.choice(EXT) if r.random() < .3 else r.randrange(-2**63, 2**63)
    if kind == "datetime":
        if spread == "dup": return dt.datetime(2024, 1, 1, 0, r.randrange(4))
        if spread == "near": return dt.datetime(2023, 12, 31, 23, 59, 59, 999999 - 30) + dt.timedelta(microseconds=r.randrange(60))
        return r.choice([dt.datetime.min, dt.datetime.max, dt.datetime(1970, 1, 1)]) if r.random() < .15 else dt.datetime(r.randrange(1, 10000), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60), r.randrange(10**6))
    if kind == "date":
        if spread == "dup": return dt.date(2024, 2, 27 + r.randrange(3))
        if spread == "near": return dt.date(1999, 12, 1) + dt.timedelta(days=r.randrange(90))
        return r.choice([dt.date.min, dt.date.max]) if r.random() < .15 else dt.date.fromordinal(r.randrange(1, dt.date.max.toordinal()))
    if spread == "dup": return dt.time(12, r.randrange(4))
    if spread == "near": return dt.time(11, 59, r.randrange(58, 60), r.choice([0, 1, 999998, 999999]))
    return r.choice([dt.time.min, dt.time.max]) if r.random() < .15 else dt.time(r.randrange(24), r.randrange(60), r.randrange(60), r.randrange(10**6))




def sk(k):
    return (1,) if k is None else (0, k)


def inside(k, lo, hi, nf):
    """None sorts after (before, if nf) all other keys; a None bound means unbounded, but the nulls are inside only when on the open side"""
    if lo is None and hi is None: return True
    if k is None: return (lo is None) if nf else (hi is None)
    return (lo is None or k >= lo) and (hi is None or k <= hi)


def probe(ctx, kind):
    """recorded findings: key types whose stored form does not order as the keys do"""
    db0.init(ctx.dir); db0.open("px", "rw", autocommit=False)
    root = XRoot(1)
    if kind == "decimal": keys = [decimal.Decimal(x) for x in ("-1", "2", "10", "0.5", "1.25", "-3.5")]
    else: keys = [dt.datetime(2024, 1, 1, h, tzinfo=dt.timezone(dt.timedelta(hours=o))) for h, o in ((10, 0), (11, 5), (9, -3), (12, 1))]
    for i, k in enumerate(keys):
        o = XA(i); root.objs[i] = o; root.ix[0].add(k, o)
    got = [keys[o.n] for o in root.ix[0].sort(db0.find(XA))]
    ctx.op("probe-" + kind)
    ctx.eq(got, sorted(keys), "order:" + kind, "sorted by %s keys" % kind)


def case(ctx, spec):
    if spec.get("probe"): return probe(ctx, spec["kind"])
    kind, spread = spec["kind"], spec["spread"]
    opts = {"autocommit": False}
    if spec.get("step"): opts["page_io_step_size"] = spec["step"]
    db0.init(ctx.dir); db0.open("px", "rw", **opts)
    if spec.get("cache"): db0.set_cache_size(spec["cache"])
    K = 2
    root = XRoot(K)
    M = [Counter() for _ in range(K)]              # (key, n) entries (each at most once)
    multi = [False, False]
    cls, tags, held, nid = {}, {}, {}, 0
    own = {}                                        # entries of the index owned by an object

    def obj(n):
        if n in held: return held[n]
        o = root.objs[n]
        if ctx.rng("h", n, i).random() < spec["hold"]: held[n] = o
        return o

    def new(r):
        nonlocal nid
        nid += 1
        c = r.choice((XA, XB)); o = c(nid); root.objs[nid] = o; cls[nid] = c.__name__; tags[nid] = set()
        if c is XB: own[nid] = {}
        for t in ("a", "b"):
            if r.random() < .5: db0.tags(o).add(t); tags[nid].add(t)
        if r.random() < spec["hold"]: held[nid] = o
        return nid

    def anykey(r, j):
        if M[j] and r.random() < .6: return r.choice(list(M[j]))[0]
        return key(kind, spread, r)

    def add(r, j, n, ks=None):
        if not multi[j] and any(e[1] == n for e in M[j]):
            if r.random() < .9: return
            multi[j] = True
        k = None if r.random() < .08 else key(kind, spread, r)
        root.ix[j].add(k, obj(n)); M[j][(k, n)] = 1

    def rows(q):
        out = [o.n for o in q]; ctx.count("rows", len(out)); return out

    def sel_model(j, lo, hi, nf): return Counter(n for (k, n) in M[j] if inside(k, lo, hi, nf))

    def bounds(r, j):
        lo, hi = anykey(r, j), anykey(r, j)
        if lo is not None and hi is not None and lo > hi and r.random() < .9: lo, hi = hi, lo
        if r.random() < .2: lo = None
        if r.random() < .2: hi = None
        return lo, hi

    def check_sort(r, got, src, specs_, what):
        """got: rows of sorts applied in turn (the first of specs_ is the most significant)"""
        per = [{n: k for (k, n) in M[j]} for j, _, _ in specs_]
        want = [n for n in src if all(n in p for p in per)]
        ctx.eq(Counter(got), Counter(want), "sort-content", what)
        def rank(n):
            out = []
            for p, (j, desc, nf) in zip(per, specs_): out.append(p[n])
            return out
        for x, y in zip(got, got[1:]):
            for kx, ky, (j, desc, nf) in zip(rank(x), rank(y), specs_):
                if kx == ky: continue
                if kx is None or ky is None:
                    # nulls come first in an ascending null_first order and in the reverse of a nulls-last order
                    ctx.check((kx is None) == (nf != desc), "sort-null-order", lambda: f"{what}: {kx} before {ky} desc={desc} null_first={nf}")
                else:
                    ctx.check((kx < ky) != desc, "sort-order", lambda: f"{what}: {kx} before {ky} desc={desc}; rows {got[:40]}")
                break

    def query(r):
        j = r.randrange(K); ix = root.ix[j]; x = r.random()
        ctx.op("len"); ctx.eq(len(ix), len(M[j]), "len", "index %d" % j)
        if x < .4:
            lo, hi = bounds(r, j); nf = r.random() < .3
            if lo is None and hi is None and r.random() < .5:
                ctx.op("select-all"); q = ix.select()
            else:
                ctx.op("select", f"{j} {lo} {hi} nf={nf}"); q = ix.select(lo, hi, nf)
            want = sel_model(j, lo, hi, nf)
            got = rows(q)
            if multi[j]: ctx.eq(set(got), set(want), "select", f"ix{j} {lo}..{hi} nf={nf}")
            else: ctx.eq(Counter(got), want, "select", f"ix{j} {lo}..{hi} nf={nf}")
            ctx.count("select")
            if not multi[j]: ctx.eq(len(q), sum(want.values()), "select-len"); ctx.eq(bool(q), bool(want), "select-bool")
        elif x < .7:
            if multi[j]: return
            desc, nf = r.random() < .5, r.random() < .4
            y = r.random()
            if y < .3: q, src = db0.find(XA), [n for n in cls if cls[n] == "XA"]
            elif y < .6: q, src = db0.find("a"), [n for n in cls if "a" in tags[n]]
            elif y < .8:
                lo, hi = bounds(r, j); q, src = ix.select(lo, hi), list(sel_model(j, lo, hi, False))
            else:
                lo, hi = bounds(r, j); q, src = db0.find(XB, ix.select(lo, hi)), [n for n in sel_model(j, lo, hi, False) if cls[n] == "XB"]
            s1 = [(j, desc, nf)]
            ctx.op("sort", f"{j} desc={desc} nf={nf} {y:.1f}")
            q = ix.sort(q, desc=desc, null_first=nf)
            j2 = 1 - j
            if r.random() < .35 and not multi[j2]:
                d2, n2 = r.random() < .5, r.random() < .4
                ctx.op("sort2", f"{j2} desc={d2} nf={n2}"); q = root.ix[j2].sort(q, desc=d2, null_first=n2); s1.insert(0, (j2, d2, n2)); ctx.count("sort2")
            got = rows(q)
            check_sort(r, got, src, s1, f"sort {s1}")
            ctx.eq(rows(q), got, "sort-again")
            if r.random() < .4:
                a, b = sorted((r.randrange(0, len(got) + 3), r.randrange(0, len(got) + 3)))
                ctx.eq(rows(q[a:b]), got[a:b], "sort-slice", f"[{a}:{b}]")
            ctx.eq(len(q), len(got), "sort-len")
            ctx.count("sort")
        elif x < .9:
            # combined with tags, types and the other index
            lo, hi = bounds(r, 0); lo2, hi2 = bounds(r, 1)
            a = [(root.ix[0].select(lo, hi), set(sel_model(0, lo, hi, False)))]
            if r.random() < .6: a.append((root.ix[1].select(lo2, hi2), set(sel_model(1, lo2, hi2, False))))
            if r.random() < .5: a.append(("a", {n for n in cls if "a" in tags[n]}))
            if r.random() < .5: a.append((XA, {n for n in cls if cls[n] == "XA"}))
            if r.random() < .3: a.append((db0.no("b"), {n for n in cls if "b" not in tags[n]}))
            if r.random() < .45:                          # nest some of the parts
                f = [x for x in a if not isinstance(x[0], type) and type(x[0]).__name__ != "TagSet" and x[0] is not a[0][0]] + [a[0]]
                g = r.sample(f, min(len(f), 2)); a = [x for x in a if all(x[0] is not y[0] for y in g)]
                y = r.random()
                if y < .4: a.append(([x for x, _ in g], set.union(*[w for _, w in g]))); ctx.count("nested-or")
                elif y < .7: a.append((tuple(x for x, _ in g), set.intersection(*[w for _, w in g])) if len(g) > 1 else g[0]); ctx.count("nested-and")
                else: a.append((db0.find(*[x for x, _ in g]), set.intersection(*[w for _, w in g]))); ctx.count("nested-find")
                if r.random() < .2: y = a.pop(); a += [("b", {n for n in cls if "b" in tags[n]}), (db0.no(y[0]), set(cls) - y[1])] if not isinstance(y[0], (list, tuple)) else [y]; ctx.count("nested-no")
            r.shuffle(a); a.sort(key=lambda x: x[0] is not XA)
            ctx.op("combined", f"0:{lo}..{hi} 1:{lo2}..{hi2} {len(a)}")
            descr = " & ".join(type(x).__name__ if not isinstance(x, (str, type)) else str(x) for x, _ in a)
            got = rows(db0.find(*[x for x, _ in a]))
            want = set.intersection(*[s for _, s in a])
            if any(multi): ctx.check(set(got) == want, "combined", lambda: f"{descr} 0:{lo}..{hi} 1:{lo2}..{hi2}: extra {set(got) - want} missing {[(n, [k for k, x in M[0] if x == n], [k for k, x in M[1] if x == n]) for n in want - set(got)]}")
            else: ctx.eq(sorted(got), sorted(want), "combined")
            ctx.count("combined")
        elif own:
            n = r.choice(list(own)); o = obj(n); m = own[n]
            ctx.op("own-index"); ctx.eq(len(o.own), len(m), "own-len")
            got = rows(o.own.select(None, None)); ctx.eq(sorted(got), sorted(x for _, x in m), "own-select")

    def delete(r, n):
        """off every index, then off the root: the object is gone"""
        o = obj(n)
        for j in range(K):
            for e in [e for e in M[j] if e[1] == n]: root.ix[j].remove(e[0], o); del M[j][e]
        for m in own: 
            if n in {x for _, x in own[m]}: return
        db0.tags(o).remove(*tags[n]) if tags[n] else None
        tags[n] = set()
        held.pop(n, None)
        del root.objs[n]
        del cls[n]; tags.pop(n); own.pop(n, None)

    def commit(): db0.commit(); ctx.count("commits")

    for i in ctx.steps(100):
        r = ctx.rng("step", i); x = r.random()
        if x < .3 or not cls:
            m = r.choice([1, 1, 3, spec["size"] // 2 + 1])
            ctx.op("add", m)
            for _ in range(m):
                n = new(r) if len(cls) < spec["size"] or not cls else r.choice(list(cls))
                for j in range(K):
                    if r.random() < .7: add(r, j, n)
        elif x < .42:
            m = r.choice([1, 1, 3, 20]); ctx.op("remove", m)
            for _ in range(m):
                j = r.randrange(K)
                if M[j] and r.random() < .9:
                    k, n = r.choice(list(M[j])); root.ix[j].remove(k, obj(n)); del M[j][(k, n)]
                elif cls:                                 # an entry which may be absent: nothing happens
                    k, n = key(kind, spread, r), r.choice(list(cls))
                    root.ix[j].remove(k, obj(n)); M[j].pop((k, n), None); ctx.count("absent-removals")
        elif x < .5:
            j = r.randrange(K)                            # re-key (the typical update)
            es = [e for e in M[j]]
            ctx.op("rekey")
            for k, n in r.sample(es, min(len(es), r.choice([1, 5, 40]))):
                k2 = key(kind, spread, r); o = obj(n)
                if r.random() < .5: root.ix[j].remove(k, o); root.ix[j].add(k2, o)
                else: root.ix[j].add(k2, o); (k2 != k) and root.ix[j].remove(k, o)
                if not multi[j] or True:
                    if k2 != k: del M[j][(k, n)]
                    M[j][(k2, n)] = 1
        elif x < .53:
            ctx.op("delete")
            for n in r.sample(list(cls), min(len(cls), r.choice([1, 3]))): delete(r, n)
        elif x < .55 and own:
            n = r.choice(list(own)); ctx.op("own-add")
            for _ in range(r.choice([1, 4])):
                t = r.choice(list(cls))
                k = key(kind, spread, r); obj(n).own.add(k, obj(t)); own[n][(k, t)] = 1
        elif x < .565:
            j = r.randrange(K); ctx.op("clear"); root.ix[j].clear(); M[j].clear(); multi[j] = False
        elif x < .60: ctx.op("commit"); commit()
        elif x < .62: ctx.op("clear_cache"); db0.clear_cache()
        elif x < .635:
            ctx.op("reopen"); held.clear(); root = None
            db0.close(); db0.init(ctx.dir); db0.open("px", "rw", **opts)
            if spec.get("cache"): db0.set_cache_size(spec["cache"])
            root = XRoot(); ctx.count("reopens")
        elif x < .66:
            ctx.op("atomic-cancel")
            with db0.atomic() as a:
                for _ in range(r.choice([1, 5])):
                    j = r.randrange(K)
                    if M[j] and r.random() < .5:
                        k, n = r.choice(list(M[j])); root.ix[j].remove(k, obj(n))
                    elif cls: root.ix[j].add(key(kind, spread, r), obj(r.choice(list(cls))))
                if r.random() < .5: len(root.ix[0]); rows(root.ix[0].select())
                a.cancel()
        else: query(r)
    commit()
    for j in range(K):
        ctx.op("final-select")
        ctx.eq(set(rows(root.ix[j].select())), {n for _, n in M[j]}, "final-select")
    held.clear(); root = None
    db0.close()
    db0.init(ctx.dir); db0.open("px", "r"); root = XRoot(); ctx.count("reopens"); i = -1
    for t in range(12): query(ctx.rng("final", t))
    held.clear(); root = None
    db0.close()
    ctx.sig.append(spec["seed"]); ctx.samples.append("; ".join(ctx.log[:10]))
