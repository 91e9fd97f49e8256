"""C16: hashes, dict keys and set members mean the same in every process."""
import sys, os

FLOATS = [0.5, -1.25, 1e300, -1e-300, float("inf"), -float("inf"), 3.14159]


def make(r, n, objs, enums):
    """-> list of (label, key, [equal values of other types or forms], [known keys of the equal values])"""
    import datetime as dt, decimal, vals, dbzero as db0
    out = []

    def leaf(r, hashable=True):
        k = r.randrange(12)
        if k == 0:
            i = r.choice([0, 1, r.randrange(-5, 300), r.randrange(-2**52, 2**52)])
            eq = [(float(i), ""), (decimal.Decimal(i), "decimal")] + ([(bool(i), "")] if i in (0, 1) else [])
            return "int", i, eq
        if k == 1: i = r.choice([vals.rnd_int(r), r.choice([1, -1]) * 2 ** r.randrange(53, 63)]); return "int", i, ([(float(i), "bigint" if abs(i) >= 2**61 - 1 else "")] if int(float(i)) == i and abs(i) < 2**63 else [])
        if k == 2: s = vals.rnd_str(r); return "str", s, [("".join(list(s)), "")]
        if k == 3: b = vals.rnd_bytes(r); return "bytes", b, [(bytes(bytearray(b)), "")]
        if k == 4: f = r.choice(FLOATS + [-0.0, 2.0, float(r.randrange(1000)), r.random()]); return "float", f, [(int(f), "")] if f == f and abs(f) < 2**53 and f == int(f) else []
        if k == 5: d = vals.rnd_datetime(r); return "datetime", d, [(dt.datetime(*d.timetuple()[:6], d.microsecond), "")]
        if k == 6: d = vals.rnd_date(r); return "date", d, [(dt.date(d.year, d.month, d.day), "")]
        if k == 7: t = vals.rnd_datetime(r).time(); return "time", t, [(dt.time(t.hour, t.minute, t.second, t.microsecond), "")]
        if k == 8:
            d = decimal.Decimal(r.randrange(-10**6, 10**6)).scaleb(-r.randrange(0, 6))
            return "decimal", d, [(decimal.Decimal(str(d)), ""), (d.normalize() if d.normalize().as_tuple().exponent <= 0 else d, "decimal" if d.normalize().as_tuple() != d.as_tuple() else "")]
        if k == 9:
            d = vals.rnd_datetime(r).replace(microsecond=0, year=r.randrange(1990, 2080), tzinfo=dt.timezone(dt.timedelta(hours=r.randrange(-11, 12))))
            o = d.astimezone(dt.timezone(dt.timedelta(hours=r.randrange(-11, 12))))
            return "aware", d, [(o, "aware" if o.utcoffset() != d.utcoffset() else "")]
        if k == 10: return "enum", r.choice(enums), []
        return r.choice([("none", None, []), ("bool", True, [(1, ""), (1.0, "")]), ("bool", False, [(0, ""), (0.0, "")]), ("object", r.choice(objs), []), ("object", r.choice(objs), [])])

    def key(r, depth=0):
        if depth < 2 and r.random() < .25:
            parts = [key(r, depth + 1) for _ in range(r.randrange(0, 4))]
            v = tuple(p[1] for p in parts)
            alt, kn = [], ""
            for p in parts:
                if p[2] and r.random() < .6: a, q = r.choice(p[2]); alt.append(a); kn = kn or q
                else: alt.append(p[1])
            return "tuple", v, [(tuple(alt), kn)]
        return leaf(r)
    seen = {}
    for i in range(n):
        lab, v, eq = key(r)
        out.append((lab, v, eq))
    return out


def bottom(objs):
    return {id(o): i for i, o in enumerate(objs)}


def world(db0):
    class HObj:
        def __init__(self, i): self.i = i

    class HRoot:
        def __init__(self): self.d = {}; self.s = set(); self.objs = []; self.t = []
    # one name in every process, whatever the module is called there
    for c in (HObj, HRoot): c.__module__ = "c16"; c.__qualname__ = c.__name__
    return db0.memo(HObj), db0.memo(singleton=True)(HRoot)


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a).__name__ == "HObj" or type(b).__name__ == "HObj": return type(a) is type(b) and a.i == b.i
    return a == b


def second(ddir, seed, n, mode, out):
    import faulthandler; faulthandler.enable()
    """another process: same keys from the same seed; reports hashes and what it finds"""
    import dbzero as db0, random, json
    HObj, HRoot = world(db0)
    db0.init(ddir); db0.open("px", mode, **({"autocommit": False} if mode == "rw" else {}))
    E = db0.enum("Hue", ["R", "G", "B"])
    root = db0.fetch(HRoot)
    objs = list(root.objs)
    keys = make(random.Random(seed), n, objs, E.values())
    res = []
    for lab, v, eq in keys:
        forms = [(v, "")] + list(eq)
        res.append([[lab, kn, repr(f)[:80], db0.hash(f), f in root.d, root.d.get(f, "missing") if f in root.d else "missing", f in root.s] for f, kn in forms])
    sizes = [len(root.d), len(root.s)]
    if mode == "rw":
        # storing again what is there changes nothing
        for lab, v, eq in keys:
            root.d[v] = root.d[v] if v in root.d else "added"
            root.s.add(v)
        sizes += [len(root.d), len(root.s)]
        for lab, v, eq in keys[: n // 2]:
            if v in root.d: del root.d[v]
            root.s.discard(v)
        left = [sum(1 for lab, v, eq in keys[: n // 2] if v in root.d or v in root.s), len(root.d), len(root.s), len(list(root.d.keys())), len(list(root.s))]
        sizes += left
        db0.commit()
    json.dump([res, sizes], open(out, "w"))
    db0.close()


def case(ctx, spec):
    import dbzero as db0, random, subprocess, json
    HObj, HRoot = world(db0)
    db0.init(ctx.dir); db0.open("px", "rw", autocommit=False)
    E = db0.enum("Hue", ["R", "G", "B"])
    root = HRoot()
    for i in range(5): root.objs.append(HObj(i))
    objs = list(root.objs)
    n = spec["n"]
    keys = make(random.Random(spec["seed"]), n, objs, E.values())
    model = []                      # distinct keys by equality: [key, value]
    def find(v):
        for e in model:
            if same(e[0], v): return e
    base = []
    for i, (lab, v, eq) in enumerate(keys):
        ctx.op("store." + lab)
        e = find(v)
        # (an equal key of another form is a known question of its own: only store one form)
        if e is None: model.append([v, f"v{i}"]); root.d[v] = f"v{i}"; root.s.add(v)
        else: ctx.count("again")
        base.append(db0.hash(v))
        ctx.check(base[-1] == db0.hash(v), "hash:unstable")
    expect = []
    for lab, v, eq in keys: expect.append(find(v)[1])
    # forms under which a key may have been stored first: an equal key of a form with a known different hash
    def knowns(v):
        ks = set()
        for lab, x, eq in keys:
            if x is not v and same(x, v): ks |= classify(x, v)
        return ks
    ambiguous = [bool(knowns(v)) for _, v, _ in keys]
    gone = len([e for e in model if any(same(e[0], v) for _, v, _ in keys[: n // 2])])
    text = [repr(v)[:200] for _, v, _ in keys]
    total = len(model)
    db0.commit()
    keys = model = objs = root = E = e = v = eq = None
    db0.close()
    out = os.path.join(os.path.dirname(ctx.dir), "res")
    for j, mode in enumerate(["r", "r", "rw"]):
        env = dict(os.environ, PYTHONPATH=os.pathsep.join([os.path.dirname(os.path.abspath(__file__))] + sys.path), PYTHONHASHSEED=str(random.Random(f"{spec['seed']}:{j}").randrange(1, 4000000)))
        ctx.crumb("second process")
        p = subprocess.run([sys.executable, "-c", "import sys, c16; c16.second(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), *sys.argv[4:])", ctx.dir, str(spec["seed"]), str(n), mode, out], env=env, capture_output=True, text=True, timeout=60)
        ctx.check(p.returncode == 0, "second-process-failed", f"rc={p.returncode} " + (p.stdout + p.stderr)[-800:])
        res, sizes = json.load(open(out))
        for i, forms in enumerate(res):
            for f, (lab, kn, txt, h, ind, val, ins) in enumerate(forms):
                sfx = (":" + kn) if kn else ""
                if f == 0: ctx.check(h == base[i], "hash:process" , lambda: f"{lab} {txt}: {base[i]} in one process, {h} in another"); ctx.count("hashes")
                else: ctx.check(h == base[i], "hash:equal" + (sfx or ":" + lab), lambda: f"{lab} {text[i]} and {txt}: {base[i]} {h}") if not kn else known(ctx, h == base[i], kn, lambda: f"{text[i]} and {txt} are equal, hashes {base[i]} and {h}")
                if kn: continue
                if ambiguous[i]: ctx.count("ambiguous"); continue
                ctx.check(ind and ins, "member:missing", lambda: f"{lab} {txt} stored as {text[i]}: in dict {ind}, in set {ins}")
                ctx.check(val == expect[i], "member:value", lambda: f"{lab} {txt}: {val} instead of {expect[i]}")
                ctx.count("members")
        if not any(ambiguous):
            ctx.eq(sizes[:2], [total] * 2, "sizes", "dict and set"); ctx.count("sizes")
            if mode == "rw":
                left = total - gone
                ctx.eq(sizes[2:], [total, total, 0, left, left, left, left], "sizes:after", "storing again / deleting")
    ctx.sig.append(spec["seed"]); ctx.samples.append(", ".join(t[:40] for t in text[:6]))


def classify(a, b):
    """kinds of difference between equal values for which different hashes are a listed finding"""
    import decimal, datetime as dt
    if isinstance(a, tuple) and isinstance(b, tuple): return set().union(*[classify(x, y) for x, y in zip(a, b)]) if a else set()
    if isinstance(a, decimal.Decimal) or isinstance(b, decimal.Decimal): return {"decimal"} if repr(a) != repr(b) else set()
    if isinstance(a, dt.datetime) and a.tzinfo: return {"aware"} if repr(a) != repr(b) else set()
    if isinstance(a, (int, float)) and abs(a) >= 2**61 - 1 and type(a) is not type(b): return {"bigint"}
    return set()


def known(ctx, ok, kn, msg):
    ctx.count("known_compared")
    if not ok and ctx.spec.get("probe") == kn: ctx.check(False, "hash:equal:" + kn, msg)


def main():
    from fw import Check, seeds, THOROUGH
    c = Check("C16", rule="one case = random keys stored by one process, their hashes and membership examined by three others under other hash seeds; distinct = seeds run to the end")
    specs = [dict(seed=s, n=[12, 30, 60][i % 3]) for i, s in enumerate(seeds(1200 if THOROUGH else 70, "c16"))]
    for kn in ("decimal", "aware", "bigint"): specs.append(dict(seed=4, n=600, probe=kn))
    c.cases("c16", specs)
    c.finish(min_events=dict(hashes=3000, members=4000, sizes=20))


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
    main()
