"""C05: persistent collections behave as their Python counterparts."""
import sys, os


def same_exc(a, b):
    return type(a).__name__ == type(b).__name__


class Harness:
    """one live collection + its Python model; every op runs on both"""
    def __init__(self, ctx, db0):
        self.ctx, self.db0 = ctx, db0

    def both(self, kind, real, model, exact_exc=True, conv=True):
        from vals import plain, typed
        ctx = self.ctx
        me = re = mv = rv = None
        try:
            mv = model()
        except Exception as e:
            me = e
        try:
            rv = real()
        except Exception as e:
            re = e
        ctx.count("checked")
        if me is not None or re is not None:
            from wk import Violation
            if me is None:
                raise Violation(f"{kind}:raised:{type(re).__name__}", f"raised {re!r}, model gave {mv!r}"[:500])
            if re is None:
                raise Violation(f"{kind}:no-{type(me).__name__}", f"model raised {me!r}, engine returned {rv!r}"[:500])
            if exact_exc and type(me) is not type(re):
                raise Violation(f"{kind}:exc-type:{type(re).__name__}-for-{type(me).__name__}", f"{re!r} vs {me!r}")
            ctx.count("exceptions_agreed")
            return None
        if conv:
            a, b = typed(plain(rv)), typed(plain(mv))
            if a != b:
                from wk import Violation
                raise Violation(f"{kind}:value", f"engine {plain(rv)!r} model {mv!r}"[:800])
        return rv


ELEM = "isfnbtdy"


def elem(r, depth=0):
    from vals import scalar
    if depth < 2 and r.random() < .12:
        c = r.randrange(4)
        if c == 0: return [elem(r, depth + 1) for _ in range(r.randrange(4))]
        if c == 1: return tuple(elem(r, depth + 1) for _ in range(r.randrange(4)))
        if c == 2: return {scalar(r, "is"): elem(r, depth + 1) for _ in range(r.randrange(4))}
        return {scalar(r, "is") for _ in range(r.randrange(4))}
    return scalar(r, ELEM)


def hkey(r):
    from vals import scalar
    if r.random() < .15:
        return tuple(scalar(r, "is") for _ in range(r.randrange(1, 4)))
    return scalar(r, "isyd" if r.random() < .5 else "is")


# -------------------------------------------------------------------------------------------------- list
def op_list(h, r, real, model):
    n = len(model)
    idx = lambda: r.randrange(-n - 2, n + 2)
    x = elem(r)
    k = r.choice(["append"] * 6 + ["setitem"] * 3 + ["getitem"] * 3 + ["pop", "popi", "remove", "del", "count", "index", "slice", "extend",
                  "iter", "eq", "ne", "copy", "mul", "add", "contains", "clear", "getnested", "extendself", "neq_len"])
    if k == "clear" and r.random() < .7: k = "append"
    h.ctx.op("list." + k)
    K = "list." + k
    if k == "append": h.both(K, lambda: real.append(x), lambda: model.append(x))
    elif k == "setitem":
        i = idx(); h.both(K, lambda: real.__setitem__(i, x), lambda: model.__setitem__(i, x))
    elif k == "getitem":
        i = idx(); h.both(K, lambda: real[i], lambda: model[i])
    elif k == "pop": h.both(K, lambda: real.pop(), lambda: model.pop())
    elif k == "popi":
        i = idx(); h.both(K, lambda: real.pop(i), lambda: model.pop(i))
    elif k in ("remove", "count", "index", "contains"):
        y = r.choice(model) if model and r.random() < .8 else x
        if isinstance(y, (list, tuple, dict, set)): return
        if k == "remove": h.both(K, lambda: real.remove(y), lambda: model.remove(y))
        elif k == "count": h.both(K, lambda: real.count(y), lambda: model.count(y))
        elif k == "index": h.both(K, lambda: real.index(y), lambda: model.index(y))
        else: h.both(K, lambda: y in real, lambda: y in model)
    elif k == "del":
        i = idx()
        def d(o): del o[i]
        h.both(K, lambda: d(real), lambda: d(model))
    elif k == "slice":
        s = slice(*(r.choice([None, r.randrange(-n - 2, n + 3)]) for _ in range(2)), r.choice([None, 1, 2, -1, -2, 3]))
        h.both(K, lambda: real[s], lambda: model[s])
    elif k == "extend":
        xs = [elem(r) for _ in range(r.choice([0, 1, 3, 20]))]
        h.both(K, lambda: real.extend(xs), lambda: model.extend(xs))
    elif k == "extendself":
        if n < 200: h.both(K, lambda: real.extend(list(real)), lambda: model.extend(list(model)))
    elif k == "iter": h.both(K, lambda: [v for v in real], lambda: [v for v in model])
    elif k == "eq": h.both(K, lambda: real == list(model), lambda: True)
    elif k == "ne":
        m2 = list(model); m2.append(1)
        h.both(K, lambda: (real != m2, real == m2), lambda: (True, False))
    elif k == "neq_len":
        l2 = h.db0.list([1] * (n + 1))
        h.both(K, lambda: (real != l2, real == l2), lambda: (True, False))
    elif k == "copy":
        def c():
            o = real.copy(); o.append(1); return o
        h.both(K, c, lambda: model.copy() + [1])
    elif k == "mul":
        m = r.choice([0, 1, 2, 3])
        if n < 100: h.both(K, lambda: real * m, lambda: model * m)
    elif k == "add":
        l2 = h.db0.list([1, "q"])
        h.both(K, lambda: real + l2, lambda: model + [1, "q"])
    elif k == "clear": h.both(K, lambda: real.clear(), lambda: model.clear())
    elif k == "getnested":
        c = [i for i, v in enumerate(model) if isinstance(v, list)]
        if c:
            i = r.choice(c); v = r.randrange(100)
            # (a nested list of the model may be shared with an argument we no longer use)
            h.both(K, lambda: real[i].append(v), lambda: model[i].append(v))


# -------------------------------------------------------------------------------------------------- dict
def op_dict(h, r, real, model):
    from vals import plain
    k = r.choice(["set"] * 7 + ["get", "getd", "getitem", "del", "pop", "popd", "setdefault", "update", "updkw", "updpairs", "in", "len", "iter",
                  "keys", "values", "items", "copy", "clear", "nested", "fromkeys"])
    if k == "clear" and r.random() < .8: k = "set"
    K = "dict." + k
    h.ctx.op(K)
    key = r.choice(list(model)) if model and r.random() < .6 else hkey(r)
    x = elem(r)
    if k == "set": h.both(K, lambda: real.__setitem__(key, x), lambda: model.__setitem__(key, x))
    elif k == "get": h.both(K, lambda: real.get(key), lambda: model.get(key))
    elif k == "getd": h.both(K, lambda: real.get(key, 7), lambda: model.get(key, 7))
    elif k == "getitem": h.both(K, lambda: real[key], lambda: model[key])
    elif k == "del": h.both(K, lambda: real.__delitem__(key), lambda: model.__delitem__(key))
    elif k == "pop": h.both(K, lambda: real.pop(key), lambda: model.pop(key))
    elif k == "popd": h.both(K, lambda: real.pop(key, "dflt"), lambda: model.pop(key, "dflt"))
    elif k == "setdefault": h.both(K, lambda: real.setdefault(key, x), lambda: model.setdefault(key, x))
    elif k == "update":
        d = {hkey(r): elem(r) for _ in range(r.choice([0, 1, 4, 30]))}
        h.both(K, lambda: real.update(d), lambda: model.update(d))
    elif k == "updpairs":
        d = [(hkey(r), elem(r)) for _ in range(r.choice([0, 1, 4]))]
        h.both(K, lambda: real.update(d), lambda: model.update(d))
    elif k == "updkw":
        h.both(K, lambda: real.update(kw1=x, kw2=2), lambda: model.update(kw1=x, kw2=2))
    elif k == "in": h.both(K, lambda: key in real, lambda: key in model)
    elif k == "len": h.both(K, lambda: len(real), lambda: len(model))
    elif k == "iter": h.both(K, lambda: [plain(v) for v in real].__len__() and frozenset(plain(v) for v in real), lambda: len(model) and frozenset(model))
    elif k == "keys": h.both(K, lambda: (frozenset(map(plain, real.keys())), len(real.keys())), lambda: (frozenset(model.keys()), len(model)))
    elif k == "values":
        from vals import typed, plain
        h.both(K, lambda: sorted(repr(typed(plain(v))) for v in real.values()) if not any(isinstance(v, (set, dict)) for v in model.values()) else 0,
               lambda: sorted(repr(typed(v)) for v in model.values()) if not any(isinstance(v, (set, dict)) for v in model.values()) else 0)
    elif k == "items": h.both(K, lambda: {plain(a): b for a, b in real.items()}, lambda: dict(model.items()))
    elif k == "copy":
        def c():
            o = real.copy(); o["zzz"] = 1; return o
        def m():
            o = model.copy(); o["zzz"] = 1; return o
        h.both(K, c, m)
    elif k == "clear": h.both(K, lambda: real.clear(), lambda: model.clear())
    elif k == "nested":
        c = [i for i, v in model.items() if isinstance(v, dict)]
        if c:
            i = r.choice(c); v = r.randrange(100)
            h.both(K, lambda: real[i].__setitem__("nn", v), lambda: model[i].__setitem__("nn", v))
    elif k == "fromkeys":
        ks = [hkey(r) for _ in range(3)]
        h.both(K, lambda: type(real).fromkeys(ks, 5) if False else h.db0.dict().fromkeys(ks, 5), lambda: dict.fromkeys(ks, 5))


# -------------------------------------------------------------------------------------------------- set
def op_set(h, r, real, model):
    from vals import plain
    k = r.choice(["add"] * 8 + ["discard", "remove", "in", "len", "iter", "union", "inter", "diff", "symdiff", "or", "and", "sub", "xor",
                  "ior", "iand", "isub", "ixor", "issub", "issuper", "isdisj", "update", "copy", "pop", "clear", "union2", "inter2", "diff2", "eq"])
    if k == "clear" and r.random() < .8: k = "add"
    K = "set." + k
    h.ctx.op(K)
    key = r.choice(sorted(model, key=repr)) if model and r.random() < .5 else hkey(r)
    ml = sorted(model, key=repr)
    other = set(r.sample(ml, r.randrange(len(ml) + 1))) | {hkey(r) for _ in range(r.randrange(4))}
    if r.random() < .2: other = set(ml)
    as_db0 = r.random() < .5
    o = h.db0.set(other) if as_db0 else set(other)
    o2s = {hkey(r) for _ in range(2)} | set(ml[:2])
    K += "" if k in ("add", "discard", "remove", "in", "len", "iter", "copy", "pop", "clear") else (".db0" if as_db0 else ".py")
    F = frozenset
    if k == "add": h.both(K, lambda: real.add(key), lambda: model.add(key))
    elif k == "discard": h.both(K, lambda: real.discard(key) and None, lambda: model.discard(key))
    elif k == "remove": h.both(K, lambda: real.remove(key), lambda: model.remove(key))
    elif k == "in": h.both(K, lambda: key in real, lambda: key in model)
    elif k == "len": h.both(K, lambda: len(real), lambda: len(model))
    elif k == "iter": h.both(K, lambda: (F(map(plain, real)), len(list(real))), lambda: (F(model), len(model)))
    elif k == "union": h.both(K, lambda: real.union(o), lambda: model.union(other))
    elif k == "union2": h.both(K, lambda: real.union(o, o2s), lambda: model.union(other, o2s))
    elif k == "inter": h.both(K, lambda: real.intersection(o), lambda: model.intersection(other))
    elif k == "inter2": h.both(K, lambda: real.intersection(o, o2s), lambda: model.intersection(other, o2s))
    elif k == "diff": h.both(K, lambda: real.difference(o), lambda: model.difference(other))
    elif k == "diff2": h.both(K, lambda: real.difference(o, o2s), lambda: model.difference(other, o2s))
    elif k == "symdiff": h.both(K, lambda: real.symmetric_difference(o), lambda: model.symmetric_difference(other))
    elif k == "or": h.both(K, lambda: real | o, lambda: model | other)
    elif k == "and": h.both(K, lambda: real & o, lambda: model & other)
    elif k == "sub": h.both(K, lambda: real - o, lambda: model - other)
    elif k == "xor": h.both(K, lambda: real ^ o, lambda: model ^ other)
    elif k == "issub": h.both(K, lambda: real.issubset(o), lambda: model.issubset(other))
    elif k == "issuper": h.both(K, lambda: real.issuperset(o), lambda: model.issuperset(other))
    elif k == "isdisj": h.both(K, lambda: real.isdisjoint(o), lambda: model.isdisjoint(other))
    elif k == "update": h.both(K, lambda: [real.update(o)] and None, lambda: model.update(other))
    elif k == "eq": h.both(K, lambda: real == o, lambda: model == other)
    elif k in ("ior", "iand", "isub", "ixor"):
        def f(s, t):
            if k == "ior": s |= t
            elif k == "iand": s &= t
            elif k == "isub": s -= t
            else: s ^= t
        h.both(K, lambda: f(real, o), lambda: f(model, other))
    elif k == "copy":
        def c():
            q = real.copy(); q.add("zzz"); return q
        h.both(K, c, lambda: model | {"zzz"})
    elif k == "pop":
        if model:
            v = real.pop()
            from vals import plain
            v = plain(v)
            h.ctx.check(v in model, K + ":foreign", repr(v)); model.discard(v)
        else:
            h.both(K, lambda: real.pop(), lambda: model.pop())
    elif k == "clear": h.both(K, lambda: real.clear(), lambda: model.clear())


# -------------------------------------------------------------------------------------------------- tuple
def op_tuple(h, r, real, model):
    n = len(model)
    k = r.choice(["getitem", "iter", "len", "count", "index", "in", "eq", "slice", "unpack"])
    K = "tuple." + k; h.ctx.op(K)
    i = r.randrange(-n - 2, n + 2)
    y = r.choice(model) if model and r.random() < .7 else elem(r)
    if k == "getitem": h.both(K, lambda: real[i], lambda: model[i])
    elif k == "iter": h.both(K, lambda: [v for v in real], lambda: list(model))
    elif k == "len": h.both(K, lambda: len(real), lambda: len(model))
    elif k == "eq": h.both(K, lambda: (real == tuple(model), real == tuple(model) + (1,)), lambda: (True, False))
    elif k == "unpack": h.both(K, lambda: (*real,), lambda: (*model,))
    elif k == "slice" : pass
    elif not isinstance(y, (list, tuple, dict, set)):
        if k == "count": h.both(K, lambda: real.count(y), lambda: model.count(y))
        elif k == "index": h.both(K, lambda: real.index(y), lambda: model.index(y))
        elif k == "in": h.both(K, lambda: y in real, lambda: y in model)


# -------------------------------------------------------------------------------------------------- bytearray
def op_bytearray(h, r, real, model):
    n = len(model)
    from vals import rnd_bytes
    k = r.choice(["append"] * 4 + ["extend", "setitem", "getitem", "insert", "del", "find", "rfind", "index", "count", "startswith", "endswith", "upper",
                  "replace", "split", "strip", "partition", "decode", "eq", "len", "isx", "center", "iter"])
    K = "bytearray." + k; h.ctx.op(K)
    i = r.randrange(-n - 2, n + 2)
    b = r.randrange(256)
    sub = bytes(model[max(0, i):max(0, i) + r.randrange(4)]) if r.random() < .7 else rnd_bytes(r)[:3]
    if k == "append": h.both(K, lambda: real.append(b), lambda: model.append(b))
    elif k == "extend":
        e = rnd_bytes(r); h.both(K, lambda: real.extend(e), lambda: model.extend(e))
    elif k == "setitem": h.both(K, lambda: real.__setitem__(i, b), lambda: model.__setitem__(i, b))
    elif k == "getitem": h.both(K, lambda: real[i], lambda: model[i])
    elif k == "insert": h.both(K, lambda: real.insert(i, b), lambda: model.insert(i, b))
    elif k == "del":
        def d(o): del o[i]
        h.both(K, lambda: d(real), lambda: d(model))
    elif k in ("find", "rfind", "index", "count", "startswith", "endswith"):
        h.both(K, lambda: getattr(real, k)(sub), lambda: getattr(model, k)(sub))
    elif k == "upper":
        m = r.choice(["upper", "lower", "swapcase", "title", "capitalize"])
        h.both("bytearray." + m, lambda: bytes(getattr(real, m)()), lambda: bytes(getattr(model, m)()))
    elif k == "replace": h.both(K, lambda: bytes(real.replace(sub or b"a", b"XY")), lambda: bytes(model.replace(sub or b"a", b"XY")))
    elif k == "split": h.both(K, lambda: [bytes(q) for q in real.split(sub or b"a")], lambda: [bytes(q) for q in model.split(sub or b"a")])
    elif k == "strip":
        m = r.choice(["strip", "lstrip", "rstrip"])
        h.both("bytearray." + m, lambda: bytes(getattr(real, m)(sub)), lambda: bytes(getattr(model, m)(sub)))
    elif k == "partition": h.both(K, lambda: [bytes(q) for q in real.partition(sub or b"a")], lambda: [bytes(q) for q in model.partition(sub or b"a")])
    elif k == "decode": h.both(K, lambda: real.decode("latin-1"), lambda: model.decode("latin-1"))
    elif k == "eq": h.both(K, lambda: real == model, lambda: True)
    elif k == "len": h.both(K, lambda: len(real), lambda: len(model))
    elif k == "iter": h.both(K, lambda: [v for v in real], lambda: list(model))
    elif k == "isx":
        m = r.choice(["isalnum", "isalpha", "isascii", "isdigit", "islower", "isspace", "istitle", "isupper"])
        h.both("bytearray." + m, lambda: getattr(real, m)(), lambda: getattr(model, m)())
    elif k == "center":
        m = r.choice(["center", "ljust", "rjust"])
        h.both("bytearray." + m, lambda: bytes(getattr(real, m)(n + 3, b"_")), lambda: bytes(getattr(model, m)(n + 3, b"_")))


OPS = dict(list=op_list, dict=op_dict, set=op_set, tuple=op_tuple, bytearray=op_bytearray)


def case(ctx, spec):
    import dbzero as db0
    from vals import plain, typed, rnd_bytes
    import copy
    t = spec["type"]
    r0 = ctx.rng("init")
    db0.init(ctx.dir)
    db0.open("p", "rw", autocommit=False)

    @db0.memo(singleton=True)
    class Root:
        def __init__(self, v):
            self.v = v
    big = r0.random() < .3
    if t == "list": model = [elem(r0) for _ in range(r0.choice([0, 3, 40, 300]) if big else 0)]
    elif t == "dict": model = {hkey(r0): elem(r0) for _ in range(r0.choice([0, 3, 40, 300]) if big else 0)}
    elif t == "set": model = {hkey(r0) for _ in range(r0.choice([0, 3, 40, 300]) if big else 0)}
    elif t == "tuple": model = tuple(elem(r0) for _ in range(r0.choice([0, 1, 3, 40, 300])))
    else: model = bytearray(rnd_bytes(r0))
    ctor = getattr(db0, t)
    ctx.op("ctor." + t)
    root = Root(ctor(bytes(model) if t == "bytearray" else copy.deepcopy(model)))
    h = Harness(ctx, db0)
    model = copy.deepcopy(model)
    kinds = set()
    for i in ctx.steps(120):
        r = ctx.rng(i)
        if r.random() < .04:
            ctx.op("commit"); db0.commit()
        if r.random() < .03:
            ctx.op("reopen")
            root = None
            db0.commit(); db0.close()
            db0.init(ctx.dir); db0.open("p", "rw", autocommit=False)
            root = Root()
        OPS[t](h, r, root.v, model)
        kinds.add(ctx.log[-1])
        if i % 8 == 7 or t == "tuple":
            h.both(t + ".whole", lambda: root.v, lambda: model)
    h.both(t + ".whole", lambda: root.v, lambda: model)
    ctx.sig = [t, sorted(kinds), len(model)]
    ctx.samples.append(dict(type=t, ops=ctx.log[:40], final_len=len(model)))
    ctx.op("close")
    root = None
    db0.close()


def main():
    import fw
    c = fw.Check("C05", rule="random operation sequences on one persistent collection and its Python counterpart; non-trivial = distinct (type, set of operations, final length)")
    n = (60 if not fw.THOROUGH else 1500)
    specs = [dict(seed=s, type=t, n=120) for t in OPS for s in fw.seeds(n, t)]
    c.cases("c05", specs)
    c.finish(min_events={"checked": 1000})


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
    main()
