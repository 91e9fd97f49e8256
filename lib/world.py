"""A random object graph over the whole public surface, with a pure Python mirror.

Root (singleton): nodes {uid -> Node}, ix (index), cnt (stamp), log (list)
Node: uid, a, and optionally L list, D dict, S set, T tuple, B bytearray, ref, x0..x19 (dynamic attributes)

An op is a plain tuple; `mutate` performs it on either side.  References only go from a higher uid to a lower one, so
the graph is acyclic (reference counting then equals reachability).  dump() of both sides is a flat {path: text}.
"""
import sys, os, json, copy, collections, math
import dbzero as db0
from vals import scalar, rnd_int

Ref = collections.namedtuple("Ref", "uid")
TAGS = ["red", "green", "blue", "t1", "t2", "żółty"]


@db0.memo(singleton=True)
class Root:
    def __init__(self, what=0):
        self.nodes = {}
        self.ix = db0.index()
        self.cnt = what
        self.log = []


@db0.memo
class Node:
    def __init__(self, uid, a):
        self.uid = uid
        self.a = a


@db0.memo
class Node2(Node):
    def __init__(self, uid, a, b=5):
        super().__init__(uid, a)
        self.b = b


@db0.memo(singleton=True, prefix="py")
class Side:
    """content of a second prefix"""
    def __init__(self):
        self.n = 0
        self.l = []
        self.d = {}

    def image(self):
        return str(self.n), canon(self.l), canon(self.d)


@db0.memo(singleton=True)
class Bulk:
    """many pages, touched one by one: makes the storage's own index span many nodes"""
    def __init__(self, size): self.b = db0.bytearray(bytes(size))


@db0.memo(prefix="py")
class Label:
    """an object of the second prefix used as a tag"""
    def __init__(self, i): self.i = i


@db0.memo(singleton=True, prefix="py")
class Labels:
    def __init__(self): self.l = [Label(i) for i in range(2)]


FOREIGN = ["^0", "^1"]


def tagarg(t):
    return db0.as_tag(Labels().l[int(t[1:])]) if t[0] == "^" else t


class MSide:
    def __init__(self): self.n, self.l, self.d = 0, [], {}
    image = Side.image


def side_step(r, real, model):
    k, v = r.randrange(3), rnd_int(r)
    for s in (real, model):
        if k == 0: s.n = v
        elif k == 1: s.l.append(v)
        else: s.d[v % 50] = v


class MNode:
    """model of a node"""
    def __init__(self, uid, a, cls="Node"):
        self.uid, self.a, self.cls = uid, a, cls
        if cls == "Node2":
            self.b = 5
        self._tags = set()


class Model:
    def __init__(self):
        self.nodes = {}         # uid -> MNode held by root.nodes
        self.all = {}           # uid -> MNode alive
        self.ix = []            # (key, uid)
        self.cnt = 0
        self.log = []
        self.pins = set()       # uids a language variable refers to

    def copy(self):
        return copy.deepcopy(self)

    def refs(self, v, out):
        if isinstance(v, Ref): out.append(v.uid)
        elif isinstance(v, dict):
            for k, x in v.items(): self.refs(k, out); self.refs(x, out)
        elif isinstance(v, (list, tuple, set, frozenset)):
            for x in v: self.refs(x, out)
        return out

    def gc(self):
        todo = list(self.nodes) + list(self.pins) + [u for _, u in self.ix] + [u for u, n in self.all.items() if n._tags]
        seen = set()
        while todo:
            u = todo.pop()
            if u in seen: continue
            seen.add(u)
            for k, v in vars(self.all[u]).items():
                if k[0] != "_": todo += self.refs(v, [])
        dead = [u for u in self.all if u not in seen]
        for u in dead: del self.all[u]
        return dead

    def refcount(self, uid):
        """strong references a node has: containers, attributes, the index and its tags"""
        n = (uid in self.nodes) + sum(1 for _, u in self.ix if u == uid)
        for m in self.all.values():
            for k, v in vars(m).items():
                if k[0] != "_": n += self.refs(v, []).count(uid)
        return n + len(self.all[uid]._tags)


# ------------------------------------------------------------------------------------------------ canonical form
def canon(x):
    t = type(x).__name__
    if isinstance(x, Ref): return "@%d" % x.uid
    if t in ("Node", "Node2"): return "@%d" % x.uid
    if t == "MNode": return "@%d" % x.uid
    if t in ("List", "list"): return "[" + ",".join(canon(i) for i in x) + "]"
    if t in ("Tuple", "tuple"): return "(" + ",".join(canon(i) for i in x) + ")"
    if t in ("Set", "set", "frozenset"): return "{" + ",".join(sorted(canon(i) for i in x)) + "}"
    if t in ("Dict", "dict"): return "{" + ",".join(sorted(canon(k) + ":" + canon(v) for k, v in x.items())) + "}"
    if t == "ByteArray": return "B" + bytes(x[i] for i in range(len(x))).hex()
    if t == "bytearray": return "B" + bytes(x).hex()
    if isinstance(x, float): return "f" + repr(x)
    return t + " " + repr(x)


PARTS = ("L", "D", "S", "T", "B", "ref")
XN = 20


def node_fields(n):
    out = {}
    for k in ("uid", "a", "b") + PARTS + tuple("x%d" % i for i in range(XN)):
        try:
            v = getattr(n, k)
        except AttributeError:
            continue
        out[k] = v
    return out


def refs_of(x, out):
    t = type(x).__name__
    if t in ("Node", "Node2"): out.append(x)
    elif t in ("List", "Tuple", "Set", "list", "tuple", "set"):
        for i in x: refs_of(i, out)
    elif t in ("Dict", "dict"):
        for k, v in x.items(): refs_of(k, out); refs_of(v, out)


def dump(root, find=None, tags=TAGS, types=False, extra=None):
    """canonical image of everything reachable (by public reads only)"""
    find = find or db0.find
    d = {"cnt": str(root.cnt), "log": canon(root.log)}
    nodes = {}
    todo = []
    for k, v in root.nodes.items():
        if v.uid != k: d["badkey:%r" % (k,)] = str(v.uid)
        todo.append(v)
    d["nodes"] = ",".join(map(str, sorted(n.uid for n in todo)))
    for t in tags:
        r = list(find(tagarg(t)))
        d["tag:" + t] = ",".join(map(str, sorted(n.uid for n in r)))
        todo += r
    r = list(root.ix.select())
    d["ix"] = ",".join(map(str, sorted(n.uid for n in r)))
    d["ixlen"] = str(len(root.ix))
    for lo in (-5, 20):
        d["ix>%d" % lo] = ",".join(map(str, sorted(n.uid for n in root.ix.select(lo, lo + 25))))
    todo += r
    if types:
        for c in (Node, Node2):
            r = list(find(c))
            d["type:" + c.__name__] = ",".join(map(str, sorted(n.uid for n in r)))
    while todo:
        n = todo.pop()
        if n.uid in nodes: continue
        nodes[n.uid] = 1
        d["n%d.cls" % n.uid] = type(n).__name__
        for k, v in node_fields(n).items():
            d["n%d.%s" % (n.uid, k)] = canon(v)
            refs_of(v, todo)
    return d


def mdump(m, tags=TAGS, types=False):
    d = {"cnt": str(m.cnt), "log": canon(m.log)}
    ids = lambda it: ",".join(map(str, sorted(it)))
    d["nodes"] = ids(m.nodes)
    for t in tags: d["tag:" + t] = ids(u for u, n in m.all.items() if t in n._tags)
    d["ix"] = ids(u for _, u in m.ix)
    d["ixlen"] = str(len(m.ix))
    for lo in (-5, 20):
        d["ix>%d" % lo] = ids(u for k, u in m.ix if k is not None and lo <= k <= lo + 25)
    if types:
        d["type:Node"] = ids(m.all)
        d["type:Node2"] = ids(u for u, n in m.all.items() if n.cls == "Node2")
    for u, n in m.all.items():
        d["n%d.cls" % u] = n.cls
        for k, v in vars(n).items():
            if k[0] != "_" and k != "cls": d["n%d.%s" % (u, k)] = canon(v)
    return d


def diff(got, want):
    """-> [] or [(kind, text)] ; kind is the field kind, for use in keys"""
    out = []
    for k in sorted(set(got) | set(want)):
        a, b = got.get(k), want.get(k)
        if a != b:
            kind = k.split(".")[-1] if "." in k else k.split(":")[0].split(">")[0]
            kind = "x" if kind[0] == "x" and kind[1:].isdigit() else kind
            out.append((kind, f"{k}: got {str(a)[:250]} want {str(b)[:250]}"))
    return out


# ------------------------------------------------------------------------------------------------ ops
def value(r, m, below, depth=0):
    c = r.random()
    if c < .1:
        us = [u for u in m.nodes if u < below]
        if us: return Ref(r.choice(us))
    if c < .25 and depth < 2:
        k = r.randrange(3)
        if k == 0: return [value(r, m, below, depth + 1) for _ in range(r.randrange(4))]
        if k == 1: return tuple(value(r, m, below, depth + 1) for _ in range(r.randrange(3)))
        return {scalar(r, "is"): value(r, m, below, depth + 1) for _ in range(r.randrange(3))}
    return scalar(r, "isfnbtdy")


def key_value(r, m, below, kinds):
    """a dict key or set element: scalar, sometimes a memo object"""
    if r.random() < .15:
        us = [u for u in m.nodes if u < below]
        if us: return Ref(r.choice(us))
    return scalar(r, kinds)


def part_value(r, m, uid, part):
    n = r.choice([0, 1, 3, 3, 12, 40])
    if part == "L": return [value(r, m, uid) for _ in range(n)]
    if part == "T": return tuple(value(r, m, uid, 1) for _ in range(min(n, 12)))
    if part == "D": return {key_value(r, m, uid, "is"): value(r, m, uid) for _ in range(n)}
    if part == "S": return {key_value(r, m, uid, "isy") for _ in range(n)}
    if part == "B": return bytearray(r.randrange(256) for _ in range(n))
    if part == "ref":
        c = [u for u in m.nodes if u < uid]
        return Ref(r.choice(c)) if c else None


WEIGHTS = dict(new=7, drop=3, dropk=1, seta=6, setx=7, delx=2, ref=3, setpart=4, delpart=1, L=10, D=10, S=6, B=4, tag=8, untag=4, ix=5, unix=3, log=2)


class World:
    def __init__(self, ctx, r, max_nodes=25, weights=None, hold=0.35, create=True, foreign=False):
        self.ctx, self.r = ctx, r
        self.m = Model()
        self.max = max_nodes
        self.w = dict(WEIGHTS, **(weights or {}))
        self.kinds = list(self.w)
        self.hold = hold
        self.held = {}
        self.next = 1
        self.tags = list(TAGS) + (FOREIGN if foreign else [])
        if foreign and create: Labels()
        self.root = Root(0) if create else None

    # ---- access paths
    def forget(self):
        """drop every handle (before close / after rollback)"""
        self.held.clear()
        self.root = None

    def reopen_root(self):
        self.root = Root()

    def node(self, uid):
        h = self.held.get((uid, None))
        if h is not None:
            self.ctx.count("via_held")
            return h
        if uid in self.m.nodes: n = self.root.nodes[uid]
        else: n = next(x for x in db0.find(Node) if x.uid == uid)
        if self.r.random() < self.hold:
            self.held[(uid, None)] = n
        return n

    def part(self, uid, p):
        h = self.held.get((uid, p))
        if h is not None:
            self.ctx.count("via_held")
            return h
        o = getattr(self.node(uid), p)
        if self.r.random() < self.hold:
            self.held[(uid, p)] = o
        return o

    def real(self, v):
        """model value -> engine argument"""
        if isinstance(v, Ref): return self.node(v.uid)
        if isinstance(v, list): return [self.real(i) for i in v]
        if isinstance(v, tuple): return tuple(self.real(i) for i in v)
        if isinstance(v, dict): return {self.real(k): self.real(i) for k, i in v.items()}
        if isinstance(v, set): return {self.real(i) for i in v}
        if isinstance(v, bytearray): return db0.bytearray(bytes(v))
        return v

    def unhold(self, uid, p=None, all_=False):
        if all_:
            for k in [k for k in self.held if k[0] == uid]: del self.held[k]
        else:
            self.held.pop((uid, p), None)

    # ---- choosing
    def choose(self):
        """-> op tuple valid in the current model state"""
        r, m = self.r, self.m
        for _ in range(50):
            k = r.choices(self.kinds, [self.w[x] for x in self.kinds])[0]
            if k == "new":
                if len(m.nodes) >= self.max: continue
                uid = self.next; self.next += 1
                parts = {p: part_value(r, m, uid, p) for p in r.sample(PARTS, r.randrange(4))}
                return ("new", uid, r.choice(["Node", "Node", "Node2"]), value(r, m, uid), parts,
                        r.sample(self.tags, r.choice([0, 0, 1, 2])), r.choice([None, None, r.randrange(-10, 60)]))
            if k == "log": return ("log", rnd_int(r))
            if not m.nodes: continue
            uid = r.choice(list(m.nodes)); n = m.nodes[uid]
            if k == "drop":
                if len(m.nodes) > 3: return ("drop", uid)
            elif k == "dropk":
                if len(m.nodes) > 3: return ("dropk", uid)
            elif k == "seta": return ("seta", uid, value(r, m, uid))
            elif k == "setx": return ("setx", uid, "x%d" % r.randrange(XN), value(r, m, uid))
            elif k == "delx":
                c = [x for x in vars(n) if x[0] == "x"]
                if c: return ("delx", uid, r.choice(c))
            elif k == "ref": return ("setpart", uid, "ref", part_value(r, m, uid, "ref"))
            elif k == "setpart":
                p = r.choice("LDSTB"); return ("setpart", uid, p, part_value(r, m, uid, p))
            elif k == "delpart":
                c = [x for x in vars(n) if x in PARTS]
                if c: return ("delpart", uid, r.choice(c))
            elif k in "LDSB":
                c = [u for u, x in m.nodes.items() if hasattr(x, k)]
                if not c: continue
                uid = r.choice(c); o = getattr(m.nodes[uid], k)
                op = getattr(self, "_" + k)(uid, o)
                if op: return op
            elif k == "tag":
                return ("tag", uid, r.choice(self.tags))
            elif k == "untag":
                if r.random() < .5:
                    c = [u for u, x in m.all.items() if x._tags and u not in m.nodes]
                    if c: uid = r.choice(c); n = m.all[uid]
                if n._tags: return ("untag", uid, r.choice(sorted(n._tags)))
            elif k == "ix": 
                key = r.randrange(-10, 60)
                if (key, uid) not in m.ix: return ("ix", uid, key)
            elif k == "unix":
                if m.ix:
                    key, u = r.choice(m.ix); return ("unix", u, key)
        return ("log", 1)

    def _L(self, uid, o):
        r = self.r; k = r.choice(["append"] * 4 + ["set"] * 4 + ["pop", "popi", "del", "extend", "clear", "nest"]); n = len(o)
        if k == "append": return ("L.append", uid, value(r, self.m, uid))
        if k == "extend": return ("L.extend", uid, [value(r, self.m, uid) for _ in range(r.choice([1, 5, 60]))])
        if k == "clear": return ("L.clear", uid) if r.random() < .3 else None
        if not n: return None
        i = r.randrange(n)
        if k == "set": return ("L.set", uid, i, value(r, self.m, uid))
        if k == "pop": return ("L.pop", uid, -1)
        if k == "popi": return ("L.pop", uid, i)
        if k == "del": return ("L.del", uid, i)
        c = [j for j, v in enumerate(o) if isinstance(v, list)]
        if c: return ("L.nest", uid, r.choice(c), value(r, self.m, uid, 2))

    def _D(self, uid, o):
        r = self.r; k = r.choice(["set"] * 5 + ["del", "pop", "update", "clear", "nest"])
        key = r.choice(list(o)) if o and r.random() < .6 else key_value(r, self.m, uid, "is")
        if k == "set": return ("D.set", uid, key, value(r, self.m, uid))
        if k == "update": return ("D.update", uid, {key_value(r, self.m, uid, "is"): value(r, self.m, uid) for _ in range(r.choice([1, 4, 40]))})
        if k == "clear": return ("D.clear", uid) if r.random() < .3 else None
        if key in o:
            if k == "del": return ("D.del", uid, key)
            if k == "pop": return ("D.pop", uid, key)
            c = [j for j, v in o.items() if isinstance(v, dict)]
            if c: return ("D.nest", uid, r.choice(c), key_value(r, self.m, uid, "is"), value(r, self.m, uid, 2))

    def _S(self, uid, o):
        r = self.r; k = r.choice(["add"] * 5 + ["remove", "discard", "update", "clear"])
        key = r.choice(sorted(o, key=repr)) if o and r.random() < .5 else key_value(r, self.m, uid, "isy")
        if k == "add": return ("S.add", uid, key)
        if k == "discard": return ("S.discard", uid, key)
        if k == "update": return ("S.update", uid, [key_value(r, self.m, uid, "isy") for _ in range(r.choice([1, 4, 40]))])
        if k == "clear": return ("S.clear", uid) if r.random() < .3 else None
        if key in o: return ("S.remove", uid, key)

    def _B(self, uid, o):
        r = self.r; k = r.choice(["append", "append", "set", "set", "extend"])
        if k == "append": return ("B.append", uid, r.randrange(256))
        if k == "extend": return ("B.extend", uid, bytes(r.randrange(256) for _ in range(r.choice([1, 10, 100]))))
        if len(o): return ("B.set", uid, r.randrange(len(o)), r.randrange(256))

    # ---- performing
    @staticmethod
    def _coll(op, o, v):
        """the same method calls on a persistent or a plain collection; v converts arguments"""
        k = op[0]
        if k == "L.append": o.append(v(op[2]))
        elif k == "L.extend": o.extend(v(op[2]))
        elif k == "L.clear" or k == "D.clear" or k == "S.clear": o.clear()
        elif k == "L.set" or k == "B.set": o[op[2]] = v(op[3])
        elif k == "D.set": o[v(op[2])] = v(op[3])
        elif k == "L.pop": o.pop(op[2])
        elif k == "L.del": del o[op[2]]
        elif k == "D.del": del o[v(op[2])]
        elif k == "L.nest": o[op[2]].append(v(op[3]))
        elif k == "D.pop": o.pop(v(op[2]))
        elif k == "D.update": o.update(v(op[2]))
        elif k == "D.nest": o[v(op[2])][v(op[3])] = v(op[4])
        elif k == "S.add": o.add(v(op[2]))
        elif k == "S.remove": o.remove(v(op[2]))
        elif k == "S.discard": o.discard(v(op[2]))
        elif k == "S.update": o.update(v(op[2]))
        elif k == "B.append": o.append(op[2])
        elif k == "B.extend": o.extend(op[2])
        else: raise AssertionError(k)

    def to_model(self, op):
        m, k = self.m, op[0]
        cp = copy.deepcopy
        if k == "new":
            _, uid, cls, a, parts, tags, key = op
            n = MNode(uid, cp(a), cls)
            for p, v in parts.items(): setattr(n, p, cp(v))
            n._tags.update(tags)
            m.nodes[uid] = m.all[uid] = n
            if key is not None: m.ix.append((key, uid))
        elif k == "log": m.log.append(op[1])
        elif k == "drop":
            n = m.nodes.pop(op[1]); n._tags.clear(); m.ix = [e for e in m.ix if e[1] != op[1]]
        elif k == "dropk": del m.nodes[op[1]]
        elif k == "seta": m.all[op[1]].a = cp(op[2])
        elif k in ("setx", "setpart"): setattr(m.all[op[1]], op[2], cp(op[3]))
        elif k in ("delx", "delpart"): delattr(m.all[op[1]], op[2])
        elif k == "tag": m.all[op[1]]._tags.add(op[2])
        elif k == "untag": m.all[op[1]]._tags.discard(op[2])
        elif k == "ix": m.ix.append((op[2], op[1]))
        elif k == "unix": m.ix.remove((op[2], op[1]))
        else: self._coll(op, getattr(m.all[op[1]], k[0]), cp)
        return m.gc()

    def to_real(self, op, before):
        """before: the model before the op"""
        k = op[0]; root = self.root
        if k == "new":
            _, uid, cls, a, parts, tags, key = op
            n = (Node if cls == "Node" else Node2)(uid, self.real(a))
            for p, v in parts.items(): setattr(n, p, self.real(v))
            root.nodes[uid] = n
            if tags: db0.tags(n).add(*map(tagarg, tags))
            if key is not None: root.ix.add(key, n)
            if self.r.random() < self.hold: self.held[(uid, None)] = n
        elif k == "log": root.log.append(op[1])
        elif k == "drop":
            uid = op[1]; n = self.node(uid)
            t = sorted(before.all[uid]._tags)
            if t: db0.tags(n).remove(*map(tagarg, t))
            for key, u in before.ix:
                if u == uid: root.ix.remove(key, n)
            del n
            self.unhold(uid, all_=True)
            del root.nodes[uid]
        elif k == "dropk": del root.nodes[op[1]]      # (its tags, index entries and references from others keep it)
        elif k == "seta": self.node(op[1]).a = self.real(op[2])
        elif k in ("setx", "setpart"):
            setattr(self.node(op[1]), op[2], self.real(op[3])); self.unhold(op[1], op[2])
        elif k in ("delx", "delpart"):
            delattr(self.node(op[1]), op[2]); self.unhold(op[1], op[2])
        elif k == "tag": db0.tags(self.node(op[1])).add(tagarg(op[2]))
        elif k == "untag": db0.tags(self.node(op[1])).remove(tagarg(op[2]))
        elif k == "ix": root.ix.add(op[2], self.node(op[1]))
        elif k == "unix": root.ix.remove(op[2], self.node(op[1]))
        else: self._coll(op, self.part(op[1], k[0]), self.real)

    def step(self, op=None):
        op = op or self.choose()
        self.ctx.op(op[0], str(op[1:])[:300])
        self.to_real(op, self.m)
        dead = self.to_model(op)
        for u in dead: self.unhold(u, all_=True)
        return op

    def stamp(self, k):
        """write a version stamp"""
        self.root.cnt = k
        self.m.cnt = k

    def verify(self, key, root=None, find=None, model=None, types=False):
        self.ctx.crumb("dump:" + key)
        d = diff(dump(root or self.root, find, self.tags, types=types), mdump(model or self.m, self.tags, types=types))
        self.ctx.count("checked")
        self.ctx.count("dumps")
        if d:
            from wk import Violation
            raise Violation(f"{key}:{d[0][0]}", "; ".join(t for _, t in d[:6]))


def expect(ctx, got, want, key):
    ctx.count("checked"); ctx.count("dumps")
    d = diff(got, want)
    if d:
        from wk import Violation
        raise Violation(f"{key}:{d[0][0]}", "; ".join(t for _, t in d[:6]))


# ------------------------------------------------------------------------------------------------ another process
def dump_process(dir_, px, mode="r", env=None, timeout=60, opts=None):
    """dump in a fresh interpreter -> (dict or None, error text)"""
    import subprocess
    e = dict(os.environ, **(env or {}))
    p = subprocess.run([sys.executable, os.path.abspath(__file__), dir_, px, mode, json.dumps(opts or {})], env=e, capture_output=True, text=True, timeout=timeout)
    for l in p.stdout.splitlines():
        if l.startswith("DUMP "):
            return json.loads(l[5:]), ""
    return None, f"exit {p.returncode}: " + (p.stdout + p.stderr)[-1500:]


def main():
    dir_, px, mode = sys.argv[1:4]
    opts = json.loads(sys.argv[4]) if len(sys.argv) > 4 else {}
    import world                                # the classes are world.Root etc.
    db0.init(dir_)
    db0.open(px, mode, **({"autocommit": False} if mode == "rw" else {}))
    if opts.get("cache"): db0.set_cache_size(opts["cache"])
    d = world.dump(db0.fetch(world.Root), types=opts.get("types", False))
    print("DUMP " + json.dumps(d), flush=True)
    db0.close()


if __name__ == "__main__":
    main()
