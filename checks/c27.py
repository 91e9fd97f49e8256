"""C27: reading never changes what is stored; a read-only prefix and a snapshot cannot be changed; reading creates no state."""
import sys, os


def image(d):
    import hashlib
    out = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            if f.endswith(".lock"): continue
            s = open(p, "rb").read()
            out[os.path.relpath(p, d)] = (len(s), hashlib.sha256(s).hexdigest())
    return out


def attempts(db0, world, root, r):
    """writes by every public way -> (name, function, must it be refused)"""
    nodes = list(root.nodes.values())
    n = r.choice(nodes) if nodes else None
    A = [("cnt", lambda: setattr(root, "cnt", -77), 1), ("attr", lambda: setattr(root, "brand_new", [1]), 1), ("del-attr", lambda: delattr(root, "cnt"), 1),
         ("log.append", lambda: root.log.append(5), 1), ("log.extend", lambda: root.log.extend([5, 6]), 1), ("log.clear", lambda: root.log.clear(), 1),
         ("log.setitem", lambda: root.log.__setitem__(0, 99), 1), ("log.insert", lambda: root.log.insert(0, 99), 1), ("log.pop", lambda: root.log.pop(), 1),
         ("nodes.setitem", lambda: root.nodes.__setitem__(-5, 1), 1), ("nodes.clear", lambda: root.nodes.clear(), 1),
         ("nodes.update", lambda: root.nodes.update({-5: 1}), 1),
         ("ix.clear", lambda: root.ix.clear(), 1), ("list", lambda: db0.list([1, 2]), 1), ("dict", lambda: db0.dict({1: 2}), 1), ("set", lambda: db0.set([1]), 1),
         ("tuple", lambda: db0.tuple([1, "a"]), 1), ("index", lambda: db0.index(), 1), ("bytearray", lambda: db0.bytearray(b"12"), 1), ("weak_set", lambda: db0.weak_set(), 1),
         ("new", lambda: world.Node(99999, 1), 1), ("new-type", lambda: world.Bulk(10), 1), ("new-list-attr", lambda: world.Node(99999, [1, 2]), 1),
         ("rename", lambda: db0.rename_field(world.Root, "log", "blog"), 1), ("touch", lambda: db0.touch(root), 1), ("assign", lambda: db0.assign(root, cnt=-9), 1),
         ("atomic_assign", lambda: db0.atomic_assign(root, cnt=-9), 1), ("atomic", lambda: in_atomic(db0, root), 1), ("locked", lambda: in_locked(db0, root), 1),
         ("commit", lambda: db0.commit(), 0)]
    if n is not None:
        A += [("n.a", lambda: setattr(n, "a", "changed"), 1), ("n.new", lambda: setattr(n, "x19", {1: [2]}), 0), ("n.newname", lambda: setattr(n, "zz%d" % r.randrange(9), 1), 1),
              ("nodes.pop", lambda: root.nodes.pop(n.uid), 1), ("nodes.del", lambda: root.nodes.__delitem__(n.uid), 1),
              ("tag", lambda: db0.tags(n).add("red"), 0), ("tag-new", lambda: db0.tags(n).add("never seen"), 1), ("untag", lambda: db0.tags(n).remove("red"), 0),
              ("ix.add", lambda: root.ix.add(3, n), 1), ("ix.add-none", lambda: root.ix.add(None, n), 1), ("ix.remove", lambda: root.ix.remove(3, n), 0), ("delete", lambda: db0.delete(n), 1),
              ("assign-n", lambda: db0.assign(n, a=-9, uid=5), 1), ("touch-n", lambda: db0.touch(n), 1)]
        for part, ops in (("L", ["append", "pop", "clear", "reverse", "extend"]), ("D", ["clear", "popitem", "pop"]), ("S", ["add", "clear", "pop", "remove", "discard"]), ("B", ["append", "pop"])):
            try: c = getattr(n, part)
            except AttributeError: continue
            if type(c).__name__ not in ("List", "Dict", "Set", "ByteArray"): continue
            for o in ops:
                if not hasattr(c, o): continue
                if o in ("append", "add"): f = lambda c=c, o=o: getattr(c, o)(77)
                elif o == "extend": f = lambda c=c, o=o: getattr(c, o)([77])
                elif part == "D" and o == "pop": f = lambda c=c: [c.pop(k) for k in list(c.keys())[:1]]
                elif o in ("remove", "discard"): f = lambda c=c, o=o: [getattr(c, o)(k) for k in list(c)[:1]]
                else: f = lambda c=c, o=o: getattr(c, o)()
                A.append((part + "." + o, f, 0))
            if part == "D": A.append(("D.setitem", lambda c=c: c.__setitem__(12345, 1), 1))
            if part == "L" and len(c): A.append(("L.setitem", lambda c=c: c.__setitem__(0, 12345), 1))
            if part == "S": A.append(("S.update", lambda c=c: c.update([123456]), 1))
    return A


def in_atomic(db0, root):
    with db0.atomic():
        root.cnt = -8


def in_locked(db0, root):
    with db0.locked():
        root.cnt = -8


def reads(ctx, db0, world, w, r, what):
    """public reads whose results the model knows or which need only work"""
    k = r.randrange(9)
    ctx.op("read%d" % k)
    root = w.root
    if k == 0: w.verify(what)
    elif k == 1:
        sn = db0.snapshot(); world.expect(ctx, world.dump(sn.fetch(world.Root), sn.find, w.tags), world.mdump(w.m, w.tags), what + "-snapshot"); sn.close()
    elif k == 2:
        for t in w.tags[:4]:
            q = db0.find(t); len(q); list(q[1:3]); bool(q); list(db0.find(world.Node, t)); list(db0.find([t, "red"])) ; db0.serialize(q)
        list(db0.find("never seen tag")); list(db0.find(world.Node2)); list(root.ix.sort(db0.find(world.Node)))
        list(db0.find(db0.split_by(["red", "blue"], db0.find(world.Node))))if False else list(db0.split_by(["red", "blue"], db0.find(world.Node)))
        list(db0.find(world.Node, db0.no("red"))); list(db0.filter(lambda n: n.uid % 2, db0.find(world.Node)))
    elif k == 3:
        for n in list(root.nodes.values())[:5]:
            u = db0.uuid(n); m = db0.fetch(u); ctx.check(m.uid == n.uid, what + ":fetch"); db0.exists(u); db0.getrefcount(n); db0.get_address(n); db0.weak_proxy(n); db0.load(n.uid); hash(n)
            db0.is_memo(n); db0.get_prefix_of(n); repr(n); db0.as_tag(n); db0.describe(n)
    elif k == 4: db0.clear_cache()
    elif k == 5: db0.set_cache_size(r.choice([0, 4096, 1 << 18, 1 << 26]))
    elif k == 6: db0.refresh()
    elif k == 7:
        db0.get_schema(world.Node); db0.get_schema(world.Root); db0.get_state_num("px"); db0.get_prefix_stats(); db0.get_cache_stats(); db0.get_lang_cache_stats(); db0.hash("x"); db0.get_storage_stats()
        list(db0.get_memo_classes()) if hasattr(db0, "get_memo_classes") else 0
    else:
        for n in list(root.nodes.values())[:6]:
            for f, v in world.node_fields(n).items():
                world.canon(v)
                if type(v).__name__ in ("Dict", "Set", "List", "Tuple"): 5 in v; len(v); v == v


def case(ctx, spec):
    import dbzero as db0, world, time
    r = ctx.rng("w")
    db0.init(ctx.dir)
    db0.open("px", "rw", autocommit=False)
    w = world.World(ctx, r, max_nodes=spec["nodes"])
    for i in range(spec["hist"]):
        w.r = ctx.rng("h", i)
        w.step()
        if i % 9 == 8: db0.commit()
    w.verify("built")
    w.held.clear(); db0.commit()
    w.forget(); db0.close()
    # (what was only kept by language variables is removed by the next writer)
    db0.init(ctx.dir); db0.open("px", "rw", autocommit=False); db0.commit(); db0.close()
    # ---- read-only
    for session in range(2):
        before = image(ctx.dir)
        db0.init(ctx.dir)
        db0.open("px", "r")
        if spec["cache"]: db0.set_cache_size(spec["cache"])
        w.reopen_root()
        for i in ctx.steps(30):
            rr = ctx.rng("step", session, i); w.r = rr
            if rr.random() < .5: reads(ctx, db0, world, w, rr, "reader"); ctx.count("reads"); continue
            root = w.root; sn = None; c = rr.random()
            if c < .2: sn = db0.snapshot(); root = sn.fetch(world.Root)
            if c < .7:
                A = attempts(db0, world, root, rr)
                name, f, must = rr.choice(A)
                # (objects of a snapshot: only what addresses these objects)
                if sn is not None and not (name.startswith(("n.", "nodes.", "log.", "L.", "D.", "S.", "B.", "cnt", "attr", "del-attr"))): name, f, must = "cnt", lambda: setattr(root, "cnt", 9), 1
                ctx.op(("sn." if sn is not None else "") + name)
                try: f()
                except (IndexError, KeyError): raised = must
                except Exception as e: raised = type(e).__name__
                else: raised = 0
                ctx.check(raised or not must, "accepted:" + name, "a write to a read-only prefix was accepted")
                if raised: ctx.count("refused")
                A = f = None
            else:
                op = w.choose()
                ctx.op("op." + op[0], str(op[1:])[:200])
                try: w.to_real(op, w.m)
                except Exception: ctx.count("refused")
                w.held.clear()
            ctx.count("attempts")
            root = None
            if sn is not None:
                world.expect(ctx, world.dump(sn.fetch(world.Root), sn.find, w.tags), world.mdump(w.m, w.tags), "snapshot-changed"); sn.close(); sn = None
            if rr.random() < .4: w.verify("changed")
        w.verify("changed")
        w.forget(); ctx.crumb("close"); db0.close()
        ctx.eq(image(ctx.dir), before, "files", "stored files after reading")
        ctx.count("sessions")
    # ---- a writing process which only reads
    db0.init(ctx.dir, **({"autocommit_interval": 5} if spec["auto"] else {}))
    db0.open("px", "rw", **({} if spec["auto"] else {"autocommit": False}))
    s0 = db0.get_state_num("px", finalized=True)
    w.reopen_root()
    for i in range(6):
        rr = ctx.rng("rw", i); w.r = rr
        reads(ctx, db0, world, w, rr, "rw-reads")
        if spec["auto"]: time.sleep(.012)
        else: ctx.op("commit"); db0.commit()
        ctx.eq(db0.get_state_num("px", finalized=True), s0, "state-grew", "finalized state number after reads only"); ctx.count("rw_reads")
    w.forget(); db0.close()
    db0.init(ctx.dir); db0.open("px", "r")
    ctx.eq(db0.get_state_num("px", finalized=True), s0, "state-grew:reopened", "finalized state number in the next process")
    w.reopen_root(); w.verify("after"); w.forget(); db0.close()
    ctx.sig.append(spec["seed"]); ctx.samples.append("; ".join(ctx.log[-12:]))


def main():
    from fw import Check, seeds, THOROUGH
    c = Check("C27", rule="one case = two read-only sessions and one read-write session which only reads over a random stored history, files compared byte by byte; distinct = seeds run to the end")
    specs = []
    for i, s in enumerate(seeds(1500 if THOROUGH else 160, "c27")):
        specs.append(dict(seed=s, n=40, hist=[30, 80, 150][i % 3], nodes=[5, 15][i % 2], cache=[0, 0, 4096][i % 3], auto=i % 4 == 3))
    c.cases("c27", specs)
    c.finish(min_events=dict(sessions=200, attempts=2000, refused=1000, reads=2000, rw_reads=500))


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
    main()
