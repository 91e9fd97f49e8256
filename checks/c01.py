"""C01: crash points.  The writes of a random history are recorded in program order (harness/wrec.c); for sampled
crash points the file is rebuilt as the crash would leave it - every write up to the point (process killed), or with
writes not yet fsynced lost or torn at random (machine lost) - opened, compared with the committed states and used on."""
import sys, os, struct, ctypes


def load(path):
    b = open(path, "rb").read(); i = 0; ev = []
    while i + 17 <= len(b):
        t = chr(b[i]); fid, off, n = struct.unpack_from("<IQI", b, i + 1)
        ev.append((t, fid, off, b[i + 17:i + 17 + n])); i += 17 + n
    return ev


SEC = 512


def tail_blocks(ev):
    """writes that rewrite the last block of a change log: the block (16 kB under one checksum) is taken to be written
    as a whole - see DESIGN.md and the known finding on torn change log blocks"""
    seen, out = set(), set()
    for i, e in enumerate(ev):
        if e[0] == "W":
            if len(e[3]) == 16384 and e[2] in seen: out.add(i)
            seen.add(e[2])
    return out


class Disk:
    """the files as written so far, and as durable so far"""
    def __init__(self):
        self.path, self.cur, self.pend = {}, {}, {}

    def apply(self, e, i):
        t, fid, off, data = e
        if t == "O": self.path[fid] = data.decode()
        elif t == "W":
            p = self.path[fid]
            b = self.cur.setdefault(p, bytearray())
            self.put(b, off, data)
            self.pend.setdefault(p, []).append((off, data, i))
        elif t == "S":
            self.pend[self.path[fid]] = []

    @staticmethod
    def put(b, off, data):
        if len(b) < off: b.extend(bytes(off - len(b)))
        b[off:off + len(data)] = data


def build(ev, k, mode, r, whole):
    """-> {path: bytes} as a crash right before event k leaves it"""
    d = Disk()
    base = {}
    for i, e in enumerate(ev[:k]):
        d.apply(e, i)
        if e[0] == "S":
            p = d.path[e[1]]
            base[p] = bytes(d.cur.get(p, b""))
    if mode == "kill":
        out = {p: bytes(b) for p, b in d.cur.items()}
        if k not in whole and ev[k][0] == "W" and r.random() < .5:          # the write itself cut short
            _, fid, off, data = ev[k]
            b = bytearray(out.get(d.path[fid], b""))
            Disk.put(b, off, data[:r.randrange(len(data) // SEC + 1) * SEC if len(data) > SEC else 0])
            out[d.path[fid]] = bytes(b)
        return out
    if mode == "torn":
        out = {p: bytes(b) for p, b in d.cur.items()}
        _, fid, off, data = ev[k]
        b = bytearray(out[d.path[fid]])
        half = next(i for i in range(0, len(data), SEC) if b[off + i:off + i + SEC] != data[i:i + SEC]) + SEC
        Disk.put(b, off, data[:half])
        return {**out, d.path[fid]: bytes(b)}
    out = {}
    for p in d.cur:
        b = bytearray(base.get(p, b""))
        q = r.choice([.1, .5, .9])
        for off, data, i in d.pend.get(p, []):
            m = r.random()
            if m < .3: continue                                            # lost
            if i in whole or m < .6 or len(data) <= SEC: Disk.put(b, off, data)          # made it
            else:                                                          # torn between sectors
                for s in range(0, len(data), SEC):
                    if r.random() < q: Disk.put(b, off + s, data[s:s + SEC])
        out[p] = bytes(b)
    return out


def case(ctx, spec):
    import dbzero as db0, world
    lib = ctypes.CDLL(None)
    r = ctx.rng("w")
    src = os.path.join(ctx.dir, "a"); os.makedirs(src)
    log = os.path.join(ctx.dir, "log")
    lib.wrec_start(src.encode(), log.encode())
    mark = lambda n: lib.wrec_mark(ctypes.c_uint64(n))
    db0.init(src)
    opts = {"autocommit": False}
    if spec.get("step"): opts["page_io_step_size"] = spec["step"]
    if spec.get("meta"): opts["meta_io_step_size"] = spec["meta"]
    if spec.get("slab"): opts["slab_size"] = spec["slab"]
    db0.open("px", "rw", **opts)
    if spec.get("cache"): db0.set_cache_size(spec["cache"])
    w = world.World(ctx, r, max_nodes=spec.get("nodes", 12), hold=.3)
    states = {}                      # commit number -> (model, dump, state number, bulk content)
    k = 0
    bulk, shadow = None, {}
    if spec.get("bulk"): bulk = world.Bulk(spec["bulk"]).b

    def touch(n):
        rb = ctx.rng("bulk", k)
        for _ in range(n):
            o = rb.randrange(spec["bulk"]); v = rb.randrange(1, 256)
            bulk[o] = v; shadow[o] = v

    def commit():
        nonlocal k
        k += 1; w.stamp(k)
        states[k] = [w.m.copy(), world.mdump(w.m), None, dict(shadow)]
        if bulk is not None:
            touch(ctx.rng("bn", k).choice([3, 60, 400])); states[k][3] = dict(shadow)
        ctx.op("commit", k)
        mark(2 * k); db0.commit(); mark(2 * k + 1)
        states[k][2] = db0.get_state_num("px", True)
        ctx.count("commits")
    commit()
    for i in ctx.steps(60):
        w.r = ctx.rng("step", i)
        w.step()
        c = w.r.random()
        if c < .3: commit()
        elif c < .33:
            k += 1; w.stamp(k)
            states[k] = [w.m.copy(), world.mdump(w.m), None, dict(shadow)]
            ctx.op("close")
            bulk = None
            w.forget(); mark(2 * k); db0.close(); mark(2 * k + 1)
            db0.init(src); db0.open("px", "rw", **opts)
            if spec.get("cache"): db0.set_cache_size(spec["cache"])
            w.reopen_root()
            if spec.get("bulk"): bulk = world.Bulk().b
            ctx.count("closes")
    k += 1; w.stamp(k)
    states[k] = [w.m.copy(), world.mdump(w.m), None, dict(shadow)]
    bulk = None
    w.forget(); mark(2 * k); db0.close(); mark(2 * k + 1); lib.wrec_stop()
    ev = load(log)
    ctx.count("events", len(ev))
    first = next(i for i, e in enumerate(ev) if e[0] == "M" and e[2] == 3)
    points = [i for i in range(first + 1, len(ev)) if ev[i][0] in "WS"]
    # the narrow windows around the fsyncs of a commit are the interesting ones
    hot = [i for i in points if any(e[0] == "S" for e in ev[max(0, i - 3):i + 4])]
    rp = ctx.rng("points")
    img = os.path.join(ctx.dir, "img")
    whole = tail_blocks(ev)
    if spec.get("probe"):
        # a change log block cut short by a power loss, in a history of several commits
        at = [i for i in sorted(whole)[:-4] if i > first and ev[i - 1][0] in "SF" and ev[i - 1][0] == "S"][-2]
        one_image(ctx, db0, world, ev, at, "torn", states, src, img, opts, rp, whole)
        return
    for j in range(spec.get("images", 10)):
        at = rp.choice(hot if rp.random() < .5 and hot else points)
        one_image(ctx, db0, world, ev, at, rp.choice(["kill", "kill", "power"]), states, src, img + str(j), opts, rp, whole)
    ctx.sig.append((spec["seed"],))


def one_image(ctx, db0, world, ev, at, mode, states, src, img, opts, r, whole):
    import shutil
    os.makedirs(img)
    # torn page writes are not detectable in the middle of a stream the engine does not yet refer to; all are allowed
    files = build(ev, at, mode, r, whole)
    acked = inflight = 0
    for e in ev[:at]:
        if e[0] == "M":
            if e[2] % 2: acked = e[2] // 2
            else: inflight = e[2] // 2
    ctx.op("crash", f"{mode} at {at} {ev[at][0]} acked={acked} inflight={inflight}; " +
           " ".join(f"{e[0]}{e[2]}+{len(e[3])}" for e in ev[max(0, at - 12):at + 6]))
    for p, b in files.items():
        q = os.path.join(img, os.path.relpath(p, src))
        os.makedirs(os.path.dirname(q), exist_ok=True)
        open(q, "wb").write(b)
    ctx.count("images." + mode)
    ctx.crumb("recover-" + mode)
    db0.init(img)
    try:
        db0.open("px", "r" if r.random() < .2 else "rw", **opts)
    except Exception as e:
        ctx.check(False, "open-after-" + mode, f"{type(e).__name__}: {e}; crash at event {at} ({ev[at][0]}), acked {acked}, in flight {inflight}")
    root = world.Root()
    got = root.cnt
    ctx.check(got in (acked, max(inflight, acked)), "state-after-" + mode,
              f"the state of commit {got} is back; acknowledged {acked}, in flight {inflight}")
    ctx.count("recovered." + ("inflight" if got != acked else "acked"))
    m, want, sn, shadow = states[got]
    world.expect(ctx, world.dump(root), want, "content-after-" + mode)
    if sn is not None:
        ctx.eq(db0.get_state_num("px", True), sn, "state-number-after-" + mode)
    if shadow:
        b = world.Bulk().b
        bad = [(o, b[o], v) for o, v in shadow.items() if b[o] != v]
        ctx.check(not bad, "bulk-after-" + mode, f"{len(bad)} of {len(shadow)} bytes wrong: (offset, got, want) {bad[:5]}")
        ctx.count("bulk_bytes", len(shadow))
    ctx.count("images_ok")
    # historic states are still there
    rw = True
    for h in r.sample(sorted(states), min(2, len(states))):
        hs = states[h][2]
        if h < got and hs is not None and sn is not None and 1 <= hs < sn and h > 1:
            s = db0.snapshot(hs)
            world.expect(ctx, world.dump(s.fetch(world.Root), find=s.find), states[h][1], "history-after-" + mode)
            s.close(); ctx.count("history_ok")
    del root
    # usable for further work
    if ctx.rng("rw", at).random() < .7:
        db0.close()
        db0.init(img); db0.open("px", "rw", **opts)
        w = world.World(ctx, r, max_nodes=20, create=False)
        w.m = m.copy(); w.next = 100000; w.reopen_root()
        for i in range(6): w.step()
        db0.commit()
        for i in range(3): w.step()
        w.stamp(999); db0.commit()
        w.verify("continued-" + mode)
        w.forget(); db0.close()
        db0.init(img); db0.open("px", "rw", **opts)
        w.reopen_root(); w.verify("reopened-" + mode)
        w.forget(); ctx.count("continued")
    db0.close()
    shutil.rmtree(img)


def main():
    import build as B
    from fw import Check, seeds, THOROUGH
    c = Check("C01", rule="one case = a recorded random history; one image = one crash point of it rebuilt, reopened, compared and continued; distinct = distinct seeds")
    specs = []
    for i, s in enumerate(seeds(1500 if THOROUGH else 120, "c01")):
        specs.append(dict(seed=s, n=[25, 60, 120][i % 3], nodes=[6, 12, 30][(i // 3) % 3], images=30 if THOROUGH else 10,
                          step=[None, 1 << 16, 1 << 18][(i // 2) % 3], meta=[None, 1024, 1 << 14][(i // 4) % 3],
                          bulk=[0, 0, 0, 3 << 20][i % 4], slab=[None, 1 << 20][i % 2]))
    specs.append(dict(seed=1, n=30, nodes=12, probe="crash:recover-torn"))
    c.cases("c01", specs, preload=[B.cshared("wrec", os.path.join(B.VERIF, "harness", "wrec.c"))])
    c.finish(min_events={"images.kill": 300, "images.power": 150, "images_ok": 500, "continued": 300, "history_ok": 200,
                         "recovered.inflight": 10, "commits": 500, "bulk_bytes": 200000})


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
    main()
