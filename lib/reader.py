"""A process that reads prefixes another one writes.  reader.py DIR OUT {options}; commands on stdin, one JSON per line:
  free              - observe snapshots on its own until the next command arrives, appending observations to OUT
  until K           - refresh until the head shows stamp K (bounded), answer with the dump of the head
  quit              - close
Observations carry the (system wide) monotonic clock before and after.
"""
import sys, os, json, time, random, select
import dbzero as db0
import ctypes; ctypes.CDLL(None).prctl(1, 9)      # dies with the process that started it
import world


_buf = b""


def pending():
    return b"\n" in _buf or bool(select.select([0], [], [], 0)[0])


def line():
    global _buf
    while b"\n" not in _buf:
        d = os.read(0, 65536)
        if not d: return ""
        _buf += d
    l, _buf = _buf.split(b"\n", 1)
    return l.decode()


def main():
    dir_, out, o = sys.argv[1], open(sys.argv[2], "a", buffering=1), json.loads(sys.argv[3])
    r = random.Random(o["seed"])
    now = time.monotonic
    t_open = now()
    db0.init(dir_)
    for px in o.get("others", []): db0.open(px, "r")
    db0.open("px", "r")
    if o.get("cache"): db0.set_cache_size(o["cache"])
    db0.fetch(world.Root)
    held = []
    seen = {}

    def say(**k): print("R " + json.dumps(k), flush=True)

    def put(**k): out.write(json.dumps(k) + "\n")

    def side(find_root):
        s = find_root(world.Side)
        return [s.n, list(s.l), world.canon(s.d)]

    def snap(kind="snap", t0=None):
        t0 = t0 or now()
        if kind == "snap" and r.random() < .5:
            db0.refresh()
        sn = db0.snapshot()
        try:
            state = sn.get_state_num() if hasattr(sn, "get_state_num") else None
            root = sn.fetch(world.Root)
            k = root.cnt
            t1 = now()
            d = world.dump(root, find=sn.find)
            s = side(sn.fetch) if "py" in o.get("others", []) else None
            again = sn.fetch(world.Root).cnt
            j = json.dumps([d, s])
            put(kind=kind, t0=t0, t1=t1, stamp=k, again=again, dump=None if seen.get(k) == j else [d, s])
            seen[k] = j
        finally:
            sn.close()

    def head(k, tmax):
        """-> the head once it shows stamp k"""
        end = now() + tmax
        n = 0
        while True:
            if n or r.random() < .8 or o.get("others"): db0.refresh()
            root = db0.fetch(world.Root)
            if root.cnt == k or now() > end: break
            n += 1
            time.sleep(.002)
        d = world.dump(root)
        s = side(db0.fetch) if "py" in o.get("others", []) else None
        if r.random() < .6:             # hold some objects into the next rounds
            for v in root.nodes.values():
                if r.random() < .3: held.append((v.uid, v))
        del held[:-20]
        return root.cnt, d, s, n

    def held_images(alive):
        """objects held since earlier refreshes, as they read now (an object the writer has deleted is not touched: nothing is promised for it)"""
        held[:] = [x for x in held if x[0] in alive]
        res = {}
        for uid, v in held:
            try: res[uid] = {k: world.canon(x) for k, x in world.node_fields(v).items()}
            except Exception as e: res[uid] = {"gone": type(e).__name__}
        return res

    snap("open", t_open)
    say(ready=1)
    mode = "wait"
    last = 0
    while True:
        if mode == "wait" or pending():
            l = line()
            if not l: return
            c = json.loads(l)
            if c[0] == "quit":
                held.clear()
                db0.close()
                say(bye=1)
                return
            if c[0] == "free": mode = "free"
            if c[0] == "until":
                mode = "wait"
                k, d, s, n = head(c[1], c[2])
                say(stamp=k, dump=d, side=s, polls=n, held=held_images(set(c[3])))
            continue
        x = r.random()
        if x < .6: snap()
        elif x < .9:
            t0 = now(); k = db0.fetch(world.Root).cnt; put(kind="head", t0=t0, t1=now(), stamp=k)
        else: time.sleep(r.random() * .02)
        if r.random() < .02: db0.clear_cache()


if __name__ == "__main__":

    main()
