"""C13: a copy of a prefix opens to the committed state, history included, and lives on its own."""
import sys, os


def case(ctx, spec):
    import dbzero as db0, world, hashlib, subprocess, shutil, threading
    r = ctx.rng("w")
    A = os.path.join(ctx.dir, "a"); os.makedirs(A)
    step = {"page_io_step_size": spec["step"]} if spec["step"] else {}
    def open_(d, mode="rw", **kw):
        db0.init(d); db0.open("px", mode, **({"autocommit": False} if mode == "rw" else {}), **kw)
    open_(A, **step)
    w = world.World(ctx, r, max_nodes=spec["nodes"], hold=.2)
    at = {}                     # state -> image
    last = None                 # committed image
    k = 0; n = 0
    copies = []                 # (directory, image, states)

    def commit():
        nonlocal k, last
        k += 1; w.stamp(k); ctx.op("commit", k); db0.commit()
        last = world.mdump(w.m); at[db0.get_state_num("px", finalized=True)] = last; ctx.count("commits")

    def digest(d): return hashlib.sha1(open(os.path.join(d, "px.db0"), "rb").read()).hexdigest()

    def states(some, rr, key):
        """older states read from an open prefix"""
        for s in rr.sample(sorted(some), min(3, len(some))):
            with db0.snapshot({"px": s}) as sn:
                world.expect(ctx, world.dump(sn.fetch(world.Root), sn.find), some[s], key); ctx.count("states")

    def copy(rr, name=None):
        nonlocal n
        d = os.path.join(ctx.dir, f"c{n}"); os.makedirs(d); n += 1
        kw = {} if rr.random() < .3 else {"page_io_step_size": rr.choice([1 << 16, 1 << 17, 1 << 20])}
        if name: kw["prefix"] = name
        ctx.op("copy", (n, kw))
        db0.copy_prefix(os.path.join(d, "px.db0"), **kw)
        copies.append((d, last, dict(at), digest(d))); ctx.count("copies")

    commit()
    for i in ctx.steps(spec["n"]):
        rr = ctx.rng("step", i); w.r = rr
        w.step()
        c = rr.random()
        if c < .12: commit()
        elif c < .15: copy(rr)
        elif c < .17: ctx.op("close"); w.forget(); commit_needed = db0.commit(); last = world.mdump(w.m); at[db0.get_state_num("px", finalized=True)] = last; db0.close(); open_(A); w.reopen_root(); w.verify("reopened")
    commit(); copy(ctx.rng("last"))
    w.verify("original"); states(at, r, "original-state")

    # copies made by another process while this one writes
    if spec["live"]:
        out = os.path.join(ctx.dir, "l"); os.makedirs(out)
        put = lambda x, v: (open(os.path.join(out, x + "~"), "w").write(str(v)), os.rename(os.path.join(out, x + "~"), os.path.join(out, x)))
        put("C", k); put("B", k)
        ctx.op("live")
        p = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.abspath(world.__file__)), "copier.py"), A, out, "6", str(spec["seed"])], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        img = {k: last}
        j = 0
        while p.poll() is None and j < 4000:
            w.r = ctx.rng("live", j); j += 1
            for _ in range(3): w.step()
            put("B", k + 1); commit(); put("C", k); img[k] = last
        o, e = p.communicate(timeout=60)
        ctx.check(p.returncode == 0, "live-copy-failed", e[-600:])
        got = [l.split()[1:] for l in o.splitlines() if l.startswith("P ")]
        ctx.eq(len(got), 6, "live-copies")
        for d, lo, hi in got:
            im, err = world.dump_process(d, "px")
            ctx.check(im is not None, "live-open", err)
            s = int(im["cnt"].split()[-1]) if im["cnt"].split()[-1].isdigit() else -1
            ctx.check(int(lo) <= s <= int(hi), "live-stamp", f"{s} outside {lo}..{hi}")
            world.expect(ctx, im, img[s], "live-content"); ctx.count("live_copies"); ctx.count("live_commits", int(hi) - int(lo))
    w.forget(); db0.close()
    copy_closed = spec["seed"] % 3 == 0
    if copy_closed: db0.init(A); copy(ctx.rng("closed"), "px"); db0.close()
    before = digest(A)
    for j, (d, image, st, dig) in enumerate(copies):
        rr = ctx.rng("use", j)
        ctx.eq(digest(d), dig, "copy-touched", "a copy changed though only the original was used")
        ctx.op("use", j); ctx.crumb("open-copy")
        open_(d, "r")
        world.expect(ctx, world.dump(db0.fetch(world.Root), types=False), image, "copy"); states({s: x for s, x in st.items() if s < max(st)}, rr, "copy-state")
        ctx.crumb(""); db0.close()
        if rr.random() < .5 or j == len(copies) - 1:
            # go on with the copy
            open_(d)
            world.expect(ctx, world.dump(world.Root()), image, "copy-rw")
            world.Root().cnt = 10**6 + j; o = world.Node(10**6, [1, 2]); db0.tags(o).add("red"); world.Root().nodes[10**6] = o; world.Root().log.append("x" * rr.choice([5, 9000])); o = None
            x = world.dump(world.Root()); db0.commit()
            world.expect(ctx, world.dump(world.Root()), x, "copy-continued")
            s2 = db0.get_state_num("px", finalized=True); ctx.check(s2 > max(st), "copy-state-number", f"{s2} after {max(st)}")
            ctx.check("1000000" in x["nodes"] and "1000000" in x["tag:red"], "copy-write")
            for _ in range(rr.randrange(4)):
                world.Root().nodes[10**6].a.append(7); world.Root().cnt += 1; db0.commit()
            x = world.dump(world.Root())
            if rr.random() < .5:
                d2 = d + "c"; os.makedirs(d2); ctx.op("copy-of-copy"); db0.copy_prefix(os.path.join(d2, "px.db0")); ctx.count("copies_of_copies")
                db0.close(); open_(d2, "r"); world.expect(ctx, world.dump(db0.fetch(world.Root)), x, "copy-of-copy"); db0.close()
            else: db0.close()
            open_(d, "r"); world.expect(ctx, world.dump(db0.fetch(world.Root)), x, "copy-reopened"); states({s: y for s, y in st.items()}, rr, "copy-state-later"); db0.close()
            ctx.count("continued")
    ctx.eq(digest(A), before, "original-touched", "the original changed though only copies were used")
    # the copy in place of the original, and the original in place of itself
    open_(A); w.reopen_root(); w.verify("original-end"); w.forget(); db0.close()
    ctx.sig.append((spec["seed"], k, n))


def main():
    from fw import Check, seeds, THOROUGH
    c = Check("C13", rule="one case = a random history with copies made along it (also by another process during commits), each read, continued and copied again; distinct = histories with different outcomes")
    specs = [dict(seed=s, n=[60, 150, 300][i % 3], nodes=[8, 25, 60][(i // 3) % 3], step=[None, 1 << 16, 1 << 18][(i // 2) % 3], live=i % 4 == 0) for i, s in enumerate(seeds(1200 if THOROUGH else 72, "c13"))]
    c.cases("c13", specs)
    c.finish(min_events=dict(copies=200, continued=100, states=500))


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
    main()
