"""C25: the file-backed storage against a model of every page version (harness/c25.cpp): whole and difference writes,
transactions, flushes, readers refreshed while writing, reopenings, copies; plain and sanitized builds."""
import sys, os


def case(ctx, spec):
    import cx
    cx.run(ctx, spec, ctx.dir)
    ctx.samples.append(f"seed {spec['seed']}: {spec['n']} transactions, counts {dict(list(ctx.n.items())[:8])}")


def main():
    from fw import Check, seeds, THOROUGH, VERIF
    import build
    c = Check("C25", rule="one case = a random configuration and history of page writes, flushes, reader refreshes, reopenings and copies; distinct = distinct seeds run to the end")
    src = [os.path.join(VERIF, "harness", "c25.cpp")]
    specs = []
    for i, s in enumerate(seeds(1600 if THOROUGH else 120, "c25")):
        specs.append(dict(seed=s, n=[20, 40, 80][i % 3], exe=build.harness("c25", "asan" if i % 6 == 5 else "plain", src), limit=200))
    c.cases("c25", specs)
    c.finish(min_events={"states": 3000, "diff": 20000, "full": 50000, "refreshed": 900, "opened": 400, "copies": 70, "logs": 450, "absent": 40000})


if __name__ == "__main__":
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
    main()
