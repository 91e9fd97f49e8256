"""Cases that run a C++ harness executable (harness/hx.hpp main_) and take over its verdict and counts."""
import os, glob, subprocess, tempfile


def run(ctx, spec, arg):
    """arg: first argument of the harness; spec carries exe, seed, n and optionally opt"""
    env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "PYTHONPATH")}
    env["PYTHONPATH"] = glob.glob("/opt/vp/venv/lib/python3*/site-packages")[0]
    env.update(PYTHONMALLOC="malloc", ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:detect_odr_violation=0:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:abort_on_error=1")
    with tempfile.TemporaryFile() as crumb:
        env["HX_CRUMB"] = str(crumb.fileno())
        if spec.get("trace"): env["HX_TRACE"] = "1"
        p = subprocess.Popen([spec["exe"], arg, str(spec["seed"]), str(spec["n"]), str(spec.get("opt", ""))], env=env, cwd=ctx.dir,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, pass_fds=[crumb.fileno()])
        try:
            out, err = p.communicate()
        except BaseException:
            p.kill(); raise
        crumb.seek(0); at = crumb.read(100).decode(errors="replace").strip("\0 ")
    out, err = out.decode(errors="replace"), err.decode(errors="replace")
    verdict = None
    for l in out.splitlines():
        if l.startswith("verdict "): verdict = l[8:].split("\t")
        elif l.startswith("n "):
            _, k, v = l.split(); ctx.count(k, int(v))
    if spec.get("trace"): ctx.log.append(err[-4000:])
    if verdict is None:
        ctx.check(False, f"crash:{at}", f"exit {p.returncode} during {at}: " + " ".join(l for l in err.splitlines() if "ssert" in l or "ERROR" in l or "runtime error" in l)[-500:])
    if verdict[0] == "violation": ctx.check(False, verdict[1], verdict[2])
    if verdict[0] == "exception": ctx.check(False, f"exc@{verdict[1]}", verdict[2])
    ctx.sig.append((arg if spec.get("kind") else "", spec["seed"]))
    return out
