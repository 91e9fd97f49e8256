"""setup_cmd: build the instrumented variants once (every check rebuilds what changed in /repo's tree)."""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
t = time.time()
for v in ("plain", "asan"):
    print(v, *build.ext(v), flush=True)
print("%.0fs" % (time.time() - t))
