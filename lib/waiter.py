"""A reading process which waits for states.  waiter.py DIR; per line [state, timeout ms] -> "A [result, state number, stamp, seconds]" """
import sys, json, time
import dbzero as db0
import ctypes; ctypes.CDLL(None).prctl(1, 9)      # dies with the process that started it
import world

db0.init(sys.argv[1])
db0.open("px", "r")
print("A []", flush=True)
for l in sys.stdin:
    s, t = json.loads(l)
    a = db0.get_state_num("px")
    t0 = time.monotonic()
    ok = db0.wait("px", s, t)
    dt = time.monotonic() - t0
    # (what is visible now, without a further refresh)
    with db0.snapshot() as sn: k = sn.fetch(world.Root).cnt
    print("A " + json.dumps([bool(ok), db0.get_state_num("px"), k, dt, a]), flush=True)
