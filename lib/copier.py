"""A process that copies a prefix while another one writes it.  copier.py DIR OUT COUNT SEED; prints "P path low high" per copy,
low the last stamp known to be committed before the copy began, high the last one begun when it was ready."""
import sys, os, random, time
import dbzero as db0
import ctypes; ctypes.CDLL(None).prctl(1, 9)      # dies with the process that started it


def stamp(d, x):
    for _ in range(100):
        try: return int(open(os.path.join(d, x)).read())
        except (ValueError, FileNotFoundError): time.sleep(.001)
    return 0


def main():
    d, out, n, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    r = random.Random(seed)
    db0.init(d)
    if seed % 2: db0.open("px", "r")
    for i in range(n):
        o = os.path.join(out, f"live{i}"); os.makedirs(o)
        low = stamp(out, "C")
        kw = {} if r.random() < .3 else {"page_io_step_size": r.choice([1 << 16, 1 << 18])}
        db0.copy_prefix(os.path.join(o, "px.db0"), prefix="px", **kw)
        print("P", o, low, stamp(out, "B"), flush=True)
        time.sleep(r.random() * .01)
    db0.close()


main()
