"""A process which tries to become the writer of a prefix, again and again.  writer.py DIR JOURNAL {options}
Journal lines (appended, one write each): "O pid" after opening, "B k" before a commit of stamp k, "C k" after it, "F text" when
something is wrong, "X kind" for a refused open."""
import sys, os, json, time, random, signal

import dbzero as db0
import ctypes; ctypes.CDLL(None).prctl(1, 9)      # dies with the process that started it


@db0.memo(singleton=True)
class Board:
    def __init__(self):
        self.k = 0; self.l = []; self.d = {}; self.t = ""


def text(k): return "%05d" % k * (1 + k * 7 % 90)


def expected(k): return dict(l=list(range(1, k + 1)), d={j % 40: text(j) for j in range(1, k + 1)}, t=text(k) if k else "")


def alive(pid):
    try: return open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()[0] not in "ZX"
    except (FileNotFoundError, ProcessLookupError): return False


def main():
    d, journal, o = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
    r = random.Random(o["seed"])
    fd = os.open(journal, os.O_RDWR | os.O_CREAT | os.O_APPEND, 0o600)
    say = lambda *a: os.write(fd, (" ".join(map(str, a)) + "\n").encode())
    mark = journal + ".holder"
    if o.get("start"): time.sleep(max(0, o["start"] - time.time()))
    end = time.time() + o["secs"]
    while time.time() < end:
        kw = dict(autocommit=False)
        if o["block"]: kw["lock_flags"] = {"blocking": True, "timeout": 30}
        if o.get("step"): kw["page_io_step_size"] = o["step"]
        db0.init(d)
        try: db0.open("px", "rw", **kw)
        except RuntimeError as e:
            say("X", "lock" if "lock" in str(e) else "other:" + str(e).replace("\n", " ")[:150])
            db0.close()
            time.sleep(r.random() * .004)
            continue
        # ---- we are the writer
        try: m = os.open(mark, os.O_CREAT | os.O_EXCL | os.O_RDWR)
        except FileExistsError:
            pid = open(mark).read()
            if not pid or alive(int(pid)): say("F two-writers: opened while", pid, "holds the prefix")
            m = os.open(mark, os.O_TRUNC | os.O_RDWR)
        os.write(m, str(os.getpid()).encode()); os.close(m)
        say("O", os.getpid())
        lines = open(journal).read().split("\n")
        c = max([int(x[2:]) for x in lines if x.startswith("C ")], default=0)
        b = max([int(x[2:]) for x in lines if x.startswith("B ")], default=0)
        root = Board()
        k = root.k
        if not c <= k <= b: say(f"F stale: opened at stamp {k}, committed {c}, begun {b}")
        got, want = dict(l=list(root.l), d={a: x for a, x in root.d.items()}, t=root.t), expected(k)
        for f in want:
            if got[f] != want[f]: say("F content:" + f, f"at stamp {k}: got {str(got[f])[-150:]} want {str(want[f])[-150:]}")
        for _ in range(r.randrange(1, 4)):
            k += 1
            root.k = k; root.l.append(k); root.d[k % 40] = text(k); root.t = text(k)
            say("B", k)
            die = o["kill"] and r.random() < .15
            if die and r.random() < .5:
                # die before the commit (in the midst of one: C01, where what has reached the file is controlled)
                os.kill(os.getpid(), signal.SIGKILL)
            db0.commit()
            say("C", k)
            if die: os.kill(os.getpid(), signal.SIGKILL)
            if r.random() < .3: time.sleep(r.random() * .01)
        root = None
        try: os.unlink(mark)
        except FileNotFoundError: say("F two-writers: the holder mark was removed by another")
        db0.close()
        if r.random() < .5: time.sleep(r.random() * .003)


if __name__ == "__main__":
    main()
