"""random storable values and normalisation of engine collections to plain Python ones"""
import datetime as dt, decimal, math

STR_POOL = ["", "a", "b", "ab", "żółw", "x" * 7, "y" * 8, "z" * 9, "k" * 63, "L" * 300, "日本", "a\x00b", "\U0001F600"]


def rnd_int(r):
    c = r.randrange(6)
    if c == 0: return r.randrange(-3, 4)
    if c == 1: return r.choice([0, 1, -1, 2**31, -2**31, 2**32, 2**62, 2**63 - 1, -2**63, -2**63 + 1, 127, 128, 255, 256])
    if c == 2: return r.randrange(-2**63, 2**63)
    return r.randrange(0, 40)


def rnd_str(r):
    c = r.randrange(4)
    if c == 0: return r.choice(STR_POOL)
    if c == 1: return "".join(chr(r.choice([65, 97, 0x105, 0x4e2d, 0x1f600]) + r.randrange(5)) for _ in range(r.randrange(20)))
    return "s%d" % r.randrange(30)


def rnd_float(r):
    return r.choice([0.0, 1.5, -2.25, 1e300, -1e-300, 3.0, float("inf"), -float("inf"), r.random(), r.uniform(-1e9, 1e9)])


def rnd_datetime(r, tz=False):
    d = dt.datetime(r.randrange(1, 10000) if r.random() < .3 else r.randrange(1950, 2100), r.randrange(1, 13), r.randrange(1, 29),
                    r.randrange(24), r.randrange(60), r.randrange(60), r.choice([0, 1, 999999, r.randrange(10**6)]))
    return d


def rnd_date(r):
    return dt.date(r.randrange(1, 10000) if r.random() < .3 else r.randrange(1950, 2100), r.randrange(1, 13), r.randrange(1, 29))


def rnd_bytes(r):
    return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 3, 8, 30, 200])))


def scalar(r, kinds="isfnbtd"):
    k = r.choice(kinds)
    if k == "i": return rnd_int(r)
    if k == "s": return rnd_str(r)
    if k == "f": return rnd_float(r)
    if k == "n": return None
    if k == "b": return r.random() < .5
    if k == "t": return rnd_datetime(r)
    if k == "d": return rnd_date(r)
    if k == "y": return rnd_bytes(r)
    raise AssertionError(k)


def typed(x):
    """a value tagged with its type, so that 1, 1.0 and True differ; nan equals nan"""
    if isinstance(x, float):
        return ("float", "nan") if math.isnan(x) else ("float", math.copysign(1, x), x)
    if isinstance(x, (list,)): return ("list", tuple(typed(i) for i in x))
    if isinstance(x, tuple): return ("tuple", tuple(typed(i) for i in x))
    if isinstance(x, (set, frozenset)): return ("set", frozenset(typed(i) for i in x))
    if isinstance(x, dict): return ("dict", frozenset((typed(k), typed(v)) for k, v in x.items()))
    return (type(x).__name__, x)


def plain(x):
    """engine collections -> plain ones, recursively (by reading them through their public interface)"""
    t = type(x).__name__
    m = type(x).__module__
    if t == "List" or isinstance(x, list): return [plain(i) for i in x]
    if t == "Tuple" or isinstance(x, tuple): return tuple(plain(i) for i in x)
    if t == "Dict" or isinstance(x, dict): return {plain(k): plain(v) for k, v in x.items()}
    if t == "Set" or isinstance(x, (set, frozenset)): return frozenset(plain(i) for i in x)
    if t == "ByteArray": return bytearray(x[i] for i in range(len(x)))
    return x
