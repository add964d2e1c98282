"""Real numpy Generators whose raw random words are chosen by the checker: every draw the code makes, by whatever
method, reads this tape."""

import numpy as np

N = 624


def _untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xEFC60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9D2C5680)
    y = x & 0xFFFFFFFF
    x = y
    for _ in range(3):
        x = y ^ (x >> 11)
    return x & 0xFFFFFFFF


_MEMO = {}


def word(y):
    r = _MEMO.get(y)
    if r is None:
        r = _MEMO[y] = _untemper(y)
    return r


def of_double(u):
    """The two 32-bit words from which next_double gives the multiple of 2^-53 closest below u."""
    k = min(int(u * 2**53), 2**53 - 1)
    return [(k >> 26) << 5, (k & (2**26 - 1)) << 6]


def of_u64(x):
    """next_uint64 of MT19937 is (first << 32) | second."""
    return [x >> 32, x & 0xFFFFFFFF]


FILL = [word(w) for i in range(N) for w in [(0x9E3779B9 * (i + 1)) & 0xFFFFFFFF]]


class Tape:
    def __init__(self):
        self.bit = np.random.MT19937(0)
        self.rng = np.random.Generator(self.bit)

    def load(self, words):
        key = FILL[: N - len(words)]
        key = [word(w) for w in words] + key
        st = self.bit.state
        st["state"]["key"] = np.array(key, dtype=np.uint32)
        st["state"]["pos"] = 0
        self.bit.state = st
        return self.rng

    def doubles(self, us):
        return self.load([w for u in us for w in of_double(u)])

    def u64s(self, xs):
        return self.load([w for x in xs for w in of_u64(x)])

    @property
    def consumed(self):
        return int(self.bit.state["state"]["pos"])


PROBES = sorted(
    {0, 2**53 - 1} | {2**j for j in range(53)} | {2**53 - 1 - 2**j for j in range(53)} | {k * 2**47 + 1 for k in range(64)} | {2**52 - 2**j for j in range(51)} | {2**52 + 2**j for j in range(51)}
)


def exact_law(run):
    """How many of the 2^53 values of a uniform variate give each outcome of run(k) (the variate is k 2^-53), when the
    outcome is piecewise constant with at most one change between neighbouring probes: every change is found by bisection."""
    count = {}
    last, out = 0, run(0)
    for k in PROBES[1:]:
        y = run(k)
        while y != out:
            lo, hi = last, k  # run(lo) == out, run(hi) != out
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if run(mid) == out:
                    lo = mid
                else:
                    hi = mid
            count[out] = count.get(out, 0) + hi - last
            last, out = hi, run(hi)
        count[out] = count.get(out, 0) + k - last
        last = k
    count[out] = count.get(out, 0) + 1
    assert sum(count.values()) == 2**53
    return count


def self_test():
    edges = [0, 3, 2**20 + 5, 2**52 + 7, 2**53 - 1]
    want = {i: b - a for i, (a, b) in enumerate(zip(edges, edges[1:] + [2**53]))}
    assert exact_law(lambda k: sum(k >= e for e in edges) - 1) == want
    t = Tape()
    us = [0.0, 0.25, 0.5, 0.999, 1 - 2**-53, 1 / 3]
    got = t.doubles(us).random(len(us))
    assert np.all(np.abs(got - us) <= 2**-53), got
    assert t.consumed == 2 * len(us)
    xs = [0, 1, 2**64 - 1, 0x0123456789ABCDEF]
    got = t.u64s(xs).integers(0, 2**64 - 1, dtype=np.uint64, endpoint=True, size=4)
    assert [int(x) for x in got] == xs, got


class Stream:
    """A Generator fed with an endless, chosen sequence of words (the MT tape above holds 312 doubles): doubles(i) and
    words(i) give the i-th uniform and the i-th raw 64-bit word."""

    def __init__(self, doubles=None, words=None):
        import ctypes
        import threading

        self.count = 0
        self.wild = 0  # draws of a kind that was not foreseen

        def dbl(_):
            i = self.count
            self.count += 1
            if doubles is None:
                self.wild += 1
                return 0.5
            return doubles(i)

        def u64(_):
            i = self.count
            self.count += 1
            if words is None:
                self.wild += 1
                return (i * 0x9E3779B97F4A7C15 + 1) & (2**64 - 1)
            return words(i)

        def u32(_):
            self.count += 1
            self.wild += 1
            return (self.count * 0x9E3779B9) & 0xFFFFFFFF

        F64, F32, FD = (ctypes.CFUNCTYPE(t, ctypes.c_void_p) for t in (ctypes.c_uint64, ctypes.c_uint32, ctypes.c_double))

        class Bitgen(ctypes.Structure):
            _fields_ = [("state", ctypes.c_void_p), ("next_uint64", F64), ("next_uint32", F32), ("next_double", FD), ("next_raw", F64)]

        self._keep = Bitgen(None, F64(u64), F32(u32), FD(dbl), F64(u64))
        new = ctypes.pythonapi.PyCapsule_New
        new.restype, new.argtypes = ctypes.py_object, [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        self._name = b"BitGenerator"
        self.capsule = new(ctypes.addressof(self._keep), self._name, None)
        self.lock = threading.Lock()
        self.rng = np.random.Generator(self)


def stream_test():
    s = Stream(doubles=lambda i: (i % 7) / 8)
    assert s.rng.random(20).tolist() == [(i % 7) / 8 for i in range(20)] and s.count == 20
    t = Tape()
    ws = [1234567 * 2**30 + 77 * i for i in range(40)]
    want = t.u64s(ws).standard_normal(20)
    assert np.array_equal(Stream(words=lambda i: ws[i % 40]).rng.standard_normal(20), want)
