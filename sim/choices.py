"""The single source of nondeterminism: a recorded sequence of bounded ints.

Two streams: 'w' (workload, drawn while a scenario is built) and 's' (schedule
and faults, drawn while it runs).  0 is always the simplest alternative, and a
replay that runs past the end of its recording continues with zeros, so that
minimisation can truncate and zero freely.
"""
import hashlib
from math import log


class Rng(object):
    """A small generator of our own: code of this package stays invisible to
    profiling hooks, the random module (Python code on PyPy) would not."""

    def __init__(self, seed):
        d = hashlib.sha1(seed.encode()).digest()
        self.x = int.from_bytes(d[:4], 'big') or 1
        self.w = int.from_bytes(d[4:8], 'big')
        for _ in range(4):
            self.next()

    def next(self):
        x = self.x
        x ^= (x << 13) & 0xffffffff
        x ^= x >> 17
        x ^= (x << 5) & 0xffffffff
        self.x = x
        self.w = (self.w + 362437) & 0xffffffff
        z = (x + self.w) & 0xffffffff
        z ^= z >> 16
        z = (z * 0x45d9f3b) & 0xffffffff
        return z ^ (z >> 16)

    def randrange(self, n):
        return (self.next() * n) >> 32

    def random(self):
        return self.next() / 4294967296.0

    def expovariate(self, lambd):
        return -log(1.0 - self.random()) / lambd


class Choices(object):

    def __init__(self, seed=None, recorded=None):
        self.seed = seed
        self.rec = {'w': [], 's': []}
        if recorded is None:
            self.src = None
            self.rng = {k: Rng('%s/%s' % (seed, k)) for k in 'ws'}
        else:
            self.src = recorded
            self.rng = None

    def draw(self, stream, n, gen=None):
        """An int in [0, n).  `gen(rng)` overrides the uniform distribution."""
        if n <= 1:
            return 0
        rec = self.rec[stream]
        if self.src is not None:
            src = self.src[stream]
            v = src[len(rec)] if len(rec) < len(src) else 0
            if v >= n:
                v = n - 1
        else:
            rng = self.rng[stream]
            v = rng.randrange(n) if gen is None else gen(rng)
        rec.append(v)
        return v


class Stream(object):
    """Convenience drawing from one stream."""

    def __init__(self, choices, stream):
        self.c = choices
        self.k = stream

    def below(self, n):
        return self.c.draw(self.k, n)

    def randint(self, lo, hi):
        return lo + self.c.draw(self.k, hi - lo + 1)

    def chance(self, p):
        return bool(self.c.draw(self.k, 2, lambda r: int(r.random() < p)))

    def pick(self, seq):
        return seq[self.c.draw(self.k, len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first one is the simplest."""
        total = float(sum(w for w, _ in pairs))

        def gen(r):
            x = r.random() * total
            for i, (w, _) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1
        return pairs[self.c.draw(self.k, len(pairs), gen)][1]

    def geo(self, mean, cap=1 << 30):
        """0 = never; otherwise k >= 1 with roughly the given mean."""
        def gen(r):
            return min(cap - 1, 1 + int(r.expovariate(1.0 / mean)))
        return self.c.draw(self.k, cap, gen)

    def small(self, hi):
        """Skewed towards small values, in [0, hi]."""
        def gen(r):
            return min(hi, int(hi * r.random() ** 3 + 0.5))
        return self.c.draw(self.k, hi + 1, gen)

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.c.draw(self.k, len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq
