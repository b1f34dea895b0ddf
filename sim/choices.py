"""Every nondeterministic decision of a run comes from here.

A run is a pure function of (code under test, three integer lists): the
'w'orkload, 's'chedule and 'f'ault streams.  With a seed the lists are drawn
from one PRNG and recorded; with recorded lists they are replayed, and a list
that runs out supplies 0, which is always the simplest option (smallest
workload, no pre-emption, no fault).  That makes deletion and zeroing of list
entries a generic minimiser.
"""
import hashlib
import random

STREAMS = ('w', 's', 'f')


class Choices:
    def __init__(self, seed=None, replay=None, label=''):
        self.seed = seed
        self.replay = replay is not None
        self.rec = {k: [] for k in STREAMS}
        if self.replay:
            self._src = {k: list(replay.get(k, ())) for k in STREAMS}
            self._pos = {k: 0 for k in STREAMS}
        else:
            self._rng = {
                k: random.Random(int.from_bytes(
                    hashlib.sha256(f'{label}/{seed}/{k}'.encode()).digest()[:8], 'big'))
                for k in STREAMS
            }

    def _next(self, s, n, gen):
        if n <= 1:
            return 0
        if self.replay:
            p = self._pos[s]
            v = self._src[s][p] if p < len(self._src[s]) else 0
            self._pos[s] = p + 1
            v = int(v)
            if v >= n:
                v %= n
        else:
            v = gen(self._rng[s])
        self.rec[s].append(v)
        return v

    # -- draws ---------------------------------------------------------
    def below(self, n, s='w'):
        """0 <= v < n, uniform; 0 is simplest"""
        return self._next(s, n, lambda r: r.randrange(n))

    def between(self, lo, hi, s='w'):
        return lo + self.below(hi - lo + 1, s)

    def pick(self, seq, s='w', weights=None):
        """an element of seq; the first one is simplest"""
        n = len(seq)
        if weights is None:
            return seq[self.below(n, s)]
        tot = sum(weights)

        def gen(r):
            x = r.random() * tot
            for i, w in enumerate(weights):
                x -= w
                if x < 0:
                    return i
            return n - 1
        return seq[self._next(s, n, gen)]

    def chance(self, p, s='w'):
        """True with probability p; False is simplest"""
        return bool(self._next(s, 2, lambda r: int(r.random() < p)))

    def bits(self, s='w'):
        """32 bits for seeding data generators"""
        return self.below(2 ** 32, s)

    def gap(self, mean, s='s'):
        """steps until the next pre-emption; 0 means never"""
        if mean <= 0:
            return 0

        def gen(r):
            return 1 + min(int(r.expovariate(1.0 / mean)), 10 ** 6)
        return self._next(s, 10 ** 7, gen)

    def perm(self, n, s='s'):
        """a permutation of range(n); all-zero draws give the identity"""
        left = list(range(n))
        return [left.pop(self.below(len(left), s)) for _ in range(n)]

    def subset(self, n, p, s='w'):
        return [i for i in range(n) if self.chance(p, s)]
