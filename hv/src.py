"""Choice source: every random decision of a case is one small integer drawn here, so that a case is a list of integers.
The list is what gets shrunk and what a replay file contains; 0 is always the simplest alternative."""
import random


class Skip(Exception):
    """The case is outside of the property's domain (or too large); it is counted, but not judged."""


class Src:
    LIMIT = 6000

    def __init__(self, seed = None, replay = None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.rec = []

    def int(self, n):
        """Integer in 0..n-1."""
        if n <= 1: return 0
        rec = self.rec
        if self.replay is not None:
            i = len(rec)
            v = self.replay[i] if i < len(self.replay) else 0
            if v >= n: v = n - 1
        else:
            v = int(self.rng.random() * n)
        if len(rec) >= self.LIMIT: raise Skip('too many choices')
        rec.append(v)
        return v

    def range(self, lo, hi):
        """Integer in lo..hi inclusive."""
        return lo + self.int(hi - lo + 1)

    def bool(self, p = 0.5):
        """True with probability p; False is the simple outcome."""
        return self.int(1000) >= 1000 - int(p * 1000)

    def pick(self, seq):
        return seq[self.int(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, item), ...], the simplest first."""
        total = 0
        for w, _ in pairs: total += w
        v = self.int(total)
        for w, item in pairs:
            if v < w: return item
            v -= w
        return pairs[-1][1]

    def more(self, count, lo, hi, p = 0.6):
        """Shall a list that has `count` items already get another one?"""
        if count < lo: return True
        if count >= hi: return False
        return self.bool(p)

    def list(self, make, lo = 0, hi = 5, p = 0.6):
        out = []
        while self.more(len(out), lo, hi, p): out.append(make())
        return out

    def text(self, alphabet, lo = 0, hi = 8, p = 0.7):
        return ''.join(self.list(lambda: self.pick(alphabet), lo, hi, p))

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.int(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subset(self, seq, p = 0.5):
        return [x for x in seq if self.bool(p)]


def shrink(choices, fails, budget = 600):
    """Greedy minimisation of a list of choices; `fails(choices)` returns the recorded choices of a failing run or None."""
    best = list(choices)
    left = [budget]

    def attempt(cand):
        nonlocal best
        if left[0] <= 0: return False
        left[0] -= 1
        rec = fails(cand)
        if rec is None: return False
        if (len(rec), rec) < (len(best), best):
            best = rec
            return True
        return False

    improved = True
    while improved and left[0] > 0:
        improved = False
        # delete chunks
        size = max(len(best) // 2, 1)
        while size >= 1:
            i = 0
            while i < len(best) and left[0] > 0:
                if attempt(best[:i] + best[i + size:]): improved = True
                else: i += size
            size //= 2
        # zero chunks, then lower single choices
        size = 8
        while size >= 1:
            i = 0
            while i < len(best) and left[0] > 0:
                if any(best[i:i + size]) and attempt(best[:i] + [0] * len(best[i:i + size]) + best[i + size:]): improved = True
                i += size
            size //= 2
        for i in range(len(best)):
            if left[0] <= 0: break
            lo, hi = 0, best[i] if i < len(best) else 0
            while lo < hi:
                mid = (lo + hi) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    improved = True
                    hi = min(mid, best[i] if i < len(best) else 0)
                else: lo = mid + 1
    return best
