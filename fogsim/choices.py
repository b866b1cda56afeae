"""The single source of every decision of a simulated run.

A run is a pure function of (code under test, PYTHONHASHSEED, one list of integers).  When exploring, the
list is produced by a PRNG and recorded; when replaying, the recorded list is consumed (0 once exhausted),
which is also what makes a run shrinkable: any list of integers is a valid run and 0 is always the
simplest decision.
"""
import hashlib
import json
import os
import random as _random
import struct

_REAL_RANDOM = _random.Random


def derive_seed(*parts):
    h = hashlib.sha256('\x1f'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


class Choices(object):
    __slots__ = ('rng', 'log', 'src', 'pos')
    dump = None                 # file the choices are saved to before something that may end the process

    def __init__(self, seed=None, replay=None):
        self.rng = _REAL_RANDOM(seed) if replay is None else None
        self.src = replay
        self.pos = 0
        self.log = []

    def below(self, n):
        """An integer in [0, n)."""
        if n <= 1:
            return 0
        if self.src is None:
            v = int(self.rng.random() * n) if n <= 1 << 30 else self.rng.randrange(n)
        else:
            v = self.src[self.pos] % n if self.pos < len(self.src) else 0
            self.pos += 1
        self.log.append(v)
        return v

    def commit(self, note=''):
        """Every choice was drawn and what follows may crash the process: save them."""
        if Choices.dump is not None:
            data = json.dumps([self.log, note]).encode()
            os.pwrite(Choices.dump, struct.pack('>I', len(data)) + data, 0)

    @classmethod
    def saved(cls, fd):
        size = os.pread(fd, 4, 0)
        if len(size) < 4 or size == b'\0\0\0\0':
            return None, ''
        return json.loads(os.pread(fd, struct.unpack('>I', size)[0], 4))

    def between(self, a, b):
        """An integer in [a, b]; a is the simplest."""
        return a + self.below(b - a + 1)

    def chance(self, num, den):
        """True with probability num/den; False is the simplest."""
        return self.below(den) >= den - num

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)...]; the first is the simplest."""
        total = sum(w for w, _ in pairs)
        x = self.below(total)
        for w, v in pairs:
            if x < w:
                return v
            x -= w
        raise AssertionError

    def shuffle(self, seq):
        """In-place; all-zero choices leave the order unchanged."""
        n = len(seq)
        for i in range(n - 1):
            j = i + self.below(n - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def subset(self, seq, num, den):
        return [x for x in seq if self.chance(num, den)]
