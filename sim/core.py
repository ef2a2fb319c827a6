"""Vocabulary shared by all simulated properties."""
import hashlib, json, random
from collections import Counter


class Violation(Exception):
    """The property does not hold in this execution."""
    def __init__(self, cls, msg):
        Exception.__init__(self, cls, msg)
        self.cls, self.msg = cls, msg


class Inconclusive(Exception):
    """The execution ended in a numerical degeneracy the property does not talk about."""


def h64(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


class Rand(random.Random):
    """All choices of one execution; seeded by a hash of (seed, labels)."""
    def __new__(cls, *parts):
        return random.Random.__new__(cls)

    def __init__(self, *parts):
        random.Random.__init__(self, h64(*parts))

    def flip(self, p=0.5):
        return self.random() < p

    def logint(self, lo, hi):
        """Integer in [lo, hi], biased to small values."""
        return min(hi, lo + int((hi - lo + 1) * self.random() ** 2))


class Stats:
    """What one execution actually did (measured, never configured)."""
    def __init__(self):
        self.faults = Counter()      # fault kinds that really fired
        self.probes = Counter()      # rare conditions that were really reached
        self.events = 0              # simulated events (storage ops, evaluations, messages, switches)
        self.simtime = 0.0           # simulated seconds (where the simulation has a clock)
        self.sig = hashlib.sha256()  # identity of the interleaving / fault history
        self.nontrivial = False
        self.data = []               # numbers for an aggregate decision
        self.units = 0               # sub-executions (crash points, maps, runs ...)

    def mark(self, *parts):
        self.sig.update(repr(parts).encode())

    def dump(self):
        return dict(faults=dict(self.faults), probes=dict(self.probes), events=self.events,
                    simtime=self.simtime, sig=self.sig.hexdigest()[:16], nontrivial=self.nontrivial, units=self.units, data=self.data)

    def absorb(self, d):
        self.faults.update(d["faults"]); self.probes.update(d["probes"])
        self.events += d["events"]; self.simtime += d["simtime"]; self.mark(d["sig"])
        self.data += d["data"]; self.units += d["units"]; self.nontrivial = self.nontrivial or d["nontrivial"]


class Choices:
    """Schedule decisions: drawn from a seed, or replayed from a recorded list (0 when it runs out)."""
    def __init__(self, spec):
        self.rec = []
        if "list" in spec:
            self.fixed, self.r = list(spec["list"]), None
        else:
            self.fixed, self.r = None, Rand("choices", spec["seed"])

    def __call__(self, n):
        if n <= 1:
            return 0
        if self.r is not None:
            c = self.r.randrange(n)
        else:
            i = len(self.rec)
            c = self.fixed[i] % n if i < len(self.fixed) else 0
        self.rec.append(c)
        return c


def shrink_list(lst):
    """Candidate simplifications of a list: halves dropped, then single elements dropped."""
    n = len(lst)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            yield lst[:i] + lst[i + k:]
        k //= 2


def canon(o):
    return json.dumps(o, sort_keys=True)
