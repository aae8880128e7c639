"""Schedules (delays, gates, injected I/O timing) for generated builds."""
import random


def policy_random(rng, settle=.004):
    def pol(w, ctl, idle):
        if idle < settle:
            return None
        return rng.choice(w)
    return pol


def policy_lifo(settle=.004):
    def pol(w, ctl, idle):
        return w[-1] if idle >= settle else None
    return pol


def policy_fifo():
    def pol(w, ctl, idle):
        return w[0]
    return pol


def policy_starve(rng, ids, settle=.003, hold=.03):
    """keeps some commands back as long as others come along"""
    held = set(i for i in ids if rng.random() < .3)

    def pol(w, ctl, idle):
        free = [i for i in w if i not in held]
        if free:
            return rng.choice(free) if idle >= settle else None
        return rng.choice(w) if idle >= hold else None
    return pol


def policy_burst(rng, settle=.006):
    """waits until nothing new arrives, then releases everything that waits at once"""
    st = {"burst": []}

    def pol(w, ctl, idle):
        st["burst"] = [i for i in st["burst"] if i in w]
        if st["burst"]:
            return st["burst"][0]
        if idle < settle:
            return None
        st["burst"] = list(w)
        rng.shuffle(st["burst"])
        return st["burst"][0]
    return pol


class Sched:
    """one way to drive the completion order of a build"""
    KINDS = ["none", "sleep", "sleep", "chaos", "chaos", "ctl", "ctl", "ctl"]

    def __init__(self, rng, kind=None):
        self.rng = random.Random(rng.random())
        self.kind = kind or rng.choice(self.KINDS)
        self.mask = 0
        self.name = self.kind

    def ops(self, _=None):
        r = self.rng
        if self.kind == "ctl":
            return ["wait"]
        if self.kind == "sleep":
            return ["s:%d" % r.choice([0, 0, 1, 2, 3, 5, 9, 14])]
        if self.kind == "chaos" and r.random() < .4:
            return ["s:%d" % r.choice([0, 1, 4])]
        return []

    def kwargs(self, ids=()):
        r = self.rng
        kw = {}
        if self.kind == "chaos" or (self.kind != "none" and r.random() < .2):
            self.mask = r.choice([31, 31, 1, 2, 4, 8, 16, 9, 12, 3])
            kw["chaos"] = (r.randint(1, 10**6), self.mask, r.choice([300, 1500, 4000]))
            self.name = "%s/%d" % (self.kind, self.mask)
        if self.kind == "ctl":
            p = r.choice(["random", "lifo", "fifo", "starve", "burst"])
            kw["control"] = {"random": lambda: policy_random(r), "lifo": policy_lifo, "fifo": policy_fifo,
                             "starve": lambda: policy_starve(r, ids), "burst": lambda: policy_burst(r)}[p]()
            self.name = "ctl/" + p
        return kw


def jobs(rng):
    return rng.choice([1, 2, 2, 3, 3, 4, 5, 8, 16])


def all_ids(g):
    return [c.id for t in g.t.values() for c in t.cmds]


def interleaving(r):
    """a fingerprint of the observed interleaving of command starts and ends"""
    return hash(tuple((e.kind, e.a[0]) for e in r.ev if e.kind in "SE"))
