"""A gate controller that knows the graph: at every quiescent point it knows which commands must be waiting."""
import time


class ModelCtl:
    """Every command of the graph carries a 'wait' step. The model tracks which targets are finished, in progress or ready.

    exact: the set of waiting commands must reach the predicted size before anything is released; a longer stall, or an unexpected
    arrival, is recorded in .errs. After a release of a failing command the abort rule is applied (unless keep_going)."""
    def __init__(self, g, J, rng, fails=(), keep_going=False, patience=4.0, prefer=None):
        self.g, self.J, self.rng, self.keep = g, J, rng, keep_going
        self.fails = set(fails)
        self.cmds = {n: [c.id for c in t.cmds] for n, t in g.t.items()}
        self.owner = {c: n for n, cs in self.cmds.items() for c in cs}
        self.idx = {n: 0 for n in g.t}            # next command of the target
        self.done, self.bad, self.unbuildable = set(), set(), set()
        self.started = set()
        self.aborted = False
        self.errs = []
        self.points = 0                           # quiescent points at which the prediction was compared
        self.full = 0                             # ... at which all slots were in use
        self.seen_states = set()
        self.patience = patience
        self.prefer = prefer
        self.giveup = False
        self._close()

    def _close(self):
        """targets without commands finish by themselves"""
        ch = True
        while ch:
            ch = False
            for n, t in self.g.t.items():
                if n in self.done or n in self.bad or n in self.unbuildable:
                    continue
                if any(d in self.bad or d in self.unbuildable for d in t.deps):
                    self.unbuildable.add(n)
                    ch = True
                elif not self.cmds[n] and not self.aborted and all(d in self.done for d in t.deps):
                    self.done.add(n)
                    ch = True

    def ready(self):
        return [n for n, t in self.g.t.items() if n not in self.done and n not in self.bad and n not in self.unbuildable
                and self.cmds[n] and all(d in self.done for d in t.deps)]

    def expect(self):
        """(number of commands that must be waiting, the ids that may be)"""
        rd = self.ready()
        if self.aborted:
            act = [n for n in rd if n in self.started]
            return len(act), set(self.cmds[n][self.idx[n]] for n in act)
        return min(self.J, len(rd)), set(self.cmds[n][self.idx[n]] for n in rd)

    def policy(self, waiting, ctl, idle):
        if self.giveup:
            return waiting[0]
        n, may = self.expect()
        wrong = [w for w in waiting if w not in may]
        if wrong or len(waiting) > n:
            self.errs.append("waiting commands %s, but only %d of %s may run now" % (sorted(waiting), n, sorted(may)))
            self.giveup = True
            return waiting[0]
        for w in waiting:
            self.started.add(self.owner[w])
        if len(waiting) < n:
            if idle > self.patience:
                self.errs.append("only %s running while %d of %s could run (J=%d)" % (sorted(waiting), n, sorted(may), self.J))
                self.giveup = True
                return waiting[0]
            return None
        if idle < (.012 if self.aborted else .002):      # time for something that must not come
            return None
        self.points += 1
        if n == self.J:
            self.full += 1
        self.seen_states.add(tuple(sorted(waiting)))
        pick = self.prefer(waiting) if self.prefer else self.rng.choice(waiting)
        self.release(pick)
        return pick

    def release(self, cid):
        n = self.owner[cid]
        self.started.add(n)
        if cid in self.fails:
            self.bad.add(n)
            if not self.keep:
                self.aborted = True
        else:
            self.idx[n] += 1
            if self.idx[n] == len(self.cmds[n]):
                self.done.add(n)
        self._close()

    def missing(self):
        """commands that should have run to the end of the build but were never released (the build ended too early)"""
        n, may = self.expect()
        return sorted(may) if n else []
