"""Reference model of jom's out-of-date rule over files with time stamps (100 ns units, like FILETIME)."""
import os


def stamps(w, names):
    """modification times in 100 ns units of the files below w, None if missing"""
    r = {}
    for n in names:
        p = os.path.join(w, n.replace("\\", "/"))
        try:
            r[n] = os.stat(p).st_mtime_ns // 100
        except OSError:
            r[n] = None
    return r


class Node:
    """effect of building the target: 'touch', 'none', 'del', or ('set', t)"""
    def __init__(self, deps, ncmds, effect):
        self.deps, self.ncmds, self.effect = deps, ncmds, effect


def simulate(nodes, goals, mtime, now, force=False, failing=()):
    """nodes: name -> Node; mtime: name -> stamp or None (changed in place). Returns (executed set in order, failed set, not built set).

    A later 'now' is always larger than an earlier one. failing: targets whose commands fail (keep-going semantics)."""
    clock = [now]

    def tick():
        clock[0] += 1
        return clock[0]
    executed, failed, blocked = [], set(), set()
    for goal in goals:
        ts, existed, done = {}, {}, set()

        def visit(n):
            if n in done:
                return
            done.add(n)
            t = nodes[n]
            for d in t.deps:
                if d in nodes:
                    visit(d)
            if any(d in failed or d in blocked for d in t.deps):
                blocked.add(n)
                return
            own = mtime.get(n)
            existed[n] = own is not None
            if not t.deps:
                utd = existed[n]
                ts[n] = own
            else:
                latest = 0
                for d in t.deps:
                    v = None
                    if d in nodes:
                        if not existed[d] and nodes[d].ncmds:
                            latest = tick()
                            break
                        v = ts[d]
                    if v is None:
                        v = mtime.get(d)
                    if v is None:
                        latest = tick()
                        break
                    latest = max(latest, v)
                ts[n] = own if existed[n] else latest
                utd = existed[n] and latest <= own
            if not utd or force:
                if t.ncmds:
                    executed.append(n)
                    if n in failing:
                        failed.add(n)
                    elif t.effect == "touch":
                        mtime[n] = tick()
                    elif t.effect == "del":
                        mtime[n] = None
                    elif t.effect != "none":
                        mtime[n] = t.effect[1]
                elif n in failing:
                    failed.add(n)
                if existed[n] and not utd:
                    ts[n] = None
        visit(goal)
    return executed, failed, blocked
