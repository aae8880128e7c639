#!/usr/bin/env python3
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import copy, shutil
import check, gen, work, simctl

CPUS = os.cpu_count() or 1


class Tree:
    """makefiles that call each other, and the one graph they amount to"""
    def __init__(self, rng, ops, p_fail=0.0):
        self.rng, self.ops, self.p_fail = rng, ops, p_fail
        self.files, self.flat, self.k = {}, gen.Graph(), 0
        self.instances = 1
        self.fails = set()
        rootentry = self.make("", "Makefile", 0, [])
        self.flat.goal = rootentry

    def make(self, cwd, fname, depth, pre):
        """writes a makefile; returns the flat name that stands for 'everything in it is finished'"""
        rng = self.rng
        k = self.k
        self.k += 1
        g = gen.gen_graph(rng, rng.randint(1, 7 if depth else 8), ops=self.ops, maxcmds=2, forms=("plain", "plain", "redir", "and"), p_nocmd=.1,
                          shape=rng.choice(["wide", "wide", "tree", "random", "layered"]))
        flatname = {n: "%d/%s" % (k, n) for n in g.t}
        order = list(g.t.values())
        text = []
        for t in reversed(order):
            flatdeps = [flatname[d] for d in t.deps] + list(pre)
            cmds = []
            for c in t.cmds:
                c.id = "%d.%s" % (k, c.id)
                if rng.random() < self.p_fail:
                    c.code = rng.choice([1, 3, 300])
                    self.fails.add(c.id)
            sub = depth < 2 and rng.random() < (.45 if depth == 0 else .25) and self.k < 7
            if not sub:
                self.flat.add(gen.Target(flatname[t.name], flatdeps, [c for c in t.cmds]))
                cmds = [c.line() for c in t.cmds]
            else:
                self.instances += 1
                first, rest = (t.cmds[:1], t.cmds[1:]) if rng.random() < .5 else ([], t.cmds)
                before = list(flatdeps)
                if first:
                    self.flat.add(gen.Target(flatname[t.name] + "/pre", flatdeps, first))
                    before = [flatname[t.name] + "/pre"]
                f2 = "sub%d.mak" % self.k
                d2 = "dir%d" % self.k if rng.random() < .4 else ""
                end = self.make(os.path.join(cwd, d2), f2, depth + 1, before)
                self.flat.add(gen.Target(flatname[t.name], [end] + before, rest))
                opts = rng.choice(["", "-nologo ", "-s ", "/$(MAKEFLAGS) ", "ANY=1 "])
                call = "$(MAKE) %s-f %s" % (opts, f2)
                if d2:
                    cmds = [c.line() for c in first]
                    if rng.random() < .5 and not rest:
                        cmds += ["cd %s" % d2, call]
                    else:
                        cmds += ["cd %s && %s" % (d2, call)] + [c.line() for c in rest]
                else:
                    cmds = [c.line() for c in first] + [rng.choice(["", "", "@"]) + call] + [c.line() for c in rest]
            text.append("%s: %s\n%s" % (t.name, " ".join(t.deps), "".join("\t%s\n" % c for c in cmds)))
        # the goal first, the others in any order
        goal = text.pop()
        rng.shuffle(text)
        self.files[os.path.join(cwd, fname)] = goal + "\n".join(text) + "\n"
        return flatname[g.goal]


def tokens(ctx, r, jn, errs, clean=True):
    """conservation of the job tokens of the one server, from the semaphore operations of all instances"""
    created = [e for e in r.ev if e.kind == "SEM-CREATE"]
    if len(created) != 1:
        errs.append("%d job servers were created" % len(created))
        return
    if created[0].a[1] != str(jn - 1):
        errs.append("the job server has %s tokens, expected %d" % (created[0].a[1], jn - 1))
    # an instance runs one command on the token it was born with; that one it may also put into the pool while it waits for another
    held, live, out, peak = {}, {}, 0, 0
    for e in r.ev:
        if e.kind == "SEM-ACQ":
            held[e.pid] = held.get(e.pid, 0) + 1
        elif e.kind == "SEM-REL":
            held[e.pid] = held.get(e.pid, 0) - int(e.a[1] if len(e.a) > 1 else 1)
            if held[e.pid] < -1:
                errs.append("instance %d gave back more tokens than it had" % e.pid)
        elif e.kind == "SPAWN":
            live.setdefault(e.pid, set()).add(e.a[0])
            if len(live[e.pid]) > 1 + held.get(e.pid, 0):
                errs.append("instance %d runs %d commands with %d tokens" % (e.pid, len(live[e.pid]), 1 + held.get(e.pid, 0)))
            continue
        elif e.kind == "DEATH":
            live.get(e.pid, set()).discard(e.a[0])
            continue
        else:
            continue
        out = sum(held.values())
        peak = max(peak, out)
        ctx.count("token_operations")
    if clean and out != 0:
        errs.append("%d tokens were not given back at the end: %s" % (out, {k: v for k, v in held.items() if v}))
    if peak > jn - 1:
        errs.append("%d tokens in use, only %d exist" % (peak, jn - 1))


def spaced(J):
    """the same jom, in a directory whose name must be quoted"""
    K = copy.copy(J)
    K.newdir = J.newdir
    d = os.path.join(J.base, "my tools (x86)")
    os.makedirs(d, exist_ok=True)
    K.exe = os.path.join(d, "jom")
    shutil.copy(J.exe, K.exe)
    return K


def somewhere(ctx, rng, J, files):
    """sometimes jom and the makefiles lie in directories with blanks"""
    kw = {}
    if rng.random() < .2:
        J = J.spaced
        ctx.count("trees_with_jom_in_a_directory_with_blanks")
    if rng.random() < .2:
        kw["cwd"] = rng.choice(["a b", "my dir/sub", "x/y z"])
        files = {os.path.join(kw["cwd"], k): v for k, v in files.items()}
    return J, files, kw


def instances(r):
    return len(set(e.pid for e in r.ev if e.kind in ("SEM-OPEN", "SEM-CREATE")))


def gated(ctx, J, seed, again=False):
    rng = random.Random(seed)
    t = Tree(rng, lambda _: ["wait"])
    jn = rng.choice([x for x in (1, 2, 2, 3, 4, 5, 8) if x <= CPUS])
    m = simctl.ModelCtl(t.flat, jn, rng, patience=20.0 if again else 5.0, prefer=rng.choice([None, None, lambda w: w[-1], lambda w: w[0], lambda w: sorted(w)[0]]))
    args = ["-nologo", "-s", "-j", str(jn)]
    J2, files, kw = somewhere(ctx, rng, J, t.files)
    if rng.random() < .3:
        kw["chaos"] = (rng.randint(1, 10**6), rng.choice([4, 31, 8]), rng.choice([300, 1500]))
    r = ctx.run(J2, files, args, "gated tree of makefiles", control=m.policy, timeout=90, **kw)
    if r.bad:
        return
    errs = list(m.errs)
    if errs and not again and errs[0].startswith("only"):
        return gated(ctx, J, seed, True)
    if not errs and m.missing():
        errs.append("the build ended although %s had not run" % m.missing())
    if r.rc != 0:
        errs.append("exit code %s: %s" % (r.rc, r.text_err()[-300:]))
    tokens(ctx, r, jn, errs)
    ctx.count("gated_trees")
    ctx.count("quiescent_points", m.points)
    ctx.count("quiescent_points_all_slots_used", m.full)
    ctx.maxi("most_instances_in_a_tree", instances(r))
    for st in m.seen_states:
        ctx.distinct((jn, hash(st)))
    ctx.sample({"files": files, "args": args, "starts": r.order()[:30]}, 2)
    if errs:
        ctx.violation("%s (%s)" % (errs[0], " ".join(args)), replay=ctx.replay_of(r, files, args, errors=errs, seed=seed))


def free(ctx, J, seed):
    rng = random.Random(seed)
    s = work.Sched(rng, rng.choice(["none", "sleep", "chaos", "chaos"]))
    p = rng.choice([0, 0, .05, .2])
    t = Tree(rng, s.ops, p)
    jn = rng.choice([1, 2, 2, 3, 4, 5, 8, 16])
    args = ["-nologo", "-s", "-j", str(jn)]
    keep = p and rng.random() < .3
    if keep:
        args.append("-k")
    J2, files, kw = somewhere(ctx, rng, J, t.files)
    r = ctx.run(J2, files, args, "tree of makefiles", timeout=60, **dict(s.kwargs(), **kw))
    if r.bad:
        return
    errs = []
    h = gen.history(r)
    par = gen.max_parallel(r)[0]
    if par > jn:
        errs.append("%d commands at once, limit %d" % (par, jn))
    failed = [c for c in t.fails if c in h]
    if not failed:
        errs += gen.check_order(t.flat, r, h)[0]
        for tt in t.flat.t.values():
            for c in tt.cmds:
                if len(h.get(c.id, [])) != 1:
                    errs.append("%s ran %d times" % (c.id, len(h.get(c.id, []))))
        if r.rc != 0:
            errs.append("exit code %s: %s" % (r.rc, r.text_err()[-300:]))
    else:
        bad = [n for n, tt in t.flat.t.items() if any(c.id in failed for c in tt.cmds)]
        for n in t.flat.dependents_of(bad):
            for c in t.flat.t[n].cmds:
                if c.id in h:
                    errs.append("%s ran although something it depends on failed" % c.id)
        if r.rc == 0:
            errs.append("exit code 0 although %s failed" % failed)
        elif not keep and r.rc != 2:
            errs.append("exit code %s, expected 2" % r.rc)
    if r.alive_after:
        errs.append("jom exited while commands were running: %s" % r.alive_after)
    tokens(ctx, r, jn, errs)
    ctx.count("free_trees_failing" if failed else "free_trees")
    ctx.maxi("most_commands_at_once", par)
    ctx.maxi("most_instances_in_a_tree", instances(r))
    ctx.distinct(work.interleaving(r))
    if errs:
        ctx.violation("%s (%s, %s)" % (errs[0], " ".join(args), s.name), replay=ctx.replay_of(r, files, args, errors=errs, failing=sorted(t.fails), seed=seed))


def body(ctx):
    ctx.rule = ("random trees of makefiles calling $(MAKE) up to three levels deep; gated: the set of running commands over all instances must have the size min(J, ready commands of the "
                "flattened graph); free: limit, order, exactly-once, exit codes; always: conservation of job tokens over all instances")
    ctx.assume("a slot that stays idle for 20 s (second attempt) while a command is ready counts as not used")
    J = ctx.jom()
    J.spaced = spaced(J)
    n = ctx.n(110, 1500)
    cs = [(gated, ctx.rng.random()) for _ in range(n)] + [(free, ctx.rng.random()) for _ in range(n * 5 // 2)]
    ctx.rng.shuffle(cs)
    ctx.pmap(lambda c: c[0](ctx, J, c[1]), cs)


check.main("P11", body)
