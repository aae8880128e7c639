"""Abstract build graphs, their rendering as makefiles, and small reference models of what a run may and must do."""
import os
import random

WORDS = ["alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa", "lam", "mu", "nu", "xi", "omi", "pi",
         "rho", "sigma", "tau", "ups", "phi", "chi", "psi", "omega"]


class Cmd:
    def __init__(self, cid, ops=(), code=0, pre="", form="plain"):
        self.id, self.ops, self.code, self.pre, self.form = cid, list(ops), code, pre, form

    def line(self):
        ops = " ".join(self.ops)
        s = "jt id=%s %s" % (self.id, ops)
        if self.code:
            s += " x:%d" % self.code
        s = s.rstrip()
        if self.form == "and":          # through the shell
            s = "echo . > NUL && " + s
        elif self.form == "redir":
            s = s + " > NUL"
        elif self.form == "chain":
            s = "if not exist nosuchfile " + s
        elif self.form == "call":
            s = "call " + s
        elif self.form == "inline":     # with an inline file
            s += " need:<<\ntext of %s\n<<" % self.id
        elif self.form == "builtins":   # after commands that jom executes itself
            return self.pre + random.Random(self.id).choice(["cd .", "set X_=%s" % self.id.split("#")[0], "rem %s" % self.id, ": %s" % self.id]) + "\n\t" + self.pre + s
        return self.pre + s


# the forms of the commands of a graph in a makefile of its own
ALL_FORMS = ("plain", "plain", "plain", "and", "redir", "chain", "call", "inline", "builtins")


class Target:
    def __init__(self, name, deps=(), cmds=()):
        self.name, self.deps, self.cmds = name, list(deps), list(cmds)


class Graph:
    def __init__(self):
        self.t = {}          # name -> Target, insertion order
        self.goal = None

    def add(self, t):
        self.t[t.name] = t
        return t

    def reach(self, roots):
        seen, todo = set(), list(roots)
        while todo:
            n = todo.pop()
            if n in seen or n not in self.t:
                continue
            seen.add(n)
            todo.extend(self.t[n].deps)
        return seen

    def before(self, name):
        """names of all targets that must be finished before `name` starts (transitively)"""
        return self.reach(self.t[name].deps)

    def dependents_of(self, bad):
        """targets that (transitively) depend on one of `bad`"""
        out = set()
        for n in self.t:
            if n not in bad and (self.reach(self.t[n].deps) & set(bad)):
                out.add(n)
        return out


def mangle_case(rng, s):
    r = rng.random()
    if r < .8:
        return s
    if r < .9:
        return s.upper()
    return "".join(c.upper() if rng.random() < .5 else c for c in s)


def gen_graph(rng, n, shape=None, maxcmds=3, ops=None, forms=("plain", "plain", "plain", "and", "redir", "chain", "call"), p_nocmd=.12):
    """a random DAG of pseudotargets; the first one is the goal"""
    shape = shape or rng.choice(["random", "layered", "chain", "wide", "diamond", "tree", "dense"])
    g = Graph()
    names = []
    for i in range(n):
        w = rng.choice(WORDS)
        if rng.random() < .2:
            w = rng.choice([w.upper(), w.capitalize()])
        nm = "%s%d" % (w, i)
        r = rng.random()
        if r < .15:
            nm = "%s_%d.obj" % (w, i)
        elif r < .22:
            nm = "d%d\\%s.x" % (i % 3, nm)
        names.append(nm)
    deps = {nm: [] for nm in names}
    for i in range(n):
        later = list(range(i + 1, n))
        if not later:
            continue
        if shape == "random":
            k = rng.randint(0, min(4, len(later)))
            ds = rng.sample(later, k)
        elif shape == "chain":
            ds = [i + 1] + ([rng.choice(later)] if rng.random() < .2 else [])
        elif shape == "wide":
            ds = later if i == 0 else (rng.sample(later, 1) if rng.random() < .15 else [])
        elif shape == "tree":
            ds = [c for c in (2 * i + 1, 2 * i + 2) if c < n]
        elif shape == "dense":
            ds = [c for c in later if rng.random() < .5]
        elif shape == "layered":
            width = 4
            layer = i // width
            ds = [c for c in later if c // width == layer + 1 and rng.random() < .8]
        else:                               # diamonds
            ds = [c for c in (i + 1, i + 2) if c < n] if i % 3 == 0 else ([i // 3 * 3 + 3] if i // 3 * 3 + 3 < n else [])
        deps[names[i]] = [names[c] for c in dict.fromkeys(ds)]
    # everything is reachable from the goal
    reach = set()
    todo = [names[0]]
    while todo:
        x = todo.pop()
        if x in reach:
            continue
        reach.add(x)
        todo += deps[x]
    for nm in names[1:]:
        if nm not in reach:
            deps[names[0]].append(nm)
            todo = [nm]
            while todo:
                x = todo.pop()
                if x not in reach:
                    reach.add(x)
                    todo += deps[x]
    for i, nm in enumerate(names):
        cmds = []
        if rng.random() >= p_nocmd or (i == n - 1):
            for k in range(rng.choice([1, 1, 1, 2, 3][:2 + maxcmds])):
                cmds.append(Cmd("%s#%d" % (nm.replace("\\", "/"), k), list(ops(rng) if ops else []), form=rng.choice(forms)))
        g.add(Target(nm, deps[nm], cmds))
    g.goal = names[0]
    g.shape = shape
    return g


def spell(rng, n):
    """another spelling of the same target name"""
    if "\\" in n and rng.random() < .3:
        n = n.replace("\\", "/")
    return mangle_case(rng, n)


def stale(g, rng, files, p=.5):
    """lets some targets exist as files that are older than one of their dependents; returns the setup function that makes them so.
    To be called before render; all targets still have to be built."""
    g.plain = {}
    if rng.random() >= p:
        return None
    files["newer.src"] = "x"
    for t in g.t.values():
        if t.cmds and rng.random() < .6:
            g.plain[t.name] = ["newer.src"]

    def setup(w):
        for nm in g.plain:
            f = os.path.join(w, nm.replace("\\", "/"))
            os.makedirs(os.path.dirname(f), exist_ok=True)
            if not os.path.exists(f):
                open(f, "w").close()
                os.utime(f, (1000000000, 1000000000))
    return setup


def render(g, rng, noise=True, shuffle=True, header="", sep_after=False):
    """the makefile text of a graph; the meaning is the graph's whatever the noise"""
    out = [header] if header else []
    order = list(g.t.values())
    if shuffle:
        rest = [t for t in order if t.name != g.goal]
        rng.shuffle(rest)
        order = [g.t[g.goal]] + rest
    macros = []
    tail = []
    mi = [0]
    silent = rng.choice([0, 0, .15, .5, 1])
    for t in order:
        deps = [spell(rng, d) if noise else d for d in t.deps]
        if noise and deps and rng.random() < .12:
            deps.insert(rng.randint(0, len(deps)), spell(rng, rng.choice(t.deps)))      # a repeated dependent counts once
        for f in getattr(g, "plain", {}).get(t.name, []):
            deps.insert(rng.randint(0, len(deps)), f)
        extra = []
        if noise and len(deps) > 1 and rng.random() < .25:
            k = rng.randint(1, len(deps) - 1)
            extra, deps = deps[k:], deps[:k]
        ds = " ".join(deps)
        if noise and deps and rng.random() < .25:
            mi[0] += 1
            m = "DEPS_%d" % mi[0]
            macros.append("%s = %s" % (m, ds))
            ds = "$(%s)" % m
        elif noise and len(deps) > 1 and rng.random() < .25:
            k = rng.randint(1, len(deps) - 1)
            ds = " ".join(deps[:k]) + " \\\n   " + " ".join(deps[k:])
        cmds = [("@" if noise and rng.random() < silent else "") + c.line() for c in t.cmds]
        if noise and len(cmds) > 1 and rng.random() < .3:
            # several blocks, that each add commands
            k = rng.randint(1, len(cmds) - 1)
            out.append("%s:: %s" % (t.name, ds))
            out.extend("\t" + c for c in cmds[:k])
            out.append("")
            tail.append("%s:: %s" % (t.name, " ".join(extra)))
            tail.extend("\t" + c for c in cmds[k:])
            continue
        head = "%s :" % t.name if noise and rng.random() < .2 else "%s:" % t.name
        lines = []
        if noise and cmds and rng.random() < .15:
            lines.append("%s %s ; %s" % (head, ds, cmds[0]))
            cmds = cmds[1:]
        else:
            lines.append(("%s %s" % (head, ds)).rstrip())
        for c in cmds:
            if noise and rng.random() < .1:
                lines.append("# a comment between commands")
            lines.append((rng.choice(["\t", "\t", "  ", " \t "]) if noise else "\t") + c)
        if noise and rng.random() < .3:
            lines.append("")
        out.extend(lines)
        if extra:
            tail.append("%s: %s" % (t.name, " ".join(extra)))
    txt = "\n".join(macros + out + [""] + tail) + "\n"
    return txt


def subsets(rng, xs, p):
    return [x for x in xs if rng.random() < p]


# ---------------------------------------------------------------- oracles over histories
def history(r):
    """id -> list of (start index, end index or None, code)"""
    h = {}
    for pid, (cid, s, e, code, ev) in r.cmds().items():
        h.setdefault(cid, []).append((s, e, code))
    return h


def check_order(g, r, h=None):
    """dependents first: every command of a target starts after the last command of everything it depends on has ended"""
    h = h or history(r)
    errs = []
    pairs = 0
    for n, t in g.t.items():
        starts = [s for c in t.cmds for (s, e, code) in h.get(c.id, [])]
        if not starts:
            continue
        first = min(starts)
        for d in g.before(n):
            for c in g.t[d].cmds:
                pairs += 1
                runs = h.get(c.id, [])
                if not runs:
                    errs.append("%s started although command %s of its dependent %s never ran" % (n, c.id, d))
                for (s, e, code) in runs:
                    if e is None or e > first:
                        errs.append("%s started (event %d) before command %s of its dependent %s was finished (start %s end %s)" %
                                    (n, first, c.id, d, s, e))
    return errs, pairs


def check_sequential(g, r, h=None):
    h = h or history(r)
    errs = []
    for n, t in g.t.items():
        prev = None
        for c in t.cmds:
            for (s, e, code) in h.get(c.id, []):
                if prev is not None and s < prev:
                    errs.append("command %s of target %s started before the previous command of the target had ended" % (c.id, n))
                prev = e if e is not None else 10**12
    return errs


def max_parallel(r):
    """(largest number of commands running at once, largest number of processes jom had running at once)"""
    cur = best = 0
    live = {}
    for e in r.ev:
        if e.kind == "S":
            live[e.pid] = 1
            best = max(best, len(live))
        elif e.kind == "E":
            live.pop(e.pid, None)
    procs, pbest = set(), 0
    for e in r.ev:
        if e.kind == "SPAWN":
            procs.add(e.a[0])
            pbest = max(pbest, len(procs))
        elif e.kind == "DEATH":
            procs.discard(e.a[0])
    return best, pbest


# ---------------------------------------------------------------- graphs with inference rules
def gen_infer(rng):
    """sources, generated headers, objects by inference rule, libraries; a model of what must precede what"""
    batch = rng.random() < .45
    nobj, ngen, nlib = rng.randint(1, 9), rng.randint(0, 3), rng.randint(1, 3)
    ext = rng.choice(["obj", "o", "OBJ"])
    objs = ["%s%d.%s" % (rng.choice(WORDS), i, ext) for i in range(nobj)]
    gens = ["gen%d.h" % i for i in range(ngen)]
    odeps = {o: subsets(rng, gens, .4) for o in objs}
    gencpp = {o: rng.random() < .2 for o in objs}             # the source itself is generated
    libs = {"lib%d.lib" % i: [o for o in objs if rng.random() < .6] or [rng.choice(objs)] for i in range(nlib)}
    mk = [".SUFFIXES: .cpp .%s" % ext, "all: %s" % " ".join(list(libs) + (objs if rng.random() < .5 else []))]
    # a source that is itself a target takes part in a batch like any other
    rule = [".cpp.%s%s" % (ext, "::" if batch else ":"),
            "\tjt id=%s s:%d stop $<" % ("batch" if batch else "$@", rng.choice([0, 2, 5]))]
    if not batch:
        rule.append("\tjt t:$@ id=$@+")
    blocks = [rule]
    for o in objs:
        ds = odeps[o] + ([o.rsplit(".", 1)[0] + ".cpp"] if gencpp[o] else [])
        rng.shuffle(ds)
        if ds:
            blocks.append(["%s: %s" % (o, " ".join(ds))])
    for o in objs:
        if gencpp[o]:
            src = o.rsplit(".", 1)[0] + ".cpp"
            blocks.append(["%s:" % src, "\tjt id=%s s:%d t:%s" % (src, rng.choice([0, 3, 8]), src)])
    for h in gens:
        blocks.append(["%s:" % h, "\tjt id=%s s:%d t:%s" % (h, rng.choice([0, 3, 8]), h)])
    for l, os_ in libs.items():
        blocks.append(["%s: %s" % (l, " ".join(os_)), "\tjt id=%s s:%d" % (l, rng.choice([0, 3]))])
    rng.shuffle(blocks)
    for b in blocks:
        mk += b + [""]
    files = {"Makefile": "\n".join(mk) + "\n"}
    for o in objs:
        src = o.rsplit(".", 1)[0] + ".cpp"
        if not gencpp[o]:
            files[src] = "x"
    needed = set(o for os_ in libs.values() for o in os_)
    if " ".join(objs) in mk[1]:
        needed |= set(objs)
    return {"files": files, "batch": batch, "objs": objs, "odeps": odeps, "libs": libs, "gencpp": gencpp, "needed": needed, "args": []}


def infer_runs(c, r):
    """object -> list of (first start, last end) of the commands that make it"""
    runs = {}
    for pid, (cid, s, e, code, ev) in r.cmds().items():
        line = ev.a[2] if len(ev.a) > 2 else ""
        if cid == "batch":
            for src in line.split(" stop ", 1)[1].split():
                src = src.replace("\\", "/").rsplit("/", 1)[-1]
                for o in c["objs"]:
                    if o.rsplit(".", 1)[0] + ".cpp" == src:
                        runs.setdefault(o, []).append((s, e))
        else:
            runs.setdefault(cid, []).append((s, e))
    out = {}
    for o in c["objs"]:
        a = runs.get(o, [])
        b = runs.get(o + "+", [])
        if a:
            out[o] = (min(x[0] for x in a), max([x[1] if x[1] is not None else 10**9 for x in a + b]), len(a))
    for k, v in runs.items():
        if k not in out and not k.endswith("+"):
            out[k] = (min(x[0] for x in v), max(x[1] if x[1] is not None else 10**9 for x in v), len(v))
    return out


def check_infer_order(c, r):
    runs = infer_runs(c, r)
    errs, pairs = [], 0

    def before(a, b):
        nonlocal pairs
        pairs += 1
        if b not in runs:
            errs.append("%s was not built" % b)
        elif a not in runs:
            errs.append("%s was built but its dependent %s was not" % (b, a))
        elif runs[a][1] > runs[b][0]:
            errs.append("%s was started before its dependent %s was finished" % (b, a))
    for o in c["needed"]:
        for h in c["odeps"][o]:
            before(h, o)
        if c["gencpp"][o]:
            before(o.rsplit(".", 1)[0] + ".cpp", o)
    for l, os_ in c["libs"].items():
        for o in os_:
            before(o, l)
            for h in c["odeps"][o]:
                before(h, l)
    return errs, pairs
