"""What every property check provides."""
import random


class Result:
    """Outcome of one simulated run (or pair of runs)."""

    def __init__(self, sim=None, viol=None, nontrivial=False, note=None):
        self.viol = viol or []
        self.nontrivial = nontrivial
        self.note = note or {}
        self.fired = dict(sim.fired) if sim else {}
        self.probes = dict(sim.probes) if sim else {}
        self.n = dict(sim.n) if sim else {}
        self.simtime = (sim.mono - 1000.0) if sim else 0.0
        self.digest = sim.digest.hexdigest() if sim else ""
        self.path = sim.path.hexdigest() if sim else ""
        self.log = [list(e) for e in sim.log] if sim else []
        self.sims = 1

    def absorb(self, other):
        for a, b in ((self.fired, other.fired), (self.probes, other.probes)):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        for k, v in other.n.items():
            self.n[k] = self.n.get(k, 0) + v
        self.simtime += other.simtime
        self.sims += other.sims
        self.digest += other.digest
        self.path += other.path
        return self


class Prop:
    id = None
    quick = 1000            # base plans
    thorough = 20000
    variants_per_base = 3
    fine_share = 0.0        # families where faults also strike inside loops
    level = "exploration"
    hashseeds = False       # every family also under another PYTHONHASHSEED
    rule = ""
    real = []
    stub = []

    def gen(self, r):
        raise NotImplementedError

    def judge(self, plan, root):
        raise NotImplementedError

    def variants(self, plan, base, r):
        return []

    def family(self, seed, i, root, emit):
        """Base plan and its fault variants; emit(plan, result)."""
        r = random.Random("%s|%s|%s" % (seed, self.id, i))
        plan = self.gen(r)
        if random.Random("%s|%s|%s|fine" % (seed, self.id, i)).random() \
                < self.fine_share:
            plan["fine"] = 1
        base = self.judge(plan, root)
        emit(plan, base)
        if base.viol:
            return
        for p in self.variants(plan, base, r):
            emit(p, self.judge(p, root))


# ---------------------------------------------------------------- faults
def place_faults(r, plan, base, kinds, nmax=2):
    """Faults inside the events the undisturbed run went through."""
    ncall = max(1, base.n.get("call", 1))
    nopt = max(1, base.n.get("opt", 1))
    nio = max(1, base.n.get("io", 1))
    callmap = base.note.get("callmap") or {}
    limited = base.note.get("limited") or []

    hot = base.note.get("hot") or []

    def pick_call():
        # at a point where the state just changed,
        if hot and r.random() < (0.5 if plan.get("fine") else 0.3):
            # or is about to
            return max(1, r.choice(r.choice([hot, hot[-12:]]))
                       - r.choice([0, 0, 0, 0, 0, 0, 1, 2, 3, 5]))
        # uniformly over time, or uniformly over the functions entered
        if callmap and r.random() < 0.7:
            lst = callmap[r.choice(sorted(callmap))]
            return max(1, r.choice(lst) + r.choice([0, 0, 0, 1, 1, 2, -1]))
        return r.randint(1, ncall)

    out = []
    for _ in range(r.randint(1, nmax)):
        k = r.choice(kinds)
        if k in ("sigint_call", "pause", "jump", "kill_call",
                 "memerr"):
            n = pick_call()
            if k == "sigint_call":
                out.append(dict(on="call", n=n, do="sigint"))
            elif k == "kill_call":
                out.append(dict(on="call", n=n, do="kill"))
            elif k == "memerr":
                out.append(dict(on="call", n=n, do="memerr"))
            elif k == "pause":
                out.append(dict(on="call", n=n, do="pause",
                                dt=round(r.choice([0.5, 5, 60]) *
                                         r.random(), 3)))
            else:
                out.append(dict(on="call", n=n, do="jump",
                                dt=r.choice([-3600, -10, -1, 1, 10, 3600,
                                             86400, -86400])))
        elif k in ("sigint_opt", "grberr", "timeout", "slow"):
            n = r.randint(1, nopt)
            if k == "timeout" and limited:
                n = r.choice(limited)
            f = dict(on="opt", n=n, do={"sigint_opt": "sigint"}.get(k, k))
            if k == "slow":
                f["dt"] = round(r.choice([1, 10, 100]) * r.random(), 3)
            if k == "timeout":
                f["inc"] = r.choice(["none", "random", "random", "best"])
                f["bnd"] = r.choice([0.0, round(r.random(), 3), 1.0])
            out.append(f)
        elif k in ("kill_io", "enospc", "eio", "short"):
            n = r.randint(1, nio)
            out.append(dict(on="io", n=n,
                            do={"kill_io": "kill"}.get(k, k),
                            frac=r.choice([0.0, 0.3, 0.6, 1.0])))
        else:
            raise ValueError(k)
    return out
