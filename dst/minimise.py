"""Shrinks a failing plan, keeping the class of the violation."""
import copy

from . import core, world


def candidates(plan):
    """Simpler plans, the most rewarding simplifications first."""
    if plan.get("faults"):
        for j in range(len(plan["faults"])):
            p = copy.deepcopy(plan)
            del p["faults"][j]
            yield p
    for key in ("noise", "subopt", "ties", "loose", "skew", "stale", "old", "odd", "acc",
                "earlier"):
        if plan.get(key):
            p = copy.deepcopy(plan)
            p[key] = False
            yield p
    if plan.get("clock", {}).get("jumps"):
        p = copy.deepcopy(plan)
        p["clock"]["jumps"] = []
        yield p
    if plan.get("jumpy"):
        p = copy.deepcopy(plan)
        p["jumpy"] = []
        yield p
    if plan.get("cfg"):
        for k, v in (("merge", False), ("lazy", False), ("acc", False)):
            if plan["cfg"].get(k):
                p = copy.deepcopy(plan)
                p["cfg"][k] = v
                yield p
    if plan.get("runs"):
        for j in range(len(plan["runs"])):
            if not plan["runs"][j].get("skip"):
                p = copy.deepcopy(plan)
                p["runs"][j]["skip"] = 1
                yield p
            if plan["runs"][j].get("faults"):
                p = copy.deepcopy(plan)
                p["runs"][j]["faults"] = []
                yield p
    if plan.get("consts"):
        for k in ("ALL_INSTANCES", "ALL_SCENARIOS", "ALL_EPSILONS"):
            lst = plan["consts"][k]
            if len(lst) > 1:
                for j in range(len(lst)):
                    p = copy.deepcopy(plan)
                    del p["consts"][k][j]
                    yield p
        if plan["consts"]["NB_INSTANCES"] > 1:
            p = copy.deepcopy(plan)
            p["consts"]["NB_INSTANCES"] -= 1
            yield p
    if plan.get("rows"):
        size = len(plan["rows"])
        step = max(1, size // 2)
        while step >= 1:
            for j in range(0, size, step):
                p = copy.deepcopy(plan)
                del p["rows"][j:j + step]
                yield p
            if step == 1:
                break
            step //= 2
    if plan.get("gen"):
        g = plan["gen"]
        for k in ("extreme", "allfail"):
            if g.get(k):
                p = copy.deepcopy(plan)
                p["gen"].pop(k)
                yield p
        for k in ("S", "I"):
            if g[k] > 1:
                for v in {1, g[k] // 2, g[k] - 1}:
                    p = copy.deepcopy(plan)
                    p["gen"][k] = v
                    yield p
        if len(g["b"]) > 1:
            p = copy.deepcopy(plan)
            p["gen"]["b"].pop()
            p["gen"]["A"].pop()
            yield p
        if len(g["c"]) > 1:
            p = copy.deepcopy(plan)
            p["gen"]["c"].pop()
            for row in p["gen"]["A"]:
                row.pop()
            yield p
    if plan.get("inst"):
        yield from smaller_instances(plan)
    for j, f in enumerate(plan.get("faults", [])):
        for v in (1, f["n"] // 2, f["n"] - 1):
            if 1 <= v < f["n"]:
                p = copy.deepcopy(plan)
                p["faults"][j]["n"] = v
                yield p
    if plan.get("fine"):
        p = copy.deepcopy(plan)
        p.pop("fine")
        yield p


def smaller_instances(plan):
    i = plan["inst"]
    N, m, n = i["N"], i["m"], i["n"]
    for s in range(N):
        if N > 3:
            p = copy.deepcopy(plan)
            del p["inst"]["A"][s]
            p["inst"]["N"] = N - 1
            k = world.violation_budget(plan["eps"], N)
            if k >= N - 1:
                continue
            k2 = world.violation_budget(plan["eps"], N - 1)
            if k2 > N - 3 or (k and not k2):
                p["eps"] = (min(k, N - 3) + 0.5) / (N - 1)
            yield p
    if m > 1:
        for r in range(m):
            p = copy.deepcopy(plan)
            for s in range(N):
                del p["inst"]["A"][s][r]
            del p["inst"]["b"][r]
            p["inst"]["m"] = m - 1
            yield p
    if n > 2:
        for j in range(n):
            p = copy.deepcopy(plan)
            for s in range(N):
                for row in p["inst"]["A"][s]:
                    del row[j]
            del p["inst"]["c"][j]
            p["inst"]["n"] = n - 1
            yield p
    if "raw" in i:
        p = copy.deepcopy(plan)
        del p["inst"]["raw"]
        yield p
    for what in ("c", "b", "A"):
        q = copy.deepcopy(plan)

        def rnd(v):
            return [rnd(t) for t in v] if isinstance(v, list) \
                else float(max(round(v), 1 if what != "A" else 0))
        q["inst"][what] = rnd(q["inst"][what])
        if q["inst"][what] != i[what]:
            yield q


def run(P, plan, cls, root, out, seconds):
    now = core.REAL["monotonic"]
    stop = now() + seconds
    tried = 0

    def fails(p):
        nonlocal tried
        tried += 1
        try:
            res = P.judge(p, root)
        except (Exception, core.Inconclusive):
            return None
        return res if any(v["cls"] == cls for v in res.viol) else None

    best = fails(plan)
    if best is None:
        out(t="min", ok=False)
        return
    again = True
    while again and now() < stop:
        again = False
        for p in candidates(plan):
            if now() > stop:
                break
            res = fails(p)
            if res is not None:
                plan, best, again = p, res, True
                out(t="min", ok=True, plan=plan)
                break
    out(t="min", ok=True, plan=plan, viol=list(best.viol),
        digest=best.digest, log=best.log, tried=tried)
