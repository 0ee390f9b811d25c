"""One worker process of a check: simulates its share of the families.

argv[1] is a JSON object:
  mode  "search": families i = w (mod W), i < count
        "replay": the plan in 'plan'
        "minimise": shrink the plan in 'plan', keeping violation class 'cls'
"""
import json
import os
import shutil
import sys
import tempfile
import traceback

from . import core, world


def props():
    from . import campaign_props, lib_props, script_props
    out = {}
    for mod in (lib_props, script_props, campaign_props):
        for v in vars(mod).values():
            if isinstance(v, type) and getattr(v, "id", None) and \
                    issubclass(v, mod.Prop):
                out.setdefault(v.id, v)
    for mod in (lib_props, script_props, campaign_props):
        for v in vars(mod).values():
            if isinstance(v, type) and v.__dict__.get("id"):
                out[v.id] = v
    return out


class Out:
    def __init__(self, path):
        self.f = core.REAL["open"](path, "a", encoding="utf-8")

    def __call__(self, **rec):
        self.f.write(json.dumps(rec) + "\n")
        self.f.flush()


def main():
    cfg = json.loads(sys.argv[1])
    root = tempfile.mkdtemp(prefix="dst-", dir="/tmp")
    try:
        work(cfg, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def work(cfg, root):
    world.setup(cfg["build"], cfg["cache"])
    P = props()[cfg["prop"]]()
    out = Out(cfg["out"])
    judge = P.judge
    cur = cfg["out"] + ".cur"

    def noted(plan, where):
        with core.REAL["open"](cur, "w") as f:
            json.dump(dict(i=noted.i, plan=plan), f)
        return judge(plan, where)
    noted.i = -1
    P.judge = noted
    if cfg["mode"] == "search":
        search(cfg, P, root, out, noted)
    elif cfg["mode"] == "replay":
        res = P.judge(cfg["plan"], root)
        out(t="replay", viol=list(res.viol), digest=res.digest,
            note=plain(res.note), log=res.log, fired=res.fired,
            cmp=res.note.get("cmp"))
    elif cfg["mode"] == "minimise":
        from . import minimise
        minimise.run(P, cfg["plan"], cfg["cls"], root, out,
                     cfg.get("seconds", 60))


def plain(note):
    return {k: v for k, v in note.items() if k in ("end", "exc")}


def search(cfg, P, root, out, noted):
    now = core.REAL["monotonic"]
    stop = now() + cfg["seconds"]
    samples = 0
    for i in range(cfg["w"] + cfg.get("skip", 0), cfg["count"], cfg["W"]):
        if now() > stop:
            out(t="cap", i=i)
            break
        noted.i = i
        acc = dict(runs=0, sims=0, nontrivial=0, simtime=0.0, fired={},
                   probes={}, n={}, ends={}, dig=[], paths=[], cmp=[])
        rec = []

        def emit(plan, res):
            acc["runs"] += 1
            acc["sims"] += res.sims
            acc["nontrivial"] += bool(res.nontrivial)
            acc["simtime"] += res.simtime
            for a, b in ((acc["fired"], res.fired),
                         (acc["probes"], res.probes), (acc["n"], res.n)):
                for k, v in b.items():
                    a[k] = a.get(k, 0) + v
            e = str(res.note.get("end"))
            acc["ends"][e] = acc["ends"].get(e, 0) + 1
            d = core.hashlib.sha256(
                (res.digest + json.dumps(plan, sort_keys=True)
                 ).encode()).hexdigest()[:16]
            acc["dig"].append([d, int(bool(res.nontrivial))])
            acc["paths"].append(core.hashlib.sha256(
                res.path.encode()).hexdigest()[:16])
            if "cmp" in res.note:
                acc["cmp"].append(res.note["cmp"])
            if res.viol:
                out(t="viol", i=i, j=acc["runs"] - 1, plan=plan,
                    viol=list(res.viol), digest=res.digest)
            elif res.nontrivial and len(rec) < 1:
                rec.append((plan, res))

        t = now()
        try:
            P.family(cfg["seed"], i, root, emit)
        except core.Inconclusive as e:
            out(t="inconclusive", i=i, why=str(e))
        except Exception:
            out(t="err", i=i, tb=traceback.format_exc()[-3000:])
        out(t="fam", i=i, wall=round(now() - t, 3), **acc)
        if rec and samples < 1:
            samples += 1
            plan, res = rec[0]
            out(t="sample", i=i, plan=plan, end=plain(res.note),
                fired=res.fired, events=res.log[:40])
    out(t="end")


if __name__ == "__main__":
    main()
