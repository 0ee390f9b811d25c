"""Workload: adaptive-partitioning and MILP runs at library level."""
import gc
import io
import os
import random
import sys

import numpy as np

from . import core, world

CONFIGS = dict(
    init=["random", "cost"], split=["random", "cost"],
    proj=["rescaled_max_violation", "counter"],
    bigm=["naive", "belotti", "belotti", "song", None],
    merge=[False, True], lazy=[False, True])


LIB = ["src.solver.AdaptivePartitioner", "src.solver.MilpSolver",
       "src.BigMFinder", "src.TimeManager"]


class Sink(io.TextIOBase):
    """stdout of the simulated process."""

    def write(self, s):
        return len(s)


SINK = Sink()

ODD = [(49, 1 / 49, 1), (49, 2 / 49, 2), (47, 3 / 47, 3), (22, 15 / 22, 15),
       (100, 0.29, 29), (50, 0.58, 29), (26, 15 / 26, 15), (23, 13 / 23, 13)]


def gen_problem(r, plan, big=0.05, odd=0.01, kmax=None, wide=0.0,
                huge=True):
    cont = r.random() < 0.55
    u = r.random()
    if u < wide:
        # more scenarios than the reciprocal of any sensible tolerance
        cont = False
        N = r.choice([150, 201, 220, 256, 300])
        if r.random() < 0.25 and huge:
            # as many as the Gurobi licence at hand admits
            plan["huge"] = 1
            N = r.choice([1100, 1250, 1500])
        inst = world.gen_instance(r, cont, N=N, n=r.choice([3, 4, 5]),
                                  m=1 if N > 300 else r.choice([1, 1, 2]))
        k = r.choice([0, 1, 2, 3, 5, 8])
        eps = r.choice([(k + 0.5) / N, k / N if k else 0.5 / N])
        plan["wide"] = 1
        if r.random() < 0.8:
            # a point that violates one scenario too many
            pt = [r.random() < 0.7 for _ in range(inst["n"])]
            for i in range(inst["m"]):
                lhs = sorted((sum(a for a, on in zip(inst["A"][s][i], pt)
                                  if on) for s in range(N)), reverse=True)
                inst["b"][i] = round(lhs[k + 1 if i == 0 else 0], 1)
    elif u < wide + odd:
        N, eps, _ = r.choice(ODD)
        # few items, one or two rows: large but cheap
        inst = world.gen_instance(r, cont, N=N, n=r.choice([3, 4, 5]),
                                  m=r.choice([1, 2]))
    else:
        inst = world.gen_instance(r, cont, big=u < wide + odd + big)
        eps = world.gen_eps(r, inst["N"], kmax, not cont)
    if not cont and r.random() < 0.15:
        plan["noise"] = 1
    if r.random() < 0.2:
        inst["raw"] = r.randrange(10 ** 6)
    if not cont and r.random() < 0.12:
        # values so large and close that the solver may stop short of the
        # optimum and call it optimal
        plan["subopt"] = 1
        off = r.choice([300.0, 1000.0, 3000.0])
        width = r.choice([1e-4, 3e-4, 1e-3, 1.0]) * off
        inst["c"] = [round(off + v * min(1.0, width / 60.0), 1)
                     for v in inst["c"]]
    plan.update(inst=inst, eps=eps, cont=cont)
    return plan


def gen_plan(r, kind="adaptive", **kw):
    plan = dict(kind=kind, seed=r.randrange(10 ** 9))
    gen_problem(r, plan, **kw)
    plan["cfg"] = {k: r.choice(v) for k, v in CONFIGS.items()}
    if plan.get("huge"):
        plan["cfg"].update(init="random", split="random",
                           bigm="naive" if kind != "milp" else
                           r.choice(["naive", "naive", "song"]))
    plan.update(ties=r.random() < 0.5, loose=r.random() < 0.3,
                py_seed=r.randrange(10 ** 6), limit=100000, gap=1e-4,
                clock=dict(opt_mean=0.5, opt_spread=r.choice([0.2, 0.9]),
                           tick=1e-3, pytick=1e-5), faults=[])
    N, m = plan["inst"]["N"], plan["inst"]["m"]
    plan["opt_budget"] = 3 * (N + 2) * (N * m + 3 * N + 10)
    plan["budget"] = 3_000_000
    return plan


class Obs:
    """What one run did, as seen from outside."""

    def __init__(self):
        self.end = None
        self.exc = None
        self.method = None
        self.ci = None
        self.retry = None
        self.t0 = self.t0_lo = self.t_set = None
        self.started = False
        self.t_deadline = None


def make_adaptive(plan, ci):
    cfg = plan["cfg"]
    AP = world.get("src.solver.AdaptivePartitioner")
    BM = world.get("src.BigMFinder")
    m = AP(ci, split_method=cfg["split"],
           initial_partition_type=cfg["init"],
           projection_method=cfg["proj"],
           use_acc_obj=cfg["split"] == "cost" or bool(cfg.get("acc")),
           time_limit=plan["limit"], gap=plan["gap"])

    def go():
        bm = BM(m.chance_instance_part)
        m.solve(bm, use_big_M=cfg["bigm"] is not None,
                big_m_method=cfg["bigm"] or "naive",
                use_merger=cfg["merge"], use_lazy=cfg["lazy"])
    return m, go


def make_milp(plan, ci, path=None):
    cfg = plan["cfg"]
    MS = world.get("src.solver.MilpSolver")
    m = MS(ci, time_limit=plan["limit"], gap=plan["gap"])

    def go():
        kw = dict(use_big_m=cfg["bigm"] is not None,
                  big_m_method=cfg["bigm"] or "naive")
        if path is not None:
            kw.update(save_bounds=True, path=path)
        m.solve(**kw)
    return m, go


def instance_path(plan, root):
    i = plan["inst"]
    return os.path.join(root, "ccmknap-%d-%d-%d-1.csv"
                        % (i["n"], i["m"], i["N"]))


def classify(obs, fn):
    """Run fn; how did it end?"""
    try:
        fn()
        obs.end = "done"
    except KeyboardInterrupt:
        obs.end = "interrupted"
    except core.SimCrash as e:
        obs.end = "killed"
        obs.exc = str(e)
    except core.SimBudget as e:
        obs.end = "stuck"
        obs.exc = str(e)
    except core.HarnessError:
        raise
    except SystemExit as e:
        obs.end = "exit"
        obs.exc = str(e.code)
    except Exception as e:
        obs.end = "error"
        obs.exc = "%s: %s" % (type(e).__name__, e)
        obs.tb = e


def run(plan, root, hook=None, fresh=True, write=None, bound_log=None,
        loaded=None, ci=None):
    """Run the plan; returns (sim, obs).  hook(sim, obs) may add observers
    and wrap public methods once the modules are loaded."""
    sim = core.Sim(plan, root)
    obs = Obs()
    path = instance_path(plan, root)
    world.write_csv(plan["inst"], path)
    if fresh:
        world.fresh()
    out = sys.stdout
    err = sys.stderr
    sim.loading = True
    with core.activate(sim):
        sys.stdout = SINK
        sys.stderr = SINK
        try:
            random.seed(plan["py_seed"])
            np.random.seed(plan.get("np_seed", plan["py_seed"]) % 2 ** 32)
            Inst = world.get("src.instance.ChanceKnapInstance")
            make = make_milp if plan["kind"] == "milp" else make_adaptive
            for nm in LIB:
                world.get(nm)
            TM = world.get("src.TimeManager")
            _watch_start(TM, sim, obs)
            if hook:
                hook(sim, obs)
            sim.subject = lambda: obs.method
            sim.loading = False

            def body():
                obs.ci = ci or Inst(path, plan["cont"], plan["eps"])
                if loaded:
                    loaded(obs.ci)
                if plan.get("earlier"):
                    make(dict(plan, limit=1000.0), obs.ci)
                    sim.advance(plan["earlier"])
                    obs.started = False
                obs.t0 = obs.t0_lo = sim.mono
                if bound_log:
                    obs.method, go = make(plan, obs.ci, bound_log)
                else:
                    obs.method, go = make(plan, obs.ci)
                go()
            classify(obs, body)
            obs.t_end = sim.mono
            if write and obs.end in ("done", "interrupted"):
                wo = Obs()
                sim.alarm_at = None
                sim.masked += 1
                classify(wo, lambda: write(obs))
                sim.masked -= 1
                obs.write = wo
            if plan.get("retry") and obs.ci is not None and \
                    obs.end not in ("killed", "stuck"):
                sim.faults = {}
                sim.alarm_at = None
                obs.retry = Obs()

                def again():
                    p2 = dict(plan, limit=10 ** 7)
                    obs.retry.method, go = make(p2, obs.ci)
                    go()
                classify(obs.retry, again)
        finally:
            sys.stdout = out
            sys.stderr = err
    return sim, obs


def _watch_start(TM, sim, obs):
    f = getattr(TM, "set_limit_and_start_time", None)
    if f is None:
        return

    def g(*a, **k):
        before = sim.mono
        res = f(*a, **k)
        if obs.t0 is not None and not obs.started:
            obs.started = True     # the budget runs from here, for good
            obs.t_set = before
            obs.t0 = sim.mono
        return res
    try:
        TM.set_limit_and_start_time = staticmethod(g)
    except Exception:
        pass


def wrap(cls, name, before=None, after=None):
    """Observe calls of a public method; never fails if it is gone."""
    f = next((c.__dict__[name] for c in cls.__mro__ if name in c.__dict__),
             None)
    sim = core.ACTIVE
    if f is None or isinstance(f, (staticmethod, classmethod)):
        if sim is not None:
            sim.probe("not_observed:%s.%s" % (cls.__name__, name))
        return False

    def g(self, *a, **k):
        if before:
            before(self, a, k)
        res = f(self, *a, **k)
        if after:
            after(self, a, k, res)
        return res
    g.__name__ = name
    setattr(cls, name, g)
    return True
