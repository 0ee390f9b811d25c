"""Properties decided on simulated library-level runs (no script, no disk)."""
import copy
import math
import random

import numpy as np
import gurobipy as gp
from gurobipy import GRB

from . import adaptive, core, gworld, judge, world
from .adaptive import wrap
from .judge import Viol, check_bounds, check_incumbent, check_optimal, oracle
from .runner_base import Prop, Result, place_faults

REAL = ["src/solver", "src/refiner", "src/instance", "src/optim",
        "src/*.py", "compiled violations kernel", "Gurobi arithmetic"]
STUB = ["clock", "signals and alarm", "duration, truncation, failure and "
        "choice among optima of solver calls", "random seed"]


def is_cclp(model):
    """A chance-constrained model (full or partitioned)."""
    if model.ModelName == "CCLP":
        return True
    return model.getVarByName("z[0]") is not None


def time_faults(r, plan, base, p_alarm=0.35):
    """A deadline somewhere inside the run instead of, or with, faults."""
    total = max(1e-3, base.simtime)
    plan["limit"] = round(total * r.choice(
        [r.random(), r.random(), 0.02, 1.02]), 4)
    return plan


class AdaptiveProp(Prop):
    real, stub = REAL, STUB
    kinds = ["sigint_call", "sigint_call", "sigint_opt", "timeout", "timeout",
             "slow", "pause", "jump", "grberr", "memerr"]
    big, odd, wide = 0.05, 0.01, 0.015
    kind = "adaptive"
    at_changes = 0

    def gen(self, r):
        p = adaptive.gen_plan(r, self.kind, big=self.big, odd=self.odd,
                              wide=self.wide)
        p["map"] = 1
        return p

    def variants(self, plan, base, r):
        for _ in range(self.variants_per_base):
            p = copy.deepcopy(plan)
            p.pop("map", None)
            p["seed"] = r.randrange(10 ** 9) if r.random() < 0.3 \
                else plan["seed"]
            kinds = r.sample(self.kinds, r.randint(1, 3))
            p["faults"] = place_faults(r, p, base, kinds)
            if r.random() < 0.4:
                time_faults(r, p, base)
                if r.random() < 0.3:
                    p["faults"] = []
                if r.random() < 0.4:
                    p["skew"] = 1e-3
            lim = base.note.get("limited")
            if lim and r.random() < 0.15:
                # the solver stops at its limit, a little early on our clock:
                # the run goes on with an answer that was cut off
                p["skew"] = 1e-3
                p["limit"] = plan["limit"]
                p["faults"] = [dict(on="opt", n=n, do="timeout",
                                    inc=r.choice(["random", "best"]))
                               for n in r.sample(lim, min(len(lim), 2))]
            if r.random() < 0.2:
                p["clock"] = dict(p["clock"], pytick=r.choice(
                    [1e-4, 1e-3, 1e-2]))
            yield p
        # runs with a history: stopped right where the state changes
        hot = base.note.get("hot") or []
        if self.at_changes and plan.get("fine") and hot and \
                (base.note.get("iteration") or 0) > 1:
            for n in r.sample(hot, min(len(hot), self.at_changes)):
                p = copy.deepcopy(plan)
                p.pop("map", None)
                p["faults"] = [dict(on="call", n=n, do="sigint")]
                yield p

    def note(self, sim, obs, limited=()):
        return dict(end=obs.end, exc=obs.exc, callmap=sim.callmap, hot=sim.hot,
                    limited=list(limited),
                    iteration=getattr(obs.method, "iteration", None))


class C01(AdaptiveProp):
    id = "C01"
    fine_share = 0.4
    at_changes = 2
    quick, thorough = 1700, 60000
    rule = ("one simulated adaptive run per case (instance, epsilon, options,"
            " solver answers, clock, faults all generated); non-trivial when "
            "a fault, deadline or solver cut fired or at least two iterations"
            " were made; distinct by the digest of the full event log")

    def judge(self, plan, root):
        V = Viol()
        o = oracle(plan)
        o.value()
        last = {}
        limited = []

        def look(sim, obs, where):
            m = obs.method
            if m is None:
                return
            lo, hi = getattr(m, "vLB", None), getattr(m, "vUB", None)
            if lo is None or hi is None:
                return
            if last.get("m") is not m:
                last.clear()
                last["m"] = m
            if last.get("b") == (lo, hi):
                return
            check_bounds(V, o, lo, hi, where)
            if "b" in last:
                a, b = last["b"]
                if not (lo >= a - judge.tol(a) * 1e-3 or a == -math.inf):
                    V.add("lower_bound_decreased", "lower bound fell from %r "
                          "to %r at %s" % (a, lo, where))
                if not (hi <= b + 1e-6 * max(1.0, abs(b)) or b == math.inf):
                    V.add("upper_bound_increased", "upper bound rose from %r "
                          "to %r at %s" % (b, hi, where))
            last["b"] = (lo, hi)

        def hook(sim, obs):
            def ob(kind, d):
                if kind == "opt" and d["limit"] < GRB.INFINITY:
                    limited.append(d["k"])
                look(sim, obs, "solver call %d" % d["k"])
            sim.observers.append(ob)
            AP = world.get("src.solver.AdaptivePartitioner")

            def enter(self, a, k):
                obs.method = self
            wrap(AP, "solve", before=enter)

        sim, obs = adaptive.run(plan, root, hook)
        look(sim, obs, "end (%s)" % obs.end)
        nt = bool(sim.fired) or (getattr(obs.method, "iteration", 0) or 0) > 1
        return Result(sim, V, nt, self.note(sim, obs, limited))


class C13(C01):
    id = "C13"
    wide = 0.05
    at_changes = 4
    quick, thorough = 1700, 60000

    def judge(self, plan, root):
        V = Viol()
        o = oracle(plan)
        seen = {}
        limited = []

        def look(sim, obs, where):
            m = obs.method
            if m is None:
                return
            x = getattr(m, "xLB", None)
            lo = getattr(m, "vLB", None)
            try:                  # also when it was changed in place
                key = (np.asarray(x, dtype=float).tobytes(), lo)
            except (TypeError, ValueError):
                key = (id(x), lo)
            if seen.get("k") == key:
                return
            seen["k"] = key
            seen["x"] = x
            check_incumbent(V, o, x, lo, where)

        def hook(sim, obs):
            def ob(kind, d):
                if kind == "opt" and d["limit"] < GRB.INFINITY:
                    limited.append(d["k"])
                look(sim, obs, "solver call %d" % d["k"])
            sim.observers.append(ob)
            AP = world.get("src.solver.AdaptivePartitioner")

            def enter(self, a, k):
                obs.method = self
            wrap(AP, "solve", before=enter)

        sim, obs = adaptive.run(plan, root, hook)
        look(sim, obs, "end (%s)" % obs.end)
        nt = bool(sim.fired) or (getattr(obs.method, "iteration", 0) or 0) > 1
        return Result(sim, V, nt, self.note(sim, obs, limited))


class C02(AdaptiveProp):
    id = "C02"
    quick, thorough = 3200, 120000
    variants_per_base = 1
    big = 0.08
    odd = 0.012
    rule = ("one undisturbed adaptive run per case; variants repeat the "
            "problem under other options, seeds and solver answers; "
            "non-trivial when at least two iterations were made; distinct by "
            "event-log digest")

    def variants(self, plan, base, r):
        for _ in range(self.variants_per_base):
            p = copy.deepcopy(plan)
            p.pop("map", None)
            p["seed"] = r.randrange(10 ** 9)
            p["py_seed"] = r.randrange(10 ** 6)
            p["ties"] = r.random() < 0.7
            p["loose"] = r.random() < 0.4
            p["cfg"] = {k: r.choice(v)
                        for k, v in adaptive.CONFIGS.items()}
            p["gap"] = r.choice([1e-4, 1e-4, 1e-6, 1e-2])
            yield p

    def judge(self, plan, root):
        V = Viol()
        o = oracle(plan)
        sim, obs = adaptive.run(plan, root)
        m = obs.method
        if obs.end == "stuck":
            V.add("no_termination", "no termination: %s" % obs.exc,
                  iteration=getattr(m, "iteration", None))
        elif obs.end != "done":
            V.add("run_failed", "undisturbed run ended with %s %s"
                  % (obs.end, obs.exc))
        else:
            check_optimal(V, o, m, plan["gap"])
        it = getattr(m, "iteration", 0) or 0
        return Result(sim, V, it > 1, self.note(sim, obs))


class C03(AdaptiveProp):
    id = "C03"
    fine_share = 0.4
    kind = "milp"
    quick, thorough = 2600, 80000
    big, odd = 0.08, 0.012
    rule = ("one simulated MILP solve per case over formulations, limits and "
            "faults; non-trivial when the solver was cut off, interrupted or "
            "failed, or a nontrivial tie was answered; distinct by event-log "
            "digest")
    kinds = ["sigint_call", "sigint_opt", "timeout", "timeout", "timeout",
             "slow", "pause", "jump", "grberr", "memerr"]

    def gen(self, r):
        p = AdaptiveProp.gen(self, r)
        N = p["inst"]["N"]
        if r.random() < 0.06:
            p["eps"] = r.choice([(N - 1) / N, (N - 0.5) / N, 0.01])
        p["log"] = r.random() < 0.5
        return p

    def judge(self, plan, root):
        V = Viol()
        o = oracle(plan)
        limited = []

        def hook(sim, obs):
            def ob(kind, d):
                if kind == "opt" and d["limit"] < GRB.INFINITY:
                    limited.append(d["k"])
            sim.observers.append(ob)
        sim, obs = adaptive.run(
            plan, root, hook,
            bound_log=(root + "/bounds.csv") if plan.get("log") else None)
        m = obs.method
        cut = sim.fired.get("solver_time_limit", 0)
        if obs.end == "done":
            lo, hi = getattr(m, "vLB", None), getattr(m, "vUB", None)
            check_bounds(V, o, lo, hi, "return")
            check_incumbent(V, o, getattr(m, "xLB", None), lo, "return")
            if sim.fired.get("sigint") or sim.fired.get(
                    "solver_interrupted") or sim.fired.get("solver_error") \
                    or sim.fired.get("memory_error"):
                V.add("interrupt_swallowed", "interrupted or failed solve "
                      "returned normally")
            if not cut:
                check_optimal(V, o, m, plan["gap"])
        elif obs.end == "stuck":
            V.add("no_termination", obs.exc)
        elif obs.end == "interrupted":
            if not (sim.fired.get("sigint") or
                    sim.fired.get("solver_interrupted")):
                V.add("spurious_interrupt", "KeyboardInterrupt without an "
                      "interrupt")
        elif obs.end == "error":
            if not (sim.fired.get("solver_error") or
                    sim.fired.get("memory_error")):
                V.add("solve_failed", "solve raised %s" % obs.exc)
        if obs.end != "done" and m is not None:
            check_bounds(V, o, getattr(m, "vLB", -math.inf),
                         getattr(m, "vUB", math.inf), "exception")
        nt = bool(sim.fired) or bool(sim.probes)
        return Result(sim, V, nt, self.note(sim, obs, limited))


class C04(AdaptiveProp):
    id = "C04"
    quick, thorough = 3000, 100000
    variants_per_base = 1
    big, odd = 0.05, 0.003
    rule = ("one simulated adaptive run per case; every partition loaded is "
            "checked; non-trivial when at least one refinement happened; "
            "distinct by event-log digest")

    def gen(self, r):
        p = AdaptiveProp.gen(self, r)
        # histories with several refinements need room to split
        p["cfg"]["merge"] = r.random() < 0.6
        return p

    def variants(self, plan, base, r):
        p = copy.deepcopy(plan)
        p.pop("map", None)
        p["seed"] = r.randrange(10 ** 9)
        p["py_seed"] = r.randrange(10 ** 6)
        p["ties"] = True
        p["cfg"] = {k: r.choice(v) for k, v in adaptive.CONFIGS.items()}
        yield p

    def judge(self, plan, root):
        V = Viol()
        o = oracle(plan)
        N, k = plan["inst"]["N"], o.k
        st = dict(x=None, loads=0, depth=0)

        def check_partition(part, nb, where):
            try:
                part = [list(map(int, c)) for c in part]
            except Exception:
                V.add("partition_malformed", "partition %r" % (part,))
                return
            flat = sorted(s for c in part for s in c)
            if flat != list(range(N)):
                V.add("partition_not_a_cover",
                      "scenarios %r in %d subsets are not each of %d once, "
                      "%s" % (flat, len(part), N, where), partition=part)
            if any(len(c) == 0 for c in part):
                V.add("empty_subset", "empty subset, " + where,
                      partition=part)
            if nb is not None and nb != len(part):
                V.add("wrong_number_of_subsets", "%r announced, %d there, %s"
                      % (nb, len(part), where))
            if len(part) <= k:
                V.add("too_few_subsets", "%d subsets with %d violations "
                      "allowed, %s" % (len(part), k, where), partition=part)
            x = st["x"]
            if x is not None:
                nv = judge.violated_subsets(o, x, part, 2e-7)
                if nv <= k:
                    V.add("rejected_solution_admitted_again",
                          "the rejected solution violates %d subsets only, "
                          "%d allowed, %s" % (nv, k, where), partition=part,
                          x=np.asarray(x, dtype=float))

        def hook(sim, obs):
            P = world.get("src.instance.PartitionChanceKnapInstance")
            CI = world.get("src.instance.ChanceKnapInstance")
            INF = world.get("src.Informer")
            AP = world.get("src.solver.AdaptivePartitioner")
            RF = world.get("src.refiner.Refiner")

            def loaded(self, a, kw, res):
                st["loads"] += 1
                nb = a[0] if len(a) > 0 else kw.get("nb_subsets")
                part = a[1] if len(a) > 1 else kw.get("partition")
                if part is not None:
                    check_partition(part, nb, "load %d" % st["loads"])

            def checked(self, a, kw, res):
                if self is not getattr(obs, "ci", None):
                    return
                x = a[0] if a else kw.get("var_x_val")
                st["x"] = None if (x is None or res) else x

            def iteration(self, a, kw):
                m = obs.method
                if m is None:
                    return
                part = getattr(m, "partition", None)
                if part is None:
                    return
                check_partition(part, getattr(m, "nb_subsets", None),
                                "iteration %s" % getattr(m, "iteration", "?"))
                costs = getattr(m, "subset_costs", None)
                sols = getattr(m, "subset_sols", None)
                if costs is None:
                    return
                if len(costs) != len(part) or (
                        sols is not None and len(sols) != len(part)):
                    V.add("subset_values_out_of_step", "%d subsets, %d values"
                          % (len(part), len(costs)))
                    return
                if st.get("costly", 0) > 60:
                    return
                for c, sub in enumerate(part):
                    st["costly"] = st.get("costly", 0) + 1
                    want = o.single_max(sub)
                    got = judge.num(costs[c])
                    if got is None or abs(got - want) > judge.tol(want):
                        V.add("wrong_subset_value", "subset %r recorded with "
                              "%r, optimum is %r" % (sub, got, want))
                    elif sols is not None and sols[c] is not None:
                        xs = np.asarray(sols[c], dtype=float)
                        if abs(o.obj(xs) - want) > judge.tol(want) or \
                                set(map(int, o.violated(xs))) & set(sub):
                            V.add("wrong_subset_solution", "subset %r: stored"
                                  " solution is not an optimum of it"
                                  % (sub,))

            def enter(self, a, kw):
                obs.method = self
            wrap(AP, "solve", before=enter)
            wrap(P, "load_partition", after=loaded)
            wrap(CI, "check_feasibility", after=checked)
            wrap(INF, "print_iter_info", before=iteration)

            def ref(self, a, kw, res):
                sim.probe("refinement")
            wrap(RF, "refine", after=ref)

        sim, obs = adaptive.run(plan, root, hook)
        if obs.end == "error" and (obs.exc or "").startswith(
                ("AssertionError", "IndexError", "KeyError", "ValueError",
                 "TypeError")):
            V.add("partition_bookkeeping_failed",
                  "the run ended with %s" % obs.exc)
        return Result(sim, V, sim.probes.get("refinement", 0) > 0,
                      self.note(sim, obs))


class C05(AdaptiveProp):
    id = "C05"
    quick, thorough = 2200, 80000
    variants_per_base = 2
    big, odd = 0.04, 0.0
    rule = ("one simulated run (adaptive or MILP) per case with a deadline "
            "inside it, under slow calls, stalls and wall-clock steps; "
            "non-trivial when the deadline was reached or a clock fault "
            "fired; distinct by event-log digest")
    kinds = ["slow", "pause", "jump", "jump"]

    def gen(self, r):
        if r.random() < 0.14:
            from . import script_props
            p = script_props.gen_main(r, big=0.0, odd=0.0)
            p["map"] = 1
            return p
        kind = r.choice(["adaptive", "adaptive", "adaptive", "milp"])
        p = adaptive.gen_plan(r, kind, big=self.big, odd=0.0)
        if kind == "adaptive" and r.random() < 0.7:
            # runs with several iterations
            p["cfg"]["init"] = "random"
        p["map"] = 1
        p["clock"]["pytick"] = r.choice([1e-5, 1e-3, 1e-2])
        p["log"] = r.random() < 0.3
        if r.random() < 0.25:
            # another run came before, in the same process
            p["earlier"] = round(r.choice([1, 10, 1000]) * r.random(), 3)
        return p

    def variants(self, plan, base, r):
        total = max(1e-3, base.simtime - (plan.get("earlier") or 0))
        ends = base.note.get("ends") or []
        for j in range(self.variants_per_base):
            p = copy.deepcopy(plan)
            p.pop("map", None)
            if plan["kind"] == "script":
                from . import script_props
                script_props.at_deadline(r, p, base)
                p["faults"] = place_faults(
                    r, p, base, self.kinds) if r.random() < 0.4 else []
                if r.random() < 0.4:
                    # held up while it sets up; then many short steps
                    script_props.at_deadline(r, p, base, r.choice(
                        [0.2, 1.0, 1.0]))
                    cm = base.note.get("callmap") or {}
                    p["faults"] = [dict(on="call", n=n, do="pause",
                                        dt=round(r.random(), 3))
                                   for n in cm.get("BigMFinder.__init__", [])
                                   [:1]]
                yield p
                continue
            if ends and r.random() < 0.35:
                # the deadline comes right after a solver call
                p["limit"] = round(r.choice(ends) * (1 + r.choice(
                    [1e-4, 3e-4, 1e-3, 3e-3]) * r.random()) + 1e-5, 6)
                yield p
                continue
            p["limit"] = round(total * r.choice(
                [r.random(), r.random(), r.random(), 0.0, 1.2]), 4)
            if r.random() < 0.1:
                p["limit"] = 0
            p["faults"] = place_faults(r, p, base, r.sample(
                self.kinds, r.randint(1, 3)), 3) if r.random() < 0.75 else []
            yield p

    def script(self, plan, root):
        """The same through main.py, with its alarm."""
        from . import script, script_props
        V = Viol()
        o = oracle(plan)
        M = script_props.Main()
        sim, obs, got = M.run(V, plan, root)
        LIMIT = script_props.LIMIT
        row = None
        data = got.get(script.main_names(plan)[0])
        if obs.end == "stuck":
            V.add("deadline_ignored", "%s" % obs.exc)
        elif obs.end != "done" or not data:
            V.add("deadline_crashed_the_run", "main.py ended with %s %s"
                  % (obs.end, obs.exc))
        else:
            row = [judge.num(x) for x in script_props.parse_rows(data)[0]]
        if obs.late and plan["method"] in (3, 4):
            V.add("ran_past_the_deadline", "%d solver calls began after "
                  "the limit: %r" % (len(obs.late), obs.late[:4]))
        c = plan["clock"]
        if row and len(row) > 4:
            t, lo, hi = row[-4:-1]
            v = o.value()
            slack = 20 * c["tick"] + 2e-3
            c_lo = obs.t_last_opt - obs.t0 - slack if obs.t_last_opt else 0.0
            if not (t >= 0 and c_lo <= t <= obs.t_end - obs.t0_lo + 2e-3):
                V.add("wrong_elapsed_time", "row claims %r s, elapsed "
                      "between %.4f and %.4f s"
                      % (t, c_lo, obs.t_end - obs.t0_lo))
            early = (obs.t_set or obs.t0_lo) + LIMIT - (
                sim.alarm_fired_at or sim.mono)
            near = judge.tol(v) + 1.1e-4 * abs(v) + 6e-4
            if early > 1e-4 and not (
                    abs(lo - v) <= near and abs(hi - v) <= near):
                V.add("gave_up_before_the_deadline", "ended %.4f s before "
                      "the limit of one hour with bounds %r, %r, optimum %r"
                      % (early, lo, hi, v))
        reached = obs.t0 is not None and sim.mono >= obs.t0 + LIMIT
        sim.probe("script_deadline_reached" if reached
                  else "script_finished_in_time")
        return Result(sim, V, reached or bool(sim.fired),
                      M.note(sim, obs))

    def judge(self, plan, root):
        if plan["kind"] == "script":
            return self.script(plan, root)
        V = Viol()
        ends = []
        clock = plan["clock"]
        # the code reads the clock, then makes a few calls, then optimises
        slack = 12 * clock["pytick"] + 6 * clock["tick"] + 1e-6
        late = []           # main steps that begin after the deadline
        row = {}

        def hook(sim, obs):
            def deadline():
                return obs.t0 + plan["limit"]

            def step(name):
                if obs.t0 is not None and \
                        sim.mono > deadline() + slack:
                    late.append((name, round(sim.mono - deadline(), 6)))

            def ob(kind, d):
                if kind == "opt_end" and obs.t0 is not None:
                    ends.append(round(sim.mono - obs.t0, 7))
                if kind != "opt" or not is_cclp(d["model"]):
                    return
                limit, now = d["limit"], sim.mono
                stalls = sum(float(f["dt"]) for f in plan["faults"]
                             if f["do"] == "pause"
                             and f["n"] <= sim.n["call"])
                left = max(0.0, deadline() - now)
                if limit > left + slack + stalls:
                    V.add("solver_limit_exceeds_budget",
                          "solver given %.6f s with %.6f s left"
                          % (limit, left))
                if limit < 0:
                    V.add("negative_solver_limit", "TimeLimit %r" % limit)

            sim.observers.append(ob)
            AP = world.get("src.solver.AdaptivePartitioner")
            LB = world.get("src.LowerBounder")
            RF = world.get("src.refiner.Refiner")

            def enter(self, a, k):
                obs.method = self
            wrap(AP, "solve", before=enter)
            wrap(LB, "deterministic_bound",
                 before=lambda s, a, k: step("projection"))
            wrap(RF, "refine", before=lambda s, a, k: step("refinement"))
            if plan["kind"] != "milp":
                if plan["cfg"]["bigm"] is None:
                    wrap(world.get("src.solver.Solver"), "solve_cclp_model",
                         before=lambda s, a, k: step("iteration"))
                else:
                    wrap(world.get("src.BigMFinder"), "update_big_M",
                         before=lambda s, a, k: step("iteration"))

        def write(obs):
            TM = world.get("src.TimeManager")
            sim = core.ACTIVE
            a = sim.mono
            TM.set_final_time()
            row["lo"], row["hi"] = a - obs.t0, sim.mono - obs.t0_lo
            row["t"] = TM.get_total_time()

        sim, obs = adaptive.run(
            plan, root, hook, write=write,
            bound_log=(root + "/bounds.csv")
            if plan.get("log") and plan["kind"] == "milp" else None)
        if obs.end == "error":
            V.add("deadline_crashed_the_run", "%s" % obs.exc)
        if obs.end == "stuck":
            V.add("deadline_ignored", "%s" % obs.exc)
        early = None if obs.t0 is None else obs.t0 + plan["limit"] - sim.mono
        if obs.end == "done" and early is not None and \
                early > 2 * slack + 1e-4 * plan["limit"] and \
                sim.n["opt"] > 0:
            W = Viol()
            check_optimal(W, oracle(plan), obs.method, plan["gap"])
            if W:
                V.add("gave_up_before_the_deadline", "ended %.4f s before "
                      "the deadline: %s" % (early, W[0]["what"]))
        # a stall may come between a look at the clock and the step
        if len(late) > (1 if sim.fired.get("pause") else 0):
            V.add("ran_past_the_deadline",
                  "%d main steps began after the deadline: %r"
                  % (len(late), late[:5]))
        if "t" in row:
            t = row["t"]
            if not (t >= 0 and row["lo"] - slack <= t
                    <= row["hi"] + slack):
                V.add("wrong_elapsed_time", "reported %.6f s, elapsed "
                      "between %.6f and %.6f s" % (t, row["lo"], row["hi"]))
        reached = obs.t0 is not None and \
            sim.mono >= obs.t0 + plan["limit"]
        if reached:
            sim.probe("deadline_reached")
        elif obs.end == "done":
            sim.probe("finished_in_time")
        nt = reached or any(k.startswith("clock_jump") or k == "pause"
                            for k in sim.fired)
        return Result(sim, V, nt, dict(self.note(sim, obs), ends=ends))


class C12(AdaptiveProp):
    id = "C12"
    quick, thorough = 5500, 250000
    variants_per_base = 1
    big, odd = 0.04, 0.003
    rule = ("one simulated run (adaptive or MILP) per case; each chance-"
            "constrained model handed to the solver is probed with feasible "
            "improving points (must be admitted) and with infeasible points "
            "(must be rejected); non-trivial when at least one model was "
            "probed with an improving point; distinct by event-log digest")

    def gen(self, r):
        kind = r.choice(["adaptive", "adaptive", "milp"])
        p = adaptive.gen_plan(r, kind, big=self.big, odd=self.odd,
                              wide=0.005)
        if kind == "adaptive":
            p["cfg"]["init"] = r.choice(["random", "random", "cost"])
        if r.random() < 0.2:
            # values that lie close together, relative to their size
            off = r.choice([100.0, 200.0, 400.0])
            p["inst"]["c"] = [round(v + off, 1) for v in p["inst"]["c"]]
        return p

    def variants(self, plan, base, r):
        p = copy.deepcopy(plan)
        p["seed"] = r.randrange(10 ** 9)
        p["py_seed"] = r.randrange(10 ** 6)
        cfg = {k: r.choice(v) for k, v in adaptive.CONFIGS.items()}
        p["cfg"] = cfg
        yield p

    def points(self, plan, o, r):
        """(feasible points best first, infeasible points), computed from
        the definition."""
        if not o.cont:
            X, obj, bad = o.points()
            nb = bad.sum(axis=1)
            ok = np.where(nb <= o.k)[0]
            order = ok[np.argsort(-obj[ok], kind="stable")]
            good = [(float(obj[i]), X[i]) for i in order]
            no = np.where(nb > o.k)[0]
            pick = [no[r.randrange(len(no))] for _ in range(3)] \
                if len(no) else []
            return good, [X[i] for i in pick]
        good = []
        outs = set()
        for _ in range(12):
            outs.add(tuple(sorted(r.sample(range(o.N), o.k))))
        best = o.best_keep()
        if best is not None:
            outs.add(tuple(s for s in range(o.N) if s not in best))
        for out in sorted(outs):
            keep = [s for s in range(o.N) if s not in out]
            x = o.lp_point(keep)
            if x is not None:
                good.append((o.obj(x), x))
                c2 = np.array([r.random() for _ in range(o.inst["n"])])
                x2 = o.lp_point(keep, c2)
                if x2 is not None:
                    good.append((o.obj(x2), x2))
        good.sort(key=lambda t: -t[0])
        no = []
        for _ in range(12):
            x = np.array([r.choice([0.0, r.random(), 1.0])
                          for _ in range(o.inst["n"])])
            if len(o.violated(x, 2e-2)) > o.k:
                no.append(x)
        return good, no[:3]

    def judge(self, plan, root):
        V = Viol()
        o = oracle(plan)
        r = random.Random("points|%s" % plan["seed"])
        good, no = self.points(plan, o, r)
        st = dict(part=None, probed=0)

        def probe(d):
            m = d["model"]
            obs = st["obs"]
            meth = obs.method
            lo = -math.inf
            if plan["kind"] != "milp" and meth is not None:
                lo = judge.num(getattr(meth, "vLB", -math.inf))
            # (subset costs are exact up to the solver's gap)
            better = [g for g in good if not
                      g[0] <= lo + (5e-3 if o.cont else
                                     5e-3 + 1.1e-4 * abs(g[0]))]
            take = better[:2] + [better[r.randrange(len(better))]
                                 for _ in range(2)] if better else []
            # a cutoff makes the solver discard what is worth less
            cut = float(m.getParamInfo("Cutoff")[2])
            if abs(cut) < GRB.INFINITY:
                lost = [g for g in better
                        if g[0] < cut - 1e-6 * max(1.0, abs(cut))]
                if lost:
                    V.add("improving_solution_cut_off",
                          "solver call %d has cutoff %r, which excludes a "
                          "feasible solution worth %r, lower bound %r"
                          % (d["k"], cut, lost[0][0], lo), x=lost[0][1])
                    return
            c = gworld.RealModel.copy(m)
            try:
                c.setParam("OutputFlag", 0)
                c.setParam("Cutoff", -GRB.INFINITY)
                c.setParam("FeasibilityTol",
                           1e-4 if plan["cont"] else 1e-6)
                c.setParam("IntFeasTol", 1e-9)
                c.setParam("TimeLimit", GRB.INFINITY)
                c.setParam("Threads", 1)
                vs = c.getVars()
                xs = [v for v in vs if v.VarName.startswith("x[")]
                if len(xs) != o.inst["n"]:
                    xs = vs[:o.inst["n"]]
                c.setObjective(gp.LinExpr(), GRB.MAXIMIZE)
                for v, x in take:
                    for t, xv in zip(xs, x):
                        t.LB = float(xv)
                        t.UB = float(xv)
                    c.optimize()
                    st["probed"] += 1
                    if c.Status in (GRB.INFEASIBLE, GRB.INF_OR_UNBD):
                        V.add("improving_solution_cut_off",
                              "solver call %d excludes a feasible solution "
                              "worth %r, lower bound %r" % (d["k"], v, lo),
                              x=np.asarray(x))
                        return
                part = st["part"]
                if plan["kind"] == "milp":
                    part = [[s] for s in range(o.N)]
                for x in no:
                    if part is None:
                        break
                    thr = 1e-2
                    if judge.violated_subsets(o, x, part, thr) <= o.k:
                        continue
                    for t, xv in zip(xs, x):
                        t.LB = float(xv)
                        t.UB = float(xv)
                    c.optimize()
                    if c.Status == GRB.OPTIMAL:
                        V.add("infeasible_solution_admitted",
                              "solver call %d admits a solution violating "
                              "more than %d subsets" % (d["k"], o.k),
                              x=np.asarray(x), partition=part)
                        return
            finally:
                c.dispose()

        def hook(sim, obs):
            st["obs"] = obs

            def ob(kind, d):
                if kind == "opt" and st["probed"] < 24 and \
                        is_cclp(d["model"]):
                    probe(d)
            sim.observers.append(ob)
            P = world.get("src.instance.PartitionChanceKnapInstance")
            AP = world.get("src.solver.AdaptivePartitioner")

            def loaded(self, a, kw, res):
                part = a[1] if len(a) > 1 else kw.get("partition")
                st["part"] = [list(c) for c in part]
            wrap(P, "load_partition", after=loaded)

            def enter(self, a, k):
                obs.method = self
            wrap(AP, "solve", before=enter)

        sim, obs = adaptive.run(plan, root, hook)
        sim.probe("models_probed", st["probed"])
        return Result(sim, V, st["probed"] > 0, self.note(sim, obs))


class C14(AdaptiveProp):
    id = "C14"
    fine_share = 0.4
    quick, thorough = 1600, 60000
    variants_per_base = 3
    big, odd = 0.03, 0.0
    rule = ("one simulated run (adaptive or MILP) with a failing or "
            "interrupted solver call, followed by a retry on the same "
            "instance in the same process; non-trivial when the fault fired;"
            " distinct by event-log digest")

    def gen(self, r):
        kind = r.choice(["adaptive", "adaptive", "milp"])
        p = adaptive.gen_plan(r, kind, big=self.big, odd=0.0)
        p["map"] = 1
        if kind == "milp":
            p["log"] = r.random() < 0.5
        return p

    def variants(self, plan, base, r):
        for _ in range(self.variants_per_base):
            p = copy.deepcopy(plan)
            p.pop("map", None)
            kinds = r.choice([["grberr"], ["grberr"], ["sigint_opt"],
                              ["sigint_call"], ["timeout"], ["memerr"], []])
            p["faults"] = place_faults(r, p, base, kinds, 1) if kinds else []
            if not kinds or r.random() < 0.2:
                p["limit"] = r.choice([0, 0.0, 1e-3, round(
                    base.simtime * r.random(), 4)])
            p["retry"] = 1
            yield p

    def judge(self, plan, root):
        V = Viol()
        o = oracle(plan)
        limited = []

        def hook(sim, obs):
            def ob(kind, d):
                if kind == "opt" and d["limit"] < GRB.INFINITY:
                    limited.append(d["k"])
            sim.observers.append(ob)
            AP = world.get("src.solver.AdaptivePartitioner")
            MS = world.get("src.solver.MilpSolver")

            def enter(self, a, k):
                if obs.method is None:
                    obs.method = self
            wrap(AP, "solve", before=enter)
            wrap(MS, "solve", before=enter)

        sim, obs = adaptive.run(
            plan, root, hook, bound_log=(root + "/bounds.csv")
            if plan.get("log") and plan["kind"] == "milp" else None)
        m = obs.method
        f = sim.fired
        hit = [k for k in ("solver_error", "solver_interrupted", "sigint",
                          "memory_error")
               if f.get(k)]
        if hit and obs.end == "done":
            V.add("failure_swallowed", "%s, yet the run returned normally"
                  % hit[0])
        if f.get("solver_error") and obs.end == "error" and \
                not (obs.exc or "").startswith(("GurobiError",
                                                "MemoryError")):
            V.add("failure_masked", "solver error surfaced as %s" % obs.exc)
        if not hit and obs.end not in ("done",):
            V.add("run_failed", "undisturbed run ended with %s %s"
                  % (obs.end, obs.exc))
        if m is not None:
            check_bounds(V, o, getattr(m, "vLB", -math.inf),
                         getattr(m, "vUB", math.inf), "after the failure")
            if obs.end != "done" or plan["kind"] != "milp":
                check_incumbent(V, o, getattr(m, "xLB", None),
                                getattr(m, "vLB", -math.inf),
                                "after the failure")
        if obs.retry is not None:
            q = obs.retry
            if q.end != "done":
                V.add("retry_failed", "retry ended with %s %s"
                      % (q.end, q.exc))
            else:
                sim.probe("retry_completed")
                check_optimal(V, o, q.method, plan["gap"])
        return Result(sim, V, bool(sim.fired), self.note(sim, obs, limited))


class C10(AdaptiveProp):
    id = "C10"
    hashseeds = True
    quick, thorough = 1400, 60000
    variants_per_base = 1
    big, odd = 0.03, 0.0
    rule = ("three or four executions of one plan per case: fresh process "
            "image; other clock speeds, wall-clock steps and numpy random "
            "state; same process after another (also cut-off, failed or "
            "interrupted) solve; same instance object again; each also "
            "repeated under another PYTHONHASHSEED; compared model by model; non-trivial when at "
            "least five models were solved; distinct by event-log digest")

    def gen(self, r):
        if r.random() < 0.15:
            from . import script_props
            p = script_props.gen_main(r, big=0.02, odd=0.0)
            p.update(trace=1, py_seed2=r.randrange(10 ** 6),
                     speed=r.choice([0.01, 0.3, 3.0]), rel=r.random() < 0.5,
                     jumpy=[[round(r.random() * 20, 3),
                             r.choice([-86400.0, -30.0, 30.0, 86400.0])]
                            for _ in range(r.randint(0, 3))])
            p["clock"]["opt_mean"] = 0.2
            p["host2"] = self.host(r)
            return p
        kind = r.choice(["adaptive", "adaptive", "adaptive", "milp"])
        p = adaptive.gen_plan(r, kind, big=self.big, odd=0.0)
        p["trace"] = 1
        p["limit"] = 10 ** 9
        # on the slower machine the limit is just not reached
        p["tight"] = r.choice([0, 0, 0, 1.005, 1.1, 2.0])
        other = adaptive.gen_plan(r, r.choice(["adaptive", "milp"]),
                                  big=0.0, odd=0.0)
        other["opt_budget"] = 300
        u = r.random()
        if u < 0.25:
            other["limit"] = r.choice([0, 1e-3, 0.6, 2.5])
        elif u < 0.5:
            other["faults"] = [dict(on="opt", n=r.randint(1, 8),
                                    do=r.choice(["grberr", "sigint"]))]
        p["other"] = other
        p["jumpy"] = [[round(r.random() * 20, 3),
                       r.choice([-86400.0, -30.0, 30.0, 86400.0])]
                      for _ in range(r.randint(0, 3))]
        p["speed"] = r.choice([0.01, 0.3, 7.0, 400.0])
        p["np_seed2"] = r.randrange(10 ** 6)
        p["again"] = r.random() < 0.5
        p["host2"] = self.host(r)
        return p

    @staticmethod
    def host(r):
        return dict(cpus=r.choice([1, 2, 3, 64]), pid=r.randrange(2, 40000),
                    load=round(r.random() * 20, 2))

    def variants(self, plan, base, r):
        return []

    @staticmethod
    def state(obs):
        m = obs.method

        def g(n):
            v = getattr(m, n, None)
            if isinstance(v, np.ndarray):
                return tuple(round(float(t), 9) for t in v)
            return v
        log = None
        inf = getattr(m, "informer", None)
        if inf is not None:
            log = [[c for j, c in enumerate(row) if j != 1]
                   for row in getattr(inf, "iteration_info", [])]
        return dict(end=obs.end, exc=obs.exc, vLB=g("vLB"), vUB=g("vUB"),
                    xLB=g("xLB"), iteration=g("iteration"), log=log,
                    partition=getattr(m, "partition", None))

    @staticmethod
    def data(ci):
        return [np.array(ci.get_matrices_A()), np.array(ci.get_vectors_b()),
                np.array(ci.get_vector_c()), np.array(ci.get_proba()),
                np.array([ci.get_epsilon(), ci.get_nb_scenarios(),
                          ci.get_nb_vars()])]

    def whole(self, plan, root):
        """main.py twice: the same files, times apart."""
        from . import script
        V = Viol()
        jumpy = copy.deepcopy(plan)
        jumpy["clock"] = dict(plan["clock"],
                              opt_mean=plan["clock"]["opt_mean"]
                              * plan["speed"],
                              tick=plan["clock"]["tick"] * plan["speed"],
                              t0=12345.678, jumps=plan["jumpy"])
        jumpy["host"] = plan["host2"]
        # whatever the ambient random state: the script seeds its own
        jumpy["py_seed"] = plan["py_seed2"]
        out = []
        for p in (plan, jumpy):
            script.wipe(root)
            s, ob = script.run_main(p, root)
            got = {}
            for nm, data in script.files(root).items():
                lines = [x.split(",") for x in
                         data.decode("utf-8", "replace").splitlines()]
                if nm.endswith("-iter.csv"):
                    t = [0] if plan["method"] in (1, 2) else [1]
                else:
                    t = [-4] + ([10] if plan["method"] in (1, 2) else [])
                for x in lines:
                    for c in t:
                        if -len(x) <= c < len(x):
                            x[c] = "t"
                got[nm] = lines
            out.append((s, ob, got))
        (s1, o1, g1), (s2, o2, g2) = out
        if s1.trace != s2.trace:
            V.add("history_differs", "main.py asks the solver other "
                  "questions under another clock and ambient random state")
        if o1.end != o2.end:
            V.add("result_differs", "main.py ends with %s, then %s"
                  % (o1.end, o2.end))
        if g1 != g2:
            for nm in sorted(set(g1) | set(g2)):
                if g1.get(nm) != g2.get(nm):
                    V.add("result_differs", "%s differs: %r / %r"
                          % (nm, str(g1.get(nm))[-300:],
                             str(g2.get(nm))[-300:]))
        s1.probe("whole_script_pairs")
        res = Result(s1, V, len(s1.trace) >= 5, dict(end=o1.end, exc=o1.exc))
        res.absorb(Result(s2))
        res.note["cmp"] = core.hashlib.sha256(
            repr((s1.trace, sorted(g1.items()))).encode()).hexdigest()
        return res

    def judge(self, plan, root):
        if plan["kind"] == "script":
            return self.whole(plan, root)
        V = Viol()
        base, jumpy = dict(plan), copy.deepcopy(plan)
        snap = {}

        def loaded(ci):
            snap["d"] = [t.copy() for t in C10.data(ci)]

        jumpy["clock"] = dict(plan["clock"],
                              opt_mean=plan["clock"]["opt_mean"]
                              * plan["speed"],
                              tick=plan["clock"]["tick"] * plan["speed"],
                              t0=12345.678, jumps=plan["jumpy"])
        jumpy["host"] = plan["host2"]
        # only the generator of the random module is seeded by the user
        jumpy["np_seed"] = plan["np_seed2"]
        tried = []
        if plan.get("tight"):
            for p in (base, jumpy):
                s, ob = adaptive.run(p, root)
                tried.append((s, ob.t_end - ob.t0_lo))
            base["limit"] = jumpy["limit"] = round(
                plan["tight"] * max(t for _, t in tried) + 0.01, 3)
        s1, o1 = adaptive.run(base, root, loaded=loaded)
        if o1.ci is not None and "d" in snap:
            for nm, a, b in zip(("constraints", "right-hand sides",
                                 "objective", "probabilities",
                                 "parameters"), snap["d"], C10.data(o1.ci)):
                if a.shape != b.shape or not np.array_equal(a, b):
                    V.add("instance_data_altered", "the solve altered the "
                          "instance's %s" % nm)
        s2, o2 = adaptive.run(jumpy, root)
        s0, _ = adaptive.run(plan["other"], root)
        s3, o3 = adaptive.run(base, root, fresh=False)
        more = [("another clock", s2, o2),
                ("an earlier solve in the process", s3, o3)]
        if plan["again"] and o3.ci is not None:
            s4, o4 = adaptive.run(base, root, fresh=False, ci=o3.ci)
            more.append(("an earlier solve of the same instance object",
                         s4, o4))
        a = self.state(o1)
        for what, s, ob in more:
            if plan.get("tight") and "solver_time_limit" in s.fired:
                s.probe("limit_reached_after_all")
                continue
            b = self.state(ob)
            if s.trace != s1.trace:
                j = next((i for i, (p, q) in enumerate(
                    zip(s1.trace, s.trace)) if p != q),
                    min(len(s.trace), len(s1.trace)))
                V.add("history_differs", "solver call %d differs under %s"
                      % (j + 1, what))
            for key in a:
                if a[key] != b[key]:
                    V.add("result_differs", "%s differs under %s: %r / %r"
                          % (key, what, a[key], b[key]))
                    break
        res = Result(s1, V, len(s1.trace) >= 5, self.note(s1, o1))
        for s in [s0] + [q[1] for q in more] + [q[0] for q in tried]:
            res.absorb(Result(s))
        res.note["cmp"] = core.hashlib.sha256(
            repr((s1.trace, sorted(a.items(), key=str))).encode()
        ).hexdigest()
        return res
