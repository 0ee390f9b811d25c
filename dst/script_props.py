"""Properties decided on simulated runs of the command-line scripts."""
import copy
import csv
import io
import math
import os
import random
import re

import numpy as np
from gurobipy import GRB

from . import adaptive, core, gworld, judge, script, world
from .adaptive import wrap
from .judge import Viol, num, oracle
from .runner_base import Prop, Result, place_faults

LIMIT = 3600.0
REAL = ["main.py", "export_results.py", "instance-generator.py", "src/*",
        "compiled violations kernel", "Gurobi arithmetic",
        "Python csv and file objects"]
STUB = ["clock", "signals and alarm", "duration, truncation, failure and "
        "choice among optima of solver calls", "raw file writes and "
        "directory operations (faults injected, then the real call)",
        "random draws"]


def gen_main(r, big=0.03, odd=0.03, method=None):
    p = dict(kind="script", seed=r.randrange(10 ** 9))
    adaptive.gen_problem(r, p, big=big, odd=0.0, wide=0.006, huge=False)
    if r.random() < odd:
        N, eps, _ = r.choice(adaptive.ODD)
        p["inst"] = world.gen_instance(r, p["cont"], N=N, n=3, m=1)
        p["eps"] = eps
    p.update(method=method or r.choice([1, 2, 3, 4]), ties=r.random() < 0.5,
             loose=r.random() < 0.3, py_seed=r.randrange(10 ** 6),
             clock=dict(opt_mean=0.5, opt_spread=r.choice([0.2, 0.9]),
                        tick=1e-3, pytick=1e-5), faults=[])
    N, m = p["inst"]["N"], p["inst"]["m"]
    p["opt_budget"] = 3 * (N + 2) * (N * m + 3 * N + 10)
    p["budget"] = 3_000_000
    return p


def at_deadline(r, p, base, share=None):
    """Let the time limit of one hour strike somewhere inside the run."""
    nopt = max(1, base.n.get("opt", 1))
    ncall = max(1, base.n.get("call", 1))
    frac = r.choice([r.uniform(0.02, 1.1), r.uniform(0.9, 1.1)])
    c = dict(p["clock"])
    if share is None:
        share = r.choice([0.0, 0.2, 1.0])
    c["opt_mean"] = max(0.1, (1 - share) * LIMIT / (nopt * frac))
    c["pytick"] = max(1e-5, share * LIMIT / (ncall * frac))
    p["clock"] = c
    return p


def parse_rows(data):
    return list(csv.reader(io.StringIO(data.decode("utf-8"))))


COLS = {1: 15, 2: 15, 3: 18, 4: 18}


def check_row(V, plan, o, data, sim, obs, early, exact):
    """One complete and truthful result row?"""
    m = plan["method"]
    try:
        rows = parse_rows(data)
    except Exception as e:
        V.add("row_unreadable", "row file: %s" % e)
        return None
    if len(rows) != 1 or not data.endswith(b"\n"):
        V.add("not_one_row", "%d rows in the result file: %r"
              % (len(rows), data[-200:]))
        return None
    row = rows[0]
    if len(row) != COLS[m]:
        V.add("wrong_number_of_columns", "%d columns, method %d: %r"
              % (len(row), m, row))
        return None
    i = plan["inst"]
    want = [script.instance_name(plan), i["n"], i["m"],
            i["N"], int(plan["cont"]), plan["eps"], LIMIT, 0.01]
    got = [row[0]] + [num(v) for v in row[1:8]]
    for j, (w, g) in enumerate(zip(want, got)):
        ok = w == g if j == 0 else (
            g is not None and abs(w - g) <= (5.1e-4 if j >= 5 else 0))
        if not ok:
            V.add("wrong_column", "column %d is %r, should be %r"
                  % (j + 1, row[j], w))
            return None
    vals = [num(v) for v in row[1:]]
    if any(v is None for v in vals):
        V.add("row_unreadable", "columns are not numbers: %r" % (row,))
        return None
    code = vals[7]
    if m in (1, 2):
        codes = [int(code), int(vals[8])]
        if codes != [1, {1: 3, 2: 2}[m]]:
            V.add("wrong_method_parameters", "method %d recorded as %r"
                  % (m, codes))
    else:
        codes = [int(v) for v in vals[8:11]]
        if codes != {3: [2, 2, 5], 4: [3, 3, 5]}[m]:
            V.add("wrong_method_parameters", "method %d recorded as %r"
                  % (m, codes))
        if code != 1 and not early:
            V.add("wrong_method_parameters", "big M recorded as %r" % code)
    t, lo, hi, gap = vals[-4:]
    v = o.value()
    if not lo <= v + judge.tol(v) + 6e-4:
        V.add("row_lower_bound_too_large", "row claims %r, optimum %r"
              % (lo, v))
    if not hi >= v - judge.tol(v) - 6e-4:
        V.add("row_upper_bound_too_small", "row claims %r, optimum %r"
              % (hi, v))
    if (abs(lo) > 1e9 or lo < -0.01) and lo != -math.inf or \
            abs(hi) > 1e9 and hi != math.inf:
        V.add("row_made_up_bound", "bounds %r, %r" % (lo, hi))
    if lo == -math.inf or hi == math.inf:
        if gap != math.inf:
            V.add("gap_does_not_match_bounds", "gap %r with bounds %r, %r"
                  % (gap, lo, hi))
    elif lo > 0.05:
        g = (hi - lo) / lo * 100
        slack = 0.0011 / lo * (1 + hi / lo) * 100 + 0.0011
        if not abs(gap - g) <= slack:
            V.add("gap_does_not_match_bounds", "gap %r with bounds %r, %r"
                  % (gap, lo, hi))
    elif abs(lo) <= 6e-4 and hi > 0.01:
        if not gap > 50:
            V.add("gap_does_not_match_bounds", "gap %r with bounds %r, %r"
                  % (gap, lo, hi))
    elif abs(lo) <= 1e-9 and abs(hi) <= 1e-9:
        if gap != 0 and gap != math.inf and gap == gap and abs(gap) > 0.01:
            V.add("gap_does_not_match_bounds", "gap %r with bounds %r, %r"
                  % (gap, lo, hi))
    if gap != gap:
        V.add("gap_does_not_match_bounds", "gap is nan")
    tick = sim.tick
    c_lo = obs.t_last_opt - obs.t0 - 20 * tick - 2e-3 \
        if obs.t_last_opt else 0.0
    c_hi = obs.t_end - obs.t0_lo + 2e-3
    if not (t >= 0 and c_lo <= t <= c_hi):
        V.add("wrong_elapsed_time", "row claims %r s, elapsed between %.4f "
              "and %.4f s" % (t, c_lo, c_hi))
    if m in (1, 2):
        bt = vals[9]
        hi_t = (obs.t_cclp or obs.t_end) - obs.t0_lo + 2e-3
        lo_t = min(LIMIT, (obs.t_bigm or obs.t0) - obs.t0) - 20 * tick - 2e-3
        if not (bt >= 0 and lo_t <= bt <= hi_t):
            V.add("wrong_big_m_time", "big-M time %r, elapsed between %.4f "
                  "and %.4f s" % (bt, lo_t, hi_t))
    else:
        if vals[11] < 0 or not (1 <= vals[12] <= i["N"]) or \
                vals[12] <= o.k:
            V.add("wrong_column", "iterations %r, subsets %r"
                  % (row[12], row[13]))
    if exact:
        if not (abs(lo - v) <= judge.tol(v) + 2e-4 * abs(v) + 6e-4
                and abs(hi - v) <= judge.tol(v) + 2e-4 * abs(v) + 6e-4):
            V.add("finished_without_optimum", "undisturbed run recorded "
                  "bounds %r, %r, optimum %r" % (lo, hi, v))
        if not (gap <= 0.011 or abs(v) <= 1e-9):
            V.add("finished_without_optimum", "undisturbed run recorded "
                  "gap %r %%" % gap)
    return vals


def other_digits(data):
    """Another version of a result file, of the same size: the digits of
    all numbers but the first entry are changed."""
    first, sep, rest = data.partition(b",")
    return first + sep + rest.translate(bytes.maketrans(
        b"0123456789", b"4715863290"))


def leftover(plan):
    """What an earlier run of the same experiment left behind."""
    old = plan.get("stale")
    if not old:
        return {}
    if isinstance(old, dict):
        return {k: v.encode("latin-1") for k, v in old.items()}
    rowf, logf = script.main_names(plan)
    return {rowf: b"old,1,2\r\nold,3\r\n",
            logf: b"0,0,0\r\n1,5.0,9,9\r\n"}


class Main(Prop):
    real, stub = REAL, STUB
    methods = None
    kinds = ["sigint_call", "sigint_opt", "timeout", "timeout", "slow",
             "pause", "jump", "grberr", "memerr"]

    def gen(self, r):
        p = gen_main(r, method=r.choice(self.methods)
                     if self.methods else None)
        p["map"] = 1
        p["stale"] = r.random() < 0.3
        if r.random() < 0.15:
            p["name"] = script.gen_name(r)
            if r.random() < 0.4:
                p["folder"] = r.choice(["data.v1", "my data/knap.sack"])
        if r.random() < 0.3:
            p["rel"] = 1
        return p

    def variants(self, plan, base, r):
        for j in range(self.variants_per_base):
            p = copy.deepcopy(plan)
            p.pop("map", None)
            p["seed"] = r.randrange(10 ** 9) if r.random() < 0.3 \
                else plan["seed"]
            if r.random() < 0.6:
                at_deadline(r, p, base)
                if r.random() < 0.3:
                    p["faults"] = place_faults(
                        r, p, base, r.sample(["pause", "jump", "slow",
                                              "timeout"], 2))
            else:
                p["faults"] = place_faults(
                    r, p, base, r.sample(self.kinds, r.randint(1, 3)))
            for f in p["faults"]:
                if f["do"] == "pause" and r.random() < 0.3:
                    # suspended for about as long as the run may take
                    f["dt"] = round(LIMIT * r.choice([0.6, 1.0, 1.4])
                                    * r.random(), 3)
            if r.random() < 0.1:
                p["skew"] = 1e-3
            setup = [v[0] for k, v in sorted(
                (base.note.get("callmap") or {}).items())
                if k.endswith(".__init__")]
            if setup and r.random() < 0.08:
                # suspended while it sets up, until the time is gone
                p["faults"] = [dict(on="call", n=r.choice(setup), do="pause",
                                    dt=round(LIMIT * r.uniform(0.8, 1.3), 3))]
            elif base.n.get("io") and r.random() < 0.12:
                # the disk is slow when the files are written
                p["faults"] = p["faults"][:1] + [dict(
                    on="io", n=max(1, base.n["io"] - r.randint(0, 8)),
                    do="pause", dt=round(r.choice([1, 5, 60])
                                         * r.uniform(0.5, 1.5), 3))]
            elif base.note.get("out") and r.random() < 0.08:
                # the same experiment was run before, with another outcome
                p = copy.deepcopy(plan)
                p.pop("map", None)
                p["stale"] = base.note["out"]
            yield p

    def watch(self, V, plan, st):
        """Observers shared by the checks of one run of main.py."""
        def hook(sim, obs):
            obs.t_last_opt = obs.t_cclp = obs.t_bigm = obs.t_solve = None
            obs.limited = []
            obs.late = []

            def ob(kind, d):
                m = d["model"]
                cclp = m.ModelName == "CCLP"
                if kind == "opt":
                    if d["limit"] < GRB.INFINITY:
                        obs.limited.append(d["k"])
                    if cclp and obs.t_cclp is None:
                        obs.t_cclp = sim.mono
                    if obs.t_solve is not None and sim.mono > 1.0 + \
                            max(obs.t0 + LIMIT, obs.t_solve) + st["slack"]:
                        obs.late.append((d["k"], round(
                            sim.mono - obs.t0 - LIMIT, 3)))
                else:
                    obs.t_last_opt = sim.mono
                    if obs.t_cclp is None:
                        obs.t_bigm = sim.mono
            sim.observers.append(ob)
            if plan["method"] in (3, 4):
                AP = world.get("src.solver.AdaptivePartitioner")

                def enter(self, a, k):
                    obs.t_solve = sim.mono
                    obs.method = self
                wrap(AP, "solve", before=enter)
        return hook

    def run(self, V, plan, root):
        script.wipe(root)
        st = dict(slack=40 * (plan["clock"]["pytick"]
                              + plan["clock"]["tick"])
                  + sum(float(f["dt"]) for f in plan["faults"]
                        if f["do"] == "pause"))
        rowf, logf = script.main_names(plan)
        old = leftover(plan)
        if old:
            script.put(root, old)
        sim, obs = script.run_main(plan, root, self.watch(V, plan, st))
        got = script.files(root)
        obs.out = None
        if plan.get("map") and obs.end == "done" and all(
                nm in got and len(got[nm]) < 20000
                and other_digits(got[nm]) != got[nm] for nm in (rowf, logf)):
            obs.out = {nm: other_digits(got[nm]).decode("latin-1")
                       for nm in (rowf, logf)}
        return sim, obs, got

    def note(self, sim, obs):
        return dict(end=obs.end, exc=obs.exc, callmap=sim.callmap, hot=sim.hot,
                    limited=obs.limited, out=obs.out)


class C06(Main):
    id = "C06"
    fine_share = 0.3
    quick, thorough = 1500, 50000
    variants_per_base = 3
    rule = ("one simulated run of main.py per case (method, instance, "
            "epsilon, clock, faults generated; the one-hour limit strikes "
            "inside the run in over half of the variants); non-trivial when "
            "the alarm, the limit or another fault struck; distinct by "
            "event-log digest")

    def judge(self, plan, root):
        V = Viol()
        o = oracle(plan)
        sim, obs, got = self.run(V, plan, root)
        rowf, logf = script.main_names(plan)
        f = sim.fired
        disturbed = f.get("sigint") or f.get("solver_interrupted") \
            or f.get("solver_error") or f.get("memory_error")
        if obs.end == "stuck":
            V.add("no_termination", obs.exc)
        elif obs.end != "done" and not disturbed:
            V.add("script_failed", "main.py ended with %s %s"
                  % (obs.end, obs.exc))
        new = rowf in got and got[rowf] != leftover(plan).get(rowf)
        if obs.end == "done" and not new:
            V.add("no_result_row", "main.py ended normally without %s; "
                  "files: %r" % (rowf, sorted(got)))
        if obs.end == "done" and set(got) - {rowf, logf}:
            V.add("stray_files", "unexpected files %r"
                  % sorted(set(got) - {rowf, logf}))
        if new:
            cut = f.get("solver_time_limit") or f.get("alarm") or \
                sim.mono - obs.t0_lo >= LIMIT - 1e-6 or disturbed
            early = getattr(obs.method, "iteration", 0) == 0
            check_row(V, plan, o, got[rowf], sim, obs, early,
                      obs.end == "done" and not cut)
        if len(obs.late) > 0 and plan["method"] in (3, 4):
            V.add("ran_past_the_time_limit", "%d solver calls began after "
                  "the limit: %r" % (len(obs.late), obs.late[:4]))
        if new and obs.end == "done" and plan["method"] in (3, 4):
            self.count(V, got[rowf], got.get(logf))
            early = (obs.t_set or obs.t0_lo) + LIMIT - (
                sim.alarm_fired_at or sim.mono)
            row = [num(x) for x in parse_rows(got[rowf])[0]] \
                if not V else []
            v = o.value()
            near = judge.tol(v) + 1.1e-4 * abs(v) + 6e-4
            if row and not disturbed and \
                    not f.get("clock_skew") and early > 1e-3 and not (
                        abs(row[-3] - v) <= near and
                        abs(row[-2] - v) <= near):
                V.add("stopped_before_the_limit", "ended %.4f s before the "
                      "limit with bounds %r, %r, optimum %r"
                      % (early, row[-3], row[-2], v))
        if sim.mono - obs.t0 > LIMIT:
            sim.probe("ran_into_the_limit")
        nt = bool(f.get("alarm") or f.get("solver_time_limit") or disturbed
                  or f.get("pause"))
        return Result(sim, V, nt, self.note(sim, obs))


    @staticmethod
    def count(V, row, log):
        """The iterations of the row are those that were made."""
        try:
            n = float(parse_rows(row)[0][12])
            log = [float(x[0]) for x in parse_rows(log or b"")]
        except (ValueError, IndexError):
            return
        last = log[-1] if log else 0
        if not (last <= n <= last + 1):
            V.add("wrong_iteration_count", "row claims %d iterations, the "
                  "last one logged is number %d" % (n, last))


class C09(Main):
    id = "C09"
    fine_share = 0.3
    quick, thorough = 1500, 50000
    variants_per_base = 3
    kinds = ["sigint_opt", "sigint_opt", "timeout", "slow", "pause", "jump",
             "sigint_call"]
    rule = ("one simulated run of main.py per case; the iteration log or "
            "bound log it leaves is checked entry by entry against the "
            "bounds the simulated solver announced, the optimum and the "
            "result row; non-trivial when the log has at least two entries; "
            "distinct by event-log digest")

    def judge(self, plan, root):
        V = Viol()
        o = oracle(plan)
        sim, obs, got = self.run(V, plan, root)
        rowf, logf = script.main_names(plan)
        n = 0
        if logf in got and got[logf] != leftover(plan).get(logf):
            try:
                rows = [[float(v) for v in r] for r in parse_rows(got[logf])]
            except ValueError as e:
                V.add("log_unreadable", "%s: %s" % (logf, e))
                rows = None
            if rows is not None:
                n = len(rows)
                (self.check_bound_log if plan["method"] in (1, 2)
                 else self.check_iteration_log)(
                     V, plan, o, rows, got.get(rowf), sim, obs)
        else:
            sig = sim.fired.get("solver_interrupted")
            if obs.end == "done" or (
                    plan["method"] in (1, 2) and sig and
                    obs.end == "interrupted" and sim.trajectory is not None):
                V.add("log_missing", "no %s after a run that ended with %s"
                      % (logf, obs.end))
        return Result(sim, V, n >= 2, self.note(sim, obs))

    def common(self, V, plan, o, rows, c, t_end, slack):
        v = o.value()
        last = None
        for j, r in enumerate(rows):
            t, lo, hi = r[c], unknown(-r[c + 1]), unknown(-r[c + 2])
            if not (-1e-6 <= t <= t_end + slack):
                V.add("log_time_outside_run", "entry %d at %r s, run took "
                      "%.4f s" % (j + 1, t, t_end))
            if lo > v + judge.tol(v) + 6e-4 or hi < v - judge.tol(v) - 6e-4:
                V.add("log_bound_invalid", "entry %d claims [%r, %r], "
                      "optimum %r" % (j + 1, lo, hi, v))
            if last is not None:
                if t < last[0] - 1e-9:
                    V.add("log_time_decreases", "entry %d at %r after %r"
                          % (j + 1, t, last[0]))
                if lo < last[1] - 1.1e-3:
                    V.add("log_lower_bound_decreases", "entry %d: %r after "
                          "%r" % (j + 1, lo, last[1]))
                if hi > last[2] + 1.1e-3:
                    V.add("log_upper_bound_increases", "entry %d: %r after "
                          "%r" % (j + 1, hi, last[2]))
            last = (t, lo, hi)
        return last

    def check_bound_log(self, V, plan, o, rows, rowdata, sim, obs):
        if any(len(r) != 3 for r in rows):
            V.add("log_malformed", "rows of lengths %r"
                  % sorted({len(r) for r in rows}))
            return
        slack = 30 * sim.tick + 40 * sim.pytick + 1e-6 + sum(
            float(f["dt"]) for f in plan["faults"] if f["do"] == "pause")
        last = self.common(V, plan, o, rows, 0, obs.t_end - obs.t0_lo, slack)
        want = []
        for t, obj, bnd in sim.trajectory or []:
            if not want or want[-1][1:] != (obj, bnd):
                want.append((t, obj, bnd))
        if sim.tail_lost and len(rows) == len(want) - 1:
            want.pop()
        got = [(-r[1], -r[2]) for r in rows]
        if len(got) != len(want) or any(
                abs(a - w[1]) > 1e-9 * max(1, abs(w[1])) or
                abs(b - w[2]) > 1e-9 * max(1, abs(w[2]))
                for (a, b), w in zip(got, want)):
            V.add("log_differs_from_solver", "log %r, solver announced %r"
                  % (got[:8], [w[1:] for w in want[:8]]))
        else:
            for r, w in zip(rows, want):
                # once the budget is used up, its length may be given
                if not (min(w[0] - obs.t0, LIMIT) - slack <= r[0]
                        <= w[0] - obs.t0_lo + slack):
                    V.add("log_time_wrong", "entry logged at %r s, announced "
                          "at %.4f s" % (r[0], w[0] - obs.t0))
                    break
        if rowdata and obs.end == "done" and last:
            row = [num(x) for x in parse_rows(rowdata)[0]]
            if row[-3] is not None and \
                    row[-3] < last[1] - judge.tol(last[1]) - 1e-3 or \
                    row[-2] is not None and \
                    row[-2] > last[2] + judge.tol(last[2]) + 1e-3:
                V.add("log_disagrees_with_row", "last entry %r, row %r"
                      % (last, row[-4:]))
            if last[0] > row[-4] + 1e-3:
                V.add("log_disagrees_with_row", "last entry at %r s, row "
                      "claims %r s" % (last[0], row[-4]))

    def check_iteration_log(self, V, plan, o, rows, rowdata, sim, obs):
        if any(len(r) != 6 for r in rows):
            V.add("log_malformed", "rows of lengths %r"
                  % sorted({len(r) for r in rows}))
            return
        slack = 20 * sim.tick + 1e-3
        last = self.common(V, plan, o, rows, 1, obs.t_end - obs.t0_lo, slack)
        it = 0
        for j, r in enumerate(rows):
            if r[0] < it or r[0] < 1 or r[0] != int(r[0]):
                V.add("log_iteration_number", "entry %d has iteration %r "
                      "after %r" % (j + 1, r[0], it))
            it = r[0]
            if not (o.k < r[5] <= o.N):
                V.add("log_subsets", "entry %d has %r subsets, %d scenarios,"
                      " %d may be violated" % (j + 1, r[5], o.N, o.k))
            lo, hi, gap = -r[2], -r[3], r[4]
            if lo == -math.inf or hi == math.inf:
                ok = gap == math.inf
            elif lo > 0.05:
                g = (hi - lo) / lo * 100
                ok = abs(gap - g) <= 0.0011 / lo * (1 + hi / lo) * 100 + 2e-3
            else:
                ok = True
            if not ok:
                V.add("log_gap", "entry %d: gap %r with bounds %r, %r"
                      % (j + 1, gap, lo, hi))
        if rowdata and rows and obs.end == "done" and \
                rowdata != leftover(plan).get(script.main_names(plan)[0]):
            row = [num(x) for x in parse_rows(rowdata)[0]]
            if len(row) != 18:
                return
            t, lo, hi = row[-4:-1]
            if lo < last[1] - 2e-3 or hi > last[2] + 2e-3 or \
                    t < last[0] - 2e-3:
                V.add("log_disagrees_with_row", "last entry %r, row %r"
                      % (last, row[-4:]))
            cut = sim.fired.get("alarm") or sim.fired.get("sigint") or \
                sim.fired.get("solver_interrupted") or \
                sim.fired.get("solver_time_limit") or \
                sim.mono - obs.t0_lo >= LIMIT - 1e-6
            C06.count(V, rowdata, "".join(
                "%d\r\n" % r[0] for r in rows).encode())
            if not cut and obs.t_last_opt and \
                    last[0] < obs.t_last_opt - obs.t0 - slack - 2e-3:
                V.add("log_time_wrong", "last entry at %r s, the last solver"
                      " call ended after %.4f s"
                      % (last[0], obs.t_last_opt - obs.t0))
            if not cut:
                if row[12] != rows[-1][0] or row[13] != rows[-1][5] or \
                        abs(lo - last[1]) > 2e-3 + 2e-4 * abs(lo) or \
                        abs(hi - last[2]) > 2e-3:
                    V.add("log_disagrees_with_row", "finished: last entry %r"
                          ", row %r" % (rows[-1], row[12:]))
        if not rows and obs.end == "done" and not (
                sim.fired.get("alarm") or sim.fired.get("sigint") or
                sim.fired.get("solver_interrupted") or
                sim.mono - obs.t0_lo >= LIMIT - 1e-6):
            V.add("log_missing", "empty iteration log after a finished run")


def unknown(v):
    """The solver's +-1e100 stands for a bound it does not have."""
    return v if abs(v) < 1e99 else math.copysign(math.inf, v)


# --------------------------------------------------------------- C08: disk
class C08(Prop):
    id = "C08"
    fine_share = 0.3
    real, stub = REAL, STUB
    quick, thorough = 330, 12000
    variants_per_base = 9
    rule = ("one simulated command (main.py with each method, export or "
            "instance generation) per case with a kill, full disk, I/O "
            "error or short write at a chosen disk operation or program "
            "point, over an absent or older output, then the command again "
            "without faults; non-trivial when the fault struck; distinct by "
            "event-log digest")

    def gen(self, r):
        u = r.random()
        if u < 0.62:
            p = gen_main(r, big=0.0, odd=0.0, method=r.choice([1, 2, 3, 4]))
            p["what"] = "main"
            if r.random() < 0.2:
                p["clock"]["opt_mean"] = 3600.0 / r.choice([3, 10, 40])
        elif u < 0.82:
            p = gen_export(r)
            p["what"] = "export"
        else:
            p = gen_generator(r)
            p["what"] = "gen"
        p["old"] = r.random() < 0.6
        p["base_only"] = 1
        return p

    def command(self, plan, root):
        if plan["what"] == "main":
            sim, obs = script.run_main(plan, root, Main().watch(
                None, plan, dict(slack=0)))
            return sim, obs
        if plan["what"] == "export":
            script.put(root, {k: v.encode() for k, v in plan["rows"]})
            return script.run_export(plan, root, plan["consts"])
        sim, obs, _ = script.run_generator(plan, root)
        return sim, obs

    def outputs(self, plan, root):
        """Files under their final names."""
        if plan["what"] == "main":
            return {k: v for k, v in script.files(root).items()
                    if k.endswith(".csv")}
        if plan["what"] == "export":
            return {k: v for k, v in script.files(root, "results").items()
                    if k.endswith(".csv")}
        return {k: v for k, v in script.files(root, "gen").items()
                if k.endswith(".csv")}

    def sub(self, plan):
        return {"main": script.RESULTS, "export": "results",
                "gen": "gen"}[plan["what"]]

    def start(self, plan, root, old):
        script.wipe(root)
        if old:
            script.put(root, old, self.sub(plan))

    def judge(self, plan, root):
        V = Viol()
        clean = dict(plan, faults=[])
        first = dict(clean, seed=plan["seed"] + 1, py_seed=1)
        if plan["what"] == "main":
            first["clock"] = dict(plan["clock"], opt_mean=0.77)
        if plan["what"] == "export":
            # an earlier export of fewer results
            first["rows"] = plan["rows"][::2]
        old = {}
        if plan.get("old"):
            self.start(plan, root, {})
            s0, o0 = self.command(first, root)
            old = self.outputs(plan, root)
        # what a run without faults makes of this state
        self.start(plan, root, old)
        sim, obs = self.command(clean, root)
        new = self.outputs(plan, root)
        if obs.end != "done" or not new:
            V.add("fault_free_run_failed", "%s ended with %s %s"
                  % (plan["what"], obs.end, obs.exc))
            return Result(sim, V, False, dict(end=obs.end, exc=obs.exc))
        if plan.get("base_only"):
            self.over_other(V, plan, clean, root)
            return Result(sim, V, False, dict(end=obs.end, exc=obs.exc,
                                              io=list(iolog(sim))))
        self.start(plan, root, old)
        sim, obs = self.command(plan, root)
        if plan.get("power") is not None:
            core.power_loss(sim, plan["power"])
        got = self.outputs(plan, root)
        f = sim.fired
        where = "%s after %r" % (obs.end, dict(f))
        for nm in sorted(set(got) | set(old)):
            d = got.get(nm)
            if d is None:
                if nm in old:
                    V.add("previous_version_lost", "%s is gone, %s"
                          % (nm, where))
            elif d != old.get(nm) and d != new.get(nm) and \
                    not self.other_complete(plan, nm, d, new.get(nm), sim):
                V.add("partial_file", "%s holds %d bytes, neither the old "
                      "(%s) nor the new version (%s), %s"
                      % (nm, len(d), size(old.get(nm)), size(new.get(nm)),
                         where), content=d[:200].decode("utf-8", "replace"))
        # (what failed may be of no consequence, such as making a folder that
        # is there already: then the files are complete all the same)
        if (f.get("enospc") or f.get("eio")) and obs.end == "done" and (
                {"write", "fsync"} & set(sim.failed_ops)
                or set(got) != set(new) or any(
                    got[nm] == old.get(nm) != new[nm]
                    or got[nm] != new[nm] and not self.same(
                        plan, nm, got[nm], new[nm]) for nm in new)):
            V.add("write_error_not_reported", "the disk failed (%r) and the "
                  "command ended normally" % dict(f))
        if f.get("short_write") and not (f.get("enospc") or f.get("eio")) \
                and obs.end != "done" and not killed(f):
            V.add("short_write_fails", "a short write made the command end "
                  "with %s %s" % (obs.end, obs.exc))
        if obs.end == "done" and set(got) != set(new):
            V.add("output_missing", "files %r, expected %r"
                  % (sorted(got), sorted(new)))
        # again, without faults
        s2, o2 = self.command(clean, root)
        again = self.outputs(plan, root)
        if o2.end != "done":
            V.add("rerun_failed", "the command run again ended with %s %s "
                  "(first run: %s)" % (o2.end, o2.exc, where))
        else:
            for nm in sorted(set(again) | set(new)):
                if again.get(nm) != new.get(nm) and not self.same(
                        plan, nm, again.get(nm), new.get(nm)):
                    V.add("rerun_incomplete", "%s differs after running the "
                          "command again: %s instead of %s bytes (first "
                          "run: %s)" % (nm, size(again.get(nm)),
                                        size(new.get(nm)), where),
                          content=(again.get(nm) or b"")[:200].decode(
                              "utf-8", "replace"))
        hit = sum(v for k, v in f.items() if k.startswith("kill")
                  or k == "power_loss" or k in ("enospc", "eio", "short_write"))
        res = Result(sim, V, hit > 0, dict(end=obs.end, exc=obs.exc))
        res.sims = 3 + bool(plan.get("old"))
        res.simtime += s2.mono - 1000.0
        return res

    def over_other(self, V, plan, clean, root):
        """A version that stands there already, of the same size, makes no
        difference to what is written."""
        self.start(plan, root, {})
        _, o0 = self.command(clean, root)
        alone = self.outputs(plan, root)
        self.start(plan, root, {nm: other_digits(d)
                                for nm, d in alone.items()})
        _, o1 = self.command(clean, root)
        over = self.outputs(plan, root)
        for nm in sorted(alone):
            if o0.end == o1.end == "done" and over.get(nm) != alone[nm] \
                    and not self.same(plan, nm, over.get(nm), alone[nm]):
                V.add("earlier_version_kept", "%s: the command run over an "
                      "earlier version left %s, alone %s" % (
                          nm, size(over.get(nm)), size(alone[nm])))

    @staticmethod
    def times(plan, nm):
        """Columns that hold times, or None for the whole file."""
        if plan["what"] != "main":
            return ()
        if nm.endswith("-iter.csv"):
            return (0,) if plan["method"] in (1, 2) else (1,)
        return (-4, 10) if plan["method"] in (1, 2) else (-4,)

    def same(self, plan, nm, a, b):
        """Equal but for the times they record."""
        if a is None or b is None or not a.endswith(b"\n"):
            return False
        cols = self.times(plan, nm)
        if not cols:
            return False
        try:
            ra, rb = parse_rows(a), parse_rows(b)
            for r in ra + rb:
                for c in cols:
                    r[c] = ""
        except Exception:
            return False
        return ra == rb

    def other_complete(self, plan, nm, d, new, sim):
        # a pause or a late signal shifts only the recorded times
        if new is None:
            # e.g. the bound log of an interrupted solve: complete lines
            return False
        return self.same(plan, nm, d, new)

    def variants(self, plan, base, r):
        io = base.note.get("io") or []
        if not io:
            return
        writes = [n for n, op, _ in io if op != "ropen"]
        for j in range(self.variants_per_base):
            p = copy.deepcopy(plan)
            p.pop("base_only", None)
            n = r.choice(writes or [1])
            kind = r.choice(["kill", "kill", "kill", "enospc", "eio",
                             "short"])
            if plan["what"] == "main" and r.random() < 0.08:
                p["faults"] = [dict(on="call", do="kill", n=r.randint(
                    1, max(1, base.n["call"])))]
            else:
                p["faults"] = [dict(on="io", n=n, do=kind, frac=r.choice(
                    [0.0, 0.01, 0.3, 0.6, 0.99, 1.0]))]
                if r.random() < 0.15:
                    p["faults"].append(dict(
                        on="io", n=n + r.choice([1, 1, 2]),
                        do=r.choice(["kill", "eio", "enospc"]), frac=0.5))
            if r.random() < 0.25:
                # the machine goes down: at the fault or after the end
                p["power"] = r.choice([0.0, 0.5, 0.99])
                if r.random() < 0.3:
                    p["faults"] = []
                for f in p["faults"]:
                    f["do"] = "kill"
            yield p


def killed(f):
    return any(k.startswith("kill") for k in f)


def size(d):
    return "absent" if d is None else "%d bytes" % len(d)


def iolog(sim):
    return sim.iolog


# ------------------------------------------------------------- C07: export
EPS = [0.1, 0.2, 0.05, 0.29, 0.07, 0.58, 0.15, 0.57, 0.01, 0.14, 0.55, 0.5,
       0.28, 0.56]


def gen_export(r):
    ninst = r.choice([1, 1, 2, 3])
    names = r.sample(["ccmknap-10-10", "ccmknap-20-10", "ccmknap-40-30",
                      "ccmknap-6-10"], ninst)
    nb = r.choice([1, 2, 3, 5])
    scen = sorted(r.sample([5, 10, 500, 1000, 3000], r.choice([1, 2])))
    eps = r.sample(EPS, r.choice([1, 2, 2]))
    consts = dict(ALL_INSTANCES=names, NB_INSTANCES=nb, ALL_SCENARIOS=scen,
                  ALL_EPSILONS=eps)
    style = r.choice(["solved", "late", "mixed", "mixed", "mixed", "hard",
                      "near"])
    miss = r.choice([0.0, 0.0, 0.02, 0.2])
    rows = []
    for name in names:
        n, m = name.split("-")[1:]
        for s in scen:
            for j in range(1, nb + 1):
                for e in eps:
                    for c in (0, 1):
                        for meth in (1, 2, 3, 4):
                            if r.random() < miss:
                                continue
                            f = "%s-%d-%d-%s-%d-%d.csv" % (
                                name, s, j, "{:.0f}".format(e * 100), c,
                                meth)
                            rows.append((f, gen_row(
                                r, style, "%s-%d-%d" % (name, s, j), n, m,
                                s, c, e, meth)))
    return dict(kind="script", seed=r.randrange(10 ** 9), faults=[],
                consts=consts, rows=rows, clock=dict(tick=1e-3),
                budget=3_000_000)


def gen_row(r, style, name, n, m, s, c, e, meth):
    if style in ("solved", "late"):
        solved = True
    elif style == "hard":
        solved = r.random() < 0.2
    else:
        solved = r.random() < 0.7
    ub = r.uniform(10, 5000)
    if solved:
        # (solved in the very last moment, or just after it, counts too)
        t = r.choice([round(r.uniform(0, 60), 3), round(r.uniform(0, 3600),
                                                        3), 5.0]
                     + [round(3600 + r.uniform(0, 3), 3)] * (style == "late"))
        gap = r.choice([0.0, 0.0, -0.0, 0.009, 0.01])
        lb = ub
    else:
        t = round(3600 + r.uniform(0, 5), 3)
        gap = r.choice([round(r.uniform(0.011, 120), 3), 0.011, 7.5])
        lb = ub / (1 + gap / 100)
        if r.random() < 0.08:
            gap, lb = math.inf, -math.inf
    f3 = "{:.3f}".format
    head = [name, n, m, s, c, f3(e), "3600.000", "0.010"]
    tail = [f3(t), f3(lb), f3(ub), f3(gap)]
    if meth in (1, 2):
        mid = [1, {1: 3, 2: 2}[meth], r.choice(
            [r.uniform(0, 1), r.uniform(0, 3600), 0.0, 1e-05])]
    else:
        mid = [1, 2, 2, 5] if meth == 3 else [1, 3, 3, 5]
        mid += [r.randint(0, 400), r.randint(2, int(s))]
    return ",".join(str(v) for v in head + mid + tail) + "\r\n"


def expect_tables(consts, rows):
    """The tables as specified, from the rows (name -> list of columns)."""
    names, nb = consts["ALL_INSTANCES"], consts["NB_INSTANCES"]
    scen, eps = consts["ALL_SCENARIOS"], consts["ALL_EPSILONS"]

    def get(name, s, j, e, c, m):
        return rows.get("%s-%d-%d-%s-%d-%d.csv" % (
            name, s, j, "{:.0f}".format(e * 100), c, m))
    out = {}
    for name in names:
        label = "\\textsf{" + name.replace("ccmknap", "mk") + "}"
        table = []
        for si, s in enumerate(scen):
            line = [label if si == 0 else "", str(s)]
            for m, cs in ((1, (0, 1)), (2, (1,)), (2, (0,))):
                v = [get(name, s, j, e, c, m) for c in cs
                     for j in range(1, nb + 1) for e in eps]
                if any(x is None for x in v):
                    line.append("-")
                else:
                    line.append(("s", sum(x[10] for x in v) / len(v)))
            table.append(line)
        out[name + "-big-m-times.csv"] = table
        for c in (0, 1):
            table = []
            for ei, e in enumerate(eps):
                for si, s in enumerate(scen):
                    line = [label if (ei, si) == (0, 0) else "",
                            str(e) if si == 0 else "", str(s)]
                    score = []
                    for m in (1, 2, 3, 4):
                        v = [get(name, s, j, e, c, m)
                             for j in range(1, nb + 1)]
                        at = len(line)
                        if any(x is None for x in v):
                            line += ["-"] if m < 3 else ["nan", "nan"]
                            score.append((at, None, 0, math.inf))
                            continue
                        ok = sum(x[-1] <= 0.01 + 1e-7 for x in v)
                        if ok == nb:
                            t = sum(x[-4] for x in v) / nb
                            line.append(("s", t))
                            score.append((at, t, ok, math.inf))
                        else:
                            g = sum(x[-1] for x in v) / nb
                            line.append(("\\%%(%d)" % ok, g))
                            score.append((at, None, ok, g))
                        if m >= 3:
                            line.append(("", sum(x[-6] for x in v) / nb))
                    solved = [q for q in score if q[1] is not None]
                    if solved:
                        best = min(q[1] for q in solved)
                        bold = [q[0] for q in solved
                                if q[1] <= best + 1e-9]
                    else:
                        top = max(q[2] for q in score)
                        cand = [q for q in score if q[2] == top]
                        least = min(q[3] for q in cand)
                        bold = [q[0] for q in cand
                                if q[3] == least or q[3] <= least + 1e-9]
                    table.append((line, bold))
            out["%s-%d-result-table.csv" % (name, c)] = table
    return out


def cell_ok(want, got):
    if isinstance(want, str):
        return want == got
    suffix, v = want
    if not got.endswith(suffix):
        return False
    body = got[:len(got) - len(suffix)] if suffix else got
    g = num(body)
    if g is None:
        return False
    if v == math.inf or g == math.inf:
        return v == g
    if v != v or g != g:
        return v != v and g != g
    return abs(v - g) <= (0.00501 if suffix else 1e-6 * max(1, abs(v)))


def check_tables(V, consts, rows, got):
    want = expect_tables(consts, rows)
    for nm in sorted(want):
        if nm not in got:
            V.add("table_missing", "%s was not written" % nm)
            continue
        lines = parse_rows(got[nm])
        if len(lines) != len(want[nm]):
            V.add("table_malformed", "%s has %d lines, expected %d"
                  % (nm, len(lines), len(want[nm])))
            continue
        for li, (w, g) in enumerate(zip(want[nm], lines)):
            bold = None
            if isinstance(w, tuple):
                w, bold = w
            if len(g) != len(w):
                V.add("table_malformed", "%s line %d: %r" % (nm, li + 1, g))
                continue
            marked = []
            plain = []
            for x in g:
                if x.startswith("\\textbf{") and x.endswith("}"):
                    marked.append(len(plain))
                    x = x[len("\\textbf{"):-1]
                plain.append(x)
            for ci, (a, b) in enumerate(zip(w, plain)):
                if not cell_ok(a, b):
                    V.add("wrong_cell", "%s line %d column %d is %r, "
                          "expected %r" % (nm, li + 1, ci + 1, b, a),
                          line=g)
            if bold is not None and (len(marked) != 1
                                     or marked[0] not in bold):
                V.add("wrong_method_in_bold", "%s line %d: columns %r in "
                      "bold, expected one of %r" % (nm, li + 1, marked,
                                                    bold), line=g)


class C07(Prop):
    id = "C07"
    real, stub = REAL, STUB
    quick, thorough = 2200, 60000
    variants_per_base = 0
    rule = ("one campaign per case: experiments that finish, time out, "
            "crash or never run (generated rows, or the rows main.py itself "
            "leaves under faults), then export; every cell is recomputed; "
            "non-trivial when a table has an unsolved or missing experiment;"
            " distinct by the digest of the event log and tables")

    def gen(self, r):
        if r.random() < 0.1:
            return self.gen_campaign(r)
        return gen_export(r)

    def gen_campaign(self, r):
        cont = False
        n, m, N = r.choice([3, 4]), r.choice([1, 2]), r.choice([4, 5])
        nb = r.choice([1, 2])
        eps = r.sample([0.29, 0.57, 0.2, 0.55, 0.07, 0.5], r.choice([1, 2]))
        runs = []
        for j in range(1, nb + 1):
            inst = world.gen_instance(r, cont, n=n, m=m, N=N)
            for e in eps:
                for c in (0, 1):
                    for meth in (1, 2, 3, 4):
                        p = gen_main(r, method=meth)
                        p.update(inst=inst, eps=e, cont=bool(c), j=j)
                        u = r.random()
                        if u < 0.15:
                            p["clock"]["opt_mean"] = 3600 / r.choice(
                                [2, 5, 12])
                        elif u < 0.3:
                            p["faults"] = [r.choice([
                                dict(on="io", n=r.randint(2, 12),
                                     do=r.choice(["kill", "enospc"]),
                                     frac=0.5),
                                dict(on="opt", n=r.randint(1, 9),
                                     do="grberr"),
                                dict(on="call", n=r.randint(1, 900),
                                     do="kill")])]
                        elif u < 0.34:
                            p["skip"] = 1
                        runs.append(p)
        return dict(kind="campaign", seed=r.randrange(10 ** 9), runs=runs,
                    consts=dict(ALL_INSTANCES=["ccmknap-%d-%d" % (n, m)],
                                NB_INSTANCES=nb, ALL_SCENARIOS=[N],
                                ALL_EPSILONS=eps), faults=[],
                    clock=dict(tick=1e-3), budget=3_000_000)

    def judge(self, plan, root):
        V = Viol()
        script.wipe(root)
        sims = 0
        res = None
        if plan["kind"] == "campaign":
            for p in plan["runs"]:
                if p.get("skip"):
                    continue
                s, ob = script.run_main(p, root, Main().watch(
                    None, p, dict(slack=0)))
                part = Result(s)
                res = part if res is None else res.absorb(part)
                if ob.end == "done" and \
                        script.main_names(p)[0] not in script.files(root):
                    V.add("result_not_where_expected", "main.py wrote %r, "
                          "not %s" % (sorted(script.files(root)),
                                      script.main_names(p)[0]))
            rows = {}
            for nm, data in script.files(root).items():
                if nm.endswith(".csv") and not nm.endswith("-iter.csv"):
                    try:
                        (row,) = parse_rows(data)
                        rows[nm] = [row[0]] + [float(v) for v in row[1:]]
                        (row[-6], row[-4], row[-1])
                    except Exception as e:
                        V.add("torn_result", "%s: %r" % (nm, data[:100]))
        else:
            script.put(root, {k: v.encode() for k, v in plan["rows"]})
            rows = {}
            for nm, data in plan["rows"]:
                row = data.strip().split(",")
                rows[nm] = [row[0]] + [float(v) for v in row[1:]]
        sim, obs = script.run_export(plan, root, plan["consts"])
        if obs.end != "done":
            V.add("export_failed", "export ended with %s %s"
                  % (obs.end, obs.exc))
        else:
            got = {k: v for k, v in script.files(root, "results").items()}
            sim.digest.update(repr(sorted(got.items())).encode())
            check_tables(V, plan["consts"], rows, got)
        total = (len(plan["consts"]["ALL_INSTANCES"])
                 * plan["consts"]["NB_INSTANCES"]
                 * len(plan["consts"]["ALL_SCENARIOS"])
                 * len(plan["consts"]["ALL_EPSILONS"]) * 8)
        nt = len(rows) < total or any(r[-1] > 0.0101 for r in rows.values())
        if len(rows) < total:
            sim.probe("missing_experiment")
        if plan["kind"] == "campaign":
            sim.probe("end_to_end_campaign")
        out = Result(sim, V, nt, dict(end=obs.end, exc=obs.exc))
        if res is not None:
            out.absorb(res)
        return out


# ---------------------------------------------------------- C11: generator
def gen_generator(r):
    n, m = r.randint(1, 8), r.randint(1, 5)
    hi = r.choice([10, 100, 1000])
    frac = r.random() < 0.3

    long = frac and r.random() < 0.4

    def val(lo=0):
        if long:
            return r.choice([r.uniform(lo, hi), r.uniform(0.1, 1.0),
                             round(r.uniform(1e5, 1e7), 3),
                             r.randint(10 ** 6, 10 ** 9)])
        return round(r.uniform(lo, hi), 2) if frac else r.randint(lo, hi)
    A = [[val() if r.random() < 0.85 else 0 for _ in range(n)]
         for _ in range(m)]
    if r.random() < 0.15:
        A[r.randrange(m)][r.randrange(n)] = -r.randint(1, 20)
    g = dict(c=[val(1) for _ in range(n)], A=A,
             b=[val(1) for _ in range(m)], opt=r.choice([0, 0, 3800]),
             S=r.choice([1, 2, 3, 5, 8, 13, 40]), I=r.choice([1, 1, 2, 3]))
    if r.random() < 0.5:
        g["extreme"] = r.choice([0.02, 0.2, 0.7])
    if r.random() < 0.2:
        g["allfail"] = r.choice([0.2, 1.0])
    return dict(kind="script", seed=r.randrange(10 ** 9), gen=g, faults=[],
                py_seed=r.randrange(10 ** 6), clock=dict(tick=1e-3),
                budget=3_000_000)


class C11(Prop):
    id = "C11"
    real, stub = REAL, STUB
    quick, thorough = 20000, 600000
    variants_per_base = 0
    rule = ("one simulated run of the generator per case with the random "
            "draws decided by the simulator (tails of the distributions "
            "included), then each file loaded; non-trivial when a scenario "
            "has a failed item or a clipped coefficient; distinct by the "
            "digest of the files")

    def gen(self, r):
        return gen_generator(r)

    def judge(self, plan, root):
        V = Viol()
        script.wipe(root)
        g = plan["gen"]
        n, m, S = len(g["c"]), len(g["b"]), g["S"]
        sim, obs, draws = script.run_generator(plan, root)
        if obs.end != "done":
            V.add("generator_failed", "%s %s" % (obs.end, obs.exc))
            return Result(sim, V, False, dict(end=obs.end, exc=obs.exc))
        got = script.files(root, "gen")
        sim.digest.update(repr(sorted(got.items())).encode())
        want = ["ccmknap-%d-%d-%d-%d.csv" % (n, m, S, j)
                for j in range(1, g["I"] + 1)]
        if sorted(got) != sorted(want):
            V.add("wrong_files", "files %r, expected %r"
                  % (sorted(got), sorted(want)))
            return Result(sim, V, False, dict(end=obs.end, exc=obs.exc))
        zeros = 0
        A0 = np.array(g["A"], dtype=float)
        for j, nm in enumerate(want):
            try:
                rows = [[float(v) for v in r] for r in parse_rows(got[nm])]
            except ValueError as e:
                V.add("file_malformed", "%s: %s" % (nm, e))
                continue
            if len(rows) != 3 + S * m or \
                    any(len(r) != n for r in rows[1:-1]) or \
                    len(rows[-1]) != m:
                V.add("file_malformed", "%s: %d lines of lengths %r"
                      % (nm, len(rows), sorted({len(r) for r in rows})))
                continue
            if rows[0] != [n, m, S]:
                V.add("wrong_header", "%s: header %r" % (nm, rows[0]))
            if rows[1] != [float(v) for v in g["c"]] or \
                    rows[-1] != [float(v) for v in g["b"]]:
                V.add("not_the_source_problem", "%s: objective %r, right-"
                      "hand side %r" % (nm, rows[1], rows[-1]))
            A = np.array(rows[2:-1]).reshape(S, m, n)
            if (A < 0).any() or not np.isfinite(A).all():
                V.add("negative_coefficient", "%s: smallest coefficient %r"
                      % (nm, float(A.min())))
            fails = draws["fail"][j * n:(j + 1) * n]
            known = (len(draws["fail"]) == n * g["I"] and
                     all(f.shape == (S,) for f in fails))
            if known:
                F = np.array(fails).T.reshape(S, n) > 0
                if F.any():
                    sim.probe("failed_item", int(F.sum()))
                none = (A == 0).all(axis=1)
                if (A.transpose(0, 2, 1)[F] != 0).any() and not all(
                        any(none[f, i].all() for i in range(n))
                        for f in F.T):
                    V.add("failed_item_not_zero", "%s: a failed item has a "
                          "nonzero coefficient" % nm)
            zero = A == 0
            zeros += int(zero.sum())
            if not g.get("extreme"):
                big = A0 > 1.0
                if (A > np.maximum(A0, 0) * 1.9 + 1e-3).any():
                    V.add("not_the_source_problem", "%s: a coefficient is "
                          "far from its source" % nm)
                live = ~zero
                if (live & (A < A0 * 0.1)).any():
                    V.add("not_the_source_problem", "%s: a coefficient is "
                          "far from its source" % nm)
                # an item is zero everywhere or nowhere (where it counts)
                for s in range(S):
                    for i in range(n):
                        col = zero[s, big[:, i], i]
                        if col.any() and not col.all():
                            V.add("failed_item_not_zero", "%s: item %d of "
                                  "scenario %d is zero in some constraints "
                                  "only" % (nm, i, s))
            self.load(V, plan, root, nm, rows, n, m, S)
        return Result(sim, V, zeros > 0, dict(end=obs.end, exc=obs.exc))

    def load(self, V, plan, root, nm, rows, n, m, S):
        CI = world.get("src.instance.ChanceKnapInstance")
        r = random.Random(plan["seed"])
        cont = r.random() < 0.5
        eps = r.choice([0.1, 0.2, 0.05])
        try:
            ci = CI(os.path.join(root, "gen", nm), cont, eps)
            A = np.asarray(ci.get_matrices_A(), dtype=float)
            c = np.asarray(ci.get_vector_c(), dtype=float)
            b = np.asarray(ci.get_vectors_b(), dtype=float)
            p = np.asarray(ci.get_proba(), dtype=float)
            sizes = (ci.get_nb_vars(), ci.get_nb_scenarios(),
                     [ci.get_nb_constraints(s) for s in range(S)])
        except Exception as e:
            V.add("load_failed", "%s: %s: %s" % (nm, type(e).__name__, e))
            return
        if sizes != (n, S, [m] * S) or A.shape != (S, m, n) or \
                c.shape != (n,) or b.shape != (S, m):
            V.add("loaded_differently", "%s: sizes %r, shapes %r %r %r"
                  % (nm, sizes, A.shape, c.shape, b.shape))
            return
        want = np.array(rows[2:-1]).reshape(S, m, n)

        def off(x, y):
            return (np.abs(x - y) > 0.05 + 1e-6).any() or \
                (np.abs(x * 10 - np.round(x * 10)) > 1e-6).any()
        if off(A, want) or off(c, np.array(rows[1])) or \
                off(b, np.broadcast_to(rows[-1], (S, m))):
            V.add("loaded_differently", "%s: the numbers differ from those "
                  "in the file rounded to one decimal" % nm)
        if p.shape != (S,) or (np.abs(p - 1.0 / S) > 1e-12).any():
            V.add("loaded_differently", "%s: probabilities %r"
                  % (nm, p[:5]))
        if abs(ci.get_epsilon() - eps) > 0 or \
                bool(np.all(ci.get_var_type())) != cont or \
                ci.get_file_name() != nm[:-4]:
            V.add("loaded_differently", "%s: epsilon %r, types %r, name %r"
                  % (nm, ci.get_epsilon(), ci.get_var_type()[:2],
                     ci.get_file_name()))


# ------------------------------------------------- C17: damaged instances
def damage(r, data):
    """A torn, shortened, repeated or overwritten copy of a file."""
    kind = r.choice(["cut", "cut", "cut_line", "cut_line", "lose_lines",
                     "repeat_lines", "lose_bytes", "zero_bytes",
                     "repeat_bytes", "lose_last", "flip_bit", "garbage"])
    lines = data.split(b"\r\n")[:-1]
    n = len(data)
    if kind == "cut":
        return kind, data[:r.randrange(n)]
    if kind == "cut_line":
        return kind, b"\r\n".join(lines[:r.randrange(len(lines))]) + b"\r\n"
    if kind == "lose_last":
        return kind, b"\r\n".join(lines[:-1]) + b"\r\n"
    if kind in ("lose_lines", "repeat_lines"):
        a = r.randrange(len(lines))
        b = min(len(lines), a + r.choice([1, 1, 2, 5]))
        new = lines[:a] + lines[b:] if kind == "lose_lines" \
            else lines[:b] + lines[a:]
        return kind, b"\r\n".join(new) + b"\r\n"
    a = r.randrange(n)
    b = min(n, a + r.choice([1, 4, 16, 64]))
    if kind == "lose_bytes":
        return kind, data[:a] + data[b:]
    if kind == "zero_bytes":
        return kind, data[:a] + b"\0" * (b - a) + data[b:]
    if kind == "flip_bit":
        bit = 1 << r.choice([0, 1, 2, 3, 4, 5, 6, 7, 7, 7])
        return kind, data[:a] + bytes([data[a] ^ bit]) + data[a + 1:]
    if kind == "garbage":
        return kind, data[:a] + r.randbytes(b - a) + data[b:]
    return kind, data[:b] + data[a:]


def sound(data):
    """Do rows and columns match the header, everything being numbers?
    None when the header is not one the question makes sense for."""
    if data.count(b'"') > 1:
        return None
    try:
        text = data.decode("utf-8")
        lines = text.replace("\r\n", "\n").split("\n")
        if not lines[-1]:
            lines.pop()
        rows = [[float(v) for v in ln.split(",")] for ln in lines]
    except ValueError:
        return False
    if any(c in text for c in "_ \t\"'") or "\r" in text.replace("\r\n", ""):
        return None
    if not rows or len(rows[0]) < 3:
        return False
    n, m, S = rows[0][:3]
    if any(v != int(v) or v < 1 for v in (n, m, S)):
        return None
    return [len(x) for x in rows[1:]] == [n] * int(1 + S * m) + [m]


class C17(Main):
    id = "C17"
    quick, thorough = 2200, 80000
    variants_per_base = 4
    rule = ("one run of main.py per case on an instance file that was cut, "
            "lost or repeated lines or bytes, was overwritten in places, or whose "
            "reading fails or comes in pieces; non-trivial when the damage "
            "contradicts the header or a read failed; distinct by event-log "
            "digest and damage")

    def gen(self, r):
        p = gen_main(r, big=0.0, odd=0.0)
        # sizes where a row may be mistaken for another one
        if r.random() < 0.6:
            k = r.choice([1, 2, 3, 4, 5])
            p["inst"] = world.gen_instance(
                r, p["cont"], n=k, m=r.choice([k, k, 1]),
                N=p["inst"]["N"])
        p["stale"] = r.random() < 0.3
        p["readfaults"] = 1
        return p

    def variants(self, plan, base, r):
        data = csv_bytes(plan["inst"])
        reads = base.note.get("reads") or [1]
        for _ in range(self.variants_per_base):
            p = copy.deepcopy(plan)
            if r.random() < 0.7:
                kind, bad = damage(r, data)
                p["damage"], p["file"] = kind, bad.decode("latin-1")
            else:
                p["faults"] = [dict(on="io", n=r.choice(reads),
                                    do=r.choice(["eio", "eio", "short"]),
                                    frac=r.choice([0.01, 0.3, 0.9]))
                               for _ in range(r.choice([1, 1, 3]))]
            yield p

    def judge(self, plan, root):
        V = Viol()
        script.wipe(root)
        rowf, logf = script.main_names(plan)
        old = {}
        if plan.get("stale"):
            old = {rowf: b"old,1,2\r\n", logf: b"0,0,0\r\n"}
            script.put(root, old)
        raw = plan["file"].encode("latin-1") if "file" in plan else None
        sim, obs = script.run_main(plan, root, self.watch(
            None, plan, dict(slack=0)), raw)
        got = script.files(root)
        ok = True if raw is None else sound(raw)
        failed = sim.fired.get("read_error") or sim.fired.get("eio")
        if ok is False:
            sim.probe("damage_" + plan["damage"])
        if ok is False or failed:
            what = "the instance is damaged (%s)" % plan.get("damage") \
                if ok is False else "reading the instance failed"
            if obs.end == "done":
                V.add("damaged_instance_accepted", "%s and main.py ends "
                      "normally" % what, row=(got.get(rowf) or b"")[:200]
                      .decode("utf-8", "replace"))
            elif obs.end not in ("error", "exit"):
                V.add("damaged_instance_accepted", "%s and main.py ends "
                      "with %s %s" % (what, obs.end, obs.exc))
            if got != old:
                V.add("result_of_damaged_instance", "%s, yet %r appeared"
                      % (what, sorted(k for k in got
                                      if got[k] != old.get(k))))
        elif raw is None and obs.end != "done":
            V.add("script_failed", "main.py ended with %s %s after %r"
                  % (obs.end, obs.exc, dict(sim.fired)))
        elif raw is None:
            check_row(V, plan, oracle(plan), got.get(rowf, b""), sim, obs,
                      False, True)
        sim.digest.update(repr(raw).encode())
        reads = [k for k, op, _ in sim.iolog if op in ("read", "ropen")]
        return Result(sim, V, ok is False or bool(failed)
                      or bool(sim.fired.get("short_read")),
                      dict(end=obs.end, exc=obs.exc, reads=reads))


def csv_bytes(inst):
    out = [[inst["n"], inst["m"], inst["N"], 0], inst["c"]]
    out += [row for s in inst["A"] for row in s] + [inst["b"]]
    return "".join(",".join(repr(v) for v in row) + "\r\n"
                   for row in out).encode()


# --------------------------------------------- C18: experiments side by side
class C18(Main):
    id = "C18"
    quick, thorough = 550, 30000
    variants_per_base = 4
    rule = ("one command (main.py or export) per case while the file "
            "operations of one to three other experiments happen in between "
            "its own, in an order drawn by the simulator; non-trivial when "
            "another process acted between two file operations of the "
            "command; distinct by event-log digest and order")

    def gen(self, r):
        others = []
        a = gen_main(r, big=0.0, odd=0.0)
        a.update(kind="side", what="main", j=1, rel=r.random() < 0.5)
        small = dict(n=2, m=1, N=4)
        for j in range(r.choice([1, 1, 2, 3])):
            b = gen_main(r, big=0.0, odd=0.0)
            if r.random() < 0.5:    # same instance, something else differs
                b.update(inst=a["inst"], eps=a["eps"], cont=a["cont"], j=1,
                         method=a["method"] % 4 + 1 if r.random() < 0.7
                         else a["method"])
                if b["method"] == a["method"]:
                    b["cont"] = not a["cont"]
            else:
                b["inst"] = world.gen_instance(r, b["cont"], **small)
                b["eps"] = r.choice([0.1, 0.25, 0.5])
                b["j"] = j + 2
            others.append(b)
        names = [script.main_names(p)[0] for p in others + [a]]
        others = [b for k, b in enumerate(others)
                  if names.index(names[k]) == k and names[k] != names[-1]]
        a["others"] = others
        if r.random() < 0.3:
            a["what"] = "export"
            e = gen_export(r)
            # as many experiments finish while the export reads
            a["rows"], a["consts"] = e["rows"], e["consts"]
            a["late"] = sorted(r.sample(range(len(e["rows"])), min(
                len(e["rows"]), r.choice([1, 3, 10]))))
            # some of them are run again: an earlier result is there
            a["again"] = {}
            for k in a["late"]:
                if r.random() < 0.4:
                    nm = e["rows"][k][0]
                    inst, s, j, _, c, meth = nm[:-4].rsplit("-", 5)
                    n, m = inst.split("-")[1:]
                    a["again"][nm] = gen_row(
                        r, "mixed", "%s-%s-%s" % (inst, s, j), n, m, int(s),
                        int(c), e["consts"]["ALL_EPSILONS"][0], int(meth))
        a["folder_there"] = r.random() < 0.4
        return a

    def variants(self, plan, base, r):
        for _ in range(self.variants_per_base):
            p = copy.deepcopy(plan)
            p["order"] = r.randrange(10 ** 9)
            p["mode"] = r.choice(["spread", "burst", "burst", "early"])
            yield p

    def effects(self, plan, root):
        """Lists of file operations, one per other process."""
        out = []
        if plan["what"] == "export":
            d = os.path.join(os.path.realpath(root), script.RESULTS)
            for j in plan["late"]:
                nm, data = plan["rows"][j]
                out.append([
                    ("open", d + nm + ".tmp", b""),
                    ("write", d + nm + ".tmp", data[:20].encode()),
                    ("write", d + nm + ".tmp", data[20:].encode()),
                    ("replace", d + nm + ".tmp", d + nm)])
            return out
        for b in plan["others"]:
            script.wipe(root)
            box = {}
            watch = self.watch(None, b, dict(slack=0))

            def hook(sim, obs):
                watch(sim, obs)
                sim.effects = box["e"] = []
            script.run_main(b, root, hook)
            out.append(box["e"])
        return out

    def start(self, plan, root):
        script.wipe(root)
        if plan["what"] == "export":
            late = set(plan["late"])
            script.put(root, {k: v.encode() for j, (k, v) in
                              enumerate(plan["rows"]) if j not in late})
            script.put(root, {k: v.encode()
                              for k, v in plan.get("again", {}).items()})
        elif plan.get("folder_there"):
            script.put(root, {})

    def command(self, plan, root, hook):
        if plan["what"] == "export":
            return script.run_export(plan, root, plan["consts"], hook)
        watch = self.watch(None, plan, dict(slack=0))

        def both(sim, obs):
            watch(sim, obs)
            hook(sim, obs)
        return script.run_main(plan, root, both)

    @staticmethod
    def alike(nm, a, b):
        """Equal but for the times recorded."""
        m = re.search(r"-(\d)(-iter)?\.csv$", nm)
        return bool(m) and C08().same(
            dict(what="main", method=int(m.group(1))), nm, a, b)

    def judge(self, plan, root):
        V = Viol()
        root = os.path.realpath(root)
        procs = self.effects(plan, root) if "order" in plan else []
        self.start(plan, root)
        # alone
        s0, o0 = self.command(plan, root, lambda sim, obs: None)
        alone = script.files(root)
        if "order" not in plan:
            if o0.end != "done":
                V.add("script_failed", "%s alone ended with %s %s"
                      % (plan["what"], o0.end, o0.exc))
            return Result(s0, V, False, dict(end=o0.end, exc=o0.exc))
        self.start(plan, root)
        r = random.Random("order|%s" % plan["order"])
        queue = []
        pos = [0] * len(procs)
        while True:         # some interleaving of the others
            live = [k for k in range(len(procs)) if pos[k] < len(procs[k])]
            if not live:
                break
            k = r.choice(live)
            queue.append(procs[k][pos[k]])
            pos[k] += 1
        nio = max(1, s0.n["io"])
        at = {}
        for q in queue:
            n = r.randint(1, nio)
            at[n] = at.get(n, 0) + 1
        if plan["mode"] == "burst":
            at, left = {}, len(queue)
            while left:
                n, c = r.randint(1, nio), r.randint(1, left)
                at[n] = at.get(n, 0) + c
                left -= c
        elif plan["mode"] == "early":
            first = r.choice([1, 2, 3])
            at = {min(first, nio): len(queue)}
        st = dict(done=0, mixed=0)
        seen = {}
        foreign = []

        def act(c):
            for op, a, b in queue[st["done"]:st["done"] + c]:
                err = core.effect(op, a, b)
                if err:
                    foreign.append(err)
            st["done"] += c

        def hook(sim, obs):
            def between(k, op, path):
                c = at.get(k, 0)
                if c:
                    act(c)
                    st["mixed"] += 1
                    sim.ev("others", k, c)
                if op == "ropen":
                    # (the folder's files as they are at this instant)
                    there = os.path.exists(path)
                    if there:
                        with core.REAL["open"](path, "rb") as g:
                            there = g.read()
                    seen[os.path.basename(path)] = there
            sim.between = between
        sim, obs = self.command(plan, root, hook)
        act(len(queue) - st["done"])
        got = script.files(root)
        for e in foreign:
            V.add("other_experiment_disturbed", "another experiment fails: "
                  + e)
        if obs.end != "done":
            V.add("disturbed_by_others", "%s ended with %s %s while others "
                  "ran, normally alone" % (plan["what"], obs.end, obs.exc))
        if plan["what"] == "export":
            rows = {}
            for nm, data in plan["rows"]:
                if seen.get(nm):
                    row = seen[nm].decode().strip().split(",")
                    rows[nm] = [row[0]] + [float(v) for v in row[1:]]
            if obs.end == "done":
                check_tables(V, plan["consts"], rows,
                             script.files(root, "results"))
        else:
            want = dict(alone)
            for p in procs:
                # what the other one leaves behind
                tmp = {}
                for op, a, b in p:
                    if op == "open":
                        tmp[a] = b""
                    elif op in ("write", "touch"):
                        tmp[a] = tmp.get(a, b"") + b
                    elif op in ("replace", "rename"):
                        tmp[b] = tmp.pop(a, b"")
                    elif op in ("unlink", "remove"):
                        tmp.pop(a, None)
                for a, data in tmp.items():
                    if os.path.dirname(a) + "/" == os.path.join(
                            root, script.RESULTS):
                        want[os.path.basename(a)] = data
            for nm in sorted(set(want) | set(got)):
                if want.get(nm) != got.get(nm) and not self.alike(
                        nm, want.get(nm), got.get(nm)):
                    V.add("result_disturbed", "%s differs when experiments "
                          "run side by side: %s instead of %s bytes"
                          % (nm, size(got.get(nm)), size(want.get(nm))))
        if st["mixed"]:
            sim.fire("others_in_between")
        res = Result(sim, V, st["mixed"] > 0, dict(end=obs.end, exc=obs.exc))
        res.sims = 2 + len(plan["others"])
        return res
