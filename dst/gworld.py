"""The simulated solver service.

Real Gurobi does the arithmetic; the simulator decides, per call, how long the
call takes in simulated time, which of several optimal solutions is returned,
whether the call is cut off by its own TimeLimit (and with which incumbent and
bound), whether a user interrupt reaches it, or whether it fails.  All of these
are answers the real service may give.
"""
import random

import gurobipy as gp
from gurobipy import GRB

from . import core

RealModel = gp.Model
RealEnv = gp.Env
INF = 1e100
WORK_LIMIT = 20.0        # about seconds; the largest calls need a tenth
# what, besides the model, decides what the solver answers
PARAMS = ("Seed", "Threads", "MIPGap", "MIPGapAbs", "FeasibilityTol",
          "IntFeasTol", "OptimalityTol", "Method", "MIPFocus", "Heuristics",
          "Cuts", "Presolve", "Cutoff", "NodeLimit", "SolutionLimit",
          "BestObjStop", "BestBdStop", "NumericFocus", "PoolSolutions",
          "PoolSearchMode")
_envs = []


def new_env(*a, **k):
    s = core.ACTIVE
    env = RealEnv(params={"OutputFlag": 0, "Threads": 1,
                          "WorkLimit": WORK_LIMIT})
    if s is not None:
        _envs.append(env)
    return env


def dispose_envs():
    while _envs:
        try:
            _envs.pop().dispose()
        except Exception:
            pass


class SimModel(RealModel):
    """gurobipy.Model whose optimize() runs in the simulated world."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self._over = {}
        self._cb = None
        self._stop = False
        self._back = []

    # ----------------------------------------------------------- attributes
    def getAttr(self, name, objs=None):
        if objs is None:
            key = name.lower() if isinstance(name, str) else name
            over = self._over
            if key in over:
                v = over[key]
                if v is None:
                    raise AttributeError(
                        "Unable to retrieve attribute '%s'" % name)
                return v
            return super().getAttr(name)
        return super().getAttr(name, objs)

    def cbGet(self, what):
        cb = self._cb
        if cb is None:
            return super().cbGet(what)
        C = GRB.Callback
        table = {C.MIP_OBJBST: cb["obj"], C.MIP_OBJBND: cb["bnd"],
                 C.MIP_NODCNT: cb["k"], C.MIP_SOLCNT: cb["sol"],
                 C.RUNTIME: cb["t"]}
        if what in table:
            return table[what]
        raise core.HarnessError("cbGet(%r) is not simulated" % what)

    def terminate(self):
        self._stop = True

    # ------------------------------------------------------------- optimize
    def optimize(self, callback=None):
        s = core.ACTIVE
        if s is None or s.finished:
            return super().optimize()
        s.n["opt"] += 1
        k = s.n["opt"]
        if k > s.opt_budget:
            s.dead = True
            raise core.SimBudget("solver-call budget %d exhausted"
                                 % s.opt_budget)
        s.poll()
        fs = s.faults.get(("opt", k), [])
        f = fs[0] if fs else None
        kind = f["do"] if f else None
        self._over = {}
        self._stop = False
        super().update()
        if self._back:
            self._unblur()
        name = self.ModelName
        limit = super().getParamInfo("TimeLimit")[2]
        r = s.rng("opt", k)
        dur = s.opt_mean * (1.0 - s.opt_spread
                            + 2.0 * s.opt_spread * r.random())
        if kind == "slow":
            dur = float(f["dt"])
            s.idle += min(dur, limit) / 2
            s.fire("slow_solver_call")
        for ob in s.observers:
            ob("opt", dict(k=k, model=self, name=name, limit=limit,
                           now=s.mono))
        if kind == "grberr":
            s.fire("solver_error")
            s.advance(dur * r.random())
            raise gp.GurobiError(GRB.Error.OUT_OF_MEMORY, "Out of memory")
        truncated = dur >= limit
        if kind == "timeout":
            # the solver's own clock reached TimeLimit
            truncated = limit < GRB.INFINITY
            dur = limit if truncated else dur
        interrupted = kind == "sigint"
        is_lp = (super().getAttr("IsMIP") == 0)
        start = s.mono
        if interrupted:
            dur *= r.random()
        elif truncated:
            dur = limit * (1.0 + 1e-4 * r.random()) + 1e-3 * r.random()
            if s.plan.get("skew"):
                # the solver's own clock runs a little fast
                dur = limit * (1.0 - float(s.plan["skew"]) * r.random())
                s.fire("clock_skew")
        if s.plan.get("trace"):
            fp = (int(super().getAttr("Fingerprint")),) + tuple(
                self._param(a) for a in PARAMS)
        # ---- what the call answers ----
        mine = {a: self._param(a) for a in ("Seed", "Threads")}
        self._reseed(r)
        if truncated or interrupted:
            self._cut(s, r, f or {}, is_lp)
            self._over["status"] = (GRB.INTERRUPTED if interrupted
                                    else GRB.TIME_LIMIT)
            s.fire("solver_interrupted" if interrupted
                   else "solver_time_limit")
        else:
            self._real()
            if super().getAttr("Status") == 2:
                near = s.plan.get("subopt") and not is_lp and \
                    r.random() < 0.5 and self._near_optimal(s, r)
                if not near and s.plan.get("ties"):
                    self._alternative(s, r)
                if not near and s.plan.get("loose") and not is_lp:
                    self._loosen(s, r)
        if s.plan.get("noise") and not is_lp and \
                self._over.get("solcount", 1) and r.random() < 0.7:
            self._blur(s, r)
        self._over["runtime"] = dur
        for a, v in mine.items():
            super().setParam(a, v)
        # ---- time passes, callbacks and signals arrive ----
        if callback is not None:
            stopped = self._callbacks(s, r, callback, start, dur)
            if stopped:
                # a signal handler raised inside the callback: Gurobi turns
                # that into an interrupted solve
                self._over["status"] = GRB.INTERRUPTED
        else:
            s.masked += 1
            try:
                s.advance(dur)
            finally:
                s.masked -= 1
        st = int(self.getAttr("Status"))
        if s.plan.get("trace"):
            ov = self.getAttr("ObjVal") if st == 2 else None
            xs = (tuple(round(v, 9) for v in
                        super().getAttr("X", self.getVars()))
                  if st == 2 else None)
            s.trace.append((name, fp, st, ov, xs))
        s.ev("opt", k, name, st, round(s.mono, 6))
        for ob in s.observers:
            ob("opt_end", dict(k=k, model=self, name=name, status=st,
                               limit=limit, now=s.mono))
        s.poll()

    def _real(self):
        """The real solver does the arithmetic."""
        # (its own clock has no say: a run depends on simulated time alone)
        limit = self._param("TimeLimit")
        if limit < GRB.INFINITY:
            super().setParam("TimeLimit", GRB.INFINITY)
        try:
            super().optimize()
        except gp.GurobiError as e:
            if e.errno != GRB.Error.SIZE_LIMIT_EXCEEDED:
                raise
            # (a limit of the licence at hand, not of the program)
            raise core.Inconclusive("a %s model is too large for the licence"
                                    % self.ModelName) from None
        finally:
            if limit < GRB.INFINITY:
                super().setParam("TimeLimit", limit)
        if super().getAttr("Status") == GRB.WORK_LIMIT:
            raise core.Inconclusive("a %s call exceeds the work limit"
                                    % self.ModelName)

    def _loosen(self, s, r):
        """Optimal within MIPGap only: the bound need not be closed."""
        v = self.getAttr("ObjVal")
        gap = min(float(self._param("MIPGap")), 1e-4)
        w = r.choice([0.0, r.random(), 1.0]) * gap * abs(v) * 0.999
        if w > 0:
            sense = self.ModelSense
            self._over["objbound"] = v + w if sense == GRB.MAXIMIZE else v - w
            s.fire("bound_within_gap")

    def _near_optimal(self, s, r):
        """Optimal within MIPGap only: the solution may fall short too."""
        gap = min(float(self._param("MIPGap")), 1e-2) * 0.99
        v = super().getAttr("ObjVal")
        if gap * abs(v) < 1e-3 or self.ModelSense != GRB.MAXIMIZE or v <= 0:
            return False
        bound = super().getAttr("ObjBound")
        con = self.addConstr(self.getObjective() >= v / (1.0 + gap))
        x = self._solve_with(self._random_expr(r), GRB.MAXIMIZE)
        self.remove(con)
        if x is None or not self._pin(x):
            super().update()
            self._real()
            return False
        w = super().getAttr("ObjVal")
        room = max(0.0, w * (1.0 + gap) - v)
        self._over["objval"] = w
        self._over["objbound"] = max(bound, v + room * r.choice(
            [0.0, r.random(), 1.0]))
        if w < v - 1e-6:
            s.fire("suboptimal_within_gap")
        return True

    def _blur(self, s, r):
        """Integer values are integral within IntFeasTol only."""
        if super().getAttr("SolCount") == 0:
            return
        vs = self.getVars()
        names = super().getAttr("VarName", vs)
        vt = super().getAttr("VType", vs)
        mine = [i for i, t in enumerate(vt) if t != GRB.CONTINUOUS
                and names[i].startswith("x[")]
        if not mine:             # (the split models have no x)
            return
        x = super().getAttr("X", vs)
        keep = {a: self.getAttr(a) for a in ("ObjVal", "ObjBound")}
        status = self.getAttr("Status")
        super().update()         # bounds given back so far
        lb = super().getAttr("LB", vs)
        ub = super().getAttr("UB", vs)
        for i, t in enumerate(vt):
            if t == GRB.CONTINUOUS:
                continue
            v = float(round(x[i]))
            if i in mine:
                vs[i].VType = GRB.CONTINUOUS
                v -= r.choice([0.0, 1e-10, 1e-9]) * r.random()
            vs[i].LB = v
            vs[i].UB = v
        self._real()
        ok = super().getAttr("Status") == GRB.OPTIMAL
        self._back = [(vs[i], t, lb[i], ub[i]) for i, t in enumerate(vt)
                      if t != GRB.CONTINUOUS]
        if not ok:
            self._unblur()
            self._real()
            if not self._over:
                return
            # the answer was made up before: give it again
            ok = self._pin(x)
        else:
            s.probe("inexact_integers_returned")
        self._over.update(objval=keep["ObjVal"], objbound=keep["ObjBound"],
                          status=status, solcount=1)

    def _unblur(self):
        """Types and bounds as the code under test has set them."""
        back, self._back = self._back, []
        for v, t, lb, ub in back:
            v.VType = t
        super().update()
        for v, t, lb, ub in back:
            v.LB = lb
            v.UB = ub
        super().update()

    # -------------------------------------------------------------- helpers
    def _reseed(self, r):
        super().setParam("Seed", r.randrange(2_000_000))
        super().setParam("Threads", 1)

    def _param(self, name):
        return super().getParamInfo(name)[2]

    def _solve_with(self, expr, sense):
        """Solve for another objective, give back X or None."""
        obj = self.getObjective()
        osense = self.ModelSense
        self.setObjective(expr, sense)
        self._real()
        x = None
        if super().getAttr("Status") == GRB.OPTIMAL:
            x = super().getAttr("X", self.getVars())
        self.setObjective(obj, osense)
        return x

    def _pin(self, x):
        """Make x the solution the model reports (bounds are given back)."""
        vs = self.getVars()
        vt = super().getAttr("VType", vs)
        lb = super().getAttr("LB", vs)
        ub = super().getAttr("UB", vs)
        ints = [i for i, t in enumerate(vt) if t != GRB.CONTINUOUS]
        which = ints if ints else range(len(vs))
        for i in which:
            v = float(round(x[i])) if ints else min(max(x[i], lb[i]), ub[i])
            vs[i].LB = v
            vs[i].UB = v
        self._real()
        ok = super().getAttr("Status") == GRB.OPTIMAL
        for i in which:                  # queued until the next update
            vs[i].LB = lb[i]
            vs[i].UB = ub[i]
        return ok

    def _random_expr(self, r):
        vs = self.getVars()
        e = gp.LinExpr()
        for v in vs:
            e.addTerms(float(r.randint(-9, 9)), v)
        return e

    def _alternative(self, s, r):
        """Replace the optimal solution by another optimal one."""
        v = super().getAttr("ObjVal")
        bound = super().getAttr("ObjBound") if super().getAttr("IsMIP") \
            else v
        old = [t.X for t in self.getVars()]
        sense = self.ModelSense
        expr = self.getObjective()
        tol = self._param("FeasibilityTol")
        super().setParam("FeasibilityTol", 1e-9)
        lazy = super().getAttr("IsMIP")
        con = (self.addConstr(expr >= v) if sense == GRB.MAXIMIZE
               else self.addConstr(expr <= v))
        x = self._solve_with(self._random_expr(r), GRB.MAXIMIZE)
        self.remove(con)
        done = False
        if x is not None:
            done = self._pin(x)
            if done:
                w = super().getAttr("ObjVal")
                done = abs(w - v) <= 1e-7 * max(1.0, abs(v))
            if done:
                if max(abs(a - b) for a, b in zip(old, x)) > 1e-6:
                    s.probe("alternative_optimum_returned")
                self._over["objval"] = w
                self._over["objbound"] = bound if lazy else w
        if not done:
            super().update()
            self._real()
        super().setParam("FeasibilityTol", tol)

    def _cut(self, s, r, f, is_lp):
        """The call ends early: maybe an incumbent, and a valid bound."""
        sense = self.ModelSense
        self._real()
        if super().getAttr("Status") != GRB.OPTIMAL:
            return
        v = super().getAttr("ObjVal")
        best_bound = super().getAttr("ObjBound") if not is_lp else v
        # bound: anything between the optimum and a trivial bound
        obj = self.getObjective()
        triv = obj.getConstant()
        for i in range(obj.size()):
            c, var = obj.getCoeff(i), obj.getVar(i)
            hi = (c > 0) == (sense == GRB.MAXIMIZE)
            b = var.UB if hi else var.LB
            if abs(b) > 1e20:
                b = 0.0
            triv += c * b
        w = f.get("bnd", r.choice([0.0, r.random(), r.random(), 1.0]))
        if sense == GRB.MAXIMIZE:
            bound = max(best_bound, v + float(w) * max(0.0, triv - v))
            if w == 0.0 and r.random() < 0.5:
                # the end was near
                bound = max(bound, v + abs(v) * r.choice(
                    [1e-6, 1e-5, 9e-5, 1e-3]) * r.random())
        else:
            bound = min(best_bound, v)
        inc = f.get("inc", r.choice(["none", "random", "random", "best"]))
        if is_lp:
            inc = "none"
        if inc == "none":
            self.reset()
            if r.random() < 0.3:        # not even the root was solved
                bound = float("inf") if sense == GRB.MAXIMIZE \
                    else float("-inf")
                s.probe("cut_without_bound")
            self._over.update(
                solcount=0, objbound=bound, mipgap=float("inf"),
                objval=float("-inf") if sense == GRB.MAXIMIZE
                else float("inf"))
            s.probe("cut_without_incumbent")
            return
        if inc == "random":
            x = self._solve_with(self._random_expr(r), GRB.MAXIMIZE)
            ok = x is not None and self._pin(x)
        else:
            ok = True
        if not ok:
            super().update()
            self._real()
        ov = super().getAttr("ObjVal")
        self._over.update(solcount=1, objval=ov, objbound=bound)
        s.probe("cut_with_incumbent")
        if abs(ov - v) > 1e-6:
            s.probe("cut_with_suboptimal_incumbent")

    def _callbacks(self, s, r, callback, start, dur):
        """The MIP callback is called as bounds improve; signals are taken
        inside it, as gurobipy does."""
        maxi = self.ModelSense == GRB.MAXIMIZE
        try:
            final_bnd = self.getAttr("ObjBound")
        except AttributeError:
            final_bnd = INF if maxi else -INF
        try:
            final_obj = self.getAttr("ObjVal")
        except AttributeError:
            final_obj = None
        npts = r.randint(0, 6)
        ts = sorted(r.random() for _ in range(npts))
        s.trajectory = traj = []
        s.tail_lost = False
        worst = -INF if maxi else INF
        obj = worst
        slack = abs(final_bnd) * 0.5 + 1.0 if abs(final_bnd) < INF else 0.0
        # (sometimes the bounds move by next to nothing)
        scale = r.choice([1.0, 1.0, 1.0, 1e-3, 1e-6, 1e-9])
        slack *= scale
        stopped = False
        sol = 0
        for j, t in enumerate(ts):
            frac = (npts - 1 - j) / max(1, npts)
            bnd = final_bnd + (slack * frac if maxi else -slack * frac)
            if final_obj is not None and r.random() < 0.7:
                cand = final_obj * (1.0 - 0.5 * scale * frac * r.random()) \
                    if final_obj >= 0 else final_obj
                obj = max(obj, cand) if maxi else min(obj, cand)
                sol += 1
            s.masked += 1
            s.advance(max(0.0, start + dur * t - s.mono))
            s.masked -= 1
            self._cb = dict(obj=obj, bnd=bnd, k=float(j), sol=sol,
                            t=s.mono - start)
            try:
                s.poll()
                traj.append((s.mono, obj, bnd))
                s.in_callback = True
                callback(self, GRB.Callback.MIP)
                s.probe("solver_callback")
            except KeyboardInterrupt:
                stopped = True
                # the interrupt may have hit before the code noted it
                s.tail_lost = len(traj) > j
            finally:
                s.in_callback = False
                self._cb = None
            if stopped or self._stop:
                return True
        s.masked += 1
        s.advance(max(0.0, start + dur - s.mono))
        s.masked -= 1
        # other callback codes are also delivered
        self._cb = dict(obj=obj, bnd=final_bnd, k=0.0, sol=sol,
                        t=s.mono - start)
        s.in_callback = True
        try:
            callback(self, GRB.Callback.POLLING)
        finally:
            s.in_callback = False
            self._cb = None
        return False


def install():
    gp.Model = SimModel
    gp.Env = new_env
