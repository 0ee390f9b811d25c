"""Shared oracles: what a run may claim, checked against the definition."""
import math

import numpy as np

from . import world
from .world import Oracle


def tol(v):
    return 2e-6 * abs(v) + 1e-4


class Viol(list):
    """Violations found in one run; 'cls' is what minimisation preserves."""

    def add(self, cls, what, **info):
        if len(self) < 12:
            d = dict(cls=cls, what=what)
            d.update({k: _plain(v) for k, v in info.items()})
            self.append(d)


def _plain(v):
    if isinstance(v, (np.floating, float)):
        return float(v)
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, np.ndarray):
        return [float(x) for x in v]
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    if isinstance(v, (str, int, bool)) or v is None:
        return v
    return str(v)


def num(x):
    """float(x), or None when it is not a number."""
    try:
        return float(x)
    except (TypeError, ValueError):
        return None


def check_bounds(V, o, vLB, vUB, where):
    """-inf <= vLB <= v* <= vUB <= inf."""
    v = o.value()
    lo, hi = num(vLB), num(vUB)
    if lo is None or hi is None or lo != lo or hi != hi:
        V.add("bound_not_a_number", "bound is not a number at " + where,
              vLB=str(vLB), vUB=str(vUB))
        return
    if lo > v + tol(v):
        V.add("lower_bound_above_optimum",
              "lower bound %r above the optimum %r at %s" % (lo, v, where),
              vLB=lo, vUB=hi, optimum=v)
    if hi < v - tol(v):
        V.add("upper_bound_below_optimum",
              "upper bound %r below the optimum %r at %s" % (hi, v, where),
              vLB=lo, vUB=hi, optimum=v)
    # (objectives are not negative: no solution is worth less than zero)
    if lo != -math.inf and (abs(lo) > 1e9 or lo < -0.01):
        V.add("made_up_bound", "lower bound %r at %s" % (lo, where))
    if abs(hi) > 1e9 and hi != math.inf:
        V.add("made_up_bound", "upper bound %r at %s" % (hi, where))


def check_incumbent(V, o, x, vLB, where):
    """A finite lower bound is held by a feasible solution of that value."""
    lo = num(vLB)
    if lo is None or lo != lo:
        V.add("bound_not_a_number", "lower bound %r at %s" % (vLB, where))
        return
    if lo == -math.inf:
        if x is not None:
            try:
                ok = o.feasible(x)
            except Exception:
                ok = False
            if not ok:
                V.add("incumbent_infeasible",
                      "infeasible incumbent without a bound at " + where,
                      x=x)
        return
    if x is None:
        V.add("bound_without_solution",
              "lower bound %r without a solution at %s" % (lo, where))
        return
    try:
        xv = np.asarray(x, dtype=float)
    except (TypeError, ValueError):
        V.add("incumbent_malformed", "incumbent %r at %s" % (x, where))
        return
    if xv.shape != (o.inst["n"],):
        V.add("incumbent_malformed", "incumbent of shape %r at %s"
              % (xv.shape, where))
        return
    if not o.in_domain(xv):
        V.add("incumbent_out_of_domain",
              "incumbent breaks bounds or integrality at " + where, x=xv)
    bad = o.violated(xv)
    if len(bad) > o.k:
        V.add("incumbent_infeasible",
              "incumbent violates %d scenarios, %d allowed, at %s"
              % (len(bad), o.k, where), x=xv, violated=list(bad))
    ov = o.obj(xv)
    # (both are the value of the same point: no gap in between)
    if abs(ov - lo) > 1e-5 * abs(ov) + 1e-5:
        V.add("bound_is_not_the_incumbents_value",
              "lower bound %r, incumbent worth %r, at %s" % (lo, ov, where),
              x=xv)


def check_optimal(V, o, m, gap=1e-4):
    """The run finished by itself: optimal value, optimal solution."""
    v = o.value()
    lo, hi = num(getattr(m, "vLB", None)), num(getattr(m, "vUB", None))
    t = tol(v) + 1.01 * gap * abs(v)
    for nm, b in (("lower", lo), ("upper", hi)):
        if b is None or not abs(b - v) <= t:
            V.add("finished_without_optimum",
                  "finished with %s bound %r, optimum %r" % (nm, b, v),
                  vLB=lo, vUB=hi, optimum=v)
    check_incumbent(V, o, getattr(m, "xLB", None), lo, "end")


def violated_subsets(o, x, partition, thr):
    """Number of subsets containing a scenario violated by more than thr."""
    x = np.asarray(x, dtype=float)
    lhs = o.A @ x
    bad = (lhs > o.b[None, :] + thr).any(axis=1)
    return sum(1 for c in partition if any(bad[s] for s in c))


def oracle(plan):
    return Oracle.of(plan["inst"], plan["eps"], plan["cont"])
