"""Loading the code under test, problem data and the reference oracle."""
import importlib
import itertools
import math
import os
import random
import sys

import numpy as np
import gurobipy as gp
from gurobipy import GRB

from . import core, gworld


# ---------------------------------------------------------------- loading
def setup(build_dir, cache_dir):
    """Once per worker: seams first, then the import path."""
    core.install()
    gworld.install()
    sys.pycache_prefix = cache_dir
    sys.dont_write_bytecode = False
    for p in (core.REPO, build_dir):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)


def fresh():
    """Forget every module of the repository: a new process starts."""
    for k in [k for k in sys.modules if k == "src" or k.startswith("src.")]:
        del sys.modules[k]
    gworld.dispose_envs()
    importlib.invalidate_caches()


def get(name):
    """get('src.solver.AdaptivePartitioner') -> class of that name."""
    mod = importlib.import_module(name)
    return getattr(mod, name.rsplit(".", 1)[1])


# --------------------------------------------------------------- instances
def gen_instance(r, cont, big=False, n=None, m=None, N=None):
    n0 = (r.choice([2, 3, 4, 5, 6, 6]) if cont
          else r.choice([2, 4, 5, 6, 7, 8, 8, 9]))
    m0 = r.choice([1, 2, 2, 3, 4])
    N0 = r.choice([3, 4, 5, 6, 7, 8, 9, 10, 10, 10, 12, 12, 14, 16])
    if big:
        N0 = r.choice([16, 20, 24, 30])
    n, m, N = n or n0, m or m0, N or N0
    style = r.choice(["int", "dec", "indep", "indep", "indepdec", "indepdec",
                      "fail", "dup"])
    hi = r.choice([3, 5, 9, 20])
    integral = style in ("int", "dup", "indep")
    if integral:
        c = [float(r.randint(1, hi)) for _ in range(n)]
    else:
        c = [round(r.uniform(0.5, 60.0), 1) for _ in range(n)]
    if r.random() < 0.15:
        c = [c[0]] * n
    # values that lie close together, relative to their size
    if r.random() < 0.1:
        off = r.choice([50.0, 100.0, 300.0])
        c = [round(v + off, 1) for v in c]
    # items worth nothing
    if r.random() < 0.05:
        c = [v if r.random() < 0.6 else 0.0 for v in c]
    base = [[float(r.randint(0, hi)) if integral
             else round(r.uniform(0.0, 30.0), 1) for _ in range(n)]
            for _ in range(m)]
    if r.random() < 0.3:
        for row in base:
            for j in range(n):
                if r.random() < 0.3:
                    row[j] = 0.0
    pool = []
    for s in range(N):
        rows = []
        fail = [style == "fail" and r.random() < 0.25 for _ in range(n)]
        for i in range(m):
            row = []
            for j in range(n):
                a = base[i][j]
                if fail[j]:
                    a = 0.0
                elif style == "indep":
                    a = r.randint(0, hi)
                elif style == "indepdec":
                    a = round(r.uniform(0.0, 30.0), 1)
                elif integral:
                    a = max(0.0, a + r.choice([-2, -1, 0, 0, 1, 2, 3]))
                else:
                    a = round(max(0.0, r.gauss(a, abs(a) * 0.3)), 1)
                row.append(float(a))
            rows.append(row)
        pool.append(rows)
    A = pool
    if style == "dup":
        d = r.randint(1, max(1, N // 2))
        A = [pool[r.randrange(d)] if r.random() < 0.6 else pool[s]
             for s in range(N)]
    frac = r.choice([0.25, 0.4, 0.4, 0.55, 0.7])
    # next to no capacity: whole subsets of scenarios admit x = 0 only
    none = r.random() < 0.06
    if none:
        frac = r.choice([0.0, 0.05, 0.1])
    elif r.random() < 0.04:
        frac = r.choice([1.0, 1.4])      # hardly anything binds
    b = []
    for i in range(m):
        mean = sum(sum(A[s][i]) for s in range(N)) / N
        v = mean * frac * r.uniform(0.8, 1.2)
        v = float(math.floor(v)) if integral else round(v, 1)
        b.append(max(v, 0.0 if none else 1.0))
    return dict(n=n, m=m, N=N, c=c, A=A, b=b, style=style)


def gen_eps(r, N, kmax=None, wide=False):
    """epsilon with floor(eps*N) = k, in the shapes users give."""
    if kmax is None:
        kmax = min(N - 2, 6)
        if wide and r.random() < 0.15:
            kmax = N - 1
    k = r.choice(list(range(0, kmax + 1)) + [min(2, kmax), min(3, kmax),
                                             min(4, kmax), kmax])
    cand = []
    for e in (0.01, 0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4, 0.5, 0.6,
              0.7, 0.8, 0.9):
        if math.floor(e * N + 1e-9) == k:
            cand.append(e)
    cand.append((k + 0.5) / N)
    cand.append(k / N if k else 0.5 / N)
    return r.choice(cand)


def violation_budget(eps, N):
    return int(math.floor(eps * N + 1e-9))


def write_csv(inst, path):
    r = random.Random(inst.get("raw"))

    def row(vs):
        if inst.get("raw") is None:
            return ",".join(repr(v) for v in vs) + "\r\n"
        # more decimals than are used: the loader rounds
        return ",".join(repr(round(max(0.0, v + r.uniform(-0.045, 0.045)), 4))
                        for v in vs) + "\r\n"
    with core.REAL["open"](path, "w", newline="\n") as f:
        f.write(",".join(str(v) for v in (inst["n"], inst["m"], inst["N"], 0))
                + "\r\n")
        f.write(row(inst["c"]))
        for s in range(inst["N"]):
            for vs in inst["A"][s]:
                f.write(row(vs))
        f.write(row(inst["b"]))


# ------------------------------------------------------------------ oracle
class Oracle:
    """The chance-constrained problem solved from its definition: choose
    which scenarios to give up, solve what is left; no big M, no partition."""

    _cache = {}

    def __init__(self, inst, eps, cont):
        self.inst, self.eps, self.cont = inst, eps, cont
        self.A = np.array(inst["A"], dtype=float).reshape(
            inst["N"], inst["m"], inst["n"])
        self.b = np.array(inst["b"], dtype=float)
        self.c = np.array(inst["c"], dtype=float)
        self.N = inst["N"]
        self.k = violation_budget(eps, self.N)
        self._v = None
        self._pts = None
        self._keep = None

    @classmethod
    def of(cls, inst, eps, cont):
        key = (repr(inst), eps, cont)
        o = cls._cache.get(key)
        if o is None:
            if len(cls._cache) > 64:
                cls._cache.clear()
            o = cls._cache[key] = cls(inst, eps, cont)
        return o

    # all binary points, objective and number of violated scenarios
    def points(self):
        if self._pts is None:
            n = self.inst["n"]
            X = np.array(list(itertools.product((0.0, 1.0), repeat=n)))
            lhs = np.einsum("smn,pn->psm", self.A, X)
            bad = (lhs > self.b[None, None, :] + 1e-6).any(axis=2)
            self._pts = (X, X @ self.c, bad)
        return self._pts

    def value(self):
        if self._v is None:
            if self.cont:
                self._v = self._value_cont()
            else:
                X, obj, bad = self.points()
                ok = bad.sum(axis=1) <= self.k
                self._v = float(obj[ok].max()) if ok.any() else -math.inf
        return self._v

    def _lp(self, keep, c=None, out=None):
        m = gworld.RealModel("oracle", env=_oracle_env())
        n = self.inst["n"]
        xs = [m.addVar(lb=0.0, ub=1.0) for _ in range(n)]
        obj = self.c if c is None else c
        m.setObjective(gp.LinExpr([float(v) for v in obj], xs), GRB.MAXIMIZE)
        for s in keep:
            for i in range(self.inst["m"]):
                m.addConstr(gp.LinExpr(
                    [float(v) for v in self.A[s, i]], xs) <= float(self.b[i]))
        m.setParam("FeasibilityTol", 1e-9)
        m.optimize()
        v = float(m.ObjVal) if m.Status == GRB.OPTIMAL else -math.inf
        if out is not None and v > -math.inf:
            out.extend(t.X for t in xs)
        m.dispose()
        return v

    def lp_point(self, keep, c=None):
        """An optimal point with the scenarios of keep imposed."""
        x = []
        v = self._lp(keep, c, x)
        return np.array(x) if v > -math.inf else None

    def best_keep(self):
        """Scenarios kept by an optimal solution, if known."""
        self.value()
        return self._keep

    def _value_cont(self):
        if math.comb(self.N, self.k) > 60:
            return self._value_cont_mip()
        return self._value_cont_enum()

    def _value_cont_enum(self):
        # identical scenarios need not be told apart
        best = -math.inf
        seen = set()
        ident = [self.A[s].tobytes() for s in range(self.N)]
        for out in itertools.combinations(range(self.N), self.k):
            gone = set(out)
            keep = [s for s in range(self.N) if s not in gone]
            key = frozenset(ident[s] for s in keep)
            if key in seen:
                continue
            seen.add(key)
            v = self._lp(sorted({ident[s]: s for s in keep}.values()))
            if v > best:
                best, self._keep = v, set(keep)
        return best

    def _value_cont_mip(self):
        """One binary per scenario; x <= 1 makes sum(A) - b a valid M.  The
        answer is then repaired into an exact LP over the kept scenarios."""
        m = gworld.RealModel("oracle", env=_oracle_env())
        n = self.inst["n"]
        xs = [m.addVar(lb=0.0, ub=1.0) for _ in range(n)]
        zs = [m.addVar(vtype=GRB.BINARY) for _ in range(self.N)]
        m.setObjective(gp.LinExpr([float(v) for v in self.c], xs),
                       GRB.MAXIMIZE)
        for s in range(self.N):
            for i in range(self.inst["m"]):
                M = float(self.A[s, i].sum() - self.b[i])
                if M <= 0:
                    continue
                m.addConstr(gp.LinExpr([float(v) for v in self.A[s, i]]
                                       + [M], xs + [zs[s]])
                            <= float(self.b[i]) + M)
        m.addConstr(gp.LinExpr([1.0] * self.N, zs) >= self.N - self.k)
        m.setParam("FeasibilityTol", 1e-9)
        m.setParam("IntFeasTol", 1e-9)
        m.setParam("MIPGap", 0.0)
        m.optimize()
        if m.Status != GRB.OPTIMAL:
            raise core.HarnessError("oracle status %d" % m.Status)
        keep = [s for s in range(self.N) if zs[s].X > 0.5]
        m.dispose()
        self._keep = set(keep)
        return self._lp(keep)

    def violated(self, x, tol=None):
        """Indices of scenarios violated by x, beyond solver tolerances."""
        x = np.asarray(x, dtype=float)
        if tol is None:
            tol = 1e-2 if not self.cont else \
                1e-5 * (1.0 + float(np.abs(self.A).sum(axis=2).max()))
        if not self.cont:
            x = np.round(x)
        lhs = self.A @ x
        return np.where((lhs > self.b[None, :] + tol).any(axis=1))[0]

    def in_domain(self, x):
        x = np.asarray(x, dtype=float)
        if x.shape != (self.inst["n"],):
            return False
        if self.cont:
            return bool((x >= -1e-5).all() and (x <= 1 + 1e-5).all())
        return bool((np.abs(x - np.round(x)) <= 1e-4).all()
                    and (np.round(x) >= 0).all() and (np.round(x) <= 1).all())

    def feasible(self, x):
        return self.in_domain(x) and len(self.violated(x)) <= self.k

    def obj(self, x):
        return float(self.c @ np.asarray(x, dtype=float))

    def single_max(self, subset):
        """Optimum with every scenario of subset imposed."""
        if self.cont:
            return self._lp(list(subset))
        X, obj, bad = self.points()
        ok = ~bad[:, list(subset)].any(axis=1)
        return float(obj[ok].max()) if ok.any() else -math.inf


_oenv = None


def _oracle_env():
    global _oenv
    if _oenv is None:
        _oenv = gworld.RealEnv(params={"OutputFlag": 0, "Threads": 1})
    return _oenv
