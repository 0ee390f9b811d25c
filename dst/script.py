"""Workload: the command-line scripts, run whole as one simulated process."""
import ast
import os
import random
import runpy
import shutil
import sys

import numpy as np

from . import adaptive, core, world
from .adaptive import Obs, SINK, classify

RESULTS = "results/tables/"


def exec_script(plan, root, argv, body, hook=None, preload=True, cwd=None):
    """Run body() as the main program of a fresh simulated process."""
    sim = core.Sim(plan, root)
    obs = Obs()
    world.fresh()
    out, err, old, here = sys.stdout, sys.stderr, sys.argv, os.getcwd()
    sim.loading = True
    with core.activate(sim):
        sys.stdout = sys.stderr = SINK
        sys.argv = list(argv)
        try:
            if cwd:
                os.chdir(cwd)
            random.seed(plan.get("py_seed", 0))
            np.random.seed(plan.get("py_seed", 0) % 2 ** 32)
            if preload:
                for nm in adaptive.LIB:
                    world.get(nm)
                adaptive._watch_start(world.get("src.TimeManager"), sim, obs)
            if hook:
                hook(sim, obs)
            obs.t0 = obs.t0_lo = sim.mono
            sim.subject = lambda: obs.method
            sim.loading = False
            classify(obs, body)
            obs.t_end = sim.mono
        finally:
            sys.stdout, sys.stderr, sys.argv = out, err, old
            if cwd:
                os.chdir(here)
    return sim, obs


# ------------------------------------------------------------------- main
def instance_name(plan):
    i = plan["inst"]
    return plan.get("name") or "ccmknap-%d-%d-%d-%d" % (
        i["n"], i["m"], i["N"], plan.get("j", 1))


def instance_file(plan):
    """Path of the instance, relative to the scratch root."""
    return os.path.join(plan.get("folder", ""),
                        instance_name(plan) + plan.get("ext", ".csv"))


def gen_name(r):
    """A name a user may give to an instance of his own."""
    return r.choice(["ccmknap-10-10.v2", "my.knapsack.1", "caseB.2024-05-01",
                     "inst 7", "x", "ccmknap_5_5", "p0.5-n10.final", "A.B",
                     "ccmknap-3-2-5-1-20-0-3", "%s-%d-%s", "1e3"])


def main_names(plan):
    """(row file, log file) under the results folder."""
    base = "%s-%s-%d-%d" % (
        instance_name(plan), "{:.0f}".format(plan["eps"] * 100),
        int(plan["cont"]), plan["method"])
    return base + ".csv", base + "-iter.csv"


def run_main(plan, root, hook=None, raw=None):
    path = os.path.join(root, instance_file(plan))
    core.REAL["makedirs"](os.path.dirname(path), exist_ok=True)
    if raw is None:
        world.write_csv(plan["inst"], path)
    else:
        with core.REAL["open"](path, "wb") as f:
            f.write(raw)
    script = os.path.join(core.REPO, "main.py")
    out = os.path.join(root, RESULTS)
    if plan.get("rel"):     # as run_all_experiments.sh calls it
        path, out = "./" + instance_file(plan), "./" + RESULTS
    argv = [script, path, str(int(plan["cont"])), repr(plan["eps"]),
            str(plan["method"]), out]
    return exec_script(plan, root, argv,
                       lambda: runpy.run_path(script, run_name="__main__"),
                       hook, cwd=root if plan.get("rel") else None)


def files(root, sub=RESULTS):
    d = os.path.join(root, sub)
    out = {}
    if os.path.isdir(d):
        for nm in sorted(os.listdir(d)):
            p = os.path.join(d, nm)
            if os.path.isfile(p):
                with core.REAL["open"](p, "rb") as f:
                    out[nm] = f.read()
    return out


def put(root, content, sub=RESULTS):
    d = os.path.join(root, sub)
    core.REAL["makedirs"](d, exist_ok=True)
    for nm, data in content.items():
        with core.REAL["open"](os.path.join(d, nm), "wb") as f:
            f.write(data)


def wipe(root):
    """An empty scratch folder."""
    assert os.path.basename(os.path.realpath(root)).startswith("dst-")
    if os.path.isdir(root):
        for nm in os.listdir(root):
            p = os.path.join(root, nm)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                core.REAL["unlink"](p)
    else:
        core.REAL["makedirs"](root)


# ----------------------------------------------------------------- export
DEFAULTS = dict(
    ALL_INSTANCES=["ccmknap-10-10", "ccmknap-20-10", "ccmknap-40-30"],
    ALL_SCENARIOS=[500, 1000, 3000, 5000], ALL_EPSILONS=[0.1, 0.2],
    NB_INSTANCES=5)


class _Consts(ast.NodeTransformer):
    """Other experiment lists, by name or else by the value they have."""

    def __init__(self, consts):
        self.consts = consts
        self.done = set()
        self.by_value = None

    def visit_List(self, node):
        for k in self.by_value or ():
            if ast.dump(node) == ast.dump(ast.parse(
                    repr(DEFAULTS[k]), mode="eval").body):
                self.done.add(k)
                return ast.parse(repr(self.consts[k]), mode="eval").body
        return self.generic_visit(node)

    def visit_Assign(self, node):
        t = node.targets[0]
        if self.by_value:
            if "NB_INSTANCES" in self.by_value and \
                    isinstance(node.value, ast.Constant) and \
                    node.value.value == 5:
                self.done.add("NB_INSTANCES")
                node.value = ast.Constant(self.consts["NB_INSTANCES"])
                return node
            return self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(t, ast.Name) \
                and t.id in self.consts and t.id not in self.done:
            self.done.add(t.id)
            node.value = ast.parse(repr(self.consts[t.id]),
                                   mode="eval").body
        return node


def run_export(plan, root, consts, hook=None):
    """export_results.py with other experiment lists, in a scratch root."""
    src = os.path.join(core.REPO, "export_results.py")
    with core.REAL["open"](src) as f:
        tree = ast.parse(f.read(), src)
    tr = _Consts(consts)
    tree = tr.visit(tree)
    if set(consts) - tr.done:
        tr.by_value = (set(consts) - tr.done) & set(DEFAULTS)
        tree = tr.visit(tree)
    ast.fix_missing_locations(tree)
    if tr.done != set(consts):
        raise core.HarnessError("export_results.py no longer has %r"
                                % (set(consts) - tr.done,))
    code = compile(tree, src, "exec")
    script = os.path.join(root, "export_results.py")
    glob = {"__name__": "__main__", "__file__": script}
    core.REAL["makedirs"](os.path.join(root, RESULTS), exist_ok=True)
    sim, obs = exec_script(plan, root, [script], lambda: exec(code, glob),
                           hook, preload=False)
    obs.glob = glob
    return sim, obs


# -------------------------------------------------------------- generator
def run_generator(plan, root, hook=None):
    g = plan["gen"]
    d = os.path.join(root, "gen")
    core.REAL["makedirs"](d, exist_ok=True)
    src = os.path.join(d, "source.txt")
    with core.REAL["open"](src, "w") as f:
        f.write("%d %d %d\n" % (len(g["c"]), len(g["b"]), g["opt"]))
        f.write(" ".join(num(v) for v in g["c"]) + "\n")
        for row in g["A"]:
            f.write(" ".join(num(v) for v in row) + "\n")
        f.write(" ".join(num(v) for v in g["b"]) + "\n")
    script = os.path.join(core.REPO, "data/cc-instances/knapsack",
                          "instance-generator.py")
    argv = [script, src, str(g["S"]), str(g["I"])]
    draws = dict(fail=[], normal=0)
    r = np.random.RandomState(plan["seed"] % 2 ** 32)
    real = {k: getattr(np.random, k)
            for k in ("default_rng", "normal", "binomial")}

    def default_rng(seed=None):
        if seed is None:
            seed = r.randint(2 ** 31)
        rng = real["default_rng"](seed)
        return Rng(rng, g, r) if g.get("extreme") else rng

    def normal(loc=0.0, scale=1.0, size=None):
        v = r.normal(loc, scale, size)
        if g.get("extreme") and size is not None and \
                np.ndim(loc) == 0:
            draws["normal"] += 1
            w = np.asarray(v, dtype=float)
            k = r.random_sample(w.shape)
            tail = np.array([-37.0, -12.0, -10.0, 12.0, 1e-9, 0.0])
            pick = tail[r.randint(len(tail), size=w.shape)]
            w = np.where(k < g["extreme"], loc + pick * scale, w)
            return w
        return v

    def binomial(n, p, size=None):
        v = r.binomial(n, p, size)
        if g.get("allfail") is not None and size is not None and \
                r.random_sample() < g["allfail"]:
            v = np.ones_like(v) * n
        draws["fail"].append(np.array(v))
        return v

    class Patch:
        def __enter__(self):
            np.random.default_rng = default_rng
            np.random.normal = normal
            np.random.binomial = binomial

        def __exit__(self, *e):
            for k, v in real.items():
                setattr(np.random, k, v)

    with Patch():
        sim, obs = exec_script(
            plan, root, argv,
            lambda: runpy.run_path(script, run_name="__main__"),
            hook, preload=False, cwd=d)
    core.REAL["unlink"](src)
    return sim, obs, draws


class Rng:
    """Generator whose exponential draws include the far tail."""

    def __init__(self, rng, g, r):
        self._rng, self._g, self._r = rng, g, r

    def exponential(self, scale=1.0, size=None):
        v = np.asarray(self._rng.exponential(scale, size), dtype=float)
        k = self._r.random_sample(v.shape)
        return np.where(k < 0.2, v * 30.0, np.where(k > 0.9, 0.0, v))

    def __getattr__(self, name):
        return getattr(self._rng, name)


def num(v):
    return str(int(v)) if float(v).is_integer() else repr(float(v))
