"""The shell scripts that drive a whole campaign, with simulated children."""
import copy
import os
import random
import shutil
import signal
import subprocess

from . import core, script, script_props
from .judge import Viol
from .runner_base import Prop, Result

SCRIPTS = ("run_all_experiments.sh",
           "data/cc-instances/knapsack/generate-all-instances.sh")

# Stands for the Python interpreter: records the call, then does what the
# plan wants of this call.  Shell builtins only.
STUB = r"""#!/bin/sh
read n < "$DST_DIR/n"
n=$((n+1))
echo $n > "$DST_DIR/n"
s=""
for a in "$@"; do s="$s$a|"; done
echo "B|$n|$PWD|$s" >> "$DST_DIR/calls"
if [ $n -gt 4000 ]; then kill -9 $PPID; exit 1; fi
# the files this call is about: $out for an experiment, $first to $last
out=; first=
case "$PWD" in "$DST_ROOT"*) here=1;; *) here=;; esac
case "$6" in /*|*..*) here=;; esac
if [ -n "$here" ] && [ $# = 6 ]; then
  b="${2##*/}"; e="${4#*.}"
  case "$e" in ?) e="${e}0";; esac
  case "$6" in */) [ -d "$6" ] || { [ -d "${6%tables/}" ] || \
    $DST_MKDIR "${6%tables/}"; $DST_MKDIR "$6"; };; esac
  out="$6${b%.csv}-$e-$3-$5"
elif [ -n "$here" ] && [ $# = 4 ] && [ -f "$2" ]; then
  read nn mm rest < "$2"
  first="ccmknap-$nn-$mm-$3-"
fi
if [ -f "$DST_DIR/f.$n" ]; then . "$DST_DIR/f.$n"; fi
if [ -n "$out" ]; then echo "row" > "$out.csv"; echo log > "$out-iter.csv"; fi
if [ -n "$first" ]; then
  i=1; while [ $i -le "$4" ]; do echo instance > "$first$i.csv"; i=$((i+1)); done
fi
echo "E|$n" >> "$DST_DIR/calls"
exit 0
"""
SLEEP = r"""#!/bin/sh
echo "S|$1" >> "$DST_DIR/calls"
exit 0
"""

# what a call that fails may leave behind
LEFT = {
    "nothing": "",
    "log": '[ -n "$out" ] && echo log > "$out-iter.csv"\n',
    "temp": '[ -n "$out" ] && echo part > "$out.csv.tmp"\n',
    "some": '[ -n "$first" ] && echo instance > "${first}1.csv"\n'
            '[ -n "$out" ] && echo log > "$out-iter.csv"\n',
}

ACTS = {
    "fail": 'exit 1',                       # error exit
    "fail2": 'exit 137',
    "oom": 'ulimit -c 0; kill -9 $$',       # the child is killed
    "sigint": 'ulimit -c 0; kill -INT $$',  # as main.py when interrupted
    "abort": 'ulimit -c 0; kill -ABRT $$',
    "sigterm": 'ulimit -c 0; kill -TERM $$',
    "noisy": 'echo Traceback >&2; echo "-n * ? \\$x"; exit 3',
    "killdriver": 'kill -9 $PPID; exit 1',  # the whole campaign is killed
}


class Campaign:
    def __init__(self, root):
        self.root = root
        self.dir = os.path.join(root, ".stub")
        self.bin = os.path.join(self.dir, "bin")
        core.REAL["makedirs"](self.bin)
        for nm, text in (("python", STUB), ("python3", STUB),
                         ("sleep", SLEEP)):
            p = os.path.join(self.bin, nm)
            with core.REAL["open"](p, "w") as f:
                f.write(text)
            os.chmod(p, 0o755)

    def run(self, rel, faults):
        """Run one script; list of (number, folder, arguments, outcome)."""
        for nm in os.listdir(self.dir):
            if nm != "bin":
                core.REAL["unlink"](os.path.join(self.dir, nm))
        with core.REAL["open"](os.path.join(self.dir, "n"), "w") as f:
            f.write("0\n")
        for flt in faults:
            with core.REAL["open"](os.path.join(
                    self.dir, "f.%d" % flt["n"]), "w") as f:
                f.write(LEFT[flt.get("left", "nothing")]
                        + ACTS[flt["do"]] + "\n")
        path = os.path.join(self.root, rel)
        env = {"PATH": self.bin + ":/usr/local/bin:/usr/bin:/bin",
               "DST_DIR": self.dir, "DST_ROOT": self.root,
               "DST_MKDIR": shutil.which("mkdir"), "HOME": self.root, "LC_ALL": "C"}
        p = subprocess.Popen(
            ["bash", "./" + os.path.basename(rel)],
            cwd=os.path.dirname(path), env=env, stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
            start_new_session=True,
            preexec_fn=lambda: signal.signal(signal.SIGINT, signal.SIG_DFL))
        ended = True
        try:
            p.wait(120)
        except subprocess.TimeoutExpired:
            ended = False
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        return self.read(), ended

    def read(self):
        calls, slept, overlap, live = [], 0.0, 0, None
        p = os.path.join(self.dir, "calls")
        if not os.path.exists(p):
            return calls, slept, overlap
        with core.REAL["open"](p) as f:
            lines = f.read().splitlines()
        byn = {}
        for ln in lines:
            w = ln.split("|")
            if w[0] == "B":
                if live is not None and live not in self.mortal:
                    overlap += 1
                live = int(w[1])
                c = dict(n=live, cwd=w[2], args=w[3:-1], ok=False)
                byn[live] = c
                calls.append(c)
            elif w[0] == "E":
                if int(w[1]) in byn:
                    byn[int(w[1])]["ok"] = True
                if live == int(w[1]):
                    live = None
            elif w[0] == "S":
                try:
                    slept += float(w[1])
                except (ValueError, IndexError):
                    pass
        return calls, slept, overlap

    mortal = ()


class C16(Prop):
    id = "C16"
    quick, thorough = 36, 2500
    variants_per_base = 2
    real = ["run_all_experiments.sh", "generate-all-instances.sh", "bash",
            "export_results.py", "src/export"]
    stub = ["python (each experiment and each generator call: outcome, "
            "duration and result row decided by the simulator)", "sleep"]
    rule = ("one simulated campaign per case: instance generation, all "
            "experiments, export; every child call's outcome is drawn "
            "(success, error exit, killed, interrupted, campaign killed and "
            "restarted); non-trivial when a child failed or the campaign was"
            " killed; distinct by the digest of all calls and tables")

    def gen(self, r):
        return dict(kind="shell", seed=r.randrange(10 ** 9), faults=[],
                    gfaults=[], style=r.choice(["solved", "mixed", "near"]),
                    clock=dict(tick=1e-3), budget=3_000_000)

    def variants(self, plan, base, r):
        for _ in range(self.variants_per_base):
            p = copy.deepcopy(plan)
            p["seed"] = r.randrange(10 ** 9)
            kinds = [k for k in ACTS if k != "killdriver"]
            total = max(1, base.n.get("call", 960))
            u = r.random()
            if u < 0.3:         # a stretch in which nothing works
                a = r.randint(1, total)
                k = r.choice(kinds)
                p["faults"] = [dict(n=i, do=k) for i in
                               range(a, a + r.choice([1, 3, 40]))]
            else:
                p["faults"] = [dict(n=n, do=r.choice(kinds)) for n in
                               sorted(r.sample(range(1, total + 1),
                                               r.choice([1, 2, 10, 60])))]
            if r.random() < 0.4:
                p["faults"].append(dict(n=r.randint(1, total),
                                        do="killdriver"))
            if r.random() < 0.5:
                p["gfaults"] = [dict(n=n, do=r.choice(list(ACTS)))
                                for n in r.sample(range(1, 33),
                                                  r.choice([1, 1, 3]))]
            for f in p["faults"] + p["gfaults"]:
                f["left"] = r.choice(list(LEFT))
            yield p

    def judge(self, plan, root):
        V = Viol()
        script.wipe(root)
        root = os.path.realpath(root)
        gdir = os.path.join(root, "data/cc-instances/knapsack")
        core.REAL["makedirs"](gdir)
        for rel in SCRIPTS:
            src = os.path.join(core.REPO, rel)
            if not os.path.exists(src):
                raise core.HarnessError("%s is gone" % rel)
            shutil.copyfile(src, os.path.join(root, rel))
        shutil.copytree(os.path.join(core.REPO, "data/orlib"),
                        os.path.join(root, "data/orlib"))
        for nm in ("main.py", "export_results.py",
                   "data/cc-instances/knapsack/instance-generator.py"):
            with core.REAL["open"](os.path.join(root, nm), "w") as f:
                f.write("# stands for %s\n" % nm)
        C = Campaign(root)
        fired, probes, simtime, calls_n = {}, {}, 0.0, 0
        h = core.hashlib.sha256()

        def run(rel, faults):
            nonlocal simtime, calls_n
            C.mortal = {f["n"] for f in faults}
            (calls, slept, overlap), ended = C.run(rel, faults)
            simtime += slept
            calls_n += len(calls)
            for f in faults:
                if any(c["n"] == f["n"] and not c["ok"] for c in calls):
                    fired["child_" + f["do"]] = \
                        fired.get("child_" + f["do"], 0) + 1
            h.update(repr([(c["n"], c["cwd"].replace(root, ""), c["args"],
                            c["ok"]) for c in calls]).encode())
            if not ended or len(calls) > 4000:
                V.add("campaign_does_not_end", "%s makes %d calls"
                      % (rel, len(calls)))
            if overlap:
                V.add("experiments_overlap", "%s starts a call while another"
                      " one runs" % rel)
            return calls

        def killed(faults, calls):
            return any(f["do"] == "killdriver" and any(
                c["n"] == f["n"] for c in calls) for f in faults)

        # the first campaign runs into the faults, the second one does not
        gen1 = run(SCRIPTS[1], plan["gfaults"])
        made = self.generated(V, gdir, gen1)
        if plan["gfaults"]:
            gen2 = run(SCRIPTS[1], [])
            again = self.generated(V, gdir, gen2)
            if not killed(plan["gfaults"], gen1):
                want = [c["args"] for c in gen2]
                have = [c["args"] for c in gen1]
                if not set(map(repr, want)) <= set(map(repr, have)):
                    V.add("generation_given_up", "%d generator calls, %d "
                          "when all succeed" % (len(have), len(want)))
            made |= again
        for nm in made:
            with core.REAL["open"](os.path.join(gdir, nm), "w") as f:
                f.write("instance\n")

        # what the export is going to read
        reads = []

        def note_reads(sim, obs):
            sim.between = lambda k, op, path: (
                reads.append(os.path.basename(path)) if op == "ropen"
                else None)
        sim, obs = script.run_export(dict(plan, faults=[]), root, {},
                                     note_reads)
        glob = obs.glob
        consts = {k: glob.get(k) for k in script.DEFAULTS}
        expected = {}
        if any(v is None for v in consts.values()):
            # the lists have other names: what does it look for?
            for nm in reads:
                t = nm[:-4].rsplit("-", 5)
                if nm.endswith(".csv") and len(t) == 6:
                    expected[nm] = (t[0], int(t[1]), int(t[2]),
                                    int(t[3]) / 100, int(t[4]), int(t[5]))
            t = list(expected.values())
            consts = dict(
                ALL_INSTANCES=list(dict.fromkeys(v[0] for v in t)),
                ALL_SCENARIOS=list(dict.fromkeys(v[1] for v in t)),
                ALL_EPSILONS=list(dict.fromkeys(v[3] for v in t)),
                NB_INSTANCES=max([v[2] for v in t], default=0))
        for nm in consts["ALL_INSTANCES"]:
            for s in consts["ALL_SCENARIOS"]:
                for j in range(1, consts["NB_INSTANCES"] + 1):
                    for e in consts["ALL_EPSILONS"]:
                        for c in (0, 1):
                            for m in (1, 2, 3, 4):
                                expected["%s-%d-%d-%s-%d-%d.csv" % (
                                    nm, s, j, "{:.0f}".format(e * 100), c,
                                    m)] = (nm, s, j, e, c, m)
        rows = {}
        for k, faults in enumerate([plan["faults"], []]):
            if k and not plan["faults"]:
                break
            tables = os.path.join(root, "results/tables")
            there = set(os.listdir(tables)) if os.path.isdir(tables) \
                else set()
            calls = run(SCRIPTS[0], faults)
            done = self.experiments(V, root, gdir, made, calls)
            count = {}
            for nm, ok, args in done:
                count[nm] = count.get(nm, 0) + 1
                if ok:
                    rows.setdefault(nm, args)
            cut = killed(faults, calls)
            if not cut:
                miss = sorted(set(expected) - set(count) - there)
                if miss:
                    V.add("experiment_never_run", "%d of %d experiments of "
                          "the tables are never run%s, e.g. %s"
                          % (len(miss), len(expected), " after failures"
                             if faults else "", miss[0]))
            twice = [nm for nm in count if count[nm] > 1]
            if twice:
                V.add("experiment_run_twice", "%d experiments, e.g. %s run "
                      "%d times" % (len(twice), twice[0], count[twice[0]]))
        # every row in place, the tables have no gap
        shutil.rmtree(tables, ignore_errors=True)
        core.REAL["makedirs"](tables)
        r = random.Random("rows|%s" % plan["seed"])
        text = {}
        for nm in sorted(rows):
            if nm not in expected:
                continue
            inst, s, j, e, c, m = expected[nm]
            n, mm = inst.split("-")[1:]
            text[nm] = script_props.gen_row(
                r, plan["style"], "%s-%d-%d" % (inst, s, j), n, mm, s, c, e,
                m)
        script.put(root, {k: v.encode() for k, v in text.items()})
        sim2, obs2 = script.run_export(dict(plan, faults=[]), root, {})
        if obs2.end != "done":
            V.add("export_failed", "export ended with %s %s"
                  % (obs2.end, obs2.exc))
        else:
            vals = {k: [v.split(",")[0]] + [float(x) for x in
                                            v.split(",")[1:]]
                    for k, v in text.items()}
            got = script.files(root, "results")
            sim2.digest.update(repr(sorted(got.items())).encode())
            script_props.check_tables(V, consts, vals, got)
        for k, v in fired.items():
            sim2.fired[k] = sim2.fired.get(k, 0) + v
        sim2.digest.update(h.digest())
        sim2.path.update(h.digest())
        sim2.n["call"] = calls_n
        sim2.mono += simtime
        res = Result(sim2, V, bool(fired), dict(end=obs2.end, exc=obs2.exc))
        res.sims = 1 + calls_n
        res.log = [["fault"] + [f["n"], f["do"]] for f in
                   plan["gfaults"] + plan["faults"]]
        return res

    @staticmethod
    def generated(V, gdir, calls):
        """Instance files the successful generator calls stand for."""
        made = set()
        for c in calls:
            a = c["args"]
            try:
                where = os.path.realpath(c["cwd"])
                prog = os.path.realpath(os.path.join(where, a[0]))
                src = os.path.realpath(os.path.join(where, a[1]))
                S, I = int(a[2]), int(a[3])
                assert len(a) == 4 and S > 0 and I > 0
                assert prog == os.path.join(gdir, "instance-generator.py")
                assert where == gdir
                with core.REAL["open"](src) as f:
                    n, m = f.readline().split()[:2]
            except (AssertionError, ValueError, IndexError, OSError) as e:
                V.add("wrong_generator_call", "call %r in %s: %s"
                      % (a, c["cwd"][len(gdir):], type(e).__name__))
                continue
            if c["ok"]:
                made |= {"ccmknap-%s-%s-%d-%d.csv" % (n, m, S, j)
                         for j in range(1, I + 1)}
        return made

    @staticmethod
    def experiments(V, root, gdir, made, calls):
        """(row file, finished, arguments) of each experiment started."""
        out = []
        for c in calls:
            a = c["args"]
            try:
                where = os.path.realpath(c["cwd"])
                assert len(a) == 6, "arguments"
                prog = os.path.realpath(os.path.join(where, a[0]))
                assert prog == os.path.join(root, "main.py"), "main.py"
                inst = os.path.realpath(os.path.join(where, a[1]))
                assert os.path.dirname(inst) == gdir, "folder of instances"
                nm = os.path.basename(inst)
                assert nm in made, "no such instance"
                cont, eps, meth = int(a[2]), float(a[3]), int(a[4])
                assert cont in (0, 1) and 0 < eps < 1, "parameters"
                assert meth in (1, 2, 3, 4), "method"
                # main.py appends the file name to what it is given
                res = os.path.join(where, a[5] + "x")
                assert os.path.realpath(os.path.dirname(res)) == \
                    os.path.join(root, "results/tables") and \
                    os.path.basename(res) == "x", "results folder"
            except (AssertionError, ValueError) as e:
                V.add("wrong_experiment", "call %r: %s" % (a, e))
                continue
            out.append(("%s-%s-%d-%d.csv" % (
                nm[:-4], "{:.0f}".format(eps * 100), cont, meth),
                c["ok"], a))
        return out
