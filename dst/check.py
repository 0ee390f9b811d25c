"""Command line: dst.check <property> [--tier quick|thorough]
                 dst.check --replay <file>

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION
line: it is broken.  Exit 2: the check could not decide.
"""
import argparse
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

from . import build

HERE = build.HERE
HANG = float(os.environ.get("DST_HANG", "150"))   # one run, real seconds
W = int(os.environ.get("DST_WORKERS", "8"))
KNOWN = os.path.join(HERE, "known-findings.txt")


class Job:
    """A worker process and what it has written so far."""

    def __init__(self, cfg, where, hashseed="0"):
        self.cfg = cfg
        self.path = cfg["out"]
        self.pos = 0
        env = dict(os.environ, PYTHONHASHSEED=hashseed, PYTHONPATH=HERE,
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   MKL_NUM_THREADS="1", PYTHONWARNINGS="ignore")
        env.pop("PYTHONDONTWRITEBYTECODE", None)
        self.err = open(self.path + ".stderr", "wb")
        self.p = subprocess.Popen(
            [sys.executable, "-W", "ignore", "-m", "dst.worker",
             json.dumps(cfg)], cwd=where, env=env, stdin=subprocess.DEVNULL,
            stdout=self.err, stderr=self.err)
        self.last = time.monotonic()
        self.current = None

    def read(self):
        if not os.path.exists(self.path):
            return []
        with open(self.path, "rb") as f:
            f.seek(self.pos)
            data = f.read()
        cut = data.rfind(b"\n") + 1
        self.pos += cut
        return [json.loads(l) for l in data[:cut].splitlines()]

    def noted(self):
        """The plan being simulated and since when."""
        try:
            age = time.time() - os.stat(self.path + ".cur").st_mtime
            with open(self.path + ".cur") as f:
                return json.load(f), age
        except (OSError, ValueError):
            return None, time.monotonic() - self.last

    def stop(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        self.err.close()

    def stderr(self):
        try:
            with open(self.path + ".stderr", "rb") as f:
                return f.read()[-2000:].decode("utf-8", "replace")
        except OSError:
            return ""


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.monotonic()
        self.tmp = tempfile.mkdtemp(prefix="dst-run-", dir="/tmp")
        self.build = build.extension()
        self.cache = os.path.join(self.tmp, "pyc")
        self.k = 0
        self.errors = []

    def cfg(self, **kw):
        self.k += 1
        return dict(prop=self.prop, build=self.build, cache=self.cache,
                    out=os.path.join(self.tmp, "w%d" % self.k),
                    seed=self.seed, **kw)

    def once(self, limit, hashseed="0", **kw):
        """One job to its end; list of records, or None if it hangs."""
        job = Job(self.cfg(**kw), self.tmp, hashseed)
        end = time.monotonic() + limit
        recs = []
        while True:
            code = job.p.poll()
            recs += job.read()
            if code is not None:
                break
            if time.monotonic() > end:
                job.stop()
                recs += job.read()
                return recs, True
            time.sleep(0.02)
        job.stop()
        if code != 0 and not recs:
            self.errors.append("worker ended with %s: %s"
                               % (code, job.stderr()))
        return recs, False

    def replay(self, plan, hashseed="0", seconds=None):
        recs, hung = self.once(seconds or HANG, hashseed, mode="replay",
                               plan=plan)
        for r in recs:
            if r["t"] == "replay":
                return r
        if hung:
            return dict(viol=[dict(cls="hang", what="the run does not come "
                                   "to an end (%d s)" % HANG)], digest="",
                        log=[], fired={}, cmp=None)
        return None

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # --------------------------------------------------------------- search
    def search(self, P):
        count = P.thorough if self.tier == "thorough" else P.quick
        count = int(os.environ.get("DST_COUNT", count))
        cap = float(os.environ.get(
            "DST_SECONDS", 3000 if self.tier == "thorough" else 260))
        pools = [("0", W)]
        if P.hashseeds:
            h = max(1, W // 2)
            pools = [("0", h), ("4242", h)]
        jobs = []
        for hs, n in pools:
            for w in range(n):
                jobs.append(Job(self.cfg(mode="search", w=w, W=n,
                                         count=count, seconds=cap),
                                self.tmp, hs))
                jobs[-1].pool = hs
        s = dict(count=count, fams=0, runs=0, sims=0, nontrivial=0,
                 simtime=0.0, fired={}, probes={}, n={}, ends={},
                 distinct=set(), distinct_nt=set(), paths=set(), samples=[],
                 inconclusive=0, capped=False, cmp={}, slowest=0.0,
                 byfam={}, again=(0, 0))
        found = []
        live = list(jobs)
        grace = None
        while live:
            for job in list(live):
                done = job.p.poll() is not None
                for rec in job.read():
                    job.last = time.monotonic()
                    self.take(s, job, rec, found)
                if done:
                    live.remove(job)
                    job.stop()
                    if job.p.returncode:
                        self.hard_end(job, found)
                    continue
                cur, age = job.noted()
                if age > HANG:
                    job.stop()
                    live.remove(job)
                    self.hung(job, cur, found)
            if len(self.errors) > 40:
                break
            if self.unlisted(found):
                grace = grace or time.monotonic() + 1.0
                if time.monotonic() > grace:
                    break
            time.sleep(0.05)
        for job in live:
            job.stop()
        if P.hashseeds:
            for i, per in sorted(s["cmp"].items()):
                if len(per) == 2 and len({tuple(v) for v in
                                          per.values()}) > 1:
                    found.append(dict(i=i, j=0, plan=None, digest="", viol=[
                        dict(cls="differs_across_hash_seeds", what="family "
                             "%d goes differently under another "
                             "PYTHONHASHSEED" % i)]))
                    break
        return s, found

    def again(self, s):
        """Some families once more, in another process and under another
        hash seed: how many go exactly as before (evidence only)."""
        errors = list(self.errors)
        recs, _ = self.once(60, "7", mode="search", w=0,
                            W=max(1, s["count"] // 16), count=s["count"],
                            seconds=5)
        self.errors = errors
        fams = [r for r in recs if r["t"] == "fam" and r["i"] in s["byfam"]]
        s["again"] = (len(fams), sum(r["dig"] == s["byfam"][r["i"]]
                                     for r in fams))

    def take(self, s, job, r, found):
        t = r["t"]
        if t == "fam":
            s["fams"] += 1
            for k in ("runs", "sims", "nontrivial", "simtime"):
                s[k] += r[k]
            for k in ("fired", "probes", "n", "ends"):
                for a, b in r[k].items():
                    s[k][a] = s[k].get(a, 0) + b
            for d, nt in r["dig"]:
                s["distinct"].add(d)
                if nt:
                    s["distinct_nt"].add(d)
            s["paths"].update(r["paths"])
            s["byfam"].setdefault(r["i"], r["dig"])
            s["slowest"] = max(s["slowest"], r["wall"])
            if r["cmp"]:
                s["cmp"].setdefault(r["i"], {})[job.pool] = r["cmp"]
        elif t == "viol":
            found.append(r)
        elif t == "err":
            self.errors.append("family %d: %s" % (r["i"], r["tb"]))
        elif t == "inconclusive":
            s["inconclusive"] += 1
        elif t == "cap":
            s["capped"] = True
        elif t == "sample" and len(s["samples"]) < 3:
            s["samples"].append({k: r[k] for k in (
                "i", "plan", "end", "fired", "events")})

    def hard_end(self, job, found):
        """The worker died: does its last plan kill the interpreter?"""
        cur, _ = job.noted()
        if cur is not None and job.p.returncode < 0 and \
                job.p.returncode not in (-9, -15):
            found.append(dict(i=cur["i"], j=0, plan=cur["plan"], digest="",
                              viol=[dict(cls="process_died", what="the "
                                         "interpreter died with signal %d"
                                         % -job.p.returncode)]))
        else:
            self.errors.append("worker ended with %s: %s"
                               % (job.p.returncode, job.stderr()))

    def hung(self, job, cur, found):
        if cur is None:
            self.errors.append("a worker does not start: " + job.stderr())
            return
        r = self.replay(cur["plan"])
        if r is not None and any(v["cls"] == "hang" for v in r["viol"]):
            found.append(dict(i=cur["i"], j=0, plan=cur["plan"], digest="",
                              viol=r["viol"]))
        else:
            self.errors.append("a run of family %s took over %d s once"
                               % (cur["i"], HANG))

    # --------------------------------------------------------------- known
    def known(self):
        out = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                for line in f:
                    m = re.match(r"known: property=(\S+) cls=(\S+) "
                                 r"match=/(.*?)/ (.*)", line)
                    if m and m.group(1) == self.prop:
                        out.append(m.groups()[1:])
        return out

    def listed(self, v):
        for cls, rx, what in self.known():
            if v["cls"] == cls and re.search(rx, v["what"]):
                return what
        return None

    def unlisted(self, found):
        return [(f, v) for f in found for v in f["viol"]
                if self.listed(v) is None]

    # -------------------------------------------------------------- report
    def report(self, f, v):
        """Minimise, confirm, write the replay file; its path."""
        plan, cls = f["plan"], v["cls"]
        rep = dict(property=self.prop, violation=v, cls=cls, seed=self.seed,
                   family=f["i"], variant=f.get("j", 0), plan=plan,
                   hashseeds=None)
        if cls == "differs_across_hash_seeds":
            rep["hashseeds"] = ["0", "4242"]
            rep["plan"] = self.family_plan(f["i"])
        elif cls not in ("hang", "process_died"):
            recs, _ = self.once(60 + HANG, mode="minimise", plan=plan,
                                cls=cls, seconds=45)
            best = [r for r in recs if r["t"] == "min" and r["ok"]]
            if best:
                rep["plan"] = best[-1]["plan"]
                rep["minimised_in"] = best[-1].get("tried")
                if rep["plan"] != plan:
                    rep["original_plan"] = plan
            r = self.replay(rep["plan"])
            if r is None or not any(x["cls"] == cls for x in r["viol"]):
                rep["plan"] = plan       # what was found, as it was found
                r = self.replay(plan)
            rep["reproduced"] = bool(r) and any(
                x["cls"] == cls for x in r["viol"])
            if r:
                rep["violation"] = next((x for x in r["viol"]
                                         if x["cls"] == cls), v)
                rep["digest"] = r["digest"]
                rep["events"] = r["log"]
        name = "%s-%s-%s.json" % (self.prop, cls, hashlib.sha256(
            json.dumps(rep["plan"], sort_keys=True).encode()
        ).hexdigest()[:10])
        d = os.path.join(HERE, "replays")
        try:
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, name)
            with open(path, "w") as out:
                json.dump(rep, out, indent=1)
        except OSError:
            path = os.path.join(tempfile.gettempdir(), name)
            with open(path, "w") as out:
                json.dump(rep, out, indent=1)
        return path, rep

    def plain_report(self, f, v):
        path = os.path.join(tempfile.gettempdir(), "%s-%s-%d.json"
                            % (self.prop, v["cls"], f["i"]))
        with open(path, "w") as out:
            json.dump(dict(property=self.prop, violation=v, cls=v["cls"],
                           seed=self.seed, family=f["i"], plan=f["plan"],
                           hashseeds=None), out)
        return path

    def family_plan(self, i):
        import random
        from .worker import props
        P = props()[self.prop]()
        return P.gen(random.Random("%s|%s|%s" % (self.seed, self.prop, i)))

    def evidence(self, P, s, wall, nviol, level):
        hours = wall / 3600.0
        ev = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level=level,
            wall_s=round(wall, 2), violations=nviol,
            assumptions=[
                "Gurobi's arithmetic is right within its tolerances; time, "
                "cut-offs, failures, interrupts and the choice among optimal "
                "solutions are the simulator's",
                "signals are taken where CPython takes them: on entry of a "
                "function of the repository and, in a share of the families,"
                " after a builtin returns and when a loop goes round",
                "sampling, not exhaustive: absence of a violation is "
                "evidence for the plans explored"],
            coverage=dict(
                evaluations=s["runs"],
                distinct_nontrivial=len(s["distinct_nt"]),
                rule=P.rule, samples=s["samples"],
                families_planned=s["count"], families_explored=s["fams"],
                stopped_by_time_cap=s["capped"],
                simulated_processes=s["sims"],
                distinct_runs=len(s["distinct"]),
                distinct_schedules=len(s["paths"]),
                schedule_measure="hash of the sequence of solver calls, "
                "signals, disk operations and faults with their outcomes, "
                "times left out",
                simulated_runs_per_hour=int(s["sims"] / hours),
                seeds_per_hour=int(s["runs"] / hours),
                simulated_seconds=round(s["simtime"], 1),
                faults_injected=dict(sorted(s["fired"].items())),
                rare_conditions=dict(sorted(s["probes"].items())),
                events=dict(functions_entered=s["n"].get("call", 0),
                            loop_steps=s["n"].get("jump", 0),
                            solver_calls=s["n"].get("opt", 0),
                            disk_operations=s["n"].get("io", 0),
                            clock_readings=s["n"].get("time", 0)),
                endings=dict(sorted(s["ends"].items())),
                inconclusive=s["inconclusive"],
                resimulated_families=dict(
                    what="simulated once more by another process under "
                    "another PYTHONHASHSEED; event logs compared",
                    families=s["again"][0], identical=s["again"][1]),
                digest_of_all_runs=hashlib.sha256("".join(sorted(
                    s["distinct"])).encode()).hexdigest(),
                slowest_family_s=s["slowest"],
                components_real=P.real, components_simulated=P.stub,
                workers=W))
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.tmp" % self.prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, self.prop + ".json"))


def run_replay(path):
    with open(path) as f:
        rep = json.load(f)
    c = Check(rep["property"], "quick", rep.get("seed", 1))
    try:
        if rep.get("hashseeds"):
            out = [c.replay(rep["plan"], h) for h in rep["hashseeds"]]
            bad = all(out) and len({r["cmp"] for r in out}) > 1
            got = out[0]
        else:
            got = c.replay(rep["plan"])
            bad = bool(got) and any(v["cls"] == rep["cls"]
                                    for v in got["viol"])
        if got is None:
            print("\n".join(c.errors))
            return 2
        for v in got["viol"]:
            print("%s: %s" % (v["cls"], v["what"]))
        if rep.get("digest"):
            print("event log %s" % ("identical" if got["digest"]
                                    == rep["digest"] else "differs"))
        if bad:
            print("VIOLATION property=%s replay=%s"
                  % (rep["property"], path))
            return 1
        print("not reproduced on this tree")
        return 0
    finally:
        c.close()


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop", nargs="?")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--replay")
    a = a.parse_args()
    if a.replay:
        return run_replay(a.replay)
    from .worker import props
    P = props()[a.prop]()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if a.tier == "thorough" else "quick"
    c = Check(a.prop, tier, seed)
    try:
        s, found = c.search(P)
        bad = c.unlisted(found)
        if not bad and not c.errors:
            c.again(s)
        for what in sorted({c.listed(v) for f in found for v in f["viol"]}
                           - {None}):
            print("KNOWN-FINDING: property=%s %s" % (a.prop, what))
        wall = time.monotonic() - c.t0
        c.evidence(P, s, wall, len(bad), P.level)
        print("%s %s: %d families, %d runs, %d simulated processes, %d "
              "distinct non-trivial, %.0f simulated s, faults %s, %.1f s"
              % (a.prop, tier, s["fams"], s["runs"], s["sims"],
                 len(s["distinct_nt"]), s["simtime"],
                 json.dumps(s["fired"], sort_keys=True), wall))
        if bad:
            f, v = min(bad, key=lambda t: (t[0]["i"], t[0].get("j", 0)))
            try:
                path, rep = c.report(f, v)
                v = rep["violation"]
            except Exception as e:       # the violation stands all the same
                path = c.plain_report(f, v)
                print("minimising failed: %s: %s" % (type(e).__name__, e))
            print("%s: %s" % (v["cls"], v["what"]))
            others = sorted({x["cls"] for _, x in bad} - {v["cls"]})
            if others:
                print("also seen: " + ", ".join(others))
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
            return 1
        if c.errors:
            print("ERROR: the check could not decide (%d errors)"
                  % len(c.errors))
            print(c.errors[0])
            return 2
        if s["fams"] < max(1, s["count"] // 20) or not s["distinct_nt"]:
            print("ERROR: too little was explored (%d of %d families)"
                  % (s["fams"], s["count"]))
            return 2
        return 0
    finally:
        c.close()


if __name__ == "__main__":
    sys.exit(main())
