"""Scaffolding of the checks: parallel replay, confirmation, evidence, exit status."""
import concurrent.futures as cf, json, os, random, sys, time, traceback

import srv

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", os.path.join(VERIF, "out"))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.quick = self.tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        self.t0 = time.time()
        self.level = level
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.models = []
        self.assumptions = []
        self.counts = {}
        self.violations = []
        self.known_hit = []
        self.exhaustive = None
        self.known = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                l = l.strip()
                if l.startswith("known: property=%s " % prop):
                    self.known.append(l.split(" ", 2)[2])

    def model(self, res, what):
        """account for a TLC run"""
        self.states += res.distinct
        self.transitions += res.generated
        self.models.append({"what": what, "states": res.distinct, "generated": res.generated, "depth": res.depth})
        return res

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, what, scenario):
        key = json.dumps(what, default=str)
        for k in self.known:
            if k.split(" :: ")[0] in key or k.split(" :: ")[0] in json.dumps(scenario, default=str):
                if k not in self.known_hit:
                    self.known_hit.append(k)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
                return
        d = os.path.join(OUT, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "scenario": scenario}, f, indent=1, default=str)
        self.violations.append(p)
        if len(self.violations) <= 3:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  " + str(what)[:1500])
            sys.stdout.flush()

    def replay(self, fn, scenarios, chunk=40, workers=8, budget=None, confirm=2, stop_after=3):
        """Run fn(list of scenarios) -> list of None | mismatch, in worker
        processes.  A mismatch counts only if it repeats when the scenario is
        run again on its own."""
        scenarios = list(scenarios)
        parts = [scenarios[i:i + chunk] for i in range(0, len(scenarios), chunk)]
        bad = []
        first = None
        done = 0
        with cf.ProcessPoolExecutor(workers) as ex:
            fut = {}
            it = iter(parts)
            stop = False

            def feed():
                nonlocal stop
                while not stop and len(fut) < workers * 2:
                    try:
                        p = next(it)
                    except StopIteration:
                        return
                    fut[ex.submit(guarded, fn, p)] = p
            feed()
            while fut:
                ready, _ = cf.wait(fut, return_when=cf.FIRST_COMPLETED)
                for f in ready:
                    p = fut.pop(f)
                    r = f.result()
                    done += len(p)
                    for s, m in zip(p, r):
                        if m is not None:
                            bad.append((s, m))
                if bad and first is None:
                    first = time.time()
                if len(bad) >= 40 or first and time.time() - first > 45 or (budget and time.time() - self.t0 > budget):
                    stop = True
                feed()
        self.traces += done
        if done < len(scenarios):
            self.counts["not_run_budget"] = self.counts.get("not_run_budget", 0) + len(scenarios) - done
        confirmed = 0
        flaky = 0
        with cf.ProcessPoolExecutor(1) as ex:
            for s, m in bad:
                if confirmed >= stop_after or flaky > 12 or confirmed and time.time() - self.t0 > (400 if self.quick else 1e9):
                    break
                again = []
                for _ in range(confirm):
                    again += ex.submit(afresh, fn, [s]).result()
                    if again[-1] is None:
                        break
                if all(a is not None for a in again):
                    confirmed += 1
                    self.violation(m, s)
                else:
                    flaky += 1
                    sys.stderr.write("not reproduced: %s\n" % str(m)[:600])
        if flaky:
            self.counts["not_reproduced"] = self.counts.get("not_reproduced", 0) + flaky
        return not bad

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples,
               "models": self.models}
        cov.update(self.counts)
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        ev = {"property": self.prop, "tier": "thorough" if not self.quick else "quick", "seed": self.seed,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %s, %d model states, %d traces, %.1f s" % (
            self.prop, "VIOLATED" if self.violations else "held", self.states, self.traces, time.time() - self.t0))
        return 1 if self.violations else 0


def afresh(fn, part):
    srv.Stuck.n = 0
    return guarded(fn, part)


def guarded(fn, part):
    try:
        r = fn(part)
        assert len(r) == len(part)
        return r
    except Exception:
        return ["driver failed: " + traceback.format_exc()[-1500:]] * len(part) if len(part) == 1 else \
            [guarded(fn, [p])[0] for p in part]


def main(checks):
    """run.py <property>"""
    prop = sys.argv[1]
    c = Check(prop)
    checks[prop](c)
    sys.exit(c.finish())
