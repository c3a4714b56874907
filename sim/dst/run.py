"""Runner: seeded search, minimisation, replay, evidence.

  python -m dst.run ID [--tier quick|thorough] [--replay FILE] [--runs N] [--digests FILE]
"""
import argparse
import gc
import hashlib
import importlib
import json
import os
import select
import signal
import subprocess
import sys
import time
import traceback

from . import core
from .core import Stats, Unsupported, Violation, rng_of, seed_of

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
_now = time.monotonic


def load_prop(pid):
    return importlib.import_module("dst.props." + pid.lower())


def run_plan(prop, plan):
    """One run in this process -> outcome dict."""
    st = Stats()
    out = {"status": "ok"}
    try:
        prop.execute(plan, st)
    except Violation as v:
        out = {"status": "violation", "kind": v.kind, "detail": v.detail, "key": v.key}
    except Unsupported as e:
        out = {"status": "unsupported", "detail": str(e)[:300]}
    except MemoryError as e:
        out = {"status": "harness", "detail": "MemoryError " + core.where(e, 8)}
    except Exception as e:
        if core.unsupported(e):
            out = {"status": "unsupported", "detail": "%s: %s" % (type(e).__name__, str(e)[:300])}
        else:
            out = {"status": "harness", "detail": "%s: %s | %s" % (type(e).__name__, str(e)[:300], core.where(e, 8))}
    out["st"] = st.dump()
    if out["status"] in ("violation", "harness"):
        out["trace"] = st.trace[-60:]
    return out


class Child:
    """A forked process executing some plans one after another, one JSON line per plan."""

    def __init__(self, prop, items):
        # items: list of (idx, plan or None); None = generate in the child
        self.items = items
        self.done = []
        self.buf = b""
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                os.setpgid(0, 0)
                dn = os.open(os.devnull, os.O_RDWR)
                if not os.environ.get("DST_DEBUG"):
                    os.dup2(dn, 1)
                    os.dup2(dn, 2)
                os.dup2(dn, 0)
                for idx, plan in items:
                    t = _now()
                    if callable(plan):
                        plan = plan()
                    o = run_plan(prop, plan)
                    o["idx"], o["wall"] = idx, _now() - t
                    if o["status"] in ("violation", "harness"):
                        o["plan"] = plan
                    data = (json.dumps(o) + "\n").encode()
                    while data:
                        n = os.write(w, data)
                        data = data[n:]
                code = 0
            except BaseException:
                try:
                    os.write(w, (json.dumps({"idx": -1, "status": "harness", "detail": traceback.format_exc()[-800:], "st": Stats().dump()}) + "\n").encode())
                except Exception:
                    pass
            finally:
                os._exit(code)
        os.close(w)
        self.pid, self.fd, self.last = pid, r, _now()

    def feed(self):
        """Read available output; returns (new outcomes, eof)."""
        data = os.read(self.fd, 1 << 16)
        if not data:
            return [], True
        self.buf += data
        out = []
        while b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            out.append(json.loads(line))
        if out:
            self.last = _now()
            self.done.extend(out)
        return out, False

    def close(self, kill=False):
        if kill:
            try:
                os.killpg(self.pid, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        os.close(self.fd)
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        # a child's own leftovers (background processes of the code under test)
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass


def run_isolated(prop, plans, timeout):
    """Run plans in one forked child; outcome of the last one (or of the first violation)."""
    c = Child(prop, [(i, p) for i, p in enumerate(plans)])
    end = _now() + timeout
    while True:
        left = end - _now()
        if left <= 0:
            c.close(kill=True)
            return {"status": "violation", "kind": "hang", "detail": "no end within %ds" % timeout, "key": None, "idx": len(c.done), "st": Stats().dump(), "hang": True}
        r, _, _ = select.select([c.fd], [], [], left)
        if not r:
            continue
        out, eof = c.feed()
        for o in out:
            if o["status"] == "violation":
                c.close(kill=True)
                return o
        if eof:
            c.close()
            if len(c.done) < len(plans):
                return {"status": "died", "detail": "process ended", "st": Stats().dump(), "idx": len(c.done)}
            return c.done[-1]


class Search:
    def __init__(self, pid, tier, seed, runs=None, workers=None, budget=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.prop = load_prop(pid)
        self.workers = workers or int(os.environ.get("DST_WORKERS", "8"))
        cfg = self.prop.RUNS
        self.nruns = runs or cfg[tier]
        self.budget = budget or (240 if tier == "quick" else 3 * 3600)
        self.timeout = getattr(self.prop, "RUN_TIMEOUT", 120)
        self.batch = getattr(self.prop, "BATCH", 25)
        self.known = self._known()
        self.known_hit = {}
        self.results = {}
        self.violations = []
        self.harness = []
        self.unsupported = {}
        self.truncated = False
        self.t0 = _now()

    def _known(self):
        try:
            with open(os.path.join(VERIF, "known_findings.json")) as f:
                return [k for k in json.load(f).get("findings", []) if k["property"] == self.pid]
        except FileNotFoundError:
            return []

    def is_known(self, o):
        for k in self.known:
            if k["kind"] == o.get("kind") and k.get("key") == o.get("key"):
                self.known_hit[k["kind"], k.get("key")] = k
                return True
        return False

    def plan(self, idx):
        # the plan list: fixed plans first (coverage of every workload), then seeded ones
        return self.prop.generate(rng_of(self.seed, self.pid, idx), idx, self.tier)

    def search(self):
        todo = list(range(self.nruns))
        todo.reverse()
        live = []
        stop = False
        retry = []
        while (todo and not stop) or live:
            while todo and not stop and len(live) < self.workers:
                n = min(self.batch, len(todo), max(1, len(todo) // self.workers + 1))
                ids = [todo.pop() for _ in range(n)]
                live.append(Child(self.prop, [(i, (lambda i=i: self.plan(i))) for i in ids]))
            r, _, _ = select.select([c.fd for c in live], [], [], 1.0)
            for c in list(live):
                if c.fd in r:
                    out, eof = c.feed()
                    for o in out:
                        self.record(c, o)
                    if eof:
                        c.close()
                        live.remove(c)
                        if len(c.done) < len(c.items) and not any(o["idx"] == -1 for o in c.done):
                            retry.append(c.items[len(c.done)][0])
                            todo.extend(i for i, _ in reversed(c.items[len(c.done) + 1:]))
                        continue
                if _now() - c.last > self.timeout:
                    c.close(kill=True)
                    live.remove(c)
                    retry.append(c.items[len(c.done)][0])
                    todo.extend(i for i, _ in reversed(c.items[len(c.done) + 1:]))
            if self.violations and not stop:
                stop = True
                # let the runs in flight with lower numbers finish: the reported one is then reproducible
                lowest = min(v["idx"] for v in self.violations)
                for c in list(live):
                    nxt = c.items[min(len(c.done), len(c.items) - 1)][0]
                    if nxt > lowest:
                        c.close(kill=True)
                        live.remove(c)
            if stop:
                lowest = min(v["idx"] for v in self.violations)
                for c in list(live):
                    nxt = c.items[min(len(c.done), len(c.items) - 1)][0]
                    if nxt > lowest:
                        c.close(kill=True)
                        live.remove(c)
            if not stop and _now() - self.t0 > self.budget:
                self.truncated = True
                todo = []
                if _now() - self.t0 > self.budget * 1.5:
                    for c in live:
                        c.close(kill=True)
                    live = []
        for idx in sorted(set(retry))[:3]:
            if self.violations:
                break
            plan = self.plan(idx)
            o = run_isolated(self.prop, [plan], self.timeout * 2)
            o["idx"], o["plan"] = idx, plan
            if o["status"] == "died":
                o2 = run_isolated(self.prop, [plan], self.timeout * 2)
                if o2["status"] == "died":
                    o = dict(o, status="violation", kind="process-died", detail="the process running the code ended abruptly", key=None)
                else:
                    o = dict(o2, idx=idx, plan=plan)
            o.setdefault("wall", 0)
            if o["status"] == "violation":
                if not self.is_known(o):
                    o["prefix"] = []
                    self.violations.append(o)
            self.results.setdefault(idx, o)

    def record(self, c, o):
        idx = o["idx"]
        self.results[idx] = o
        if o["status"] == "violation":
            if self.is_known(o):
                return
            o["prefix"] = [i for i, _ in c.items[: len(c.done) - 1]]
            pos = [i for i, _ in c.items].index(idx)
            o["prefix"] = [i for i, _ in c.items[:pos]]
            self.violations.append(o)
        elif o["status"] == "harness":
            self.harness.append(o)
        elif o["status"] == "unsupported":
            k = o["detail"][:120]
            self.unsupported[k] = self.unsupported.get(k, 0) + 1

    # ------------------------------------------------------------ minimise and report
    def report(self):
        """Minimise the first violation, write and confirm its replay file."""
        for v in sorted(self.violations, key=lambda v: v["idx"]):
            plans = [v["plan"]]
            o = run_isolated(self.prop, plans, self.timeout)
            if not self.same(o, v):
                # depends on what ran before it in the same process
                plans = [self.plan(i) for i in v["prefix"]] + [v["plan"]]
                o = run_isolated(self.prop, plans, self.timeout * 3)
                if not self.same(o, v):
                    v["unreproduced"] = o.get("status")
                    continue
                plans = plans[: o.get("idx", len(plans) - 1) + 1]
            plans, o, tried = self.minimise(plans, o)
            path = os.path.join(VERIF, "replays", "%s-%d-%d.json" % (self.pid, self.seed, v["idx"]))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "run": v["idx"], "kind": o["kind"], "detail": o["detail"],
                           "plans": plans, "minimise_steps": tried, "trace": o.get("trace", [])[-60:]}, f, indent=1)
            p = subprocess.run([sys.executable, "-m", "dst.run", self.pid, "--replay", path, "--no-evidence"], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=self.timeout * 6 + 60)
            if p.returncode == 1 and b"VIOLATION property=" in p.stdout:
                print("%s run %d: %s: %s" % (self.pid, v["idx"], o["kind"], o["detail"][:600]))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                return True
            v["unreproduced"] = p.stdout.decode(errors="replace")[-400:]
        return False

    @staticmethod
    def same(o, v):
        return o["status"] == "violation" and o["kind"] == v["kind"]

    def minimise(self, plans, best):
        end = _now() + (25 if self.tier == "quick" else 120)
        if best.get("hang"):
            end = _now()
        tried = 0
        # drop whole earlier plans, then shrink the last
        i = 0
        while i < len(plans) - 1 and _now() < end:
            cand = plans[:i] + plans[i + 1:]
            o = run_isolated(self.prop, cand, self.timeout)
            tried += 1
            if self.same(o, best):
                plans, best = cand, o
            else:
                i += 1
        shrink = getattr(self.prop, "shrink", None)
        progress = shrink is not None
        while progress and _now() < end:
            progress = False
            for cand_last in shrink(plans[-1]):
                if _now() > end:
                    break
                cand = plans[:-1] + [cand_last]
                o = run_isolated(self.prop, cand, self.timeout)
                tried += 1
                if self.same(o, best):
                    plans, best = cand, o
                    progress = True
                    break
        return plans, best, tried

    # ------------------------------------------------------------ evidence
    def evidence(self, path=None):
        res = [r for r in self.results.values() if r.get("idx", -1) >= 0]
        wall = _now() - self.t0
        agg = {"faults": {}, "ops": {}, "probes": {}}
        states = set()
        sim_time = 0.0
        events = 0
        evals = 0
        nontrivial = set()
        for r in res:
            s = r["st"]
            for k in agg:
                for n, c in s[k].items():
                    agg[k][n] = agg[k].get(n, 0) + c
            states.update(s["states"])
            sim_time += s["sim_time"]
            events += s["events"]
            if r["status"] in ("ok", "violation"):
                evals += 1
                if s["events"] or s["ops"]:
                    nontrivial.add(s["digest"])
        ok = [r for r in res if r["status"] == "ok"]
        samples = []
        for idx in sorted(r["idx"] for r in ok)[:2] + sorted(r["idx"] for r in ok)[-1:]:
            pl = json.dumps(self.plan(idx))
            samples.append({"run": idx, "plan": json.loads(pl) if len(pl) < 3000 else pl[:3000], "events": self.results[idx]["st"]["events"]})
        n = max(1, len(res))
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed,
            "level": self.prop.LEVEL if hasattr(self.prop, "LEVEL") else "exploration",
            "coverage": {
                "evaluations": evals, "distinct_nontrivial": len(nontrivial),
                "rule": self.prop.RULE + " A run counts as distinct and non-trivial if it performed operations or events and its event log differs from every other run's.",
                "samples": samples,
                "simulated_runs": len(res), "runs_per_hour": round(len(res) / max(wall, 1e-6) * 3600),
                "seeds": {"master": self.seed, "derived": len(res)}, "simulated_seconds": round(sim_time, 3),
                "logged_events": events, "faults_injected": agg["faults"], "operations": agg["ops"], "rare_conditions_hit": agg["probes"],
                "distinct_states": len(states), "state_measure": getattr(self.prop, "STATE_MEASURE", "hash of what the property's run records as its state"),
                "unsupported_runs": sum(1 for r in res if r["status"] == "unsupported"), "unsupported_reasons": dict(list(self.unsupported.items())[:10]),
                "harness_errors": [{"run": h["idx"], "detail": h["detail"][:300]} for h in self.harness[:5]], "harness_error_count": len(self.harness),
                "truncated_by_wall_limit": self.truncated,
                "real_components": self.prop.REAL, "stub_components": self.prop.STUB,
            },
            "assumptions": getattr(self.prop, "ASSUMES", []) + [
                "seeded search samples schedules, faults and inputs: a clean batch is evidence, not proof",
                "iris and cartopy are replaced by the stand-in in /verif/sim/shim (validated against the repository's own tests)"],
            "wall_s": round(wall, 2), "violations": len(self.violations),
        }
        path = path or os.path.join(VERIF, "evidence", self.pid + ".json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        return ev


def replay(pid, path, prop):
    with open(path) as f:
        rep = json.load(f)
    o = run_isolated(prop, rep["plans"], getattr(prop, "RUN_TIMEOUT", 120) * 3)
    for t in o.get("trace", []):
        print("  " + t[:300])
    if o["status"] == "violation":
        print("%s: %s" % (o["kind"], o["detail"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("replay: %s %s" % (o["status"], o.get("detail", "")))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--digests")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    pid = a.pid.upper()
    os.environ["DST_RUNNING"] = "1"
    prop = load_prop(pid)
    if hasattr(prop, "prepare"):
        prop.prepare()
    gc.collect()
    if a.replay:
        sys.exit(replay(pid, a.replay, prop))
    tier = "thorough" if a.tier == "thorough" else "quick"
    print("%s: VERIF_SEED=%d tier=%s" % (pid, a.seed, tier))
    s = Search(pid, tier, a.seed, a.runs, a.workers, a.budget)
    s.search()
    found = s.report() if s.violations else False
    if not a.no_evidence:
        s.evidence()
    if os.environ.get("DST_TIMES"):
        w = sorted(((r.get("wall", 0), i) for i, r in s.results.items()), reverse=True)
        print("run wall total %.1f, slowest %s" % (sum(x for x, _ in w), [(round(x, 2), i) for x, i in w[:8]]))
    if a.digests:
        with open(a.digests, "w") as f:
            for i in sorted(s.results):
                f.write("%d %s %s\n" % (i, s.results[i]["status"], s.results[i]["st"]["digest"]))
    for k in s.known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    res = list(s.results.values())
    bad = len(s.harness)
    print("%s: %d runs, %d ok, %d unsupported, %d harness errors, %d violating, %.1fs" % (
        pid, len(res), sum(r["status"] == "ok" for r in res), sum(r["status"] == "unsupported" for r in res), bad, len(s.violations), _now() - s.t0))
    for h in s.harness[:3]:
        print("  harness run %s: %s" % (h["idx"], h["detail"][:500]))
    if found:
        sys.exit(1)
    if s.violations:
        for v in s.violations[:3]:
            print("  unreproduced run %s: %s: %s (%s)" % (v["idx"], v["kind"], v["detail"][:300], str(v.get("unreproduced"))[:300]))
        sys.exit(2)
    if not any(r["status"] == "ok" for r in res):
        print("  nothing could be explored")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
