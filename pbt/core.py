"""Runner: shards, seeds, shrinking, replay files, evidence."""
import argparse
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
from collections import Counter


class Violation(AssertionError):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The harness (generator, model or oracle) is at fault, not the library."""


class Hang(BaseException):
    pass


class Obs:
    """What a check reports about one case: labels and non-triviality."""
    __slots__ = ("labels", "nontrivial", "known")

    def __init__(self):
        self.labels = set()
        self.nontrivial = False
        self.known = []

    def hit(self, *labels):
        self.labels.update(labels)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


class Sub:
    def __init__(self, name, strategy, check, quick, thorough=None, weight=1.0):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick = 3 * quick
        self.thorough = thorough if thorough is not None else quick * 40


REGISTRY = {}        # property id -> (rule text, [Sub])
CASE_CPU_LIMIT = 30  # seconds of CPU time for one case (usual: milliseconds)
MEMORY_LIMIT = 3 << 30  # bytes of address space of one shard (usual: 0.5 GB)
SHARDS = 8


def register(pid, rule, subs, assumptions=()):
    REGISTRY[pid] = (rule, subs, list(assumptions))


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def _innermost(tb):
    last = None
    for f in traceback.extract_tb(tb):
        last = f
    return last


def run_case(sub, case, here):
    """Runs one case. Returns Obs, or raises Violation / HarnessError."""
    obs = Obs()

    def on_alarm(signum, frame):
        raise Hang()

    old = signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    real_out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        sub.check(case, obs)
        return obs
    except (Violation, HarnessError):
        raise
    except Hang:
        v = Violation("no answer within %d s of CPU time" % CASE_CPU_LIMIT)
        v.hang = True
        raise v from None
    except MemoryError:
        v = Violation("out of memory (more than %d bytes)" % MEMORY_LIMIT)
        v.hang = True
        raise v from None
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        where = frames[-1]
        name = os.path.basename(where.filename)
        if name in ("model.py", "gen.py", "core.py") and os.path.dirname(where.filename).endswith("pbt"):
            raise HarnessError("".join(traceback.format_exception(e)))
        at = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in frames[-3:])
        raise Violation("unexpected %s: %s [%s]" % (type(e).__name__, e, at)) from e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        sys.stdout = real_out


def derive(seed, *parts):
    h = hashlib.sha256(("%d|" % seed + "|".join(map(str, parts))).encode()).digest()
    return int.from_bytes(h[:6], "big")


def worker(pid, shard, nshards, seed, tier, scale, only, budget_s, here, stop, q):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    # a case which eats memory fails with MemoryError (a violation) instead of taking the machine down
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    try:
        _worker(pid, shard, nshards, seed, tier, scale, only, budget_s, here, stop, q)
    except BaseException:
        q.put(("error", shard, traceback.format_exc()))


def _worker(pid, shard, nshards, seed, tier, scale, only, budget_s, here, stop, q):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 20
    rule, subs, _ = REGISTRY[pid]
    t0 = time.monotonic()
    for sub in subs:
        if only and sub.name != only:
            continue
        n = int((sub.quick if tier == "quick" else sub.thorough) * scale)
        n = max(1, -(-n // nshards))
        st = {"evals": 0, "nt": set(), "labels": Counter(), "samples": [], "skipped": 0}
        fail = {}
        herr = {}

        def one(case):
            if fail.get("hang") or herr or (stop.is_set() and not fail) or (
                    not fail and time.monotonic() - t0 > budget_s):
                st["skipped"] += 1
                return
            try:
                obs = run_case(sub, case, here)
            except HarnessError as e:
                herr["msg"] = str(e)
                herr["case"] = case
                return
            except Violation as e:
                fail["case"], fail["msg"] = case, str(e)
                if getattr(e, "hang", False):
                    fail["hang"] = True
                    return
                raise
            if fail:
                return          # shrinking: do not count
            st["evals"] += 1
            for l in obs.labels:
                st["labels"][l] += 1
            if obs.nontrivial:
                h = hashlib.blake2b(canon(case).encode(), digest_size=8).digest()
                st["nt"].add(h)
                if len(st["samples"]) < 2 and (len(st["nt"]) % 37 == 1):
                    st["samples"].append(case)

        test = given(sub.strategy)(one)
        test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                        report_multiple_bugs=False, print_blob=False, verbosity=hypothesis.Verbosity.quiet,
                        phases=[Phase.generate, Phase.target, Phase.shrink],
                        suppress_health_check=list(HealthCheck))(test)
        test = hypothesis.seed(derive(seed, pid, sub.name, shard))(test)
        try:
            test()
        except Violation:
            pass
        except BaseException as e:
            if not fail and not herr:
                if not isinstance(e, Exception):
                    raise
                herr["msg"] = "".join(traceback.format_exception(e))
                herr["case"] = None
        q.put(("sub", shard, sub.name, {"evals": st["evals"], "nt": st["nt"], "labels": dict(st["labels"]),
                                        "samples": st["samples"], "skipped": st["skipped"]}))
        if herr:
            q.put(("error", shard, "sub %s\ncase %s\n%s" % (sub.name, canon(herr["case"]), herr["msg"])))
            return
        if fail:
            stop.set()
            q.put(("fail", shard, sub.name, fail["case"], fail["msg"]))
            return
    q.put(("done", shard))


def write_json(path, obj):
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(obj, f, indent=1, default=str)
        f.write("\n")
    os.replace(tmp, path)


def main(argv, here, repo):
    if argv == ["--self-test"]:
        import dynetworkx
        import hypothesis
        importlib.import_module("pbt.props")
        print("self-test: %d properties, dynetworkx at %s, hypothesis %s" % (
            len(REGISTRY), os.path.dirname(dynetworkx.__file__), hypothesis.__version__))
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--sub")
    ap.add_argument("--jobs", type=int, default=min(SHARDS, os.cpu_count() or 1))
    ap.add_argument("--budget", type=float)
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.monotonic()
    import dynetworkx
    src = os.path.realpath(dynetworkx.__file__)
    if not src.startswith(os.path.realpath(repo) + os.sep):
        print("harness error: dynetworkx imported from %s" % src, file=sys.stderr)
        return 3
    importlib.import_module("pbt.props")
    if a.prop not in REGISTRY:
        print("harness error: unknown property %s" % a.prop, file=sys.stderr)
        return 3
    rule, subs, assumptions = REGISTRY[a.prop]
    byname = {s.name: s for s in subs}

    def report(subname, case, msg):
        d = os.path.join(here, "replays")
        os.makedirs(d, exist_ok=True)
        tag = hashlib.blake2b(canon([subname, case]).encode(), digest_size=5).hexdigest()
        path = os.path.join(d, "%s-%s-%s.json" % (a.prop, subname, tag))
        write_json(path, {"property": a.prop, "sub": subname, "case": case, "message": msg,
                          "replay": "python3 run.py %s --replay %s" % (a.prop, path)})
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        print("  [%s] %s" % (subname, msg[:2000]))
        print("  case: %s" % canon(case)[:2000])
        sys.stdout.flush()

    if a.replay:
        r = json.load(open(a.replay))
        try:
            run_case(byname[r["sub"]], r["case"], here)
        except Violation as e:
            print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            print("  [%s] %s" % (r["sub"], e))
            return 1
        print("replay: property %s held" % a.prop)
        return 0

    total, nt, labels, samples, skipped = 0, set(), Counter(), [], 0
    violations, errors = 0, []

    # 1. regression replays: minimal reproductions of defects found earlier
    corpus = os.path.join(here, "corpus", a.prop + ".jsonl")
    replayed = 0
    if os.path.exists(corpus) and not a.sub:
        for line in open(corpus):
            if not line.strip():
                continue
            r = json.loads(line)
            if r["sub"] not in byname:
                errors.append("corpus entry for unknown sub %s" % r["sub"])
                continue
            replayed += 1
            try:
                obs = run_case(byname[r["sub"]], r["case"], here)
            except HarnessError as e:
                errors.append(str(e))
            except Violation as e:
                violations += 1
                report(r["sub"], r["case"], str(e))
                break
            else:
                total += 1
                if obs.nontrivial:
                    nt.add(hashlib.blake2b(canon(r["case"]).encode(), digest_size=8).digest())

    # 2. generated search
    per_sub = {}
    if not violations and not errors:
        ctx = mp.get_context("fork")
        q, stop = ctx.Queue(), ctx.Event()
        budget = a.budget or (240 if tier == "quick" else 780)
        nshards = SHARDS           # fixed: results do not depend on the machine
        pending = list(range(nshards))
        running = {}
        finished = set()

        def launch():
            while pending and len(running) < a.jobs:
                i = pending.pop(0)
                p = ctx.Process(target=worker, args=(a.prop, i, nshards, seed, tier, a.scale, a.sub, budget, here, stop, q))
                p.start()
                running[i] = p

        launch()
        import queue as _q
        fails = []
        dead_since = {}
        while running or pending:
            try:
                m = q.get(timeout=0.5)
            except _q.Empty:
                m = None
            if m is not None:
                if m[0] == "sub":
                    d = m[3]
                    total += d["evals"]
                    skipped += d["skipped"]
                    nt |= d["nt"]
                    ps = per_sub.setdefault(m[2], {"evaluations": 0, "labels": Counter()})
                    ps["evaluations"] += d["evals"]
                    ps["labels"].update(d["labels"])
                    if m[1] == 0 or len(samples) < 3:
                        samples.extend({"sub": m[2], "case": c} for c in d["samples"][:1])
                elif m[0] == "fail":
                    fails.append(m[2:])
                    finished.add(m[1])
                elif m[0] == "error":
                    errors.append("shard %d: %s" % (m[1], m[2]))
                    stop.set()
                    finished.add(m[1])
                elif m[0] == "done":
                    finished.add(m[1])
            for i, p in list(running.items()):
                if i in finished:
                    p.join()
                    del running[i]
                elif not p.is_alive():
                    n = dead_since.setdefault(i, 0) + 1
                    dead_since[i] = n
                    if n > 6:
                        errors.append("shard %d ended without a result (exit code %s)" % (i, p.exitcode))
                        stop.set()
                        del running[i]
            launch()
        if fails:
            # the smallest reproduction found by any shard
            fails.sort(key=lambda f: (len(canon(f[1])), canon(f[1])))
            violations = 1
            report(*fails[0])

    wall = time.monotonic() - t0
    ev = {"property": a.prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": total, "distinct_nontrivial": len(nt), "rule": rule,
                       "samples": samples[:6],
                       "regression_replays": replayed,
                       "per_sub": {k: {"evaluations": v["evaluations"], "classes": dict(v["labels"].most_common(40))}
                                   for k, v in sorted(per_sub.items())},
                       "cases_skipped_over_budget": skipped,
                       "source": src},
          "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    write_json(os.path.join(here, "evidence", a.prop + ".json"), ev)
    if violations:
        return 1
    if errors:
        for e in errors[:3]:
            print("harness error: %s" % e, file=sys.stderr)
        return 2
    kf = os.path.join(here, "known_findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            if line.startswith("finding: property=%s " % a.prop):
                print("KNOWN-FINDING: " + line[len("finding: "):].rstrip())
    if total == 0 or not nt:
        print("harness error: nothing was explored", file=sys.stderr)
        return 2
    print("ok %s: %d cases, %d distinct non-trivial, %d regression replays, %.1f s (seed %d, %s)" % (
        a.prop, total, len(nt), replayed, wall, seed, tier))
    return 0
