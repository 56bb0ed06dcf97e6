"""Engine shared by every monitor.

A property module registers *case kinds*.  A case kind is a function
``fn(c)`` that draws one workload from ``c.rng``, drives the real menpofit code
and reports what its oracle observed through the methods of ``c``.  The engine
fans a deterministic list of (kind, case seed) pairs over worker processes,
merges the observations, classifies violations against the committed
known-findings file, and writes the evidence and replay files.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, "evidence")
OUT = os.path.join(VERIF, "out")
KNOWN = os.path.join(VERIF, "known_findings.jsonl")

# CPU seconds one case may burn before it is declared non-terminating.  Cases
# cost at most a few seconds, so the margin is large and load independent.
CASE_CPU_LIMIT = 150


class NonTermination(BaseException):
    pass


class Skip(Exception):
    """The drawn workload is degenerate; nothing is decided from it."""


def collapsed(e):
    """Whether an error says that the numbers of a workload degenerated (a
    singular system, a shape shrunk to nothing), not that a call is wrong."""
    import numpy as np
    if isinstance(e, np.linalg.LinAlgError):
        return True
    return isinstance(e, ValueError) and any(t in str(e) for t in (
        "scale factor", "infs or NaNs", "noise variance is effectively 0"))


class numerics(object):
    """with numerics(): a collapse of the numbers inside skips the case."""

    def __enter__(self):
        return self

    def __exit__(self, kind, e, tb):
        if e is not None and collapsed(e):
            raise Skip() from e
        return False


def blame(e):
    """The error (and place in the library) that made a case be skipped."""
    e = e.__cause__ or e.__context__
    if e is None:
        return "degenerate draw"
    where = ""
    for f in traceback.extract_tb(e.__traceback__):
        if "/menpofit/" in f.filename:
            where = " in {}:{}".format(
                f.filename.split("/menpofit/")[-1], f.name)
    return type(e).__name__ + where


def h64(*parts):
    m = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(m[:8], "big")


class Case(object):
    def __init__(self, prop, kind, index, seed, tier):
        import numpy as np

        self.prop, self.kind, self.index = prop, kind, index
        self.seed, self.tier = seed, tier
        s = h64(prop, kind, index, seed) % (2 ** 32)
        self.rng = np.random.RandomState(s)
        # menpofit draws its perturbations from numpy's global generator
        np.random.seed((s + 1) % (2 ** 32))
        self.violations = []
        self.events = {}
        self.nontrivial = set()
        self.samples = []
        self.checks = 0
        self.desc = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -- observations -----------------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def note(self, **kw):
        """Describes the drawn workload (goes in samples and replays)."""
        self.desc.update({k: _plain(v) for k, v in kw.items()})

    def seen(self, *key):
        """Counts a distinct non-trivial configuration / state."""
        self.nontrivial.add("%016x" % h64(self.kind, *[_plain(k) for k in key]))

    # -- verdicts ---------------------------------------------------------
    def violate(self, mech, msg):
        if len(self.violations) < 20:
            self.violations.append({"mech": mech, "msg": str(msg)[:2000]})

    def check(self, cond, mech, msg=""):
        self.checks += 1
        if not bool(cond):
            self.violate(mech, msg() if callable(msg) else msg)
            return False
        return True

    def close(self, a, b, mech, msg="", rtol=1e-7, atol=1e-8, scale=None):
        """|a - b| <= atol + rtol * scale, scale defaulting to max(|a|,|b|)."""
        import numpy as np

        self.checks += 1
        try:
            a = np.asarray(a)
            b = np.asarray(b)
            if a.dtype.kind not in "biufc":
                a = a.astype(float)
            if b.dtype.kind not in "biufc":
                b = b.astype(float)
        except Exception as e:  # not even numeric
            self.violate(mech, "{} not numeric: {}".format(msg, e))
            return False
        if a.shape != b.shape:
            self.violate(mech, "{} shapes differ {} != {}".format(
                msg, a.shape, b.shape))
            return False
        if a.size == 0:
            return True
        if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
            if np.array_equal(a, b, equal_nan=True):
                return True
            self.violate(mech, "{} non-finite values".format(msg))
            return False
        if scale is None:
            scale = max(np.max(np.abs(a)), np.max(np.abs(b)))
        d = np.max(np.abs(a - b))
        if d > atol + rtol * scale:
            self.violate(mech, "{} differ by {:.3g} (scale {:.3g})".format(
                msg, d, scale))
            return False
        return True

    def raises(self, exc, fn, mech, msg=""):
        self.checks += 1
        try:
            fn()
        except exc:
            return True
        except Exception as e:
            self.violate(mech, "{}: raised {}: {} instead of {}".format(
                msg, type(e).__name__, e, exc))
            return False
        self.violate(mech, "{}: no exception".format(msg))
        return False


def _plain(v):
    try:
        import numpy as np

        if isinstance(v, np.ndarray):
            return [round(float(x), 6) for x in v.ravel()[:12]]
        if isinstance(v, np.generic):
            return v.item()
    except Exception:
        pass
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in list(v)[:20]]
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in v.items()}
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return getattr(v, "__name__", str(v))


def _alarm(signum, frame):
    raise NonTermination()


def run_case(prop, fn, kind, index, seed, tier):
    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    c = Case(prop, kind, index, seed, tier)
    t0 = time.time()
    skipped = None
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT)
    try:
        fn(c)
    except Skip as e:
        skipped = blame(e)
    except NonTermination:
        c.violate("no-termination/" + kind,
                  "case burnt {} CPU s without finishing".format(CASE_CPU_LIMIT))
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = "harness"
        for f in tb:
            if "/menpofit/" in f.filename:
                where = "{}:{}".format(
                    f.filename.split("/menpofit/")[-1], f.name)
        c.violate("exception/{}/{}/{}".format(kind, where, type(e).__name__),
                  "".join(traceback.format_exception(*sys.exc_info()))[-1800:])
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    try:
        import matplotlib

        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
    except Exception:
        pass
    return {
        "kind": kind, "index": index, "violations": c.violations,
        "events": c.events, "nontrivial": sorted(c.nontrivial),
        "desc": c.desc, "checks": c.checks, "skipped": skipped,
        "wall": time.time() - t0,
    }


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line:
                    continue
                e = json.loads(line)
                if e.get("status") == "known" and e["property"] == prop:
                    out.append(e)
    return out


_MOD = None


def _worker(args):
    prop, kind, index, seed, tier = args
    return run_case(prop, _MOD.CASES[kind][0], kind, index, seed, tier)


def plan(mod, tier):
    jobs = []
    for kind, spec in mod.CASES.items():
        n = spec[1] if tier == "quick" else spec[2]
        jobs += [(kind, i) for i in range(n)]
    # spread expensive kinds over the workers
    jobs.sort(key=lambda j: (j[1], h64(*j)))
    return jobs


def run_property(mod, tier, seed, budget):
    """Runs one property; returns the exit status."""
    global _MOD
    import multiprocessing as mp

    _MOD = mod
    prop = mod.ID
    t0 = time.time()
    jobs = [(prop, k, i, seed, tier) for k, i in plan(mod, tier)]
    n_proc = min(8, os.cpu_count() or 1, max(1, len(jobs)))
    results = []
    timed_out = False
    if n_proc == 1:
        for j in jobs:
            results.append(_worker(j))
            if time.time() - t0 > budget:
                timed_out = True
                break
    else:
        pool = mp.get_context("fork").Pool(n_proc)
        it = pool.imap_unordered(_worker, jobs, chunksize=1)
        for _ in range(len(jobs)):
            try:
                results.append(it.next(timeout=max(1.0, budget - (time.time() - t0))))
            except mp.TimeoutError:
                timed_out = True
                break
        pool.terminate()
        pool.join()
    return finish(mod, tier, seed, t0, jobs, results, timed_out)


def finish(mod, tier, seed, t0, jobs, results, timed_out):
    prop = mod.ID
    known = load_known(prop)
    events, nontrivial, samples, kinds = {}, set(), [], {}
    checks = 0
    per_mech = {}
    known_hit = {}
    results.sort(key=lambda r: (r["kind"], r["index"]))
    for r in results:
        checks += r["checks"]
        kinds.setdefault(r["kind"], {"cases": 0, "skipped": 0, "cpu_s": 0.0})
        kinds[r["kind"]]["cases"] += 1
        kinds[r["kind"]]["skipped"] += int(r["skipped"] is not None)
        if r["skipped"] is not None:
            why = kinds[r["kind"]].setdefault("skipped_because", {})
            why[r["skipped"]] = why.get(r["skipped"], 0) + 1
        kinds[r["kind"]]["cpu_s"] = round(kinds[r["kind"]]["cpu_s"] + r["wall"], 2)
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        nontrivial.update(r["nontrivial"])
        if r["index"] == 0 and r["desc"] and len(samples) < 24:
            samples.append({"kind": r["kind"], "case": r["index"],
                            "workload": r["desc"], "oracle_checks": r["checks"]})
        for v in r["violations"]:
            hit = None
            for e in known:
                if v["mech"] == e["mechanism"]:
                    hit = e
            if hit is not None:
                known_hit.setdefault(hit["mechanism"], [hit, 0])[1] += 1
            else:
                per_mech.setdefault(v["mech"], []).append((r, v))
    # The workloads are deterministic and every one of them is valid input, so
    # the observations the monitors rely on cannot dry up while the property
    # holds: a library that refuses or breaks most of them is a violation.
    # Anything milder is only reported in the evidence.
    missing, lost = [], []
    for k, n in getattr(mod, "REQUIRED", {}).items():
        if events.get(k, 0) < n:
            missing.append("{}: {} < {}".format(k, events.get(k, 0), n))
            if events.get(k, 0) < 0.5 * n:
                lost.append(("lost/event/" + k, missing[-1]))
    for kind, d in kinds.items():
        if d["skipped"] > 0.5 * d["cases"]:
            missing.append("{} of the {} {} cases degenerate".format(
                d["skipped"], d["cases"], kind))
            if d["skipped"] > 0.75 * d["cases"]:
                lost.append(("lost/kind/" + kind, missing[-1]))
    if not timed_out and not per_mech:
        for mech, msg in lost:
            per_mech[mech] = [({"kind": None, "index": None, "desc": {}},
                               {"mech": mech, "msg": "expected observations "
                                "did not happen: " + msg})]
    if not results or checks == 0:
        missing.append("no oracle evaluation happened")
    n_viol = sum(len(v) for v in per_mech.values())
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(results) - sum(d["skipped"] for d in kinds.values()),
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE,
            "samples": samples,
            "oracle_checks": checks,
            "observed_events": events,
            "case_kinds": kinds,
            "planned_cases": len(jobs),
            "stopped_by_budget": timed_out,
            "known_findings_observed": {k: v[1] for k, v in known_hit.items()},
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": n_viol,
    }
    if missing:
        ev["coverage"]["inconclusive"] = missing
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    for mech, (e, n) in sorted(known_hit.items()):
        print("KNOWN-FINDING: property={} {} [{} observation(s)]".format(
            prop, e["what"], n))
    print("{} {}: {} cases, {} oracle checks, {} distinct non-trivial, "
          "{:.1f} s".format(prop, tier, len(results), checks, len(nontrivial),
                            time.time() - t0))
    if per_mech:
        os.makedirs(OUT, exist_ok=True)
        for rank, mech in enumerate(sorted(per_mech)):
            if rank == 12:
                print("   ... {} more mechanisms".format(len(per_mech) - 12))
                break
            r, v = per_mech[mech][0]
            name = "".join(ch if ch.isalnum() else "_" for ch in mech)[:80]
            path = os.path.join(OUT, "{}-{}.json".format(prop, name))
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "seed": seed,
                           "kind": r["kind"], "index": r["index"],
                           "workload": r["desc"], "mechanism": mech,
                           "message": v["msg"],
                           "occurrences": len(per_mech[mech]),
                           "replay_cmd": "bash /verif/replay.sh " + path},
                          f, indent=1)
            print("VIOLATION property={} replay={}".format(prop, path))
            print("   {} x{}: {}".format(mech, len(per_mech[mech]),
                                          (v["msg"].strip().splitlines() or [""])[-1][:300]))
        return 1
    if missing:
        print("NOTE property={} thin observations: {}".format(prop, missing))
    if not results or checks == 0 or (
            timed_out and (lost or len(results) < 0.5 * len(jobs))):
        print("INCONCLUSIVE property={} {}".format(prop, missing))
        return 2
    return 0
