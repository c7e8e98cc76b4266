"""Runner for the runtime-monitoring checks.

A check module (checks/cXX.py) defines
  PID, RULE, ASSUMPTIONS
  KINDS    = {kind: (function(rng, mon, tier), n_quick, n_thorough)}
  MONITORS = names of the monitors that must have fired for a run to be conclusive
Every case runs the real code of /repo under a workload drawn from a seeded
generator while the monitors (mon.ok / mon.close / ...) observe its behaviour.

Verdicts: 0 held on everything observed; 1 violated (VIOLATION line + replay
file); 2 inconclusive (a monitor never observed anything, a case timed out) and
3 harness error.  Inconclusive is never folded into one of the others.
"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

REPO = os.environ.get("AGNPY_VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

import numpy as np  # noqa: E402

np.seterr(all="ignore")
import logging  # noqa: E402

logging.disable(logging.WARNING)


class CaseTimeout(Exception):
    pass


class StopCase(Exception):
    """raised by a case that cannot go on after a recorded violation"""


def _jsonable(x, depth=0):
    if depth > 4:
        return str(x)[:120]
    if isinstance(x, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v, depth + 1) for v in list(x)[:8]]
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, float):
        return float("%.12g" % x) if np.isfinite(x) else str(x)
    if isinstance(x, np.generic):
        return _jsonable(x.item(), depth)
    return str(x)[:200]


class Mon:
    """observer of one case: counts what it saw, keeps the violations"""

    def __init__(self, pid, kind, seed, known):
        self.pid, self.kind, self.seed = pid, kind, seed
        self.known_keys = known
        self.counts = collections.Counter()
        self.violations = []
        self.known_hits = {}
        self.params = {}
        self.features = set()
        self.nontrivial = False
        self.floor = 1e-290

    # ---- description of the case -------------------------------------
    def case(self, **params):
        self.params.update(params)

    def feature(self, *names):
        self.features.update(names)

    def signature(self):
        txt = json.dumps(_jsonable(self.params), sort_keys=True)
        return hashlib.sha1((self.kind + txt).encode()).hexdigest()[:16]

    # ---- monitors ------------------------------------------------------
    def _fail(self, name, detail):
        self.violations.append({"monitor": name, "detail": _jsonable(detail)})

    def ok(self, name, cond, /, **detail):
        """boolean monitor"""
        self.counts[name] += 1
        if bool(np.all(cond)):
            return True
        self._fail(name, detail)
        return False

    def known(self, key, name, holds, is_known_mechanism, /, **detail):
        """monitor with a recorded finding: a failure is attributed to the
        finding only when the observed value is the one that its mechanism
        produces; any other failure is a violation"""
        self.counts[name] += 1
        if bool(np.all(holds)):
            return True
        if key in self.known_keys and bool(np.all(is_known_mechanism)):
            self.known_hits[key] = self.known_hits.get(key, 0) + 1
            return False
        self._fail(name, dict(detail, known_key=key))
        return False

    def close(self, name, got, want, rtol=1e-8, atol=0.0, /, **detail):
        """elementwise agreement of two float arrays (shape included)"""
        self.counts[name] += 1
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self._fail(name, dict(detail, got_shape=got.shape, want_shape=want.shape))
            return False
        if got.size == 0:
            return True
        if np.any(np.isnan(want)):
            raise RuntimeError(f"the reference of monitor {name} is NaN")
        if np.any(want != 0):
            self.nontrivial = True
        with np.errstate(all="ignore"):
            both_inf = np.isinf(got) & np.isinf(want) & (np.sign(got) == np.sign(want))
            # floor: underflowing numbers carry no relative accuracy
            good = (np.abs(got - want) <= atol + rtol * np.abs(want) + self.floor) | both_inf
        if np.all(good):
            return True
        i = tuple(int(j[0]) for j in np.nonzero(np.atleast_1d(~good)))
        g, w = np.atleast_1d(got)[i], np.atleast_1d(want)[i]
        self._fail(
            name,
            dict(detail, index=i, got=float(g), want=float(w), n_bad=int(np.sum(~good)),
                 n=int(got.size), rel=float(g / w - 1) if w else None, rtol=rtol),
        )
        return False

    def val(self, name, q, unit):
        """float values of a quantity, in the unit the API promises"""
        import astropy.units as u

        self.counts["units:" + name] += 1
        try:
            if unit is None:
                return np.asarray(u.Quantity(q).to_value(""), dtype=float)
            return np.asarray(u.Quantity(q).to_value(unit), dtype=float)
        except Exception as exc:  # wrong dimension
            self._fail("units:" + name, {"unit": str(unit), "error": repr(exc)})
            raise StopCase()

    def raises(self, name, exc_types, fn, /, **detail):
        """the call must be refused with one of the given exceptions"""
        self.counts[name] += 1
        self.nontrivial = True
        try:
            fn()
        except exc_types:
            return True
        except Exception as exc:
            self._fail(name, dict(detail, raised=repr(exc)))
            return False
        self._fail(name, dict(detail, raised=None))
        return False


def optional(module, name):
    """a helper that is not part of the public API (None when it has moved)"""
    try:
        return getattr(importlib.import_module(module), name)
    except (ImportError, AttributeError):
        return None


_STATE = {}


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(item):
    kind, seed = item
    mod, known, tier = _STATE["mod"], _STATE["known"], _STATE["tier"]
    mon = Mon(mod.PID, kind, seed, known)
    rng = np.random.default_rng(seed)
    out = {"kind": kind, "seed": seed, "status": "ok"}
    np.seterr(all="ignore")  # whatever the previous case left
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(getattr(mod, "CASE_TIMEOUT", 240)))
    try:
        mod.KINDS[kind][0](rng, mon, tier)
    except StopCase:
        pass
    except CaseTimeout:
        out["status"] = "timeout"
    except MemoryError:
        out["status"] = "error"
        out["error"] = "MemoryError"
    except Exception as exc:
        tb = traceback.extract_tb(exc.__traceback__)
        inside = any(os.path.realpath(f.filename).startswith(os.path.join(os.path.realpath(REPO), "agnpy")) for f in tb)
        text = "".join(traceback.format_exception(exc))[-2500:]
        # a public attribute that is gone, or with another dimension
        inside = inside or (isinstance(exc, AttributeError) and type(getattr(exc, "obj", None)).__module__.startswith("agnpy"))
        from astropy.units import UnitsError
        inside = inside or isinstance(exc, UnitsError)
        if inside:
            mon.counts["no_exception"] += 1
            mon.violations.append(
                {"monitor": "no_exception",
                 "detail": {"error": repr(exc)[:300], "where": [f"{os.path.basename(f.filename)}:{f.name}" for f in tb][-6:]}}
            )
        else:
            out["status"] = "error"
            out["error"] = text
    finally:
        signal.alarm(0)
    out.update(
        counts=dict(mon.counts), violations=mon.violations, known=mon.known_hits,
        params=_jsonable(mon.params), features=sorted(mon.features), sig=mon.signature(),
        nontrivial=bool(mon.nontrivial),
    )
    return out


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    data = json.load(open(path))
    return {e["key"]: e for e in data.get("findings", []) if e["property"] == pid and e.get("status") == "open"}


def case_list(mod, tier, seed):
    cases = []
    for ki, (kind, spec) in enumerate(sorted(mod.KINDS.items())):
        n = spec[1] if tier == "quick" else spec[2]
        # crc-like stable number of the kind: reordering kinds does not reshuffle cases
        knum = int(hashlib.sha1((mod.PID + kind).encode()).hexdigest()[:8], 16)
        for i in range(n):
            cases.append((kind, [int(seed), knum, i]))
    # interleave the kinds so that slow ones spread over the workers
    order = np.random.default_rng(12345).permutation(len(cases))
    return [cases[i] for i in order]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--kind")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1)))))
    args = ap.parse_args()
    tier = "thorough" if args.tier == "thorough" else "quick"
    t0 = time.time()
    try:
        mod = importlib.import_module("checks." + args.pid.lower())
        import agnpy
        if not os.path.realpath(agnpy.__file__).startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError(f"agnpy imported from {agnpy.__file__}")
    except Exception as exc:
        traceback.print_exc()
        print(f"HARNESS-ERROR property={args.pid} import failed")
        sys.exit(3)
    known = load_known(mod.PID)
    _STATE.update(mod=mod, known=known, tier=tier)

    if args.replay:
        rep = json.load(open(args.replay))
        _STATE["tier"] = rep.get("tier", tier)
        res = run_case((rep["kind"], rep["seed"]))
        print(json.dumps(res, indent=1, default=str))
        if res["violations"]:
            print(f"VIOLATION property={mod.PID} replay={args.replay}")
        sys.exit(1 if res["violations"] else (0 if res["status"] == "ok" else 2))

    cases = case_list(mod, tier, args.seed)
    if args.kind:
        cases = [c for c in cases if c[0] == args.kind]
    if hasattr(mod, "setup"):
        mod.setup(tier)
    results = []
    jobs = max(1, min(args.jobs, len(cases)))
    if jobs == 1:
        results = [run_case(c) for c in cases]
    else:
        ctx = mp.get_context("fork")
        chunk = max(1, min(16, len(cases) // (jobs * 6)))
        with ctx.Pool(jobs) as pool:
            for r in pool.imap_unordered(run_case, cases, chunksize=chunk):
                results.append(r)
    results.sort(key=lambda r: (r["kind"], r["seed"]))

    counts, kinds, feats, known_hits = collections.Counter(), collections.Counter(), collections.Counter(), collections.Counter()
    sigs, violations, errors, timeouts = set(), [], [], []
    for r in results:
        counts.update(r["counts"])
        kinds[r["kind"]] += 1
        feats.update(r["features"])
        known_hits.update(r["known"])
        if r["nontrivial"]:
            sigs.add(r["sig"])
        if r["violations"]:
            violations.append(r)
        if r["status"] == "error":
            errors.append(r)
        if r["status"] == "timeout":
            timeouts.append(r)
    wall = time.time() - t0
    samples = []
    seen = set()
    for r in results:
        if r["kind"] not in seen:
            seen.add(r["kind"])
            samples.append({"kind": r["kind"], "seed": r["seed"], "params": r["params"], "monitors": r["counts"]})
    missing = [m for m in getattr(mod, "MONITORS", []) if counts[m] == 0] if not args.kind else []
    evidence = {
        "property": mod.PID, "tier": tier, "seed": args.seed, "level": "exploration",
        "coverage": {
            "evaluations": len(results), "distinct_nontrivial": len(sigs), "rule": mod.RULE,
            "samples": samples[:12], "observations_per_monitor": dict(sorted(counts.items())),
            "total_observations": int(sum(counts.values())), "cases_per_kind": dict(sorted(kinds.items())),
            "features_seen": dict(sorted(feats.items())), "known_findings_observed": dict(known_hits),
            "monitors_never_reached": missing, "timeouts": len(timeouts), "harness_errors": len(errors),
        },
        "assumptions": list(mod.ASSUMPTIONS), "wall_s": round(wall, 2),
        "violations": sum(len(r["violations"]) for r in violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not args.kind:
        with open(os.path.join(VERIF, "evidence", mod.PID + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)
    for key in sorted(known_hits):
        print(f"KNOWN-FINDING: property={mod.PID} {key}: {known[key]['what']}")
    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        shown = collections.Counter()
        for r in violations:
            for v in r["violations"]:
                tag = (r["kind"], v["monitor"])
                shown[tag] += 1
                if shown[tag] == 1:
                    path = os.path.join(VERIF, "replays", f"{mod.PID}-{r['kind']}-{v['monitor']}.json".replace(":", "_").replace("/", "_").replace(" ", "_"))
                    with open(path, "w") as f:
                        json.dump({"property": mod.PID, "tier": tier, "kind": r["kind"], "seed": r["seed"], "params": r["params"], "violations": r["violations"]}, f, indent=1, default=str)
                    print(f"VIOLATION property={mod.PID} replay={path}")
                    print(f"  kind={r['kind']} monitor={v['monitor']} {json.dumps(v['detail'], default=str)[:600]}")
        for tag, n in shown.items():
            print(f"  {n} x {tag}")
        sys.exit(1)
    if errors:
        print(errors[0]["error"])
        print(f"HARNESS-ERROR property={mod.PID} in {len(errors)} case(s); first: kind={errors[0]['kind']} seed={errors[0]['seed']}")
        sys.exit(3)
    if timeouts or missing:
        print(f"INCONCLUSIVE property={mod.PID} timeouts={len(timeouts)} monitors_never_reached={missing}")
        sys.exit(2)
    print(f"HELD property={mod.PID} tier={tier} cases={len(results)} distinct={len(sigs)} observations={sum(counts.values())} wall={wall:.1f}s")
    sys.exit(0)


if __name__ == "__main__":
    # run under the canonical module name so that fork()ed workers share _STATE
    from lib import harness as _h
    _h.main()
