from __future__ import annotations

import contextlib
import importlib
import io
import json
import os
import sys
import time
import traceback
import warnings
import zlib

from harness import REPO, VERIF

# searching stops after SOFT seconds (what was explored until then counts); HARD is the limit for a hanging case
SOFT = {"quick": 480, "thorough": 1800}
HARD = {"quick": 780, "thorough": 2600}


class Deadline(BaseException):
    """The time for searching is over."""


def load(prop: str):
    import numpy as np

    import surface_potential_analysis

    root = os.path.realpath(os.path.dirname(surface_potential_analysis.__file__))
    if not root.startswith(os.path.realpath(REPO)):
        msg = f"library imported from {root}, not from {REPO}"
        raise RuntimeError(msg)
    assert np
    importlib.import_module(f"checks.{prop.lower()}")
    if os.environ.get("VERIF_JITTER"):
        from harness import jitter

        jitter.install()
    from harness.core import REGISTRY

    return REGISTRY[prop]


def evaluate(case, c, ctx) -> None:
    """Run one input against the code under test, from a fixed global random state, with output swallowed."""
    import numpy as np

    np.random.seed(0)  # noqa: NPY002
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            case.fn(c, ctx)


def run_shard(args):
    prop, name, n, seed, deadline = args
    try:
        return _run_shard(prop, name, n, seed, deadline)
    except BaseException:  # noqa: BLE001
        return {"case": name, "error": traceback.format_exc(), "evals": 0, "keys": set(), "labels": {}, "samples": []}


def _run_shard(prop, name, n, seed, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.errors import HypothesisException, UnsatisfiedAssumption
    from hypothesis.internal.conjecture import engine

    from harness.core import REGISTRY, Ctx, key

    engine.MAX_SHRINKING_SECONDS = 40
    case = REGISTRY[prop][name]
    st = {"case": name, "evals": 0, "keys": set(), "labels": {}, "samples": [], "fail": None, "error": None}
    state = {"phase": "gen", "last": None}

    def body(c) -> None:
        if state["phase"] == "gen" and time.monotonic() > deadline:
            raise Deadline
        ctx = Ctx()
        c = json.loads(json.dumps(c))
        try:
            evaluate(case, c, ctx)
        except UnsatisfiedAssumption:
            raise
        except HypothesisException:
            raise
        except Exception:
            state["phase"] = "shrink"
            state["last"] = (c, traceback.format_exc())
            raise
        finally:
            if state["phase"] == "gen":
                st["evals"] += 1
                for lb in ctx.labels:
                    st["labels"][lb] = st["labels"].get(lb, 0) + 1
                if ctx.nontrivial:
                    k = key(c)
                    if k not in st["keys"]:
                        st["keys"].add(k)
                        m = len(st["keys"])
                        if m in (2, 20):
                            st["samples"].append({"case": name, "input": c})

    test = given(case.strategy)(body)
    test = hypothesis.seed(seed)(test)
    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck),
        print_blob=False,
        report_multiple_bugs=False,
        verbosity=hypothesis.Verbosity.quiet,
    )(test)
    t0 = time.monotonic()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            test()
    except Deadline:
        st["labels"]["(stopped when the time was over)"] = 1
    except BaseException as e:  # noqa: BLE001
        if state["last"] is not None:
            st["fail"] = {"input": state["last"][0], "trace": state["last"][1]}
        else:
            st["error"] = f"{e!r}\n{traceback.format_exc()}"
    st["wall"] = time.monotonic() - t0
    return st


def known_findings(prop: str) -> list[dict]:
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def replay_one(case, c) -> str | None:
    from harness.core import Ctx

    try:
        evaluate(case, c, Ctx())
    except Exception:  # noqa: BLE001
        return traceback.format_exc()
    return None


def run(prop: str, tier: str, only: str | None) -> int:
    import multiprocessing as mp

    seed0 = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.monotonic()
    reg = load(prop)
    names = [n for n in reg if not n.startswith("known_") and (only is None or only in n)]
    ncpu = min(8, os.cpu_count() or 1)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    jobs = []
    for name in names:
        c = reg[name]
        total = max(1, int((c.quick if tier == "quick" else c.thorough) * scale))
        shards = 1 if total < 40 else (4 if tier == "quick" else 2 * ncpu)
        for i in range(shards):
            n = (total + shards - 1) // shards
            jobs.append((i, (prop, name, n, zlib.crc32(f"{seed0}/{prop}/{name}/{i}".encode()), t0 + SOFT[tier])))
    # every case gets its first shard before any gets its second
    jobs = [j for _, j in sorted(jobs, key=lambda x: x[0])]
    budget = HARD[tier]
    results, error = [], None
    ctxm = mp.get_context("fork")
    with ctxm.Pool(ncpu, maxtasksperchild=8) as pool:
        it = pool.imap_unordered(run_shard, jobs, chunksize=1)
        for _ in jobs:
            left = budget - (time.monotonic() - t0)
            try:
                results.append(it.next(timeout=max(left, 1)))
            except mp.TimeoutError:
                error = f"time budget of {budget} s exhausted (inconclusive)"
                break
        pool.terminate()
    fails = [(r["case"], r["fail"]) for r in results if r.get("fail")]
    errs = [r for r in results if r.get("error")]
    # known findings: each is one stored input of one (possibly excluded) case
    for k in known_findings(prop):
        if k.get("status") != "known" or (only is not None and only not in k["case"]):
            continue
        tb = replay_one(reg[k["case"]], k["input"])
        if tb is not None:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
        else:
            print(f"note: recorded finding no longer reproduces: {k['id']}")
    seen, paths = set(), []
    for name, fl in fails:
        if name in seen:
            continue
        seen.add(name)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{prop}-{name}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "case": name, "input": fl["input"], "trace": fl["trace"]}, f, indent=1)
        again = replay_one(reg[name], fl["input"])
        print(f"--- {prop}/{name}" + ("" if again else " (did not recur on isolated replay)"))
        print((again or fl["trace"]).rstrip().splitlines()[-1][:600])
        paths.append(path)
    for p in paths:
        print(f"VIOLATION property={prop} replay={p}")
    labels, per = {}, {}
    keys, evals, samples = 0, 0, []
    bycase: dict[str, set] = {}
    for r in results:
        evals += r["evals"]
        bycase.setdefault(r["case"], set()).update(r["keys"])
        d = per.setdefault(r["case"], {"evaluations": 0, "classes": {}, "cpu_s": 0.0})
        d["evaluations"] += r["evals"]
        d["cpu_s"] = round(d["cpu_s"] + r.get("wall", 0), 2)
        for lb, m in r["labels"].items():
            d["classes"][lb] = d["classes"].get(lb, 0) + m
        for s in r["samples"]:
            if sum(x["case"] == s["case"] for x in samples) < 2:
                samples.append(s)
    for name, ks in bycase.items():
        per[name]["distinct_nontrivial"] = len(ks)
        keys += len(ks)
    if not samples:
        samples = [{"note": "no non-trivial case reached"}]
    rule = " | ".join(f"{n}: {' '.join(reg[n].rule.split())}" for n in names)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed0,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": keys,
            "rule": "Inputs drawn by Hypothesis from the strategy of each case; distinct = different JSON input; "
            "per case the code marks an input non-trivial as described: " + rule,
            "samples": samples[:40],
            "per_case": per,
        },
        "assumptions": [
            "floating point comparisons use the relative tolerances stated in checks/" + prop.lower() + ".py",
            "sizes bounded by the strategies in checks/" + prop.lower() + ".py",
        ],
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(paths),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {evals} evaluations, {keys} distinct non-trivial, {len(names)} cases, {ev['wall_s']} s")
    if os.environ.get("VERIF_VERBOSE"):
        for n, d in per.items():
            print(f"  {n}: {d['evaluations']} evals, {d['distinct_nontrivial']} nt, {d['cpu_s']} s {d['classes']}")
    if paths:
        return 1
    if errs:
        for r in errs:
            print(f"HARNESS ERROR in {r['case']}:\n{r['error']}", file=sys.stderr)
        return 3
    if error:
        print(error, file=sys.stderr)
        return 4
    return 0


def main(argv: list[str]) -> int:
    os.chdir(VERIF)
    sys.path.insert(0, VERIF)
    if argv[0] == "selfcheck":
        import hypothesis

        import surface_potential_analysis

        print("hypothesis", hypothesis.__version__, "library", surface_potential_analysis.__file__)
        return 0
    if argv[0] == "replay":
        with open(argv[1]) as f:
            d = json.load(f)
        reg = load(d["property"])
        tb = replay_one(reg[d["case"]], d["input"])
        print(json.dumps(d["input"]))
        print(tb or "holds")
        return 1 if tb else 0
    prop, tier = argv[0], argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run(prop, tier, argv[2] if len(argv) > 2 else None)


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        rc = 5
    sys.stdout.flush()
    sys.exit(rc)
