"""Plant the bugs of a spec file one by one: write seeded/<id>/, confirm the demonstration and the stable tests in a
scratch copy, and report whether the property's quick check catches each.

usage: plant.py SPEC.py [id ...]   (SPEC.py defines BUGS = [dict(id, property, file, edits, needs, breaks, demo)])"""
from __future__ import annotations

import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
BASE = "2e80664"
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)


def demo_files(bug, out):
    (out / "demo.py").write_text(bug["demo"].strip() + "\n")
    (out / "demo.sh").write_text('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')


def plant(bug):
    top = Path(tempfile.mkdtemp(prefix="plant-"))
    try:
        return attempt(bug, top)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def attempt(bug, top):
    repo, verif = top / "repo", top / "verif"
    shutil.copytree("/repo", repo, symlinks=True)
    shutil.copytree(ROOT, verif, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", ".hypothesis"), symlinks=True)
    (verif / "evidence").mkdir()
    out = top / "out"
    out.mkdir()
    demo_files(bug, out)
    env = {"PYTHONPATH": str(repo), "VERIF_REPO": str(repo), "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1"}
    for f, edits in bug["edits"].items():
        p = repo / "surface_potential_analysis" / f
        s = p.read_text()
        for old, new in edits:
            if s.count(old) != 1:
                return bug["id"], f"edit matches {s.count(old)} times: {old!r}"
            s = s.replace(old, new)
        pristine = p.read_text()
        p.write_text(s)
        bug.setdefault("_pristine", {})[f] = pristine
    diff = sh("git diff", repo).stdout
    (out / "patch.diff").write_text(diff)
    base = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    for f in bug["edits"]:
        orig = sh(f"git show {BASE}:surface_potential_analysis/{f}", repo).stdout.splitlines()
        if base and not any(l in orig for l in base if l.strip()):
            return bug["id"], "changes no line of the original repository"
    with_bug = sh(f"bash {out}/demo.sh", repo, env)
    if with_bug.returncode == 0:
        return bug["id"], "demo passes with the bug"
    t = sh(f"PYTHONPATH={repo}:/opt/vp/plugins {PY} -m pytest -q -p vp_seed_rng -p no:cacheprovider -p no:xdist --continue-on-collection-errors -rA tests 2>&1 | tail -60", repo, {"MPLBACKEND": "Agg"})
    stable = json.loads(Path("/opt/vp/BASELINE.json").read_text())["stable"]
    passed = {l.split("PASSED ")[1].strip() for l in t.stdout.splitlines() if l.startswith("PASSED ")}
    if len(passed) < len(stable):
        return bug["id"], f"only {len(passed)} tests pass: {t.stdout[-300:]}"
    q = sh(f"VERIF_TIER=quick VERIF_SEED=1 bash run_check.sh {bug['property']} quick", verif, env, 1800)
    hits = [l for l in q.stdout.splitlines() if l.startswith("VIOLATION")]
    why = [l for l in (q.stdout + q.stderr).splitlines() if "Error" in l or "Violation:" in l or l.startswith("---")]
    for f, pristine in bug["_pristine"].items():
        (repo / "surface_potential_analysis" / f).write_text(pristine)
    clean = sh(f"bash {out}/demo.sh", repo, env)
    if clean.returncode != 0:
        return bug["id"], f"demo fails on the unchanged tree: {clean.stderr[-600:]}"
    dest = ROOT / "seeded" / bug["id"]
    dest.mkdir(parents=True, exist_ok=True)
    for f in ("patch.diff", "demo.sh", "demo.py"):
        shutil.copy(out / f, dest / f)
    (dest / "meta.json").write_text(json.dumps({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, indent=1) + "\n")
    return bug["id"], ("CAUGHT rc=%d " % q.returncode if hits else "MISSED rc=%d " % q.returncode) + " | ".join(w[:150] for w in why[:4])


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = set(sys.argv[2:])
    bugs = [b for b in bugs if not only or b["id"] in only]
    with cf.ThreadPoolExecutor(6) as ex:
        for r in ex.map(plant, bugs):
            print(*r, flush=True)
