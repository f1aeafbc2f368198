"""Run the quick check of its property against every planted bug of seeded/, in scratch copies of the repository, and print
a table: bug, what it needs, cases of the check that report it. Development aid, used by no registered command."""
from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def one(name: str):
    d = os.path.join(HERE, "seeded", name)
    meta = json.load(open(os.path.join(d, "meta.json")))
    top = tempfile.mkdtemp(prefix="matrix-")
    try:
        repo = os.path.join(top, "repo")
        shutil.copytree(REPO, repo, symlinks=True)
        subprocess.run(["git", "-C", repo, "apply", os.path.join(d, "patch.diff")], check=True)
        work = os.path.join(top, "verif")
        shutil.copytree(HERE, work, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
        env = {**os.environ, "VERIF_REPO": repo, "VERIF_SEED": "1"}
        r = subprocess.run(["bash", "run_check.sh", meta["property"], "quick"], cwd=work, env=env, capture_output=True, text=True)
        cases = sorted(set(re.findall(rf"VIOLATION property={meta['property']} replay=\S*/{meta['property']}-(\w+)\.json", r.stdout)))
        return name, meta, r.returncode, cases
    finally:
        shutil.rmtree(top)


names = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
with ThreadPoolExecutor(1) as ex:
    for name, meta, rc, cases in ex.map(one, names):
        print(f"| `{name}` | {meta['needs']} | {', '.join(f'`{c}`' for c in cases) if rc == 1 else f'MISSED ({rc})'} |", flush=True)
