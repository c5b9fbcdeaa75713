"""Confirm a planted bug in a scratch copy and see which checks notice it.

usage: plant.py SEEDDIR [PID ...]   (default: the property of meta.json)

All work is done in a temporary copy of /repo; nothing here is used by the checks.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def build(copy):
    env = dict(os.environ, VERIF_REPO=str(copy))
    rc, out = sh([PY, "-c", f"import sys; sys.path.insert(0, '{VERIF}/lib'); import build; print(build.build('plain'))"], env=env)
    if rc:
        raise SystemExit("build failed: " + out[-2000:])
    return out.split()[-1]


def stable():
    d = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "tests", "passing", "pass", "stable_tests"):
        if k in d:
            return d[k]
    return d


def main():
    seed = Path(sys.argv[1]).resolve()
    meta = json.loads((seed / "meta.json").read_text())
    pids = sys.argv[2:] or [meta["property"]]
    tmp = Path(tempfile.mkdtemp(prefix="plant-"))
    copy = tmp / "repo"
    try:
        shutil.copytree("/repo", copy, symlinks=True)
        src = build(copy)
        env = dict(os.environ, PYTHONPATH=src, PYTHONDONTWRITEBYTECODE="1")
        demo = tmp / "demo"
        shutil.copytree(seed, demo)
        rc, out = sh(["bash", str(demo / "demo.sh")], cwd=copy, env=env)
        print(f"{seed.name}: demo without the change: {rc}", "" if rc == 0 else out[-1500:])
        base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd="/repo", capture_output=True, text=True).stdout.strip()
        # removed lines must be original ones
        cur, n_old = None, 0
        for line in (seed / "patch.diff").read_text().splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
                blame = subprocess.run(["git", "blame", "-s", "-l", cur], cwd="/repo", capture_output=True, text=True).stdout.splitlines()
            elif line.startswith("@@"):
                pos = int(re.match(r"@@ -(\d+)", line).group(1))
            elif cur and line.startswith("-") and not line.startswith("---"):
                if not blame[pos - 1].lstrip("^").startswith(base[:30]):
                    print("  NOT an original line:", line)
                n_old += 1
                pos += 1
            elif cur and line.startswith(" "):
                pos += 1
        if not n_old:
            print("  no original line changed")
        rc, out = sh(["git", "apply", str(seed / "patch.diff")], cwd=copy)
        if rc:
            raise SystemExit("does not apply: " + out)
        src = build(copy)
        env["PYTHONPATH"] = src
        rc, out = sh(["bash", str(demo / "demo.sh")], cwd=copy, env=env)
        print(f"{seed.name}: demo with the change: {rc}", out.strip().splitlines()[-1][:200] if out.strip() else "", "" if rc else "NOT SHOWN")
        rc, out = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors"], cwd=copy, env=env)
        last = out.strip().splitlines()[-1]
        ok = re.search(r"\b82 passed", last)
        print(f"{seed.name}: tests: {last}", "" if ok else "TESTS NOTICE IT")
        env2 = dict(os.environ, VERIF_REPO=str(copy))
        for pid in pids:
            rc, out = sh([str(VERIF / "check"), pid], env=env2)
            msg = [x for x in out.splitlines() if x.startswith("VIOLATION") or x.strip().startswith("case ")]
            print(f"{seed.name}: {pid} -> {rc}", "caught" if rc == 1 else "MISSED", msg[1].strip()[:200] if len(msg) > 1 else out[-300:] if rc != 0 else "")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        for f in (VERIF / "replay").glob("*"):
            f.unlink()


main()
