"""Build, confirm and try planted bugs: ``python tools/plant.py build|try [ID ...]``.

``build`` applies the edits of tools/plants.py in a scratch copy of /repo, writes /verif/seeded/<id>/, runs the stable
tests in the copy and the demonstration with and without the change.  ``try`` runs checks (the bug's own, or
``--checks C01,C02`` or ``--all``) from a copy of /verif against a scratch copy with the change.
"""

import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = "/tmp/plants"

PRELUDE = '''\
import os, sys, tempfile, shutil, atexit, contextlib, io, warnings
_scratch = tempfile.mkdtemp(prefix="demo-")
atexit.register(shutil.rmtree, _scratch, True)
sys.path.insert(0, os.getcwd())
os.chdir(_scratch)
warnings.simplefilter("ignore")
import numpy as np
import torch


def check(ok, what):
    print(("ok: " if ok else "FAILED: ") + what, flush=True)
    if not ok:
        sys.exit(1)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield

'''
DEMO_SH = '''\
#!/bin/bash
# cwd: the repository, built.  Exit 0 when the property holds.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 NUMBA_NUM_THREADS=2 CUDA_VISIBLE_DEVICES=
exec /opt/venv/bin/python "$here/demo.py"
'''


def copy_repo(name):
    dst = os.path.join(SCRATCH, name)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(SCRATCH, exist_ok=True)
    subprocess.run(["cp", "-a", REPO, dst], check=True)
    return dst


def apply_edits(root, edits):
    for e in edits:
        path, old, new = e[:3]
        nth = e[3] if len(e) > 3 else None
        full = os.path.join(root, "drdmannturb", path)
        text = open(full).read()
        n = text.count(old)
        if nth is None:
            assert n == 1, f"{path}: {n} occurrences of {old[:60]!r}"
            text = text.replace(old, new)
        else:
            parts = text.split(old)
            assert n > nth, f"{path}: only {n} occurrences"
            text = old.join(parts[: nth + 1]) + new + old.join(parts[nth + 1 :])
        open(full, "w").write(text)


def stable():
    out = []
    for t in json.load(open("/opt/vp/BASELINE.json"))["stable"]:
        mod, name = t.split("::")
        bits = mod.split(".")
        if bits[-1].startswith("Test"):
            out.append("/".join(bits[:-1]) + ".py::" + bits[-1] + "::" + name)
        else:
            out.append("/".join(bits) + ".py::" + name)
    return out


def demo_rc(folder, cwd):
    env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
    r = subprocess.run(["bash", os.path.join(folder, "demo.sh")], cwd=cwd, env=env, capture_output=True, text=True, timeout=400)
    return r.returncode, (r.stdout + r.stderr).strip().splitlines()[-1:]


def build(plant):
    pid = plant["id"]
    wt = copy_repo(pid)
    try:
        apply_edits(wt, plant["edits"])
        patch = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True, check=True).stdout
        folder = os.path.join(VERIF, "seeded", pid)
        os.makedirs(folder, exist_ok=True)
        open(os.path.join(folder, "patch.diff"), "w").write(patch)
        open(os.path.join(folder, "demo.sh"), "w").write(DEMO_SH)
        open(os.path.join(folder, "demo.py"), "w").write(PRELUDE + plant["demo"].lstrip("\n"))
        meta = {"property": plant["property"], "needs": plant["needs"], "what_it_breaks": plant["breaks"]}
        json.dump(meta, open(os.path.join(folder, "meta.json"), "w"), indent=1)
        fixed_lines = owned_lines(patch)
        clean, cl = demo_rc(folder, REPO)
        bad, bl = demo_rc(folder, wt)
        env = dict(os.environ, PYTHONPATH=wt, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1")
        r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "randomly", "--randomly-seed=0", "--randomly-dont-reorganize", *stable()], cwd=wt, env=env, capture_output=True, text=True)
        tests = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "?"
        ok = clean == 0 and bad == 1 and r.returncode == 0
        if not ok:
            shutil.rmtree(folder)
        return pid, ok, f"clean={clean} {cl if clean else ''} patched={bad} {bl} tests={r.returncode} {tests} {fixed_lines}"
    except AssertionError as e:
        return pid, False, str(e)
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def owned_lines(patch):
    """Removed lines that the original repository did not have (they came with a fix commit)."""
    base = subprocess.run("git -C " + REPO + " diff 3f93e08 HEAD", shell=True, capture_output=True, text=True).stdout
    mine = {l[1:].strip() for l in base.splitlines() if l.startswith("+") and not l.startswith("+++")}
    removed = [l[1:].strip() for l in patch.splitlines() if l.startswith("-") and not l.startswith("---")]
    removed = [r for r in removed if r]
    own = [r for r in removed if r in mine]
    return f"[{len(removed)} lines removed, {len(own)} of them from fixes]"


def trial(plant, checks, seed, tier):
    pid = plant["id"]
    wt = copy_repo(pid + "-try")
    vf = tempfile.mkdtemp(prefix="vf-copy-")
    got = {}
    try:
        r = subprocess.run(["git", "-C", wt, "apply", os.path.join(VERIF, "seeded", pid, "patch.diff")], capture_output=True, text=True)
        assert r.returncode == 0, r.stderr
        for d in ("checks", "vf"):
            shutil.copytree(os.path.join(VERIF, d), os.path.join(vf, d))
        for f in ("known_findings.txt", "properties.jsonl", "MANIFEST.json"):
            shutil.copy(os.path.join(VERIF, f), vf)
        for c in checks:
            env = dict(os.environ, PYTHONPATH=wt, VERIF_REPO=wt, VERIF_SEED=str(seed), VERIF_TIER=tier)
            r = subprocess.run([PY, os.path.join(vf, "checks/run.py"), c], cwd=vf, env=env, capture_output=True, text=True)
            lines = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            got[c] = (r.returncode, [l for l in r.stdout.splitlines() if not l.startswith("KNOWN")][:3] if r.returncode else "")
        return pid, plant["property"], got
    finally:
        shutil.rmtree(wt, ignore_errors=True)
        shutil.rmtree(vf, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what", choices=["build", "try", "list"])
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--checks", default="")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--seed", default=1, type=int)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("-j", default=6, type=int)
    a = ap.parse_args()
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    import plants_b  # noqa: F401
    import plants_c  # noqa: F401
    import plants_d  # noqa: F401
    import plants_e  # noqa: F401
    import plants_f  # noqa: F401
    from plants import PLANTS

    plants = [p for p in PLANTS if not a.ids or any(p["id"].startswith(i) for i in a.ids)]
    if a.what == "list":
        for p in plants:
            print(p["id"], p["property"], p["needs"])
        return
    with ThreadPoolExecutor(a.j) as pool:
        if a.what == "build":
            for pid, ok, msg in pool.map(build, plants):
                print("KEPT  " if ok else "REJECT", pid, msg, flush=True)
        else:
            allc = [f"C{i:02d}" for i in range(1, 40) if os.path.exists(os.path.join(VERIF, f"checks/c{i:02d}.py"))]
            futs = [pool.submit(trial, p, allc if a.all else a.checks.split(",") if a.checks else [p["property"]], a.seed, a.tier) for p in plants]
            for f in futs:
                pid, prop, got = f.result()
                print("CAUGHT" if got.get(prop, (0,))[0] == 1 else "MISSED", pid, prop, " ".join(f"{c}:{rc}" for c, (rc, _) in got.items()), flush=True)
                for c, (rc, out) in got.items():
                    if rc and (c == prop or rc not in (0, 1)):
                        for l in out:
                            print("      ", c, l[:230], flush=True)


if __name__ == "__main__":
    main()
