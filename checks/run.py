"""Run one check: ``python run.py C01 [--only CASE]`` (VERIF_SEED, VERIF_TIER).

The supervisor starts worker processes that drive the real package from /repo under the monitors, merges what they
observed, writes the evidence file and gives the verdict.  A worker killed by a memory fault is itself a violation.
"""

import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FAULTS = {signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGILL, signal.SIGABRT}


def worker_env(scratch):
    env = dict(os.environ)
    env.update(
        OMP_NUM_THREADS=env.get("VERIF_OMP", "1"),
        MPLBACKEND="Agg",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
        TMPDIR=scratch,
        NUMBA_CACHE_DIR=os.path.join(scratch, "numba"),
        TF_CPP_MIN_LOG_LEVEL="3",
        PYTHONFAULTHANDLER="1",
    )
    env.setdefault("NUMBA_NUM_THREADS", "2")
    return env


def supervise(prop, only):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    nworkers = int(os.environ.get("VERIF_WORKERS", "6" if tier == "thorough" else "1"))
    limit = float(os.environ.get("VERIF_LIMIT", "6000" if tier == "thorough" else "840"))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"vf-{prop}-")
    results, faults, errors = [], [], []
    try:
        procs = []
        for w in range(nworkers):
            wdir = os.path.join(scratch, f"w{w}")
            os.makedirs(wdir)
            out = os.path.join(wdir, "result.json")
            log = open(os.path.join(wdir, "stdout.log"), "w")
            cmd = [sys.executable, os.path.abspath(__file__), "--worker", prop, tier, str(seed + 1000 * w), out, only or ""]
            procs.append((subprocess.Popen(cmd, cwd=wdir, env=worker_env(wdir), stdout=log), out, log))
        for p, out, log in procs:
            try:
                p.wait(max(1.0, t0 + limit - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                errors.append("worker did not finish")
            log.close()
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
            if p.returncode < 0 and -p.returncode in FAULTS:
                faults.append(f"worker ended by signal {-p.returncode} ({signal.Signals(-p.returncode).name})")
            elif p.returncode != 0:
                errors.append(f"worker exited with {p.returncode}")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    violations = [v for r in results for v in r["violations"]]
    violations += [{"what": f, "case": None, "detail": None} for f in faults]
    sigs = set()
    margins, counts, findings, samples, assumptions = {}, {}, {}, [], []
    for r in results:
        sigs.update(r["signatures"])
        findings.update(r["findings"])
        for k, v in r["margins"].items():
            margins[k] = max(v, margins.get(k, 0))
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        samples += r["samples"][: 12 if r is results[0] else 2]
        assumptions = r["assumptions"] or assumptions

    listed = known_keys(prop)
    for k, what in sorted(findings.items()):
        if k in listed:
            print(f"KNOWN-FINDING: property={prop} {listed[k]}")
        else:
            violations.append({"what": f"{what} (finding {k} is not listed)", "case": None, "detail": None})

    evidence = {
        "property": prop,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["cases"] for r in results),
            "distinct_nontrivial": len(sigs),
            "rule": results[0]["rule"] if results else "",
            "samples": samples or ["none"],
            "monitor_observations": sum(r["observations"] for r in results),
            "values_compared": sum(r["values"] for r in results),
            "cases_by_kind": counts,
            "worst_error_over_tolerance": margins,
            "workers": nworkers,
            "known_findings_observed": sorted(findings),
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    if violations:
        rdir = os.path.join(VERIF, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}.json")
        name = next((v["case"]["name"] for v in violations if v["case"]), "")
        with open(path, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "command": f"VERIF_SEED={seed} VERIF_TIER={tier} {sys.executable} {os.path.abspath(__file__)} {prop}"
                    + (f" --only {name!r}" if name else ""),
                    "violations": violations,
                },
                f,
                indent=1,
                default=str,
            )
        for v in violations[:5]:
            print("  " + v["what"] + (f"  [{v['case']['name']}]" if v["case"] else ""))
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors or len(results) != nworkers:
        print(f"{prop}: inconclusive: {errors}")
        return 2
    c = evidence["coverage"]
    print(f"{prop}: held on {c['evaluations']} cases ({c['monitor_observations']} observations, {evidence['wall_s']} s)")
    return 0


def known_keys(prop):
    """known_findings.txt: lines ``known: property=<id> key=<key> <what fails>`` (``fixed:`` lines suppress nothing)."""
    out = {}
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            parts = line.strip().split(" ", 3)
            if len(parts) == 4 and parts[0] == "known:" and parts[1] == f"property={prop}":
                out[parts[2].removeprefix("key=")] = parts[3]
    return out


def work(prop, tier, seed, out, only):
    sys.dont_write_bytecode = True
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path[:0] = [repo, VERIF]
    import importlib
    import traceback
    import warnings

    warnings.filterwarnings("ignore")
    from vf.core import Monitor, Stop

    m = Monitor(prop, tier, int(seed), only or None)
    lines = record_lines(repo) if os.environ.get("VERIF_LINES") else None
    code = 0
    try:
        import drdmannturb

        if not os.path.abspath(drdmannturb.__file__).startswith(os.path.abspath(repo) + os.sep):
            raise RuntimeError(f"drdmannturb comes from {drdmannturb.__file__}, not from {repo}")
        mod = importlib.import_module(f"checks.{prop.lower()}")
        m.rule = " ".join((mod.RULE).split())
        m.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
        mod.check(m)
    except Stop:
        pass
    except Exception:
        traceback.print_exc(file=sys.stderr)
        code = 3
    with open(out, "w") as f:
        json.dump(m.result(), f, default=str)
    if lines is not None:
        with open(os.environ["VERIF_LINES"], "w") as f:
            json.dump({k: sorted(v) for k, v in lines.items()}, f)
    sys.stdout.flush()
    os._exit(code)


def record_lines(repo):
    """Which lines of the package execute (VERIF_LINES=file; used by tools/mutate.py and for the coverage table)."""
    seen = {}
    root = os.path.join(os.path.abspath(repo), "drdmannturb") + os.sep
    mon = sys.monitoring

    def on_line(code, line):
        if code.co_filename.startswith(root):
            seen.setdefault(code.co_filename[len(root) :], set()).add(line)
        return mon.DISABLE

    mon.use_tool_id(mon.COVERAGE_ID, "vf")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    return seen


if __name__ == "__main__":
    if sys.argv[1] == "--worker":
        work(*sys.argv[2:7])
    else:
        sys.exit(supervise(sys.argv[1], sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None))
