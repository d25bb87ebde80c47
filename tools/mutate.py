"""Systematic mutation of the package: ``python tools/mutate.py OUT.jsonl [--files a.py,b.py] [--sample N] [--workers W]``.

Each mutant changes one operator, constant, comparison, slice, argument order or statement in a scratch copy of the
package; the checks mapped to its file run in turn until one reports a violation.  OUT.jsonl lists every mutant with the
check that caught it (or none).  A development aid: no registered check uses it.
"""

import argparse
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SCRATCH = "/tmp/mutants"
CHECKS = {
    "fluctuation_generation/low_frequency/large_plot.py": "C23 C18 C10",
    "common.py": "C05 C01 C04 C20 C18",
    "fluctuation_generation/covariance_kernels.py": "C01 C02 C19 C10",
    "fluctuation_generation/fluctuation_field_generator.py": "C11 C12 C16 C18 C03 C19 C10",
    "fluctuation_generation/gaussian_random_fields.py": "C13 C11 C19 C10",
    "fluctuation_generation/low_frequency/fluctuation_field_generator.py": "C14 C15 C16 C18 C19 C10 C02",
    "fluctuation_generation/nn_covariance.py": "C03 C02 C19 C10",
    "fluctuation_generation/sampling_methods.py": "C13 C19 C11",
    "fluctuation_generation/wind_plot.py": "C18",
    "nn_modules.py": "C05 C19 C07 C09",
    "parameters.py": "C19 C08 C09 C10 C20",
    "spectra_fitting/calibration.py": "C08 C07 C09 C06 C17 C20 C21 C19 C10",
    "spectra_fitting/data_generator.py": "C17 C19 C21",
    "spectra_fitting/eddy_lifetime.py": "C05 C19",
    "spectra_fitting/loss_functions.py": "C07 C20 C19 C21",
    "spectra_fitting/one_point_spectra.py": "C04 C05 C06 C02 C10 C19 C07",
}
EXTRA = {"C09", "C10", "C19", "C22"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "*", ast.Mod: "//"}
SYM = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.FloorDiv: "//", ast.Mod: "%"}
CMP = {
    ast.Lt: ["<=", ">"],
    ast.LtE: ["<", ">"],
    ast.Gt: [">=", "<"],
    ast.GtE: [">", "<"],
    ast.Eq: ["!="],
    ast.NotEq: ["=="],
    ast.Is: ["is not"],
    ast.IsNot: ["is"],
    ast.In: ["not in"],
    ast.NotIn: ["in"],
}


def mutants(text):
    """Yield (start, end, replacement, line, kind) with offsets into ``text`` (as bytes)."""
    data = text.encode()
    starts = [0]
    for line in data.split(b"\n"):
        starts.append(starts[-1] + len(line) + 1)

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def src(n):
        a, b = span(n)
        return data[a:b].decode()

    tree = ast.parse(text)
    skip = set()
    for n in ast.walk(tree):
        for f in ("annotation", "returns", "decorator_list"):
            v = getattr(n, f, None)
            for x in v if isinstance(v, list) else [v] if v is not None else []:
                skip.update(id(y) for y in ast.walk(x))
        if isinstance(n, ast.JoinedStr) or (isinstance(n, ast.Call) and src(n.func) in ("print", "warnings.warn", "tqdm")):
            skip.update(id(y) for y in ast.walk(n))
        if isinstance(n, ast.Raise):
            skip.update(id(y) for y in ast.walk(n) if y is not n)

    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n)
            yield a, b, f"({src(n.left)}) {BIN[type(n.op)]} ({src(n.right)})", n.lineno, "op"
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n)
            for new in CMP.get(type(n.ops[0]), []):
                yield a, b, f"({src(n.left)}) {new} ({src(n.comparators[0])})", n.lineno, "cmp"
        elif isinstance(n, ast.BoolOp):
            a, b = span(n)
            op = " or " if isinstance(n.op, ast.And) else " and "
            yield a, b, "(" + op.join(f"({src(v)})" for v in n.values) + ")", n.lineno, "bool"
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            a, b = span(n)
            yield a, b, f"({src(n.operand)})", n.lineno, "unary"
        elif isinstance(n, ast.Constant):
            a, b = span(n)
            v = n.value
            if isinstance(v, bool):
                yield a, b, str(not v), n.lineno, "const"
            elif isinstance(v, int):
                yield a, b, f"{v + 1}", n.lineno, "const"
                if v > 0:
                    yield a, b, f"{v - 1}", n.lineno, "const"
            elif isinstance(v, float):
                yield a, b, f"{v * 1.1 + (v == 0) * 0.1!r}", n.lineno, "const"
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            a, b = span(n)
            yield a, b, f"{src(n.target)} {BIN[type(n.op)]}= {src(n.value)}", n.lineno, "aug"
        if isinstance(n, (ast.If, ast.IfExp)):
            a, b = span(n.test)
            yield a, b, "True", n.lineno, "if"
            yield a, b, "False", n.lineno, "if"
        if isinstance(n, ast.Slice):
            a, b = span(n)
            lo = src(n.lower) if n.lower else ""
            hi = src(n.upper) if n.upper else ""
            st = ":" + src(n.step) if n.step else ""
            yield a, b, f"({lo or 0}) + 1:{hi}{st}", n.lineno, "slice"
            yield a, b, f"{lo}:({hi or 0}) - 1{st}", n.lineno, "slice"
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
            (a, b), (c, d) = span(n.args[0]), span(n.args[1])
            if src(n.args[0]) != src(n.args[1]):
                yield a, d, src(n.args[1]) + data[b:c].decode() + src(n.args[0]), n.lineno, "swap"
        if isinstance(n, ast.Call) and n.keywords and src(n.func) not in ("dict",):
            for k in n.keywords:
                if k.arg is None:
                    continue
                a, b = span(k)
                while data[b : b + 1] in (b" ", b"\n", b"\t"):
                    b += 1
                if data[b : b + 1] == b",":
                    b += 1
                yield a, b, "", n.lineno, "dropkw"
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Break, ast.Continue, ast.Delete)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and src(n.value.func) == "print":
                continue
            if isinstance(n, ast.Assign) and not all(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
                continue
            a, b = span(n)
            yield a, b, "pass", n.lineno, "del"


def build(files):
    out = []
    for f in files:
        text = open(os.path.join("/repo/drdmannturb", f)).read()
        data = text.encode()
        seen = set()
        jit = set()
        for n in ast.walk(ast.parse(text)):
            if isinstance(n, ast.FunctionDef) and any("jit" in ast.dump(d) for d in n.decorator_list):
                jit.update(range(n.lineno, n.end_lineno + 1))
        for a, b, new, line, kind in mutants(text):
            mutated = data[:a] + new.encode() + data[b:]
            if mutated in seen or mutated == data:
                continue
            seen.add(mutated)
            try:
                if ast.dump(ast.parse(mutated.decode())) == ast.dump(ast.parse(text)):
                    continue
            except SyntaxError:
                continue
            out.append({"file": f, "line": line, "kind": kind, "old": data[a:b].decode(), "new": new, "a": a, "b": b, "jit": line in jit, "src": text.split("\n")[line - 1]})
    return out


def lines(folder):
    out = {}
    for f in os.listdir(folder):
        db = json.load(open(os.path.join(folder, f)))
        out[f[:3]] = {(k, x) for k, v in db.items() for x in v}
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default=",".join(CHECKS))
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--workers", type=int, default=6)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--lines", default="/tmp/linesdb", help="folder of VERIF_LINES files, one per check")
    ap.add_argument("--count", action="store_true")
    ap.add_argument("--redo", help="rerun the survivors of this earlier OUT.jsonl")
    ap.add_argument("--exclude", help="regular expression on the mutated line")
    a = ap.parse_args()
    todo = build(a.files.split(","))
    if a.redo:  # the source may have moved since: a survivor is found again by its text
        keep = []
        for m in map(json.loads, open(a.redo)):
            same = [t for t in todo if not m["by"] and all(t[k] == m[k] for k in ("file", "kind", "old", "new"))]
            if same:
                keep.append(min(same, key=lambda t: abs(t["line"] - m["line"])))
        todo = [t for t in todo if any(t is x for x in keep)]
    if a.exclude:
        todo = [m for m in todo if not re.search(a.exclude, m["src"])]
    if a.count:
        for f in a.files.split(","):
            print(f, sum(m["file"] == f for m in todo))
        print(len(todo))
        return
    random.Random(a.seed).shuffle(todo)
    todo = todo[: a.sample or None]
    done = set()
    if os.path.exists(a.out):
        done = {(m["file"], m["a"], m["b"], m["new"]) for m in map(json.loads, open(a.out))}
    todo = [m for m in todo if (m["file"], m["a"], m["b"], m["new"]) not in done]
    hits = lines(a.lines)
    for m in todo:
        m["checks"] = [c for c in CHECKS[m["file"]].split() if (m["file"], m["line"]) in hits[c]]
        m["checks"] += [c for c in sorted(hits) if (m["file"], m["line"]) in hits[c] and c in EXTRA and c not in m["checks"]]
        if not m["checks"] and m["jit"]:
            m["checks"] = CHECKS[m["file"]].split()[:3]
    for m in [m for m in todo if not m["checks"]]:
        m["checks"] = ["none reaches it"]
    dead = [m for m in todo if m["checks"] == ["none reaches it"]]
    todo = [m for m in todo if m["checks"] != ["none reaches it"]]
    print(len(dead), "not reached;", len(todo), "to run", flush=True)
    slots = Queue()
    for w in range(a.workers):
        root = os.path.join(SCRATCH, f"w{w}")
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        subprocess.run(["cp", "-a", "/repo", root + "/repo"], check=True)
        shutil.copytree(VERIF, root + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "__pycache__", "replay"))
        slots.put(root)
    out = open(a.out, "a")

    def run(m):
        root = slots.get()
        path = os.path.join(root, "repo/drdmannturb", m["file"])
        data = open(path, "rb").read()
        t0 = time.time()
        by, how = None, []
        try:
            open(path, "wb").write(data[: m["a"]] + m["new"].encode() + data[m["b"] :])
            env = dict(os.environ, VERIF_REPO=root + "/repo", VERIF_MAX_VIOLATIONS="1", VERIF_LIMIT="200", VERIF_SEED="1", VERIF_TIER="quick")
            for c in m["checks"]:
                r = subprocess.run([PY, root + "/verif/checks/run.py", c], env=env, capture_output=True, text=True, cwd=root + "/verif")
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    by = c
                    how.append(r.stdout.strip().split("\n")[0][:160])
                    break
                if r.returncode != 0:
                    how.append(f"{c} exit {r.returncode}")
        finally:
            open(path, "wb").write(data)
            slots.put(root)
        out.write(json.dumps({**m, "by": by, "how": how, "s": round(time.time() - t0, 1)}) + "\n")
        out.flush()

    with ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(run, todo))
    shutil.rmtree(SCRATCH, ignore_errors=True)
    ms = [json.loads(x) for x in open(a.out)]
    print(len(ms), "mutants,", sum(m["by"] is None for m in ms), "not caught")


if __name__ == "__main__":
    main()
