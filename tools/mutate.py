#!/usr/bin/env python3
"""Systematic small mutations of the sources, to find what the checks do not see.  An experiment only.

mutate.py list FILE...            number of mutants per file
mutate.py run OUT.jsonl FILE...   try every mutant (resumes): the checks of its file, in order, until one fails
mutate.py tests OUT.jsonl         run the repository's tests on the mutants that no check caught
"""
import ast, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO, VERIF, PY = "/repo", "/verif", "/opt/venv/bin/python"
CHECKS = {
    "fzero.py": "C04", "ppinterp/lib.py": "C01 C02", "ppinterp/linear.py": "C01 C02 C03", "ppinterp/pchip.py": "C01 C02 C03",
    "ppinterp/ppinterp.py": "C01 C02 C03", "ppinterp/tools.py": "C02 C01 C20", "bfs.py": "C11 C12 C13", "label.py": "C17 C22",
    "lib.py": "C23 C07 C06 C27 C22", "mixed_layer.py": "C18 C27 C22", "ntp.py": "C15 C25", "stability.py": "C21 C07", "synthocean.py": "C28",
    "traj.py": "C16 C22 C07", "grid/graph.py": "C10", "grid/rectilinear.py": "C08", "grid/tripolar.py": "C08", "grid/xgcm.py": "C09",
    "grid/tools.py": "C10 C08", "eos/tools.py": "C19 C20", "eos/gsw.py": "C19", "eos/gswc.py": "C19", "eos/jmd95.py": "C19", "eos/jmdfwg06.py": "C19",
    "surface/_vertsolve.py": "C05 C14 C13 C24", "surface/isopycnal.py": "C06 C25 C05 C22 C07", "surface/omega.py": "C24 C14 C13 C22 C07 C27",
}
CMP = {"<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "==": ["!="], "!=": ["=="], "is": ["is not"], "is not": ["is"], "in": ["not in"], "not in": ["in"]}
BIN = {"+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "**": ["*"], "//": ["/"], "&": ["|"], "|": ["&"], "%": ["*"]}


def mutants(path):
    src = open(path, "rb").read()
    starts = [0]
    for l in src.split(b"\n"):
        starts.append(starts[-1] + len(l) + 1)
    off = lambda ln, c: starts[ln - 1] + c
    beg = lambda n: off(n.lineno, n.col_offset)
    end = lambda n: off(n.end_lineno, n.end_col_offset)
    tree = ast.parse(src)
    out = []

    def add(a, b, new, node, what):
        out.append(dict(a=a, b=b, new=new, line=node.lineno, what="%s: %s -> %s" % (what, src[a:b].decode()[:60], new[:60])))

    def op(l, r, table, node, what):
        a, b = end(l), beg(r)
        gap = src[a:b].decode()
        m = re.search(r"\bis not\b|\bnot in\b|\bis\b|\bin\b|<=|>=|==|!=|<|>|\*\*|//|[-+*/&|%]", gap)
        if m:
            for new in table.get(m.group(), []):
                o = a + len(gap[: m.start()].encode())
                add(o, o + len(m.group()), new, node, what)

    def skip(n):
        return isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or (isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "print"))

    def walk(n, inert=False):
        if skip(n) or isinstance(n, (ast.Raise, ast.JoinedStr)):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op(n.left, n.comparators[0], CMP, n, "cmp")
        elif isinstance(n, ast.BinOp):
            op(n.left, n.right, BIN, n, "bin")
        elif isinstance(n, ast.AugAssign):
            op(n.target, n.value, BIN, n, "aug")
        elif isinstance(n, ast.BoolOp):
            for l, r in zip(n.values, n.values[1:]):
                a, b = end(l), beg(r)
                m = re.search(r"\b(and|or)\b", src[a:b].decode())
                if m:
                    add(a + m.start(), a + m.end(), "or" if m.group() == "and" else "and", n, "bool")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            if not (isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant)):
                add(beg(n), beg(n.operand), "", n, "unary")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(beg(n), end(n), str(not n.value), n, "const")
            elif isinstance(n.value, int):
                for v in {n.value + 1, n.value - 1}:
                    add(beg(n), end(n), "(%d)" % v if v < 0 else str(v), n, "const")
            elif isinstance(n.value, float):
                add(beg(n), end(n), repr(n.value * 1.01 if n.value else 1e-3), n, "const")
        elif isinstance(n, ast.If):
            add(beg(n.test), end(n.test), "False and (%s)" % src[beg(n.test):end(n.test)].decode(), n, "never")
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords and src[beg(n.args[0]):end(n.args[0])] != src[beg(n.args[1]):end(n.args[1])]:
            x, y = n.args
            if not any(isinstance(z, ast.Starred) for z in n.args):
                add(beg(x), end(y), src[beg(y):end(y)].decode() + ", " + src[beg(x):end(x)].decode(), n, "swap")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if n.col_offset > 4:
                add(beg(n), end(n), "pass", n, "delete")
        if isinstance(n, (ast.FunctionDef,)):
            for c in n.args.defaults + n.body:
                walk(c)
            return
        for c in ast.iter_child_nodes(n):
            walk(c)

    walk(tree)
    good = []
    for m in out:
        t = src[: m["a"]] + m["new"].encode() + src[m["b"]:]
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        good.append(dict(m, text=t))
    return good


def attempt(f, m):
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        shutil.copytree(REPO + "/neutralocean", d + "/neutralocean", ignore=shutil.ignore_patterns("__pycache__"))
        open(d + "/neutralocean/" + f, "wb").write(m["text"])
        for q in CHECKS[f].split():
            r = subprocess.run([PY, "mc/run.py", q, "quick"], cwd=VERIF, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=dict(os.environ, NEUTRALOCEAN_REPO=d, VERIF_SEED="1", MC_CASE_LIMIT="150"))
            if r.returncode == 1 and "VIOLATION property=" + q in r.stdout:
                return q
            if r.returncode:
                return "%s rc=%d" % (q, r.returncode)
        return ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tests(f, m):
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        shutil.copytree(REPO, d + "/repo", symlinks=True)
        open(d + "/repo/neutralocean/" + f, "wb").write(m["text"])
        r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-n", "4", "-p", "no:cacheprovider", "--timeout=100", "--rootdir=" + d + "/repo"], cwd=d + "/repo",
                           env=dict(os.environ, PYTHONPATH=d + "/repo", PYTHONDONTWRITEBYTECODE="1"), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return bool(re.search("^27 passed", r.stdout, re.M))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(a):
    if a[0] == "list":
        for f in a[1:] or CHECKS:
            print(f, len(mutants(REPO + "/neutralocean/" + f)))
    elif a[0] == "run":
        done = set()
        if os.path.exists(a[1]):
            done = {(r["file"], r["i"]) for r in map(json.loads, open(a[1]))}
        jobs = [(f, i, m) for f in a[2:] for i, m in enumerate(mutants(REPO + "/neutralocean/" + f)) if (f, i) not in done]
        step = int(os.environ.get("STEP", 1))
        jobs = jobs[::step]

        def go(j):
            f, i, m = j
            r = attempt(f, m)
            with open(a[1], "a") as fh:
                fh.write(json.dumps(dict(file=f, i=i, line=m["line"], what=m["what"], caught=r)) + "\n")

        with ThreadPoolExecutor(int(os.environ.get("JOBS", 3))) as ex:
            list(ex.map(go, jobs))
    elif a[0] == "tests":
        rows = [json.loads(l) for l in open(a[1])]
        for r in rows:
            if r["caught"] == "" and "tests" not in r:
                m = mutants(REPO + "/neutralocean/" + r["file"])[r["i"]]
                print("%s:%d %s  tests %s" % (r["file"], r["line"], r["what"], "pass" if tests(r["file"], m) else "FAIL"), flush=True)


main(sys.argv[1:])
