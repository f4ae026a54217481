"""Mutation campaign: python3 tools/mutants.py OUT.jsonl [file[:fraction] ...]

Makes small syntactic changes to scratch copies of procmon_parser and runs the checks on each until one reports a violation.
Not part of any check."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in",
       ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["//", "+"], ast.FloorDiv: ["*", "%"], ast.Mod: ["//"], ast.BitAnd: ["|"],
       ast.BitOr: ["&", "^"], ast.LShift: [">>"], ast.RShift: ["<<"], ast.BitXor: ["|"]}


def mutations(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l))
    raw = [l.encode() for l in lines]

    def pos(line, col):
        return starts[line - 1] + len(raw[line - 1][:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def seg(n):
        a, b = span(n)
        return src[a:b]
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
            docs.add(n.body[0])
    out = []

    def put(n, new, what):
        a, b = span(n)
        if src[a:b] != new:
            out.append((n.lineno, what, src[:a] + new + src[b:]))
    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, "(%s %s %s)" % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), "cmp")
            if isinstance(n.ops[0], (ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
                put(n, "(%s == %s)" % (seg(n.left), seg(n.comparators[0])), "cmp==")
        elif isinstance(n, ast.Compare):
            for k in range(len(n.ops)):
                parts = [seg(n.left)]
                for j, (o, c) in enumerate(zip(n.ops, n.comparators)):
                    a = span(n.left if j == 0 else n.comparators[j - 1])[1]
                    b = span(c)[0]
                    parts += [" %s " % CMP[type(o)] if j == k else src[a:b], seg(c)]
                put(n, "(%s)" % "".join(parts), "cmp chain")
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op), []):
                put(n, "(%s %s %s)" % (seg(n.left), o, seg(n.right)), "binop " + o)
            put(n, "(%s)" % seg(n.left), "drop right")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(%s)" % o.join("(%s)" % seg(v) for v in n.values), "boolop")
            for k in range(len(n.values)):
                put(n, "(%s)" % (" or " if isinstance(n.op, ast.Or) else " and ").join(
                    "(%s)" % seg(v) for j, v in enumerate(n.values) if j != k), "drop term")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, "(%s)" % seg(n.operand), "not")
        elif isinstance(n, ast.Constant) and n not in docs:
            if isinstance(n.value, bool):
                put(n, str(not n.value), "bool")
            elif isinstance(n.value, int):
                put(n, "(%d)" % (n.value + 1), "const+1")
                put(n, "(%d)" % (n.value - 1), "const-1")
            elif isinstance(n.value, str) and not seg(n).startswith(("f", "F")):
                put(n, repr(n.value + "x"), "str+")
                if n.value:
                    put(n, repr(n.value[:-1]), "str-")
            elif n.value is None and False:
                pass
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, "True" if not isinstance(n, ast.While) else seg(n.test), "cond true")
            put(n.test, "False", "cond false")
        elif isinstance(n, ast.Return) and n.value is not None:
            put(n.value, "None", "return none")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)) or (isinstance(n, ast.Expr) and n not in docs):
            put(n, "pass", "drop statement")
        if isinstance(n, ast.Slice):
            for p in (n.lower, n.upper):
                if p is not None:
                    a, b = span(p)
                    out.append((n.lower.lineno if n.lower else n.upper.lineno, "drop bound", src[:a] + src[b:]))
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            a, b = n.args[0], n.args[1]
            if not isinstance(a, ast.Starred) and not isinstance(b, ast.Starred):
                out.append((n.lineno, "swap args", src[:span(a)[0]] + seg(b) + src[span(a)[1]:span(b)[0]] + seg(a) + src[span(b)[1]:]))
        if isinstance(n, (ast.Break, ast.Continue)):
            put(n, "pass", "drop jump")
    good = []
    for line, what, text in out:
        try:
            ast.parse(text)
        except SyntaxError:
            continue
        good.append((line, what, text))
    return src, good


WORK = r"""
import sys, os, json, signal
sys.path.insert(0, %(here)r)
os.environ["VERIF_REPO"] = sys.argv[1]
os.environ["VERIF_SCRATCH"] = sys.argv[1]
sys.pycache_prefix = "/nonexistent-pyc"
sys.dont_write_bytecode = True
from vlib import monitor
sys.path.insert(0, monitor.REPO)
try:
    import procmon_parser
except Exception as e:
    print("CAUGHT import"); sys.exit(0)
try:
    import checks.logs, checks.events, checks.values, checks.config, checks.robust
except Exception as e:
    print("CAUGHT import checks"); sys.exit(0)
monitor.limit_memory(3)
frac = float(sys.argv[2])
for p in sys.argv[3].split(","):
    chk = monitor.CHECKS[p]
    n = chk.quick
    n = n() if callable(n) else n
    import random
    ids = list(range(n))
    random.Random(5).shuffle(ids)
    ids = ids[:max(3, int(n * frac))]
    chk.alarm = min(chk.alarm, 40)
    try:
        res = monitor.run_slice(chk, "quick", 1, ids)
    except BaseException as e:
        print("CAUGHT", p, "died", type(e).__name__); sys.exit(0)
    if res["bad"] and res["bad"][1] == "violation":
        print("CAUGHT", p, res["bad"][2][:150].replace("\n", " ")); sys.exit(0)
    if res["bad"]:
        print("ERROR", p, res["bad"][2][:3000].replace("\n", " ")); sys.exit(0)
print("SURVIVED")
""" % {"here": HERE}


def run(mut, order, frac):
    file, line, what, text = mut
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree(os.path.join(REPO, "procmon_parser"), os.path.join(d, "procmon_parser"),
                        ignore=shutil.ignore_patterns("__pycache__"))
        os.makedirs(os.path.join(d, "tests"))
        os.symlink(os.path.join(REPO, "tests", "resources"), os.path.join(d, "tests", "resources"))
        with open(os.path.join(d, "procmon_parser", file), "w") as f:
            f.write(text)
        try:
            p = subprocess.run([PY, "-B", "-W", "ignore", "-c", WORK, d, str(frac), order], capture_output=True, text=True, timeout=1500,
                               env=dict(os.environ, PYTHONHASHSEED="0", TZ="UTC0"))
            last = (p.stdout.strip().splitlines() or ["DIED rc=%s %s" % (p.returncode, p.stderr[-300:])])[-1]
        except subprocess.TimeoutExpired:
            last = "TIMEOUT"
        return last
    finally:
        shutil.rmtree(d, ignore_errors=True)


ORDER = {"logs.py": "P19,P20,P21,V01,V02,P01,P02,P10,P22", "configuration.py": "C01,C03,C04,C06,C05,V01,V02",
         "configuration_format.py": "C01,C02,C03,C04,C05,C06", "construct_helper.py": "C01,C02,C03,C04,C05,C06",
         "consts.py": "P22,P19,C01,C06,P11,P13", "stream_helper.py": "P03,P11,P18,P04,P08,P23",
         "stream_logs_detail_format.py": "P22,P11,P12,P13,P14,P15,P16,P17,P18,P08,P10",
         "stream_logs_format.py": "P03,P04,P01,P02,P05,P06,P08,P09,P10,P07,P23",
         "__init__.py": "C01,P01,P02,C04,P23,P07,P08"}
ALLP = ["P%02d" % k for k in range(1, 24)] + ["C%02d" % k for k in range(1, 7)] + ["V01", "V02"]


def main():
    out = sys.argv[1]
    frac = float(os.environ.get("FRAC", "0.06"))
    jobs = []
    if sys.argv[2].endswith(".jsonl"):          # survivors of an earlier run
        want = {(d["file"], d["line"], d["what"], d["n"]) for d in map(json.loads, open(sys.argv[2])) if not d["res"].startswith("CAUGHT")}
        specs = sorted({w[0] for w in want})
    else:
        want, specs = None, sys.argv[2:]
    for s in specs:
        file, _, fr = s.partition(":")
        src, muts = mutations(os.path.join(REPO, "procmon_parser", file))
        all_ = [(file, l, w, t, n) for n, (l, w, t) in enumerate(muts)]
        lines = src.splitlines()
        all_ = [m for m in all_ if "def __init__" not in lines[m[1] - 1] and "__all__" not in lines[m[1] - 1]]
        if want is not None:
            all_ = [m for m in all_ if (m[0], m[1], m[2], m[4]) in want]
        elif fr:
            random.Random(1).shuffle(all_)
            all_ = all_[:int(len(all_) * float(fr))]
        jobs += all_
    print(len(jobs), "mutants", flush=True)
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex, open(out, "w") as f:
        futs = {}
        for m in jobs:
            first = ORDER[m[0]].split(",")
            order = ",".join(first if os.environ.get("ONLY") else first + [p for p in ALLP if p not in first])
            futs[ex.submit(run, m[:4], order, frac)] = m
        for fu in as_completed(futs):
            m = futs[fu]
            src = open(os.path.join(REPO, "procmon_parser", m[0])).read().splitlines()
            new = m[3].splitlines()
            i = next((k for k, (a, b) in enumerate(zip(src, new)) if a != b), len(new) - 1)
            f.write(json.dumps({"file": m[0], "line": m[1], "what": m[2], "n": m[4], "old": src[i].strip(), "new": new[i].strip(),
                                "res": fu.result()}) + "\n")
            f.flush()


main()
