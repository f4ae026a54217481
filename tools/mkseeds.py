"""Write seeded/<id>/ from tools/seeds_*.py: each is a dict of edits, demonstration, property and description."""
import importlib.util, glob, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "3c02216"
HEAD = '''import io, os, struct, sys, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkpml import *
import procmon_parser
from procmon_parser import *
from procmon_parser.configuration import Font


def rd(data, *a, **k):
    return ProcmonLogsReader(io.BytesIO(data), *a, **k)


def same(got, want):
    assert got == want, "got %r, expected %r" % (got, want)


'''
DEMO_SH = '''#!/bin/bash
# exit 0 if the library behaves as it must (run with the repository as working directory)
D=$(cd "$(dirname "$0")" && pwd)
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 120 "$PY" "$D/demo.py"
'''


def main():
    seeds = {}
    for p in sorted(glob.glob(V + "/tools/seeds_*.py")):
        sp = importlib.util.spec_from_file_location("s", p)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for s in m.SEEDS:
            assert s["id"] not in seeds, s["id"]
            seeds[s["id"]] = s
    want = sys.argv[1:] or list(seeds)
    for sid in want:
        s = seeds[sid]
        w = tempfile.mkdtemp(prefix="mk-", dir="/tmp")
        try:
            repo = w + "/r"
            subprocess.check_call(["git", "clone", "-q", "/repo", repo])
            old = False
            for f, a, b in s["edits"]:
                p = repo + "/procmon_parser/" + f
                t = open(p).read()
                rx = re.compile(re.escape(a).replace("\\\n", "\n(?:[ \t]*\n)*"))  # blank lines may be left out
                found = rx.findall(t)
                assert len(found) == 1, (sid, f, len(found), a)
                open(p, "w").write(rx.sub(lambda m: b, t))
            diff = subprocess.check_output(["git", "-C", repo, "diff"], text=True)
            blame = {}
            f = None
            for line in diff.splitlines():
                if line.startswith("--- a/"):
                    f = line[6:]
                    blame[f] = subprocess.check_output(["git", "-C", repo, "blame", "-l", "-s", "HEAD", "--", f], text=True).splitlines()
                elif line.startswith("@@"):
                    n = int(line.split()[1][1:].split(",")[0])
                elif line.startswith("-") and f:
                    c = blame[f][n - 1].split()[0].lstrip("^")
                    if subprocess.check_output(["git", "-C", repo, "rev-parse", BASE], text=True).strip().startswith(c):
                        old = True
                    else:
                        print(sid, "removes a line of a later commit:", line)
                    n += 1
                elif line.startswith(" "):
                    n += 1
            if not old:
                print(sid, "CHANGES NO ORIGINAL LINE")
            d = V + "/seeded/" + sid
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.sh", "w").write(DEMO_SH)
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo.py", "w").write('"""%s"""\n' % s["breaks"] + HEAD + s["demo"].strip("\n") + "\n")
            shutil.copy(V + "/tools/mkpml.py", d)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(d + "/meta.json", "w"), indent=1)
        finally:
            shutil.rmtree(w)
    print(len(want), "seeds")


main()
