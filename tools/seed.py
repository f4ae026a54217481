"""Confirm a planted bug: python3 tools/seed.py ID... ; CHECKS=1 also runs the checks of its property (or CHECKS=all)."""
import json, os, shutil, subprocess, sys, tempfile
PY = "/opt/venv/bin/python"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


stable = json.load(open("/opt/vp/BASELINE.json"))
def one(sid):
    d = os.path.join(V, "seeded", sid)
    out = []
    say = lambda *a: out.append(" ".join(map(str, a)))
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        repo = w + "/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        demo = w + "/demo"
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json", "__pycache__"))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        a = sh("bash", demo + "/demo.sh", cwd=repo, env=env, timeout=300)
        p = sh("git", "apply", d + "/patch.diff", cwd=repo)
        b = sh("bash", demo + "/demo.sh", cwd=repo, env=env, timeout=300)
        ok = a.returncode == 0 and p.returncode == 0 and b.returncode != 0
        tests = ""
        if os.environ.get("TESTS", "1") == "1":
            t = sh(PY, "-m", "pytest", "-q", "-x", "tests", "-p", "no:cacheprovider", cwd=repo,
                   env=dict(env, PYTHONPATH=repo))
            tests = t.stdout.strip().splitlines()[-1]
        say(sid, "ok" if ok else "BAD clean=%d apply=%d bug=%d\n%s\n%s\n%s" % (
            a.returncode, p.returncode, b.returncode, a.stdout[-300:], p.stdout, b.stdout[-300:]), tests)
        if os.environ.get("CHECKS"):
            meta = json.load(open(d + "/meta.json"))
            ids = [meta["property"]] if os.environ["CHECKS"] == "1" else [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
            hit = []
            for i in ids:
                c = sh("python3", V + "/run.py", i, cwd=V, env=dict(env, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick",
                                                                    VERIF_NOEVIDENCE="1"))
                if c.returncode == 1 and "VIOLATION property=%s" % i in c.stdout:
                    hit.append(i)
                elif c.returncode:
                    hit.append(i + "!rc%d" % c.returncode)
                if i == meta["property"] and c.returncode == 0:
                    say("   MISSED by", i)
            say("   caught by", " ".join(hit))
    finally:
        shutil.rmtree(w)
    return "\n".join(out)


from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for o in ex.map(one, sys.argv[1:]):
        print(o, flush=True)
