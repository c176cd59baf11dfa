"""Builds /verif/seeded/<id>/ from definitions in bugs_*.py: python3 tools/seedlib.py [ids...]; --check runs the property's check too.
Each change is made in a scratch copy of /repo; it is kept only if the tests pass there, its demo fails there and passes in /repo."""
import concurrent.futures, glob, importlib, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PRE = '''import random, sys, math, itertools, copy
from collections import Counter
sys.path.insert(0, ".")
import warnings
warnings.simplefilter("ignore")
import baumeva
from baumeva import *
from baumeva.ga import *
from baumeva import generator


def pop(cls, n, gens, inp=None):
    p = cls()
    p.set_params(num_individ=n, gens=gens, input_population=inp)
    p.fill()
    return p


def data(p, multi=False, **k):
    d = (MultiGaData if multi else GaData)(num_generations=k.pop("num_generations", 10), **k)
    d.population = p
    return d


def scored(scores, genotypes=None, n=None, multi=False, **k):
    m = len(scores)
    p = pop(CatPopulation, m, (list(range(99)),), genotypes or [[i] for i in range(m)])
    for i, (ind, s) in enumerate(zip(p, scores)):
        ind["score"], ind["obj_score"] = s, i
        if multi:
            ind["rank"] = 1
    if n:
        p.num_individ = n
    return data(p, multi, **k)


def check(ok, msg):
    if not ok:
        print("FAIL:", msg)
        sys.exit(1)


'''
SH = '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec timeout 250 python3 "$(dirname "$0")/demo.py"\n'


def load():
    out = {}
    for f in sorted(glob.glob(HERE + "/bugs_*.py")):
        m = importlib.import_module(os.path.basename(f)[:-3])
        for b in m.BUGS:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out


def tests(repo):
    env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
    bad = []
    procs = []
    for t in json.load(open("/opt/vp/BASELINE.json"))["tests"] if False else subprocess.check_output(
            ["bash", "-c", "cd %s && find tests -name '*_test.py' -size +0" % repo], text=True).split():
        procs.append((t, subprocess.Popen(["timeout", "200", "/opt/venv/bin/python", t], cwd=repo, env=env, stdout=subprocess.DEVNULL,
                                          stderr=subprocess.DEVNULL)))
    for t, p in procs:
        if p.wait() != 0:
            bad.append(t)
    return bad


def build(b, check=False, skip_tests=False):
    scratch = tempfile.mkdtemp(prefix="seed_%s_" % b["id"])
    repo = scratch + "/repo"
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        for f, old, new in b["edits"]:
            p = os.path.join(repo, "baumeva", f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], "edit matches %d times: %s %r" % (s.count(old), f, old[:60])
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", repo, "diff"], text=True)
        dest = os.path.join(ROOT, "seeded", b["id"])
        shutil.rmtree(dest, ignore_errors=True)
        os.makedirs(dest)
        open(dest + "/patch.diff", "w").write(diff)
        open(dest + "/demo.py", "w").write(PRE + b["demo"].strip() + "\n")
        open(dest + "/demo.sh", "w").write(SH)
        os.chmod(dest + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(dest + "/meta.json", "w"), indent=1)
        good = subprocess.run(["bash", dest + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        bad = subprocess.run(["bash", dest + "/demo.sh"], cwd=repo, capture_output=True, text=True)
        msg = []
        for f in {e[0] for e in b["edits"]}:
            own = {i + 1 for i, l in enumerate(subprocess.check_output(
                ["git", "-C", repo, "blame", "-s", "HEAD", "--", "baumeva/" + f], text=True).splitlines())
                if not l.lstrip("^").startswith("cc08d23")}
            n = 0
            for l in subprocess.check_output(["git", "-C", repo, "diff", "-U0", "--", "baumeva/" + f], text=True).splitlines():
                if l.startswith("@@"):
                    n = int(l.split()[1][1:].split(",")[0])
                elif l.startswith("-") and not l.startswith("---"):
                    if n in own:
                        msg.append("TOUCHES OWN LINE %s:%d" % (f, n))
                    n += 1
        if good.returncode != 0:
            msg.append("DEMO FAILS ON CLEAN: %s" % (good.stdout + good.stderr)[-300:])
        if bad.returncode == 0:
            msg.append("DEMO PASSES WITH BUG")
        if not skip_tests:
            t = tests(repo)
            if t:
                msg.append("TESTS FAIL: %s" % t)
        if msg:
            shutil.rmtree(dest, ignore_errors=True)
        if check:
            ids = [b["property"]] if check is True else check
            for pid in ids:
                r = subprocess.run(["bash", ROOT + "/run.sh", pid, "--tier", "quick"], capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=repo, VERIF_PROCS="4"))
                line = next((x for x in r.stdout.splitlines() if x.startswith("  ")), "")
                msg.append("%s exit=%d %s" % (pid, r.returncode, line.strip()[:170]))
        return b["id"], "ok " + "; ".join(msg) + (" | demo: " + ((bad.stdout + bad.stderr).strip().splitlines() or ["exit %d" % bad.returncode])[-1][:90] if bad.returncode else "")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    bugs = load()
    check = "--check" in sys.argv
    if "--all" in sys.argv:
        check = ["C%02d" % i for i in range(1, 25)]
    sel = [bugs[i] for i in bugs if not args or any(i.startswith(a) for a in args)]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for i, m in ex.map(lambda b: build(b, check, "--no-tests" in sys.argv), sel):
            print(i, m, flush=True)
