"""Detection probes: python3 tools/probe.py [ids...]: applies each change of probes_*.py to a scratch clone and runs its property's quick
check; prints MISSED for those not reported.  Probes have no demo and are not registered as planted bugs."""
import concurrent.futures, glob, importlib, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)


def run(p):
    pid, prop, edits = p
    scratch = tempfile.mkdtemp(prefix="probe_")
    repo = scratch + "/repo"
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        for f, old, new in edits:
            q = os.path.join(repo, "baumeva", f)
            s = open(q).read()
            if s.count(old) != 1:
                return pid, "BAD EDIT: %d matches of %r in %s" % (s.count(old), old[:70], f)
            open(q, "w").write(s.replace(old, new))
        t = time.time()
        r = subprocess.run(["bash", ROOT + "/run.sh", prop, "--tier", "quick"], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=repo, VERIF_PROCS="4"))
        line = next((x for x in r.stdout.splitlines() if x.startswith("  ")), r.stderr[-200:])
        return pid, "%s %.0fs %s" % ("caught" if r.returncode == 1 and "VIOLATION" in r.stdout else "MISSED rc=%d" % r.returncode, time.time() - t, line.strip()[:150])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    probes = []
    for f in sorted(glob.glob(HERE + "/probes_*.py")):
        probes += importlib.import_module(os.path.basename(f)[:-3]).PROBES
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    sel = [p for p in probes if not args or any(p[0].startswith(a) for a in args)]
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for i, m in ex.map(run, sel):
            if "--missed" not in sys.argv or not m.startswith("caught"):
                print(i, m, flush=True)
