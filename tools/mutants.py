"""Systematic first-order mutants of /repo's library code: python3 tools/mutants.py [file-substring ...] [--list] [--every=N] [--guard=late|large|seventh]
Each mutant is applied to a scratch clone and handed to the checks of its file, the likeliest first, until one reports it.
Survivors are printed with their change (to be read: equivalent or a hole)."""
import ast, concurrent.futures, os, queue, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("populations/binary_gray", "C01 C02 C03"), ("populations/binary", "C01 C02 C03 C22 C23"),
       ("populations/cat", "C03 C23"), ("populations/order", "C03"), ("populations/base", "C03 C12 C11 C13 C05 C19"),
       ("crossovers/", "C05"), ("mutations/base_comb", "C06 C23 C07"), ("mutations/bin", "C06 C23 C07"),
       ("mutations/cat", "C06 C23 C07"), ("mutations/", "C06"), ("selections/vega", "C10"),
       ("selections/tour", "C08 C23"), ("selections/", "C09"), ("penalties/static", "C16 C23"),
       ("penalties/", "C15 C23"), ("fitness/multi", "C17 C15 C14 C22"), ("fitness/", "C14 C15 C17 C22 C23"),
       ("ga/multi_new", "C18 C24"), ("ga/new_gen", "C11 C23"), ("ga/multi_ga_data", "C17 C13 C25"), ("ga/ga_data", "C12 C13 C25"),
       ("global_generator", "C19"), ("", "C20 C13 C23")]
OPS = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult], ast.BitXor: [ast.BitOr],
       ast.RShift: [ast.LShift]}
CALLS = {"min": "max", "max": "min"}
STRIP = {"deepcopy", "list", "abs", "round", "ceil", "int", "sorted", "reversed"}


def mutants(src):
    """(line, description, text) of every mutant"""
    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0]))
        if isinstance(n, (ast.JoinedStr, ast.Raise)):
            doc |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.FunctionDef):
            for a in [n.returns] + [x.annotation for x in n.args.args]:
                doc |= {id(x) for x in ast.walk(a)} if a else set()
            if n.name.startswith("print"):
                doc |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.AnnAssign):
            doc |= {id(x) for x in ast.walk(n.annotation)}
    out = []

    def emit(node, what):
        out.append((getattr(node, "lineno", 0), what, ast.unparse(tree)))
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                for r in OPS.get(type(o), []):
                    n.ops[i] = r()
                    emit(n, "%s -> %s" % (type(o).__name__, r.__name__))
                    n.ops[i] = o
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            o = n.op
            for r in BIN.get(type(o), []):
                n.op = r()
                emit(n, "%s -> %s" % (type(o).__name__, r.__name__))
                n.op = o
        elif isinstance(n, ast.BoolOp):
            o = n.op
            n.op = ast.And() if isinstance(o, ast.Or) else ast.Or()
            emit(n, "and/or")
            n.op = o
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str):
            v = n.value
            alts = [not v] if isinstance(v, bool) else [v + 1, v - 1] if isinstance(v, int) else [v * 1.1, v * 0.9] if isinstance(v, float) else []
            for a in alts:
                n.value = a
                emit(n, "%r -> %r" % (v, a))
            n.value = v
        elif isinstance(n, ast.Constant) and n.value in ("score", "genotype", "phenotype", "obj_score", "best", "random", "<=", "!="):
            v = n.value
            n.value = {"score": "obj_score", "obj_score": "score", "genotype": "phenotype", "phenotype": "genotype", "best": "random",
                       "random": "best", "<=": "!=", "!=": "<="}[v]
            emit(n, "%r -> %r" % (v, n.value))
            n.value = v
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            o = n.op
            n.op = ast.UAdd() if isinstance(o, ast.USub) else o
            if n.op is not o:
                emit(n, "- dropped")
            n.op = o
        if isinstance(n, (ast.If, ast.While)):
            t = n.test
            for r in (ast.Constant(True), ast.Constant(False)):
                if isinstance(n, ast.While) and r.value:
                    continue
                n.test = r
                emit(n, "condition %s" % r.value)
            n.test = t
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            f = n.func.id
            if f in CALLS:
                n.func.id = CALLS[f]
                emit(n, "%s -> %s" % (f, CALLS[f]))
                n.func.id = f
        for field in ("body", "orelse"):
            b = getattr(n, field, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if id(s) in doc or not isinstance(s, (ast.Expr, ast.AugAssign, ast.Assign, ast.Break, ast.Continue, ast.Delete)):
                        continue
                    if isinstance(s, ast.Assign) and not isinstance(s.targets[0], (ast.Attribute, ast.Subscript)):
                        continue
                    b[i] = ast.copy_location(ast.Pass(), s)
                    emit(s, "dropped: " + ast.unparse(s)[:90])
                    b[i] = s
        for field, val in ast.iter_fields(n):
            vals = val if isinstance(val, list) else [val]
            for i, c in enumerate(vals):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in STRIP and c.args and id(c) not in doc:
                    def put(x):
                        if isinstance(val, list):
                            val[i] = x
                        else:
                            setattr(n, field, x)
                    put(c.args[0])
                    emit(c, "%s() removed" % c.func.id)
                    put(c)
    seen, res, base = set(), [], ast.unparse(ast.parse(src))
    for l, w, t in out:
        if t != base and t not in seen:
            seen.add(t)
            res.append((l, w, t))
    return sorted(res, key=lambda x: x[0])


GUARDS = {"late": {"ga_data": "ga_data.idx_generation >= 9", "idx_generation": "idx_generation >= 9", "iter_generation": "iter_generation >= 9"},
          "large": {"ga_data": "len(ga_data.population) > 14", "parent_1": "len(parent_1) > 14", "child": "len(child['genotype']) > 14",
                    "genotype": "len(genotype) > 14", "float_gens": "len(float_gens) > 3", "values": "len(values) > 3",
                    "array": "array is not None and len(array) > 6"}}


def guarded(src, text, kind):
    """the mutant behaves as the original except where the guard holds (None: no guard fits the changed function)"""
    a, b = ast.parse(src), ast.parse(text)

    def funcs(t):
        return [(c.name, f) for c in ast.walk(t) if isinstance(c, ast.ClassDef) for f in c.body if isinstance(f, ast.FunctionDef)]
    for (cn, f), (dn, g) in zip(funcs(a), funcs(b)):
        if ast.unparse(f.args) != ast.unparse(g.args):
            return None
        if ast.unparse(f) != ast.unparse(g):
            names = [x.arg for x in f.args.args]
            if f.name == "__init__":
                return None
            if kind == "seventh":
                test = "next(_calls) % 7 == 6"
                a.body.insert(0, ast.parse("import itertools\n_calls = itertools.count()").body[0])
                a.body.insert(1, ast.parse("_calls = itertools.count()").body[0])
            else:
                test = next((t for n, t in GUARDS[kind].items() if n in names), None)
                if test is None and "self" in names:
                    if "BasePopulation" in [getattr(x, "id", "") for c in ast.walk(a) if isinstance(c, ast.ClassDef) for x in c.bases] or "Population" in cn:
                        test = "len(self) > 14" if kind == "large" else None
                    elif "GaData" in cn:
                        test = "self.idx_generation >= 9" if kind == "late" else "len(self.population) > 14"
                if test is None:
                    return None
            f.body = [ast.If(test=ast.parse(test, mode="eval").body, body=g.body, orelse=f.body)]
            return ast.unparse(ast.fix_missing_locations(a))
    return None


def main():
    guard = next((a.split("=")[1] for a in sys.argv if a.startswith("--guard=")), None)
    every = int(next((a.split("=")[1] for a in sys.argv if a.startswith("--every=")), "1"))
    pats = [a for a in sys.argv[1:] if not a.startswith("--")]
    files = sorted(f for f in subprocess.check_output(["git", "-C", "/repo", "ls-files", "baumeva"], text=True).split()
                   if not f.endswith("__init__.py") and (not pats or any(p in f for p in pats)))
    jobs = []
    for f in files:
        src = open(os.path.join("/repo", f)).read()
        ms = mutants(src)
        if guard:
            ms = [(l, w, g) for l, w, t in ms for g in [guarded(src, t, guard)] if g]
        ms = ms[every // 2::every]
        print("#", f, len(ms), flush=True)
        jobs += [(f, src, l, w, text) for l, w, text in ms]
    if "--list" in sys.argv:
        return
    free = queue.Queue()
    scratch = tempfile.mkdtemp(prefix="mutant_")
    for k in range(int(os.environ.get("MUTANT_JOBS", "4"))):
        subprocess.check_call(["git", "clone", "-q", "/repo", scratch + "/repo%d" % k])
        free.put(scratch + "/repo%d" % k)

    def one(job):
        f, src, l, w, text = job
        repo = free.get()
        open(os.path.join(repo, f), "w").write(text)
        t0 = time.time()
        who = None
        for c in next(c for p, c in MAP if p in f).split():
            try:
                p = subprocess.run(["bash", os.path.join(ROOT, "run.sh"), c, "--tier", "quick"], capture_output=True, text=True,
                                   env=dict({"VERIF_PROCS": "2", "VERIF_AFTER": "0"}, **os.environ, VERIF_REPO=repo), timeout=1800)
                if p.returncode:
                    who = c if p.returncode == 1 else c + " exit %d" % p.returncode
                    break
            except subprocess.TimeoutExpired:
                who = c + " (no answer)"
                break
        open(os.path.join(repo, f), "w").write(src)
        free.put(repo)
        if who is None or " " in who or "--all" in sys.argv:
            print("  %s %s:%d %s  [%s] %.0fs" % (who or "SURVIVED", f, l, w, src.split("\n")[l - 1].strip()[:100], time.time() - t0), flush=True)
        return who is not None
    with concurrent.futures.ThreadPoolExecutor(free.qsize()) as ex:
        res = list(ex.map(one, jobs))
    print("%d of %d reported" % (sum(res), len(res)), flush=True)
    shutil.rmtree(scratch)


main()
