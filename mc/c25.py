"""C25: the printed report.  Every small history of scores / Pareto sets is printed after every generation, every history of
objective answers of small runs is printed at its end, and each report is read back and compared with the record."""
import ast, contextlib, io, itertools
from .core import *
from .util import *
from .oracle import dominates
from .front import Front, partitions
from . import grid as GR
from .c12 import CFGS, LETTERS

LABELS = {"index generation": "best_gen", "genotype": "genotype", "phenotype": "phenotype", "fitness score": "score",
          "objective score": "obj_score", "feasible region": "feasible", "phenotypes": "phenotypes",
          "objective scores": "obj_scores"}


class Bad(Exception):
    pass


def value(text):
    try:
        return ast.literal_eval(text)
    except (ValueError, SyntaxError):
        return text                      # nan, inf, objects: compared as text


def reports(text):
    """the reports in a captured output: list of {label: value}; every 'Index generation' line opens a report"""
    out, cur, lst = [], None, None
    for line in text.split("\n"):
        s = line.strip()
        if not s or not s.strip("|=-+*# "):
            continue
        head, sep, rest = s.partition(":")
        deep = len(line) - len(line.lstrip())
        if head == "Index generation":
            cur = {"last": value(rest.strip())}
            out.append(cur)
            lst = None
            continue
        if cur is None:
            raise Bad("output before any report: %r" % line)
        if head == "Best solution" and deep == 0:
            cur["best"] = True
            continue
        if sep and head in LABELS and not (lst is not None and deep > lst[0]):
            k = LABELS[head]
            if k in cur:
                raise Bad("the report states %r twice" % head)
            if rest.strip():
                cur[k], lst = value(rest.strip()), None
            else:
                cur[k] = []
                lst = (deep, cur[k])
            continue
        if lst is None or deep <= lst[0]:
            raise Bad("line outside the report: %r" % line)
        lst[1].append(value(s))
    return out


def same(a, b):
    """a: printed value, b: recorded value"""
    if a == b and type(a) is type(b):
        return True
    if isinstance(a, str) and not isinstance(b, str):
        return a == str(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    return a == b


def compare(rec, tag, text, d, multi, phen, last=None):
    """exactly one report that states the record of d"""
    try:
        rs = reports(text)
    except Bad as e:
        rec.fail("%s: %s" % (tag, e), output=text)
        return None
    if len(rs) != 1:
        rec.fail("%s: %d reports printed instead of one" % (tag, len(rs)), output=text[:600])
        return None
    r, b = rs[0], d.best_solution
    want = {"last": d.idx_generation - 1 if last is None else last, "best_gen": b["idx_generation"]}
    if multi:
        ps = b["pareto_set"]
        want["phenotypes"] = [i["phenotype"] for i in ps]
        want["obj_scores"] = [i["obj_score"] for i in ps]
    else:
        want.update(genotype=b["genotype"], score=b["score"], obj_score=b["obj_score"], feasible=b["feasible"])
        if phen:
            want["phenotype"] = b["phenotype"]
    for k, v in want.items():
        if k not in r:
            rec.fail("%s: the report does not state %s" % (tag, k), output=text[:600])
            return None
        if not same(r[k], v):
            rec.fail("%s: the report states %s = %r, the record says %r" % (tag, k, r[k], v), output=text[:600])
            return None
    return r


def say(f):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        f()
    return buf.getvalue()


def state(d):
    return freeze((d.best_solution, d.historical_best, d.historical_mediocre, d.historical_worst, d.idx_generation,
                   d.num_generation_no_improve, [i for i in d.population]))


def singles(rec, n, gens, alphabet, kind, how):
    """every table of scores; the report of every generation, printed twice, against the table"""
    for tab in itertools.product(alphabet, repeat=n * gens):
        d = G.GaData(num_generations=9)
        best = None
        for g in range(gens):
            sc = tab[g * n:(g + 1) * n]
            p = POP[kind]()
            p.num_individ = n
            bits = kind in ("binary", "gray")
            if bits:
                p.is_phenotype = True
            for i, s in enumerate(sc):
                gt = ["x: %d" % g, "it's \n%d" % i, None] if how == "text" else [g, i, 7]
                ob = [-s, g] if how == "list" else 10 * g + i + 0.1
                p.add_dict(genotype=gt, score=s, obj_score=ob, **({"phenotype": [g + 0.5, i / 3]} if bits else {}))
                p[-1]["feasible"] = (g + i) % 2 == 0
                p[-1]["idx_individ"] = i
            d.population = p
            members = [(list(i["genotype"]), i["score"], i["obj_score"], i["feasible"], i.get("phenotype")) for i in p]
            d.update()
            top = max(sc)
            if best is None or top > best[0]:
                best = (top, g, [m for m in members if m[1] == top])
            tag = "scores=%r n=%d %s generation %d" % (tab, n, how, g)
            s0 = state(d)
            text = say(d.print_best_solution)
            if say(d.print_best_solution) != text:
                rec.fail("%s: printing twice gives different reports" % tag)
                return
            if state(d) != s0:
                rec.fail("%s: printing changed the data" % tag)
                return
            r = compare(rec, tag, text, d, False, bits, g)
            if r is None:
                return
            if r["best_gen"] != best[1] or not any(
                    same(r["genotype"], m[0]) and same(r["score"], m[1]) and same(r["obj_score"], m[2]) and
                    r["feasible"] is m[3] and (m[4] is None or same(r["phenotype"], m[4])) for m in best[2]):
                rec.fail("%s: the report %r is not about a best individual found so far %r" % (tag, r, best))
                return
            rec.done(0, 1)
        rec.done(1)
        rec.state((n, gens, tab, kind, how))
    rec.sample("n=%d generations=%d alphabet=%r %s %s" % (n, gens, alphabet, kind, how))


def fronts(rec, algo, n, alphabet, gens, dups, kind="binary", seq=list):
    """every table of objective vectors: the whole Pareto set of every generation is printed"""
    for tab in itertools.product(alphabet, repeat=n * gens):
        for part in (partitions(n) if dups else [tuple(range(n))]):
            f = Front(algo, [part[i] for i in range(n)], {i: tab[i] for i in range(n * gens)}, kind=kind, seq=seq)
            for g in range(gens):
                tag = "%s values=%r equal=%r generation %d" % (algo, tab, part, g)
                if g:
                    f.offspring([part[i % n] + g * n for i in range(n)])
                    G.MultiNewGeneration("best").execute(f.d)
                f.fit.execute(f.d)
                f.d.update()
                s0 = state(f.d)
                text = say(f.d.print_best_solution)
                if say(f.d.print_best_solution) != text or state(f.d) != s0:
                    rec.fail("%s: printing is not repeatable or changed the data" % tag)
                    return
                r = compare(rec, tag, text, f.d, True, True, g)
                if r is None:
                    return
                vs = [f.vals(i) for i in f.d.population]
                want = sorted((list(v), f.point(i)) for i, v in zip(f.d.population, vs) if not any(dominates(w, v) for w in vs))
                got = sorted((list(o), int(round(p[0]))) for o, p in zip(r["obj_scores"], r["phenotypes"]))
                if got != want:
                    rec.fail("%s: the report lists %r instead of the Pareto set %r" % (tag, got, want))
                    return
                rec.done(0, 1)
            rec.done(1)
            rec.state((algo, n, tab, part, kind))
    rec.sample("%s n=%d alphabet=%r" % (algo, n, alphabet))


def answers(rec, which, alphabet, target, seed):
    """all sequences of objective answers of a small run that prints"""
    base = CFGS[which]
    o = dict(base.opts)
    if target is not None:
        o["obj_value"] = target
    if base.mode == "facade":
        o["is_print"] = True
    cfg = Cfg(base.algo, base.gens, None, n=base.n, g=base.g, mode=base.mode, ops=base.ops, **o)
    runs = env_runs(cfg, alphabet, seed)
    while True:
        box = []
        text = say(lambda: box.append(next(runs, None)))
        if box[0] is None:
            break
        tr, mon = box[0]
        tag = "%s answers=%r" % (cfg, [alphabet[c] for c in tr])
        if mon.exc is not None:
            rec.fail("%s raised %r" % (tag, mon.exc))
            return
        r = compare(rec, tag, text, mon.result, False, cfg.kind in ("binary", "gray"))
        if r is None:
            return
        gens = sum(e.kind == "update" for e in mon.events)
        if r["last"] != gens - 1:
            rec.fail("%s: the report states generation %r, %d were made" % (tag, r["last"], gens))
            return
        pt = r.get("phenotype", r["genotype"])
        if not any(same(pt, list(a[-1])) and same(r["obj_score"], v) for a, v, _ in mon.calls):
            rec.fail("%s: the reported objective value was never returned for the reported point" % tag, report=r)
            return
        rec.state((which, tuple(tr)))
        rec.done(1, len(mon.events))
    rec.sample("%s alphabet=%r target=%r" % (cfg, alphabet, target))


def runs(rec, part, parts, source):
    """whole runs with and without printing: the same result, one report or no output at all"""
    cfgs = GR.wide(count=2) if source == "wide" else GR.scale()
    for k, cfg in enumerate(cfgs):
        if k % parts != part:
            continue
        seen = []
        for pr in ((True, False) if cfg.mode == "facade" else (None, None)):
            o = dict(cfg.opts) if pr is None else dict(cfg.opts, is_print=pr)
            c = Cfg(cfg.algo, cfg.gens, cfg.obj, n=cfg.n, g=cfg.g, mode=cfg.mode, ops=cfg.ops, **o)
            box = []
            text = say(lambda: box.append(c.run(Stream(5 + k), snaps=False)))
            mon = box[0]
            if not checked(rec, c, mon):
                break
            if pr is False:
                if text:
                    rec.fail("is_print=False printed something", cfg=c, output=text[:300])
            else:
                compare(rec, repr(c)[:300], text, mon.result, cfg.multi, cfg.kind in ("binary", "gray"),
                        sum(e.kind == "update" for e in mon.events) - 1)
            seen.append((state(mon.result), freeze([(a, v) for a, v, _ in mon.calls])))
            rec.done(1, len(mon.events))
        if len(seen) == 2 and seen[0] != seen[1]:
            rec.fail("printing the report changed the run", cfg=cfg)
        rec.state((source, k))
    rec.sample("%s %d/%d" % (source, part, parts))


BOUNDS = {"quick": "all score tables of 3 generations x 2 individuals over 3 letters, 2 x 3, 5 x 1 (four population kinds, numeric, text and "
                   "list values), the report read back after every generation; all tables of objective vectors of FFGA and VEGA "
                   "generations of 1-3 individuals with all patterns of equal individuals; all sequences of 2-3 objective answers of "
                   "five small printing runs; about 200 larger runs with and without printing",
          "thorough": "as quick with 3 x 3 tables, 2 generations of 3 vectors, more answer alphabets"}
ASSUMPTIONS = ["a report is recognised by its documented labels ('Index generation', 'genotype', 'objective score', ...); values are "
               "compared by value, layout and decoration are free"]


def items(tier):
    t = tier == "thorough"
    V2 = [(0, 1), (1, 0), (1, 1), (-0.5, 2)]
    out = []
    for n, g, al, kind, how in [(2, 3, LETTERS, "cat", "num"), (3, 2, LETTERS, "binary", "num"), (1, 5, LETTERS, "order", "num"),
                                (2, 3, [0, 1], "gray", "list"), (2, 2, [1, 1.0, 1e-17, -0.0], "cat", "text"),
                                (2, 2, [1, 1 + 2.0 ** -50, 1e300], "binary", "list")] + (
                                [(3, 3, LETTERS, "cat", "num"), (2, 4, LETTERS, "gray", "num")] if t else []):
        out.append(("single[%dx%d,%s,%s,%s]" % (n, g, al, kind, how), "singles",
                    dict(n=n, gens=g, alphabet=al, kind=kind, how=how)))
    for algo in ("ffga", "vega"):
        for n, g, al, dups, kind, seq in [(3, 1, V2, True, "binary", list), (2, 2, V2, False, "gray", tuple),
                                          (2, 1, [(0, 0, 1), (1, 0, 0), (0, 1, 0), (1, 1, 1), (0, 0, 0)], True, "binary", tuple)] + (
                                          [(3, 2, V2[:3], False, "binary", list), (4, 1, V2, False, "gray", list)] if t else []):
            out.append(("front[%s,%dx%d,%s]" % (algo, n, g, kind), "fronts",
                        dict(algo=algo, n=n, gens=g, alphabet=al, dups=dups, kind=kind, seq=seq)))
    for w in CFGS:
        for al, tg, sd in [([0, 1], None, 1), ([5, 2.25], 4, 2)] + ([([-3, 0, 2], None, 3), ([5, 2, 9], 4, 4)] if t else []):
            out.append(("answers[%s,%r,%r]" % (w, al, tg), "answers", dict(which=w, alphabet=al, target=tg, seed=sd)))
    for i in range(8):
        out.append(("runs[%d/8]" % i, "runs", dict(part=i, parts=8, source="wide")))
        out.append(("scale[%d/8]" % i, "runs", dict(part=i, parts=8, source="scale")))
    return out
