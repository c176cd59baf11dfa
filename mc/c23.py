"""C23: invalid configurations are rejected, valid boundary values accepted.  Every value of a boundary alphabet per option, for every
class that takes the option and in several contexts (algorithm objects, collector mode, single operators)."""
from decimal import Decimal
from fractions import Fraction
from .core import *
from .util import *
from . import grid as GR

B = ((0, 7, 1), (-1, 1, 0.1))
L = ["red", "green", "blue"]
C = (L, (0, 6, 2))
O = (0, 5, 4)
AL = {"binary": B, "gray": B, "cat": C, "order": O, "vega": B, "vega_gray": B, "ffga": B, "ffga_gray": B}
NAN, INF = float("nan"), float("inf")


class Obj:
    def __repr__(self):
        return "<object>"


def attempt(rec, fn, label, ok, seed=3):
    """fn() must raise (ok false) or complete (ok true)"""
    set_driver(Stream(seed))
    err = None
    try:
        fn()
    except Exception as e:
        if isinstance(e, (Horizon, Hang, Enough, Diverged)):
            raise
        err = e
    if ok and err is not None:
        rec.fail("%s: rejected with %s: %s" % (label, type(err).__name__, err))
    if not ok and err is None:
        rec.fail("%s: silently accepted" % label)
    rec.done(1, 1)
    rec.state(label)


def contexts(algo, tier="quick"):
    """option sets in which the option under test is tried"""
    kind = POPKIND[algo]
    multi = algo.startswith(("vega", "ffga"))
    cl = ["optimize", "<=", "optimize"] if multi else ["<=", "optimize"]
    out = [("plain", {}), ("random", dict(transfer_parents="random")), ("long", dict(early_stop=None, children_percent=1.0)),
           ("input", dict(input_population=GR.points(kind, AL[algo], 2))), ("data", dict(input_data=0)),
           ("target", dict(obj_value=[1, 1] if multi else 1))]
    if not algo.startswith("ffga"):
        out.append(("few", dict(children_percent=0.3)))
    for p in ("dynamic", "adaptive", "static"):
        out.append((p, dict(conditions=list(cl), penalty=GR.penalty(p, cl), _cond=cl)))
    return out


def run(algo, n, g, opts, mode="facade", ops=None, obj=None, gens=None):
    o = dict(opts)
    cl = o.pop("_cond", None)
    multi = algo.startswith(("vega", "ffga"))
    f = obj or (GR.cond_obj(cl) if cl else GR.m_two if multi else GR.f_mod)
    if mode == "collector" and o.get("early_stop", 1) is None:
        o["early_stop"] = 50
    cfg = Cfg(algo, gens if gens is not None else AL[algo], f, n=n, g=g, mode=mode, ops=ops, **o)
    has_data = o.get("input_data") is not None

    def h(*a):
        assert len(a) == (2 if has_data else 1)
        return f(a[-1])
    return cfg.build(h)()


# ------------------------------------------------------------------------------------------------ mutation level
BAD_LVL = [0, 1, True, False, -1, 2, 10 ** 9, Decimal("0.5"), Fraction(1, 2), "0.5", "Normal", "NORMAL", "weak ", " weak", "medium", "", "1", "none",
           None, NAN, INF, -INF, -0.1, 1.1, 2.0, -1.0, 100.0, math.nextafter(1, 2), math.nextafter(0, -1), -1e-9, 1 + 1e-9, [], (), {}, [0.5], (0.5,),
           ["weak"], {"weak": 1}, b"weak", 0.5j, Obj(), len]
GOOD_LVL = [0.0, -0.0, 5e-324, 0.001, 0.5, 0.999, math.nextafter(1, 0), 1.0, "weak", "normal", "strong"]
MUT = {"BinStringMutation": "binary", "CategoricalMutation": "cat", "SwapMutation": "order", "MovementMutation": "order",
       "InversionMutation": "order", "ShiftMutation": "order"}


def lvl_class(rec, cls):
    kind = MUT[cls]
    for kinds in ((kind, "gray") if kind == "binary" else (kind,)):
        for v, ok in [(x, False) for x in BAD_LVL] + [(x, True) for x in GOOD_LVL]:
            def fn():
                m = getattr(G, cls)(v)
                d = G.GaData(num_generations=3)
                d.population = new_pop(kinds, 3, AL[kinds])
                d.children = new_pop(kinds, 3, AL[kinds])
                d.children.__dict__ = d.population.__dict__
                m.execute(d)
            attempt(rec, fn, "%s(%r) on %s" % (cls, v, kinds), ok)
    rec.sample("%s: %d invalid and %d valid levels" % (cls, len(BAD_LVL), len(GOOD_LVL)))


def lvl_algo(rec, algo, mode):
    for name, o in contexts(algo):
        for v, ok in [(x, False) for x in BAD_LVL] + [(x, True) for x in GOOD_LVL]:
            for ops in ([{"mutation": m} for m in GR.CMUT] if algo == "order" and mode == "collector" else [None]):
                attempt(rec, lambda: run(algo, 5, 2, dict(o, mutation_lvl=v), mode, ops), "%s/%s %s: mutation_lvl=%r %s" % (algo, mode, name, v, ops), ok)
    rec.sample("%s/%s: mutation levels in %d contexts" % (algo, mode, len(contexts(algo))))


# -------------------------------------------------------------------------------------------------- transfer
BAD_TR = ["Best", "BEST", "worst", "", "best ", "rand", "randomly", "bestrandom", None, 0, 1, True, False, b"best", ["best"], ("best",), ("random",), {"best"},
          {"best": 1}, ["best", "random"], Obj(), 0.5, "b", "elite", "rank"]
GOOD_TR = ["best", "random"]


def transfer(rec, algo, mode):
    for name, o in contexts(algo):
        for v, ok in [(x, False) for x in BAD_TR] + [(x, True) for x in GOOD_TR]:
            if name == "random":
                continue
            attempt(rec, lambda: run(algo, 5, 2, dict(o, transfer_parents=v), mode), "%s/%s %s: transfer_parents=%r" % (algo, mode, name, v), ok)
    for cls in (G.NewGeneration, G.MultiNewGeneration):
        for v, ok in [(x, False) for x in BAD_TR] + [(x, True) for x in GOOD_TR]:
            attempt(rec, lambda: cls(v) if ok else direct_new(cls, v), "%s(%r)" % (cls.__name__, v), ok)
    rec.sample("%s/%s: %d invalid transfer strategies" % (algo, mode, len(BAD_TR)))


def direct_new(cls, v):
    ng = cls(v)
    d = (G.MultiGaData if cls is G.MultiNewGeneration else G.GaData)(num_generations=3)
    d.population = new_pop("binary", 4, B)
    for i, ind in enumerate(d.population):
        ind.update(score=i + 1, obj_score=[i, 1], rank=1)
    d.children = new_pop("binary", 2, B)
    ng.execute(d)


# ------------------------------------------------------------------------------------------------ tournament size
def tournament(rec, algo, mode, ns):
    for n in ns:
        for ts in list(range(-3, n + 5)) + [100, 10 ** 6, -100]:
            for name, o in contexts(algo):
                if "input_population" in o and n < 2:
                    continue
                attempt(rec, lambda: run(algo, n, 2, dict(o, tournament_size=ts), mode), "%s/%s %s: tournament_size=%d of %d" % (algo, mode, name, ts, n),
                        2 <= ts < n)
    rec.sample("%s/%s: tournament sizes -3..n+4 for n in %r" % (algo, mode, ns))


def tournament_op(rec):
    """the operator alone, on generations of num_individ and num_individ+1 members"""
    for n in range(2, 9):
        for extra in (0, 1, 2):
            for ts in list(range(-3, n + 5)):
                for vega in (False, True):
                    def fn():
                        k = n + extra
                        d = scored([[i + 1, k - i] if vega else i + 1 for i in range(k)], n=n, multi=vega)
                        (G.VEGATournamentSelection(2, ts) if vega else G.TournamentSelection(ts)).execute(d)
                    attempt(rec, fn, "%s tournament %d of %d individuals, %d members" % ("VEGA" if vega else "single", ts, n, n + extra), 2 <= ts < n)
    rec.sample("tournament operators: all sizes for n=2..8, 0..2 extra members")


# ---------------------------------------------------------------------------------------------- input population
def inputs(rec, algo, mode, ns):
    kind = POPKIND[algo]
    for n in ns:
        for k in list(range(0, 2 * n + 3)) + [50]:
            pts = GR.points(kind, AL[algo], k)
            same = [pts[0]] * k if k else []
            for label, p in (("different", pts), ("equal", same), ("tuples", [tuple(x) for x in pts])):
                if kind == "order" and False:
                    continue
                for g in (1, 2):
                    attempt(rec, lambda: run(algo, n, g, dict(input_population=p, tournament_size=2) if not algo.startswith("ffga")
                                             else dict(input_population=p), mode), "%s/%s g=%d: %d %s input individuals for %d" % (algo, mode, g, k, label, n), k <= n)
    rec.sample("%s/%s: 0..2n+2 input individuals for n in %r" % (algo, mode, ns))


def input_pop(rec, kind):
    """the population classes alone"""
    for n in range(1, 7):
        for k in range(0, 2 * n + 3):
            attempt(rec, lambda: new_pop(kind, n, AL[kind], GR.points(kind, AL[kind], k)), "%s population: %d input individuals for %d" % (kind, k, n), k <= n)
    rec.sample("%s population alone" % kind)


def bad_points(rec, algo, mode):
    """binary runs: user individuals with the wrong number of values, or values outside the range"""
    good = [3, 0.5]
    eps = 1e-9
    bad = [[], [3], [3, 0.5, 0], [3, 0.5, 0, 0], [-eps, 0.5], [-1, 0.5], [7 + eps, 0.5], [8, 0.5], [3, -1 - eps], [3, 1 + eps], [3, -5], [3, 5], [100, 100],
           [-100, -100], [INF, 0], [3, -INF], [0.5, 3], [8, 0.5], [15, 0.5], [16, 0], [3, 1.07]]
    ok = [[0, -1], [7, 1], [0, 1], [7, -1], [7.0, 1.0], [0.0, -1.0], [3.3, 0.01], (7, 1)]
    n = 4
    for k in range(1, n + 1):
        for pos in range(k):
            for p, v in [(x, False) for x in bad] + [(x, True) for x in ok]:
                pop = [list(good) for _ in range(k)]
                pop[pos] = p
                attempt(rec, lambda: run(algo, n, 2, dict(input_population=pop, tournament_size=2) if not algo.startswith("ffga") else
                                         dict(input_population=pop), mode), "%s/%s: input individual %r at %d of %d" % (algo, mode, p, pos, k), v)
    rec.sample("%s/%s: %d unusable user individuals at every position" % (algo, mode, len(bad)))


# ------------------------------------------------------------------------------------------------------ penalties
def bad_penalties():
    return [0, 1, 0.0, 2.5, "", "DynamicPenalty", "dynamic", [], [G.DynamicPenalty()], (), {}, {"penalty": 1}, False, True, Obj(), len, G.DynamicPenalty,
            G.AdaptivePenalty, G.StaticPenalty, G.BasePenalty, lambda *a, **k: 0, b"", set(), (G.DynamicPenalty(),)]


class Duck:
    def name(self):
        return "DynamicPenalty"

    def execute(self, *a, **k):
        return 0


def penalties(rec, algo, mode):
    multi = algo.startswith(("vega", "ffga"))
    lists = [None, ["optimize"], ["optimize", "<="], ["!=", "optimize"]] if not multi else [None, ["optimize", "optimize"], ["optimize", "<=", "optimize"]]
    for cl in lists:
        cond = cl is not None and any(c != "optimize" for c in cl)
        for v in bad_penalties() + [Duck()]:
            for g in (1, 2):
                attempt(rec, lambda: run(algo, 4, g, dict(penalty=v, conditions=cl and list(cl), **({"_cond": cl} if cond else {})), mode),
                        "%s/%s g=%d: penalty=%s with conditions %r" % (algo, mode, g, repr(v)[:40], cl), False)
        for v in ([GR.penalty(p, cl) for p in GR.PENALTIES] if cond else [None, G.DynamicPenalty(), G.AdaptivePenalty()]):
            if cl == ["optimize", "optimize"] and v is not None:
                continue
            attempt(rec, lambda: run(algo, 4, 2, dict(penalty=v, conditions=cl and list(cl), **({"_cond": cl} if cond else {})), mode),
                    "%s/%s: penalty %s with conditions %r" % (algo, mode, type(v).__name__, cl), True)
    rec.sample("%s/%s: %d objects that are no penalty" % (algo, mode, len(bad_penalties()) + 1))


# -------------------------------------------------------------------------------------------------- condition signs
BAD_SIGN = [">=", "<", ">", "==", "=", "=<", "<= ", " <=", "!", "!==", "", "le", "ne", "Optimize", "optimise", "minimize", None, 0, 1, True, "<>", "≤", "<=!=",
            b"<=", ("<=",), "OPTIMIZE", "=!"]


def table(cl, i):
    """static tables with an entry for every position"""
    rest = [c for c in cl if c != "optimize"]
    k = range(len(rest) + 1)
    iv = {i: [(0, 1), (1, INF)] for i in k}
    r = {i: [2, 3] for i in k}
    return G.StaticPenalty(iv, r, {i: list(v) for i, v in iv.items()}, {i: list(v) for i, v in r.items()})


def signs(rec, algo, mode, pen):
    multi = algo.startswith(("vega", "ffga"))
    shapes = [["optimize", "?"], ["?", "optimize"], ["optimize", "<=", "?"], ["optimize", "?", "<="], ["!=", "?", "optimize"], ["?", "optimize", "!="],
              ["optimize", "<=", "!=", "?"], ["?", "?", "optimize"]]
    if multi:
        shapes = [["optimize", "optimize", "?"], ["optimize", "?", "optimize"], ["?", "optimize", "<=", "optimize"], ["optimize", "optimize", "!=", "?"]]
    for shape in shapes:
        bad = [s for s in BAD_SIGN] + ([] if multi else ["optimize"])
        for s, ok in [(x, False) for x in bad] + [("<=", True), ("!=", True)]:
            cl = [s if c == "?" else c for c in shape]
            for other in (0, -1, 1) if "<=" in shape or "!=" in shape else (0,):
                for v in (0, -1, 1, 0.5):
                    p = {"dynamic": G.DynamicPenalty, "adaptive": G.AdaptivePenalty}[pen]() if pen != "static" else table(cl, 0)

                    def obj(x):
                        return [num(x[0]) if c == "optimize" else v if c == "?" else other for c in shape]
                    attempt(rec, lambda: run(algo, 4, 2, dict(penalty=p, conditions=list(cl)), mode, obj=obj),
                            "%s/%s: conditions %r with %s, values %r/%r" % (algo, mode, cl, pen, v, other), ok)
    rec.sample("%s/%s/%s: %d unknown signs at every position" % (algo, mode, pen, len(BAD_SIGN)))


def num(v):
    return GR.num(v)


def pen_signs(rec, pen):
    """penalty objects alone"""
    for k in (1, 2, 3):
        for pos in range(k):
            for s, ok in [(x, False) for x in BAD_SIGN + ["optimize"]] + [("<=", True), ("!=", True)]:
                for rest in ("<=", "!="):
                    for vals in itertools.product((0, -1, 1), repeat=k):
                        cl = [rest] * k
                        cl[pos] = s
                        for it in (0, 1):
                            p = {"dynamic": G.DynamicPenalty, "adaptive": G.AdaptivePenalty}[pen]() if pen != "static" else table(cl, 0)
                            kw = dict(conditionals=list(cl), values=list(vals))
                            if pen != "static":
                                kw["iter_generation"] = it
                            if pen == "adaptive":
                                kw["best_individ"] = {"feasible": bool(it)}
                            attempt(rec, lambda: p.execute(**kw), "%s: %r values %r generation %d" % (pen, cl, vals, it), ok)
                # a number of values different from the number of conditions
    for a in range(0, 4):
        for b in range(0, 4):
            p = {"dynamic": G.DynamicPenalty, "adaptive": G.AdaptivePenalty}[pen]() if pen != "static" else table(["<="] * 5, 0)
            kw = dict(conditionals=["<="] * a, values=[1] * b)
            if pen == "adaptive":
                kw["best_individ"] = {"feasible": True}
            attempt(rec, lambda: p.execute(**kw), "%s: %d conditions, %d values" % (pen, a, b), a == b)
    rec.sample("%s alone: unknown signs at every position of 1..3 conditions" % pen)


# ------------------------------------------------------------------------------------------- number of returned values
def counts(rec, algo, mode):
    """a wrong number of values at every call of the run"""
    for cl in (None, ["optimize"], ["optimize", "<="], ["<=", "!=", "optimize"], ["optimize", "<=", "<=", "!="]):
        cond = cl is not None and len(cl) > 1
        want = len(cl) if cond else 1
        for pen in ((None, "dynamic") if not cond else ("dynamic", "adaptive", "static")):
            if cl == ["optimize"] and pen:
                continue
            base = dict(conditions=cl and list(cl))
            if pen:
                base["penalty"] = GR.penalty(pen, cl or [])
            for seq in (tuple, list):
                for k in range(0, want + 4):
                    for at in (0, 1, 3, 4, 6, None):
                        calls = [0]

                        def obj(x):
                            i = calls[0]
                            calls[0] += 1
                            m = k if at is None or i == at else want
                            return seq([GR.f_mod(x), -1, 0, -1, 2, 3, 4, 5][:m]) if cl != ["<=", "!=", "optimize"] or m != 3 else seq([-1, 0, GR.f_mod(x)])
                        attempt(rec, lambda: run(algo, 4, 3, base, mode, obj=obj), "%s/%s: %d values (%s) at call %s, conditions %r, penalty %s" % (
                            algo, mode, k, seq.__name__, at, cl, pen), k == want)
            for at in (0, 1, 4, None):
                calls = [0]

                def obj2(x):
                    i = calls[0]
                    calls[0] += 1
                    if at is None or i == at or not cond:
                        return GR.f_mod(x)
                    return [GR.f_mod(x), -1, 0, -1][:want] if cl[0] == "optimize" else [-1, 0, GR.f_mod(x)]
                attempt(rec, lambda: run(algo, 4, 3, base, mode, obj=obj2), "%s/%s: a number at call %s, conditions %r, penalty %s" % (algo, mode, at, cl, pen),
                        not cond)
    # conditions without a penalty: still only one value
    for k in (0, 2, 3):
        attempt(rec, lambda: run(algo, 4, 2, dict(conditions=["optimize", "<="]), mode, obj=lambda x: [1, 2, 3][:k]),
                "%s/%s: %d values, conditions without penalty" % (algo, mode, k), False)
    rec.sample("%s/%s: 0..want+3 values at every call" % (algo, mode))


def far_counts(rec, algo, mode):
    """a wrong number of values late in long runs of large generations, and with many conditions"""
    for many in (0, 1, 3, 7, 12):
        cl = ["optimize"] + ["<=", "!="] * many
        cl = cl[:1 + many]
        for pen in (("dynamic", "adaptive", "static") if many else (None,)):
            base = dict(conditions=list(cl) if many else None, early_stop=None)
            if pen:
                base["penalty"] = GR.penalty(pen, cl)
            for n, g in ((40, 3), (5, 60)):
                for at in (None, 30, 39, 41, 55, 70, 77):
                    for dk in (-1, 1, 2):
                        calls = [0]

                        def obj(x):
                            i = calls[0]
                            calls[0] += 1
                            m = len(cl) + (dk if i == at else 0)
                            return ([GR.f_mod(x)] + [0, -1, 0.0, 0] * 4)[:m] if m != 1 or many else GR.f_mod(x)

                        def viol(x):
                            i = calls[0]
                            calls[0] += 1
                            m = len(cl) + (dk if i == at else 0)
                            return ([GR.f_mod(x)] + [1, -1, 2.5, 0] * 4)[:m] if m != 1 or many else GR.f_mod(x)
                        for f in (obj, viol) if many else (obj,):
                            calls[0] = 0
                            attempt(rec, lambda: run(algo, n, g, dict(base), mode, obj=f), "%s/%s n=%d: %d values too many at call %s of %d conditions, %s %s" % (
                                algo, mode, n, dk, at, many, pen, f.__name__), at is None)
                        if at is None:
                            break
    rec.sample("%s/%s: wrong numbers of values late in runs and with up to 12 conditions" % (algo, mode))


def far_sizes(rec, algo, mode):
    """tournament sizes and input populations around the limits of larger generations"""
    kind = POPKIND[algo]
    for n in (12, 25, 50, 64, 101, 130):
        if not algo.startswith("ffga"):
            for ts in (1, 2, n // 2, n, n + 1, 2 * n) + ((n - 1,) if n < 30 and not algo.startswith("vega") else ()):
                for cp in (0.3, 0.95):
                    attempt(rec, lambda: run(algo, n, 2, dict(tournament_size=ts, children_percent=cp), mode), "%s/%s: tournament_size=%d of %d" % (algo, mode, ts, n),
                            2 <= ts < n)
        for k in (n - 1, n, n + 1, n + 2, 2 * n):
            if algo.startswith("ffga") and n > 25 and k <= n:
                continue
            pts = (GR.points(kind, AL[algo], 20) * 40)[:k]
            attempt(rec, lambda: run(algo, n, 1, dict(input_population=pts), mode), "%s/%s: %d input individuals for %d" % (algo, mode, k, n), k <= n)
    rec.sample("%s/%s: limits for up to 130 individuals" % (algo, mode))


def far_signs(rec, pen):
    """unknown signs among many conditions and in late generations"""
    for k in (4, 6, 9, 15):
        for pos in sorted({0, 1, k // 2, k - 2, k - 1}):
            for s, ok in [(x, False) for x in BAD_SIGN] + [("<=", True), ("!=", True)]:
                for v in (0, -1, 1):
                    for it in (0, 1, 60, 150):
                        cl = ["<=", "!="] * 8
                        cl = cl[:k]
                        cl[pos] = s
                        vals = [0] * k
                        vals[pos] = v
                        p = {"dynamic": G.DynamicPenalty, "adaptive": G.AdaptivePenalty}[pen]() if pen != "static" else table(cl, 0)
                        kw = dict(conditionals=list(cl), values=vals)
                        if pen != "static":
                            kw["iter_generation"] = it
                        if pen == "adaptive":
                            kw["best_individ"] = {"feasible": bool(it % 4)}
                        attempt(rec, lambda: p.execute(**kw), "%s: %r at %d of %d conditions, value %r generation %d" % (pen, s, pos, k, v, it), ok)


# ------------------------------------------------------------------------------------------------- penalty parameters
def adaptive(rec):
    vals = [-INF, -2, -1, -0.5, 0, 0.0, 0.5, 0.999999, math.nextafter(1, 0), 1, 1.0, True, False, math.nextafter(1, 2), 1.000001, 1.1, 1.2, 2, 2.0, 10, 1e9]
    for a in vals:
        for b in vals:
            ok = a > 1 and b > 1 and a != b
            for d in (0, 1, 5):
                for e in (1, 2, 0.5):
                    attempt(rec, lambda: G.AdaptivePenalty(d, a, b, e), "AdaptivePenalty(%r, %r, %r, %r)" % (d, a, b, e), ok)
                    attempt(rec, lambda: G.AdaptivePenalty(betta_2=b, betta_1=a, delta=d, betta=e), "AdaptivePenalty by keyword %r %r" % (a, b), ok)
    for a in vals:
        attempt(rec, lambda: G.AdaptivePenalty(betta_1=a), "AdaptivePenalty(betta_1=%r)" % a, a > 1 and a != 1.2)
        attempt(rec, lambda: G.AdaptivePenalty(betta_2=a), "AdaptivePenalty(betta_2=%r)" % a, a > 1 and a != 1.1)
    attempt(rec, lambda: G.AdaptivePenalty(), "AdaptivePenalty()", True)
    rec.sample("AdaptivePenalty: %d x %d factors" % (len(vals), len(vals)))


def static(rec):
    iv = [(0, 1), (1, INF)]
    for a, b, c, d in itertools.product(range(4), repeat=4):
        ok = a == b and c == d
        for off in (0, 1):
            t = ({i + off: list(iv) for i in range(a)}, {i + off: [1, 2] for i in range(b)}, {i: list(iv) for i in range(c)}, {i: [1, 2] for i in range(d)})
            attempt(rec, lambda: G.StaticPenalty(*t), "StaticPenalty with tables of %r entries" % ((a, b, c, d),), ok)
            attempt(rec, lambda: G.StaticPenalty(equality_intervals=t[0], equality_r_coef=t[1], inequality_intervals=t[2], inequality_r_coef=t[3]),
                    "StaticPenalty by keyword with tables of %r entries" % ((a, b, c, d),), ok)
    rec.sample("StaticPenalty: all table sizes 0..3")


# ------------------------------------------------------------------------------------------------- categorical genes
def genes(rec, mode):
    bad = [1, 0, 2.5, "abc", "a", "", None, {"a", "b"}, frozenset("ab"), {"a": 1, 0: 1, 1: 2, 2: 1}, range(3), b"ab", True, Obj(), len, bytearray(b"abc"),
           memoryview(b"abc"), Fraction(1, 2)]
    good = [["a"], ["a", "b"], (0, 3, 1), (5, 5, 1), (-3, 3, 2), [1, "x", 2.5, None], [(1, 2), (3, 4)], [["n"], ["m"]]]
    for k in (1, 2, 3):
        for pos in range(k):
            for v, ok in [(x, False) for x in bad] + [(x, True) for x in good]:
                gens = [L] * k
                gens[pos] = v
                for seq in (tuple, list):
                    for lvl in (0.0, 1.0, "normal"):
                        gn = seq(gens)
                        if v == [["n"], ["m"]]:         # values of a gene must be hashable in a full run
                            attempt(rec, lambda: new_pop("cat", 3, gn), "CatPopulation gene %r at %d of %d" % (v, pos, k), True)
                            continue
                        attempt(rec, lambda: run("cat", 4, 2, dict(mutation_lvl=lvl), mode, obj=lambda x: len(repr(x)), gens=gn),
                                "%s: gene %r at %d of %d" % (mode, v, pos, k), ok)
                for inp in (0, 1, 2):
                    if not ok or isinstance(v, list):
                        p = [[L[0] if not (ok and i == pos) else v[0] for i in range(k)]] * inp
                        attempt(rec, lambda: new_pop("cat", 3, tuple(gens), p), "CatPopulation gene %r at %d of %d, %d input" % (v, pos, k, inp), ok)
    rec.sample("%s: %d unusable gene types at every position" % (mode, len(bad)))


BOUNDS = {"quick": "43 invalid/11 valid mutation levels x 6 mutation classes and all algorithms in 10 contexts (facade and collector), 25 transfer strategies, all "
                   "tournament sizes -3..n+4 for n<=8, 0..2n+2 input individuals, unusable user individuals at every position, 25 non-penalties, 27 unknown signs at "
                   "every position x 3 penalties x satisfied/violated values, 0..want+3 returned values at every call of a run, 21x21 adaptive factors, all static "
                   "table sizes 0..3, 18 unusable gene types at every position",
          "thorough": "the same alphabets for every algorithm and mode, n up to 8"}
ASSUMPTIONS = ["an option counts as used when the run performs its first generation after the initial one"]


def items(tier):
    t = tier == "thorough"
    out = [("lvl-class[%s]" % c, "lvl_class", dict(cls=c)) for c in MUT]
    for a in AL:
        for m in ("facade", "collector"):
            out.append(("lvl[%s,%s]" % (a, m), "lvl_algo", dict(algo=a, mode=m)))
            out.append(("transfer[%s,%s]" % (a, m), "transfer", dict(algo=a, mode=m)))
            if not a.startswith("ffga"):
                for n in (3, 4, 5, 6, 7, 8) if t else (3, 4, 6):
                    out.append(("tournament[%s,%s,%d]" % (a, m, n), "tournament", dict(algo=a, mode=m, ns=(n,))))
            out.append(("input[%s,%s]" % (a, m), "inputs", dict(algo=a, mode=m, ns=(3, 4, 5, 6) if t else (3, 5))))
            out.append(("penalty[%s,%s]" % (a, m), "penalties", dict(algo=a, mode=m)))
            for p in ("dynamic", "adaptive", "static"):
                out.append(("signs[%s,%s,%s]" % (a, m, p), "signs", dict(algo=a, mode=m, pen=p)))
            out.append(("far-sizes[%s,%s]" % (a, m), "far_sizes", dict(algo=a, mode=m)))
            if POPKIND[a] in ("binary", "gray"):
                out.append(("points[%s,%s]" % (a, m), "bad_points", dict(algo=a, mode=m)))
            if not a.startswith(("vega", "ffga")):
                out.append(("far-counts[%s,%s]" % (a, m), "far_counts", dict(algo=a, mode=m)))
                out.append(("counts[%s,%s]" % (a, m), "counts", dict(algo=a, mode=m)))
    out.append(("tournament-op", "tournament_op", {}))
    for k in ("binary", "gray", "cat", "order"):
        out.append(("input-pop[%s]" % k, "input_pop", dict(kind=k)))
    for p in ("dynamic", "adaptive", "static"):
        out.append(("far-signs[%s]" % p, "far_signs", dict(pen=p)))
        out.append(("pen-signs[%s]" % p, "pen_signs", dict(pen=p)))
    out += [("adaptive", "adaptive", {}), ("static", "static", {})]
    for m in ("facade", "collector"):
        out.append(("genes[%s]" % m, "genes", dict(mode=m)))
    return out
