"""Reference model of the domains, helpers to build small situations, and the run monitor."""
import zlib
import copy, itertools, math
from . import core
from .core import Stream, set_driver

core.install()
import baumeva
from baumeva import ga as G
from baumeva import BinaryGA, CategoricalGA, CombinatoryGA, VEGA, FFGA, CollectorGA, generator

POP = {"binary": G.BinaryPopulation, "gray": G.BinaryGrayPopulation, "cat": G.CatPopulation,
       "order": G.OrderCatPopulation}


def close(a, b, rel=1e-9, abs_=1e-12):
    return a == b or abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


# ------------------------------------------------------------------------------------- building situations
def new_pop(kind, n, gens, inp=None, fill=True):
    p = POP[kind]()
    p.set_params(num_individ=n, gens=gens, input_population=inp)
    if fill:
        p.fill()
    return p


def scored(scores, kind="cat", n=None, genotypes=None, multi=False):
    """GaData whose population has one individual per given score (obj_score unique = identity)."""
    k = len(scores)
    gens = (list(range(max(k, 2))),)
    inp = [[i] for i in range(k)] if genotypes is None else [list(g) for g in genotypes]
    p = POP["cat"]()
    p.set_params(num_individ=k, gens=gens if genotypes is None else tuple([list(range(9))] * len(inp[0])),
                 input_population=inp)
    p.fill()
    for i, (ind, s) in enumerate(zip(p, scores)):
        ind["score"] = list(s) if isinstance(s, (list, tuple)) else s
        ind["obj_score"] = 1000 + i
        if multi:
            ind["rank"] = 1
    if n is not None:
        p.num_individ = n
    d = (G.MultiGaData if multi else G.GaData)(num_generations=1000)
    d.population = p
    return d


LATE = (0, 1, 20, 31, 60, 101, 600)              # generation numbers the situations are placed in
QUIET = (0, 4, 1, 12, 0, 40, 7, 2, 150, 3, 25)    # generations without improvement


def mixed(x):
    """a number that depends on all of x (the same in every process)"""
    return zlib.crc32(repr(x).encode())


def alike(n, key, same):
    """genotypes of n individuals: all equal, or, by the key, all different or equal in various groups"""
    if same:
        return [[0, 0]] * n
    how = mixed(key) % 6
    if how < 3:
        return None
    return [[(i // 2 if how == 3 else i % 2 if how == 4 else min(i, 1)) % 9, 0] for i in range(n)]


def age(d, key, gen=None):
    """place the situation in the middle of a run: generation number, generations without improvement, and the list
    numbers (idx_individ) left over from the previous generation"""
    d.idx_generation = gen = LATE[key % 7] if gen is None else gen
    d.num_generation_no_improve = min(gen, QUIET[key % 11])
    p = d.population
    if p is not None and gen:
        for i, ind in enumerate(p):
            if key % 3 == 1:
                ind["idx_individ"] = (3 * i + key) % (len(p) + 2)
            elif key % 3 == 2:
                ind["idx_individ"] = None if i < len(p) // 2 else len(p) - 1 - i
    return d


def freeze(x):
    """hashable deep value of genotypes, individuals, populations"""
    if isinstance(x, dict):
        return tuple(sorted(((k, freeze(v)) for k, v in x.items()), key=lambda kv: kv[0]))
    if isinstance(x, (list, tuple)):
        return tuple(freeze(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(sorted(map(repr, x)))
    return x


def essence(ind):
    """what identifies an individual's data; bookkeeping keys are left out"""
    return tuple((k, freeze(ind.get(k))) for k in ("genotype", "phenotype", "score", "obj_score", "feasible", "rank"))


def essences(pop):
    return [essence(i) for i in pop]


# --------------------------------------------------------------------------------------- reference domains
_bits = {}


def gene_bits(gene, kind="binary"):
    """number of bits the code uses for this gene (C01 decides that the resulting grid is right)"""
    key = (tuple(gene), kind)
    if key not in _bits:
        old = core._driver
        core._driver = Stream(5)
        try:
            _bits[key] = len(new_pop(kind, 1, (gene,))[0]["genotype"])
        finally:
            core._driver = old
    return _bits[key]


def grid(gene, kind="binary"):
    b = gene_bits(gene, kind)
    k = 2 ** b - 1
    return [gene[0] + (gene[1] - gene[0]) * i / k for i in range(k + 1)]


def on_grid(gene, v, kind="binary"):
    k = 2 ** gene_bits(gene, kind) - 1
    w = gene[1] - gene[0]
    tol = 1e-9 * max(abs(gene[0]), abs(gene[1]), w)
    if not (gene[0] - tol <= v <= gene[1] + tol):
        return False
    i = (v - gene[0]) / w * k
    return abs(i - round(i)) < 1e-5 + 4e-16 * k


def decode(genotype, gens, kind):
    """reference decoding of a binary genotype"""
    out, pos = [], 0
    for g in gens:
        b = gene_bits(g, kind)
        bits = genotype[pos:pos + b]
        pos += b
        idx = 0
        prev = 0
        for c in bits:
            v = int(c)
            if kind == "gray":
                v ^= prev
                prev = v
            idx = idx * 2 + v
        out.append(g[0] + (g[1] - g[0]) * idx / (2 ** b - 1))
    return out


def cat_values(gene):
    return list(gene) if isinstance(gene, list) else list(range(gene[0], gene[1] + 1, gene[2]))


def cat_ok(gene, v):
    if isinstance(gene, list):
        return any(v == x and type(v) is type(x) for x in gene)
    return type(v) is int and v in range(gene[0], gene[1] + 1, gene[2])


def genotype_ok(kind, gens, g):
    if not isinstance(g, list):
        return False
    if kind in ("binary", "gray"):
        return len(g) == sum(gene_bits(x, kind) for x in gens) and all(c in ("0", "1") and type(c) is str for c in g)
    if kind == "cat":
        return len(g) == len(gens) and all(cat_ok(gs, v) for v, gs in zip(g, gens))
    return (len(g) == gens[2] and len(set(g)) == len(g)
            and all(type(v) is int and gens[0] <= v <= gens[1] for v in g))


def point_ok(kind, gens, x):
    """is x (argument of the objective function) a point of the search space"""
    if kind in ("binary", "gray"):
        return isinstance(x, list) and len(x) == len(gens) and all(
            isinstance(v, (int, float)) and not isinstance(v, bool) and on_grid(g, v, kind) for v, g in zip(x, gens))
    return genotype_ok(kind, gens, x)


# --------------------------------------------------------------------------------------------- run monitor
def fast(v):
    """copy of the nested list/dict/scalar structures the library uses"""
    t = type(v)
    if t is list:
        return [fast(x) if type(x) in (list, dict, tuple) else x for x in v]
    if t is dict:
        return {k: fast(x) if type(x) in (list, dict, tuple) else x for k, x in v.items()}
    if t in (int, float, str, bool, type(None)):
        return v
    return copy.deepcopy(v)


class Event:
    __slots__ = ("kind", "op", "before", "after", "gen", "calls", "exc", "best")

    def __init__(self, kind, op, before):
        self.kind, self.op, self.before = kind, op, before
        self.after = self.exc = self.best = None
        self.calls = ()


class Snap:
    """deep snapshot of a GaData: populations by value plus the identities of the live objects"""
    __slots__ = ("pop", "par", "chi", "ids", "gids", "pids", "pgids", "cids", "cgids", "hb", "hm", "hw", "best",
                 "idx", "noimp", "n", "cp", "len")

    def __init__(self, d, history=False):
        def val(p):
            return None if p is None else [fast(i) for i in p]

        def ids(p):
            return None if p is None else ([id(i) for i in p], [id(i["genotype"]) for i in p])
        self.pop, self.par, self.chi = val(d.population), val(d.parents), val(d.children)
        self.ids, self.gids = ids(d.population)
        self.pids, self.pgids = ids(d.parents) or (None, None)
        self.cids, self.cgids = ids(d.children) or (None, None)
        self.idx, self.noimp = d.idx_generation, d.num_generation_no_improve
        self.n, self.cp = d.population.num_individ, d.children_percent
        self.best = fast(d.best_solution)
        if history:
            self.hb = fast(d.historical_best)
            self.hm = fast(d.historical_mediocre)
            self.hw = fast(d.historical_worst)


KINDS = []
for _name in dir(G):
    _c = getattr(G, _name)
    if not isinstance(_c, type):
        continue
    if issubclass(_c, G.BaseSelection):
        KINDS.append((_c, "selection", "execute"))
    elif issubclass(_c, G.BaseCrossover):
        KINDS.append((_c, "crossover", "execute"))
    elif issubclass(_c, G.BaseMutation):
        KINDS.append((_c, "mutation", "execute"))
    elif issubclass(_c, G.BaseFitness):
        KINDS.append((_c, "fitness", "execute"))
    elif issubclass(_c, G.NewGeneration):
        KINDS.append((_c, "new_generation", "execute"))
    elif issubclass(_c, G.GaData):
        KINDS.append((_c, "update", "update"))
# base classes that are not exported
for _c, _k, _m in list(KINDS):
    for _b in _c.__mro__:
        if _b.__module__.startswith("baumeva") and hasattr(_b, _m) and not any(x[0] is _b for x in KINDS):
            KINDS.append((_b, _k, _m))


class Monitor:
    """Patches the operators' entry points, records an Event per outermost call."""

    def __init__(self, snaps=True, history=True):
        self.events = []
        self.data = None
        self.datas = []
        self.calls = []
        self.depth = 0
        self.saved = []
        self.snaps = snaps
        self.history = history
        self.hook = None

    def __enter__(self):
        for cls, kind, meth in KINDS:
            if meth in cls.__dict__ and not getattr(cls.__dict__[meth], "__isabstractmethod__", False):
                orig = cls.__dict__[meth]
                self.saved.append((cls, meth, orig))
                setattr(cls, meth, self._wrap(orig, kind, meth))
        return self

    def __exit__(self, *a):
        for cls, meth, orig in self.saved:
            setattr(cls, meth, orig)
        self.saved = []

    def _wrap(self, orig, kind, meth):
        mon = self

        def wrapper(op, *a, **k):
            d = op if meth == "update" else (a[0] if a else k.get("ga_data", next(iter(k.values()), None)))
            if mon.depth:
                return orig(op, *a, **k)
            mon.data = d
            if not any(x is d for x in mon.datas):
                mon.datas.append(d)
            ev = Event(kind, op, Snap(d, mon.history and kind == "update") if mon.snaps else None)
            ev.gen = d.idx_generation
            n0 = len(mon.calls)
            mon.depth += 1
            if mon.hook:
                mon.hook("before", ev, d)
            try:
                return orig(op, *a, **k)
            except BaseException as e:
                ev.exc = e
                raise
            finally:
                mon.depth -= 1
                ev.calls = mon.calls[n0:]
                if mon.snaps:
                    ev.after = Snap(d, mon.history and kind == "update")
                mon.events.append(ev)
                if mon.hook:
                    mon.hook("after", ev, d)
        wrapper._verif = True
        return wrapper

    def objective(self, f):
        """wrap a plain objective so that its calls are logged (arguments copied)"""
        def g(*args):
            rec = [tuple(fast(a) for a in args), None, args]
            self.calls.append(rec)
            v = f(args[-1])
            rec[1] = fast(v)
            return v
        return g


# ------------------------------------------------------------------------------------- run configurations
FACADE = {"binary": BinaryGA, "gray": BinaryGA, "cat": CategoricalGA, "order": CombinatoryGA, "vega": VEGA,
          "vega_gray": VEGA, "ffga": FFGA, "ffga_gray": FFGA}
POPKIND = {"binary": "binary", "gray": "gray", "cat": "cat", "order": "order", "vega": "binary",
           "vega_gray": "gray", "ffga": "binary", "ffga_gray": "gray"}


class Cfg:
    """One run configuration: algorithm, options, objective."""

    def __init__(self, algo, gens, obj, n=4, g=3, mode="facade", ops=None, **opts):
        self.algo, self.gens, self.obj, self.n, self.g, self.mode = algo, gens, obj, n, g, mode
        self.ops = ops or {}
        self.opts = opts

    @property
    def kind(self):
        return POPKIND[self.algo]

    @property
    def multi(self):
        return self.algo.startswith(("vega", "ffga"))

    def __repr__(self):
        return "%s/%s gens=%r obj=%s n=%d g=%d ops=%s opts=%s" % (
            self.algo, self.mode, self.gens, getattr(self.obj, "__name__", "f"), self.n, self.g,
            {k: getattr(v, "__name__", v) for k, v in self.ops.items()}, self.opts)

    def allow(self, driver):
        """a horizon no terminating implementation of a run of this size reaches: the draws may grow with n * n * generations"""
        if isinstance(driver, Stream):
            length = self.gens[2] if self.kind == "order" else 64 * len(self.gens)
            driver.horizon = max(driver.horizon, 20 * self.n * self.g * (self.n + length))
        return driver

    # ---- execution
    def build(self, f):
        o = dict(self.opts)
        if self.mode == "facade":
            if self.algo in ("gray", "vega_gray", "ffga_gray"):
                o["is_gray"] = True
            o.setdefault("is_print", False)
            ga = FACADE[self.algo](num_generations=self.g, num_individ=self.n, gens=self.gens, obj_function=f, **o)
            return ga.optimize
        fit = {k: o.pop(k) for k in ("obj_value", "input_data", "penalty", "conditions") if k in o}
        fcls = {"vega": G.VEGAHyperbolaFitness, "ffga": G.FFGAFitness}.get(self.algo.split("_")[0], G.HyperbolaFitness)
        nobj = o.pop("num_objectives", 2)
        ts = o.pop("tournament_size", 2)
        lvl = o.pop("mutation_lvl", "normal")
        tr = o.pop("transfer_parents", "best")
        base = self.algo.split("_")[0]
        sel = self.ops.get("selection") or {"vega": G.VEGATournamentSelection, "ffga": G.BalancedSelection}.get(
            base, G.TournamentSelection)
        args = []
        if sel in (G.VEGATournamentSelection, G.VEGABalancedSelection, G.VEGARankedSelection):
            args.append(nobj)
        if sel in (G.TournamentSelection, G.VEGATournamentSelection):
            args.append(ts)
        cro = self.ops.get("crossover") or {"order": G.OrderCrossover, "cat": G.UniformCrossover}.get(
            self.kind, G.OnePointCrossover)
        mut = self.ops.get("mutation") or {"order": G.MovementMutation, "cat": G.CategoricalMutation}.get(
            self.kind, G.BinStringMutation)
        ngc = self.ops.get("new_generation") or (G.MultiNewGeneration if base == "ffga" else G.NewGeneration)
        col = CollectorGA(fitness=fcls(obj_function=f, **fit), selection=sel(*args), crossover=cro(),
                          mutation=mut(lvl), new_generation=ngc(tr),
                          storage=G.MultiGaData if self.multi else G.GaData)

        def go():
            col.set_population(population=POP[self.kind], num_individ=self.n, num_generations=self.g, gens=self.gens,
                               **o)
            col.optimize()
            return col.ga_data
        return go

    def run(self, driver, snaps=True, history=True, hook=None, wrap=None):
        """returns a Monitor with .events, .calls, .result, .exc"""
        mon = Monitor(snaps, history)
        mon.cfg = self
        mon.hook = hook
        mon.result = mon.exc = None
        f = mon.objective(self.obj)
        if wrap:
            f = wrap(f)
        set_driver(self.allow(driver))
        with mon:
            try:
                mon.result = self.build(f)()
            except Exception as e:
                mon.exc = e
        return mon


def checked(rec, cfg, mon):
    """standard reaction to a run that raised"""
    if mon.exc is not None:
        rec.fail("run raised %s: %s" % (type(mon.exc).__name__, mon.exc), cfg=cfg)
        return False
    return True


# ------------------------------------------------------------------- environment (objective answers) explorer
def env_runs(cfg, alphabet, seed=1, memo=False, limit=None, multi=0):
    """Run cfg once per sequence of objective answers over `alphabet` (every call is a choice point; the library's
    random numbers come from one fixed fair stream).  Yields (choices, mon)."""
    trace = []
    count = 0
    while True:
        pos = [0]
        seen = {}

        def obj(x):
            key = repr(x)
            if memo and key in seen:
                return seen[key]
            i = pos[0]
            pos[0] += 1
            if i == len(trace):
                trace.append(0)
            v = alphabet[trace[i]]
            seen[key] = v
            return v
        c = Cfg(cfg.algo, cfg.gens, obj, n=cfg.n, g=cfg.g, mode=cfg.mode, ops=cfg.ops, **cfg.opts)
        mon = c.run(Stream(seed))
        del trace[pos[0]:]
        yield list(trace), mon
        count += 1
        if limit and count >= limit:
            return
        while trace and trace[-1] + 1 >= len(alphabet):
            trace.pop()
        if not trace:
            return
        trace[-1] += 1
