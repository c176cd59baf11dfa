"""Explorer, controlled random generator, recording and reporting shared by all checks.

The controlled generator replaces the functions of module `random` before baumeva is imported.  Whatever
function of `random` the code under test uses (randint, sample, choice, shuffle, choices, uniform, its own
random.Random instance ...), CPython reduces it to two primitives, `_randbelow(n)` and `random()`; both ask
the current driver.  So the enumeration does not depend on which functions the code happens to call.
"""
import array, collections, copy, fractions, hashlib, importlib, io, itertools, json, math, os, random, signal
import subprocess, sys, tempfile, time, traceback, warnings, multiprocessing, multiprocessing.pool
from fractions import Fraction

OrigRandom = random.Random
LOW, HIGH = 0.0, 1.0 - 2.0 ** -53          # the extremes random.random() can deliver


class Horizon(BaseException):
    """more draws than the horizon allows (retry loop still spinning)"""


class Hang(BaseException):
    """one execution exceeded the watchdog time"""


class Deadline(BaseException):
    """the time of one item is used up"""


class Enough(BaseException):
    """enough violations recorded in this item"""


class Diverged(BaseException):
    """replaying a prefix of choices met a different number of alternatives"""


# ------------------------------------------------------------------------------------------------ drivers
class Driver:
    draws = 0
    real = False

    def below(self, n):
        raise NotImplementedError

    def unit(self):
        raise NotImplementedError

    def seeded(self, args):
        pass


class Stream(Driver):
    """A fixed, fair stream of random numbers (0 deviations); the horizon turns an endless loop into Horizon."""

    def __init__(self, seed, horizon=4 * 10 ** 6):
        self.g = OrigRandom(seed)
        self.horizon = horizon
        self.draws = 0
        self.branching = 0

    def _tick(self):
        self.draws += 1
        if self.draws > self.horizon:
            raise Horizon()

    def below(self, n):
        self._tick()
        self.branching += n > 1
        return self.g._randbelow(n)

    def unit(self):
        self._tick()
        self.branching += 1
        return self.g.random()


class Real(Driver):
    """Genuine generators with genuine seeding (used for the properties about seeds): every generator object of the
    code under test keeps its own stream; with `watch` the state before every draw is noted."""
    real = True

    def __init__(self, horizon=2 * 10 ** 7, watch=False):
        self.horizon = horizon
        self.draws = 0
        self.watch = watch
        self.states = []
        self.seeds = 0

    def tick(self, g):
        self.draws += 1
        if self.watch:
            self.states.append(hash(g.getstate()))
        if self.draws > self.horizon:
            raise Horizon()
        return g

    def seeded(self, args):
        self.seeds += 1


class Dfs(Driver):
    """Replays `prefix`, then takes alternative 0; records every choice point as [chosen, alternatives]."""

    def __init__(self, prefix, units, big, cap, horizon):
        self.prefix, self.units, self.big, self.cap, self.horizon = prefix, units, big, cap, horizon
        self.trace = []
        self.draws = 0
        self.branching = 0
        self.weight = Fraction(1)

    def _choose(self, n):
        i = len(self.trace)
        if i < len(self.prefix):
            c, m = self.prefix[i]
            if m != n:
                raise Diverged()
        else:
            c = 0
        self.trace.append([c, n])
        return c

    def _branching(self):
        """one more draw with more than one possible value"""
        self.branching += 1
        if self.branching > self.horizon:
            raise Horizon()

    def below(self, n):
        self.draws += 1
        if n <= 1:
            return 0
        reps = range(n) if n <= self.cap else self.big(n)
        k = len(reps)
        if k == 1:
            return reps[0]
        self._branching()
        self.weight /= k
        return reps[self._choose(k)]

    def fork(self, parts):
        """branch over alternatives of the given probabilities (sum 1)"""
        i = self._choose(len(parts)) if len(parts) > 1 else 0
        self.weight *= parts[i]
        return i

    def unit(self):
        self.draws += 1
        if self.units is LAZY:
            self._branching()
            return LazyUnit(self)
        u = self.units(self.draws - 1) if callable(self.units) else self.units
        if len(u) == 1:
            return u[0]
        self._branching()
        self.weight /= len(u)
        return u[self._choose(len(u))]


LAZY = "lazy"


class LazyUnit:
    """A value drawn uniformly from [0, 1) that is not fixed until the code looks at it: comparing it with a number or
    rounding it to an integer branches over the possible answers with their exact probabilities."""
    __slots__ = ("base", "a", "b")

    def __init__(self, drv, like=None, a=None, b=None):
        if like is None:
            self.base, self.a, self.b = [drv, Fraction(0), Fraction(1)], Fraction(1), Fraction(0)
        else:
            self.base, self.a, self.b = like.base, a, b

    def _num(self, o):
        return isinstance(o, (int, float, Fraction)) and math.isfinite(o)

    def _aff(self, a, b):
        return LazyUnit(None, self, a, b)

    def __mul__(self, o):
        return self._aff(self.a * Fraction(o), self.b * Fraction(o)) if self._num(o) else float(self) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return self._aff(self.a, self.b + Fraction(o)) if self._num(o) else float(self) + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._aff(self.a, self.b - Fraction(o)) if self._num(o) else float(self) - o

    def __rsub__(self, o):
        return self._aff(-self.a, Fraction(o) - self.b) if self._num(o) else o - float(self)

    def __truediv__(self, o):
        return self._aff(self.a / Fraction(o), self.b / Fraction(o)) if self._num(o) and o else float(self) / o

    def __neg__(self):
        return self._aff(-self.a, -self.b)

    def _cut(self, points):
        """branch over the pieces of the interval between the given values of the base variable"""
        drv, lo, hi = self.base
        pts = [lo] + sorted({p for p in points if lo < p < hi}) + [hi]
        if len(pts) > 2:
            i = drv.fork([(y - x) / (hi - lo) for x, y in zip(pts, pts[1:])])
            self.base[1], self.base[2] = pts[i], pts[i + 1]

    def _below(self, o):
        if not self._num(o):
            return float(self) < o
        if self.a == 0:
            return self.b < o
        t = (Fraction(o) - self.b) / self.a
        self._cut([t])
        return (self.base[2] <= t) == (self.a > 0)

    def __lt__(self, o):
        return self._below(o)
    __le__ = __lt__

    def __gt__(self, o):
        return not self._below(o)
    __ge__ = __gt__

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return id(self)

    def __floor__(self):
        ends_ = sorted((self.a * self.base[1] + self.b, self.a * self.base[2] + self.b))
        if self.a:
            ks = range(math.floor(ends_[0]), math.floor(ends_[1]) + 1)
            if len(ks) > 5000:
                return math.floor(float(self))
            self._cut([(k - self.b) / self.a for k in ks])
        return math.floor(self.a * (self.base[1] + self.base[2]) / 2 + self.b)

    def __ceil__(self):
        return (self + 0).__floor__() + 1

    def __int__(self):
        if self.a * self.base[1] + self.b < 0 or self.a * self.base[2] + self.b < 0:
            if self < 0:
                return -((-self).__floor__())
        return self.__floor__()
    __trunc__ = __int__

    def __round__(self, nd=None):
        return (self + Fraction(1, 2)).__floor__() if nd is None else round(float(self), nd)

    def __float__(self):
        lo, hi = self.base[1], self.base[2]
        self._cut([lo + (hi - lo) * i / 4 for i in range(1, 4)])
        return float(self.a * (self.base[1] + self.base[2]) / 2 + self.b)

    def __getattr__(self, name):
        return getattr(float(self), name)

    def __pow__(self, o):
        return float(self) ** o

    def __mod__(self, o):
        return float(self) % o

    def __rtruediv__(self, o):
        return o / float(self)

    def __floordiv__(self, o):
        return (self / o).__floor__()

    def __repr__(self):
        return "LazyUnit(%s..%s)" % (self.base[1], self.base[2])


class Fixed(Driver):
    """Every draw takes the value `default(kind, n)` except draw number `at`, which takes `value`."""

    def __init__(self, default_below, default_unit, at=None, value=None, horizon=100000):
        self.db, self.du, self.at, self.value, self.horizon = default_below, default_unit, at, value, horizon
        self.draws = 0
        self.log = []

    def _next(self, kind, n):
        i = self.draws
        self.draws += 1
        if self.draws > self.horizon:
            raise Horizon()
        self.log.append((kind, n))
        return i == self.at

    def below(self, n):
        if self._next("below", n):
            return self.value("below", n)
        return self.db(n)

    def unit(self):
        if self._next("unit", None):
            return self.value("unit", None)
        return self.du


_driver = Stream(1)
_armed = False


def set_driver(d):
    global _driver
    _driver = d
    if _armed:
        arm()
    return d


class CtlRandom(OrigRandom):
    def __init__(self, x=None):
        self.gauss_next = None
        self._g = OrigRandom(x)

    def seed(self, *a, **k):
        self.gauss_next = None
        if hasattr(self, "_g"):
            self._g.seed(*a, **k)
        _driver.seeded(a if a else tuple(k.values()))

    def random(self):
        if _driver.real:
            return _driver.tick(self._g).random()
        return _driver.unit()

    def _randbelow(self, n):
        if n <= 0:
            raise ValueError("empty range")
        if _driver.real:
            return _driver.tick(self._g)._randbelow(n)
        return _driver.below(n)

    def getrandbits(self, k):
        if _driver.real:
            return _driver.tick(self._g).getrandbits(k)
        return _driver.below(1 << k) if k else 0

    def randbytes(self, n):
        if _driver.real:
            return _driver.tick(self._g).randbytes(n)
        return bytes(_driver.below(256) for _ in range(n))

    def getstate(self):
        return ("ctl", self._g.getstate())

    def setstate(self, s):
        self._g.setstate(s[1])


_installed = False


def install():
    """Put the controlled generator in place and import the code under test from /repo."""
    global _installed
    if _installed:
        return
    _installed = True
    inst = CtlRandom()
    for name in ("seed", "random", "uniform", "triangular", "randint", "choice", "randrange", "sample", "shuffle",
                 "choices", "normalvariate", "lognormvariate", "expovariate", "vonmisesvariate", "gammavariate",
                 "gauss", "betavariate", "paretovariate", "weibullvariate", "getstate", "setstate", "getrandbits",
                 "randbytes", "binomialvariate"):
        if hasattr(inst, name):
            setattr(random, name, getattr(inst, name))
    random._inst = inst
    random.Random = CtlRandom
    random.SystemRandom = CtlRandom
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, repo)
    warnings.simplefilter("ignore")
    import baumeva
    assert os.path.realpath(baumeva.__file__).startswith(os.path.realpath(repo) + "/"), baumeva.__file__
    import baumeva.ga


# ----------------------------------------------------------------------------------------------- watchdog
EXEC_LIMIT = 60.0
ITEM_LIMIT = {"quick": 200.0, "thorough": 1800.0}        # an item that takes longer is ended and reported as partly explored
TOTAL_LIMIT = {"quick": 640.0, "thorough": 5400.0}
AFTER_VIOLATION = float(os.environ.get("VERIF_AFTER", 25.0))   # once a violation is known the rest gets this long
_item_end = None


def _alarm(sig, frm):
    if _item_end is not None and time.time() >= _item_end - 0.01:
        raise Deadline()
    raise Hang()


def arm(t=EXEC_LIMIT):
    global _armed
    _armed = True
    if _item_end is not None:
        t = min(t, max(0.01, _item_end - time.time()))
    signal.setitimer(signal.ITIMER_REAL, t)


# ----------------------------------------------------------------------------------------------- explorer
class Leaf:
    __slots__ = ("result", "exc", "trace", "weight", "cut", "draws")

    def __init__(self, result, exc, trace, weight, cut, draws):
        self.result, self.exc, self.trace, self.weight, self.cut, self.draws = result, exc, trace, weight, cut, draws

    @property
    def choices(self):
        return [c for c, _ in self.trace]


def ends(n):
    """representatives of a large range (e.g. the 1000-valued mutation coin): both ends"""
    return (0, n - 1)


def explore(fn, units=(LOW, HIGH), big=ends, cap=64, horizon=60, prefix=None):
    """Run fn() under every sequence of random choices (depth-first, replaying prefixes).

    Yields a Leaf per execution.  `cut` marks executions that ran into the horizon (more than `horizon`
    branching draws); their remaining continuations are not explored and their weight is reported as such.
    """
    trace = [list(x) for x in (prefix or [])]
    fixed = len(trace)
    while True:
        drv = set_driver(Dfs(trace, units, big, cap, horizon))
        exc = res = None
        cut = False
        arm()
        try:
            res = fn()
        except Horizon:
            cut = True
        except Exception as e:                                    # code under test failed on this path
            exc = e
        leaf = Leaf(res, exc, [list(x) for x in drv.trace], drv.weight, cut, drv.draws)
        trace = drv.trace
        yield leaf
        while len(trace) > fixed and trace[-1][0] + 1 >= trace[-1][1]:
            trace.pop()
        if len(trace) <= fixed:
            return
        trace[-1][0] += 1


class Cover:
    """How completely an exploration covered its space: cut = probability of the executions not followed to the end."""

    def __init__(self):
        self.cut, self.leaves, self.partial = Fraction(0), 0, False

    def complete(self, outcomes=1):
        """is an outcome that was never seen, out of so many, certainly rarer than a fair share?"""
        return not self.partial and self.cut * 4 * outcomes < 1


_depth = {}


def deep(fn, key, runs=40, extra=3):
    """branching draws to allow for: the most an execution needed on fair streams, plus a margin"""
    if key not in _depth:
        m = 0
        for s in range(runs):
            drv = set_driver(Stream(s))
            try:
                fn()
            except Exception:
                pass
            m = max(m, drv.branching)
        _depth[key] = m + extra
    return _depth[key]


def explore_all(fn, cover, key, cap=400, budget=60000, units=LAZY, big=ends):
    """explore() with exact treatment of unit draws and a horizon that only retry loops can reach"""
    for lf in explore(fn, units=units, big=big, cap=cap, horizon=deep(fn, key)):
        cover.leaves += 1
        if lf.cut:
            cover.cut += lf.weight
        yield lf
        if cover.leaves >= budget:
            cover.partial = True
            return


class Deviate(Driver):
    """a fixed fair stream in which draw number `at` is replaced by a chosen value"""

    def __init__(self, seed, at=None, value=None, horizon=4 * 10 ** 6):
        self.g, self.at, self.value, self.horizon = OrigRandom(seed), at, value, horizon
        self.draws = self.branching = 0
        self.log = []

    def _next(self, n):
        self.draws += 1
        self.branching += 1
        if self.draws > self.horizon:
            raise Horizon()
        self.log.append(n)
        return self.draws - 1 == self.at

    def below(self, n):
        hit, v = self._next(n), self.g._randbelow(n)
        return min(self.value, n - 1) if hit else v

    def unit(self):
        hit, v = self._next(None), self.g.random()
        return self.value if hit else v


def spread(n, full=4096, units=1024):
    """alternatives tried for a draw with n values: all of them, or the ends, the middle, all powers of two (and their
    neighbours) and 256 evenly spaced ones; n None: a unit draw"""
    if n is None:
        return [(k + 0.5) / units for k in range(units)] + [LOW, HIGH]
    if n <= full:
        return range(n)
    return sorted({v for v in [0, n - 1, n // 2] + [2 ** k + e for k in range(n.bit_length()) for e in (-1, 0)] +
                   [n * k // 256 for k in range(256)] if 0 <= v < n})


def deviations(fn, seed=1, only=None, units=1024):
    """all executions that differ from the stream's in the value of one draw (deviation bound 1)"""
    base = set_driver(Deviate(seed))
    yield fn(), None
    for at, n in enumerate(list(base.log)):
        if n is not None and n <= 1 or only is not None and not only(n):
            continue
        for v in spread(n, units=units):
            drv = set_driver(Deviate(seed, at, v))
            yield fn(), (at, v)


# ----------------------------------------------------------------------------------------------- recorder
class Rec:
    """Collects what one work item covered."""

    def __init__(self, prop, name):
        self.prop, self.name = prop, name
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.cut = 0
        self.samples = []
        self.violations = []
        self.known = []
        self.notes = collections.Counter()

    def state(self, key):
        self.states.add(hash(repr(key)))

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append({"item": self.name, "case": s})

    def fail(self, msg, key=None, trace=None, **data):
        self.violations.append({"item": self.name, "message": msg, "key": key, "choices": trace,
                                "data": {k: repr(v)[:2000] for k, v in data.items()}})
        if len(self.violations) >= 3:
            raise Enough()

    def done(self, n=1, transitions=0):
        """n more executions of the real code were checked"""
        self.traces += n
        self.transitions += transitions
        arm()

    def leaf(self, lf):
        """account for one explored execution"""
        self.transitions += len(lf.trace)
        if lf.cut:
            self.cut += 1
        else:
            self.traces += 1


def run_item(arg):
    global _item_end, _armed
    prop, name, modname, fname, kwargs, limit = arg
    mod = importlib.import_module(modname)
    rec = Rec(prop, name)
    t0 = time.time()
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    _item_end = time.time() + limit
    arm()
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        getattr(mod, fname)(rec, **kwargs)
    except Enough:
        pass
    except Deadline:
        rec.notes["items ended by the time limit"] += 1
    except Hang:
        rec.violations.append({"item": name, "message": "an execution did not terminate within %gs" % EXEC_LIMIT,
                               "key": None, "choices": getattr(_driver, "trace", None),
                               "data": {"where": traceback.format_exc()[-1500:]}})
    except Horizon:
        rec.violations.append({"item": name, "message": "endless retry loop: draw horizon exceeded on a fair stream",
                               "key": None, "choices": None, "data": {"where": traceback.format_exc()[-1500:]}})
    except Diverged:
        rec.violations.append({"item": name, "message": "hidden state: the same random choices led to a different "
                               "number of alternatives", "key": None, "choices": getattr(_driver, "trace", None),
                               "data": {"where": traceback.format_exc()[-1500:]}})
    except (MemoryError, OSError):
        err = traceback.format_exc()
    except Exception as e:
        rec.violations.append({"item": name, "message": "unexpected %s: %s" % (type(e).__name__, e), "key": None,
                               "choices": getattr(_driver, "trace", None),
                               "data": {"where": traceback.format_exc()[-2500:]}})
    finally:
        _armed = False
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout = out
    return {"name": name, "states": len(rec.states), "transitions": rec.transitions, "traces": rec.traces,
            "cut": rec.cut, "samples": rec.samples, "violations": rec.violations, "notes": dict(rec.notes),
            "wall": time.time() - t0, "error": err}


# ------------------------------------------------------------------------------------------------- report
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        return {e["key"]: e["what"] for e in json.load(f)["findings"] if e["property"] == prop}


def main(prop, modname, tier, seed, replay=None, only=None, verbose=False):
    t0 = time.time()
    install()
    mod = importlib.import_module(modname)
    items = [(prop, name, modname, fn, kw, getattr(mod, "LIMIT", ITEM_LIMIT).get(tier, 200.0)) for name, fn, kw in mod.items(tier)]
    names = [i[1] for i in items]
    assert len(set(names)) == len(names), "duplicate item names"
    if replay:
        with open(replay) as f:
            only = {v["item"] for v in json.load(f)["violations"]}
    if only:
        items = [i for i in items if i[1] in only or any(o in i[1] for o in only)]
    procs = int(os.environ.get("VERIF_PROCS", "8"))
    results = []
    if procs == 1 or len(items) == 1:
        results = [run_item(i) for i in items]
    else:
        ctx = multiprocessing.get_context("fork")
        end = t0 + TOTAL_LIMIT.get(tier, 640.0)
        with ctx.Pool(procs) as pool:
            it = pool.imap_unordered(run_item, items, chunksize=1)
            for _ in items:
                try:
                    results.append(it.next(max(0.1, end - time.time())))
                except multiprocessing.TimeoutError:
                    break
                if results[-1]["violations"]:
                    end = min(end, time.time() + AFTER_VIOLATION)
            pool.terminate()
    unfinished = len(items) - len(results)
    results.sort(key=lambda r: r["name"])
    if verbose:
        for r in results:
            print("%-60s states=%d transitions=%d traces=%d cut=%d %.1fs %s" % (
                r["name"][:60], r["states"], r["transitions"], r["traces"], r["cut"], r["wall"], r["notes"]))
    errors = [r for r in results if r["error"]]
    for r in errors:
        sys.stderr.write(r["error"])
    if errors:
        return 2
    known = load_known(prop)
    hit, viol = collections.OrderedDict(), []
    for r in results:
        for v in r["violations"]:
            if v["key"] is not None and v["key"] in known:
                hit.setdefault(v["key"], v)
            else:
                viol.append(v)
    notes = collections.Counter()
    for r in results:
        notes.update(r["notes"])
    cov = {"states": sum(r["states"] for r in results), "transitions": sum(r["transitions"] for r in results),
           "traces_validated_against_impl": sum(r["traces"] for r in results),
           "executions_cut_at_horizon": sum(r["cut"] for r in results),
           "configurations": len(results),
           "samples": [s for r in results for s in r["samples"]][:6],
           "items_not_finished": unfinished + sum(r["notes"].get("items ended by the time limit", 0) for r in results),
           "exhaustive": sum(r["cut"] for r in results) == 0 and not unfinished,
           "bounds": getattr(mod, "BOUNDS", {}).get(tier) or getattr(mod, "BOUNDS", {}).get("quick", ""),
           "how_traces_are_validated": "every explored execution runs the real code of /repo and is compared with "
                                       "the reference model in the check; there is no separate abstract model"}
    cov.update({"note_" + k: v for k, v in sorted(notes.items())})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 3), "violations": len(viol)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    for k, v in hit.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    print("%s [%s]: %d configurations, %d states, %d transitions, %d executions checked, %d cut, %.1fs" % (
        prop, tier, len(results), cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
        cov["executions_cut_at_horizon"], ev["wall_s"]))
    if viol:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", prop + ".json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "replay_cmd": "bash run.sh %s --replay %s" % (prop, path),
                       "violations": viol}, f, indent=1, default=repr)
        for v in viol[:5]:
            print("  %s: %s %s" % (v["item"], v["message"], json.dumps(v["data"])[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if not cov["traces_validated_against_impl"]:
        sys.stderr.write("nothing explored\n")
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    "all randomness of the code under test comes from module random (any function or Random instance of it)",
    "CPython 3.12 semantics of the standard library",
]
