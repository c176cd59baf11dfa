"""C11: formation of the next generation.  All small previous generations (duplicates, ties), numbers of children and
random outcomes of NewGeneration."""
import itertools
from .core import *
from .util import *
from .oracle import monitored, run_items, check_newgen, ref_score, Counter
from .c08 import weak_orders, VALUES


def situation(word, scores, n, kids, kind="cat", is_sorted=False, vega=False):
    """word: genotype letter per member; scores: score per member; kids: genotype letters of the children"""
    d = (G.MultiGaData if vega else G.GaData)(num_generations=1000)
    late = 3 * len(word) + n + len(kids) + sum(word)
    p = POP[kind]()
    p.num_individ = n
    p.gens = ((0, 7, 1), (0, 7, 1)) if kind != "order" else (0, 9, 2)
    p.is_phenotype = kind in ("binary", "gray")

    def geno(x):
        return [x, 1] if kind == "cat" else ([x, x + 20] if kind == "order" else list(format(x % 64, "06b")))
    if p.is_phenotype:
        p.num_bits, p.real_num_points, p.real_step, p.idx_bits = [3, 3], [7, 7], [1.0, 1.0], [0, 3, 6]

    def add(pop, x, s, o):
        ind = dict(genotype=geno(x), score=s, obj_score=o)
        if p.is_phenotype:
            ind["phenotype"] = None if s is None else [1.0 * (x % 64 // 8), 1.0 * (x % 8)]
        pop.add_dict(**ind)
        if vega:
            pop[-1]["rank"] = None if s is None else 1 + x % 2
    for i, (x, s) in enumerate(zip(word, scores)):
        add(p, x, list(s) if isinstance(s, (list, tuple)) else s, 1000 + i)
    if is_sorted:
        p.sort_by_dict()
    for i, ind in enumerate(p):
        ind["idx_individ"] = i
    d.population = p
    ch = POP[kind]()
    ch.is_phenotype = p.is_phenotype
    for x in kids:
        add(ch, x, None, None)
    d.children = ch
    d.parents = POP[kind]()
    return age(d, late)


def step(rec, word, scores, n, kids, transfer, kind="cat", is_sorted=False, vega=False, op=None, horizon=40,
         limit=20000):
    tag = "members=%r scores=%r num_individ=%d children=%r %s%s" % (word, scores, n, kids, transfer,
                                                                  " sorted" if is_sorted else "")
    op = op or G.NewGeneration(transfer)
    cell = {}

    def run():
        d = situation(word, scores, n, kids, kind, is_sorted, vega)
        b = Snap(d)
        op.execute(d)
        return b, Snap(d), d
    survived = set()
    runs = 0
    for lf in explore(run, horizon=horizon):
        rec.leaf(lf)
        runs += 1
        if lf.exc is not None:
            rec.fail("%s: raised %r" % (tag, lf.exc), trace=lf.trace)
            return
        if lf.cut:
            continue
        b, a, d = lf.result
        v0 = len(rec.violations)
        check_newgen(rec, b, a, transfer, tag)
        if len(rec.violations) > v0:
            rec.violations[-1]["choices"] = lf.trace
            return
        if d.population.num_individ != n or tuple(d.population.gens) != tuple(situation(word, scores, n, (), kind).population.gens):
            rec.fail("%s: the population's parameters were lost" % tag)
            return
        survived |= {i["obj_score"] for i in a.pop if i["obj_score"] is not None}
        if runs > limit:
            rec.notes["limit reached"] += 1
            return
    if transfer == "random" and 0 < n - len(kids) and len(set(word)) == len(word):
        want = {1000 + i for i in range(len(word))}
        if survived != want:
            rec.fail("%s: some member can never survive" % tag, never=sorted(want - survived))
    rec.state(tag)
    rec.sample(tag)


def words(members, letters):
    return itertools.product(range(letters), repeat=members)


def singles(rec, n, members, letters, part, parts, scale=0):
    """scores follow genotypes: every genotype word x a family of score maps x children counts x transfers"""
    maps = [(0, 1, 2, 3, 4), (2, 0, 1, 4, 3), (1, 1, 0, 2, 2), (0, 0, 0, 0, 0)]
    for c, w in enumerate(list(words(members, letters))[part::parts]):
        for mp in maps:
            sc = [VALUES[(c + scale) % 4][mp[x]] for x in w]
            for k in range(n + 1):
                kids = [50 + i for i in range(k)] if (c + k) % 3 else [w[0]] * k
                for tr in ("best", "random"):
                    step(rec, w, sc, n, kids, tr, is_sorted=(c + k) % 2 == 0)


def free_scores(rec, n, members, part, parts):
    """scores and genotypes independent (the same genotype scored in different generations)"""
    todo = [(w, v) for w in words(members, 2) for v in weak_orders(members)]
    for c, (w, v) in enumerate(todo[part::parts]):
        sc = [VALUES[c % 4][x] for x in v]
        for k in range(n + 1):
            for tr in ("best", "random"):
                step(rec, w, sc, n, [50 + i for i in range(k)], tr, is_sorted=c % 2 == 0)


def distinct(rec, n, members, part, parts):
    """pairwise different genotypes, all weak score orders"""
    for c, v in enumerate(weak_orders(members)[part::parts]):
        sc = [VALUES[c % 4][x] for x in v]
        for k in range(n + 1):
            for tr in ("best", "random"):
                step(rec, tuple(range(members)), sc, n, [50 + i for i in range(k)], tr, is_sorted=c % 2 == 0,
                     kind=("cat", "binary", "order", "gray")[c % 4])


def vega(rec, n, members):
    """score lists, ordered lexicographically"""
    rows = [(0, 1), (1, 0), (1, 1), (0, 0)]
    for c, t in enumerate(itertools.product(rows, repeat=members)):
        if c % (1 if members < 4 else 5):
            continue
        for w in (tuple(range(members)), tuple([0] * members), tuple(i // 2 for i in range(members))):
            for k in range(n + 1):
                for tr in ("best", "random"):
                    step(rec, w, t, n, [50 + i for i in range(k)], tr, kind="binary", vega=True, is_sorted=False)


def more_children(rec):
    """as many children as individuals, or more: the best parent still joins"""
    for n in (1, 2, 3):
        for k in range(n, n + 3):
            for v in weak_orders(min(n + 1, 3)):
                for tr in ("best", "random"):
                    step(rec, tuple(range(len(v))), [VALUES[0][x] for x in v], n, [50 + i for i in range(k)], tr)


def history(rec, n, k, tr, letters, steps, part, parts):
    """several generations in a row through one operator: sizes stay, no sharing builds up, the best never gets lost"""
    seqs = list(itertools.product(itertools.product(range(letters), repeat=k), repeat=steps))[part::parts]
    value = [3, 1, 2, 0]
    for c, seq in enumerate(seqs):
        op = G.NewGeneration(tr)
        first = [(c + i) % letters for i in range(n)]
        d = situation(first, [value[x] for x in first], n, [], "cat")
        set_driver(Stream(c))
        best = max(value[x] for x in first)
        size = None
        for t, kids in enumerate(seq):
            e = situation([], [], n, kids, "cat")
            d.children = e.children
            b = Snap(d)
            op.execute(d)
            a = Snap(d)
            check_newgen(rec, b, a, tr, "history %r of children, first generation %r" % (seq[:t + 1], first))
            for ind in d.population:
                if ind["score"] is None:
                    ind["score"] = value[ind["genotype"][0]]
                    ind["obj_score"] = -ind["score"]
            best = max(best, max(value[x] for x in kids) if kids else best)
            d.update()
            top = max(ind["score"] for ind in d.population)
            if top != best:
                rec.fail("history %r: best score %r instead of %r" % (seq, top, best))
            if len(a.pop) != n + 1 and k > 0:
                rec.fail("history %r: generation has %d members" % (seq, len(a.pop)))
            rec.state((n, tr, tuple(sorted(map(repr, essences(d.population))))))
            rec.done(0, 1)
        rec.done(1)


def late(rec):
    """the same step in every generation number up to 130"""
    for gen in list(range(131)) + [200, 250, 400, 500, 999]:
        for n, k, members in ((3, 3, 4), (4, 4, 4), (4, 2, 5), (6, 0, 6)):
            for tr in ("best", "random"):
                w = tuple(range(members))
                d = situation(w, [(x * 3 + gen) % members for x in w], n, [50 + i for i in range(k)])
                d.idx_generation = gen
                set_driver(Stream(gen))
                b = Snap(d)
                G.NewGeneration(tr).execute(d)
                check_newgen(rec, b, Snap(d), tr, "generation %d n=%d members=%d children=%d %s" % (gen, n, members, k, tr))
                rec.done(1, 1)
        rec.state(gen)


def large(rec):
    """sizes up to 100, fair streams"""
    for n in (5, 6, 8, 10, 15, 20, 33, 50, 100, 180):
        for k in sorted({0, 1, n // 3, n // 2, n - 3, n - 2, n - 1, n, n + 1}):
            for members in (n, n + 1):
                for letters in (2, 3, n // 2 + 1, members):
                    for tr in ("best", "random"):
                        for srt in (False, True):
                            w = [(i * 7 + i // 3) % letters if letters < members else i for i in range(members)]
                            sc = [(x * 5) % 11 - 4 if letters < members else (x * 7) % members - 3 for x in w]
                            op = G.NewGeneration(tr)
                            d = situation(w, sc, n, [200 + i for i in range(k)], is_sorted=srt)
                            d.idx_generation = (n * k + letters) % 130
                            set_driver(Stream(n * 31 + k))
                            b = Snap(d)
                            op.execute(d)
                            check_newgen(rec, b, Snap(d), tr, "n=%d members=%d letters=%d children=%d %s" % (
                                n, members, letters, k, tr))
                            rec.done(1, 1)
                            rec.state((n, k, members, letters, tr, srt))


BOUNDS = {"quick": "all genotype words over 3 letters for 2-5 members with four score maps, all independent score orders for "
                   "2-3 members over 2 letters, all weak score orders of 2-4 pairwise different members; num_individ = "
                   "members or members-1; 0..num_individ(+2) children; both strategies; every random outcome; all "
                   "histories of 3 generations of children over 2-3 letters; generation numbers 0..999; sizes up to 180 on a fair stream",
          "thorough": "as quick with 4 letters, 4 independent members, 5 different members, 4-generation histories"}
ASSUMPTIONS = ["with duplicate genotypes, which survivors fill the remaining places is left open"]


def items(tier):
    t = tier == "thorough"
    out = []

    def add(name, fn, parts, **kw):
        for p in range(parts):
            out.append(("%s[%s,%d]" % (name, ",".join("%s=%s" % x for x in kw.items()), p), fn,
                        dict(kw, part=p, parts=parts)))
    for n, m, parts in [(2, 2, 1), (2, 3, 2), (3, 3, 2), (3, 4, 8), (4, 4, 8)]:
        add("words", "singles", parts, n=n, members=m, letters=3)
    if t:
        add("words", "singles", 16, n=4, members=5, letters=3)
        add("words", "singles", 16, n=3, members=4, letters=4)
    for n, m, parts in [(2, 2, 1), (2, 3, 2), (3, 3, 2)] + ([(3, 4, 16)] if t else []):
        add("free", "free_scores", parts, n=n, members=m)
    for n, m, parts in [(2, 2, 1), (2, 3, 1), (3, 3, 1), (3, 4, 4), (4, 4, 4)] + ([(4, 5, 16)] if t else []):
        add("distinct", "distinct", parts, n=n, members=m)
    for n, m in [(2, 2), (2, 3), (3, 3), (3, 4)]:
        out.append(("vega[%d,%d]" % (n, m), "vega", dict(n=n, members=m)))
    for tr in ("best", "random"):
        add("history", "history", 4, n=3, k=2, tr=tr, letters=3, steps=3)
        add("history", "history", 2, n=4, k=2, tr=tr, letters=2, steps=4)
        add("history", "history", 1, n=3, k=1, tr=tr, letters=4, steps=4)
        if t:
            add("history", "history", 8, n=3, k=2, tr=tr, letters=3, steps=4)
    out += [("more_children", "more_children", {}), ("large", "large", {}), ("late", "late", {})]
    return out + run_items(["o_newgen"], which=["binary", "gray", "cat", "order", "vega", "vega_gray"], count=2)
