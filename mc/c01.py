"""C01: decoding of all bit strings of a family of genes, and of multi-gene layouts."""
import itertools
from .core import *
from .util import *
from .oracle import monitored, run_items

LOS = [-16, -10, -5.12, -1, 0, 0.1, 1, 2.5, 100, -1000.25, 1e-5]
SPANS = [(1, 1), (1, 0.5), (1, 2), (1, 0.3), (2, 1), (3, 1), (3, 0.5), (4, 1), (5, 1), (6.25, 0.5), (7, 1), (8, 1),
         (7, 2), (9, 4), (10, 3), (10.24, 0.01), (0.3, 0.1), (0.7, 0.1), (15, 1), (16, 1), (17, 1), (31, 1), (32, 1),
         (33, 1), (63, 1), (64, 1), (65, 2), (100, 1), (100, 0.5), (127, 1), (128, 1), (1, 0.01), (1, 0.001),
         (255, 1), (256, 1), (1000, 3), (0.05, 0.001), (1e-3, 1e-5), (1e6, 1e5), (12.6, 0.2), (2, 0.3), (50, 7),
         (1, 1000), (0.001, 5), (3, 400), (1 + 1e-6, 1), (3.0001, 1), (7.00001, 1), (15.001, 1), (31.0001, 1),
         (63.00001, 1), (0.70001, 0.1), (1023.001, 1), (6.99999, 1), (14.999, 1)]
WIDE = [(-16, 16, 0.01), (-100, 100, 0.001), (0, 1, 1e-6), (-500, 500, 1e-4), (0, 100000, 1), (1e-5, 100, 0.01),
        (-1, 1, 2 ** -20), (-5, 5, 1e-7), (0, 2 ** 30, 1), (0, 1e9, 0.5), (-1e-3, 1e-3, 1e-9), (0, 1, 1e-10),
        (-1, 1, 1e-12), (0, 2 ** 33, 1), (0, 2 ** 44, 1)]
LAYOUTS = [((0, 5, 1), (0, 7, 1)), ((0, 7, 1), (0, 5, 1), (1, 6, 1)), ((0, 3, 1), (0, 2, 1), (0, 3, 1)),
           ((0, 1, 1), (0, 3, 1)), ((0, 7, 1), (0, 1, 1)), ((-1, 1, 0.5), (5, 6, 0.1)), ((0, 1, 1),) * 4,
           ((0, 1, 1), (0, 3, 1), (0, 7, 1)), ((-2, 2, 0.3), (0, 1, 1), (10, 20, 3)), ([0, 1, 1], [2, 4, 1]),
           [(0, 3, 1), (0, 3, 1), (-3, 0, 1)], ((0, 15, 1), (0, 15, 2)), ((0, 1, 1), (0, 1, 2), (0, 1, 0.5), (0, 1, 0.1))]
LONG = [([0, 1, 1],) * 30, ((-5.12, 5.12, 0.01),) * 5, ((0, 1, 1), (-100, 100, 0.5)) * 6, ((0, 100, 0.01),) * 2,
        ((1, 3, 0.01), (1e-5, 100, 0.01), (0, 1, 1), (-8, -1, 0.7)),
        tuple((i, i + 1 + i % 5, 0.5 + i % 3) for i in range(24)), tuple((-i, 3 * i + 1, 1) for i in range(40)),
        tuple((0, 2 ** (i % 7 + 1) - 1, 1) for i in range(70))]


def decoded(kind, gens, strings, multi=False):
    """evaluate individuals with the given genotypes; returns (what the objective saw, stored phenotypes)"""
    set_driver(Stream(3))
    p = new_pop(kind, 1, gens)
    del p[:]
    seen = []

    def f(x):
        seen.append(list(x))
        return len(seen) - 1
    for s in strings:
        p.add_dict(genotype=list(s), phenotype=None, score=None, obj_score=None)
    d = G.GaData(num_generations=1)
    d.population = p
    G.HyperbolaFitness(obj_function=f).execute(d)
    assert [i["genotype"] for i in p] == [list(s) for s in strings], "evaluation changed genotypes"
    return [seen[i["obj_score"]] for i in p], [i["phenotype"] for i in p]


def check_grid(rec, gene, vals, b, kind):
    """vals: decoded values of all 2**b strings of the gene"""
    lo, hi, step = gene
    w = hi - lo
    tol = 1e-9 * max(abs(lo), abs(hi), w)
    k = 2 ** b - 1
    if k < 1:
        rec.fail("gene without bits", gene=gene)
        return
    if w / k > step * (1 + 1e-8):
        rec.fail("grid spacing %r exceeds the step" % (w / k), gene=gene, kind=kind)
    s = sorted(vals)
    for i, v in enumerate(s):
        if abs(v - (lo + w * i / k)) > tol:
            rec.fail("decoded values are not the even grid from lo to hi", gene=gene, kind=kind, index=i, value=v,
                     want=lo + w * i / k)
            return


def genes(rec, part, parts, maxbits):
    for lo, (w, st) in list(itertools.product(LOS, SPANS))[part::parts]:
        for cast in (False, True):
            gene = (lo, lo + w, st)
            if cast:
                gene = [float(x) for x in gene]
            if gene[1] <= gene[0]:
                continue
            sets = {}
            for kind in ("binary", "gray"):
                set_driver(Stream(1))
                b = len(new_pop(kind, 1, (gene,))[0]["genotype"])
                if b > maxbits:
                    continue
                strings = ["".join(t) for t in itertools.product("01", repeat=b)]
                seen, ph = decoded(kind, (gene,), strings)
                if seen != ph or any(len(x) != 1 for x in seen):
                    rec.fail("objective and stored decoded values differ", gene=gene, kind=kind)
                    continue
                vals = [x[0] for x in seen]
                check_grid(rec, gene, vals, b, kind)
                if kind == "binary":
                    if vals != sorted(vals):
                        rec.notes["plain_not_monotone"] += 1
                sets[kind] = sorted(vals)
                for s, v in zip(strings, vals):
                    rec.state((tuple(gene), kind, s))
                rec.done(len(strings), len(strings))
            if len(sets) == 2 and not same_list(sets["binary"], sets["gray"]):
                rec.fail("plain and Gray coding use different grids", gene=gene)
            rec.sample("gene %r: %d bits, grid %s" % (gene, b, sets.get("gray", [])[:3]))


def same_list(a, b):
    return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))


def layouts(rec, index):
    """all bit strings of a multi-gene individual: every gene depends on its own bits only"""
    gens = LAYOUTS[index]
    for kind in ("binary", "gray"):
        set_driver(Stream(1))
        bits = [len(new_pop(kind, 1, (g,))[0]["genotype"]) for g in gens]
        tot = sum(bits)
        strings = ["".join(t) for t in itertools.product("01", repeat=tot)]
        set_driver(Stream(1))
        if len(new_pop(kind, 1, gens)[0]["genotype"]) != tot:
            rec.fail("genotype length is not the sum of the genes' bits", gens=gens)
            return
        seen, ph = decoded(kind, gens, strings)
        table = [{} for _ in gens]
        for s, x, y in zip(strings, seen, ph):
            if x != y or len(x) != len(gens):
                rec.fail("objective and stored decoded values differ", gens=gens)
                return
            pos = 0
            for j, b in enumerate(bits):
                own = s[pos:pos + b]
                pos += b
                if table[j].setdefault(own, x[j]) != x[j]:
                    rec.fail("gene %d depends on bits other than its own" % j, gens=gens, kind=kind, string=s)
                    return
            rec.state((kind, index, s))
        for j, g in enumerate(gens):
            check_grid(rec, g, list(table[j].values()), bits[j], kind)
            ref = dict(zip(["".join(t) for t in itertools.product("01", repeat=bits[j])],
                           [x[0] for x in decoded(kind, (g,), ["".join(t) for t in
                                                              itertools.product("01", repeat=bits[j])])[0]]))
            if any(not close(ref[k], v) for k, v in table[j].items()):
                rec.fail("gene decodes differently inside an individual than alone", gens=gens, gene=j)
        rec.done(len(strings), len(strings))
        rec.sample("layout %r %s: %d strings" % (gens, kind, len(strings)))


def near(n, dev, extra=True):
    """all strings within `dev` bit changes of the base patterns"""
    bases = ["0" * n, "1" * n, ("01" * n)[:n], ("10" * n)[:n], "1" + "0" * (n - 1), "0" * (n - 1) + "1"]
    out = set()
    for b in bases:
        for d in range(dev + 1):
            for c in itertools.combinations(range(n), d):
                t = list(b)
                for i in c:
                    t[i] = "1" if t[i] == "0" else "0"
                out.add("".join(t))
    return sorted(out)


def finer(rec, index, dev):
    """genes with many bits: all strings within dev flips of the base patterns against exact rational decoding"""
    gene = WIDE[index]
    lo, hi, step = gene
    b0 = None
    for kind in ("binary", "gray"):
        set_driver(Stream(1))
        b = len(new_pop(kind, 1, (gene,))[0]["genotype"])
        b0 = b if b0 is None else b0
        if b != b0:
            rec.fail("plain and Gray coding use different grids", gene=gene, bits=(b0, b))
        k = 2 ** b - 1
        if (hi - lo) / k > step * (1 + 1e-8):
            rec.fail("grid spacing exceeds the step", gene=gene, bits=b)
        strings = near(b, dev)
        seen, ph = decoded(kind, (gene,), strings)
        used = {}
        for s, x in zip(strings, seen):
            i = (x[0] - lo) / (hi - lo) * k
            if abs(i - round(i)) > 1e-4 + 1e-15 * k or not 0 <= round(i) <= k:
                rec.fail("decoded value is not on the grid", gene=gene, kind=kind, string=s, value=x[0])
                return
            if used.setdefault(round(i), s) != s and k < 2 ** 46:
                rec.fail("two bit strings decode to the same point", gene=gene, kind=kind, strings=(s, used[round(i)]))
                return
            rec.state((kind, gene, s))
        # the reference coding: first and last points, and monotone/one-to-one by exact index
        from mc.util import decode
        for s, x in zip(strings, seen):
            want = decode(list(s), (gene,), kind)[0]
            if not close(want, x[0], 1e-9, 1e-12 * abs(hi - lo)):
                rec.fail("decoded value differs from the %s code's value" % kind, gene=gene, string=s, value=x[0],
                         want=want)
                return
        if max(used) != k or min(used) != 0:
            rec.fail("an end of the range is not represented", gene=gene, kind=kind)
        rec.done(len(strings), len(strings))
    rec.sample("gene %r: %d bits" % (gene, b0))


def long(rec, index, dev):
    gens = LONG[index]
    for kind in ("binary", "gray"):
        set_driver(Stream(1))
        bits = [len(new_pop(kind, 1, (g,))[0]["genotype"]) for g in gens]
        tot = sum(bits)
        strings = near(tot, dev)
        seen, ph = decoded(kind, gens, strings)
        for s, x in zip(strings, seen):
            pos = 0
            for j, b in enumerate(bits):
                alone = decode(list(s[pos:pos + b]), (gens[j],), kind)[0]
                pos += b
                if not close(alone, x[j]):
                    rec.fail("gene %d is not decoded from its own bits" % j, gens=gens, kind=kind, string=s, got=x[j],
                             want=alone)
                    return
            rec.state((kind, index, s))
        rec.done(len(strings), len(strings))
    rec.sample("%d genes, %d bits" % (len(gens), tot))


BOUNDS = {"quick": "genes: %d ranges x step combinations, both codings, all bit strings up to 12 bits; %d layouts with "
                   "all bit strings; genes up to 45 bits and layouts up to 108 bits: all strings within 2 flips of 6 "
                   "base patterns; plus all individuals of the monitored runs" % (len(LOS) * len(SPANS), len(LAYOUTS)),
          "thorough": "as quick with up to 16 bits and 3 flips"}


def items(tier):
    t = tier == "thorough"
    out = [("genes[%d]" % i, "genes", dict(part=i, parts=16, maxbits=16 if t else 12)) for i in range(16)]
    out += [("layout[%d]" % i, "layouts", dict(index=i)) for i in range(len(LAYOUTS))]
    out += [("fine[%d]" % i, "finer", dict(index=i, dev=3 if t else 2)) for i in range(len(WIDE))]
    out += [("long[%d]" % i, "long", dict(index=i, dev=2 if t and i else 1)) for i in range(len(LONG))]
    return out + run_items(["o_phenotype"], which=("binary", "gray", "vega", "ffga_gray"), count=3 if t else 1)
