"""C02: encoding of user individuals, Gray adjacency, rejection of values outside the range."""
import itertools
from .core import *
from .util import *
from .c01 import LOS, SPANS, WIDE
from .oracle import monitored, run_items


def encoded(kind, gens, individuals, n=None):
    set_driver(Stream(3))
    return new_pop(kind, n or len(individuals), gens, [list(i) for i in individuals])


def nearest(rec, part, parts, maxbits):
    for lo, (w, st) in list(itertools.product(LOS, SPANS))[part::parts]:
        gene = (lo, lo + w, st)
        hi = lo + w
        if hi <= lo:
            continue
        for kind in ("binary", "gray"):
            b = gene_bits(gene, kind)
            if b > maxbits:
                continue
            k = 2 ** b - 1
            sp = w / k
            tol = 1e-9 * max(abs(lo), abs(hi), w)
            vals = []
            for i in range(k + 1):
                p = lo + w * i / k
                for off in (0, 0.25, 0.49, 0.51, 0.5, 0.75, -0.3, 0.4999, 0.5001, 0.499999, 0.500001):
                    v = p + off * sp
                    if lo <= v <= hi:
                        vals.append((v, off == 0, i))
            vals += [(hi, True, k), (lo, True, 0)]
            if float(lo).is_integer():
                vals += [(int(v), False, None) for v in {math.floor(lo + i * w / 5) for i in range(6)}
                         if lo <= v <= hi]
            pop = encoded(kind, (gene,), [[v] for v, _, _ in vals])
            if len(pop) != len(vals):
                rec.fail("population size differs from the input", gene=gene)
                return
            strings = {}
            for (v, exact, i), ind in zip(vals, pop):
                got = ind["phenotype"][0] if ind["phenotype"] is not None else None
                want_from_bits = decode(ind["genotype"], (gene,), kind)[0]
                if len(ind["genotype"]) != b or got is None or abs(got - want_from_bits) > tol:
                    rec.fail("user individual's decoded values do not belong to its genotype", gene=gene, value=v,
                             got=got)
                    return
                err = abs(got - v)
                if err > sp / 2 * (1 + 1e-6) + tol:
                    rec.fail("user value not represented by the nearest grid point", gene=gene, kind=kind, value=v,
                             got=got, spacing=sp)
                    return
                if exact and err > tol:
                    rec.fail("grid point not represented exactly", gene=gene, kind=kind, value=v, got=got)
                    return
                if exact:
                    strings[i] = "".join(ind["genotype"])
                rec.state((gene, kind, v))
            if kind == "gray":
                for i in range(k):
                    if sum(x != y for x, y in zip(strings[i], strings[i + 1])) != 1:
                        rec.fail("neighbouring grid points differ in more than one bit", gene=gene, index=i,
                                 codes=(strings[i], strings[i + 1]))
                        return
            if len(set(strings.values())) != k + 1:
                rec.fail("two grid points share a bit string", gene=gene, kind=kind)
            rec.done(len(vals), len(vals))
            rec.sample("gene %r %s: %d values" % (gene, kind, len(vals)))


def many_bits(rec, index):
    gene = WIDE[index]
    lo, hi, st = gene
    for kind in ("binary", "gray"):
        b = gene_bits(gene, kind)
        k = 2 ** b - 1
        sp = (hi - lo) / k
        idx = set()
        for e in range(b + 1):
            for d in (-2, -1, 0, 1, 2):
                for base in (2 ** e, k - 2 ** e, k // 2, k // 3 * 2):
                    if 0 <= base + d <= k:
                        idx.add(base + d)
        idx = sorted(idx)
        vals = []
        for i in idx:
            for off in (0, 0.3, -0.3, 0.49):
                v = lo + (hi - lo) * i / k + off * sp
                if lo <= v <= hi:
                    vals.append((i, off, v))
        pop = encoded(kind, (gene,), [[v] for _, _, v in vals])
        code = {}
        for (i, off, v), ind in zip(vals, pop):
            got = ind["phenotype"][0]
            if abs(got - v) > sp / 2 * (1 + 1e-4) + 1e-12 * max(abs(lo), abs(hi)):
                rec.fail("user value not represented by the nearest grid point", gene=gene, kind=kind, value=v, got=got)
                return
            if off == 0:
                code[i] = "".join(ind["genotype"])
            rec.state((gene, kind, i, off))
        if kind == "gray":
            for i in idx:
                if i + 1 in code and sum(x != y for x, y in zip(code[i], code[i + 1])) != 1:
                    rec.fail("neighbouring grid points differ in more than one bit", gene=gene, index=i)
                    return
        rec.done(len(vals), len(vals))


LAY = [((0, 7, 1), (-1, 1, 0.1)), ((0, 1, 1), (0, 3, 1), (5, 9, 0.5)), ([0, 1, 1], [10, 20, 2]),
       ((0.5, 0.75, 0.1), (-100, 100, 5), (3, 4, 0.1), (0, 1, 1))]


def layouts(rec, index):
    """all combinations of grid indices/offsets of several genes, as lists and tuples"""
    gens = LAY[index]
    for kind in ("binary", "gray"):
        axes = []
        for g in gens:
            k = 2 ** gene_bits(g, kind) - 1
            axes.append(sorted({g[0], g[1]} | {g[0] + (g[1] - g[0]) * i / k for i in {0, 1, k // 2, k - 1, k}}
                               | {g[0] + (g[1] - g[0]) * (k // 2 + 0.4) / k}))
        combos = list(itertools.product(*axes))
        set_driver(Stream(3))
        given = [tuple(c) if i % 2 else list(c) for i, c in enumerate(combos)]
        keep = copy.deepcopy(given)
        pop = new_pop(kind, len(combos) + 2, gens, given)
        if given != keep:
            rec.fail("user input modified", gens=gens)
        for c, ind in zip(combos, pop):
            for g, v, x in zip(gens, c, ind["phenotype"]):
                sp = (g[1] - g[0]) / (2 ** gene_bits(g, kind) - 1)
                if abs(v - x) > sp / 2 * (1 + 1e-6) + 1e-12:
                    rec.fail("user individual not represented by the nearest grid point", gens=gens, given=c,
                             got=ind["phenotype"])
                    return
            if not same_dec(ind, gens, kind):
                rec.fail("decoded values do not belong to the genotype", gens=gens, ind=ind)
                return
            rec.state((index, kind, c))
        rec.done(len(combos), len(combos))


def same_dec(ind, gens, kind):
    return all(close(a, b) for a, b in zip(ind["phenotype"], decode(ind["genotype"], gens, kind)))


def rejected(rec):
    """every out-of-range offset and every wrong length, at every position, in several populations"""
    fam = [((0, 7, 1),), ((0, 1, 1), (-5, 5, 0.5)), ((-1, 1, 0.1), (2, 3, 0.01), (-8, -1, 2)), ((100, 200, 7), (0, 1, 1))]
    for gens in fam:
        ok = [(g[0] + g[1]) / 2 for g in gens]
        for kind in ("binary", "gray"):
            k = [2 ** gene_bits(g, kind) - 1 for g in gens]
            cases = []
            for j, g in enumerate(gens):
                sp = (g[1] - g[0]) / k[j]
                for d in (0, 1e-12, 1e-9, 1e-6, sp * 0.1, sp * 0.49, sp * 0.51, sp, 10 * sp, 1e6, float("inf")):
                    for v in ((g[0] - d, g[1] + d) if d else
                              (math.nextafter(g[0], -math.inf), math.nextafter(g[1], math.inf))):
                        if g[0] <= v <= g[1]:
                            continue
                        cases.append(ok[:j] + [v] + ok[j + 1:])
            for m in range(0, len(gens) + 3):
                if m != len(gens):
                    cases.append((ok * 3)[:m])
            for bad in cases:
                for pos in range(3):
                    inp = [list(ok) for _ in range(3)]
                    inp[pos] = bad
                    set_driver(Stream(2))
                    try:
                        new_pop(kind, 4, gens, inp)
                    except Exception:
                        pass
                    else:
                        rec.fail("individual outside the declared ranges accepted", gens=gens, kind=kind, individual=bad)
                        return
                    rec.state((gens, kind, repr(bad), pos))
                    rec.done(1, 1)
            # through the ready-made class
            for bad in cases[::3]:
                set_driver(Stream(2))
                try:
                    BinaryGA(num_generations=1, num_individ=4, gens=gens, obj_function=lambda x: sum(x),
                             is_gray=kind == "gray", input_population=[ok, bad], is_print=False).optimize()
                except Exception:
                    pass
                else:
                    rec.fail("BinaryGA accepted an individual outside the declared ranges", gens=gens, individual=bad)
                    return
                rec.done(1, 1)
    rec.sample("rejected e.g. %r for %r" % (bad, gens))


BOUNDS = {"quick": "all grid points and 6 offsets between them, genes up to 10 bits (thorough 13), both codings; "
                   "indices around every power of two for genes up to 31 bits; 4 layouts, all combinations; all "
                   "out-of-range offsets x positions"}


def items(tier):
    t = tier == "thorough"
    out = [("nearest[%d]" % i, "nearest", dict(part=i, parts=16, maxbits=13 if t else 10)) for i in range(16)]
    out += [("many_bits[%d]" % i, "many_bits", dict(index=i)) for i in range(len(WIDE))]
    out += [("layout[%d]" % i, "layouts", dict(index=i)) for i in range(len(LAY))]
    out += [("rejected", "rejected", {})]
    return out + run_items(["o_first"], which=("binary", "gray", "vega", "ffga_gray"), count=3 if t else 1)
