"""C04: bounds containment, union and update agree with set semantics.

Model: exact rational intervals in base units, integer intervals, sets of names.  Where units differ, a comparison decided only
by rounding (relative 1e-9) is left undecided; in equal units it is exact.
"""
import itertools
import math
from fractions import Fraction as F

from mc.graphs import HASH_SEEDS
from mc.core import attempt, fingerprint, op, require

ID = "C04"
BOUNDS = {"quick": "containment: every pair among ~370 bounds and values of all 5 kinds (reals in 12 units of 6 dimensions over all intervals of a 4-7 point grid; nominal, "
                   "normal and uniform values); union and update: every bounds with every bounds or value, every bounds with two operands from a reduced "
                   "set, three operands on small sets; nearly equal limits (neighbouring floats, 1e-13, 1e-10 and 1e-9 off) in equal units; update histories over 3-name sets and intervals to closure",
          "thorough": "full grids in every unit (~1100 objects, all pairs), two operands from the larger set"}
ASSUMPTIONS = ["values are finite and have their content set", "comparisons across different units are exact only up to rounding of the conversion"]

# unit -> (dimension, scale, offset): base = x * scale + offset
U = {"meter": ("L", F(1), F(0)), "centimeter": ("L", F(1, 100), F(0)), "inch": ("L", F(254, 10000), F(0)),
     "kelvin": ("T", F(1), F(0)), "degree_Celsius": ("T", F(1), F(27315, 100)), "degree_Fahrenheit": ("T", F(5, 9), F(45967, 100) * F(5, 9)),
     "dimensionless": ("N", F(1), F(0)), "percent": ("N", F(1, 100), F(0)), "radian": ("A", F(1), F(0)),
     "meter / second": ("V", F(1), F(0)), "meter / -2 second": ("V", F(-1, 2), F(0)), "gram / 2.5 centimeter": ("LD", F(1), F(0))}
GRID = {"meter": [-1, 0, 0.1, 0.3, 1, 2, 100], "centimeter": [-100, 0, 10, 30, 150, 1e4]}
NAMES = ["a", "b", "A"]


def close(x, y):
    return abs(x - y) <= F(1, 10 ** 9) * max(abs(x), abs(y)) + F(1, 10 ** 12)


def subsets(xs):
    return [list(c) for n in range(len(xs) + 1) for c in itertools.combinations(xs, n)]


def codes(thorough):
    """all objects: bounds and values, as JSON descriptions"""
    res = []
    for u in U:
        g = GRID.get(u, [-1, 0, 0.5, 1, 300] if not thorough else [-40, -1, 0, 0.5, 1, 20, 300])
        iv = [(a, b) for a in g for b in g if a <= b]
        if not thorough and u not in ("meter", "centimeter"):
            iv = [x for x in iv if x[0] == x[1]][:3] + [x for x in iv if x[0] != x[1]][::2]
        res += [["RealBounds", a, b, u] for a, b in iv]
        res += [["UniformReal", a, b, u] for a, b in (iv if thorough else iv[::3])]
        res += [["NominalReal", a, u] for a in g] + [["NormalReal", a, 5, u] for a in (g if thorough else g[1:3])]
    ig = [-3, 0, 1, 2, 2 ** 60, 2 ** 60 + 1]
    iv = [(a, b) for a in ig for b in ig if a <= b]
    res += [["IntegerBounds", a, b] for a, b in iv] + [["UniformInteger", a, b] for a, b in iv[::2 if not thorough else 1]] + [["NominalInteger", a] for a in ig]
    res += [["CategoricalBounds", s] for s in subsets(NAMES)] + [["CompositionBounds", s] for s in subsets(NAMES + ["Al", "O"])]
    res += [["NominalCategorical", a] for a in NAMES] + [["DiscreteCategorical", s] for s in subsets(NAMES) if s]
    res += [["NominalComposition", s] for s in subsets(NAMES)] + [["EmpiricalFormula", "Al2O3", ["Al", "O"]], ["EmpiricalFormula", "O2", ["O"]], ["EmpiricalFormula", "AlAl", ["Al"]]]
    res += [["MolecularStructureBounds"], ["InChI", "InChI=1S/CH4"], ["Smiles", "C"], ["Smiles", ""]]
    return res


def make(c):
    import gemd.entity.bounds as b
    import gemd.entity.value as v
    k, a = c[0], c[1:]
    cls = getattr(b, k, None) or getattr(v, k)
    if k in ("CategoricalBounds", "CompositionBounds"):
        return cls(set(a[0]))
    if k == "DiscreteCategorical":
        return cls({x: 1 / len(a[0]) for x in a[0]})
    if k == "NominalComposition":
        return cls({x: 2 for x in a[0]})
    if k == "EmpiricalFormula":
        return cls(a[0])
    return cls(*a)


KIND = {"RealBounds": "real", "UniformReal": "real", "NominalReal": "real", "NormalReal": "real", "IntegerBounds": "int", "UniformInteger": "int", "NominalInteger": "int",
        "CategoricalBounds": "cat", "NominalCategorical": "cat", "DiscreteCategorical": "cat", "CompositionBounds": "comp", "NominalComposition": "comp",
        "EmpiricalFormula": "comp", "MolecularStructureBounds": "mol", "InChI": "mol", "Smiles": "mol"}
BOUNDCLS = {"real": "RealBounds", "int": "IntegerBounds", "cat": "CategoricalBounds", "comp": "CompositionBounds", "mol": "MolecularStructureBounds"}


def model(c):
    """kind, content"""
    k = KIND[c[0]]
    if k == "real":
        if c[0] in ("NominalReal", "NormalReal"):
            return k, (F(c[1]), F(c[1]), c[-1])
        return k, (F(c[1]), F(c[2]), c[3])
    if k == "int":
        return k, (c[1], c[-1])
    if k == "mol":
        return k, None
    return k, frozenset(c[2] if c[0] == "EmpiricalFormula" else [c[1]] if c[0] == "NominalCategorical" else c[1])


def convert(iv, u):
    lo, hi, w = iv
    if u == w:
        return lo, hi
    (d1, s1, o1), (d2, s2, o2) = U[w], U[u]
    if d1 != d2:
        return None
    a, b = ((lo * s1 + o1) - o2) / s2, ((hi * s1 + o1) - o2) / s2
    return min(a, b), max(a, b)


def contains(a, b):
    """True, False or None (decided by rounding only)"""
    (ka, x), (kb, y) = a, b
    if ka != kb:
        return False
    if ka == "real":
        r = convert(x, y[2])
        if r is None:
            return False
        lo, hi = r
        if x[2] == y[2]:
            return lo <= y[0] and y[1] <= hi
        low, high = (True if close(lo, y[0]) and lo != y[0] else lo <= y[0]), (True if close(hi, y[1]) and hi != y[1] else y[1] <= hi)
        if not (low and high):
            return False
        return None if close(lo, y[0]) or close(hi, y[1]) else True
    if ka == "int":
        return x[0] <= y[0] and y[1] <= x[1]
    if ka == "mol":
        return True
    return y <= x


def hull(first, others):
    """model of the union, None if incompatible; reals: (lo, hi, unit, exact)"""
    k, x = first
    if any(o[0] != k for o in others):
        return None
    if k == "real":
        lo, hi, u = x
        exact_lo = exact_hi = True
        for _, y in others:
            r = convert(y, u)
            if r is None:
                return None
            same = y[2] == u
            if r[0] < lo or (not same and close(r[0], lo)):
                exact_lo = same if not (not same and close(r[0], lo)) else False
                lo = min(r[0], lo)
            if r[1] > hi or (not same and close(r[1], hi)):
                exact_hi = same if not (not same and close(r[1], hi)) else False
                hi = max(r[1], hi)
        return k, (lo, hi, u, exact_lo, exact_hi)
    if k == "int":
        return k, (min([x[0]] + [y[0] for _, y in others]), max([x[1]] + [y[1] for _, y in others]))
    if k == "mol":
        return k, None
    return k, frozenset().union(x, *[y for _, y in others])


def read(b):
    n = type(b).__name__
    if n == "RealBounds":
        return "real", (F(b.lower_bound), F(b.upper_bound), b.default_units)
    if n == "IntegerBounds":
        return "int", (b.lower_bound, b.upper_bound)
    if n == "CategoricalBounds":
        return "cat", frozenset(b.categories)
    if n == "CompositionBounds":
        return "comp", frozenset(b.components)
    return "mol", None


def frozen(x):
    d = x.as_dict()
    return repr(sorted((k, sorted(v.items()) if isinstance(v, dict) else v) for k, v in d.items())), type(x)


def agrees(b, want, what):
    kind, w = want
    require(type(b).__name__ == BOUNDCLS[kind], "%s gives a %s", what, type(b).__name__)
    got = read(b)[1]
    if kind != "real":
        require(got == w, "%s gives %r, expected %r", what, got, w)
        return
    lo, hi, u = w[:3]
    el, eh = w[3:] if len(w) > 3 else (True, True)
    require(got[2] == u, "%s is in %r, expected %r", what, got[2], u)
    require((got[0] == lo) if el else close(got[0], lo), "%s has lower bound %s, expected %s", what, float(got[0]), float(lo))
    require((got[1] == hi) if eh else close(got[1], hi), "%s has upper bound %s, expected %s", what, float(got[1]), float(hi))


_CODES = {}


def code_list(th):
    if th not in _CODES:
        _CODES[th] = codes(th)
    return _CODES[th]


def run_contains(case):
    """one bounds against every object"""
    cs = code_list(case["th"])
    c = cs[case["i"]]
    a, ma = make(c), model(c)
    fa = frozen(a)
    row = []
    for d in cs:
        b, mb = make(d), model(d)
        fb = frozen(b)
        k, r = attempt(a.contains, b)
        want = contains(ma, mb)
        require(k == "ok" and isinstance(r, bool), "%r.contains(%r) gives %r", c, d, r)
        if want is not None:
            require(r is want, "%r.contains(%r) is %s, expected %s", c, d, r, want)
        require(frozen(b) == fb, "contains changed its argument %r", d)
        row.append(r)
    require(frozen(a) == fa, "contains changed %r", c)
    require(a.contains(a) is True, "%r does not contain itself", c)
    k, r = attempt(a.contains, None)
    require((k, r) == ("ok", False), "contains(None) gives %r", r)
    for bad in (5, "m", object(), [1], {"a"}):
        k, r = attempt(a.contains, bad)
        require(k == "exc" and isinstance(r, TypeError), "%r.contains(%r) gives %r", c, bad, r)
    return (repr(c), tuple(row))


def run_union(case):
    c, ds = case["a"], case["o"]
    want = hull(model(c), [model(d) for d in ds])
    a, os = make(c), [make(d) for d in ds]
    if case.get("self"):
        os = [a] + os
    fa, fo = frozen(a), [frozen(o) for o in os]
    what = "union of %r and %r" % (c, ds)
    k, r = attempt(a.union, *os)
    require((k == "exc") is (want is None), "%s: %r", what, r)
    require(frozen(a) == fa and [frozen(o) for o in os] == fo, "%s changed an operand", what)
    if want is not None:
        require(r is not a and all(r is not o for o in os), "%s returns an operand", what)
        agrees(r, want, what)
        for o, d in zip(os[-len(ds):] if ds else [], ds):
            m = contains(read(r), model(d))
            require(m is None or m is True, "%s does not contain %r", what, d)
        # independence: altering the result reaches no operand
        if hasattr(r, "categories"):
            r.categories.add("zz")
        elif hasattr(r, "components"):
            r.components.add("zz")
        require(frozen(a) == fa and [frozen(o) for o in os] == fo, "%s shares content with an operand", what)
    b, os = make(c), [make(d) for d in ds]
    if case.get("self"):
        os = [b] + os
    fo = [frozen(o) for o in os]
    k, r = attempt(b.update, *os)
    what = "update of %r with %r" % (c, ds)
    require((k == "exc") is (want is None), "%s: %r", what, r)
    if want is None:
        require(frozen(b) == fa, "rejected %s changed it to %r", what, b)
        require([frozen(o) for o in os] == fo, "%s changed an operand", what)
    else:
        agrees(b, want, what)
        if not case.get("self"):
            require([frozen(o) for o in os] == fo, "%s changed an operand", what)
            if hasattr(b, "categories"):
                b.categories.add("zz")
            elif hasattr(b, "components"):
                b.components.add("zz")
            require([frozen(o) for o in os] == fo, "%s shares content with an operand", what)
    return (repr(c), repr(ds), repr(want))


def run_bad(case):
    c = case["a"]
    for bad in (5, None, "m", ["x"], {"a"}, object()):
        for extra in ([], [c]):
            a = make(c)
            fa = frozen(a)
            for f in (a.union, a.update):
                k, r = attempt(f, *[make(x) for x in extra], bad)
                require(k == "exc", "%s of %r with %r accepted", f.__name__, c, bad)
                require(frozen(a) == fa, "rejected %s changed %r", f.__name__, c)
    return ("bad", repr(c))


def run_hist(hist):
    """update / union histories on one bounds, against the model; operands persist across steps"""
    c = hist[0]["a"]
    pool = [make(d) for d in hist[0]["pool"]]
    mpool = [model(d) for d in hist[0]["pool"]]
    fz = [frozen(p) for p in pool]
    b = make(c)
    m = model(c)
    for kind, ids in hist[1:]:
        want = hull(m, [mpool[i] for i in ids])
        f = b.update if kind == "update" else b.union
        k, r = attempt(f, *[pool[i] for i in ids])
        require((k == "exc") is (want is None), "%s with %r: %r", kind, ids, r)
        if want is not None:
            agrees(b if kind == "update" else r, want, "history %r" % (hist,))
            if kind == "chain":
                b = r
            if kind != "union":
                m = want if want[0] != "real" else ("real", want[1][:3])
        require([frozen(p) for p in pool] == fz, "%s with %r changed an operand", kind, ids)
        agrees(b, m, "history %r" % (hist,))
    return (repr(hist[0]), repr(read(b)[1] if read(b)[0] in ("real", "int", "mol") else sorted(read(b)[1])), fingerprint(b, pool))


def near_points(x):
    """the value, its two neighbours among the floats, and values a little off"""
    return [x, math.nextafter(x, math.inf), math.nextafter(x, -math.inf), x * (1 + 1e-13), x * (1 - 1e-13), x * (1 + 1e-10), x * (1 - 1e-10), x + 1e-9, x - 1e-9]


def run_near(case):
    """bounds against bounds and values whose limits differ as little as floats can, in equal units"""
    u, (lo, hi) = case["u"], case["iv"]
    c = ["RealBounds", lo, hi, u]
    n = 0
    for a in near_points(lo) if lo < hi else [lo]:
        for b in near_points(hi) if lo < hi else near_points(hi):
            ds = [["RealBounds", a, b, u], ["UniformReal", a, b, u], ["NominalReal", a, u], ["NominalReal", b, u], ["NormalReal", b, 1, u]]
            if a > b:
                ds = ds[2:]
            for d in ds:
                for x, y in ((c, d), (d, c)):
                    if x[0] != "RealBounds":
                        continue
                    k, r = attempt(make(x).contains, make(y))
                    require(k == "ok" and r is contains(model(x), model(y)), "%r.contains(%r) gives %r", x, y, r)
                    run_union({"a": x, "o": [y]})
                    n += 1
                op(2)
    return ("near", repr(case), n)


def run_case(case):
    if isinstance(case, list):
        return run_hist(case)
    return {"contains": run_contains, "union": run_union, "bad": run_bad, "near": run_near}[case["k"]](case)


def explore(ex):
    th = bool(ex.thorough)
    cs = code_list(th)
    isb = [c for c in cs if c[0] in BOUNDCLS.values()]
    ex.enumerate("containment of every pair", ({"k": "contains", "i": i, "th": th} for i, c in enumerate(cs) if c[0] in BOUNDCLS.values()), chunk=1)

    ex.enumerate("limits that are nearly equal", ({"k": "near", "u": u, "iv": iv} for u in ("meter", "dimensionless", "degree_Celsius", "meter / -2 second")
                                                  for iv in ((0, 1), (0.1, 0.3), (-1, 100.0), (0.0, 0.0), (1, 1), (-1e-9, 1e-9), (1e300, 1e301), (-7e15, 3.0), (273.15, 300))), chunk=1)

    def unions():
        for a in isb:
            yield {"k": "union", "a": a, "o": []}
            yield {"k": "union", "a": a, "o": [], "self": 1}
            yield {"k": "bad", "a": a}
            for d in cs:
                yield {"k": "union", "a": a, "o": [d]}
    ex.enumerate("union and update with one operand", unions(), chunk=256)
    # reduced sets for more operands
    step = 5 if th else 11
    red = [c for i, c in enumerate(cs) if KIND[c[0]] == "real" and i % step == 0] + [c for i, c in enumerate(cs) if KIND[c[0]] == "int" and i % 7 == 0] \
        + [["CategoricalBounds", ["a"]], ["CategoricalBounds", ["b", "A"]], ["NominalCategorical", "b"], ["CompositionBounds", ["O"]], ["EmpiricalFormula", "Al2O3", ["Al", "O"]],
           ["NominalComposition", ["a"]], ["MolecularStructureBounds"], ["Smiles", "C"]]
    redb = [c for c in red if c[0] in BOUNDCLS.values()]
    ex.enumerate("union and update with two operands", ({"k": "union", "a": a, "o": [x, y]} for a in redb for x in red for y in red), chunk=256)
    small = [["RealBounds", 0, 1, "meter"], ["NominalReal", 150, "centimeter"], ["UniformReal", -1, 0.3, "meter"], ["RealBounds", 0, 1, "kelvin"], ["IntegerBounds", 0, 2], ["UniformInteger", -3, 1],
             ["CategoricalBounds", ["a"]], ["DiscreteCategorical", ["a", "b"]], ["NominalComposition", ["a"]], ["CompositionBounds", ["O"]], ["MolecularStructureBounds"], ["InChI", "InChI=1S/CH4"]]
    ex.enumerate("union and update with three operands", ({"k": "union", "a": a, "o": [x, y, z]} for a in small if a[0] in BOUNDCLS.values()
                                                          for x in small for y in small for z in small), chunk=256)
    pools = [(["RealBounds", 0, 1, "meter"], [["RealBounds", -1, 0.5, "meter"], ["NominalReal", 2, "meter"], ["UniformReal", -2, 3, "meter"], ["RealBounds", 0, 1, "kelvin"], ["NominalInteger", 5]]),
             (["IntegerBounds", 0, 1], [["IntegerBounds", -1, 0], ["NominalInteger", 7], ["UniformInteger", 2 ** 60, 2 ** 60 + 1], ["NominalReal", 1, "meter"]]),
             (["CategoricalBounds", []], [["CategoricalBounds", ["a"]], ["NominalCategorical", "b"], ["DiscreteCategorical", ["a", "A"]], ["CompositionBounds", ["a"]]]),
             (["CompositionBounds", ["O"]], [["CompositionBounds", ["a"]], ["NominalComposition", ["b"]], ["EmpiricalFormula", "Al2O3", ["Al", "O"]], ["CategoricalBounds", ["a"]]])]
    ids = [[]] + [[i] for i in range(5)] + [[i, j] for i in range(5) for j in range(5)]

    def events(s):
        n = len(s["pool"])
        return [[k, x] for k in ("update", "union", "chain") for x in ids if all(i < n for i in x)]
    ex.bfs("update histories", [{"a": a, "pool": p} for a, p in pools], events, 20)
    named = [c for c in cs if KIND[c[0]] in ("cat", "comp")]
    named = [c for c in named if c in isb] + [c for c in named if c not in isb]
    ex.enumerate_hashed("names under other hash seeds", ({"k": "union", "a": a, "o": o} for a in named if a in isb
                                                         for o in [[x] for x in named] + [[x, y] for x in named[::5] for y in named[::7]]),
                        HASH_SEEDS[th], chunk=4000)
