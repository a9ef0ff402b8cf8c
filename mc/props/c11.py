"""C11: object equality is a terminating, symmetric comparison of content.

Reference: the greatest fixpoint of "same class, same uids, same plain content, linked objects pairwise equal, lists of
objects matched one to one", computed over all pairs of objects (so cycles and equal siblings need no special care).
"""
import itertools

from mc.core import attempt, op, require
from mc.graphs import ENTITY, PLAIN, BASES, Snap, build, cname, content_cases, is_entity, marker, odd_cases, topology_cases

ID = "C11"
BOUNDS = {"quick": "all pairs of coloured graphs with up to 2 materials, up to 2 coloured ingredient uses (cycles, repeated and equal siblings "
                   "included) and up to 2 coloured measurements, comparing every pair of objects of the two graphs in both directions; "
                   "every single-field change of every object of the content-rich base graphs; every object against links and pairs",
          "thorough": "3 ingredient uses; the two-material family of C01 with every single-field change"}
ASSUMPTIONS = []

COMPARE_BACK = {"MaterialRun": ["measurements"], "ProcessRun": ["ingredients"], "ProcessSpec": ["ingredients"]}


class Ref:
    """greatest-fixpoint equality over the objects of two structures"""

    def __init__(self):
        self.memo = {}

    def plain(self, x, y, pairs):
        """structural comparison; entity pairs are added to `pairs` as required to be equal.  None if surely different"""
        if is_entity(x) and is_entity(y):
            pairs.append((x, y))
            return True
        if cname(x) == "LinkByUID" and is_entity(y):
            return y.uids.get(x.scope) == x.id
        if cname(y) == "LinkByUID" and is_entity(x):
            return x.uids.get(y.scope) == y.id
        if cname(x) != cname(y):
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                return x == y
            if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
                pass
            elif isinstance(x, str) and isinstance(y, str):
                return str(x) == str(y)
            else:
                return False
        n = cname(x)
        if n in PLAIN:
            return all(self.plain(getattr(x, f), getattr(y, f), pairs) for f in PLAIN[n])
        if isinstance(x, (list, tuple)):
            return len(x) == len(y) and all(self.plain(a, b, pairs) for a, b in zip(x, y))
        if hasattr(x, "keys"):
            return dict(x) == dict(y)
        return x == y

    def perms(self, xs, ys):
        """all ways to match two lists; each a list of required entity pairs"""
        res = []
        for p in itertools.permutations(range(len(ys))):
            pairs = []
            if all(self.plain(x, ys[j], pairs) for x, j in zip(xs, p)):
                res.append(pairs)
        return res

    def obligations(self, a, b):
        """None when different outright, else a list of alternatives (lists of pairs), one of each must hold"""
        if cname(a) != cname(b) or dict(a.uids) != dict(b.uids):
            return None
        obs = []
        fwd = ENTITY[cname(a)][0]
        for f in fwd + COMPARE_BACK.get(cname(a), []):
            if f == "uids":
                continue
            x, y = getattr(a, f), getattr(b, f)
            if isinstance(x, list) and isinstance(y, list):
                if len(x) != len(y):
                    if dict(a.uids) and (not x or not y):
                        continue
                    return None
                alts = self.perms(x, y)
                if not alts:
                    return None
                obs.append(alts)
            else:
                pairs = []
                if not self.plain(x, y, pairs):
                    return None
                if pairs:
                    obs.append([pairs])
        return obs

    def solve(self, roots):
        """(id, id) -> bool for all given pairs and everything they depend on"""
        table, todo, keep = {}, list(roots), {}
        while todo:
            a, b = todo.pop()
            k = (id(a), id(b))
            if k in table:
                continue
            keep[k] = (a, b)
            table[k] = self.obligations(a, b)
            for alts in table[k] or ():
                for pairs in alts:
                    todo.extend(pairs)
        val = {k: v is not None for k, v in table.items()}
        changed = True
        while changed:
            changed = False
            for k, obs in table.items():
                if val[k] and not all(any(all(val[(id(x), id(y))] for x, y in pairs) for pairs in alts) for alts in obs):
                    val[k] = False
                    changed = True
        return val


def check_pairs(pairs, what):
    val = Ref().solve(pairs)
    out = []
    for a, b in pairs:
        want = val[(id(a), id(b))]
        r1, r2 = (a == b), (b == a)
        op(2)
        require(r1 is want and r2 is want, "%s: %s == %s gives %s, reversed %s, expected %s", what,
                describe(a), describe(b), r1, r2, want)
        require((a != b) is (not want), "%s: != disagrees with ==", what)
        out.append(want)
    return out


def describe(x):
    return f"{cname(x)}({x.name!r}, {x.notes!r})" if hasattr(x, "notes") else f"{cname(x)}({x.name!r})"


# ------------------------------------------------------------------------------------- coloured graphs
def coloured(d):
    """d: level, n, proc[], ings [[m, p, colour]], meas [[m, colour]], uid"""
    from gemd.entity.object import IngredientRun, IngredientSpec, MaterialRun, MaterialSpec, MeasurementRun, ProcessRun, ProcessSpec
    spec = d["level"] == "S"
    P, M, I = (ProcessSpec, MaterialSpec, IngredientSpec) if spec else (ProcessRun, MaterialRun, IngredientRun)
    kw = (lambda k: {"uids": {"id": k}}) if d.get("uid") else (lambda k: {})
    ps = [P("p", **kw("p%d" % k)) if d["proc"][k] else None for k in range(d["n"])]
    ms = [M("m", process=ps[k], **kw("m%d" % k)) for k in range(d["n"])]
    out = [p for p in ps if p] + ms
    for j, (m, p, c) in enumerate(d["ings"]):
        k = dict(material=None if m is None else ms[m], process=ps[p], notes=c, **kw("i%d" % j))
        out.append(I("n", **k) if spec else I(**k))
    for j, (m, c) in enumerate(d.get("meas", [])):
        out.append(MeasurementRun("e", material=ms[m], notes=c, **kw("e%d" % j)))
    return out


def colour_graphs(maxn, maxi, maxe, level):
    res = []
    for n in range(1, maxn + 1):
        for proc in itertools.product([1, 0], repeat=n):
            owners = [k for k in range(n) if proc[k]]
            cand = [(m, p, c) for m in [None] + list(range(n)) for p in owners for c in ("x", "y")]
            for ni in range(maxi + 1):
                for ings in itertools.combinations_with_replacement(cand, ni):
                    mc = [(m, c) for m in range(n) for c in ("x", "y")]
                    for ne in range(maxe + 1 if level == "R" else 1):
                        for meas in itertools.combinations_with_replacement(mc, ne):
                            res.append({"level": level, "n": n, "proc": list(proc), "ings": [list(x) for x in ings],
                                        "meas": [list(x) for x in meas]})
    return res


def run_pair(case):
    a, b = coloured(case["a"]), coloured(case["b"])
    outs = check_pairs([(x, y) for x in a for y in b if cname(x) == cname(y)], "two graphs")
    if case["a"] == case["b"]:
        for x, y in zip(a, b):
            require(x == y and x == x, "equal graphs compare unequal at %s", describe(x))
    return tuple(outs)


# ------------------------------------------------------------------------------------- single-field changes
ATTR_HOW = ["name", "notes", "origin", "value", "novalue", "template", "file_links", "inner"]


def vary_value(v):
    """change one field of a value in place, keeping it valid"""
    n = cname(v)
    if n in ("NominalReal", "NominalInteger"):
        v.nominal += 1 if n == "NominalInteger" else 0.03125
    elif n == "NormalReal":
        v.std += 1
    elif n in ("UniformReal", "UniformInteger"):
        v.upper_bound += 1
    elif n == "NominalCategorical":
        v.category = v.category + "!"
    elif n == "DiscreteCategorical":
        v.probabilities = {"other": 0.5, "red": 0.5}
    elif n == "NominalComposition":
        v.quantities = {"w": 0.75}
    elif n == "EmpiricalFormula":
        v.formula = "C2"
    elif n == "InChI":
        v.inchi = "InChI=1/C"
    elif n == "Smiles":
        v.smiles = "CC"


def vary_attr(a, how):
    from gemd.entity.file_link import FileLink
    from gemd.entity.value import NominalInteger
    if cname(a) == "PropertyAndConditions":
        if how == "inner":
            a.conditions = list(a.conditions)[:-1]
            return
        a = a.property
    if how == "name":
        a.name = "another"
    elif how == "notes":
        a.notes = "another"
    elif how == "origin":
        a.origin = "predicted"
    elif how == "value":
        if a.value is None:
            a.value = NominalInteger(1)
        else:
            vary_value(a.value)
    elif how == "novalue":
        a.value = None
    elif how == "template":
        a.template = None
    elif how == "file_links":
        a.file_links = list(a.file_links) + [FileLink("z", "z")]


def mutations(e):
    """(name, function applied to the entity) for every field; each makes the content different (or is a no-op in itself)"""
    from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
    from gemd.entity.bounds import IntegerBounds, RealBounds
    from gemd.entity.file_link import FileLink
    from gemd.entity.link_by_uid import LinkByUID
    from gemd.entity.source import PerformedSource
    from gemd.entity.value import NominalInteger, NominalReal
    n = cname(e)
    f = set(ENTITY[n][0])
    res = []

    def setter(field, v):
        res.append((field, lambda x: setattr(x, field, v)))
    if n != "IngredientRun":
        setter("name", "other")
    text = "notes" if "notes" in f else "description"
    setter(text, None)
    for near in (lambda t: t + " ", str.swapcase):      # a difference in case or space is a difference
        setter(text, near(getattr(e, text)))
        if n != "IngredientRun":
            setter("name", near(e.name))
        setter("tags", [near(t) for t in e.tags] or ["t"])
        if "file_links" in f and e.file_links:
            setter("file_links", [FileLink(near(x.filename), x.url) for x in e.file_links])
            setter("file_links", [FileLink(x.filename, near(x.url)) for x in e.file_links])
        if n == "IngredientSpec":
            setter("labels", [near(t) for t in e.labels])
        if e.uids:
            res.append(("uids", lambda x, near=near: x.uids.update({k: near(v) for k, v in list(x.uids.items())[:1]})))
    setter("tags", [])
    setter("tags", list(e.tags) + ["t"])
    setter("tags", list(reversed(e.tags)))
    res.append(("uids", lambda x: x.uids.clear()))
    res.append(("uids", lambda x: x.add_uid("zzz", "1")))
    if "file_links" in f:
        setter("file_links", [])
        setter("file_links", list(e.file_links) + [FileLink("n", "n")])
        setter("file_links", list(reversed(e.file_links)))
    for g in ("spec", "template", "process", "material"):
        if g in f:
            setter(g, None)
            t = getattr(e, g)
            if is_entity(t) and t.uids:
                setter(g, t.to_link())
                setter(g, LinkByUID("id", "other"))
    if "sample_type" in f:
        setter("sample_type", "virtual")
    if "source" in f:
        setter("source", PerformedSource("you"))
        setter("source", None)
        if e.source is not None:
            setter("source", PerformedSource(e.source.performed_by, "then"))
    if "labels" in f and n == "IngredientSpec":
        setter("labels", ["q"])
        setter("labels", list(reversed(e.labels)))
    for q in ("mass_fraction", "volume_fraction", "number_fraction", "absolute_quantity"):
        if q in f:
            setter(q, NominalReal(0.123, "" if q[0] != "a" else "kg"))
            setter(q, None)
            if getattr(e, q) is not None:
                res.append((q, lambda x, q=q: vary_value(getattr(x, q))))
    if n.endswith("Template"):
        if "bounds" in f:
            setter("bounds", IntegerBounds(0, 12345))
        for g in ("properties", "conditions", "parameters", "allowed_names"):
            if g in f:
                setter(g, [])
                setter(g, [x if isinstance(x, str) else x[0] for x in getattr(e, g)])
    else:
        mk = {"properties": Property, "conditions": Condition, "parameters": Parameter}
        for g, cls in mk.items():
            if g in f:
                new = cls("new", value=NominalInteger(1))
                new = PropertyAndConditions(new) if n == "MaterialSpec" else new
                setter(g, [])
                setter(g, list(getattr(e, g)) + [new])
                setter(g, list(reversed(getattr(e, g))))
                for k, a in enumerate(getattr(e, g)):
                    for how in ATTR_HOW:
                        res.append((f"{g}[{k}].{how}", lambda x, g=g, k=k, how=how: vary_attr(getattr(x, g)[k], how)))
                if len(getattr(e, g)) > 1:
                    setter(g, list(getattr(e, g))[:-1] + [getattr(e, g)[1]])
    return res


def run_mutation(case):
    g1, g2 = build(case["g"]), build(case["g"])
    pairs = list(zip(g1.items, g2.items))
    if "i" not in case:
        b1, b2 = Snap(g1.items), Snap(g2.items)
        outs = check_pairs(pairs, "identical graphs")
        require(all(outs), "identical graphs compare unequal")
        for x in g1.items:
            for y in g2.items:
                if cname(x) != cname(y):
                    op()
                    require(not (x == y) and x != y, "%s equals %s", describe(x), describe(y))
        check_pairs([(x, y) for x in g1.items for y in g2.items if cname(x) == cname(y)], "objects of identical graphs")
        require(b1.canon() == Snap(g1.items).canon() and b2.canon() == Snap(g2.items).canon(), "comparison changed something")
        # links and pairs
        from gemd.entity.link_by_uid import LinkByUID
        for x in g1.items:
            for y in g1.items:
                for s, i in list(y.uids.items()) + [("id", "nope"), ("nope", "u")]:
                    carries = x.uids.get(s) == i
                    link = LinkByUID(s, i)
                    op(4)
                    require((x == link) is carries and (link == x) is carries and (x == (s, i)) is carries
                            and (x != link) is not carries, "%s compared with (%s, %s): %s %s %s", describe(x), s, i, x == link,
                            link == x, x == (s, i))
            for other in (None, 5, "x", [], ("id",), ("id", "u", "v"), object(), {}):
                require(not (x == other) and x != other, "%s equals %r", describe(x), other)
        return ("same", repr(case["g"]))
    name, f = mutations(g2.items[case["i"]])[case["m"]]
    r, e = attempt(f, g2.items[case["i"]])
    require(r == "ok", "harness: mutation %s failed %r", name, e)
    outs = check_pairs(pairs, f"after changing {name} of {describe(g2.items[case['i']])}")
    return ("mut", name, tuple(outs), case["i"])


def run_deep(case):
    """long histories: comparing must not depend on the depth at which things differ"""
    n, shape, diff = case["n"], case["shape"], case["diff"]
    edges = [[i + 1, i] for i in range(n - 1)] if shape == "chain" else [[i + 1, i] for i in range(n - 1) for _ in range(2)]
    d = {"n": n, "proc": [1] * n, "edges": edges, "meas": [0] * (n - 1) + [1], "level": case["level"], "uids": case["uids"]}
    a, b = build(d), build(d)
    pre = "S" if case["level"] == "S" else "R"
    if diff is not None:
        e = b.by[pre + (diff if diff[0] != "m" else "m%d" % (n - 1))]
        e.tags.append("changed")
        e = a.by[pre + (diff if diff[0] != "m" else "m%d" % (n - 1))]
        e.tags.append("original")
    for m in (pre + "m0", pre + "m%d" % (n // 2), pre + "p0", pre + "m%d" % (n - 1), pre + "i0"):
        x, y = a.by[m], b.by[m]
        r, s = attempt(lambda: x == y), attempt(lambda: y == x)
        require(r[0] == s[0] == "ok", "comparing long histories fails: %r", r[1])
        # everything is connected to the changed object only upstream of it
        i = n - 1 if m == pre + "i0" else 0
        want = diff is None or not reaches(case, m, pre)
        require(r[1] is s[1] is want, "long histories that %s compare %s/%s at %s", "are alike" if want else "differ", r[1], s[1], m)
    return ("deep", repr(case))


def reaches(case, m, pre):
    """whether the changed object is part of the content of m (links to material, process, spec; ingredients; measurements)"""
    n = case["n"]
    at = lambda x: int(x[2:].split("_")[0])
    k = 0 if m[1] == "i" else at(m)
    t = n - 1 if case["diff"][0] == "m" else int(case["diff"][1:])
    # material k -> process k -> ingredients of k -> material k+1 ...; nothing leads back down, an ingredient leads to its process
    return t > k or (t == k and (case["diff"][0] == "m") == (m[1] == "m" or m[1] == "i")) or (t == k and case["diff"][0] == "p")


def entangled(d):
    """a run whose ingredients' materials come from processes that share specs with the ingredients' own specs: d["ings"] are
    [spec of the process that made the material, spec of the ingredient] out of two spec processes that differ"""
    from gemd.entity.object import IngredientRun, IngredientSpec, MaterialRun, ProcessRun, ProcessSpec
    pss = [ProcessSpec("ps") for _ in range(2)]
    iss = [IngredientSpec("s", process=p) for p in pss]
    for n, p in enumerate(pss):
        IngredientSpec(f"extra{n}", process=p)
    at = lambda xs, k: None if k is None else xs[k]
    run = ProcessRun("R", spec=at(pss, d["spec"]))
    ings = [IngredientRun(material=None if a is None and d["bare"] else MaterialRun("m", process=ProcessRun("q", spec=at(pss, a))),
                          spec=at(iss, b), process=run) for a, b in d["ings"]]
    return [run] + ings + iss + pss


def entangled_cases(specs):
    one = list(itertools.product((None, 0, 1), repeat=2))
    for spec in specs:
        left = [[x] for x in one] + [list(x) for x in itertools.combinations_with_replacement(one, 2)]
        right = [[x] for x in one] + [list(x) for x in itertools.product(one, repeat=2)]
        for a in left:
            for b in right:
                if len(a) == len(b):
                    yield {"k": "ent", "a": {"spec": spec, "ings": a, "bare": 0}, "b": {"spec": spec, "ings": b, "bare": 0}}


def run_entangled(case):
    a, b = entangled(case["a"]), entangled(case["b"])
    n = 1 + len(case["a"]["ings"])
    pairs = [(a[0], b[0])] + [(x, y) for x in a[1:n] for y in b[1:n]] + [(x, y) for x in a[n:n + 2] for y in b[n:n + 2]]
    return ("ent", tuple(check_pairs(pairs, "entangled runs and specs")))


def lenient(d):
    """a material with measurements that may share a uid (so that an empty list of one of them is no difference)"""
    from gemd.entity.object import MaterialRun, MeasurementRun
    m = MaterialRun("m")
    for uid, tags in d:
        MeasurementRun("e", material=m, tags=tags, uids={"id": uid} if uid else None)
    return m


def lenient_cases():
    one = list(itertools.product((None, "u"), ([], ["x"], ["y"])))
    for n in (2, 3):
        for a in itertools.combinations_with_replacement(one, n):
            for b in itertools.product(one, repeat=n):
                yield {"k": "len", "a": list(a), "b": list(b)}


def run_lenient(case):
    a, b = lenient(case["a"]), lenient(case["b"])
    return ("len", tuple(check_pairs([(a, b)] + list(zip(a.measurements, b.measurements)), "partly flattened measurements")))


def run_case(case):
    if case["k"] == "len":
        return run_lenient(case)
    if case["k"] == "ent":
        return run_entangled(case)
    if case["k"] == "deep":
        try:
            return run_deep(case)
        except RecursionError:
            require(False, "comparing histories of %d levels exceeds the recursion limit", case["n"])
    if case["k"] == "pair":
        return run_pair(case)
    return run_mutation(case)


def explore(ex):
    def pairs():
        fams = [(colour_graphs(1, 2, 2, "R"), True), (colour_graphs(1, 3, 0, "S"), True), (colour_graphs(2, 2, 0, "R"), True)]
        if ex.thorough:
            fams += [(colour_graphs(1, 3, 2, "R"), True), (colour_graphs(2, 2, 1, "R"), False), (colour_graphs(2, 3, 0, "R"), False)]
        for graphs, full in fams:
            # graphs can only be equal if the counts of their parts agree: pair within equal size, plus one bigger
            for a in graphs:
                for b in graphs:
                    if (a["n"], a["proc"]) == (b["n"], b["proc"]) and len(a["ings"]) == len(b["ings"]) and len(a["meas"]) == len(b["meas"]):
                        yield {"k": "pair", "a": a, "b": b}
                    elif full and a["n"] == b["n"] == 1 and a["proc"] == b["proc"]:
                        yield {"k": "pair", "a": a, "b": b}
                        yield {"k": "pair", "a": dict(a, uid=1), "b": dict(b, uid=1)}
    ex.enumerate("pairs of coloured graphs", pairs(), chunk=16)

    def muts():
        small = [BASES[0], BASES[1], BASES[3]]
        fam = list(content_cases(["RS"], ["none"], [0], tmpls=(3,), dresses=(2,), bases=small))
        fam += list(content_cases(["RS"], ["multi"], [0], tmpls=(0,), dresses=(2,), bases=small))
        fam += list(content_cases(["RS"], ["mixed"], [0], tmpls=(0,), dresses=(0,)))
        fam += list(odd_cases(["RS"], [0], bases=small[:1]))
        fam += list(content_cases(["S", "R"], ["multi", "many"], [0], tmpls=(0,), dresses=(2,)))
        if ex.thorough:
            fam += list(topology_cases(2, 2, ["R", "RS", "S"], ["none", "multi"], [0], rich=False))
            fam += list(content_cases(["S", "RS", "RRS"], ["none", "mixed", "multi", "case"], [0]))
        for c in fam:
            yield {"k": "mut", "g": c["g"]}
            g = build(c["g"])
            for i, e in enumerate(g.items):
                for m in range(len(mutations(e))):
                    yield {"k": "mut", "g": c["g"], "i": i, "m": m}
    ex.enumerate("single-field changes", muts(), chunk=2)
    ex.enumerate("long histories", ({"k": "deep", "n": n, "shape": sh, "level": lv, "uids": u, "diff": df}
                                    for n in ((40, 400) if not ex.thorough else (40, 400, 1500)) for sh in ("chain", "double")
                                    for lv in ("R", "S") for u in ("none", "all") for df in (None, "m", "p0", "p%d" % (n - 1))), chunk=1)
    ex.enumerate_hashed("entangled runs and specs", entangled_cases((None, 0) if ex.thorough else (None,)),
                        range(1, 6 if not ex.thorough else 25))
    ex.enumerate("lists of partly flattened objects", lenient_cases(), chunk=64)
