"""C15: instantiating a spec graph yields a matching run graph; the complete history of a material lists it all.

Reference for make_instance: an own breadth-first walk over the specs (material -> process -> ingredients -> material) by
identity gives the runs expected; reference for complete_material_history: the snapshot of everything connected.
"""
import itertools
import json

from mc.core import attempt, op, require
from mc.graphs import HASH_SEEDS, hash_cases, BASES, Snap, build, cname, compare, content_cases, is_entity, odd_cases, topology_cases

ID = "C15"
BOUNDS = {"quick": "make_instance: every spec graph with up to 3 materials (each with or without a process), up to 3 ingredient uses (repeated, shared, "
                   "cyclic, dangling) and measurement specs, from every spec as base, with distinct and with indistinguishable (equal) specs, twice; "
                   "content-rich specs; 5 chains and lattices up to 700 levels; 12 non-specs. complete_material_history: every run graph with up to 2 materials "
                   "and 2 uses, with and without specs, templates and attributes, x 4 uid configurations, from every material; one reference at a time being a link to an absent object",
          "thorough": "4 materials and 3 uses or 3 materials and 4 uses; histories with up to 3 materials and 3 uses"}
ASSUMPTIONS = []

RUN_OF = {"MaterialSpec": "MaterialRun", "ProcessSpec": "ProcessRun", "IngredientSpec": "IngredientRun",
          "MeasurementSpec": "MeasurementRun"}


def reach(base):
    """specs instantiated from base, in some order, by identity"""
    todo, got = [base], {}
    while todo:
        s = todo.pop()
        if id(s) in got:
            continue
        got[id(s)] = s
        c = cname(s)
        if c == "MaterialSpec":
            nxt = [s.process]
        elif c == "IngredientSpec":
            nxt = [s.material]
        elif c == "ProcessSpec":
            nxt = list(s.ingredients)
        else:
            nxt = []
        todo.extend(x for x in nxt if x is not None)
    return got


def all_runs(run):
    """every run connected to run, in any direction, by identity"""
    todo, got = [run], {}
    while todo:
        r = todo.pop()
        if r is None or id(r) in got:
            continue
        got[id(r)] = r
        c = cname(r)
        if c == "MaterialRun":
            todo += [r.process] + list(r.measurements)
        elif c == "IngredientRun":
            todo += [r.material, r.process]
        elif c == "ProcessRun":
            todo += list(r.ingredients) + [r.output_material]
        elif c == "MeasurementRun":
            todo.append(r.material)
    return got


def instance(base, what):
    from gemd.entity.util import make_instance
    specs = reach(base)
    top = make_instance(base)
    op()
    runs = all_runs(top)
    require(len(runs) == len(specs), "%s: %s runs for %s reachable specs", what, len(runs), len(specs))
    of = {}
    for r in runs.values():
        s = r.spec
        require(id(s) in specs, "%s: a %s refers to a spec that is not reachable: %r", what, cname(r), s)
        require(specs[id(s)] is s and id(s) not in of, "%s: two runs for one spec", what)
        require(cname(r) == RUN_OF[cname(s)], "%s: a %s for a %s", what, cname(r), cname(s))
        require(r.name == s.name, "%s: the run is called %r, its spec %r", what, r.name, s.name)
        if cname(s) == "IngredientSpec":
            require(list(r.labels) == list(s.labels), "%s: labels %r, the spec's %r", what, r.labels, s.labels)
        require(not dict(r.uids), "%s: a new run with uids %r", what, dict(r.uids))
        of[id(s)] = r
    require(top.spec is base, "%s: the result does not refer to the given spec", what)

    def m(s):
        return None if s is None else of.get(id(s))

    for s in specs.values():
        r = of[id(s)]
        c = cname(s)
        if c == "MaterialSpec":
            require(r.process is m(s.process), "%s: process of %r", what, s.name)
            require(list(r.measurements) == [], "%s: measurements appeared", what)
        elif c == "IngredientSpec":
            require(r.material is m(s.material), "%s: material of %r", what, s.name)
            require(r.process is m(s.process), "%s: process of ingredient %r", what, s.name)
        elif c == "ProcessSpec":
            got, want = list(r.ingredients), [m(x) for x in s.ingredients]
            require(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "%s: ingredients of %r", what, s.name)
            require(r.output_material is m(s.output_material), "%s: output of %r", what, s.name)
        else:
            require(r.material is None, "%s: a measurement got a material", what)
    return top, runs, sorted((cname(s), s.name) for s in specs.values())


def marks(items):
    """(field, value) that distinguishes each entity, removed and put back around the call"""
    return [(x, "notes" if hasattr(x, "notes") else "description") for x in items]


def case_inst(d):
    g = build(d["g"])
    base = g.items[d["root"] % len(g.items)]
    if cname(base) not in RUN_OF:
        return ("skip",)
    before = Snap(list(g.items))
    keep = [(x, f, getattr(x, f)) for x, f in marks(g.items)]
    if d.get("blank"):
        for x, f, _ in keep:
            setattr(x, f, None)
    top, runs, out = instance(base, "make_instance")
    first = {id(r): [getattr(r, f) for f in ("spec", "process", "material", "output_material") if hasattr(r, f)] for r in runs.values()}
    top2, runs2, _ = instance(base, "a second make_instance")
    require(not set(runs) & set(runs2), "two instances share runs")
    for r in runs.values():
        now = [getattr(r, f) for f in ("spec", "process", "material", "output_material") if hasattr(r, f)]
        require(all(a is b for a, b in zip(first[id(r)], now)), "a second instance rewires the first")
    for x, f, v in keep:
        setattr(x, f, v)
    after = Snap(list(g.items))
    compare(before, after, "the specs after make_instance")
    return (cname(base), tuple(out), bool(d.get("blank")), repr(sorted(d["g"].items())))


def case_deep(d):
    from gemd.entity.object import IngredientSpec, MaterialSpec, MeasurementSpec, ProcessSpec
    n, fan, what = d["deep"]
    prev = MaterialSpec("m", process=ProcessSpec("p"))
    for k in range(n):
        p = ProcessSpec("p")
        for j in range(fan):
            IngredientSpec("i", labels=["x%d" % j], material=prev, process=p)
        if what == "tail" and k == n - 1:
            prev = p
        else:
            prev = MaterialSpec("m", process=p)
    if what == "ing":
        prev = IngredientSpec("i", material=prev)
    if what == "ring":
        s = prev
        while s.process is not None and s.process.ingredients:
            s = s.process.ingredients[0].material
        IngredientSpec("i", material=prev, process=s.process)
    _, _, out = instance(prev, "make_instance of a deep graph")
    return ("deep", n, fan, what, len(out))


def case_bad(d):
    from gemd.entity.attribute import Property
    from gemd.entity.bounds import IntegerBounds
    from gemd.entity.link_by_uid import LinkByUID
    from gemd.entity.object import (IngredientRun, IngredientSpec, MaterialRun, MaterialSpec, MeasurementRun, ProcessRun, ProcessSpec)
    from gemd.entity.template import (MaterialTemplate, ProcessTemplate, PropertyTemplate)
    from gemd.entity.util import make_instance
    x = {"none": lambda: None, "str": lambda: "material_spec", "link": lambda: LinkByUID("id", "x"),
         "mrun": lambda: MaterialRun("r", spec=MaterialSpec("s")), "prun": lambda: ProcessRun("r", spec=ProcessSpec("s")),
         "irun": lambda: IngredientRun(spec=IngredientSpec("s")), "erun": lambda: MeasurementRun("r"),
         "mt": lambda: MaterialTemplate("t"), "pt": lambda: ProcessTemplate("t"),
         "prt": lambda: PropertyTemplate("t", bounds=IntegerBounds(0, 1)), "attr": lambda: Property("p"),
         "list": lambda: [MaterialSpec("s")], "dict": lambda: MaterialSpec("s").as_dict()}[d["bad"]]()
    st, r = attempt(make_instance, x)
    require(st == "exc" and isinstance(r, TypeError), "make_instance(%s) is not refused with a TypeError: %r", d["bad"], r)
    return ("bad", d["bad"])


BAD = ["none", "str", "link", "mrun", "prun", "irun", "erun", "mt", "pt", "prt", "attr", "list", "dict"]


def refs(x, top=True):
    """(type, dict) for every typed dictionary inside x"""
    if isinstance(x, dict):
        if not top and "type" in x:
            yield x
        for v in x.values():
            yield from refs(v, False)
    elif isinstance(x, list):
        for v in x:
            yield from refs(v, False)


def ordered(hist, by):
    """the dictionaries, each after those it refers to"""
    todo = {}
    for h in hist:
        sc, u = next(iter(h["uids"].items()))
        todo[by[sc.lower(), u]] = (h, {by[r["scope"].lower(), r["id"]] for r in refs(h) if r["type"] == "link_by_uid" and r["scope"] != "Ext"})
    out = []
    while todo:
        ready = [m for m, (h, need) in todo.items() if not need & set(todo)]
        require(ready, "objects refer to each other in a ring: %s", list(todo))
        out += [todo.pop(m)[0] for m in ready]
    return out


def case_hist(d):
    import gemd.json as gj
    from gemd.entity.link_by_uid import LinkByUID
    from gemd.entity.util import complete_material_history
    g = build(d["g"])
    mat = g.items[d["root"] % len(g.items)]
    if cname(mat) != "MaterialRun":
        return ("skip",)
    if "ext" in d:
        x = g.items[d["ext"] % len(g.items)]
        f = {"IngredientRun": "material", "IngredientSpec": "material", "MeasurementRun": "spec", "MaterialRun": "spec", "ProcessRun": "spec",
             "MaterialSpec": "process", "ProcessSpec": "template", "MeasurementSpec": "template"}.get(cname(x))
        if f is None:
            return ("skip",)
        setattr(x, f, LinkByUID("Ext", "away"))

    def strip(s):
        for c, r in s.entities.values():
            if d["g"].get("uids") != "auto":
                r["uids"] = ("dict",) + tuple(kv for kv in r["uids"][1:] if kv[0].lower() != "'auto'")
        return s
    before = strip(Snap(mat))
    hist = complete_material_history(mat)
    op()
    snap = Snap(mat)
    compare(before, strip(Snap(mat)), "the material after its history was listed")
    require(isinstance(hist, list), "the history is a %s", type(hist))
    by = {}
    for m, o in snap.objs.items():
        require(dict(o.uids), "object %s has no identifier after its history was listed", m)
        for sc, u in o.uids.items():
            by[sc.lower(), u] = m
    seen = []
    for h in hist:
        require(type(h) is dict and isinstance(h.get("type"), str), "an entry of the history is %r", h)
        us = {by.get((sc.lower(), u)) for sc, u in h.get("uids", {}).items()}
        require(len(us) == 1 and None not in us, "the uids %r of a dictionary identify %s", h.get("uids"), us)
        m = us.pop()
        o = snap.objs[m]
        require(h["type"] == type(o).typ and dict(h["uids"]) == dict(o.uids), "object %s listed as %s %s", m, h["type"], h["uids"])
        seen.append(m)
        text = h.get("notes", h.get("description"))
        require(text == m, "the dictionary of %s has notes %r", m, text)
        for r in refs(h):
            require("uids" not in r, "object %s contains an object: %r", m, r)
            if r["type"] == "link_by_uid":
                require((r["scope"].lower(), r["id"]) in by or "ext" in d and (r["scope"], r["id"]) == ("Ext", "away"), "object %s has a link to nothing: %r", m, r)
        json.loads(json.dumps(h))
    require(sorted(seen) == sorted(snap.objs), "the history lists %s, connected are %s", sorted(seen), sorted(snap.objs))
    sc, u = next(iter(mat.uids.items()))
    st, r = attempt(gj.loads, json.dumps({"context": ordered(hist, by), "object": {"type": "link_by_uid", "scope": sc, "id": u}}))
    require(st == "ok", "the history, each object after those it refers to, does not load: %r", r)
    compare(snap, Snap(r), "the loaded history")
    r = gj.GEMDJson().raw_loads(json.dumps(hist))
    op()
    require(len(r) == len(hist) and [type(x) for x in r] == [type(snap.objs[m]) for m in seen], "the list of dictionaries loads as %r", r)
    return d.get("ext"), tuple(sorted(seen)), repr(sorted(map(repr, d["g"].items())))


def run_case(d):
    if "deep" in d:
        return case_deep(d)
    if "bad" in d:
        return case_bad(d)
    return case_hist(d) if d.get("hist") else case_inst(d)


def size(g):
    return sum(g["proc"]) + g["n"] + len(g["edges"]) + sum(g.get("meas", []))


def inst_cases(maxn, maxe, rich):
    for c in topology_cases(maxn, maxe, ["S"], ["mixed"], [0], rich=rich):
        for k in range(size(c["g"])):
            for blank in (0, 1):
                yield dict(c, root=k, blank=blank)


def explore(ex):
    th = ex.thorough
    ex.enumerate("instances of every spec graph", inst_cases(3, 3 if not th else 4, False), chunk=128)
    if th:
        ex.enumerate("four materials", inst_cases(4, 3, False), chunk=128)
    ex.enumerate("instances of content-rich specs",
                 (dict(c, root=k, blank=b) for c in itertools.chain(content_cases(["S", "RS"], ["none", "all", "mixed", "auto"], [0]), odd_cases(["S", "RS"], [0])) for k in range(24) for b in (0, 1)),
                 chunk=64)
    ex.enumerate("deep graphs", ({"deep": x} for x in ([400, 1, ""], [700, 1, "tail"], [400, 1, "ing"], [350, 2, ""], [500, 1, "ring"])), chunk=1)
    ex.enumerate("non-specs", ({"bad": b} for b in BAD), serial=True)
    lv = ["R", "RS"]
    ex.enumerate("histories of every run graph",
                 (dict(c, root=k, hist=1) for c in topology_cases(2 if not th else 3, 2 if not th else 3, lv, ["none", "mixed"] if not th else ["none", "mixed", "auto"], [0], rich=False)
                  for k in range(40) if is_material_index(c["g"], k)), chunk=16)
    ex.enumerate("histories with content",
                 (dict(c, root=k, hist=1) for c in itertools.chain(content_cases(["R", "RS", "RRS"], ["none", "mixed", "case", "auto"], [0],
                                                                bnds=(3,) if not th else range(8)), odd_cases(["R", "RS"], [0])) for k in range(48)
                  if is_material_index(c["g"], k)), chunk=8)


    ex.enumerate("histories with a dangling link",
                 (dict(c, root=k, hist=1, ext=e) for c in content_cases(["R", "RS"], ["none", "mixed"], [0], tmpls=(1,), dresses=(0,))
                  for k in range(40) if is_material_index(c["g"], k) for e in range(3 + size(c["g"]) * len(c["g"]["level"]))), chunk=8)
    ex.enumerate("histories with a dangling link, no templates",
                 (dict(c, root=k, hist=1, ext=e) for c in content_cases(["R", "RS"], ["none", "mixed"], [0], tmpls=(0,), dresses=(0,))
                  for k in range(40) if is_material_index(c["g"], k) for e in range(size(c["g"]) * len(c["g"]["level"]))), chunk=8)
    ex.enumerate_hashed("instances and histories under other hash seeds", itertools.chain(
        inst_cases(2, 2, False),
        (dict(c, root=k, hist=1) for c in hash_cases(ex.thorough) for k in range(40) if is_material_index(c["g"], k))), HASH_SEEDS[ex.thorough])


def is_material_index(g, k):
    """creation order of build(): templates, spec layer, run layer(s); keep the indices of material runs"""
    t = 0
    if g.get("tmpl", 0):
        t = 3 + (3 if g["tmpl"] >= 2 else 0)
    layer = size(g)
    off = t + (layer if "S" in g["level"] else 0)
    nruns = g["level"].count("R")
    k -= off
    if k < 0 or k >= layer * nruns:
        return False
    k %= layer
    return sum(g["proc"]) <= k < sum(g["proc"]) + g["n"]
