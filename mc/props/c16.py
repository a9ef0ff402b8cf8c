"""C16: building helpers create exactly the documented objects and links.

Reference: a model of the whole world - every object that exists, with the value of each of its fields - advanced by the
documented effect of each helper; after every call the real objects reachable from anywhere must be exactly those.
"""
import itertools

from mc.core import attempt, fingerprint, require
from mc.graphs import ENTITY, PLAIN, cname, is_entity

ID = "C16"
BOUNDS = {"quick": "make_node: 3 names x 3 process names x 3 process templates x 3 material templates; add_edge: 8 values of each fraction pairwise and 2 of each "
                   "jointly x 9 absolute quantities x 5 units x 3 names, 9 x 8 endpoint shapes, at levels ignore, warning and fatal; add_measurement: every sequence "
                   "of up to 3 of 7 attributes (2 unacceptable) in 4 containers x names x templates; add_attribute: 13 targets x 9 templates x primitive and "
                   "ready-made values x 4 prior contents; make_attribute and make_value: every bounds class x 23 primitives; all histories of up to 3 helper calls "
                   "(29 events) and up to 4 of 10 core events over three nodes",
          "thorough": "histories of up to 4 calls, 5 core events; all fractions jointly"}
ASSUMPTIONS = ["strings given for numbers and integers given for fractions are not documented and not explored"]

DEFAULT = {"uids": {}, "tags": [], "notes": None, "description": None, "file_links": [], "sample_type": "unknown", "labels": []}


def default(f):
    if f in ("properties", "conditions", "parameters", "measurements", "ingredients"):
        return []
    return DEFAULT.get(f)


def enc(x):
    n = cname(x)
    if n in ENTITY:
        return ("@", n, id(x))
    if n in PLAIN:
        return (n,) + tuple(enc(getattr(x, f)) for f in PLAIN[n])
    if isinstance(x, (list, tuple)):
        return ["list"] + [enc(y) for y in x]
    if hasattr(x, "keys"):
        return {k: enc(x[k]) for k in x}
    if isinstance(x, str):
        return str(getattr(x, "value", x))
    if isinstance(x, (set, frozenset)):
        return sorted(x)
    if isinstance(x, float):
        return ("float", repr(x))
    return x


class World:
    def __init__(self):
        self.objs = {}     # id -> (object, expected fields)

    def new(self, o, cls, **fields):
        require(cname(o) == cls, "a %s where a %s is documented", cname(o), cls)
        require(id(o) not in self.objs, "the %s is not a new object", cls)
        self.objs[id(o)] = (o, fields)
        return o

    def own(self, o):
        """take an object of the set-up as it is"""
        if id(o) in self.objs or not is_entity(o):
            return o
        fields = {}
        self.objs[id(o)] = (o, fields)
        for f in sum(ENTITY[cname(o)], []):
            v = getattr(o, f)
            if enc(v) != enc(default(f)):
                fields[f] = list(v) if isinstance(v, list) else v
                for x in (v if isinstance(v, list) else [v]):
                    for y in (x if isinstance(x, (list, tuple)) else [x]):
                        self.own(y)
        return o

    def get(self, o):
        return self.objs[id(o)][1]

    def push(self, o, f, x):
        self.get(o)[f] = self.get(o).get(f, []) + [x]

    def check(self, what):
        for o, fields in list(self.objs.values()):
            fwd, back = ENTITY[cname(o)]
            for f in fwd + back:
                v = getattr(o, f)
                require(enc(v) == enc(fields.get(f, default(f))), "%s: %s %r has %s = %r, expected %r", what, cname(o), o.name, f, v,
                        fields.get(f, default(f)))
                for x in ents(v):
                    require(id(x) in self.objs, "%s: %s %r refers by %s to an undocumented %s", what, cname(o), o.name, f, cname(x))
            for f, v in fields.items():
                if f not in fwd + back:
                    require(getattr(o, f) == v, "%s: %s has %s = %r, expected %r", what, cname(o), f, getattr(o, f), v)


def ents(v):
    if is_entity(v):
        yield v
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from ents(x)
    elif cname(v) in ("Property", "Condition", "Parameter"):
        yield from ents(v.template)
    elif cname(v) == "PropertyAndConditions":
        yield from ents(v.property)
        yield from ents(list(v.conditions))


# --------------------------------------------------------------------------------------------------- the helpers, modelled

def do_node(w, name, **kw):
    from gemd.builders import make_node
    r = make_node(name, **kw)
    p = kw.get("process_name")
    if p is None:
        pt = kw.get("process_template")
        p = name if pt is None else pt.name
    require(cname(r) == "MaterialRun", "make_node returns a %s", cname(r))
    for x, what in ((r.spec, "spec"), (r.process, "process"), (r.process and r.process.spec, "process spec"), (r.spec and r.spec.process, "spec's process")):
        require(x is not None, "the node has no %s", what)
    ms, pr, ps = r.spec, r.process, r.process.spec
    w.new(ps, "ProcessSpec", name=p, template=kw.get("process_template"), output_material=ms)
    w.new(pr, "ProcessRun", name=p, spec=ps, output_material=r)
    w.new(ms, "MaterialSpec", name=name, process=ps, template=kw.get("material_template"))
    w.new(r, "MaterialRun", name=name, process=pr, spec=ms)
    require(r.template is kw.get("material_template") and pr.template is kw.get("process_template"), "the templates do not show on the runs")
    return r


FRACS = ("mass_fraction", "number_fraction", "volume_fraction")


def do_edge(w, a, b, **kw):
    """returns the ingredient, or None when refused; the caller says whether it must be"""
    from gemd.builders import add_edge
    from gemd.entity.value import NominalReal
    st, i = attempt(add_edge, a, b, **kw)
    if st == "exc":
        return None, i
    require(cname(i) == "IngredientRun", "add_edge returns a %s", cname(i))
    s = i.spec
    q = {f: NominalReal(kw[f], "") if isinstance(kw[f], float) else kw[f] for f in FRACS if kw.get(f) is not None}
    aq = kw.get("absolute_quantity")
    if aq is not None:
        q["absolute_quantity"] = NominalReal(aq, kw["absolute_units"]) if isinstance(aq, (int, float)) else aq
    name = a.name if kw.get("name") is None else kw["name"]
    w.new(s, "IngredientSpec", name=name, process=b.spec.process, material=a.spec)
    w.new(i, "IngredientRun", name=name, spec=s, process=b.process, material=a, **q)
    if is_entity(b.spec.process):
        w.push(b.spec.process, "ingredients", s)
    if is_entity(b.process):
        w.push(b.process, "ingredients", i)
    return i, None


KIND = {"Property": "properties", "Condition": "conditions", "Parameter": "parameters"}


def do_meas(w, mat, attributes=None, container=list, **kw):
    from gemd.builders import add_measurement
    if attributes is not None:
        kw["attributes"] = container(attributes)
    st, r = attempt(add_measurement, mat, **kw)
    name, t = kw.get("name"), kw.get("template")
    bad = (name is None and t is None) or any(cname(x) not in KIND for x in attributes or [])
    if bad:
        require(st == "exc" and isinstance(r, ValueError), "add_measurement is not refused: %r", r)
        return None
    require(st == "ok", "add_measurement is refused: %r", r)
    require(cname(r) == "MeasurementRun", "add_measurement returns a %s", cname(r))
    if name is None:
        name = t.name
    s = w.new(r.spec, "MeasurementSpec", name=name, template=t)
    fields = {}
    for x in attributes or []:
        fields.setdefault(KIND[cname(x)], []).append(x)
    w.new(r, "MeasurementRun", name=name, spec=s, material=mat, **fields)
    w.push(mat, "measurements", r)
    for k, xs in fields.items():
        require(all(a is b for a, b in zip(getattr(r, k), xs)), "the %s are not the ones given", k)
    return r


ATTR_OF = {"PropertyTemplate": "Property", "ConditionTemplate": "Condition", "ParameterTemplate": "Parameter"}
ACCEPTS = {"MaterialSpec": ("Property", "Condition"), "ProcessSpec": ("Condition", "Parameter"), "ProcessRun": ("Condition", "Parameter"),
           "MeasurementSpec": ("Condition", "Parameter"), "MeasurementRun": ("Property", "Condition", "Parameter")}


def expected_value(v, bounds):
    """class and fields of the value for a primitive, None if the bounds are unknown"""
    b = cname(bounds)
    if b == "RealBounds":
        return ("NominalReal", {"nominal": float(v), "units": bounds.default_units})
    if b == "IntegerBounds":
        return ("NominalInteger", {"nominal": v})
    if b == "CategoricalBounds":
        return ("NominalCategorical", {"category": v})
    if b == "CompositionBounds":
        return ("EmpiricalFormula", {"formula": v})
    if b == "MolecularStructureBounds":
        return ("InChI", {"inchi": v}) if v.startswith("InChI=") else ("Smiles", {"smiles": v})
    return None


SUITS = {"RealBounds": (int, float), "IntegerBounds": (int,), "CategoricalBounds": (str,), "CompositionBounds": (str,), "MolecularStructureBounds": (str,)}


def check_value(got, v, bounds, what):
    cls, fields = expected_value(v, bounds)
    require(cname(got) == cls, "%s: a %s for %s", what, cname(got), cname(bounds))
    for f, x in fields.items():
        y = getattr(got, f)
        require(y == x and (f == "units" or isinstance(x, str) or repr(float(x)) == repr(float(y))), "%s: %s is %r, expected %r", what, f, y, x)


def check_attr(got, template, value):
    from gemd.entity.value.base_value import BaseValue
    require(cname(got) == ATTR_OF[cname(template)], "a %s for a %s", cname(got), cname(template))
    require(got.name == template.name, "the attribute is called %r, its template %r", got.name, template.name)
    require(got.template is template, "the template of the attribute is %r", got.template)
    if isinstance(value, BaseValue):
        require(got.value is value, "the value is %r, not the one given", got.value)
    else:
        check_value(got.value, value, template.bounds, "the value")
    require(got.notes is None and list(got.file_links) == [] and str(getattr(got.origin, "value", got.origin)) == "unknown", "the attribute has content of its own")


def do_attr(w, target, template, value):
    from gemd.builders import add_attribute
    st, r = attempt(add_attribute, target, template, value)
    c = ATTR_OF.get(cname(template))
    ok = c is not None and c in ACCEPTS.get(cname(target), ())
    if ok and cname(target) == "MaterialSpec" and c == "Condition":
        ok = bool(w.get(target).get("properties"))
    if not ok:
        require(st == "exc" and isinstance(r, ValueError), "add_attribute of a %s to a %s is not refused: %r", c, cname(target), r)
        return None
    require(st == "ok", "add_attribute of a %s to a %s is refused: %r", c, cname(target), r)
    check_attr(r, template, value)
    if cname(target) == "MaterialSpec":
        from gemd.entity.attribute import PropertyAndConditions
        if c == "Property":
            w.push(target, "properties", PropertyAndConditions(r))
            require(len(target.properties) and target.properties[-1].property is r, "the property returned is not the one added")
        else:
            old = w.get(target)["properties"]
            last = PropertyAndConditions(old[-1].property, list(old[-1].conditions) + [r])
            w.get(target)["properties"] = old[:-1] + [last]
            require(len(target.properties[-1].conditions) and target.properties[-1].conditions[-1] is r, "the condition returned is not the one added")
    else:
        w.push(target, KIND[c], r)
        require(getattr(target, KIND[c])[-1] is r, "the attribute returned is not the one added")
    return r


# --------------------------------------------------------------------------------------------------------------- the cases

def templates(i=0):
    from gemd.entity.bounds import CategoricalBounds, CompositionBounds, IntegerBounds, MolecularStructureBounds, RealBounds
    from gemd.entity.template import (ConditionTemplate, MaterialTemplate, MeasurementTemplate, ParameterTemplate, ProcessTemplate,
                                      PropertyTemplate)
    b = {"real": RealBounds(-10, 10, "cm"), "real0": RealBounds(0, 100, ""), "int": IntegerBounds(-10, 10), "cat": CategoricalBounds(["a", "b", "C"]),
         "comp": CompositionBounds(["H", "O", "C", "Al"]), "mol": MolecularStructureBounds(), "user": user_bounds()}
    t = {}
    for k, x in b.items():
        t["prop", k] = PropertyTemplate("tp " + k, bounds=x)
        t["cond", k] = ConditionTemplate("tc " + k, bounds=x)
        t["param", k] = ParameterTemplate("tm " + k, bounds=x)
    t["pt"] = ProcessTemplate("proc tmpl")
    t["mt"] = MaterialTemplate("mat tmpl")
    t["et"] = MeasurementTemplate("meas tmpl")
    return t


_USER = []


def user_bounds():
    if not _USER:
        from gemd.entity.bounds.base_bounds import BaseBounds

        class MyBounds(BaseBounds, typ="mc_c16_bounds"):
            def contains(self, bounds):
                return True

            def union(self, *others):
                return self

            def update(self, *others):
                pass
        _USER.append(MyBounds)
    return _USER[0]()


def case_node(d):
    n, pn, pt, mt = d["node"]
    w = World()
    t = templates()
    kw = {}
    if pn != "omit":
        kw["process_name"] = pn
    for f, c, k in (("process_template", pt, "pt"), ("material_template", mt, "mt")):
        if c == "none":
            kw[f] = None
        elif c == "t":
            kw[f] = w.own(t[k])
    r = do_node(w, n, **kw)
    w.check("make_node")
    r2 = do_node(w, n, **kw)
    w.check("a second make_node")
    return tuple(d["node"])


def real(code):
    from gemd.entity.value import NominalReal, NormalReal, UniformReal
    return {"none": None, "f0": 0.0, "f.25": 0.25, "f1": 1.0, "nom": NominalReal(0.5, ""), "uni": UniformReal(0.1, 0.2, ""), "norm": NormalReal(0.5, 0.1, ""),
            "int2": 2, "int0": 0, "f2.5": 2.5, "nomkg": NominalReal(3, "kg"), "unikg": UniformReal(1, 2, "g"),
            "f1.5": 1.5, "fneg": -0.5, "nomneg": NominalReal(-1, "kg"), "int-1": -1, "str": "0.5", "cat": "x", "obj": object()}[code]


FQ = ["none", "f0", "f.25", "f1", "nom", "uni", "norm", "f1.5", "fneg"]
AQ = ["none", "f0", "int0", "int2", "f2.5", "nomkg", "unikg", "nomneg", "int-1"]
AU = ["omit", "none", "kg", "g/2 mL", ""]


def case_edge(d):
    m, n, v, a, u, name, level = d["edge"]
    kw = {}
    for f, c in zip(FRACS, (m, n, v)):
        if c != "omit":
            kw[f] = real(c)
    kw["absolute_quantity"] = real(a)
    if u != "omit":
        kw["absolute_units"] = None if u == "none" else u
    if name != "omit":
        kw["name"] = name
    w = World()
    x, y = do_node(w, "in"), do_node(w, "out")
    number = a in ("f0", "int0", "int2", "f2.5", "int-1")
    units = u not in ("omit", "none")
    bad = number != units
    out_of_range = any(c in ("f1.5", "fneg") for c in (m, n, v)) or a in ("nomneg", "int-1") or (number and u == "")
    from gemd.entity.bounds_validation import WarningLevel, validation_level
    with validation_level({"ignore": WarningLevel.IGNORE, "warning": WarningLevel.WARNING, "fatal": WarningLevel.FATAL}[level]):
        i, e = do_edge(w, x, y, **kw)
    if bad:
        require(isinstance(e, ValueError), "absolute units %r with quantity %r are not refused", u, a)
    elif out_of_range and level == "fatal":
        require(e is not None, "an impossible quantity is not refused at the fatal level")
    else:
        require(e is None, "add_edge is refused: %r", e)
    w.check("add_edge" + (" (refused)" if e is not None else ""))
    return tuple(d["edge"]), e is None


def endpoint(shape, w, nm):
    from gemd.entity.link_by_uid import LinkByUID
    from gemd.entity.object import MaterialRun, MaterialSpec, ProcessRun, ProcessSpec
    t = templates()
    full = lambda **kw: MaterialRun(nm, **kw)
    ps = lambda: ProcessSpec("ps")
    return {
        "full": lambda: full(spec=MaterialSpec("s", process=ps(), template=t["mt"]), process=ProcessRun("p")),
        "other": lambda: full(spec=MaterialSpec("s", process=ps()), process=ProcessRun("p", spec=ProcessSpec("unrelated"))),
        "speclink": lambda: full(spec=LinkByUID("id", "x"), process=ProcessRun("p")),
        "nospec": lambda: full(process=ProcessRun("p")),
        "noprocess": lambda: full(spec=MaterialSpec("s", process=ps())),
        "nospecprocess": lambda: full(spec=MaterialSpec("s"), process=ProcessRun("p")),
        "bare": lambda: full(),
        "speconly": lambda: full(spec=MaterialSpec("s")),
    }[shape]()


SHAPES = ["full", "other", "speclink", "nospec", "noprocess", "nospecprocess", "bare", "speconly"]


def case_ends(d):
    a, b = d["ends"]
    w = World()
    x = w.own(endpoint(a, w, "in"))
    y = x if b == "same" else w.own(endpoint(b, w, "out"))
    b = a if b == "same" else b
    i, e = do_edge(w, x, y, mass_fraction=0.5)
    ok = b in ("full", "other") and a not in ("nospec", "bare")
    require((e is None) == ok, "add_edge from a %s to a %s material: %r", a, b, e)
    if not ok:
        require(isinstance(e, ValueError), "add_edge is refused with %r", e)
    w.check("add_edge")
    if ok:
        i2, e = do_edge(w, x, y, name="again")
        require(e is None, "a second edge is refused: %r", e)
        w.check("a second add_edge")
    return tuple(d["ends"])


def attribute(code, t):
    from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
    from gemd.entity.value import NominalInteger
    return {"P": lambda: Property("a", value=NominalInteger(1)), "Q": lambda: Property("a", value=NominalInteger(1), template=t["prop", "int"]),
            "C": lambda: Condition("a", value=NominalInteger(1)), "M": lambda: Parameter("a", notes="n"), "N": lambda: Parameter("b"),
            "pc": lambda: PropertyAndConditions(Property("a")), "str": lambda: "density"}[code]()


def gen(xs):
    return (x for x in xs)


def case_meas(d):
    name, tmpl, codes, cont = d["meas"]
    w = World()
    t = templates()
    mat = do_node(w, "mat")
    do_meas(w, mat, name="first", attributes=[attribute("P", t)])
    w.check("add_measurement")
    kw = {}
    if name != "omit":
        kw["name"] = name
    if tmpl != "omit":
        kw["template"] = w.own(t["et"]) if tmpl else None
    xs = None if codes is None else [attribute(c, t) for c in codes]
    for x in xs or []:
        w.own(getattr(x, "template", None))
    r = do_meas(w, mat, attributes=xs, container={"list": list, "tuple": tuple, "gen": gen, "iter": iter}[cont], **kw)
    w.check("add_measurement" + ("" if r is not None else " (refused)"))
    return name, tmpl, tuple(codes or ["-"]), cont


def case_value(d):
    from gemd.builders import make_attribute, make_value
    v, b, kind = d["value"]
    t = templates()
    tm = t[kind, b]
    st, r = attempt(make_value, v, tm.bounds)
    if b == "user":
        require(st == "exc" and isinstance(r, ValueError), "make_value accepts unknown bounds: %r", r)
        st, r = attempt(make_attribute, tm, v)
        require(st == "exc" and isinstance(r, ValueError), "make_attribute accepts unknown bounds: %r", r)
        return b, repr(v)
    if type(v) not in SUITS[cname(tm.bounds)] or b == "comp" and v not in FORMULAS:
        def unsuited(st, got, how):
            """a primitive that does not suit the bounds is refused; it never turns into another one"""
            require(st == "exc" or any(isinstance(y, type(v)) and y == v or isinstance(v, float) and y == v and not isinstance(y, str)
                                       for y in (getattr(got, f, None) for f in FIELDS)), "%s(%r, %s) gives %r", how, v, b, got)
        unsuited(st, r, "make_value")
        st, a = attempt(make_attribute, tm, v)
        unsuited(st, getattr(a, "value", None), "make_attribute")
        return "unsuited", b, repr(v)
    require(st == "ok", "make_value(%r, %s) is refused: %r", v, b, r)
    check_value(r, v, tm.bounds, "make_value(%r, %s)" % (v, b))
    st, a = attempt(make_attribute, tm, v)
    require(st == "ok", "make_attribute is refused: %r", a)
    check_attr(a, tm, v)
    return kind, b, repr(v)


FORMULAS = ["C", "Al2O3", "H2O"]
FIELDS = ["nominal", "category", "formula", "inchi", "smiles"]
PRIMS = ["1", "2.5", "nan", 2.5, -0.5, 1e300, "H2O", 1, 5, 0, -3, 1.5, -0.0, 2.0, 5.0, "a", "C", "Al2O3", "C1CC1", "InChI=1/CH4/h1H4", "inchi=x", "1/InChI=", "h"]


def case_attr_kind(d):
    """make_attribute with things that are no attribute template; ready-made values are kept"""
    from gemd.builders import make_attribute
    from gemd.entity.link_by_uid import LinkByUID
    from mc.graphs import VALUES, value
    k, v = d["mk"]
    t = templates()
    bad = {"mt": t["mt"], "pt": t["pt"], "none": None, "link": LinkByUID("id", "x"), "str": "t", "class": type(t["prop", "int"])}
    if k in bad:
        st, r = attempt(make_attribute, bad[k], 1)
        require(st == "exc" and isinstance(r, ValueError), "make_attribute(%s) is not refused: %r", k, r)
        return k
    val = value(v)
    tm = t[k, d["b"]]
    st, r = attempt(make_attribute, tm, val)
    require(st == "ok", "make_attribute with a ready-made %s is refused: %r", v, r)
    check_attr(r, tm, val)
    return k, v, d["b"]


def target(code, w):
    from gemd.entity.object import (IngredientRun, IngredientSpec, MaterialRun, MaterialSpec, MeasurementRun, MeasurementSpec, ProcessRun, ProcessSpec)
    t = templates()
    return {"ms": lambda: MaterialSpec("x"), "mr": lambda: MaterialRun("x"), "ps": lambda: ProcessSpec("x"), "pr": lambda: ProcessRun("x"),
            "is": lambda: IngredientSpec("x"), "ir": lambda: IngredientRun(spec=IngredientSpec("x")), "es": lambda: MeasurementSpec("x"),
            "er": lambda: MeasurementRun("x"), "pt": lambda: t["pt"], "et": lambda: t["et"], "prop": lambda: t["prop", "int"],
            "none": lambda: None, "str": lambda: "x"}[code]()


def prim(b):
    return {"real": 2, "real0": 2.5, "int": 3, "cat": "b", "comp": "H2O", "mol": "InChI=1/CH4/h1H4", "user": 1}[b]


def case_add(d):
    from mc.graphs import value
    tg, kind, b, ready, prior = d["add"]
    w = World()
    t = templates()
    x = target(tg, w)
    if is_entity(x):
        w.own(x)
    for k in prior:
        tm = w.own(t[{"P": "prop", "C": "cond", "M": "param"}[k], "cat"])
        if is_entity(x):
            do_attr(w, x, tm, "a")
            w.check("add_attribute before")
    tm = w.own(t[kind, b]) if b in ("real", "real0", "int", "cat", "comp", "mol") else t[kind, b] if b else t[kind]
    v = value(ready) if ready else prim(b) if b else 1
    if b == "user" and not ready:
        from gemd.builders import add_attribute
        st, r = attempt(add_attribute, x, tm, v)
        require(st == "exc" and isinstance(r, ValueError), "add_attribute accepts unknown bounds: %r", r)
    else:
        if b == "user":
            w.own(tm)
        do_attr(w, x, tm, v)
    w.check("add_attribute")
    return tuple(map(repr, d["add"]))


# ------------------------------------------------------------------------------------------------------------ histories

EV = [["node", "A", None], ["node", "B", "pt"], ["node", "A", "x"]] + [["edge", i, j, q] for i in range(3) for j in range(3) if i != j for q in (0, 1)] + \
    [["edge", 0, 0, 0], ["badedge", 0, 1], ["badedge", 1, 0]] + [["meas", i, c] for i in (0, 1) for c in (None, "PC")] + [["badmeas", 0]] + \
    [["attr", t, k] for t in ("spec", "process", "meas", "run") for k in ("prop", "cond", "param")]


def case_history(h):
    t = templates()
    w = World()
    nodes, meas = [do_node(w, "N0"), do_node(w, "N1", material_template=w.own(t["mt"]))], []
    trace = []
    for n, e in enumerate(h[1:]):
        k = e[0]
        if k == "node":
            if len(nodes) >= 3:
                trace.append("full")
                continue
            kw = {"process_template": w.own(t["pt"])} if e[2] == "pt" else {"process_name": e[2]} if e[2] else {}
            nodes.append(do_node(w, e[1], **kw))
        elif k in ("edge", "badedge"):
            if e[1] >= len(nodes) or e[2] >= len(nodes):
                return ("absent",)
            kw = {} if k == "edge" and not e[3] else {"mass_fraction": 0.5, "absolute_quantity": 2.5, "name": "ing"}
            if k == "edge" and kw:
                kw["absolute_units"] = "kg"
            i, ex = do_edge(w, nodes[e[1]], nodes[e[2]], **kw)
            require((ex is None) == (k == "edge"), "add_edge: %r", ex)
        elif k == "meas":
            meas.append(do_meas(w, nodes[e[1]], name="m%d" % len(meas), attributes=None if e[2] is None else [attribute(c, t) for c in e[2]]))
        elif k == "badmeas":
            require(do_meas(w, nodes[e[1]], name="m", attributes=[attribute("C", t), attribute("pc", t)]) is None, "accepted")
        elif k == "attr":
            if e[1] == "meas" and not meas:
                return ("absent",)
            x = {"spec": nodes[0].spec, "process": nodes[0].process, "meas": meas[-1] if meas else None, "run": nodes[1]}[e[1]]
            tm = w.own(t[e[2], "cat"])
            do_attr(w, x, tm, "b")
        w.check("step %d %s" % (n + 1, e))
        trace.append(1)
    # canonical: the model, objects numbered in order of creation (templates by name)
    num = {i: k for k, i in enumerate(w.objs)}

    def canon(x):
        if isinstance(x, tuple) and x[:1] == ("@",):
            return ("@", num[x[2]])
        if isinstance(x, (tuple, list)):
            return tuple(canon(y) for y in x)
        if isinstance(x, dict):
            return tuple(sorted((k, repr(canon(v))) for k, v in x.items()))
        return x
    return tuple((cname(o), tuple(sorted((f, repr(canon(enc(v)))) for f, v in fields.items()))) for o, fields in w.objs.values()), \
        fingerprint([o for o, _ in w.objs.values()])


def run_case(d):
    if isinstance(d, list):
        return case_history(d)
    for k, f in (("node", case_node), ("edge", case_edge), ("ends", case_ends), ("meas", case_meas), ("value", case_value), ("mk", case_attr_kind),
                 ("add", case_add)):
        if k in d:
            return f(d)


def edge_cases(th):
    levels = ["ignore", "warning", "fatal"]
    if th:
        yield from (list(x) for x in itertools.product(FQ, FQ, FQ, AQ[::2], AU[:3], ["omit"], levels))
    names = ["omit", None, "ing", ""]
    for lv in levels:
        for pair in ((0, 1), (0, 2), (1, 2)):
            for a, b in itertools.product(FQ, FQ):
                f = ["none"] * 3
                f[pair[0]], f[pair[1]] = a, b
                for aq, u in (("none", "omit"), ("int2", "kg")):
                    yield f + [aq, u, "omit", lv]
        for f in itertools.product(["omit", "f.25"], ["none", "uni"], ["omit", "f1"]):
            for aq, u, n in itertools.product(AQ, AU, names):
                yield list(f) + [aq, u, n, lv]


def explore(ex):
    th = ex.thorough
    ex.enumerate("make_node", ({"node": list(x)} for x in itertools.product(["N", "n 2", "\u00e9"], ["omit", None, "P", ""], ["omit", "none", "t"], ["omit", "none", "t"])))
    ex.enumerate("add_edge quantities", ({"edge": x} for x in edge_cases(th)), chunk=64)
    ex.enumerate("add_edge endpoints", ({"ends": [a, b]} for a in SHAPES for b in SHAPES + ["same"]))
    codes = ["P", "Q", "C", "M", "N", "pc", "str"]
    ex.enumerate("add_measurement", ({"meas": [n, t, list(c) if c is not None else None, k]}
                                     for c in [None] + [c for r in range(4 if not th else 5) for c in itertools.product(codes, repeat=r)]
                                     for n, t, k in [("m", 0, "list"), ("omit", 1, "list"), (None, "omit", "list"), ("m", 1, "gen"), ("m", "omit", "tuple"),
                                                     (None, 1, "iter"), ("", 1, "list")]))
    ex.enumerate("make_value and make_attribute", ({"value": [v, b, k]} for v in PRIMS for b in ("real", "real0", "int", "cat", "comp", "mol", "user")
                                                   for k in ("prop", "cond", "param")))
    from mc.graphs import VALUES
    ex.enumerate("make_attribute kinds", itertools.chain(
        ({"mk": [k, None]} for k in ("mt", "pt", "none", "link", "str", "class")),
        ({"mk": [k, v], "b": b} for k in ("prop", "cond", "param") for v in VALUES for b in ("real", "int", "cat", "comp", "mol", "user"))))
    tg = ["ms", "mr", "ps", "pr", "is", "ir", "es", "er", "pt", "et", "prop", "none", "str"]
    kinds = [(k, b) for k in ("prop", "cond", "param") for b in ("real", "real0", "int", "cat", "comp", "mol", "user")] + [("mt", None), ("pt", None), ("et", None)]
    ex.enumerate("add_attribute", ({"add": [t, k, b, r, p]} for t in tg for k, b in kinds for r in (None, "uniform", "cat", "disc")
                                   for p in ([], ["P"], ["P", "P"], ["P", "C", "P", "C"], ["C", "M", "P", "P"])))
    ex.bfs("histories", ["start"], lambda s: EV, 3 if not th else 4)
    core = [["node", "A", "x"], ["edge", 0, 1, 0], ["edge", 0, 1, 1], ["edge", 2, 0, 1], ["badedge", 0, 1], ["meas", 0, "PC"], ["badmeas", 0],
            ["attr", "spec", "prop"], ["attr", "spec", "cond"], ["attr", "meas", "prop"]]
    ex.bfs("longer histories of core events", ["start"], lambda s: core, 4 if not th else 5)
