"""C05: template and quantity constraints are enforced by every assignment route.

Three spaces: attributes (value x template x order), objects (class and field x how the object has a template x template entries x how
the attribute names its template x value x route x level) and ingredient quantities.  The oracle is a table of which values conform.
"""
from mc.core import LogCapture, attempt, fingerprint, op, require

ID = "C05"
BOUNDS = {"quick": "attributes: 3 classes x 8 kinds of bounds x every listed value in and out x 7 routes x 3 levels; objects: 11 attribute fields of 6 "
                   "classes x 9 ways to have a template x 8 template entry lists x 7 bindings x 5 values x 25 routes x 3 levels; quantities: 4 "
                   "fields x 2 classes x 31 values x 3 routes x 3 levels; template restrictions: 7 field kinds x 9 restrictions x 7 routes; histories to depth 5 of level changes and assignments of 8 quantities to the 4 fields, of attribute values, templates and template bounds (to closure), and of attributes, templates, specs, edited restrictions and levels on objects",
          "thorough": "quick with all histories to closure on every field, and all pairs of routes in succession on one object for every second value"}
ASSUMPTIONS = ["assigning a template or spec to an object later does not re-check attributes already present",
               "attributes without a value are outside the claim", "membership of single values is decided by a table (general membership is C04)"]

LEVELS = [0, 1, 2]     # ignore, warning, fatal


def kinds():
    """bounds code -> (bounds factory, conforming values, other values)"""
    from gemd.entity.bounds import (CategoricalBounds, CompositionBounds, IntegerBounds, MolecularStructureBounds, RealBounds)
    from gemd.entity.value import (DiscreteCategorical, EmpiricalFormula, InChI, NominalCategorical, NominalComposition, NominalInteger,
                                   NominalReal, NormalReal, Smiles, UniformInteger, UniformReal)
    length_in = [lambda: NominalReal(1, "m"), lambda: NominalReal(10, "m"), lambda: NominalReal(5, "m"), lambda: NominalReal(500, "cm"),
                 lambda: UniformReal(1, 10, "m"), lambda: UniformReal(200, 300, "cm"), lambda: NormalReal(5, 1, "m")]
    length_out = [lambda: NominalReal(0.5, "m"), lambda: NominalReal(11, "m"), lambda: NominalReal(5, "cm"), lambda: NominalReal(5, "kg"), lambda: NominalReal(5, ""),
                  lambda: UniformReal(0.5, 2, "m"), lambda: UniformReal(2, 11, "m"), lambda: NormalReal(50, 1, "m"), lambda: NominalInteger(5),
                  lambda: NominalCategorical("a")]
    return {
        "real": (lambda: RealBounds(1, 10, "m"), length_in, length_out),
        "realnone": (lambda: RealBounds(0, 1, ""), [lambda: NominalReal(0, ""), lambda: NominalReal(1, ""), lambda: NominalReal(50, "percent")],
                     [lambda: NominalReal(2, ""), lambda: NominalReal(200, "percent"), lambda: NominalReal(1, "m"), lambda: NominalReal(1, "count")]),
        "int": (lambda: IntegerBounds(1, 5), [lambda: NominalInteger(1), lambda: NominalInteger(5), lambda: UniformInteger(2, 3)],
                [lambda: NominalInteger(0), lambda: NominalInteger(6), lambda: UniformInteger(0, 3), lambda: UniformInteger(3, 6), lambda: NominalReal(3, "")]),
        "cat": (lambda: CategoricalBounds(["a", "b"]), [lambda: NominalCategorical("a"), lambda: DiscreteCategorical({"a": .5, "b": .5})],
                [lambda: NominalCategorical("A"), lambda: DiscreteCategorical({"a": .5, "c": .5}), lambda: NominalComposition({"a": 1})]),
        "comp": (lambda: CompositionBounds(["a", "b"]), [lambda: NominalComposition({"a": 2}), lambda: NominalComposition({"a": 1, "b": 1})],
                 [lambda: NominalComposition({"a": 1, "c": 1}), lambda: NominalCategorical("a")]),
        "form": (lambda: CompositionBounds(EmpiricalFormula.all_elements()), [lambda: EmpiricalFormula("H2O"), lambda: NominalComposition({"Ag": 1, "Zr": 2})],
                 [lambda: NominalComposition({"a": 1})]),
        "mol": (lambda: MolecularStructureBounds(), [lambda: Smiles("CCO"), lambda: InChI("InChI=1S/CH4/h1H4")], [lambda: NominalCategorical("CCO")]),
        "emptycat": (lambda: CategoricalBounds([]), [], [lambda: NominalCategorical("a")]),
    }


def level(n):
    from gemd.entity.bounds_validation import WarningLevel
    return {0: WarningLevel.IGNORE, 1: WarningLevel.WARNING, 2: WarningLevel.FATAL}[n]


def with_level(n):
    from gemd.entity.bounds_validation import validation_level
    return validation_level(level(n))


def judge(lv, conforms, res, warned, what):
    """res is attempt()'s result.  Returns whether the new state should have been stored."""
    if conforms or lv == 0:
        require(res[0] == "ok", "%s refused a %s value at level %s: %r", what, "conforming" if conforms else "non-conforming", lv, res[1])
        require(not warned, "%s logged a warning for a %s value at level %s", what, "conforming" if conforms else "non-conforming", lv)
        return True
    if lv == 1:
        require(res[0] == "ok", "%s refused a non-conforming value at the warning level: %r", what, res[1])
        require(warned, "%s stored a non-conforming value at the warning level without a warning", what)
        return True
    require(res[0] == "exc", "%s accepted a non-conforming value at the fatal level", what)
    require(isinstance(res[1], ValueError), "%s refused with %r, not a ValueError", what, res[1])
    return False


# ------------------------------------------------------------------------------------------------------------- attributes

A_ROUTES = ["ctor", "value", "template", "value-over", "template-over", "template-then-value-kw", "retry"]


def attribute_case(cls_name, bcode):
    from gemd.entity import attribute, template
    from gemd.entity.bounds import RealBounds, CategoricalBounds
    cls = getattr(attribute, cls_name)
    tcls = getattr(template, cls_name + "Template")
    mk, good, bad = kinds()[bcode]
    seen = set()
    other = tcls("other", bounds=CategoricalBounds(["zz"]) if bcode != "cat" else RealBounds(0, 1, "m"))
    for conf, makers in ((True, good), (False, bad)):
        for make in makers:
            for route in A_ROUTES:
                if route in ("value-over", "template-over", "retry") and not good:
                    continue
                for lv in LEVELS:
                    tmpl = tcls("t", bounds=mk())
                    v = make()
                    what = f"{cls_name} {route} {v} in {tmpl.bounds}"
                    with with_level(lv), LogCapture() as log:
                        if route == "ctor":
                            res = attempt(cls, "x", template=tmpl, value=v)
                            if judge(lv, conf, res, len(log), what):
                                require(res[1].value is v and res[1].template is tmpl, "%s: not stored", what)
                            seen.add((route, lv, conf, len(log)))
                            continue
                        if route == "template-then-value-kw":
                            a = cls("x", template=tmpl)
                            before = (None, tmpl)
                            res = attempt(setattr, a, "value", v)
                            after = (v, tmpl)
                        elif route == "value":
                            a = cls("x")
                            a.template = tmpl
                            before = (None, tmpl)
                            res = attempt(setattr, a, "value", v)
                            after = (v, tmpl)
                        elif route == "template":
                            a = cls("x")
                            a.value = v
                            before = (v, None)
                            res = attempt(setattr, a, "template", tmpl)
                            after = (v, tmpl)
                        elif route == "value-over":
                            g = good[0]()
                            a = cls("x", template=tmpl, value=g)
                            before = (g, tmpl)
                            res = attempt(setattr, a, "value", v)
                            after = (v, tmpl)
                        elif route == "template-over":
                            a = cls("x", value=v)
                            with with_level(0):
                                a.template = other
                            before = (v, other)
                            res = attempt(setattr, a, "template", tmpl)
                            after = (v, tmpl)
                        else:       # retry: the same assignment a second time behaves the same
                            g = good[-1]()
                            a = cls("x", template=tmpl, value=g)
                            attempt(setattr, a, "value", v)
                            with with_level(0):
                                a.value = g
                            log.records.clear()
                            before = (g, tmpl)
                            res = attempt(setattr, a, "value", v)
                            after = (v, tmpl)
                        exp = after if judge(lv, conf, res, len(log), what) else before
                        require(a.value is exp[0] and a.template is exp[1], "%s: attribute holds %r, expected %r", what, (a.value, a.template), exp)
                        seen.add((route, lv, conf, len(log)))
                        # detaching is never refused
                        a.value = None
                        a.template = None
                        require(a.value is None and a.template is None, "%s: detaching failed", what)
    return sorted(seen)


# ---------------------------------------------------------------------------------------------------------------- objects

FIELDS = [("ProcessSpec", "conditions"), ("ProcessSpec", "parameters"), ("ProcessRun", "conditions"), ("ProcessRun", "parameters"),
          ("MeasurementSpec", "conditions"), ("MeasurementSpec", "parameters"), ("MeasurementRun", "properties"),
          ("MeasurementRun", "conditions"), ("MeasurementRun", "parameters"), ("MaterialSpec", "properties")]
PLACES = ["direct", "late", "swap", "reset", "link", "none", "spec", "speclate", "speclink", "specnone", "spectlink", "specswap"]
ENTRIES = ["[]", "[T]", "[T:R]", "[U:Q,T:R]", "[L]", "[L:R]", "[U]", "[U,T]"]
BINDS = ["T", "T-copy", "link", "link2", "name", "other", "U"]
VALUES = ["in R", "in T", "out", "cm", "kg"]
ROUTES = ["ctor1", "ctorlist", "ctorlast", "single", "list", "tuple", "iter", "listlast", "append", "extend", "extendlast", "extenditer", "iadd", "iaddheld",
          "insert0", "insertend", "insertneg", "set0", "set-1", "slice0", "sliceall", "sliceempty", "slicestep", "sliceiter", "appendheld"]


def places(cls):
    return PLACES[6:] if cls.endswith("Run") else PLACES[:6]


def conforming(entry, bind, value, effective):
    """what the object's template demands of the attribute: decided by hand"""
    if not effective or entry == "[]":
        return True
    inT = value in ("in R", "in T", "cm")
    inR = value in ("in R", "cm")
    if bind in ("T", "T-copy", "link", "link2"):
        has = {"[T]": inT, "[T:R]": inR, "[U:Q,T:R]": inR, "[U,T]": inT, "[U]": True}
        if entry in has:
            return has[entry]
        # entries that are links (scope "a"): equal to the template, its copy and the same link; not to a link of another scope
        if bind == "link2" or entry == "[L]":
            return True
        return inR
    if bind == "name":
        return {"[T]": inT, "[T:R]": inR, "[U:Q,T:R]": inR, "[U,T]": inT}.get(entry, True)
    if bind == "U":      # U allows kg up to 10; Q allows up to 1
        return {"[U:Q,T:R]": False, "[U]": value == "kg", "[U,T]": value == "kg"}.get(entry, True)
    return True


def object_case(cls_name, field, place, entry, bind, value, pairs=False):
    from gemd.entity import attribute, object as objects, template
    from gemd.entity.attribute import PropertyAndConditions
    from gemd.entity.bounds import RealBounds
    from gemd.entity.link_by_uid import LinkByUID
    from gemd.entity.value import NominalReal
    kind = {"properties": "Property", "conditions": "Condition", "parameters": "Parameter"}[field]
    acls, atcls = getattr(attribute, kind), getattr(template, kind + "Template")
    otcls = getattr(template, cls_name.replace("Run", "").replace("Spec", "") + "Template")
    scls = getattr(objects, cls_name.replace("Run", "Spec"))
    cls = getattr(objects, cls_name)
    run = cls_name.endswith("Run")

    T = atcls("T", bounds=RealBounds(0, 100, "m"), uids={"a": "1", "b": "2"})
    U = atcls("U", bounds=RealBounds(0, 10, "kg"), uids={"a": "3"})
    L = LinkByUID("a", "1")
    R = RealBounds(0, 10, "m")
    Q = RealBounds(0, 1, "kg")
    entries = {"[]": [], "[T]": [T], "[T:R]": [(T, R)], "[U:Q,T:R]": [(U, Q), (T, R)], "[L]": [L], "[L:R]": [(L, R)], "[U]": [U], "[U,T]": [U, T]}
    ot = otcls("o", **{field: entries[entry]}, uids={"a": "9"})
    loose = otcls("loose", uids={"a": "8"})
    strict = otcls("strict", **{field: [(T, RealBounds(99, 100, "m"))]}, uids={"a": "7"})

    def val(v):
        return {"in R": lambda: NominalReal(5, "m"), "in T": lambda: NominalReal(50, "m"), "out": lambda: NominalReal(500, "m"),
                "cm": lambda: NominalReal(900, "cm"), "kg": lambda: NominalReal(5, "kg")}[v]()

    def mk(b, v, nm=None):
        with with_level(0):
            tm = {"T": T, "T-copy": atcls("T", bounds=RealBounds(0, 100, "m"), uids={"a": "1", "b": "2"}), "link": LinkByUID("a", "1"),
                  "link2": LinkByUID("b", "2"), "U": U}.get(b)
            a = acls(nm or ("T" if b == "name" else "zz"), template=tm, value=val(v))
            if cls_name == "MaterialSpec":
                a = PropertyAndConditions(a)
        return a

    effective = place in ("direct", "late", "swap", "spec", "speclate", "specswap")
    conf = conforming(entry, bind, value, effective)
    wrap = (lambda d: d)

    def construct(extra):
        """kwargs giving the object its template at construction"""
        if place in ("direct",):
            return dict(template=ot, **extra)
        if place == "link":
            return dict(template=LinkByUID("a", "9"), **extra)
        if place == "none":
            return dict(extra)
        if place == "spec":
            return dict(spec=scls("s", template=ot), **extra)
        if place == "speclink":
            return dict(spec=LinkByUID("a", "10"), **extra)
        if place == "specnone":
            return dict(spec=scls("s"), **extra)
        if place == "spectlink":
            return dict(spec=scls("s", template=LinkByUID("a", "9")), **extra)
        return None

    def fresh(prior):
        """an object with conforming prior attributes, in its final template situation"""
        if place == "late":
            o = cls("o", **{field: prior})
            o.template = ot
        elif place == "swap":
            with with_level(0):
                o = cls("o", template=strict, **{field: prior})
            o.template = ot
        elif place == "reset":
            o = cls("o", template=ot, **{field: prior})
            o.template = None
        elif place == "speclate":
            o = cls("o", **{field: prior})
            o.spec = scls("s", template=ot)
        elif place == "specswap":
            s = scls("s", template=strict)
            with with_level(0):
                o = cls("o", spec=s, **{field: prior})
            s.template = ot      # the template of the spec in force changes
        else:
            o = cls("o", **construct({field: prior}))
        return o

    seen = set()
    first = [None]
    routes = ROUTES if not pairs else [(a, b) for a in ROUTES[3:] for b in ROUTES[3:]]
    for route in routes:
        for lv in LEVELS:
            before_route, last = (None, route) if not pairs else route
            g1, g2, g3 = mk("other", "in R", "p1"), mk("other", "in R", "p2"), mk("other", "in R", "p3")
            b = mk(bind, value)
            what = f"{cls_name}.{field} route {route} place {place} entries {entry} binding {bind} value '{value}' level {lv}"
            if last.startswith("ctor"):
                given = {"ctor1": b, "ctorlist": [b, g1], "ctorlast": [g1, g2, b]}[last]
                kw = construct({field: given})
                if kw is None:
                    continue
                with with_level(lv), LogCapture() as log:
                    res = attempt(cls, "o", **kw)
                if judge(lv, conf, res, len(log), what):
                    exp = given if isinstance(given, list) else [given]
                    got = list(getattr(res[1], field))
                    require(len(got) == len(exp) and all(x is y for x, y in zip(got, exp)), "%s: stored %r", what, got)
                seen.add((last, lv, conf, len(log)))
                continue
            o = fresh([g1, g2])
            if before_route:
                with with_level(lv):
                    attempt(apply, o, field, before_route, mk(bind, value), g3)
                with with_level(0):
                    setattr(o, field, [g1, g2])
            before = list(getattr(o, field))
            fields = snapshot(o, field)
            with with_level(lv), LogCapture() as log:
                res = attempt(apply, o, field, last, b, g3)
            stored = judge(lv, conf, res, len(log), what)
            exp = expected(last, before, b, g3) if stored else before
            got = list(getattr(o, field))
            require(len(got) == len(exp) and all(x is y for x, y in zip(got, exp)), "%s: list is %r, expected %r", what, [x.name for x in got], [x.name for x in exp])
            require(snapshot(o, field) == fields, "%s: other fields changed", what)
            seen.add((last, lv, conf, len(log)))
    return (cls_name, field, place, entry, bind, value, conf, sorted(seen))


def snapshot(o, field):
    return {k: (tuple(id(x) for x in v) if isinstance(v, list) else id(v)) for k, v in vars(o).items() if k not in (field, "_" + field)}


def apply(o, field, route, b, g):
    lst = getattr(o, field)
    if route == "single":
        setattr(o, field, b)
    elif route == "list":
        setattr(o, field, [b, g])
    elif route == "listlast":
        setattr(o, field, [g, b])
    elif route == "tuple":
        setattr(o, field, (b, g))
    elif route == "iter":
        setattr(o, field, iter([g, b]))
    elif route in ("append", "appendheld"):
        if route == "append":
            getattr(o, field).append(b)
        else:
            lst.append(b)
    elif route == "extend":
        lst.extend([b, g])
    elif route == "extendlast":
        lst.extend([g, b])
    elif route == "extenditer":
        lst.extend(x for x in (g, b))
    elif route == "iadd":
        if field == "conditions":
            o.conditions += [g, b]
        elif field == "parameters":
            o.parameters += [g, b]
        else:
            o.properties += [g, b]
    elif route == "iaddheld":
        lst += [g, b]
    elif route == "insert0":
        lst.insert(0, b)
    elif route == "insertend":
        lst.insert(len(lst), b)
    elif route == "insertneg":
        lst.insert(-1, b)
    elif route == "set0":
        lst[0] = b
    elif route == "set-1":
        lst[-1] = b
    elif route == "slice0":
        lst[0:1] = [b]
    elif route == "sliceall":
        lst[:] = [g, b]
    elif route == "sliceempty":
        lst[1:1] = [b, g]
    elif route == "slicestep":
        lst[::2] = [b]
    elif route == "sliceiter":
        lst[1:] = iter([g, b])
    else:
        raise RuntimeError(route)


def expected(route, before, b, g):
    x, y = before
    return {"single": [b], "list": [b, g], "listlast": [g, b], "tuple": [b, g], "iter": [g, b], "append": [x, y, b], "appendheld": [x, y, b],
            "extend": [x, y, b, g], "extendlast": [x, y, g, b], "extenditer": [x, y, g, b], "iadd": [x, y, g, b], "iaddheld": [x, y, g, b],
            "insert0": [b, x, y], "insertend": [x, y, b], "insertneg": [x, b, y], "set0": [b, y], "set-1": [x, b], "slice0": [b, y],
            "sliceall": [g, b], "sliceempty": [x, b, g, y], "slicestep": [b, y], "sliceiter": [x, g, b]}[route]


# ------------------------------------------------------------------------------------------------------------- quantities

FRACTIONS = ["mass_fraction", "volume_fraction", "number_fraction"]


def quantities():
    """(value maker, conforming fraction, conforming absolute quantity)"""
    from gemd.entity.value import NominalReal, NormalReal, UniformReal
    N, U, G = NominalReal, UniformReal, NormalReal
    return [(lambda: N(0, ""), 1, 0), (lambda: N(1, ""), 1, 0), (lambda: N(0.5, ""), 1, 0), (lambda: N(-0.0, ""), 1, 0), (lambda: N(-0.1, ""), 0, 0),
            (lambda: N(1.0000001, ""), 0, 0), (lambda: N(-1e-300, ""), 0, 0), (lambda: N(2, ""), 0, 0), (lambda: N(50, "percent"), 1, 0), (lambda: N(101, "percent"), 0, 0),
            (lambda: N(-1, "percent"), 0, 0), (lambda: N(300, "ppm"), 1, 0), (lambda: N(0.5, "kg"), 0, 1), (lambda: N(0, "kg"), 0, 1), (lambda: N(-0.5, "kg"), 0, 0),
            (lambda: N(-1e-300, "kg"), 0, 0), (lambda: N(1e308, "kg"), 0, 1), (lambda: N(5, "g/m"), 0, 1), (lambda: N(0.5, "count"), 0, 1), (lambda: N(-2, "count"), 0, 0),
            (lambda: N(1, "m/cm"), 0, 0), (lambda: N(0.005, "m/cm"), 1, 0), (lambda: U(0, 1, ""), 1, 0), (lambda: U(0.5, 1.5, ""), 0, 0), (lambda: U(-0.5, 0.5, ""), 0, 0),
            (lambda: U(1, 2, "kg"), 0, 1), (lambda: U(-1, 1, "kg"), 0, 0), (lambda: U(-2, -1, ""), 0, 0), (lambda: G(0.5, 0.1, ""), 1, 0), (lambda: G(1.5, 0.1, ""), 0, 0),
            (lambda: G(5, 0.1, "l"), 0, 1)]


def quantity_case(cls_name, field, i):
    from gemd.entity import object as objects
    from gemd.entity.value import NominalCategorical, NominalInteger, NominalReal
    cls = getattr(objects, cls_name)
    make, frac, absq = quantities()[i]
    conf = bool(frac if field in FRACTIONS else absq)
    good = NominalReal(0.25, "") if field in FRACTIONS else NominalReal(3, "kg")
    others = {f: NominalReal(0.125, "") for f in FRACTIONS if f != field}
    if field != "absolute_quantity":
        others["absolute_quantity"] = NominalReal(7, "g")
    args = {} if cls_name == "IngredientRun" else {"name": "n"}
    names = FRACTIONS + ["absolute_quantity"]
    seen = set()
    for route in ("ctor", "assign", "over", "again"):
        for lv in LEVELS:
            v = make()
            what = f"{cls_name}.{field} = {v} by {route} at level {lv}"
            if route == "ctor":
                with with_level(lv), LogCapture() as log:
                    res = attempt(cls, **args, **others, **{field: v})
                if judge(lv, conf, res, len(log), what):
                    require(all(getattr(res[1], n) is dict(others, **{field: v})[n] for n in names), "%s: not stored", what)
            else:
                with with_level(2):
                    o = cls(**args, **others)
                    prior = None
                    if route == "over":
                        setattr(o, field, good)
                        prior = good
                with with_level(lv), LogCapture() as log:
                    if route == "again":
                        attempt(setattr, o, field, v)
                        setattr(o, field, None)
                        log.records.clear()
                    res = attempt(setattr, o, field, v)
                    exp = v if judge(lv, conf, res, len(log), what) else prior
                    require(all(getattr(o, n) is dict(others, **{field: exp})[n] for n in names), "%s: quantities are %r", what, [getattr(o, n) for n in names])
                    for bad in (NominalCategorical("a"), NominalInteger(1), 0.5, "0.5"):
                        r2 = attempt(setattr, o, field, bad)
                        require(r2[0] == "exc" and isinstance(r2[1], TypeError), "%s: %r was not refused", what, bad)
                        require(getattr(o, field) is exp, "%s: refusal changed the quantity", what)
            seen.add((route, lv, conf, len(log)))
    return (cls_name, field, conf, sorted(seen))


# -------------------------------------------------------------------------------------------------- restrictions of templates

T_FIELDS = [("ProcessTemplate", "conditions"), ("ProcessTemplate", "parameters"), ("MeasurementTemplate", "properties"), ("MeasurementTemplate", "conditions"),
            ("MeasurementTemplate", "parameters"), ("MaterialTemplate", "properties")]
RESTRICT = [("none", 1), ("same", 1), ("inside", 1), ("cm", 1), ("lower", 0), ("upper", 0), ("cmout", 0), ("kg", 0), ("cat", 0)]


def restriction_case(cls_name, field, rcode, ok):
    from gemd.entity import template
    from gemd.entity.bounds import CategoricalBounds, RealBounds
    from gemd.entity.link_by_uid import LinkByUID
    kind = {"properties": "Property", "conditions": "Condition", "parameters": "Parameter"}[field]
    atcls = getattr(template, kind + "Template")
    cls = getattr(template, cls_name)
    T = atcls("T", bounds=RealBounds(1, 10, "m"))
    G = atcls("G", bounds=RealBounds(1, 10, "m"))
    bnd = {"none": None, "same": RealBounds(1, 10, "m"), "inside": RealBounds(2, 3, "m"), "cm": RealBounds(200, 900, "cm"), "lower": RealBounds(0, 3, "m"),
           "upper": RealBounds(2, 11, "m"), "cmout": RealBounds(2, 3, "cm"), "kg": RealBounds(2, 3, "kg"), "cat": CategoricalBounds(["a"])}[rcode]
    seen = set()
    for container in (tuple, list):
        for lv in LEVELS:
            for route in ("ctor", "ctorlast", "assign", "append", "extend", "set0", "slice", "insert"):
                b = container((T, bnd))
                what = f"{cls_name}.{field} restriction {rcode} by {route} at level {lv}"
                with with_level(lv):
                    if route.startswith("ctor"):
                        given = [b] if route == "ctor" else [G, b]
                        res = attempt(cls, "x", **{field: given})
                        o = res[1]
                        exp = [(T, bnd)] if route == "ctor" else [(G, None), (T, bnd)]
                        before = None
                    else:
                        o = cls("x", **{field: [G]})
                        before = [(G, None)]
                        lst = getattr(o, field)
                        fn, exp = {"assign": (lambda: setattr(o, field, [b]), [(T, bnd)]), "append": (lambda: lst.append(b), [(G, None), (T, bnd)]),
                                   "extend": (lambda: lst.extend([b]), [(G, None), (T, bnd)]), "set0": (lambda: lst.__setitem__(0, b), [(T, bnd)]),
                                   "slice": (lambda: lst.__setitem__(slice(0, 0), [b]), [(T, bnd), (G, None)]),
                                   "insert": (lambda: lst.insert(0, b), [(T, bnd), (G, None)])}[route]
                        res = attempt(fn)
                if ok:
                    require(res[0] == "ok", "%s refused: %r", what, res[1])
                else:
                    require(res[0] == "exc" and isinstance(res[1], ValueError), "%s was not refused with ValueError: %r", what, res[1])
                    if before is None:
                        continue
                    exp = before
                got = [tuple(x) for x in getattr(o, field)]
                require(len(got) == len(exp) and all(g[0] is e[0] and g[1] is e[1] for g, e in zip(got, exp)), "%s: entries are %r", what, got)
                seen.add((route, lv, ok))
                # links cannot be checked against the template's bounds
                o2 = cls("x", **{field: [(LinkByUID("a", "1"), bnd)]})
                require(getattr(o2, field)[0][1] is bnd, "restriction on a link not stored")
    return (cls_name, field, rcode, sorted(seen))


# ------------------------------------------------------------------------------------------------------------- histories
# Everything above starts from a fresh object; here the level, the values, the templates and their restrictions change in any order.

Q_POOL = ["0.5", "2", "-1", "5kg", "-5kg", "0kg", "none", "same"]


def quantity_history(setup, evs):
    from gemd.entity import object as objects
    from gemd.entity.bounds_validation import set_validation_level
    from gemd.entity.value import NominalReal
    cls = getattr(objects, setup[1])
    o = cls(**({} if setup[1] == "IngredientRun" else {"name": "n"}))
    pool = {"0.5": NominalReal(0.5, ""), "2": NominalReal(2, ""), "-1": NominalReal(-1, ""), "5kg": NominalReal(5, "kg"), "-5kg": NominalReal(-5, "kg"),
            "0kg": NominalReal(0, "kg"), "none": None}
    good = {True: ("0.5", "none"), False: ("5kg", "0kg", "none")}
    names = FRACTIONS + ["absolute_quantity"]
    held = {f: "none" for f in names}
    lv = 0
    set_validation_level(level(0))
    for ev in evs:
        if ev[0] == "lv":
            lv = ev[1]
            set_validation_level(level(lv))
            continue
        f, code = ev[1], ev[2]
        if code == "same":          # give back what it holds: still an assignment, still checked
            code = held[f]
        with LogCapture() as log:
            res = attempt(setattr, o, f, pool[code])
        if judge(lv, code in good[f in FRACTIONS], res, len(log), f"{setup} {evs}: {f} = {code} at level {lv}"):
            held[f] = code
        require(all(getattr(o, n) is pool[held[n]] for n in names), "%s %s: quantities are %r, expected %r", setup, evs, [getattr(o, n) for n in names], held)
    return (setup[1], lv, tuple(held.values()), fingerprint(o))


def quantity_events(setup):
    return [["lv", n] for n in LEVELS] + [["q", f, c] for f in setup[2] for c in Q_POOL]


V_POOL = {"5": (5, "m"), "50": (50, "m"), "500": (500, "m"), "kg": (5, "kg"), "none": None}
T_POOL = ["T", "W", "U", "link", "none"]


def attribute_history(setup, evs):
    from gemd.entity import attribute, template
    from gemd.entity.bounds import RealBounds
    from gemd.entity.bounds_validation import set_validation_level
    from gemd.entity.link_by_uid import LinkByUID
    from gemd.entity.value import NominalReal
    atcls = getattr(template, setup[1] + "Template")
    rng = {"T": [0, 100, "m"], "W": [50, 60, "m"], "U": [0, 10, "kg"]}
    tm = {k: atcls(k, bounds=RealBounds(*v)) for k, v in rng.items()}
    tm.update(link=LinkByUID("a", "1"), none=None)
    pool = {k: v and NominalReal(*v) for k, v in V_POOL.items()}
    a = getattr(attribute, setup[1])("x")
    v, t, lv = "none", "none", 0
    set_validation_level(level(0))

    def fits(v, t):
        if v == "none" or t in ("link", "none"):
            return True
        return V_POOL[v][1] == rng[t][2] and rng[t][0] <= V_POOL[v][0] <= rng[t][1]
    for ev in evs:
        if ev[0] == "lv":
            lv = ev[1]
            set_validation_level(level(lv))
            continue
        if ev[0] == "bounds":
            rng["T"] = [0, ev[1], "m"]
            tm["T"].bounds = RealBounds(0, ev[1], "m")
            continue
        nv, nt = (ev[1] if ev[1] != "same" else v, t) if ev[0] == "value" else (v, ev[1] if ev[1] != "same" else t)
        with LogCapture() as log:
            res = attempt(setattr, a, ev[0], pool[nv] if ev[0] == "value" else tm[nt])
        if judge(lv, fits(nv, nt), res, len(log), f"{setup} {evs}"):
            v, t = nv, nt
        require(a.value is pool[v] and a.template is tm[t], "%s %s: holds %r and %r, expected %s and %s", setup, evs, a.value, a.template, v, t)
    return (setup[1], lv, v, t, rng["T"][1], fingerprint(a, tm))


def attribute_events(setup):
    return [["lv", n] for n in LEVELS] + [["value", v] for v in list(V_POOL) + ["same"]] + [["template", t] for t in T_POOL + ["same"]] + [["bounds", 100], ["bounds", 20]]


A_POOL = {"T5": ("T", "T", 5), "T50": ("T", "T", 50), "nameT50": ("T", None, 50), "U5": ("z", "U", 5)}
H_ROUTES = ["append", "assign", "set0", "sliceall"]


def object_history(setup, evs):
    from gemd.entity import attribute, object as objects, template
    from gemd.entity.attribute import PropertyAndConditions
    from gemd.entity.bounds import RealBounds
    from gemd.entity.bounds_validation import set_validation_level
    from gemd.entity.link_by_uid import LinkByUID
    from gemd.entity.value import NominalReal
    _, cls_name, field = setup
    kind = {"properties": "Property", "conditions": "Condition", "parameters": "Parameter"}[field]
    acls, atcls = getattr(attribute, kind), getattr(template, kind + "Template")
    base = cls_name.replace("Run", "").replace("Spec", "")
    otcls, scls, cls = getattr(template, base + "Template"), getattr(objects, base + "Spec"), getattr(objects, cls_name)
    run = cls_name.endswith("Run")
    set_validation_level(level(0))
    T, U = atcls("T", bounds=RealBounds(0, 100, "m")), atcls("U", bounds=RealBounds(0, 1, "kg"))
    pool = {k: acls(nm, template={"T": T, "U": U}.get(t), value=NominalReal(x, "kg" if t == "U" else "m")) for k, (nm, t, x) in A_POOL.items()}
    if cls_name == "MaterialSpec":
        pool = {k: PropertyAndConditions(x) for k, x in pool.items()}
    limits = {"A": {"T": (0, 10)}, "B": {"T": (20, 100), "U": (0, 1)}}
    ots = {"A": otcls("A", **{field: [(T, RealBounds(0, 10, "m"))]}), "B": otcls("B", **{field: [U, (T, RealBounds(20, 100, "m"))]}),
           "link": LinkByUID("a", "9"), "none": None}
    specs = {"s": scls("s"), "t": scls("t", template=ots["B"])} if run else {}
    o = cls("o", spec=specs["s"]) if run else cls("o")
    spec, tmpl, lst, lv = "s", {"s": "none", "t": "B"}, [], 0
    for ev in evs:
        k = ev[0]
        if k == "lv":
            lv = ev[1]
            set_validation_level(level(lv))
        elif k == "template":      # of the object, or of the first spec
            (specs["s"] if run else o).template = ots[ev[1]]
            tmpl["s"] = ev[1]
        elif k == "spec":
            o.spec = specs.get(ev[1])
            spec = ev[1]
        elif k == "restrict":      # the object template itself is edited
            getattr(ots["A"], field)[0] = (T, RealBounds(0, ev[1], "m"))
            limits["A"]["T"] = (0, ev[1])
        elif k == "clear":
            getattr(o, field).clear()
            lst = []
        else:
            code = ev[1]
            if (k == "append" and len(lst) >= 2) or (k == "set0" and not lst):
                continue
            now = tmpl.get(spec, "none")
            lim = limits.get(now, {}).get("U" if code == "U5" else "T")
            ok = lim is None or lim[0] <= A_POOL[code][2] <= lim[1]
            L = getattr(o, field)
            f, new = {"append": (lambda: L.append(pool[code]), lst + [code]), "assign": (lambda: setattr(o, field, [pool[code]]), [code]),
                      "set0": (lambda: L.__setitem__(0, pool[code]), [code] + lst[1:]),
                      "sliceall": (lambda: L.__setitem__(slice(None), [pool[code]]), [code])}[k]
            with LogCapture() as log:
                res = attempt(f)
            if judge(lv, ok, res, len(log), f"{setup} {evs}: {k} {code} with template {now} at level {lv}"):
                lst = new
        got = list(getattr(o, field))
        require(len(got) == len(lst) and all(x is pool[c] for x, c in zip(got, lst)), "%s %s: holds %s, expected %s", setup, evs, got, lst)
    return (tuple(setup), lv, spec, repr(tmpl), tuple(lst), repr(limits), fingerprint(o, specs, ots, pool))


def object_events(setup):
    run = setup[1].endswith("Run")
    return [["lv", n] for n in LEVELS] + [["template", t] for t in (("A", "none") if run else ("A", "B", "link", "none"))] \
        + ([["spec", s] for s in ("s", "t", "none")] if run else []) + [["restrict", n] for n in (10, 60)] + [["clear"]] \
        + [[r, c] for r in H_ROUTES for c in A_POOL]


def run_history(hist):
    from gemd.entity.bounds_validation import get_validation_level, set_validation_level
    old = get_validation_level()
    try:
        return {"qhist": quantity_history, "ahist": attribute_history, "ohist": object_history}[hist[0][0]](hist[0], hist[1:])
    finally:
        set_validation_level(old)


def history_events(setup):
    return {"qhist": quantity_events, "ahist": attribute_events, "ohist": object_events}[setup[0]](setup)


def run_case(case):
    if isinstance(case[0], list):
        return run_history(case)
    kind, args = case[0], case[1:]
    op()
    if kind == "attr":
        return attribute_case(*args)
    if kind == "obj":
        return object_case(*args)
    if kind == "pairs":
        return object_case(*args, pairs=True)
    if kind == "qty":
        return quantity_case(*args)
    return restriction_case(*args)


def explore(ex):
    ex.enumerate("attributes", (["attr", c, b] for c in ("Property", "Condition", "Parameter") for b in
                                ("real", "realnone", "int", "cat", "comp", "form", "mol", "emptycat")), chunk=1)
    ex.enumerate("objects", (["obj", c, f, p, e, b, v] for c, f in FIELDS for p in places(c) for e in ENTRIES for b in BINDS for v in VALUES), chunk=24)
    ex.enumerate("quantities", (["qty", c, f, i] for c in ("IngredientRun", "IngredientSpec") for f in FRACTIONS + ["absolute_quantity"]
                                for i in range(len(quantities()))), chunk=8)
    ex.enumerate("restrictions", (["restr", c, f, r, ok] for c, f in T_FIELDS for r, ok in RESTRICT), chunk=4)
    th = ex.thorough
    ex.bfs("quantity histories", [["qhist", c, FRACTIONS + ["absolute_quantity"]] for c in ("IngredientRun", "IngredientSpec")],
           history_events, 12 if th else 5)
    ex.bfs("attribute histories", [["ahist", c] for c in ("Property", "Condition", "Parameter")], history_events, 12)
    ex.bfs("object histories", [["ohist", c, f] for c, f in (FIELDS if th else [FIELDS[0], FIELDS[3], FIELDS[6], FIELDS[9]])], history_events, 12 if th else 5)
    if ex.thorough:
        ex.enumerate("pairs of routes", (["pairs", c, f, p, e, b, v] for c, f in FIELDS for p in places(c) for e in ENTRIES for b in BINDS
                                         for v in ("in T", "kg")), chunk=4)
