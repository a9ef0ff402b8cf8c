"""C19: type names map to classes and dictionaries to objects unambiguously.

Registry histories define real classes, so every history runs in its own forked process.
Model: a list of classes (ancestors, declared type string) and a mapping from type string to the class that holds it.
"""
import itertools
import json
import types

from mc.core import LogCapture, attempt, isolated, op, require
from mc.graphs import BOUNDS as GB, VALUES, bounds, value

ID = "C19"
BOUNDS = {"quick": "all histories of up to 3 class definitions (parent: root, file link, performed source, any earlier class or pair of earlier classes; type string: "
                   "none, two fresh, two taken ones; with or without an extra field, two fresh names being interchangeable), checking mapping and loading after each; dictionary "
                   "round trip of instances of all 41 registered types with every single field dropped and every unknown field added (fresh, special and resembling known ones), also nested; "
                   "all hierarchies of 3 classes with fields declared as skipped; all classes with 1 or 2 of 12 unusually named fields, stored plainly or behind a property; unknown type strings "
                   "at every position of 6 structures",
          "thorough": "4 class definitions (one of them without extra field variants)"}
ASSUMPTIONS = []

ROOTS = {"D": None, "F": "file_link", "P": "performed_source"}
TYPS = [None, "qa", "qb", "file_link", "performed_source"]


def fields_for(base):
    return ["performed_by", "performed_date"] if base == "P" else ["filename", "url"]


def define(parents, typ, fields, extra):
    """a class statement:  class X(*parents, typ=typ)"""
    ns = {}
    sig = ", ".join(f + "=None" for f in fields) + (", *, y=None" if extra else "")
    body = "\n".join(f"    self.{f} = {f}" for f in fields + (["y"] if extra else []))
    exec(f"def __init__(self, {sig}):\n{body}", ns)
    kw = {} if typ is None else {"typ": typ}
    return types.new_class("X", tuple(parents), kw, lambda d: d.update(__init__=ns["__init__"]))


def run_registry(hist):
    from gemd.entity.dict_serializable import DictSerializable
    from gemd.entity.file_link import FileLink
    from gemd.entity.source import PerformedSource
    import gemd.json as gj
    real = {"D": DictSerializable, "F": FileLink, "P": PerformedSource}
    base_map = DictSerializable.class_mapping
    mapping = {"file_link": "F", "performed_source": "P"}
    classes = {}    # idx -> dict(cls, anc, typ, fields, extra)
    others = {k: v for k, v in base_map.items() if k not in mapping}

    def get(p):
        return real[p] if isinstance(p, str) else classes[p]["cls"]

    def anc(p):
        return ({p} if p == "D" else {p, "D"}) if isinstance(p, str) else classes[p]["anc"] | {p}

    def base(p):
        return p if isinstance(p, str) else classes[p]["base"]

    def typ_of(p):
        return ROOTS[p] if isinstance(p, str) else classes[p]["typ"]

    for n, ev in enumerate(hist):
        parents, typ, extra = ev
        if any(isinstance(p, int) and p not in classes for p in parents):
            return ("void",)       # an earlier definition was refused: this event is not applicable
        bs = {base(p) for p in parents} - {"D"}
        if len(bs) > 1:
            return ("void",)
        b = bs.pop() if bs else "D"
        fields = fields_for(b)
        ancestors = set().union(*[anc(p) for p in parents])
        refuse = typ is not None and typ in mapping and mapping[typ] not in ancestors
        k, c = attempt(define, [get(p) for p in parents], typ, fields, extra)
        if k == "exc" and isinstance(c, TypeError) and len(parents) > 1:
            return ("void",)       # inconsistent method resolution order: Python refuses
        require((k == "exc") is refuse, "step %d %r: %s", n, ev, repr(c) if k == "exc" else "accepted")
        if refuse:
            require(isinstance(c, ValueError), "refused with %r", c)
        else:
            inherited = next((typ_of(p) for p in parents if typ_of(p) is not None), None)
            if typ is None and len(parents) > 1:
                inherited = getattr(c, "typ")
                require(inherited in [typ_of(p) or NotImplementedError for p in parents], "type string %r inherited from nowhere", inherited)
                inherited = None if inherited is NotImplementedError else inherited
            classes[n] = {"cls": c, "anc": ancestors, "typ": typ if typ is not None else inherited, "base": b, "fields": fields, "extra": extra}
            if typ is not None:
                mapping[typ] = n
        # the mapping
        for seen in [DictSerializable.class_mapping, FileLink.class_mapping] + [x["cls"].class_mapping for x in classes.values()]:
            op()
            require(all(seen[t] is get(p) for t, p in mapping.items()) and all(seen[t] is v for t, v in others.items())
                    and set(seen) == set(mapping) | set(others), "step %d %r: class mapping is wrong", n, ev)
            seen["qa"] = int    # a copy
            seen.pop("file_link", None)
        if n < len(hist) - 1:
            continue               # the shorter history is a case of its own
        # objects
        for p in ["F", "P"] + list(classes):
            t = typ_of(p)
            if t is None:
                continue
            cls = get(p)
            require(cls.typ == t, "step %d: class %r has type string %r, expected %r", n, p, cls.typ, t)
            flds = fields_for(p) if isinstance(p, str) else classes[p]["fields"]
            ext = False if isinstance(p, str) else classes[p]["extra"]
            vals = dict(zip(flds, ["v1", "v2"]))
            if ext:
                vals["y"] = 7
            x = cls(**vals)
            d = x.as_dict()
            require(d == dict(vals, type=t), "as_dict gives %r", d)
            with LogCapture() as log:
                back = cls.from_dict(d)
            require(type(back) is cls and back.as_dict() == d and back == x and not log.records, "from_dict(as_dict) gives %r", back)
            target = mapping[t]
            tf = fields_for(target) if isinstance(target, str) else classes[target]["fields"]
            te = False if isinstance(target, str) else classes[target]["extra"]
            loses = (ext and not te) or tf != flds
            for route, f in (("build", lambda: DictSerializable.build(x.dump())), ("loads", lambda: gj.loads(gj.dumps({"a": [x]}))["a"][0]),
                             ("copy", lambda: gj.GEMDJson().copy(x))):
                with LogCapture() as log:
                    k, y = attempt(f)
                require(k == "ok", "%s of a %r fails: %r", route, t, y)
                require(type(y) is get(target), "%s of type string %r gives a %s, expected class %r", route, t, type(y), target)
                if tf == flds:
                    require(all(getattr(y, f) == vals[f] for f in tf) and (not te or y.y == vals.get("y")), "%s of %r gives %r", route, vals, y)
                require(bool(log.records) is loses, "%s: %d warnings, expected %s", route, len(log.records), loses)
    return (tuple(sorted((str(c), sorted(map(str, x["anc"])), x["typ"], x["extra"]) for c, x in classes.items())),
            tuple(sorted((t, str(p)) for t, p in mapping.items())))


# --------------------------------------------------------------------------------- dictionaries of the real classes
def instances():
    """(class, kwargs maker) covering every registered type"""
    from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
    from gemd.entity.bounds import IntegerBounds, RealBounds
    from gemd.entity.file_link import FileLink
    from gemd.entity.link_by_uid import LinkByUID
    from gemd.entity.source import PerformedSource
    from gemd.entity.value import NominalInteger, NominalReal
    import gemd.entity.object as o
    import gemd.entity.template as t
    res = {}
    for v in VALUES:
        x = value(v)
        res["value " + v] = (type(x), {k: w for k, w in x.as_dict().items() if k != "type"})
    for b in GB:
        x = bounds(b)
        res["bounds " + b] = (type(x), {k: w for k, w in x.as_dict().items() if k != "type"})
    link = LinkByUID("id", "z")
    fl = [FileLink("f", "u"), FileLink("g", "w")]
    res["link"] = (LinkByUID, {"scope": "a", "id": "b"})
    res["file"] = (FileLink, {"filename": "a", "url": "b"})
    res["source"] = (PerformedSource, {"performed_by": "me", "performed_date": "2020"})
    pt, ct, mt = (t.PropertyTemplate("P", bounds=IntegerBounds(0, 9)), t.ConditionTemplate("C", bounds=RealBounds(0, 9, "m")),
                  t.ParameterTemplate("M", bounds=IntegerBounds(0, 5)))
    tm = {"Property": pt, "Condition": ct, "Parameter": mt}
    for c in (Property, Condition, Parameter):
        v = NominalReal(2, "m") if c is Condition else NominalInteger(3)
        for tt in (None, link, tm[c.__name__]):
            res[f"attr {c.__name__} {type(tt).__name__}"] = (c, {"name": "n", "template": tt, "origin": "computed", "value": v, "notes": "x", "file_links": fl})
    pr, co, pa = Property("p", value=NominalInteger(1)), Condition("c", value=NominalReal(1, "m")), Parameter("q", value=NominalInteger(2))
    res["pac"] = (PropertyAndConditions, {"property": pr, "conditions": [co, co]})
    common = {"name": "n", "uids": {"id": "u", "B": "v"}, "tags": ["t", "s"], "notes": "x", "file_links": fl}
    tc = {"name": "n", "uids": {"id": "u"}, "tags": ["t"], "description": "d"}
    for c, b in ((t.PropertyTemplate, IntegerBounds(0, 9)), (t.ConditionTemplate, RealBounds(0, 9, "m")), (t.ParameterTemplate, IntegerBounds(0, 5))):
        res["tmpl " + c.__name__] = (c, dict(tc, bounds=b))
    props, conds, params = [[pt, None], [link, None]], [[ct, RealBounds(1, 2, "m")]], [[mt, IntegerBounds(1, 2)]]
    res["tmpl material"] = (t.MaterialTemplate, dict(tc, properties=props))
    res["tmpl process"] = (t.ProcessTemplate, dict(tc, conditions=conds, parameters=params, allowed_names=["a"], allowed_labels=["l"]))
    res["tmpl measurement"] = (t.MeasurementTemplate, dict(tc, properties=props, conditions=conds, parameters=params))
    q = {"mass_fraction": NominalReal(0.5, ""), "volume_fraction": NominalReal(0.25, ""), "number_fraction": NominalReal(1, ""),
         "absolute_quantity": NominalReal(2, "kg")}
    res["mat spec"] = (o.MaterialSpec, dict(common, template=link, process=link, properties=[PropertyAndConditions(pr, [co])]))
    res["mat run"] = (o.MaterialRun, dict(common, spec=link, process=link, sample_type="virtual"))
    res["proc spec"] = (o.ProcessSpec, dict(common, template=link, conditions=[co], parameters=[pa]))
    res["proc run"] = (o.ProcessRun, dict(common, spec=link, conditions=[co], parameters=[pa], source=PerformedSource("me", "now")))
    res["ing spec"] = (o.IngredientSpec, dict(common, material=link, process=link, labels=["l", "m"], **q))
    ir = dict(common, material=link, process=link, spec=link, **q)
    del ir["name"]
    res["ing run"] = (o.IngredientRun, ir)
    res["meas spec"] = (o.MeasurementSpec, dict(common, template=link, conditions=[co], parameters=[pa]))
    res["meas run"] = (o.MeasurementRun, dict(common, material=link, spec=link, properties=[pr], conditions=[co], parameters=[pa], source=PerformedSource("me", "now")))
    return res


# unknown names that resemble known ones
NEAR = [str.upper, str.capitalize, lambda f: "_" + f, lambda f: f + "_", lambda f: " " + f, lambda f: f + "s", lambda f: f[:-1], lambda f: "__" + f, lambda f: f.replace("_", "-"),
        lambda f: "my_" + f, lambda f: f + "_type", lambda f: f + f]


def same(x, y):
    a, b = x.as_dict(), y.as_dict()
    return type(x) is type(y) and a.keys() == b.keys() and all(_s(a[k], b[k]) for k in a)


def _s(a, b):
    if hasattr(a, "as_dict"):
        return hasattr(b, "as_dict") and same(a, b)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(_s(x, y) for x, y in zip(a, b))
    if hasattr(a, "keys"):
        return dict(a) == dict(b)
    return a == b and type(a) is type(b)


def run_dict(case):
    from gemd.entity.dict_serializable import DictSerializable
    import gemd.json as gj
    cls, kw = instances()[case["inst"]]
    x = cls(**kw)
    drop = case.get("drop")
    if drop is not None:
        d = dict(kw)
        del d[drop]
        k1, want = attempt(cls, **d)
        d["type"] = cls.typ
        k2, got = attempt(cls.from_dict, d)
        require(k1 == k2, "%s without %s: constructor %s, from_dict %s", case["inst"], drop, k1, k2)
        if k1 == "ok":
            require(same(want, got), "%s without %s: constructor gives %r, from_dict %r", case["inst"], drop, want, got)
        return ("drop", case["inst"], drop)
    extra = case.get("extra", [])
    d = x.as_dict()
    require(d["type"] == cls.typ and DictSerializable.class_mapping[cls.typ] is cls, "type string of %s", case["inst"])
    for f in kw:
        require(f in d, "as_dict of %s lacks %s", case["inst"], f)
    order = list(d)
    for j, e in enumerate(extra):
        d[e] = [1, None, {"a": 1}, "s"][j % 4]
    if case.get("first"):
        d = {k: d[k] for k in list(extra) + order}
    frozen = dict(d)
    with LogCapture() as log:
        k, y = attempt(cls.from_dict, d)
    require(k == "ok", "from_dict of %s with %r fails: %r", case["inst"], extra, y)
    require(same(x, y) and x == y, "from_dict(as_dict) of %s gives %r, expected %r", case["inst"], y, x)
    require(len(log.records) >= len(extra) if extra else not log.records, "%d unknown fields, %d warnings", len(extra), len(log.records))
    require(all(any(e in r.getMessage() for r in log.records) for e in extra), "an unknown field is not named in a warning")
    require(d == frozen, "from_dict changed its argument")
    require(same(x, cls(**kw)), "as_dict changed the object")
    # as JSON
    d2 = json.loads(json.dumps(x.dump()))
    require(d2 == x.dump(), "dump of %s is not plain JSON", case["inst"])
    for j, e in enumerate(extra):
        d2[e] = [1, None, {"a": 1}, "s"][j % 4]
    f2 = json.loads(json.dumps(d2))
    for route, f in (("build", lambda: DictSerializable.build(d2)), ("class build", lambda: cls.build(d2)), ("raw_loads", lambda: gj.GEMDJson().raw_loads(json.dumps(d2))),
                     ("nested", lambda: gj.GEMDJson().raw_loads(json.dumps({"a": [d2]}))["a"][0]),
                     ("loads", lambda: gj.loads(json.dumps({"context": [], "object": d2})))):
        with LogCapture() as log:
            k, y = attempt(f)
        require(k == "ok", "%s of %s with %r fails: %r", route, case["inst"], extra, y)
        require(same(x, y), "%s of %s gives %r, expected %r", route, case["inst"], y, x)
        require(len(log.records) >= len(extra) if extra else not log.records, "%s: %d unknown fields, %d warnings", route, len(extra), len(log.records))
    require(d2 == f2, "build changed its argument")
    return ("dict", case["inst"], tuple(extra), bool(case.get("first")))


def positions(x, path=()):
    """paths of all dicts with a type"""
    if isinstance(x, dict):
        if "type" in x:
            yield path
        for k in x:
            yield from positions(x[k], path + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from positions(y, path + (i,))


def structures():
    import gemd.json as gj
    res = []
    ins = instances()
    for name in ("meas run", "tmpl measurement", "mat spec", "ing spec", "attr Property PropertyTemplate", "tmpl process"):
        cls, kw = ins[name]
        res.append(json.loads(gj.dumps([{"a": cls(**kw)}, 1])))
    return res


BADTYPES = ["nope", "", "Material_Run", "material_run ", "materialrun", "MATERIAL_RUN", "link", "dict", "object"]


def run_unknown(case):
    import gemd.json as gj
    from gemd.entity.dict_serializable import DictSerializable
    s = structures()[case["s"]]
    x = s
    for k in case["path"][:-1]:
        x = x[k]
    y = x[case["path"][-1]]
    y["type"] = case["bad"]
    for route, f in (("loads", lambda: gj.loads(json.dumps(s))), ("raw_loads", lambda: gj.GEMDJson().raw_loads(json.dumps(s["context"] if s["context"] and case["path"][0] == "context" else s))),
                     ("build", lambda: DictSerializable.build(y))):
        k, r = attempt(f)
        require(k == "exc" and isinstance(r, TypeError), "%s of type string %r at %r gives %r", route, case["bad"], case["path"], r)
    return ("unknown", case["s"], tuple(map(str, case["path"])), case["bad"])


def run_skips(case):
    """classes with fields that are not to be serialized: they stay unserialized in all descendants"""
    from gemd.entity.dict_serializable import DictSerializable
    from gemd.entity.file_link import FileLink
    import gemd.json as gj
    cls, hid, want = [], [], []
    for n, (parents, own) in enumerate(case["defs"]):
        bases = [cls[p] for p in parents] or [FileLink if case["base"] else DictSerializable]
        inherited = set().union(*[hid[p] for p in parents])
        mine = {"_h%d" % n} if own else set()

        def init(self, a=None, filename="f", url="u", _n=n, _all=inherited | mine):
            if case["base"]:
                FileLink.__init__(self, filename, url)
            self.a = a
            for h in _all:
                setattr(self, h, "hidden")
        kw = {"typ": "zz%d" % n}
        if own:
            kw["skip"] = {"_h%d" % n} if own == 1 else frozenset({"_h%d" % n})
        k, c = attempt(types.new_class, "X%d" % n, tuple(bases), kw, lambda d: d.update(__init__=init))
        if k == "exc" and isinstance(c, TypeError):
            return ("void",)
        require(k == "ok", "class %d of %s is refused: %r", n, case, c)
        cls.append(c)
        hid.append(inherited | mine)
        for i, c in enumerate(cls):
            x = c(a=i)
            d = x.as_dict()
            op()
            exp = {"type": "zz%d" % i, "a": i, **({"filename": "f", "url": "u"} if case["base"] else {})}
            require(d == exp, "after %d definitions an instance of class %d is %r, expected %r (%s)", n + 1, i, d, exp, case)
            with LogCapture() as log:
                y = gj.loads(gj.dumps([x]))[0]
            require(type(y) is c and y.as_dict() == d and not log.records, "class %d of %s loads as %r", i, case, y)
    return ("skips", repr(case))


NAMES = ["a", "id_", "class_", "a__b", "type_", "A", "é", "x1", "aa_", "skip_", "names", "dict"]


def run_fields(case):
    """classes of a user with fields of unusual names, stored plainly or behind a property"""
    from gemd.entity.dict_serializable import DictSerializable
    import gemd.json as gj
    fields = case["fields"]
    sig = ", ".join(["self"] + [f"{n}=None" for n, _ in fields if not case["kw"]] + ["*"] * case["kw"] + [f"{n}=None" for n, _ in fields if case["kw"]])
    body = {}
    exec(f"def __init__({sig}):\n" + "".join(f"    self.{'_' if hid else ''}{n} = {n}\n" for n, hid in fields), body)
    ns = {"__init__": body["__init__"]}
    for n, hid in fields:
        if hid:
            ns[n] = property(lambda self, _n=n: getattr(self, "_" + _n))
    cls = types.new_class("Y", (DictSerializable,), {"typ": "yy"}, lambda d: d.update(ns))
    for vals in (["v", 2], [None, [1, {"a": None}]], ["", False]):
        kw = {n: v for (n, _), v in zip(fields, vals)}
        x = cls(**kw)
        d = x.as_dict()
        require(d == dict(kw, type="yy"), "as_dict gives %r, expected %r", d, kw)
        for how, f in (("from_dict", lambda: cls.from_dict(d)), ("build", lambda: DictSerializable.build(x.dump())), ("loads", lambda: gj.loads(gj.dumps([x]))[0]),
                       ("raw", lambda: (lambda j: j.raw_loads(j.raw_dumps({"k": x}))["k"])(gj.GEMDJson()))):
            with LogCapture() as log:
                k, y = attempt(f)
            op()
            require(k == "ok" and type(y) is cls and y.as_dict() == d and y == x and not log.records, "%s of %r gives %r with %d warnings", how, kw, y, len(log.records))
        require(x != cls(**dict(kw, **{fields[0][0]: "other"})), "a different %r does not matter", fields[0][0])
    return ("fields", repr(case))


def run_case(case):
    if isinstance(case, list):
        return isolated(run_registry, case[1:])
    if case["k"] == "dict":
        return run_dict(case)
    if case["k"] == "skips":
        return isolated(run_skips, case)
    if case["k"] == "fields":
        return isolated(run_fields, case)
    return run_unknown(case)


def explore(ex):
    depth = 4 if ex.thorough else 3

    def hists():
        def alphabet(h):
            n = len(h)
            single = [[p] for p in (["D", "F", "P"] if n < 2 else ["D", "F"]) + list(range(n))]
            pairs = [[a, b] for a in range(n) for b in range(n) if a != b]
            fresh = any(e[1] == "qa" for e in h)     # the two fresh type strings are interchangeable
            ty = [t for t in TYPS if t != "qb" or fresh]
            return [[p, t, e] for p in single + pairs for t in ty for e in ((0, 1) if n < depth - 1 and n < 2 else (0,))]

        def rec(h):
            if h:
                yield ["reg"] + h
            if len(h) < depth:
                for e in alphabet(h):
                    yield from rec(h + [e])
        yield from rec([])
    ex.enumerate("class definition histories", hists(), chunk=64)

    def skips():
        def rec(defs, left):
            if defs:
                yield defs
            if left:
                n = len(defs)
                ps = [[]] + [list(c) for k in (1, 2, 3) for c in itertools.permutations(range(n), k)]
                for p in ps:
                    for own in (0, 1):
                        yield from rec(defs + [[p, own]], left - 1)
        for base in (0, 1):
            for defs in rec([], 4 if ex.thorough else 3):
                if len(defs) > 1 and any(o for _, o in defs):
                    yield {"k": "skips", "base": base, "defs": defs}
        for base in (0, 1):
            yield {"k": "skips", "base": base, "defs": [[[], 1], [[], 1], [[0, 1], 1], [[1, 0], 0], [[2], 0]]}
    ex.enumerate("fields left out by classes and their descendants", skips(), chunk=8)

    ex.enumerate("fields of other classes", ({"k": "fields", "fields": [[n, h] for n, h in zip(ns, hs)], "kw": kw}
                                             for r in (1, 2) for ns in itertools.permutations(NAMES, r) for hs in itertools.product((0, 1), repeat=r) for kw in (0, 1)), chunk=16)

    def dicts():
        ins = instances()
        few = ("meas run", "tmpl measurement", "ing spec", "attr Property PropertyTemplate")
        few += tuple({type(value(v)).__name__: n for n, (c, kw) in ins.items() for v in VALUES if c is type(value(v))}.values())
        for n, (cls, kw) in ins.items():
            yield {"k": "dict", "inst": n}
            for f in kw:
                yield {"k": "dict", "inst": n, "drop": f}
            for extra in (["foo"], ["Name"], ["foo", "bar"], ["self_"], ["_value"], ["typ"], ["skip"], ["as_dict"], ["foo", "bar", "baz", "qux"], ["self"], ["cls", "args", "kwargs"],
                          ["subtype"], ["my_type"], ["Type"], ["TYPE"], ["type_"], ["typed"], ["_type"], ["", "type "], ["subtype", "types", "my type"], ["stype", "tags_type", "0"])\
                    + tuple([g(f)] for f in (kw if n in few or ex.thorough else ()) for g in NEAR if g(f) not in kw):
                for first in (0, 1):
                    yield {"k": "dict", "inst": n, "extra": extra, "first": first}
    ex.enumerate("dictionaries", dicts(), chunk=8)

    def unknown():
        for i, s in enumerate(structures()):
            for p in positions(s):
                if p:
                    for b in BADTYPES:
                        yield {"k": "unknown", "s": i, "path": list(p), "bad": b}
    ex.enumerate("unknown type strings", unknown(), chunk=8)
