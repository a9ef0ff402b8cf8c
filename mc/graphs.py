"""Enumerated GEMD object graphs, and snapshots of them through the public API.

A graph is described by a JSON-able dict; build(desc) makes fresh objects.  Every entity carries a unique marker in its
notes (objects) or description (templates), so isomorphism of two structures is equality of their snapshots, and an
object that was duplicated or merged shows up as two Python objects with one marker, or a missing marker.
"""
import itertools

from mc.core import require

OBJ = ["uids", "tags", "notes", "name", "file_links"]
TMP = ["uids", "tags", "description", "name"]
QTY = ["mass_fraction", "volume_fraction", "number_fraction", "absolute_quantity"]
# class -> (forward fields, back-reference fields)
ENTITY = {
    "MaterialRun": (OBJ + ["spec", "process", "sample_type"], ["measurements"]),
    "MaterialSpec": (OBJ + ["template", "process", "properties"], []),
    "ProcessRun": (OBJ + ["spec", "conditions", "parameters", "source"], ["ingredients", "output_material"]),
    "ProcessSpec": (OBJ + ["template", "conditions", "parameters"], ["ingredients", "output_material"]),
    "IngredientRun": (OBJ + ["spec", "material", "process", "labels"] + QTY, []),
    "IngredientSpec": (OBJ + ["material", "process", "labels"] + QTY, []),
    "MeasurementRun": (OBJ + ["spec", "material", "properties", "conditions", "parameters", "source"], []),
    "MeasurementSpec": (OBJ + ["template", "conditions", "parameters"], []),
    "PropertyTemplate": (TMP + ["bounds"], []), "ConditionTemplate": (TMP + ["bounds"], []),
    "ParameterTemplate": (TMP + ["bounds"], []),
    "MaterialTemplate": (TMP + ["properties"], []),
    "ProcessTemplate": (TMP + ["conditions", "parameters", "allowed_names", "allowed_labels"], []),
    "MeasurementTemplate": (TMP + ["properties", "conditions", "parameters"], []),
}
ATTR = ["name", "notes", "value", "template", "origin", "file_links"]
PLAIN = {
    "Property": ATTR, "Condition": ATTR, "Parameter": ATTR, "PropertyAndConditions": ["property", "conditions"],
    "NominalReal": ["nominal", "units"], "NormalReal": ["mean", "std", "units"],
    "UniformReal": ["lower_bound", "upper_bound", "units"], "NominalInteger": ["nominal"],
    "UniformInteger": ["lower_bound", "upper_bound"], "NominalCategorical": ["category"],
    "DiscreteCategorical": ["probabilities"], "NominalComposition": ["quantities"], "EmpiricalFormula": ["formula"],
    "InChI": ["inchi"], "Smiles": ["smiles"],
    "RealBounds": ["lower_bound", "upper_bound", "default_units"], "IntegerBounds": ["lower_bound", "upper_bound"],
    "CategoricalBounds": ["categories"], "CompositionBounds": ["components"], "MolecularStructureBounds": [],
    "FileLink": ["filename", "url"], "PerformedSource": ["performed_by", "performed_date"],
    "LinkByUID": ["scope", "id"],
}
WRITE_ORDER = ["PropertyTemplate", "ConditionTemplate", "ParameterTemplate", "MaterialTemplate", "ProcessTemplate",
               "MeasurementTemplate"]


def cname(x):
    return type(x).__name__


def is_entity(x):
    return cname(x) in ENTITY


def marker(x):
    return x.notes if "notes" in ENTITY[cname(x)][0] else x.description


class Snap:
    """entities: marker -> (class, {field: encoded}); root: encoded structure; objs: marker -> object"""

    def __init__(self, root, follow=True, back=True, expand_root=False):
        self.entities = {}
        self.objs = {}
        self._queue = []
        self.follow = follow
        self.links = set()
        self.root = self.enc(root)
        while self._queue:
            o = self._queue.pop()
            m = marker(o)
            if m in self.entities:
                continue
            self.entities[m] = None
            fwd, bk = ENTITY[cname(o)]
            rec = {f: self.enc(getattr(o, f)) for f in fwd}
            if back:
                for f in bk:
                    v = getattr(o, f)
                    rec["<" + f] = tuple(sorted(map(repr, (self.enc(x) for x in v)))) if isinstance(v, list) else self.enc(v)
            self.entities[m] = (cname(o), rec)

    def enc(self, x):
        n = cname(x)
        if n in ENTITY:
            m = marker(x)
            require(m is not None, "an object without its notes/description: %s", n)
            prev = self.objs.setdefault(m, x)
            require(prev is x, "object %s exists twice in one structure", m)
            if self.follow:
                self._queue.append(x)
            return ("@", m)
        if n in PLAIN:
            if n == "LinkByUID":
                self.links.add((x.scope, x.id))
            return (n,) + tuple(self.enc(getattr(x, f)) for f in PLAIN[n])
        if isinstance(x, (set, frozenset)):
            return ("set",) + tuple(sorted(map(repr, x)))
        if isinstance(x, (list, tuple)):
            return ("list",) + tuple(self.enc(y) for y in x)
        if isinstance(x, dict) or hasattr(x, "keys"):
            return ("dict",) + tuple(sorted(((repr(self.enc(k)), self.enc(v)) for k, v in x.items()), key=lambda kv: kv[0]))
        if x is None or isinstance(x, (str, int, float, bool)):
            if isinstance(x, str):
                return str.__str__(x) if type(x) is str else ("enum", str(getattr(x, "value", x)))
            return (n, repr(x))
        raise AssertionError(f"unexpected {n} in a structure: {x!r}")

    def canon(self):
        return (self.root, tuple(sorted(self.entities.items(), key=lambda kv: kv[0])))


def compare(a, b, what):
    """Snapshots must be equal; pinpoints the first difference."""
    require(a.root == b.root, "%s: the structure differs: %s, expected %s", what, b.root, a.root)
    require(a.entities.keys() == b.entities.keys(), "%s: objects %s, expected %s", what, sorted(b.entities), sorted(a.entities))
    for m in a.entities:
        ca, ra = a.entities[m]
        cb, rb = b.entities[m]
        require(ca == cb, "%s: object %s became a %s", what, m, cb)
        for f in ra:
            require(ra[f] == rb[f], "%s: %s %s has %s = %s, expected %s", what, ca, m, f, rb[f], ra[f])


# ---------------------------------------------------------------------------------------------------- construction

def value(code):
    from gemd.entity.value import (DiscreteCategorical, EmpiricalFormula, InChI, NominalCategorical, NominalComposition,
                                   NominalInteger, NominalReal, NormalReal, Smiles, UniformInteger, UniformReal)
    return {
        None: lambda: None,
        "real": lambda: NominalReal(1.5, "m"), "realint": lambda: NominalReal(2, ""), "realneg": lambda: NominalReal(-0.0, "degC"),
        "real_tiny": lambda: NominalReal(5e-324, "kg/m**3"), "real_third": lambda: NominalReal(1 / 3, "g / 2.5 cm"),
        "normal": lambda: NormalReal(1.0, 0.25, "kelvin"), "uniform": lambda: UniformReal(0.1, 0.3, "g/mL"),
        "int": lambda: NominalInteger(7), "bigint": lambda: NominalInteger(2 ** 60), "uint": lambda: UniformInteger(-2, 9),
        "cat": lambda: NominalCategorical("red"), "cat_u": lambda: NominalCategorical("Grün é \u2603"),
        "disc": lambda: DiscreteCategorical({"red": 0.25, "blue": 0.75}), "disc1": lambda: DiscreteCategorical("red"),
        "comp": lambda: NominalComposition({"NaCl": 1, "w": 0.5}), "comp0": lambda: NominalComposition(None),
        "formula": lambda: EmpiricalFormula("Al2O3"), "inchi": lambda: InChI("InChI=1/CH4/h1H4"),
        "smiles": lambda: Smiles("C1CC1"),
    }[code]()


VALUES = ["real", "realint", "realneg", "real_tiny", "real_third", "normal", "uniform", "int", "bigint", "uint", "cat", "cat_u",
          "disc", "disc1", "comp", "comp0", "formula", "inchi", "smiles"]


def bounds(code):
    from gemd.entity.bounds import (CategoricalBounds, CompositionBounds, IntegerBounds, MolecularStructureBounds, RealBounds)
    return {
        None: lambda: None,
        "real": lambda: RealBounds(-1.5, 20.25, "m"), "real0": lambda: RealBounds(0, 1, ""), "realT": lambda: RealBounds(0.1, 0.3, "degC"),
        "int": lambda: IntegerBounds(-5, 2 ** 60 + 1), "cat": lambda: CategoricalBounds({"red", "blue", "grün"}),
        "cat0": lambda: CategoricalBounds(), "comp": lambda: CompositionBounds({"NaCl", "w", "Al"}),
        "mol": lambda: MolecularStructureBounds(),
    }[code]()


BOUNDS = ["real", "real0", "realT", "int", "cat", "cat0", "comp", "mol"]


def narrower(code):
    from gemd.entity.bounds import (CategoricalBounds, CompositionBounds, IntegerBounds, MolecularStructureBounds, RealBounds)
    return {
        "real": lambda: RealBounds(1, 200, "cm"), "real0": lambda: RealBounds(0.5, 0.5, ""), "realT": lambda: RealBounds(0.2, 0.25, "degC"),
        "int": lambda: IntegerBounds(0, 3), "cat": lambda: CategoricalBounds(["red"]), "cat0": lambda: CategoricalBounds(),
        "comp": lambda: CompositionBounds(["w"]), "mol": lambda: MolecularStructureBounds(),
    }[code]()


class Graph:
    def __init__(self):
        self.items = []      # entities in creation order
        self.by = {}         # marker -> entity

    def add(self, m, ent):
        self.items.append(ent)
        self.by[m] = ent
        return ent


ODD = [" lead", "trail ", "\ttab\n", "UPPER Case", "é☃ \U0001f600", "", "a\nb", "null", "x" * 300, "  ", "a  b", "e\u0301", "{'a': 1}", "\"q\"\\",
       "1.0", "\u00a0nb\u2003", "ß", "%s {0}"]


WORDS = ["self", "seq", "mapping", "kwargs", "uids", "cls", "scope", "id", "name", "obj", "default", "key", "typ", "skip", "__init__", "class", "None", "object", "context"]


def uids_for(cfg, m, i):
    if cfg == "none":
        return None
    if cfg == "all":
        return {"id": "u-" + m}
    if cfg == "multi":
        return {"Zed": "z-" + m, "id": "u-" + m}
    if cfg == "many":       # five uids, in an order that is neither sorted nor the same in all objects
        us = [("k3", "c-" + m), ("B", "b-" + m), ("Zed", "z-" + m), ("id", "u-" + m), ("a", "a-" + m)]
        return dict(us[i % 5:] + us[:i % 5])
    if cfg == "case":
        return {"My_Scope": "U-" + m} if i % 2 else {"my_scope": "U-" + m}
    if cfg == "mixed":
        return [None, {"id": "u-" + m}, {"B": "b-" + m, "a": "a-" + m}][i % 3]
    if cfg == "auto":
        return {"auto": "u-" + m, "other": "o-" + m} if i % 2 else {"Auto": "u-" + m}
    if cfg == "sameid":     # one id everywhere, told apart by the scope only
        return {f"s{i}": "7"}
    if cfg == "idcase":     # ids that differ only in case
        return {"id": "".join(c.upper() if i >> k & 1 else c for k, c in enumerate("abcdefghij"))}
    if cfg == "odd":        # strings that some normalisation would change
        return {ODD[(2 * i + 1) % len(ODD)] + " S": f"{ODD[(3 * i) % len(ODD)]}{i}\t", "Sec ond": f" {i}"} if i % 3 else {" P\n": f"#{i} "}
    if cfg == "words":      # scopes that are also names in the program
        return {WORDS[i % len(WORDS)]: f"w{i}", WORDS[(i + 1) % len(WORDS)].upper(): WORDS[i % len(WORDS)] + str(i)}
    if cfg == "swap":       # the same pair of strings as scope/id and id/scope
        return {f"q{i // 2}": f"r{i // 2}"} if i % 2 else {f"r{i // 2}": f"q{i // 2}"}
    raise ValueError(cfg)


def dress_attrs(kind, dress, own, i):
    """attributes of an object; `own` maps attribute kind -> templates available"""
    from gemd.entity.attribute import Condition, Parameter, Property
    from gemd.entity.file_link import FileLink
    if not dress:
        return []
    cls = {"cond": Condition, "param": Parameter, "prop": Property}[kind]
    ts = own.get(kind, [])
    if dress == 1:
        return [cls("a", value=value("int"), template=ts[0] if ts else None, origin="measured", notes="an",
                    file_links=[FileLink("f", "u")])]
    v = VALUES[(3 * i + {"cond": 0, "param": 1, "prop": 2}[kind]) % len(VALUES)]
    return [cls("a", value=value(v), origin=["computed", "specified", "unknown"][i % 3]),
            cls("b", template=ts[0] if ts else None), cls("a", value=value(v), origin=["computed", "specified", "unknown"][i % 3])]


def build(d):
    """d: n, proc[], edges[[m,p]], meas[], level, tmpl, dress, uids, loose, order"""
    from gemd.entity.attribute import PropertyAndConditions
    from gemd.entity.file_link import FileLink
    from gemd.entity.object import (IngredientRun, IngredientSpec, MaterialRun, MaterialSpec, MeasurementRun, MeasurementSpec,
                                    ProcessRun, ProcessSpec)
    from gemd.entity.source import PerformedSource
    from gemd.entity.template import (ConditionTemplate, MaterialTemplate, MeasurementTemplate, ParameterTemplate,
                                      ProcessTemplate, PropertyTemplate)
    from gemd.entity.value import NominalReal, UniformReal
    g = Graph()
    n, proc, edges, meas = d["n"], d["proc"], d["edges"], d.get("meas", [0] * d["n"])
    level, tmpl, dress, ucfg = d["level"], d.get("tmpl", 0), d.get("dress", 0), d.get("uids", "none")
    odd = d.get("odd", 0)
    cnt = itertools.count()

    def make(cls, kw):
        if d.get("route") != "set":
            return cls(**kw)
        x = cls(**{k: kw.pop(k) for k in ("name", "bounds") if k in kw})    # everything else by assignment
        for k in kw:
            setattr(x, k, kw[k])
        return x

    def common(m, nm, tag=True):
        i = next(cnt)
        kw = {"uids": uids_for(ucfg, m, i)}
        if dress:
            kw["tags"] = [["t::" + m, "shared"], [], ["é"], ["b", "a", "b"]][i % 4]
        if odd:
            kw["tags"] = [ODD[i % len(ODD)], ODD[(5 * i + 2) % len(ODD)], "a:: b"]
        return i, kw

    def obj(cls, m, nm, **extra):
        i, kw = common(m, nm)
        kw["notes"] = m if not odd else f" {m}\t"
        if dress:
            kw["file_links"] = [[], [FileLink("f1", "u1")], [FileLink("b", "u"), FileLink("a", "u")]][i % 3]
        if cls is not IngredientRun:
            kw["name"] = nm if not odd else ODD[i % len(ODD)]
        if odd and cls is IngredientSpec:
            extra["labels"] = [ODD[(i + 1) % len(ODD)], ODD[(i + 7) % len(ODD)]]
        if odd and dress:
            kw["file_links"] = [FileLink(ODD[i % len(ODD)], ODD[(i + 4) % len(ODD)])]
        kw.update(extra)
        return g.add(m, make(cls, kw))

    def tem(cls, m, nm, **extra):
        i, kw = common(m, nm)
        kw["description"] = m if not odd else f" {m}\t"
        kw["name"] = nm if not odd else ODD[(i + 3) % len(ODD)]
        kw.update(extra)
        return g.add(m, make(cls, kw))

    own = {}
    mt = pt = met = None
    if tmpl >= 2:
        bi = d.get("bnd", 3)
        b0 = BOUNDS[bi % len(BOUNDS)]
        own = {"cond": [tem(ConditionTemplate, "tc", "a", bounds=bounds(b0))],
               "param": [tem(ParameterTemplate, "tp", "a", bounds=bounds(b0))],
               "prop": [tem(PropertyTemplate, "tr", "a", bounds=bounds(b0))]}
        if b0 != "int" and dress:
            own = {k: v for k, v in own.items()}
    if tmpl:
        def ref(kind):
            ts = own.get(kind, [])
            if not ts:
                return []
            return [[ts[0], narrower(b0)]] if tmpl == 3 else [ts[0]]
        mt = tem(MaterialTemplate, "TM", "mat", properties=ref("prop"))
        pt = tem(ProcessTemplate, "TP", "proc", conditions=ref("cond"), parameters=ref("param"),
                 allowed_names=["i"] if tmpl == 3 else None, allowed_labels=["l", "k"] if tmpl == 3 else None)
        met = tem(MeasurementTemplate, "TE", "meas", properties=ref("prop"), conditions=ref("cond"), parameters=ref("param"))

    def attrs(kinds, i):
        return {f: dress_attrs(k, dress, own, i) for f, k in kinds} if dress else {}

    def quantities(i):
        if not dress:
            return {}
        return [{"mass_fraction": NominalReal(0.5, "")}, {"volume_fraction": UniformReal(0.1, 0.2, "")},
                {"number_fraction": NominalReal(1, ""), "absolute_quantity": NominalReal(2.5, "kg")}][i % 3]

    def layer(spec, pre, specs):
        """one run or spec layer; returns marker-less role -> entity"""
        role = {}
        P, M, I, E = ((ProcessSpec, MaterialSpec, IngredientSpec, MeasurementSpec) if spec else
                      (ProcessRun, MaterialRun, IngredientRun, MeasurementRun))
        for k in range(n):
            if proc[k]:
                extra = attrs([("conditions", "cond"), ("parameters", "param")], k)
                if spec:
                    extra["template"] = pt
                else:
                    extra["spec"] = specs.get("p%d" % k)
                    if dress:
                        extra["source"] = [None, PerformedSource("me", "today"), PerformedSource()][k % 3]
                role["p%d" % k] = obj(P, f"{pre}p{k}", "proc", **extra)
        for k in range(n):
            extra = {"process": role.get("p%d" % k)}
            if spec:
                extra["template"] = mt
                if dress:
                    pa = dress_attrs("prop", dress, own, k)
                    extra["properties"] = [PropertyAndConditions(p, dress_attrs("cond", dress, own, k + j))
                                           for j, p in enumerate(pa)]
            else:
                extra["spec"] = specs.get("m%d" % k)
                if dress:
                    extra["sample_type"] = ["production", "unknown", "virtual", "experimental"][k % 4]
            role["m%d" % k] = obj(M, f"{pre}m{k}", "mat", **extra)
        for j, (a, b) in enumerate(edges):
            extra = {"material": role.get("m%d" % a) if a is not None else None,
                     "process": role.get("p%d" % b) if b is not None else None}
            extra.update(quantities(j + (1 if spec else 0)))
            if spec:
                if dress:
                    extra["labels"] = [["l"], [], ["k", "l"]][j % 3]
            else:
                extra["spec"] = specs.get("i%d" % j)
            role["i%d" % j] = obj(I, f"{pre}i{j}", "i" if dress else "ing", **extra)
        for k in range(n):
            for q in range(meas[k]):
                extra = attrs([("conditions", "cond"), ("parameters", "param")] + ([] if spec else [("properties", "prop")]), q + k)
                if spec:
                    extra["template"] = met
                else:
                    extra["spec"] = specs.get("e%d_%d" % (k, q))
                    extra["material"] = role["m%d" % k]
                    if dress:
                        extra["source"] = PerformedSource("me", None)
                role["e%d_%d" % (k, q)] = obj(E, f"{pre}e{k}_{q}", "meas", **extra)
        return role

    specs = layer(True, "S", {}) if level in ("S", "RS", "RRS") else {}
    if level in ("R", "RS", "RRS"):
        layer(False, "R", specs)
    if level == "RRS":
        layer(False, "Q", specs)
    return g


def root_of(g, code):
    """the structure to hand to the library: entity index, or a container of some entities"""
    its = g.items
    if isinstance(code, int):
        return its[code % len(its)]
    if code == "list":
        return list(its)
    if code == "rev":
        return list(reversed(its))
    if code == "tuple":
        return tuple(its)
    if code == "dup":
        return [its[-1], its[-1], its[0]]
    if code == "nest":
        return {"x": [its[-1], 3, "s", None, True, 1.5, [], {}], "y": {"z": its[0], "w": [[its[-1]]]}, "k": (its[0], 2)}
    if code == "data":
        return [1, True, 1.0, 0, False, None, "a", "1", [], {}, [1, [True]], {"a": {"b": [1.5, -0.0]}}, (1, 2), 2 ** 70]
    if code == "attr":
        from gemd.entity.attribute import Property
        own = [x for x in its if cname(x) == "PropertyTemplate"]
        return [Property("q", template=own[0] if own else None, value=value("int")), its[-1]]
    raise ValueError(code)


ROOTS = ["list", "rev", "tuple", "dup", "nest", "attr"]


def topologies(maxn, maxe, cyclic=True, loose=True):
    """(n, proc, edges) up to the given size; edges are multisets of (material, process owner), order irrelevant"""
    for n in range(1, maxn + 1):
        for proc in itertools.product([1, 0], repeat=n):
            owners = [k for k in range(n) if proc[k]] + ([None] if loose else [])
            mats = list(range(n)) + ([None] if loose else [])
            cand = [(a, b) for a in mats for b in owners]
            if not cyclic:
                cand = [(a, b) for a, b in cand if a is None or b is None or a > b]
            for ne in range(maxe + 1):
                for es in itertools.combinations_with_replacement(cand, ne):
                    yield n, list(proc), [list(e) for e in es]


# ---------------------------------------------------------------------------------------------- families of cases

def meas_options(n, rich):
    res = [[0] * n, [1] + [0] * (n - 1), [2] + [1] * (n - 1)]
    return res if rich else res[::2]


def topology_cases(maxn, maxe, levels, uids, roots, rich=True, **kw):
    for n, proc, edges in topologies(maxn, maxe, **kw):
        for meas in meas_options(n, rich):
            for level in levels:
                for u in uids:
                    for r in roots:
                        yield {"g": {"n": n, "proc": proc, "edges": edges, "meas": meas, "level": level, "uids": u}, "root": r}


BASES = [
    {"n": 1, "proc": [1], "edges": [], "meas": [1]},
    {"n": 2, "proc": [1, 1], "edges": [[1, 0]], "meas": [1, 1]},
    {"n": 3, "proc": [1, 1, 1], "edges": [[1, 0], [1, 0], [2, 0], [2, 1]], "meas": [2, 0, 1]},
    {"n": 2, "proc": [1, 1], "edges": [[1, 0], [0, 1]], "meas": [1, 0]},
]


def content_cases(levels, uids, roots, tmpls=(0, 1, 2, 3), dresses=(0, 1, 2), bnds=(3,), bases=None):
    for b in (bases or BASES):
        for level in levels:
            for t in tmpls:
                if t and level == "R":
                    continue
                for dr in dresses:
                    for bn in (bnds if t >= 2 else bnds[:1]):
                        for u in uids:
                            for r in roots:
                                yield {"g": dict(b, level=level, tmpl=t, dress=dr, uids=u, bnd=bn), "root": r}


def long_cases(n, levels, uids, roots):
    """long chains of materials, also with every step using the previous material twice"""
    for rep in (1, 2):
        edges = [[i + 1, i] for i in range(n - 1) for _ in range(rep)]
        for level in levels:
            for u in uids:
                for r in roots:
                    yield {"g": {"n": n, "proc": [1] * n, "edges": edges, "meas": [0] * (n - 1) + [1], "level": level, "uids": u}, "root": r}


def odd_cases(levels=("R", "S", "RS"), roots=(0, -1, "nest"), bases=None):
    """unusual strings for every name, tag, note, label, uid and scope"""
    for c in content_cases(levels, ["none", "odd"], roots, tmpls=(0, 3), dresses=(0, 2), bases=bases):
        yield dict(c, g=dict(c["g"], odd=1))


def standard_cases(thorough):
    """the shared exhaustive family used by the graph properties"""
    yield from odd_cases()
    yield from long_cases(400, ["R", "RS"], ["none", "multi"], [0, -1])
    yield from content_cases(["RS"], ["sameid", "idcase", "swap", "words", "many"], [0, "list", "nest"], tmpls=(0, 3), dresses=(0, 2), bases=BASES[1:])
    if not thorough:
        yield from topology_cases(2, 2, ["R", "RS"], ["none"], [0, "list"], rich=False)
        yield from topology_cases(2, 1, ["R", "S", "RS", "RRS"], ["none", "mixed", "multi"], [0, 2, "rev"])
        yield from topology_cases(3, 2, ["RS"], ["mixed"], [-1], rich=False, cyclic=True, loose=False)
        yield from content_cases(["R", "S", "RS", "RRS"], ["none", "mixed", "case"], [0, -1, "rev", "nest", "attr"], bases=BASES[1:])
        yield from content_cases(["S", "RS"], ["auto", "multi"], [3, "dup", "tuple"])
        yield from content_cases(["RS"], ["all"], [-1, "list"], tmpls=(2, 3), dresses=(2,), bnds=range(len(BOUNDS)))
    else:
        yield from topology_cases(2, 2, ["R", "S", "RS", "RRS"], ["none", "mixed"], [0, 1, 2, 3, -1, "list", "rev", "nest"])
        yield from topology_cases(2, 3, ["R", "RS"], ["mixed"], [0, -1], rich=False)
        yield from topology_cases(3, 2, ["R", "S", "RS"], ["mixed", "none"], [0, -1, "rev"], rich=False, cyclic=True, loose=True)
        yield from topology_cases(3, 3, ["RS"], ["multi"], [0], rich=False, cyclic=True, loose=False)
        yield from content_cases(["R", "S", "RS", "RRS"], ["none", "mixed", "case", "auto", "multi", "all"],
                                 list(range(0, 8)) + [-1] + ROOTS, bnds=range(0, len(BOUNDS), 2))


def hash_cases(thorough=False, levels=("RS",), uids=("mixed", "multi"), roots=(0,)):
    """a small family of content-rich graphs, to be run under many hash seeds (orders of fields and of sets)"""
    yield from content_cases(levels, uids, roots, tmpls=(0, 3), dresses=(2,) if not thorough else (0, 1, 2))
    yield from topology_cases(2, 1, levels, uids[:1], roots, rich=False, cyclic=False)


HASH_SEEDS = {False: range(1, 7), True: range(1, 41)}
