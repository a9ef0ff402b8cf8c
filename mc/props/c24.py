"""C24: an operation that fails or is interrupted part-way leaves no trace (exhaustive fault injection)."""
import io
import json
import logging
import os
import re
import sys
from collections.abc import MutableMapping

from mc.core import REPO, Violation, attempt, fail, op, require
from mc.graphs import BASES, ENTITY, PLAIN, build, cname, root_of

ID = "C24"
TECHNIQUE = "stateless exploration of the real code under a fault injector: every fault point of every operation"
BOUNDS = {"quick": "200+ operations x 6 kinds of failure x every call of the caller's code (function, iterable, mapping, stream, hook, bounds, log handler), "
                   "and every pair of failures in a row; every prefix of a document and a damaged entry of 8 sorts at every place of it; 20 read-only operations "
                   "interrupted at every executed line of library code on the smallest graph, and at the first and last execution of every line (per calling line) on 2 larger ones",
          "thorough": "the same with larger graphs; interrupts on 6 larger graphs, at the first 1 to 3 and the last execution of every line"}
ASSUMPTIONS = ["StopIteration raised inside an iterator is its regular end, not a failure"]

LIB = str(REPO / "gemd") + os.sep
_UUID = re.compile(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}", re.I)


class Halt(BaseException):
    """stands for a KeyboardInterrupt or any other failure that is not an Exception"""


class Boom(Exception):
    pass


KINDS = {"boom": Boom, "halt": Halt, "type": type("TypeBoom", (TypeError,), {}), "value": type("ValueBoom", (ValueError,), {}),
         "key": type("KeyBoom", (KeyError,), {}), "attr": type("AttrBoom", (AttributeError,), {})}


# ------------------------------------------------------------------------------------------------------------- canonical states

def canon(x, gained=()):
    """public state reachable from x, objects numbered by first visit, random uuids by first appearance;
    the uids of the objects in `gained` (identities) are left out"""
    seen, keep = {}, []

    def walk(y):
        n = cname(y)
        if n in ENTITY:
            if id(y) in seen:
                return ["#", seen[id(y)]]
            seen[id(y)] = len(seen)
            keep.append(y)
            f, b = ENTITY[n]
            return [n] + [[k, walk(getattr(y, k))] for k in f + b if not (k == "uids" and id(y) in gained)]
        if n in PLAIN:
            return [n] + [walk(getattr(y, k)) for k in PLAIN[n]]
        if y is None or isinstance(y, (str, int, float, bool)):
            return [n, repr(y)]
        if isinstance(y, (set, frozenset)):
            return ["set"] + sorted(map(repr, map(walk, y)))
        if isinstance(y, (list, tuple)):
            return [n] + [walk(z) for z in y]
        if hasattr(y, "keys"):
            return ["dict"] + [[walk(k), walk(v)] for k, v in y.items()]
        return [n]
    s = json.dumps(walk(x))
    num = {}
    return _UUID.sub(lambda m: "uuid%d" % num.setdefault(m.group(0), len(num)), s)


def differ(a, b):
    """the first difference of two canonical states, short"""
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    i = max(0, i - 60)
    return "..%s.. where ..%s.. is expected" % (a[i:i + 160], b[i:i + 160])


def ambient():
    from gemd.entity.bounds_validation import get_validation_level
    from gemd.entity.dict_serializable import DictSerializable
    return (get_validation_level(), os.getcwd(), sorted(DictSerializable.class_mapping))


# ----------------------------------------------------------------------------------------------------- failures of the caller's code

class Fault:
    """the k-th call of tick() fails"""

    def __init__(self, kind=None, k=None):
        self.n, self.k = 0, k
        self.exc = KINDS[kind]("injected") if kind else None

    def tick(self):
        self.n += 1
        if self.n == self.k:
            raise self.exc

    def caused(self, e):
        seen = set()
        while e is not None and id(e) not in seen:
            if e is self.exc:
                return True
            seen.add(id(e))
            e = e.__cause__ or e.__context__
        return False


def failing(xs, tick):
    """a one-shot iterator over xs that can fail before each element and at its end"""
    for x in xs:
        tick()
        yield x
    tick()


class FMap(MutableMapping):
    def __init__(self, d, tick):
        self.d, self.tick = d, tick

    def __getitem__(self, k):
        self.tick()
        return self.d[k]

    def __iter__(self):
        return failing(list(self.d), self.tick)

    def __len__(self):
        return len(self.d)

    def __setitem__(self, k, v):
        raise AssertionError("the argument is changed")

    __delitem__ = __setitem__


class FList(list):
    """a real list that fails when read"""

    def __init__(self, xs, tick):
        list.__init__(self, xs)
        self.tick = tick

    def __iter__(self):
        return failing(list.__iter__(self), self.tick)


class Stream:
    def __init__(self, text, tick):
        self.text, self.tick, self.out = text, tick, []

    def write(self, s):
        self.tick()
        self.out.append(s)
        return len(s)

    def read(self, *a):
        self.tick()
        return self.text


class Handler(logging.Handler):
    def __init__(self, tick):
        super().__init__(level=logging.WARNING)
        self.tick = tick

    def handle(self, record):
        self.tick()
        return record


def user_bounds(cell):
    """bounds of the caller's own whose check is the caller's code"""
    from gemd.entity.bounds.base_bounds import BaseBounds
    if not _USER:
        class MyBounds(BaseBounds, typ="mc_c24_bounds"):
            def contains(self, bounds):
                _USER[1][0]()
                return True

            def union(self, *others):
                return self

            def update(self, *others):
                pass
        _USER.extend([MyBounds, cell])
    _USER[1] = cell
    return _USER[0]()


_USER = []
SCEN = {}


def scenario(*variants, frozen=True, gains=False):
    """frozen: a failure leaves the state as it was;  gains: objects may have gained a uid"""
    def deco(f):
        for v in variants or ((),):
            v = v if isinstance(v, tuple) else (v,)
            SCEN["/".join([f.__name__] + [str(x) for x in v])] = (f, v, frozen, gains)
        return f
    return deco


RICH = {"n": 2, "proc": [1, 1], "edges": [[1, 0]], "meas": [1, 1], "level": "RS", "tmpl": 3, "dress": 2, "uids": "multi"}
BARE = {"n": 2, "proc": [1, 1], "edges": [[1, 0]], "meas": [1, 0], "level": "RS", "tmpl": 0, "dress": 0, "uids": "none"}


@scenario(True, False, None)
def foreach(first):
    from gemd.util import recursive_foreach
    g = build(RICH)

    def act(tick):
        seen = []

        def f(x):
            tick()
            seen.append(x)
        recursive_foreach(g.items[:3], f, **({} if first is None else {"apply_first": first}))
        return [len(seen), len({id(x) for x in seen}), seen]
    return g.items, act


@scenario((True, "call"), (False, "call"), (None, "iter"))
def flatmap(uni, where):
    from gemd.util import recursive_flatmap
    g = build(RICH)

    def act(tick):
        def f(x):
            if where == "call":
                tick()
                return [x]
            return failing([x, x.name], tick)
        return recursive_flatmap([g.items[-1], g.items[0]], f, **({} if uni is None else {"unidirectional": uni}))
    return g.items, act


LISTS = [(c, f) for c in ENTITY for f in ("tags", "file_links", "properties", "conditions", "parameters", "labels", "allowed_names", "allowed_labels")
         if f in ENTITY[c][0] and not (c == "IngredientRun" and f == "labels")]


def contents(o, f, g):
    from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
    from gemd.entity.file_link import FileLink
    from gemd.entity.template import ConditionTemplate, ParameterTemplate, PropertyTemplate
    from gemd.entity.value import NominalInteger
    if f in ("tags", "labels", "allowed_names", "allowed_labels"):
        return ["one", "two", "one"]
    if f == "file_links":
        return [FileLink("n", "u"), FileLink("n2", "u2")]
    t = {cname(x): x for x in g.items}
    cls, tcls = {"properties": (Property, PropertyTemplate), "conditions": (Condition, ConditionTemplate), "parameters": (Parameter, ParameterTemplate)}[f]
    if cname(o).endswith("Template"):
        tpl = t[tcls.__name__]
        return [tpl, (tpl, tpl.bounds), [tpl, None]]
    xs = [cls("n1", value=NominalInteger(1)), cls("n2", value=NominalInteger(2), template=t[tcls.__name__])]
    return [PropertyAndConditions(x) for x in xs] if cname(o) == "MaterialSpec" else xs


@scenario(*[(c, f, h) for c, f in LISTS for h in ("gen", "list")])
def assign_list(c, f, how):
    g = build(RICH)
    o = [x for x in g.items if cname(x) == c][-1]
    xs = contents(o, f, g)

    def act(tick):
        setattr(o, f, failing(xs, tick) if how == "gen" else FList(xs, tick))
    return g.items, act


@scenario(*[(c, f) for c, f in LISTS])
def extend_list(c, f):
    g = build(RICH)
    o = [x for x in g.items if cname(x) == c][-1]
    xs = contents(o, f, g)

    def act(tick):
        cur = getattr(o, f)
        if cur is None:
            return
        if cname(o).endswith("Template"):
            cur.extend(failing(xs, tick))
        else:
            cur[:1] = failing(xs, tick)
    return g.items, act


@scenario("file_links", "conditions")
def attribute_lists(f):
    from gemd.entity.attribute import Condition, Property, PropertyAndConditions
    from gemd.entity.file_link import FileLink
    if f == "file_links":
        o = Property("p", file_links=[FileLink("x", "y")])
        xs = [FileLink("n", "u"), FileLink("n2", "u2")]
    else:
        o = PropertyAndConditions(Property("p"), [Condition("c")])
        xs = [Condition("d"), Condition("e")]
    return [o], lambda tick: setattr(o, f, failing(xs, tick))


@scenario(*sorted(ENTITY))
def uids_from_mapping(c):
    g = build(RICH)
    o = [x for x in g.items if cname(x) == c][0]
    return g.items, lambda tick: setattr(o, "uids", FMap({"x": "1", "Y": "2"}, tick))


CTOR = [("MaterialRun", f) for f in ("tags", "file_links", "uids")] + [("MaterialSpec", f) for f in ("tags", "file_links", "uids", "properties")] + \
    [("IngredientRun", f) for f in ("tags", "file_links", "uids")] + [("IngredientSpec", f) for f in ("tags", "file_links", "uids", "labels")] + \
    [("MeasurementRun", f) for f in ("tags", "file_links", "uids", "properties", "conditions", "parameters")]


@scenario(*CTOR)
def construct(c, f):
    import gemd.entity.object as mod
    g = build(RICH)
    o = [x for x in g.items if cname(x) == c][-1]
    kw = {k: getattr(o, k) for k in ENTITY[c][0] if k in ("process", "material", "spec", "template") and (k != "process" or c.startswith("Ing"))}
    if c.startswith("Material"):        # a process of its own, and one that belongs to another material
        kw["process"] = [x for x in g.items if cname(x) == c.replace("Material", "Process")][0]
    if c != "IngredientRun":
        kw["name"] = "made"

    def act(tick):
        xs = FMap({"x": "1", "y": "2"}, tick) if f == "uids" else failing(contents(o, f, g), tick)
        return getattr(mod, c)(**dict(kw, **{f: xs}))
    return g.items, act


@scenario(*[(h, w) for h in ("new", "append", "extend", "iadd", "insert", "item", "slice", "step") for w in ("iter", "hook")])
def typed_list(how, where):
    from gemd.entity.valid_list import ValidList
    cell = [lambda: None]

    def hook(x):
        cell[0]()
        return x + "!"
    lst = ValidList(["a", "b", "c", "d"], str, hook if where == "hook" else None)
    state = [lst]

    def act(tick):
        cell[0] = tick if where == "hook" else (lambda: None)
        xs = ["p", "q"] if where == "hook" else failing(["p", "q"], tick)
        one = "p"
        if how == "new":
            return list(ValidList(xs, str, hook if where == "hook" else None))
        if how == "append":
            return lst.append(one)
        if how == "extend":
            return lst.extend(xs)
        if how == "iadd":
            z = lst
            z += xs
            return z is lst
        if how == "insert":
            return lst.insert(1, one)
        if how == "item":
            lst[2] = one
        elif how == "slice":
            lst[1:2] = xs
        else:
            lst[::2] = xs
    return state, act


@scenario("map", "pairs", "new", "newpairs", frozen=False)
def ci_dict(how):
    from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
    d = CaseInsensitiveDict({"A": 1, "b": 2})
    new = {"A": 3, "c": 4, "D": 5}

    def act(tick):
        try:
            if how == "map":
                d.update(FMap(new, tick))
            elif how == "pairs":
                d.update(failing(list(new.items()), tick))
            else:
                return CaseInsensitiveDict(FMap(new, tick) if how == "new" else failing(list(new.items()), tick))
        finally:
            keys = list(d)
            require(len({k.lower() for k in keys}) == len(keys) and all(d[k.upper()] == d[k.lower()] == d[k] for k in keys) and set("Ab") <= set(keys),
                    "after a failing update the mapping is %r", dict(d))
            require(all(d[k] in ({"A": 1, "b": 2}.get(k), new.get(k)) for k in keys), "after a failing update the mapping is %r", dict(d))
    return [d], act


@scenario("dump", "dumpnone", gains=True)
def write(how):
    from gemd.json import GEMDJson
    g = build(RICH if how == "dump" else BARE)
    js = GEMDJson()

    def act(tick):
        s = Stream("", tick)
        js.dump(g.items[0], s, indent=1)
        return js.loads("".join(s.out))
    return g.items, act


@scenario("load", "parse_float", "parse_int", "parse_constant", "raw")
def read(how):
    from gemd.json import GEMDJson
    g = build(RICH)
    js = GEMDJson()
    text = js.dumps(g.items) if how != "raw" else js.raw_dumps([g.items[0], {"a": [1.5, 2]}])
    if how == "parse_constant":
        text = json.dumps({"context": json.loads(text)["context"], "object": [float("inf"), float("nan"), json.loads(text)["object"]]})

    def act(tick):
        def num(t):
            def f(s):
                tick()
                return t(s)
            return f
        if how == "load":
            return js.load(Stream(text, tick))
        if how == "raw":
            return js.raw_loads(text, parse_int=num(int), parse_float=num(float))
        return js.loads(text, **{how: num({"parse_float": float, "parse_int": int, "parse_constant": str}[how])})
    return g.items, act


@scenario((False, False), (True, False), (False, True))
def substitute(inplace, nested):
    """links replaced from an index of the caller's own"""
    from gemd.util import make_index, substitute_links, substitute_objects
    g = build(RICH)
    idx = {(k.scope, k.id): v for k, v in make_index(g.items).items()}
    root = substitute_links([g.items[-1], g.items[0], {"k": [g.items[1]]}]) if not nested else substitute_links(g.items[-1])

    class Index(dict):
        tick = None

        def get(self, k, d=None):
            self.tick()
            return dict.get(self, (k.scope, k.id), d)

        def __getitem__(self, k):
            self.tick()
            return dict.__getitem__(self, (k.scope, k.id))

        def __contains__(self, k):
            return dict.__contains__(self, (k.scope, k.id))
    index = Index(idx)

    def act(tick):
        index.tick = tick
        return substitute_objects(root, index, inplace=inplace)
    return ([] if inplace else [root]), act


@scenario("value", "template", "new")
def checked_attribute(how):
    from gemd.entity.attribute import Property
    from gemd.entity.template import PropertyTemplate
    from gemd.entity.value import NominalInteger
    cell = [lambda: None]
    t = PropertyTemplate("t", bounds=user_bounds(cell))
    o = Property("n", template=None if how == "template" else t, value=NominalInteger(1))

    def act(tick):
        cell[0] = tick
        try:
            if how == "value":
                o.value = NominalInteger(2)
            elif how == "template":
                o.template = t
            else:
                return Property("m", template=t, value=NominalInteger(3)).value
        finally:
            cell[0] = lambda: None
    return [[o.name, o]] if how == "new" else [_Attr(o)], act


class _Attr(list):
    def __init__(self, o):
        self.o = o

    def __iter__(self):
        return iter([self.o.value, self.o.template, self.o.name])


@scenario(*[(o, h) for o in ("ProcessRun", "ProcessSpec", "MeasurementRun", "MaterialSpec") for h in ("set", "append", "extend", "insert", "item", "slice")])
def checked_list(c, how):
    """attributes of an object whose template restricts them by bounds of the caller's own"""
    import gemd.entity.object as mod
    from gemd.entity.attribute import Parameter, Property, PropertyAndConditions
    from gemd.entity.template import MaterialTemplate, MeasurementTemplate, ParameterTemplate, ProcessTemplate, PropertyTemplate
    from gemd.entity.value import NominalInteger
    cell = [lambda: None]
    b = user_bounds(cell)
    if c == "MaterialSpec":
        t, f = PropertyTemplate("t", bounds=b), "properties"
        mk = lambda i: PropertyAndConditions(Property("n%d" % i, template=t, value=NominalInteger(i)))
        o = mod.MaterialSpec("o", template=MaterialTemplate("T", properties=[[t, b]]))
    else:
        t, f = ParameterTemplate("t", bounds=b), "parameters"
        mk = lambda i: Parameter("n%d" % i, template=t, value=NominalInteger(i))
        T = (MeasurementTemplate if c == "MeasurementRun" else ProcessTemplate)("T", parameters=[[t, b]])
        if c.endswith("Run"):
            o = getattr(mod, c)("o", spec=getattr(mod, c.replace("Run", "Spec"))("s", template=T))
        else:
            o = getattr(mod, c)("o", template=T)
    setattr(o, f, [mk(0), mk(1)])
    new = [mk(2), mk(3), mk(4)]

    class State(list):
        def __iter__(self):
            return iter([[a.name if hasattr(a, "name") else a.property.name for a in getattr(o, f)]])

    def act(tick):
        cell[0] = tick
        try:
            if how == "set":
                setattr(o, f, new)
            elif how == "append":
                getattr(o, f).append(new[0])
            elif how == "extend":
                getattr(o, f).extend(new)
            elif how == "insert":
                getattr(o, f).insert(0, new[0])
            elif how == "item":
                getattr(o, f)[1] = new[0]
            else:
                getattr(o, f)[0:1] = new
        finally:
            cell[0] = lambda: None
    return [State()], act


@scenario("value", "fraction", "quantity", "list", "extend", "construct", "ingredient", "unknown field")
def logged(how):
    """at the warning level the report goes to log handlers of the caller's own"""
    import gemd.entity.object as mod
    from gemd.entity.attribute import Parameter
    from gemd.entity.bounds import IntegerBounds
    from gemd.entity.template import ParameterTemplate, ProcessTemplate
    from gemd.entity.value import NominalInteger, NominalReal
    t = ParameterTemplate("t", bounds=IntegerBounds(0, 5))
    spec = mod.ProcessSpec("s", template=ProcessTemplate("T", parameters=[[t, IntegerBounds(0, 1)]]))
    p = mod.ProcessRun("p", spec=spec)
    i = mod.IngredientRun(process=mod.ProcessRun("q"), mass_fraction=NominalReal(0.5, ""))
    a = Parameter("a", template=t, value=NominalInteger(1))
    ps = [Parameter("b%d" % j, template=t, value=NominalInteger(4)) for j in range(3)]
    m = mod.MaterialRun("m", process=mod.ProcessRun("r"))

    def act(tick):
        h = Handler(tick)
        logging.getLogger().addHandler(h)
        try:
            if how == "value":
                a.value = NominalInteger(77)
            elif how == "fraction":
                i.mass_fraction = NominalReal(7, "")
            elif how == "quantity":
                i.absolute_quantity = NominalReal(-1, "kg")
            elif how == "list":
                p.parameters = ps
            elif how == "extend":
                p.parameters.extend(ps)
            elif how == "construct":
                return len(mod.ProcessRun("n", spec=spec, parameters=ps).parameters)
            elif how == "ingredient":
                return mod.IngredientRun(material=m, process=p, mass_fraction=NominalReal(7, ""), number_fraction=NominalReal(8, ""),
                                         absolute_quantity=NominalReal(-1, "kg"))
            else:
                return mod.MaterialSpec.from_dict({"name": "x", "process": spec, "bogus": 1, "other": 2})
        finally:
            logging.getLogger().removeHandler(h)
    return [spec, p, i, a, m], act


@scenario("measurement", "attributes")
def builder(how):
    from gemd.builders import add_measurement, make_node
    from gemd.entity.attribute import Condition, Parameter, Property
    r = make_node("n")

    def act(tick):
        return add_measurement(r, name="x", attributes=failing([Property("p"), Condition("c"), Parameter("q"), Property("p2")], tick)
                               if how == "measurement" else FList([Property("p"), Parameter("q")], tick))
    return [r, r.spec], act


@scenario("generator", "with")
def level(how):
    """a block that fails leaves the level as it was; one that is opened again works again"""
    from gemd.entity.bounds_validation import WarningLevel, get_validation_level, validation_level

    def act(tick):
        got = []
        with validation_level(WarningLevel.FATAL):
            tick()
            with validation_level(WarningLevel.IGNORE):
                for x in failing([1, 2], tick):
                    got.append(int(get_validation_level()))
            got.append(int(get_validation_level()))
            tick()
        return got + [int(get_validation_level())]
    return [], act


def case_scen(d):
    f, v, frozen, gains = SCEN[d["s"]]
    kind = d["kind"]

    def fresh():
        state, act = f(*v)
        return list(state) if type(state) is list else state, act
    state, act = fresh()
    amb = ambient()
    probe = Fault()
    res = act(probe.tick)
    op()
    ref = canon([res] + list(state))
    require(ambient() == amb, "%s leaves its surroundings changed", d["s"])
    plans = [(k,) for k in range(1, probe.n + 1)]
    if probe.n <= 6 and kind == "boom":
        plans += [(k, j) for k in range(1, probe.n + 1) for j in range(1, probe.n + 1)]
    for plan in plans:
        state, act = fresh()
        gained = {id(x) for x in state if cname(x) in ENTITY and not x.uids} if gains else ()
        before = canon(list(state), gained)
        for k in plan:
            flt = Fault(kind, k)
            op()
            try:
                act(flt.tick)
            except Violation:
                raise
            except BaseException as e:
                require(flt.caused(e), "%s: the failure at point %s ends in %r", d["s"], k, e)
            else:
                require(flt.n < k, "%s: the failure at point %s does not reach the caller", d["s"], k)
            if frozen:
                now = canon(list(state), gained)
                require(now == before, "%s: a failure at point %s leaves %s", d["s"], plan, differ(now, before))
            require(ambient() == amb, "%s: a failure at point %s leaves its surroundings changed: %s", d["s"], k, ambient()[:2])
        res = act(lambda: None)
        op()
        now = canon([res] + list(state))
        require(now == ref, "%s: repeated after a failure at point %s it gives %s", d["s"], plan, differ(now, ref))
    return (d["s"], kind, probe.n, ref)


# ---------------------------------------------------------------------------------------------------------------- damaged documents

def same_document(js, text, want):
    got = canon(js.loads(text))
    require(got == want, "after a failed load a good document loads as %s", differ(got, want))


def case_torn(d):
    """every prefix of a document (a write cut short), through load and loads of one GEMDJson"""
    from gemd.json import GEMDJson
    g = build(d["g"])
    js = GEMDJson()
    text = js.dumps(g.items, **d.get("kw", {}))
    want = canon(js.loads(text))
    lo, hi = (len(text) * i // d["of"] for i in (d["part"], d["part"] + 1))
    for k in range(lo, min(hi, len(text.rstrip()))):
        for f in (js.loads, lambda s: js.load(io.StringIO(s)), js.raw_loads):
            st, r = attempt(f, text[:k])
            require(st == "exc" and isinstance(r, ValueError), "a document cut after %s of %s characters gives %r", k, len(text), r)
        if k % 16 == 0:
            same_document(js, text, want)
    same_document(js, text, want)
    return (d["part"], len(text))


POISON = {"type": {"type": "no_such_thing", "name": "x"}, "link": {"type": "link_by_uid", "id": "7"}, "value": {"type": "nominal_integer", "nominal": 1.5},
          "bounds": {"type": "real_bounds", "lower_bound": 3, "upper_bound": 1, "default_units": ""}, "units": {"type": "nominal_real", "nominal": 1, "units": "no such unit"},
          "object": {"type": "material_run", "name": "x", "process": 7}, "tags": {"type": "process_spec", "name": "x", "tags": [1]},
          "attr": {"type": "process_run", "name": "x", "conditions": [{"type": "nominal_integer", "nominal": 1}]}}


def case_poison(d):
    """a damaged entry at every place of the context: nothing of it is left for the next document"""
    from gemd.json import GEMDJson
    g = build(d["g"])
    js = GEMDJson()
    text = js.dumps(g.items)
    want = canon(js.loads(text))
    doc = json.loads(text)
    n = len(doc["context"])
    amb = ambient()
    # a document that names the same objects without having them: its links stay links
    alone = json.dumps({"context": [], "object": doc["object"]})
    links = canon(js.loads(alone))
    require("ProcessRun" not in links and "LinkByUID" in links, "links without their objects load as objects")
    for k in range(n + 1):
        bad = {"context": doc["context"][:k] + [POISON[d["poison"]]] + doc["context"][k:], "object": doc["object"]}
        st, r = attempt(js.loads, json.dumps(bad))
        require(st == "exc", "a document with the entry %s loads", POISON[d["poison"]])
        require(ambient() == amb, "a failed load leaves its surroundings changed")
        for j in (js, GEMDJson()):
            require(canon(j.loads(alone)) == links, "after a failed load links resolve to what the failed document described")
        same_document(js, text, want)
    return (d["poison"], n)


# ------------------------------------------------------------------------------------------------ interrupts of read-only operations

def traced(f, k=None, places=None):
    """run f(), interrupted at the k-th executed line of library code; returns (result or None, lines executed, interrupted);
    places: collects the place of every executed line (line, and the line its function was called from)"""
    n = 0
    halt = Halt()

    def local(frame, event, arg):
        nonlocal n
        if event == "line":
            n += 1
            if places is not None:
                back = frame.f_back
                places.append((frame.f_code.co_filename, frame.f_lineno, back.f_code.co_filename, back.f_lineno))
            if n == k:
                raise halt
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(LIB) else None
    sys.settrace(glob)
    try:
        res = f()
    except Halt:
        sys.settrace(None)
        return None, n, True
    finally:
        sys.settrace(None)
    return res, n, False


def points(f, times):
    """the interrupt points: every executed line (times None), or the first `times` and the last visits of every place"""
    places = []
    total = traced(f, places=places)[1]
    if times is None:
        return total, list(range(1, total + 1))
    seen, last, res = {}, {}, set()
    for i, pl in enumerate(places):
        seen[pl] = seen.get(pl, 0) + 1
        last[pl] = i + 1
        if seen[pl] <= times:
            res.add(i + 1)
    return total, sorted(res | set(last.values()))


def readers(g):
    """name -> read-only operation"""
    from gemd.entity.link_by_uid import LinkByUID
    from gemd.json import GEMDJson
    from gemd.util import flatten, make_index, recursive_flatmap, recursive_foreach, substitute_links, substitute_objects
    from gemd.util.impl import writable_sort_order
    from gemd.demo.cake import make_cake
    from gemd.entity.util import complete_material_history, make_instance
    js = GEMDJson()
    its = g.items
    text = js.dumps(its)
    raw = js.raw_dumps(its[0])
    twin = js.loads(text)
    other = js.loads(text)
    other[-1].tags.append("different")
    links = substitute_links(its)
    idx = make_index(its)
    mats = [x for x in its if cname(x) == "MaterialRun"]
    specs = [x for x in its if cname(x) == "MaterialSpec"]

    def visited():
        seen = []
        recursive_foreach(its, seen.append)
        return seen
    ops = {
        "dumps": lambda: js.loads(js.dumps(its)), "loads": lambda: js.loads(text), "copy": lambda: js.copy(its[0]), "thin": lambda: js.thin_dumps(its[0]),
        "raw": lambda: js.raw_dumps(its), "raw_loads": lambda: js.raw_loads(raw), "dump": lambda: [x.dump() for x in its], "equal": lambda: [x == y for x, y in zip(its, twin)],
        "unequal": lambda: [x == y for x, y in zip(other, its)] + [y != x for x, y in zip(other, its)],
        "flatten": lambda: flatten(its, "sc"), "links": lambda: substitute_links(its), "objects": lambda: substitute_objects(links, idx),
        "index": lambda: [[k, v] for k, v in make_index(its).items()], "foreach": visited, "flatmap": lambda: recursive_flatmap(its, lambda x: [x], unidirectional=False),
        "dependencies": lambda: [sorted(canon([y]) for y in x.all_dependencies()) for x in its], "repr": lambda: len(repr(its)),
        "to_link": lambda: [x.to_link() for x in its],
        "history": lambda: [complete_material_history(m) for m in mats], "instance": lambda: [make_instance(s) for s in specs],
    }
    return ops, [twin, other, links, its]


READERS = ["dumps", "loads", "copy", "thin", "raw", "raw_loads", "dump", "equal", "unequal", "flatten", "links", "objects", "index", "foreach", "flatmap",
           "dependencies", "repr", "to_link", "history", "instance"]


def case_interrupt(d):
    g = build(dict(d["g"]))
    ops, state = readers(g)
    f = ops[d["op"]]
    f()
    ref = canon(f())
    amb = ambient()
    before = canon(state)
    total, ks = points(f, d.get("times"))
    hits = 0
    for k in ks[d["part"]::d["of"]]:
        _, _, hit = traced(f, k)
        hits += hit
        op()
        now = canon(state)
        require(now == before, "%s interrupted at line event %s of %s changes the objects it reads: %s", d["op"], k, total, differ(now, before))
        require(ambient() == amb, "%s interrupted at line event %s of %s leaves its surroundings changed", d["op"], k, total)
        res = canon(f())
        require(res == ref, "%s repeated after an interrupt at line event %s of %s gives %s", d["op"], k, total, differ(res, ref))
    return (d["op"], total, hits, ref)


# -------------------------------------------------------------------------------------------- refused constructions and assignments

def odd_values(g):
    """things that suit few fields"""
    from gemd.entity.attribute import Condition, Property
    from gemd.entity.bounds import IntegerBounds
    from gemd.entity.file_link import FileLink
    from gemd.entity.link_by_uid import LinkByUID
    from gemd.entity.value import NominalCategorical, NominalInteger, NominalReal
    one = {cname(x): x for x in g.items}
    return [7, -1.5, float("nan"), True, "zz", "", b"x", object(), [1], ["a", 2], [None], {"a": 1}, {1: "a"}, {"A": "1", "a": "2"}, ("a",), (1, 2, 3), set(), {3}, lambda: 1, int,
            [Property("p"), 3], [Condition("c"), Property("p")], [FileLink("a", "b"), "c"], IntegerBounds(0, 1), LinkByUID("id", "x"), [LinkByUID("id", "x"), 4],
            NominalInteger(3), NominalReal(7, "kg"), NominalReal(-1, ""), NominalCategorical("q"), None, [[one["PropertyTemplate"], 3]], [(one["PropertyTemplate"], IntegerBounds(-99, 99))]] + \
        [one[c] for c in sorted(one)]


def plain_examples():
    from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
    from gemd.entity.bounds import CategoricalBounds, CompositionBounds, IntegerBounds, RealBounds
    from gemd.entity.file_link import FileLink
    from gemd.entity.link_by_uid import LinkByUID
    from gemd.entity.source import PerformedSource
    from gemd.entity.template import ConditionTemplate, ParameterTemplate, PropertyTemplate
    from gemd.entity.value import (DiscreteCategorical, EmpiricalFormula, InChI, NominalCategorical, NominalComposition, NominalInteger, NominalReal, NormalReal,
                                   Smiles, UniformInteger, UniformReal)
    b = IntegerBounds(0, 9)
    res = [(Property, dict(name="a", value=NominalInteger(1), template=PropertyTemplate("t", bounds=b), origin="measured", notes="n", file_links=[FileLink("f", "u")])),
           (Condition, dict(name="a", value=NominalInteger(1), template=ConditionTemplate("t", bounds=b), origin="measured", notes="n", file_links=[FileLink("f", "u")])),
           (Parameter, dict(name="a", value=NominalInteger(1), template=ParameterTemplate("t", bounds=b), origin="measured", notes="n", file_links=[FileLink("f", "u")])),
           (PropertyAndConditions, dict(property=Property("p"), conditions=[Condition("c")])),
           (NominalReal, dict(nominal=1.5, units="m")), (NormalReal, dict(mean=1, std=2, units="m")), (UniformReal, dict(lower_bound=1, upper_bound=2, units="m")),
           (NominalInteger, dict(nominal=1)), (UniformInteger, dict(lower_bound=1, upper_bound=4)), (NominalCategorical, dict(category="c")),
           (DiscreteCategorical, dict(probabilities={"a": 0.5, "b": 0.5})), (NominalComposition, dict(quantities={"a": 1})), (EmpiricalFormula, dict(formula="NaCl")),
           (InChI, dict(inchi="InChI=1/CH4/h1H4")), (Smiles, dict(smiles="C")), (RealBounds, dict(lower_bound=1, upper_bound=2, default_units="m")),
           (IntegerBounds, dict(lower_bound=1, upper_bound=2)), (CategoricalBounds, dict(categories=["a", "b"])), (CompositionBounds, dict(components=["a", "b"])),
           (FileLink, dict(filename="a", url="b")), (LinkByUID, dict(scope="a", id="b")), (PerformedSource, dict(performed_by="a", performed_date="b"))]
    return {c.__name__: (c, kw) for c, kw in res}


PLAINS = ["Property", "Condition", "Parameter", "PropertyAndConditions", "NominalReal", "NormalReal", "UniformReal", "NominalInteger", "UniformInteger",
          "NominalCategorical", "DiscreteCategorical", "NominalComposition", "EmpiricalFormula", "InChI", "Smiles", "RealBounds", "IntegerBounds",
          "CategoricalBounds", "CompositionBounds", "FileLink", "LinkByUID", "PerformedSource"]


def case_refused(d):
    """every field of every class offered every odd value, by assignment and (with live links around) by construction, at both levels of validation"""
    import contextlib
    import gemd.entity.object as om
    import gemd.entity.template as tm
    from gemd.entity.bounds_validation import WarningLevel, validation_level
    c, f, route = d["refused"]
    refused = taken = 0
    known = None
    g = build(RICH)
    n = len(odd_values(g))
    amb = ambient()
    dirty = True
    for i in range(n):
        if dirty:
            g = build(RICH)
            if c in ENTITY:
                o = [x for x in g.items if cname(x) == c][-1]
                cls = getattr(om, c, None) or getattr(tm, c)
                kw = {k: getattr(o, k) for k in ENTITY[c][0]}
                for k in ("name", "labels"):
                    if c == "IngredientRun":
                        kw.pop(k)
            else:
                cls, kw = plain_examples()[c]
                o = cls(**kw)
            state = [g.items, o]
            before = canon(state)
            vals = odd_values(g)
            dirty = False
        with validation_level(WarningLevel.FATAL) if d["fatal"] else contextlib.nullcontext():
            st, r = attempt(setattr, o, f, vals[i]) if route == "set" else attempt(cls, **dict(kw, **{f: vals[i]}))
        require(ambient() == amb, "%s.%s = %r leaves its surroundings changed", c, f, vals[i])
        if st == "ok":
            taken += 1
            dirty = True
            continue
        refused += 1
        now = canon(state)
        if now != before:
            key = None
            if (c, f, route) in (("MaterialSpec", "process", "set"), ("IngredientSpec", "process", "set")):
                # the recorded finding: the old process is let go before the new one is looked at (the object itself still names it)
                old, dirty = getattr(o, f), True
                if c == "MaterialSpec" and old is not None and old.output_material is None:
                    o.process = old
                elif c == "IngredientSpec" and old is not None and not any(x is o for x in old.ingredients):
                    list.append(old.ingredients, o)
                if canon(state) == before:
                    key = "spec-rejected-assignment-unlinks"
            msg = "%s with %s = %.200r is refused (%.200r) and leaves %s" % (c, f, vals[i], r, differ(now, before))
            require(key, "%s", msg)
            known = (msg, key)
    if known:
        fail(*known)
    return (c, f, route, refused, taken)


def refused_cases():
    for fatal in (0, 1):
        for c in sorted(ENTITY):
            for f in ENTITY[c][0] + ENTITY[c][1]:
                yield {"refused": [c, f, "set"], "fatal": fatal}
                if f in ENTITY[c][0] and not (c == "IngredientRun" and f in ("name", "labels")):
                    yield {"refused": [c, f, "new"], "fatal": fatal}
        for c in PLAINS:
            for f in PLAIN[c]:
                for route in ("set", "new"):
                    yield {"refused": [c, f, route], "fatal": fatal}


def run_case(d):
    if "refused" in d:
        return case_refused(d)
    if "s" in d:
        return case_scen(d)
    if "torn" in d:
        return case_torn(d)
    if "poison" in d:
        return case_poison(d)
    return case_interrupt(d)


TINY = {"n": 1, "proc": [1], "edges": [], "meas": [1], "level": "R", "uids": "none"}
TINYS = {"n": 1, "proc": [1], "edges": [[0, 0]], "meas": [0], "level": "RS", "uids": "multi", "tmpl": 3, "dress": 1}
MEDIUM = dict(BASES[1], level="RS", uids="mixed", tmpl=2, dress=1)


def explore(ex):
    ex.enumerate("failures of the caller's code", ({"s": s, "kind": k} for s in SCEN for k in KINDS), chunk=4)
    ex.enumerate("refused values", refused_cases(), chunk=4)
    ex.enumerate("documents cut short", ({"torn": 1, "g": g, "part": i, "of": 16, "kw": kw} for g in (TINY, TINYS) + ((RICH,) if ex.thorough else ())
                                         for kw in ({}, {"indent": 2}) for i in range(16)), chunk=1)
    ex.enumerate("documents with a damaged entry", ({"poison": p, "g": dict(g, uids=u)} for p in POISON for g in (TINYS, MEDIUM, RICH) for u in ("multi", "none")), chunk=1)

    def interrupts():
        for r in READERS:
            n = 16 if r in ("dumps", "copy", "flatten", "objects", "history", "unequal", "equal") else 4
            for i in range(n):
                yield {"op": r, "g": TINY, "part": i, "of": n, "times": 1 if r in ("history", "copy") else None}
        for g, times, skip in ((TINYS, 1, ("history", "objects", "dumps")), (MEDIUM, 1, ("history", "objects", "dumps", "flatten"))) if not ex.thorough else \
                ((TINYS, 3, ()), (MEDIUM, 2, ("history",)), (RICH, 1, ("history", "objects")), (dict(BASES[3], level="RS", uids="none"), 2, ("history",)),
                 (dict(BASES[2], level="R", uids="all"), 2, ("history",)), (dict(BASES[2], level="S", uids="case", tmpl=1), 2, ())):
            for r in READERS:
                if r not in skip:
                    for i in range(16 if ex.thorough else 8):
                        yield {"op": r, "g": g, "part": i, "of": 16 if ex.thorough else 8, "times": times}
    ex.enumerate("interrupted reading", interrupts(), chunk=1)
