"""C25: work on separate objects does not interfere, however it is interleaved (exhaustive schedules of two threads, and re-entry).

Two operations, each on objects of its own, run in two threads under a scheduler that decides at every executed line of library code
which of them goes on.  Each must give the result it gives when it runs by itself, and leave its objects as it leaves them then.
"""
import os
import sys
import threading

from mc.core import REPO, attempt, isolated, op, require
from mc.graphs import build, cname
from mc.props.c24 import READERS, ambient, canon, differ, readers

ID = "C25"
TECHNIQUE = "stateless exploration of the real code under a controlled scheduler: all schedules of two threads up to a preemption bound"
BOUNDS = {"quick": "pairs of 36 operations (each with itself and with 5 others): every schedule with one preemption, at the first visit of every line; 16 pairs of like "
                   "operations: every schedule with two preemptions (first at the first visit of a line, then at the first visit of a line of the other); 28 unit calls in 140 pairs, "
                   "each schedule in a process of its own; every operation re-entered from every caller's function",
          "thorough": "all pairs, first two visits of every line per calling line, larger graphs; two preemptions for all 36 operations; all pairs of unit calls"}
ASSUMPTIONS = ["threads switch between lines of library code (not within a line, nor within dependencies)", "the validation level and the choice of the definitions file are documented as global"]

LIB = str(REPO / "gemd") + os.sep
PATIENCE = 1.0


class Turns:
    """two threads that take turns: A up to its line event k, B up to its line event j (or its end), A to its end, B to its end"""

    def __init__(self, fa, fb, k, j):
        self.f = (fa, fb)
        self.stop = (k, j)
        self.go = (threading.Semaphore(0), threading.Semaphore(0))
        self.res = [None, None]
        self.switched = [False, False]

    def tracer(self, me):
        n = 0
        stop = self.stop[me]

        def local(frame, event, arg):
            nonlocal n
            if event == "line":
                n += 1
                if n == stop:
                    self.switched[me] = True
                    sys.settrace(None)
                    self.go[1 - me].release()
                    self.go[me].acquire(timeout=PATIENCE)       # the other may have to wait for us
                    return None
            return None if self.switched[me] else local

        def glob(frame, event, arg):
            return local if not self.switched[me] and frame.f_code.co_filename.startswith(LIB) else None
        return glob

    def run(self, me):
        self.go[me].acquire()
        if self.stop[me]:
            sys.settrace(self.tracer(me))
        try:
            self.res[me] = attempt(self.f[me])
        finally:
            sys.settrace(None)
            self.go[1 - me].release()

    def play(self):
        ts = [threading.Thread(target=self.run, args=(i,), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        self.go[0].release()
        for t in ts:
            t.join(60)
            require(not t.is_alive(), "the threads wait for each other")
        return self.res


def events(f, times=1, callers=True):
    """the line events of f to preempt it at: the first `times` visits of every line (per calling line)"""
    places = []

    def local(frame, event, arg):
        if event == "line":
            back = frame.f_back
            places.append((frame.f_code.co_filename, frame.f_lineno) + ((back.f_code.co_filename, back.f_lineno) if callers else ()))
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(LIB) else None
    sys.settrace(glob)
    try:
        attempt(f)
    finally:
        sys.settrace(None)
    seen, res = {}, []
    for i, pl in enumerate(places):
        seen[pl] = seen.get(pl, 0) + 1
        if seen[pl] <= times:
            res.append(i + 1)
    return res


def outcome(r):
    return canon(r[1]) if r[0] == "ok" else f"{type(r[1]).__name__}: {r[1]}"


# --------------------------------------------------------------------------------------------------------- operations on graphs

GRAPHS = [{"n": 1, "proc": [1], "edges": [[0, 0]], "meas": [1], "level": "RS", "uids": "mixed", "tmpl": 1, "dress": 0},
          {"n": 1, "proc": [1], "edges": [], "meas": [1], "level": "R", "uids": "multi", "tmpl": 1, "dress": 0}]
BIG = [{"n": 2, "proc": [1, 1], "edges": [[1, 0]], "meas": [1, 1], "level": "RS", "uids": "mixed", "tmpl": 2, "dress": 2},
       {"n": 2, "proc": [1, 0], "edges": [[1, 0]], "meas": [0, 2], "level": "RS", "uids": "none", "tmpl": 3, "dress": 1}]


def find(g, kind, i=0):
    return [x for x in g.items if cname(x) == kind][i]


def fresh_graph(f):
    """an operation on a graph of its own, made anew each time"""
    def make(desc, t):
        def prepare():
            g = build(dict(desc))
            return (lambda: f(g, t)), g.items
        return prepare
    return make


def w_build(g, t):
    return build(dict(GRAPHS[t])).items


def w_inplace(g, t):
    from gemd.util import make_index, set_uuids, substitute_links, substitute_objects
    set_uuids(g.items, "w%d" % t)
    idx = make_index(g.items)
    run = find(g, "ProcessRun")
    substitute_links(run, "w%d" % t, inplace=True)
    mid = [type(x).__name__ for x in run.ingredients] + [cname(run.spec)]
    substitute_objects(run, idx, inplace=True)
    return [mid, len(idx), g.items]


def w_edit(g, t):
    from gemd.entity.object import IngredientRun, MaterialRun, MeasurementRun, ProcessRun
    m, p = find(g, "MaterialRun"), find(g, "ProcessRun")
    q = ProcessRun("q%d" % t, tags=["x%d" % t])
    m.process = q
    i = IngredientRun(material=MaterialRun("raw%d" % t), process=q, labels=["l%d" % t])
    j = IngredientRun(process=q)
    i.process = p
    me = MeasurementRun("me%d" % t, material=m)
    me.material = i.material
    q.add_uid("s", "u%d" % t)
    q.uids["S2"] = "v%d" % t
    q.tags.extend(["a%d" % t, "b"])
    m.process = None
    return [m, p, q, i, j, me]


def w_uids(g, t):
    from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
    d = CaseInsensitiveDict(A=t, b=2)
    d["C"] = 3
    got = [d["a"], d.setdefault("B", 9), d.pop("c"), attempt(d.__setitem__, "a", 1)[0]]
    d.update({"x%d" % t: 1})
    return [got, dict(d), list(d.copy())]


def w_check(g, t):
    import warnings
    from gemd.entity.attribute import Property
    from gemd.entity.bounds import CategoricalBounds, RealBounds
    from gemd.entity.object import ProcessRun, ProcessSpec
    from gemd.entity.attribute import Parameter
    from gemd.entity.template import ParameterTemplate, ProcessTemplate, PropertyTemplate
    from gemd.entity.value import NominalCategorical, NominalReal
    pt = PropertyTemplate("pt", bounds=RealBounds(0, 10 + t, "m"))
    got = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = Property("p", template=pt, value=NominalReal(5 + t, "cm"))
        got.append(attempt(setattr, a, "value", NominalCategorical("x"))[0])
        qt = ParameterTemplate("q", bounds=CategoricalBounds(["a", "b"]))
        st = ProcessTemplate("st", parameters=[(qt, CategoricalBounds(["ab"[t]]))])
        sp = ProcessSpec("sp", template=st, parameters=[Parameter("q", template=qt, value=NominalCategorical("a"))])
        ru = ProcessRun("ru", spec=sp)
        got.append(attempt(ru.parameters.append, Parameter("q", template=qt, value=NominalCategorical("b")))[0])
    return [got, a, sp, ru]


def w_bounds(g, t):
    from gemd.entity.bounds import CategoricalBounds, CompositionBounds, IntegerBounds, RealBounds
    from gemd.entity.value import NominalComposition, NormalReal
    a, b = RealBounds(t, 5, "m"), RealBounds(-10, 200 + t, "cm")
    res = [a.union(b), b.union(a), a.contains(b), b.contains(NormalReal(1, 1, "m")), IntegerBounds(0, t).union(IntegerBounds(3, 7))]
    a.update(b)
    c = CategoricalBounds({"x", "y%d" % t})
    c.update(CategoricalBounds({"z"}))
    k = CompositionBounds({"Fe"})
    res.append(attempt(k.contains, NominalComposition({"Fe": 1, "O%d" % t: 2})))
    return [res, a, c, k]


def w_values(g, t):
    from gemd.entity.value import DiscreteCategorical, EmpiricalFormula, InChI, NominalComposition, Smiles, UniformInteger, UniformReal
    f = EmpiricalFormula("Al%dO3" % (2 + t))
    d = DiscreteCategorical({"a": .5, "b%d" % t: .5})
    u = UniformInteger(t, 4 + t)
    u.lower_bound = 1 + t
    r = UniformReal(t, 3, "kg / 2.5 L")
    n = NominalComposition({"x%d" % t: 1})
    n.quantities = {"y%d" % t: 0.5}
    return [f, d, u, r, n, Smiles("C%d" % t), InChI("InChI=1S/CH%d" % t), f.all_elements() == EmpiricalFormula.all_elements(), f.formula]


def w_enum(g, t):
    from gemd.enumeration import Origin, SampleType
    return [str(Origin.from_str(" Measured" if t else "predicted ")), str(SampleType("virtual")), attempt(Origin, "x%d" % t)[0], str(attempt(SampleType.from_str, "x")[1])]


def w_builders(g, t):
    from gemd.builders import add_attribute, add_edge, add_measurement, make_attribute, make_node
    from gemd.entity.bounds import IntegerBounds, RealBounds
    from gemd.entity.template import MaterialTemplate, MeasurementTemplate, ParameterTemplate, ProcessTemplate, PropertyTemplate
    x, y = make_node("n%d" % t, process_name="pr"), make_node("m", material_template=MaterialTemplate("mt"), process_template=ProcessTemplate("pt"))
    add_edge(x, y, mass_fraction=.5, number_fraction=.25, name="in%d" % t)
    me = add_measurement(y, name="meas", template=MeasurementTemplate("met"))
    add_attribute(me, PropertyTemplate("size", bounds=RealBounds(0, 5, "m")), "%d cm" % (3 + t))
    add_attribute(y.process, ParameterTemplate("k", bounds=IntegerBounds(0, 9)), 3 + t)
    make_attribute(PropertyTemplate("size", bounds=RealBounds(0, 5, "m")), 2.5)
    return [x, y, me]


def w_schema(g, t):
    from gemd.entity.dict_serializable import DictSerializable
    from gemd.entity.object import ProcessRun
    from gemd.json import GEMDJson
    p = ProcessRun("p%d" % t, tags=["a%d" % t])
    d = p.dump()
    q = ProcessRun.from_dict(dict(p.as_dict(), unknown=t))
    return [d, q, DictSerializable.build(p.as_dict() | {"type": "process_run"}), GEMDJson().raw_loads(GEMDJson().raw_dumps(p)), ProcessRun.build(p.as_dict())]


def w_instance(g, t):
    from gemd.entity.util import make_instance
    return [make_instance(x) for x in g.items if cname(x).endswith("Spec")]


def w_copy(g, t):
    from gemd.json import GEMDJson
    js = GEMDJson("scope%d" % t)
    two = js.copy(g.items)
    two[0].tags.append("changed")
    return [two, js.thin_dumps(g.items[0])]


def w_streams(g, t):
    import io
    from gemd.json import GEMDJson
    js = GEMDJson()
    s = io.StringIO()
    js.dump(g.items, s, indent=t)
    s.seek(0)
    return js.load(s)


def w_flat(g, t):
    from gemd.util import flatten
    from gemd.util.impl import writable_sort_order
    return [[cname(x) for x in flatten(g.items, "f%d" % t)], [cname(x) for x in sorted(g.items, key=writable_sort_order)], g.items]


def w_typed(g, t):
    from gemd.entity.object import ProcessSpec
    from gemd.entity.setters import validate_list, validate_str
    lst = validate_list(iter(["a%d" % t, "b"]), str, trigger=lambda x: x.upper())
    lst += ["c"]
    lst[0:1] = (x for x in "xy")
    lst.insert(0, "q")
    p = ProcessSpec("p", tags=lst)
    return [list(lst), attempt(lst.append, 5)[0], p, validate_str(" v%d " % t)]


def w_links(g, t):
    from gemd.entity.link_by_uid import LinkByUID
    its = g.items
    li = [LinkByUID.from_entity(x, scope="one") for x in its if x.uids]
    return [li, [[x == y for x in its] for y in li], [x.to_link(allow_fallback=True) if x.uids else None for x in its]]


WRITERS = {k[2:]: fresh_graph(v) for k, v in list(globals().items()) if k.startswith("w_")}
OPS = [f"r:{r}" for r in READERS] + [f"w:{w}" for w in WRITERS]
PARTNERS = ["r:thin", "r:links", "r:foreach", "w:edit", "w:typed"]
_READ = {}


def prepare(name, t, graphs=GRAPHS):
    """-> a function that gives (operation, objects it works on)"""
    kind, nm = name.split(":")
    if kind == "w":
        return WRITERS[nm](graphs[t], t)
    if (t, str(graphs)) not in _READ:
        _READ[t, str(graphs)] = readers(build(dict(graphs[t])))
    ops, state = _READ[t, str(graphs)]
    return lambda: (ops[nm], state)


class Alone:
    """what an operation gives when it runs by itself, and where it can be preempted"""

    def __init__(self, name, t, times=1, callers=True, graphs=GRAPHS):
        self.name = name
        self.make = prepare(name, t, graphs)
        for _ in range(2):      # twice, to fill caches
            f, state = self.make()
            self.res = outcome(attempt(f))
            self.after = canon(state)
        f, _ = self.make()
        self.events = events(f, times, callers)
        f, state = self.make()
        require(outcome(attempt(f)) == self.res and canon(state) == self.after, "%s repeated gives another result", name)

    def compare(self, r, state, what):
        got = outcome(r)
        require(got == self.res, "%s: %s gives %s", what, self.name, differ(got, self.res))
        if self.name.startswith("w:"):
            self.compare_state(state, what)

    def compare_state(self, state, what):
        now = canon(state)
        require(now == self.after, "%s: %s leaves %s", what, self.name, differ(now, self.after))


def case_pair(d):
    """one preemption: A is stopped once and B runs in between; two: B is stopped as well"""
    a = Alone(d["a"], 0, d.get("times", 1), d.get("callers", False), BIG if d.get("big") else GRAPHS)
    b = Alone(d["b"], 1, d.get("times", 1), d.get("callers", False), BIG if d.get("big") else GRAPHS)
    amb = ambient()
    n = 0
    ks = a.events[d["part"]::d["of"]]
    for k in ks:
        for j in [None] if d["bound"] == 1 else b.events:
            fa, sa = a.make()
            fb, sb = b.make()
            res = Turns(fa, fb, k, j).play()
            op()
            n += 1
            what = f"{d['b']} run in another thread while {d['a']} is at line event {k}" + ("" if j is None else f", and stopped itself at line event {j}")
            a.compare(res[0], sa, what)
            b.compare(res[1], sb, what)
            require(ambient() == amb, "%s: the surroundings are left changed", what)
    if n:
        a.compare_state(sa, what)
        b.compare_state(sb, what)
    return (d["a"], d["b"], d["bound"], len(a.events), n)


# ------------------------------------------------------------------------------------------------------------------- units

UNIT_OPS = [["parse", t] for t in ("m / 2 s", "m / 2.5 s", "m / 2 ms", "m / 25 s", "kg / 2 s", "m / (2 s) ** 2", "m * 2 * 2.5 s", "J/kg/K", "10**3", "gibberish", "m / 2 3 s", "2", "m/_2_second",
                                   "1e3 / 2 s", "degC", "m / 3*10**2 s")] + \
    [["convert", 1.5, a, b] for a, b in (("m / 2 s", "m/s"), ("m / 2 s", "m / 2.5 s"), ("degC", "K"), ("m", "s"), ("count", ""), ("g / 2.5 cm", "kg/m"))] + \
    [["base", t] for t in ("m / 2 s", "m / 2.5 s", "degC", "J", "nothing", "mile / hour")]


def unit_call(d):
    from gemd import units
    if d[0] == "parse":
        return lambda: [units.parse_units(d[1]), str(units.parse_units(d[1], return_unit=True))]
    if d[0] == "convert":
        return lambda: units.convert_units(*d[1:])
    return lambda: [str(x) for x in units.get_base_units(d[1])]


def unit_shape(r):
    return repr(r[1]) if r[0] == "ok" else type(r[1]).__name__


def unit_alone(d):
    return unit_shape(attempt(unit_call(d)))


def unit_turns(a, b, k, j):
    return [unit_shape(r) for r in Turns(unit_call(a), unit_call(b), k, j).play()] + [unit_shape(attempt(unit_call(x))) for x in (a, b)]


def case_units(d):
    a, b = UNIT_OPS[d["a"]], UNIT_OPS[d["b"]]
    want = [isolated(unit_alone, x) for x in (a, b)] * 2
    ks = isolated(events, unit_call(a), 1, False)
    n = 0
    for k in ks:
        for j in [None] if d["bound"] == 1 else isolated(events, unit_call(b), 1, False):
            got = isolated(unit_turns, a, b, k, j)
            n += 1
            require(got == want, "%r run in another thread while %r is at line event %s (and stopped itself at %s): the two, then the two again, give %s instead of %s", b, a, k, j, got, want)
    return ("units", d["a"], d["b"], n)


# --------------------------------------------------------------------------------------------------------------- re-entry

def entries(act):
    """operations that call the caller's code; act() is run each time they do"""
    from gemd.json import GEMDJson
    from gemd.util import recursive_flatmap, recursive_foreach
    g = build(dict(GRAPHS[0]))
    from gemd.entity.setters import validate_list

    def note(seen, x):
        seen.append(x)
        act()
        return [x]

    def foreach(first):
        seen = []
        recursive_foreach(g.items, lambda x: note(seen, x), apply_first=first)
        return seen

    def it(xs):
        for x in xs:
            act()
            yield x

    def hook():
        def up(x):
            act()
            return x.upper()
        lst = validate_list(["a", "b"], str, trigger=up)
        lst.extend(["c", "d"])
        lst[1:2] = ["x", "y"]
        return list(lst)

    def attach():
        from gemd.entity.object import MaterialRun, ProcessRun
        p = ProcessRun("p", tags=it(["a", "b"]))
        m = MaterialRun("m", process=p, file_links=it([]), tags=it(["x"]))
        m.tags = it(["z", "y"])
        m.tags.extend(it(["q"]))
        return [p, m]

    def write():
        class Out:
            def __init__(self):
                self.s = ""

            def write(self, s):
                act()
                self.s += s
        o = Out()
        GEMDJson().dump(g.items, o)
        return GEMDJson().loads(o.s)

    def read():
        class In:
            def read(self):
                act()
                return text
        return GEMDJson().load(In())
    text = GEMDJson().dumps(g.items)
    return {"foreach": lambda: foreach(False), "foreach first": lambda: foreach(True), "flatmap": lambda: recursive_flatmap(g.items, lambda x: note([], x), unidirectional=False),
            "flatmap one way": lambda: recursive_flatmap(g.items[0], lambda x: it([x])), "hook": hook, "attach": attach, "write": write, "read": read,
            "index": lambda: recursive_flatmap(it(g.items), lambda x: [x.name])}


ENTRIES = ["foreach", "foreach first", "flatmap", "flatmap one way", "hook", "attach", "write", "read", "index"]


def case_reenter(d):
    b = Alone(d["b"], 1)
    n = 0
    want = outcome(attempt(entries(lambda: None)[d["e"]]))

    def act():
        nonlocal n
        n += 1
        op()
        if n == d["at"] or d["at"] is None:
            f, state = b.make()
            b.compare(attempt(f), state, f"called from within {d['e']} (call {n})")
    r = outcome(attempt(entries(act)[d["e"]]))
    require(r == want, "%s while its caller's code runs %s gives %s", d["e"], d["b"], differ(r, want))
    return (d["e"], d["b"], n)


def run_case(d):
    if "e" in d:
        return case_reenter(d)
    return isolated(case_units if d.get("kind") == "units" else case_pair, d)


SMALL = ["r:raw", "r:raw_loads", "r:dump", "r:index", "r:foreach", "r:flatmap", "r:repr", "r:dependencies", "r:to_link", "r:links", "w:uids", "w:values", "w:enum", "w:links", "w:edit", "w:typed"]


def explore(ex):
    t = ex.thorough
    slow = ("r:history", "r:copy", "w:copy", "r:objects", "r:dumps", "w:inplace", "w:streams", "r:flatten", "w:flat", "w:builders", "w:check", "w:build", "r:equal", "r:unequal")

    def pairs(big):
        for a in OPS:
            for b in OPS if t and not big else sorted({a, *PARTNERS}):
                n = 6 if a in slow or t else 2
                for i in range(n):
                    yield {"a": a, "b": b, "bound": 1, "part": i, "of": n, "times": 2 if t else 1, "callers": t, "big": big}
    ex.enumerate("one preemption", pairs(0), chunk=1)
    if t:
        ex.enumerate("one preemption, larger graphs", pairs(1), chunk=1)
    ex.enumerate("two preemptions", ({"a": a, "b": a, "bound": 2, "part": i, "of": n} for a in (OPS if t else SMALL) for n in (32 if t else 6,) for i in range(n)), chunk=1)
    m = len(UNIT_OPS)
    ex.enumerate("units", ({"kind": "units", "a": i, "b": (i + j) % m, "bound": 1} for i in range(m) for j in (range(m) if t else (0, 1, 2, 5, 16))), chunk=1)
    ex.enumerate("re-entry", ({"e": e, "b": b, "at": at} for e in ENTRIES for b in OPS for at in ((1, 2, 3, None) if t else (1, None))), chunk=2)
