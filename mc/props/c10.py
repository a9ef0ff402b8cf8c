"""C10: typed lists only ever hold elements of the allowed types.

Model: a plain Python list; additions are type checked and mapped through the hook first.
"""
import copy
import itertools
import pickle

from mc.core import attempt, fingerprint, op, require

ID = "C10"
BOUNDS = {"quick": "all histories of ~150 list operations up to length 4 (contents up to length 5) for 2 type filters x 5 hooks (a result that is false in Python included); "
                   "every list field of every class x every container kind x contents of up to 2 right/wrong elements, "
                   "by construction, assignment and 8 list operations",
          "thorough": "histories to depth 6 (contents up to length 6), field contents of up to 3 elements"}
ASSUMPTIONS = ["hooks return elements of the allowed types"]

TYPES = {"str": (str,), "strint": (str, int)}
GOOD = {"str": ["a", "b"], "strint": ["a", 1]}
BAD = {"str": [1, None, ["a"]], "strint": [2.5, None]}
HOOKS = ["absent", "silent", "mapping", "raising", "falsy"]
CONTAINERS = ["list", "tuple", "gen", "iter", "valid", "dictkeys", "map"]
MAXLEN = {"q": 5, "t": 6}


def hook_fn(kind, calls):
    def silent(x):
        calls.append(x)

    def mapping(x):
        calls.append(x)
        return {"a": "A", 1: 7}.get(x) if isinstance(x, (str, int)) else None

    def raising(x):
        calls.append(x)
        if x == "b" or x == 1:
            raise ValueError("hook refuses")

    def falsy(x):
        calls.append(x)
        return {"a": "", 1: 0}.get(x) if isinstance(x, (str, int)) else None
    return {"absent": None, "silent": silent, "mapping": mapping, "raising": raising, "falsy": falsy}[kind]


def hook_model(kind, x):
    """('ok', stored) or ('exc',)"""
    if kind == "mapping":
        return {"a": "A", 1: 7}.get(x, x)
    if kind == "falsy":
        return {"a": "", 1: 0}.get(x, x)
    if kind == "raising" and (x == "b" or x == 1):
        raise ValueError
    return x


def container(kind, xs, types):
    from gemd.entity.valid_list import ValidList
    xs = list(xs)
    if kind == "list":
        return xs
    if kind == "tuple":
        return tuple(xs)
    if kind == "gen":
        return (x for x in xs)
    if kind == "iter":
        return iter(xs)
    if kind == "map":
        return map(lambda x: x, xs)
    if kind == "dictkeys":
        return {i: x for i, x in enumerate(xs)}.values()
    if kind == "valid":
        return ValidList(xs, object)
    raise ValueError(kind)


def events_for(tkey):
    good, bad = GOOD[tkey], BAD[tkey]
    el = good + bad
    ev = []
    for x in el:
        ev += [["append", x], ["insert", 0, x], ["insert", 1, x], ["insert", 99, x], ["insert", -1, x],
               ["setitem", 0, x], ["setitem", -1, x], ["setitem", 5, x]]
    g0, g1, b0 = good[0], good[1], bad[0]
    seqs = [[], [g0], [g1, g0], [g0, g0], [b0], [g0, b0], [b0, g0]]
    for xs in seqs:
        for c in CONTAINERS:
            ev.append(["extend", c, xs])
            if c in ("list", "tuple", "gen", "iter", "valid"):
                ev.append(["iadd", c, xs])
        for sl in ([0, 1, None], [None, None, None], [1, 1, None], [None, None, 2], [5, 9, None], [None, None, -1], [0, 3, 2]):
            for c in ("list", "gen"):
                ev.append(["slice", sl, c, xs])
    ev += [["extend", "string", "ab"], ["extend", "self", None], ["iadd", "self", None], ["slice", [None, None, None], "self", None],
           ["extend", "noniter", 5], ["iadd", "noniter", 5], ["slice", [0, 1, None], "noniter", 5]]
    ev += [["del", 0], ["del", -1], ["del", 9], ["delslice", [0, 2, None]], ["delslice", [None, None, 2]],
           ["pop", None], ["pop", 0], ["pop", 9], ["remove", g0], ["remove", "zzz"], ["clear"], ["reverse"],
           ["imul", 0], ["imul", 2], ["sort", None], ["sort", "rev"]]
    return ev


EV = {k: events_for(k) for k in TYPES}


def events(setup):
    return EV[setup[1]]


def admit(xs, types, hook):
    """stored values, or raises"""
    for x in xs:
        if not isinstance(x, types):
            raise TypeError
    return [hook_model(hook, x) for x in xs]


def run_history(hist):
    from gemd.entity.valid_list import ValidList
    _, tkey, hook, cap = hist[0]
    types = TYPES[tkey]
    calls = []
    v = ValidList([], types if len(types) > 1 else types[0], hook_fn(hook, calls))
    m = []
    op()
    for ev in hist[1:]:
        kind = ev[0]
        before = list(m)
        del calls[:]
        added = []
        ident = v
        try:
            if kind == "append":
                f = lambda: v.append(ev[1])
                added = [ev[1]]
                m.append(admit(added, types, hook)[0])
            elif kind == "insert":
                f = lambda: v.insert(ev[1], ev[2])
                added = [ev[2]]
                m.insert(ev[1], admit(added, types, hook)[0])
            elif kind == "setitem":
                f = lambda: v.__setitem__(ev[1], ev[2])
                added = [ev[2]]
                m[ev[1]] = admit(added, types, hook)[0]
            elif kind in ("extend", "iadd", "slice"):
                c, xs = ev[-2], ev[-1]
                if c == "self":
                    arg, added = v, list(m)
                elif c == "string":
                    arg, added = xs, list(xs)
                elif c == "noniter":
                    arg, added = xs, []
                else:
                    arg, added = container(c, xs, types), list(xs)
                if kind == "extend":
                    f = lambda: v.extend(arg)
                elif kind == "iadd":
                    def f():
                        nonlocal v
                        v += arg
                else:
                    f = lambda: v.__setitem__(slice(*ev[1]), arg)
                if c == "noniter":
                    raise TypeError
                new = admit(added, types, hook)
                if kind == "slice":
                    m[slice(*ev[1])] = new
                else:
                    m.extend(new)
            elif kind == "del":
                f = lambda: v.__delitem__(ev[1])
                del m[ev[1]]
            elif kind == "delslice":
                f = lambda: v.__delitem__(slice(*ev[1]))
                del m[slice(*ev[1])]
            elif kind == "pop":
                f = v.pop if ev[1] is None else (lambda: v.pop(ev[1]))
                m.pop() if ev[1] is None else m.pop(ev[1])
            elif kind == "remove":
                f = lambda: v.remove(ev[1])
                m.remove(ev[1])
            elif kind == "clear":
                f = v.clear
                m.clear()
            elif kind == "reverse":
                f = v.reverse
                m.reverse()
            elif kind == "imul":
                if len(m) * ev[1] > cap:
                    continue
                def f():
                    nonlocal v
                    v *= ev[1]
                m *= ev[1]
            elif kind == "sort":
                kw = {"reverse": True} if ev[1] else {}
                f = lambda: v.sort(key=str, **kw)
                m.sort(key=str, **kw)
            ok = True
        except (TypeError, ValueError, IndexError):
            ok = False
            m = before
        if len(m) > cap:
            m = before
            continue
        r, res = attempt(f)
        if ok:
            require(r == "ok", "%s on %s failed: %r", ev, before, res)
            if hook != "absent":
                require(sorted(map(repr, calls)) == sorted(map(repr, added)),
                        "%s on %s: the hook was called with %s for added elements %s", ev, before, calls, added)
        else:
            require(r == "exc", "%s on %s must be rejected, gives %s", ev, before, list(v))
        require(v is ident, "%s replaced the list by a %s", ev, type(v))
        require(type(v) is ValidList, "the list became a %s", type(v))
        require(list(v) == m and len(v) == len(m) and [type(x) for x in v] == [type(x) for x in m],
                "%s on %s gives %s, expected %s", ev, before, list(v), m)
        require(v == m and (not m or v[0] == m[0]) and (m == [] or m[-1] in v), "list behaviour broken after %s", ev)
    del calls[:]      # part of the harness, not of the state
    return (tuple(map(str, hist[0])), tuple(map(repr, m)), fingerprint(v))


# --------------------------------------------------------------------------------------------------- fields
# class, field, element kind
FIELDS = []
for _c in ("ProcessRun", "ProcessSpec", "MaterialRun", "MaterialSpec", "MeasurementRun", "MeasurementSpec",
           "IngredientRun", "IngredientSpec"):
    FIELDS += [[_c, "tags", "str"], [_c, "file_links", "link"]]
for _c in ("PropertyTemplate", "ConditionTemplate", "ParameterTemplate", "ProcessTemplate", "MaterialTemplate",
           "MeasurementTemplate"):
    FIELDS += [[_c, "tags", "str"]]
for _c in ("Property", "Condition", "Parameter"):
    FIELDS += [[_c, "file_links", "link"]]
for _c in ("ProcessRun", "ProcessSpec", "MeasurementRun", "MeasurementSpec"):
    FIELDS += [[_c, "conditions", "cond"], [_c, "parameters", "param"]]
FIELDS += [["MeasurementRun", "properties", "prop"], ["MaterialSpec", "properties", "pac"],
           ["IngredientSpec", "labels", "str"], ["ProcessTemplate", "allowed_names", "str"],
           ["ProcessTemplate", "allowed_labels", "str"], ["PropertyAndConditions", "conditions", "cond"]]
FIELDS += [[c, "conditions", "condt"] for c in ("ProcessTemplate", "MeasurementTemplate")]
FIELDS += [[c, "parameters", "paramt"] for c in ("ProcessTemplate", "MeasurementTemplate")]
FIELDS += [[c, "properties", "propt"] for c in ("MaterialTemplate", "MeasurementTemplate")]

ELEMS = {"str": ["a", "b"], "link": ["l1", "l2"], "cond": ["c1", "c2"], "param": ["p1", "p2"], "prop": ["r1", "r2"],
         "pac": ["pc1"], "condt": ["ct1", "ct2+", "ct3[", "uid"], "paramt": ["mt1", "mt2+", "mt3-", "uid"], "propt": ["rt1", "rt2+", "rt3-", "uid"]}
WRONG = {"str": ["#5", "l1"], "link": ["a"], "cond": ["p1", "a"], "param": ["c1", "a"], "prop": ["c1", "a"], "pac": ["r1", "a"],
         "condt": ["mt1", "#5", "ct4?", "mt7+"], "paramt": ["rt1", "a", "mt5(", "5mt", "rt7-"], "propt": ["ct1", "a", "rt6!", "ct7["]}
ROUTES = ["ctor", "assign", "append", "extend", "iadd", "insert", "setitem", "slice", "scalar", "none"]


def element(code):
    from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
    from gemd.entity.bounds import IntegerBounds
    from gemd.entity.file_link import FileLink
    from gemd.entity.link_by_uid import LinkByUID
    from gemd.entity.template import ConditionTemplate, ParameterTemplate, PropertyTemplate
    if code == "#5":
        return 5
    if code == "uid":
        return LinkByUID("id", "x")
    if code[:2] in ("ct", "mt", "rt"):
        cls = {"c": ConditionTemplate, "m": ParameterTemplate, "r": PropertyTemplate}[code[0]]
        t = cls(code, bounds=IntegerBounds(0, 10))
        b = IntegerBounds(1, 5)
        return {"+": (t, b), "[": [t, b], "-": (t, None), "?": (t, 5), "(": (t,), "!": (t, b, b)}.get(code[-1], t)
    if code == "5mt":
        return (5, IntegerBounds(1, 5))
    if code[:2] == "pc":
        return PropertyAndConditions(Property(code))
    if len(code) == 2:
        return {"l": lambda: FileLink(code, "u"), "c": lambda: Condition(code), "p": lambda: Parameter(code),
                "r": lambda: Property(code)}[code[0]]()
    return code


def make(cls, **kw):
    import gemd.entity.attribute as A
    import gemd.entity.object as O
    import gemd.entity.template as T
    from gemd.entity.bounds import IntegerBounds
    for mod in (O, T, A):
        if hasattr(mod, cls):
            klass = getattr(mod, cls)
            break
    if cls in ("PropertyTemplate", "ConditionTemplate", "ParameterTemplate"):
        kw["bounds"] = IntegerBounds(0, 1)
    if cls == "PropertyAndConditions":
        return klass(property=A.Property("p"), **kw)
    if cls == "IngredientRun":
        return klass(**kw)
    return klass("nm", **kw)


def same(stored, given, kind):
    """the stored element is the given one (template fields normalise to (template, bounds) pairs)"""
    if kind in ("condt", "paramt", "propt"):
        if not isinstance(stored, (tuple, list)) or len(stored) != 2:
            return False
        if isinstance(given, (tuple, list)):
            return stored[0] is given[0] and stored[1] is given[1]
        return stored[0] is given and stored[1] is None
    return stored is given


def run_field(case):
    _, cls, field, kind, route, cont, codes = case
    xs = [element(c) for c in codes]
    good = all(c in ELEMS[kind] for c in codes)
    base_codes = ELEMS[kind][:1]
    base = [element(c) for c in base_codes]
    scalar_ok = kind not in ("condt", "paramt", "propt")
    if route == "ctor":
        r, obj = attempt(lambda: make(cls, **{field: container(cont, xs, None)}))
        if not good:
            require(r == "exc", "constructing %s with %s=%s must be rejected", cls, field, codes)
            return ("rejected",)
        require(r == "ok", "constructing %s with %s=%s (%s) failed: %r", cls, field, codes, cont, obj)
        expect = xs
    else:
        obj = make(cls, **{field: base})
        op()
        lst = getattr(obj, field)
        if route == "assign":
            arg = container(cont, xs, None)
            f = lambda: setattr(obj, field, arg)
            expect = xs
        elif route == "scalar":
            # a lone element is documented as a list of one (for template fields only a bare template, not a pair)
            f = lambda: setattr(obj, field, xs[0])
            expect = xs
        elif route == "none":
            f = lambda: setattr(obj, field, None)
            expect = []
            good = True
        elif route == "append":
            f = lambda: lst.append(xs[0])
            expect = base + xs
        elif route == "insert":
            f = lambda: lst.insert(0, xs[0])
            expect = xs + base
        elif route == "setitem":
            f = lambda: lst.__setitem__(0, xs[0])
            expect = xs
        elif route == "extend":
            arg = container(cont, xs, None)
            f = lambda: lst.extend(arg)
            expect = base + xs
        elif route == "iadd":
            def f():
                l2 = lst
                l2 += container(cont, xs, None)
                require(l2 is lst, "+= made another list")
            expect = base + xs
        elif route == "slice":
            f = lambda: lst.__setitem__(slice(0, 1), container(cont, xs, None))
            expect = xs
        r, e = attempt(f)
        if good:
            require(r == "ok", "%s of %s (%s) to %s.%s failed: %r", route, codes, cont, cls, field, e)
        else:
            require(r == "exc", "%s of %s (%s) to %s.%s must be rejected", route, codes, cont, cls, field)
            expect = base
    got = list(getattr(obj, field))
    require(len(got) == len(expect) and all(same(g, x, kind) for g, x in zip(got, expect)),
            "%s of %s (%s) to %s.%s: the field now holds %s", route, codes, cont, cls, field, got)
    if route in ("ctor", "assign") and good and cont == "list":
        # still a typed list afterwards, and independent of the argument
        lst = getattr(obj, field)
        r, e = attempt(lst.append, element(WRONG[kind][0]))
        require(r == "exc", "appending %s to %s.%s must be rejected", WRONG[kind][0], cls, field)
        require(len(lst) == len(expect), "a rejected append changed the list")
    return (cls, field, route, len(expect), good)


def run_independent(case):
    """two objects given the same list do not share it; assigning a list and editing the argument changes nothing"""
    _, cls, field, kind = case
    arg = [element(c) for c in ELEMS[kind][:1]]
    a, b = make(cls, **{field: arg}), make(cls, **{field: arg})
    op(2)
    getattr(a, field).append(element(ELEMS[kind][0]))
    require(len(getattr(b, field)) == 1 and len(arg) == 1, "%s.%s is shared with the argument or another object", cls, field)
    arg.clear()
    require(len(getattr(b, field)) == 1, "%s.%s follows later changes of the argument", cls, field)
    setattr(b, field, getattr(a, field))
    getattr(b, field).append(element(ELEMS[kind][0]))
    require(len(getattr(a, field)) == 2, "%s.%s is shared after assigning one object's list to another", cls, field)
    return (cls, field, "independent")


def run_case(case):
    if case[0] == "field":
        return run_field(case)
    if case[0] == "independent":
        return run_independent(case)
    return run_history(case)


def field_cases(n):
    for cls, field, kind in FIELDS:
        yield ["independent", cls, field, kind]
        el = ELEMS[kind] + WRONG[kind]
        seqs = [list(x) for k in range(n + 1) for x in itertools.product(el, repeat=k)]
        for route in ROUTES:
            if route == "none":
                yield ["field", cls, field, kind, route, "-", []]
            elif route in ("append", "insert", "setitem", "scalar"):
                for c in el:
                    if route == "scalar" and (c[-1] in "+[-?(!" or c == "5mt" or (kind.endswith("t") and c == "#5")):
                        continue
                    if route == "scalar" and kind != "str" and c == "a":
                        continue       # a lone wrong string is iterated in template fields: covered by list routes
                    yield ["field", cls, field, kind, route, "-", [c]]
            else:
                for cont in CONTAINERS:
                    for s in seqs:
                        yield ["field", cls, field, kind, route, cont, s]


def explore(ex):
    cap = MAXLEN["t" if ex.thorough else "q"]
    ex.enumerate("list fields of every class", field_cases(3 if ex.thorough else 2), chunk=100)
    setups = [["hist", t, h, cap] for t in TYPES for h in HOOKS]
    ex.bfs("list histories", setups, events, 6 if ex.thorough else 4)
