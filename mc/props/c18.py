"""C18: enumerated fields resolve exactly their values and synonyms."""
import itertools
import json
import warnings

from mc.core import attempt, require

ID = "C18"
BOUNDS = {"quick": "all enumeration definitions of up to 2 members with values from 5 strings (the empty one included) and up to 2 synonyms from 4, and of 3 members "
                   "without clashing synonyms; on each, every case variant (per letter for short strings), every padding of up to 2 "
                   "whitespace characters on either side and every near miss of every value, synonym and member name, over all resolution routes; "
                   "the real Origin and SampleType on all field routes with every prior value; every (old, new) migration and stacked pairs",
          "thorough": "definitions of 3 members with up to 2 synonyms each, paddings of 2 characters on both sides"}
ASSUMPTIONS = ["definitions whose synonyms clash with a synonym or value of another member are outside the claim (only duplicate values are documented as refused)"]

VALS = ["Aa", "b", "c d", "1", ""]
SYNS = ["Xy", "z", "0.5", "é"]
PADS = ["", " ", "\t", "\n", "  ", " \t", "\r\n", "\x0b", "\u2003"]
NAMES = ["RED", "Blue", "thrd"]


def norm(s):
    return s.lower().strip()


def variants(s):
    res = {s, s.lower(), s.upper(), s.title(), s.swapcase()}
    if len(s) <= 4:
        for bits in itertools.product([0, 1], repeat=len(s)):
            res.add("".join(c.upper() if b else c.lower() for c, b in zip(s, bits)))
    return sorted(res)


def near(s):
    res = {s[:-1], s[1:], s + s[-1:], "x" + s, s + "x", s + ".", s.replace(" ", ""), s.replace(" ", "  "), s[:1] + " " + s[1:], s[::-1], "_" + s}
    return sorted(res)


def probes(words, pads):
    pairs = [(p, q) for p in pads for q in pads] if pads is PADS else [(p, "") for p in PADS] + [("", q) for q in PADS] + [(" ", " "), ("\n", "\t")]
    res = set()
    for w in words:
        for v in variants(w):
            for p, q in pairs:
                res.add(p + v + q)
        for v in near(w):
            res.update((v, " " + v, v + "\n", v.upper()))
    res.update(("", " ", "None", "none", "null", "True", "other"))
    return sorted(res)


def model_of(defn):
    """defn: list of [name, value, [synonyms]].  None when a duplicate value makes the definition illegal."""
    seen, table = set(), {}
    for name, value, syns in defn:
        if value.lower().strip() in seen:
            return None
        seen.add(value.lower())
        for s in [value] + list(syns):
            seen.add(s.lower())
            table[s.lower()] = name
    return table


def clashing(defn):
    """a synonym that another member also claims"""
    words = [set([v.lower()] + [s.lower() for s in syns]) for _, v, syns in defn]
    return any(a & b for a, b in itertools.combinations(words, 2))


def make(defn):
    from gemd.enumeration.base_enumeration import BaseEnumeration
    from enum import EnumMeta
    ns = EnumMeta.__prepare__("E", (BaseEnumeration,))
    for name, value, syns in defn:
        ns[name] = (value, *syns) if syns else value
    return EnumMeta("E", (BaseEnumeration,), ns)


def check_members(cls, members):
    for m, value in members:
        from gemd.json import dumps, loads
        require(str(m) == value and m == value and m.value == value and f"{m}" == value and hash(m) == hash(value),
                "member of value %r reads %r %r %r", value, str(m), m.value, f"{m}")
        require(json.dumps(m) == json.dumps(value) and loads(dumps({"a": m})) == {"a": value}, "%r serializes as %s", value, json.dumps(m))
        require(cls(m) is m and cls.from_str(m) is m and cls.from_str(m, exception=True) is m, "member %r does not resolve to itself", value)
        require(m in list(cls), "member %r missing", value)


def resolve_all(cls, s, want):
    r = attempt(cls.from_str, s)
    require(r == ("ok", want) and (want is None or r[1] is want), "from_str(%r) gives %r, expected %r", s, r, want)
    for route, f in (("from_str(exception)", lambda: cls.from_str(s, exception=True)), ("constructor", lambda: cls(s))):
        k, v = attempt(f)
        if want is None:
            require(k == "exc" and isinstance(v, ValueError), "%s of %r gives %r, expected a ValueError", route, s, v)
        else:
            require(k == "ok" and v is want, "%s of %r gives %r, expected %r", route, s, v, want)


def fresh(s):
    """an equal string that is not the same object"""
    return "".join([c for c in s + "#"][:-1])


def run_def(case):
    defn = case["def"]
    table = model_of(defn)
    k, cls = attempt(make, defn)
    if table is None:
        require(k == "exc" and isinstance(cls, ValueError), "duplicate value accepted in %r: %r", defn, cls)
        return ("refused", repr(defn))
    require(k == "ok", "definition %r refused: %r", defn, cls)
    require([m.name for m in cls] == [d[0] for d in defn], "members of %r are %r", defn, list(cls))
    check_members(cls, [(getattr(cls, n), v) for n, v, _ in defn])
    for n, v, syns in defn:
        require(cls[fresh(n)] is getattr(cls, n), "lookup by name of %s", n)
        for s in syns:
            if s != v:
                require(getattr(cls, n) != s, "synonym %r compares equal to its member", s)
    words = [w for d in defn for w in [d[0], d[1]] + list(d[2])]
    for s in probes(words, PADS if case.get("deep") else None):
        name = table.get(norm(s))
        resolve_all(cls, s, None if name is None else getattr(cls, name))
    k, v = attempt(cls.from_str, None)
    require((k, v) == ("ok", None), "from_str(None)")
    k, v = attempt(cls.from_str, None, exception=True)
    require(k == "exc" and isinstance(v, ValueError), "from_str(None, exception=True) gives %r", v)
    for x in (None, 1, 0.5, ("Aa",), b"b"):
        k, v = attempt(cls, x)
        require(k == "exc", "%r constructs %r", x, v)
    # a subclass-independent second class with the same definition does not share members
    return ("ok", tuple(sorted(table)))


def run_bad(case):
    """non-string values and synonyms are refused"""
    defn = case["bad"]
    k, v = attempt(make, defn)
    require(k == "exc" and isinstance(v, (ValueError, TypeError)), "definition %r accepted", defn)
    return ("bad", repr(defn))


FIELDS = {
    "Property.origin": ("origin", "Origin", lambda **kw: _attr("Property", **kw)),
    "Condition.origin": ("origin", "Origin", lambda **kw: _attr("Condition", **kw)),
    "Parameter.origin": ("origin", "Origin", lambda **kw: _attr("Parameter", **kw)),
    "MaterialRun.sample_type": ("sample_type", "SampleType", lambda **kw: _mat(**kw)),
}
REAL = {"Origin": ["measured", "predicted", "summary", "specified", "computed", "unknown"],
        "SampleType": ["experimental", "production", "virtual", "unknown"]}


def _attr(c, **kw):
    import gemd.entity.attribute as a
    return getattr(a, c)("n", **kw)


def _mat(**kw):
    from gemd.entity.object import MaterialRun
    return MaterialRun("n", **kw)


def run_field(case):
    import gemd.enumeration as en
    from gemd.json import dumps, loads
    field, ename, mk = FIELDS[case["field"]]
    cls = getattr(en, ename)
    values = REAL[ename]
    require([m.value for m in cls] == values, "members of %s: %r", ename, [m.value for m in cls])
    check_members(cls, [(cls.from_str(v), v) for v in values])
    for s in probes([case["word"]], PADS if case.get("deep") else None):
        want = cls[norm(s).upper()] if norm(s) in values else None
        resolve_all(cls, s, want)
        k, obj = attempt(mk, **{field: s})
        if want is None:
            require(k == "exc" and isinstance(obj, ValueError), "%s=%r accepted at construction", field, s)
        else:
            require(k == "ok" and getattr(obj, field) is want, "%s=%r constructs %r", field, s, obj)
            back = loads(dumps(obj))
            require(getattr(back, field) is want, "%s=%r loads back as %r", field, s, getattr(back, field))
        for prior in values:
            obj = mk(**{field: prior})
            k, e = attempt(setattr, obj, field, s)
            now = getattr(obj, field)
            if want is None:
                require(k == "exc" and isinstance(e, ValueError), "assigning %r to %s accepted", s, field)
                require(now is cls.from_str(prior), "rejected %s assignment left %r", field, now)
            else:
                require(k == "ok" and now is want, "assigning %r to %s gives %r %r", s, field, e, now)
        for m in cls:
            obj = mk(**{field: m})
            require(getattr(obj, field) is m and obj.as_dict()[field] == m.value and obj.dump()[field] == m.value if field == "origin"
                    else getattr(obj, field) is m, "member %r as %s", m, field)
    obj = mk(**{field: values[0]})
    k, e = attempt(setattr, obj, field, None)
    require(k == "exc" and getattr(obj, field) == values[0], "None accepted as %s", field)
    return ("field", case["field"], case["word"])


def run_migrate(case):
    from gemd.enumeration.base_enumeration import migrated_enum
    import contextlib, io
    defn = case["def"]
    cls = make(defn)
    plain = make(defn)
    for old, new, _ in case["mig"]:
        with contextlib.redirect_stdout(io.StringIO()):
            cls2 = migrated_enum(old_value=old, new_value=new, deprecated_in="1.0.0", removed_in="3.0.0")(cls)
        require(cls2 is cls, "the decorator returns another class")
    require([m.name for m in cls] == [d[0] for d in defn], "members after migration: %r", list(cls))
    for old, new, target in case["mig"]:
        want = cls[target]
        for route, f in (("attribute", lambda: getattr(cls, old)), ("item", lambda: cls[fresh(old)])):
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                k, v = attempt(f)
            require(k == "ok" and v is want, "migrated %s by %s gives %r, expected %r", old, route, v, want)
            require(any(issubclass(w.category, DeprecationWarning) for w in ws), "no deprecation warning for %s by %s", old, route)
        k, v = attempt(lambda: plain[old])
        require(k == "exc", "another enumeration resolves %s", old)
    for n, v, syns in defn:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            got = [attempt(lambda: getattr(cls, n)), attempt(lambda: cls[n]), attempt(lambda: cls(v)), attempt(lambda: cls.from_str(v))]
        require(all(k == "ok" and m.value == v for k, m in got), "%s after migration: %r", n, got)
        require(not ws, "warning for current name %s", n)
    k, e = attempt(lambda: cls["NOPE"])
    require(k == "exc" and isinstance(e, KeyError), "unknown name gives %r", e)
    return ("mig", repr(case))


def run_case(case):
    return {"def": run_def, "bad": run_bad, "field": run_field, "mig": run_migrate}[case["k"]](case)


def synsets(k):
    return [list(c) for n in range(k + 1) for c in itertools.combinations(SYNS, n)]


def explore(ex):
    def defs():
        for n in (1, 2):
            for vals in itertools.product(VALS + ["AA", "B"], repeat=n):
                for syn in itertools.product(synsets(2) + [["Aa"], ["B", "z"]], repeat=n):
                    d = [[NAMES[i], v, s] for i, (v, s) in enumerate(zip(vals, syn))]
                    # value duplicating an earlier value or synonym must be refused; other clashes are outside the claim
                    if model_of(d) is not None and clashing(d):
                        continue
                    yield {"k": "def", "def": d, "deep": ex.thorough}
        for vals in itertools.product(VALS[:3] + ["AA"], repeat=3):
            for syn in itertools.product(synsets(2 if ex.thorough else 1), repeat=3):
                d = [[NAMES[i], v, s] for i, (v, s) in enumerate(zip(vals, syn))]
                if model_of(d) is not None and clashing(d):
                    continue
                yield {"k": "def", "def": d}
        for bad in (1, 0.5, ["x"]):
            for d in ([["RED", bad, []]], [["RED", "a", [bad]]], [["RED", "a", []], ["Blue", bad, []]], [["RED", "a", ["b"]], ["Blue", "c", ["d", bad]]]):
                yield {"k": "bad", "bad": d}
    ex.enumerate("enumeration definitions", defs(), chunk=8)

    def fields():
        for f, (_, ename, _) in FIELDS.items():
            for w in REAL[ename] + ["computational", "exp", "", "measured;predicted", "experimental production"]:
                if w:
                    yield {"k": "field", "field": f, "word": w, "deep": ex.thorough}
    ex.enumerate("Origin and SampleType fields", fields(), chunk=1)

    def migs():
        base = [["RED", "Red", ["r"]], ["BLUE", "blue", []], ["Grn", "c d", ["g", "h"]]]
        news = [("Red", "RED"), ("red ", "RED"), ("R", "RED"), ("BLUE", "BLUE"), ("blue", "BLUE"), ("C D", "Grn"), ("h", "Grn")]
        olds = ["OLD", "Crimson", "red", "_x"][:3]
        for o, (n, t) in itertools.product(olds, news):
            yield {"k": "mig", "def": base, "mig": [[o, n, t]]}
        for (o1, o2) in itertools.permutations(olds, 2):
            for (n1, t1), (n2, t2) in itertools.product(news, repeat=2):
                yield {"k": "mig", "def": base, "mig": [[o1, n1, t1], [o2, n2, t2]]}
    ex.enumerate("migrated names", migs(), chunk=8)
