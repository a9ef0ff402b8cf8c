"""C13: values and bounds never enter an invalid state.

Model per class: a dict of field values and, per field, what an assignment of each probe does (the stored value, or reject).
"""
import itertools
import math

from mc.core import attempt, fingerprint, require

ID = "C13"
BOUNDS = {"quick": "13 classes: every construction from the probe values of each field, and all assignment histories to closure over ~20 probe "
                   "values per field (in range, reversed, equal, negative zero, huge, fractional, non-finite, none, wrong type; good, equivalent and bad units; "
                   "probability maps summing to one, off by more and by less than rounding, empty, not numbers; all container types)",
          "thorough": "the same alphabets with more probe values (neighbouring floats, 2**53 and 2**64 limits, all unit strings)"}
ASSUMPTIONS = ["lower/upper/mean/std of real values and nominal of a nominal real are plain fields checked at construction only"]

REJECT = "REJECT"
BIG = 2 ** 60 + 1


def probes(thorough):
    reals = ["-1", "-0.0", "0", "0.1+0.2", "2.5", "3", "True", "nan", "inf", "-inf", "None", "str", "list", "10**400", "1e308", "frac"]
    ints = ["-1", "0", "1", "2.0", "2.5", "3", "BIG", "BIG+1", "True", "nan", "inf", "None", "str", "list", "1e300", "0.1+0.2"]
    if thorough:
        reals += ["5e-324", "0.3", "2.5+eps", "2.5-eps", "-1e308", "complex"]
        ints += ["2**53", "2**53+1", "float(2**53)", "-BIG", "1e16", "2**64", "-0.0", "complex"]
    return reals, ints


def val(code):
    from fractions import Fraction
    return {"-1": -1, "-0.0": -0.0, "0": 0, "0.1+0.2": 0.1 + 0.2, "0.3": 0.3, "1": 1, "2.0": 2.0, "2.5": 2.5, "3": 3, "True": True, "nan": math.nan, "inf": math.inf,
            "-inf": -math.inf, "None": None, "str": "2", "list": [1], "10**400": 10 ** 400, "1e308": 1e308, "-1e308": -1e308, "frac": Fraction(7, 4), "BIG": BIG,
            "BIG+1": BIG + 1, "-BIG": -BIG, "1e300": 1e300, "5e-324": 5e-324, "2.5+eps": math.nextafter(2.5, 3), "2.5-eps": math.nextafter(2.5, 2),
            "2**53+1": 2 ** 53 + 1, "2**53": 2 ** 53, "float(2**53)": float(2 ** 53), "1e16": 1e16, "2**64": 2 ** 64, "complex": 2j}[code]


def as_real(v):
    """what a real limit stores, or REJECT"""
    try:
        f = float(v) if not isinstance(v, (str, list, complex)) and v is not None else math.nan
    except OverflowError:
        return REJECT
    return f if math.isfinite(f) else REJECT


def as_int(v, types=(int, float)):
    if not isinstance(v, (int, float)) or (isinstance(v, float) and (not math.isfinite(v) or v != int(v))):
        return REJECT
    return int(v)


UNITS = {"m": "meter", "meter": "meter", "cm": "centimeter", "": "dimensionless", "J/kg": "joule / kilogram", "joule / kg": "joule / kilogram",
         "kg**-1 * J": "joule / kilogram", "g / 2.5 cm": "gram / 2.5 centimeter", "degC": "degree_Celsius", "percent": "percent"}
BADU = ["None", "JOULE", "nonsense", "int", "list", "10 mg", "m**", "@"]


def unit(code):
    return {"None": None, "int": 5, "list": ["m"]}.get(code, code)


def as_unit(code):
    from gemd.units import parse_units
    if code in BADU:
        return REJECT
    p = parse_units(code)
    require(p == UNITS[code], "units %r canonical form is %r, expected %r", code, p, UNITS[code])
    require(parse_units(p) == p, "canonical form %r is not stable", p)
    return p


CATS = ["none", "[]", "[a]", "[a,b]", "[b,a,a]", "{}", "{a}", "{a,b}", "(a,)", "[é]", "[a,5]", "{5}", "[None]", "[[a]]", "(a,b'b')", "str", "int", "frozen", "gen", "dict", "np", "np5"]


def cats(code):
    import numpy as np
    return {"none": None, "[]": [], "[a]": ["a"], "[a,b]": ["a", "b"], "[b,a,a]": ["b", "a", "a"], "{}": set(), "{a}": {"a"}, "{a,b}": {"a", "b"}, "(a,)": ("a",),
            "[é]": ["é"], "[a,5]": ["a", 5], "{5}": {5}, "[None]": [None], "[[a]]": [["a"]], "(a,b'b')": ("a", b"b"), "str": "ab", "int": 5,
            "frozen": frozenset("ab"), "gen": iter(["a"]), "dict": {"a": 1}, "np": np.array(["a", "b"]), "np5": np.array([5])}[code]


def as_cats(code):
    if code in ("[a,5]", "{5}", "[None]", "[[a]]", "(a,b'b')", "str", "int", "frozen", "gen", "dict", "np5"):
        return REJECT
    v = cats(code)
    return tuple(sorted(set() if v is None else {str(x) for x in v}))


PROBS = {"{a:1}": {"a": 1}, "{a:1.0}": {"a": 1.0}, "ab": {"a": 0.25, "b": 0.75}, "tenths": {str(i): 0.1 for i in range(10)}, "almost": {"a": 0.3, "b": 0.7 + 1e-12},
         "zero": {"a": 1, "b": 0}, "str": "red", "strempty": "", "over": {"a": 0.5, "b": 0.6}, "under": {"a": 0.5, "b": 0.4}, "off": {"a": 0.5, "b": 0.5 + 1e-6},
         "off7": {"a": 0.5, "b": 0.5 + 1e-7}, "off-": {"a": 0.5, "b": 0.5 - 1e-6}, "{}": {}, "nan": {"a": math.nan}, "nan2": {"a": 1.0, "b": math.nan}, "inf": {"a": math.inf}, "infs": {"a": math.inf, "b": -math.inf},
         "key": {5: 1.0}, "keys": {"a": 0.5, 5: 0.5}, "valstr": {"a": "1"}, "list": ["a"], "pairs": [["a", 1.0]], "int": 1, "two": {"a": 1.0, "b": 1.0}, "none": None}


def as_probs(code):
    v = PROBS[code]
    if v is None:
        return None
    if isinstance(v, str):
        return ((v, 1.0),)
    if not isinstance(v, dict) or code in ("key", "keys", "valstr"):
        return REJECT
    s = sum(v.values())
    if not abs(s - 1) <= 1e-9:
        return REJECT
    return tuple(v.items())


def spec(cls, thorough):
    """field -> list of (code, value maker, stored or REJECT)"""
    reals, ints = probes(thorough)
    if cls in ("RealBounds",):
        return {"lower_bound": [(c, as_real(val(c))) for c in reals], "upper_bound": [(c, as_real(val(c))) for c in reals],
                "default_units": [("u:" + u, as_unit(u)) for u in list(UNITS) + BADU]}
    if cls in ("IntegerBounds", "UniformInteger"):
        return {"lower_bound": [(c, as_int(val(c))) for c in ints], "upper_bound": [(c, as_int(val(c))) for c in ints]}
    if cls == "NominalInteger":
        return {"nominal": [(c, as_int(val(c))) for c in ints]}
    if cls == "CategoricalBounds":
        return {"categories": [("c:" + c, as_cats(c)) for c in CATS]}
    if cls == "CompositionBounds":
        return {"components": [("c:" + c, as_cats(c)) for c in CATS]}
    if cls == "DiscreteCategorical":
        return {"probabilities": [("p:" + c, as_probs(c)) for c in PROBS]}
    if cls == "NominalCategorical":
        return {"category": [("s:" + c, v) for c, v in (("red", "red"), ("", ""), ("é", "é"), ("none", None), ("int", REJECT), ("list", REJECT), ("bytes", REJECT))]}
    if cls in ("NominalReal", "NormalReal", "UniformReal"):
        return {"units": [("u:" + u, as_unit(u)) for u in list(UNITS) + BADU]}
    if cls == "NominalComposition":
        return {"quantities": [("q:" + c, v) for c, v in (("none", ()), ("{}", ()), ("{a:1}", (("a", 1),)), ("ab", (("a", 0.5), ("b", 2))), ("list", (("x", 1), ("y", 3))),
                                                          ("tuples", (("x", 1),)), ("[]", ()), ("str", REJECT), ("int", REJECT), ("set", REJECT), ("badlist", REJECT), ("tuple", REJECT))]}
    raise KeyError(cls)


def arg(code):
    if code[:2] == "u:":
        return unit(code[2:])
    if code[:2] == "c:":
        return cats(code[2:])
    if code[:2] == "p:":
        v = PROBS[code[2:]]
        return dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v
    if code[:2] == "s:":
        return {"none": None, "int": 5, "list": ["red"], "bytes": b"red"}.get(code[2:], code[2:])
    if code[:2] == "q:":
        return {"none": None, "{}": {}, "{a:1}": {"a": 1}, "ab": {"a": 0.5, "b": 2}, "list": [["x", 1], ["y", 3]], "tuples": [("x", 1)], "[]": [], "str": "ab", "int": 3,
                "set": {"a"}, "badlist": [["x"]], "tuple": (("x", 1),)}[code[2:]]
    return val(code)


def ordered(cls, state):
    return not ("lower_bound" in state and "upper_bound" in state) or state["lower_bound"] <= state["upper_bound"]


def read(cls, obj, fields):
    res = {}
    for f in fields:
        v = getattr(obj, f)
        if f in ("categories", "components"):
            require(isinstance(v, set) and all(isinstance(x, str) for x in v), "%s is %r", f, v)
            v = tuple(sorted(str(x) for x in v))
        elif isinstance(v, dict):
            v = tuple(v.items())
        res[f] = v
    return res


def exact(f, got, want, cls):
    if want is None or got is None:
        return want is None and got is None
    if f in ("lower_bound", "upper_bound", "nominal") and not isinstance(want, tuple):
        t = float if cls == "RealBounds" else int
        return type(got) is t and got == want and (t is int or math.copysign(1, got) == math.copysign(1, want) or got != 0)
    return got == want


def invariant(cls, st):
    if "lower_bound" in st:
        require(st["lower_bound"] <= st["upper_bound"] and math.isfinite(st["lower_bound"]) and math.isfinite(st["upper_bound"]), "%s in state %r", cls, st)
    for u in ("units", "default_units"):
        if u in st:
            require(isinstance(st[u], str), "%s without units: %r", cls, st)
    if st.get("probabilities"):
        require(abs(sum(p for _, p in st["probabilities"]) - 1) <= 1e-9 and all(isinstance(k, str) for k, _ in st["probabilities"]), "%s in state %r", cls, st)


FIXED = {"NominalReal": {"nominal": 1.5}, "NormalReal": {"mean": 1.0, "std": 0.5}, "UniformReal": {"lower_bound": 0.0, "upper_bound": 2.0}}


def construct(cls, kw):
    import gemd.entity.bounds as gb
    import gemd.entity.value as gv
    return (getattr(gb, cls, None) or getattr(gv, cls))(**kw)


def meddle(given):
    """the caller goes on using the containers it passed in; the object must not notice"""
    for x in given:
        if isinstance(x, dict):
            x["zz"] = 7
        elif isinstance(x, list):
            x.append("zz")
        elif isinstance(x, set):
            x.add("zz")


def run_case(hist):
    if isinstance(hist, dict):
        return run_plain(hist)
    head = hist[0]
    cls, thorough = head["cls"], head["thorough"]
    sp = {f: dict(ps) for f, ps in spec(cls, thorough).items()}
    fields = list(sp)
    kw = {f: arg(c) for f, c in head["init"].items()}
    want = {f: sp[f][c] for f, c in head["init"].items()}
    k, obj = attempt(construct, cls, dict(kw, **FIXED.get(cls, {})))
    bad = REJECT in want.values() or not ordered(cls, want)
    require((k == "exc") is bad, "%s(%r): %s", cls, head["init"], repr(obj) if k == "exc" else "accepted")
    if bad:
        return (cls, "rejected")
    state = want

    def check(what):
        got = read(cls, obj, fields)
        invariant(cls, got)
        for f in fields:
            require(exact(f, got[f], state[f], cls), "%s: %s of %s reads %r, expected %r", what, f, cls, got[f], state[f])
        for f, v in FIXED.get(cls, {}).items():
            require(getattr(obj, f) == v, "%s: %s of %s became %r", what, f, cls, getattr(obj, f))
    own = cls == "DiscreteCategorical"     # the bounds and NominalComposition keep a set or dict they are given
    given = list(kw.values()) if own else []
    meddle(given)
    check("construction")
    for f, c in hist[1:]:
        new = dict(state)
        new[f] = sp[f][c]
        bad = new[f] == REJECT or not ordered(cls, new)
        x = arg(c)
        k, e = attempt(setattr, obj, f, x)
        require((k == "exc") is bad, "%s in state %r: %s = %s: %s", cls, state, f, c, repr(e) if k == "exc" else "accepted")
        if not bad:
            state = new
        if own:
            given.append(x)
        meddle(given)
        check(f"after {f} = {c}")
    return (cls, repr(sorted(state.items())), fingerprint(obj))


def run_plain(case):
    """constructor-only constraints of real values"""
    from gemd.entity.value import NominalReal, UniformReal
    if case["k"] == "uniform":
        lo, hi = val(case["lo"]), val(case["hi"])
        k, v = attempt(UniformReal, lo, hi, "m")
        try:
            ok = lo <= hi
        except TypeError:
            ok = False
        require((k == "ok") is ok, "UniformReal(%r, %r): %r", lo, hi, v)
        if ok:
            require(v.lower_bound == lo and v.upper_bound == hi and v.units == "meter", "UniformReal(%r, %r) reads %r", lo, hi, v)
        return ("uniform", case["lo"], case["hi"])
    x = val(case["x"])
    k, v = attempt(NominalReal, x, "m")
    ok = isinstance(x, (int, float)) and not (isinstance(x, int) and abs(x) > 1e308)
    require((k == "ok") is ok, "NominalReal(%r): %r", x, v)
    if ok and x == x:
        require(type(v.nominal) is float and v.nominal == float(x), "NominalReal(%r) reads %r", x, v.nominal)
    return ("nominal", case["x"])


CLASSES = ["RealBounds", "IntegerBounds", "UniformInteger", "NominalInteger", "CategoricalBounds", "CompositionBounds", "DiscreteCategorical",
           "NominalCategorical", "NominalReal", "NormalReal", "UniformReal", "NominalComposition"]


def explore(ex):
    th = bool(ex.thorough)
    specs = {c: spec(c, th) for c in CLASSES}

    def inits():
        for c in CLASSES:
            fs = list(specs[c])
            for combo in itertools.product(*[[code for code, _ in specs[c][f]] for f in fs]):
                yield {"cls": c, "thorough": th, "init": dict(zip(fs, combo))}
    ex.enumerate("constructions", ([h] for h in inits()), chunk=64)
    starts = []
    for c in CLASSES:
        fs = list(specs[c])
        good = {f: next(code for code, v in specs[c][f] if v != REJECT and v is not None) for f in fs}
        starts.append({"cls": c, "thorough": th, "init": good})
    alphabet = {c: [[f, code] for f in specs[c] for code, _ in specs[c][f]] for c in CLASSES}
    ex.bfs("assignment histories", starts, lambda s: alphabet[s["cls"]], 40)

    def plain():
        reals, _ = probes(True)
        for a in reals:
            yield {"k": "nominal", "x": a}
            for b in reals:
                yield {"k": "uniform", "lo": a, "hi": b}
    ex.enumerate("real values", plain(), chunk=16)
