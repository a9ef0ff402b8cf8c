"""C07: unit strings parse to a stable form with unchanged meaning; conversions agree with the definitions.

Expressions are generated from a grammar together with their meaning; the canonical form is read back by an evaluator of our own
(mc/unitsem.py) over a frozen table of what each unit means, and by the library.
"""
import itertools
import re

from mc.core import attempt, fail, isolated, op, require
from mc.unitsem import LOGS, PREFIXES, UNITS, lookup, meaning, mul, power, same

ID = "C07"
BOUNDS = {"quick": "every expression of two factors (5 x 14 units, 20 spellings of numbers, 7 operator spellings, with and without a space), of three factors (50 unit triples, "
                   "7x7 numbers, 9 operator pairs), with exponents and with a parenthesised pair (each with powers), ~200 malformed expressions; every sequence of at most 5 of 12 tokens and of 6 of 8 tokens; every name and alias of the "
                   "definition file and prefixes x 12 units; ordered pairs of 42 factors with similar spellings, each pair in a fresh process; conversions of 4 magnitudes between all ordered pairs of the 376 units and of 40 compound units, triples within a dimension",
          "thorough": "every sequence of 6 of 12 tokens; three factors over 8 units and 11 numbers, conversions between all ordered pairs of the 1059 names"}
ASSUMPTIONS = ["a number binds to the unit that follows it (documented), otherwise left to right", "logarithmic units are only parsed",
               "the frozen meanings of units are those of the definition files at the pinned commit (checked against pint's own table)"]

NUMS = {"": 1.0, "2": 2., "2.5": 2.5, ".5": .5, "5.": 5., "-2": -2., "1e3": 1e3, "2e-3": 2e-3, "2.5E2": 250., "1_000": 1000., "+2": 2., "- -3": 3., "-.5": -.5, "10**3": 1e3,
        "3*10**-2": .03, "10^2": 100., "1.5 * 10 ** 2": 150., "1": 1., "1.0": 1., "12": 12., "25": 25., "0.25": .25, "22": 22.}
UNITS2 = ["m", "s", "ms", "mm", "kg", "e", "percent", "degC", "L", "J", "count", "micron", "eV", "Seconds"]
OPS = [" / ", "/", " * ", "*", "/ ", " /", "* "]
EXPS = {"": 1, "**2": 2, "^2": 2, "**-1": -1, "^-1": -1, "**0.5": .5, " ** 2": 2, "**(2)": 2, "**1": 1, "^ -2": -2, "**+2": 2}


def val(u):
    f, _, d = lookup(u)
    return f, d


def term(num, unit, e=1):
    return mul((NUMS[num], {}), power(val(unit), e))


def check(text, mean, spellings=()):
    """an acceptable expression"""
    from gemd.units import convert_units, get_base_units, parse_units
    require(same(meaning(text), mean), "oracle disagrees with itself on %r: %r and %r", text, meaning(text), mean) if "10" not in text else None
    r = attempt(parse_units, text)
    require(r[0] == "ok", "%r is refused: %r", text, r[1])
    canon = r[1]
    again = attempt(parse_units, canon)
    require(again[0] == "ok" and again[1] == canon, "%r parses to %r, which parses to %r", text, canon, again[1])
    require(same(meaning(canon), mean), "%r parses to %r, which means %r, not %r", text, canon, meaning(canon), mean)
    u = attempt(parse_units, text, return_unit=True)
    require(u[0] == "ok" and f"{u[1]}" == canon, "%r as a unit object is %r", text, u[1])
    require(parse_units(u[1]) == u[1], "a unit object does not parse to itself")
    b = attempt(get_base_units, text)
    require(b[0] == "ok", "no base units for %r: %r", text, b[1])
    if not (len(mean[1]) == 1 and "kelvin" in mean[1]):     # temperatures may have an offset
        require(same((b[1][1], dict(b[1][0]._units)), mean), "base units of %r are %r, expected %r", text, b[1], mean)
        base = str(b[1][0])
        for x in (1.0, -2.5):
            c = attempt(convert_units, x, text, base)
            require(c[0] == "ok" and abs(c[1] - x * mean[0]) <= 1e-9 * abs(x * mean[0]), "%s %r is %r %r, expected %r", x, text, c[1], base, x * mean[0])
            c = attempt(convert_units, x * mean[0], base, canon)
            require(c[0] == "ok" and abs(c[1] - x) <= 1e-9 * abs(x), "%s %r is %r %r, expected %r", x * mean[0], base, c[1], canon, x)
    for s in spellings:
        other = attempt(parse_units, s)
        require(other[0] == "ok" and other[1] == canon, "%r parses to %r but %r to %r", text, canon, s, other[1])
    return canon


def refuse(text):
    from gemd.units import parse_units
    r = attempt(parse_units, text)
    require(r[0] == "exc", "%r is accepted as %r", text, r[1])
    return type(r[1]).__name__


def tight(num, unit):
    """number and unit may be written without a space and still be two tokens"""
    return num and not any(c in num.lower() for c in "e*^_") and unit[0] not in "eEjJ_"


def two(u1, opr, num, u2):
    res = []
    seps = [" "] if num else [""]
    if tight(num, u2):
        seps.append("")
    for sep in seps:
        text = f"{u1}{opr}{num}{sep}{u2}"
        sign = -1 if "/" in opr else 1
        mean = mul(val(u1), term(num, u2), sign)
        spell = [f"{u1}{opr}({num}{sep}{u2})", f" {u1} {opr} {num}{sep}{u2}  "]
        if num and NUMS[num] != 1 and not (num.startswith("10") and sign > 0):     # 1 * 10**2 is a number
            spell.append(f"1{opr}{num}{sep}{u2} * {u1}")
        res.append(check(text, mean, spell))
        if num and NUMS[num] != 1:
            # the number on its own: does not bind across an explicit product
            res.append(check(f"{u1}{opr}{num} * {u2}", mul(mul(val(u1), (NUMS[num], {}), sign), val(u2))))
            res.append(refuse(f"{num}{sep}{u2}{opr}{u1}"))
            res.append(refuse(f"{u1}{opr}{num}{sep}{u2}**2"))
            res.append(refuse(f"{u1}{opr}{u2} {num}"))
    return res


def three(units, nums, ops):
    a, b, c = units
    (n1, n2), (o1, o2) = nums, ops
    text = f"{a}{o1}{n1} {b}{o2}{n2} {c}"
    if (o1 == " " and n1) or (o2 == " " and n2):
        bad = [n for o, n in zip(ops, nums) if o == " " and n]
        if len(bad) == 1 and NUMS[bad[0]] != 1:
            return refuse(text)
        from gemd.units import parse_units
        if attempt(parse_units, text)[0] == "exc":     # factors that come to one may be refused
            return "refused"
    s1, s2 = (-1 if "/" in o else 1 for o in ops)
    mean = mul(mul(val(a), term(n1, b), s1), term(n2, c), s2)
    spell = []
    if o1 != " " and o2 != " ":
        spell.append(f"{a}{o2}{n2} {c}{o1}{n1} {b}")
        if s1 == s2 == -1:
            spell.append(f"{a} / ({n1} {b} * {n2} {c})")
        if not n1 and s1 == 1:
            spell.append(f"{b} * {a}{o2}{n2} {c}")
    return check(text, mean, spell)


def exps(u1, e1, opr, u2, e2, num):
    text = f"{u1}{e1}{opr}{num} {u2}{e2}"
    if num and e2:
        return refuse(text)
    sign = -1 if "/" in opr else 1
    return check(text, mul(power(val(u1), EXPS[e1]), mul((NUMS[num], {}), power(val(u2), EXPS[e2])), sign))


def group(u, opr, n1, a, o2, n2, b, e, lead):
    inner = mul(term(n1, a), term(n2, b), -1 if "/" in o2 else 1)
    grp = f"({n1} {a}{o2}{n2} {b}){e}"
    ee = EXPS[e]
    sign = -1 if "/" in opr else 1
    if ee == .5 and inner[0] < 0:
        return None
    if lead:
        text = f"{grp}{opr}{u}"
        mean = mul(power(inner, ee), val(u), sign)
    else:
        text = f"{u}{opr}{grp}"
        mean = mul(val(u), power(inner, ee), sign)
    if (n1 or n2) and ee == .5:
        from gemd.units import parse_units
        if a == b:      # the factors may cancel
            return None
        return refuse(text)
    return check(text, mean)


BAD = ["gibberish", "KG", "METER", "2", "2.5", "10**3", "1e3", "m *", "/ m", "* m", "m / / s", "m : s", "m & s", "m | s", "m = s", "m == s", "m, s", "m; s", "m @ s",
       "m < s", "m + s", "m - s", "m + 1", "m ** s", "m ** kg", "m ^ s", "(m", "m)", "m / (s", "m / 0", "m / 0 s", "m * 0", "m * 0 s", "0 m", "0", "-m", "m / -s", "m !", "m ? s",
       "m / 2 3 s", "m / 2 s 3", "m / 2 s ** 2", "m / 2 s^2", "m / 2 ** 2 s", "m * 1.1 ** 2", "2 m / s", "-2 m", "2.5 m * s", "1e3 m", "m 2", "m 2 s", "m 2 / s", "m s 2", "[length]",
       "{m}", "m / gibberish", "m / 2 gibberish", "m ** 2 **", "**", "^", "()", "m / ()", "m / 2 -s", "~m", "not m", "m / 0.0 s", "m / 0e5 s"]
BADOBJ = [5, 2.5, True, b"m", ("m",), frozenset(["m"])]


def malformed(i, wrap):
    from gemd.units import UndefinedUnitError, parse_units
    t = BAD[i]
    seen = [refuse(t if wrap == 0 else f" {t} " if wrap == 1 else f"{t} / kg" if wrap == 2 else f"kg * {t}")] if not (
        wrap == 3 and t in ("2", "2.5", "10**3", "1e3", "2 m / s", "-2 m", "2.5 m * s", "1e3 m", "**", "^")) and not (
        wrap == 2 and t in ("m *", "/ m", "()")) and not (wrap == 3 and t in ("* m", "/ m", "()")) else []
    require(parse_units("m") == "meter", "a refused expression has broken the parser")
    if i < len(BADOBJ) and wrap == 0:
        r = attempt(parse_units, BADOBJ[i])
        require(r[0] == "exc", "%r is accepted as %r", BADOBJ[i], r[1])
        require(parse_units(None) is None, "None does not parse to None")
    return seen


# ----------------------------------------------------------------------------------------------------------- catalogue

def name_case(n):
    from gemd.units import get_base_units, parse_units
    r = attempt(parse_units, n)
    require(r[0] == "ok", "unit %r is refused: %r", n, r[1])
    require(attempt(parse_units, r[1]) == ("ok", r[1]), "%r parses to %r, which is not stable", n, r[1])
    if n in LOGS:
        return r[1]
    f, o, d = lookup(n)
    require(same(meaning(r[1]), (f, d)), "%r parses to %r, which means %r, not %r", n, r[1], meaning(r[1]), (f, d))
    b, ratio, off = get_base_units(n)
    op()
    require(same((ratio, dict(b._units)), (f, d)) and abs(off - o) < 1e-9, "base units of %r: %r, expected %r", n, (b, ratio, off), (f, o, d))
    require(get_base_units(r[1]) == (b, ratio, off), "base units of %r and of %r differ", n, r[1])
    require(get_base_units(parse_units(n, return_unit=True)) == (b, ratio, off), "base units of the unit object %r differ", n)
    return r[1]


COMPOUND = ["", "percent", "ppm", "m/cm", "cm/m", "1/s", "Hz", "rpm", "count/s", "Bq", "bit/s", "radian/s", "kg/m**3", "g/cm^3", "g / mL", "g / 100 mL", "lb/ft^3", "g / 2.5 cm", "g / 25 mm",
            "kg/m", "J/(kg K)", "J/kg/K", "cal/(g degC)", "Btu_it/lb/degR", "N m", "J", "eV", "kWh", "W*s", "MPa", "psi", "N/mm^2", "MPa*m^0.5", "ksi inch**0.5", "m/s", "mph", "km / hour",
            "m / 2 s", "m / 3600 s", "K/min", "degC / hour", "delta_degF / s", "mol/L", "molar", "count", "radian", "bit", "byte", "sr", "degree**2", "1 / degF", "1 / 10 K"]
XS = [0.0, 1.0, -3.5, 1e6]


def pair_case(a, bs, compound):
    """conversions from a to each of bs"""
    from gemd.units import IncompatibleUnitsError, convert_units
    if compound:
        (fa, da), oa = meaning(a), 0.0
    else:
        fa, oa, da = lookup(a)
    n = 0
    for b in bs:
        if compound:
            (fb, db), ob = meaning(b), 0.0
        else:
            fb, ob, db = lookup(b)
        if {k: round(v, 6) for k, v in da.items()} != {k: round(v, 6) for k, v in db.items()}:
            r = attempt(convert_units, 2.0, a, b)
            require(r[0] == "exc" and isinstance(r[1], IncompatibleUnitsError), "converting %r to %r gives %r", a, b, r[1])
            continue
        n += 1
        for x in XS:
            want = (x * fa + oa - ob) / fb
            tol = 1e-9 * (abs(x * fa) + abs(oa) + abs(ob)) / abs(fb) + (1e-300 if a != b else 0)
            r = attempt(convert_units, x, a, b)
            require(r[0] == "ok" and abs(r[1] - want) <= tol, "%r %r is %r %r, expected %r", x, a, r[1], b, want)
            back = attempt(convert_units, r[1], b, a)
            require(back[0] == "ok" and abs(back[1] - x) <= 4e-9 * (abs(x) + (abs(oa) + abs(ob)) / abs(fa)), "%r %r to %r and back is %r", x, a, b, back[1])
    return (a, n)


def triple_case(group_):
    from gemd.units import convert_units
    for a, b, c in itertools.product(group_, repeat=3):
        fa, oa, _ = lookup(a)
        fb, ob, _ = lookup(b)
        fc, oc, _ = lookup(c)
        for x in (1.0, -3.5):
            op(3)
            one = convert_units(x, a, c)
            two_ = convert_units(convert_units(x, a, b), b, c)
            require(abs(one - two_) <= 1e-9 * (abs(x * fa) + abs(oa) + abs(ob) + abs(oc)) / abs(fc), "%r %r to %r directly is %r, by %r it is %r", x, a, c, one, b, two_)
    return tuple(group_)


# spellings of factors that resemble each other
NEAR = ["2", "-2", ".2", "-.2", "2e1", "20", "2e-1", "2.5", "25", "2_5", "2.55", "2.5e5", "25e4", "2e5", "-2e5", "2e-5", "-2e-5", "2.5e-5", "1234567890", "1234567899", "12345678", "123456789",
        "1.2345678", "1.23456781", "0.1", "0.10", "0.10000001", "0.100000010", "1.0000001", "1e-12", "1e12", "1e120", "1e-120", "0.0001", "0.00001", "0.00001234567", "100000000000000000000",
        "16777217", "9007199254740993", "9007199254740992", "3.141592653589793", "3.14159265358979"]


def near(a, b):
    """two factors, one after the other in a process of their own"""
    def go(_):
        got = []
        for n in (a, b, a):
            for t, first, unit, sign in (("m / %s s", "m", "s", -1), ("m / %s", "m", None, -1), ("kg * %s ms", "kg", "ms", 1)):
                NUMS[n] = float(n)
                text = t % n
                mean = mul(val(first), term(n, unit) if unit else (float(n), {}), sign)
                got.append((float(n), t, check(text, mean)))
        for x in got:
            for y in got:
                if x[1] == y[1]:
                    require(x[0] == y[0] or x[2] != y[2], "%s with the factors %r and %r parses to %r and %r", x[1], x[0], y[0], x[2], y[2])
        return [x[2] for x in got]
    return isolated(go, None)


# ------------------------------------------------------------------------------------------------- every sequence of tokens

TOKENS = ["m", "s", "2", ".5", "/", "*", "**", "^", "(", ")", "-", "+"]
IN_POWER = re.compile(r"(\*\*|\^)\s*([+-]?\s*[\d.]+|\([^()ms]*\))")


FEWER = ["m", "2", "/", "-", "(", ")", "**", "+"]


def seq(prefix, rest, tokens=TOKENS):
    """all sequences of tokens that begin so: what is accepted has a stable form and means what it says; plain products and powers are accepted"""
    from gemd.units import parse_units
    n = [0, 0]
    for tail in itertools.product(tokens, repeat=rest):
        text = " ".join([*prefix, *tail])
        r = attempt(parse_units, text)
        n[r[0] == "ok"] += 1
        if "+" in text or "-" in text or r[0] == "ok":
            try:
                mean = meaning(text, True)
            except (ValueError, KeyError, ZeroDivisionError, OverflowError):
                mean = None
            if mean and (isinstance(mean[0], complex) or not mean[0]):
                mean = None
        else:
            mean = None
            if not re.search(r"[\d.]", IN_POWER.sub("", text)):    # only units, products, quotients and powers
                try:
                    mean = meaning(text, True)
                except (ValueError, KeyError, ZeroDivisionError, OverflowError):
                    pass
        if r[0] == "ok":
            again = attempt(parse_units, r[1])
            require(again == r, "%r parses to %r, which parses to %r", text, r[1], again[1])
            require(mean is None or same(meaning(r[1]), mean), "%r parses to %r, not %r", text, r[1], mean)
        elif mean and not re.search(r"[-+\d.]", IN_POWER.sub("", text)) and re.search("[ms]", text):
            require(False, "%r is refused: %r", text, r[1])
        if r[0] == "ok" and mean and not re.search(r"\* \*", text):
            close = attempt(parse_units, re.sub(r"(?<![\w.)]) | (?![\w.(])|(?<=\)) (?!\()", "", text))
            require(close == r, "%r gives %r, without spaces %r", text, r[1], close[1])
    return (tuple(prefix), *n)


def spacing(first, opr, second, third, end):
    """a product without an operator before a parenthesis, with and without a space"""
    from gemd.units import parse_units
    text = f"{first}{opr}{second} ({third}){end}"
    close = f"{first}{opr}{second}({third}){end}"
    want = attempt(parse_units, text)
    require(want[0] == "ok" and same(meaning(want[1]), meaning(text)), "%r gives %r", text, want[1])
    got = attempt(parse_units, close)
    if got != want:
        fail("%r gives %r but %r gives %r" % (text, want[1], close, got[1]), key="space-before-parenthesis")
    return got


def run_case(case):
    kind, args = case[0], case[1:]
    return {"two": two, "three": three, "exps": exps, "group": group, "bad": malformed, "name": name_case, "pair": pair_case, "triple": triple_case, "seq": seq, "spacing": spacing, "near": near}[kind](*args)


def explore(ex):
    t = ex.thorough
    ex.enumerate("two factors", (["two", a, o, n, b] for a in UNITS2[:1] + ["kg", "e", "percent", "J"] for b in UNITS2 for n in NUMS for o in OPS), chunk=32)
    us = ["s", "ms", "m", "mm", "kg"] + (["e", "min", "degC"] if t else [])
    ns = ["", "2", "2.5", "12", ".5", "1", "22"] + (["-2", "1e3", "2e-3", "10**2"] if t else [])
    ex.enumerate("three factors", (["three", [a, b, c], [x, y], [p, q]] for a in ("m", "kg") for b in us for c in us for x in ns for y in ns
                                   for p in (" / ", " * ", " ") for q in (" / ", " * ", " ")), chunk=64)
    ex.enumerate("factors that resemble each other", (["near", a, b] for a in NEAR for b in NEAR if a != b and (t or abs(NEAR.index(a) - NEAR.index(b)) < 14)), chunk=8)
    for k in (1, 2, 3, 4, 5) + ((6,) if t else ()):
        lead = max(k - 3, 0)
        ex.enumerate("sequences of %d tokens" % k, (["seq", list(p), k - lead] for p in itertools.product(TOKENS, repeat=lead)), chunk=1)
    ex.enumerate("sequences of 6 tokens of the more intricate kinds", (["seq", list(p), 3, FEWER] for p in itertools.product(FEWER, repeat=3)), chunk=1)
    ex.enumerate("spaces before parentheses", (["spacing", a, o, b, c, e] for a in ("m", "kg") for o in (" / ", " * ", " / 2 ") for b in ("s", "K") for c in ("m", "s K", "2", "kg / s")
                                               for e in ("", "**2") if c != "2" or not e), chunk=8)
    ex.enumerate("exponents", (["exps", a, e, o, b, f, n] for a in ("m", "kg", "degC") for b in ("s", "m", "mm", "degC") for e in EXPS for f in EXPS for o in (" / ", "*")
                               for n in ("", "2")), chunk=64)
    ex.enumerate("groups", (["group", u, o, n1, a, o2, n2, b, e, lead] for u in ("m", "kg") for o in (" / ", " * ") for n1 in ("", "2", "2.5") for a in ("s", "m", "mm")
                            for o2 in (" / ", " * ") for n2 in ("", "2", "12") for b in ("s", "ms", "K") for e in ("", "**2", "**-1", "^2", "**0.5") for lead in (False, True)), chunk=64)
    ex.enumerate("malformed", (["bad", i, w] for i in range(len(BAD)) for w in range(4)), chunk=8)
    ex.enumerate("names", (["name", n] for n in [*UNITS, *sorted(LOGS)]), chunk=16)
    pref = ["meter", "gram", "second", "joule", "newton", "volt", "watt", "pascal", "hertz", "mole", "ampere", "byte"]
    sym = ["m", "g", "J", "N", "V", "W", "Hz", "A"]
    long = [p for p in PREFIXES if len(p) > 3]
    short = ["n", "µ", "u", "m", "c", "k", "M", "G", "T"]
    ex.enumerate("prefixes", (["name", p + u] for p, u in [*itertools.product(long, pref), *itertools.product(short, sym)] if p + u not in UNITS), chunk=16)
    if t:
        names = list(UNITS)
    else:
        names = sorted({v[0] for v in UNITS.values()})
    ex.enumerate("conversions", (["pair", a, names[i:i + 128], False] for a in names for i in range(0, len(names), 128)), chunk=4)
    ex.enumerate("compound conversions", (["pair", a, COMPOUND, True] for a in COMPOUND), chunk=1)
    groups = {}
    for n in sorted({v[0] for v in UNITS.values()}):
        groups.setdefault(repr(lookup(n)[2]), []).append(n)
    size = 12 if t else 6
    ex.enumerate("compositions", (["triple", g[i:i + size]] for g in groups.values() for i in range(0, len(g), size)), chunk=2)
