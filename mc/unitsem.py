"""What a unit expression means: (factor, {base: power}) by a small evaluator and the frozen table of data/units.json.

A number binds to the unit right after it ('m / 2 s' is m / (2 s)); products, quotients and juxtaposition go left to right."""
import json
import re
from functools import lru_cache
from pathlib import Path

_T = json.loads((Path(__file__).parent / "data" / "units.json").read_text(encoding="utf-8"))
UNITS, PREFIXES, LOGS = _T["units"], _T["prefixes"], set(_T["log"])
TOK = re.compile(r"\s*(?:(\d[\d_]*\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)|([^\W\d]\w*|%|°\w+)|(\*\*|\^|[-+*/()]))")


@lru_cache(None)
def lookup(name):
    """(factor, offset, dims) of a unit name, with prefix and plural"""
    if name == "dimensionless":
        return 1.0, 0.0, {}
    if name.startswith("delta_"):
        f, _, d = lookup(name[6:])
        return f, 0.0, d
    for n in (name, name[:-1] if name.endswith("s") else name):
        if n in UNITS:
            return UNITS[n][1], UNITS[n][2], UNITS[n][3]
        for p in sorted(PREFIXES, key=len, reverse=True):
            if n.startswith(p) and n[len(p):] in UNITS:
                _, f, o, d = UNITS[n[len(p):]]
                return PREFIXES[p] * f, 0.0, d
    raise KeyError(name)


def mul(a, b, sign=1):
    d = dict(a[1])
    for k, v in b[1].items():
        d[k] = d.get(k, 0) + sign * v
    return (a[0] * b[0] if sign > 0 else a[0] / b[0], {k: v for k, v in d.items() if abs(v) > 1e-12})


def power(a, e):
    return a[0] ** e, {k: v * e for k, v in a[1].items() if v * e}


def meaning(text, strict=False):
    """strict: a sign may not stand between two factors (it would be a sum)"""
    toks, pos = [], 0
    text = text.rstrip()
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise ValueError(f"cannot read {text!r}")
        toks.append((1, m.group(1)) if m.group(1) else (2, m.group(2)) if m.group(2) else (3, m.group(3)))
        pos = m.end()
    i = 0

    def peek(k=0):
        return toks[i + k] if i + k < len(toks) else (0, "")

    def exponent(a):
        nonlocal i
        if peek()[1] in ("**", "^"):
            i += 1
            neg = 1
            while peek()[1] in ("-", "+"):
                neg *= -1 if peek()[1] == "-" else 1
                i += 1
            if peek()[1] == "(":
                i += 1
                start = i
                e = expr()[0]
                if strict and any(k == 2 for k, _ in toks[start:i]):
                    raise ValueError(f"a unit as an exponent in {text!r}")
                i += 1
            else:
                e = float(peek()[1])
                i += 1
            return power(a, neg * e)
        return a

    def term():
        nonlocal i
        sign = 1
        while peek()[1] in ("-", "+"):
            sign *= -1 if peek()[1] == "-" else 1
            i += 1
        k, t = peek()
        i += 1
        if k == 1:
            a = (sign * float(t.replace("_", "")), {})
            if peek()[1] in ("**", "^"):
                return exponent(a)
            if peek()[0] == 2:
                a = mul(a, (lambda u: (u[0], u[2]))(lookup(peek()[1])))
                i += 1
            return a
        if k == 2:
            u = lookup(t)
            return exponent((sign * u[0], u[2]))
        if t == "(":
            a = expr()
            if peek()[1] != ")":
                raise ValueError(text)
            i += 1
            return exponent((sign * a[0], a[1]))
        raise ValueError(f"cannot read {text!r}")

    def expr():
        nonlocal i
        a = term()
        while peek()[0] and peek()[1] != ")":
            o = peek()[1]
            if o in ("*", "/"):
                i += 1
            elif strict and o in ("-", "+"):
                raise ValueError(f"a sum in {text!r}")
            a = mul(a, term(), -1 if o == "/" else 1)
        return a

    if not toks:
        return 1.0, {}
    r = expr()
    if i != len(toks):
        raise ValueError(f"cannot read {text!r}")
    return r


def same(a, b, tol=1e-9):
    return abs(a[0] - b[0]) <= tol * abs(b[0]) and {k: round(v, 6) for k, v in a[1].items()} == {k: round(v, 6) for k, v in b[1].items()}
