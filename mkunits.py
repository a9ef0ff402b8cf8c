"""Builds mc/data/units.json (run by hand, output committed): what every unit of the shipped definition files means,
worked out by a small evaluator that shares no code with pint or gemd.

The table is frozen, so that the check for C07 judges conversions by these meanings and not by whatever the files say later.
"""
import json
import re
import sys
from decimal import Decimal, getcontext
from pathlib import Path

getcontext().prec = 40
HERE = Path(sys.argv[1] if len(sys.argv) > 1 else "/repo/gemd/units")


def lines(path):
    for raw in path.read_text(encoding="utf-8").splitlines():
        line = raw.split("#")[0].rstrip()
        if not line.strip():
            continue
        if line.startswith("@import"):
            yield from lines(path.parent / line.split()[1])
        else:
            yield line.strip()


class Q:
    """scale x product of base units"""
    def __init__(self, s, d=None):
        self.s, self.d = Decimal(s), {k: v for k, v in (d or {}).items() if v}

    def __mul__(self, o):
        return Q(self.s * o.s, {k: self.d.get(k, 0) + o.d.get(k, 0) for k in {*self.d, *o.d}})

    def __truediv__(self, o):
        return Q(self.s / o.s, {k: self.d.get(k, 0) - o.d.get(k, 0) for k in {*self.d, *o.d}})

    def __pow__(self, n):
        assert not n.d
        e = n.s
        s = self.s ** int(e) if e == int(e) else (self.s.ln() * e).exp()
        return Q(s, {k: v * float(e) for k, v in self.d.items()})

    def __add__(self, o):
        assert not self.d and not o.d
        return Q(self.s + o.s)

    def __neg__(self):
        return Q(-self.s, self.d)


prefixes, units, bases, logs, offsets, names = {}, {}, set(), set(), {}, {}
context = False
for ln in lines(HERE / "citrine_en.txt"):
    if ln.startswith("@"):
        context = ln.startswith(("@context", "@system", "@defaults"))
        continue
    if context or ln.startswith("["):
        continue
    head, *rest = [x.strip() for x in ln.split("=")]
    if head.endswith("-"):
        for n in [head] + rest[1:]:
            if n != "_":
                prefixes[n.strip()[:-1]] = rest[0]
        continue
    body = rest[0]
    canon = head
    if ";" in body:
        body, *mods = [x.strip() for x in body.split(";")]
        for m in mods:
            k, v = [x.strip() for x in m.split(":")]
            if k == "offset":
                offsets[canon] = v
            else:
                logs.add(canon)
    for n in [canon] + [x for x in rest[1:] if x != "_"]:
        names.setdefault(n, canon)
    if re.fullmatch(r"\[.*\]", body):
        bases.add(canon)
    else:
        units[canon] = body

TOK = re.compile(r"\s*(?:(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+)|([^\W\d][\w∞]*)|(\*\*|\^|[-+*/()]))")
cache = {}


def unit(name):
    if name in cache:
        return cache[name]
    if name in names:
        c = names[name]
        q = Q(1, {c: 1}) if c in bases else ev(units[c])
    else:
        found = None
        for plural in (name, name[:-1] if name.endswith("s") else None):
            if plural in names:
                found = unit(plural)
            elif plural:
                for p in sorted(prefixes, key=len, reverse=True):
                    if plural.startswith(p) and plural[len(p):] in names:
                        found = ev(prefixes[p]) * unit(plural[len(p):])
                        break
            if found:
                break
        if found is None:
            raise KeyError(name)
        q = found
    cache[name] = q
    return q


def ev(text):
    toks, pos = [], 0
    while pos < len(text.rstrip()):
        m = TOK.match(text, pos)
        assert m, (text, pos)
        toks.append(m)
        pos = m.end()
    i = 0

    def peek():
        return toks[i] if i < len(toks) else None

    def atom():
        nonlocal i
        t = peek()
        i += 1
        if t.group(1):
            return Q(t.group(1))
        if t.group(2):
            return unit(t.group(2))
        if t.group(3) == "(":
            r = add()
            assert peek().group(3) == ")"
            i += 1
            return r
        if t.group(3) == "-":
            return -power()
        if t.group(3) == "+":
            return power()
        raise ValueError(text)

    def power():
        nonlocal i
        a = atom()
        if peek() and peek().group(3) in ("**", "^"):
            i += 1
            return a ** power()
        return a

    def mul():
        nonlocal i
        a = power()
        while peek() and (peek().group(3) in ("*", "/", "(") or not peek().group(3)):
            o = peek().group(3)
            if o in ("*", "/"):
                i += 1
            b = power()
            a = a / b if o == "/" else a * b
        return a

    def add():
        nonlocal i
        a = mul()
        while peek() and peek().group(3) in ("+", "-"):
            o = peek().group(3)
            i += 1
            b = mul()
            a = a + (b if o == "+" else -b)
        return a

    r = add()
    assert i == len(toks), text
    return r


out = {}
gram = Decimal("1e-3")
for n, c in names.items():
    if c in logs:
        continue
    q = unit(n)
    s = q.s
    d = dict(q.d)
    if "gram" in d:      # gram is the defined base, the kilogram that of the system
        s *= (gram.ln() * Decimal(d["gram"])).exp() if d["gram"] != int(d["gram"]) else gram ** int(d["gram"])
        d["kilogram"] = d.pop("gram")
    off = float(ev(offsets[c]).s) if c in offsets else 0.0
    out[n] = [c, float(s), off, {k: (int(v) if v == int(v) else v) for k, v in sorted(d.items())}]
pre = {p: float(ev(v).s) for p, v in prefixes.items()}
path = Path(__file__).parent / "mc" / "data" / "units.json"
path.write_text(json.dumps({"prefixes": pre, "units": out, "log": sorted(logs)}, indent=0, ensure_ascii=False, sort_keys=True) + "\n")
print(len(out), len(set(names.values())), len(pre))
