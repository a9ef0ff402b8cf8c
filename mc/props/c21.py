"""C21: chemical values are normalised without corrupting their content."""
import itertools
import re

from mc.core import attempt, op, require

ID = "C21"
BOUNDS = {"quick": "InChI: every sequence of up to 4 of 16 tokens, and every letter case of the prefix x 5 versions x 12 bodies, each assigned over 3 prior "
                   "values and reassigned; formulas: every capital with up to two lower-case letters (18278), every ordered pair of elements x 3 "
                   "stoichiometries, every sequence of up to 4 of 13 tokens; compositions and categories: every sub-map of 4 names tested against all 16 bounds",
          "thorough": "InChI and formula token sequences of length 5"}
ASSUMPTIONS = ["an element symbol in a formula is a capital letter with the lower-case letters that follow it"]

SYMBOLS = """H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru
Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac
Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og D T""".split()
assert len(SYMBOLS) == 120

TOK = ["InChI", "inchi", "INCHI", "iNCHi", "=", "1S", "1s", "1", "/", "CH4", "c1-2", "h1H4", "i", " ", "InChI=1S/", "é"]
BODIES = ["CH4/h1H4", "C8H8O3/c1-11-8-4-6(5-9)2-3-7(8)10/h2-5,10H,1H3", "C4BO8.Li", "1S/C", "inchi", "X/inchi/InChI/INCHI", "c1s/1S/1s", "", "/",
          "C11H11/c1-11", "S/s1/1S", " "]
PRIOR = ["InChI=1S/CH4/h1H4", "InChI=1/C8H8O3", None]


def norm(s):
    """the acceptable stored forms"""
    low = s.lower()
    if low.startswith("1s/"):
        return {"InChI=1S" + s[2:]}
    if low.startswith("inchi"):
        res = {"InChI" + s[5:]}
        if s[5:8] == "=1s":
            res.add("InChI=1S" + s[8:])
        return res
    return {"InChI=1S/" + s}


def run_inchi(case):
    from gemd.entity.bounds import CompositionBounds, MolecularStructureBounds
    from gemd.entity.value import InChI
    from gemd.json import dumps, loads
    s = case["s"]
    want = norm(s)
    k, v = attempt(InChI, s)
    require(k == "ok", "InChI(%r) is refused: %r", s, v)
    got = v.inchi
    require(got in want, "InChI(%r) is stored as %r, expected %s", s, got, sorted(want))
    for p in PRIOR:
        w = InChI(p)
        w.inchi = s
        op()
        require(w.inchi == got, "assigning %r over %r stores %r, construction %r", s, p, w.inchi, got)
        w.inchi = w.inchi
        require(w.inchi == got, "reassigning %r changes it to %r", got, w.inchi)
    require(InChI(got).inchi == got and InChI(InChI(got).inchi) == v, "a stored value is changed: %r -> %r", got, InChI(got).inchi)
    if case.get("deep", True):
        require(loads(dumps(v)).inchi == got, "%r loads back as %r", got, loads(dumps(v)).inchi)
        require(MolecularStructureBounds().contains(v) and not CompositionBounds([]).contains(v), "kind of %r", got)
    return ("inchi", got)


def run_smiles(case):
    from gemd.entity.bounds import MolecularStructureBounds
    from gemd.entity.value import Smiles
    from gemd.json import dumps, loads
    s = case["s"]
    v = Smiles(s)
    op(3)
    w = Smiles("C")
    w.smiles = s
    require(v.smiles == s and w.smiles == s and loads(dumps(v)).smiles == s, "Smiles(%r) is stored as %r", s, v.smiles)
    require(MolecularStructureBounds().contains(v), "kind of %r", s)
    return ("smiles", s)


def run_reject(case):
    import gemd.entity.value as gv
    cls, field, good = case["cls"], case["field"], case["good"]
    for bad in (5, 1.5, ["C"], {"C": 1}, ("C",), b"C", True):
        if cls in ("NominalComposition", "DiscreteCategorical") and isinstance(bad, dict):
            continue
        if cls == "NominalComposition" and isinstance(bad, list):
            bad = [["C"]]
        k, v = attempt(getattr(gv, cls), bad)
        require(k == "exc", "%s(%r) accepted: %r", cls, bad, v)
        v = getattr(gv, cls)(good)
        before = getattr(v, field)
        k, e = attempt(setattr, v, field, bad)
        require(k == "exc" and getattr(v, field) == before, "%s.%s = %r: %r, now %r", cls, field, bad, e, getattr(v, field))
    return ("reject", cls)


def symbols(s):
    return set(re.findall("[A-Z][a-z]*", s))


def run_formula(case):
    from gemd.entity.bounds import CategoricalBounds, CompositionBounds
    from gemd.entity.value import EmpiricalFormula
    from gemd.json import dumps, loads
    s = case["s"]
    els = symbols(s)
    ok = els <= set(SYMBOLS)
    k, v = attempt(EmpiricalFormula, s)
    prior = EmpiricalFormula("Al2O3")
    k2, e2 = attempt(setattr, prior, "formula", s)
    require((k == "ok") is ok and (k2 == "ok") is ok, "formula %r: construction %s, assignment %s, all symbols exist: %s", s, k, k2, ok)
    if not ok:
        require(isinstance(v, ValueError) and isinstance(e2, ValueError) and prior.formula == "Al2O3", "rejected formula %r: %r, left %r", s, v, prior.formula)
        return ("bad", s)
    require(v.formula == s and prior.formula == s, "formula %r stored as %r", s, v.formula)
    for val in (v, prior):
        require(CompositionBounds(els).contains(val), "components of %r exceed %s", s, sorted(els))
        for x in els:
            require(not CompositionBounds(els - {x}).contains(val), "components of %r lack %s", s, x)
        require(CompositionBounds(els | {"Zz"}).contains(val) and not CategoricalBounds(els).contains(val), "kind of %r", s)
    if case.get("deep"):
        require(loads(dumps(v)).formula == s, "formula %r round trip", s)
    return ("formula", s)


def run_elements(case):
    from gemd.entity.value import EmpiricalFormula
    a = EmpiricalFormula.all_elements()
    require(set(a) == set(SYMBOLS), "all_elements differs: %s", sorted(set(a) ^ set(SYMBOLS)))
    return "elements"


def run_map(case):
    """sub-maps of 4 names; every bounds over them"""
    from gemd.entity.bounds import CategoricalBounds, CompositionBounds
    from gemd.entity.value import DiscreteCategorical, NominalCategorical, NominalComposition
    from gemd.json import dumps, loads
    names, quantities = case["names"], case["q"]
    m = dict(zip(names, quantities))
    if case["kind"] == "comp":
        forms = [NominalComposition(dict(m)), NominalComposition([[k, v] for k, v in m.items()]), NominalComposition([(k, v) for k, v in m.items()])]
        w = NominalComposition({"old": 1})
        w.quantities = dict(m)
        forms.append(w)
        if not m:
            forms.append(NominalComposition(None))
        B, field = CompositionBounds, "quantities"
    elif case["kind"] == "disc":
        forms = [DiscreteCategorical(dict(m))]
        w = DiscreteCategorical("old")
        w.probabilities = dict(m)
        forms.append(w)
        if len(m) == 1:
            forms.append(DiscreteCategorical(names[0]))
        B, field = CategoricalBounds, "probabilities"
    else:
        forms = [NominalCategorical(names[0])]
        w = NominalCategorical("old")
        w.category = names[0]
        forms.append(w)
        B, field = CategoricalBounds, "category"
    O = CategoricalBounds if B is CompositionBounds else CompositionBounds
    want = names[0] if case["kind"] == "nom" else m
    for v in forms + [loads(dumps(forms[0]))]:
        op()
        require(getattr(v, field) == want, "%s reads %r, given %r", field, getattr(v, field), want)
        for n in range(len(NAMES) + 1):
            for sub in itertools.combinations(NAMES, n):
                op()
                require(B(sub).contains(v) is (set(names) <= set(sub)), "%s against bounds %s: %s", want, sub, B(sub).contains(v))
        require(not O(NAMES).contains(v), "kind of %r", v)
    return (case["kind"], tuple(names), tuple(quantities))


NAMES = ["a", "A", "NaCl", "é x"]


def run_case(case):
    return {"inchi": run_inchi, "smiles": run_smiles, "reject": run_reject, "formula": run_formula, "elements": run_elements, "map": run_map}[case["k"]](case)


def explore(ex):
    n = 5 if ex.thorough else 4

    def inchis():
        for cs in itertools.product(*[(c.lower(), c.upper()) for c in "inchi"]):
            for ver in ("=1S/", "=1/", "=1s/", "=", ""):
                for b in BODIES:
                    yield {"k": "inchi", "s": "".join(cs) + ver + b}
        for pre in ("1S/", "1s/", "1/", "1S", "1s", "2S/", "S/", ""):
            for b in BODIES:
                yield {"k": "inchi", "s": pre + b}
        for k in range(n + 1):
            for t in itertools.product(TOK, repeat=k):
                yield {"k": "inchi", "s": "".join(t), "deep": k < 4}
    ex.enumerate("InChI strings", inchis(), chunk=256)

    def others():
        for b in BODIES + ["InChI=1S/CH4", "C1CC1", "c1ccccc1", "[Na+].[Cl-]", "N[C@@H](C)C(=O)O", "C\\C=C/C", "inchi", "1S/x"]:
            yield {"k": "smiles", "s": b}
        for c, f, g in (("InChI", "inchi", "InChI=1S/CH4"), ("Smiles", "smiles", "C"), ("EmpiricalFormula", "formula", "Al2O3"),
                        ("NominalComposition", "quantities", {"a": 1}), ("DiscreteCategorical", "probabilities", {"a": 1.0}),
                        ("NominalCategorical", "category", "a")):
            yield {"k": "reject", "cls": c, "field": f, "good": g}
        yield {"k": "elements"}
    ex.enumerate("other strings and rejected types", others(), chunk=2)

    def formulas():
        lo = "abcdefghijklmnopqrstuvwxyz"
        for a in lo.upper():
            yield {"k": "formula", "s": a, "deep": 1}
            for b in lo:
                yield {"k": "formula", "s": a + b, "deep": 1}
                for c in lo:
                    yield {"k": "formula", "s": a + b + c}
        for a in SYMBOLS:
            for b in SYMBOLS:
                for f in ("%s%s", "%s2(%s0.5)3", "%s %s12"):
                    yield {"k": "formula", "s": f % (a, b)}
        tok = ["Al", "O", "C", "Co", "X", "Xe", "Aa", "2", "0.25", "(", ")", "h", " "]
        for k in range(n + 1):
            for t in itertools.product(tok, repeat=k):
                yield {"k": "formula", "s": "".join(t)}
    ex.enumerate("formulas", formulas(), chunk=256)

    def maps():
        for k in range(len(NAMES) + 1):
            for names in itertools.permutations(NAMES, k):
                for q in itertools.product([1, 0.5, 0], repeat=k):
                    yield {"k": "map", "kind": "comp", "names": list(names), "q": list(q)}
                if k:
                    for q in {1: [[1.0], [1]], 2: [[0.25, 0.75], [1.0, 0.0]], 3: [[0.25, 0.25, 0.5], [0.1, 0.2, 0.7]], 4: [[0.25] * 4, [0.1, 0.2, 0.3, 0.4]]}[k]:
                        yield {"k": "map", "kind": "disc", "names": list(names), "q": q}
            if k == 1:
                for x in NAMES:
                    yield {"k": "map", "kind": "nom", "names": [x], "q": []}
    ex.enumerate("compositions and categories", maps(), chunk=8)
