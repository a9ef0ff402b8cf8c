"""C23: the example ingesters and data sets record exactly the data they are given."""
import io
import itertools
import json
import math
import random
import re
from contextlib import redirect_stdout

from mc.core import attempt, isolated, op, require
from mc.graphs import ENTITY, cname, is_entity

ID = "C23"
BOUNDS = {
    "quick": "material ingester: 27 number/uncertainty/unit/category spellings x 4 fields x every combination of 2 experiments from a set of 7, ids, tags, spec and process "
             "given or not, lists, 13 malformed inputs; table ingester: all tables of up to 2 rows over 3 columns; measurement example: 6 deflections x tags; Strehlow & Cook: "
             "every row of both tables alone, every row with each property left out, with an uncertainty added, with foreign units, and every pair of neighbours and of rows of one compound, "
             "with its structured and display tables; cake: all histories of up to 3 of 9 calls (2 scope changes, templates, specs and cakes with shared or own parts and 2 seeds)",
    "thorough": "cake histories of up to 4 calls, all pairs of the 162 rows of the small table"}
ASSUMPTIONS = ["specs and templates passed to make_cake were made under the scope in force", "a table of Strehlow & Cook rows has the field structure of the two files shipped"]
ORACLE = "an independent interpretation of each input record; for cakes a fresh process and structural mirroring"

EV_AJ = 0.1602176634


def attr_dict(a):
    return (cname(a), a.name, a.value, a.origin.name, a.notes, a.template)


def same_value(v, want, where):
    """want: (class, {field: value})"""
    require(cname(v) == want[0], "%s: a %s, expected %s", where, cname(v), want)
    for f, x in want[1].items():
        got = getattr(v, f)
        if isinstance(x, float) and isinstance(got, (int, float)):
            require(math.isclose(got, x, rel_tol=1e-12, abs_tol=0), "%s: %s is %r, expected %r", where, f, got, x)
        else:
            require((dict(got) if hasattr(got, "keys") else got) == x, "%s: %s is %r, expected %r", where, f, got, x)


# ------------------------------------------------------------------------------------- material ingester
REAL = {"": "dimensionless", "g/cm^3": "gram / centimeter ** 3", "g / cm^3": "gram / centimeter ** 3", "degF": "degree_Fahrenheit", "K": "kelvin",
        "m^2 / s": "meter ** 2 / second", "nosuchunit": "dimensionless", "% ": "percent"}
VALUE_CASES = []
for _n in ("1.0", "-2", "3e2", ".5"):
    for _u in ("g/cm^3", "g / cm^3", "degF", "m^2 / s", "nosuchunit"):
        VALUE_CASES.append((f"{_n} {_u}", ("NominalReal", {"nominal": float(_n), "units": REAL[_u]})))
    VALUE_CASES.append((f"{_n}", ("NominalReal", {"nominal": float(_n), "units": "dimensionless"})))
for _pm in ("+-", "+/-"):
    for _s in ("0.25", "0", "1e-3"):
        for _u in ("g/cm^3", "g / cm^3", "K", "nosuchunit", ""):
            VALUE_CASES.append((f"1.5 {_pm} {_s} {_u}".strip(), ("NormalReal", {"mean": 1.5, "std": float(_s), "units": REAL[_u]})))
VALUE_CASES += [(v, ("NominalReal", {"nominal": float(v), "units": "dimensionless"})) for v in (0, 1, 2.5, -3, 1e300)]
VALUE_CASES += [(v, ("DiscreteCategorical", {"probabilities": {v: 1.0}})) for v in ("low", "medium", "High", "g/cm^3", "é", "+-")]
BAD_VALUES = [None, [], {}, (), "low medium", "low +- 2 K", "1 +- low K", "1 +-", "a b c"]
FIELDS = {"density": ("properties", "Property"), "kinematic viscosity": ("properties", "Property"), "temperature": ("conditions", "Condition"),
          "knob_2_setting": ("parameters", "Parameter")}
EXPS = [{}, {"density": "1.0 +- 0.5 g/cm^3", "tags": ["a", "b"]}, {"temperature": 5, "scan_id": "s1", "unknown": "9 m"},
        {"knob_2_setting": "low", "density": 2, "kinematic viscosity": "0.1 m^2/s", "temperature": "300 degF", "tags": "one", "scan_id": 0},
        {"Density": 1, "tags": []}, {"temperature": "302 degF", "tags": ["a"], "scan_id": "s2"}, {"density ": 4, "knob_2_setting": 1.5}]


def parse(v):
    for s, want in VALUE_CASES:
        if type(s) is type(v) and s == v:
            return want
    raise AssertionError(v)


for _v in ("1.0 +- 0.5 g/cm^3", "0.1 m^2/s", "300 degF", "302 degF"):
    _t = _v.split()
    VALUE_CASES.append((_v, ("NormalReal", {"mean": float(_t[0]), "std": float(_t[2]), "units": REAL["g/cm^3"]}) if "+-" in _v else
                        ("NominalReal", {"nominal": float(_t[0]), "units": {"m^2/s": "meter ** 2 / second", "degF": "degree_Fahrenheit"}[_t[1]]})))
VALUE_CASES += [(5, ("NominalReal", {"nominal": 5.0, "units": "dimensionless"})), (4, ("NominalReal", {"nominal": 4.0, "units": "dimensionless"})),
                (1.5, ("NominalReal", {"nominal": 1.5, "units": "dimensionless"})), (2, ("NominalReal", {"nominal": 2.0, "units": "dimensionless"}))]


def check_material(m, data, spec, process):
    import gemd.demo.material_run_example as ex
    require(cname(m) == "MaterialRun", "a %s", cname(m))
    sid = data.get("sample_id")
    require(dict(m.uids) == ({"given_sample_id": sid} if sid else {}), "uids %s", dict(m.uids))
    tags = data.get("tags") or []
    require(list(m.tags) == ([tags] if isinstance(tags, str) else list(tags)), "tags %s", m.tags)
    require(m.spec is spec, "the spec is %r", m.spec)
    require(m.process is process, "the process is %r", m.process)
    exps = data.get("experiments", [])
    require(len(m.measurements) == len(exps), "%s measurements for %s experiments", len(m.measurements), len(exps))
    for i, (e, d) in enumerate(zip(m.measurements, exps)):
        require(cname(e) == "MeasurementRun" and e.material is m, "measurement %s belongs to %r", i, e.material)
        require(dict(e.uids) == ({"given_scan_id": d["scan_id"]} if d.get("scan_id") else {}), "uids of measurement %s: %s", i, dict(e.uids))
        t = d.get("tags") or []
        require(list(e.tags) == ([t] if isinstance(t, str) else list(t)), "tags of measurement %s: %s", i, e.tags)
        for field in ("properties", "conditions", "parameters"):
            want = {k: parse(v) for k, v in d.items() if FIELDS.get(k, ("",))[0] == field}
            got = {a.name: a for a in getattr(e, field)}
            require(len(got) == len(getattr(e, field)) and got.keys() == want.keys(), "measurement %s has %s %s, expected %s", i, field, sorted(got), sorted(want))
            for k in want:
                require(cname(got[k]) == FIELDS[k][1], "%s is a %s", k, cname(got[k]))
                require(got[k].template is {"properties": ex.known_properties, "conditions": ex.known_conditions, "parameters": ex.known_parameters}[field][k], "template of %s", k)
                same_value(got[k].value, want[k], f"{k} given as {d[k]!r}")


def run_material(c):
    from gemd.demo.material_run_example import ingest_material_run
    from gemd.entity.object import MaterialSpec, ProcessRun
    if c["what"] == "bad":
        with redirect_stdout(io.StringIO()):
            r, x = attempt(ingest_material_run, {"experiments": [{c["field"]: BAD_VALUES[c["v"]]}]})
        require(r == "exc", "the unreadable value %r is accepted as %r", BAD_VALUES[c["v"]], x)
        return ("bad", c["v"], c["field"])
    if c["what"] == "badtype":
        v = [None, 3, "x", ("a",), {"set"}][c["v"]]
        r, x = attempt(ingest_material_run, v)
        require(r == "exc", "ingesting %r gives %r", v, x)
        return ("badtype", c["v"])
    spec = MaterialSpec("s") if c.get("spec") else None
    process = ProcessRun("p") if c.get("process") else None
    if c["what"] == "value":
        data = {"experiments": [{c["field"]: VALUE_CASES[c["v"]][0]}]}
    else:
        data = {}
        if c.get("exps") is not None:
            data["experiments"] = [dict(EXPS[i]) for i in c["exps"]]
        if c.get("sid") is not None:
            data["sample_id"] = c["sid"]
        if c.get("tags") is not None:
            data["tags"] = c["tags"]
        if c.get("junk"):
            data["density"] = "1 m"
    before = json.dumps(data)
    with redirect_stdout(io.StringIO()):
        if c.get("many"):
            datas = [data] * c["many"] + [{}]
            res = ingest_material_run(datas, spec)
            require(isinstance(res, list) and len(res) == len(datas), "a list of %s records gives %r", len(datas), res)
            for m, d in zip(res, datas):
                check_material(m, d, spec, None)
        else:
            check_material(ingest_material_run(data, spec, process), data, spec, process)
    op()
    require(json.dumps(data) == before, "the record was changed")
    return ("m", json.dumps(c))


def material_cases():
    for v in range(len(VALUE_CASES)):
        for f in FIELDS:
            yield {"k": "material", "what": "value", "v": v, "field": f}
    for v in range(len(BAD_VALUES)):
        for f in FIELDS:
            yield {"k": "material", "what": "bad", "v": v, "field": f}
    for v in range(5):
        yield {"k": "material", "what": "badtype", "v": v}
    for n in (None, 0, 1, 2):
        for exps in ([None] if n is None else itertools.product(range(len(EXPS)), repeat=n)):
            for spec, process, junk in itertools.product((0, 1), repeat=3):
                yield {"k": "material", "what": "rec", "exps": exps and list(exps), "spec": spec, "process": process, "junk": junk}
            yield {"k": "material", "what": "rec", "exps": exps and list(exps), "spec": 1, "many": 2}
    for sid in (None, "", "id-1", "é"):
        for tags in (None, [], "t", ["a", "b", "a"]):
            for spec in (0, 1):
                yield {"k": "material", "what": "rec", "exps": [2, 1], "sid": sid, "tags": tags, "spec": spec}


# ------------------------------------------------------------------------------------- table, measurement
class Table:
    def __init__(self, rows):
        self.rows = rows

    def iterrows(self):
        return enumerate(self.rows)


CELLS = {"vapor pressure": [None, 1.5, 0, 1e-3], "temperature": [None, 300, -1.0], "other": [None, 7]}


def run_table(c):
    from gemd.demo.table_example import ingest_table
    from gemd.entity.object import MaterialRun
    m = MaterialRun("m")
    rows = [{k: CELLS[k][i] for k, i in zip(CELLS, r) if i} for r in c["rows"]]
    out = ingest_table(m, Table(rows))
    op()
    require(out is m, "the material is not returned")
    require(len(m.measurements) == len(rows), "%s measurements for %s rows", len(m.measurements), len(rows))
    for e, r in zip(m.measurements, rows):
        require(e.material is m and not e.parameters, "measurement %r", e)
        for field, key, cls in (("properties", "vapor pressure", "Property"), ("conditions", "temperature", "Condition")):
            got = getattr(e, field)
            require([(cname(a), a.name) for a in got] == ([(cls, key)] if key in r else []), "%s of row %s: %s", field, r, [a.name for a in got])
            for a in got:
                same_value(a.value, ("NominalReal", {"nominal": float(r[key]), "units": "dimensionless"}), f"{key} of {r}")
    return ("table", repr(rows))


def run_flex(c):
    from gemd.demo.measurement_example import make_demo_measurements, make_flexural_test_measurement
    d, tags = c["d"], c["tags"]
    if c.get("n") is not None:
        random.seed(3)
        ms = make_demo_measurements(c["n"], extra_tags=frozenset(tags))
        require(len(ms) == c["n"] and len({m.uids["my_id"] for m in ms}) == c["n"], "%s measurements asked for", c["n"])
        random.seed(3)
        ms2 = make_demo_measurements(c["n"], extra_tags=frozenset(tags))
        require([dict(m.uids) for m in ms] == [dict(m.uids) for m in ms2], "not determined by the seed")
        todo = [(m, None, None) for m in ms]
    else:
        todo = [(make_flexural_test_measurement("my", d, extra_tags=tags), "my", d)]
    op()
    for m, my, d in todo:
        if my:
            require(dict(m.uids) == {"my_id": my}, "uids %s", dict(m.uids))
        require(set(m.tags) == {"3_pt_bend", "mechanical", "flex"} | set(tags) and len(m.tags) == 3 + len(tags), "tags %s", m.tags)
        got = {p.name: p.value for p in m.properties}
        if d is None:
            d = got["deflection"].nominal
        stress = 3 * 100.0 * 64.0 / (2 * 4.0 * 4.0 * 10.0)      # 3FL/2bd^2, F=100 N, L=64, b=10, d=4 mm
        strain = 6 * d * 4.0 / 64.0 ** 2                        # 6Dd/L^2
        want = {"flexural stress": ("NormalReal", {"mean": stress, "std": 0.01 * stress, "units": "megapascal"}),
                "flexural strain": ("NormalReal", {"mean": strain, "std": 0.01 * strain, "units": "dimensionless"}),
                "flexural modulus": ("NormalReal", {"mean": stress / strain, "std": 0.01 * stress / strain, "units": "megapascal"}),
                "deflection": ("NominalReal", {"nominal": d, "units": "millimeter"})}
        require(got.keys() == want.keys() and all(p.origin.name == "MEASURED" for p in m.properties), "properties %s", sorted(got))
        for k in want:
            same_value(got[k], want[k], k)
    return ("flex", repr(c))


# ------------------------------------------------------------------------------------- Strehlow & Cook
TERMS = ["Band gap", "Temperature derivative of band gap", "Temperature", "Color", "Lasing", "Cathodoluminescence", "Mechanical luminescence",
         "Photoluminescence", "Electroluminescence", "Thermoluminescence", "Transition", "Bands", "Electric field polarization", "Crystallinity",
         "Morphology", "Phase", "Crystal system"]
COND = {"Crystallinity", "Temperature", "Morphology", "Electric field polarization", "Phase", "Crystal system", "Transition", "Bands"}
TRANSITIONS = {"Direct", "Excitonic", "Indirect"}
CRYSTALS = {"Cubic", "Hexagonal", "Orthorhombic", "Tetragonal", "Trigonal"}
UNIT = {"eV": "electron_volt", "K": "kelvin", "eV/K": "electron_volt / kelvin", "meV": "millielectron_volt", "degC": "degree_Celsius"}
_TABLES = {}


def rows_of(name):
    if name not in _TABLES:
        from gemd.demo.strehlow_and_cook import import_table
        _TABLES[name] = import_table() if name == "small" else import_table("strehlow_and_cook.pif")
    return _TABLES[name]


def clean(f):
    """unit subscripts dropped: an own scanner"""
    toks = re.findall(r"[A-Za-z]+|[^A-Za-z]+", f)
    return "".join("" if t == "1" and i else t for i, t in enumerate(toks))


def expected_attrs(row):
    res, seen = [], set()
    for p in row["properties"]:
        origin = {"EXPERIMENTAL": "MEASURED", "COMPUTATIONAL": "COMPUTED"}.get(p.get("dataType"), "UNKNOWN")
        method = "Method: " + (p["method"]["name"] if "method" in p else "unreported")
        for a in [p] + p.get("conditions", []):
            if a["name"] in seen:
                continue
            seen.add(a["name"])
            s = a["scalars"][0]
            name = a["name"]
            if name == "Phase" and s["value"] in CRYSTALS:
                name = "Crystal system"
            if name == "Transition" and s["value"] not in TRANSITIONS:
                name = "Bands"
            if "units" not in a:
                want = ("NominalCategorical", {"category": s["value"]})
            elif "uncertainty" not in s:
                want = ("NominalReal", {"nominal": float(s["value"]), "units": UNIT[a["units"]]})
            elif a["units"] == "eV":
                want = ("NormalReal", {"mean": float(s["value"]) * EV_AJ, "std": float(s["uncertainty"]) * EV_AJ, "units": "attojoule"})
            else:
                want = ("NormalReal", {"mean": float(s["value"]), "std": float(s["uncertainty"]), "units": UNIT[a["units"]]})
            res.append((name, want, origin, method))
    return res


def variants(row):
    """the row itself, and with parts changed"""
    yield "asis", row
    for i in range(len(row["properties"])):
        yield f"without{i}", dict(row, properties=row["properties"][:i] + row["properties"][i + 1:])
        p = row["properties"][i]
        yield f"bare{i}", dict(row, properties=[{k: v for k, v in p.items() if k in ("name", "scalars", "units")}])
        yield f"comp{i}", dict(row, properties=[dict(p, dataType="COMPUTATIONAL", method={"name": "DFT"})])
        if "units" in p:
            sc = [dict(p["scalars"][0], uncertainty="0.0625")]
            yield f"unc{i}", dict(row, properties=[dict(p, scalars=sc)])
            if p["units"] == "eV":
                yield f"meV{i}", dict(row, properties=[dict(p, units="meV", scalars=[{"value": "1500", "uncertainty": "2"}])])


def check_sac(rows, scope, where):
    from gemd.demo import strehlow_and_cook as sac
    before = json.dumps(rows)
    runs = sac.make_strehlow_objects(rows, *([scope] if scope else []))
    op()
    require(json.dumps(rows) == before, "%s: the table was changed", where)
    require(len(runs) == len(rows), "%s: %s samples for %s rows", where, len(runs), len(rows))
    specs = {}
    for run, row in zip(runs, rows):
        f = clean(row["chemicalFormula"])
        require(cname(run) == "MaterialRun" and specs.setdefault(f, run.spec) is run.spec, "%s: compounds %s share a spec exactly when equal", where, f)
        props = run.spec.properties
        require(len(props) == 1, "%s: the spec of %s has %s properties", where, f, len(props))
        same_value(props[0].property.value, ("EmpiricalFormula", {"formula": f}), f"{where}: formula")
        require(props[0].property.template.name == "Formula" and run.spec.template.name == "Chemical", "%s: templates of %s", where, f)
        require(run.process is not None and run.process.spec is run.spec.process and run.process.template.name == "Sample preparation", "%s: process of %s", where, f)
        require(len(run.measurements) == 1, "%s: %s measurements", where, len(run.measurements))
        m = run.measurements[0]
        require(m.spec is runs[0].measurements[0].spec and m.template.name == "Band gap measurement" and not m.parameters, "%s: the measurement's spec", where)
        want = expected_attrs(row)
        for field, cls, mine in (("properties", "Property", lambda n: n not in COND), ("conditions", "Condition", lambda n: n in COND)):
            got = getattr(m, field)
            w = [x for x in want if mine(x[0])]
            require(sorted(a.name for a in got) == sorted(x[0] for x in w), "%s: %s %s, expected %s", where, field, [a.name for a in got], [x[0] for x in w])
            by = {a.name: a for a in got}
            for name, val, origin, method in w:
                a = by[name]
                require(cname(a) == cls and a.template.name == name, "%s: %s is a %s of template %s", where, name, cname(a), a.template.name)
                require(a.origin.name == origin and a.notes == method, "%s: %s has origin %s and notes %r, expected %s, %r", where, name, a.origin, a.notes, origin, method)
                same_value(a.value, val, f"{where}: {name}")
                sc = scope or sac.DEMO_TEMPLATE_SCOPE
                require(dict(a.template.uids) == {sc: name}, "%s: template uids %s", where, dict(a.template.uids))
                if "meV" not in where:
                    require(a.template.bounds.contains(a.value), "%s: %s=%r lies outside its template", where, name, a.value)
    ids = {}
    for f, s in specs.items():
        require(ids.setdefault(id(s), f) == f, "%s: compounds %s and %s share a spec", where, f, ids[id(s)])
    # tables
    table = sac.make_strehlow_table(runs)
    op()
    require([h["name"][-1] for h in table["headers"]] == ["Display name", "Formula"] + TERMS, "%s: headers %s", where, table["headers"])
    require(len(table["content"]) == len(rows), "%s: %s table rows", where, len(table["content"]))
    display = sac.make_display_table(table)
    op()
    require(len(display) == len(rows) + 1 and len(set(map(len, display))) == 1 and len(display[0]) == len(TERMS) + 3, "%s: shape of the display table", where)
    for i, (row, line, shown) in enumerate(zip(rows, table["content"], display[1:])):
        want = {x[0]: x[1] for x in expected_attrs(row)}
        f = clean(row["chemicalFormula"])
        require(line[0] == runs[i].spec.name and line[1].formula == f and len(line) == len(TERMS) + 2, "%s: table row %s", where, line[:2])
        flat = [line[0], f]
        for t, v in zip(TERMS, line[2:]):
            if t not in want:
                require(v is None, "%s: column %s is %r", where, t, v)
                flat += ["", ""] if t == "Band gap" else [""]
                continue
            same_value(v, want[t], f"{where}: column {t}")
            flat.append({"NominalReal": "nominal", "NormalReal": "mean", "NominalCategorical": "category"}[want[t][0]])
            flat[-1] = getattr(v, flat[-1])
            if t == "Band gap":
                flat.append(v.std if want[t][0] == "NormalReal" else "")
        require(shown == flat, "%s: displayed %s, expected %s", where, shown, flat)


def run_sac(c):
    rows = [rows_of(t)[i] for t, i in c["rows"]]
    n = 0
    if c.get("vary"):
        for name, row in variants(rows[0]):
            check_sac([row], None, f"row {c['rows'][0]} {name}")
            n += 1
    else:
        check_sac(rows, c.get("scope"), f"rows {c['rows']}")
    return ("sac", repr(c), n)


def sac_cases(thorough):
    small, full = len(rows_of("small")), len(rows_of("full"))
    for i in range(small):
        yield {"k": "sac", "rows": [["small", i]], "vary": 1}
    for i in range(full):
        if i % 2 == 0 or thorough:
            yield {"k": "sac", "rows": [["full", i]], "vary": 1}
        yield {"k": "sac", "rows": [["full", i], ["full", (i + 1) % full], ["full", i]]}
    groups = {}
    for i, r in enumerate(rows_of("small")):
        groups.setdefault(r["chemicalFormula"], []).append(i)
    for g in groups.values():
        for a, b in itertools.permutations(g, 2):
            yield {"k": "sac", "rows": [["small", a], ["small", b]], "scope": "other scope"}
    if thorough:
        for a, b in itertools.product(range(small), repeat=2):
            yield {"k": "sac", "rows": [["small", a], ["small", b]]}


# ------------------------------------------------------------------------------------- cake
CAKE_OPS = ["scope1", "scope2", "tmpl", "spec", "spec_t", "cake1", "cake2", "cake1_t", "cake1_s"]
SCOPES = {"scope1": ("kitchen", None), "scope2": ("Bakery 2", "shelf")}


def everything(root):
    todo, got = [root], {}
    while todo:
        x = todo.pop()
        if isinstance(x, (list, tuple)):
            todo.extend(x)
        elif is_entity(x):
            if id(x) not in got:
                got[id(x)] = x
                fwd, bk = ENTITY[cname(x)]
                todo.extend(getattr(x, f) for f in fwd + bk if f not in ("uids", "tags", "name", "notes", "description", "file_links"))
        elif cname(x) in ("Property", "Condition", "Parameter"):
            todo.append(x.template)
        elif cname(x) == "PropertyAndConditions":
            todo += [x.property, list(x.conditions)]
    return list(got.values())


def attributes(x):
    for f in ("properties", "conditions", "parameters"):
        for a in getattr(x, f, None) or []:
            if cname(a) == "PropertyAndConditions":
                yield a.property
                yield from a.conditions
            elif cname(a) in ("Property", "Condition", "Parameter"):
                yield a


def check_made(root, scope, tscope, what):
    seen = {}
    for x in everything(root):
        sc = tscope if cname(x).endswith("Template") else scope
        require(list(x.uids) == [sc], "%s: %s %r has uids %s, expected the scope %r", what, cname(x), x.name, dict(x.uids), sc)
        key = (sc.lower(), x.uids[sc])
        require(key not in seen, "%s: %r and %r share the identifier %s", what, x.name, seen.get(key), key)
        seen[key] = x.name
        for a in attributes(x):
            if a.template is not None and a.value is not None:
                require(a.template.bounds.contains(a.value), "%s: %s of %r lies outside its template", what, a.name, x.name)
        if cname(x) == "MaterialRun":
            require(x.spec is not None and x.process is not None and x.process.spec is x.spec.process and x.process.output_material is x, "%s: %r does not mirror its spec", what, x.name)
            require([i.spec for i in x.process.ingredients] == list(x.spec.process.ingredients)
                    and all(a.spec is b for a, b in zip(x.process.ingredients, x.spec.process.ingredients)), "%s: ingredients of %r", what, x.name)
        if cname(x) == "IngredientRun":
            require(x.material.spec is x.spec.material and x.process.spec is x.spec.process, "%s: ingredient %r does not mirror its spec", what, x.name)
            for q in ("mass_fraction", "volume_fraction", "number_fraction", "absolute_quantity"):
                require((getattr(x, q) is None) == (getattr(x.spec, q) is None), "%s: %s of ingredient %r", what, q, x.name)
        if cname(x) in ("MaterialRun", "ProcessRun", "IngredientRun"):
            require(list(x.tags) == list(x.spec.tags) and x.tags is not x.spec.tags, "%s: tags of %r", what, x.name)


def fresh(name):
    from gemd.demo import cake
    import gemd.json as gj
    from mc.props.c01 import normal_text
    sc, seed = name
    if sc:
        cake.change_scope(SCOPES[sc][0], templates=SCOPES[sc][1])
    return normal_text(gj.dumps(cake.make_cake(seed=seed)))


def cake_history(ops_):
    from gemd.demo import cake
    import gemd.json as gj
    from mc.props.c01 import normal_text
    cur, kept_t, kept_s, state = None, None, None, []
    scope = (cake.get_demo_scope(), cake.get_template_scope())
    require(scope == ("citrine-demo", "citrine-demo-template"), "the scopes at the start are %s", scope)
    for n, o in enumerate(ops_):
        what = f"call {n + 1} ({o}) of {ops_}"
        op()
        if o in SCOPES:
            cake.change_scope(SCOPES[o][0], templates=SCOPES[o][1])
            cur, kept_t, kept_s = o, None, None
            scope = (SCOPES[o][0], SCOPES[o][1] or SCOPES[o][0] + "-template")
        elif o == "tmpl":
            kept_t = cake.make_cake_templates()
            check_made(list(kept_t.values()), *scope, what)
        elif o in ("spec", "spec_t"):
            kept_s = cake.make_cake_spec(kept_t) if o == "spec_t" else cake.make_cake_spec()
            check_made(kept_s, *scope, what)
            if o == "spec_t" and kept_t:
                own = {id(t) for t in kept_t.values()}
                require(all(id(x) in own for x in everything(kept_s) if cname(x).endswith("Template")), "%s: other templates than those given", what)
        elif o == "rnd1":
            random.seed(1)      # somebody else's use of the generator
        elif o == "cake_n":
            random.seed(1)
            got = cake.make_cake()
            check_made(got, *scope, what)
            require(normal_text(gj.dumps(got)) == FRESH[cur, 1], "%s: the cake made without a seed differs from the one of the generator's state", what)
        else:
            seed = int(o[4])
            own_t, own_s = kept_t if o.endswith("_t") else None, kept_s if o.endswith("_s") else None
            if own_s is not None:
                kept_ids = {id(t) for t in kept_t.values()} if kept_t else set()
                mine = all(id(t) in kept_ids for t in everything(own_s) if cname(t).endswith("Template"))
                own_t = kept_t if kept_t and mine else None
            got = cake.make_cake(seed=seed, tmpl=own_t, cake_spec=own_s)
            if own_s is not None and own_t is None:
                pass    # templates of the specs given differ from those of the measurements: identifiers are shared by construction
            else:
                check_made(got, *scope, what)
            if own_s is None:
                require(normal_text(gj.dumps(got)) == FRESH[cur, seed], "%s: the cake differs from one made in a fresh process", what)
            else:
                require(got.spec is own_s, "%s: another spec than the one given", what)
        require((cake.get_demo_scope(), cake.get_template_scope()) == scope, "%s: the scopes are %s", what, (cake.get_demo_scope(), cake.get_template_scope()))
    return ("cake", tuple(ops_))


FRESH = {}


def run_case(c):
    k = c["k"]
    if k == "material":
        return run_material(c)
    if k == "table":
        return run_table(c)
    if k == "flex":
        return run_flex(c)
    if k == "sac":
        return run_sac(c)
    if k == "cake":
        if not FRESH:
            prepare()
        return isolated(cake_history, c["ops"])
    raise ValueError(k)


def prepare():
    for sc in (None, *SCOPES):
        for seed in (1, 2):
            FRESH[sc, seed] = isolated(fresh, (sc, seed))


def explore(ex):
    ex.enumerate("material ingester", material_cases())
    ex.enumerate("table ingester", ({"k": "table", "rows": [list(r) for r in rs]} for n in (0, 1, 2)
                                    for rs in itertools.product(itertools.product(*(range(len(v)) for v in CELLS.values())), repeat=n)))
    ex.enumerate("measurement example", [{"k": "flex", "d": d, "tags": t} for d in (1e-6, 0.25, 0.5, 1, 3.0, 1e6) for t in ([], ["a"], ["x", "y"])]
                 + [{"k": "flex", "d": None, "n": n, "tags": ["demo"]} for n in (0, 1, 5)])
    ex.enumerate("Strehlow and Cook", sac_cases(ex.thorough), chunk=16)
    if not ex.violations:
        prepare()
        n = 4 if ex.thorough else 3
        ex.enumerate("cake", ({"k": "cake", "ops": list(o)} for o in itertools.product(CAKE_OPS, repeat=n)), chunk=8)
        ex.enumerate("cake and the random generator", ({"k": "cake", "ops": list(o)} for k in range(1, n + 1)
                                                       for o in itertools.product(["scope1", "cake1", "cake2", "rnd1", "cake_n"], repeat=k)
                                                       if ("rnd1" in o or "cake_n" in o) and "c" in o[-1][0]), chunk=4)
