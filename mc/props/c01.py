"""C01: JSON serialization round-trips every object graph faithfully."""
import io
import itertools
import json

from mc.core import attempt, op, require
from mc.graphs import (HASH_SEEDS, hash_cases, ENTITY, PLAIN, BASES, BOUNDS, VALUES, Graph, Snap, bounds, build, cname, compare, is_entity, marker,
                       narrower, root_of, standard_cases, value)

ID = "C01"
BOUNDS_TXT = ("all object graphs with up to 2 materials (each with or without process), up to 2 ingredient uses (duplicates, cycles and "
              "unattached ends included), 0-2 measurements, run / spec / run+spec / two runs per spec, and 3-material graphs with up to 2 uses; "
              "4 base graphs x 4 template settings x 3 attribute settings x 6 uid settings x 9 roots and containers; "
              "every value, bounds, origin and sample type in every attribute position; every nesting of plain data; all sequences of up to 3 of 11 calls (two documents with the same uids, one with "
              "dangling links, copies, failing loads) on one engine")
BOUNDS_ = BOUNDS
BOUNDS = {"quick": BOUNDS_TXT, "thorough": "3 materials with up to 3 ingredient uses; all roots and uid settings on the larger family"}
ASSUMPTIONS = ["uids are unique among the objects of a structure", "no mapping (plain dict, uids, composition, probabilities) has a key spelled type, which the JSON format reserves; plain dicts have string keys",
               "the order of measurements, ingredients and uids is not part of the content"]


def check_uids(before, after, scope, what):
    """serialization only adds one uid, in its scope, to objects that had none"""
    require(before.root == after.root and before.entities.keys() == after.entities.keys(), "%s changed the structure", what)
    for m in before.entities:
        c, rb = before.entities[m]
        _, ra = after.entities[m]
        for f in rb:
            if f == "uids" and rb[f] == ("dict",):
                require(len(ra[f]) == 2 and ra[f][1][0] == repr(scope) and isinstance(ra[f][1][1], str) and ra[f][1][1],
                        "%s gave %s the uids %s", what, m, ra[f])
            else:
                require(rb[f] == ra[f], "%s changed %s of %s from %s to %s", what, f, m, rb[f], ra[f])


def uid_index(snap):
    return {(s.lower(), i): m for m, o in snap.objs.items() for s, i in o.uids.items()}


def unlink(enc, idx, used):
    """encoded value with links to known objects turned into references"""
    if isinstance(enc, tuple):
        if len(enc) == 3 and enc[0] == "LinkByUID" and (str(enc[1]).lower(), enc[2]) in idx:
            used.append(enc)
            return ("@", idx[(enc[1].lower(), enc[2])])
        return tuple(unlink(x, idx, used) for x in enc)
    return enc


def normal_text(text):
    """the parsed text with every link naming the first uid of its target, and the context as a multiset"""
    d = json.loads(text)
    first = {(s.lower(), i): min(x["uids"].items()) for x in d["context"] for s, i in x["uids"].items()}

    def norm(x):
        if isinstance(x, list):
            return [norm(y) for y in x]
        if isinstance(x, dict):
            if x.get("type") == "link_by_uid":
                return ["link", *first.get((x["scope"].lower(), x["id"]), (x["scope"], x["id"]))]
            return {k: norm(v) for k, v in x.items()}
        return x
    return json.dumps(norm(d["object"]), sort_keys=True), sorted(json.dumps(norm(x), sort_keys=True) for x in d["context"])


def tree(x, depth=0):
    """unfolding along forward references"""
    require(depth < 60, "forward references never end")
    n = cname(x)
    if n in ENTITY:
        return (n,) + tuple((f, tree(getattr(x, f), depth + 1)) for f in ENTITY[n][0])
    if n in PLAIN:
        return (n,) + tuple(tree(getattr(x, f), depth + 1) for f in PLAIN[n])
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(sorted(x))
    if isinstance(x, (list, tuple)):
        return ("list",) + tuple(tree(y, depth + 1) for y in x)
    if hasattr(x, "keys"):
        return ("dict",) + tuple(sorted((k, tree(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, str):
        return str(getattr(x, "value", x))
    return (n, repr(x))


def check_structure(root, scope=None, variants=True, enc=None):
    import gemd.json as gj
    from gemd.entity.dict_serializable import DictSerializable
    from gemd.json import GEMDJson
    before = Snap(root)
    eng = GEMDJson(scope=scope) if scope else GEMDJson()
    text = eng.dumps(root) if scope else gj.dumps(root)
    op()
    after = Snap(root)
    check_uids(before, after, scope or "auto", "dumps")
    loaded = gj.loads(text)
    op()
    compare(after, Snap(loaded), "loads(dumps(x))")
    again = eng.dumps(loaded)
    op()
    require(normal_text(text) == normal_text(again), "serializing the loaded structure describes something else:\n%s\n%s",
            text, again)
    if not variants:
        return after
    require(eng.dumps(root) == text, "serializing twice gives different texts")
    fp = io.StringIO()
    (eng if scope else gj).dump(root, fp)
    require(fp.getvalue() == text, "dump to a file differs from dumps")
    compare(after, Snap(gj.load(io.StringIO(text))), "load from a file")
    cp = eng.copy(root)
    sc = Snap(cp)
    compare(after, sc, "copy")
    require(not any(sc.objs[m] is after.objs[m] for m in sc.objs), "copy shares objects with the original")
    ind = eng.dumps(root, indent=2)
    compare(after, Snap(eng.loads(ind)), "loads of indented text")
    op(5)
    # thin: the same content with links for references
    idx = uid_index(after)
    thin = eng.raw_loads(eng.thin_dumps(root))
    op(2)
    used = []
    if is_entity(root):
        st = Snap(thin, follow=True)
        require(list(st.entities) == [marker(root)], "thin serialization of an object contains others: %s", list(st.entities))
        c, rec = st.entities[marker(root)]
        _, want = after.entities[marker(root)]
        require(c == cname(root), "thin serialization changed the class to %s", c)
        for f in ENTITY[c][0]:
            require(unlink(rec[f], idx, used) == want[f], "thin serialization: %s is %s, expected %s", f, rec[f], want[f])
    else:
        st = Snap(thin)
        require(not st.entities, "thin serialization of a container holds objects %s", list(st.entities))
        require(unlink(st.root, idx, used) == after.root, "thin serialization: %s, expected %s", st.root, after.root)
    # raw: nested as is
    raw = eng.raw_loads(eng.raw_dumps(root))
    require(tree(raw) == tree(root), "raw serialization round trip differs: %s, expected %s", tree(raw), tree(root))
    op(2)
    if isinstance(root, DictSerializable):
        d = root.dump()
        require(json.loads(json.dumps(d)) == d, "dump() is not plain JSON data")
        require(tree(DictSerializable.build(d)) == tree(root), "build(dump()) differs")
        op(2)
    check_uids(before, Snap(root), scope or "auto", "the variants of dumps")
    return after


def run_case(case):
    if case["k"] == "graph":
        root = root_of(build(case["g"]), case["root"])
        s = check_structure(root, case.get("scope"), case.get("variants", True))
        return s.canon() if case["g"].get("uids") in ("all", "multi", "case") else (repr(case),)
    if case["k"] == "content":
        return run_content(case)
    if case["k"] == "data":
        x = plain(case["x"])
        check_structure(x)
        return ("data", repr(x))
    if case["k"] == "session":
        return run_session(case["ops"])
    raise ValueError(case["k"])


# ------------------------------------------------------------------------------- many calls on one engine
SESSION = ["dumpsA", "dumpsB", "loadsA", "loadsB", "loadsL", "copyA", "thinB", "rawA", "badtype", "badtext", "module"]


def session_world():
    """A and B describe different objects under the same uids; L holds links to uids it does not contain"""
    from gemd.entity.link_by_uid import LinkByUID
    from gemd.entity.object import IngredientRun, MaterialRun, MeasurementRun, ProcessRun
    res = {}
    for k, names in (("A", ("ma", "pa", "ea")), ("B", ("mb", "pb", "eb"))):
        m = MaterialRun(names[0], notes="m", uids={"id": "m"}, process=ProcessRun(names[1], notes="p", uids={"id": "p"}))
        MeasurementRun(names[2], notes="e", uids={"id": "e"}, material=m)
        res[k] = m
    res["L"] = IngredientRun(notes="i", uids={"id": "i"}, material=LinkByUID("id", "m"), process=LinkByUID("id", "p"))
    return res


def run_session(ops_):
    import gemd.json as gj
    from gemd.json import GEMDJson
    world = session_world()
    texts = {k: GEMDJson().dumps(x) for k, x in session_world().items()}
    snaps = {k: Snap(x) for k, x in session_world().items()}
    eng = GEMDJson()
    seen, kept = [], []
    for n, o in enumerate(ops_):
        where = f"call {n + 1} ({o}) of {ops_}"
        if o.startswith("dumps"):
            require(normal_text(eng.dumps(world[o[-1]])) == normal_text(texts[o[-1]]), "%s: the text depends on earlier calls", where)
        elif o.startswith("loads") or o in ("copyA", "module"):
            k = "A" if o in ("copyA", "module") else o[-1]
            x = eng.copy(world[k]) if o == "copyA" else gj.loads(gj.dumps(world[k])) if o == "module" else eng.loads(texts[k])
            got = Snap(x)
            compare(snaps[k], got, where)
            for earlier in seen:
                require(not any(got.objs[m] is earlier.objs.get(m) for m in got.objs), "%s: shares objects with an earlier result", where)
            seen.append(got)
            kept.append((x, got))
        elif o == "thinB":
            x = eng.raw_loads(eng.thin_dumps(world["B"]))
            require((x.process.scope, x.process.id) == ("id", "p"), "%s: the reference is %r", where, x.process)
        elif o == "rawA":
            require(tree(eng.raw_loads(eng.raw_dumps(world["A"]))) == tree(world["A"]), "%s: differs", where)
        else:
            bad = texts["A"].replace('"process_run"', '"no_such_type"') if o == "badtype" else texts["A"][:-1]
            r, e = attempt(eng.loads, bad)
            require(r == "exc", "%s: accepted", where)
        op()
        for k in world:
            compare(snaps[k], Snap(world[k]), f"{where}: the structure {k} itself")
        for root, snap in kept:
            require(snap.canon() == Snap(root).canon(), "%s: a structure loaded earlier changed", where)
    return ("session", tuple(ops_[-2:]))


def session_cases(thorough):
    for n in range(1, 5 if thorough else 4):
        for ops_ in itertools.product(SESSION, repeat=n):
            yield {"k": "session", "ops": list(ops_)}


def plain(code):
    if isinstance(code, list) and code and code[0] == "T":
        return tuple(plain(x) for x in code[1:])
    if isinstance(code, list) and code and code[0] == "L":
        return [plain(x) for x in code[1:]]
    if isinstance(code, list) and code and code[0] == "D":
        return {k: plain(v) for k, v in zip(("b", "a"), code[1:])}
    if isinstance(code, list) and code and code[0] == "E":
        from gemd.entity.object import ProcessRun
        return ProcessRun("p", notes=code[1])
    if code == "VALUE":
        return value("normal")
    if code == "LINK":
        from gemd.entity.link_by_uid import LinkByUID
        return LinkByUID("nowhere", "x")
    return code


ATOMS = [0, 1, True, False, 1.0, 0.5, -0.0, None, "", "1", "true", "é☃\n\"", 10 ** 30, 1e300, "VALUE", "LINK", ["E", "e1"]]


def data_cases(thorough):
    for a in ATOMS:
        yield {"k": "data", "x": a}
        for c in "LTD":
            yield {"k": "data", "x": [c, a]}
            for b in ATOMS:
                if a == b == ["E", "e1"]:
                    continue
                yield {"k": "data", "x": [c, a, b]}
                for c2 in "LTD":
                    yield {"k": "data", "x": [c, [c2, a], b]}
                    if thorough and b != ["E", "e1"]:
                        for c3 in "LTD":
                            yield {"k": "data", "x": [c, [c2, [c3, a], b], [c3, b]]}


ORIGINS = ["measured", "predicted", "summary", "specified", "computed", "unknown"]
SAMPLES = ["experimental", "virtual", "production", "unknown"]
POSITIONS = ["cond_ps", "param_pr", "prop_mr", "cond_mr", "prop_ms", "condprop_ms", "cond_es"]
STRINGS = [None, "", "plain", "é☃ \U0001f600", "line\nbreak \t\"quote\" \\ / </x>", "NaN", "null"]


def content_cases(thorough):
    for pos in POSITIONS:
        for v in [None] + VALUES:
            for b in [None] + BOUNDS_:
                for bind in ("template", "link") if b else ("template",):
                    yield {"k": "content", "pos": pos, "v": v, "b": b, "bind": bind}
        for o in ORIGINS:
            for s in STRINGS:
                yield {"k": "content", "pos": pos, "v": "int", "b": None, "o": o, "s": s}
    for st in SAMPLES:
        for s in STRINGS:
            yield {"k": "content", "pos": "sample", "st": st, "s": s}
    for s1 in STRINGS:
        for s2 in STRINGS:
            yield {"k": "content", "pos": "source", "s1": s1, "s2": s2}
            if s1 is not None and s2 is not None:
                yield {"k": "content", "pos": "file", "s1": s1, "s2": s2}
                yield {"k": "content", "pos": "strs", "s1": s1, "s2": s2}
    for q in ("mass_fraction", "volume_fraction", "number_fraction", "absolute_quantity"):
        for v in ("real", "realint", "normal", "uniform", "real_third", None):
            for cls in ("run", "spec"):
                yield {"k": "content", "pos": "qty", "q": q, "v": v, "cls": cls}
    for kind in ("prop", "cond", "param"):
        for b in BOUNDS_:
            for nar in (0, 1, 2):
                for t in ("MaterialTemplate", "ProcessTemplate", "MeasurementTemplate"):
                    if (t == "MaterialTemplate") != (kind == "prop") and t != "MeasurementTemplate":
                        continue
                    yield {"k": "content", "pos": "tmpl", "kind": kind, "b": b, "nar": nar, "t": t}
    for u in ({"a": "1"}, {"a": "1", "B": "2"}, {"A b": "é"}, {"auto": "x"}, {"": "y"}):
        yield {"k": "content", "pos": "uids", "u": u}


def run_content(c):
    from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
    from gemd.entity.bounds_validation import WarningLevel, validation_level
    from gemd.entity.file_link import FileLink
    from gemd.entity.link_by_uid import LinkByUID
    from gemd.entity.object import (IngredientRun, IngredientSpec, MaterialRun, MaterialSpec, MeasurementRun, MeasurementSpec,
                                    ProcessRun, ProcessSpec)
    from gemd.entity.source import PerformedSource
    import gemd.entity.template as T
    pos = c["pos"]
    with validation_level(WarningLevel.IGNORE):
        if pos in POSITIONS:
            cls, tcls = {"cond": (Condition, T.ConditionTemplate), "para": (Parameter, T.ParameterTemplate),
                         "prop": (Property, T.PropertyTemplate)}[pos[:4]]
            t = tcls("t", bounds=bounds(c["b"]), description="T", uids={"id": "t"}) if c.get("b") else None
            if c.get("bind") == "link":
                t = LinkByUID("id", "elsewhere")
            a = cls("a", value=value(c["v"]), template=t, origin=c.get("o", "unknown"), notes=c.get("s"),
                    file_links=[FileLink(c["s"] or "", "u")] if "s" in c else None)
            root = {
                "cond_ps": lambda: ProcessSpec("x", notes="O", conditions=[a]),
                "param_pr": lambda: ProcessRun("x", notes="O", parameters=[a]),
                "prop_mr": lambda: MeasurementRun("x", notes="O", properties=[a]),
                "cond_mr": lambda: MeasurementRun("x", notes="O", conditions=[a]),
                "prop_ms": lambda: MaterialSpec("x", notes="O", properties=[PropertyAndConditions(a)]),
                "condprop_ms": lambda: MaterialSpec("x", notes="O", properties=[PropertyAndConditions(Property("y"), [a])]),
                "cond_es": lambda: MeasurementSpec("x", notes="O", conditions=[a]),
            }
            if pos == "condprop_ms":
                a2 = Condition("a", value=value(c["v"]), origin=c.get("o", "unknown"), notes=c.get("s"))
                if t is not None:
                    a2.template = T.ConditionTemplate("t", bounds=bounds(c["b"]), description="T", uids={"id": "t"}) \
                        if c.get("bind") != "link" else t
                a = a2
            root = root[pos]()
        elif pos == "sample":
            root = MaterialRun(c["s"] or "x", notes="O", sample_type=c["st"], tags=[c["s"] or "t"])
        elif pos == "source":
            src = PerformedSource(c["s1"], c["s2"])
            root = [ProcessRun("x", notes="O", source=src), MeasurementRun("x", notes="M", source=src)]
        elif pos == "file":
            f = [FileLink(c["s1"], c["s2"]), FileLink(c["s2"], c["s1"])]
            root = [MaterialRun("x", notes="O", file_links=f), Property("q", file_links=f)]
        elif pos == "strs":
            root = IngredientRun(spec=IngredientSpec(c["s1"], labels=[c["s2"], c["s1"]], notes="S", tags=[c["s2"], c["s1"]]), notes="O")
        elif pos == "qty":
            kw = {c["q"]: value(c["v"]), "notes": "O"}
            root = IngredientRun(**kw) if c["cls"] == "run" else IngredientSpec("n", **kw)
        elif pos == "tmpl":
            at = {"prop": T.PropertyTemplate, "cond": T.ConditionTemplate, "param": T.ParameterTemplate}[c["kind"]](
                "t", bounds=bounds(c["b"]), description="T")
            item = [at, [at, narrower(c["b"])], [at, None]][c["nar"]]
            field = {"prop": "properties", "cond": "conditions", "param": "parameters"}[c["kind"]]
            root = getattr(T, c["t"])("ot", description="O", **{field: [item, at]})
        elif pos == "uids":
            root = ProcessRun("x", notes="O", uids=c["u"], spec=ProcessSpec("s", notes="S", uids={k: v + "s" for k, v in c["u"].items()}))
        check_structure(root)
    return (repr(c),)


def explore(ex):
    ex.enumerate("content in every position", content_cases(ex.thorough))
    ex.enumerate("plain data", data_cases(ex.thorough), chunk=64)
    ex.enumerate("calls on one engine", session_cases(ex.thorough), chunk=32)

    def graphs():
        for i, c in enumerate(standard_cases(ex.thorough)):
            yield dict(c, k="graph", variants=bool(ex.thorough or i % 4 == 0))
        for b in BASES:
            for u in ("none", "mixed"):
                for lv in ("R", "S", "RS"):
                    for t in (0, 1, 2, 3):
                        for dr in (1, 2):
                            if not (t and lv == "R"):
                                yield {"k": "graph", "g": dict(b, level=lv, tmpl=t, dress=dr, uids=u, route="set"), "root": 0,
                                       "variants": u == "mixed"}
        for b in BASES:
            for u in ("none", "mixed", "auto", "many"):
                for sc in ("foo", "ID", "b") if u != "many" else ("k3", "b", "ZED", "id", "A"):
                    for r in (0, -1, "list"):
                        yield {"k": "graph", "g": dict(b, level="RS", tmpl=2, dress=2, uids=u), "root": r, "scope": sc}
    ex.enumerate("object graphs", graphs(), chunk=16)
    ex.enumerate_hashed("graphs under other hash seeds", (dict(c, k="graph", variants=False) for c in hash_cases(ex.thorough)),
                        HASH_SEEDS[ex.thorough])
