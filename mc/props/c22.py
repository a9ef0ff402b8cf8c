"""C22: the JSON text is a document in the documented format, and every document in that format loads.

A reference encoder (below) turns a structure, read through its public attributes, into the documented JSON document.  Part one compares
the text the library writes with it.  Part two writes documents with the reference encoder in every permitted variation and loads them.
"""
import itertools
import json

from mc.core import attempt, op, require
from mc.graphs import HASH_SEEDS, hash_cases, BASES, BOUNDS as BOUNDS_, ENTITY, PLAIN, VALUES, Snap, bounds, build, cname, compare, is_entity, marker, root_of, \
    standard_cases, topologies, value
from mc.props.c02 import copies, copy_cases

ID = "C22"
BOUNDS = {
    "quick": "writing: the C01 family of object graphs, roots and containers, all values, bounds, origins and sample types; reading: documents of 1-2 material "
             "graphs x every linear extension of the context (up to 2000 each), every choice of uid and case of scope in every reference, every subset of 5 variations "
             "(empty fields left out / null, unknown fields, reversed keys, unusual layout, type last), every single field left out, partial contexts; options: 80 combinations of layout options and all number hooks at every entry point (module functions, "
             "engines, dump/load, thin and raw forms) against the standard module",
    "thorough": "writing: the whole larger C01 family; reading: also 3 materials and up to 40320 linear extensions each"}
ASSUMPTIONS = ["the context precedes the object in the text, and an entry of the context follows the entries it refers to (the documented writable order)"]
ORACLE = "a reference encoder and decoder of the documented JSON format, with frozen type names, field names and enumeration values"

# field names are those of mc.graphs.ENTITY / PLAIN (frozen there); type names:
TYP = {n: "".join(("_" if c.isupper() and i else "") + c.lower() for i, c in enumerate(n)) for n in list(ENTITY) + list(PLAIN)}
TYP.update(InChI="inchi", LinkByUID="link_by_uid")


def jenc(x, ref):
    """reference encoder of anything below an entity; `ref` encodes a reference to an entity"""
    n = cname(x)
    if n in ENTITY:
        return ref(x)
    if n in PLAIN:
        return {"type": TYP[n], **{f: jenc(getattr(x, f), ref) for f in PLAIN[n]}}
    if n in ("Origin", "SampleType"):
        return x.name.lower()
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted(x)
    if isinstance(x, (list, tuple)):
        return [jenc(y, ref) for y in x]
    if hasattr(x, "keys"):
        return {k: jenc(v, ref) for k, v in x.items()}
    if x is None or type(x) in (str, int, float, bool):
        return x
    raise AssertionError(f"unexpected {n}")


def entity_dict(x, ref):
    return {"type": TYP[cname(x)], **{f: jenc(getattr(x, f), ref) for f in ENTITY[cname(x)][0]}}


SETS = {("categorical_bounds", "categories"), ("composition_bounds", "components")}


def norm(d, index):
    """a parsed document with references as markers and sets as sorted lists"""
    if isinstance(d, list):
        return [norm(x, index) for x in d]
    if isinstance(d, dict):
        if d.get("type") == "link_by_uid" and set(d) == {"type", "scope", "id"}:
            m = index.get((str(d["scope"]).lower(), d["id"]))
            return {"@": m} if m is not None else d
        return {k: ["set"] + sorted(v) if (d.get("type"), k) in SETS else norm(v, index) for k, v in d.items()}
    return d


def same(a, b, where):
    """equality of JSON data that tells 1, 1.0 and true apart"""
    require(type(a) is type(b), "%s: %r, expected %r", where, a, b)
    if isinstance(a, dict):
        require(a.keys() == b.keys(), "%s: fields %s, expected %s", where, sorted(a), sorted(b))
        for k in a:
            same(a[k], b[k], f"{where}.{k}")
    elif isinstance(a, list):
        require(len(a) == len(b), "%s: %r, expected %r", where, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            same(x, y, f"{where}[{i}]")
    else:
        require(a == b or (a != a and b != b), "%s: %r, expected %r", where, a, b)


def links(d, acc):
    if isinstance(d, list):
        for x in d:
            links(x, acc)
    elif isinstance(d, dict):
        if d.get("type") == "link_by_uid":
            acc.append((str(d["scope"]).lower(), d["id"]))
        else:
            for v in d.values():
                links(v, acc)
    return acc


def mk(d):
    return d["description"] if "notes" not in d else d["notes"]


def refs_of(x):
    """markers of the entities an entity refers to"""
    acc = []
    for f in ENTITY[cname(x)][0]:
        jenc(getattr(x, f), lambda y: acc.append(marker(y)))
    return set(acc)


def depth_ok(x, seen=()):
    """forward references end (they may not in a cyclic structure)"""
    m = marker(x)
    if m in seen:
        return False
    acc = []
    for f in ENTITY[cname(x)][0]:
        jenc(getattr(x, f), acc.append)
    return len(seen) < 25 and all(depth_ok(y, seen + (m,)) for y in acc)


# ------------------------------------------------------------------------------------------------------- writing
def check_written(root):
    import gemd.json as gj
    from gemd.json import GEMDJson
    text = gj.dumps(root)
    op()
    d = json.loads(text)
    require(isinstance(d, dict) and d.keys() == {"object", "context"} and isinstance(d["context"], list), "the document has the parts %s", list(d))
    require(text.index('"context"') < text.index('"object"'), "the object precedes the context")
    s = Snap(root)
    index = {(sc.lower(), i): m for m, o in s.objs.items() for sc, i in o.uids.items()}

    def ref(y):
        return {"@": marker(y)}
    got = {}
    for e in d["context"]:
        require(isinstance(e, dict) and isinstance(e.get("uids"), dict) and e["uids"], "context entry %r", e)
        m = mk(e) if "notes" in e or "description" in e else None
        require(m in s.objs, "a context entry for something else: %r", e)
        require(m not in got, "two context entries for %s", m)
        for t in links({k: v for k, v in e.items()}, []):
            require(index.get(t, m) in got or t not in index, "%s precedes %s, which it refers to", m, index.get(t))
        got[m] = e
        same(norm(e, index), entity_dict(s.objs[m], ref), m)
        op()
    require(got.keys() == s.objs.keys(), "the context lists %s, the structure holds %s", sorted(got), sorted(s.objs))
    same(norm(d["object"], index), jenc(root, ref), "object")
    if is_entity(root):
        same(norm(json.loads(GEMDJson().thin_dumps(root)), index), entity_dict(root, ref), "thin")
        op()
        if depth_ok(root):
            def nest(y):
                return entity_dict(y, nest)
            want = nest(root)
            same(norm(json.loads(GEMDJson().raw_dumps(root)), {}), want, "raw")
            same(norm(root.dump(), {}), want, "dump()")
            op(2)


# ------------------------------------------------------------------------------------------------------- reading
EMPTY = {"list": [], "dict": {}, "none": None}
DEFAULTS = {"sample_type": "unknown", "origin": "unknown"}
REQUIRED = {"name", "bounds", "type", "property", "filename", "url", "scope", "id"}


def default_of(f):
    if f in DEFAULTS:
        return DEFAULTS[f]
    if f == "uids":
        return {}
    return [] if f in ("tags", "file_links", "conditions", "parameters", "properties", "labels") else None


def vary(d, omit, top=True):
    """leave out the fields that hold their default ('out'), or write empty lists and mappings as null ('null')"""
    if isinstance(d, list):
        return [vary(x, omit, False) for x in d]
    if not isinstance(d, dict) or d.get("type") == "link_by_uid" or "type" not in d:
        return d
    if d["type"] not in {TYP[n] for n in list(ENTITY) + ["Property", "Condition", "Parameter", "PropertyAndConditions"]}:
        return d
    res = {}
    for k, v in d.items():
        if k not in REQUIRED and not (k == "name" and d["type"] == "ingredient_run") and v == default_of(k):
            if omit == "out":
                continue
            if omit == "null" and v in ([], {}):
                v = None
        res[k] = vary(v, omit, False)
    return res


def extra(d, mode=1):
    """unknown fields: fresh ones (1), or ones that resemble the known ones, after (2) or before (3) them"""
    if isinstance(d, list):
        return [extra(x, mode) for x in d]
    if isinstance(d, dict) and "type" in d and d["type"] != "link_by_uid" and mode > 1:
        near = {g(f): v for f in d if f != "type" for g in (str.upper, str.capitalize, lambda f: "_" + f, lambda f: f + "s", lambda f: " " + f)
                for v in ("zz",) if g(f) not in d}
        near["self"] = near["subtype"] = near["Type"] = near[""] = None
        old = {k: extra(v, mode) for k, v in d.items()}
        return {**old, **near} if mode == 2 else {**near, **old}
    if isinstance(d, dict) and "type" in d and d["type"] != "link_by_uid":
        return dict({k: extra(v, mode) for k, v in d.items()}, zz_new=[1, {"a": None}], measurements_=None)
    return d


def reorder(d, how):
    if isinstance(d, list):
        return [reorder(x, how) for x in d]
    if isinstance(d, dict):
        ks = sorted(d, reverse=how == "rev")
        if how in ("typefirst", "typelast") and "type" in d:
            ks.remove("type")
            ks = ["type"] + ks if how == "typefirst" else ks + ["type"]
        return {k: reorder(d[k], how) for k in ks}
    return d


LAYOUTS = {"plain": {}, "indent": {"indent": 3}, "tight": {"separators": (",", ":")}, "unicode": {"ensure_ascii": False}}


def document(root, s, order, pick, drop=()):
    """`order`: markers in context order; `pick(source marker, target)` -> (scope, id)"""
    def ctx(m):
        e = entity_dict(s.objs[m], lambda y: {"type": "link_by_uid", **dict(zip(("scope", "id"), pick(m, y)))})
        return unset(e)
    obj = unset(jenc(root, lambda y: {"type": "link_by_uid", **dict(zip(("scope", "id"), pick(None, y)))}))
    return {"context": [ctx(m) for m in order if m not in drop], "object": obj}


def unset(d):
    if isinstance(d, list):
        return [unset(x) for x in (d[1:] if d and d[0] == "set" else d)]
    if isinstance(d, dict):
        return {k: unset(v) for k, v in d.items()}
    return d


def extensions(s, limit):
    """all linear extensions of the reference order"""
    need = {m: refs_of(o) for m, o in s.objs.items()}

    def rec(done, left):
        if not left:
            yield list(done)
            return
        for m in left:
            if need[m] <= set(done):
                yield from rec(done + [m], [x for x in left if x != m])
    return itertools.islice(rec([], sorted(need)), limit)


def first_uid(_, y):
    return next(iter(y.uids.items()))


def load(doc, **layout):
    import gemd.json as gj
    text = json.dumps(doc, **layout)
    r, x = attempt(gj.loads, text)
    op()
    require(r == "ok", "a document in the documented format is refused: %r\n%s", x, text[:1500])
    return x


WRITERS = ("module", "plain", "scoped")


def relaid(text, opts):
    return json.dumps(json.loads(text), **opts)


def run_options(case):
    """the options of the standard module at every entry point: same document, laid out as the standard module would"""
    import io
    import gemd.json as gj
    from gemd.json import GEMDEncoder, GEMDJson
    if case["root"] == "content":
        root = content({"v": case["v"], "b": "real", "o": "unknown", "st": "unknown", "shape": "a"})
    elif case["root"] == "data":
        root = [1.5, -2, True, None, "\u00e9\n", {"k": [float("inf"), 10 ** 30, 1e-7], "\u03bb": {}}, [], ""]
    else:
        root = root_of(build(case["g"]), case["root"])
    eng = {"module": gj, "plain": GEMDJson(), "scoped": GEMDJson(scope="mine")}[case["via"]]

    def file_dump(x, **o):
        fp = io.StringIO()
        require(eng.dump(x, fp, **o) is None, "dump returns something")
        return fp.getvalue()
    pairs = [("dumps", eng.dumps, eng.loads), ("dump", file_dump, lambda t, **o: eng.load(io.StringIO(t), **o))]
    if case["via"] != "module":
        pairs += [("thin_dumps", eng.thin_dumps, eng.raw_loads)]
        if case["root"] in ("data", "content") or case["g"]["level"] == "T":
            pairs += [("raw_dumps", eng.raw_dumps, eng.raw_loads), ("GEMDEncoder", lambda x, **o: json.dumps(x, cls=GEMDEncoder, sort_keys=True, **o), eng.raw_loads)]
    for name, dump, load_ in pairs:
        text = dump(root)
        ref = dump(load_(text)) if name not in ("thin_dumps",) else None
        opts = OPTS if case.get("all") else FEW
        for o in opts:
            r, got = attempt(dump, root, **o)
            op()
            rw, want = attempt(relaid, text, o)
            require(r == rw, "%s of %s with %s: %r, the standard module gives %r", name, case["via"], o, got, want)
            require(r != "ok" or got == want, "%s of %s with %s gives\n%s\nwhere the standard layout of the same document is\n%s", name, case["via"], o, got, want)
            if r == "ok" and o in FEW:
                require(dump(load_(got)) == dump(load_(text)), "%s of %s with %s loads as something else", name, case["via"], o)
        # reading: every number of the text goes through the hook that was asked for
        want = {k: [] for k in HOOKS}
        json.loads(text, **{k: want[k].append for k in HOOKS})
        for ks in (("parse_float",), ("parse_int",), ("parse_constant",), HOOKS):
            seen = {k: [] for k in ks}

            def hook(k):
                def f(s):
                    seen[k].append(s)
                    return HOOKS[k](s)
                return f
            x = load_(text, **{k: hook(k) for k in ks})
            op()
            for k in ks:
                require(seen[k] == want[k], "%s with %s: the hook saw %s, the text holds %s", name, k, seen[k], want[k])
            require(ref is None or dump(x) == ref, "%s: reading with %s gives something else", name, ks)
        odd = text.replace("\\n", "\n")
        r, x = attempt(load_, odd)
        rw, w = attempt(json.loads, odd)
        require(r == rw, "%s: text with control characters: %r, the standard module says %r", name, x, w)
        r, x = attempt(load_, odd, strict=False)
        require(r == "ok" and (ref is None or dump(x) == ref), "%s: strict=False has no effect: %r", name, x)
        for bad in ("", "[", text[:-1], text + "x"):
            require(attempt(load_, bad)[0] != "ok", "%s: the malformed text %r is accepted", name, bad[:50])
        op(6)
    return ("options", repr(case))


OPTS = [dict(zip(("indent", "separators", "ensure_ascii", "allow_nan"), v)) for v in itertools.product(
    (None, 0, 1, 3, "\t"), (None, (",", ":"), (" , ", " : ")), (True, False), (True, False))]
FEW = [{"indent": 2}, {"separators": (",", ":"), "ensure_ascii": False}, {"allow_nan": False, "indent": 0}]
HOOKS = {"parse_float": float, "parse_int": int, "parse_constant": float}


def structure(case):
    g = build(case["g"])
    root = root_of(g, case["root"])
    return root, Snap(root)


def run_case(case):
    if "copies" in case:
        from gemd.json import dumps
        root, want = copies(case["copies"], case["shape"])
        got = [x["uids"] for x in json.loads(dumps(root))["context"] if x["type"] == "process_spec"]
        require(len(got) == want, "of specs with uids %s the context lists %s", case["copies"], got)
        return (want, case["shape"])
    k = case["k"]
    if k == "write":
        check_written(root_of(build(case["g"]), case["root"]))
        return (repr(case),)
    if k == "content":
        check_written(content(case))
        return (repr(case),)
    if k == "options":
        return run_options(case)
    root, s = structure(case)
    if k == "order":
        n = 0
        for order in extensions(s, case["limit"]):
            compare(s, Snap(load(document(root, s, order, first_uid))), f"loading with the context in the order {order}")
            n += 1
        return ("order", n, s.canon())
    order = next(iter(extensions(s, 1)))
    if k == "scope":
        # every reference in turn by every uid of its target and by other spellings of the scope; then all at once
        uses = []
        document(root, s, order, lambda m, y: uses.append((m, marker(y))) or first_uid(m, y))
        uses = sorted(set(uses), key=repr)
        for one in uses + [None]:
            target = s.objs[one[1]] if one else None
            many = [(f(sc), i) for sc, i in target.uids.items() for f in (str, str.upper, str.lower, str.swapcase)] if one else range(8)

            for alt in many:
                def pick(m, y):
                    if one is None:
                        us = list(y.uids.items())
                        sc, i = us[alt % len(us)]
                        return (str, str.upper, str.lower, str.swapcase)[alt // 2](sc), i
                    return alt if (m, marker(y)) == one else first_uid(m, y)
                compare(s, Snap(load(document(root, s, order, pick))), f"loading with reference {one} as {alt}")
        return ("scope", s.canon())
    if k == "vary":
        doc = document(root, s, order, first_uid)
        if case["omit"]:
            doc = {p: vary(doc[p], case["omit"]) for p in doc}
        if case["extra"]:
            doc = {p: extra(doc[p], case["extra"]) for p in doc}
        if case["reorder"]:
            doc = {p: reorder(doc[p], case["reorder"]) for p in doc}
        x = load(doc, **LAYOUTS[case["layout"]])
        compare(s, Snap(x), f"loading the variation {case}")
        return ("vary", repr({k: v for k, v in case.items() if k != "g"}), s.canon())
    if k == "omit":
        # one field of one entity left out or null: the structure with that field at its default
        doc = document(root, s, order, first_uid)
        n = 0
        for e in doc["context"]:
            m = mk(e)
            for f in [f for f in e if f not in ("type", "name", "bounds", "notes", "description", "uids", "labels")
                      or f == "labels" and e["type"] == "ingredient_spec"]:
                keep = e[f]
                for how in ("out", "null"):
                    if how == "out":
                        del e[f]
                    elif f in DEFAULTS:
                        continue
                    else:
                        e[f] = None
                    got = Snap(load(doc)) if f not in ("spec", "process", "material", "template") else None
                    if got is None:
                        x = load(doc)
                        got = Snap(x)
                        if m in got.objs:
                            require(getattr(got.objs[m], f) is None, "%s without %s loads with %r", m, f, getattr(got.objs[m], f))
                        e[f] = keep
                        n += 1
                        continue
                    e[f] = keep
                    n += 1
                    if m not in got.objs:
                        continue
                    v = getattr(got.objs[m], f)
                    v = v.value if f in DEFAULTS else list(v) if isinstance(default_of(f), list) else v
                    require(v == default_of(f), "%s without %s loads with %s=%r", m, f, f, v)
                    for m2 in got.entities:
                        for f2, r2 in got.entities[m2][1].items():
                            if m2 in s.entities and not (m2 == m and f2 == f):
                                if r2 != s.entities[m2][1][f2]:
                                    lost = set(refs_of(s.objs[m])) - set(refs_of(got.objs[m]))
                                    require(lost, "%s without %s: field %s of %s is %s, expected %s", m, f, f2, m2, r2, s.entities[m2][1][f2])
        return ("omit", n, s.canon())
    if k == "partial":
        # entries missing from the context: references to them stay links
        for drop in s.objs:
            if any(marker(y) == drop for y in ([root] if is_entity(root) else root)):
                continue
            x = load(document(root, s, order, first_uid, drop=(drop,)))
            got = Snap(x)
            require(drop not in got.objs, "%s is not in the document, yet loaded", drop)
            uid = first_uid(None, s.objs[drop])
            for m in got.entities:
                for f in ENTITY[got.entities[m][0]][0]:
                    a, b = got.entities[m][1][f], s.entities[m][1][f]
                    if got.entities[m][0] == "IngredientRun" and f in ("name", "labels"):
                        continue
                    require(a == swap(b, drop, uid), "without %s: %s of %s is %s, expected %s", drop, f, m, a, swap(b, drop, uid))
        return ("partial", s.canon())
    raise ValueError(k)


def swap(enc, m, uid):
    if enc == ("@", m):
        return ("LinkByUID", *uid)
    return tuple(swap(x, m, uid) for x in enc) if isinstance(enc, tuple) else enc


def content(case):
    from gemd.entity.attribute import Condition, Parameter, Property, PropertyAndConditions
    from gemd.entity.bounds_validation import WarningLevel, validation_level
    from gemd.entity.file_link import FileLink
    from gemd.entity.link_by_uid import LinkByUID
    from gemd.entity.object import MaterialRun, MaterialSpec, MeasurementRun, ProcessRun
    from gemd.entity.source import PerformedSource
    import gemd.entity.template as T
    with validation_level(WarningLevel.IGNORE):
        t = T.PropertyTemplate("t", bounds=bounds(case["b"]), description="T", uids={"id": "t"}) if case["b"] else LinkByUID("a", "b")
        v = value(case["v"])
        a = Property("a", value=v, template=t, origin=case["o"], notes="n", file_links=FileLink("f", "u"))
        c = Condition("c", value=v, origin=case["o"])
        m = MaterialRun("m", sample_type=case["st"], notes="M", tags=["x::y", ""], spec=MaterialSpec(
            "s", notes="S", properties=[PropertyAndConditions(a, [c])]))
        e = MeasurementRun("e", notes="E", properties=[a], conditions=[c], parameters=[Parameter("p", value=v)], material=m,
                           source=PerformedSource("me", case["o"]), uids={"b": "1", "A": "2"})
        return [{"e": e, "v": v, "b": bounds(case["b"])}, a, ProcessRun("p", notes="P", conditions=[c], source=PerformedSource())][
            {"d": slice(0, 1), "a": slice(0, 3), "r": slice(2, 3)}[case["shape"]]]


ORIGINS = ["measured", "predicted", "summary", "specified", "computed", "unknown"]
SAMPLES = ["experimental", "virtual", "production", "unknown"]


def explore(ex):
    def content_cases():
        for v in [None] + VALUES:
            for b in [None] + BOUNDS_:
                yield {"k": "content", "v": v, "b": b, "o": "unknown", "st": "unknown", "shape": "d"}
        for o in ORIGINS:
            for st in SAMPLES:
                for sh in "dar":
                    yield {"k": "content", "v": "int", "b": "int", "o": o, "st": st, "shape": sh}
    ex.enumerate("writing: content", content_cases())
    ex.enumerate("writing: objects that share uids", copy_cases(), chunk=32)

    def writes():
        for i, c in enumerate(standard_cases(ex.thorough)):
            if c["g"]["n"] < 100:
                yield dict(c, k="write")
    ex.enumerate("writing: object graphs", writes(), chunk=16)

    def options():
        for via in WRITERS:
            yield {"k": "options", "via": via, "root": "data", "all": 1}
            for v in VALUES:
                yield {"k": "options", "via": via, "root": "content", "v": v, "all": int(v == "real" or ex.thorough)}
            for i, c in enumerate(standard_cases(False)):
                if c["g"]["n"] < 100 and (i % 80 == 0 or ex.thorough and i % 4 == 0):
                    yield dict(c, k="options", via=via)
    ex.enumerate("options of the standard module", options(), chunk=4)

    def small():
        for n, proc, edges in topologies(2, 1, cyclic=False, loose=False):
            for lv in ("R", "S", "RS"):
                for t in (0, 1, 3):
                    if not (t and lv == "R"):
                        yield {"n": n, "proc": proc, "edges": edges, "meas": [1] + [0] * (n - 1), "level": lv, "tmpl": t, "dress": 2, "route": "set"}

    def reads():
        lim = 40320 if ex.thorough else 2000
        for g in small():
            if g["n"] == 1 or g["level"] != "RS" or ex.thorough:
                yield {"k": "order", "g": dict(g, dress=0, uids="multi"), "root": "list", "limit": lim}
        for g in list(small()) + [dict(b, level="RS", tmpl=3, dress=d, route="set") for b in BASES for d in (1, 2)]:
            for u in ("multi", "case", "sameid", "idcase", "swap", "words", "many"):
                yield {"k": "scope", "g": dict(g, uids=u), "root": 0}
            for r in (0, "list") if ex.thorough else (0,):
                yield {"k": "omit", "g": dict(g, uids="multi"), "root": r}
                yield {"k": "partial", "g": dict(g, uids="multi"), "root": r if r else -1}
            for omit in (None, "out", "null"):
                for ext in (0, 1, 2, 3):
                    for how in (None, "rev", "typefirst", "typelast"):
                        for lay in LAYOUTS:
                            if ext > 1 and (lay != "plain" or how or omit == "null"):
                                continue
                            if ex.thorough or lay in ("plain", "unicode") or g["dress"] == 1:
                                yield {"k": "vary", "g": dict(g, uids="multi"), "root": 0, "omit": omit, "extra": ext, "reorder": how, "layout": lay}
    ex.enumerate("reading: variations of documents", reads(), chunk=4)
    ex.enumerate_hashed("writing: graphs under other hash seeds", (dict(c, k="write") for c in hash_cases(ex.thorough)), HASH_SEEDS[ex.thorough])
