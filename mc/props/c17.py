"""C17: an ingredient run always shows the right name and labels.

Model: each spec has (name, labels); the run has (spec, stored name, stored labels); while the spec is an object the
shown ones are the spec's, otherwise the stored ones, which are captured whenever an object spec is given up.
"""
import json

from mc.core import attempt, fingerprint, require

ID = "C17"
BOUNDS = {"quick": "all histories to depth 5 of 47 operations on an ingredient run and two specs (assign spec object, link, none, 6 wrong types; rename specs, "
                   "reassign and edit their labels in place; try to set name and labels directly; serialize and load, dump and build, thin dump, flatten, "
                   "substitute links copying or in place), merging equal states, from 5 ways to construct the run",
          "thorough": "depth 9"}
ASSUMPTIONS = []

NAMES = ["n1", "n2"]
LABELS = [[], ["a"], ["a", "b"], ["b", "b"]]


def world(start):
    from gemd.entity.link_by_uid import LinkByUID
    from gemd.entity.object import IngredientRun, IngredientSpec
    specs = {"A": IngredientSpec("n1", labels=["a"], uids={"id": "A"}), "B": IngredientSpec("n2", uids={"id": "B"})}
    first = {"none": None, "A": specs["A"], "B": specs["B"], "link": LinkByUID("id", "A")}.get(start)
    if start == "dict":
        run = IngredientRun.from_dict({"name": "n3", "labels": ["c", "a"], "notes": "r", "uids": {"id": "r"}, "tags": [], "file_links": []})
    else:
        run = IngredientRun(spec=first, notes="r", uids={"id": "r"})
    model = {"A": ["n1", ["a"]], "B": ["n2", []], "run": [first if start == "none" else {"A": "A", "B": "B", "link": "@A", "dict": None}.get(start), None, None]}
    if start == "dict":
        model["run"] = [None, "n3", ["c", "a"]]
    return {"run": run, **specs}, model


def shown(model):
    s, name, labels = model["run"]
    return model[s] if s in ("A", "B") else [name, labels]


EVENTS = [["spec", x] for x in ("A", "B", "@A", "@B", "none")] + \
    [["bad", x] for x in ("int", "str", "run", "mat", "process", "template")] + \
    [["name", s, n] for s in "AB" for n in NAMES + ["n4"]] + \
    [["labels", s, i] for s in "AB" for i in range(len(LABELS))] + \
    [["append", s, x] for s in "AB" for x in "ab"] + \
    [["clear", s] for s in "AB"] + [["one", s] for s in "AB"] + [["badlabel", s] for s in "AB"] + \
    [["direct", f] for f in ("name", "labels")] + \
    [["ser", x] for x in ("json", "copy", "build", "thin", "flat", "sub", "sub!", "list")]


def apply(w, model, ev):
    from gemd.entity.link_by_uid import LinkByUID
    from gemd.entity.object import IngredientRun, MaterialSpec, ProcessSpec
    from gemd.entity.template import ProcessTemplate
    import gemd.json as gj
    from gemd.json import GEMDJson
    from gemd.util import flatten, substitute_links
    run = w["run"]
    k = ev[0]
    if k == "spec":
        new = {"A": w["A"], "B": w["B"], "@A": LinkByUID("id", "A"), "@B": LinkByUID("id", "B"), "none": None}[ev[1]]
        r = attempt(setattr, run, "spec", new)
        require(r[0] == "ok", "spec = %s refused: %r", ev[1], r[1])
        name, labels = shown(model)
        model["run"] = [None if ev[1] == "none" else ev[1], name, None if labels is None else list(labels)]
    elif k == "bad":
        bad = {"int": 5, "str": "A", "run": IngredientRun(), "mat": MaterialSpec("n1"), "process": ProcessSpec("p"), "template": ProcessTemplate("t")}[ev[1]]
        r = attempt(setattr, run, "spec", bad)
        require(r[0] == "exc", "spec of type %s accepted", ev[1])
    elif k == "name":
        w[ev[1]].name = ev[2]
        model[ev[1]][0] = ev[2]
    elif k == "labels":
        w[ev[1]].labels = list(LABELS[ev[2]])
        model[ev[1]][1] = list(LABELS[ev[2]])
    elif k == "append":
        if len(model[ev[1]][1]) < 2:
            w[ev[1]].labels.append(ev[2])
            model[ev[1]][1] = model[ev[1]][1] + [ev[2]]
    elif k == "clear":
        w[ev[1]].labels.clear()
        model[ev[1]][1] = []
    elif k == "one":
        w[ev[1]].labels = "a"
        model[ev[1]][1] = ["a"]
    elif k == "badlabel":
        r = attempt(setattr, w[ev[1]], "labels", ["q", 5])
        require(r[0] == "exc", "labels ['q', 5] accepted")
    elif k == "direct":
        r = attempt(setattr, run, ev[1], "z" if ev[1] == "name" else ["z"])
        require(r[0] == "exc", "%s of an ingredient run set directly", ev[1])
    elif k == "ser":
        s = model["run"][0]
        how = ev[1]
        if how in ("json", "copy", "list", "build"):
            if how == "json":
                new = gj.loads(gj.dumps(run))
            elif how == "copy":
                new = GEMDJson().copy(run)
            elif how == "list":
                new = gj.loads(gj.dumps([run, {"x": run}]))
                require(new[0] is new[1]["x"], "one run became two")
                new = new[0]
            else:
                d = run.dump()
                require(d["name"] == shown(model)[0] and d["labels"] == shown(model)[1], "dumped name and labels %r %r", d["name"], d["labels"])
                new = type(run).build(json.loads(json.dumps(d)))
            if s in ("A", "B"):
                require(type(new.spec) is type(w[s]) and new.spec is not w[s], "the loaded run has spec %r", new.spec)
                w[s] = new.spec
            name, labels = shown(model)
            model["run"] = [s, name, None if labels is None else list(labels)]
        else:
            if how == "thin":
                text = GEMDJson().thin_dumps(run)
                d = json.loads(text)
                require(d["name"] == shown(model)[0] and d["labels"] == shown(model)[1], "thin name and labels %r %r", d["name"], d["labels"])
                new = GEMDJson().raw_loads(text)
            elif how == "flat":
                new = [x for x in flatten(run, "auto") if isinstance(x, IngredientRun)][0]
            elif how == "sub":
                new = substitute_links(run)
            else:
                r = substitute_links(run, inplace=True)
                new = run if r is None else r
            name, labels = shown(model)
            model["run"] = ["@" + s if s in ("A", "B") else s, name, None if labels is None else list(labels)]
        w["run"] = new


def check(w, model, ev):
    run = w["run"]
    s = model["run"][0]
    if s in ("A", "B"):
        require(run.spec is w[s], "%r: spec is %r", ev, run.spec)
    elif s is None:
        require(run.spec is None, "%r: spec is %r", ev, run.spec)
    else:
        require(type(run.spec).__name__ == "LinkByUID" and (run.spec.scope, run.spec.id) == ("id", s[1]), "%r: spec is %r", ev, run.spec)
    name, labels = shown(model)
    require(run.name == name, "%r: the run shows name %r, expected %r", ev, run.name, name)
    got = run.labels
    require((got is None and labels is None) or (got is not None and labels is not None and list(got) == labels),
            "%r: the run shows labels %r, expected %r", ev, got, labels)
    d = run.as_dict()
    require(d["name"] == name and d["labels"] == labels, "%r: as_dict gives %r %r", ev, d["name"], d["labels"])
    for x in "AB":
        require(w[x].name == model[x][0] and list(w[x].labels) == model[x][1], "%r: spec %s is %r %r, expected %r", ev, x, w[x].name, w[x].labels, model[x])


def run_case(hist):
    w, model = world(hist[0])
    check(w, model, "construction")
    for ev in hist[1:]:
        apply(w, model, ev)
        check(w, model, ev)
    return repr((model, fingerprint(w)))


def explore(ex):
    ex.bfs("edit histories", ["none", "A", "B", "link", "dict"], lambda s: EVENTS, 9 if ex.thorough else 5)
