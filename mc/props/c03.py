"""C03: bidirectional links stay mutually consistent under every edit history.

Model: forward pointers only (material->process, ingredient->process/material, measurement->material); the back
references are a function of them.  A process handed to a second material leaves the first one without a process.
"""
from mc.core import Violation, attempt, fingerprint, op, require

ID = "C03"
ASSUMPTIONS = ["populations of at most 2 processes, 2-3 materials, 2-3 ingredients, 2 measurements",
               "edits through the public attributes and the public substitution functions only"]
BOUNDS = {
    "quick": "all histories to closure or depth 5 over populations of 6-7 runs/specs, 5 targets per link incl. rejected",
    "thorough": "as quick, to closure of the state graph, larger populations",
}

# setup: (kind, n_proc, n_mat, n_ing, n_meas, style)
#   style "same": all siblings equal; "named": distinct names/tags; "uid": distinct uids, enables link substitution

BAD = ["str", "other", "int", "swap"]


def build(setup):
    from gemd.entity.object import (ProcessRun, ProcessSpec, MaterialRun, MaterialSpec, IngredientRun,
                                    IngredientSpec, MeasurementRun)
    kind, np_, nm, ni, ns, style = setup
    run = kind == "run"
    P, M, I = (ProcessRun, MaterialRun, IngredientRun) if run else (ProcessSpec, MaterialSpec, IngredientSpec)
    objs = {}

    def kw(k):
        d = {}
        if style == "named":
            d["tags"] = [k]
        if style == "uid":
            d["uids"] = {"Scope": k}
        return d

    for j in range(np_):
        objs[f"p{j}"] = P("p", **kw(f"p{j}"))
    for j in range(nm):
        objs[f"m{j}"] = M("m", **kw(f"m{j}"))
    for j in range(ni):
        objs[f"i{j}"] = I(**kw(f"i{j}")) if run else I("i", **kw(f"i{j}"))
    for j in range(ns):
        objs[f"s{j}"] = MeasurementRun("s", **kw(f"s{j}"))
    op(len(objs))
    return objs


def fields_of(k):
    return {"m": ["process"], "i": ["process", "material"], "s": ["material"]}.get(k[0], [])


def names(setup):
    kind, np_, nm, ni, ns, style = setup
    return ([f"p{j}" for j in range(np_)] + [f"m{j}" for j in range(nm)] + [f"i{j}" for j in range(ni)]
            + [f"s{j}" for j in range(ns)])


def events(setup):
    ns = names(setup)
    ev = []
    for k in ns:
        for f in fields_of(k):
            pre = "p" if f == "process" else "m"
            if k[0] == "i" and f == "material":
                targets = [t for t in ["m0"] if t in ns] + [None, "L0", "!str"]
            else:
                targets = [t for t in ns if t[0] == pre] + [None, "L0"]
                targets += ["!" + b for b in (BAD if k in ("m0", "i0", "s0") else BAD[:1])]
            ev += [["set", k, f, t] for t in targets]
    if setup[5] == "uid":
        ev += [["links", k] for k in ns if fields_of(k)]
        ev += [["objects", k] for k in ns if fields_of(k)]
    ev += [["new", k] for k in ns if k[0] == "p" or (k[0] == "m" and setup[4])]
    return ev


def bad_value(tag, k, f, objs, kind):
    from gemd.entity.object import ProcessRun, ProcessSpec, MaterialRun, MaterialSpec
    if tag == "!str":
        return "p0"
    if tag == "!int":
        return 5
    if tag == "!other":     # the run/spec counterpart
        if f == "process":
            return ProcessSpec("p") if kind == "run" else ProcessRun("p")
        return MaterialSpec("m") if kind == "run" else MaterialRun("m")
    # right family, wrong field
    if f == "process":
        return objs["m0"] if "m0" in objs else (MaterialRun("m") if kind == "run" else MaterialSpec("m"))
    return objs["p0"] if "p0" in objs else (ProcessRun("p") if kind == "run" else ProcessSpec("p"))


def observe(objs, extra):
    """Read everything through the public attributes, by identity."""
    from gemd.entity.link_by_uid import LinkByUID
    ids = {id(o): k for k, o in objs.items()}
    ids.update({id(o): f"x{j}" for j, o in enumerate(extra)})

    def nm(x):
        if x is None:
            return None
        if isinstance(x, LinkByUID):
            return f"L({x.scope},{x.id})"
        require(id(x) in ids, "a link leads to an unknown object %r", type(x))
        return ids[id(x)]

    fwd, back = {}, {}
    allobj = dict(objs)
    allobj.update({f"x{j}": o for j, o in enumerate(extra)})
    for k, o in allobj.items():
        kind = type(o).__name__
        if kind.startswith("Material"):
            fwd[k, "process"] = nm(o.process)
        if kind.startswith("Ingredient"):
            fwd[k, "process"] = nm(o.process)
            fwd[k, "material"] = nm(o.material)
        if kind.startswith("Measurement"):
            fwd[k, "material"] = nm(o.material)
        if kind.startswith("Process"):
            back[k, "output"] = nm(o.output_material)
            back[k, "ingredients"] = [nm(x) for x in o.ingredients]
        if kind == "MaterialRun":
            back[k, "measurements"] = [nm(x) for x in o.measurements]
    return fwd, back


def consistent(fwd, back, where):
    for (k, what), got in back.items():
        if what == "output":
            want = [a for (a, f), t in fwd.items() if f == "process" and t == k and is_mat(a)]
            require(len(want) <= 1, "%s: materials %s all claim process %s", where, want, k)
            require(got == (want[0] if want else None),
                    "%s: %s.output_material is %s but materials pointing to it: %s", where, k, got, want)
        elif what == "ingredients":
            want = sorted(a for (a, f), t in fwd.items() if f == "process" and t == k and not is_mat(a))
            require(sorted(got, key=str) == want, "%s: %s.ingredients = %s but pointing to it: %s", where, k, got, want)
        else:
            want = sorted(a for (a, f), t in fwd.items() if f == "material" and t == k and is_meas(a))
            require(sorted(got, key=str) == want, "%s: %s.measurements = %s but pointing to it: %s", where, k, got, want)


EXTRA_KIND = {}


def is_mat(k):
    return k[0] == "m" or EXTRA_KIND.get(k) == "m"


def is_meas(k):
    return k[0] == "s" or EXTRA_KIND.get(k) == "s"


def known_defect(ev, before, bback, fwd, back):
    """The three recorded spec-side defects, matched exactly (trigger and resulting state); key or None.

    before/bback: consistent observation before the event, fwd/back: after it."""
    exp_f, exp_b = dict(before), {k: (list(v) if isinstance(v, list) else v) for k, v in bback.items()}
    if ev[0] == "set":
        _, k, f, t = ev
        if f != "process":
            return None
        cur = before[k, f]
        owned = cur is not None and not cur.startswith("L")
        if t is not None and t.startswith("!"):
            # rejected, but the old process has already forgotten us (or the first of our equals)
            if not owned:
                return None
            if is_mat(k):
                exp_b[cur, "output"] = None
            else:
                lst = exp_b[cur, "ingredients"]
                i = next((i for i, x in enumerate(lst) if equal_siblings(x, k, before)), None)
                if i is None:
                    return None
                del lst[i]
            return "spec-rejected-assignment-unlinks" if (fwd, back) == (exp_f, exp_b) else None
        new = t if t is None or not t.startswith("L") else "L(Scope,p0)"
        if is_mat(k):
            other = [a for (a, f2), t2 in before.items() if f2 == f and is_mat(a) and t2 == t and a != k]
            if t is None or not other or t.startswith("L"):
                return None
            if owned:
                exp_b[cur, "output"] = None
            exp_b[t, "output"] = k
            exp_f[k, f] = t
            return "spec-process-of-another-material" if (fwd, back) == (exp_f, exp_b) else None
        if not owned:
            return None
        lst = exp_b[cur, "ingredients"]
        i = next((i for i, x in enumerate(lst) if equal_siblings(x, k, before)), None)
        if i is None or lst[i] == k:
            return None
        del lst[i]
        exp_f[k, f] = new
        if new is not None and not new.startswith("L"):
            exp_b[new, "ingredients"].append(k)
        return "spec-equal-sibling-unlinked" if (fwd, back) == (exp_f, exp_b) else None
    if ev[0] == "objects":
        # resolving links made a second material claim the process, nothing else is wrong
        for (p, what), got in back.items():
            if what == "output":
                want = [a for (a, f2), t2 in fwd.items() if f2 == "process" and is_mat(a) and t2 == p]
                if len(want) > 1 and got in want:
                    fwd2 = {k: v for k, v in fwd.items() if not (k[1] == "process" and k[0] in want and k[0] != got)}
                    try:
                        consistent(fwd2, back, "")
                    except Violation:
                        return None
                    return "spec-process-of-another-material"
    return None


def equal_siblings(x, k, before):
    """Ingredients of one process are equal when their other links agree (style 'same')."""
    if x == k:
        return True
    return STYLE[0] == "same" and before[x, "material"] == before[k, "material"]


STYLE = [None]


def run_case(hist):
    STYLE[0] = hist[0][5]
    state = {}
    try:
        return _run(hist, state)
    except Violation as v:
        if hist[0][0] == "spec" and v.key is None and "ev" in state:
            try:
                fwd, back = observe(state["objs"], state["extra"])
            except Violation:
                raise v
            key = known_defect(state["ev"], state["before"], state["bback"], fwd, back)
            if key:
                raise Violation(str(v), key)
        raise


def _run(hist, state):
    from gemd.entity.link_by_uid import LinkByUID
    from gemd.entity.object import IngredientRun, IngredientSpec, MeasurementRun
    from gemd.util import substitute_links, substitute_objects, make_index
    setup = hist[0]
    kind = setup[0]
    objs = build(setup)
    extra = []
    EXTRA_KIND.clear()
    fwd, back = observe(objs, extra)
    consistent(fwd, back, "initially")
    for ev in hist[1:]:
        where = f"after {ev}"
        model = dict(fwd)
        state.update(ev=ev, before=fwd, bback=back, objs=objs, extra=extra)
        if ev[0] == "set":
            _, k, f, t = ev
            if t is None:
                val = None
            elif t.startswith("L"):
                val = LinkByUID("Scope", "p0" if f == "process" else "m0")
            elif t.startswith("!"):
                val = bad_value(t, k, f, objs, kind)
            else:
                val = objs[t]
            r, exc = attempt(setattr, objs[k], f, val)
            if t is not None and t.startswith("!"):
                require(r == "exc", "%s: an invalid target was accepted", where)
            else:
                require(r == "ok", "%s: a valid assignment was refused: %r", where, exc)
                new = f"L({val.scope},{val.id})" if isinstance(val, LinkByUID) else t
                if f == "process" and is_mat(k) and new is not None and not new.startswith("L"):
                    for (a, f2), t2 in list(model.items()):
                        if f2 == "process" and is_mat(a) and t2 == new:
                            model[a, f2] = None
                model[k, f] = new
            fwd, back = observe(objs, extra)
            require(fwd == model, "%s: links are %s, expected %s", where, diff(fwd, model), diff(model, fwd))
        elif ev[0] == "new":
            # construction with the link given
            k = ev[1]
            if len(extra) >= 1:
                continue
            if k[0] == "p":
                o = IngredientRun(process=objs[k]) if kind == "run" else IngredientSpec("i", process=objs[k])
                EXTRA_KIND[f"x{len(extra)}"] = "i"
                model[f"x{len(extra)}", "process"] = k
                model[f"x{len(extra)}", "material"] = None
            else:
                o = MeasurementRun("s", material=objs[k])
                EXTRA_KIND[f"x{len(extra)}"] = "s"
                model[f"x{len(extra)}", "material"] = k
            op()
            extra.append(o)
            fwd, back = observe(objs, extra)
            require(fwd == model, "%s: links are %s, expected %s", where, diff(fwd, model), diff(model, fwd))
        elif ev[0] == "links":
            k = ev[1]
            op()
            res = substitute_links(objs[k], inplace=True)
            require(res is objs[k], "%s: in-place substitution returned another object", where)
            for f in fields_of(k):
                if model[k, f] is not None and not model[k, f].startswith("L"):
                    model[k, f] = f"L(Scope,{model[k, f]})"
            fwd, back = observe(objs, extra)
            require(fwd == model, "%s: links are %s, expected %s", where, diff(fwd, model), diff(model, fwd))
        elif ev[0] == "objects":
            k = ev[1]
            op()
            index = make_index(list(objs.values()))
            substitute_objects(objs[k], index, inplace=True)
            fwd, back = observe(objs, extra)
            for f in fields_of(k):
                require(fwd[k, f] is None or not fwd[k, f].startswith("L"), "%s: %s.%s is still a link", where, k, f)
        consistent(fwd, back, where)
    order = tuple(sorted((str(a), tuple(b) if isinstance(b, list) else b) for a, b in back.items()))
    return (tuple(setup), tuple(sorted((str(a), str(b)) for a, b in fwd.items())), order,
            tuple(sorted(EXTRA_KIND.items())), fingerprint(objs, extra))


def diff(a, b):
    return {k: v for k, v in a.items() if b.get(k, "?") != v}


def explore(ex):
    d = 12 if ex.thorough else 5
    ex.bfs("runs: 2 processes, 2 materials, 2 equal ingredients", [["run", 2, 2, 2, 0, "same"]], events, d)
    ex.bfs("runs: 2 materials, 3 equal measurements", [["run", 0, 2, 0, 3, "same"]], events, d + 2)
    ex.bfs("specs: 2 processes, 2 materials, 2 equal ingredients", [["spec", 2, 2, 2, 0, "same"]], events, d)
    ex.bfs("specs: 2 processes, 2 materials, 2 distinct ingredients", [["spec", 2, 2, 2, 0, "named"]], events, d)
    ex.bfs("runs: 1 process, 3 materials", [["run", 1, 3, 0, 0, "named"]], events, d + 2)
    ex.bfs("specs: 3 processes, 2 materials", [["spec", 3, 2, 0, 0, "same"]], events, d + 2)
    ex.bfs("runs: 2 processes, 3 equal ingredients", [["run", 2, 0, 3, 0, "same"]], events, d)
    ex.bfs("runs with link substitution", [["run", 1, 1, 2, 1, "uid"]], events, d)
    ex.bfs("specs with link substitution", [["spec", 1, 2, 1, 0, "uid"]], events, d)
    if ex.thorough:
        ex.bfs("runs: everything together", [["run", 2, 2, 2, 2, "same"]], events, 6)
        ex.bfs("runs: named", [["run", 2, 2, 2, 0, "named"]], events, d)
