"""C14: graph traversal visits every object exactly once and reports dependencies."""
from collections import Counter

from mc.core import attempt, op, require
from mc.graphs import HASH_SEEDS, hash_cases, ENTITY, Snap, build, cname, is_entity, marker, root_of, standard_cases

ID = "C14"
BOUNDS = {"quick": "the C01 family of object graphs with 12 container shapes (nested lists, tuples, dicts with objects as keys or values, sets, "
                   "attributes, repeated and mutually nested containers); every traversal function and option on each",
          "thorough": "the larger C01 family"}
ASSUMPTIONS = []

SHAPES = ["keys", "set", "tupkey", "unhash", "shared", "deepnest", "frozen", "fieldlist"]


def shape(g, code):
    its = g.items
    if code == "keys":
        return {its[0]: 1, "a": its[-1], its[-1]: [its[0]]}
    if code == "set":
        return [set(its), {its[0]}]
    if code == "frozen":
        return {"f": frozenset(its), "t": (its[0], (its[-1],))}
    if code == "tupkey":
        return {(its[0], 1): its[-1], (its[-1], its[-1]): None}
    if code == "unhash":
        return (its[0], [its[-1], {"a": (its[0], {})}], ([],))
    if code == "shared":
        inner = [its[0], its[-1]]
        return [inner, inner, {"x": inner}, (1, True, 1.0)]
    if code == "deepnest":
        x = [its[-1]]
        for i in range(30):
            x = [x] if i % 2 else {"k": x}
        return [x, its[0]]
    if code == "fieldlist":
        return [getattr(o, f) for o in its for f in ENTITY[cname(o)][0] + ENTITY[cname(o)][1]]
    return root_of(g, code)


def walk(x, back):
    """independent reachability through public fields: id -> entity"""
    from mc.graphs import PLAIN
    found, seen, stack = {}, set(), [x]
    keep = []
    while stack:
        y = stack.pop()
        n = cname(y)
        if n in ENTITY:
            if id(y) in found:
                continue
            found[id(y)] = y
            f, b = ENTITY[n]
            stack.extend(getattr(y, k) for k in f + (b if back else []))
        elif n in PLAIN:
            stack.extend(getattr(y, k) for k in PLAIN[n])
        elif isinstance(y, str) or y is None or isinstance(y, (int, float)):
            pass
        elif hasattr(y, "keys"):
            stack.extend(y.keys())
            stack.extend(y.values())
        elif isinstance(y, (list, tuple, set, frozenset)):
            keep.append(y)
            stack.extend(y)
    return found


def direct(x, acc):
    """entities and links directly inside a field value"""
    from mc.graphs import PLAIN
    n = cname(x)
    if n in ENTITY or n == "LinkByUID":
        acc.append(x)
    elif n in PLAIN:
        for f in PLAIN[n]:
            direct(getattr(x, f), acc)
    elif isinstance(x, (list, tuple)):
        for y in x:
            direct(y, acc)
    return acc


def depset(xs):
    return {("L", x.scope, x.id) if cname(x) == "LinkByUID" else ("E", id(x)) for x in xs}


def check_deps(e):
    want = depset(direct([getattr(e, f) for f in ENTITY[cname(e)][0]], []))
    got = e.all_dependencies()
    op()
    require(isinstance(got, set) and depset(got) == want, "all_dependencies of %s %s gives %s", cname(e), marker(e),
            [cname(x) for x in got])
    require(len(got) == len(want), "all_dependencies of %s repeats an element", marker(e))


def run_case(case):
    from gemd.util import flatten, make_index, recursive_flatmap, recursive_foreach, set_uuids
    g = build(case["g"])
    root = shape(g, case["root"])
    before = Snap([root] + g.items)
    full, fwd = walk(root, True), walk(root, False)
    for first in (True, False, None):
        seen = []
        kw = {} if first is None else {"apply_first": first}
        res = recursive_foreach(root, seen.append, **kw)
        op()
        require(res is None, "recursive_foreach returned %r", res)
        cnt = Counter(id(x) for x in seen)
        require(all(is_entity(x) for x in seen), "recursive_foreach applied to %s", {cname(x) for x in seen})
        require(set(cnt) == set(full), "recursive_foreach(apply_first=%s) visited %s, reachable %s", first,
                sorted(marker(x) for x in seen), sorted(marker(x) for x in full.values()))
        require(all(v == 1 for v in cnt.values()), "recursive_foreach(apply_first=%s) visited some object %s times", first,
                max(cnt.values(), default=0))
    for uni, want in ((True, fwd), (False, full), (None, fwd)):
        kw = {} if uni is None else {"unidirectional": uni}
        calls = []

        def func(x):
            calls.append(x)
            k = len(calls) % 3
            return [(id(x), j) for j in range(k)]
        expect_acc = None
        got = recursive_flatmap(root, func, **kw)
        op()
        cnt = Counter(id(x) for x in calls)
        require(set(cnt) == set(want) and all(v == 1 for v in cnt.values()),
                "recursive_flatmap(unidirectional=%s) visited %s, expected each of %s once", uni,
                sorted(marker(x) for x in calls), sorted(marker(x) for x in want.values()))
        expect = [(id(x), j) for i, x in enumerate(calls) for j in range((i + 1) % 3)]
        require(got == expect, "recursive_flatmap does not return the accumulated results in order")
        got = recursive_flatmap(root, lambda x: iter([x]), **kw)
        require(Counter(map(id, got)) == Counter(list(want)), "recursive_flatmap with an iterator-valued function differs")
        op()
    idx = make_index(root)
    op()
    want = {(s, i): e for e in fwd.values() for s, i in e.uids.items()}
    require(len(idx) == len(want), "make_index has %s entries, expected %s", len(idx), len(want))
    for k, v in idx.items():
        require(want.get((k.scope, k.id)) is v, "make_index maps %s to %s", k, marker(v))
        require(idx[(k.scope, k.id)] is v, "the index cannot be looked up by (scope, id)")
    for e in g.items:
        check_deps(e)
    require(before.canon() == Snap([root] + g.items).canon(), "traversal changed the structure")
    # uids go exactly to the reachable objects that have none
    had = {id(e): dict(e.uids) for e in g.items}
    set_uuids(root, "sc")
    op()
    for e in g.items:
        u = dict(e.uids)
        if had[id(e)] or id(e) not in full:
            require(u == had[id(e)], "set_uuids changed the uids of %s to %s", marker(e), u)
        else:
            require(list(u) == ["sc"] and isinstance(u["sc"], str) and u["sc"], "set_uuids gave %s the uids %s", marker(e), u)
    every = [i for e in full.values() for i in e.uids.items()]
    require(len(set(every)) == len(every), "set_uuids assigned one uid twice")
    after = Snap([root] + g.items)
    for m in before.entities:
        for f, v in before.entities[m][1].items():
            require(f == "uids" or after.entities[m][1][f] == v, "set_uuids changed %s of %s", f, m)
    flat = flatten(root, "sc")
    for e in flat:
        check_deps(e)
    return (repr(case["g"].get("uids")), case["root"], tuple(sorted(marker(e) for e in full.values())),
            tuple(sorted(marker(e) for e in fwd.values())))


def explore(ex):
    def gen():
        for i, c in enumerate(standard_cases(ex.thorough)):
            yield c
            if ex.thorough or i % 3 == 0:
                yield dict(c, root=SHAPES[i % len(SHAPES)])
        from mc.graphs import content_cases
        yield from content_cases(["RS"], ["mixed"], SHAPES, tmpls=(0, 3), dresses=(0, 2))
    ex.enumerate("object graphs", gen(), chunk=16)
    ex.enumerate_hashed("graphs under other hash seeds", hash_cases(ex.thorough, ("R", "S", "RS"), ("mixed",), (0, "keys")),
                        HASH_SEEDS[ex.thorough])
