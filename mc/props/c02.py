"""C02: flattening yields each reachable object once, dependencies first."""
import itertools

from mc.core import attempt, op, require
from mc.graphs import HASH_SEEDS, hash_cases, BASES, ENTITY, Snap, build, cname, is_entity, marker, root_of, standard_cases
from mc.props.c01 import check_uids, uid_index, unlink

ID = "C02"
BOUNDS = {"quick": "the C01 family of object graphs, roots and containers (~9000), flattened with and without a scope; all pairs of objects over 26 sets of uids",
          "thorough": "the larger C01 family (~100000)"}
ASSUMPTIONS = ["objects of a structure that share a uid are one object (documented); otherwise uids are unique"]


def refs(enc, acc):
    """links and references inside an encoded record"""
    if isinstance(enc, tuple):
        if len(enc) == 3 and enc[0] == "LinkByUID":
            acc.append(("L", str(enc[1]).lower(), enc[2]))
        elif len(enc) == 2 and enc[0] == "@":
            acc.append(("R", enc[1]))
        else:
            for x in enc:
                refs(x, acc)
    return acc


def copies(us, shape):
    """objects in memory that are one object, since they share a uid, or two"""
    from gemd.entity.object import MaterialRun, ProcessRun, ProcessSpec
    specs = [ProcessSpec("s", uids=dict(u)) for u in us]
    same = [any(x in us[j].items() for j in range(i) for x in u.items()) for i, u in enumerate(us)]
    if shape == "list":
        return specs, same.count(False)
    runs = [ProcessRun(f"r{i}", spec=s, uids={"run": str(i)}) for i, s in enumerate(specs)]
    if shape == "spec":
        return runs, same.count(False)
    return {"x": [MaterialRun("m", process=r, uids={"mat": r.uids["run"]}) for r in runs[::-1]], "y": (runs[0], specs)}, same.count(False)


UIDSETS = [{s: i for s, i in zip("abc", ids) if i} for ids in itertools.product(("", "1", "2"), repeat=3) if any(ids)]


def copy_cases():
    for a in UIDSETS:
        for b in UIDSETS:
            for shape in ("list", "spec", "mixed"):
                yield {"copies": [a, b], "shape": shape}
        for shape in ("list", "spec", "mixed"):
            yield {"copies": [a, a, dict(a, d="9")], "shape": shape}


def run_case(case):
    from gemd.util import flatten
    if "copies" in case:
        root, want = copies(case["copies"], case["shape"])
        got = [x for x in flatten(root) if cname(x) == "ProcessSpec"]
        require(len(got) == want, "of specs with uids %s flatten lists %s", case["copies"], [dict(x.uids) for x in got])
        return (want, case["shape"])
    root = root_of(build(case["g"]), case["root"])
    scope = case["scope"]
    before = Snap(root)
    uidless = [m for m, (c, r) in before.entities.items() if r["uids"] == ("dict",)]
    r, out = attempt(flatten, root, *([] if scope is None else [scope]))
    after = Snap(root)
    if scope is None and uidless:
        require(r == "exc", "flattening objects without uids (%s) and without a scope must fail", uidless)
        check_uids(before, after, "n/a", "a failed flatten") if not uidless else None
        require(before.canon() == after.canon(), "a failed flatten changed its input")
        return ("refused", repr(case))
    require(r == "ok", "flatten failed: %r", out)
    check_uids(before, after, scope, "flatten")
    require(isinstance(out, list) and all(is_entity(x) for x in out), "flatten returned %s", [cname(x) for x in out])
    ms = [marker(x) for x in out]
    require(len(set(ms)) == len(ms), "flatten returned duplicates: %s", ms)
    require(set(ms) == set(after.entities), "flatten returned %s, reachable are %s", sorted(ms), sorted(after.entities))
    idx = uid_index(after)
    done = set()
    for x in out:
        m = marker(x)
        require(x is not after.objs[m], "flatten returned the original %s", m)
        one = Snap(x, follow=True)
        require(list(one.entities) == [m], "the flattened %s still refers to objects: %s", m, sorted(one.entities))
        c, rec = one.entities[m]
        c0, want = after.entities[m]
        require(c == c0, "%s became a %s", m, c)
        for f in ENTITY[c][0]:
            got = unlink(rec[f], idx, [])
            require(got == want[f], "flattened %s: %s is %s, expected %s", m, f, rec[f], want[f])
            for t in refs(rec[f], []):
                target = idx.get((t[1], t[2]))
                require(target is not None, "flattened %s: %s holds a link to nowhere: %s", m, f, t)
                require(target in done, "%s comes before %s, which it refers to", m, target)
        done.add(m)
    op(len(out))
    return ("ok", tuple(ms), case["g"].get("uids"))


def explore(ex):
    def gen():
        for i, c in enumerate(standard_cases(ex.thorough)):
            yield dict(c, scope="id" if i % 2 else "My Scope")
            if c["g"].get("uids") in ("all", "multi", "case", "auto") or i % 10 == 0:
                yield dict(c, scope=None)
    ex.enumerate("object graphs", gen(), chunk=16)
    ex.enumerate("objects that share uids", copy_cases(), chunk=32)
    ex.enumerate_hashed("graphs under other hash seeds", (dict(c, scope="id") for c in hash_cases(ex.thorough, ("R", "S", "RS"))),
                        HASH_SEEDS[ex.thorough])
