"""C20: uids and links identify objects consistently.

Model: the uids are an ordered list of (spelling, id), scopes compared by lower case.
"""
import itertools
import uuid

from mc.core import attempt, fingerprint, op, require
from mc.graphs import ENTITY, Snap, WORDS, cname

ID = "C20"
SCOPES = ["id", "ID", "Auto", "auto", "x"]
ASK = [None, "id", "Id", "ID", "auto", "AUTO", "Auto", "x", "X", "zz", ""]
IDS = ["1", "2", "A", "a", ""]
BOUNDS = {"quick": "14 classes x every ordered uid map of up to 2 of 5 scope spellings x 5 ids (3 scopes for one class) and 19 scopes that are also names in the program, requested in 11 scopes with and "
                   "without fallback, each compared with 55 links and pairs; all histories to closure of uid edits and link makings over 5 scopes x 2 ids; "
                   "all pairs of 60 links",
          "thorough": "uid maps of up to 3 scopes for all classes; edits over 3 ids"}
ASSUMPTIONS = ["uids are strings"]
CLASSES = sorted(ENTITY)


def make(cls, uids):
    import gemd.entity.object as o
    import gemd.entity.template as t
    from gemd.entity.bounds import IntegerBounds
    c = getattr(o, cls, None) or getattr(t, cls)
    kw = {}
    if cls in ("PropertyTemplate", "ConditionTemplate", "ParameterTemplate"):
        kw["bounds"] = IntegerBounds(0, 1)
    if cls != "IngredientRun":
        kw["name"] = "n"
    kw["notes" if "notes" in ENTITY[cls][0] else "description"] = "mark"
    return c(uids=uids, tags=["t"], **kw)


def state(e):
    return list(e.uids.items())


def rest(e):
    s = Snap(e)
    (c, rec), = s.entities.values()
    return c, {k: v for k, v in rec.items() if k != "uids"}


def find(items, scope):
    return next(((s, i) for s, i in items if s.lower() == scope.lower()), None)


def probe_links(e, items, before_rest):
    from gemd.entity.link_by_uid import LinkByUID
    for scope in ASK:
        for fb in (False, True):
            k, l = attempt(e.to_link, scope, allow_fallback=fb) if scope is not None else attempt(e.to_link, allow_fallback=fb)
            hit = items[0] if (scope is None and items) else find(items, scope or "") if scope is not None else None
            if hit is None and fb and items:
                ok = [tuple(x) for x in items]
            else:
                ok = [hit] if hit else []
            if scope is None:
                ok = [tuple(x) for x in items]
            if not ok:
                require(k == "exc" and isinstance(l, ValueError), "to_link(%r, fallback=%s) of %r gives %r", scope, fb, items, l)
            else:
                require(k == "ok" and type(l) is LinkByUID, "to_link(%r, fallback=%s) of %r fails: %r", scope, fb, items, l)
                require((l.id in [i for s, i in ok if s.lower() == l.scope.lower()]), "to_link(%r, %s) of %r gives %r", scope, fb, items, l)
                require(e == l and l == e, "the link made from the object does not equal it")
            require(state(e) == items, "to_link changed the uids: %r -> %r", items, state(e))
        if items:
            k, l = attempt(LinkByUID.from_entity, e, scope=scope) if scope is not None else attempt(LinkByUID.from_entity, e)
            hit = find(items, scope if scope is not None else "auto")
            ok = [hit] if hit else items
            require(k == "ok" and (l.id in [i for s, i in ok if s.lower() == l.scope.lower()]), "from_entity(%r) of %r gives %r", scope, items, l)
            require(state(e) == items, "from_entity changed the uids: %r -> %r", items, state(e))
    for scope in ASK[1:]:
        for i in IDS:
            carries = any(s.lower() == scope.lower() and j == i for s, j in items)
            link, pair = LinkByUID(scope, i), (scope, i)
            op(8)
            got = (e == link, link == e, e == pair, pair == e, not (e != link), not (link != e), not (e != pair))
            require(all(g is carries for g in got), "%r against (%r, %r): %r, expected %s", items, scope, i, got, carries)
    for other in (None, "id", "1", 5, (), ("id",), ("id", "1", "x"), [], ["id", "1"], {}, {"id": "1"}):
        op()
        require(not (e == other) and e != other, "%r equals %r", items, other)
    for t in ((1, 2), (None, "1"), ("id", None), ("zz", None), (None, None), (("id",), "1"), (5, "1"), (b"id", "1"), (e, e)):
        for o in (t, LinkByUID(*t)):
            k, r = attempt(lambda: (e == o, o == e, not (e != o), not (o != e)))
            require(k == "ok", "comparing %r with %r raises %r", items, o, r)
            require(r == (False,) * 4, "%r against %r %r: %r", items, type(o).__name__, t, r)
    require(state(e) == items and rest(e) == before_rest, "making or comparing links changed the object: %r", state(e))


def run_map(case):
    items = [tuple(x) for x in case["uids"]]
    e = make(case["cls"], dict(items))
    require(state(e) == items, "uids given %r, read %r", items, state(e))
    before = rest(e)
    probe_links(e, items, before)
    # every way to give them
    from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
    f = make(case["cls"], CaseInsensitiveDict(dict(items)))
    require(state(f) == items, "uids given as a case-insensitive mapping read %r", state(f))
    if len(items) == 1:
        f = make(case["cls"], items[0])
        require(state(f) == items, "uids given as a pair read %r", state(f))
    src = dict(items)
    f = make(case["cls"], src)
    f.add_uid("fresh", "9")
    require(src == dict(items) and state(f) == items + [("fresh", "9")], "add_uid reached the mapping it was built from")
    if not items:
        from gemd.entity.link_by_uid import LinkByUID
        for scope in ASK:
            f, g = make(case["cls"], None), make(case["cls"], {})
            ls = [attempt(LinkByUID.from_entity, x, scope=scope) if scope is not None else attempt(LinkByUID.from_entity, x) for x in (f, g)]
            want = scope if scope is not None else "auto"
            for x, (k, l) in zip((f, g), ls):
                require(k == "ok", "from_entity(%r) without uids fails: %r", scope, l)
                require(state(x) == [(want, l.id)] and l.scope == want, "from_entity(%r) without uids gives %r, uids %r", scope, l, state(x))
                require(isinstance(l.id, str) and str(uuid.UUID(l.id)) == l.id, "generated id %r", l.id)
                require(rest(x) == before, "from_entity changed something else")
                k2, l2 = attempt(LinkByUID.from_entity, x, scope=scope)
                require(k2 == "ok" and l2.id == l.id and state(x) == [(want, l.id)], "a second link gives %r", l2)
            require(ls[0][1].id != ls[1][1].id, "two objects got the same generated id")
            require(f != ls[1][1] and f == ls[0][1] and not (f == g), "generated ids do not tell objects apart")
    return ("map", case["cls"], tuple(items))


def run_links(case):
    from gemd.entity.link_by_uid import LinkByUID
    from gemd.entity.file_link import FileLink
    (s1, i1), (s2, i2) = case["a"], case["b"]
    a, b = LinkByUID(s1, i1), LinkByUID(s2, i2)
    want = (s1, i1) == (s2, i2)
    op(10)
    require((a == b) is want and (b == a) is want and (a != b) is (not want), "links %r and %r: == gives %s", a, b, a == b)
    require((a == (s2, i2)) is want and ((s2, i2) == a) is want, "link %r and pair %r", a, (s2, i2))
    if want:
        require(hash(a) == hash(b) and hash(a) == hash((s2, i2)), "equal links hash differently")
    require((a in {b: 1}) is want and (a in {b}) is want and ((s1, i1) in {b: 1}) is want and (a in {(s2, i2): 1}) is want, "links as keys: %r %r", a, b)
    require((a in [b]) is want, "link in list")
    for other in (None, s1, (s1,), (s1, i1, ""), [s1, i1], FileLink(s1, i1), {"scope": s1, "id": i1}):
        require(not (a == other), "link %r equals %r", a, other)
    require((a.scope, a.id, b.scope, b.id) == (s1, i1, s2, i2), "comparison changed a link")
    return ("links", s1, i1, s2, i2)


def events(ids):
    ev = [["add", s, i] for s in SCOPES for i in ids]
    ev += [["del", s] for s in SCOPES]
    ev += [["set", m] for m in ([], [["id", "1"]], [["Auto", "2"], ["x", "1"]], [["id", "1"], ["ID", "2"]], [["auto", "a"], ["id", "2"]], [["self", "1"], ["seq", "ab"]], None)]
    ev += [["link", s] for s in ASK]
    ev += [["tolink", s] for s in (None, "id", "zz")]
    ev += [["wipe"], ["eq"]]
    return ev


def run_hist(hist):
    from gemd.entity.link_by_uid import LinkByUID
    e = make(hist[0]["cls"], None)
    before = rest(e)
    items = []
    gen = 0
    names = {}
    for ev in hist[1:]:
        new = list(items)
        reject = False
        if ev[0] == "add":
            hit = find(items, ev[1])
            if hit is None:
                new.append((ev[1], ev[2]))
            elif hit[0] == ev[1]:
                new[items.index(hit)] = (ev[1], ev[2])
            else:
                reject = True
            k, r = attempt(e.add_uid, ev[1], ev[2])
        elif ev[0] == "del":
            hit = find(items, ev[1])
            if hit:
                new.remove(hit)
            else:
                reject = True
            k, r = attempt(lambda: e.uids.__delitem__(ev[1]))
        elif ev[0] == "set":
            m = ev[1]
            new = [] if m is None else [tuple(x) for x in m]
            if len({s.lower() for s, _ in new}) < len(new):
                reject = True
            k, r = attempt(setattr, e, "uids", None if m is None else dict(m))
        elif ev[0] == "link":
            k, r = attempt(LinkByUID.from_entity, e, scope=ev[1])
            if not items:
                require(k == "ok" and len(e.uids) == 1, "from_entity without uids")
                new = [(ev[1] if ev[1] is not None else "auto", r.id)]
                gen += 1
                names[r.id] = "gen"
            else:
                require(k == "ok" and find(items, r.scope) is not None and find(items, r.scope)[1] == r.id, "from_entity gives %r of %r", r, items)
        elif ev[0] == "tolink":
            k, r = attempt(e.to_link, ev[1], allow_fallback=True)
            reject = not items
        elif ev[0] == "wipe":
            k, r = attempt(e.uids.clear)
            new = []
        else:
            k, r = attempt(lambda: (e == LinkByUID("id", "1"), e == ("x", "1"), e == e))
        require((k == "exc") is reject, "%r on uids %r: %r", ev, items, r)
        if not reject:
            items = new
        require(state(e) == items, "%r: uids are %r, expected %r", ev, state(e), items)
    probe_links(e, items, before)
    return (hist[0]["cls"], tuple((s, names.get(i, i)) for s, i in items), fingerprint(e))


def run_case(case):
    if isinstance(case, list):
        return run_hist(case)
    return run_links(case) if case["k"] == "links" else run_map(case)


def maps(n):
    for k in range(n + 1):
        for sc in itertools.permutations(SCOPES, k):
            if len({s.lower() for s in sc}) < k:
                continue
            for ids in itertools.product(IDS, repeat=k):
                yield [[s, i] for s, i in zip(sc, ids)]


def explore(ex):
    def cases():
        for j, c in enumerate(CLASSES):
            for m in maps(3 if (ex.thorough or c == "MaterialRun") else 2):
                yield {"k": "map", "cls": c, "uids": m}
            for s in WORDS:
                for m in ([[s, "1"]], [[s, "ab"], ["id", "2"]], [["id", "1"], [s, "x"]]):
                    if len({a.lower() for a, _ in m}) == len(m):
                        yield {"k": "map", "cls": c, "uids": m}
            yield {"k": "map", "cls": c, "uids": [[s, str(i)] for i, s in enumerate(WORDS)]}
    ex.enumerate("uid maps", cases(), chunk=16)
    ls = [[s, i] for s in ASK[1:] + ["i", "di"] for i in IDS]
    ex.enumerate("pairs of links", ({"k": "links", "a": a, "b": b} for a in ls for b in ls), chunk=128)
    ev = events(IDS[:3] if ex.thorough else IDS[:2])
    ex.bfs("uid histories", [{"cls": "MaterialRun"}, {"cls": "ProcessTemplate"}], lambda s: ev, 12)
