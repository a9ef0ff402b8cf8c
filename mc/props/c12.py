"""C12: replacing objects by links and links by objects are exact inverses."""
from mc.core import attempt, op, require
from mc.graphs import HASH_SEEDS, hash_cases, BASES, ENTITY, PLAIN, Snap, build, cname, compare, content_cases, is_entity, long_cases, marker, odd_cases, root_of, topology_cases
from mc.props.c01 import tree

ID = "C12"
BOUNDS = {"quick": "object graphs with up to 2 materials and 1-2 ingredient uses, 4 content-rich base graphs, x 9 roots and containers "
                   "x 6 uid settings x 6 scope/fallback settings x copying/in-place x index by link/by pair/partial",
          "thorough": "up to 2 materials with 2 uses and 3 materials with 2 uses, all roots"}
ASSUMPTIONS = ["uids are unique among the objects of a structure", "the order of measurements and ingredients is not part of the content",
               "dict keys are plain strings or (in-place and copying) objects"]

SCOPES = [[None, None], [None, True], ["id", True], ["ID", False], ["Zed", None], ["ID", True], ["nope", False], ["nope", True]]


def link_for(e, scope, fallback):
    """expected (scope lower, id), or None for an error.  fallback None = default (True)"""
    if not e.uids:
        return None
    items = list(e.uids.items())
    if scope is not None:
        for s, i in items:
            if s.lower() == scope.lower():
                return (s.lower(), i)
        if fallback is False:
            return None
    return "any"


def enc(x, top=None, link=None):
    """encoding of a structure with entities (other than top) as their expected link, links as themselves"""
    n = cname(x)
    if n in ENTITY:
        if x is top:
            return (n,) + tuple((f, enc(getattr(x, f), None if f else None, link)) for f in ENTITY[n][0])
        return link(x)
    if n == "LinkByUID":
        return ("link", x.scope, x.id)
    if n in PLAIN:
        return (n,) + tuple(enc(getattr(x, f), None, link) for f in PLAIN[n])
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(sorted(map(repr, x)))
    if isinstance(x, list):
        return ("list",) + tuple(enc(y, None, link) for y in x)
    if isinstance(x, tuple):
        return ("tuple",) + tuple(enc(y, None, link) for y in x)
    if hasattr(x, "keys"):
        return ("dict",) + tuple(sorted(((enc(k, None, link), enc(v, None, link)) for k, v in x.items()), key=repr))
    if isinstance(x, str):
        return str(getattr(x, "value", x))
    return (n, repr(x))


def listy(e):
    """a copy of an object turns its tuples into lists (template/bounds pairs)"""
    if isinstance(e, tuple):
        return tuple("list" if x == "tuple" else listy(x) for x in e)
    return e


def resort(y):
    return ("dict",) + tuple(sorted(y[1:], key=repr)) if y and y[0] == "dict" else y


class Missing(Exception):
    pass


def make_root(case):
    g = build(case["g"])
    code = case["root"]
    its = g.items
    if code == "keys":
        return g, {its[0]: 1, "a": its[-1], "b": (its[0], True, 1, 1.0), its[-1]: None}
    if code == "tuples":
        return g, [(its[0], 1), (its[0], True), ("id", "u-" + marker(its[0])), ("a", "b"), (its[-1], [its[-1]])]
    if code == "attrs":
        from gemd.entity.attribute import Property, PropertyAndConditions
        ts = [x for x in its if cname(x) == "PropertyTemplate"]
        p = Property("q", template=ts[0] if ts else None)
        return g, [p, PropertyAndConditions(p), its[-1], p]
    return g, root_of(g, code)


def run_case(case):
    from gemd.entity.link_by_uid import LinkByUID
    from gemd.util import make_index, substitute_links, substitute_objects
    scope, fb = case["scope"]
    inplace = case["inplace"]
    g, root = make_root(case)
    everything = list(g.items)
    before = Snap([root, everything])
    top = root if is_entity(root) else None
    kw = {}
    if fb is not None:
        kw["allow_fallback"] = fb
    if inplace:
        kw["inplace"] = True

    used = {}

    def want_link(e):
        w = link_for(e, scope, fb)
        if w is None:
            raise Missing
        return ("obj", marker(e))

    try:
        want = enc(root, top, want_link)
    except Missing:
        want = None
    before_enc = enc(root, top, lambda e: ("obj", marker(e)))
    by_uid = {(s, i): e for e in everything for s, i in e.uids.items()}
    index = make_index(everything)
    op()
    args = [] if scope is None else [scope]
    r, res = attempt(substitute_links, root, *args, **kw)
    if want is None:
        require(r == "exc", "substitute_links(scope=%s, allow_fallback=%s) must fail: an object lacks a suitable uid", scope, fb)
        if not inplace:
            require(before.canon() == Snap([root, everything]).canon(),
                    "a failed substitute_links changed its input")
        return ("refused", repr(case))
    require(r == "ok", "substitute_links(scope=%s, allow_fallback=%s) failed: %r", scope, fb, res)

    def resolve(x, own_top):
        """encode a result; links to known objects become ('obj', marker), checking the scope used"""
        def conv(y):
            if isinstance(y, tuple):
                if len(y) == 3 and y[0] == "link" and (y[1], y[2]) in by_uid:
                    e = by_uid[(y[1], y[2])]
                    w = link_for(e, scope, fb)
                    require(w == "any" or (y[1].lower(), y[2]) == w, "%s is linked by %s, requested scope %s", marker(e), y, scope)
                    return ("obj", marker(e))
                return resort(tuple(conv(z) for z in y))
            return y

        def no(e):
            raise AssertionError
        def bad(e):
            require(False, "%s is still there as an object", marker(e))
        return conv(enc(x, own_top, bad))

    got = resolve(res, res if top is not None else None)
    norm = (lambda e: e) if inplace else (listy if top is not None else listy_inside)
    require(norm(got) == norm(want), "substitute_links gives %s, expected %s", got, want)
    if inplace:
        if not isinstance(root, tuple):
            require(res is root, "in-place substitution returned another object")
    else:
        require(before.canon() == Snap([root, everything]).canon(),
                "the copying substitute_links changed its input")
        require(res is not root, "the copying substitute_links returned its input")

    # ------------------------------------------------------------------------------------------------ and back
    imode = case["index"]
    if imode == "pairs":
        index = {(k.scope, k.id): v for k, v in index.items()}
    elif imode == "partial":
        keep = {marker(e) for e in everything[::2]}
        index = {k: v for k, v in index.items() if marker(v) in keep}
    elif imode == "empty":
        index = {}
    snap_links = enc(res, res if top is not None else None, lambda e: ("obj", marker(e)))
    r, back = attempt(substitute_objects, res, index, **({"inplace": True} if inplace else {}))
    require(r == "ok", "substitute_objects failed: %r", back)

    keep = {id(v) for v in index.values()}
    if inplace:
        # links in the index are the indexed objects themselves; others stay links
        def bk(e):
            require(id(e) in keep, "%s was put in place though it is not in the index", marker(e))
            return ("obj", marker(e))

        def conv(y):
            if isinstance(y, tuple):
                if len(y) == 3 and y[0] == "link" and (y[1], y[2]) in by_uid:
                    e = by_uid[(y[1], y[2])]
                    require(id(e) not in keep, "a link to %s, which is in the index, was left", marker(e))
                    return ("obj", marker(e))
                return resort(tuple(conv(z) for z in y))
            return y
        got = conv(enc(back, back if top is not None else None, bk))
        require(norm(got) == norm(before_enc), "substitute_objects(inplace) gives %s, expected %s", got, before_enc)
        if imode in ("links", "pairs"):
            now = Snap([back, everything])
            compare(before, now, "there and back in place")
            for m in before.objs:
                require(now.objs[m] is before.objs[m], "there and back in place replaced the object %s", m)
    else:
        require(enc(res, res if top is not None else None, lambda e: ("obj", marker(e))) == snap_links,
                "the copying substitute_objects changed its input")
        require(before.canon() == Snap([root, everything]).canon(),
                "the copying substitute_objects changed the indexed objects")
        if imode in ("links", "pairs") and not is_dictkeys(root):
            require(tree(back) == tree(root), "there and back gives %s, expected %s", tree(back), tree(root))
        elif imode == "empty":
            require(listy(enc(back, back if top is not None else None, lambda e: ("obj", marker(e)))) == listy(snap_links),
                    "substituting with an empty index changed something")
        elif imode == "partial":
            check_partial(back, root, top, keep, by_uid)
    return (case["root"], repr(case["scope"]), inplace, imode, repr(want))


def check_partial(back, root, top, keep, by_uid):
    """copying form, partial index: every link left is to an object outside the index, every object present is in it"""
    from mc.graphs import PLAIN
    stack = [(back, top is not None)]
    while stack:
        x, is_top = stack.pop()
        n = cname(x)
        if n == "LinkByUID":
            e = by_uid.get((x.scope, x.id))
            require(e is None or id(e) not in keep, "a link to %s, which is in the index, was left", e and marker(e))
        elif n in ENTITY:
            if not is_top:
                require(any(marker(e) == marker(x) for e in by_uid.values() if id(e) in keep),
                        "%s appeared though it is not in the index", marker(x))
            # the copies of indexed objects may hold further objects: their own references are not part of this structure
            if is_top:
                stack.extend((getattr(x, f), False) for f in ENTITY[n][0])
        elif n in PLAIN:
            stack.extend((getattr(x, f), False) for f in PLAIN[n])
        elif isinstance(x, (list, tuple)):
            stack.extend((y, False) for y in x)
        elif hasattr(x, "keys"):
            stack.extend((y, False) for y in list(x.keys()) + list(x.values()))


def listy_inside(e):
    """attributes inside a copied container are rebuilt, so pairs inside objects may become lists; plain containers keep their kind"""
    return e


def is_dictkeys(x):
    return isinstance(x, dict) and any(not isinstance(k, str) for k in x)


def explore(ex):
    roots = [0, 2, -1, "list", "tuple", "dup", "nest", "keys", "tuples", "attrs"]

    def settings(i):
        for j, sc in enumerate(SCOPES):
            for inplace in (False, True):
                yield sc, inplace

    def gen():
        fams = [long_cases(300, ["R"], ["multi"], ["list", "nest"]),
                topology_cases(2, 1, ["R", "RS", "S"], ["none", "mixed", "multi"], roots[::2] + ["attrs"], rich=False),
                content_cases(["RS"], ["mixed", "multi"], roots + [3, 5], tmpls=(0, 3), dresses=(0, 2)),
                content_cases(["RS"], ["auto", "many"], roots, tmpls=(2,), dresses=(2,)), odd_cases(["RS"], roots)]
        if ex.thorough:
            fams += [topology_cases(2, 2, ["R", "RS", "RRS"], ["multi", "all"], roots, rich=False),
                     topology_cases(3, 2, ["RS"], ["multi"], [0, 4, -1, "nest"], rich=False, loose=False),
                     content_cases(["S", "RS", "RRS"], ["case", "multi", "auto"], roots + [1, 4, 7, 9], tmpls=(0, 3))]
        i = 0
        modes = ["links", "pairs", "partial", "empty"]
        for fam in fams:
            for c in fam:
                i += 1
                for j, (sc, inplace) in enumerate(settings(i)):
                    if not ex.thorough and c["g"]["uids"] == "none" and j > 1:
                        continue
                    for q, mode in enumerate(modes):
                        if mode != "links" and (i + j + q) % (3 if ex.thorough else 6):
                            continue
                        yield dict(c, scope=sc, inplace=inplace, index=mode)
    ex.enumerate("there and back", gen(), chunk=32)
    ex.enumerate_hashed("graphs under other hash seeds",
                        (dict(c, scope=sc, inplace=ip, index="links") for c in hash_cases(ex.thorough, roots=(0, "attrs"))
                         for sc in SCOPES[::3] for ip in (False, True)), HASH_SEEDS[ex.thorough])
