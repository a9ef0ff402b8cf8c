"""C09: case-insensitive mappings behave as one-spelling-per-key dictionaries.

Model: an ordered list of (spelling, value); keys are compared by lower case.
"""
import copy
import itertools
import pickle

from mc.core import attempt, fingerprint, op, require

ID = "C09"
BOUNDS = {"quick": "all histories of ~200 operations over 3 keys x 2 spellings x 2 values to closure (raw mapping), of ~70 "
                   "operations to closure (uids of an entity), plus all constructor arguments of up to 3 pairs",
          "thorough": "4 keys with up to 3 spellings, to closure"}
ASSUMPTIONS = ["keys are strings"]

KEYS = ["a", "A", "bC", "BC"]
KEYS3 = KEYS + ["é", "É"]
KEYS4 = KEYS3 + ["bc", "z"]
PROBE = ["a", "A", "bC", "BC", "bc", "é", "É", "z", ""]


class Reject(Exception):
    pass


class Model:
    def __init__(self, items=()):
        self.items = []
        for k, v in items:
            self.set(k, v)

    def find(self, k):
        return next((i for i, (s, _) in enumerate(self.items) if s.lower() == k.lower()), None)

    def set(self, k, v):
        i = self.find(k)
        if i is None:
            self.items.append((k, v))
        elif self.items[i][0] == k:
            self.items[i] = (k, v)
        else:
            raise Reject

    def copy(self):
        m = Model()
        m.items = list(self.items)
        return m


def pairs(keys):
    """argument lists for bulk operations: up to two pairs"""
    res = [[]]
    res += [[[k, 1]] for k in keys]
    res += [[[k, 1], [j, 2]] for k in keys for j in keys]
    return res


def events_for(keys):
    ev = []
    for k in keys:
        ev += [["set", k, 1], ["set", k, 2], ["del", k], ["pop", k], ["popd", k], ["popd", k, 1], ["popd", k, 2], ["setdefault", k, 2]]
    for how in ("map", "pairs", "kwargs", "cid", "ior", "gen"):
        sub = pairs(keys) if how in ("map", "pairs") else [p for p in pairs(keys[:3]) if len(p) < 2 or p[0] != p[1]]
        ev += [["update", how, p] for p in sub]
    ev += [["update", how, [[k, 1], [j, 2]]] for how in ("both", "cidboth", "selfboth") for k in keys[:2] for j in keys[:2]]
    ev += [["update", "self", []]]
    ev += [["clear"], ["popitem"], ["copy", "method"], ["copy", "copy"], ["copy", "deep"], ["copy", "pickle"],
           ["delcopy", "method"], ["delcopy", "copy"], ["delcopy", "deep"], ["delcopy", "pickle"]]
    return ev


EV = {3: events_for(KEYS3), 4: events_for(KEYS4)}


def ent_events():
    ev = [e for e in events_for(KEYS[:3]) if e[0] in ("set", "del", "popd", "setdefault", "clear") or (e[0] == "update" and e[1] == "map")]
    ev += [["assign", how, p] for how in ("map", "tuple", "cid") for p in pairs(KEYS[:3]) if (how != "tuple" or len(p) == 1)]
    ev += [["assign", "none", []]]
    ev += [["add", k, 1] for k in KEYS]
    return ev


def events(setup):
    return ENT if setup[0] == "entity" else EV[setup[1]]


ENT = ent_events()


def check(d, m, where):
    op()
    items = list(d.items())
    require(items == m.items, "%s: contents are %s, expected %s", where, items, m.items)
    require(list(d) == [k for k, _ in m.items] and list(d.keys()) == [k for k, _ in m.items]
            and list(d.values()) == [v for _, v in m.items] and len(d) == len(m.items) and bool(d) == bool(m.items),
            "%s: iteration disagrees with the contents", where)
    require(dict(d) == dict(m.items), "%s: dict(d) differs", where)
    for p in PROBE:
        i = m.find(p)
        inn, got, gd = (p in d), d.get(p), d.get(p, "dflt")
        op(4)
        require(inn == (i is not None), "%s: %r in mapping is %s", where, p, inn)
        r, v = attempt(lambda: d[p])
        if i is None:
            require(got is None and gd == "dflt", "%s: get(%r) of a missing key gives %r/%r", where, p, got, gd)
            require(r == "exc" and isinstance(v, KeyError), "%s: looking up missing %r: %s %r", where, p, r, v)
        else:
            want = m.items[i][1]
            require(r == "ok" and v == want and got == want and gd == want,
                    "%s: looking up %r gives %r/%r, expected %r", where, p, v, got, want)


def dup(d, how):
    op()
    return {"method": lambda: d.copy(), "copy": lambda: copy.copy(d), "deep": lambda: copy.deepcopy(d),
            "pickle": lambda: pickle.loads(pickle.dumps(d))}[how]()


def bulk(how, ps):
    """(args, kwargs) for a bulk update; None if not expressible"""
    from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
    if how == "map":
        return (dict(ps),), {}
    if how == "pairs":
        return ([tuple(p) for p in ps],), {}
    if how == "gen":
        return (((k, v) for k, v in ps),), {}
    if how == "kwargs":
        return (), dict(ps)
    if how == "cid":
        return (CaseInsensitiveDict(dict(ps)),), {}
    if how == "both":
        return (dict(ps[:1]),), dict(ps[1:])
    if how == "cidboth":
        return (CaseInsensitiveDict(dict(ps[:1])),), dict(ps[1:])
    raise ValueError(how)


def run_case(hist):
    from gemd.entity.case_insensitive_dict import CaseInsensitiveDict
    from gemd.entity.object import ProcessRun
    setup = hist[0]
    if setup[0] == "ctor":
        _, how, ps = setup
        try:
            m = Model(dict(ps).items())
        except Reject:
            m = None
        if how == "cid" and m is None:
            return ("ctor", "n/a")
        if how == "entity":
            r, d = attempt(lambda: ProcessRun("p", uids=dict(ps)).uids)
        elif how == "fromkeys":
            m = None
            try:
                m = Model([(k, 1) for k, _ in ps])
            except Reject:
                pass
            r, d = attempt(CaseInsensitiveDict.fromkeys, [k for k, _ in ps], 1)
        else:
            a, kw = bulk(how, ps)
            content = [list(x.items()) for x in a if hasattr(x, "items")]
            r, d = attempt(CaseInsensitiveDict, *a, **kw)
            require(content == [list(x.items()) for x in a if hasattr(x, "items")], "the argument was modified")
            if r == "ok" and m is not None:
                check(d, m, f"construct {how} {ps}")
                for x in a:
                    if hasattr(x, "items"):
                        x["zz"] = 9
        if m is None:
            require(r == "exc", "construction from %s (%s) must be rejected: %r", ps, how, d)
            return ("ctor", "rejected")
        require(r == "ok", "construction from %s (%s) failed: %r", ps, how, d)
        check(d, m, f"construct {how} {ps}")
        return ("ctor", tuple(m.items))

    ent = None
    if setup[0] == "entity":
        ent = ProcessRun("p")
        d = ent.uids
    else:
        d = CaseInsensitiveDict()
    m = Model()
    check(d, m, "initially")
    for ev in hist[1:]:
        where = f"after {ev}"
        before = m.copy()
        k = ev[1] if len(ev) > 1 else None
        want = None            # expected return value, when defined
        others = []            # (mapping, model) that must stay as they are
        try:
            if ev[0] in ("set", "add"):
                f = (lambda: d.__setitem__(k, ev[2])) if ev[0] == "set" else (lambda: ent.add_uid(k, ev[2]))
                m.set(k, ev[2])
            elif ev[0] == "del":
                f = lambda: d.__delitem__(k)
                i = m.find(k)
                if i is None:
                    raise KeyError
                del m.items[i]
            elif ev[0] in ("pop", "popd"):
                dflt = ev[2] if len(ev) > 2 else "dflt"
                f = (lambda: d.pop(k)) if ev[0] == "pop" else (lambda: d.pop(k, dflt))
                i = m.find(k)
                if i is None and ev[0] == "pop":
                    raise KeyError
                want = (dflt,) if i is None else (m.items.pop(i)[1],)
            elif ev[0] == "setdefault":
                f = lambda: d.setdefault(k, ev[2])
                i = m.find(k)
                if i is None:
                    m.items.append((k, ev[2]))
                want = (m.items[m.find(k)][1],)
            elif ev[0] == "clear":
                f = d.clear
                m.items = []
            elif ev[0] == "popitem":
                f = d.popitem
                if not m.items:
                    raise KeyError
                want = (m.items.pop(),)
            elif ev[0] == "update":
                ps = ev[2]
                if ev[1] == "cid" and len({p[0].lower() for p in ps}) < len(ps):
                    continue
                f = None
                if ev[1] == "ior":
                    def f():
                        nonlocal d
                        keep = d
                        d |= dict(ps)
                        require(d is keep, "|= replaced the mapping by a %s", type(d))
                elif ev[1] in ("self", "selfboth"):
                    kw = dict(ps[1:])
                    ps = m.items + ps[1:]
                    f = lambda: d.update(d, **kw)
                else:
                    a, kw = bulk(ev[1], ps)
                    f = lambda: d.update(*a, **kw)
                    if a and hasattr(a[0], "items"):
                        others.append((a[0], list(a[0].items())))
                new = Model()
                eff = dict(ps).items() if ev[1] in ("map", "cid", "kwargs", "ior") else ps
                for kk, vv in eff:
                    new.set(kk, vv)
                for kk, vv in new.items:
                    i = m.find(kk)
                    if i is not None and m.items[i][0] != kk:
                        raise Reject
                for kk, vv in new.items:
                    m.set(kk, vv)
            elif ev[0] == "assign":
                how, ps = ev[1], ev[2]
                if how == "none":
                    m = Model()
                    f = lambda: setattr(ent, "uids", None)
                else:
                    if how == "cid" and len({p[0].lower() for p in ps}) < len(ps):
                        continue
                    arg = {"map": lambda: dict(ps), "tuple": lambda: tuple(ps[0]),
                           "cid": lambda: CaseInsensitiveDict(dict(ps))}[how]()
                    f = lambda: setattr(ent, "uids", arg)
                    if how != "tuple":
                        others.append((arg, list(dict(ps).items())))
                    m = Model(dict(ps).items())
            elif ev[0] == "copy":         # go on with the copy; the original must not notice
                c = dup(d, k)
                require(type(c) is CaseInsensitiveDict, "%s: the copy is a %s", where, type(c))
                check(c, m, where)
                orig, om = d, m.copy()
                c["zz"] = 5
                op()
                check(orig, om, f"{where}, then adding to the copy")
                del c["ZZ"]
                check(orig, om, f"{where}, then deleting from the copy")
                d = c
                f = None
            elif ev[0] == "delcopy":
                if ent is not None:
                    continue
                c = dup(d, k)
                cm = m.copy()
                if m.items:
                    kk = m.items[0][0]
                    d.pop(kk)
                    m.items.pop(0)
                    op()
                check(c, cm, f"{where}, the copy after removing from the original")
                f = None
            expected = "ok"
        except Reject:
            expected = "reject"
            m = before
        except KeyError:
            expected = "keyerror"
            m = before
        if f is not None:
            r, v = attempt(f)
            if ent is not None:
                d = ent.uids
            if expected == "ok":
                require(r == "ok", "%s on %s failed: %r", ev, before.items, v)
                if want is not None:
                    require(v == want[0], "%s on %s returned %r, expected %r", ev, before.items, v, want[0])
            elif expected == "reject":
                require(r == "exc", "%s on %s must be rejected", ev, before.items)
            else:
                require(r == "exc" and isinstance(v, KeyError), "%s on %s must raise KeyError: %s %r",
                        ev, before.items, r, v)
        check(d, m, where)
        for arg, content in others:
            if arg is not d:
                require(list(arg.items()) == content, "%s: the argument was modified", where)
                if isinstance(arg, CaseInsensitiveDict):
                    am = Model()
                    am.items = content
                    check(arg, am, f"{where}, the argument")
                if ev[0] in ("assign", "update"):
                    arg["zz"] = 9
                    check(d, m, f"{where}, then changing the argument")
    # whatever else the implementation remembers is part of the state, so that histories are only merged when alike
    hidden = fingerprint(d, ent)
    return (tuple(setup[:2]), tuple(m.items), hidden)


def explore(ex):
    keys = KEYS4 if ex.thorough else KEYS3

    def ctors():
        for how in ("map", "pairs", "kwargs", "cid", "both", "gen", "entity", "fromkeys"):
            for n in range(0, 4):
                if how == "both" and n < 1:
                    continue
                for ks in itertools.product(keys, repeat=n):
                    yield [["ctor", how, [[k, i] for i, k in enumerate(ks)]]]
        words = ["self", "seq", "mapping", "SELF", "kwargs", "cls"]
        for how in ("map", "pairs", "gen", "entity", "fromkeys"):     # keys that are also names in the program
            for n in (1, 2, 3):
                for ks in itertools.product(words, repeat=n):
                    yield [["ctor", how, [[k, i] for i, k in enumerate(ks)]]]
    ex.enumerate("constructors", ctors())
    ex.bfs("mapping histories", [["raw", 4 if ex.thorough else 3]], events, 8)
    ex.bfs("entity uids histories", [["entity", 2]], events, 8)
