"""C08: unit handling does not depend on the history of earlier calls.

Every history runs in a process of its own (forked from one that has only imported the library); each call must have the outcome that the
same call has as the first one under the same definitions file.
"""
import itertools
import os
import tempfile
from pathlib import Path

from mc.core import attempt, isolated, op, require

ID = "C08"
BOUNDS = {"quick": "every expression of 3 to 5 of 11 tokens, parsed among the others in both orders and after 30 scaled units; all sequences of at most 2 of 26 calls and of 3 of 15 calls under the default definitions; all sequences of at most 3 calls and switches (3 definition files, 7 failing "
                   "switches, 8 calls), call-switch-switch-call and call-switch-call-switch-call sequences; switches back to the default file: sequences of 3, 4 and 5",
          "thorough": "expressions of 6 tokens; all sequences of at most 3 of 40 calls; sequences of at most 4 over 18 calls; sequences of 5 ending in a switch back to the default over 10 calls"}
ASSUMPTIONS = ["unit objects (as opposed to strings) are not carried across a switch of definitions"]

A = "meter = [length] = m\nsecond = [time] = s\nmilli- = 1e-3 = m-\nfoot = 0.5 * meter = ft\nsmoot = 1.7 * meter\n@import more.txt\n"
B = "meter = [length] = m\nsecond = [time] = s\nmilli- = 1e-2 = m-\nfoot = 2 * meter = ft\n@import more.txt\n"
FILES = {"a/units.txt": A, "a/more.txt": "extra = 3 * meter\n", "b/units.txt": B, "b/more.txt": "extra = 4 * meter\n", "c/units.txt": "gram = [mass] = g\nfoot = 3 * gram = ft\n",
         "bad/syntax.txt": "meter = [length] = m\nfoot = = = 0.5 * meter = ft\n", "bad/import.txt": "meter = [length] = m\n@import nowhere.txt\n",
         "bad/binary.txt": None, "bad/directive.txt": "@group X\n meter = [length] = m\n"}

P, C, G = "parse", "convert", "base"
CALLS = [[P, "m / 2 s"], [P, "m / 2.5 s"], [P, "m / 2 ms"], [P, "m * 2"], [P, "2"], [P, "2 s"], [P, "m / _2_second"], [P, "_2_second"], [P, "m / 2 s / 2 s"], [P, "m / 2 smoot"],
         [P, "m / 2 gibberish"], [P, "ft"], [P, "m / 1e3 s"], [P, "m / 1_000 s"], [P, "m / 0 s"], [P, "m / -2 s"], [G, "m / _2_second"], [G, "m / 2 s"], [G, "ft"], [G, "extra"],
         [C, 1.0, "m / 2 s", "m / s"], [C, 1.0, "m / _2_second", "m/s"], [C, 1.0, "ft", "m"], [C, 1.0, "ft", "s"], [C, 1, "mm", "m"], [C, 1.0, "gibberish", "m"]]
MORE = [[P, "m / 25 s"], [P, "m / 2e3 s"], [P, "m * 2 * 2 s"], [P, "m / (2 s)**2"], [P, "ms"], [P, None], [P, 5], [G, "ms"], [G, "m / __2_second"], [C, 0.0, "degC", "K"], [C, -0.0, "degC", "K"],
        [C, True, "ft", "m"], [C, 1, "ft", "m"], [C, 1.0, "count", ""]]
KEY = [CALLS[i] for i in (0, 2, 4, 6, 9, 11, 16, 17, 18, 19, 22, 24)]
GOOD = ["a", "b", "c"]
FAILING = ["missing", "syntax", "import", "dir", "missingdir", "binary", "directive"]


def scratch():
    d = Path(tempfile.mkdtemp(prefix="c08_"))
    for name, text in FILES.items():
        p = d / name
        p.parent.mkdir(exist_ok=True)
        if text is None:
            p.write_bytes(bytes(range(128, 200)))
        else:
            p.write_text(text)
    (d / "cwd").mkdir()
    return d


def clean(d):
    for name in FILES:
        (d / name).unlink()
    for sub in ("a", "b", "c", "bad", "cwd"):
        (d / sub).rmdir()
    d.rmdir()


def perform(d, step):
    """one step; the observable outcome"""
    from gemd import units
    kind = step[0]
    if kind == P:
        r = attempt(units.parse_units, step[1])
        if r[0] == "ok":
            u = attempt(units.parse_units, step[1], return_unit=True)
            r = ("ok", (r[1], str(u[1]), str(dict(u[1]._units)) if u[0] == "ok" else None))
    elif kind == C:
        r = attempt(units.convert_units, *step[1:])
    elif kind == G:
        r = attempt(units.get_base_units, step[1])
        if r[0] == "ok":
            r = ("ok", (str(r[1][0]), r[1][1], r[1][2]))
    else:
        target = {"default": None, "a": d / "a" / "units.txt", "b": str(d / "b" / "units.txt"), "c": os.path.join("..", "c", "units.txt"), "missing": d / "a" / "none.txt",
                  "syntax": d / "bad" / "syntax.txt", "import": d / "bad" / "import.txt", "dir": d / "a", "missingdir": d / "zz" / "units.txt", "binary": d / "bad" / "binary.txt",
                  "directive": d / "bad" / "directive.txt"}[step[1]]
        r = attempt(units.change_definitions_file, *([] if target is None else [target]))
        if r[0] == "ok":
            r = ("ok", None)
    return ("ok", repr(r[1])) if r[0] == "ok" else ("exc", type(r[1]).__name__)


SHARED = None      # scratch folder of the run, never written to once made


def history(steps):
    d = SHARED or scratch()
    try:
        os.chdir(d / "cwd")
        here = os.getcwd()
        out = []
        for s in steps:
            out.append(perform(d, s))
            require(os.getcwd() == here, "after %r the working directory is %s", s, os.getcwd())
        return out
    finally:
        os.chdir("/")
        if not SHARED:
            clean(d)


BASE = {}


def baseline(force, step):
    """the outcome of a call as the first one under a definitions file"""
    key = repr((force, step))
    if key not in BASE:
        BASE[key] = isolated(history, ([["switch", force]] if force != "default" else []) + [step])[-1]
    return BASE[key]


TOKENS = ["m", "s", "2", ".5", "/", "*", "**", "(", ")", "-", "+"]
PRIMERS = [f"m / {n} {u}".strip() for n in ("2", ".5", "-2", "22", "2.5", "- .5") for u in ("", "m", "s", "m s", "ms")]


def outcomes(texts):
    from gemd.units import parse_units
    op(len(texts))
    res = {}
    for t in texts:
        r = attempt(parse_units, t)
        res[t] = r if r[0] == "ok" else ("exc", type(r[1]).__name__)
    return res


def two_orders(prefix, rest):
    """all sequences of tokens that begin so, in one order in one process, in the other (and after others) in another"""
    texts = [" ".join([*prefix, *tail]) for tail in itertools.product(TOKENS, repeat=rest)]
    one = isolated(outcomes, texts)
    for other in (isolated(outcomes, texts[::-1]), isolated(outcomes, PRIMERS + texts)):
        for t in texts:
            require(one[t] == other[t], "%r gives %r or %r, depending on which expressions were parsed before", t, one[t], other[t])
    return (tuple(prefix), sum(v[0] == "ok" for v in one.values()))


def run_case(steps):
    if steps[0] == "orders":
        return two_orders(*steps[1:])
    outs = isolated(history, steps)
    force = "default"
    for i, (s, got) in enumerate(zip(steps, outs)):
        if s[0] == "switch":
            if s[1] in FAILING:
                require(got[0] == "exc", "switching to a %s file succeeded", s[1])
            else:
                require(got[0] == "ok", "switching to file %s failed with %s after %r", s[1], got[1], steps[:i])
                force = s[1]
            continue
        want = baseline(force, s)
        require(got == want, "%r under definitions %s after %r gives %r, as the first call it gives %r", s, force, steps[:i], got, want)
    return (force, outs[-1], len(steps))


def explore(ex):
    global SHARED
    SHARED = scratch()
    try:
        explore_(ex)
    finally:
        clean(SHARED)
        SHARED = None


def explore_(ex):
    calls = CALLS + (MORE if ex.thorough else [])
    key = KEY if not ex.thorough else KEY + [CALLS[i] for i in (1, 3, 10, 12, 20, 23)]
    for c in calls:
        for f in ["default"] + GOOD:
            baseline(f, c)      # inherited by the workers
    for k in (3, 4, 5) + ((6,) if ex.thorough else ()):
        ex.enumerate("expressions of %d tokens in two orders" % k, (["orders", list(p), 3] for p in itertools.product(TOKENS, repeat=k - 3)), chunk=1)
    sw = [["switch", f] for f in GOOD + FAILING]
    good = [["switch", f] for f in GOOD]
    three = calls if ex.thorough else [CALLS[i] for i in (0, 1, 2, 3, 4, 6, 8, 10, 12, 14, 15, 16, 17, 21, 22)]
    ex.enumerate("calls", (list(h) for n, cs in ((1, calls), (2, calls), (3, three)) for h in itertools.product(cs, repeat=n)), chunk=32)

    def mixed():
        some = key if ex.thorough else key[:6] + key[8:10]
        for n in (1, 2, 3):
            for h in itertools.product(sw + (some if n == 3 else key), repeat=n):
                if any(s[0] == "switch" for s in h[:-1]) and h[-1][0] != "switch":
                    yield list(h)
        for h in itertools.product(key[:4] if not ex.thorough else key, sw, good if not ex.thorough else sw, some):
            yield list(h)
        for h in itertools.product(key[:6], good, key[:6], sw, key[:8]) if ex.thorough else itertools.product(key[2:4], good, key[2:4] + key[9:10], sw[:7], key[8:10]):
            yield list(h)
    ex.enumerate("switches", mixed(), chunk=32)
    few = [KEY[0], KEY[3], KEY[5], KEY[9]] if not ex.thorough else KEY[:10]
    back = [["switch", "default"]]

    def home():
        for h in itertools.product(good + [["switch", f] for f in ("syntax", "missing")], back, KEY):
            yield list(h)
        for h in itertools.product(few, good if ex.thorough else good[:1], few, back, few):
            yield list(h)
        for f in good:      # what was learned under other definitions is forgotten
            for a, b in itertools.product(KEY, KEY):
                if a == b or ex.thorough or f == good[0] and KEY.index(a) % 2 == KEY.index(b) % 2:
                    yield [f, a, *back, b]
    ex.enumerate("back to the default", home(), chunk=2)
