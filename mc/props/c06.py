"""C06: the validation level is scoped exactly, on every exit path.

A case is a small program (tree of statements) interpreted on the real API next to a reference interpreter with an
explicit stack of levels.
"""
from mc.core import LogCapture, Violation, attempt, op, require

ID = "C06"
BOUNDS = {"quick": "all programs of at most 3 statements (4 with two levels and fewer exits): settings of valid and invalid "
                   "levels, blocks nested to depth 3, 7 exit paths per block, 3 ways to enter; 3 initial levels",
          "thorough": "all programs of at most 4 statements"}
ASSUMPTIONS = ["single thread (the level is documented as global)"]

LEVELS = [0, 1, 2]
BADL = [7, "x", None]
EXITS = ["end", "raise", "through", "return", "genclose", "genthrow", "base"]
# statement: ["S", level] | ["B", bad level] | ["W", level, exit, style, [stmts]] | ["X", bad level]


def programs(n, levels, exits, styles, bads):
    """All statement lists with exactly n statements."""
    if n == 0:
        yield []
        return
    for k in range(1, n + 1):           # size of first statement
        for first in stmts(k, levels, exits, styles, bads):
            for rest in programs(n - k, levels, exits, styles, bads):
                yield [first] + rest


def stmts(k, levels, exits, styles, bads):
    if k == 1:
        for lv in levels:
            yield ["S", lv]
        for b in bads:
            yield ["B", b]
            yield ["X", b]
    for lv in levels:
        for e in exits:
            for st in styles:
                for body in programs(k - 1, levels, exits, styles, bads):
                    yield ["W", lv, e, st, body]


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


class Through(Exception):
    pass


def run_case(case):
    from gemd.entity.bounds_validation import (WarningLevel, get_validation_level, set_validation_level,
                                               validation_level)
    from gemd.entity.object import IngredientRun
    from gemd.entity.value import NominalReal
    init, prog = case
    trace = []
    set_validation_level(WarningLevel.WARNING)
    probe = IngredientRun()
    bad = NominalReal(2.0, "")

    def check(model, where):
        got = get_validation_level()
        op()
        require(int(got) == model, "%s: level is %s, expected %s (program %s)", where, got, model, prog)
        require(isinstance(got, WarningLevel), "%s: level is not a WarningLevel: %r", where, got)
        # what the library does with an invalid fraction must agree
        with LogCapture() as log:
            r, _ = attempt(setattr, probe, "mass_fraction", bad)
        eff = 2 if r == "exc" else (1 if len(log) else 0)
        require(eff == model, "%s: the effective level is %s, expected %s (program %s)", where, eff, model, prog)
        trace.append(model)

    def run(prog, model):
        """Returns the model level afterwards."""
        for st in prog:
            if st[0] == "S":
                op()
                set_validation_level(WarningLevel(st[1]) if st[1] != 1 else st[1])
                model = st[1]
            elif st[0] == "B":
                r, e = attempt(set_validation_level, st[1])
                require(r == "exc", "invalid level %r was accepted", st[1])
            elif st[0] == "X":
                def enter():
                    with validation_level(st[1]):
                        pass
                r, e = attempt(enter)
                require(r == "exc", "invalid level %r was accepted", st[1])
            else:
                block(st, model)
            check(model, f"after {st}")
        return model

    def block(st, outer):
        _, lv, ex, style, body = st
        op()
        arg = WarningLevel(lv) if style != "int" else lv

        def inside(old):
            require(int(old) == outer, "entering a block reports previous level %s, expected %s", old, outer)
            check(lv, f"inside {st}")
            run(body, lv)

        def cm():
            if style == "late":     # created under another level than it is entered in
                set_validation_level((outer + 1) % 3)
                c = validation_level(arg)
                set_validation_level(outer)
                return c
            return validation_level(arg)

        if ex == "end":
            with cm() as old:
                inside(old)
        elif ex in ("raise", "base"):
            E = Boom if ex == "raise" else BaseBoom
            caught = False
            try:
                with cm() as old:
                    inside(old)
                    raise E()
            except E:
                caught = True
            require(caught, "the exception raised in the block was swallowed")
        elif ex == "through":
            # propagates through one further block of the same kind before being caught
            try:
                with validation_level((lv + 1) % 3):
                    with cm() as old:
                        require(int(old) == (lv + 1) % 3 or style == "late", "wrong previous level %s", old)
                        check(lv, f"inside {st}")
                        run(body, lv)
                        raise Through()
            except Through:
                pass
        elif ex == "return":
            def f():
                with cm() as old:
                    inside(old)
                    return 5
            require(f() == 5, "return value lost")
        elif ex in ("genclose", "genthrow"):
            def g():
                with cm() as old:
                    inside(old)
                    yield 1
            it = g()
            next(it)
            if ex == "genclose":
                it.close()
            else:
                try:
                    it.throw(Boom())
                except Boom:
                    pass
        check(outer, f"on leaving {st}")

    try:
        set_validation_level(init)
        check(init, "initially")
        run(prog, init)
    finally:
        set_validation_level(WarningLevel.WARNING)
    return (init, tuple(trace))


def explore(ex):
    def cases():
        for init in LEVELS:
            for n in range(0, 3):
                for p in programs(n, LEVELS, EXITS, ["enum", "int", "late"], BADL):
                    yield [init, p]
        for p in programs(3, LEVELS, ["end", "raise", "return", "genclose"], ["enum"], [7]):
            yield [1, p]
        if ex.thorough:
            for p in programs(4, [0, 2], ["end", "raise", "through", "genclose"], ["enum"], []):
                yield [1, p]
            for init in LEVELS:
                for p in programs(3, LEVELS, EXITS, ["enum"], BADL[:1]):
                    yield [init, p]
        else:
            for p in programs(4, [0, 2], ["end", "raise"], ["enum"], []):
                yield [1, p]
    ex.enumerate("programs", cases(), chunk=64)
