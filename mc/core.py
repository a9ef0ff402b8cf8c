"""Exploration core: exhaustive case enumeration and breadth-first history search on the real library.

A property module (mc/props/cXX.py) defines

    ID            property id
    BOUNDS        dict tier -> human description of the bounds
    def explore(ex)      drives `ex` (an Explorer) over its bounded space
    def run_case(desc)   executes ONE case, described by a JSON-able value, from scratch on the real code;
                         returns a hashable canonical outcome, raises Violation when the property is broken.

run_case is also the replay entry point: a violation file holds the desc, nothing else is needed.
"""
import enum
import gc
import hashlib
import json
import logging
import multiprocessing
import multiprocessing.connection
import os
import pickle
import re
import resource
import signal
import subprocess
import sys
import time
import traceback
import types
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
CASE_TIMEOUT = 90.0
NPROC = max(1, min(8, os.cpu_count() or 1))


class Violation(Exception):
    """The property is broken by this case.  `key` identifies the failing input for the findings file."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Hang(BaseException):
    pass


def fail(msg, key=None):
    raise Violation(msg, key)


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Counter:
    ops = 0     # library operations performed (transitions)
    comps = 0   # oracle comparisons

COUNT = Counter()


def op(n=1):
    """Count n transitions (calls of the implementation)."""
    COUNT.ops += n


def import_library():
    sys.dont_write_bytecode = True
    sys.path.insert(0, str(REPO))
    import gemd
    where = Path(gemd.__file__).resolve()
    if REPO.resolve() not in where.parents:
        raise RuntimeError(f"library imported from {where}, not from {REPO}")
    logging.getLogger().addHandler(logging.NullHandler())
    logging.lastResort = None
    import warnings
    warnings.simplefilter("ignore")


class LogCapture(logging.Handler):
    """Collects records of WARNING or above from every logger (attached to root)."""

    def __init__(self):
        super().__init__(level=logging.WARNING)
        self.records = []

    def emit(self, record):
        self.records.append(record)

    def __enter__(self):
        logging.getLogger().addHandler(self)
        return self

    def __exit__(self, *exc):
        logging.getLogger().removeHandler(self)

    def __len__(self):
        return len(self.records)


def attempt(fn, *args, **kwargs):
    """('ok', result) or ('exc', exception); one transition.  Only Exceptions are a rejection."""
    COUNT.ops += 1
    try:
        return "ok", fn(*args, **kwargs)
    except RecursionError:
        raise
    except Exception as e:
        return "exc", e


def isolated(fn, *args):
    """Run fn(*args) in a forked child, so that nothing it does to the process (registries, caches, classes) survives.

    Returns its result, or raises the Violation it raised; the transitions it performed are counted."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            gc.disable()
            COUNT.ops = 0
            try:
                res = ("ok", fn(*args))
            except Violation as v:
                res = ("bad", str(v), v.key)
            except BaseException as e:
                res = ("bad", f"unexpected {type(e).__name__}: {e}\n{traceback.format_exc(limit=-6)}", None)
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps((COUNT.ops, res)))
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    if not data:
        raise Violation(f"the process died with status {status}")
    ops, res = pickle.loads(data)
    COUNT.ops += ops
    if res[0] == "bad":
        raise Violation(res[1], res[2])
    return res[1]


def digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=12).digest()


_UUID = re.compile(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}", re.I)


def fingerprint(*roots):
    """The complete reachable state of implementation objects, as a digest that two heaps share only when they are isomorphic.

    Histories are merged only when this agrees as well as the model state, so a field the model knows nothing about
    (a stored name, a cache, a closure variable) still keeps histories apart.  Identity is by order of first visit;
    random uuids are numbered."""
    seen, uuids, keep = {}, {}, []

    def walk(x):
        t = type(x)
        if x is None or t in (bool, int, float, complex, bytes):
            return repr(x)
        if t is str:
            return repr(_UUID.sub(lambda m: "uuid%d" % uuids.setdefault(m.group(0), len(uuids)), x))
        if isinstance(x, (type, types.ModuleType, types.BuiltinFunctionType)):
            return getattr(x, "__name__", t.__name__)
        if isinstance(x, enum.Enum):
            return "%s.%s" % (t.__name__, x.name)
        if id(x) in seen:
            return "#%d" % seen[id(x)]
        seen[id(x)] = len(seen)
        keep.append(x)      # temporaries (bound methods, cell contents) must not free their id
        if isinstance(x, types.MethodType):
            return "method(%s,%s)" % (x.__func__.__qualname__, walk(x.__self__))
        if isinstance(x, types.FunctionType):
            cells = []
            for name, c in zip(x.__code__.co_freevars, x.__closure__ or ()):
                try:
                    cells.append("%s=%s" % (name, walk(c.cell_contents)))
                except ValueError:
                    cells.append(name)
            return "fn(%s,%s,%s)" % (x.__qualname__, ",".join(cells), walk(x.__defaults__))
        parts = []
        if isinstance(x, dict):
            parts += ["%s:%s" % (walk(k), walk(v)) for k, v in dict.items(x)]
        elif isinstance(x, (list, tuple)):
            parts += [walk(y) for y in (list if isinstance(x, list) else tuple).__iter__(x)]
        elif isinstance(x, (set, frozenset)):
            parts += [walk(y) for y in sorted(x, key=repr)]
        attrs = dict(getattr(x, "__dict__", None) or {})
        for c in t.__mro__:
            slots = c.__dict__.get("__slots__", ())
            for n in (slots,) if isinstance(slots, str) else slots:
                if n not in ("__dict__", "__weakref__") and hasattr(x, n):
                    attrs[n] = getattr(x, n)
        parts += ["%s=%s" % (n, walk(attrs[n])) for n in sorted(attrs)]
        return "%s(%s)" % (t.__name__, ",".join(parts))

    return hashlib.blake2b(walk(tuple(roots)).encode(), digest_size=12).hexdigest()


def _alarm(signum, frame):
    raise Hang()


def guarded(run_case, desc):
    """Run one case.  Returns ('ok', outcome) or ('bad', message, key)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        return ("ok", run_case(desc))
    except Violation as v:
        return ("bad", str(v), v.key)
    except Hang:
        return ("bad", f"no result within {CASE_TIMEOUT} s (non-termination)", None)
    except BaseException as e:
        tb = traceback.format_exc(limit=-6)
        return ("bad", f"unexpected {type(e).__name__}: {e}\n{tb}", None)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def dispatcher(prop):
    """run_case of the property; a case {"hashseed": n, "cases": [..]} runs in an interpreter of its own with that hash seed"""
    def run(desc):
        if isinstance(desc, dict) and "hashseed" in desc:
            return run_hashed(prop, desc)
        return prop.run_case(desc)
    return run


def run_hashed(prop, desc):
    """The order in which sets of strings are iterated, and so the order of an object's fields, is the interpreter's choice,
    made by its hash seed: run the cases under the given choice."""
    p = subprocess.run([sys.executable, "-m", "mc", prop.ID, "--serve"], input=json.dumps(desc["cases"]), capture_output=True,
                       text=True, cwd=VERIF, env=dict(os.environ, PYTHONHASHSEED=str(desc["hashseed"])))
    if p.returncode:
        raise Violation(f"hash seed {desc['hashseed']}: the interpreter ended with {p.returncode}: {p.stderr[-1500:]}")
    res = json.loads(p.stdout.splitlines()[-1])
    op(res["ops"])
    for case, r in zip(list(desc["cases"]), res["results"]):
        if r[0] != "ok":
            desc["cases"] = [case]      # what is left for the replay
            raise Violation(f"hash seed {desc['hashseed']}: {r[1]}", r[2])
    return tuple(r[1] for r in res["results"])


def serve(prop):
    cases = json.loads(sys.stdin.read())
    COUNT.ops = 0
    results = []
    for c in cases:
        r = guarded(prop.run_case, c)
        results.append(["ok", str(digest(r[1]))] if r[0] == "ok" else list(r))
        if r[0] != "ok":
            break
    print(json.dumps({"ops": COUNT.ops, "results": results}), flush=True)
    return 0


_RUN = None
KNOWN_KEYS = set()   # set before the workers are forked


def _work(chunk, progress=None):
    COUNT.ops = 0
    out = []
    outcomes = []
    for i, desc in enumerate(chunk):
        if progress is not None:
            progress[1] = time.monotonic()
            progress[0] = i
        r = guarded(_RUN, desc)
        if r[0] == "ok":
            outcomes.append(digest(r[1]))
        else:
            outcomes.append(None)
            out.append((desc, r[1], r[2]))
            if "(non-termination)" in r[1] or sum(k is None or k not in KNOWN_KEYS for _, _, k in out) >= 5:
                outcomes.extend([None] * (len(chunk) - len(outcomes)))
                break
    return outcomes, out, COUNT.ops


class Workers:
    """Forked workers, one pipe each.  A worker that dies or no longer answers is a verdict on the case it was running."""

    def __init__(self, run_case):
        self.ctx = multiprocessing.get_context("fork")
        self.run_case = run_case
        self.procs = []
        for _ in range(NPROC):
            here, there = self.ctx.Pipe()
            progress = self.ctx.RawArray("d", [-1.0, 0.0])
            p = self.ctx.Process(target=self._serve, args=(there, progress), daemon=True)
            p.start()
            there.close()
            self.procs.append([p, here, progress, []])

    def _serve(self, conn, progress):
        global _RUN
        _RUN = self.run_case
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        for _, other, _, _ in self.procs:
            other.close()
        # a case that eats all memory must end as a MemoryError of that case, not as a killed worker
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        gc.freeze()
        code = 0
        try:
            while True:
                n, chunk = pickle.loads(conn.recv_bytes())
                res = _work(chunk, progress)
                progress[0] = -1.0
                conn.send((n, res))
        except EOFError:
            pass
        except BaseException:
            traceback.print_exc()
            code = 1
        os._exit(code)

    def map(self, batches):
        """(number, batch, result) in order of completion"""
        it = enumerate(batches)
        busy = 0
        more = True

        spare = []

        def give(w):
            """at most two batches per worker, the second one small: neither side can block the other in a full pipe"""
            nonlocal more, busy
            while len(w[3]) < 2 and (spare or more):
                if spare:
                    n, chunk, data = spare.pop()
                else:
                    try:
                        n, chunk = next(it)
                    except StopIteration:
                        more = False
                        return
                    data = pickle.dumps((n, chunk))
                if w[3] and len(data) > 32768:
                    spare.append((n, chunk, data))
                    return
                w[3].append((n, chunk))
                busy += 1
                w[1].send_bytes(data)

        for w in self.procs:
            give(w)
        while busy:
            ready = set(multiprocessing.connection.wait([w[1] for w in self.procs if w[3]], timeout=5.0))
            for w in self.procs:
                if not w[3]:
                    continue
                if w[1] in ready:
                    try:
                        n, res = w[1].recv()
                    except (EOFError, OSError):
                        yield self._lost(w, "the process died")
                        return
                    _, chunk = w[3].pop(0)
                    busy -= 1
                    yield n, chunk, res
                    give(w)
                elif w[2][0] >= 0 and time.monotonic() - w[2][1] > CASE_TIMEOUT + 30:
                    yield self._lost(w, f"no result within {CASE_TIMEOUT} s (non-termination)")
                    return

    @staticmethod
    def _lost(w, what):
        n, chunk = w[3][0]
        i = int(w[2][0])
        desc = chunk[i] if 0 <= i < len(chunk) else chunk[0]
        return n, chunk, ([None] * len(chunk), [(desc, what, None)], 0)

    def map_ordered(self, batches):
        held, nxt = {}, 0
        for n, chunk, res in self.map(batches):
            held[n] = (chunk, res)
            while nxt in held:
                yield held.pop(nxt)
                nxt += 1
        for n in sorted(held):      # a worker was lost: the rest, its verdict included
            yield held[n]

    def stop(self):
        for p, conn, _, _ in self.procs:
            p.kill()
            conn.close()
        for p, _, _, _ in self.procs:
            p.join()


def chunks(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == n:
            yield buf
            buf = []
    if buf:
        yield buf


class Explorer:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.states = set()
        self.cases = 0
        self.transitions = 0
        self.violations = []      # (desc, msg, key)
        self.samples = []
        self.sections = []
        self.known = load_known(prop.ID)
        KNOWN_KEYS.clear()
        KNOWN_KEYS.update(self.known)
        self.known_hit = set()
        self.start = time.time()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def note(self, name, **kw):
        self.sections.append({"section": name, **kw})
        print(f"[{self.prop.ID}] {name}: " + ", ".join(f"{k}={v}" for k, v in kw.items()), flush=True)

    def _absorb(self, out):
        new = False
        for desc, msg, key in out:
            if key is not None and key in self.known:
                self.known_hit.add(key)
            else:
                self.violations.append((desc, msg, key))
                new = True
        return new

    def enumerate(self, name, descs, chunk=32, serial=False):
        """Run every case of a finite generator of descs."""
        if self.violations:
            return
        t0, c0, s0 = time.time(), self.cases, len(self.states)
        first = None

        def feed():
            nonlocal first
            for d in descs:
                if first is None:
                    first = d
                yield d

        if serial:
            global _RUN
            _RUN = dispatcher(self.prop)
            results = map(_work, chunks(feed(), chunk))
            pool = None
        else:
            pool = Workers(dispatcher(self.prop))
            results = (res for _, _, res in pool.map(chunks(feed(), chunk)))
        try:
            for outcomes, out, ops in results:
                self.cases += len(outcomes)
                self.transitions += ops
                self.states.update(o for o in outcomes if o is not None)
                if self._absorb(out):
                    break
        finally:
            if pool:
                pool.stop()
        if first is not None:
            self.samples.append({"section": name, "case": first if len(json.dumps(first, default=str)) < 2000 else shrink_note(first)})
        self.note(name, cases=self.cases - c0, new_states=len(self.states) - s0,
                  seconds=round(time.time() - t0, 1))

    def enumerate_hashed(self, name, descs, seeds, chunk=500):
        """Run every case of a finite generator under every one of the hash seeds."""
        descs = list(descs)
        if not self.violations:
            self.enumerate(f"{name} ({len(descs)} cases x {len(seeds)} hash seeds)",
                           ({"hashseed": s, "cases": c} for c in chunks(descs, chunk) for s in seeds), chunk=1)
            self.cases += len(descs) * len(seeds) - (-(-len(descs) // chunk)) * len(seeds)

    def bfs(self, name, setups, events, depth, chunk=48):
        """All histories [setup, e1, .., ek], k <= depth, merging histories that reach the same canonical state.

        run_case([*history]) replays the history on fresh objects checking every step, and returns the canonical
        state reached (all that can influence later behaviour); `events(setup)` is the finite alphabet."""
        if self.violations:
            return
        t0, c0 = time.time(), self.cases
        seen = set()
        frontier = [[s] for s in setups]
        pool = Workers(dispatcher(self.prop))
        level = 0
        last = None
        try:
            while frontier:
                nxt = []
                pending = frontier
                for batch, (outcomes, out, ops) in pool.map_ordered(chunks(pending, chunk)):
                    self.cases += len(outcomes)
                    self.transitions += ops
                    for hist, o in zip(batch, outcomes):
                        if o is None or o in seen:
                            continue
                        seen.add(o)
                        last = hist
                        if level < depth:
                            nxt.append(hist)
                    if self._absorb(out):
                        raise StopIteration
                level += 1
                frontier = [h + [e] for h in nxt for e in events(h[0])]
        except StopIteration:
            pass
        finally:
            pool.stop()
        self.states |= seen
        if last is not None:
            self.samples.append({"section": name, "history": last})
        self.note(name, histories=self.cases - c0, states=len(seen), depth=depth,
                  closed=(level - 1 < depth), seconds=round(time.time() - t0, 1))


# ----------------------------------------------------------------------------------------------- findings, evidence

def load_known(pid):
    """key -> text, of the findings recorded (not repaired) for this property."""
    res = {}
    path = VERIF / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith("known: "):
                fields = line[len("known: "):].split(" ", 2)
                if fields[0] == f"property={pid}" and fields[1].startswith("key="):
                    res[fields[1][4:]] = fields[2] if len(fields) > 2 else ""
    return res


def shrink_note(desc):
    s = json.dumps(desc, default=str)
    return s if len(s) < 400 else s[:400] + "..."


def main(prop, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    if "--serve" in argv:
        return serve(prop)
    if "--replay" in argv:
        path = argv[argv.index("--replay") + 1]
        data = json.loads(Path(path).read_text())
        r = guarded(dispatcher(prop), data["case"])
        print(r)
        return 1 if r[0] == "bad" else 0

    t0 = time.time()
    ex = Explorer(prop, tier, seed)
    try:
        prop.explore(ex)
    except Exception as e:
        # the library broke while the space was being set up: that is a verdict; anything else is a fault of the machinery
        if not any(str(REPO) in f.filename for f in traceback.extract_tb(e.__traceback__)):
            raise
        ex.violations.append(({"setup": prop.ID}, f"unexpected {type(e).__name__} while setting up: {e}\n{traceback.format_exc(limit=-6)}", None))
    wall = round(time.time() - t0, 2)

    evid = {
        "property": prop.ID, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": len(ex.states),
            "transitions": ex.transitions,
            "traces_validated_against_impl": ex.cases,
            "samples": ex.samples[:8],
            "sections": ex.sections,
            "bounds": prop.BOUNDS.get(tier, prop.BOUNDS["quick"]),
            "exhaustive": not ex.violations,
        },
        "assumptions": list(getattr(prop, "ASSUMPTIONS", [])),
        "wall_s": wall,
        "violations": len(ex.violations),
    }
    evdir = Path(os.environ.get("VERIF_EVIDENCE_DIR", VERIF / "evidence"))
    evdir.mkdir(parents=True, exist_ok=True)
    (evdir / f"{prop.ID}.json").write_text(json.dumps(evid, indent=1, default=str) + "\n")

    for key in sorted(ex.known_hit):
        print(f"KNOWN-FINDING: property={prop.ID} {ex.known[key]} [key={key}]")
    print(f"[{prop.ID}] tier={tier} states={len(ex.states)} transitions={ex.transitions} "
          f"traces={ex.cases} wall={wall}s")
    if ex.violations:
        rdir = evdir / "replay"
        rdir.mkdir(exist_ok=True)
        best = min(ex.violations, key=lambda v: len(json.dumps(v[0], default=str)))
        path = rdir / f"{prop.ID}.json"
        path.write_text(json.dumps({"property": prop.ID, "case": best[0], "message": best[1], "key": best[2],
                                    "replay_cmd": f"./check {prop.ID} --replay {path}"}, indent=1) + "\n")
        print(f"case: {shrink_note(best[0])}")
        print(best[1])
        print(f"VIOLATION property={prop.ID} replay={path}")
        return 1
    return 0
