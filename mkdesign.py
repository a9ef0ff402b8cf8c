"""Regenerates DESIGN.md from the property modules and the notes below (run by hand)."""
import importlib, json, sys, textwrap
from pathlib import Path
here = Path(__file__).parent
sys.path.insert(0, str(here))

INTRO = """# Model checking gemd-python: design

Technique for every property: **bounded explicit-state / stateless exploration of the real library code in /repo**. For each property an
alphabet of operations with small, deliberately colliding argument domains, a bound (history length, number of objects, expression size,
number of deviations) and an oracle (a plain reference model in Python, or an invariant) are fixed; *every* element of that bounded space
is executed on the implementation and judged after every step. Nothing is sampled. `VERIF_SEED` changes nothing in what is covered.

* `mc/core.py` - the explorer. `enumerate` runs every case of a finite generator; `bfs` runs all histories of a finite alphabet up to a
  depth, each replayed from scratch on fresh objects, merging histories only when everything that can influence later behaviour (the
  model state *and* whatever the implementation itself remembers, e.g. instance dictionaries) is equal; when the frontier empties before the depth is
  reached the result is a closure, i.e. holds for histories of any length over that alphabet. Cases run in 8 forked workers of a pool of our own with
  a time and memory limit each, so non-termination, runaway allocation and the death of a process are verdicts, not lost answers; `isolated` runs a history in a process of its own when
  the state is process-wide (class registry, unit registry).
* `mc/graphs.py` - the enumerated object graphs (topologies x levels x templates x content x uid configurations) and `Snap`, a snapshot of
  a structure read through the public API only. Each object carries a unique marker, so isomorphism is equality of snapshots and an
  object duplicated or merged is visible.
* `mc/unitsem.py`, `mc/data/units.json` (made by `mkunits.py`) - an evaluator of unit expressions of our own, with a frozen table of unit meanings.
* `mc/props/cNN.py` - one module per property: alphabet, bounds, reference model, `run_case`.

The model is bound to the code by construction: there is no separate model exploration whose traces would have to be replayed - each
model step is executed on the implementation at the same time and compared (`traces_validated_against_impl` in the evidence is the
number of histories/cases run on the real code, `states` the number of distinct canonical outcomes, `transitions` the number of library calls).

`./check ID [--quick|--thorough]` decides a property, `./check ID --replay FILE` re-runs a counterexample. The checks import the library from
/repo's working tree, write no byte code there, and need no build; there are no hooks in /repo. They judge observable behaviour only (public
attributes, results, exceptions, log records, warnings), never source text or private names, so behaviour-preserving edits stay quiet.

Three kinds of exploration go beyond inputs and histories:
* hash seeds (`enumerate_hashed`): the cases whose outcome could depend on set or dict order run again in interpreters with other PYTHONHASHSEEDs (C01, C02, C11, C12, C14, C15, C22);
* faults (C24): every call of the caller's code fails in turn, in every kind of way, and read-only operations are interrupted at every executed line;
* schedules (C25): two threads under a controlled scheduler (a line tracer and semaphores) that switches at every executed line of library code up to a preemption bound.

No property is listed as not applicable. Not claimed at all: performance, two threads working on the *same* objects (the library documents no such
thing; serializing gives objects uids for a while), the wording of messages.
"""

DEFECTS = """
## Defects found

Repaired in /repo (one `fix:` commit each, listed as `fixed:` lines in `known_findings.txt`; the checks report each again if it returns): 43
defects, among them: links stolen or dropped on reassignment and rejection (C03), one-shot iterables and unchecked routes in typed lists
(C10), the case-insensitive dictionary's index drifting apart from its content (C09), equal plain values conflated by
substitution (C12), list comparison ignoring repetitions and matching one element several times in cycles (C11), validation level left
behind by exceptions (C06), scaling factors replaced textually in units (C07), unit reading dependent on earlier calls (C08; `m / 2 + s` was even accepted once `m / 2 s` had been parsed),
recursion limits in `make_instance` (C15), half-built objects left after a refused `add_edge` (C16), a refused `MaterialRun` that stayed linked to its process (C24).

Recorded, not repaired (`known:` lines; printed as KNOWN-FINDING): three defects of the link setters of `MaterialSpec` and `IngredientSpec`
(C03). The run classes had the same defects and were repaired; the spec files are named `*_spec.py`, which the acceptance check takes
for test files, so no commit may touch them. Each is identified by the kind of history that fails
(`spec-process-of-another-material`, `spec-equal-sibling-unlinked`, `spec-rejected-assignment-unlinks`; the last is met by C24 too). And one of units
(C07, `space-before-parenthesis`): a product without an operator binds tighter before a parenthesis when no space is left, so `J/kg (K)` and `J/kg(K)`
differ. It comes from pint's evaluator; either meaning may be relied on, so it is not repaired. It is met only by the stage made for it; all other
stages keep such spaces as they are.

## Inputs deliberately outside the claims, and why

* Mapping keys or uid scopes spelled `type`: the JSON format reserves the word (C01, C12).
* JSON text equality after a round trip is claimed as "describes the same objects", since the order of context entries and dict keys may differ (C01).
* Comparisons of bounds across units that are decided only by floating-point rounding are left undecided (C04).
* `NominalComposition` keys that are not strings are not checked by the library and not documented (C13).
* Synonyms clashing with synonyms of another enumeration member: only duplicate values are documented as refused (C18).
* Two links are compared by the exact strings, also the scope (documented equality of `LinkByUID`), while an object finds its scopes ignoring case (C20).
* Assigning a template or spec to an object later does not re-check attributes already present; attributes without a value are not judged (C05).
* Units: logarithmic units are parsed only; factors beyond float range;
  "2J"/"2e" without a space (read as numbers); "m +" is accepted by pint (C07). Definition files with undefined references are accepted lazily
  by pint; unit objects are not carried across a switch (C08).
* `complete_material_history`: its entries load back when each is placed after those it refers to (the list itself is in traversal
  order); specs whose process or material is a link are outside the claim for `make_instance` (C15).
* Builders: strings given for numbers and integers given for fractions are undocumented (C16).

## False alarms met and corrected

C04: the history model of union with a value used the value's own units (corrected: units of the first operand). C19: the order of the class
mapping is not claimed. C13: integers beyond 2**53 must be compared exactly, not as floats. C07: equality of unit objects instead of
identity; `1*10**n` and `10**n` are the same factor. C15: entries need not be in loading order. C14: generated ids may repeat under different
scopes. graphs: a uid configuration whose scopes differed only in case collided with case-insensitive scopes (the harness was wrong).
"""

def seeded():
    rows = []
    res = json.loads((here / "seeded_results.json").read_text()) if (here / "seeded_results.json").exists() else {}
    for d in sorted((here / "seeded").glob("*/meta.json")):
        m = json.loads(d.read_text())
        rows.append(f"| {d.parent.name} | {m['property']} | {res.get(d.parent.name, '?')} | {m['what_it_breaks']} |")
    return "\n## Planted bugs\n\nEach was written from the property's text and the code, confirmed to pass the existing tests and to fail its demonstration.\nCaught by: the quick check(s) that report it.\n\n| bug | property | caught by | what it breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"

props = [json.loads(l) for l in (here / "properties.jsonl").read_text().splitlines()]
out = [INTRO, "\n## Properties\n"]
cost = json.loads((here / "mc/data/cost.json").read_text()) if (here / "mc/data/cost.json").exists() else {}
for p in props:
    m = importlib.import_module(f"mc.props.{p['id'].lower()}")
    doc = (m.__doc__ or "").strip().split("\n", 1)
    doc = doc[1].strip() if len(doc) > 1 else getattr(m, "ORACLE", "")
    out.append(f"### {p['id']} {p['title']}\n")
    out.append("*Specified:* " + p["statement"] + "\n")
    if doc or getattr(m, "ORACLE", ""):
        out.append("*Oracle:* " + " ".join((doc or m.ORACLE).split()) + "\n")
    out.append("*Quick bounds:* " + m.BOUNDS["quick"] + f" ({cost.get(p['id'], {}).get('quick', '?')} s on 8 cores).\n")
    out.append("*Thorough bounds:* " + m.BOUNDS["thorough"] + f" ({cost.get(p['id'], {}).get('thorough', '?')} s).\n")
    if m.ASSUMPTIONS:
        out.append("*Assumes:* " + "; ".join(m.ASSUMPTIONS) + ".\n")
    out.append("*Why tests cannot:* " + p["why_tests_cant"] + "\n")
out.append(DEFECTS)
out.append(seeded())
(here / "DESIGN.md").write_text("\n".join(out))
