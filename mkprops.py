"""Regenerates properties.jsonl (run by hand when a property is added or reworded)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a))

p("C01", "JSON serialization round-trips every object graph faithfully",
  "Serializing any GEMD object, or any list/dict nesting of GEMD objects and plain JSON data, to JSON and loading it back yields an isomorphic structure: the same types, every field value (names, notes, tags, uids, file links, sources, origins, sample types, units, values, bounds, templates with restricted bounds, quantities, ingredient names and labels), the same sharing of objects, and all links pointing both ways again. "
  "Serialization changes nothing in its input except adding a uid to objects that had none, serializing the loaded result again describes the same objects, and the variants (file, copy, thin, raw, dict dump/build) agree with it. ",
  ["inputs", "configurations"], "all object graphs x root choices x container shapes x uid configurations x field values",
  "Tests round-trip a few hand-made histories (cake, a measurement); they do not enumerate graph shapes, sharing patterns, scopes with mixed case, value classes or repeated plain values in containers.",
  ["gemd/json/gemd_json.py", "gemd/json/gemd_encoder.py", "gemd/util/impl.py", "gemd/entity/dict_serializable.py", "gemd/entity"],
  [("GEMDJson.dumps/loads/thin_dumps/raw_dumps/copy/load/dump", "gemd/json/gemd_json.py"), ("flatten, substitute_links", "gemd/util/impl.py"), ("as_dict/from_dict/build", "gemd/entity/dict_serializable.py")])

p("C02", "Flattening yields each reachable object once, dependencies first",
  "Flattening any object or container returns exactly one flattened copy of every object reachable from it through links in either direction, ordered so that each object comes after every object it refers to, and each copy refers to other objects only by links that identify the right objects. "
  "The originals are not altered, except that objects without a uid gain one when a scope was given (and flattening fails if none was given).",
  ["inputs", "configurations"], "all small object graphs x roots x scopes x pre-set uids",
  "Tests flatten three or four graphs and mostly check lengths; which shape, root or uid layout drops, duplicates or misorders an object is a for-all over graphs.",
  ["gemd/util/impl.py"],
  [("flatten, recursive_flatmap, writable_sort_order, set_uuids", "gemd/util/impl.py")])

p("C03", "Links between objects stay mutually consistent under any edit history",
  "After any sequence of assignments and reassignments (including to none, to a link, to an object that belongs to another, and assignments that are rejected), a material's process is a given process object exactly when that process names the material as its output, an ingredient's process is a given process object exactly when that process lists the ingredient once, and a measurement's material is a given material object exactly when that material lists the measurement once. "
  "A rejected assignment leaves every link as it was.",
  ["histories"], "all operation sequences over small populations of specs and runs, including equal-but-distinct siblings and rejected operations",
  "Tests make single reassignments on distinguishable objects; stealing, equal siblings and failing assignments need histories.",
  ["gemd/entity/object/material_run.py", "gemd/entity/object/material_spec.py", "gemd/entity/object/ingredient_run.py", "gemd/entity/object/ingredient_spec.py", "gemd/entity/object/measurement_run.py", "gemd/entity/object/process_run.py", "gemd/entity/object/process_spec.py"],
  [("process / material setters", "gemd/entity/object/*.py"), ("read-only output_material, ingredients, measurements", "gemd/entity/object/process_run.py, material_run.py")])

p("C04", "Bounds containment, union and update agree with set semantics",
  "For all bounds and values, containment is true exactly when every value permitted by the other is permitted by the bounds (same kind, convertible units), so it is reflexive and transitive; values are judged by the smallest bounds covering them. "
  "The union is the smallest bounds of that kind containing all operands, in the units of the first, never changes its operands, and in-place update makes the bounds equal to that union; incompatible kinds or units are rejected without changing anything. (Across different units all this holds up to floating-point rounding of the conversion; in equal units exactly.)",
  ["inputs", "histories"], "all pairs and triples of bounds/values over small domains of every kind and unit, and all update sequences up to a depth",
  "Tests check a handful of pairs per class; lattice laws and unit combinations are for-all statements.",
  ["gemd/entity/bounds", "gemd/entity/value"],
  [("contains/union/update", "gemd/entity/bounds/*.py"), ("smallest-bounds conversion", "gemd/entity/value/*.py")])

p("C05", "Template and quantity constraints are enforced by every assignment route",
  "Whatever route puts a value or an attribute template on an attribute, an attribute on an object that has a template, or a quantity on an ingredient (construction, assignment, append, extend, insert, item or slice assignment), it is reported when the value is outside the bounds of its attribute template or outside the restriction that the object's template puts on that attribute, a fraction is not dimensionless between 0 and 1, or an absolute quantity is negative or dimensionless. "
  "When the validation level is fatal the operation is refused and leaves the object as it was, when it is warning the value is stored and a warning logged, and when it is ignore it is stored silently. Conforming values are always accepted without a warning. A restriction that an object template puts on an attribute template is refused at every level unless it lies within that template's bounds.",
  ["inputs", "histories", "configurations"], "all combinations of level, object class, route, template binding (by template, by link, by name, none) and value in/out of bounds",
  "Tests exercise one route per class at one level with one template; the property ranges over the product of routes, levels, bindings and values.",
  ["gemd/entity/attribute/base_attribute.py", "gemd/entity/object/has_template_check_generator.py", "gemd/entity/object/has_quantities.py", "gemd/entity/template", "gemd/entity/object/has_properties.py", "gemd/entity/object/has_conditions.py", "gemd/entity/object/has_parameters.py"],
  [("value/template check", "gemd/entity/attribute/base_attribute.py"), ("template check trigger", "gemd/entity/object/has_template_check_generator.py"), ("quantity checks", "gemd/entity/object/has_quantities.py"), ("validate_property/condition/parameter and range homogenisation", "gemd/entity/template")])

p("C06", "The validation level is scoped exactly, on every exit path",
  "The level in force is always the one most recently set and still in scope: a local level holds exactly inside its block, is visible to everything run there, and leaving the block by any path (normal end, exception, return, generator close) restores the level in force when it was entered. "
  "Invalid levels are rejected and change nothing.",
  ["histories", "fault_sequences"], "all nestings of local level blocks and global settings, with every exit path at every point",
  "Tests leave every block normally.",
  ["gemd/entity/bounds_validation.py"],
  [("validation_level context manager, set/get_validation_level", "gemd/entity/bounds_validation.py")])

p("C07", "Unit strings parse to a stable form with unchanged meaning; conversions agree",
  "Parsing any acceptable unit expression (including scaling factors, exponents, scientific notation and prefixes) yields a string that parses to itself and denotes the same quantity as the input, where a number binds to the unit that follows it; expressions that differ only in spacing or in the order of their factors yield the same string; unacceptable expressions are rejected. "
  "Conversion between two units of the same dimension agrees with their definitions, is invertible and composes, and conversion between incompatible units (including counts, angles and information versus pure numbers) is rejected.",
  ["inputs"], "all expressions of a unit grammar up to a size, and all pairs/triples of units in a catalogue",
  "Tests list some tens of strings; the preprocessors and the clean-up of scaling factors depend on combinations of tokens.",
  ["gemd/units/impl.py", "gemd/units/citrine_en.txt"],
  [("scientific-notation and scaling preprocessors, unmangling", "gemd/units/impl.py"), ("parse_units, convert_units, get_base_units", "gemd/units/impl.py")])

p("C08", "Unit handling does not depend on the history of earlier calls",
  "The outcome of parsing, converting or reducing a unit depends only on the arguments and the definitions file in force, never on which units were used before, in which order, or which calls failed. "
  "Switching the definitions file takes effect for all later calls, switching back restores the earlier behaviour, a failed switch leaves the previous definitions in force, and the working directory is never left changed.",
  ["histories", "fault_sequences"], "all sequences of unit calls and definition-file switches (including failing ones) up to a depth, each from a fresh process state",
  "Tests run in one process in one order, so leftovers of caches and of on-the-fly definitions are invisible.",
  ["gemd/units/impl.py"],
  [("change_definitions_file, lru caches, registry definitions on the fly", "gemd/units/impl.py")])

p("C09", "Case-insensitive mappings behave as one-spelling-per-key dictionaries",
  "Under any sequence of operations the mapping used for uids behaves like a dictionary whose keys are compared ignoring case: lookup, membership, deletion and removal find an entry whatever the case used, each entry keeps the spelling it was stored with and the insertion order, and no two keys ever differ only in case. "
  "An operation that would introduce a second spelling of a present key is rejected and leaves the mapping unchanged, and copies are independent.",
  ["histories"], "all operation sequences over keys differing in case, up to a depth, including rejected operations",
  "Tests use one or two operations per method; the internal key index drifts only under sequences.",
  ["gemd/entity/case_insensitive_dict.py", "gemd/entity/base_entity.py"],
  [("CaseInsensitiveDict", "gemd/entity/case_insensitive_dict.py"), ("uids setter, add_uid", "gemd/entity/base_entity.py")])

p("C10", "Typed lists only ever hold elements of the allowed types",
  "Whatever sequence of list operations is applied, a typed list (tags, file links, conditions, labels, ...) behaves like an ordinary list, except that every added element is checked against the allowed types and passed through the list's hook exactly once, whose result is stored if it gives one. "
  "An addition with any element of the wrong type is rejected and leaves the list unchanged, and any iterable, including a one-shot iterator, contributes all its elements.",
  ["histories", "inputs"], "all operation sequences over good/bad elements and container kinds up to a depth",
  "Tests call each method once or twice with lists only.",
  ["gemd/entity/valid_list.py", "gemd/entity/setters.py"],
  [("ValidList", "gemd/entity/valid_list.py"), ("validate_list", "gemd/entity/setters.py")])

p("C11", "Object equality is a terminating, symmetric comparison of content",
  "Comparing any two objects or object graphs, cyclic ones included, terminates, is reflexive and symmetric, and holds exactly when both have the same class, uids and field contents (lists compared regardless of order but counting repetitions, linked objects compared recursively), with the documented leniency that a list that is empty on one side is ignored when both have the same non-empty uids. "
  "An object equals a link or a (scope, id) pair exactly when it carries that uid, and comparison never modifies anything.",
  ["inputs"], "all pairs of small object graphs differing in at most a few places, and all single-field variations of every class",
  "Tests compare a few pairs; symmetry, multiplicity and cyclic structures are for-all statements over pairs.",
  ["gemd/entity/base_entity.py", "gemd/entity/dict_serializable.py", "gemd/entity/link_by_uid.py"],
  [("recursive equality with in-progress cache", "gemd/entity/base_entity.py"), ("fields relevant to comparison", "gemd/entity/object/*.py")])

p("C12", "Replacing objects by links and links by objects are exact inverses",
  "Replacing objects with links in any structure replaces every reference to an object (except the top-level object itself) by a link carrying one of its uids, in the requested scope when it has it, and nothing else changes; replacing links by indexed objects replaces exactly the links found in the index. "
  "The copying form never alters its input, the in-place form alters the given structure to the same result, links and objects survive a there-and-back trip, and missing uids or scopes without fallback are rejected.",
  ["inputs", "configurations"], "all small structures of containers, objects, attributes and plain data x scope choices x copy/in-place",
  "Tests substitute a handful of structures; interactions between sharing, equal-but-different plain values, dict keys and tuples are not enumerated.",
  ["gemd/util/impl.py", "gemd/entity/base_entity.py"],
  [("_substitute, _substitute_inplace, substitute_links, substitute_objects, make_index", "gemd/util/impl.py"), ("to_link", "gemd/entity/base_entity.py")])

p("C13", "Values and bounds never enter an invalid state",
  "After any sequence of assignments to the fields of a bounds object or of an integer, categorical, composition or real value's checked fields, its documented constraint holds: bounds and uniform integers have lower not above upper, limits are finite and (for integers) whole, units are present and in canonical form, category probabilities sum to one, components and categories are strings. "
  "Assignments that would break it are rejected and leave the object unchanged; all others succeed and read back as what was assigned.",
  ["histories", "inputs"], "all assignment sequences over boundary-value domains up to a depth, for each bounds and value class",
  "Tests try one good and one bad assignment from the initial state.",
  ["gemd/entity/bounds", "gemd/entity/value"],
  [("property setters", "gemd/entity/bounds/*.py, gemd/entity/value/*.py")])

p("C14", "Graph traversal visits every object exactly once and reports dependencies",
  "Applying or mapping a function over any structure visits each distinct object exactly once however often and by whichever route it is referenced, the forward-only mapping visits exactly the objects reachable without following back-references, and assigning uids touches exactly the objects without one. "
  "The immediate dependencies an object reports are exactly the objects and links it refers to (spec, template, process, material, attribute templates), and an index lists every object under each of its uids.",
  ["inputs", "configurations"], "all small object graphs x containers x traversal modes",
  "Tests count visits on two or three graphs.",
  ["gemd/util/impl.py", "gemd/entity/base_entity.py", "gemd/entity/has_dependencies.py"],
  [("recursive_foreach, recursive_flatmap, set_uuids, make_index", "gemd/util/impl.py"), ("all_dependencies and the local dependency mixins", "gemd/entity")])

p("C15", "Instantiating a spec graph yields a matching run graph",
  "Making an instance of any spec graph produces one run per reachable spec (shared specs give shared runs) whose connections mirror the specs' and which refer back to their specs with the same names, leaving the specs untouched. "
  "The complete history of a material lists every object connected to it exactly once, each as a serialized dictionary that refers to others by links, and loads back.",
  ["inputs"], "all small spec graphs, trees and DAGs, with optional parts missing",
  "Tests instantiate two graphs.",
  ["gemd/entity/util.py"],
  [("make_instance, complete_material_history", "gemd/entity/util.py")])

p("C16", "Building helpers create exactly the documented objects and links",
  "Each building helper creates precisely the objects it documents, named, typed and linked as documented, for every combination of its optional arguments: a node is a material and process run with their specs and templates, an edge an ingredient run and spec joining the two materials with the given quantities, a measurement a run and spec on the material carrying all attributes, an attribute one of the class matching its template with a value of the class matching its bounds. "
  "Inconsistent arguments are rejected.",
  ["inputs", "histories"], "all argument combinations over small domains, and all sequences of helper calls up to a depth",
  "Tests use a handful of argument combinations.",
  ["gemd/builders/impl.py"],
  [("make_node, add_edge, add_measurement, add_attribute, make_attribute, make_value", "gemd/builders/impl.py")])

p("C17", "An ingredient run always shows the right name and labels",
  "While an ingredient run refers to a spec object its name and labels are the spec's current ones; when the spec is removed or replaced by a link the last ones seen persist, also through serialization and loading, and are independent of later changes to the old spec. "
  "They cannot be set directly, and a rejected spec assignment leaves them as they were.",
  ["histories"], "all sequences of spec assignment, spec edits, removal, link substitution and round trips up to a depth",
  "Tests check two scripted histories.",
  ["gemd/entity/object/ingredient_run.py"],
  [("name/labels properties, spec setter, from_dict", "gemd/entity/object/ingredient_run.py")])

p("C18", "Enumerated fields resolve exactly their values and synonyms",
  "A string resolves to an enumeration member exactly when, ignoring case and surrounding whitespace, it is that member's value or one of its synonyms; every resolution route (constructor, lookup, assignment to a field) agrees, and members read, compare and serialize as their canonical value. "
  "Anything else is rejected where an error is asked for and gives nothing otherwise, duplicate definitions are refused, and migrated names resolve to the new member with a deprecation warning.",
  ["inputs", "configurations"], "all members and synonyms of every enumeration x case/whitespace variants x near misses, and all small user-defined enumerations",
  "Tests check one or two spellings.",
  ["gemd/enumeration", "gemd/entity/attribute/base_attribute.py", "gemd/entity/object/material_run.py"],
  [("BaseEnumeration.from_str/_missing_, migrated_enum", "gemd/enumeration/base_enumeration.py")])

p("C19", "Type names map to classes and dictionaries to objects unambiguously",
  "Each type string identifies one class; a new class may take over a type string only from its own ancestor, after which loading produces the new class, and any other claim is refused and changes nothing. "
  "Converting an object to a dictionary and building it back reproduces it, unknown type strings are rejected, and unknown fields are ignored with a warning.",
  ["histories", "inputs"], "all sequences of class registrations over a small class universe up to a depth, and all field subsets of every class",
  "Tests register one subclass; registry contents depend on the history of definitions.",
  ["gemd/entity/dict_serializable.py", "gemd/json/gemd_json.py"],
  [("DictSerializableMeta registry", "gemd/entity/dict_serializable.py"), ("object hook", "gemd/json/gemd_json.py")])

p("C20", "Uids and links identify objects consistently",
  "For any object and any set of uids, a link made from it in a scope it has carries that scope's id whatever the case used for the scope, otherwise an existing uid if fallback is permitted and an error if not; making a link for an object without uids either fails or, where documented, first gives it exactly one new uid. "
  "An object equals exactly the links and (scope, id) pairs naming one of its uids, two links are equal (and hash alike) exactly when both scope and id are the same strings, and making or comparing links changes nothing else.",
  ["inputs", "histories"], "all uid maps over small scopes/ids x requested scope x fallback x edit histories",
  "Tests probe one or two uid maps.",
  ["gemd/entity/link_by_uid.py", "gemd/entity/base_entity.py"],
  [("to_link, __eq__", "gemd/entity/base_entity.py"), ("LinkByUID.from_entity, __eq__, __hash__", "gemd/entity/link_by_uid.py")])

p("C21", "Chemical values are normalised without corrupting their content",
  "Any InChI string given with or without its prefix, in any letter case of the prefix, is stored with the standard prefix and an otherwise unchanged body, and reassigning a stored value changes nothing. "
  "A formula is accepted exactly when all its element symbols exist, and its components are exactly those elements; composition and category values report exactly the components and categories they were given.",
  ["inputs"], "all strings over small token alphabets up to a length",
  "Tests try a few molecules.",
  ["gemd/entity/value/inchi_value.py", "gemd/entity/value/empirical_formula.py", "gemd/entity/value/smiles_value.py", "gemd/entity/value/nominal_composition.py", "gemd/entity/value/discrete_categorical.py"],
  [("inchi setter", "gemd/entity/value/inchi_value.py"), ("formula setter, element extraction", "gemd/entity/value/empirical_formula.py")])

p("C22", "The JSON text is the documented format, and any document in that format loads",
  "The text written for any structure is the documented document: an object part and a context that lists every reachable object exactly once, after the objects it refers to, each as a dictionary with its established type name and exactly its established fields (only the writable side of two-way links), holding plain JSON values, canonical enumeration values and links that carry a uid of their target. "
  "Conversely every document in that format loads to the structure it describes, whoever wrote it: with the context in any order that respects references, references by any uid of the target and any case of the scope, fields in any order, empty fields left out or null, unknown fields added, and references to absent objects kept as links. The options of the standard json module take effect at every entry point and never change what is described.",
  ["inputs", "configurations"], "all small object graphs x all context orders, reference spellings, omitted fields and layouts of their documents",
  "Tests load what the same version wrote, so a changed field name, type name or ordering assumption passes as long as writer and reader change together.",
  ["gemd/json/gemd_json.py", "gemd/json/gemd_encoder.py", "gemd/entity/dict_serializable.py", "gemd/util/impl.py", "docs/source/depth/serialization.rst"],
  [("dumps, _load_and_index", "gemd/json/gemd_json.py"), ("as_dict/from_dict, typ, skip", "gemd/entity/dict_serializable.py"), ("writable_sort_order", "gemd/util/impl.py")])

p("C23", "Example ingesters and data sets record exactly the data they are given",
  "The example ingesters turn each record into exactly the objects it describes: every known property, condition and parameter as an attribute with its number, uncertainty and unit (or category), every identifier and tag, one measurement per experiment or row attached to the material, and the spec and process handed in; unknown entries are ignored and unreadable ones rejected. "
  "The cake and Strehlow & Cook data sets are complete: runs mirror specs, every value lies within its template's bounds, every object of a cake has a unique identifier in the scope then in force (templates in the template scope), and a seed determines the cake whatever was made before.",
  ["inputs", "histories"], "all small records (present/absent/odd entries and spellings), all short histories of scope changes and cake making",
  "Tests ingest one record and make one cake; the entries interact (a unit with spaces, an uncertainty without a value) and the cake's scope and templates are module-wide state.",
  ["gemd/demo/cake.py", "gemd/demo/strehlow_and_cook.py", "gemd/demo/measurement_example.py", "gemd/demo"],
  [("make_cake, change_scope", "gemd/demo/cake.py"), ("make_strehlow_and_cook data", "gemd/demo/strehlow_and_cook.py"), ("ingest_material_run", "gemd/demo/material_run_example.py"), ("ingest_table", "gemd/demo/table_example.py"), ("make_flexural_test_measurement", "gemd/demo/measurement_example.py")])

p("C24", "A failed or interrupted operation leaves no trace",
  "When an operation is refused, or fails because of something the caller handed in (a function given to a traversal, an iterable or mapping of new values, a stream, a number parser, an index, a list hook, a bounds check, a log handler) at any point of its execution, the failure reaches the caller and the objects involved are as they were: no field, list or link has changed, and an object whose construction fails is linked from nowhere (an in-place substitution and the update of a mapping may have been done in part; objects may have gained the uid that serializing gives them). "
  "A read-only operation (serializing, loading, copying, comparing, flattening, traversing, indexing, substituting into a copy, printing, instantiating a spec, collecting a history) that is interrupted at any point leaves everything it reads unchanged. In all cases the same operation done again gives exactly what it gives without the failure, the validation level, working directory and type registry are as before, and a document that is cut short or has a damaged entry is rejected and leaves nothing behind for documents loaded later.",
  ["crash_points", "histories", "inputs"], "all operations x all points at which caller's code can fail x kinds of failure, all interrupt points of read-only operations, all prefixes and damaged entries of documents",
  "Tests never make a stream, an iterator or a hook fail half-way, and never look at the objects after an interrupt.",
  ["gemd/util/impl.py", "gemd/json/gemd_json.py", "gemd/entity/base_entity.py", "gemd/entity/valid_list.py", "gemd/entity/object", "gemd/builders/impl.py"],
  [("recursive_foreach, recursive_flatmap, substitute_objects", "gemd/util/impl.py"), ("dump, load, loads", "gemd/json/gemd_json.py"), ("ValidList", "gemd/entity/valid_list.py"), ("constructors and setters", "gemd/entity/object/*.py"), ("__eq__", "gemd/entity/base_entity.py")])

p("C25", "Work on separate objects does not interfere, however it is interleaved",
  "Operations on objects that have nothing in common - building, editing, comparing, serializing, loading, copying, flattening, traversing, indexing, substituting, instantiating a spec, checking values and lists, using the building helpers, parsing and converting units - give the same results and leave the same objects when they run in two threads, switching between them at any line of the library, or when one is started from the caller's code that the other calls (a function given to a traversal, an iterable, a list hook, a stream), as when each runs by itself. "
  "Neither affects what comes later. Only the validation level and the choice of the unit definitions file are shared.",
  ["schedules", "histories"], "all schedules of two operations in two threads up to a preemption bound, for all pairs of a catalogue of operations; all points of re-entry",
  "Tests run one operation at a time in one thread, so state kept in a module, a class or a shared engine between the lines of one operation is invisible.",
  ["gemd/json/gemd_json.py", "gemd/util/impl.py", "gemd/entity/base_entity.py", "gemd/entity/dict_serializable.py", "gemd/entity/valid_list.py", "gemd/units/impl.py", "gemd/builders/impl.py"],
  [("loads, dumps, copy of one engine each", "gemd/json/gemd_json.py"), ("visited sets and indexes of traversals and substitution", "gemd/util/impl.py"), ("comparisons in progress (__eq__)", "gemd/entity/base_entity.py"), ("definitions added to the unit registry", "gemd/units/impl.py")])

open("/verif/properties.jsonl", "w").write("".join(json.dumps({**x, "statement": x["statement"].strip()}) + "\n" for x in P))
print(len(P))
