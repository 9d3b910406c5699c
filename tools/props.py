#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay well formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Load, save, crash and restart conserve a document's content and comments",
 "Whatever sequence of programs loads documents of the supported subset, changes their tree and saves them, with other tools rewriting the same documents in their own layout in between and with crashes at any step, every document that is later read back holds exactly the keys, order, values, scalar styles, anchors, aliases and comments (text and place in document order) of its last surviving save. "
 "Saving a document that was read and not changed and reading it again yields the same document, and saving that once more yields the same bytes.",
 ["histories", "schedules", "crash_points", "inputs", "fault_sequences"],
 "All histories of loads, tree changes, saves, foreign rewrites and crashes by up to three clients, over all documents of the supported subset (DESIGN.md, domain).",
 "The tests format and re-parse about sixty fixed texts once; no history of several saves, no foreign layout, no crash window, and few combinations of comments, block scalars and nesting are ever exercised.",
 ["src/yaml.pest", "src/yaml/parser.rs", "src/yaml/mod.rs", "src/yaml/document.rs", "src/yaml/hash_data.rs", "src/yaml/array_data.rs", "src/yaml/hash_element.rs", "src/yaml/aliased.rs", "src/yaml/string.rs"],
 [("grammar that keeps comments and layout", "src/yaml.pest"), ("tree built from the grammar's pairs", "src/yaml/parser.rs"), ("formatter with indentation and line-ending rules", "src/yaml/mod.rs: Yaml::format")],
 [("document tree", "all content and comments in document order", "src/yaml/document.rs, src/yaml/mod.rs")],
 ["parse_yaml_file", "Document::format"])

prop("C02", "Edits by path do what they say and report how often, over any history",
 "For every history of path edits (insert with and without overwrite, remove, rename, wrap into an object, move fields into a subfield, move fields into a map keyed by a field, find, and edits by closure), also interleaved with saves, crashes and reloads, each edit changes exactly the places its path and conditions select, leaves every other key, value, order and comment as it was, and reports the number of places it changed or found. "
 "An edit that changes nothing reports zero, and moving a field never loses its value.",
 ["histories", "programs", "inputs", "crash_points"],
 "All histories of path edits with paths written as text, over all documents of the supported subset, with saves, crashes and reloads between edits.",
 "The tests apply one edit to one fixed document each; they do not combine edits, conditions, indexes, duplicates, missing fields, comments between fields and reloads.",
 ["src/yaml/insert.rs", "src/path.rs", "src/path.pest", "src/yaml/types.rs"],
 [("path interpretation and edit callbacks", "src/yaml/insert.rs: for_hash, edit_hash_structure"), ("path text to path", "src/path.rs, src/path.pest")],
 None, ["YamlInsert methods' return values", "Document::format after the edit"])

prop("C03", "Prettifying as maintenance never changes what readers read",
 "Prettifying a document at any time, between any edits, saves and reloads of other programs, changes neither the keys, their order, the value of any scalar as a reader gets it (its text, and whether it reads as a number, a boolean, null or a string), the anchors and aliases, nor the comments, and the prettified document can be stored and read back. "
 "Prettifying a document that was prettified, saved and reloaded changes nothing.",
 ["histories", "schedules", "inputs", "crash_points"],
 "All documents of the supported subset and all histories in which a maintenance task prettifies and saves documents that other clients edit, with crashes in between.",
 "The tests prettify a handful of scalars; no combination of quoting, line breaks, long words, nesting, anchors and comments, and never twice or after a reload.",
 ["src/yaml/mod.rs", "src/yaml/string.rs", "src/yaml/hash_element.rs", "src/yaml/array_data.rs", "src/yaml/aliased.rs", "src/yaml/document.rs"],
 [("conversion between scalar styles and between block and flow collections", "src/yaml/mod.rs: Pretty for Yaml"), ("folding of long lines", "src/yaml/mod.rs: create_folded")],
 None, ["Pretty::pretty", "Document::format", "from_yaml"])

prop("C04", "Damaged stored text and path text are refused in bounded time, never a panic",
 "Reading any text, whatever damage a disk or a transfer did to a stored document (torn, truncated, overwritten, repeated or bit-flipped parts), ends with a document or an error after a number of steps proportional to the text, never with a panic, and an error tells a place inside the text. "
 "A truncated document that is accepted holds nothing that was not in it before the cut, apart from the value the cut went through, and an accepted document can be saved and read back; the same bounded, panic-free reading holds for path text.",
 ["fault_sequences", "crash_points", "inputs"],
 "All sequences of storage faults (torn, lost, stale and duplicated sectors, bit flips, splices) on stored documents with up to 60 levels of nesting, and on path text.",
 "The tests parse only well-formed text; panics on unexpected shapes and exponential backtracking need damaged or adversarial text in combinations no one writes by hand.",
 ["src/yaml.pest", "src/yaml/parser.rs", "src/path.pest", "src/path.rs"],
 [("parse errors instead of panics", "src/yaml/parser.rs: parse_yaml_file"), ("path parse errors", "src/path.rs: FromStr")],
 None, ["parse_yaml_file", "YamlPath::from_str", "YamlError::location"])

prop("C05", "Typed values survive every save, crash, rewrite and reload unchanged",
 "A typed value written with the serializer, then saved, prettified or not, rewritten in another layout by another tool, read after any crash, and edited by others at fields it does not look at, deserializes to a value equal to the one that was written last. "
 "Numbers, booleans, characters, strings of any content, options, units, sequences, tuples, structs, maps and enums keep their type and exact value.",
 ["histories", "inputs", "crash_points", "schedules"],
 "All histories of typed writes, partial updates, prettifying, foreign rewriting, crashes and reloads over generated values of the serde data model (DESIGN.md lists the exclusions).",
 "The tests round-trip a few fixed structs without saving through text twice, prettifying or rewriting; strings that look like other syntax are sampled by hand.",
 ["src/yaml/serializer.rs", "src/yaml/deserializer.rs", "src/yaml/string.rs", "src/yaml/mod.rs"],
 [("choice of scalar style on writing", "src/yaml/serializer.rs"), ("typed view of scalars on reading", "src/yaml/deserializer.rs")],
 None, ["YamlSerializer", "from_yaml", "from_yaml_str"])

prop("C06", "A failing caller stops serialization and deserialization cleanly",
 "When a caller's own (de)serialization code fails or panics at any of its callbacks, the failure reaches the caller with its own message, nothing of the caller's code is called afterwards, every value created up to then is dropped exactly once, and the document that was being read is unchanged. "
 "Repeating the call without the failure gives the same result as if the failed attempt had never happened.",
 ["fault_sequences", "programs", "inputs"],
 "Every callback position at which a caller's code can fail, by error or panic, for generated values and documents, followed by retries.",
 "No test makes a caller's code fail; the number of positions grows with every value and needs injection at each of them.",
 ["src/yaml/serializer.rs", "src/yaml/deserializer.rs"],
 [("error propagation", "src/yaml/serializer.rs, src/yaml/deserializer.rs"), ("custom error constructors", "src/yaml/deserializer.rs: de::Error, src/yaml/serializer.rs: ser::Error")],
 None, ["YamlSerializer", "from_yaml", "Drop of caller values"])

prop("C07", "What a reader reads does not depend on when and in which order it pulls",
 "A consumer that pulls a document's entries one by one, whatever it skips, ignores, asks for by type or leaves unread, gets for every value it does read exactly what a consumer that reads everything gets. "
 "A value that does not have the type asked for is refused with an error and never arrives as another value; only null has the type unit. (Items of a list beyond the length of the tuple asked for count as left unread.) An alias always stands for the most recent definition of that anchor that precedes it in the document, an undefined one is an error when it is read, and every read terminates.",
 ["schedules", "programs", "inputs"],
 "All pull schedules (read, skip, ignore, stop early, any type hint) of all consumers over generated documents with anchors and aliases, including redefined and undefined ones.",
 "The tests read documents with derived code that pulls everything in order; skipping a definition, redefining an anchor or referring to an enclosing one is never tried.",
 ["src/yaml/deserializer.rs"],
 [("aliases bound to definitions before reading", "src/yaml/deserializer.rs: AnchorBinder"), ("map and sequence access", "src/yaml/deserializer.rs")],
 [("anchor table", "values of the definitions, in document order", "src/yaml/deserializer.rs: Anchors")], ["from_yaml", "YamlDeserializer"])

prop("C08", "An interrupted edit leaves complete places, each visited once and in order",
 "Edits by closure, mapping and visiting call the caller's code exactly once for every selected place, in document order or the order in which the path lists indexes, and for no other. "
 "If that code panics at any of these calls, everything before it is completely changed, everything after it is untouched, and the document can be saved, read back and edited further.",
 ["fault_sequences", "programs", "inputs"],
 "Every call position at which a caller's closure or visitor can be interrupted, on generated documents, paths and edits, followed by recovery and further edits.",
 "No test interrupts a closure; the tests' visitors look at one small document each.",
 ["src/yaml/insert.rs", "src/yaml/mod.rs", "src/yaml/document.rs", "src/yaml/aliased.rs", "src/yaml/hash_data.rs", "src/yaml/array_data.rs"],
 [("traversal with caller closures", "src/yaml/insert.rs: for_hash, edit_hash_structure"), ("map and visit", "src/yaml/mod.rs: MapYaml, VisitYaml")],
 None, ["YamlInsert::for_hash", "MapYaml::map", "VisitYaml::visit"])

prop("C09", "Independent uses never influence each other, on any schedule",
 "Programs, threads and nested callbacks that read, edit, prettify, serialize and save different documents at the same time get exactly the results they get when they run alone, on every interleaving, also when another of them fails or panics halfway. "
 "The same call on the same input gives the same result whatever ran before.",
 ["schedules", "histories", "fault_sequences"],
 "All interleavings of up to four threads and of calls nested in a caller's callbacks, switched at basic blocks, with errors and panics injected, every call compared with the same call in a process in which nothing ever ran.",
 "Every test runs one call at a time on its own data; shared or leftover state, and dependence on hash order, cannot show.",
 ["src/yaml/parser.rs", "src/yaml/mod.rs", "src/yaml/deserializer.rs", "src/yaml/serializer.rs", "src/yaml/insert.rs", "src/path.rs"],
 [("no state outside a call", "whole crate")], None, ["all public entry points"])

prop("C10", "Every valid document is read, saved and prettified in a bounded number of steps",
 "Reading, saving, prettifying, editing by path, visiting, mapping, deserializing and serializing a document of the supported subset take a number of steps within a fixed multiple of its size times its nesting depth (for deserializing: of the size of what is read, aliases counted each time), for every nesting and arrangement and after any history of edits and reloads. "
 "No document that was saved becomes unreadable because reading it takes too long.",
 ["inputs", "histories"],
 "All documents of the supported subset with up to 60 levels of nesting, grown by histories of edits and reloads, with steps counted as basic blocks executed.",
 "The tests use documents of a few lines, on which exponential backtracking takes no noticeable time.",
 ["src/yaml.pest", "src/yaml/parser.rs", "src/yaml/mod.rs", "src/yaml/deserializer.rs"],
 [("grammar without nested ambiguity", "src/yaml.pest")], None, ["parse_yaml_file", "Document::format"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
