#!/usr/bin/env python3
"""Writes the replay files of the known findings and known-findings.jsonl."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
def sc(s): return {"Sc": {"Plain": s}}
def el(v): return {"El": {"alias": None, "val": v}}
def seq(*v): return {"Seq": {"flow": False, "items": [el(x) for x in v]}}
def mp(**kv): return {"Map": {"flow": False, "ents": [{"Kv": {"key": k, "alias": None, "val": v}} for k, v in kv.items()]}}
def replay(root):
    return {"class": "content", "detail": "", "hseed": 1, "idx": 0, "seed": 1, "property": "C01",
            "plan": {"files": [{"doc": {"lead": [], "pre": [], "post": [], "root": root}, "layout": [], "odd": True}], "ops": []}}
KNOWN = [
  ("C01", "compact-lists", replay(seq(seq(seq(sc("x")), sc("b")))),
   "A list in a list in a list on one line (`- - - x`) followed by an item of the middle list in a document another tool wrote: the item is read into the innermost list."),
  ("C01", "indicator-in-item", replay(seq(mp(k={"Sc": {"Block": {"folded": False, "chomp": "Clip", "lines": ["  ab"]}}}, z=sc("1")))),
   "A block scalar with an indentation indicator as the first field of a compact list item (`- k: |2`) in a document another tool wrote: it swallows the following fields."),
]
FIXED = [
 ("C01", "a7272d4", "block scalars lost, took over or panicked on lines"),
 ("C01", "d45537a", "a nested list with one item took over the items of its parent"),
 ("C01", "8d596c1", "comments and blank lines before a collection on its own line were rejected"),
 ("C01", "9c98c0b", "comments, collections of nothing but comments and indented block scalars could not be read back"),
 ("C01", "f57ed3e", "a flow collection at the root could not be read back"),
 ("C01", "07f9ced", "items of nested lists moved to another list on saving"),
 ("C04", "da814bd", "a malformed path panicked"),
 ("C02", "71aac5a", "paths did not reach into flow lists"),
 ("C02", "a422efc", "removing a field moved its comment to another field"),
 ("C02", "ec09495", "moving fields lost them or panicked"),
 ("C02", "f99e31d", "a comment was written behind another comment after an edit"),
 ("C01", "a036215", "values on a line of their own got its indentation; an unreadable item became text"),
 ("C10", "276cb9e", "unreadable nested collections took exponential time"),
 ("C02", "30ca3f2", "moving fields into a map moved the comment of another field"),
 ("C07", "38f62e0", "an alias stood for another definition, depending on the order of reading"),
 ("C05", "b6536a9", "strings were written in a way that reads as something else"),
 ("C03", "5db7554", "prettified items of a nested list could not be read back"),
 ("C03", "60a2899", "prettifying changed the text of quoted strings"),
 ("C05", "19f1584", "128-bit integers were written but not read"),
 ("C05", "abb52f9", "maps with string keys that look like other scalars could not be written"),
 ("C05", "8ad73b9", "enum variants with content were written without their name"),
 ("C05", "0da5084", "block collections were written inside tuples and could not be read back"),
 ("C05", "9266cb5", "a string with a colon before a tab or another white space was written without quotes"),
 ("C10", "d2e98b7", "reading or prettifying a long folded string copied its text once for every line"),
 ("C07", "2e1a0c6", "any value and undefined aliases were read as units and unit variants"),
]
out = []
for prop, name, r, what in KNOWN:
    f = f"known/{prop}-{name}.json"
    json.dump(r, open(os.path.join(here, f), "w"), indent=1)
    out.append({"property": prop, "status": "known", "class": r["class"], "what": what, "replay": f})
for prop, commit, what in FIXED:
    out.append({"property": prop, "status": "fixed", "commit": commit, "what": f"fixed: property={prop} {commit} {what}"})
with open(os.path.join(here, "known-findings.jsonl"), "w") as f:
    for x in out: f.write(json.dumps(x) + "\n")
