#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
NOTE = "Seeded sampling: no violation in the explored runs, not a proof. "
C = {}
C["C01"] = ("deterministic simulation of interleaved clients saving to a crashing disk, seeded search, reference document model",
  NOTE + "Trusts the reference model, the foreign writer and the domain predicate in sim/src.")
C["C02"] = ("deterministic simulation of path-edit histories with crashes and reloads, refinement of a reference model",
  NOTE + "Trusts the reference model of the edits in sim/src/c02.rs.")
C["C03"] = ("deterministic simulation of a maintenance task prettifying shared documents under crashes, judged by what readers get",
  NOTE + "Styles are free to change, values as read, anchors and comments are not.")
C["C04"] = ("deterministic simulation with storage fault injection (torn writes, bit flips, lost and stale sectors), step-budgeted reads",
  NOTE + "Step budget by the parser's own call counter. Recursion depth beyond 60 levels is not explored.")
C["C05"] = ("deterministic simulation of programs that store typed values in documents that others edit, rewrite and prettify, with crashes; generated types and values read back and compared",
  NOTE + "Types are generated serde data model types and derived types with flatten and every enum tagging; exclusions in DESIGN.md.")
C["C06"] = ("deterministic simulation with caller failures (error or panic) injected at seeded callbacks of serialization and deserialization, with retries, on documents with crash histories",
  NOTE + "A failed attempt is compared with undisturbed attempts before and after it.")
C["C08"] = ("deterministic simulation of edits by closure, mapping and visiting with panics injected at seeded calls of the caller, on documents with crash histories, against a reference model",
  NOTE + "Panics are the injected interruption; a process crash inside an edit loses the tree and is covered by the histories themselves.")
C["C10"] = ("deterministic simulation of documents growing over histories with crashes, every call metered in executed basic blocks against a bound in size times depth",
  NOTE + "Step counter by compiler instrumentation (sancov) of library, pest and consumer; loops inside the standard library are not counted.")
C["C07"] = ("deterministic simulation of consumers with seeded pull schedules over documents with histories, every value compared with a reference reader",
  NOTE + "Trusts the reference reader in sim/src/reader.rs (bind).")
C["C09"] = ("deterministic simulation of tasks on threads under a seeded preemptive scheduler (switches at basic blocks and lock waits, nested calls, caller errors and panics), every call compared with the same call in a pristine process",
  NOTE + "Sequentially consistent interleavings at basic-block granularity of library, pest and consumer; weak memory orders are not modelled.")
NA = {
}
if __name__ == "__main__":
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
    ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "./check.sh build",
         "checks": [{"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                     "technique": C[i][0], "level": "exploration", "level_note": C[i][1]} for i in ids if i in C],
         "not_applicable": [{"property": i, "reason": NA.get(i, "Check under construction.")} for i in ids if i not in C]}
    json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
