#!/usr/bin/env python3
"""Writes MANIFEST.json (committed; rerun after changing this file)."""
import json
note = ("Seeded search, not proof: a quick run executes {n} seeded scenarios on the real library (no model of it), "
        "over 24 configurations of node size, pointer kind and element type, in builds with and without debug assertions. {what} "
        "Trusts the simulator's reference model (BTreeMap), its instrumented keys/values and checking allocator, rustc and std. "
        "Tasks are preempted at callbacks, node accesses of the simulated pointer kind and between operations, under sequentially consistent memory.")
C = {
 "C01": ("48000", "deterministic simulation: random operation histories with aborted and abandoned operations against a BTreeMap reference model", "Every result is compared with the model as it is produced, every handle's contents, both iteration directions and lookups after the step."),
 "C02": ("48000", "deterministic simulation: iterator/range workloads interleaved with changes to sibling handles, against a reference model", "Every yielded entry of every iterator (all bound kinds, both ends, paused, cloned, abandoned) is compared with the model."),
 "C03": ("48000", "deterministic simulation: interleaved use of families of clones with injected panics, against one reference model per handle", "After every step every handle is compared with its own model; open cursors keep theirs."),
 "C04": ("80000", "deterministic simulation with fault injection at every callback, allocation and stream point; object registry and checking allocator/pointer kind as oracle", "Every key and value is registered with an identity and a checksum, each use and drop is checked; nodes are checked by a pointer kind with tags and generations, blocks by a wrapping allocator; leaks are checked at the end of fault-free runs."),
 "C05": ("48000", "deterministic simulation with crash (panic) injection at a chosen callback of an operation, before/after reference states as oracle, then retry", "After each abort the handle must hold the before or after state (prefix for streams, subset for whole-tree operations) and the history goes on, including the retry."),
 "C06": ("48000", "deterministic simulation: consuming iterators from both ends with early stop and live clones, against a reference model", "Every yielded entry, the exact length at each step, exhaustion and the clones are compared with the model."),
 "C07": ("48000", "deterministic simulation: simulated input streams (early end, wrong hints, disorder, panics) and tree pairs, against a reference model", "Every bulk result is compared with the model's union; unordered loads must panic in the debug build."),
 "C08": ("48000", "deterministic simulation: replicas brought to the same contents along different histories with faults and churn, compared pairwise", "==, cmp, partial_cmp, hash and Debug are compared with those of the models."),
 "C09": ("24000", "deterministic simulation: threads under a seeded baton scheduler with message loss, duplication, reordering and thread death, against one reference model per handle", "Each task's handles are compared with private models after each step, snapshots taken under the simulated lock too."),
 "C10": ("48000", "deterministic simulation: comparison counts per operation checked against a budget, with deep trees, aborted operations and a CPU watchdog for termination", "Budgets are the product of levels, node width and a constant (generous: a linear scan of a large tree exceeds them, a constant-factor slowdown does not)."),
 "C11": ("80000", "deterministic simulation with wrong comparison answers injected in eight modes; object registry, allocator, address distinctness and step budget as oracle", "No results are compared while a tree is disordered; every object use, drop and handed out mutable reference is, and termination."),
 "C15": ("48000", "deterministic simulation: interleaved use of families of sharing clones, value copies and allocations counted per operation against an ownership ledger", "A ledger knows which handles may still share data; an operation that copies more values than the shared trees it changes hold, or a clone that copies or allocates, is a violation."),
 "C16": ("48000", "deterministic simulation: growth and shrinkage histories on a node-counting pointer kind and a counting allocator, checked against a bound in the entries stored", "After every operation the nodes alive are compared with the bound; nodes leaked by aborted operations are set aside."),
 "C12": ("48000", "deterministic simulation: writes through every kind of mutable reference, held across activity of sibling handles, against a reference model", "Each write is followed by a comparison of all handles with their models; references kept from one iteration must have distinct addresses."),
}
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": [], "not_applicable": [
  {"property": "C13", "reason": "Decided by the type checker (auto trait bounds) before anything runs: there is no execution, schedule or fault to simulate."},
  {"property": "C14", "reason": "Decided by the borrow checker before anything runs: a program that compiles has no execution on which this could fail, so there is nothing to simulate."}],
  "notes": "No hooks in /repo: keys, values, streams, node sizes, pointer kinds and the global allocator are all supplied through public seams. bash replay.sh FILE re-executes a replay file. known-findings lists the repaired defects."}
for p, (n, t, w) in C.items():
    m["checks"].append({"property": p, "quick_cmd": f"bash check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p}",
        "evidence_file": f"evidence/{p}.json", "technique": t, "level": "exploration", "level_note": note.format(n=n, what=w)})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
