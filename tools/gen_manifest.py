#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": ("online monitor: every remark's texts against a model of the history", "exploration", "Holds on every remark read back in the generated histories. Trusts the reference storage."),
"C02": ("online monitor: refused operations against a twin history without them", "exploration", "Every operation with every form of empty word; all remarks compared before and after. Trusts the reference storage."),
"C03": ("online monitor: every node of the storage fetched as a remark, against the model", "exploration", "All identifiers in use and many that are not, in every generated graph."),
"C04": ("online monitor: walks over the facts against a model of the history", "exploration", "Every kind of remark to add through and to start from; stories of up to hundreds of facts (thousands when thorough)."),
"C05": ("online monitor: added remarks and next-remark walks against a model of the history", "exploration", "One known finding (added remarks are not met by next-remark, pinned by a stable test); chains of remarks are therefore made by linking the entities below the public operations."),
"C06": ("online monitor: renderings against the model's texts", "exploration", "Chains of several remarks come from the harness and from linked entities, because of the known finding of C05."),
"C07": ("online monitor: walks over siblings against a model of the history", "exploration", "Forests of several depths, many children, deep nesting."),
"C08": ("differential monitor: all other stories observed before and after each operation", "exploration", "Everything the public operations show of every remark, in interleaved histories."),
"C09": ("monitor of storage writes and of repeated answers during reads", "exploration", "Every effective write of a reading operation is seen; answers compared with the first ones."),
"C10": ("conservation monitor: class members counted after every operation against the set of texts", "exploration", "Class membership is read from the stored graph (connections into the nodes 1 to 8)."),
"C11": ("conservation monitor: class members after every operation against a model", "exploration", "Class membership is read from the stored graph (connections into the nodes 1 to 8)."),
"C12": ("twin run through one and several handles, storages compared after every step", "exploration", "Identifiers, outcomes, whole content of the storages, and all observations."),
"C13": ("fault injection at every storage call, with monitors for panic, hang and false success", "fault_enumeration", "Every storage call of every kind of operation in the generated graphs, failing before or after its effect. Hangs are decided by a bound on storage calls, not by time."),
"C14": ("fault injection at every storage call, all remarks against the model without and with the operation", "fault_enumeration", "Every storage call of every creating operation in small generated graphs, and histories with random failures."),
"C15": ("crash injection after every storage change, reopening, all remarks against the model", "fault_enumeration", "Every change of every creating operation in small generated graphs, and histories with repeated crashes. The storage keeps the order of changes."),
"C16": ("monitor of storage changes: removals and changed references", "exploration", "Also under refusals, failing calls, crashes and several handles."),
"C17": ("monitor of storage arguments, and runs on storages of many kinds against one model", "exploration", "Four orders of listing, five ways of numbering, strict and lenient, and the storage of the project's tests."),
"C18": ("race detector, and logs of interleaved runs against runs alone", "exploration", "Interleavings by operation and by storage call decided by the seed, and real parallel runs under the race detector."),
"C19": ("race detector, and parallel answers against sequential ones", "exploration", "Interleavings by storage call decided by the seed, and real parallel runs under the race detector."),
"C20": ("offline comparison of logs and storages of repeated runs in several processes", "exploration", "Each history repeated in one process and in others with other settings of the runtime."),
"C21": ("monitor counting storage calls, compared between small and large graphs", "exploration", "Work is measured in storage calls, never in time."),
"C22": ("monitor of the layers' lookups against the entity read by its class", "exploration", "Built into the module by an overlay; lookups found by reflection."),
"C23": ("monitor of the fact layer's parent story against a model of the history", "exploration", "Built into the module by an overlay; no public operation leads to the parent."),
"C24": ("monitor of all membership questions against the nodes created as members", "exploration", "Built into the module by an overlay. Membership of nodes registered by public operations is read from the stored graph."),
"C25": ("monitor of the layers' values against a model of all that was stored", "exploration", "Built into the module by an overlay; the identity of details is decided by the nodes added."),
"C26": ("attribution of every storage call to its goroutine, search for goroutines left, memory measured at two lengths", "exploration", "Memory has room for 16 bytes an operation."),
"C27": ("fault injection with an error value of its own for each failing call", "fault_enumeration", "Cases inside the module are left out if an edit keeps them from compiling."),
"C28": ("replay of recorded storages against the observations recorded with them", "exploration", "The recordings (harness/golden.gz) stand for what users have stored."),
"C29": ("answers of readers beside a writer against those right meanwhile, by turns at storage calls and under the race detector", "exploration", "Interleavings by storage call decided by the seed, and real parallel runs under the race detector. One writer."),
"C30": ("panic injection at every storage call, the value met by the caller, all remarks against the model afterwards", "fault_enumeration", "Every storage call of every kind of operation in small generated graphs, and histories with random panics."),
"C31": ("system call trace of processes that perform histories, streams and settings compared", "exploration", "strace of own child processes; where it is missing, streams and settings only."),
"C32": ("monitor of storage arguments while others use the storage too, contents and answers against a run alone", "exploration", "Others act between storage calls as the seed decides, from the moment the nodes of the classes exist. Order of connections is compared on storages that list in a fixed order."),
}
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
 "notes": "check.sh ID TIER rebuilds the monitors with /repo's working tree and runs one check; VERIF_SEED decides every random choice. /repo needs no hooks: the storage interface is where the code is observed, and C05, C06, C13, C22 to C25 and C27 are built into the module with go build -overlay. Findings and repairs: known_findings.jsonl."}
for i, (t, l, n) in T.items():
    m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
      "evidence_file": f"evidence/{i}.json", "technique": t, "level": l, "level_note": n})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
