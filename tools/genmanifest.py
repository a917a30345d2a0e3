#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PBT = "property-based testing (rapid)"
T = {
 "C01": (PBT + ": generated ranges, bounds and batch counts; oracle: tiling predicate on the calls", "Arguments up to the ends of the int range; number of batches bounded by the generator (64); NumCPU 1, 3, 8."),
 "C02": (PBT + ": generated operations and completion orders; oracle: sequential left fold with a non-commutative join", "Completion orders of user functions are generated; the interleaving inside the library is sampled (repetition, 1-8 CPUs, race detector)."),
 "C03": (PBT + " with a controlled scheduler; oracle: history invariant (nothing runs after the return)", "User functions are held at generated points, so a missing join is visible deterministically."),
 "C04": (PBT + " with injected panics (also Goexit-free errors, runtime errors); oracle: left-most panic model", "Panic positions and completion orders generated; process crashes are caught in a child process."),
 "C05": (PBT + " with a controlled scheduler; oracle: all functions in progress at quiescence", "Quiescence is proved by stack dump, not by time-outs."),
 "C06": (PBT + ": generated slices of several element types; oracle: sequential prefix sum", "Sizes up to a few thousand elements, exact arithmetic types and strings."),
 "C07": (PBT + ": generated decisive functions, joins and completion orders; oracle: left-most-event model", "Completion orders of user functions are generated."),
 "C08": (PBT + " with a controlled scheduler; oracle: return while functions to the right are held", "Known findings: the operations wait for running functions to the left of the decisive one."),
 "C09": (PBT + " with injected panics; oracle: left-most-event model, process survival", "Late panics are delivered after the return, in a child process."),
 "C10": (PBT + ": structured inputs (patterns, duplicates, NaN); differential against package sort", "Sizes up to several grain sizes; only sequential-compatible Sorters."),
 "C11": (PBT + ": structured inputs with many equal keys; differential against sort.Stable", "Sizes up to several grain sizes."),
 "C12": (PBT + ": single inversions at generated places; differential against package sort", "Sizes up to several grain sizes."),
 "C13": (PBT + ": instrumented sorters with held accesses, plus race detector; oracle: access windows", "Accesses are recorded by the Sorter given to the library; races of SequentialSort on slices are found by the race detector."),
 "C14": (PBT + ", model-based: generated operation sequences on 10 map types; oracle: plain map", "Sequential use; Range order is not constrained."),
 "C15": (PBT + ": generated concurrent histories; oracle: linearizability (porcupine)", "Histories are sampled; checked exactly."),
 "C16": (PBT + ", model-based and concurrent histories; oracle: multiset of pooled objects, exclusive holding", "Reuse is only required where sync.Pool provides it (one P, no GC)."),
 "C17": (PBT + ": generated pipelines, sources and schedules; oracle: reference model of the pipeline", "Completion order of receivers is generated (gated), partly generated or free."),
 "C18": (PBT + ": generated pipelines and schedules; oracle: order and overlap invariants on the trace", "As C17."),
 "C19": (PBT + " with held receivers; oracle: number of receivers in progress at quiescence", "1, 2 and 8 CPUs."),
 "C20": (PBT + ": generated pipelines and schedules; oracle: progress (deadlock proved by stack dump)", "Termination is judged by quiescence and CPU time, never by wall time."),
 "C21": (PBT + ": generated pipelines with finalizers; oracle: trace invariant", "As C17."),
 "C22": (PBT + ": generated sizes and settings; oracle: batch-size formula", "Sizes and settings up to the end of the int range."),
 "C23": (PBT + ", model-based: generated fetch sequences on every source; oracle: underlying data", "Readers with short reads and errors, channels with open ends."),
 "C24": (PBT + ": concurrent SetErr/Err histories, race detector; oracle: write-once register", "Histories are sampled; checked exactly."),
 "C25": (PBT + " with injected cancellation, and repeated cancellation races; oracle: trace invariants, progress", "The moment of cancellation is generated relative to the work; races inside the library are sampled by repetition."),
 "C26": (PBT + ": generated pipelines with result filters; oracle: reference quantifiers and folds", "As C17."),
 "C27": (PBT + ": generated stacks of Limit and Skip; oracle: window model", "As C17."),
 "C28": (PBT + ": generated chains of transforms; oracle: reference model of the pipeline", "As C17."),
 "C29": (PBT + ", metamorphic: pipelines with and without no-op nodes", "As C17."),
 "C30": (PBT + ", race detector on uninstrumented receivers; oracle: reference model of batch contents", "Interleavings are sampled."),
 "C31": (PBT + ": generated operations, faults and cancellation races; oracle: no library goroutine at quiescence", "Goroutines are identified in a stack dump by their creating function."),
 "C32": (PBT + ": generated pipelines with notifiers; oracle: trace invariant", "As C17."),
 "C33": (PBT + ", race detector on functions that use plain memory only; oracle: every value read is the one its provider wrote", "Interleavings are sampled; the race detector judges the happens-before edges of each."),
 "C34": (PBT + " with injected panics in every method of the collection, gated methods, race detector; oracle: the delivered panic is one that occurred, nothing runs at the return", "Panic positions by element, index, range and occurrence; completion order of sequential parts generated."),
 "C35": (PBT + ": generated trees of operations of all packages; oracle: sequential evaluation of the tree, progress proved by stack dump", "Trees of depth 1-5 with up to some dozens of operations; interleavings are sampled; 1, 2 and 8 CPUs, race detector."),
 "C36": (PBT + ": generated pipelines of sources and nodes defined by the harness; oracle: protocol state machines of source and nodes, model of the data at every node", "Up to 7 nodes and 60 batches; interleavings are sampled; 1 and 8 CPUs, race detector."),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "checks": [], "not_applicable": [],
     "notes": "Known findings and repaired defects: known_findings.json. No hooks: the harness in /verif/harness is a separate module that imports the packages of /repo."}
for p in props:
    i = p["id"]
    t, n = T[i]
    m["checks"].append({"property": i,
        "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration",
        "level_note": "Random exploration against an explicit oracle; no proof of absence. " + n})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
