#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}})

PAR, SPEC, INT = "parallel/parallel.go", "speculative/speculative.go", "internal/internal.go"
PIPE, SEQ, PARN, LPAR, STR, TRN = ("pipeline/pipeline.go", "pipeline/seqnode.go", "pipeline/parnode.go",
    "pipeline/lparnode.go", "pipeline/strictordnode.go", "pipeline/transformnode.go")
FILT, FILS, SRC = "pipeline/filter.go", "pipeline/filters.go", "pipeline/source.go"
QS, MS, SO = "psort/quicksort.go", "psort/mergesort.go", "psort/sort.go"
GS = "gsync/sync.go"

p("C01", "Range batches tile the requested range exactly",
  "For every low <= high and batch count n >= 0, each range operation of the parallel package, and each of the speculative package when nothing ends it early, calls the user function on pairwise disjoint, non-empty batches that together cover exactly [low, high), at most n of them when n > 0, and at least two when the range has two or more elements and n is not 1. An empty range yields exactly one call with an empty batch. If high < low or n < 0 the operation panics without calling the function.",
  ["inputs", "configurations"], "all low <= high with high-low representable as int (including ranges that end at the largest int and negative bounds), all n >= 0 including the default 0 and values above the range size, every NumCPU",
  "The tests use two default-batch ranges (1..12, 2..20) and PrefixSum; no other n, no empty range, no bound near the int limits, no invalid argument.",
  [PAR, SPEC, INT], [("recursive halving of batches", PAR+": Range*/recur"), ("ComputeNofBatches", INT)], ["arguments of the user function"])
p("C02", "parallel: results equal sequential left-to-right evaluation",
  "Every operation of the parallel package calls each given function exactly once (each range reducer exactly once per batch), and its result equals evaluating the functions one after the other from left to right and combining their results in that order, for every associative join, commutative or not. No functions at all yields the neutral element (zero value, 1, true, false).",
  ["inputs", "schedules"], "any number of functions, any range and batch count, any associative join, all summable and multipliable element types, any completion order of the functions",
  "The examples fold one commutative sum and one append; argument order, odd function counts and adverse completion orders are never tried.",
  [PAR], [("divide and conquer with left/right combination", PAR+": Reduce, ReduceSum, ReduceProduct, And, Or, Range*")], ["return values", "invocation counts"])
p("C03", "parallel: nothing is still running when an operation returns",
  "An operation of the parallel package returns to its caller, normally or by panicking, only after every function it was given (every batch of a range) has been invoked and has terminated.",
  ["schedules", "inputs"], "all operations, all numbers of functions and batches, all completion orders, any subset of the functions panicking",
  "Depends on which function finishes last and on panics; the tests never delay or fail a function.",
  [PAR], [("WaitGroup joined at every level, also while panicking", PAR)], ["moment of return versus completion of user functions"])
p("C04", "parallel: the left-most panic reaches the caller",
  "If one or more functions, batches or joins given to a parallel operation panic, the operation panics in the calling goroutine with the panic of the left-most one that panicked, whatever the timing; the process never crashes and the panic is never lost. A panic value that is an error stays identifiable with errors.Is, any other value stays readable in the text of the delivered value.",
  ["inputs", "schedules", "fault_sequences"], "all operations, all non-empty subsets of panicking functions, all kinds of panic values (errors, runtime errors, strings, other values), all completion orders",
  "No test makes a user function panic.",
  [PAR, INT], [("recover in every spawned goroutine and rethrow", PAR), ("WrapPanic", INT)], ["value recovered by the caller"])
p("C05", "parallel, speculative: all functions of one call run concurrently",
  "All functions given to one operation (all batches of one range operation) of the parallel or speculative package are in progress at the same time if none of them finishes: functions that wait for each other always complete, on any number of CPUs.",
  ["schedules", "inputs", "configurations"], "all operations of both packages, all numbers of functions and batches, any GOMAXPROCS and NumCPU",
  "The tests' functions never wait for each other, so sequential execution of some of them goes unnoticed.",
  [PAR, SPEC], [("one goroutine per function", PAR+", "+SPEC)], ["functions in progress at quiescence"])
p("C06", "PrefixSum computes inclusive prefix sums",
  "For every slice, PrefixSum returns a slice of the same length whose element i is slice[0]+slice[1]+...+slice[i], added in that order, for every summable element type.",
  ["inputs", "configurations"], "all lengths including 0, 1 and values around powers of two, all element types including wrapping integers and strings, any number of CPUs",
  "The test uses lengths 0..98 with all elements 1, where reordering or mixing up elements cannot be seen.",
  [PAR], [("Hillis-Steele doubling with double buffering", PAR+": PrefixSum")], ["returned slice"])
p("C07", "speculative: result is that of the left-most decisive function",
  "A speculative operation has the same result in every schedule: if some function (or join) reports a decisive outcome, the result is the one of the left-most decisive function; otherwise every function is called exactly once and the result combines all of them from left to right. No function is ever called twice, and no others than those given, even if the slice they were passed in is used for other functions once the operation has returned.",
  ["schedules", "inputs"], "all operations of the speculative package, any number of functions and batches, any subset of decisive functions and joins, any completion order",
  "The package has no tests at all; IsSorted uses one two-way And.",
  [SPEC], [("left result takes precedence over right", SPEC)], ["return values", "invocation counts"])
p("C08", "speculative: no waiting once the result is decided",
  "A speculative operation never waits for functions to the right of the left-most decisive one: once that function has reported its outcome and the functions to its left have finished, the operation returns, however long the others keep running. As documented, it does not wait for any other running function either once one has reported a decisive outcome.",
  ["schedules", "inputs"], "all operations of the speculative package, any position of the decisive function, any set of functions that never finish",
  "No test has a function that keeps running after the result is known.",
  [SPEC], [("early return before joining the right half", SPEC)], ["moment of return while other functions are blocked"])
p("C09", "speculative: panics and decisive results obey left-to-right precedence",
  "When functions of a speculative operation panic, the outcome is decided by the left-most event: if a panicking function is left of every decisive one, the operation panics with that panic's value (errors stay identifiable with errors.Is), and if a decisive one is further left, its result is returned. A panic never crashes the process, even when it happens after the operation has returned.",
  ["schedules", "inputs", "fault_sequences"], "all operations of the speculative package, any mix of panicking, decisive and ordinary functions, any completion order including panics after the return",
  "No test has a panicking or late function.",
  [SPEC, INT], [("recover in every spawned goroutine", SPEC), ("WrapPanic", INT)], ["return value or recovered panic", "process survival"])
p("C10", "psort.Sort yields a sorted permutation",
  "For every collection, Sort leaves exactly the original elements, in an order in which no element is less than its predecessor. For []int, []float64 and []string this is the order of the standard sort package, including NaN, infinities and signed zeros.",
  ["inputs", "schedules", "configurations"], "all sizes (below, at and far above the sequential cut-off), all value distributions and user-defined orderings, any number of CPUs",
  "The tests sort one uniformly random slice of 2.4M elements per type; duplicates-heavy, presorted, adversarial and NaN inputs and the sizes near the cut-off are not reached.",
  [QS, SO], [("parallel quicksort over disjoint parts", QS+": Sort"), ("Less/SequentialSort of the slice types", SO)], ["collection contents after return"])
p("C11", "psort.StableSort yields the stable sorted order",
  "For every collection whose sequential sort is stable, StableSort produces exactly the order a sequential stable sort produces: sorted, all original elements, equal elements in their original order.",
  ["inputs", "schedules", "configurations"], "all sizes (below, at and above each sequential cut-off of sorting and merging), all distributions including few distinct keys, any number of CPUs",
  "One random 2.4M-element slice is tested; stability is checked only for a key range half the size, so long runs of equal keys across merge boundaries are not hit.",
  [MS, SO], [("parallel merge sort with binary-search splitting", MS+": pMerge, binarySearchEq, binarySearchNeq")], ["collection contents after return"])
p("C12", "Parallel sortedness tests agree with the sequential ones",
  "IsSorted, IntsAreSorted, Float64sAreSorted and StringsAreSorted return true if and only if no element is less than its predecessor, exactly as the functions of the standard sort package do.",
  ["inputs", "schedules", "configurations"], "all sizes, any position and number of out-of-order neighbours, NaN values, any number of CPUs",
  "The tests only call them on sorted slices; the positions of a single inversion relative to the parallel split points are never exercised.",
  [SO], [("recursive split into overlapping neighbour tests", SO+": IsSorted")], ["return values"])
p("C13", "psort touches only its collection, race-free, and only while it runs",
  "Sort, StableSort and IsSorted access only elements of the given collection (and the temporary obtained from it), never access an element while another goroutine of the same call may be writing it, and make no access of any kind after they have returned.",
  ["schedules", "inputs"], "all sizes and contents of collections, all schedules of the internal goroutines, early-terminating sortedness tests",
  "The tests check only the final contents, without the race detector, and never touch the data right after IsSorted returned false.",
  [QS, MS, SO], [("recursion on disjoint index ranges", QS+", "+MS), ("joining all tests before returning", SO+": IsSorted")], ["calls on the Sorter/StableSorter", "race detector"])
p("C14", "gsync.Map behaves as a typed map for every key and value type",
  "Used by one goroutine, gsync.Map returns from every operation exactly what the operation of the same name on a plain map (with sync.Map's documented meaning) would return, for every comparable key type and every value type, including interface types holding nil. Range visits each present entry once and stops when told to.",
  ["histories", "inputs"], "all operation sequences, all key and value types",
  "Only LoadOrStore, Load and Range are used, by the word-count example, with pointer values.",
  [GS], [("type-asserting wrapper of sync.Map", GS)], ["return values"])
p("C15", "gsync.Map is linearizable",
  "Concurrent Load, Store, LoadOrStore, LoadAndDelete, Delete, Swap, CompareAndSwap and CompareAndDelete calls on one gsync.Map behave as if each took effect atomically at some moment between its call and its return; Range calls its function at most once per key, with a value the key was mapped to at some moment during the call.",
  ["schedules", "histories"], "all concurrent histories of any number of goroutines on the same and on different keys",
  "The only concurrent use in the tests is a word count over at most a handful of batches.",
  [GS], [("delegation to single sync.Map operations", GS)], ["call/return histories"])
p("C16", "gsync.Pool hands each object to one holder at a time",
  "Get returns either an object that was passed to Put and has not been handed out since, or a fresh one from New as it is set at that moment (nil if New is nil and nothing is available); the same object is never held by two callers at once, also when the first uses of a pool are concurrent. Objects put back are available for reuse.",
  ["schedules", "histories"], "all sequences and interleavings of Get and Put on any number of goroutines, including the very first calls",
  "Pool has no tests.",
  [GS], [("lazily installed sync.Pool", GS+": getSyncPool")], ["objects returned by Get"])
p("C17", "Pipeline: every batch passes every receiver exactly once",
  "In a pipeline run that is neither cancelled nor failed, the concatenation of the batches in sequence order is exactly the source's data, sequence numbers are 0, 1, 2, ... without gaps or repetitions, and every receiver of every node is called exactly once for every batch, with the batch as returned by the preceding receiver, in the order in which the filters and nodes were added, whatever happens later to the slices in which the filters were passed.",
  ["programs", "inputs", "schedules", "configurations"], "all node sequences and filters, all sources and data sizes (including empty), all batch-size settings, all schedules",
  "The tests run one single-node parallel pipeline over a 20-word text.",
  [PIPE, SEQ, PARN, LPAR, STR, FILT], [("feed / FeedForward along the node list", FILT+", "+PIPE), ("node merging", PIPE+": Add, defaultRunWithContext")], ["receiver arguments and results"])
p("C18", "Pipeline: ordered nodes see encounter order, sequential nodes no overlap",
  "Receivers of ordered nodes (Ord, StrictOrd, Limit, Skip) are called in encounter order even when parallel or sequential nodes precede them, and the receivers of an ordered or sequential node are never active for two batches at the same time.",
  ["programs", "schedules"], "all node sequences, all schedules and processing speeds of the individual batches",
  "No test has an ordered or sequential node.",
  [SEQ, STR, PIPE], [("stash of early batches / strict admission", SEQ+": Begin, "+STR+": Feed")], ["start and end of receiver calls"])
p("C19", "Pipeline: parallel nodes process batches in parallel, LimitedPar at most NumCPU",
  "A Par node processes every batch it has been handed simultaneously, however many there are; a LimitedPar node processes as many batches simultaneously as there are CPUs and never more.",
  ["programs", "schedules", "configurations"], "any number of batches and CPUs, any neighbouring nodes",
  "No test observes how many batches are in progress.",
  [PARN, LPAR], [("goroutine per batch", PARN+": Feed"), ("limit worker goroutines", LPAR+": Begin")], ["receivers in progress at quiescence"])
p("C20", "Pipeline: a run always terminates",
  "Whatever the sequence of nodes and transforms, the batch sizes and the schedule, a pipeline over a finite source whose user functions all return runs to completion: no combination of parallel, limited parallel, sequential, ordered and strictly ordered stages can deadlock.",
  ["programs", "schedules", "configurations"], "all node and transform sequences, all orders in which concurrently processed batches finish, any number of CPUs including one",
  "Needs several interacting stages and an adverse finishing order; the tests have one stage.",
  [PIPE, SEQ, LPAR, STR, TRN], [("ordering of the nodes before a StrictOrd node", PIPE+": defaultRunWithContext"), ("condition-variable admission", STR+", "+LPAR)], ["progress at quiescence"])
p("C21", "Pipeline: finalizers run once, after the work, before Run returns",
  "In a run that is not failed by an error, every finalizer is called exactly once, after all calls of its node's receivers have returned, and Run returns only after all receivers and finalizers have returned. No finalizer is ever called more than once.",
  ["programs", "schedules", "fault_sequences"], "all node sequences with finalizers in any position, all schedules, runs with and without cancellation",
  "No test installs a finalizer or a slow receiver.",
  [PIPE, SEQ, PARN, LPAR, STR, TRN], [("End: close, wait, finalize", "pipeline/*node.go: End")], ["finalizer calls relative to receivers and to the return of Run"])
p("C22", "Pipeline: batch sizes follow NofBatches and SetVariableBatchSize",
  "For a source of known size s, a run makes at most NofBatches(n) batches, of at most ceil(s/n) elements each (with NumCPU as the default for n). For a source of unknown size, the k-th requested batch size is min(k*batchInc, maxBatchSize) with defaults 512 and 4096 for values below 1, so that no batch is ever larger than maxBatchSize; NofBatches returns the number in effect.",
  ["inputs", "configurations", "histories"], "all sizes, all batch settings including values below 1 and batchInc > maxBatchSize, all NumCPU",
  "The tests use default settings only, with 20 words.",
  [PIPE], [("batch size computation", PIPE+": defaultRunWithContext, NofBatches, SetVariableBatchSize")], ["sizes requested from the source", "sizes of the batches"])
p("C23", "Pipeline sources deliver exactly their data",
  "For every sequence of fetches, the slice, scanner, bytes-scanner, channel, multi-channel and function sources report exactly the number of elements in the batch they return, never more than requested (a channel source: one), the batches concatenate to the underlying data in order, 0 is reported only at the end of the data or on cancellation, and an error of the underlying reader or function becomes the source's error. Batches already returned do not change when more is fetched.",
  ["histories", "inputs"], "all contents, all sequences of fetch sizes (including 1), all split functions and reader behaviours (short reads, errors, over-long tokens), channels closed or cancelled at any point",
  "The tests read 20 words with the default batch size from a slice and a scanner.",
  [SRC], [("Prepare/Fetch/Data/Err of each source", SRC)], ["Fetch results and Data"])
p("C24", "Pipeline: the first error wins, is kept, and stops the pipeline",
  "Of all SetErr calls with a non-nil error, from any goroutine and at any time (also before, at the start or at the end of a run), exactly the first returns true; from then on Err returns that error for ever, and the pipeline's context is cancelled (a run started afterwards processes nothing). If the source reports an error and no earlier error was set, Err returns the source's error after the run; without any error Err returns nil.",
  ["schedules", "fault_sequences", "histories"], "any number of concurrent SetErr and Err calls at any point of the run, source errors at any batch, all node sequences",
  "No test sets or provokes an error.",
  [PIPE], [("mutex-protected error slot", PIPE+": SetErr, Err, defaultRunWithContext")], ["SetErr/Err results", "context state"])
p("C25", "Pipeline: cancellation is safe and effective at any point",
  "Cancelling a pipeline, by Cancel or SetErr during the run or by the caller's context at any time before or during it, lets the run return as soon as the user functions have returned; batches still in flight are dropped instead of being processed to the end of the data. Even then no receiver is called twice for one batch, and ordered nodes see a gap-free prefix of the encounter order.",
  ["schedules", "programs", "fault_sequences"], "all node sequences, every moment of cancellation relative to the progress of every batch, blocked channel sources",
  "No test cancels a pipeline.",
  [PIPE, SEQ, PARN, LPAR, STR, SRC], [("ctx.Done in every blocking operation", "pipeline/*node.go"), ("broadcast to waiting feeders on cancellation", STR+", "+LPAR)], ["termination at quiescence", "receiver calls"])
p("C26", "Pipeline result filters compute their documented result",
  "After a run, Every, NotEvery, Some and NotAny have stored the documented quantification of the predicate over all batches, also with cancelWhenKnown; Append has appended every batch contiguously and exactly once (in encounter order in ordered nodes); and Count has stored the total size of all batches it saw, whatever the result variable held before. This holds in every kind of node and every position of the pipeline.",
  ["programs", "inputs", "schedules"], "all node kinds, predicates, sources with known and unknown size, positions after other filters, schedules",
  "None of these filters is used in the tests.",
  [FILS], [("per-kind receivers and finalizers", FILS)], ["result variables after Run"])
p("C27", "Limit and Skip pass exactly the specified window",
  "Limit(n) passes on exactly the first n elements of its input in encounter order (all if n is negative), Skip(n) exactly all but the first n (nothing, with an error set, if n is negative), in any combination and position, for sources of known and unknown size, and the counts seen by later filters agree. Limit with cancelWhenReached cancels the pipeline only once all n elements have been reached, and never passes on anything else.",
  ["programs", "inputs", "schedules"], "all n relative to data and batch sizes, all stackings of Limit, Skip and other nodes, known and unknown sizes",
  "Neither is used in the tests.",
  [FILS], [("seen counters and size adjustment", FILS+": Limit, Skip")], ["data downstream of the node", "Count downstream of the node"])
p("C28", "Transform stages keep all pipeline guarantees across type changes",
  "Each transform function is called exactly once per batch with the batch's sequence number, and nodes on both sides of Transform, OrdTransform, SeqTransform, ParTransform, StrictOrdTransform and LimitedParTransform receive exactly the corresponding batches with the same exactly-once, ordering and finalizing guarantees as in a pipeline without transforms; ordered variants call the function in encounter order, sequential ones never concurrently, ParTransform possibly for several batches at once, and LimitedParTransform for at most runtime.NumCPU() at once. Filters after a transform see the sizes of the transformed data.",
  ["programs", "schedules", "inputs"], "all chains of transforms of all kinds, with any nodes before, between and after them, transforms that change batch sizes, all schedules",
  "No test uses a transform.",
  [TRN, PIPE], [("nested pipeline fed by the transform node", TRN)], ["transform calls", "receiver calls on both sides"])
p("C29", "Nodes without effect can be inserted anywhere",
  "Adding nodes that have nothing to do (no filters, Identity, Limit(-1), Skip(0), a Count that needs no batches) at any positions of a pipeline changes nothing about what all other receivers, finalizers and result variables see, nor the data size that other filters are told.",
  ["programs", "inputs", "schedules"], "all pipelines, all sets of insertion points and kinds of no-op nodes, including between nodes that can be merged",
  "No test has a node that is optimized away.",
  [PIPE, TRN, FILS], [("removal of empty nodes and merging after Begin", PIPE+": defaultRunWithContext, "+TRN+": Begin")], ["receiver calls", "result variables"])
p("C30", "Pipeline hand-off is race-free and batches are isolated",
  "Receivers may read, modify, shrink and extend (append to) the batch they are given without affecting any other batch; whatever a stage wrote is visible to the following stages and, after Run, to the caller, with no data race in any schedule.",
  ["schedules", "programs", "inputs"], "all node sequences, receivers that modify in place, cut and append, all sources, all schedules, runs with cancellation and errors",
  "The tests' receivers only read, and are not run under the race detector.",
  [PIPE, SEQ, PARN, LPAR, STR, SRC], [("channel and WaitGroup hand-off", "pipeline/*node.go"), ("sub-slicing of the source", SRC+": Slice.Fetch")], ["batch contents", "race detector"])
p("C31", "No goroutine outlives its operation",
  "Once an operation of any package has returned, the user functions it started have returned and (for a pipeline) its context has been cancelled, no goroutine created by the operation remains.",
  ["schedules", "programs", "fault_sequences"], "all operations of parallel, speculative, psort and pipeline, including runs with panics, errors and cancellation at any point",
  "No test counts goroutines.",
  [PAR, SPEC, SO, PIPE, SEQ, LPAR, STR], [("every goroutine is joined or selects on ctx.Done", "all packages")], ["goroutines alive at quiescence"])
p("C32", "Pipeline notifiers and context",
  "Every function installed by Notify is called exactly once, when the run starts, in its own goroutine, and never delays the run; they are called before the source is prepared, so that the run and the notifiers may wait for each other. Nothing runs and no notifier is called when an error was set before. Context returns the context of the run to notifiers and receivers, and the context is cancelled when Run returns. RunWithContext uses exactly the context and cancel function it was given, and Cancel calls that cancel function.",
  ["schedules", "programs"], "any number of notifiers, blocked notifiers, all node sequences and transforms",
  "No test uses Notify, Context or RunWithContext.",
  [PIPE], [("notifier goroutines", PIPE+": defaultRunWithContext"), ("Run/RunWithContext", PIPE)], ["notifier calls", "Context()"])

p("C33", "Results and data are published: no race inside the operations",
  "Functions given to the operations of packages parallel and speculative, and users of one gsync.Map or gsync.Pool, need no synchronisation of their own for what the operation connects: each function sees everything its caller wrote before the operation; a join sees everything the functions whose results it combines wrote; the caller sees, once the operation has returned or panicked, everything all its functions wrote (parallel, and speculative when nothing was decisive), or at least what the only decisive or panicking function wrote (speculative), also through the panic value; whoever gets a value from a Map or an object from a Pool sees everything its provider wrote to it before. None of these operations has a data race of its own in any schedule.",
  ["schedules", "inputs"], "all operations of parallel and speculative with any number of functions, decisive functions and panics; any concurrent mix of operations on one Map or Pool; any number of CPUs",
  "The tests are not run under the race detector, and a missing happens-before edge rarely shows as a wrong value on x86.",
  [PAR, SPEC, INT, GS], [("WaitGroup between each pair of goroutines", PAR+", "+SPEC), ("wrappers of sync.Map and sync.Pool, lazily installed", GS)], ["plain memory read by functions, joins, the caller and other goroutines", "race detector"])

p("C34", "psort: a panic of the collection reaches the caller",
  "If methods of the collection given to Sort, StableSort or IsSorted (Less, Swap, SequentialSort, NewTemp, Assign and the functions it returns) panic, the operation panics in the calling goroutine with one of these panics, after all other calls on the collection have returned; the process never crashes, and the operation does not return normally. A panic value that is an error stays identifiable with errors.Is, any other value stays readable. After a panic in Sort or IsSorted the collection is still a permutation of its elements.",
  ["inputs", "schedules", "fault_sequences"], "all lengths and orders, panics at any element, index, range or occurrence of any method, several panics at once, all kinds of panic values, any order in which the methods finish",
  "No test has a collection the methods of which panic.",
  [QS, MS, SO, PAR], [("parallel.Do recovers and rethrows", PAR), ("goroutine that allocates temporary memory", MS+": StableSort")], ["value recovered by the caller", "methods in progress at the return"])

p("C35", "Operations nest and run side by side without affecting each other",
  "Operations of every package may be called from the user functions of operations of every other package (and of their own), to any depth and by several goroutines at once, on any number of CPUs: each call has the result it has alone, nothing deadlocks, also when the functions of an operation wait for each other, a panic passes through all enclosing operations of parallel, speculative and psort to the outermost caller, and an error set in one pipeline neither stops nor fails any other one, unless its cancel function passes it on.",
  ["programs", "schedules", "configurations"], "all trees of operations (parallel, speculative, psort, pipeline, gsync) with kids called from any function, batch, receiver or sequential sort, with a panic anywhere outside pipelines and errors in any pipeline, any NumCPU and GOMAXPROCS",
  "The tests never call an operation from a function of another one, so state or resources shared between calls go unnoticed.",
  [PAR, SPEC, MS, PIPE, LPAR, STR, GS], [("all state is local to one call or one pipeline", "all packages")], ["return values and panics of the outermost operation", "progress"])

p("C36", "User-defined sources and nodes are driven by their protocol",
  "Sources and nodes implemented by user programs are used as the interfaces Source and Node document. Source: Prepare is called once per run, with the context of the pipeline and before anything else; methods are never called concurrently; Fetch is called with a positive size, never again once it has returned 0 or reported an error, and not after Run has returned; all batches fetched reach the first node, numbered from 0. Node: Begin is called once, in pipeline order, after Prepare and before the first Fetch, with the expected size as the nodes and filters before it left it (unknown behind a transform); a node that declined or was merged into another gets neither Feed nor End; every other node gets each batch exactly once, with its pipeline, its index and what the nodes before it forwarded, wherever FeedForward is called, then, when no error has stopped the run, End exactly once, after its last Feed and after the nodes before it have ended, before Run returns. ComposeFilters calls each filter once, in order, and returns the receivers and finalizers that are not nil in order. When a node stops the pipeline in Begin nothing is fetched.",
  ["programs", "schedules", "fault_sequences"], "all sequences of user-defined nodes (forwarding in the same or other goroutines, reordering, merging, declining, wrapping nodes of the library, changing the expected size) and library nodes, with transforms; sources of known and unknown size with short batches and errors at any point; errors and cancellation from Begin, Feed or receivers",
  "The tests define neither a source nor a node.",
  [PIPE, "pipeline/filter.go", "pipeline/source.go", "pipeline/transformnode.go", LPAR, STR], [("run loop", PIPE+": defaultRunWithContext"), ("forwarding", PIPE+": FeedForward"), ("filter composition", "pipeline/filter.go: ComposeFilters"), ("inner pipeline", "pipeline/transformnode.go: Begin, Feed, End")], ["calls of the methods of the source and the nodes", "data passed to them"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
