#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code: the entries share structure)."""
import json
MF = "mockall_derive/src/mock_function.rs"
LIB = "mockall/src/lib.rs"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Call counts are exact under concurrent callers",
     "However many threads call a mock method or mocked static function at once, an expectation with an upper bound of N answers at most N calls: every further matching call goes to the next matching expectation or panics, and no call is lost or counted twice. The minimum is judged against the same exact count.",
     ["schedules", "inputs", "histories"],
     "every interleaving of calls from any number of threads, every form of times()/once()/never() and every list of overlapping expectations",
     "the tests call from one thread (or under an external mutex) with a handful of bounds; a lost or doubled count needs two callers inside the same expectation",
     [MF, LIB], [("Times::try_call: count and bound checked in one atomic step", LIB), ("Common::claim / Expectations::call choose and count together", MF)],
     [("Times.count", "calls answered so far", LIB)], ["returned value or panic of each call", "panic of the final drop or checkpoint"])
prop("C02", "Unmet expectations fail exactly at the end of life",
     "When a mock object, or a Context of a static function, is dropped, or its checkpoint is called, it panics if and only if some expectation was called fewer times than its minimum, and the panic says which. While the thread is already unwinding it never panics a second time; nothing is reported before the end of life and nothing goes unreported at it.",
     ["histories", "schedules", "crash_points", "fault_sequences"],
     "every history of calls before the drop, every thread that performs it, every point at which a panic starts the unwinding",
     "the tests verify single-method mocks on the test thread; combinations of several methods, drop on another thread, drop during a panic and partly satisfied lists are not sampled",
     [MF, "mockall_derive/src/mock_item_struct.rs", LIB], [("Drop of Common checks satisfaction unless panicking", MF), ("Drop of Context / ContextGuard checkpoint", MF)],
     [("Times.count vs range", "what is owed", LIB)], ["panic or silence of drop and checkpoint()"])
prop("C03", "First matching expectation that still accepts calls answers (FIFO)",
     "A call is answered by the earliest-built expectation of that method (and generic instantiation) whose matcher accepts the arguments and whose upper bound is not used up; expectations that do not match are passed over and left uncounted. With none left, the call panics and leaves every expectation as it was: as called too often if the method's only expectation matches but is used up, as having no matching expectation otherwise.",
     ["inputs", "histories", "schedules"],
     "every list of expectations with overlapping matchers and bounds, every history of calls, every interleaving of callers",
     "the tests have two or three expectations with disjoint or identical matchers and call them in order from one thread",
     [MF, LIB], [("Expectations::call walks the list in order", MF), ("Matcher::matches", MF), ("Times::try_call", LIB)],
     [("Expectations.0", "expectations in build order", MF)], ["which expectation's action ran", "class of the panic"])
prop("C04", "A Sequence admits its calls only in the order of construction",
     "Expectations of any mocks, methods and static functions put into one Sequence are answered strictly in the order they joined it: a call whose turn has not come panics and changes nothing, and a call whose turn has come is answered. This holds for callers on several threads and across checkpoints and drops of sequence members that are already satisfied; an expectation that is never to be called takes no turn.",
     ["schedules", "histories", "inputs"],
     "every assignment of expectations of several mocks to sequences, every order of calls and every interleaving of callers",
     "the tests have two-step sequences on one or two mocks called from one thread, in order or swapped",
     [LIB, MF], [("SeqHandle level and SeqInner lock", LIB), ("Times::try_call verifies the sequence before counting", LIB), ("Common::in_sequence requires an exact count", MF)],
     [("SeqInner.satisfaction_level", "whose turn it is", LIB)], ["returned value or sequence panic of each call"])
prop("C05", "Return actions run exactly once per answered call, with its arguments",
     "Each answered call runs the latest configured return action of the expectation that answered it exactly once, with exactly that call's arguments, and its caller gets exactly that result; an action that takes FnMut or FnOnce never runs concurrently with itself. A return_once action runs at most once ever, and a later call to it panics; a call without any action yields the default or panics.",
     ["schedules", "inputs", "histories"],
     "every kind of action (const, closure, once, static reference, mutable reference, _st, default), every override order, every interleaving of callers",
     "the tests call an action once or twice from one thread; running an FnMut concurrently, crossing the arguments of two callers or running a FnOnce twice needs concurrent callers",
     [MF], [("Rfunc::call_mut under the rfunc Mutex", MF), ("Rfunc::Once replaced by Expired", MF), ("ReturnDefault", LIB)],
     [("Common.rfunc", "the action", MF)], ["value received by each caller", "invocations seen by user closures"])
prop("C06", "Checkpoint verifies, forgets, and leaves a working mock",
     "A successful checkpoint of a mock object, Context or mocked module verifies every expectation of that object, function or module and forgets them: they answer no later call and are not verified again, and expectations built afterwards work as on a fresh mock. A failing checkpoint reports the unmet expectation, and does not disturb other objects, functions or instantiations.",
     ["histories", "schedules", "fault_sequences"],
     "every point in every history at which checkpoint is called, repeatedly, with sequences, several methods, generic instantiations and static functions, failing and succeeding",
     "the tests checkpoint one method once and then stop; what remains behind afterwards is hardly looked at",
     [MF, "mockall_derive/src/mock_item_struct.rs", "mockall_derive/src/mock_item.rs"],
     [("Expectations::checkpoint drains", MF), ("struct and module checkpoint() visit every method", "mockall_derive/src/mock_item_struct.rs")],
     [("Expectations.0", "expectations in build order", MF)], ["panic of checkpoint()", "outcome of later calls and drops"])
prop("C07", "Static expectations end with their Context, even after a panic",
     "Expectations on static functions, methods and module functions live exactly until their Context is dropped: after that, whatever happened (unmet expectations, a panicking test, a panicking user closure, a thread that died while calling), the next user of the function starts from a clean slate and is neither answered nor failed by leftovers. Nobody who did not cause a panic is harmed by it.",
     ["histories", "crash_points", "fault_sequences", "schedules"],
     "every succession of Contexts and calls, on one or several threads, with a panic at every point of the life of a Context or inside a user callback during a call",
     "one test file (clear_expectations_on_panic) tries two panics for one function; poisoning by user closures, by other threads and for generic functions is not sampled",
     [MF, "mockall_derive/src/mock_item.rs"], [("Context Drop clears and recovers from poison", MF), ("get_expectations static Mutex", MF)],
     [("EXPECTATIONS", "process-wide list per function", MF)], ["outcome of the first call and drop under the next Context"])
prop("C08", "Mocks, methods, traits and generic instantiations never interfere",
     "Building, calling, checkpointing or dropping expectations of one mock object, method, trait implementation, static function or generic instantiation never changes the answers, counts or verification of another one: same-named methods of different traits, different type parameters, several objects of one type and several functions of one module are all separate.",
     ["inputs", "histories", "schedules"],
     "every combination of objects, methods of several traits, and type-parameter instantiations used together in one history",
     "the tests use one instantiation or two at a time and never check that the other side's counters are untouched under interleaved use",
     [MF, LIB, "mockall_derive/src/mock_item_struct.rs"], [("GenericExpectations keyed by TypeId", MF), ("per-trait substructs", "mockall_derive/src/mock_item_struct.rs")],
     [("GenericExpectations.store", "instantiation -> expectations", MF)], ["outcome of operations on every other object and instantiation"])
prop("C09", "Single-threaded (_st) closures run and drop only on their own thread",
     "A closure or value given to a _st method (return_once_st, returning_st, return_const_st, withf_st) is never called or used on a thread other than the one that supplied it: a call from another thread panics, and has no other effect than that it may have been counted, so that the right thread can still use it. If the mock is destroyed on another thread the process is not aborted and the value is not touched there beyond that panic.",
     ["schedules", "crash_points", "fault_sequences"],
     "every thread that calls, checkpoints or drops the mock, with and without another panic in progress",
     "the tests try one wrong-thread call each; dropping on another thread, during unwinding, and continued use afterwards are not sampled",
     [LIB, MF], [("Fragile wrapper", LIB), ("Rfunc::MutSt/OnceSt and Matcher::FuncSt", MF)],
     [], ["thread ids recorded by closures", "process abort"])
prop("C10", "A panic in user code passes through and leaves the mock usable",
     "When user code called by a mock (a return closure, matcher, argument Debug or Clone of a constant) panics, the caller gets that very panic, and afterwards the mock object or static function behaves as its documentation says: no expectation, method, thread or later user (nor the same expectation) sees any effect except that the call may have been counted. The process never aborts.",
     ["crash_points", "fault_sequences", "schedules"],
     "a panic injected into any invocation of any user callback, in any history, with other threads in the middle of calls",
     "no test panics inside a matcher, Debug or Clone, and only one panics in a return closure; what happens to the mock afterwards is not looked at",
     [MF, LIB], [("Mutex poisoning of rfunc/matcher/EXPECTATIONS", MF)],
     [("Common.rfunc", "the action", MF), ("Common.matcher", "the matcher", MF)], ["payload of the panic", "outcome of all later operations"])
prop("C11", "Calls never deadlock; independent calls do not wait for each other",
     "Every mock operation finishes as long as the user's own closures do: no interleaving of calls, expectations, checkpoints and drops deadlocks, and a return closure may itself call other methods of the mock, other mocks and other static functions. While one return closure is stalled, calls of other objects, methods and functions, and calls of the same mock object's method that another expectation answers, still complete (a static function runs one call at a time).",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of callers, nested calls, and return closures stalled at any moment for as long as the run lasts",
     "the tests never stall a closure and never nest calls across mocks from several threads; a deadlock would need a particular interleaving",
     [MF, LIB], [("a mock object's method takes locks per expectation only; a static function has one Mutex", MF), ("per-expectation rfunc Mutex", MF)],
     [], ["completion of each operation within a bounded number of scheduler steps"])
prop("C12", "Every argument and returned value is delivered and dropped exactly once",
     "Every value that passes through a mock (arguments, returned values, constants and closures stored in expectations) reaches its owner intact and is dropped exactly once, at the latest when the mock, Context or checkpoint ends its expectation: none is duplicated, leaked, dropped early or left behind in a static, whatever panics, overrides or cancelled futures occur.",
     ["histories", "crash_points", "fault_sequences", "schedules"],
     "every history of calls, overrides, checkpoints, drops, panics in callbacks and cancelled futures",
     "the tests look at returned values only; leaks, double drops and values kept alive in statics are invisible to them",
     [MF, LIB, "mockall_derive/src/mock_item_struct.rs"], [("Rfunc owns closures and constants", MF), ("drain on checkpoint and Context drop", MF)],
     [], ["ledger of tagged values: created, seen by closures, received, dropped"])
prop("C13", "Async methods: one call per future, at one moment, cancellation safe",
     "Each future returned by a mocked async method makes exactly one call when it is polled to completion, resolves to that call's result in that poll, and a future dropped before its first poll of the body makes none and owes nothing; futures of several tasks and threads interleave like ordinary calls. For methods returning boxed or impl futures the call happens when the method is called.",
     ["schedules", "crash_points", "histories"],
     "every interleaving of creating, polling and dropping futures of several methods from several threads, with panics and cancellation",
     "the tests await one future at once with now_or_never or block_on; cancellation and interleaved futures are not sampled",
     [MF, "mockall_derive/src/lib.rs"], [("async methods generated as async fn around the call", "mockall_derive/src/mock_function.rs")],
     [], ["counter and outcome after each poll or drop"])
prop("C14", "Macro expansion is a function of the item alone",
     "Expanding #[automock], mock!, #[concretize] or #[double] on the same item always yields the same code or the same error message: it never depends on randomised hash seeds, on what was expanded before in the same compiler process, or on the time, process id, working directory or environment.",
     ["programs", "configurations", "histories"],
     "every item, every seed of the process's hash tables, every order and subset of other items expanded before, every environment",
     "the tests compile each item once per build and compare nothing; the changelog records this very bug (nondeterministic code for methods with several lifetimes)",
     ["mockall_derive/src/lib.rs", MF, "mockall_derive/src/automock.rs", "mockall_double/src/lib.rs"],
     [("HashMap/HashSet aliases with a fixed hasher", "mockall_derive/src/lib.rs"), ("ordered vectors of generics and lifetimes", MF)],
     [], ["token stream of the expansion"])
prop("C15", "Failure messages state the true call, counts and bounds",
     "Every panic raised by a mock names the method it is about; it shows the offending call's arguments, and the numbers in it (expected and actual number of calls) are those of the recorded history and the configured bounds.",
     ["inputs", "histories", "schedules"],
     "every argument value, bound form and history that ends in a no-match, too-many, too-few, sequence or missing-action failure",
     "the tests match the text of a few messages with one or two calls; that the numbers and arguments stay right for other histories is not sampled",
     [LIB, MF], [("Times::is_satisfied / too-many message", LIB), ("ArgPrinter", LIB), ("call_exprs formatting", MF)],
     [], ["text of each panic"])
prop("C16", "Concurrent use of mocks is linearizable to the sequential model",
     "Any concurrent history of operations on mock objects, static functions and sequences (building expectations, calling, checkpointing, dropping, opening and closing Contexts) gives each operation an outcome it could have had if the operations had happened one at a time, in an order consistent with real time. Faults (panics in callbacks, dying threads, cancelled futures) do not change that.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving and fault sequence of every workload over the catalogue of mocks",
     "the tests run on one thread; no schedule is controlled",
     [MF, LIB, "mockall_derive/src/mock_item_struct.rs", "mockall_derive/src/mock_item.rs"],
     [("Mutexes and atomics of Expectations, Times, Sequence and Context", MF)],
     [], ["complete recorded history against the reference model"])
prop("C17", "Generated mocks have the signature and visibility of the original",
     "A generated mock implements every method of the mocked item with the same name, parameters, generics, bounds, return type, attributes and visibility, so that it can be used wherever the original is.",
     ["programs"], "every supported trait, struct, module and foreign block",
     "each test fixes one item; the space of Rust items is not sampled",
     [MF, "mockall_derive/src/mock_item_struct.rs", "mockall_derive/src/mockable_struct.rs"], [("token generation", MF)])
prop("C18", "Predicates accept exactly the arguments they describe",
     "with() with a predicate (eq, ne, gt, in_iter, function, always, str, ...) accepts a call's arguments exactly if every predicate holds for its argument.",
     ["inputs"], "every predicate and every argument value",
     "the predicates crate is sampled on a few values",
     [LIB, MF], [("Matcher::Pred", MF)])
prop("C19", "#[double] imports the mock in tests and the original otherwise",
     "An import or type alias annotated with #[double] names the Mock... item when compiled for tests and the original otherwise.",
     ["programs", "configurations"], "every import form and build configuration",
     "each test fixes one import under cfg(test) only",
     ["mockall_double/src/lib.rs"], [("double", "mockall_double/src/lib.rs")])
prop("C20", "A mock is Send and Sync whenever its signatures allow it",
     "A mock object can be moved to or shared with another thread exactly if no argument, return or closure type forbids it, and _st variants are what non-Send values need.",
     ["programs"], "every mocked item",
     "a compile-time fact about each type; tests assert it for two structs",
     [MF], [("Send bounds of Rfunc and Matcher", MF)])
prop("C21", "Unsupported items are rejected with an explanation",
     "An item that the macros cannot mock gives a compile error that says why, never code that silently mocks something else.",
     ["programs"], "every item outside the supported language",
     "a few compile-fail items are unit tested",
     ["mockall_derive/src/lib.rs"], [("compile_error", "mockall_derive/src/lib.rs")])
with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")

TECH = "deterministic simulation with fault injection: seeded schedules, fault plans and workloads; recorded history checked against a sequential reference model (just-in-time linearization)"
NOTE = {
 "C01": "Sampled schedules: up to 5 threads, up to ~60 operations per run, 90 000 runs quick; sequentially consistent interleavings at atomics, locks and callbacks.",
 "C02": "As C01; ends of life on any thread, by drop, checkpoint, Context drop, and while unwinding from an injected or mock panic.",
 "C03": "As C01, with long lists of overlapping expectations.",
 "C04": "As C01, with up to 6 sequences over several mocks and static functions.",
 "C05": "As C01; every closure invocation and every received value is compared, and overlapping runs of one FnMut are reported.",
 "C06": "As C01, with frequent object, Context and module checkpoints, failing and succeeding.",
 "C07": "As C01, with several generations of Contexts per function, panics in callbacks, dying threads.",
 "C08": "As C01, over multi-trait, generic-method, generic-struct and module mocks, several objects per type.",
 "C09": "As C01, with _st actions and matchers, mocks handed to and destroyed on other threads, aborts detected by the parent process.",
 "C10": "As C01, with panics injected into each kind of user callback.",
 "C11": "As C01; deadlock is detected by the scheduler (no runnable thread), progress with a stalled closure within 200 000 steps. Calls into the same stalled expectation are allowed to wait.",
 "C12": "As C01; values carry ledger tags. A return value lost because verification panics inside a consuming call is tolerated (rustc #47949).",
 "C13": "As C01, with futures created, polled and dropped at generated moments. Bodies of mocked async methods have no await points, so a poll completes at once.",
 "C15": "As C01; messages are parsed for the name, arguments and numbers, in no particular wording beyond that.",
 "C16": "The union of all workloads and faults.",
}
checks = []
for p in P:
    if p["id"] in NOTE:
        checks.append({"property": p["id"], "quick_cmd": "./check.sh run " + p["id"], "thorough_cmd": "./check.sh run " + p["id"],
                       "technique": TECH, "level": "exploration", "level_note": NOTE[p["id"]] + " Trusts the simulator's runtime and the model; std and the OS thread locals run for real."})
    elif p["id"] == "C14":
        checks.append({"property": "C14", "quick_cmd": "./check.sh run C14", "thorough_cmd": "./check.sh run C14",
                       "technique": "deterministic simulation of the compiler process: seeded hash keys, clock, pid, environment and expansion history behind an interposed libc seam; expansions compared between worlds",
                       "level": "exploration",
                       "level_note": "Generated items, six worlds each; real rustc and macros. ASLR is not controlled, so an address-dependent expansion may not replay."})
NA = {
 "C17": "a compile-time fact about generated signatures: no schedule, clock, fault or shared state takes part",
 "C18": "a pure function of one argument value (and implemented by the predicates crate): nothing to schedule or to fail",
 "C19": "a pure compile-time choice by cfg(test); that the expansion is deterministic is part of C14",
 "C20": "decided by the compiler's auto traits, not by any execution",
 "C21": "a pure function of the item being expanded; that the messages are deterministic is part of C14",
}
json.dump({"version": 1, "setup_cmd": "./check.sh setup",
           "hooks": {"guard": "none", "enable": "no hooks in /repo: mockall is compiled unmodified with its atomic operations instrumented (-Zsanitizer=thread with our own runtime) and its futex waits, thread parking and randomness interposed", "source_commits": []},
           "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
           "notes": "KNOWN_FINDINGS lists the defects found and repaired. ./check.sh replay FILE reproduces a violation."},
          open("/verif/MANIFEST.json", "w"), indent=1)
