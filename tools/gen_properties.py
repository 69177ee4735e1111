#!/usr/bin/env python3
"""Source of properties.jsonl. Run: python3 /verif/tools/gen_properties.py"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mechanism],
        "observe_at": observe, "hook_needed": None}})

prop("C01", "Text rendering under a failing writer is fail-stop",
 "When a bag (borrowed, buffered, shared, a sequence or filled lazily) is rendered with Display or Debug into a writer that starts refusing at any byte, the render returns an error, the writer holds exactly the leading bytes of the complete rendering, and no further part of the value is offered to the writer after its refusal (the serde formatter's own bracketed failure note excepted). A later render of the same bag into a healthy writer gives the complete rendering, which is the captured value's own rendering.",
 ["fault_sequences","histories","inputs","configurations"],
 "every captured value and handle chain, every byte offset at which the writer can fail, both formatting traits, with and without inline strings",
 "the unit tests only format into Strings, which never fail; no test has a writer that errors part way, so error paths in the formatting visitors and sequences are never run",
 ["src/internal/fmt.rs","src/internal/sval/v2.rs","src/internal/serde/v1.rs","src/internal/owned.rs"],
 [("DebugVisitor/DisplayVisitor return fmt errors","src/internal/fmt.rs"),("FmtSeq over DebugList keeps the first error","src/internal/fmt.rs"),("structured values formatted through sval_fmt / serde_fmt","src/internal/sval/v2.rs, src/internal/serde/v1.rs")],
 ["Display::fmt and Debug::fmt result, bytes received by the writer"])

prop("C02", "sval streaming into a failing stream is fail-stop and well formed",
 "Streaming any bag through sval delivers the captured value's structure; if the receiving stream fails at any event, streaming returns an error, no further event is delivered after the failed one, and the events accepted before it are exactly the leading events of the complete stream. This holds equally for borrowed, buffered and shared bags, for sequences and for values captured from serde, and a later attempt on a healthy stream succeeds completely.",
 ["fault_sequences","histories","inputs","configurations"],
 "every captured value and handle chain, every event index at which the stream can fail",
 "tests stream only into infallible token recorders; the error arms of the sequence and bridging code never execute",
 ["src/internal/sval/v2.rs","src/internal/serde/v1.rs","src/internal/seq.rs"],
 [("Sval2Visitor maps stream errors","src/internal/sval/v2.rs"),("StreamVisitor records the first error and breaks the iteration","src/internal/sval/v2.rs")],
 ["sval::Value::stream / ValueRef::stream_ref result and the event log of the stream"])

prop("C03", "serde serialization into a failing serializer is fail-stop and well formed",
 "Serializing any bag through serde makes the calls that describe the captured value; if the serializer fails at any call, serialization returns an error, no further call is made after the failed one, and the calls accepted before it are exactly the leading calls of the complete serialization. This holds equally for borrowed, buffered and shared bags, for sequences and for values captured from sval, and a later attempt on a healthy serializer succeeds completely.",
 ["fault_sequences","histories","inputs","configurations"],
 "every captured value and handle chain, every call index at which the serializer can fail",
 "tests use serde_test / serde_json serializers that never fail, so no error returned by a serializer is ever propagated in a test",
 ["src/internal/serde/v1.rs","src/internal/sval/v2.rs","src/internal/seq.rs"],
 [("Serde1Visitor result bookkeeping","src/internal/serde/v1.rs"),("serialize_seq records the first element error and breaks","src/internal/serde/v1.rs")],
 ["Serialize::serialize result and the call log of the serializer"])

prop("C04", "A visitor is called once and its verdict is the result",
 "Visiting a bag whose source is healthy calls the visitor exactly once, with the method and value that describe the content (the catch-all method for anything that is not a primitive or an error), and returns exactly what the visitor returned: its success, or its own error. This is the same however the value was captured (directly, by sval, by serde, lazily), buffered or shared, and a failure of one visit leaves later visits unaffected.",
 ["fault_sequences","histories","inputs"],
 "every captured value and handle chain, visitors that fail or succeed at each method, repeated visits",
 "tests only use visitors that succeed, and only on directly captured values and a few structured ones",
 ["src/visit.rs","src/internal/sval/v2.rs","src/internal/serde/v1.rs"],
 [("Visitor adapter dispatch","src/visit.rs"),("internal_visit of sval and serde primitives","src/internal/sval/v2.rs, src/internal/serde/v1.rs")],
 ["ValueBag::visit result and the visitor's call log"])

prop("C05", "A failing source is reported to whoever inspects it",
 "If the code behind a bag (a Debug, Display, error, sval, serde or lazy-fill implementation, alone or as a sequence element) reports failure at any point while the bag is being formatted, streamed or serialized, that inspection returns an error with only a leading part of the healthy output delivered (text rendered from a serde source shows a bracketed failure note in place of the failing part instead), and it neither panics nor completes as if the value were whole. Casts and sequence extraction of such a bag never produce a partial or altered value, and once the source recovers the same bag inspects completely.",
 ["fault_sequences","histories","inputs"],
 "every kind of source, every point at which it can fail, every consumer, failure transient or lasting",
 "tests have only one failing Display (buffered inline) and one failing structured value; failure part way through, inside a sequence or across a framework bridge is never exercised",
 ["src/internal/fmt.rs","src/internal/sval/v2.rs","src/internal/serde/v1.rs","src/fill.rs","src/internal/cast/mod.rs","src/internal/seq.rs"],
 [("InternalVisitor methods return Result","src/internal/mod.rs"),("Fill returns the slot's result","src/fill.rs")],
 ["results and partial output of fmt / sval / serde / casts / sequence extraction"])

prop("C06", "A source that fails while being buffered is marked failed, for good",
 "Buffering a bag whose source reports failure never panics and never yields a value that looks like data: the buffered bag (or just the failing element, when it is inside a sequence, or the failing link, in an error chain) is marked failed, renders as a bracketed `<...>` marker, casts to nothing, is not empty, and, when the source was structured or a fill that failed itself, refuses sval, serde and visit with an error. The mark survives clone, re-buffering, sharing and moving to other threads, siblings in the sequence are intact, and buffering again after the source recovers yields the complete value.",
 ["fault_sequences","histories","configurations","inputs"],
 "every kind of source and every point of failure, transient and lasting failures, every chain of handles derived afterwards, builds with and without inline strings",
 "one test covers one failing structured value; failing formatters are only tested in one build configuration and on the inline buffer itself; nothing tests failing lazy fills, errors, or elements",
 ["src/internal/owned.rs","src/owned.rs","src/internal/fmt.rs","src/internal/error.rs","src/internal/seq.rs"],
 [("Poisoned variant","src/internal/owned.rs"),("formatting-failure marker","src/internal/owned.rs inline_str::buffer")],
 ["to_owned/to_shared, then every inspection of the result"],
 [("Poisoned","the value failed to buffer","src/internal/owned.rs")])

prop("C07", "Buffering is one consistent snapshot of the source",
 "Buffering a borrowed bag evaluates its source exactly once, and from then on the buffered bag and everything derived from it shows the value of that one evaluation, no matter how the source is later changed, dropped or its memory reused, and no matter which thread looks. Cloning, re-buffering, sharing and inspecting a buffered bag never evaluate the source again.",
 ["schedules","histories","inputs","configurations"],
 "every kind of borrowed source, every interleaving of mutators with buffering and inspection at the source's callbacks, sink callbacks and allocations",
 "tests buffer immutable values on one thread; no source changes after buffering and evaluation counts are never observed",
 ["src/owned.rs","src/internal/owned.rs","src/internal/fmt.rs","src/internal/error.rs","src/internal/seq.rs"],
 [("OwnedVisitor copies content into OwnedInternal","src/internal/owned.rs"),("inline and spilled text buffer","src/internal/owned.rs inline_str")],
 ["values read back from buffered bags, evaluation counts of the source"])

prop("C08", "A shared capture is shared, live, and dropped exactly once",
 "A value captured as shared is stored once: cloning, borrowing, buffering or sharing its bag never copies or evaluates the value, every handle reads the live value and (sequences apart) can downcast to it, and the value is dropped exactly once, not before the last handle on any thread is gone and no later than that. Memory allocated for bags is fully released when the bags are gone.",
 ["schedules","histories","inputs"],
 "every shared capture kind, every history of clone / borrow / buffer / share / drop over several threads, in every interleaving at callbacks and allocations",
 "tests clone a shared value at most once on one thread and never observe drops, evaluation counts or memory",
 ["src/owned.rs","src/internal/owned.rs","src/internal/mod.rs","src/internal/cast/mod.rs"],
 [("Arc in the Shared* variants","src/internal/mod.rs, src/internal/owned.rs"),("shared_* visitor methods clone the Arc","src/internal/owned.rs")],
 ["drop and evaluation counters of the captured value, downcast identity, allocator balance"])

prop("C09", "Concurrent and re-entrant inspections do not interfere",
 "Any number of threads inspecting, cloning, buffering and dropping handles of the same or different bags, interleaved at arbitrary points, and inspections started from inside another inspection's callbacks, each get the result they would get alone, and all of them finish. No inspection sees text, structure or state belonging to another.",
 ["schedules","histories","inputs"],
 "every interleaving of 2-4 threads at user callbacks, sink calls, allocations, branches and memory accesses of the library, nesting of inspections inside callbacks",
 "the test suite never inspects bags from two threads or from within a callback",
 ["src/owned.rs","src/internal/owned.rs","src/internal/fmt.rs","src/internal/cast/mod.rs","src/internal/sval/v2.rs","src/internal/serde/v1.rs","src/visit.rs"],
 [("inspections keep all state on their own stack","src/internal/*"),("OwnedValueBag is Send + Sync with immutable content","src/owned.rs")],
 ["results of all inspections compared with the sequential model"])

prop("C10", "A panic in user code is contained to its own operation",
 "If user code behind a bag (its formatting, streaming, serializing, filling or element access), or the consumer of a bag (writer, stream, serializer, visitor, collection), panics at any point, the panic reaches the caller and every other handle still shows its value, the same bag inspects and buffers normally afterwards, captured values are still dropped exactly once, and no memory is lost or released twice.",
 ["fault_sequences","schedules","histories","inputs"],
 "every callback at which a panic can start, every operation, other threads interleaved",
 "no test panics inside a callback",
 ["src/internal/owned.rs","src/internal/fmt.rs","src/internal/seq.rs","src/internal/serde/v1.rs","src/internal/sval/v2.rs","src/internal/cast/mod.rs"],
 [("all intermediate state is owned by the operation and dropped on unwind","src/internal/*")],
 ["results after the panic, drop counters, allocator balance"])

prop("C11", "Allocation failure inside an operation is contained",
 "If any single memory allocation made while capturing, buffering, sharing, cloning or inspecting a bag fails and the failure unwinds, no handle is corrupted: existing bags still show their values, captured values are dropped exactly once, no memory is lost or released twice, repeating the operation succeeds with the complete value, and an operation that returns normally in spite of the failure has the same result as without it or reports an error.",
 ["fault_sequences","histories","inputs","configurations"],
 "every allocation index of every operation",
 "no test fails an allocation",
 ["src/internal/owned.rs","src/owned.rs","src/internal/fmt.rs","src/internal/seq.rs","src/internal/error.rs","src/internal/cast/mod.rs"],
 [("values are moved into place only after they are complete","src/internal/owned.rs")],
 ["results after the failure, drop counters, allocator balance"])

prop("C12", "Text arrives whole however it is fragmented",
 "However a source delivers its text (any number of pieces of any size including empty ones, borrowed or temporary, through formatting or through sval), every consumer gets exactly the concatenation: rendering, sval, serde, string casts, sequence-of-string extraction, and buffered or shared copies, whatever the total length in bytes relative to any internal buffer size and wherever multi-byte characters fall.",
 ["schedules","inputs","configurations"],
 "every way to cut a text into delivered pieces, lengths around every inline-buffer limit, each build configuration",
 "tests deliver text in one or two pieces and only with lengths far away from the inline limits",
 ["src/internal/owned.rs","src/internal/fmt.rs","src/internal/sval/v2.rs","src/internal/cast/mod.rs"],
 [("Buffer::write_str spills across pieces","src/internal/owned.rs inline_str"),("TextBuf collects sval fragments","src/internal/sval/v2.rs"),("64 byte staging buffer shrunk to the inline size","src/internal/fmt.rs buffer_inline")],
 ["text obtained through each consumer"])

prop("C13", "Sequence extraction gives one slot per element, in order",
 "Extracting a typed collection from a sequence gives exactly one slot per element, in order: the converted element where it converts on its own, otherwise empty (NaN for the lenient float form), and nested collections take one empty slot whatever their depth. An element whose source fails yields an empty slot or makes the whole extraction yield nothing, never a missing, extra, shifted or altered slot, and the same results hold for borrowed, buffered and shared sequences from any framework, except that borrowed strings may become unavailable after buffering.",
 ["fault_sequences","inputs","histories"],
 "sequences of any length, nesting and mixture of element kinds from slices, sval and serde, failing elements at any position, every extraction method, every handle chain",
 "tests extract short homogeneous sequences and one sequence nested one level deep, never with failing elements",
 ["src/internal/seq.rs","src/internal/sval/v2.rs","src/internal/serde/v1.rs"],
 [("ExtendVisitor / ExtendPrimitive","src/internal/seq.rs"),("Root stream depth tracking","src/internal/sval/v2.rs"),("Seq serializer","src/internal/serde/v1.rs")],
 ["to_*_seq / as_f64_seq results"])

prop("C14", "Handles keep denoting the captured value through any history",
 "Through any history of borrowing, cloning, buffering, sharing and moving between threads, a bag keeps the value it was captured with: the same rendering, the same sval and serde structure, the same primitive casts, emptiness, and for errors the same message and chain of causes still retrievable as an error. Only the documented differences of buffered bags (formatting flags, integer width, borrowed-string availability, debug form of errors, downcasting) may appear.",
 ["histories","schedules","inputs","configurations"],
 "every kind of captured value, histories of up to 16 handle operations (now and then twelve times that) over up to 3 threads in any interleaving",
 "tests apply at most one buffering step to a handful of values, and check the variant rather than the behaviour",
 ["src/lib.rs","src/owned.rs","src/internal/mod.rs","src/internal/owned.rs","src/internal/error.rs","src/internal/seq.rs","src/internal/cast/mod.rs"],
 [("by_ref / to_owned / into_shared variant mapping","src/internal/mod.rs, src/internal/owned.rs"),("visitor forwarding","src/internal/mod.rs")],
 ["every inspection of every handle compared with the model value"])

prop("C15", "A borrowed bag is lazy and live",
 "Capturing a value by reference, and borrowing, cloning or dropping the bag, never runs the code behind the value. Every inspection runs it anew, no more than once for each place the value is held in, and shows the value as it is at that moment: a change of the source between two inspections, made by the same thread, another thread or from within a callback, shows in the later one, in whatever way either of them looks and however many inspections (complete, failed or cut short) came before. Inspecting a bag runs the code of the values it holds and of no other.",
 ["schedules","histories","fault_sequences","inputs"],
 "every kind of borrowed source, alone, as an element or behind a lazy fill; every interleaving of changes to sources with captures, clones and inspections at callbacks, sink calls and allocations",
 "tests inspect values that never change, mostly once, so nothing would notice a result kept from an earlier inspection or work done too early",
 ["src/lib.rs","src/fill.rs","src/internal/mod.rs","src/internal/fmt.rs","src/internal/seq.rs","src/internal/cast/mod.rs","src/internal/sval/v2.rs","src/internal/serde/v1.rs"],
 [("by_ref and clone copy the reference only","src/internal/mod.rs"),("each inspection visits the source through internal_visit","src/internal/mod.rs"),("Fill is called per inspection","src/fill.rs")],
 ["results of every inspection compared with the source's state at that moment; evaluations of every source per operation"])

prop("C16", "What an inspection lends out stays valid and unchanged",
 "What an inspection lends out for the lifetime of the captured value (a borrowed string from a conversion, visitor, stream or extracted sequence, an error with its causes) is the captured data itself: it is available whenever the bag holds such a value directly or borrows one that streams a borrowed string through sval, and it reads the same for as long as the lender lives, whatever happens meanwhile to the bag it was obtained through, to its clones and copies, on other threads, or to memory released by them. What is owned by the bag itself (shared captures) is never lent beyond the bag, and a captured value reached by downcasting is the one that was captured, alive, for as long as the bag it was reached through is.",
 ["histories","schedules","inputs","configurations"],
 "every value that can be lent, every way of obtaining it through every handle chain, any history of drops, clones, buffering and memory reuse over up to 3 threads between lending and use",
 "tests compare lent strings at once and drop nothing in between, so a loan that dangles or moves is never read",
 ["src/lib.rs","src/visit.rs","src/internal/seq.rs","src/internal/cast/mod.rs","src/internal/cast/primitive.rs","src/internal/error.rs","src/internal/owned.rs","src/internal/sval/v2.rs"],
 [("SeqSlice extends element lifetimes to the captured slice","src/internal/seq.rs"),("to_borrowed_str / to_borrowed_error / downcast_ref","src/internal/cast/mod.rs, src/internal/error.rs"),("visit_borrowed_str and visit_borrowed_error","src/visit.rs")],
 ["content of every lent reference re-read later, validity of the lender's memory, availability of loans"])

prop("C20", "Primitive conversions are lossless",
 "Converting a bag holding a primitive to a numeric, boolean, character or string type yields the value exactly when the target can represent it and nothing otherwise; the lenient float form follows `as` conversion and is NaN for non-numbers.",
 ["inputs"], "every primitive value and target type",
 "tests convert a few sample values", ["src/internal/cast/mod.rs","src/impls.rs"],
 [("Cast conversions","src/internal/cast/mod.rs")], ["to_* / TryFrom results"])
prop("C21", "Capturing recognises primitives by type",
 "Capturing a value whose static type is a supported primitive (or an optional one) yields the same bag as the direct constructor for that primitive, and never misreads one type as another.",
 ["inputs"], "every supported type and value", "tests capture a few sample values per type",
 ["src/internal/cast/primitive.rs","src/impls.rs"], [("TypeId dispatch","src/internal/cast/primitive.rs")], ["bags from try_capture and capture_*"])
prop("C22", "Formatting flags reach the captured value",
 "Rendering a bag that borrows its value with width, precision or alternate flags renders the captured value with those flags.",
 ["inputs"], "every flag combination and captured value", "a few flags are tested",
 ["src/internal/fmt.rs"], [("the caller's Formatter is passed through","src/internal/fmt.rs")], ["formatted text"])
prop("C23", "Bags stay small and owned bags are Send and Sync",
 "The size of bag types stays within the documented limits in every build configuration, and owned bags may be sent and shared between threads.",
 ["configurations"], "every feature combination", "tests check the sizes in the configurations they are built in",
 ["src/lib.rs","src/owned.rs"], [("enum layout, auto traits","src/internal/mod.rs, src/internal/owned.rs")], ["size_of, trait bounds"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
