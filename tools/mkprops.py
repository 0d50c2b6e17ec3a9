#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to review and edit)."""
import json, os
DE = "static-xml/src/de/mod.rs"
SER = "static-xml/src/ser/mod.rs"
LIB = "static-xml/src/lib.rs"
DD = "static-xml-derive/src/deserialize.rs"
DS = "static-xml-derive/src/serialize.rs"
DC = "static-xml-derive/src/common.rs"
DP = "static-xml-derive/src/parse.rs"
DT = "static-xml-derive/src/to_text.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Reading does not depend on how the source delivers its bytes",
  "What reading a document returns (the value, or the error with its message and element stack) depends only on the document's bytes, never on how the source hands them over: chunk sizes, short reads, reads that report `Interrupted`, and pauses between chunks make no difference. "
  "In particular an interrupted read neither fails the operation nor loses, repeats or reorders a byte.",
  ["schedules", "inputs"], "every document (valid or not), every target type, every partition of the bytes into reads, every placement of interrupted reads",
  "All existing tests read from an in-memory slice that delivers everything at once and never interrupts.",
  [DE], [("read / Reader::new hand the caller's source to the event reader", DE), ("ErasedReader::next pulls one event at a time", DE)],
  observe=["static_xml::de::read"])

p("C02", "A truncated document is never accepted",
  "If the byte stream ends before the root element's end tag has been fully delivered, reading returns an error and never a value. "
  "This holds at every cut point and for every target, including targets that ignore, skip or only partly read the content that is missing, and targets whose own code swallows the error it is shown.",
  ["crash_points", "inputs"], "every cut offset of every document, every target type and visitor behaviour",
  "No test truncates a document; a handful of fixed complete documents are read.",
  [DE, DD], [("Reader::end skips to depth 0 and then requires EndDocument", DE), ("ErasedReader::return_to_depth", DE)],
  state=[("depth", "number of open elements", DE), ("stack", "names and positions of open elements", DE)],
  observe=["static_xml::de::read"])

p("C03", "A failing source surfaces as that failure and is never masked",
  "If the source reports an I/O error other than `Interrupted` at any point before end of input and reading has not already failed for another reason, reading returns an error whose `source()` chain contains a `std::io::Error` of the same kind and whose message contains that failure's own. "
  "No behaviour of the target's own code (ignoring children, swallowing errors, returning early with a value) turns it into success, and the source is not read again after it has failed.",
  ["fault_sequences", "crash_points"], "every byte offset at which the source fails, every error kind, every document and target behaviour",
  "No test has a source that fails.",
  [DE], [("Error::xml / ErrorKind::source expose the underlying io::Error", DE), ("return_to_depth and end re-poll the reader after user code returns", DE)],
  observe=["static_xml::de::read", "std::error::Error::source"])

p("C04", "A read error locates the failure in the document",
  "The element stack of a read error lists exactly the elements open at the point of failure, root first, each with its own name and the position of its start tag; an error that user code raises about an element (its attributes, its text, its missing or duplicate or unparsable content) includes that element as the last entry. "
  "The error's message shows that stack, and a position between the start of the innermost element and where reading had got to, and an error raised by user code is in its `source()` chain. "
  "This holds wherever the failure strikes: source I/O error, early end of input, malformed markup, or an error from user code, and also after user code has dropped, skipped or recovered from earlier siblings.",
  ["fault_sequences", "crash_points", "histories"], "every document, every failure point and kind, every history of earlier callbacks",
  "The tests never look at an error's stack or position.",
  [DE], [("stack grows with depth, shrinks late in return_to_depth so end-of-element errors see the element", DE), ("VisitorError::wrap", DE)],
  state=[("stack", "open elements", DE), ("depth", "shrinks before stack", DE)],
  observe=["static_xml::de::Error::stack"])

p("C05", "Children left unread or failed do not disturb their siblings",
  "While reading an element, each child handed to user code may be dropped unread, read only as text, read until an error or a panic that user code then swallows, or handed back; whatever it does, the reader resumes exactly at the next sibling. "
  "The parent then sees the same remaining attributes, children, text and end as if every child had been consumed in full, and the names, depths and namespaces reported for later elements are the right ones.",
  ["histories", "inputs"], "every document tree and every sequence of per-child decisions by user code, including errors and panics inside children that are swallowed",
  "The only test hint is a TODO ('test exercising return_to_depth'); no test drops, half-reads or recovers from a child.",
  [DE], [("ErasedReader::return_to_depth after each element callback", DE), ("Reader::end", DE)],
  state=[("depth/stack", "resynchronisation target", DE)], observe=["ElementVisitor callbacks", "ElementReader::name/depth/expanded_name/namespace"])

p("C06", "Values built while reading are dropped exactly once or handed over",
  "Every value that is constructed while reading into derived types is either part of the value returned to the caller or dropped exactly once by the time reading returns; nothing leaks, nothing is dropped twice, and nothing uninitialised is dropped or exposed. "
  "This holds when reading fails or unwinds at any point: source error, early end, malformed markup, missing or duplicate or unparsable field, an error or panic in user code, or a panic of the source.",
  ["fault_sequences", "crash_points", "inputs"], "every derived struct/enum shape, every document, every point and kind of failure including user panics",
  "The tests only exercise successful reads plus one duplicate-variant error and cannot see a leak or a double drop.",
  [DD, DE], [("per-field presence tracking in generated visitors", DD), ("RawDeserializeVisitor::new/finalize contract", DE), ("impl_deserialize_via_raw!", DE)],
  state=[("<field>_present / initialized", "which parts of the MaybeUninit output are live", DD)], observe=["Drop of field values", "allocation balance"])

p("C07", "Reading any input terminates in one pass without panicking",
  "For any byte sequence and any source behaviour, reading returns `Ok` or `Err` after a number of source reads bounded by a constant plus the number of bytes and interruptions, taking each byte once; it never panics, never hangs, and does not keep polling a source that has ended or failed. "
  "User code that only returns values or errors cannot break this. (The stack used grows only with the depth to which the target's own types recurse, not with content that is skipped.)",
  ["inputs", "fault_sequences", "histories"], "every byte sequence (damaged, truncated, garbage), every source fault, every non-panicking user-code behaviour",
  "The tests feed a few well-formed documents.",
  [DE, DD], [("event loop in ErasedReader::next, Reader::root, Reader::end", DE), ("depth bookkeeping assertions", DE)],
  observe=["static_xml::de::read", "reads issued to the source"])

p("C08", "Successful serialization means the sink got the whole document",
  "When serialization to a sink returns `Ok`, the bytes the sink has accepted are exactly the complete document, each byte once and in order, identical to what a well-behaved sink or `to_string` yields for the same value and options. "
  "Short writes, interrupted writes and pauses of the sink change nothing, and a sink that buffers has been flushed, so that a failure to deliver buffered bytes is reported rather than lost.",
  ["schedules", "fault_sequences", "inputs"], "every value and option set, every pattern of short and interrupted writes, direct and buffering sinks",
  "Tests serialize to a Vec or String only, which accepts everything at once.",
  [SER], [("WrappedWriter::write funnels every event to the sink", SER), ("Serializer::to", SER)],
  observe=["Serializer::to", "Serializer::to_string", "bytes accepted by the sink"])

p("C09", "A failing sink makes serialization fail and stops the output",
  "If any write to the sink fails (an error other than `Interrupted`, or a write that accepts nothing), serialization returns an error carrying that failure's message, even if user serialization code ignores the errors it is shown. "
  "After the failing write nothing more is written, and the bytes accepted up to then are a prefix of the document a well-behaved sink would have received.",
  ["fault_sequences", "crash_points"], "every byte offset and write call at which the sink fails, every error kind, every error-ignoring behaviour of user code",
  "No test has a sink that fails.",
  [SER], [("poison recorded on the first failed write; every later event refused", SER)],
  state=[("poison", "first failure; makes all later writes and the whole operation fail", SER)], observe=["Serializer::to", "writes issued to the sink"])

p("C10", "Serialization never succeeds after user code fails or abandons an element",
  "If, anywhere in the document, user code drops an element builder before starting it, drops an element writer before finishing it, or the code that serializes an element returns an error or panics, the whole serialization fails and can never return `Ok`, even when enclosing user code ignores that failure and carries on. "
  "Once this has happened nothing more is added to the sink, and a serialization in which it has not happened is not failed by it.",
  ["histories", "programs"], "every tree of builder/writer calls, every abandonment, error or panic point, every choice of enclosing code to ignore it",
  "Two tests each drop one builder/writer directly under the root; no nesting, recovery, error or panic is exercised.",
  [SER], [("Drop for ElementBuilder / ElementWriter poison the writer", SER), ("WrappedWriter::poison", SER)],
  state=[("poison", "set on abandonment", SER)], observe=["Serializer::to", "bytes accepted by the sink"])

p("C11", "Values survive a write, crash and re-read, or are rejected",
  "A value of derived types that is serialized, stored and read back through an imperfect source yields an equal value: all fields, list order, chosen variants, optional and defaulted fields, and text exactly as given, whatever namespaces and prefixes the types declare and whether or not output is indented. "
  "If the store was cut short by a crash or a full disk while writing, reading it back yields an error, never a different value. A value holding a variant that cannot be written is refused rather than silently dropped.",
  ["crash_points", "fault_sequences", "inputs"], "every derived type shape and value, every crash point of the store, every delivery of the re-read bytes",
  "One test round-trips one value through a String; none crosses a fault.",
  [SER, DE, DS, DD, DC, DP, DT], [("derived Serialize and Deserialize agree on names", DC), ("ToText/ParseText pairs", SER), ("namespace prefix assignment", SER)],
  observe=["serialize(..).to(sink) then de::read"])

p("C12", "Concurrent, nested and successive operations do not influence each other",
  "Any number of reads and serializations may be in progress at once, on any threads, interleaved at any point, nested inside one another's user callbacks, or following earlier operations that failed or panicked; each returns exactly the result it returns when run alone in a fresh thread. "
  "No operation waits for another.",
  ["schedules", "histories", "fault_sequences"], "every interleaving at I/O and callback boundaries of any set of operations, every nesting, every history of earlier failures on the same thread",
  "Tests run each operation alone to completion.",
  [DE, SER, LIB], [("all state is owned by the operation; no globals", DE), ("all state is owned by the operation; no globals", SER)],
  observe=["results and sink bytes of each operation"])

p("C13", "Every attribute, child and text run is offered once, in order",
  "While an element is read, user code is offered its attributes in document order, then its child elements and text in document order, each exactly once, with the right expanded names and values. "
  "In a derived struct, what no field claims is offered to the flattened fields in declaration order until one takes it; each flattened field sees everything that neither a field nor an earlier flattened field took, and nothing else, no matter what those have taken, passed on or failed on before.",
  ["histories", "inputs"], "every document, every sequence of take/pass/skip decisions by visitors and flattened fields",
  "One test flattens a single enum; none has several flattened fields or observes the order of offers.",
  [DE, DD], [("ElementReader::read_to", DE), ("delegate_attribute / delegate_element / delegate_characters", DE), ("generated fallthrough to flatten visitors", DD), ("enum visitor returns unclaimed children", DD)],
  observe=["ElementVisitor::attribute/element/characters", "RawDeserializeVisitor of flattened fields"])

p("C14", "A damaged or reshuffled document never yields anything it does not say",
  "Reading into derived types yields exactly what the bytes actually received say and nothing else: fields are matched by expanded name only (prefixes never matter), unknown content is ignored, optional/repeated/defaulted fields get none/the list in document order/the default when absent, and a missing mandatory field, a duplicate singular field, a second choice in an enum, or unparsable text is an error. "
  "This holds when elements or attributes are lost, duplicated or reordered on the way, or bytes are flipped, dropped, doubled or swapped: the outcome is the one those bytes denote.",
  ["fault_sequences", "inputs"], "every derived type shape, every document, every sequence of element-level and byte-level damage",
  "Tests read four fixed documents in one order.",
  [DE, DD, DC, LIB, DP], [("find() over name tables sorted at derive time", DD), ("DeserializeElementField init/update/missing", DE), ("DeserializeAttrField init/missing", DE), ("ExpandedNameRef::from_xml_name", LIB)],
  observe=["static_xml::de::read into derived types"])

p("C15", "The document written is the one the calls described",
  "Whatever sequence of builder and writer calls user code makes (namespace requests with any prefixes XML leaves to users, attributes, nested elements, text, all of characters XML can represent), on success the output is a well-formed document denoting exactly that tree: the same expanded element and attribute names with each namespace correctly declared in scope, the same attribute values, and the same text. "
  "The tree a value of derived types denotes has exactly the elements and attributes its declaration names. "
  "A rejected call (such as a repeated attribute) that user code recovers from leaves no trace, prefix clashes and reuse at any depth never change which namespace a name belongs to, and this holds under any sink behaviour.",
  ["histories", "programs", "fault_sequences"], "every tree of calls over every set of namespaces and prefix requests, with recovered errors and faulty sinks",
  "Four tests write documents at most two levels deep with one or two namespaces.",
  [SER], [("NamespacesBuilder::finalize / Namespaces::child prefix assignment", SER), ("ElementBuilder::attribute duplicate check", SER), ("resolve_element / resolve_attribute", SER)],
  state=[("by_url / by_prefix", "namespace mappings in scope", SER)], observe=["bytes accepted by the sink"])

p("C16", "Results do not depend on hash seeds, threads or the process",
  "Serializing the same value with the same options always produces the same bytes, with attributes in the order they were written, and reading the same bytes always gives the same result, whatever random keys the process's hash maps were seeded with, whichever thread runs the operation, however many operations ran before it, and whether or not a logger listens.",
  ["configurations", "histories"], "every seeding of the hash maps' random state, every thread, every number of preceding operations, with and without a logger",
  "Tests see whatever random keys the process drew and assert on documents with at most two attributes.",
  [SER, DE], [("seen_attributes is only used for membership; order comes from the Vec", SER)],
  state=[("seen_attributes", "HashMap with RandomState", SER)], observe=["bytes accepted by the sink", "static_xml::de::read"])

p("C17", "Whitespace normalization computes the XML Schema function",
  "For every string and mode, `normalize` returns the XML Schema whitespace-normalized string and valid UTF-8.",
  ["inputs"], "every string and mode",
  "One doc test with one string per mode.",
  [DE], [("normalize", DE)], observe=["static_xml::de::normalize"])

p("C18", "Built-in text types accept exactly their lexical space",
  "Parsing of each built-in text type accepts exactly the lexical forms it documents (with surrounding XML whitespace), and formatting then parsing any value is the identity.",
  ["inputs"], "every string and every value of bool, the integer and float types and String",
  "A few literals appear in tests.",
  [DE, SER], [("text_for_num!, ParseText for bool", DE), ("text_from_display!", SER)], observe=["ParseText::parse", "ToText::to_text"])

p("C19", "The derive macros reject what they cannot implement",
  "A type or attribute combination that the derive macros do not support is a compile error, never code with a different meaning.",
  ["programs"], "every item the derives can be applied to",
  "One compile-fail doc test.",
  [DC, DD, DS, DP, DT], [("Errors accumulator", DC)], observe=["rustc diagnostics"])

p("C20", "Content is shown as soon as it has been delivered",
  "Reading works on a source that delivers slowly (a pipe, a socket): user code is shown each attribute, child, end of an element and run of text as soon as the bytes which settle it have been delivered, without waiting for any that follow, and an error is returned without waiting for more than the bytes which settle it. "
  "Which bytes settle it is told by the event reader: those it needs for the event in question, and none of a later one.",
  ["schedules", "inputs", "fault_sequences"], "every document, every partition of its bytes into deliveries with waits between them, every target and user code, every failure point",
  "The tests read from memory, where nothing has to be waited for.",
  [DE], [("ErasedReader::next pulls one event at a time, none in advance", DE), ("return_to_depth is left until the next child is asked for", DE)],
  observe=["ElementVisitor callbacks against the bytes the source has delivered", "static_xml::de::read"])

p("C21", "Memory does not grow with passed content, and all of it comes back",
  "Reading and serializing are streaming: what an operation holds does not grow with the number of elements, attributes, comments and texts that have passed without being kept by the target (content that is skipped or unknown, children that user code has dropped or read), nor with the number of elements written. "
  "Once an operation is over, all the memory it took has been given back except for what it returned, also if it failed, was abandoned, or was unwound by a panic of user code, source or sink.",
  ["inputs", "histories", "fault_sequences"], "every document and every tree of builder calls, however long, every failure, abandonment and panic point",
  "The tests use short documents and do not look at memory.",
  [DE, SER, DD], [("stack shrinks to the depth returned to", DE), ("no event is kept once it has been shown", DE), ("each event is written to the sink at once", SER)],
  state=[("stack", "open elements only", DE), ("by_url / by_prefix", "mappings in scope only", SER)],
  observe=["bytes held from the global allocator during and after an operation"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
