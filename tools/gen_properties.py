#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

p("C01", "File loading does not depend on how the file's bytes are delivered",
  "Loading a template from a file gives exactly the result of parsing the file's complete content from memory: an equal template, or a rejection for the same reason. "
  "This holds for every way the operating system delivers the bytes - any read sizes, interrupted reads, read boundaries inside multi-byte characters, empty files and files of any length - and whatever other loads are in progress at the same time.",
  ["inputs", "fault_sequences", "schedules"],
  "every file content, every splitting of it into reads, every placement of interrupted reads, every interleaving of concurrent loads",
  "No existing test calls the file loader at all; real files deliver small contents in one read, so short reads, EINTR and read boundaries inside characters never occur in tests.",
  ["src/template.rs"],
  [("chunked read loop with UTF-8 decoding", "src/template.rs Template::from_file"), ("in-memory parsing", "src/template.rs Template::from_str")],
  ["Result of Template::from_file compared with Template::from_str on the bytes delivered"])

p("C02", "Storage faults while loading are reported faithfully and leave nothing behind",
  "When a file cannot be opened, a read fails, its bytes are not UTF-8 or its text is not acceptable, loading returns an error that names the file, identifies the failing stage and carries the underlying cause; it never returns a template made from a part of the file, never panics and never hangs. "
  "Every file handle the load opened is released whatever the outcome, and once the fault is gone the same load succeeds.",
  ["fault_sequences", "inputs", "schedules"],
  "every open/read error code, at every position of the file, for every content (including invalid UTF-8 and a file cut off at any byte), with other loads in flight",
  "The existing tests never load a file and cannot make open or read fail at a chosen point; none looks at file handles or at recovery.",
  ["src/template.rs"],
  [("error mapping of open, read, decode and input failures", "src/template.rs Template::from_file"), ("error kinds, cause and display", "src/template.rs FileError, InputError")],
  ["FileError returned", "open/close calls seen by the simulated disk"])

p("C03", "Input length and nesting depth limits are exact and protect the loader",
  "A configured input length limit accepts input of exactly that many bytes and rejects any longer input with an error naming the limit, for strings as for files, and loading a file that never ends or keeps growing stops after reading a bounded amount beyond the limit. "
  "A configured depth limit accepts elements nested exactly that deep and rejects the first element that would be nested deeper, naming it, its location and the limit; without configured limits neither size nor depth is ever a reason for rejection.",
  ["inputs", "configurations", "fault_sequences"],
  "every document, every pair of limits around its length and depth, every delivery of the file including endless ones",
  "Tests try one length limit on a five byte string and one depth limit on one document; endless files, byte-versus-character counting, limits at read boundaries and exact boundaries are not reached.",
  ["src/template.rs", "src/parse.rs"],
  [("length check while reading and before parsing", "src/template.rs from_file, from_str"), ("stack depth check", "src/parse.rs Iter::next")],
  ["Result of Template::from_str/from_file", "bytes served by the simulated disk"])

p("C04", "Damaged documents are never misread: rejected with a correct location",
  "Parsing any text, including documents truncated, torn, overwritten or corrupted at any point, always terminates without panicking and either rejects it or returns a template that represents the whole text; a document is accepted exactly if every construct in it is complete and every non-void element is closed by a matching (case-insensitive) closing tag in proper nesting order. "
  "A rejection describes the first problem and points at it: line, column and byte offset agree with each other and with the text, and the tags and attributes named in the error and its message are the ones at that place.",
  ["inputs", "crash_points", "fault_sequences"],
  "every text; in particular every valid document cut at any byte, with any block lost, duplicated, swapped or bit-flipped",
  "Tests parse about forty hand-written snippets; they do not explore damage at arbitrary positions, never compare messages with the input and never check that the reported locations are right in longer documents.",
  ["src/parse.rs", "src/input.rs", "src/location.rs", "src/text/identifier.rs"],
  [("event parser and element stack", "src/parse.rs Iter, parse_data_mode, parse_raw_data"), ("location tracking", "src/location.rs Location::with_consumed"), ("error display", "src/parse.rs Error")],
  ["Result of Template::from_str", "Display of the error"])

p("C05", "Saving and reloading a document preserves it completely",
  "Rendering a parsed document keeps every piece of text, raw text, comment, attribute name and value and the element structure in order and verbatim (only tag spelling around them is normalized), and parsing the rendered text again, directly or after storing it in a file, yields an equal template whose rendering is byte-identical. "
  "This also holds across any number of save/load generations, with interrupted saves retried, and for loads delivered in arbitrary pieces.",
  ["inputs", "histories", "fault_sequences"],
  "every accepted document; every sequence of save and load steps; every delivery of the stored bytes",
  "Three tests round-trip tiny snippets; whitespace in values, raw text, mixed-case tags, odd spacing inside tags, comments, doctypes and long documents over several generations are not covered.",
  ["src/event.rs", "src/parse.rs", "src/template.rs"],
  [("rendering of events", "src/event.rs Display for Event, Attributes, Attribute"), ("parsing", "src/parse.rs")],
  ["format!(\"{}\", template), template equality after reload"])

p("C06", "Rendering into a failing or slow sink is an exact prefix and is retryable",
  "Rendering a template writes the same bytes every time, whatever the sizes and interruptions of the writes the sink accepts and whatever else happens between them. "
  "If the sink reports a failure the rendering stops there and reports failure, what was written is an exact prefix of the full rendering with nothing after the failure, and a later rendering of the same template is complete and unchanged.",
  ["fault_sequences", "schedules", "inputs"],
  "every template, every failing write position, every short-write and interrupt pattern, every interleaving with other clients",
  "Tests only render into strings, which never fail, never accept partially and never interleave.",
  ["src/template.rs", "src/event.rs"],
  [("Display implementations propagating write errors", "src/template.rs Display for Template; src/event.rs Display")],
  ["bytes received by the sink, Result of write!"])

p("C07", "What a transform does not select passes through untouched and in order",
  "For every document and every transform, every node outside the selected elements appears in the result exactly once, in the original order, with its text, tag spelling, attributes and nesting unchanged; a transform whose selectors match nothing, whose condition is false or that does nothing yields an equal template. "
  "This holds whatever the selected parts are turned into, including content streams that stall between events and transforms that run interleaved.",
  ["inputs", "programs", "schedules", "fault_sequences"],
  "every document, every composition of transforms, every stall pattern of inserted content and interleaving of clients",
  "Tests check one operation at a time on one-line documents; conservation has to hold for every composition, nesting depth and document.",
  ["src/modifier/select/mod.rs", "src/modifier/select/element.rs", "src/modifier/mod.rs", "src/template.rs"],
  [("scanning and passthrough states", "src/modifier/select/mod.rs Select, SelectOnce"), ("single element boundary", "src/modifier/select/element.rs SingleElement")],
  ["rendered result and event sequence"])

p("C08", "Selectors reach exactly the matching elements, each once, in document order",
  "A selection calls its builder exactly once for every element that matches and lies in scope, in document order, and for nothing else: any-depth selection finds matches at every depth but not inside an already selected element or in its replacement, direct selection only elements at the top of the current scope, a once-variant only the first match, and sub-selections only proper descendants of the current element. "
  "Tag, id, class and combined selectors match case-insensitively on the element's tag, id and whitespace separated classes, for opened, self-closed and void elements alike; an invalid selector is an error and never a non-match.",
  ["inputs", "programs", "schedules"],
  "every document, every selector, every nesting of selections, stalls and interleavings",
  "Tests use a handful of fixed two or three level documents with one selection each; nested same-tag elements, repeated classes, chains of selections over generated content and interleavings are not covered.",
  ["src/select.rs", "src/modifier/select/mod.rs", "src/modifier/select/select_contents.rs", "src/modifier/select/subselect_any.rs", "src/modifier/select/subselect_direct.rs", "src/event.rs"],
  [("level tracking", "src/modifier/mod.rs Level"), ("selector matching", "src/select.rs Selector impls; src/event.rs has_class, has_id"), ("scope restriction", "src/modifier/select/mod.rs Restrict")],
  ["order and number of builder calls", "rendered result"])

p("C09", "Content and structure operations put content exactly where documented",
  "Remove, prepend, append and replace, for whole streams as for the contents of the current element, put the inserted content completely, in order and once at the documented place and drop exactly the documented part, leaving the rest of the element as it was. "
  "Content operations on a self-closed element open it, void elements keep having no content (their inserted content is not used), and inserted content may be text, numbers, values, templates, results or streams of any length that stall between events, without affecting the outcome.",
  ["inputs", "programs", "fault_sequences"],
  "every element shape, every operation, every kind and size of content, every stall pattern, every chain of operations",
  "Each operation is tested in isolation with one short content; chains on the same element, empty content, nested same-tag elements, void and self-closed elements in chains and stalling content are not.",
  ["src/modifier/remove.rs", "src/modifier/prepend.rs", "src/modifier/append.rs", "src/modifier/replace.rs", "src/modifier/mod.rs", "src/modifier/select/select_contents.rs", "src/content.rs"],
  [("stream combination and expansion", "src/modifier/mod.rs Combine, Expand, Peek"), ("content scope", "src/modifier/select/select_contents.rs")],
  ["rendered result and event sequence"])

p("C10", "Attribute operations change exactly the named attribute of the element",
  "Every attribute operation affects only the element it is applied to and only attributes of the given name (case-insensitively): add appends one, add-to extends the existing value with the separator or creates it, replace changes it only where it exists, set leaves exactly one with the new value, remove leaves none, and the class and id shorthands behave as the documented attribute edits on class and id. "
  "All other attributes keep their spelling, value and relative order and the element's content is untouched, for any chain of operations on opened, self-closed and void elements, and for operations that run interleaved on shared values; an invalid name is an error.",
  ["inputs", "programs", "schedules"],
  "every attribute list including duplicates, empty values and mixed case, every chain of operations, every interleaving over shared values",
  "Tests apply one operation to an element with zero to two attributes; chains, duplicates, letter case, ordering of untouched attributes and shared values are not covered.",
  ["src/event.rs", "src/modifier/attribute.rs", "src/transform.rs", "src/text/value.rs"],
  [("attribute list edits", "src/event.rs Attributes"), ("application to the element's first event", "src/modifier/attribute.rs attribute_step")],
  ["rendered result and event sequence"])

p("C11", "Repetition yields one independent copy per item, in order, exactly once",
  "Repeating a stream or an element's contents takes every item of the iterator exactly once and emits, in item order, one copy of the original per item transformed with that item and independent of the other copies; an empty iterator removes the repeated part, or with a fallback applies the fallback to the original once and only then. "
  "This holds for lazy, stalling and non-fused iterators, for item queues shared by interleaved transforms, where every item ends up in exactly one output unless the transform that took it fails, and for any number of items.",
  ["inputs", "schedules", "fault_sequences", "programs"],
  "every iterator behaviour, item count and body, every interleaving of clients that share an item source, with failing or crashing clients",
  "Tests repeat over literal ranges of at most three items; side-effecting and shared iterators, failures between items, nested repetitions and large counts are not covered.",
  ["src/modifier/repeat.rs", "src/template.rs"],
  [("collect/next/emit state machine", "src/modifier/repeat.rs State"), ("fallback decision", "src/modifier/repeat.rs RepeatOrElseState")],
  ["rendered result", "calls seen by the iterator"])

p("C12", "Errors stop a transform at once, surface unchanged and leave no trace",
  "If any part of a transform fails - inserted content, a nested transform, an invalid name or selector, an applied template function - the transform as a whole fails with precisely the first error raised, nothing user-supplied is invoked after it, and no partial result becomes visible. "
  "An error in a part that is never reached does not fail the transform, and after a failure the source template, shared values and inserted templates are unchanged and the same transform without the fault succeeds.",
  ["fault_sequences", "programs", "inputs", "histories"],
  "every position at which any user-supplied stream, closure or name can fail, in every composition of operations; sequences of failing and succeeding transforms over the same templates",
  "Tests check that a few invalid selectors and names produce an error; they do not inject failures mid-stream, inside nested scopes or after partial progress, nor look at what happens afterwards.",
  ["src/modifier/mod.rs", "src/event.rs", "src/template.rs", "src/modifier/select/select_contents.rs", "src/content.rs"],
  [("State::step drops the inner state on error", "src/modifier/mod.rs State"), ("Fallible", "src/modifier/mod.rs Fallible"), ("collection stops at first error", "src/template.rs Template::from_stream")],
  ["Result of Template::transform", "calls into user-supplied streams and closures"])

p("C13", "Transforms sharing templates, selectors and values never influence each other",
  "Any number of loads, transforms and renderings in flight at once over shared templates, values and selectors - including transforms started from inside callbacks of another, and ones that fail or panic midway - each produce exactly what they produce when run alone, and no operation ever changes a template that already exists. "
  "When a transform ends, in whatever way, everything the user handed to it is released exactly once and nothing stays allocated.",
  ["schedules", "crash_points", "histories"],
  "every interleaving of clients at user-visible call-outs, every crash (panic) point, every sharing pattern",
  "The tests run each transform to completion alone; no test has two in flight, aborts one midway or looks at released resources.",
  ["src/template.rs", "src/event.rs", "src/modifier/select/mod.rs", "src/text/encoded.rs", "src/content.rs"],
  [("reference-counted immutable event vectors", "src/template.rs Template.events"), ("copy-on-write attribute lists", "src/event.rs Attributes"), ("shared source cells", "src/modifier/select/mod.rs Shared")],
  ["results of interleaved runs compared with solo runs", "drop counts and allocation balance"])

p("C14", "Every successful transform of balanced input has balanced, re-parsable output",
  "If the source template and all inserted content are balanced, every template a transform produces is a balanced sequence of nodes: each opened element is closed once by a tag of the same name in nesting order, void and self-closed elements have no closing tag, and no placeholder or stray events remain. "
  "Rendering and parsing it again reproduces the same tree, and any further transform can be applied to it.",
  ["programs", "inputs", "fault_sequences", "histories"],
  "every composition and nesting of operations, applied in sequence over generations of templates, with stalling content",
  "Tests compare single results with literal strings; that no composition of operations can lose or duplicate a closing tag is a statement over all programs.",
  ["src/modifier/mod.rs", "src/modifier/select/element.rs", "src/modifier/select/select_contents.rs", "src/template.rs"],
  [("Expand, SelectContent closing logic", "src/modifier/mod.rs Expand; src/modifier/select/select_contents.rs"), ("nesting level of same-named tags", "src/modifier/select/element.rs SingleElement")],
  ["event sequence of the result", "re-parse of the rendering"])

p("C15", "Stalling content never changes a result and never blocks progress",
  "Content streams, iterators and callbacks that stall - deliver any number of placeholder events before, between or after their real events, or hand control to other clients - lead to exactly the same result, calls and errors as the same ones without stalls. "
  "Every transform of finite inputs finishes after a bounded number of calls into the user-supplied parts: each stream is pulled until its end or first error and not again, each iterator until its end and not again.",
  ["fault_sequences", "schedules", "programs"],
  "every stall pattern at every user-supplied stream, in every composition of operations and interleaving",
  "The placeholder event exists only between internal stages; tests never place one in inserted content, in long bursts, at ends or before an error.",
  ["src/event.rs", "src/modifier/mod.rs", "src/modifier/repeat.rs", "src/modifier/select/mod.rs", "src/template.rs"],
  [("placeholder skipping", "src/event.rs Stream::next_event_skip_noop"), ("state machines fused after end", "src/modifier/mod.rs State, Combine, Peek")],
  ["results with and without stalls", "number of pulls per stream"])

p("C16", "Inserted text stays text: encoding survives transform, storage and reload",
  "Text and attribute values built from unencoded strings never introduce markup, whatever characters they contain: after any transform, rendering, storing and reloading, the document has exactly the structure without them, and decoding the text or value at the place of insertion gives back the original string exactly once encoded. "
  "This holds for every way of supplying the text (owned or static data and values, plain string content, values joined to existing ones), and already encoded text of the template is never encoded or decoded again.",
  ["inputs", "programs", "histories"],
  "every string, every constructor and insertion operation, every number of store/reload generations and transforms over them",
  "Tests encode one fixed string through one constructor; the owned constructors, attribute values, joined values and reloaded documents are not checked.",
  ["src/text/encoded.rs", "src/text/data.rs", "src/text/value.rs", "src/content.rs"],
  [("character encoding", "src/text/encoded.rs encode_str_optional, from_unencoded_str, from_unencoded_static_str"), ("joining encoded texts", "src/text/encoded.rs EncodedText::join")],
  ["rendered and reloaded document"])

p("C17", "Conditional and delegated transforms apply exactly the chosen branch, once",
  "Conditional application runs exactly the branch its condition, option or result selects, exactly once and with the contained value, and leaves the stream unchanged where there is no branch for the case. "
  "Delegation to helper functions, boxed forms, an intermediate template or a freshly built element gives the same result as writing the delegated transform inline, at any nesting, with content that stalls and with failures inside the delegate passed on unchanged.",
  ["programs", "inputs", "fault_sequences"],
  "every condition value, every branch body and delegate, every nesting of them, stalls and failures inside the delegate",
  "Tests apply each form once at the top level with a fixed body; nested, stalled, failing and element-level uses are not covered.",
  ["src/transform.rs", "src/modifier/apply.rs", "src/template.rs", "src/builder.rs"],
  [("branch selection", "src/modifier/apply.rs ApplyEither"), ("collect then emit", "src/modifier/apply.rs TemplateApply"), ("single element templates", "src/template.rs with_element, with_transformed_element")],
  ["calls of the branch closures", "rendered result"])

p("C18", "Identifiers are accepted exactly if they are safe to print as names",
  "A string is accepted as a tag, attribute, id or class identifier exactly if it is non-empty ASCII without whitespace and without characters that delimit markup, and the error for any other string names the first applicable reason. "
  "Identifiers compare equal exactly if they are equal ignoring ASCII letter case.",
  ["inputs"], "every string",
  "Tests try one string per error kind; the statement is about all strings.",
  ["src/text/identifier.rs"], [("validation", "src/text/identifier.rs validate")], ["Result of Identifier::from_str"])

p("C19", "Static selector strings parse into exactly the parts they spell",
  "A selector string of the form tag, #id and .class parts is decomposed into exactly those parts and every other string is rejected with an error naming the offending part; parsing never panics.",
  ["inputs"], "every string",
  "Tests try about a dozen literals; the statement is about all strings.",
  ["src/select.rs"], [("splitting", "src/select.rs IntoSelector for &'static str")], ["Result of into_selector"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
