#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts live here, once)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, state=state or [],
                             mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=observe or [], hook_needed=None))

S = "src/"
props = [
P("C01", "How a reader delivers the bytes never changes what is loaded",
  "For every valid UTF-8 file, loading it from a reader returns exactly what parsing the same text in one piece (by either in-memory entry point) returns - the same document down to every value and position, or the same error - however the reader splits, interrupts, stalls or interleaves the delivery, whether or not it has its own way of reading everything at once or uses the library itself while it delivers, and however large the file is. The loaded document's text is byte for byte what the reader delivered up to its first end of stream, and the reader itself is let go by the time the call returns.",
  ["inputs", "fault_sequences", "schedules"],
  "all valid UTF-8 byte strings x all sequences of short reads, interrupted reads, stalls and clock jumps x all interleavings of concurrent loads",
  "No existing test calls the reader entry point with anything but a real file; none splits a multi-byte character or CRLF across reads, returns an interrupted read, or compares the entry points.",
  [S+"dockerfile_parser.rs"],
  [("from_reader", S+"dockerfile_parser.rs Dockerfile::from_reader"), ("in-memory entry points", S+"dockerfile_parser.rs Dockerfile::parse, FromStr")],
  observe=["Dockerfile::from_reader", "Dockerfile::parse", "str::parse::<Dockerfile>", "Dockerfile.content"]),
P("C02", "A failed or undecodable read is reported as that failure, never as a result",
  "If the reader fails with a non-retryable error at any point before the end of its stream, or the bytes it delivers are not valid UTF-8, loading returns the read error carrying the reader's own error (kind, OS code, payload and message; for bad bytes an invalid-data error) as its source - never a document, never an error about the contents. A read error is reported only if one happened, and loading the intact bytes afterwards succeeds as if nothing had happened. The failed reader is let go by the time the call returns.",
  ["fault_sequences", "inputs", "schedules"],
  "all error kinds, OS codes and payloads x every byte position including before the first and after the last x all invalid byte sequences and positions x preceding short reads, interrupts and stalls",
  "No existing test makes a read fail or supplies bytes that are not UTF-8.",
  [S+"dockerfile_parser.rs", S+"error.rs"],
  [("error mapping", S+"dockerfile_parser.rs from_reader .context(ReadError)"), ("ReadError variant", S+"error.rs Error::ReadError")],
  observe=["Dockerfile::from_reader", "Error::ReadError.source", "Display/source of Error"]),
P("C03", "Loading any stored bytes ends: no panic, abort, overflow or hang",
  "Loading any bytes - including files torn, flipped, zeroed, duplicated or stitched together at arbitrary offsets and instructions continued over many thousands of lines - on a thread with the default 2 MiB stack returns a document or an error within a work bound and a memory bound proportional to the size of the file. So do all questions asked of an accepted document: its stages, global arguments, image references, positions, conversions to text, and replacing its last instruction.",
  ["inputs", "fault_sequences", "schedules"],
  "all byte strings reachable by corrupting generated Dockerfiles, with deep or long variants of every construct; per load at most 2e6 + 5e3 n control-flow steps and 16 MiB + 1000 n bytes for a file of n bytes; at most 2e7 + 4e3 n steps for each question about the result; a construct repeated 2n and 4n times in place of n times may take at most about 2 and 4 times the steps, to load and for each of ten questions about it",
  "The tests parse a few dozen well-formed snippets of at most a few lines; none damages a file or has more than a handful of continuation lines.",
  [S+"dockerfile_parser.rs", S+"dockerfile_parser.pest", S+"util.rs", S+"instructions/", S+"image.rs", S+"stage.rs", S+"splicer.rs"],
  [("grammar", S+"dockerfile_parser.pest"), ("record conversion without unwrap on user data", S+"instructions/*.rs from_record"), ("iterative breakable strings", S+"util.rs parse_any_breakable_inner"), ("bounded substitution", S+"image.rs substitute")],
  observe=["Dockerfile::from_reader", "Stages", "ImageRef", "Span::relative_span", "Splicer::splice"]),
P("C04", "Whatever is accepted, even from damaged bytes, is self-consistent",
  "Every document that is accepted, even from damaged bytes, describes its own text: instruction spans are in order, on character boundaries, start with their keyword and are separated by line breaks with nothing but blank or comment lines between them; every field's span lies inside its parent's in source order; field values, image references and multi-line texts equal the text at their spans (quoted ones: what it decodes to). Stages, global arguments, build-argument lookup, resolved image references, typed views and conversions, texts put together again from their pieces, and line/column positions agree with the instruction list, and writing any field's text back over its span changes nothing. Parsing the document's text again reports the same document.",
  ["inputs", "fault_sequences"],
  "all accepted files reachable by corrupting generated Dockerfiles with lost, duplicated, flipped, zeroed, swapped, truncated or inserted byte ranges, delivered by a faulty reader",
  "The tests compare hand-written snippets with hand-computed spans; none states a relation that must hold for every accepted document.",
  [S+"dockerfile_parser.rs", S+"dockerfile_parser.pest", S+"util.rs", S+"instructions/", S+"stage.rs", S+"image.rs", S+"splicer.rs"],
  [("spans from parser pairs", S+"splicer.rs Span::from_pair"), ("stage construction", S+"stage.rs Stages::new"), ("global args", S+"dockerfile_parser.rs parse_dockerfile, get_global_arg"), ("breakable text", S+"util.rs BreakableString")],
  observe=["Dockerfile.instructions", "global_args", "stages()", "get_global_arg", "Span::relative_span", "Splicer::splice"]),
P("C05", "Independent edits land exactly where they belong, in any order",
  "However many concurrent editors replace, grow, shrink or delete disjoint spans of one document through one splicer - and insert at positions no other edit touches - and in whatever order their edits happen to be applied, after every edit the text is the original with exactly the replacements made so far at exactly their spans. An edit that fails (its span reaches past the text or splits a character) changes nothing, and later edits still land where they belong. The document itself and any other splicer made from it are unaffected.",
  ["schedules", "histories", "inputs"],
  "all documents x all sets of disjoint spans (reported fields or plain byte ranges, adjacent ones included; empty ones only where nothing else touches) x failing edits in between x all replacement texts x all application orders",
  "Two unit tests splice two or three ASCII spans in a single fixed order.",
  [S+"splicer.rs"],
  [("offset list", S+"splicer.rs Span::adjust_offsets, Splicer::splice"), ("private copy", S+"splicer.rs Splicer::from")],
  state=[dict(name="splice_offsets", meaning="length changes made so far, by original position", where=S+"splicer.rs Splicer")],
  observe=["Splicer::splice", "Splicer.content", "Dockerfile.content"]),
P("C06", "Editing a span again replaces what was written there before",
  "A span that was edited before - even one that was deleted, or whose neighbours were - can be edited again and then holds exactly the last text written to it; replacing a span that contains earlier edited ones replaces them with it; all other edits stay in place. This holds for every order in which concurrent editors revisit spans, interleaved with edits elsewhere.",
  ["schedules", "histories", "inputs"],
  "all documents x all sequences of edits in which each span is equal to, disjoint from, or contains every earlier edited span",
  "No existing test edits the same span twice or a container after its contents.",
  [S+"splicer.rs"],
  [("offsets in original coordinates", S+"splicer.rs Span::adjust_offsets")],
  state=[dict(name="splice_offsets", meaning="length changes made so far, by original position", where=S+"splicer.rs Splicer")],
  observe=["Splicer::splice", "Splicer.content"]),
P("C07", "Load-edit-save histories with crashes end exactly as the saved edits say",
  "For any history of sessions in which clients load a well-formed Dockerfile (after failed or faulty reads), rewrite fields, replace or delete instructions at the reported spans, and save it - with crashes at any point of any save - the file always loads again and the document reports exactly the instructions, field values, byte positions, stages, parents and global arguments that the edits of completed saves imply. Edits lost in a crash leave no trace, and fields nobody edited keep their values.",
  ["histories", "crash_points", "fault_sequences", "schedules", "inputs"],
  "all well-formed documents of the generated dialect (all instruction kinds, continuations, comments, quoting, line endings, non-ASCII text) x edit histories of up to 4 sessions x crash points x read and write faults",
  "No test combines parsing, splicing and reparsing, or compares a whole document against an independent description of it.",
  [S+"dockerfile_parser.rs", S+"dockerfile_parser.pest", S+"splicer.rs", S+"stage.rs", S+"image.rs", S+"util.rs", S+"instructions/"],
  [("grammar and record conversion", S+"dockerfile_parser.pest, src/instructions/*.rs"), ("spans valid for splicing", S+"splicer.rs"), ("stages", S+"stage.rs")],
  observe=["Dockerfile::from_reader", "Dockerfile.instructions and all their fields", "Dockerfile::stages", "Dockerfile.global_args", "Splicer::splice"]),
P("C08", "Concurrent calls do not influence each other",
  "When several threads load, parse, query, edit and resolve at the same time - different documents, nearly equal ones or the same shared one - every call returns exactly what it returns when it is the only call ever made in its process, and every call returns. This holds for every interleaving of the threads, and for calls that a reader or a sink makes while the library is using it. Documents and all values in them can be shared by and moved between threads.",
  ["schedules", "inputs"],
  "all interleavings (at control-flow edges, allocations and blocking points) of 2-5 threads making up to 6 calls each, from a cold start of the process",
  "The tests make no concurrent calls on purpose; the test runner's own threads sample a handful of interleavings and check nothing about them.",
  [S+"dockerfile_parser.rs", S+"instructions/from.rs", S+"image.rs", S+"stage.rs", S+"splicer.rs"],
  [("no shared mutable state; lazily built regexes behind Once", S+"instructions/from.rs, src/image.rs lazy_static!")],
  state=[dict(name="HEX/VAR", meaning="process-wide regexes, initialised on first use by whichever thread comes first", where=S+"instructions/from.rs, src/image.rs")],
  observe=["all public entry points"]),
P("C09", "An answer depends only on its input, not on what happened before",
  "The outcome of every call depends only on its arguments: not on earlier calls in the process, successful, failed or cut off by a panicking reader, nor on how many there were, nor on the thread, the clock, the environment, the working directory or the process's hash seeds. Asking a document the same question again gives the same answer.",
  ["histories", "fault_sequences", "configurations"],
  "all histories of up to 14 calls (with up to thousands of repetitions of a call inside one) on 1-3 threads, each answer compared with the same call as the first one of a new process with other hash seeds, clock, environment and working directory",
  "Each test makes one or two calls and looks only at the first answer; none runs under chosen hash seeds or clocks, or after a failure.",
  [S+"dockerfile_parser.rs", S+"image.rs", S+"stage.rs", S+"instructions/"],
  [("pure functions over the input; maps used only for lookup", S+"image.rs substitute, src/stage.rs Stages")],
  state=[dict(name="HEX/VAR", meaning="process-wide regexes", where=S+"instructions/from.rs, src/image.rs")],
  observe=["all public entry points"]),
P("C10", "A torn file never changes what was completely written",
  "If a crash cuts a well-formed file short at any byte (possibly leaving stale or foreign bytes behind it), then loading what is left either reports an error or reports every instruction whose line was completely written exactly as in the full file - same order, fields, values, positions, stage structure and global arguments. Cut exactly after a complete line with nothing behind it, the file loads and reports exactly the instructions before the cut and nothing else.",
  ["crash_points", "inputs", "fault_sequences"],
  "all well-formed documents of the generated dialect x every byte position of the cut x tails (none, zero bytes, text, another file) x reader faults",
  "No existing test loads a truncated file.",
  [S+"dockerfile_parser.rs", S+"dockerfile_parser.pest", S+"instructions/", S+"stage.rs"],
  [("line-oriented grammar", S+"dockerfile_parser.pest file, step"), ("stages", S+"stage.rs")],
  observe=["Dockerfile::from_reader", "Dockerfile.instructions", "Dockerfile::stages", "global_args"]),
P("C18", "A failed write of a value is reported, and what was written is its beginning",
  "Writing any value the library can display - image references, command and field texts, stage parents, errors, whole documents for debugging - to a writer that accepts it piecemeal, interrupts, stalls, uses the library itself, fails, panics or fills up at any byte delivers exactly the bytes of the value's text up to the point of failure. The writer's own error (or, for a fixed buffer, a formatting error) is returned, success is reported only when everything was written, there is no panic but the writer's own, and the value is unchanged: written again, it gives the same text.",
  ["fault_sequences", "inputs", "schedules"],
  "all values of all documents (and of rejected ones: their errors) x all failure points, error values, panics, full sinks and buffers, sinks that call the library, short and interrupted writes x interleavings of several writers of the same values",
  "The tests only format into strings, which never fail.",
  [S+"image.rs", S+"util.rs", S+"stage.rs", S+"error.rs", S+"splicer.rs", S+"dockerfile_parser.rs"],
  [("Display for ImageRef", S+"image.rs"), ("Display for BreakableString", S+"util.rs"), ("Display for StageParent", S+"stage.rs"), ("Error display", S+"error.rs"), ("Debug of SpannedString", S+"util.rs")],
  observe=["Display and Debug of all public types, through io::Write and fmt::Write"]),
P("C19", "Nothing is kept: memory does not grow with the number of calls",
  "Once everything a round of calls returned has been dropped, the process holds no more memory than after earlier rounds: repeating loads, parses, questions, edits and substitutions any number of times - with the same or always new inputs, successful, failed or cut off by a failing or panicking reader, on the same or always new threads, in any interleaving - does not accumulate memory, and readers handed to the library are let go when the call returns, successful or not.",
  ["histories", "fault_sequences", "schedules"],
  "all rounds of up to 4 calls on each of 1-3 threads, repeated 24-150 times, compared from half time to the end (64 bytes of slack)",
  "No existing test repeats a call or looks at memory.",
  [S+"dockerfile_parser.rs", S+"image.rs", S+"stage.rs", S+"splicer.rs", S+"instructions/"],
  [("no caches, no process-wide registries besides two regexes", S+"instructions/from.rs, src/image.rs")],
  state=[dict(name="HEX/VAR", meaning="process-wide regexes with per-thread scratch memory", where=S+"instructions/from.rs, src/image.rs")],
  observe=["bytes allocated and not freed, after every round"]),
]

na = [
P("C11", "The grammar accepts exactly the supported Dockerfile syntax",
  "Every Dockerfile written in the supported syntax is accepted and every file outside it is rejected with a syntax error that points at the offending position.",
  ["inputs"], "all texts", "Tests cover a few dozen snippets.", [S+"dockerfile_parser.pest"], [("grammar", S+"dockerfile_parser.pest")]),
P("C12", "Image references split into registry, image, tag and hash as Docker does",
  "Every image reference is split into registry, image, tag and digest by Docker's rules and displays as the text it was parsed from.",
  ["inputs"], "all reference strings", "Tests cover about twenty strings.", [S+"image.rs"], [("ImageRef::parse", S+"image.rs")]),
P("C13", "Variable substitution resolves what is defined and always stops",
  "Substitution replaces exactly the variables that are defined, reports the ones it used, gives up on undefined ones, and stops within its recursion limit even for self-referencing values.",
  ["inputs"], "all texts and variable maps", "Tests cover about ten maps.", [S+"image.rs"], [("substitute", S+"image.rs")]),
P("C14", "Stage parents and roots follow FROM references",
  "A stage's parent is the closest rule match among scratch, an earlier stage of that name and an external image, and its root is what the chain of parents ends in.",
  ["inputs"], "all sequences of FROM instructions", "Tests cover one seven-stage file.", [S+"stage.rs"], [("Stages::new", S+"stage.rs")]),
P("C15", "Quoted strings decode all escapes and reject malformed ones",
  "Every escape sequence in a quoted value decodes to its character, and malformed escapes are reported as errors.",
  ["inputs"], "all quoted strings", "Tests cover a few escapes.", [S+"util.rs", S+"instructions/label.rs", S+"instructions/env.rs"], [("unquote", S+"util.rs parse_string")]),
P("C16", "A span's line and column are those an editor shows",
  "Converting any span to a line and column yields the zero-based line it starts on and its offsets within that line.",
  ["inputs"], "all texts and spans", "One test covers four spans.", [S+"splicer.rs"], [("relative_span", S+"splicer.rs")]),
P("C17", "Typed conversions accept exactly the matching instruction kind",
  "Converting an instruction to a typed one succeeds exactly for its own kind and otherwise names both kinds in the error.",
  ["inputs"], "all pairs of kinds", "Tests use the succeeding conversions.", [S+"instructions/"], [("TryFrom impls", S+"instructions/*.rs")]),
]
NA_REASON = {
 "C11": "A pure function of one string: no schedule, clock, fault, crash or history in it. Deterministic simulation would only be input generation under another name (the part that survives crash and edit histories is claimed as C04, C07 and C10).",
 "C12": "A pure function of one string; nothing nondeterministic, interruptible or shared for a simulator to control.",
 "C13": "A pure function of its arguments with a depth counter; no schedule, clock or fault involved (its independence of hash seeds, history and concurrency is claimed in C08 and C09).",
 "C14": "A pure function of the instruction list; no fault or schedule can reach it (its agreement with crash-surviving edits is part of C07 and C10).",
 "C15": "A pure function of one token; nothing for a scheduler or fault injector to decide.",
 "C16": "A pure function of a text and a span; nothing for a scheduler or fault injector to decide.",
 "C17": "A pure match on an enum variant; nothing for a scheduler or fault injector to decide.",
}
LEVEL_NOTE = {
 "C01": "Seeded sampling of files, read schedules and thread interleavings against the in-memory entry point of the same build; assumes that entry point is deterministic (C09 checks that). The largest file tried is 17.5 MB (thorough: 68 MB).",
 "C02": "Seeded sampling of failure points, error values and invalid bytes; the oracle is the injected error itself. Assumes std's BufReader and read_to_string.",
 "C03": "Seeded sampling of damaged and deep inputs; termination is judged by a step budget on instrumented edges (with a backstop of 60 s of processor time for code without callbacks), stack by really running on 2 MiB threads of an optimised build with debug assertions.",
 "C04": "Seeded sampling of damaged but accepted files; the oracle is a list of consistency laws over the reported document (audit.rs). A wrong reading that is internally consistent is left to C07 and C10.",
 "C05": "Seeded sampling of documents, spans and edit orders; after every edit compared with a text rebuilt from the original and the list of live edits.",
 "C06": "As C05, with a last-write-wins reference model.",
 "C07": "Seeded sampling of histories; the oracle is an independent generator that knows every field, value and position by construction, so only the generated dialect is covered. The disk is a model: write, sync, rename; only synced data survives.",
 "C08": "Seeded sampling of interleavings at control-flow edges of the crate, allocations and blocking calls, under sequential consistency; the oracle is the same call alone in a new process of the same build.",
 "C09": "Seeded sampling of histories, hash seeds and clocks; the oracle is the same call alone in a new process of the same build.",
 "C10": "Seeded sampling of documents and cut points; the oracle is the independent generator model, so only the generated dialect is covered.",
 "C18": "Seeded sampling of values, failure points and interleavings; the oracle is the text the same value gives when formatted into a string, which for image references, commands, texts and stage parents must be the one put together from their parts.",
 "C19": "Seeded sampling of rounds and interleavings; memory is what the process's global allocator has handed out and not got back. Growth slower than one allocation in 12 rounds is not seen; a bounded cache that takes more than 12 rounds to fill would be reported.",
}
TECH = "deterministic simulation with fault injection: "
TECHNIQUE = {
 "C01": TECH+"simulated readers and seeded thread scheduler, differential oracle",
 "C02": TECH+"injected read failures and invalid bytes, error-provenance oracle",
 "C03": TECH+"corrupted storage, step-budgeted calls on bounded stacks",
 "C04": TECH+"corrupted storage, invariant audit of every accepted document",
 "C05": TECH+"seeded schedules of concurrent editors, reference text model",
 "C06": TECH+"seeded schedules of concurrent re-editing, last-write-wins model",
 "C07": TECH+"edit/save/crash/reload histories on a simulated disk, refinement against an independent document model",
 "C08": TECH+"preemptive seeded scheduler, isolation against a fresh process",
 "C09": TECH+"call histories with failures, hash seeds and clocks, against a fresh process",
 "C10": TECH+"crash-torn files at arbitrary bytes, refinement against an independent document model",
 "C18": TECH+"simulated failing sinks and full buffers, seeded thread scheduler, prefix oracle",
 "C19": TECH+"long call histories with failures under a seeded scheduler, allocator accounting",
}
with open(R+"/properties.jsonl", "w") as f:
    for p in props + na:
        f.write(json.dumps(p, ensure_ascii=False)+"\n")
man = dict(version=1, setup_cmd="./check.sh build",
    hooks=dict(guard="none (no hooks in /repo)",
               enable="Nothing in /repo is guarded: sim/rustc-wrap.sh compiles the unmodified crate with compiler callbacks on control-flow edges, atomic operations and accesses to statics, and the simulator intercepts allocation, futex, sleep, clock and getrandom in its own binary.",
               source_commits=[]),
    checks=[dict(property=p["id"], quick_cmd="./check.sh "+p["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh "+p["id"],
                 evidence_file="evidence/%s.json" % p["id"], technique=TECHNIQUE[p["id"]],
                 level="exploration", level_note=LEVEL_NOTE[p["id"]]) for p in props],
    not_applicable=[dict(property=p["id"], reason=NA_REASON[p["id"]]) for p in na],
    notes="fix commits in /repo and the defects behind them: known-findings.txt. Replay a violation: sim/target/release/dst replay FILE.")
with open(R+"/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False); f.write("\n")
