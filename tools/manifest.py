#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
T = {
 "C01": ("hostile workloads in supervised worker processes; panics, aborts, stack overflows and hangs are observed; AddressSanitizer in thorough runs", "exploration",
         "Every panic, abort, runaway or endless token stream on the texts tried is caught (overflow checks and debug assertions on). Deep nesting is the recorded exception."),
 "C02": ("composed contracts whose interface is known by construction, and grammar sentences judged by a reference extractor", "exploration",
         "Complete comparison of names, types, order and multiplicity for every contract generated; trusts the reference extractor, which is cross-checked against composition."),
 "C03": ("types written by a model in every position, compared with the report; systematic to depth two, random beyond", "exploration",
         "Types outside the language of Scilla (arguments on unknown names, address types on other bases) are left open."),
 "C04": ("metamorphic monitor: same tokens, other layout; result, tree and error compared", "exploration",
         "Layouts are checked to have exactly the intended tokens by the reference lexer."),
 "C05": ("metamorphic monitor: same interface, other irrelevant code; results compared", "exploration",
         "Every grammar alternative is placed in focus; irrelevant code is generated from the grammar."),
 "C06": ("token stream monitor: partition of the text, and a reference lexer with longest match", "exploration",
         "All strings of up to four characters over a hostile alphabet, neighbours of every word, random texts; the end of unknown tokens is left open."),
 "C07": ("position monitor: every reported position recomputed from the text", "exploration",
         "Offsets, lines and columns of every token compared with a count over the text itself."),
 "C08": ("every parser against an Earley recogniser of the documented grammar", "exploration",
         "All sequences of up to two tokens for all 52 parsers, then sentences, their damage and their neighbours; trusts the reference grammar."),
 "C09": ("tree monitor: the tree the grammar prescribes compared node by node with the one returned", "exploration",
         "Every grammar alternative in focus; trusts the reference grammar."),
 "C10": ("span monitor: every node's span compared with its first and last token, plus nesting and order", "exploration",
         "The five node types without positions are left out."),
 "C11": ("error monitor: reported token, position and expected set compared with an Earley recogniser", "exploration",
         "The list of expected tokens may be shorter than complete (the generated parser reduces before it meets the error)."),
 "C12": ("event log of a recording converter checked against the tree, with and without skips", "exploration",
         "Every enter and exit is matched with the tree; the tree is read without the visitor."),
 "C13": ("position stack monitor on every event, with skips and failures injected at every event", "exploration",
         "The stack is checked at every event of nodes that carry positions, and at the end."),
 "C14": ("fault injection: the converter fails at each event of each walk; the log and the returned error are checked", "fault_enumeration",
         "Every event of a walk is made to fail in turn (a sample of them in walks of more than 400 events)."),
 "C15": ("round trip monitor: reported types printed and parsed back in every position; printed forms kept to find collisions", "exploration",
         "Injectivity is judged over all types printed by a worker."),
 "C16": ("round trip monitor on tokens and identifiers", "exploration",
         "Printed text is compared with the source, parsed back and compared as trees."),
 "C17": ("history and concurrency monitor: repeated, interleaved, multi-threaded and fresh-process parses compared; ThreadSanitizer over unsynchronised threads", "exploration",
         "Threads share no state by construction today; interleavings actually seen are counted in the evidence."),
 "C18": ("file monitor: result of a path compared with result of its contents; directory snapshots and open files checked", "exploration",
         "Runs as root, so permission errors are not among the failures tried."),
 "C19": ("resource monitor: bytes allocated and CPU time at doubling sizes of every construct", "exploration",
         "Bytes are exact; CPU time is judged only when clearly above noise and confirmed by repetition."),
 "C20": ("interfaces with one inexpressible type injected, systematic to two wrappings and random; the refusal is observed", "exploration",
         "Every kind of inexpressible type in every position."),
 "C21": ("system calls of the parsing thread watched by a seccomp filter, memory by a counting allocator over repeated and ever different texts", "exploration",
         "Every call beyond memory management is refused and noted. What is kept once, or up to a bound, is no leak."),
 "C22": ("error report monitor: position, token and expected tokens recomputed from the text and looked for in the description", "exploration",
         "The wording is left open; only that the numbers stand together and the token's text is there."),
 "C23": ("value monitor: parsed, copied, hand-built and singly changed values compared pairwise, with the model and the neutral tree as oracle", "exploration",
         "The order of trees is judged by the laws of a total order, which order it is is left open."),
 "C24": ("differential monitor: trees, their copies, relocated and edited trees emitted and compared with the text and with the model edited alike", "exploration",
         "Edits keep the tree one that some text could have."),
 "C25": ("iterator monitor: every token of a lexer consumed in twelve ways compared with one after another; texts compared with their joins and parts", "exploration",
         "Locality is judged where the lexical rules leave nothing open; the end of unknown tokens is left open."),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "../properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough",
                 "technique": T[i][0], "level": T[i][1], "level_note": T[i][2]} for i in ids],
     "not_applicable": [],
     "notes": "No hooks: everything observed is public API. bash run.sh PROPERTY [quick|thorough] runs one check; target/debug/harness replay FILE replays a violation."}
json.dump(m, open(os.path.join(os.path.dirname(__file__), "../MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(os.path.dirname(__file__), "../MANIFEST.json"), "a").write("\n")
