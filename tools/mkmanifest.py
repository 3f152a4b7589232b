#!/usr/bin/env python3
"""Writes MANIFEST.json: claimed checks below, everything else in properties.jsonl is not_applicable."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
T = {
 "C01": ("fuzzing: token soup, random characters, broken and truncated programs, long repetitions, deep nesting; crash, hang, memory and out-of-bounds oracles",
         "Runs in a supervised child process; texts end at an unreadable page; time by comparing a text with its fourfold repetition; nesting is bounded by the stack."),
 "C02": ("random stepping of the lexer over fuzzed texts; partition invariant against a reference skipper for white space and comments",
         "Every token of every text is checked; template continuation and regular expressions are read at random places."),
 "C03": ("generated token sequences with random separators, longest-match reference for punctuators",
         "The expected kind, text, span and semicolon-insertion flag of every token are known by construction."),
 "C06": ("edited token sequences and texts of generated programs, judged by two independent parsers (acorn, V8)",
         "Every text neither acorn nor V8 accepts, for a reason other than its context or the inside of a token, has to be rejected; 2 million edits per quick run."),
 "C07": ("fuzzed texts and truncated programs; span invariants, reference reading of the rendered message, metamorphic change of the text behind the first error",
         "The viable-prefix part is checked with prefixes of generated valid programs."),
 "C04": ("grammar-directed program generation, print, parse, compare with the generated tree (model round trip)",
         "Every generated program is parsed and its tree compared node by node with the one it was printed from; trusts the harness's printer and its precedence table, which C11 cross-checks against acorn."),
 "C05": ("metamorphic: two layouts of one generated program",
         "White space, line breaks, comments, redundant parentheses and dropped semicolons at random; both parses must give equal trees."),
 "C08": ("generated programs with token positions recorded by the printer as oracle",
         "Every node's location is compared with the positions of its own tokens; six deviations fixed by the repository's own tests are recorded as known findings and tolerated exactly as recorded."),
 "C09": ("generated programs, round trip through the minifier and back, fixpoint",
         "Tree equality and byte-for-byte fixpoint on every generated program; meaning for a real engine is C11's."),
 "C10": ("generated programs, round trip through the pretty printer, differential against the minified text, indentation invariant",
         "Tree equality, fixpoint, same text but for white space, every item of a block on its own line at its depth."),
 "C11": ("generated programs; differential against acorn (trees of source and outputs) and node (execution traces with recording proxies)",
         "acorn has to build the same tree of the source, the minified and the pretty text, ratel's own tree has to be acorn's, and node has to produce the same trace running all three."),
 "C12": ("generated programs; JSON read back by a strict independent reader and compared with the tree read through the AST API",
         "Every field of every node type is checked, unknown fields and repeated keys are failures; the dialect fixed by the repository's tests is accepted."),
 "C13": ("generated literals of every notation; exact value oracle (big integers, correctly rounded decimal)",
         "Values of escape sequences in strings and templates are not checked (ratel does not cook them)."),
 "C14": ("generated programs; recorded walk compared with an independent recursion over the tree (node identity, order, parent chains)",
         "Every callback of the visitor trait is recorded."),
 "C15": ("generated programs; scope tree computed from the generated tree as reference model",
         "Names are compared as sets per scope; hoisting and loop scopes as documented in DESIGN.md."),
 "C16": ("generated programs; transformed tree compared with a reference rewrite of the original tree",
         "In-place rewrite is read back through the AST API and through both generators."),
 "C17": ("fuzzing with valid, broken and junk texts; differential of the wasm crate's functions against the library",
         "The wasm crate's source is built for this machine; wasm-bindgen's generated glue is not run."),
 "C18": ("stateful testing: random histories of operations on several live programs, on one or several threads; each result compared with the one of a fresh program",
         "Thread schedules are those the system produces."),
 "C19": ("fuzzing with valid, broken and junk texts and arguments; differential of the node binding's functions against the library",
         "The binding's source runs against a small stand-in for the neon crate, which cannot be built here."),
 "C20": ("generated long, wide and deep programs; metamorphic comparison of cost (processor time, allocated bytes) between a program and one two or four times its size",
         "Detects growth that is quadratic in the length or exponential in the depth, in any of nine operations; constant factors are not judged."),
 "C21": ("generated pairs of programs, equal and nearly equal; == and dumps against a field-by-field comparison",
         "Pairs differ in one token as a rule; 400,000 pairs per quick run."),
 "C22": ("stateful testing: random sequences of in-place edits with parts of other programs; model of the edited tree, round trip through both printers and the JSON, undo",
         "Assignment targets, holes and spread elements are not edited."),
}
NA = {}
checks = [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
           "technique": T[i][0], "level": "exploration", "level_note": T[i][1]} for i in ids if i in T]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, "not claimed yet: its check is being built")} for i in ids if i not in T]}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(here + "/MANIFEST.json", "a").write("\n")
