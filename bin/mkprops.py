#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})

p("D01", "Decoding yields exactly what the format description means",
  "For every format that compiles and every input, running the interpreter either returns the value and the unread "
  "remainder that the format's definition assigns to that input, or reports a parse failure where the definition assigns "
  "none; wherever the expressions in it have a value it never crashes, and it never reads outside the window (slice, byte "
  "buffer, view) a sub-format was confined to. "
  "This covers every format constructor: sequencing, records, alternatives, all repetition forms, slices, bit mode, "
  "alignment, peeking and negative look-ahead, offsets, nested decoding of computed bytes, views, binding, mapping and filtering.",
  ["programs", "inputs"], "all well-formed formats (bounded size) and all byte inputs (bounded length)",
  "decoder.rs tests run some sixty hand-picked format/input pairs; a decoder is a function of an unbounded product of "
  "formats and inputs, and constructor interactions (slice inside bits inside repeat ...) are not sampled at all.",
  ["src/decoder.rs", "src/read.rs", "src/decoder/value.rs", "src/format.rs", "src/helper.rs"],
  [("Decoder::parse", "src/decoder.rs"), ("Compiler::compile_format", "src/decoder.rs"), ("ReadCtxt", "src/read.rs")],
  [("ReadCtxt", "window (bytes + absolute offset) still to be read", "src/read.rs"), ("Scope", "bindings visible to expressions", "src/decoder.rs")],
  ["Program::run result", "remaining ReadCtxt"])

p("D02", "Look-ahead never commits to a wrong branch; ambiguity is rejected",
  "When a format with alternatives or repetitions compiles, the branch (or the decision to continue or stop repeating) "
  "selected by look-ahead is one that the input can match whenever any is, so no input the format accepts is rejected "
  "because of a premature choice. A format in which two deterministic alternatives (or an element and what follows the "
  "repetition) cannot be told apart by look-ahead is refused at compile time rather than silently resolved (look-ahead may "
  "take what it does not look into - offsets, filters, data-dependent sizes - for anything, and so refuse more).",
  ["programs", "inputs"], "all small unions/repetitions of bounded formats and all inputs up to the look-ahead bound",
  "match-tree construction is a product automaton over all branches and their continuations; tests exercise a handful of unions.",
  ["src/lib.rs", "src/decoder.rs", "src/byte_set.rs"],
  [("MatchTree::build / MatchTreeStep / MatchTreeLevel", "src/lib.rs"), ("Next", "src/lib.rs"), ("Compiler", "src/decoder.rs")],
  observe=["Compiler::compile_program Ok/Err", "Program::run"])

p("D03", "The location-tracking decoder agrees with the plain one, with exact spans",
  "For every format and input, the location-tracking decoder succeeds exactly when the plain decoder does, with the same "
  "value and the same unread remainder. The source span recorded for each decoded sub-value covers exactly the input "
  "bytes that were consumed to produce it, inside the span of the value containing it.",
  ["programs", "inputs"], "all well-formed formats (bounded size) and all byte inputs (bounded length)",
  "two independent 2000-line evaluators must agree everywhere; no test compares them on random formats, and span values are not asserted.",
  ["src/loc_decoder.rs", "src/decoder.rs", "src/loc_decoder/parse_loc.rs"],
  [("Decoder::parse_with_loc", "src/loc_decoder.rs"), ("ParsedValue / ParseLoc", "src/loc_decoder.rs")],
  observe=["Program::run_with_loc"])

p("D04", "Generated Rust decoders agree with the interpreter",
  "Whenever the Rust emitted for a format compiles, the compiled decoder accepts exactly the inputs the interpreter "
  "accepts, producing the corresponding value and stopping at the same position, on every input on which the format's "
  "expressions have a value. For formats built from bytes, sequencing, ordered alternatives, peeking, negative look-ahead, "
  "slices, bit mode, offsets, fallbacks, repetition and operators on numbers and truth values the emitted Rust does compile.",
  ["programs", "inputs"], "random and enumerated well-typed formats, each with exhaustive-small and random inputs",
  "codegen tests check a few fixed formats; the translation must be right for every composition of constructors.",
  ["src/codegen/mod.rs", "src/codegen/typed_format.rs", "src/codegen/typed_decoder.rs", "src/codegen/rust_ast/mod.rs", "src/parser/mod.rs", "src/prelude.rs"],
  [("generate_code", "src/codegen/mod.rs"), ("GTCompiler", "src/codegen/typed_decoder.rs"), ("Elaborator", "src/codegen/mod.rs")],
  observe=["emitted source compiled with rustc", "Decoder fn results"])

p("D05", "Shipped decoders agree with the shipped format definitions on any bytes",
  "For every byte string, the committed generated decoder and the interpreter running the shipped format definitions "
  "(the top-level multi-format and each individual file format) either both fail or both succeed with the same value "
  "and at the same position, and that outcome is one the format definition allows. Neither hangs, and the committed decoder "
  "does not crash, on malformed, truncated or hostile data. (Nothing is claimed about the interpreter on inputs for which an "
  "expression of the definition has no value: an underflow, an overflow, a case that does not exist.)",
  ["inputs"], "all byte strings; sampled by structured mutation of valid files and by generation from the definitions",
  "tests decode a few well-formed sample files; malformed inputs are unbounded.",
  ["generated/gencode.rs", "doodle-formats/src/format.rs", "doodle-formats/src/format", "src/decoder.rs", "src/parser/mod.rs"],
  [("Decoder_main", "generated/gencode.rs"), ("doodle_formats::format::main", "doodle-formats/src/format.rs")],
  observe=["Decoder_main result vs Program::run"])

p("D06", "Parser runtime: reads confined, contexts nest, backtracking restores exactly",
  "Through any sequence of reads, seeks, bit-mode entries and exits, slices, peeks and alternatives, the parser used by "
  "generated decoders never reads past the end of its buffer or of the innermost open slice, closing a context leaves the "
  "cursor exactly where that context's rule puts it, and falling back from a failed alternative restores exactly the "
  "position, bit offset and enclosing contexts in force when it was entered. Every operation that cannot be honoured is "
  "reported as an error and leaves the state unchanged; none of them crashes.",
  ["histories", "inputs"], "all interleavings of parser operations up to bounded nesting, on small buffers (complete state graph)",
  "unit tests drive a few fixed sequences; the property is about every history of operations.",
  ["src/parser/mod.rs", "src/parser/offset.rs", "src/parser/error.rs"],
  [("Parser", "src/parser/mod.rs"), ("BufferOffset / ByteOffset / OffsetStack", "src/parser/offset.rs")],
  [("OffsetStack", "open slices, peeks, alternatives, bit regions", "src/parser/offset.rs")],
  ["Parser public API"])

p("D07", "Static size analysis is sound",
  "For every format, each input the format accepts makes it consume a number of bytes that lies within the bounds the "
  "static analysis reports; a format that stays within its own input reads no byte beyond the reported look-ahead; "
  "the analyses of the interpreter and of the code generator agree in this. In bit mode the same holds counted in bits. The "
  "ranges reported for expressions contain every value they can take.",
  ["programs", "inputs"], "all well-formed formats (bounded) and all accepted inputs (bounded)",
  "bounds feed look-ahead and alignment decisions; tests assert them for a few formats only.",
  ["src/format.rs", "src/bounds.rs", "src/lib.rs"],
  [("Format::match_bounds / lookahead_bounds", "src/format.rs")],
  observe=["match_bounds, lookahead_bounds vs consumption"])

p("D08", "Interval arithmetic over-approximates, exactly where promised",
  "For every pair of ranges and every arithmetic or bitwise operation, if x and y lie in the operand ranges and the "
  "operation is defined on them without overflow, the result lies in the computed range; union contains both operands, "
  "on single values the computed range is the single exact result; "
  "intersection-style tests and containment agree with set membership, and no range operation crashes (a remainder by exactly zero is a documented error).",
  ["inputs"], "all ranges over a small exhaustive domain plus ranges at the machine-word limits",
  "existing proptests sample small values of a few operations.",
  ["src/bounds.rs"], [("Bounds", "src/bounds.rs"), ("Expr::bounds", "src/lib.rs")], observe=["Bounds API"])

p("D09", "Byte sets are exactly mathematical sets of bytes",
  "Every byte-set operation (membership, union, intersection, difference, complement, insertion, ranges, size, extremes, "
  "iteration, comparison) gives the result the corresponding set operation gives, for every set; and the textual form of a "
  "set determines the set it describes.",
  ["inputs", "histories"], "all operation histories over sets spanning all 256 byte values",
  "256-bit sets: tests cover a few values; wrong-limb and off-by-one errors live at word boundaries.",
  ["src/byte_set.rs", "src/byte_set/pretty_print.rs"], [("ByteSet", "src/byte_set.rs")], observe=["ByteSet API"])

p("D10", "Type inference is sound",
  "If a format is accepted by type checking, the inferred type is the one its constructors determine, and every value the "
  "decoder produces from any input is an inhabitant of that type; a format whose expressions do not fit their operands "
  "(and no other) is rejected.",
  ["programs", "inputs"], "all small formats and expressions, well- and ill-typed, and all inputs",
  "type soundness quantifies over all programs; tests check particular ones.",
  ["src/typecheck.rs", "src/typecheck", "src/valuetype.rs", "src/lib.rs"],
  [("TypeChecker::infer_all", "src/typecheck.rs"), ("FormatModule::infer_format_type", "src/lib.rs")],
  observe=["infer_format_type vs Value"])

p("D11", "Numeric expressions evaluate exactly",
  "Numeric expression trees (constants, variables, + - * / %, negation, absolute value, successor, predecessor, casts, over "
  "the signed and unsigned machine types) evaluate to the mathematically exact integer, flagged when some operand or result "
  "does not fit the machine type in force, or to an explicit failure exactly when a divisor is not permitted or the types "
  "are ambiguous. Code generated for such a tree, whenever it compiles, yields the exact integer if everything fits and an "
  "error otherwise, and each machine-level function it calls returns the exact result or says that there is none; "
  "none of them wraps, truncates or crashes.",
  ["programs", "inputs"], "all small expression trees over all machine types with boundary-value constants",
  "edge values of 8 integer types x all operators x nesting are not enumerated by tests.",
  ["src/numeric/core.rs", "src/numeric/eval.rs", "src/numeric/elaborator.rs", "src/numeric/codegen.rs"],
  [("Expr::eval", "src/numeric/core.rs"), ("eval_fallback", "src/numeric/eval.rs")], observe=["numeric::core::Expr::eval"])

p("D12", "Compressed and run-length data expands to exactly the encoded bytes",
  "For every set of code lengths that forms a prefix code, Huffman decoding by either engine inverts canonical encoding; "
  "and for every byte sequence, decoding any valid DEFLATE (stored, fixed, dynamic) or run-length encoding of it returns "
  "exactly that sequence, while streams that are truncated, use lengths that form no code, bits that are no code word, a "
  "reserved block type or distance, or refer to before the start are rejected without crashing. (Lengths that form no code "
  "are refused wherever a symbol is to be read with them.)",
  ["inputs"], "all small code-length tables, all small token streams, random larger ones",
  "tests decode a few gzip samples.",
  ["src/decoder.rs", "src/prelude.rs", "doodle-formats/src/format/deflate.rs", "doodle-formats/src/format/run_length.rs"],
  [("make_huffman_codes / Dynamic::Huffman", "src/decoder.rs"), ("parse_huffman", "src/prelude.rs"), ("inflate", "doodle-formats/src/format/deflate.rs")],
  observe=["decoded bytes"])

p("D13", "Expression evaluation computes the defined functions",
  "Every expression form (arithmetic, comparison, bit and boolean logic, casts, endian conversions, sequence indexing, "
  "slicing, concatenation, mapping, folding, searching, self-referential copying, ranges, option and variant handling) "
  "evaluates, for every operand, to the value its definition gives (and to none where it has none: overflow, index out of range, no matching branch), identically in the interpreter, the location-tracking "
  "decoder and the helpers generated code calls.",
  ["inputs", "programs"], "all small well-typed expressions over boundary and random operands",
  "operators are tested on single examples; boundary operands and compositions are not.",
  ["src/decoder.rs", "src/loc_decoder.rs", "src/prelude.rs", "src/decoder/seq_kind.rs", "src/decoder/value.rs"],
  [("Expr::eval", "src/decoder.rs"), ("Expr::eval_with_loc", "src/loc_decoder.rs"), ("prelude", "src/prelude.rs")], observe=["Expr::eval"])

p("D14", "Pattern matching and binding pick the first match and the innermost name",
  "A match on a value selects the first branch whose pattern describes the value, binding each pattern variable to the "
  "corresponding component; a name always refers to its innermost enclosing binding, and bindings never leak out of the "
  "construct that introduced them.",
  ["programs", "inputs"], "all small patterns x values and all small nestings of binders",
  "patterns compose recursively and scopes nest arbitrarily; tests sample neither.",
  ["src/pattern.rs", "src/decoder/value.rs", "src/decoder.rs", "src/loc_decoder.rs"],
  [("Value::matches_inner", "src/decoder/value.rs"), ("Scope / MultiScope / SingleScope", "src/decoder.rs")], observe=["Expr::Match, Format::Match, Let, Record fields"])

p("D15", "Text decoding accepts exactly well-formed UTF-8",
  "The shipped UTF-8 character format accepts a byte sequence exactly when it is the UTF-8 encoding of a Unicode scalar "
  "value and yields that scalar; every overlong, surrogate, out-of-range or truncated sequence is rejected, in the "
  "interpreter and the generated decoder alike.",
  ["inputs"], "all scalars and all malformed sequences up to 4 bytes (by boundary classes)",
  "tests decode a few strings.",
  ["doodle-formats/src/format/text.rs", "src/decoder.rs", "generated/gencode.rs"],
  [("utf8 format", "doodle-formats/src/format/text.rs")], observe=["decoded char"])

p("D16", "Views and zero-copy arrays stay inside their buffer and read exact elements",
  "Offsetting, re-slicing and reading through views and fixed-width arrays yields exactly the big-endian elements at those "
  "positions, or an error when any byte lies outside the parent scope; no arrangement of offset, length, stride or index "
  "reads out of scope, overflows or crashes.",
  ["inputs", "histories"], "all chains of view/scope/array operations over small buffers, with extreme offsets and lengths",
  "tests use in-range accesses.",
  ["src/parser/view.rs", "smallsorts/src/binary/read.rs", "src/parser/mod.rs"],
  [("View", "src/parser/view.rs"), ("ReadScope / ReadCtxt / ReadArray", "smallsorts/src/binary/read.rs")], observe=["View, ReadScope, ReadCtxt, ReadArray APIs"])

p("D17", "Printed expressions parse back to the same expression",
  "The text printed for any well-typed expression is parenthesised so that, read with the printer's own operator precedences, it "
  "denotes the expression it was printed from, up to the regrouping of chains of operators the printer treats as associative "
  "(+ - ++ * & | && || in format expressions): two expressions that differ otherwise never print the same.",
  ["programs"], "all expressions of bounded depth over all operators",
  "tests print a few expressions.",
  ["src/output/tree.rs", "src/precedence.rs", "src/numeric/printer.rs"],
  [("compile_expr / cond_paren", "src/output/tree.rs"), ("Precedence", "src/precedence.rs")], observe=["printed text"])

p("D18", "Generated type names are unique and consistent",
  "Across any set of formats, distinct generated types receive distinct, valid identifiers, a given type keeps one name at "
  "every mention, and the choice does not depend on anything but the formats themselves.",
  ["programs", "histories"], "all histories of name allocation over small name sets; repeated generation",
  "collisions arise only for particular combinations of names.",
  ["src/codegen/name.rs", "src/codegen/mod.rs"], [("NameCtxt / PathLabel", "src/codegen/name.rs")], observe=["generated source", "name.rs API"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), [len(x["title"]) for x in P if len(x["title"]) > 80])
