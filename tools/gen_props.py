#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here because JSONL is unpleasant to edit)."""
import json, os

E = "crates/hcl-edit/src/"
R = "crates/hcl-rs/src/"
P = "crates/hcl-primitives/src/"
props = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
        },
    }
    if observe:
        d["anchors"]["observe_at"] = [observe]
    props.append(d)


p("P01", "Parsing is total and errors point into the input",
  "For every input text, parsing a document, expression or template with hcl-edit or hcl-rs terminates and returns a result instead of panicking or overflowing, as long as the nesting of expressions and blocks is bounded (about 100 levels). "
  "A returned parse error has a location whose line and column (counted in characters from 1) denote a position of the input consistent with the reported offset and the reported source line, and its message renders without panicking. "
  "Parsing time does not explode: it stays polynomial on nested or repetitive inputs.",
  ["inputs"], "every UTF-8 (and, for byte entry points, non-UTF-8) input: valid documents, mutations and truncations of them, token soup, arbitrary bytes",
  "Tests parse a few dozen documents and ~20 hand-written errors; totality is about every possible input.",
  [E + "parser/mod.rs", E + "parser/error.rs", E + "parser/expr.rs", E + "parser/template.rs", R + "error.rs"],
  [("parse entry points", E + "parser/mod.rs"), ("error location and rendering", E + "parser/error.rs"), ("recursive descent over Input", E + "parser/expr.rs")],
  "Result of str::parse::<Body/Expression/Template>, Error::{message,line,location}, Display")

p("P02", "Parsing and printing a document reproduces it byte for byte",
  "Printing a parsed hcl-edit document, expression or template yields the source text unchanged, including comments, blank lines, spacing, number spelling, block and object separators. "
  "The only differences allowed are spellings the API does not represent: escape sequences inside quoted strings and template literals are re-spelled, whitespace that indents a `<<-` heredoc becomes spaces, of items with the same key in an object only the last value is kept, and CRLF line ends behind structures and object items become LF; for these the printed text parses to an equal document and printing it again changes nothing.",
  ["inputs"], "every parseable document, with arbitrary trivia at every position where the grammar allows it",
  "Tests round-trip a handful of fixtures; trivia may occur at any of dozens of grammar positions in any combination.",
  [E + "encode/mod.rs", E + "encode/expr.rs", E + "encode/structure.rs", E + "encode/template.rs", E + "parser/trivia.rs", E + "repr.rs", E + "raw_string.rs"],
  [("encoder", E + "encode"), ("decor capture", E + "parser/repr.rs"), ("Formatted number representation", E + "repr.rs")])

p("P03", "Programmatic and edited documents print to text that parses back equal",
  "A well-formed hcl-edit document that is built through the API without decoration, or derived from a parsed one by replacing, inserting, moving or removing nodes, prints to text that parses to a document equal to the one printed. "
  "Strings, template literals and block labels with arbitrary content, including template markers, quotes, backslashes, control and non-ASCII characters, survive.",
  ["inputs", "histories"], "every canonical AST (operands parenthesised as precedence demands, heredocs ending in a newline) and every sequence of node replacements between documents",
  "Tests print a few constructed documents; the encoder's default decoration must work for every combination of node kinds.",
  [E + "encode/mod.rs", E + "encode/expr.rs", E + "encode/structure.rs", E + "encode/template.rs", E + "template/mod.rs"],
  [("default decor", E + "encode/mod.rs"), ("escaping on encode", E + "encode/template.rs"), ("block body one-line/multi-line choice", E + "encode/structure.rs")])

p("P04", "The parser produces the syntax tree the document denotes",
  "For every valid document, expression and template the parsed tree has exactly the nodes, in order, that HCL's native syntax assigns to the text: operator precedence and left associativity, unary operators, traversals and splats, conditionals, for expressions, calls with namespaces and argument expansion, object keys, literal values after unescaping, heredoc content after indent stripping, template strip markers, block labels and nesting. "
  "hcl-rs's parse functions yield the corresponding tree.",
  ["inputs"], "every valid document, with any layout the grammar permits",
  "Snapshot tests cover single constructs; interactions of operators, layout rules and nested templates are unbounded.",
  [E + "parser/expr.rs", E + "parser/pratt.rs", E + "parser/structure.rs", E + "parser/template.rs", E + "parser/string.rs", E + "parser/number.rs", E + "parser/state.rs"],
  [("operator precedence", E + "parser/pratt.rs"), ("newline handling", E + "parser/context.rs"), ("heredoc and string parsing", E + "parser/template.rs")])

p("P05", "Invalid documents are rejected and valid ones accepted",
  "A text is accepted as document or expression exactly when it belongs to the HCL grammar as hcl-rs defines it: unterminated or mismatched constructs, missing operands or separators, misplaced newlines, invalid escapes, malformed numbers, trailing garbage and duplicate attributes of a body are errors; everything inside the grammar parses. "
  "hcl-edit and hcl-rs agree on which texts are valid.",
  ["inputs"], "every text; in particular small mutations of valid documents, where accept and reject lie close together",
  "Tests contain about 20 invalid inputs; an accidentally lenient or strict rule is invisible to them.",
  [E + "parser/mod.rs", E + "parser/expr.rs", E + "parser/structure.rs", E + "parser/string.rs", E + "parser/number.rs", E + "parser/trivia.rs"],
  [("cut errors", E + "parser/string.rs"), ("duplicate attribute detection", E + "parser/state.rs"), ("trivia newline rules", E + "parser/trivia.rs")])

p("P06", "Spans delimit exactly the source text of each node",
  "After parsing, the span reported by every expression, operator, identifier, template element, attribute and block is the byte range of exactly that node's text without surrounding decoration: it lies inside its parent's span, sits on character boundaries, and the text of an expression's span parses to an equal expression. "
  "Removing spans, or editing, changes no content.",
  ["inputs"], "every parsed document, including multi-byte text and arbitrary trivia",
  "Tests assert the spans of one small document.",
  [E + "repr.rs", E + "parser/repr.rs", E + "parser/structure.rs", E + "parser/template.rs", E + "expr/mod.rs", E + "template/mod.rs"],
  [("span capture", E + "parser/repr.rs"), ("Span trait", E + "repr.rs")])

p("P07", "Edits change only what they touch",
  "Replacing a value, inserting, renaming or removing an attribute, block, array element or object item of a parsed document leaves the text of everything else byte-identical: comments, blank lines and spacing of untouched nodes are kept, and undoing the edit restores the original text. "
  "Giving a replaced value the old value's decoration keeps the text around it unchanged.",
  ["inputs", "histories"], "every parsed document and every sequence of edits through the public mutable API",
  "Tests perform a few edits on one document.",
  [E + "structure/body.rs", E + "structure/block.rs", E + "structure/attribute.rs", E + "expr/array.rs", E + "expr/object.rs", E + "encode/structure.rs", E + "repr.rs"],
  [("value_mut and DerefMut accessors", E + "structure/attribute.rs"), ("Body insertion and removal", E + "structure/body.rs"), ("decor handling", E + "repr.rs")])

p("P08", "Body and block collections behave like ordered lists of structures",
  "After every sequence of operations (push, insert, remove, get, get_mut, has, attribute and block queries by identifier and labels, removal by identifier, attribute insertion, iteration, builders, conversions from and to iterators) a hcl-edit Body and a hcl-rs Body/Block hold exactly the structures in the order an ordered list model predicts, and every query returns what the model returns. "
  "An attribute key stays unique in a hcl-edit body: inserting a duplicate is refused without changing the body.",
  ["histories"], "every sequence of collection operations",
  "Tests run a few single operations; order and index arithmetic errors need sequences.",
  [E + "structure/body.rs", E + "structure/block.rs", E + "structure/mod.rs", R + "structure/body.rs", R + "structure/block.rs", R + "structure/iter.rs"],
  [("Body operations", E + "structure/body.rs"), ("hcl-rs structure iterators", R + "structure/iter.rs")])

p("P09", "Expression collections behave like lists and insertion-ordered maps",
  "After every sequence of operations hcl-edit's Array, Object, FuncArgs and Template, and hcl-rs's Template, Traversal and FuncCall builders, hold exactly the elements in the order a list or insertion-ordered map model predicts: insertion of an existing key replaces the value in place and returns the old one, removal keeps the order of the rest, and get, get_mut and iteration agree. "
  "Equality of these collections is equality of their contents.",
  ["histories"], "every sequence of collection operations",
  "Tests exercise few calls; off-by-one and ordering faults show in longer histories only.",
  [E + "expr/array.rs", E + "expr/object.rs", E + "expr/func_call.rs", E + "template/mod.rs", R + "expr/func_call.rs", R + "expr/traversal.rs", R + "template/mod.rs"],
  [("Object over VecMap", E + "expr/object.rs"), ("Array and FuncArgs over Vec", E + "expr/array.rs"), ("Template elements", E + "template/mod.rs")])

p("P10", "Visitors reach every node exactly once, in document order",
  "Walking a document with the immutable or the mutable visitor calls the hook of every node of the tree (bodies, attributes, blocks, labels, identifiers, every kind of expression, operators, template elements and directives; the mutable visitor leaves out attribute keys and object keys, which cannot be changed in place) exactly once and in document order. "
  "A mutable visitor that changes nothing leaves the document unchanged, and one that rewrites nodes rewrites all of them and nothing else.",
  ["inputs"], "every document tree",
  "Tests visit one or two small documents and count one node kind.",
  [E + "visit.rs", E + "visit_mut.rs"],
  [("visit_* default methods", E + "visit.rs"), ("visit_*_mut default methods", E + "visit_mut.rs")])

p("P11", "Formatting is meaning-preserving under every configuration",
  "Formatting any hcl-rs body, block, attribute, expression, template or value under any formatter configuration (indent, dense, compact arrays and objects, identifier keys) yields text that parses back to an equal value, and formatting that again yields the same text. "
  "The layout follows the configuration: nested content is indented by depth times the indent, compact modes stay on one line, and using one formatter several times equals using a fresh one each time.",
  ["inputs", "configurations", "histories"], "every well-formed hcl-rs value, every configuration and every sequence of uses of a formatter",
  "Tests format a few values with a few configurations.",
  [R + "format/mod.rs", R + "format/impls.rs", R + "format/escape.rs"],
  [("Format implementations", R + "format/impls.rs"), ("formatter state machine", R + "format/mod.rs"), ("string escaping", R + "format/escape.rs")])

p("P12", "Conversions between hcl-rs and hcl-edit trees are lossless",
  "Converting a hcl-edit structure, expression or template to hcl-rs and back gives an equal tree up to decoration and formatting, and converting from hcl-rs to hcl-edit and back gives an equal tree. "
  "Parsing with hcl-rs equals parsing with hcl-edit and converting; every identifier, label, operator, literal, strip marker, heredoc delimiter, argument expansion and grouping flag is carried over.",
  ["inputs"], "every tree of either crate",
  "Tests convert a few documents; a dropped flag on a rare node kind is invisible.",
  [R + "expr/edit.rs", R + "structure/edit.rs", R + "template/edit.rs"],
  [("From/Into implementations", R + "expr/edit.rs"), ("structure conversions", R + "structure/edit.rs"), ("template conversions", R + "template/edit.rs")])

p("P13", "Serialized user data deserializes to an equal value",
  "Serializing any supported Rust value (maps, structs, sequences, tuples, options, newtypes, all enum variant shapes, integers, floats, strings and nested combinations, also wrapped as attributes, blocks and labeled blocks) to HCL text and deserializing the text into the same type yields an equal value; keys and strings with arbitrary content survive. "
  "Serializing through a writer, to a string, or to a body gives the same document, and unsupported values are reported as errors rather than written wrongly.",
  ["inputs"], "every value of the supported data model at every nesting position",
  "Tests serialize a few structs with fixed content.",
  [R + "ser/mod.rs", R + "ser/blocks.rs", R + "de/mod.rs", R + "structure/ser/mod.rs", R + "structure/de.rs", R + "expr/ser/mod.rs", R + "expr/de.rs", R + "value/ser.rs", R + "value/de.rs"],
  [("structure serializer", R + "structure/ser/mod.rs"), ("expression serializer", R + "expr/ser/mod.rs"), ("deserializer", R + "de/mod.rs"), ("block wrappers", R + "ser/blocks.rs")])

p("P14", "Deserializing HCL follows the JSON mapping of the HCL specification",
  "Deserializing a document into a generic value or a user type yields the mapping of the HCL JSON specification: attributes become keys in document order, blocks nest below identifier and labels, blocks with equal identifier and labels are collected into an array in document order, and expressions become values or `${...}` strings of their source form. "
  "All routes (text, bytes, reader, body, hcl-edit, direct deserialization of a structure) agree.",
  ["inputs"], "every document: any interleaving of attributes and blocks with equal or different identifiers and labels",
  "Tests map a few documents; merge order and label nesting depend on the whole sequence of structures.",
  [R + "structure/json_spec.rs", R + "value/from.rs", R + "expr/mod.rs", R + "de/mod.rs", R + "structure/de.rs"],
  [("IntoJsonSpec", R + "structure/json_spec.rs"), ("Expression to Value", R + "value/from.rs"), ("from_str/from_slice/from_reader/from_body", R + "de/mod.rs")])

p("P15", "Values and expressions convert to and from serde data losslessly",
  "Converting serde data to an hcl-rs Value or Expression and back, in any mixture of Value, Expression and JSON representations, preserves every element: the kind, the order and the exact number of every item. "
  "Value accessors, comparisons, indexing and display agree with the contained data, and values of a wrong type or range are rejected with an error rather than altered.",
  ["inputs"], "every serde value tree, including all integer and float ranges and nested enums and options",
  "Tests convert single values.",
  [R + "value/mod.rs", R + "value/ser.rs", R + "value/de.rs", R + "value/from.rs", R + "expr/ser/mod.rs", R + "expr/de.rs", R + "expr/mod.rs"],
  [("to_value/from_value", R + "value/mod.rs"), ("to_expression/from_expression", R + "expr/mod.rs")])

p("P16", "Expression evaluation agrees with HCL's semantics",
  "Evaluating an expression, attribute, block or body in a context yields the value the HCL specification defines as implemented by hcl-rs (literals, variables, arithmetic, comparison, logic, conditionals, for expressions with keys, conditions and grouping, traversals, splats, indexes, function calls, templates), or an error exactly when the semantics defines one (undefined variable or function, wrong operand type, missing key, index out of range, duplicate key, non-finite result). "
  "Evaluation never panics.",
  ["inputs"], "every expression tree over every variable environment",
  "Tests evaluate a few dozen expressions; combinations of operators, types and nesting are unbounded.",
  [R + "eval/mod.rs", R + "eval/impls.rs", R + "eval/expr.rs", R + "eval/error.rs"],
  [("Evaluate implementations", R + "eval/impls.rs"), ("operators, splats, for expressions", R + "eval/expr.rs")])

p("P17", "In-place evaluation replaces what is computable and nothing else",
  "Evaluating a body, block, attribute, expression or template in place reports exactly the failures of its parts (array elements, object keys and values, call arguments, operands, parentheses, index operators, the condition, the chosen branch and the collection of a for) and when none fails the result equals ordinary evaluation. "
  "When some parts fail, all the others are still replaced by their values, the failed ones stay unchanged, all failures are reported together, and evaluating the result again once the missing variables are known gives what evaluating the original would have given. "
  "Variables, template expressions, loop bodies and the base of a traversal are evaluated as one unit: they are replaced as a whole or stay as they are.",
  ["inputs", "fault_sequences"], "every expression tree and every subset of undefined variables",
  "Tests check one partially evaluable body.",
  [R + "eval/impls.rs", R + "eval/mod.rs", R + "eval/error.rs"],
  [("evaluate_in_place", R + "eval/impls.rs"), ("collected Errors", R + "eval/error.rs")])

p("P18", "Template rendering agrees with the template language",
  "Rendering a quoted, bare or heredoc template yields the concatenation the template language defines: literals verbatim, interpolations converted to strings, if/else and for directives expanded in order, `~` markers stripping adjacent spaces up to one newline on exactly their side, `<<-` heredocs without their common indent, and escaped markers left as literal text. "
  "A template that consists of a single interpolation yields the value itself.",
  ["inputs"], "every template tree, every strip marker combination and every environment",
  "Tests render a few templates.",
  [R + "eval/template.rs", R + "template/mod.rs", R + "expr/template_expr.rs", P + "template.rs", E + "template/mod.rs", E + "expr/mod.rs"],
  [("template evaluation and stripping", R + "eval/template.rs"), ("heredoc dedent", E + "expr/mod.rs")])

p("P19", "Function calls enforce the declared signature",
  "A declared function runs exactly when the call's arguments, after expansion of a final list argument, match the declared positional and variadic parameter types in number and type, and it then receives exactly these evaluated arguments in order; every other call is an error that names the problem and the function does not run. "
  "The result or error of the function is the result or error of the call.",
  ["inputs", "programs"], "every signature over the parameter type language and every argument list",
  "Tests call a few functions with fixed signatures.",
  [R + "eval/func.rs", R + "eval/impls.rs", R + "eval/expr.rs"],
  [("FuncDef::call and ParamType::is_satisfied_by", R + "eval/func.rs"), ("argument expansion", R + "eval/impls.rs")])

p("P20", "Numbers obey exact arithmetic, ordering and conversion laws",
  "A number keeps the exact integer or float it was made from; conversions to an integer type return the value exactly or nothing, the conversion to a float returns the nearest float; equality, ordering, hashing and display agree with the mathematical value and with each other over unsigned, signed and float representations; parsing the display form gives the number back. "
  "Arithmetic on integers is exact or falls back to the nearest float instead of wrapping or panicking.",
  ["inputs"], "every pair of 64-bit integers and floats, in particular at range boundaries",
  "Tests add and compare small numbers.",
  [P + "number.rs"], [("Number representation and arithmetic", P + "number.rs")])

p("P21", "Identifiers and escape sequences are handled consistently",
  "Escaping and unescaping of strings and template markers are inverse and never touch other text: any string put into HCL as a literal reads back identically through every crate. "
  "An identifier is accepted exactly if it is a valid HCL identifier, sanitizing any string gives a valid identifier and leaves valid ones unchanged, and unchecked and checked construction agree on valid names.",
  ["inputs"], "every string of Unicode characters",
  "Tests try a few strings.",
  [P + "ident.rs", P + "template.rs", P + "internal_string.rs", R + "format/escape.rs", R + "ident.rs", E + "parser/string.rs"],
  [("escape_markers/unescape_markers", P + "template.rs"), ("Ident::try_new/new_sanitized", P + "ident.rs"), ("Strip", P + "template.rs")])

p("P22", "The perf feature changes no observable behaviour",
  "Built with the `perf` feature, the crates produce byte-identical results for parsing, printing, formatting, serialization, deserialization and evaluation, and for every operation on identifiers and strings whatever their length, compared with the default build.",
  ["configurations", "inputs"], "every input, in both feature configurations",
  "The tests run in a single feature configuration.",
  [P + "internal_string.rs", P + "ident.rs", "crates/hcl-edit/Cargo.toml", "crates/hcl-rs/Cargo.toml"],
  [("InternalString", P + "internal_string.rs")])

p("P23", "hcl2json writes exactly the conversion of its inputs",
  "For every set of inputs (stdin, files, directories, globs) and options, hcl2json writes the JSON the library defines for each file: one object for a single input, an array in argument and sorted walk order for several, keyed by path when paths are requested, pretty or compact, simplified when asked. "
  "A failing input makes it exit non-zero with an error, or is skipped with a report when continuing on errors; parallel processing changes neither content nor order.",
  ["inputs", "configurations", "schedules", "fault_sequences"], "every file tree, option combination and thread count, including invalid and unreadable files",
  "The binary has no tests of its own behaviour with several files, options and errors.",
  ["crates/hcl2json/src/main.rs"], [("argument handling, parallel conversion and output", "crates/hcl2json/src/main.rs")])

p("P24", "Equality and cloning ignore or keep decoration consistently",
  "Equality of hcl-edit nodes never depends on the decoration set before or after nodes, on spans or on number spelling (what a container itself stores besides its elements, such as trailing text and comma, object separators or a heredoc's indent, counts as content), tells nodes of different content apart, is an equivalence, and equal nodes convert to trees of equal meaning; clones are equal and print identically and changing a clone leaves the original alone. "
  "Setting a node's prefix or suffix makes exactly that text appear before or after the node, and accessors return what was set.",
  ["inputs", "histories"], "every node kind, decoration and sequence of decoration changes",
  "Tests compare a few literals.",
  [E + "repr.rs", E + "raw_string.rs", E + "macros.rs", E + "expr/mod.rs", E + "expr/object.rs", E + "structure/mod.rs", E + "template/mod.rs"],
  [("Decorated, Spanned, Formatted", E + "repr.rs"), ("Decor", E + "repr.rs")])

p("P25", "Concurrent and repeated use never changes results",
  "Serialization, deserialization, parsing, formatting and evaluation give the same result whatever ran before on the same thread (including calls that failed, panicked or were nested inside a user's Serialize implementation) and whatever runs at the same time on other threads. "
  "Expressions and templates embedded in user data keep their identity in all these situations and no internal placeholder ever appears in output.",
  ["schedules", "histories", "fault_sequences"], "every history of successful, failing, panicking and nested calls and every interleaving over threads",
  "Tests run each call once on a fresh thread.",
  [R + "expr/ser/mod.rs", R + "structure/ser/mod.rs", R + "ser/mod.rs", R + "ser/blocks.rs", R + "expr/de.rs"],
  [("thread-local internal serialization flag and handles", R + "ser/mod.rs")])

p("P26", "Evaluation contexts scope variables and never leak",
  "A name resolves to the innermost declaration that is visible at its position: loop variables shadow outer ones inside their loop only, a child context sees its parent's variables and functions and never changes the parent, and redeclaration replaces. "
  "Evaluation is pure: evaluating the same expression again, after other evaluations, gives the same result and leaves expression and context unchanged.",
  ["inputs", "histories"], "every nesting of loops and contexts and every sequence of declarations and evaluations",
  "Tests use flat contexts.",
  [R + "eval/mod.rs", R + "eval/expr.rs", R + "eval/template.rs"],
  [("Context", R + "eval/mod.rs"), ("Collection iteration scope", R + "eval/expr.rs")])

p("P27", "Macros construct what their arguments denote",
  "`body!`, `structure!`, `block!`, `attribute!`, `expression!` and `value!` give exactly the structures, labels, keys and values written in them, in the order written, as constructing these without macros does and as parsing the same HCL text does: identifiers, literals and parenthesized Rust expressions as attribute keys, block identifiers, labels and object keys; nested arrays and objects with or without commas; Rust expressions as values, each evaluated exactly once; later entries of an object replace earlier ones with the same key. "
  "They work wherever the crate is in scope, whatever else is imported.",
  ["inputs"], "every invocation of the supported syntax with all values of the Rust expressions in it",
  "Tests use a few fixed invocations.",
  [R + "macros.rs", R + "expr/ser/mod.rs"],
  [("body_internal! structure muncher", R + "macros.rs"), ("expression_internal! object muncher", R + "macros.rs"), ("value_internal!", R + "macros.rs")])

p("P28", "Every way to build a tree gives the same tree",
  "Constructors, builders, From conversions, collecting iterators, Extend and insertion methods of the document trees and values all give the tree their arguments denote: the elements in the order given with their names, labels, keys, operators, markers and payloads, equal to (and printing like) the same tree built by any other route. "
  "Wrappers (decorated, spanned, formatted values, decor, raw strings) return what they were built from, and modification guards write back exactly what was changed.",
  ["inputs"], "every tree and every public route of construction",
  "Tests use one or two routes with fixed contents.",
  [E + "expr/mod.rs", E + "expr/object.rs", E + "structure/block.rs", E + "structure/body.rs", E + "structure/attribute.rs", E + "template/mod.rs", E + "repr.rs", E + "raw_string.rs", R + "structure/block.rs", R + "structure/body.rs", R + "structure/attribute.rs", R + "template/mod.rs", R + "expr/func_call.rs", R + "expr/traversal.rs", R + "expr/mod.rs", R + "value/from.rs"],
  [("BlockBuilder, BodyBuilder", E + "structure/body.rs"), ("BlockBuilder, BodyBuilder", R + "structure/body.rs"), ("FuncCallBuilder, TraversalBuilder", R + "expr/traversal.rs"), ("From for Value", R + "value/from.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in props:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
        for path in d["anchors"]["files"]:
            if not os.path.exists("/repo/" + path):
                print("missing", d["id"], path)
