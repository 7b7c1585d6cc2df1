#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
V = "relaxng-validator/src/lib.rs"
M = "relaxng-model/src/lib.rs"
MM = "relaxng-model/src/model.rs"
X = "relaxng-model/src/datatype/xsd.rs"
R = "relaxng-model/src/datatype/relax.rs"
D = "relaxng-model/src/datatype/mod.rs"
SC = "relaxng-syntax/src/compact.rs"
SX = "relaxng-syntax/src/xml.rs"
ST = "relaxng-syntax/src/types.rs"
T = "relaxng-tool/src/main.rs"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Validation verdict equals RELAX NG semantics",
  "For every correct schema and every well-formed document, validation finishes without an error exactly when the document is valid against the schema under the RELAX NG specification (section 6), counting elements, attributes, text, order, repetition, choice, interleave, mixed, lists, recursion and the special treatment of white-space-only text.",
  ["inputs", "programs"],
  "All pairs (schema without section-7 violations, document), with schemas small enough to stay clear of the documented exponential blow-up of the derivative algorithm.",
  "The 307 tests are fixed schema/document pairs; the derivative functions recurse over every combination of pattern shapes and token histories, of which the tests reach a few dozen and almost never with a wrong-in-one-place document.",
  [V, MM, M],
  [("derivative functions (start-tag open/close, attribute, text, end-tag), pattern interning and nullability flags", V), ("model to derivative-pattern compilation and recursive reference resolution", V)],
  ["Validator::validate_next until None or first error"])
p("C02", "Name classes and namespaces decide which names match",
  "An element or attribute matches a pattern only if its expanded name (namespace URI after resolving the in-scope declarations of the document, local name) belongs to the pattern's name class: a name, prefix:*, *, alternatives and exceptions, with the schema's prefixes, default namespace, and the rules that unprefixed attributes have no namespace and that the xml prefix is predeclared.",
  ["inputs", "programs"],
  "All name classes over several namespaces (including none), all declaration layouts of the schema, and all documents with nested, shadowed, undeclared and default namespace declarations.",
  "Whether a name is in a class depends on the combination of class structure, schema declarations and the scoping history of the document; tests try single points, and never sibling or shadowed scopes.",
  [V, M, SC, SX],
  [("contains() over NameClass", V), ("ElementStack namespace scoping", V), ("Context namespace declarations / compile_nameclass", M)],
  ["Validator::validate_next verdict"])
p("C03", "Compact and XML syntax of one schema are equivalent",
  "A schema written in the compact syntax and the same schema written in the XML syntax are either both rejected or both accepted, and when accepted they give the same verdict on every document.",
  ["programs", "inputs"],
  "All schemas expressible in both syntaxes (all pattern forms, name classes, datatypes with parameters and exceptions, values, grammars with combine, div, include, externalRef, nested grammars and parent references) and documents derived from them.",
  "Two independent front ends feed one back end and no test compares them; the spec suite only exercises the XML one and the unit tests mostly the compact one.",
  [SC, SX, M],
  [("nom parser for the compact syntax", SC), ("roxmltree-based reader of the XML syntax", SX)],
  ["Compiler::compile result and Validator::validate_next verdict under both Syntax values"])
p("C04", "Grammar composition equals the flattened schema",
  "Splitting a schema into named definitions does not change what it accepts: references, definitions combined with |= and &= in any order and with or without one plain definition, div sections, recursive definitions, nested grammars and parent references validate exactly the documents that the simplified single pattern (spec section 4.17 to 4.19) does.",
  ["programs", "inputs"],
  "All well-formed grammars built from these constructs, in any order of definitions (forward, backward and mutual references), with valid and near-valid documents.",
  "The order in which definitions are seen drives the merge of combined definitions and the placeholder resolution for recursive references; tests use a handful of orders.",
  [M, V],
  [("Context::define / merge of definitions", M), ("compile_grammar_pattern, acquire_parent_ref", M), ("placeholder resolution of references", V)],
  ["Validator::validate_next verdict"])
p("C05", "Multi-file schemas: include, overrides, external",
  "A schema spread over files with include (with or without overriding definitions, inside div, in nested grammars, in sub-directories, several levels deep) or external references validates exactly the documents of the equivalent single-file schema: overridden definitions are replaced entirely, all others keep their meaning, and each file is interpreted with its own declarations (an inherited namespace excepted); the compiler names exactly these files as loaded.",
  ["programs", "inputs", "configurations"],
  "All acyclic file layouts over an in-memory file system, with all definitions, combinations and overrides placed in any file.",
  "Resolution depends on which file defines, combines or overrides which name and on relative paths; the suite has a few two-file cases.",
  [M],
  [("Context::Include / IncludeOverrides", M), ("compile_include, compile_external, get_schema path handling", M)],
  ["Compiler::compile with a Files implementation, then Validator verdict"])
p("C06", "Ill-formed schemas are rejected with the right error",
  "A schema that breaks a well-formedness rule (undefined reference, undefined prefix or datatype prefix, missing start, duplicate definition, mixed |= and &=, recursion not guarded by an element even through several definitions, recursive or missing include, included file that is not a grammar, override without counterpart, parent reference without parent, element written inside an attribute, unknown datatype or library, illegal parameter) is rejected by compilation with the error kind that names that fault, and a schema without such a fault is never rejected.",
  ["programs"],
  "All correct schemas (must compile) and every way of injecting exactly one such fault at any place reachable or not reachable from start (must be rejected with that kind).",
  "Tests contain one instance of some faults at one position; detection depends on where the fault sits (nested grammar, div, include, attribute, unreachable definition) and on the order of definitions.",
  [M, D, X, R],
  [("Context checks (acquire_ref, check_ref_recursion, acquire_parent_ref, check_include, new_element)", M), ("merge rules for definitions", M)],
  ["Result of Compiler::compile and the RelaxError variant"])
p("C07", "Equivalent spellings of a document get the same verdict",
  "Two documents with the same information content get the same verdict: adding comments, processing instructions, an XML declaration or DOCTYPE, splitting text into CDATA sections or character and entity references, reordering attributes, changing quote style, writing an empty element either way, renaming prefixes or moving namespace declarations, and adding white space between elements where it is not significant never changes the outcome.",
  ["inputs"],
  "All documents (valid and invalid for the schema) and all compositions of these rewrites applied at random places.",
  "The validator works on a raw token stream, so every spelling is a different token history; tests contain a few single rewrites.",
  [V],
  [("token dispatch and text assembly in Validator::validate", V), ("entity and character reference decoding", V)],
  ["Validator::validate_next verdict for the original and the rewritten document"])
p("C08", "A document that is not well-formed is never accepted",
  "A document that is not well-formed XML with namespaces (truncated anywhere, unclosed or mismatched tags, no or several root elements, text outside the root, duplicate attributes, undefined entity or prefix, malformed reference or markup) always produces an error and is never reported as valid, whatever the schema allows.",
  ["inputs", "fault_sequences"],
  "All single well-formedness faults injected into documents that are valid before the fault, including truncation at every byte, with permissive schemas (anyName, text).",
  "Each fault must be noticed in every parser and pattern state; the tests hold two or three such documents and all of them are also schema-invalid.",
  [V],
  [("tokenizer error propagation, element stack and end-of-input handling in validate_next", V)],
  ["Validator::validate_next yields at least one error"])
p("C09", "Loading any schema text ends in a result with a usable error",
  "For every text given as a compact or XML schema (or as an included file), compilation returns a schema or an error and never panics, overflows the stack or hangs; every reported error can be rendered as a diagnostic and its source spans lie inside the named file on character boundaries.",
  ["inputs", "programs"],
  "Arbitrary text: random bytes that are UTF-8, token soup, mutated, truncated and spliced real schemas, all single-fault schemas of C06 and facet errors, up to bounded nesting depth.",
  "Robustness over arbitrary text is universally quantified; tests only load hand-written schemas and assert little about diagnostics.",
  [SC, SX, ST, M, X],
  [("schema() entry points of both parsers", SC + ", " + SX), ("Compiler::compile, dump_diagnostic and span conversion", M)],
  ["Compiler::compile result, Compiler::dump_diagnostic"])
p("C10", "Validating any document ends in a verdict with a usable error",
  "For every correct schema and every text given as the document, validation terminates after at most one step per token without panicking, and every error can be turned into a diagnostic whose spans lie inside the document on character boundaries and whose main span covers the offending construct.",
  ["inputs"],
  "Arbitrary text: valid documents with random edits, splices, truncations, entity and DTD fragments, multi-byte characters, and unrelated XML.",
  "Quantified over all document texts; the only tests of diagnostic() call it on failures that never happen.",
  [V],
  [("Validator::validate_next / validate", V), ("Validator::diagnostic span computation", V)],
  ["Validator::validate_next, Validator::diagnostic"])
p("C11", "XSD numeric types accept exactly their value range",
  "The XSD numeric types (integer, positiveInteger, long, int, short, the unsigned ones, decimal, double), with any legal combination of minInclusive, minExclusive, maxInclusive, maxExclusive, totalDigits and fractionDigits, accept a string exactly when, after white-space collapsing, it is in the lexical space of the type and its value satisfies every facet.",
  ["inputs", "programs"],
  "All types, facet combinations and candidate strings, concentrated on bounds and bounds +-1, type limits, signs, leading zeros, exponents, fractions, white space and junk.",
  "Range and lexical checks are per type and per facet, so a wrong boundary in one of a hundred combinations is invisible to example tests, which check a few values.",
  [X],
  [("XsdDatatypes::is_valid, MinMaxFacet", X)],
  ["Datatype::is_valid through compiled schemas and Validator verdict"])
p("C12", "XSD string-like types obey length and pattern facets",
  "For string, normalizedString, token, NCName, NMTOKEN, NMTOKENS and every type that takes a pattern, a value is accepted exactly when it is in the type's lexical space after the type's white-space processing, its length in characters (in list items for NMTOKENS) satisfies length, minLength and maxLength, and the whole value matches the pattern.",
  ["inputs", "programs"],
  "All legal facet combinations in any order and candidate strings around the length bounds, with multi-byte characters, all white-space characters, and pattern matches at only part of the value.",
  "Combination of type, facets, facet order and white space; tests fix one of each.",
  [X, R],
  [("LengthFacet, StringFacets, PatternFacet", X), ("normalize_whitespace", R)],
  ["Datatype verdict through compiled schemas"])
p("C13", "XSD boolean, language, name, date and duration types",
  "boolean, language, ID, IDREF, NCName, NMTOKEN, anyURI, date, dateTime and duration accept exactly the lexical space XML Schema part 2 gives them (after white-space collapsing), including time-zone, fraction, leap-day and sign rules.",
  ["inputs"],
  "Strings generated from each type's grammar plus single-edit neighbours of them.",
  "Lexical spaces are infinite and the code decides them by hand-written expressions; tests try a few literals.",
  [X],
  [("LANG_RE, DATETIME_RE, DURATION_RE and library parsers in XsdDatatypes::is_valid", X)],
  ["Datatype verdict through compiled schemas"])
p("C14", "Built-in datatypes, literal values, exceptions and lists",
  "string and token values (built-in and XSD) match by exact and by white-space-normalised equality respectively, a literal without a type is a token, data with an exception accepts exactly the strings of the type that the exception does not match, and a list matches exactly when the sequence of white-space separated tokens matches its content, both in attribute values and in element content.",
  ["inputs", "programs"],
  "All nestings of choice, value, data, except and list allowed by the specification, with values near the literals (white space variants, prefixes, different case, more or fewer tokens).",
  "White-space handling and list matching depend on the exact value and the surrounding pattern; tests hold single examples.",
  [R, D, V],
  [("BuiltinDatatypeValue::is_valid, normalize_whitespace", R), ("text_deriv for values, except and list", V)],
  ["Validator verdict"])
p("C15", "Facet declarations are checked and independent of order",
  "Parameters of a datatype mean the same in whatever order they are written; contradictory bounds, ill-typed parameter values, repeated or unknown parameters, invalid patterns and parameters on built-in types are rejected at compile time with an error naming the problem, and consistent ones are accepted.",
  ["programs"],
  "All XSD types and lists of one to four parameters with values around each other's bounds, in all permutations.",
  "Merging is order dependent code with one arm per pair of facets; tests cover two pairs.",
  [X, M, R],
  [("LengthFacet::merge, MinMaxFacet::{min,max}_{inclusive,exclusive}", X)],
  ["Compiler::compile result and public facet accessors"])
p("C16", "The first error points at the first offending construct",
  "When a document is invalid, validation reports its first error at the earliest construct after which no continuation of the document could be valid: no error is reported while the prefix read so far can still be completed to a valid document, and the error comes no later than the end of the tag or text after which it cannot.",
  ["inputs", "programs"],
  "All schema and invalid document pairs of C01, with the set of completable prefixes decided by the reference model.",
  "Needs the exact boundary between viable and dead prefixes for every pair; tests only look at whether some error occurs.",
  [V],
  [("NotAllowed detection after each derivative", V)],
  ["index and source position of the token for which validate_next returns the first error"])
p("C17", "The expected-element help lists what may come next",
  "When an unexpected element or end tag is reported, the help message lists exactly the names of elements that the schema would allow at that place (at most four of them, followed by the number of remaining ones), and suggests removal when no element is possible.",
  ["inputs", "programs"],
  "All schema and document pairs that fail at an element start tag or an end tag, with the allowed set computed by the reference model.",
  "The set depends on the derivative state reached by the whole document prefix; no test looks at the help text.",
  [V],
  [("heads(), describe_expected(), diagnostic()", V)],
  ["Validator::diagnostic Help message"])
p("C18", "The rng command reports every document's verdict in its exit code",
  "rng validate exits with 0 exactly when the schema is correct and every listed document is readable and valid, with 1 when the schema cannot be loaded, and with 2 when some document is unreadable, not well-formed or invalid, whatever the number and order of documents; problems are described on standard error, with the name of the file unless the error has no position.",
  ["inputs", "configurations", "histories"],
  "All combinations of a correct or broken schema file and lists of valid, invalid, ill-formed, missing and non-UTF-8 documents.",
  "There is no test of the command; the outcome depends on the sequence of documents.",
  [T],
  [("main() loop over documents and exit codes", T)],
  ["process exit status and standard error of the rng binary"])
p("C19", "Verdicts are deterministic and independent of history",
  "The verdict on a document depends only on the schema text and the document: compiling again, using another compiler, validating other documents (valid, invalid or abandoned half-way) before or interleaved with it against the same compiled schema, or having failed to compile another schema with the same compiler never changes the verdict or the position of the first error.",
  ["histories", "inputs"],
  "All sequences of compile, validate, step and abandon operations over a pool of schemas and documents.",
  "Compiled schemas and loaded files are shared, mutable, reference-counted state; tests use each once.",
  [V, M],
  [("Compiler::loaded cache, Rc<RefCell<..>> definitions", M), ("per-validator Schema interning", V)],
  ["verdict and first error position per document"])
p("C20", "Long and deep documents are handled like short ones",
  "The verdict does not depend on the size of the document: repeating a repeatable part thousands of times or nesting a recursive part hundreds of levels keeps a valid document valid and an invalid one invalid, without panicking, and the work per element does not grow with the number of elements before it.",
  ["inputs"],
  "Schemas with repetition and recursion; documents with up to tens of thousands of elements, attributes values and text chunks, nesting up to thousands.",
  "Size-dependent failures (tables of patterns running full, growth per step) need documents far larger than any in the tests.",
  [V],
  [("Schema::push interning and choice/group/interleave simplification", V)],
  ["verdict, absence of panics"])
p("C21", "Equivalent spellings of a compact schema mean the same",
  "Compact-syntax schemas that differ only in white space, comments, annotations, redundant parentheses, quoting or concatenation of literals, escaping of identifiers, order of declarations or prefix names parse to the same schema and give the same verdicts.",
  ["programs"],
  "All schemas and all compositions of these rewrites.",
  "Every token boundary and literal form is a separate parser path; the parser tests pin single spellings.",
  [SC],
  [("lexical rules (ws, comments, annotations, literals, identifiers)", SC)],
  ["parsed schema (modulo spans) and Compiler/Validator verdict"])
p("C22", "Equivalent spellings of an XML schema mean the same",
  "XML-syntax schemas that differ only in white space, comments, foreign elements and attributes, prefix choice, div wrapping, explicit or implicit groups, position of inherited ns and datatypeLibrary attributes, name attribute versus name element, or expanded shorthand (zeroOrMore, optional, mixed, several children) give the same verdicts.",
  ["programs"],
  "All schemas and all compositions of these rewrites.",
  "Inheritance of attributes and skipping of foreign markup happen at every element kind; the spec suite shows single instances.",
  [SX],
  [("element dispatch, attribute inheritance and foreign content skipping", SX)],
  ["Compiler/Validator verdict"])
p("C23", "The compact parser returns the schema that was written",
  "Parsing the text of any schema in compact syntax returns an abstract syntax tree that states exactly what was written (declarations, names, operators and their nesting, literals, parameters, definitions, includes), with the spans of names and literals covering exactly their text, and text that is not a schema is reported as an error.",
  ["inputs", "programs"],
  "All abstract syntax trees printed as text, and single-token deletions that make the text ungrammatical.",
  "Round trip over the whole grammar; the parser tests pin a few dozen productions one at a time.",
  [SC, ST],
  [("compact::schema and its sub-parsers", SC)],
  ["relaxng_syntax::compact::schema result compared with the generated tree"])
p("C24", "The XML-syntax parser accepts exactly what RELAX NG's full syntax allows",
  "An XML document is accepted as a schema exactly when the grammar of the full RELAX NG syntax allows it: every required child and attribute is there, no RELAX NG element, attribute or text is where it has no meaning, names are names (white space around them aside), prefixes are declared, and foreign elements and attributes are ignored where they may occur. The syntax tree returned for an accepted schema states exactly what was written, with inherited ns, datatypeLibrary and xml:base resolved, and with spans that cover it.",
  ["inputs", "programs"],
  "All trees of elements, text, comments and foreign markup, in any combination of children and attributes.",
  "Each element kind has its own hand-written checks of children, attributes and text; the spec suite has one example of each violation it thought of.",
  [SX, ST],
  [("xml::schema and the functions per element", SX)],
  ["relaxng_syntax::xml::schema result compared with a reader of the specification's grammar"])
p("C25", "The compact parser accepts exactly what the compact syntax allows",
  "A text is accepted in compact syntax exactly when its tokens follow the grammar of the compact syntax, wherever white space and comments are written between them and wherever they touch, with any kind of newline; tokens are delimited by the lexical rules (a keyword that starts a longer name is part of that name, literals end at their quotes and hold only characters of XML, escape sequences stand for one), and the tree returned does not depend on the spacing.",
  ["inputs", "programs"],
  "All sequences of tokens, and all ways to write them next to each other.",
  "Token boundaries are implicit in a parser without a lexer: each pair of neighbouring tokens in each production is its own path, and the tests write schemas with conventional spacing.",
  [SC, ST],
  [("compact::schema, lexical rules and productions", SC)],
  ["relaxng_syntax::compact::schema result compared with a recursive-descent reader of the grammar over the tokens"])
p("C26", "The compiled model states the schema's patterns, files and limits",
  "The model which relaxng-model returns for a correct schema (patterns, name classes, resolved references, datatypes) describes, read by the definitions of its parts and without the validator, exactly the documents the schema allows; each datatype states its own name, whether it is limited, and the inclusive limits, lengths, digits and pattern that its parameters give; and the compiler's list of loaded files names exactly the files that were read.",
  ["inputs", "programs"],
  "All correct schemas over one or several files in either syntax with documents near them, and all datatypes with legal parameters in any order.",
  "Other programs use the model without the validator, but all tests look at it through the validator, which hides forms that it treats alike, and no test calls the functions that state limits.",
  [M, MM, X, R],
  [("Compiler::compile and Compiler::loaded", M), ("Pattern, NameClass and PatRef", MM), ("bounded, min, max, min_len, max_len, regex", X)],
  ["public fields and functions of relaxng_model::model and relaxng_model::datatype"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
