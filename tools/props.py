"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py  rewrites both."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, q, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, technique=technique, note=note, na=na))


L = "latex2json/"
PAR, HND, STR_, UT = L + "parser/", L + "parser/handlers/", L + "structure/", L + "utils/"

prop("C01", "Documents processed by one reader do not influence each other",
     "The output a reader or parser produces for a document is the same whether or not it has processed other documents before: macros, environments, conditionals, labels, colours, columns, bibliographies, saved boxes and error states of one document never show up in the next, also when the previous one failed half-way. Everything a run accumulates is dropped by clear(), which every document run performs before it starts.",
     ["histories"], "every sequence of documents (including failing ones) given to one reader",
     "Tests parse one or two documents per fixture; leakage depends on which of ~100 stateful locations the earlier document touched and on where it stopped.",
     [L + "tex_reader.py", PAR + "tex_parser.py", HND + "command_processor.py", PAR + "tex_preprocessor.py"],
     [("TexReader.clear / LatexParser.clear and the clear() chain of handlers", PAR + "tex_parser.py")],
     "points-to + must-reset dataflow",
     "Every mutation site reachable from processing a document must act on an object that clear() definitely replaces or empties (or on an object of the run). Trusted: the points-to model of Python built-ins; objects reached only through C extensions.")
prop("C02", "Reader, parser and builder instances are independent",
     "Two readers, parsers or builders never influence each other: parsing or building with one instance changes no module-level table, class attribute or default argument that another instance reads. No function keeps document-dependent data in process-wide state.",
     ["histories", "schedules"], "every interleaving of operations on any number of instances in one process",
     "Sharing shows only when two instances interleave on the affected construct; tests create instances but never compare across them.",
     [L + "tex_reader.py", PAR + "tex_parser.py", L + "structure/builder.py", PAR + "patterns.py"],
     [("instance attributes assigned in __init__", "every handler class")],
     "points-to effect analysis",
     "Every mutation site in code reachable from the API is an obligation: its receiver may not be reachable from a module global, class attribute or default argument (constants-only caches excepted).")
prop("C03", "The builder leaves its input alone and starts every build fresh",
     "Building the token tree never modifies the token list or dictionaries the caller passed in, and the result of a build depends only on its input: section counters, numbering and other builder state of an earlier build never show up in a later one.",
     ["histories", "inputs"], "every token tree, every sequence of builds",
     "Tests compare outputs only; a mutation of the input or state left by a previous build is invisible unless the same input or builder is used again.",
     [STR_ + "builder.py"], [("deepcopy and clear() at the start of a build", STR_ + "builder.py")],
     "points-to mutation analysis + definite-assignment dataflow",
     "All mutation sites reachable from the public build methods are checked against the objects of the caller's tree; builder state must be re-established before it is read.")
prop("C04", "Archive extraction stays inside the temporary directory",
     "Whatever the members of a zip, tar or gzip archive are called or link to (absolute paths, parent traversal, sibling-prefix names, symbolic or hard links, device files), extracting it creates nothing outside the temporary directory made for it: such members are skipped. A compressed single file is written under its base name inside that directory.",
     ["inputs"], "every archive",
     "Archives are adversarial input (downloaded papers); tests only extract well-formed archives.",
     [L + "tex_file_extractor.py"], [("member filtering before extraction", L + "tex_file_extractor.py")],
     "abstract interpretation per member danger class",
     "For each of 9 danger classes (format x kind) the extraction code is interpreted with three-valued guards; the member may not reach an extract/write call. Trusted: standard-library behaviour of zipfile/tarfile/os.path as modelled.")
prop("C05", "Temporary directories are owned or removed on every path",
     "Every temporary directory created while processing an archive is either removed or handed to the caller in the returned result, on every exit: success, failure of any step and interruption. With cleanup requested it does not exist when the call returns; cleaning up a result removes its directory, forgets it, and may be repeated.",
     ["crash_points", "fault_sequences"], "every step of extraction and processing failing or being interrupted",
     "Needs a failure at each individual call; tests exercise a couple of failures.",
     [L + "tex_file_extractor.py", L + "tex_reader.py"], [("context manager with try/finally", L + "tex_file_extractor.py"), ("ProcessingResult.cleanup", L + "tex_reader.py")],
     "typestate analysis over exceptional paths",
     "All structured paths (normal, return, every call raising any BaseException) through the entry points with package callees inlined. A failing rmtree itself is out of scope.")
prop("C06", "Processing a document has no effects outside its own files",
     "Processing a document never starts processes, evaluates code, opens network connections or changes process-wide settings (working directory, environment, locale, random seed), and it never creates, changes or deletes files except inside the temporary directory it made itself and the output path given by the caller.",
     ["inputs", "programs"], "every document and every call of the public API",
     "Absence of an effect on every path cannot be sampled.",
     [L + "tex_reader.py", L + "tex_file_extractor.py", UT + "tex_utils.py"], [("no such calls in the package", L)],
     "effect and provenance analysis over the points-to call graph",
     "Every external call reachable from the API is classified; write/delete paths must carry temporary-directory or caller-output provenance.")
prop("C07", "Parser output uses only the token vocabulary the builder knows",
     "Every token the parser emits has a type the output stage understands: one of the published token types or an internal type that a later stage consumes. No document can make the parser emit a token of an unknown type.",
     ["inputs", "programs"], "every command and environment handler, every document",
     "Tests look at the tokens of sample documents; a misspelt type in a rare branch silently drops content.",
     [STR_ + "tokens/types.py", STR_ + "token_factory.py", STR_ + "builder.py", HND], [("TokenType, TokenMap", STR_ + "tokens")], 
     'abstract interpretation of every handler and of LatexParser.parse to the set of token shapes; each shape interpreted through TokenBuilder.build',
     'Values the interpreter cannot follow (a token type that is not a compile-time constant) are reported, field contents it cannot follow are not judged. Recursion over nested parses is by induction.')
prop("C08", "Parser tokens fit the output schema",
     "Every token the parser can emit for a published type can be turned into the output model of that type: required fields are present, field values have the declared shape. Building the output of a parsed document never fails on a schema mismatch.",
     ["inputs", "programs"], "every token construction site of the parser",
     "A missing field shows only when the rare construct that produces it appears in a document.",
     [STR_ + "tokens", STR_ + "token_factory.py", STR_ + "builder.py", HND], [("pydantic models", STR_ + "tokens"), ("TokenFactory", STR_ + "token_factory.py")], 
     'abstract interpretation from token shapes through TokenBuilder.build/TokenFactory.create to model constructor calls; type compatibility with the declared pydantic fields',
     'Pydantic validation is modelled (sa/model.py). Field values shown as ? (not followed) are not judged and are counted in the evidence.')
prop("C09", "Labels, styles, numbering and nested fields survive to the JSON",
     "A label, style list, numbering or nested token list that is present on a parsed token is present on the corresponding token of the output and of its JSON: no model, conversion step or serializer drops it.",
     ["inputs", "programs"], "every token type and every nesting",
     "Tests check a few token types; loss happens per type and per nesting position.",
     [STR_ + "tokens", STR_ + "token_factory.py", STR_ + "builder.py"], [("BaseToken fields and model_dump", STR_ + "tokens/base.py")], 
     'abstract interpretation of token-to-model conversion and of the model serializers; per-field provenance of what reaches the dump',
     'Covers presence of labels, styles, numbering, titles and nested lists per (token type, field, nesting); an element dropped for its run-time value inside a conversion loop is seen only where the filter is a comprehension or is decided by the shapes.')
prop("C10", "Scanning loops always advance",
     "Every loop that scans document text moves strictly forward on every iteration or ends; no input makes the parser process the same position again without having consumed or removed text.",
     ["inputs"], "every document text",
     "A non-advancing iteration needs a specific malformed construct; tests contain a handful.",
     [PAR + "tex_parser.py", UT + "tex_utils.py", HND, PAR], [("position updates and progress guards", PAR + "tex_parser.py")], na="every iteration adds a length returned by a handler or a pattern, or cuts the text there; whether that length is positive depends on the matched document text (a pattern that can match the empty string, macros and \\let aliases the document defines, text put back in front of the position), which no static argument in reach bounds for the 45 scanning loops. Two non-advancing cases found while reading the code were repaired (2be0d23, 0c2a0d4).")
prop("C11", "Malformed LaTeX never aborts the parse",
     "Missing arguments, unclosed groups or environments and truncated constructs are tolerated everywhere: parsing returns tokens for the rest of the document and never fails with an exception because a delimiter or argument was not found.",
     ["inputs"], "every truncation or mutation of a document",
     "There are hundreds of optional match results; each failure needs its own malformed input.",
     [HND, PAR, UT + "tex_utils.py"], [("None checks on match results", HND)], 
     'abstract interpretation over a None / list-length domain with regex group facts, plus exception-escape analysis over the call graph',
     'All text is arbitrary. Relations the domain does not carry (a length compared with a variable, which alternative of a pattern matched) are not judged; recursion depth is outside the property.')
prop("C12", "The public API reports failures through its documented exceptions",
     'Reading, processing and saving through the reader raise only the documented errors: FileNotFoundError for a missing input, TexProcessingError when a file, folder or conversion fails, RuntimeError for a failed archive. A failure to locate, extract, build, convert or save is never swallowed into an apparently successful result, and the original error stays attached as the cause of a translated one. (The parser skipping a document file it cannot parse, with a logged error, is its documented behaviour and not part of this.)',
     ["fault_sequences", "crash_points"], "every internal call failing with any exception",
     "Tests provoke two or three failures; the contract is about every possible point of failure.",
     [L + "tex_reader.py"], [("_handle_file_operation", L + "tex_reader.py")], 
     'exceptional-path analysis over the call graph',
     "Every internal or I/O call may fail with any Exception. The parser's own tolerance (a document file that cannot be parsed is logged and skipped) is outside the property.")
prop("C13", "Circular file inclusion terminates",
     "A file that includes itself, directly or through other files, by any of the inclusion mechanisms (input/include, packages, bibliographies, flattening), is not processed again inside itself; processing terminates.",
     ["inputs", "programs"], "every inclusion graph of files",
     "Cycles of every length and through every mechanism cannot be enumerated by example.",
     [PAR + "tex_parser.py", PAR + "tex_preprocessor.py", UT + "tex_utils.py", PAR + "flatten.py"], [("set of open files", PAR + "tex_parser.py")], 
     'guard analysis over recursive components of the points-to call graph',
     'In every recursive component of the call graph, a call that hands on text read from a file must be dominated by a membership test of the normalised path in a collection that already holds it; nothing inside the recursion may empty it. Assumes a run can name finitely many normalised paths.')
prop("C14", "Documents cannot redefine structural commands",
     "Whatever way a document defines macros (newcommand, def, let, DeclareMathOperator, newif, package files and so on), the structural commands the parser relies on (sectioning, environments, references, captions, ...) keep their meaning: a definition of a protected command is never registered as a user command, and no registered command takes over uses of a longer, protected name.",
     ["inputs", "programs"], "every definition mechanism and every protected name",
     "Each definition mechanism registers through its own path; tests cover one or two.",
     [HND + "command_manager.py", PAR + "patterns.py", PAR + "tex_preprocessor.py", PAR + "tex_parser.py"], [("WHITELISTED_COMMANDS guard", HND + "command_manager.py")], 
     'guard-dominance analysis over the points-to call graph and constant folding of usage patterns',
     'Covers command registration; redefining an environment (newenvironment, newtheorem) is legitimate. Pattern pieces the folder cannot resolve are not judged.')
prop("C15", "Output is a deterministic function of the input",
     "Processing the same input gives the same tokens and the same JSON on every machine and in every process: nothing in the result depends on hash seeds, set or directory listing order, time, random numbers, process ids, environment variables or the temporary directory's name.",
     ["configurations", "histories"], "every hash seed, directory order, clock and environment",
     "Tests run in one process with one hash seed on one file system.",
     [L + "tex_reader.py", UT + "tex_utils.py", STR_ + "tokens/base.py", PAR + "patterns.py"], [("sorted() directory listings; lists instead of sets", UT + "tex_utils.py")], 
     'points-to order/taint analysis, regex-disjointness for first-match loops',
     'Unordered values (sets, directory listings, containers filled from them) may only be consumed order-insensitively; clocks, random numbers, identities and environment only feed logging; temporary-directory provenance never reaches tokens. Dictionaries are ordered; other library functions are assumed deterministic.')
prop("C16", "Any file encoding can be read and any output written",
     "Reading a document, included file, style file or bibliography never fails because of its encoding, whatever bytes it contains and whatever encoding is detected; undecodable bytes are replaced. Text that is written (JSON output) uses an explicit UTF-8 encoding.",
     ["inputs", "configurations"], "every byte content of every kind of input file, every locale",
     "Tests run in a UTF-8 locale on UTF-8 files.",
     [UT + "encoding.py", PAR + "tex_parser.py", PAR + "sty_parser.py", PAR + "bib/bib_parser.py"], [("read_file with total fallback", UT + "encoding.py")], 
     'decode/encode-totality analysis over the call graph',
     "Every reachable decode site is total or recovers into a total decode, text writes name UTF-8, computed characters exclude surrogates. chardet itself is assumed not to raise; OS errors are C12's subject.")
prop("C17", "Math-only macros do not fire in text",
     "A macro declared for math only (DeclareMathOperator, DeclareMathAlphabet, DeclareSymbolFontAlphabet) is only expanded where math is parsed; the same name in running text is left to the text handlers.",
     ["inputs"], "every document with math declarations",
     "Needs the combination of declaration and use in text.",
     [HND + "command_manager.py"], [("math_mode_only flag", HND + "command_manager.py")], 
     'abstract interpretation of declaration, registration and text-mode expansion over an abstract command registry; points-to/dataflow query for who turns math mode on',
     'Macros that merely use a math-only macro in their body, and \\let copies of one, are not math-only by design.')
prop("C18", "Returned results share no mutable state with the parser",
     "The token lists, tokens and colour map returned to the caller are never changed afterwards by the reader, parser or builder: clearing, re-using or discarding them leaves earlier results intact, and changing a returned result does not affect later runs.",
     ["histories"], "every later operation on the instance that produced a result",
     "Tests look at a result immediately.",
     [L + "tex_reader.py", PAR + "tex_parser.py", STR_ + "builder.py"], [("fresh containers on clear; copies", PAR + "tex_parser.py")], na="deciding it needs a heap alias analysis that separates the containers of one run from those of the next; tokens are plain dicts built, merged and passed on in every handler, and the allocation-site abstraction available here merges them all, so it would either report everything or nothing. The decidable parts (state that survives clear(), state shared between instances) are claimed as C01 and C02.")
prop("C19", "Style names in the output come from the published style table",
     "Every style the parser derives from formatting commands and font declarations is one of the published frontend style names; no internal or LaTeX-only style name reaches the output.",
     ["inputs", "programs"], "every formatting command known to the parser",
     "There are dozens of commands, tests check a few.",
     [HND + "text_formatting.py", HND + "legacy_formatting.py"], [("LEGACY_FORMAT_MAPPING, FRONTEND_STYLE_MAPPING", HND)], 
     'constant folding and backward value slicing',
     'A leaf the slice cannot resolve is not judged.')
prop("C20", "Parser context is restored on every exit",
     'Whatever happens while an included file is parsed (normal end, early return, exception), the base directory for relative paths and the set of open files are afterwards what they were before, and so is the current environment when the inclusion failed; the same for the base directory of package/style files. After the content of an environment has been processed the current environment is again the enclosing one, so later labels attach to the right element.',
     ["crash_points", "inputs"], "every exit path of every scoped operation",
     "Needs an exception at a particular point inside a nested construct and then more document.",
     [PAR + "tex_parser.py"], [("try/finally restoration", PAR + "tex_parser.py")], 
     'path-sensitive save/restore (typestate) analysis',
     'Nested parsing is an opaque step that may fail; inner inclusions are handled by induction.')
prop("C21", "A failed save never destroys an existing output file",
     'Saving converts the whole result before the output file is touched: when the conversion fails, the output file is neither created nor truncated, removed or replaced. A save that returns normally has written the result.',
     ["crash_points", "fault_sequences"], "every failure during conversion",
     "Needs a conversion failure with an existing output file.",
     [L + "tex_reader.py"], [("json computed before write_text", L + "tex_reader.py")], 
     'typestate analysis over exceptional paths',
     'Work that can still fail after the output has been touched is: document conversion and JSON encoding. Failures of the write system call itself are out of scope.')
prop("C22", "No regular expression backtracks exponentially",
     "None of the regular expressions applied to document text has an ambiguous repetition that makes matching time exponential in the length of the text.",
     ["inputs"], "every text given to every pattern",
     "Catastrophic inputs are specific to each pattern.",
     [PAR + "patterns.py", HND, UT + "tex_utils.py"], [("pattern literals", PAR)], 
     'automaton analysis of every folded regular expression',
     'Patterns are constant-folded from the source with unknown parts widened; ambiguity is decided on a position automaton; polynomial backtracking and patterns whose text cannot be folded are out of scope.')
prop("C23", "Section and theorem numbering follows the document structure",
     "Section numbers count siblings of the same level within their parent and restart under a new parent; starred sections are not numbered; equations, tables, figures and theorems are numbered in document order without gaps or repetitions, independently per kind.",
     ["inputs"], "every document structure",
     "Tests have a few structures.",
     [STR_ + "builder.py"], [("counters", STR_ + "builder.py")], 
     'abstract interpretation over affine counters: the transfer function of every kind of document element from an arbitrary counter state; induction over the document',
     'The builder side is decided for every counter state; which environments the parser marks as numbered is decided for sectioning commands only.')
prop("C24", "A more specific handler is tried before a more general one",
     "When two handlers or patterns can match the same command, the specific one is consulted first: no generic fallback (unknown command, ignored formatting) hides a handler registered for that command.",
     ["inputs", "programs"], "every pair of handlers",
     "Shadowing shows only for the hidden construct.",
     [PAR + "tex_parser.py", PAR + "patterns.py"], [("handler list order", PAR + "tex_parser.py")], 
     'dispatch-order extraction (points-to call targets, abstract interpretation of can_handle) plus pairwise regular-expression overlap',
     'Generality is judged on the command or environment name; two patterns that both spell a name out are not ranked against each other.')
prop("C25", "Importing the package changes nothing outside it",
     "Importing any module of the package only defines names: it does not configure logging handlers or levels of other loggers, change the import path, warning filters, working directory, environment or locale, read or write files, or start threads or processes.",
     ["configurations", "programs"], "every module of the package, in every embedding application",
     "Tests import the package inside a test runner and do not look at process-wide state.",
     [L], [("no top-level effects", L)], 
     'interprocedural effect analysis of import-time code',
     'External calls are classified by a table of effects; unknown external functions are assumed effect-free.')
prop("C26", "Internal placeholders never reach the output",
     "Where the parser temporarily replaces parts of the text by placeholders, every exit of that step puts the original text back: no placeholder text appears in tokens, and the protected text is not lost.",
     ["inputs", "crash_points"], "every path through a placeholder substitution",
     "Needs the early exits between substitution and restoration.",
     [HND + "tabular.py", HND + "equation.py", UT + "tex_utils.py"], [("substitute/restore pairs", UT)], 
     'substitution sites found in the syntax tree, key-form analysis, and a path analysis (every exit after a substitution) over the call graph',
     'Keys are recognised as a constant text around a counter; document text that already contains a key is outside the property. One known finding (a command kept inside a table cell) is listed in known_findings.txt.')
prop("C27", "Document text is never interpreted as a regular expression",
     "Names and text that come from the document (macro, environment, key, colour or file names, replacement text) are matched and substituted literally: no character of the document acts as a regular-expression operator, group reference or template escape.",
     ["inputs"], "every document text that reaches a pattern or replacement",
     "Needs names with special characters in each place a pattern is built.",
     [HND, PAR, UT + "tex_utils.py"], [("re.escape around document names; replacement functions", HND)],
     "taint analysis over the points-to call graph",
     "Flow- and context-insensitive string taint with re.escape / backslash doubling as sanitizers. A sanitizer applied with extra processing afterwards is trusted.")

NA = [
 ("C40", "Macro expansion follows TeX semantics", "Expanding a user-defined command replaces its parameters by its arguments with TeX's rules for delimiters, defaults and grouping.", "a value-level equivalence between the expander and TeX on unbounded strings; no sound static argument about string contents is in reach"),
 ("C41", "Equation content is preserved", "The text of an equation is passed through to the output unchanged except for labels, nested text macros and comments.", "quantifies over the value of strings after a chain of regex substitutions; deciding equality of their results needs execution or a string solver"),
 ("C42", "Tables keep their rows and columns", "Every row and cell of a tabular appears in the output in its position, with multirow/multicolumn spans as declared.", "depends on runtime text splitting and integer spans; not a property of the code's structure"),
 ("C43", "Verbatim text is preserved byte for byte", "Verbatim and listing contents reach the output exactly as written.", "depends on which regular expressions match the document text at run time before the verbatim handler does"),
 ("C44", "Bibliography fields are parsed completely", "Each entry of a bibliography appears with its key, and all its fields.", "value-level statement about parsing unbounded text"),
 ("C45", "Processing time is polynomial in the size of the document", "Processing a document takes time polynomial in its expanded size.", "needs bounds on runtime quantities (lengths, number of macros, recursion depth of macro definitions)"),
]
for i, t, s, r in NA:
    prop(i, t, s, ["inputs"], "every document", "Only samples are tested; the property quantifies over all document texts.", [PAR], [("parser handlers", PAR)], na=r)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}, ensure_ascii=False) + "\n")
    man = {"version": 1, "setup_cmd": "python3 -m compileall -q sa check.py", "checks": [], "not_applicable": []}
    for p in P:
        if p["na"]:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        else:
            man["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                                  "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
