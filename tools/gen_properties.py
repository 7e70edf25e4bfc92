"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, os
R = "src/hypertag/"
AST, DOM, TAG, RT, GR, ST, ER = (R+"core/ast.py", R+"core/dom.py", R+"core/tag.py", R+"core/runtime.py", R+"core/grammar.py", R+"core/structs.py", R+"core/errors.py")
SB, SH, DJ, DF, NU, NP = (R+"std/builtins.py", R+"std/html.py", R+"django/backend.py", R+"django/filters.py", R+"nifty/util.py", R+"nifty/parsing.py")
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["HyperHTML().render(script, **context)"], hook_needed=None)))

prop("C01", "Text content reaches the output exactly, escaped exactly once per block kind",
 "Every character of a text block reaches the output in order: plain-text blocks (|) with & < > escaped exactly once (embedded values included), markup blocks (/) unescaped, verbatim blocks (!) untouched with $ { } left literal. The escapes $$ {{ }} yield $ { }, and $x.a[i](..) / {expr} embeddings yield str(value). Nothing else of the document changes the text, and no character is lost, duplicated or altered.",
 ["inputs"], "all text over Unicode (including the parser's own indentation symbols), all placements of a text block (bare, after tags, after ':', in control blocks and hypertags), all embedded values",
 "the tests render a few dozen fixed ASCII lines; fidelity is a statement about every string, every value and every placement",
 [AST, GR, SH], [("line rendering and escaping", AST), ("tokens text/escape/embedding", GR), ("html escape function", SH), ("choice of indentation symbols absent from the text", AST)])

prop("C02", "Multi-line text blocks keep their relative line structure",
 "A text block that spans several lines is output with the same lines in the same order: one separator space after the marker is dropped, the common indentation of its lines is removed, remaining relative indentation and inner blank lines are kept, and a continuation line never merges with or moves relative to another. The result is re-indented as one unit at the place of the block. Embedded values do not influence how much indentation is removed.",
 ["inputs"], "all shapes of multi-line blocks: any marker column, any headline/tail indentation (spaces, tabs), blank lines inside, any nesting",
 "tests pin around ten hand-written shapes; the rule is arithmetic over all marker columns and indentations",
 [AST, DOM], [("common indentation removal of text blocks", AST), ("indent helpers", DOM)])

prop("C03", "Attributes of an element survive rendering exactly",
 "An HTML parser reading the output recovers, for each tag occurrence, exactly the attributes written: every name, in order of first occurrence, with str(value) as value for any string (quotes, &, <, >, Unicode included); True gives a bare name, False omits the attribute, and repeated keyword attributes are joined by one space. The shortcuts .x and #x are equivalent to class=x and id=x. Attribute names may be any XML name not beginning or ending with a colon.",
 ["inputs"], "all attribute lists: names over the XML name alphabet, values of any type and syntax (literal, $x, {expr}, f-string), any mixture of shortcuts and repetitions",
 "tests have a handful of attribute strings; quoting must hold for every value",
 [TAG, AST, GR, R+"core/xml_chars.py"], [("attribute rendering", TAG), ("collection and joining of named attributes", AST), ("XML name tokens", R+"core/xml_chars.py")])

prop("C04", "The element tree of the output is the block tree of the script",
 "Parsing the rendered HTML gives exactly the tree denoted by the script: nesting by indentation, chains (a : b : c) nested left to right, siblings in script order, with every opened element closed in the right place. Void tags render self-closed and reject any non-empty body; the null tag and control blocks add no element; upper-case tag names render in upper case.",
 ["programs"], "all block trees over all standard tags, with every body style (empty, inline, outline, mixed, multi-line text) at any depth and indentation width",
 "tests cover small fixed trees; the guarantee is over all trees and all layouts",
 [AST, TAG, SH, DOM], [("block parsing and tag application", AST), ("markup tag expansion", TAG), ("list of tags", SH)])

prop("C05", "Vertical and horizontal layout of the script is preserved in the output",
 "Each block starts on its own output line, indented relative to its parent's line by exactly the whitespace used in the script, with the same number of blank lines before it; inline bodies stay on the line of their tag, and leading/trailing blank lines of the document are kept. '...' joins a block to the preceding output without a newline and '<' aligns it with its parent; blocks that produce nothing (assignments, definitions, comments, pass, untaken branches) leave no line of their own.",
 ["programs"], "all documents: arbitrary indentation strings of spaces/tabs, blank lines anywhere, modifiers, chains, inline/outline/mixed bodies",
 "tests compare a few dozen fixed layouts, many after stripping whitespace",
 [AST, DOM], [("indentation pre-processing and margins", AST), ("relative indentation of nodes", DOM)])

prop("C06", "Expressions evaluate as documented: Python semantics plus Hypertag operators",
 "The value of any expression equals the value defined by the documented operator table: Python meaning of each operator, member access, indexing, slicing and call, the documented priorities, left-to-right grouping, laziness of and/or/if-else, '' for a missing else, <> as !=, and juxtaposition as string concatenation. Redundant parentheses, spaces and a leading $ on variables never change a value. An exception of an operand surfaces with its own type.",
 ["inputs"], "all expressions over all operators and value types, in every position that takes an expression (text, attribute, header, assignment, subscript, argument, f-string)",
 "tests evaluate about a hundred fixed expressions; precedence/associativity/laziness are about all combinations",
 [AST, GR], [("expression grammar", GR), ("operator evaluation", AST)])

prop("C07", "Literals denote the documented values",
 "Every string literal denotes exactly its decoded text: r-strings verbatim, f-strings with backslash escapes decoded as in Python, $$ {{ }} as $ { } and embedded expressions substituted. Integer, real and exponent literals denote the same number as in Python, and list, tuple, set and dict displays denote the same collection as in Python, at any nesting.",
 ["inputs"], "all literal texts and nested displays",
 "tests contain a few literals of each kind",
 [AST, GR], [("escape decoding", AST), ("literal tokens", GR)])

prop("C08", "Pipelines and calls apply functions to exactly the given arguments",
 "x : f(a, k=b) calls f with x first and then the given positional and keyword arguments, chains apply left to right, f without parentheses equals f(), and a filter may be any atom with member/index access. f(a, .., k=b) passes arguments unchanged, in order, exactly once, evaluating each argument once, left to right.",
 ["inputs"], "all chains of filters and calls, all argument lists, with functions from the script's context, built-ins, methods and hypertags",
 "tests use a handful of fixed pipelines",
 [AST], [("pipeline and partial call", AST), ("call arguments", AST)])

prop("C09", "Qualifiers and try/else suppress or demand exactly what is documented",
 "X? yields '' when X is false or raises (any ordinary exception) and X otherwise; X! raises the documented false-value error when X is false and yields X otherwise. A try block outputs its first branch that does not raise and nothing if all raise; a failed branch contributes no output and never disturbs the layout of what follows. Errors outside a try always surface.",
 ["programs", "fault_sequences"], "all expressions with qualifiers at any position, all try/else nestings, exceptions raised at any depth and point of a branch",
 "tests have about ten fixed try blocks; an exception may arise at any point of any branch",
 [AST], [("evaluation with qualifier", AST), ("try block", AST), ("restoring of indentation", AST)])

prop("C10", "Control blocks output exactly the executed branches and iterations",
 "if/elif/else outputs the first branch whose test is true, testing in order and no further; for outputs its body once per item, in order, with targets bound to the item (unpacked when several); while repeats as long as its test holds; an else clause of a loop is output exactly when there was no iteration. The output equals that of the unrolled script, with bodies aligned with the control block (iterations of an inline body are joined on its line), and variables assigned inside stay visible after it.",
 ["programs"], "all nestings of control blocks, in all body styles, with all conditions and collections",
 "tests have some twenty fixed loops and conditions",
 [AST], [("control blocks", AST)])

prop("C11", "Names resolve by block structure",
 "A name denotes its nearest preceding definition in its own block or an enclosing one: tagged blocks and hypertag definitions open a new scope that ends with the block, control blocks do not, assignments in an inner scope never change an outer variable, tags and variables never interfere. An undefined variable or tag is rejected before any output, even in code that would not run; a variable that is not assigned on the executed path raises the documented unbound error and never takes a value left over from another expansion or iteration.",
 ["programs"], "all programs of assignments, uses, tagged blocks, control blocks, definitions and loops",
 "tests have a dozen fixed scoping examples",
 [AST, ST], [("static resolution of symbols", AST), ("slots and context", ST)])

prop("C12", "Assignments bind and unpack exactly as in Python",
 "An assignment binds each target of a possibly nested target list to the corresponding item of the value, from any iterable, and fails with a value error exactly when the number of items differs from the number of targets. An in-place assignment x OP= e stores the current value of x combined with e and an expression block only evaluates; none of them outputs anything.",
 ["inputs"], "all nested target lists, values of all iterable types and lengths, all in-place operators",
 "tests have a few unpackings",
 [AST, GR], [("targets", AST), ("assignment grammar", GR)])

prop("C13", "Hypertag attributes bind like Python parameters",
 "Using a hypertag outputs its definition body with each attribute bound to the positional or keyword value given, or otherwise to its default evaluated at the use; the result is placed and indented as a single block at the place of use. Too many, missing, duplicate, unknown or doubly given attributes, and a body passed to a hypertag without body attribute, are each rejected with the documented error. Expansions are independent of each other and of the number of uses.",
 ["programs"], "all definitions (any attributes/defaults/nesting) and all uses (any mixture of positional/keyword attributes), nested, repeated, in loops and chains",
 "tests have some thirty fixed definitions",
 [AST], [("hypertag expansion and attribute binding", AST)])

prop("C14", "A body attribute carries the actual body unchanged wherever it is embedded",
 "Embedding (@) a hypertag's body outputs exactly the nodes of the body given at the use, as if written at the place of embedding, with their structure and relative layout kept, whether embedded inline or outlined, once or several times, at several depths, whole or in parts (index, slice, select, skip), or passed on to further hypertags. Rendering a body explicitly to a string gives the same markup.",
 ["programs"], "all bodies and all definitions with any number and placement of embeddings, nested hypertags passing bodies on",
 "tests embed a body at one place in most cases",
 [AST, DOM], [("embedding of DOM", AST), ("indentation of shared nodes", DOM)])

prop("C15", "Imports deliver exactly the named symbols of the right module",
 "An import block binds exactly the requested tags/variables (renamed when asked; all public ones for *) to the values that the module at that path exports, for Hypertag scripts and Python modules, relative and absolute paths, packages and plain folders; private names are not exported by *, missing modules and symbols are rejected with the import errors. Imported hypertags see their own module's variables, never the importer's, and behave like local ones at any place of use. Importing a module again yields the same module.",
 ["programs", "configurations"], "all file trees of modules, all import graphs without cycles, all forms of import block",
 "tests import from two or three fixed files",
 [RT, AST], [("loaders and module cache", RT), ("import blocks", AST)])

prop("C16", "Context, built-ins and escape function of the runtime are honoured exactly",
 "A context block binds exactly the values passed by the caller (variables and tags, renamed when asked), rejects missing ones with the import error and is only accepted at the beginning; undeclared context never leaks into a script. A custom runtime's escape function is applied to exactly the text of plain-text lines and nothing else, and all Python and Hypertag built-ins (and only these) are predefined.",
 ["inputs", "configurations"], "all contexts, context blocks, escape functions and uses of built-ins",
 "tests use fixed contexts and only the HTML escape function",
 [RT, AST, R+"html.py", R+"builtins.py"], [("context import", AST), ("runtime built-ins", RT)])

prop("C17", "DOM traversal and manipulation follow their contract",
 "walk yields each node once per occurrence in pre- or post-order, skipping the subtrees told to skip; select/indexing return exactly the matching nodes in traversal order without copying or changing the DOM; skip and copy return independent copies without the matching subtrees and leave the original intact; alter replaces each node by the list its transform returns, at every level. Rendering after any such sequence of operations equals rendering of the corresponding tree.",
 ["histories", "inputs"], "all trees and all sequences of operations with all constraint combinations, orders and transforms",
 "tests call each method once or twice on one tree",
 [DOM], [("DOM and Node methods", DOM)], ["hypertag.DOM and its node classes", "module.dom of Runtime.translate()"])

prop("C18", "The translated DOM represents the document",
 "Translating a script gives a DOM with one node per executed tag occurrence (chains as parent-child, hypertags under their own name, null tag as 'null'), with evaluated attributes (positional ones of hypertags turned into keywords), text blocks and vertical margins as text nodes, in document order. Its textual tree shows exactly this structure, rendering it gives the output of render(), and rendering it repeatedly always gives the same. The symbols exported by the module are exactly the top-level ones with their final values.",
 ["programs"], "all scripts",
 "tests print the tree of two scripts",
 [DOM, AST, RT], [("translation to DOM", AST), ("tree printing", DOM), ("exported symbols", AST)], ["Runtime.translate(script).dom", "module.symbols"])

prop("C19", "Rendering is a function of script and context, whatever happened before",
 "Rendering a script with a given context gives the same output or the same error in a fresh runtime, in a runtime that has rendered any other scripts (failing ones included), and any number of times, in any order. Objects of the caller's context are not changed except by the script's own calls, and one script's variables, tags and imports are never visible to another.",
 ["histories"], "all sequences of render/translate calls on shared and fresh runtimes, with successes and failures mixed",
 "each test renders a script once, in a fresh state",
 [RT, AST, ST], [("runtime and module caches", RT), ("state of translation", ST)])

prop("C20", "Any text is rendered or cleanly rejected",
 "Given any string, rendering either returns a string or raises one of Hypertag's own errors or Python's IndentationError; it never fails with an internal error, never hangs and never accepts a script whose indentation is inconsistent. Errors raised by the script's own expressions surface with their own type.",
 ["inputs"], "all strings: random text, grammar-derived scripts with mutations, mixed indentation, unusual Unicode and control characters",
 "tests have a dozen invalid scripts",
 [AST, GR, RT, ER], [("syntax error handling", AST), ("indentation check", AST)])

prop("C21", "Errors point at the offending line",
 "When a script is rejected, the line reported in the message is the line of the source where the fault lies: the first line at which the script stops being valid for syntax errors, and the line (with the column) of the offending name, tag use, definition, block or indentation for the other errors detected by Hypertag that carry a position. Errors other than those of syntax and indentation name the file of the script or module when there is one. Blank lines, comments, nesting and text before or after the fault do not shift it.",
 ["inputs"], "all valid scripts with one fault injected at any line, depth and position",
 "tests check no line number",
 [ER, AST, NP], [("error positions", ER), ("location of syntax errors", AST)])

prop("C22", "Standard text tags and functions do what they document",
 "dedent, merge, inline, lower, upper, unique, crop/truncate and doctype return, for every string and option, the documented transformation (how many blank lines survive dedent is not determined), and the tag form applied to a body equals the function form applied to the rendered body. custom and comment render the documented markup for every name, attribute list and body.",
 ["inputs"], "all strings and parameter values, tag and function forms, arbitrary bodies",
 "tests call them on a few strings",
 [SB, SH], [("built-in functions and tags", SB), ("custom and comment tags", SH)])

prop("C23", "cycle and changes yield the documented sequences",
 "cycle yields tuples with one element of each iterable, each repeated cyclically, for as many steps as the first (default), the longest, or endlessly as requested; changes yields each element with a flag telling whether it differs from the previous one (the first flag as given). Both accept any iterables, consume nothing they need not, and work as loop sources in scripts.",
 ["inputs"], "all iterables (lists, strings, tuples, iterators), lengths including empty, all options",
 "tests use one or two sequences",
 [SB], [("cycle and changes", SB)])

prop("C24", "Tags used inside expressions or implemented in Python behave like tag blocks",
 "%tag(body, attrs..) in an expression gives the string that the same tag produces as a block with that inline body, for markup, Python-implemented and native tags, at any place of use. A Python tag receives exactly the body (as DOM or rendered string), positional and keyword attributes of its occurrence, and the string it returns is what appears in the output.",
 ["inputs", "programs"], "all tags, bodies and attribute lists, in all expression positions",
 "tests embed a few tags",
 [AST, TAG], [("tag embedding", AST), ("tag protocol", TAG)])

prop("C25", "Comments, trailing whitespace, pass and indentation width do not matter",
 "Adding comments (block or inline), trailing spaces, redundant pass blocks, optional colons or optional spaces after markers to a script changes nothing in the output except blank lines explicitly added. Re-indenting a script by any consistent scheme of spaces or tabs changes only the corresponding leading whitespace of output lines.",
 ["programs"], "all scripts and all places and combinations of such edits",
 "tests compare single fixed pairs",
 [AST, GR], [("pre-processing of whitespace", AST), ("comment grammar", GR)])

prop("C26", "The Django backend renders templates as the core runtime does",
 "A template obtained from the Hypertag backend (from a string or by name from the configured directories) renders to the same text as the core runtime for the same script and context; request and CSRF values are available exactly when a request is given, missing templates are reported as missing with the tried paths, and relative imports resolve from the template's file. Every Django filter is available as function and pipeline filter with Django's own result.",
 ["inputs", "configurations"], "all scripts, contexts, template trees and filter arguments",
 "no test touches the backend",
 [DJ, DF], [("backend and template", DJ), ("filters", DF)], ["hypertag.django.backend.Hypertag", "hypertag.django.filters"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
