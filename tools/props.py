"""The properties: the source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)."""

ENGINE = "abstract interpretation of the Python source (own engine, /verif/engine)"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na))


EMIT = "creole/emitter/creol2html_emitter.py"
PARSER = "creole/parser/creol2html_parser.py"
RULES = "creole/parser/creol2html_rules.py"
HPARSER = "creole/parser/html_parser.py"
BASE = "creole/shared/base_emitter.py"
API = "creole/__init__.py"
EMITTERS = ["creole/emitter/html2creole_emitter.py", "creole/emitter/html2rest_emitter.py",
            "creole/emitter/html2markdown_emitter.py", "creole/emitter/html2textile_emitter.py", BASE]

TRUST = (" Trusted: the engine's model of Python and of the library calls (re, html.parser, xml.sax.saxutils, ...); loops and recursion "
         "are widened to a fixpoint, so every path of the source is covered; a construct the engine does not know is listed in the evidence.")

prop("C01", "creole2html escapes all text of the markup",
     "Text of the creole markup never turns into HTML syntax of its own: in the output of creole2html every character of the markup that means "
     "something in HTML (< and & in text, & and the quote in attribute values) appears as an entity that reads back as that character, in every kind of "
     "element: paragraphs, headlines, lists, tables, links, images, code, table of contents, anchors and error texts of macros. The result of a "
     "macro is the macro's own HTML; it is only ever inserted as text, never inside of a tag.",
     ["inputs", "configurations"], "all markup strings, all macro arguments and texts, strict / blog_line_breaks / verbose on or off",
     "the tests compare some outputs; one unescaped place of one node kind and one option combination needs exactly the input nobody wrote down",
     [EMIT, PARSER, RULES],
     [("html_escape / attr_escape in every *_emit method", EMIT), ("escaping in TableOfContent.nested_headlines2html and error()", EMIT),
      ("group texts of the rules that can not contain special characters", RULES)],
     ENGINE + "; taint-style walk of the emitted string templates through the HTML syntax",
     "Sound up to the engine's models: all templates of all node kinds are walked." + TRUST)

prop("C02", "creole2html emits balanced HTML",
     "The HTML that creole2html emits for any markup is well nested: every start tag it writes is closed by its own end tag in the right order, "
     "every tag and attribute is finished, whatever the elements are nested into and whatever is left open or empty in the markup. Markup which "
     "macros return and other text inserted by macros is excluded.",
     ["inputs", "configurations"], "all markup strings, strict / blog_line_breaks on or off",
     "balance of every nesting of every element is an induction over all document trees; the tests see a handful of them",
     [EMIT, PARSER],
     [("each *_emit method emits start and end tag around emit_children", EMIT)],
     ENGINE + "; structural induction over the emitted string templates with a tag stack",
     "Sound up to the engine's models: each template is balanced given balanced children." + TRUST)

prop("C03", "creole2html never fails, whatever the markup is",
     "creole2html returns a string for every markup string, with every combination of strict and blog_line_breaks: no markup, however "
     "malformed or incomplete, lets it raise an exception (nesting within Python's recursion limit). With macros of the caller, exceptions of a macro become an error text in the "
     "result (for verbose up to 2), and the only exception is the TypeError for the unsupported callable in place of the macros dict or object.",
     ["inputs", "configurations"], "all markup strings, all options, all macros and all exceptions they raise",
     "crashes hide in combinations (a line break in an element which has no level, a list item below another kind of list) that no sample covers",
     [EMIT, PARSER, RULES, "creole/shared/utils.py", "creole/shared/document_tree.py"],
     [("_upto and the node kinds checked before attributes of a node are used", PARSER), ("try/except around macro calls", EMIT)],
     ENGINE + "; exception flow",
     "Sound up to the engine's models of exceptions; RecursionError and MemoryError are out of scope, list indices computed from "
     "len/enumerate/find are assumed in range." + TRUST)

prop("C04", "html2creole, html2rest, html2textile and html2markdown never fail",
     "The converters from HTML return a string for every HTML string: unknown tags, stray or missing end tags, invalid entities, attributes "
     "without value, unusual nesting, cells outside of tables never let them raise an exception (nesting within Python's recursion limit). The only exception is html2rest's own one for the same "
     "link text with different targets.",
     ["inputs"], "all HTML strings, default options and strict for html2creole",
     "HTML in the wild is arbitrary; crashes need one certain tag in one certain state of the emitter",
     [HPARSER, "creole/html_tools/deentity.py", "creole/html_tools/strip_html.py", "creole/shared/markup_table.py"] + EMITTERS,
     [("handlers of the parser for any order of callbacks", HPARSER), ("default handling of missing attributes", EMITTERS[0])],
     ENGINE + "; exception flow over html.parser callbacks in any order",
     "Sound up to the engine's models of exceptions; RecursionError and MemoryError are out of scope, list indices computed from "
     "len/enumerate/find are assumed in range." + TRUST)

prop("C05", "creole2html loses no text of the markup",
     "creole2html drops no text of the creole markup: all words of the markup, outside of macros, are in the HTML, whatever the element they are in (paragraph, headline, list item, table cell, bold, link target or link text, image, "
     "preformatted text, nowiki, escaped character, html-like tag) and whatever is malformed, unfinished or nested, with every combination of strict and blog_line_breaks. A link with its own text keeps target and text. Only blanks, punctuation which is markup, "
     "and the text handed to macros may go.",
     ["inputs", "configurations"], "all markup strings, strict / blog_line_breaks on or off",
     "the text of one alternative of one pattern in one state of the parser (a list item below an other kind of list, a cell in an unclosed row) gets lost, while all ordinary texts survive",
     [PARSER, RULES, EMIT, "creole/shared/document_tree.py"],
     [("every _*_repl method stores the groups of the match or passes them on", PARSER), ("the last alternative 'char' and 'text' match what nothing else does", RULES), ("every *_emit method returns emit_children(node) or node.content", EMIT)],
     ENGINE + "; flow of the groups of every match into the document tree, of the nodes into the templates",
     "Text means letters and digits. That nothing stands between two matches is decided on the syntax tree of the patterns (an alternative which takes any character, or matches which end where the next one starts)." + TRUST)

prop("C06", "the conversions from HTML lose no text",
     "html2creole, html2rest, html2markdown and html2textile drop no text of the HTML: all words between the tags (character data, character references, entities - unknown and incomplete ones too -, the content of pre and of "
     "every known or unknown element, table cell, list item and headline, with default options) are in the result, whatever the nesting is, whether tags are closed, stray, missing or unfinished at the end of the HTML; every cell added to a MarkupTable "
     "is in every rendering of the table. Only blanks, punctuation the markup needs, comments, declarations and attributes (also of images) may go.",
     ["inputs"], "all HTML strings and all nestings of elements",
     "the text of one kind of node in one state of the parser or emitter (an open list, a cell without table, a void element, a short row) gets lost, while all ordinary texts survive",
     [HPARSER, BASE, "creole/shared/markup_table.py", "creole/html_tools/strip_html.py"] + EMITTERS,
     [("every callback adds a DocNode to the tree", HPARSER), ("every *_emit method returns or stores emit_children(node) or node.content", BASE), ("rows and cells of the renderers", "creole/shared/markup_table.py")],
     ENGINE + "; flow of the text of each kind of node into the template its emitter returns, of matches into replacements, of cells into tables",
     "Text means letters and digits; texts which the emitters look up (footnote-like substitutions, list numbering) are judged where they are stored. Tables are model tables with up to three cells." + TRUST)

prop("C07", "conversions are independent of each other and of their environment",
     "The result of creole2html, html2creole, html2rest, html2textile and html2markdown depends on nothing but the arguments: no conversion leaves anything behind that another one can "
     "see (module, class or function state, default arguments), none changes an object the caller passed in (macros, block rules), and none "
     "reads files, environment variables, clocks or random numbers.",
     ["inputs", "histories"], "all inputs, all sequences of conversions in one process",
     "state left behind shows only in the second conversion, and only for certain pairs of inputs",
     [API, PARSER, HPARSER, EMIT] + EMITTERS,
     [("all state is in objects created per conversion", API)],
     ENGINE + "; effect analysis (writes to objects older than the conversion, calls that reach outside)",
     "Sound up to the engine's models: every write to an object that existed before the conversion is seen." + TRUST)

prop("C08", "conversions are silent unless asked to talk",
     "creole2html, html2creole, html2rest, html2textile and html2markdown print nothing, neither to stdout nor to stderr, issue no warnings and log nothing for any input as long as debug and "
     "verbose are left at their defaults.",
     ["inputs"], "all inputs, default debug and verbose",
     "tests which capture the output exist for some inputs only; a print in a rarely reached branch stays unseen",
     [API, PARSER, HPARSER, EMIT] + EMITTERS,
     [("output guarded by debug / debugging / verbose", BASE)],
     ENGINE + "; effect analysis (reachability of output calls with constant propagation of the options)",
     "Sound up to the engine's models." + TRUST)

CLI = "creole/cmdline.py"
SETUP = "creole/setup_utils.py"
DIFF = "creole/shared/diff_utils.py"
SMALL = " Trusted: the engine's model of Python, argparse, files and paths."

prop("C11", "a failing command line conversion leaves the destination untouched",
     "When creole2html, html2creole, html2rest or html2textile on the command line fail, for whatever reason (missing source file, undecodable source, unknown codec, "
     "conversion error, a result the codec can not encode), an existing destination file keeps its old content. Only the write of the complete, "
     "already encoded result touches the destination.",
     ["inputs", "crash_points"], "all source files, codecs and failures before the final write",
     "the failure has to happen at a certain point while a destination exists; the tests run successful conversions",
     [CLI], [("convert() encodes before it opens the destination", CLI)],
     ENGINE + "; typestate of the destination file along all normal and exceptional paths, with stubbed converters",
     "All paths through the entry points of pyproject.toml." + SMALL)

prop("C12", "the command line tools write exactly the conversion of the source",
     "creole2html, html2creole, html2rest and html2textile on the command line decode the complete source file strictly with the codec given by --encoding "
     "(utf-8 by default), convert it with the converter the tool is named after with its default options, and write exactly the result into the destination file, encoded "
     "strictly with the same codec, without dropping, replacing or translating any character.",
     ["inputs", "configurations"], "all source texts and codecs",
     "lost characters show only for certain codecs and contents",
     [CLI, "pyproject.toml"], [("cli_* functions and CreoleCLI.convert", CLI)],
     ENGINE + "; dataflow from the source file to the destination file, with stubbed converters",
     "All paths through the entry points of pyproject.toml." + SMALL)

prop("C13", "README update and README check agree",
     "After update_rst_readme() (update_markdown_readme()) the check assert_rst_readme() (assert_markdown_readme()) passes and a second update does not write README.rst (README.md) again. "
     "If the text in the generated file differs from the current conversion in any way (changed, added or removed characters, blanks or lines anywhere), "
     "or if the file is missing or empty, the check fails and the next update writes the file again.",
     ["inputs", "histories"], "all README texts, all states of the generated file, sequences of update and check",
     "comparisons which overlook some difference are right for every sampled one",
     [SETUP, DIFF], [("_readme_changed", SETUP), ("assert_*_readme compare the text without the note", SETUP)],
     ENGINE + "; symbolic file contents (templates with unknown texts before and after each kind of difference)",
     "Differences are enumerated by kind (24 kinds), with unknown surrounding text; a comparison that overlooks another kind is not seen." + SMALL)

prop("C14", "README and long description generation is strict, complete and UTF-8",
     "The README generation (update_* and assert_* in creole.setup_utils) and get_long_description() convert the complete README.creole, read strictly as UTF-8 "
     "(blanks around it stripped), with creole2html and html2rest or html2markdown. In the generation and with raise_errors=True an HTML element the converter does not know raises an error instead "
     "of being dropped, conversion errors are raised, and ReSt that does not render is refused: then no README.rst / README.md is written and nothing is returned. "
     "README files are written in UTF-8. With raise_errors=False get_long_description() never raises and returns a text.",
     ["inputs", "configurations"], "all README texts, all failures of conversion, validation and file reading",
     "it needs a README with an unknown element or invalid ReSt, in each of the functions, with every locale",
     [SETUP], [("unknown_emit=raise_unknown_node", SETUP), ("render() / pypi_rest2html() on the result", SETUP)],
     ENGINE + "; dataflow and exception flow with stubbed converters and validators",
     "All paths through the five functions." + SMALL)

prop("C24", "publishing needs an up-to-date README and a successful code style run",
     "publish() reaches poetry_publish() only after assert_rst_readme() has succeeded for the same package root and README.creole, and after the code style command has succeeded; every "
     "failure of one of them, whatever the exception, ends publish() with an error. The published version is creole.__version__ and creole_readme is on.",
     ["histories"], "all outcomes of the README check and the commands",
     "no test publishes anything, and each failure must be tried",
     ["creole/publish.py"], [("order of the calls in publish()", "creole/publish.py")],
     ENGINE + "; typestate over the calls of publish() with failing and succeeding steps",
     "All paths through publish()." + SMALL)

CLEAN = "creole/rest_tools/clean_writer.py"
PYPI = "creole/rest_tools/pypi_rest2html.py"

prop("C09", "rest2html keeps raw HTML and files out and escapes everything",
     "rest2html parses exactly the given text with raw_enabled and file_insertion_enabled switched off, unless the caller switches that very setting on; "
     "every other setting the caller passes is handed to docutils and changes neither. Its writer puts attribute values of start tags only quoted and escaped into "
     "the HTML (whatever kind of value), and no own method of the writer inserts text or attributes of the document unescaped.",
     ["inputs", "configurations"], "all ReSt texts and all combinations of settings",
     "one combination of settings, or one attribute of one kind of node, lets raw HTML through",
     [CLEAN], [("settings_overrides in rest2html", CLEAN), ("attval in starttag", CLEAN)],
     ENGINE + "; dataflow of the settings and taint of document texts into the output of the translator class",
     "docutils itself is trusted, also for the values of the align attribute; settings are checked for six kinds of keyword arguments." + SMALL)

prop("C10", "pypi_rest2html refuses links and images without an allowed scheme",
     "pypi_rest2html returns HTML only if every link, image and external target of the document has a URI with one of the schemes PyPI allows (file ftp gopher hdl http https imap mailto mms "
     "news nntp prospero rsync rtsp rtspu sftp shttp sip sips snews svn svn+ssh telnet wais irc; upper or lower case), wherever it is in the document and whatever else the document contains; javascript:, data:, unknown schemes and URIs without "
     "a scheme are refused with an exception. The text is parsed with raw HTML and file insertion switched off and halts at warnings and errors. Documents which have only "
     "allowed URIs, or none, are not refused.",
     ["inputs"], "all documents, all places and kinds of nodes with URIs, all schemes",
     "a forbidden URI must be at the one place or of the one kind the check forgets",
     [PYPI], [("loop over document.traverse()", PYPI), ("settings_overrides", PYPI)],
     ENGINE + "; document trees as models, forbidden URIs of each kind of node at each kind of place",
     "Trees with one forbidden URI among other nodes, for 21 forbidden spellings and all allowed schemes; docutils and urllib.parse are trusted." + SMALL)

UNKNOWN = "creole/shared/unknown_tags.py"

prop("C16", "unknown tags are handled by unknown_emit and by nothing else",
     "html2creole, html2rest, html2markdown and html2textile pass every HTML element for which they have no rule to the unknown_emit callable of the caller, as (emitter, node), wherever the element is (inside tables, lists, empty or not), "
     "and insert the text it returns unchanged; elements with a rule never get there. The callables of creole.shared.unknown_tags do what they say: raise_unknown_node always raises NotImplementedError, "
     "use_html_macro and preformat_unknown_nodes put exactly the start tag, with all its attributes, and the end tag into <<html>> / <<pre>> macros around the converted content (one single tag if there is no content), escape_unknown_nodes does "
     "the same with escaped tags, and transparent_unknown_nodes keeps only the content. The attributes are written so that they read back as the same values.",
     ["inputs", "configurations"], "all HTML strings, all unknown tags and attributes, all callables",
     "special cases of one kind of nesting or of one attribute value stay unseen",
     [BASE, UNKNOWN, API, "creole/shared/document_tree.py"], [("emit_node", BASE), ("the five callables", UNKNOWN), ("get_attrs_as_string", "creole/shared/document_tree.py")],
     ENGINE + "; outcomes of the dispatch for kinds without emit method, template comparison for the callables",
     "Sound up to the engine's models." + TRUST)

prop("C19", "no text lets a regular expression backtrack exponentially",
     "The time of a conversion does not explode with the text: none of the regular expressions that creole2html, html2creole, html2rest, html2markdown and html2textile (and strip_html) use on their input can backtrack exponentially, so there is no "
     "markup and no HTML, however malicious, of some dozen or hundred characters which lets a conversion hang. No pattern is built from unescaped text of the input.",
     ["inputs"], "all texts, in particular those that nearly match a rule",
     "an ambiguous repetition shows only with long texts that nearly match and then do not",
     [RULES, PARSER, HPARSER, "creole/html_tools/deentity.py", "creole/html_tools/strip_html.py", "creole/html_tools/text_tools.py"],
     [("InlineRules, BlockRules, SpecialRules", RULES), ("block_re, inline_re", HPARSER)],
     ENGINE + " to find the patterns; ambiguity analysis (two ways round over the same text) of their position automata",
     "Exponential degree of ambiguity is decided with the characters of ASCII and some others as alphabet, finite repetitions above 8 are taken as unbounded, assertions as passable; polynomial backtracking is not excluded. "
     "Back references are taken as any text.")

H2C = "creole/emitter/html2creole_emitter.py"

prop("C15", "creole markup survives the round trip over HTML",
     "html2creole(creole2html(markup)) converts to the same HTML as the markup itself, for all markup without macros.",
     ["inputs"], "all markup strings", "round trips are tested for a few hundred fixed texts only",
     [EMIT, PARSER, HPARSER, H2C], [("both converters know the same elements", H2C)], "", "",
     na="equality of the composition of two converters over unbounded texts (blanks, line breaks and escapes are normalised on the way): no abstract domain in reach decides it without false alarms")

prop("C17", "lists keep their kind and depth in the conversions from HTML",
     "For every list item, html2creole, html2rest, html2markdown and html2textile write a marker of the kind and depth of the list the item is in, also for items after a nested list.",
     ["inputs"], "all nestings of lists", "the marker depends on state which every nested list changes and restores",
     [BASE] + EMITTERS[:4], [("_inner_list is extended before and cut after the children", BASE)], "", "",
     na="the length of a loop-carried marker string must equal the depth of unbounded recursion: a relation between a string and the call stack which widening loses (one such defect was found by reading and fixed, c57bcd6)")

prop("C20", "tables converted from HTML are aligned",
     "The cells of a column have the same width in the markup of html2creole and html2rest, for all cell texts.",
     ["inputs"], "all tables", "widths are computed from all cells of a column",
     ["creole/shared/markup_table.py"], [("ljust with the maximum of the column", "creole/shared/markup_table.py")], "", "",
     na="arithmetic over the lengths of unknown cell texts (maximum per column, then padding), beyond the string domain")

prop("C21", "html2rest writes ReStructuredText which means the same as the HTML",
     "docutils reads the result of html2rest as a document with the elements of the HTML.",
     ["inputs"], "all HTML strings", "ReStructuredText depends on blanks and empty lines between all neighbours",
     ["creole/emitter/html2rest_emitter.py"], [("block elements end with an empty line", "creole/emitter/html2rest_emitter.py")], "", "",
     na="needs the semantics of docutils' parser for unknown texts and neighbours")

prop("C22", "the table of contents nests like the headlines",
     "The nested list of <<toc>> has every headline up to the depth, in order, at the nesting of its level.",
     ["inputs"], "all sequences of headline levels", "the nesting is computed with a stack over the sequence of levels",
     [EMIT], [("flat_list2nest_list", EMIT)], "", "",
     na="a numeric invariant between the length of a stack and the levels of an unbounded sequence; the lists of lists are summarised by the engine")

prop("C23", "macro arguments are parsed as they were written",
     "string2dict() returns exactly the arguments written in a macro tag; string2dict(dict2string(d)) == d.",
     ["inputs"], "all argument strings and dicts", "quoting and nesting of quotes",
     ["creole/shared/utils.py"], [("shlex based string2dict", "creole/shared/utils.py")], "", "",
     na="inverse functions over the quoting syntax of shlex and JSON on arbitrary values")
