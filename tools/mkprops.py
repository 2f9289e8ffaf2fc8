#!/usr/bin/env python3
"""Writes properties.jsonl (the statements live here, one call per property)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

prop("C01", "No input makes the program crash, hang or read out of bounds",
 "Whatever bytes the main, included, imported or image files hold (with brackets nested to a bounded depth) and whatever options are given, a run ends by itself with exit status 0 or 1. It never aborts, fails an assertion, touches memory outside its objects, uses an indeterminate value or runs without end.",
 ["inputs", "configurations"], "all file contents of bounded size and bracket-nesting depth, all option combinations, all language versions, all output formats",
 "The gold files are a few hundred hand-written documents that are mostly valid; none of them is arbitrary bytes and none runs under a sanitizer.",
 ["src/quickbook.cpp", "src/main_grammar.cpp", "src/actions.cpp", "src/bb2html.cpp", "src/xml_parse.cpp", "src/post_process.cpp", "src/code_snippet.cpp"],
 [("parsers that check for the end of input", "src/*.cpp"), ("conversion of parse, load and post-processing failures to diagnostics", "src/quickbook.cpp parse_document")],
 ["exit status, sanitizer reports"])
prop("C02", "Exit status, diagnostics and output files always agree",
 "A run exits with status 0 exactly when it reported no error. When the status is non-zero at least one error diagnostic was printed and no BoostBook or HTML output file was created or changed (only a document whose raw BoostBook cannot be pretty printed is still written); when it is zero the requested output was written, and each generated page is complete. Every documented error gives status 1 wherever it stands, and --expect-errors turns the status round.",
 ["inputs", "configurations"], "all documents (with and without any of the documented errors), all output formats and options",
 "The fail tests check only the exit status of about forty fixed documents, never the diagnostics or what happened to existing output.",
 ["src/quickbook.cpp", "src/actions.cpp", "src/doc_info_actions.cpp", "src/stream.cpp"],
 [("error_count", "src/state.hpp"), ("parse_document returns before writing when error_count is set", "src/quickbook.cpp")],
 ["exit status, stderr, output files"])
prop("C03", "Successful conversions give well-formed BoostBook",
 "When a document of valid UTF-8 text, made of characters that XML can hold and without raw BoostBook (escaped passages, the backquoted template calls that paste text, and document info before 1.6), converts successfully, the output is a well-formed UTF-8 XML document whose root element is the document type given in the document info. This holds whether or not the output is pretty printed, for every language version.",
 ["inputs", "configurations"], "all documents built from the documented constructs, nested in any documented way, versions 1.1 to 1.7",
 "Gold tests compare fixed outputs; well-formedness for unseen nestings and characters is never tested.",
 ["src/actions.cpp", "src/markups.cpp", "src/main_grammar.cpp", "src/doc_info_actions.cpp", "src/post_process.cpp", "src/utils.cpp"],
 [("balanced pre/post markup", "src/markups.cpp"), ("character escaping", "src/utils.cpp print_char"), ("paragraphs are closed around block output", "src/actions.cpp paragraph_action")],
 ["output file"])
prop("C04", "Literal text reaches the output unchanged, once and in order",
 "Every character of running text that is not part of a construct appears in the text content of the output exactly once and in source order, with the XML special characters escaped so that a reader gets the original characters back. Backslash-escaped punctuation yields that character, \\uXXXX and \\UXXXXXXXX yield the code point, an escaped space yields nothing and comments yield nothing.",
 ["inputs"], "all running text, escapes and comments, in paragraphs, headings, titles, list items, table cells and phrases",
 "Only a handful of characters and positions appear in the gold files.",
 ["src/actions.cpp", "src/main_grammar.cpp", "src/utils.cpp", "src/post_process.cpp"],
 [("plain_char_action", "src/actions.cpp"), ("escape rule", "src/main_grammar.cpp"), ("print_char/print_string", "src/utils.cpp")],
 ["text content of the output"])
prop("C05", "Inline markup becomes the documented element tree",
 "Each inline element ([* ] ['' ] [_ ] [^ ] [- ] [\" ] [~ ], roles, inline code) and each simple markup form (*x* /x/ _x_ =x=) produces its BoostBook element wrapping exactly the translation of its content, however they are nested. Characters that do not satisfy the simple-markup rules (graph character inside the marks, space or punctuation outside, mark not doubled) stay literal.",
 ["inputs", "programs"], "all nestings of inline elements and all placements of simple-markup characters",
 "Fixed samples in phrase_elements and simple_markup; the context rules interact with every neighbouring character.",
 ["src/main_grammar.cpp", "src/phrase_element_grammar.cpp", "src/actions.cpp", "src/markups.cpp"],
 [("simple_markup rule with lookback", "src/main_grammar.cpp"), ("phrase_action", "src/actions.cpp"), ("markup table", "src/markups.cpp")],
 ["output file"])
prop("C06", "Block structure of the source becomes the same structure in the output",
 "Paragraphs, headings, indented code, rules, blockquotes, admonitions, preformatted blocks, tables, variable lists and lists produce one element each, in source order, containing exactly the translation of their own content. List nesting follows the indentation of the markers, and table rows, cells and header follow the brackets.",
 ["inputs", "programs"], "all nestings of block elements and list indentations",
 "Gold files sample a small number of nestings; indentation handling is a state machine over the whole history of lines.",
 ["src/main_grammar.cpp", "src/block_element_grammar.cpp", "src/actions.cpp", "src/markups.cpp"],
 [("list_stack and indentation rules", "src/main_grammar.cpp"), ("table_action, variable_list_action, list_action, block_action", "src/actions.cpp")],
 ["output file"])
prop("C07", "Identifiers are unique, stable and explicit ones are kept",
 "In every generated document all id attributes are distinct, an id given explicitly by the author is used as written when it is the only explicit use of it, and generated ids are derived from the heading, section or table title (lower-cased, other characters replaced by underscores, qualified by the enclosing section ids) with a number appended only to resolve a clash. Self links of headings point at the id they are attached to.",
 ["inputs", "histories"], "all sets and orders of explicit and generated ids, nested sections, includes and compatibility versions",
 "Gold files contain a few clashes; allocation depends on every other id of the document.",
 ["src/id_generation.cpp", "src/document_state.cpp", "src/id_xml.cpp", "src/actions.cpp", "src/utils.cpp"],
 [("generate_ids, resolve_id, normalize_id", "src/id_generation.cpp"), ("replace_ids", "src/id_xml.cpp")],
 ["id and linkend attributes"])
prop("C08", "Sections nest exactly as written",
 "Every [section] opens an element that contains everything up to its [endsect], with its own title first, and generic headings take the level of their nesting depth. An unmatched [endsect], an [endsect] with the wrong id, or a template that leaves sections unbalanced is an error; a section left open at the end of the document (or of an included document) is closed with a warning (an error in strict mode).",
 ["inputs", "histories"], "all sequences of section, endsect, heading, template and include operations",
 "Three fail tests and a few section gold files.",
 ["src/actions.cpp", "src/document_state.cpp", "src/doc_info_actions.cpp"],
 [("begin_section_action/end_section_action", "src/actions.cpp"), ("min_section_level", "src/state.hpp"), ("post()", "src/doc_info_actions.cpp")],
 ["output file, diagnostics"])
prop("C09", "Macros expand everywhere they are in scope and conditionals follow them",
 "After its definition a macro is replaced by its translated body wherever its name stands not followed by a letter or underscore, the longest defined name wins, and nowhere else. A conditional phrase [? m ..] keeps its content exactly when m is defined at that point ([?! m ..] when it is not, from 1.7), leaving no other trace, and a -D definition acts like one at the start of the document.",
 ["inputs", "histories", "configurations"], "all sets of macro names and bodies, definition orders, redefinitions and conditional nestings",
 "The gold files use a few macro names that do not share prefixes.",
 ["src/actions.cpp", "src/main_grammar.cpp", "src/symbols.hpp", "src/quickbook.cpp"],
 [("local.macro rule and state.macro table", "src/main_grammar.cpp"), ("macro_definition_action", "src/actions.cpp"), ("cond_phrase_push", "src/actions.cpp"), ("set_macros", "src/quickbook.cpp")],
 ["output file"])
prop("C10", "Template calls substitute their arguments with the documented scoping",
 "A template call yields the translation of the template body in which each parameter stands for the corresponding argument. Names are looked up statically from 1.5 on (in the scope of the template's definition, arguments in the scope of the caller) and dynamically before; arguments are split at .. or, when there is only one, at white space; a wrong number of arguments, a redefinition in the same scope or unbounded recursion is an error.",
 ["inputs", "programs", "histories"], "all template definitions, nestings, call graphs, argument lists and versions 1.1 to 1.7",
 "The templates gold files are single samples of each rule.",
 ["src/actions.cpp", "src/template_stack.cpp", "src/main_grammar.cpp", "src/block_element_grammar.cpp"],
 [("call_template, break_arguments, get_arguments", "src/actions.cpp"), ("template_stack::start_template, find", "src/template_stack.cpp"), ("template_depth limit", "src/actions.cpp")],
 ["output file, diagnostics"])
prop("C11", "Including and importing files is scoped as documented",
 "[include] puts the translation of the other file at that place, with macros and (from 1.6) templates defined there not visible afterwards, while [import] makes its macros and templates visible and emits no content. The state that a file changes (language version, __FILENAME__, source mode, current directory for relative paths) is restored when it ends, and a missing file is an error.",
 ["inputs", "histories"], "all trees of files including and importing each other, across directories, search paths and versions",
 "The include gold files are about thirty fixed small trees.",
 ["src/actions.cpp", "src/include_paths.cpp", "src/state.cpp", "src/document_state.cpp"],
 [("load_quickbook with state_save", "src/actions.cpp"), ("include_search, resolve paths", "src/include_paths.cpp"), ("update_filename_macro", "src/state.cpp")],
 ["output file"])
prop("C12", "The dependency file lists exactly what the run looked for",
 "--output-deps names every file that was read or searched for (main, included, imported, image) and, in the checked form, whether each was found and which globs were evaluated with which matches, and names no other file. Escaped output can be decoded back to the exact path.",
 ["inputs", "configurations", "histories"], "all trees of files with present and missing files, globs, odd file names, and all dependency output formats",
 "No stable test covers the dependency tracker.",
 ["src/dependency_tracker.cpp", "src/include_paths.cpp", "src/actions.cpp", "src/quickbook.cpp"],
 [("add_dependency, add_glob, add_glob_match, write_dependencies", "src/dependency_tracker.cpp"), ("include_search", "src/include_paths.cpp")],
 ["dependency file"])
prop("C13", "Syntax highlighting never loses or alters code",
 "The text content of a highlighted block or inline code equals the source code (after removal of the common indentation, with macros and ``escapes`` translated), whatever the code is and whichever mode applies. Each highlighted phrase carries the role of its lexical class for that language, and the mode in force is the one selected by the nearest source-mode setting.",
 ["inputs"], "all byte sequences as code, all three source modes, block and inline code, nested mode settings",
 "Three gold files of well-formed code.",
 ["src/syntax_highlight.cpp", "src/actions.cpp", "src/files.cpp", "src/state.cpp"],
 [("cpp_highlight, python_highlight, teletype_highlight", "src/syntax_highlight.cpp"), ("code_action, unindent_and_add", "src/actions.cpp, src/files.cpp"), ("current_source_mode", "src/state.cpp")],
 ["programlisting and code elements"])
prop("C14", "Snippets carry exactly the marked code and text",
 "Importing a source file defines one template per marked region whose expansion shows exactly that region's code, in order, with nested markers and ignored regions removed, and comment text marked for quickbook translated as quickbook. Unmatched or unclosed markers are errors from 1.6 on and warnings before; marked text outside any region appears only when the file is included.",
 ["inputs", "programs"], "all placements and nestings of snippet, ignore, escaped-comment and pass-through markers in C++ and Python sources",
 "A few fixed snippet files.",
 ["src/code_snippet.cpp", "src/files.cpp", "src/actions.cpp"],
 [("code_snippet_actions", "src/code_snippet.cpp"), ("mapped_file_builder", "src/files.cpp"), ("load_source_file", "src/actions.cpp")],
 ["output file, diagnostics"])
prop("C15", "Diagnostics and mapped text point at the true source position",
 "Every diagnostic names the file and the line where the offending construct is in the author's file, also when the text reached the parser through snippets, templates, unindented code or files with any newline convention, and messages about unexpected characters also name the column. Composing mapped text from pieces of a source file and asking for the position of any point gives the line and column that piece has in the original.",
 ["inputs", "histories"], "all placements of errors, and all sequences of operations that compose mapped text",
 "source_map_test checks a dozen fixed positions.",
 ["src/files.cpp", "src/stream.cpp", "src/actions.cpp"],
 [("relative_position, mapped_file::position_of, mapped_file_builder", "src/files.cpp"), ("outerr, outwarn", "src/stream.cpp")],
 ["stderr"])
prop("C16", "Pretty printing changes only insignificant white space",
 "Pretty printing changes nothing but white space: elements, attributes, text words and their order are preserved, the content of programlistings (but for trailing blanks) and of raw passages is kept verbatim, and between inline text and its tags white space is neither added where there was none nor removed where there was some. The result does not depend on how the white space of the input was laid out, and printing it again changes nothing.",
 ["inputs", "configurations"], "all element trees of the shapes that quickbook writes, all indent and line-width settings, XML and HTML modes",
 "post_process_test holds two fixed strings.",
 ["src/post_process.cpp", "src/quickbook.cpp"],
 [("tidy_compiler, tidy_grammar, pretty_printer", "src/post_process.cpp")],
 ["output file"])
prop("C17", "Newline style and byte order mark do not change the result",
 "Rewriting a source file's line ends as LF, CR LF or CR, or prefixing a UTF-8 byte order mark, leaves the output and the diagnostics' line numbers unchanged. Files in UTF-16 or UTF-32 (recognised by their byte order mark) are rejected with an error and no output.",
 ["inputs"], "all documents and imported sources, all newline conventions and encodings",
 "No stable test has a CR or a BOM.",
 ["src/files.cpp"],
 [("load, normalize, read_bom", "src/files.cpp")], ["output file, diagnostics"])
prop("C18", "Output depends only on the document and the options meant to affect it",
 "Running twice on the same files gives byte-identical output. Options that concern something else (dependency output, error format, line width and pretty printing up to white space, unused include paths and unused defines, the working directory and spelling of the input path) leave the document content unchanged.",
 ["inputs", "configurations"], "all documents and all pairs of option sets that differ in an unrelated option",
 "Each gold file is run once with one option set.",
 ["src/quickbook.cpp", "src/path.cpp", "src/actions.cpp"],
 [("option handling in main", "src/quickbook.cpp"), ("no dependence on addresses or unordered iteration", "src/*.cpp")], ["output file"])
prop("C19", "HTML output carries the same content as the BoostBook output",
 "The single-page HTML of a document contains every word of text of its BoostBook body and title, in order (text that follows a nested section is printed before it), with each element mapped to its HTML counterpart (emphasis, code, lists, tables, quotes, admonitions, headings at the right level), ids kept as anchors, and every internal link target present in the page. Text and attributes are escaped so that an HTML parser reads back the original characters.",
 ["inputs", "programs"], "all documents and all BoostBook trees of the supported elements",
 "HTML gold files mirror the BoostBook ones and are not among the stable tests.",
 ["src/bb2html.cpp", "src/html_printer.cpp", "src/xml_parse.cpp", "src/tree.cpp"],
 [("node parsers and element map", "src/bb2html.cpp"), ("html_printer", "src/html_printer.cpp")], ["HTML file"])
prop("C20", "Chunked HTML splits a document without losing content or breaking links",
 "Multi-page HTML writes every page inside the output directory, each section's content appears on exactly one page, and every internal link, table-of-contents entry and navigation link resolves to an existing page and anchor. Previous and next links follow document order and up links follow the section tree.",
 ["inputs", "configurations"], "all section trees with explicit and generated ids, cross links and images",
 "No test covers chunked output.",
 ["src/boostbook_chunker.cpp", "src/bb2html.cpp", "src/path.cpp"],
 [("chunk_document, inline_chunks", "src/boostbook_chunker.cpp"), ("generate_contents, get_link_from_path, id tables", "src/bb2html.cpp")], ["HTML files"])
prop("C21", "Value lists keep contents, order and sharing under every operation sequence",
 "Building lists of tagged values (nested lists, insertion, sorting by tag, abandoning, saving and restoring the builder) gives exactly the values inserted, in insertion order, with sorting stable by tag. Consuming and iterating yields each value once, and a list or value that is held elsewhere is never changed by later operations.",
 ["histories", "inputs"], "all sequences of builder, container and consumer operations over all value kinds",
 "values_test runs five fixed sequences.",
 ["src/values.cpp", "src/values.hpp"],
 [("value_list_builder, value_builder, reference counts", "src/values.cpp"), ("value_consumer", "src/values.hpp")], ["values API"])
prop("C22", "Glob patterns match exactly the names their pattern describes",
 "A name matches a glob exactly when the pattern's literals, ?, *, character ranges (and negated ranges) and backslash escapes can be laid over the whole name; malformed patterns are rejected and never read past their end. Including or importing by glob finds exactly the files that match, in sorted order.",
 ["inputs"], "all patterns and names, including every byte value",
 "glob_test holds a few dozen fixed pairs.",
 ["src/glob.cpp", "src/include_paths.cpp"],
 [("check_glob, glob, find_glob_char, glob_unescape", "src/glob.cpp"), ("glob search", "src/include_paths.cpp")], ["matching results, included content"])
prop("C23", "Relative paths and URLs lead to the file they were made for",
 "The relative path computed from one directory to another path, resolved against that directory, designates the same file; converting a path to a URL and decoding it gives the path back, with characters that are not allowed in a URL escaped. Options that accept a path or a URL treat absolute URLs as given and paths as files.",
 ["inputs"], "all pairs of absolute, relative and dotted paths, and all file-name characters",
 "path_test is not among the stable tests and has a few samples.",
 ["src/path.cpp", "src/native_text.cpp", "src/utils.cpp"],
 [("path_difference", "src/path.cpp"), ("file_path_to_url, dir_path_to_url, path_or_url", "src/path.cpp"), ("escape_uri", "src/utils.cpp")], ["hrefs in the output"])
prop("C24", "Escaping for XML, URIs and identifiers is lossless or canonical",
 "Encoding text for XML and decoding it gives the text back for every byte string, and the encoded form contains no markup characters. URI escaping leaves unreserved characters alone, turns every other byte into its two-digit hexadecimal escape and can be decoded back; made identifiers contain only lower-case letters, digits and underscores, one per input character class, and are stable when applied again.",
 ["inputs"], "all byte strings",
 "utils_test is not among the stable tests and has about ten strings.",
 ["src/utils.cpp"],
 [("encode_string, decode_string, print_char", "src/utils.cpp"), ("escape_uri, partially_escape_uri, make_identifier", "src/utils.cpp")], ["utility functions, hrefs and ids"])
prop("C25", "The XML reader and tree keep structure through parsing and editing",
 "Parsing BoostBook text gives a tree with the same elements, attributes, text and order, malformed text is reported as an error with a position inside the text, and nothing is read past its end. Building, extracting and moving parts of a tree keeps parent, sibling and child links consistent and never loses, duplicates or reorders other nodes.",
 ["inputs", "histories"], "all XML texts (well-formed or not) and all sequences of tree operations",
 "No test covers the XML parser or the tree.",
 ["src/xml_parse.cpp", "src/xml_parse.hpp", "src/tree.cpp", "src/tree.hpp", "src/html_printer.cpp"],
 [("xml_parse", "src/xml_parse.cpp"), ("tree_base, tree_builder_base, extract", "src/tree.cpp")], ["tree contents, HTML output"])
prop("C26", "Symbol tables find the longest defined name and copies are independent",
 "Looking up text in a symbol table finds the longest name that is a prefix of the text and its latest value, and nothing when no name matches, for every set of names and insertion order. Changing a copy never affects the table it was copied from, so scoped definitions end with their scope.",
 ["histories", "inputs"], "all sequences of add, find and copy over all names",
 "symbols_tests is excluded from the stable tests and uses fixed names.",
 ["src/symbols.hpp", "src/state.cpp"],
 [("tst with copy-on-write nodes", "src/symbols.hpp"), ("state_save of macros", "src/state.cpp")], ["symbol table API, macro expansion"])
prop("C27", "Output and template scopes nest, and scoped objects are released once",
 "Pushing and popping output buffers returns the text collected at each level to exactly where it was, and template scopes find the nearest visible definition, keep outer scopes intact and drop definitions when their scope ends. Objects registered for cleanup are destroyed exactly once, in reverse order of registration.",
 ["histories"], "all sequences of push, pop, write, swap, define, lookup and cleanup operations",
 "cleanup_test has two fixed cases; collector and template stack have none.",
 ["src/collector.cpp", "src/collector.hpp", "src/template_stack.cpp", "src/template_stack.hpp", "src/cleanup.hpp"],
 [("collector push/pop", "src/collector.cpp"), ("template_stack scopes", "src/template_stack.cpp"), ("cleanup", "src/cleanup.hpp")], ["component API, output text"])
prop("C28", "Each file is translated by the rules of the version it declares",
 "A construct introduced in a later language version is not recognised under an earlier one and behaves as documented from its version on; the version in force is the one the file declares (1.1 with a warning when it declares none) and applies to that file only. Unknown versions are an error, and a compatibility mode changes only generated ids.",
 ["inputs", "configurations"], "all version numbers crossed with all version-dependent constructs, in main and included files",
 "Each gold file exercises one or two versions.",
 ["src/doc_info_actions.cpp", "src/main_grammar.cpp", "src/block_element_grammar.cpp", "src/phrase_element_grammar.cpp", "src/state.cpp"],
 [("qbk_version_n and qbk_ver guards", "src/main_grammar.cpp"), ("get_version, pre", "src/doc_info_actions.cpp"), ("state_save", "src/state.cpp")], ["output file, diagnostics"])
prop("C29", "Document information is reproduced in the document header",
 "Type, id, title, version, language, authors, copyright years (ranges expanded) and holders, license, purpose, categories, biblioids, last revision and directory name given in the document info each appear once in the header of the output, with the given values up to surrounding white space (raw BoostBook before 1.6), in whatever order they were written. Unknown attributes and invalid year ranges are errors; attributes that do not apply to the document type or are repeated produce a warning.",
 ["inputs"], "all sets, orders and values of attributes, all document types",
 "About twenty doc-info gold files.",
 ["src/doc_info_grammar.cpp", "src/doc_info_actions.cpp"],
 [("doc_info_grammar", "src/doc_info_grammar.cpp"), ("pre, write_boostbook_header", "src/doc_info_actions.cpp")], ["output file header"])
prop("C30", "Links, images, anchors and xincludes carry the author's targets",
 "Every link, reference, anchor, image and xinclude produces the documented element whose target attribute decodes to the author's text (URLs escaped only where a URL requires it), with the given description, or the target itself when there is none. Image attributes are all kept, the alt text becomes the text object, relative xinclude and image paths are rewritten so that they lead to the same file from the output, and each anchor appears once next to the content it precedes.",
 ["inputs", "configurations"], "all targets, descriptions, attribute sets and versions",
 "A few fixed targets in gold files.",
 ["src/actions.cpp", "src/phrase_element_grammar.cpp", "src/include_paths.cpp", "src/path.cpp"],
 [("link_action, image_action, anchor_action, write_anchors", "src/actions.cpp"), ("xinclude_action", "src/actions.cpp"), ("partially_escape_uri", "src/utils.cpp")], ["output file"])
prop("C31", "Callouts and footnotes are numbered and linked one to one",
 "Every callout in a code block (from 1.7, and in snippets in every version) produces one marker in place of the comment and one entry, in order, in the list after the block; marker and entry refer to each other by unique ids and the entry holds the translation of the callout's text. Each footnote keeps its text at its place with an id of its own, and in HTML each footnote reference is linked to its one note and back.",
 ["inputs", "programs"], "all numbers, positions and nestings of callouts and footnotes, BoostBook and HTML",
 "Two gold files.",
 ["src/actions.cpp", "src/syntax_highlight.cpp", "src/bb2html.cpp"],
 [("add_callout, end_callouts", "src/actions.cpp"), ("line_callout, inline_callout", "src/syntax_highlight.cpp"), ("callout and footnote numbering", "src/bb2html.cpp")], ["output files"])

with open(OUT, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
