"""What is claimed: one entry per property. tools/gen.py writes properties.jsonl and MANIFEST.json from this."""

L = "jinja-lsp/src/lsp_files.rs"
Q = "jinja-lsp-queries/src/"
NAMES = "names are one symbolic letter each (g, h, j, k, l, n, q, u, v, x, y, z), so every pattern of equal and different names is covered"
OUT = ("documents of other shapes, longer names, more statements; columns after non-ASCII text in responses, which the server counts in bytes")


def e(bounds, *covers):
    return {"bounds": bounds, "covers": list(covers)}


PROPS = {}


def prop(pid, **kw):
    PROPS[pid] = kw


prop("C01",
     title="After any edits the server knows the document as if freshly opened",
     statement="After any sequence of change notifications the server's view of a document (objects, symbols, diagnostics, completion, hover) is the one it would have if the resulting text had just been opened. This holds however the edits are split into notifications, whatever characters they insert or remove, and whether or not the document was temporarily broken.",
     over=["histories", "inputs"],
     quant="every edit (position, length, inserted text), every order and grouping of edits, every document",
     why="No test sends a change notification; equivalence with re-opening quantifies over edit histories and positions.",
     files=[L, Q + "to_input_edit.rs", Q + "parsers.rs"],
     mechanism=[("incremental text and tree update", L + " did_change, input_edit, add_tree"), ("edit geometry", Q + "to_input_edit.rs")],
     quick={
         "h_c01_edit": e("a document of 3 lines with 2 and 4 byte characters and a symbolic name; one replacement between two arbitrary 32-bit positions (deleting 0, 1 or 7 bytes or the rest), 6 inserted texts", "compared"),
         "h_c01_crlf": e("a document with CRLF line breaks; one replacement between two arbitrary positions (deleting 0 or 7 bytes or the rest), 4 inserted texts", "compared"),
         "h_c01_undo": e("7 texts that break the document, inserted at every position of a 3-line document and removed again, saved in between or not", "compared"),
         "h_c01_batch": e("two insertions in one notification, each at every position, 4 x 2 texts", "compared"),
         "h_c01_full": e("a change without range, alone or with an edit before it and/or one after it at every position, in one notification or several", "compared", "edited after"),
         "h_c01_backend": e("a Rust source with a symbolic name, 6 edits", "compared"),
         "h_c01_typing": e("5 statements typed key by key at 8 places, with or without auto-closed braces", "compared"),
         "h_c01_broken": e("6 unfinished texts inserted at every position of a 3-line document; objects, completion and hover", "compared"),
     },
     bounds="documents up to 60 characters and 3 lines, up to 34 edits, every 32-bit position",
     outside="longer documents and histories, carriage returns as the only line break",
     )

prop("C02",
     title="Positions, offsets and edit descriptions agree with the text",
     statement="For every text and every pair of positions the byte offsets and row/column points given to the parser describe exactly the text that an editor following the protocol means (columns in UTF-16 units, positions past a line or the text clamped). Converting an offset to a position and back gives the offset.",
     over=["inputs"],
     quant="every text, every start and end position, every replacement text",
     why="The conversions depend on character widths, line breaks and out-of-range positions; no test calls them.",
     files=[Q + "to_input_edit.rs"],
     mechanism=[("ToInputEdit for Rope", Q + "to_input_edit.rs")],
     quick={
         "h_c02_edit": e("texts of up to 3 characters out of {1, 2, 4 byte character, line feed}, replacements of up to 2 such characters, every pair of 32-bit positions", "edit"),
         "h_c02_inverse": e("texts of up to 4 such characters, every character offset", "inverse"),
         "h_c02_long": e("a text of several rope pieces, offsets around the ends of lines and pieces", "edit"),
     },
     thorough={"h_c02_edit4": e("texts of up to 4 characters, replacements of up to 2", "edit")},
     bounds="texts of up to 4 characters (and one of about 2700 bytes), every 32-bit line and column",
     outside="longer texts of mixed widths; CR and other line breaks than LF",
     )

prop("C03",
     title="Exactly the undefined variables of a template are flagged",
     statement="In a well-formed template every use of a variable that no definition before it and in scope provides is flagged exactly once at its range, and no defined use, field, filter, test, block name, keyword or constant is flagged. Scopes of for, with, macro, block, if/elif/else, filter and autoescape end where the statement or branch ends; set belongs to the scope it stands in.",
     over=["inputs", "programs"],
     quant="every template, every nesting and order of statements, every spelling and coincidence of names",
     why="Tests check a few fixed templates for the number of definitions; soundness and completeness range over nestings, orders and name coincidences.",
     files=[Q + "lsp_helper.rs", Q + "search/definition.rs", Q + "search/objects.rs", Q + "search/queries.rs"],
     mechanism=[("scopes of definitions", Q + "search/definition.rs JinjaDefinitions"), ("uses", Q + "search/objects.rs JinjaObjects"), ("comparison", Q + "lsp_helper.rs search_errors")],
     quick={
         "h_c03_nest": e("two nested statements out of 13 kinds, 3 symbolic names, uses inside, between and after", "judged", "flagged"),
         "h_c03_expr": e("24 expression forms in 4 places, 3 symbolic names", "judged", "flagged"),
         "h_c03_targets": e("42 kinds of statement (several targets, defaults, modifiers, whitespace control, raw, call), 3 symbolic names", "judged", "flagged"),
         "h_c03_words": e("defined and used name of two symbolic characters each (letters, digits, underscore)", "judged", "flagged"),
         "h_c03_imported": e("4 forms of import, imported and used name symbolic", "imported", "other"),
         "h_c03_order": e("three statements in a row out of 6 kinds each, 3 symbolic names", "judged", "flagged"),
     },
     bounds="up to 3 statements (nested 2 deep or in a row) and 4 uses; " + NAMES,
     outside=OUT,
     )

prop("C04",
     title="Diagnostics say where a variable is defined, and how severe it is",
     statement="An undefined use whose name is defined in another open or indexed document (template or backend), and nowhere in its own, is reported as information \"Variable is defined in other file.\"; any other undefined use is a warning \"Undefined variable\". The published range is the name's own range.",
     over=["inputs", "histories"],
     quant="every pair of documents, every set of names defined in them, every order of opening",
     why="Tests look at single documents; the classification depends on the whole set of known documents.",
     files=[Q + "lsp_helper.rs", Q + "tree_builder.rs"],
     mechanism=[("classification", Q + "lsp_helper.rs search_errors, create_diagnostic"), ("severity and message", Q + "tree_builder.rs JinjaDiagnostic")],
     quick={
         "h_c04_templates": e("another template of 8 kinds, an own template of 5 kinds x 3 beginnings, 3 symbolic names", "elsewhere", "nowhere"),
         "h_c04_backend": e("a Rust source and another template, opened before or after, symbolic name", "elsewhere", "nowhere"),
     },
     bounds="up to 3 documents, up to 4 uses; " + NAMES,
     outside=OUT,
     )

prop("C05",
     title="Hover describes the object under the cursor",
     statement="Hovering at any position names the variable, filter or test whose name or fields the position touches, knows which of the three it is, and for a variable gives the kind of the latest definition in scope; anywhere else there is no hover.",
     over=["inputs"],
     quant="every position of every template",
     why="Tests never hover; the answer depends on each position, including ends of names and positions outside the text.",
     files=[L, Q + "search/objects.rs"],
     mechanism=[("hover, data_type", L), ("is_hover, get_last_id", Q + "search/objects.rs")],
     quick={
         "h_c05_hover": e("8 document shapes, 3 symbolic names, every 32-bit line and column", "hover", "typed", "untyped"),
         "h_c05_any": e("42 kinds of statement around a use, 24 forms of expressions, 2 symbolic names, every 32-bit line and column", "hover"),
     },
     bounds="8 shapes of up to 3 statements, 42 kinds of statement, 24 expressions; every 32-bit position; " + NAMES,
     outside=OUT,
     )

prop("C06",
     title="Go-to-definition finds the closest definition in scope",
     statement="From any position on a variable the server goes to the closest preceding definition of that name whose scope contains the position; if its own document has none, to all definitions of the name in other documents; from anywhere that is not a name, to nothing.",
     over=["inputs"],
     quant="every position of every template, every set of other documents",
     why="Tests never ask for definitions; shadowing and scope ends make the answer differ by position.",
     files=[L],
     mechanism=[("goto_definition", L)],
     quick={
         "h_c06_goto": e("8 document shapes, 3 symbolic names, another document with 3 definitions, every 32-bit line and column", "own", "elsewhere"),
         "h_c06_any": e("the same as h_c05_any, another document with 3 definitions", "own", "elsewhere"),
     },
     bounds="8 shapes of up to 3 statements, 42 kinds of statement; every 32-bit position; " + NAMES,
     outside=OUT + "; filters, tests, block names and fields as starting points",
     )

prop("C07",
     title="Completion in an expression offers exactly the visible variables",
     statement="Inside an expression, completion offers every variable defined before the cursor and in scope whose name starts with what is typed before the cursor, each once and with its kind, plus the backend's variables, and nothing else. Accepting an item replaces the whole name under the cursor.",
     over=["inputs"],
     quant="every template, every place in an expression, every prefix",
     why="Tests call the query on a few fixed positions and do not look at the offered items.",
     files=[L, Q + "search/objects.rs"],
     mechanism=[("completion, read_variables", L), ("completion", Q + "search/objects.rs")],
     quick={"h_c07_names": e("6 document shapes, one name `q` or `g` and any letter, the other `q` or `gv`, typed text empty, `g`, any letter, or both, every cursor in it; VS Code and other clients", "offered"),
            "h_c07_both": e("the same with both names `q` or `g` and any letter", "offered"),
            "h_c07_any": e("42 kinds of statement around the cursor, 3 typed texts, a symbolic name", "offered"),
            "h_c07_place": e("14 places in expressions, 4 typed texts, a symbolic name, every cursor in what is typed", "offered")},
     bounds="6 shapes, 42 kinds of statement, 24 expressions; names of one or two characters; typed texts of up to 2 characters",
     outside=OUT + "; completion in statements",
     )

prop("C08",
     title="A template reference is resolved against the template directory",
     statement="A name in extends, include, import, from or in the backend's calls is reported missing exactly if no file of that name exists under the template directory; go-to-definition leads to that file, and nowhere if there is none; on a missing name the client can create that very file, never overwriting one, and the report is withdrawn once it exists.",
     over=["inputs"],
     quant="every template name, every position",
     why="Tests open two documents with one good and one bad name; resolution depends on the name, on what exists, and on the position.",
     files=[L, Q + "lsp_helper.rs", Q + "search/templates.rs", Q + "search/rust_template_completion.rs"],
     mechanism=[("search_errors", Q + "lsp_helper.rs"), ("goto_definition, code_action, process_code_actions", L), ("templates_query", Q + "search/templates.rs")],
     quick={
         "h_c08_refs": e("6 kinds of reference twice, both quotes, 10 forms of names (nested, dotted, absolute, empty, below a file, a directory, with characters that uris encode) with a symbolic letter, 7 existing files", "exists", "missing"),
         "h_c08_goto": e("the same references and names, every 32-bit line and column", "exists", "missing"),
         "h_c08_backend": e("2 Rust and 3 Python sources, the same names, every 32-bit line and column", "exists", "missing", "quotes"),
         "h_c08_created": e("6 kinds of reference to a template in one of 2 directories that is created after the client was offered to, or not", "offered", "created"),
         "h_c08_create": e("a template and a Rust source, the same names, every 32-bit line and column", "create", "reset"),
     },
     bounds="7 existing files, 10 forms of names with one symbolic letter; every 32-bit position",
     outside="names with quotes in them, symbolic links, file systems that ignore case; " + OUT,
     )

prop("C09",
     title="Completion in a template name offers the matching templates",
     statement="Inside the string of extends, include, import, from, or of a backend call that names a template, completion offers exactly the other known templates whose path under the template directory contains what is typed before the cursor, and accepting one replaces the whole string with that name. Outside of such strings no templates are offered.",
     over=["inputs"],
     quant="every position, every typed text, every set of known templates",
     why="No test completes a template name; the cursor splits the name anywhere.",
     files=[L, Q + "search/templates.rs", Q + "search/rust_template_completion.rs"],
     mechanism=[("completion, read_templates", L), ("templates_query", Q + "search/templates.rs")],
     quick={
         "h_c09_names": e("5 kinds of statement, both quotes, 6 forms of typed text with up to 2 symbolic letters, every cursor in it, 6 known templates and one outside of the directory, both kinds of client", "offered"),
         "h_c09_backend": e("2 Rust and 2 Python sources, the same typed texts and cursors", "offered"),
         "h_c09_outside": e("4 documents, every 32-bit line and column", "inside", "outside"),
     },
     bounds="7 known files; typed texts of 6 forms with up to 2 symbolic letters; every 32-bit position",
     outside="names with quotes or non-ASCII characters in them; " + OUT,
     )

prop("C10",
     title="The variables that backend sources hand over are known to templates",
     statement="A name handed to templates by a source of the backend (context!, add_function, add_global, add_filter in Rust; keyword arguments of render calls and globals or filters of an environment in Python) is known in every template: it is reported as defined elsewhere and not as undefined, leads to where it is handed over, is hovered as a backend variable and is offered in expressions; other identifiers of the source are not.",
     over=["inputs", "histories"],
     quant="every name, every source and template, in every order of opening",
     why="Tests count captures in fixed sources and never relate them to a template.",
     files=[L, Q + "search/queries.rs", Q + "search/rust_identifiers.rs", Q + "search/python_identifiers.rs"],
     mechanism=[("RUST_DEFINITIONS, BACKEND_DEFINITIONS", Q + "search/queries.rs"), ("add_tree, read_variables, data_type, goto_definition", L)],
     quick={
         "h_c10_rust": e("6 sources with 3 symbolic names, a template with one, opened before or after", "known", "unknown"),
         "h_c10_python": e("5 sources with 3 symbolic names, a template with one, opened before or after", "known", "unknown"),
     },
     bounds="11 sources of a few lines; " + NAMES,
     outside="values inside of context! (the server takes identifiers in them for variables too); other ways to hand over values",
     )

prop("C11",
     title="No text, edit or request makes the server fail",
     statement="Whatever a client opens, changes, saves or asks at whatever position, also for unfinished text, positions outside of the document, unknown documents, and ranges that are reversed, the server answers without failing, and what it answers lies inside the document.",
     over=["inputs", "histories"],
     quant="every text, edit and position",
     why="A panic needs one particular input; tests use well-formed ones.",
     files=[L, Q + "to_input_edit.rs", Q + "search/mod.rs", Q + "search/objects.rs"],
     mechanism=[("every request", L), ("captures", Q + "search/mod.rs")],
     quick={
         "h_c11_text": e("one arbitrary ASCII character in 24 contexts, every 32-bit column", "text"),
         "h_c11_text2": e("two arbitrary ASCII characters in 24 contexts, every 32-bit column", "text", "completion", "hover"),
         "h_c11_positions": e("24 finished and unfinished texts, every 32-bit line and column", "completion", "hover"),
         "h_c11_edits": e("24 texts under 5 kinds of URI, edits between all positions up to a line and a few columns outside", "edited"),
         "h_c11_backend": e("10 texts as Rust and as Python, every 32-bit line and column", "completion"),
     },
     bounds="texts of up to 60 characters, of which up to 2 arbitrary; every 32-bit position",
     outside="long texts, arbitrary characters other than ASCII, memory exhaustion",
     )

prop("C12",
     title="Documents do not disturb each other",
     statement="Opening, changing or saving one document changes nothing in what the server knows about another: its definitions, symbols, where its diagnostics are, and what is found at its positions. Only whether an undefined name is defined elsewhere depends on other documents.",
     over=["histories", "inputs"],
     quant="every pair of documents and order of operations",
     why="Tests open documents with unrelated content one after another and look at one of them.",
     files=[L],
     mechanism=[("per-document maps, add_tree, search_errors", L)],
     quick={
         "h_c12_other": e("4 other documents under 4 URIs (templates and a Rust source), opened before or after, edited at every position, saved", "compared"),
         "h_c12_position": e("2 other documents, opened, changed, saved or replaced; every 32-bit line and column of the first", "compared"),
     },
     bounds="2 documents, up to 6 operations",
     outside="more documents; definitions moved between documents (C04)",
     )

prop("C13",
     title="Saving or opening a document again changes nothing",
     statement="Saving a document or opening it again with the same text leaves everything the server knows and reports about it as it was, and opening replaces what was known about a document before: definitions, diagnostics and answers are those of the current text only, also for text that does not parse.",
     over=["histories", "inputs"],
     quant="every document, every sequence of opening and saving",
     why="No test saves or opens twice and compares.",
     files=[L],
     mechanism=[("did_open, did_save, add_tree, delete_variables", L)],
     quick={
         "h_c13_again": e("8 shapes of documents with 3 symbolic names and 24 unfinished texts; 3 histories before, up to 2 more operations", "compared"),
         "h_c13_position": e("the same with one symbolic name and up to one more operation; every 32-bit line and column", "compared"),
     },
     bounds="32 documents, up to 4 operations",
     outside="longer histories and documents",
     )

prop("C15",
     title="At start everything on disk is known as if it had been opened",
     statement="When the server starts it reads the files below the template and source directories, at any depth and under relative or absolute paths, that are templates (html, jinja, j2) or sources (rs, py), and no others. Every one is then known, under the uri a client would use, as if it had been opened with its content: its definitions are found, its name is offered, and its diagnostics are published.",
     over=["inputs", "histories"],
     quant="every tree of files, every content, every way to write the directories",
     why="No test reads a directory.",
     files=["jinja-lsp/src/config.rs", L, "jinja-lsp/src/channels/lsp.rs"],
     mechanism=[("walkdir, file_ext", "jinja-lsp/src/config.rs"), ("read_file, read_trees", L)],
     quick={
         "h_c15_kinds": e("extensions of up to 5 arbitrary ASCII characters after 4 stems", "taken", "left out"),
         "h_c15_scan": e("16 files in 20 directories (9 deep, with a hidden and a long file), 2 symbolic names in their contents, 5 ways to write the directories, both languages", "read"),
         "h_c15_ask": e("the same files, one of them opened or none; every 32-bit line and column of 4 of them", "asked"),
         "h_c15_start": e("the same files, 2 symbolic names, the whole server", "published"),
     },
     bounds="one tree of 16 files; " + NAMES,
     outside="symbolic links, unreadable files and directories, files that are not UTF-8, missing directories",
     )

prop("C16",
     title="Document symbols list every definition once",
     statement="The symbols of a well-formed template are exactly its definitions, each once, with its name, range and kind (functions for macros, fields for parameters, modules for blocks, variables otherwise).",
     over=["inputs"],
     quant="every template",
     why="Tests never ask for symbols.",
     files=[L, Q + "search/definition.rs", Q + "search/mod.rs"],
     mechanism=[("document_symbols", L), ("symbol_kind", Q + "search/mod.rs")],
     quick={
         "h_c16_symbols": e("8 document shapes, 3 symbolic names", "symbols"),
         "h_c16_any": e("one of 42 kinds of statement inside of another, 3 symbolic names", "symbols"),
     },
     bounds="8 shapes of up to 3 statements, 42 kinds of statement in each other; " + NAMES,
     outside=OUT,
     )

prop("C14",
     title="What the client is shown is about the current text",
     statement="Whatever notifications (open, change, save, configuration change, reset) a client sends, at once or with pauses, and about however many documents: every request is answered, and from the text as the client has it at that time; and when the client stops, the diagnostics last shown for each open document, and the actions offered in it, are those of its current text. A template that the client is offered to create is created under the name it was missing.",
     over=["histories", "schedules", "inputs"],
     quant="every history of notifications and every timing between them, every number of documents",
     why="Tests call the library one operation at a time; the server is three tasks that exchange messages, with a timer between changes and diagnostics.",
     files=["jinja-lsp/src/channels/lsp.rs", "jinja-lsp/src/channels/diagnostics.rs", "jinja-lsp/src/channels/mod.rs", "jinja-lsp/src/backend.rs", L],
     mechanism=[("lsp_task", "jinja-lsp/src/channels/lsp.rs"), ("diagnostics_task", "jinja-lsp/src/channels/diagnostics.rs"), ("language server requests", "jinja-lsp/src/backend.rs")],
     quick={
         "h_c14_fresh": e("two documents, three operations out of 10 (edits, opening, saving, pauses of 100, 200 and 250 ms), a symbolic name; then every kind of request at every 32-bit column", "settled"),
         "h_c14_config": e("a document that is on disk with another text or not; edits before and after one of 3 configuration changes or a reset; every kind of request at every 32-bit column", "settled"),
         "h_c14_many": e("1 to 120 documents opened at once", "many"),
         "h_c14_now": e("an edit with a symbolic name and position, and a request right after it", "asked"),
         "h_c14_create": e("a missing template, by name with symbolic letters", "created"),
     },
     bounds="2 documents and up to 5 operations (or 120 documents and one), one deterministic schedule of the tasks per timing",
     outside="preemption inside of a task (they run on one thread here), transport and JSON-RPC framing, clients that answer late",
     )

prop("C17",
     title="Snippets are offered for unfinished statements and finish them",
     statement="Snippets are offered right after the opening of a statement that is not finished, and nowhere in a finished document. Accepting one puts it where the cursor is, together with what is there already makes finished statements, and defines the names it shows.",
     over=["inputs"],
     quant="every document and position, every snippet",
     why="No test accepts a snippet; the result depends on the text around the cursor.",
     files=["jinja-lsp/src/channels/lsp.rs", Q + "search/snippets_completion.rs", "jinja-lsp/src/filter/mod.rs", L],
     mechanism=[("snippets_query", Q + "search/snippets_completion.rs"), ("completion", L)],
     quick={
         "h_c17_finished": e("the shapes of C05 and 4 finished documents, every 32-bit line and column", "finished"),
         "h_c17_unfinished": e("6 openings of a statement after 3 kinds of text, every column in it, both kinds of client, all 11 snippets", "offered", "accepted"),
     },
     bounds="documents of a few lines, 11 snippets, every 32-bit position",
     outside="several unfinished statements in one document; snippets accepted in the middle of an opening",
     )

prop("C18",
     title="The Node API answers for embedded templates as for templates alone",
     statement="For a template that stands at some line and column of a host document, everything the Node API returns (definitions, hover, definitions of a use, completion) is what the library returns for the template alone, with positions those of the host; before the template there is nothing. Objects that an action names, and no others, are links, and hover shows what the action says. Forgetting a host forgets its templates and no others.",
     over=["inputs", "histories"],
     quant="every template, first line and column, every position, every set of actions and hosts",
     why="The only test asks one question of an empty instance.",
     files=["jinja-lsp-nodejs/src/lib.rs", L, Q + "search/python_identifiers.rs"],
     mechanism=[("NodejsLspFiles", "jinja-lsp-nodejs/src/lib.rs"), ("delete_documents_with_id, read_python_ids", L)],
     quick={
         "h_c18_known": e("the shapes of C05 with a symbolic name, every first line up to 2^30, first columns 0 to 3", "known"),
         "h_c18_position": e("the same in 3 hosts, every 32-bit line and column", "before", "hover", "definition", "offered"),
         "h_c18_links": e("a template and a Python source with 3 objects, simple and dotted actions, 3 symbolic names", "link", "removed"),
         "h_c18_actions": e("actions under 3 hints, simple and dotted, a template that defines the name or not, 2 symbolic names, every 32-bit column", "hinted", "local", "leads"),
         "h_c18_forget": e("2 templates in each of 6 hosts with similar names, each host forgotten and added again", "forgotten"),
     },
     bounds="2 embedded templates per host; " + NAMES,
     outside="the conversion to JavaScript values (napi), names offered for an unfinished name, descriptions of hinted variables, other templates as definitions",
     )

prop("C19",
     title="Filters and tests are described and offered where one is expected",
     statement="Hovering the name of a built-in filter or test shows its description, and any other name after a pipe or `is` shows none. After a pipe every filter is offered, after `is` and `is not` every test, each with its description, and elsewhere neither.",
     over=["inputs"],
     quant="every name, document and position",
     why="Tests hover one filter and complete after one pipe.",
     files=["jinja-lsp/src/channels/lsp.rs", "jinja-lsp/src/filter/mod.rs", Q + "search/objects.rs"],
     mechanism=[("hover and completion", L + " and jinja-lsp/src/channels/lsp.rs"), ("is_filter, is_test", Q + "search/objects.rs")],
     quick={
         "h_c19_filter": e("38 names with one arbitrary letter, 4 forms, every cursor in them", "known", "unknown"),
         "h_c19_test": e("31 names with one arbitrary letter, 3 forms, every cursor in them", "known", "unknown"),
         "h_c19_offered": e("7 operators after 3 kinds of expression, a symbolic name", "offered"),
         "h_c19_where": e("6 lines, 2 symbolic names, every 32-bit column of 3 lines", "offered", "elsewhere"),
     },
     bounds="38 filters, 31 tests, names that differ from one of them in one letter; every 32-bit column",
     outside="unfinished statements (tests are offered there from `is` to the end of the row); a test called `filter` in a statement",
     )

prop("C20",
     title="The server runs with the configuration it was given",
     statement="The configuration is the one that the client sends or, if it sends no valid one, the jinja-lsp table of the first of pyproject.toml, Cargo.toml and jinja-lsp.toml that has a valid one. Templates, sources and language are those it names; hide_undefined hides exactly the reports of undefined variables. When the client changes it, what is shown becomes what the new one implies. Without a configuration, or with an unknown language, the client is told.",
     over=["inputs", "histories"],
     quant="every configuration from every source, every change",
     why="No test has a configuration.",
     files=["jinja-lsp/src/config.rs", "jinja-lsp/src/channels/lsp.rs", Q + "lsp_helper.rs"],
     mechanism=[("search_config, walkdir", "jinja-lsp/src/config.rs"), ("Initialize, Initialized, DidChangeConfiguration", "jinja-lsp/src/channels/lsp.rs"), ("ignore_globals", Q + "lsp_helper.rs")],
     quick={
         "h_c20_search": e("3 files in 7 states each, arbitrary printable characters in their values", "found", "none"),
         "h_c20_start": e("9 client configurations and 3 states of the working directory, a symbolic name", "works", "does not work"),
         "h_c20_change": e("from 2 to 4 configurations, with a document open or not, a symbolic name", "changed", "opened"),
         "h_c20_hide": e("the shapes of C05 with symbolic names, hidden or not; every 32-bit column", "hidden", "compared"),
     },
     bounds="2 template and 2 source directories, 6 configurations",
     outside="other TOML syntax, several changes at once",
     )

NOT_APPLICABLE = []
