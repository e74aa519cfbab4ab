"""Writes properties.jsonl (one object per line) from the readable form below."""
import json, os

Q = "jinja-lsp-queries/src/"
S = "jinja-lsp/src/"
F = S + "lsp_files.rs"
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": state or [],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or [],
            "hook_needed": None,
        },
    })


p("C01", "Answers depend only on a document's current text, not on its edit history",
  "After any sequence of opening, editing (incremental ranges in UTF-16 positions, several changes per notification, or replacement of the whole text), saving, closing and reopening a template or backend document whose final text is well-formed, its diagnostics, symbols, completions, hovers and definitions equal those of a freshly started server in which only the final text was opened. "
  "This includes histories whose intermediate texts are malformed, multi-byte text, and LF or CRLF line ends. "
  "The server announces the synchronisation it relies on: open/close notifications, incremental changes and saves.",
  ["histories", "inputs"],
  "every history of open/change/save/close notifications over one or more documents, every well-formed final text",
  "The tests parse a few constant strings once; none sends an edit, so positions, rope/tree agreement and stale state after reopening are never exercised.",
  [F, Q + "to_input_edit.rs", Q + "parsers.rs", S + "channels/lsp.rs", S + "backend.rs"],
  [("did_change applies changes to rope and tree", F + " did_change / input_edit"),
   ("UTF-16 position to byte/point conversion", Q + "to_input_edit.rs"),
   ("documents parsed from scratch on open", F + " did_open / add_tree"),
   ("definitions recomputed on save", F + " did_save / add_variables")],
  ["textDocument/publishDiagnostics", "documentSymbol, completion, hover, definition responses"])

p("C02", "No document text, position or URI stops the server",
  "Whatever text is opened or typed into a template, Rust or Python document (malformed, arbitrary Unicode, any line ends), and whatever positions and edit ranges (also outside of the text, or with start after end) or URIs (also unknown ones) requests refer to, every request gets a response and the server keeps running. "
  "Afterwards the server still answers correctly for other, well-formed documents.",
  ["inputs", "histories"],
  "every document text, edit, position and URI that a client can send in a well-formed LSP message",
  "A test can try a handful of malformed texts; the crash sites depend on byte/UTF-16 offsets, empty captures and rope bounds reached only by particular combinations.",
  [F, Q + "to_input_edit.rs", Q + "search/objects.rs", Q + "search/definition.rs", Q + "search/templates.rs", Q + "search/mod.rs", S + "channels/lsp.rs"],
  [("positions are clamped to the document", Q + "to_input_edit.rs"),
   ("queries stop at ERROR nodes", Q + "search/*.rs \"error\" captures"),
   ("Option-returning request handlers", F)],
  ["responses by id", "process liveness", "stderr panics"])

p("C03", "Pipelined messages are all answered, in the order they were sent",
  "When a client sends any burst of notifications and requests without waiting for answers (hundreds of messages over several documents, with saves, configuration changes and commands in between), every request is answered exactly once and the server never stops responding. "
  "Each answer reflects exactly the notifications sent before its request.",
  ["schedules", "histories"],
  "every burst of messages, with sizes far above the capacities of the internal queues",
  "No test runs the server; queue capacities and the cycle between worker and diagnostics task only matter when many messages are in flight.",
  [S + "channels/lsp.rs", S + "channels/diagnostics.rs", S + "backend.rs"],
  [("one worker task owns all the state and handles messages in order", S + "channels/lsp.rs lsp_task"),
   ("diagnostics task never blocks the worker", S + "channels/diagnostics.rs"),
   ("handlers forward messages to the worker", S + "backend.rs")],
  ["responses by id", "symbols after each edit of the burst"])

SYN = "a template without syntax errors"
p("C04", "Undefined variables are reported exactly where they are undefined",
  "In " + SYN + ", 'Undefined variable' (warning) is published for the first identifier of every variable reference in expressions and statements that no definition reaches and no other file defines: a for target, set target, with variable, macro name or macro parameter reaches it when it has the same name, does not start after it and its scope is still open there. "
  "Scopes are the bodies of for, with, macro, block, filter, autoescape and of each if/elif/else branch (macro parameters and for targets belong to the body's scope, a macro's name to the enclosing scope); call, set and trans blocks open none and definitions outside of every scope reach the end of the file. "
  "Nothing is reported for attributes, filters, tests, keyword argument names, block names, literals, constants, keywords, loop/super/url_for/module, strings, comments or text, and each reference is reported at most once.",
  ["programs", "inputs"],
  "every template built from the supported statements and expressions, at any nesting",
  "The tests check seven constant templates; scoping is a relation between all definitions and all references of arbitrary nesting.",
  [Q + "lsp_helper.rs", Q + "search/definition.rs", Q + "search/objects.rs", Q + "search/queries.rs"],
  [("definitions and ends of their scopes", Q + "search/definition.rs"),
   ("references, filters and tests", Q + "search/objects.rs"),
   ("resolution of references", Q + "lsp_helper.rs search_errors")],
  ["textDocument/publishDiagnostics after open, save and change"])

p("C05", "Names defined in other files are told apart from undefined names",
  "A reference whose name is not defined at all in its own template is reported as 'Variable is defined in other file.' (information) if some other indexed or opened template or backend file defines a variable, macro or backend variable of that name, and as 'Undefined variable' otherwise; names of blocks and of templates do not count, and a name that the template itself defines out of reach stays 'Undefined variable'. "
  "With hide_undefined set no variable is reported at all, while missing templates still are.",
  ["programs", "configurations", "histories"],
  "every set of template and backend files, both values of hide_undefined, at start-up and after documents are opened, changed or saved",
  "No test has two files; the result depends on the whole workspace and configuration.",
  [Q + "lsp_helper.rs", F, S + "config.rs"],
  [("lookup over the variables of all files", Q + "lsp_helper.rs search_errors"),
   ("hide_undefined -> ignore_globals", S + "config.rs walkdir")],
  ["textDocument/publishDiagnostics"])

p("C06", "Missing templates are reported exactly",
  "In a template every template string of an extends, include (also lists), import or from statement, and in a backend file every template string passed to render_jinja or get_template, is reported as 'Template not found' (warning, on the string) if and only if it is no file below the configured templates directory; empty names and names of directories are reported too, names are relative to the directory (a leading '/' or './' changes nothing), and no other string is reported. "
  "The report is up to date with the file system whenever the document is opened or saved.",
  ["programs", "configurations", "histories"],
  "every template or backend source, every layout of the templates directory (nested directories, unusual names), files created and deleted between saves",
  "The tests collect template names of constant sources and never look at a directory.",
  [Q + "lsp_helper.rs", Q + "search/templates.rs", Q + "search/rust_template_completion.rs", Q + "search/queries.rs", F],
  [("template strings of statements", Q + "search/templates.rs templates_query"),
   ("template strings of backend calls", Q + "search/rust_template_completion.rs"),
   ("existence below the templates directory", Q + "lsp_helper.rs search_errors / path_items")],
  ["textDocument/publishDiagnostics"])

p("C07", "Document symbols are exactly the definitions of the document",
  "For " + SYN + " the document symbols are exactly its definitions, each once, with the defined name, its exact range and its kind: for targets, set targets and with variables are variables, macros are functions, macro parameters are fields and blocks are modules. "
  "For a backend file they are its variables and its template strings (kind file). "
  "Keyword arguments, default values, loop iterables, assigned values and endblock names are no definitions.",
  ["programs"],
  "every well-formed template or backend source",
  "Tests count definitions of a few constant templates without names, ranges and kinds.",
  [F, Q + "search/definition.rs", Q + "search/rust_identifiers.rs", Q + "search/mod.rs"],
  [("collection of definitions", Q + "search/definition.rs"),
   ("conversion to symbols", F + " document_symbols")],
  ["textDocument/documentSymbol response"])

p("C08", "Go to definition finds the variable's definition",
  "For any position in a variable reference (or an attribute of it, which stands for the variable) in " + SYN + ", go to definition answers with the exact range of the last definition of that name that does not start after the position and whose scope is still open there. "
  "If there is none, it answers with the list of all the definitions of that name in other files: template variables and macros and backend variables, where a dotted name counts by its first part, and never blocks or templates. "
  "A block is only the definition of its own name. Names of filters, tests and keyword arguments, keywords, literals, comments and text lead nowhere.",
  ["programs", "inputs"],
  "every well-formed template, every position in its identifiers, every set of other files",
  "No test asks for a definition; shadowing and scope ends need generated nestings and positions.",
  [F, Q + "search/objects.rs", Q + "search/definition.rs"],
  [("identifier at a position", Q + "search/objects.rs objects_query / is_ident"),
   ("choice of definition", F + " goto_definition")],
  ["textDocument/definition response"])

p("C09", "Go to definition opens the referenced template file",
  "At any position in a template string of an extends, include, import or from statement, or of render_jinja/get_template in a backend file, go to definition answers with the beginning of that file below the templates directory if it exists, and with no location otherwise. "
  "Other strings lead nowhere.",
  ["programs", "configurations"],
  "every source, position and layout of the templates directory, also with nested directories and names with spaces, %, # or non-ASCII characters",
  "No test asks for a definition.",
  [F, Q + "search/templates.rs", Q + "search/rust_template_completion.rs"],
  [("template at a position", Q + "search/templates.rs in_template / get_identifier"),
   ("location of a file", F + " goto_definition")],
  ["textDocument/definition response"])

p("C10", "Variable completion offers exactly the visible variables",
  "In the blank part of an expression {{ }} completion offers exactly the for, set, with and macro definitions (no blocks) of the template that end before the position and whose scope is still open there, each name once and with its kind, and all backend variables. "
  "In or after an identifier that has been typed up to the position it offers exactly those of them that start with the typed part, with an edit that replaces the identifier (or it and its attributes), and nothing else, by the offered name, plus the backend variables. "
  "Accepting an item gives the same text in every client, including Visual Studio Code, which gets its edit as additional edit.",
  ["programs", "inputs", "configurations"],
  "every well-formed template, every position in its expressions, every client name",
  "Tests check the completion type in constant templates, never the items.",
  [F, Q + "search/objects.rs", Q + "search/mod.rs", S + "channels/lsp.rs"],
  [("kind of completion at a position", Q + "search/objects.rs completion"),
   ("items", F + " read_variables"),
   ("typed prefix", Q + "search/mod.rs completion_start")],
  ["textDocument/completion response"])

p("C11", "Filters and tests are completed after '|' and 'is', and documented on hover",
  "After a pipe in an expression completion offers exactly the built-in filters, and after 'is' in a statement exactly the built-in tests, each with its documentation. "
  "Hovering over a filter name after a pipe (in expressions and statements, after any value: variables, attributes, calls, subscripts) or a test name after 'is' shows the documentation of that filter or test, and nothing if there is no built-in one of that name; a variable with the same name elsewhere is not a filter or test.",
  ["programs", "inputs"],
  "every position of every generated template, every built-in filter and test",
  "Tests cover three constant positions.",
  [Q + "search/objects.rs", S + "channels/lsp.rs", S + "filter/mod.rs", S + "template_tests/mod.rs", F],
  [("pipe and is tracking", Q + "search/objects.rs"),
   ("lists of documented names", S + "filter/mod.rs, " + S + "template_tests/mod.rs")],
  ["textDocument/completion and hover responses"])

p("C12", "Template paths are completed relative to the templates directory",
  "Inside the template string of an extends, include, import or from statement, or of a backend render_jinja/get_template call, completion offers exactly the known templates below the templates directory whose path contains the part of the name before the position: labels are paths relative to the directory, and the edit replaces the whole string by the quoted path. "
  "The offered path names a file that is then found (no missing-template diagnostic).",
  ["programs", "configurations"],
  "every workspace, every position in a template string, any spelling of the templates directory in the configuration",
  "No test completes a template.",
  [F, Q + "search/templates.rs", Q + "search/mod.rs"],
  [("labels and edits", F + " read_templates"),
   ("typed prefix", Q + "search/mod.rs completion_start")],
  ["textDocument/completion response"])

p("C13", "Code actions create the missing template and offer commands in expressions",
  "On a template string that is reported missing (the beginning of the requested range decides) the code action 'Generate new template' creates exactly the file whose absence is reported (below the templates directory, without overwriting), in templates and backend files, and after it is created the report and the action disappear when the document is saved, and without that when it is created right after the request. "
  "Inside an expression (in blank parts and in or after identifiers) the actions 'Reset variables' and 'Warn about unused' are offered, and in text, comments, statements and other strings no action is offered.",
  ["programs", "inputs", "configurations"],
  "every source, position and layout of the templates directory",
  "No test asks for code actions.",
  [F, S + "channels/lsp.rs", S + "channels/diagnostics.rs", Q + "lsp_helper.rs"],
  [("stored missing templates", S + "channels/diagnostics.rs, " + F + " add_code_actions"),
   ("choice of action", F + " code_action / process_code_actions")],
  ["textDocument/codeAction response"])

p("C14", "Backend variables are found in Rust and Python files",
  "In Rust backend files the identifiers in context! (and other) macros and the names given to jinja.add_global/add_filter/add_function, and in Python backend files the keyword arguments of render_template/render calls and the keys of jinja_env.globals/jinja_env.filters, are backend variables, with their exact ranges; other Python names and Rust code outside of macros and such calls are not. "
  "They are offered in completions, found by go to definition and hover, and make references 'defined in other file' in every template.",
  ["programs", "configurations"],
  "every set of backend files of the configured language",
  "Tests count the identifiers of constant sources.",
  [Q + "search/rust_identifiers.rs", Q + "search/queries.rs", F],
  [("extraction queries", Q + "search/queries.rs"),
   ("extraction", Q + "search/rust_identifiers.rs"),
   ("use in templates", F)],
  ["documentSymbol, completion, definition, hover, diagnostics"])

p("C15", "The workspace is indexed completely and the configuration is found",
  "At start-up every template (.html, .jinja, .j2) and backend file (.rs or .py by the configured language) below the configured templates and backend directories, at any depth, is indexed exactly once, and diagnostics are published for every template that can be analysed. "
  "The configuration is taken from the initialization options, else from pyproject.toml, Cargo.toml or jinja-lsp.toml of the working directory in this order; every source of the configuration with the same values gives the same behaviour, and a missing or unusable configuration is reported in the log.",
  ["configurations"],
  "every directory layout and every source of the configuration",
  "No test indexes a directory or reads a configuration.",
  [S + "config.rs", S + "channels/lsp.rs", F],
  [("search_config", S + "config.rs"), ("walkdir", S + "config.rs"), ("read_file", F)],
  ["publishDiagnostics after initialized, logMessage, symbols"])

p("C16", "Reset and reconfiguration equal a fresh start that keeps open documents",
  "After the command reset_variables or a configuration change the server answers exactly as a freshly started server with the current configuration and the current files in which the still open documents were opened with their current text, and diagnostics of all templates are published again. "
  "Closed documents are taken from disk again; open ones are never overwritten by the file.",
  ["histories", "configurations"],
  "every history of opens, edits, closes, file changes, resets and configuration changes",
  "No test runs a second indexing.",
  [S + "channels/lsp.rs", F, S + "config.rs"],
  [("re-index", S + "channels/lsp.rs Initialized / DidChangeConfiguration / ExecuteCommand"),
   ("open documents", F + " keep_open_documents")],
  ["all responses and diagnostics"])

p("C17", "Published diagnostics always settle on the current text of each document",
  "After any interleaving of edits, saves, opens, resets and configuration changes of several documents, with any pauses between them, the last diagnostics published for each changed document are those of its final text, without any further action of the client. "
  "An edit of one document never suppresses the diagnostics of another one.",
  ["schedules", "histories"],
  "every interleaving and timing of edits of several documents",
  "No test starts the debounced task; it needs overlapping timers of several documents.",
  [F, S + "channels/lsp.rs", S + "channels/diagnostics.rs"],
  [("debounced save per document", F + " did_change"),
   ("publication in order", S + "channels/diagnostics.rs")],
  ["textDocument/publishDiagnostics"])

p("C18", "Positions are UTF-16 in both directions",
  "Replacing text outside of identifiers (plain text, strings, comments, also earlier in the same line) by other text of any characters changes the ranges in diagnostics, symbols, definitions and completion edits, and the positions at which requests hit an identifier, only by the difference of UTF-16 lengths. "
  "In particular astral, multi-byte and combining characters before an identifier shift it by their UTF-16 length.",
  ["inputs"],
  "every template and every replacement of its neutral text",
  "Tests use ASCII only.",
  [Q + "to_input_edit.rs", F],
  [("to_point / to_position / to_byte", Q + "to_input_edit.rs"),
   ("range", F + " range / position")],
  ["all ranges and positions"])

p("C19", "Node bindings answer like the server, per snippet and line",
  "The Node binding's answers for a snippet added at some line and column of a file (hover, completion of variables and filters, go to definition within the snippet, variables) are those of the same template in the server, with all lines moved by the line that is passed in; saved links count as backend variables, and the uses of exactly the linked names are returned as links. "
  "Deleting the documents of a file removes exactly their answers and leaves other files alone, and no call with any id, text or position throws or ends the process.",
  ["inputs", "histories"],
  "every sequence of calls of the binding with generated snippets",
  "No test loads the binding.",
  ["jinja-lsp-nodejs/src/lib.rs", F],
  [("add_one, hover, complete, goto_definition, get_variables, delete_all", "jinja-lsp-nodejs/src/lib.rs")],
  ["return values of the binding's methods"])

p("C20", "Requests do not change what the server knows",
  "Any sequence of hover, completion, definition, symbol and code action requests, in any order, at any position and repeated any number of times, leaves all later answers and published diagnostics unchanged, and the same request gives the same answer (up to order of lists).",
  ["histories"],
  "every sequence of read-only requests over any workspace",
  "No test sends two requests to one server.",
  [F, S + "channels/lsp.rs"],
  [("request handlers take &self", F)],
  ["all responses"])

p("C21", "A document is the same file under any characters in its path",
  "For template and backend files whose paths contain any characters allowed by the file system (spaces, %, #, ?, +, brackets, non-ASCII), the URI in published diagnostics and definitions is a percent-encoded file URI of exactly this path, and opening, editing and requests with any URI of the path (clients differ in the characters that they encode) refer to the indexed file and not to a second one. "
  "Diagnostics, cross-file definitions and template completion work for these paths as for plain ones.",
  ["configurations", "inputs"],
  "every file name",
  "No test has a URI.",
  [F, S + "config.rs"],
  [("Url::from_file_path", F + " read_file / goto_definition / read_templates")],
  ["URIs in notifications and responses"])

p("C22", "Hover shows what kind of variable an identifier is",
  "Hovering over a variable reference in " + SYN + " shows the kind (for loop key or value, set variable, with variable, macro, macro parameter) of the last definition of that name that ends before the reference and whose scope is still open there; if there is none, 'Backend variable' if another file defines the name, and otherwise nothing. "
  "Nothing is shown for text, comments, strings, numbers, constants, keywords, names of blocks and of keyword arguments.",
  ["programs", "inputs"],
  "every well-formed template and position",
  "Tests check that constant positions are hoverable, not what is shown.",
  [F, Q + "search/objects.rs", S + "channels/lsp.rs"],
  [("identifier at a position", Q + "search/objects.rs is_hover"),
   ("kind of variable", F + " data_type")],
  ["textDocument/hover response"])

p("C23", "Statement snippets are offered exactly in an unfinished statement",
  "In a statement that was just begun ('{% ' or '{%- ' without keyword and end, between two constructs or before text of an otherwise well-formed template) completion offers all the statement snippets, whose edits (of clients other than Visual Studio Code) insert a whole statement at the position. "
  "In text, comments and finished statements of a well-formed template no snippet is offered.",
  ["programs", "inputs"],
  "every well-formed template with a started statement inserted at any place between two constructs",
  "Tests check constant templates only.",
  [Q + "search/snippets_completion.rs", F, S + "channels/lsp.rs"],
  [("snippets_query / to_complete", Q + "search/snippets_completion.rs")],
  ["textDocument/completion response"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
