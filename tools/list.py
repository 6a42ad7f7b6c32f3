SPACE = "Every template of the bounded spaces: all legal sequences of constructs (loops, conditions, blocks, macros, with, set, filters, unclosed ones too), all ways of writing them, surrounding text of any UTF-8 width, and all nested expressions."
TESTS = "The tests run the queries on a dozen fixed templates and count results; none looks at all names of an arbitrary nesting, and none goes through the server."
NOTE = "Complete within the stated bounds for the real server; beyond them nothing is claimed. Trusts the reference model (mc/src/model.rs), which is written from the documented meaning and never reads the implementation."

NOTE_HISTORY = "Complete within the stated bounds for the real server, which runs in process with a virtual clock; beyond them nothing is claimed."

prop("C01", "What is said of a document depends on its text alone",
     "After any sequence of edits of an open document (ranges in UTF-16 units, also beyond the end of a line or the document, several in one notification, or a replacement of the whole text), its diagnostics, symbols, hovers, definitions and completions, once settled, are those of a document freshly opened with the same text. No edit of it changes what is said of other documents' own names.",
     ["histories"], "Every history of up to three edits at every pair of character (or token) boundaries of the base documents (templates, Rust and Python), texts typed or erased character by character, in every way of splitting the edits into notifications with and without pauses.",
     "No test edits a document; the tests parse fixed strings once.",
     [FILES, EDIT, BACK], [("did_change", FILES), ("to_input_edit, to_utf16", EDIT)],
     ["textDocument/didChange", "textDocument/publishDiagnostics", "textDocument/documentSymbol"], NOTE_HISTORY)
prop("C02", "No input or file ends or silences the server",
     "Whatever well-formed messages the editor sends (any text, any position, any URI, any settings) and whatever files the workspace holds (unreadable, not UTF-8, empty, broken templates), every request is answered and the server keeps answering the next ones correctly.",
     ["inputs"], "Every text of bounded length over the tokens of the template language (and of Rust and Python calls), every request at every position of it and beyond, odd URIs, settings and files.",
     "The tests never send a position outside a document, never leave a tag open at the end of the text and do not run the server.",
     [LSP, FILES, DIAG, BACK, CONF, OBJQ, DEFQ, TPLQ, SNIP], [("lsp_task", LSP), ("requests", FILES), ("completion_start", Q + "search.rs")],
     ["every request of the server"], NOTE_HISTORY)
prop("C03", "Messages are handled in order, under every schedule",
     "However the tasks of the server are scheduled, however many messages come at once and however slowly the editor reads, every request is answered exactly once, as when the messages are sent one by one, and once quiet the diagnostics and symbols of all documents are the same.",
     ["schedules"], "Every schedule of the server's tasks with a bounded number of departures from the default, with fine and coarse cooperative budgets, for every short program of messages; bursts of up to 130 messages; pipes from 64 bytes to 4 MiB; an editor that reads at once or late.",
     "No test runs the server or more than one task.",
     [BACK, LSP, DIAG, FILES], [("channels", BACK), ("lsp_task", LSP), ("diagnostics_task", DIAG)],
     ["every request", "textDocument/publishDiagnostics"], "Complete within the stated bounds: all schedules of tokio tasks at await points on a single thread, with a departure bound. Within one poll the tasks share no memory except channels, so finer interleavings add nothing; the cooperative budget (how many channel operations a poll may do) is varied to expose orders that depend on it.")
prop("C04", "Diagnostics settle after every edit and every save",
     "However edits, saves, closings and openings of two documents follow each other in time, 200 ms after the last edit of a document its diagnostics and symbols are those of its current text, a save brings them at once, no work on one document delays or cancels those of the other, and what is published is never older than the last save or settled edit.",
     ["histories"], "Every history of five (thorough: six to eight) operations on two documents that use each other's variables: open, change to one of three texts, save, close, waits shorter and longer than the delay.",
     "No test runs the server or waits for its timers.",
     [FILES, LSP, DIAG, BACK], [("did_change", FILES), ("did_save", FILES), ("publish_diagnostics", BACK)],
     ["textDocument/publishDiagnostics", "textDocument/documentSymbol"], NOTE_HISTORY)
prop("C05", "Undefined names are reported, exactly",
     "After a template is opened, the published diagnostics contain exactly one entry per use of a variable that no definition in scope at that use introduces, at the range of that name: a warning 'Undefined variable', or an information 'Variable is defined in other file.' when the template itself never defines that name and another file does. Names of filters, tests, blocks, members, keyword arguments, keywords and the built-in names are never reported.",
     ["inputs"], SPACE, TESTS, [HELP, DEFQ, OBJQ, FILES],
     [("definitions and their scopes", DEFQ), ("objects of a template", OBJQ), ("search_errors", HELP)],
     ["textDocument/publishDiagnostics"], NOTE)
prop("C06", "Document symbols list every definition once",
     "The document symbols of an open template are exactly the loop variables, set variables, with bindings, macros, macro parameters and blocks it defines, each once, with its kind and the range of its name.",
     ["inputs"], SPACE, TESTS, [DEFQ, FILES], [("definition_query", DEFQ), ("document_symbols", FILES)],
     ["textDocument/documentSymbol"], NOTE)
prop("C07", "Go to definition finds the definition in scope",
     "For every use of a variable in a template, go to definition leads to the latest definition of that name at or before the use whose scope contains it; when the template has none in scope, it leads to exactly the definitions of that name in other files. In text outside of tags and expressions it leads nowhere.",
     ["inputs"], SPACE, TESTS, [FILES, DEFQ, OBJQ], [("goto_definition", FILES), ("scopes", DEFQ)],
     ["textDocument/definition"], NOTE)
prop("C08", "Hover tells what a name is",
     "Hovering a variable shows the kind of the definition it refers to (or 'Backend variable' when only other files define it, or nothing when nothing does), hovering a filter or test (other than the keywords in and filter) shows the documentation of that filter or test, and hovering a block name or text outside of tags shows nothing.",
     ["inputs"], SPACE, TESTS, [FILES, LSP, OBJQ], [("hover", FILES), ("data_type", FILES)],
     ["textDocument/hover"], NOTE)
prop("C09", "Variable completion offers the names in scope",
     "In an empty expression completion offers exactly the variables, macros and parameters whose definition precedes the cursor and whose scope contains it, each once, plus the variables of the backend; at the end of a name being written it offers those of them that begin with that name, and accepting one replaces just that name.",
     ["inputs"], SPACE, TESTS, [FILES, OBJQ, DEFQ], [("read_variables", FILES), ("completion contexts", OBJQ)],
     ["textDocument/completion"], NOTE)
prop("C10", "Completion offers the right kind of thing",
     "Behind a pipe, up to the name of the filter, completion offers exactly the 38 filters; behind 'is' in a tag exactly the 31 tests (the rest of a tag behind the keyword tests 'in' and 'filter' is left open); at a tag just begun at the end of a template exactly the 11 snippets; everywhere else none of these, and in text and comments nothing at all.",
     ["inputs"], "Every position of every template of the bounded spaces.",
     "Two tests look at single positions of fixed texts, without the server.", [LSP, FILES, OBJQ, SNIP],
     [("completion contexts", OBJQ), ("snippets_query", SNIP), ("completion", LSP)],
     ["textDocument/completion"], NOTE)
prop("C11", "Accepting a completion does what it says",
     "Accepting an offered name, template or snippet with a client of either kind (Visual Studio Code or another) replaces exactly what was being written by the chosen name and changes nothing else, in the form that client understands (Visual Studio Code: an additional text edit; others: an insert-replace edit); the templates offered are those below the template directory that contain what is typed, by their names relative to it, and the accepted name is found by diagnostics and definition; a snippet leads to a template that parses and defines what it says.",
     ["inputs"], "Every cursor in every name, template name (template, Rust and Python files) and unfinished tag of the bounded spaces, every item offered there, both kinds of clients.",
     "Tests look at the kind of a completion at most, never at the edits of an item.", [LSP, FILES, OBJQ, TPLQ, RTPL, SNIP],
     [("read_templates, read_variables", FILES), ("completion_start", Q + "search/mod.rs"), ("snippets", SNIP)],
     ["textDocument/completion"], NOTE)
prop("C12", "A template name is reported exactly when there is no such file",
     "In templates (extends, include, import, from) and in Rust and Python files (get_template, render_jinja), a template name gets the diagnostic 'Template not found' at its range if and only if the template directory has no file of that name when the document is looked at: when it is opened, saved, 200 ms after an edit, or 1.4 s after a new template was offered for it. Nothing else gets that diagnostic.",
     ["inputs", "histories"], "Every import (all ways of writing it, and look-alikes), pairs and triples of them, names that are files, directories, missing, empty, in other case or with special characters; every short history of files created and removed, edits and saves.",
     "Tests collect the names of one fixed template; none has files.", [HELP, TPLQ, RTPL, FILES, DIAG],
     [("find_template", HELP), ("templates_query", TPLQ), ("backend_templates_query", RTPL)],
     ["textDocument/publishDiagnostics"], NOTE_HISTORY)
prop("C13", "A template name leads to its file or offers to create it",
     "On the name of an existing template, definition leads to the start of that file, and no code action is offered; on a missing one, the only code action creates exactly that file in the template directory, after which the diagnostic disappears and definition leads there; elsewhere no template is offered. In an expression behind its first name, the commands to reset variables and to warn are offered, in text and tags they are not.",
     ["inputs", "histories"], "Every position of every document of the spaces of C12, and of every short sequence of constructs and expression.",
     "No test asks for a definition or a code action.", [FILES, LSP, TPLQ, RTPL, HELP, DIAG],
     [("goto_definition, code_action, process_code_actions", FILES), ("get_identifier", TPLQ)],
     ["textDocument/definition", "textDocument/codeAction"], NOTE_HISTORY)
prop("C14", "The variables of Rust files are known in templates",
     "The names Rust code passes in macros such as context! and the names it gives to jinja.add_global, add_filter and add_function are variables of the backend, each with its range, and nothing in comments, strings, functions or other calls is; names given to get_template and render_jinja are template names. Templates offer these variables, find their definitions, and report them as defined in another file, in whatever function, closure, block or module they are.",
     ["inputs"], "Every sequence of up to two (thorough: three) statements out of an alphabet of definitions, look-alikes and blocks, in five kinds of places, with other characters and line ends around.",
     "One test counts the definitions of a fixed fragment.", [RUSTQ, RTPL, QUERIES, FILES],
     [("backend_definition_query", RUSTQ), ("RUST_DEFINITIONS, RUST_TEMPLATES", QUERIES), ("add_variables", FILES)],
     ["textDocument/completion", "textDocument/definition", "textDocument/hover", "textDocument/documentSymbol", "textDocument/publishDiagnostics"], NOTE)
prop("C15", "The variables of Python files are known in templates",
     "The keys of jinja_env.globals and jinja_env.filters and the keyword arguments of render and render_template are variables of the backend, each with its range, and nothing in comments, strings, other calls or other subscripts is; names given to get_template and render_jinja are template names. Templates offer these variables, find their definitions, and report them as defined in another file, in whatever function, class or block they are.",
     ["inputs"], "Every sequence of up to two (thorough: three) statements out of an alphabet of definitions, look-alikes and blocks, in five kinds of places, with other characters and line ends around.",
     "One test counts the definitions of a fixed fragment.", [RUSTQ, RTPL, QUERIES, FILES],
     [("backend_definition_query", RUSTQ), ("PYTHON_DEFINITIONS, PYTHON_TEMPLATES", QUERIES), ("update_backend", QUERIES)],
     ["textDocument/completion", "textDocument/definition", "textDocument/hover", "textDocument/documentSymbol", "textDocument/publishDiagnostics"], NOTE)

prop("C16", "Settings and files of the workspace are found and read as documented",
     "The settings in force are the valid ones the editor gives at the start, else those of the first of pyproject.toml, Cargo.toml and jinja-lsp.toml with a valid section; without any there is a warning and nothing is read. With them, every readable file below the template directory or a backend directory is known exactly once, by the URI an editor uses: those with the extension html, jinja or j2 as templates, diagnosed at once, those with rs or py as backend files, nothing else. Files that cannot be read or decoded hide no others.",
     ["configurations"], "Every combination of the variants of the three settings files and the editor's settings; every small set of files, kinds of names and contents, and ways to write the directories.",
     "No test reads settings or scans a workspace.", [CONF, DIAG, FILES, BACK],
     [("search_config, file_ext, walkdir", CONF), ("read_file, read_trees", FILES), ("Initialize, Initialized", LSP)],
     ["textDocument/publishDiagnostics", "textDocument/definition", "window/logMessage"], NOTE_HISTORY)
prop("C17", "Changed settings and reset variables leave nothing of the old state",
     "After any sequence of changed settings, resets of the variables, openings, edits and closings of documents and changes of files on disk, once the workspace is read anew (by a reset or changed settings), diagnostics, symbols, code actions, hovers, definitions and completions of all documents are those of a fresh server with the same settings, files and open documents. Settings that are none leave the earlier ones in force.",
     ["histories"], "Every history of up to three (thorough: four) of 24 operations on six documents and two sets of directories, with either kind of client, started with settings or without.",
     "No test runs the server.", [LSP, DIAG, FILES, BACK],
     [("DidChangeConfiguration, ExecuteCommand, Initialized", LSP), ("keep_open_documents, did_close", FILES)],
     ["workspace/didChangeConfiguration", "workspace/executeCommand", "textDocument/publishDiagnostics"], NOTE_HISTORY)
prop("C22", "Text between the constructs changes nothing but positions",
     "Text put between the constructs of a template (of any characters, with quotes, braces or lines) changes neither its diagnostics nor symbols, definitions, hovers and completions, except that positions behind it move.",
     ["inputs"], "Every text of an alphabet of awkward texts, at every boundary between two constructs of every short template.",
     "The tests parse a dozen fixed templates.", [DEFQ, OBJQ, TPLQ, SNIP, FILES], [("queries", QUERIES), ("plain", Q + "plain.rs")],
     ["textDocument/publishDiagnostics", "textDocument/documentSymbol", "textDocument/completion"], NOTE)

prop("C18", "What one file defines the others know",
     "A name that one template or backend file defines is known in all others: a template that uses it without defining it gets an information instead of a warning (or nothing, if undefined variables are hidden), definition leads to exactly all places that define it in other files, hover shows 'Backend variable', and completion offers the variables of the backend. This follows every change, opening and closing of any of the files, in whatever order, once the asking document is looked at again.",
     ["histories", "inputs"], "Every combination of 9 x 9 texts of two templates and 5 of a Rust or Python file, in every order of opening, found on disk or not, with every single change, with and without hide_undefined.",
     "No test has more than one file.", [FILES, HELP, LSP, DIAG],
     [("goto_definition, data_type, read_variables", FILES), ("search_errors", HELP), ("hide_undefined", LSP)],
     ["textDocument/publishDiagnostics", "textDocument/definition", "textDocument/hover", "textDocument/completion"], NOTE_HISTORY)
prop("C20", "Asking changes nothing",
     "Hovers, definitions, completions, code actions and symbols are answered from the texts alone: whatever was asked before, of any document and at any position, every answer is that of a server that was not asked before, and neither files nor diagnostics change.",
     ["histories"], "Every request at every place where two tokens meet of 12 documents, before every other request of its document and some of every document.",
     "Tests ask at most one question of a parsed text.", [LSP, FILES, DIAG],
     [("requests", LSP), ("hover, goto_definition, completion, code_action", FILES)],
     ["textDocument/hover", "textDocument/definition", "textDocument/completion", "textDocument/codeAction", "textDocument/documentSymbol"], NOTE_HISTORY)
prop("C21", "The Node bindings answer for templates embedded in other files",
     "For a template embedded anywhere in another file, the Node bindings give the same variables, hovers, definitions and completions as the server gives for the template alone, with positions moved to where it lies in the file (in UTF-16 units). Link hints are found at every use of the hinted names in templates and at every such chain of names in Python, removed hints and deleted files leave nothing, templates know nothing of each other, and no call ends the process.",
     ["inputs"], "Every template of the bounded spaces at four places of a file, with and without hints, complete or being written; every short sequence of Python statements.",
     "One test in JavaScript, which is not run here, calls the bindings on one text.", [NODE, FILES, Q + "search/python_identifiers.rs"],
     [("NodejsLspFiles", NODE), ("to_range, delete_documents_with_id", FILES), ("python_identifiers", Q + "search/python_identifiers.rs")],
     ["NodejsLspFiles.addOne", "NodejsLspFiles.hover", "NodejsLspFiles.gotoDefinition", "NodejsLspFiles.complete", "NodejsLspFiles.getVariables"],
     "Complete within the stated bounds for the compiled bindings in a real Node process; beyond them nothing is claimed. Trusts the reference model (mc/src/model.rs).")
prop("C23", "What the server announces is what it does",
     "An editor that tells the server exactly what the answer to 'initialize' announces (openings and closings, changes as whole texts or as ranges in the announced units, saves with or without the text, the announced commands) sees, after every action and once settled, the diagnostics, symbols, hovers, definitions and completions of its current texts, whatever it calls itself, whatever units it would prefer and with all settings. Characters that are announced to trigger completion bring up variables, filters, tests, template names and snippets while they are typed.",
     ["histories"], "Every history of three (thorough: four to six) of nine editor actions on two documents that use each other's variables, with four kinds of client and four kinds of settings.",
     "No test starts the server or reads what it announces.", [LSP, BACK, FILES],
     [("Initialize: capabilities", LSP), ("did_open, did_change, did_save, did_close", FILES)],
     ["initialize", "textDocument/didOpen", "textDocument/didChange", "textDocument/publishDiagnostics", "textDocument/completion"], NOTE_HISTORY)

prop("C24", "However its URI is escaped, it is the same document",
     "Two URIs that stand for the same path (other characters escaped, letters of the escapes in the other case, 'localhost' as host) mean the same document in every message: opened by one, changed, saved, asked about and closed by others, it is diagnosed, answers, and defines names for other documents as if all messages had spoken of one URI, and as the file of that path on disk.",
     ["histories"], "Every way of mixing two (thorough: five) of six spellings over the life of a template, a Rust and a Python file, for eight names with all kinds of characters.",
     "No test names a document in two ways.", [LSP, BACK, FILES],
     [("LspMessage: the URIs of messages", LSP), ("did_open, did_change, did_save, did_close", FILES)],
     ["textDocument/*", "textDocument/publishDiagnostics"], NOTE_HISTORY)

