VAL = SEM + "/validation"
prop("C10", "Every name refers to the nearest visible declaration, or is reported",
  "A use of a name refers to the nearest declaration visible there: the latest earlier one in the innermost enclosing block that has one, then parameters, then the module's items and imports. A name with no visible declaration, and a type name that no struct has, is an error placed on that name; a program whose names all resolve has no such error.",
  ["programs"], "all programs: all nestings of blocks, loops and branches with shadowing and redeclaration",
  "Tests hold about a hundred fixed programs; shadowing, redeclaration and leaving of scopes combine without limit.",
  [SEM + "/semantic_index.rs", SEM + "/place.rs", VAL + "/scope_check.rs"],
  [("scope stack and use-def map", SEM + "/semantic_index.rs SemanticIndexBuilder"), ("undeclared names", VAL + "/scope_check.rs")],
  EXH,
  "Every function body of up to 3 statements (4 thorough) over two names, six statement nestings and six surroundings; each use's definition and each undeclared-name error compared with an independent resolver; every position of a type name.",
  ["SemanticIndex use-def map", "project_validate_semantics"])
prop("C11", "Unused-variable warnings are given exactly for what is never used",
  "A local variable, parameter, constant or import that no use refers to gets exactly one warning, placed on its declaration; one that is used, or whose name starts with an underscore, gets none. Each declaration counts for itself: a shadowed one is not used through the shadowing one.",
  ["programs"], "all programs: all nestings of blocks with shadowing and redeclaration",
  "Tests hold about ten fixed programs; whether the right one of several declarations of a name is reported depends on every nesting.",
  [SEM + "/semantic_index.rs", VAL + "/scope_check.rs"],
  [("is_used flags", SEM + "/place.rs"), ("warning pass", VAL + "/scope_check.rs")],
  EXH,
  "The programs of C10; the set of warned declarations is compared with an independent resolver.",
  ["project_validate_semantics"])
prop("C12", "Expressions have the types of the language rules or are rejected",
  "An expression is accepted exactly when the typing rules give it a type: operators only on the operand types they are documented for, fields, tuple elements and indices only where they exist, calls and struct literals with the declared arguments and fields. The inferred type is the one of the rules, and the error for an ill-typed expression lies within it.",
  ["programs"], "all expressions over all types",
  "Tests hold some hundred expressions; every operator with every pair of operand types, nested, is a space of millions.",
  [SEM + "/type_resolution.rs", VAL + "/type_validator.rs", SEM + "/types.rs"],
  [("expression_semantic_type", SEM + "/type_resolution.rs"), ("operator signatures", SEM + "/type_resolution.rs get_binary_op_signatures"), ("check_expression_types", VAL + "/type_validator.rs")],
  EXH,
  "Every expression of depth 2 (depth 3 with representatives in the thorough tier) over 12 atoms of all types, 16 operators and all constructors, against a reference typing function.",
  ["definition_semantic_type of a let variable", "project_validate_semantics"])
prop("C13", "A value never enters a place of another type",
  "Initialising, assigning, passing, returning or storing a value is accepted exactly when its type is the declared type of the place, in every kind of statement at any nesting depth. Conditions are bool, indices and allocation sizes felt; constants, calls and other temporaries are no assignment targets.",
  ["programs"], "all places times all types",
  "Tests try a few mismatches per place; the full matrix of places, expected and given types is not tried.",
  [VAL + "/type_validator.rs", SEM + "/types.rs"],
  [("check_statement_type", VAL + "/type_validator.rs"), ("are_types_compatible", SEM + "/type_resolution.rs")],
  EXH,
  "The matrix of 42 places x 20 expected x 20 given types (12 132 programs) and a table of assignment targets, returns, constants and patterns, each accepted or rejected as the rules say.",
  ["project_validate_semantics"])
prop("C14", "Missing returns, stray jumps and dead code are reported as control flow says",
  "A function that must return a value is rejected when some path reaches its end without returning, and accepted when its structure guarantees a return on every path. `break` and `continue` outside a loop are errors, inside one they never are; code that no path can reach is warned about and reachable code never is.",
  ["programs"], "all nestings of branches, loops, blocks and jumps",
  "Tests hold about thirty fixed bodies; a loop left by a break two blocks down, or a return in all but one branch, is one shape among unboundedly many.",
  [VAL + "/control_flow_validator.rs"],
  [("path analysis", VAL + "/control_flow_validator.rs"), ("loop depth", SEM + "/semantic_index.rs")],
  EXH,
  "Every body of up to 5 statements (6-7 thorough) over branches, four loop forms, blocks, return, break, continue and expressions; an explicit control-flow graph gives a must-report and a may-report bound for each diagnostic.",
  ["project_validate_semantics"])
prop("C15", "Integer literals are accepted exactly where their value and type fit",
  "A literal is accepted when its value fits the type its suffix or its declared context gives it, and rejected with a located error when it does not fit, or when the suffix contradicts the place it stands in. This holds alike in every position: initialiser, argument, return, field, element, operand, condition and constant.",
  ["programs"], "all literal values and suffixes in all positions",
  "Tests try a handful of out-of-range literals in let statements; every position with every boundary value is not tried.",
  [VAL + "/literal_validator.rs", VAL + "/type_validator.rs", SEM + "/type_resolution.rs"],
  [("literal ranges", VAL + "/literal_validator.rs"), ("contextual literal typing", SEM + "/type_resolution.rs")],
  EXH,
  "All boundary values x suffixes x bases x some forty positions, each accepted or rejected as the ranges say.",
  ["project_validate_semantics"])
prop("C16", "Duplicate declarations are reported wherever two names collide",
  "Two items, imports, parameters, struct fields, struct literal fields, or names bound by one pattern that share a name in the same list are reported as duplicates at the second one, in every function and block. Distinct names, and redeclaring a variable with `let`, are never reported.",
  ["programs"], "all name assignments to all declaration sites",
  "Tests hold one or two duplicates per kind; all pairs of kinds of item and all positions of the repeated name are not tried.",
  [VAL + "/structural_validator.rs", VAL + "/scope_check.rs"],
  [("duplicate checks", VAL + "/structural_validator.rs"), ("item table", VAL + "/scope_check.rs")],
  EXH,
  "Every assignment of names to up to 3-4 declaration sites of each kind, with every mix of item kinds.",
  ["project_validate_semantics"])
prop("C17", "Imports reach exactly the named item of the named module",
  "An import names an item that the module at that path declares; one that names no module or no item is an error at the import. Modules that import each other in a circle are reported as a cycle, and a project without one never is; moving items to another module and importing them changes no verdict on the program.",
  ["programs"], "all module graphs and import lists",
  "Tests hold a handful of two- and three-module projects; all import graphs, paths and item kinds form a space tests do not cover.",
  [SEM + "/db.rs", SEM + "/semantic_index.rs", VAL + "/scope_check.rs"],
  [("import graph and cycle search", SEM + "/db.rs"), ("resolve_imported", SEM + "/semantic_index.rs")],
  EXH,
  "All import graphs over 3 modules (4 thorough) incl. self-imports and missing ones, every item kind x import form, and the programs of C12/C13 with their items moved to another module.",
  ["project_validate_semantics", "project_semantic_index"])
prop("C18", "After any history of edits the diagnostics are those of a fresh analysis",
  "Whatever sequence of edits, additions and removals of modules led to the present texts, and whatever was asked in between, every diagnostics query answers as it would in a new database holding just those texts. No history makes a query panic.",
  ["histories"], "all sequences of edits and queries",
  "Tests analyse one fixed state; stale caches show only for particular histories of edits and queries.",
  [SEM + "/db.rs", SEM + "/lib.rs"],
  [("salsa queries", SEM + "/db.rs")],
  "explicit-state exploration of edit histories on the real incremental database, against a fresh database",
  "All histories of up to 2 edits (3 thorough) over 3 modules with 8, 6 and 4 contents (incl. absent, unparsable, renamed, cyclic), from every start, with four query schedules.",
  ["project_validate_semantics", "module_all_diagnostics"])
prop("C19", "The diagnostics tracker always answers as a full recomputation would",
  "Each answer of the delta diagnostics tracker is exactly the set of diagnostics of the modules the crate holds at that moment, each problem once, whatever was edited, added, removed or asked before and even if the tracker served another crate in between. The modules' diagnostics together are the project's.",
  ["histories"], "all sequences of edits and questions",
  "No test runs the tracker over a history; a stale or leftover cache entry needs a particular sequence.",
  [SEM + "/delta_diagnostics.rs", SEM + "/db.rs"],
  [("DeltaDiagnosticsTracker", SEM + "/delta_diagnostics.rs"), ("module_all_diagnostics", SEM + "/db.rs")],
  "explicit-state exploration of edit and query histories on the real tracker, against a fresh database",
  "All histories of up to 3 edits over 3 modules with every choice of when the tracker is asked, with and without a second crate.",
  ["DeltaDiagnosticsTracker::get_project_diagnostics"])
prop("C20", "Diagnostics point into the file they name and show its text",
  "Every diagnostic names the file that holds what it talks about, and its main and related places lie there exactly where they would lie if all items stood in one file: spreading items over modules changes nothing else about the diagnostics. Shown as text, a diagnostic gives its severity, code, message, file, line and column and the lines it covers with the place underlined, for every text and every place in it, with or without colours.",
  ["programs", "inputs"], "all distributions of items over modules, all texts and spans",
  "Tests render a few errors of single files; what happens when the declaration an error mentions lies in another module depends on both modules.",
  [VAL + "/type_validator.rs", VAL + "/scope_check.rs", "crates/compiler/diagnostics/src/reporting.rs", "crates/compiler/diagnostics/src/diagnostics.rs"],
  [("related places", VAL + "/type_validator.rs"), ("build_diagnostic_message", "crates/compiler/diagnostics/src/reporting.rs"), ("DiagnosticCollection", "crates/compiler/diagnostics/src/diagnostics.rs")],
  EXH,
  "All value places of C13 with all values, and twenty programs with errors of every kind, cut after each item into two modules with and without unrelated items on either side: the diagnostics are those of the single file moved to the new places. Every text of up to five (six) of six characters with every span and every related span, rendered and read back; all collections of up to five diagnostics.",
  ["project_validate_semantics, build_diagnostic_message, DiagnosticCollection"])
prop("C21", "A path leads to its project, and a project holds exactly its modules",
  "From any path, absolute or relative, the project is that of the nearest directory above it with a manifest; without one a file is a project of its own, whatever its name. The modules of a project are the .cm files below its source directory, named by their paths, with the manifest's entry, and each can import from every other. A manifest that is broken or incomplete is an error, and a workspace holds exactly the projects with valid manifests.",
  ["configurations", "inputs"], "all placements of manifests and files, all starting paths",
  "Tests load one or two fixed directory trees; nested manifests, relative paths and odd names are a product of choices.",
  ["crates/compiler/cairo-m-project/src/discovery.rs", "crates/compiler/cairo-m-project/src/model.rs", "crates/compiler/cairo-m-project/src/manifest.rs", SEM + "/db.rs"],
  [("find_project_manifest", "crates/compiler/cairo-m-project/src/discovery.rs"), ("source_files and module_name_from_path", "crates/compiler/cairo-m-project/src/model.rs"), ("crate_from_project", SEM + "/db.rs")],
  EXH,
  "Manifests in every subset of six nested directories, looked for from every file, directory and absent path, absolutely and relatively to every directory; every subset of eleven files below a source directory with six forms of entry, each module importing all before it; single files under all names of two (three) of ten awkward characters; every subset of eight manifest lines. All in a scratch directory.",
  ["discover_project, discover_workspace, crate_from_project"])
