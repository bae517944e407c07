LS = "crates/cairo-m-ls/src"
SCHED = "The server's own code runs on stand-ins for tokio, tower-lsp, dashmap and std's Mutex under a controlled scheduler; files on disk do not change during a history (see DESIGN.md)."
prop("L01", "The language server settles on the diagnostics of the latest texts",
  "Whatever the order and timing of opened files, edits, manifest events and the server's own tasks, once the server is idle the diagnostics it published last for each file of an open project are those of the latest texts, with severities, messages and ranges. No task panics, no lock is waited for forever, and the server comes to rest.",
  ["schedules", "histories"], "all short histories of messages, all interleavings near the default one",
  "Integration tests run a few fixed sequences and wait; a lost edit or a stale publication needs a particular interleaving of handlers, timers and background tasks.",
  [LS + "/backend.rs", LS + "/diagnostics/controller.rs", LS + "/project/controller.rs", LS + "/project/model.rs", LS + "/db/swapper.rs", LS + "/diagnostics/state.rs"],
  [("message handlers, debouncing, publication", LS + "/backend.rs"), ("diagnostics task", LS + "/diagnostics/controller.rs"), ("project discovery task", LS + "/project/controller.rs")],
  "stateless model checking of the real code: every schedule with at most n departures from the default",
  "Every history of up to 3 (thorough: 4) events over three files, with every schedule that departs from the default one at up to 1 (2) points. Histories with a swap of the database are a known finding. " + SCHED,
  ["publish_diagnostics"])
prop("L02", "Answers of the language server belong to the latest texts",
  "Hover, definition, completion and formatting requests are all answered. At rest the answers are those of a fresh server to which the latest texts were opened; a request in flight is answered for texts that were current at some time since it arrived, with all earlier edits applied.",
  ["schedules", "histories"], "all short histories of messages, all interleavings near the default one",
  "Tests ask single requests after waiting; stale answers need an edit, a project reload and a request to overlap.",
  [LS + "/backend.rs", LS + "/project/model.rs"],
  [("request handlers", LS + "/backend.rs"), ("project model", LS + "/project/model.rs")],
  "stateless model checking of the real code: every schedule with at most n departures from the default",
  "Every history of up to 3 events at rest with every question about every name; edits around a request with every schedule that departs from the default one at up to 1 (2) points. " + SCHED,
  ["hover, goto_definition, completion, formatting"])
prop("L03", "Positions, definitions and edits of the language server are exact",
  "The definition of a use of a name is the range of the definition that the scoping rules select, in whichever module it lies, and hovering it shows that definition's type. Applying the formatting edit gives exactly the formatted text. Positions count UTF-16 code units.",
  ["programs", "inputs"], "all short function bodies, all uses in them; texts with any ending and any characters",
  "Tests ask for a handful of positions in ASCII texts; shadowing, nested modules, wide characters and missing line ends combine freely.",
  [LS + "/backend.rs", LS + "/diagnostics/controller.rs"],
  [("goto_definition, hover, formatting", LS + "/backend.rs"), ("ranges of diagnostics", LS + "/diagnostics/controller.rs")],
  EXH,
  "Every function body of up to 4 (thorough: 5) of eleven statements over two names, each use asked at its start and end; 192 documents of heads, bodies and endings with wide characters. " + SCHED,
  ["hover, goto_definition, formatting"])
