"""The properties: one source for properties.jsonl and MANIFEST.json (run tools/gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, note, level="exploration", state=None, hook=None, technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=note, level=level, state=state or [], hook=hook, technique=technique, na=na))


PA = "crates/public_api/src/"
CM = "crates/common/src/"
ED = "crates/document_editing/src/use_cases/"

prop(
    "C01", "Concurrent calls take effect one at a time",
    "Editing calls and document reads issued from several threads at once, through cursors of one's own or shared ones, behave as if they had been executed one at a time in some order that respects real time: their results, the final content, the cursor positions and the undo availability are those of that sequential execution. No call is lost, applied twice or torn. Cursor movement is not part of the claim: it consists of several such calls.",
    ["schedules", "inputs"],
    "every schedule of two to four threads issuing insertions, deletions, formats, lists, fragments, replacement, undo and redo, edit blocks and document-level reads; cursor movement is not part of the claim, and undo is not issued while an edit block is open",
    "A unit test sees the one schedule the operating system happens to give it; a torn read of a cursor or a check made before the lock is taken needs a preemption at one particular instruction.",
    [PA + "document.rs", PA + "cursor.rs", PA + "inner.rs", CM + "database/"],
    [("one document mutex around every call", PA + "inner.rs"), ("cursor data behind its own mutex, read under the document lock", PA + "cursor.rs")],
    "Seeded search over schedules; each history of calls is checked for linearizability against sequential executions of the real code.",
)
prop(
    "C03", "Undo and redo are exact",
    "Undo returns the document to exactly the content, formatting, lists, metadata and statistics it had before the undone step, and redo to exactly what it had after it, for every history of edits, undos and redos; a step is one editing call, one edit block, or one run of consecutive typing or single-character deletion. Undo is available exactly while a step remains, a new edit discards the redo history, and undoing everything restores the initial document. Documents hold formatted paragraphs, lists and imported quotations; tables, inserted frames and images are excluded. Undo and redo are not called while an edit block is open.",
    ["histories", "inputs"],
    "every sequence of editing calls (text, blocks, rich fragments, formats, lists, replacement, edit blocks, clipboard, metadata, resources) through several cursors of a new, plain or imported document (quotations included) without tables, inserted frames or images, with undo and redo anywhere in it",
    "Tests undo one or two hand-picked operations; the defects live in combinations (merged typing, edits after edits that leave positions stale, ids re-created by redo), an unbounded set of histories.",
    [PA + "document.rs", PA + "cursor.rs", CM + "undo_redo.rs", CM + "snapshot.rs", ED],
    [("commands with snapshots or recorded inverses", ED), ("undo/redo stacks, merging and composites", CM + "undo_redo.rs")],
    "Seeded search over operation histories; after every step the complete public read API is compared with the recorded state a reference history model allows.",
)
prop(
    "C05", "All views of the document agree",
    "At every point of every history the plain text, the block list, the block snapshots, the flow, the per-position queries, the statistics, the search results and the exports describe one and the same document. Block positions are gapless and ordered, the lengths and offsets of fragments add up to their block, and counts equal what enumeration finds. Documents hold formatted paragraphs, lists and imported quotations; tables, inserted frames and images are excluded.",
    ["histories", "inputs"],
    "every sequence of editing calls through several cursors of a new, plain or imported document (quotations included) without tables, inserted frames or images, with undo and redo anywhere in it",
    "Each view is derived along its own path (rope, offset index, stored fields, caches), and tests compare single views after short scripts; disagreement needs particular sequences of edits.",
    [PA + "document.rs", PA + "text_block.rs", CM + "database/rope_helpers.rs", CM + "database/block_offset_index.rs", "crates/document_inspection/src/use_cases/"],
    [("rope, offset index and stored counts updated by each use case", ED), ("text cache invalidation", PA + "inner.rs")],
    "Seeded search over operation histories; all read calls are compared with each other after every step.",
)
prop(
    "C02", "Text and cursors follow a reference model",
    "Every edit changes exactly the text it names: inserted plain text appears verbatim at the selection it replaces, a deletion removes exactly the selection or the neighbouring grapheme cluster, a literal replacement exactly the matches, a rich insertion leaves everything outside the selection as it was, and formatting, metadata and copying change no text. Every other cursor keeps its place: unchanged before the edit, shifted by the length difference after it, within the replacement inside it. Documents hold formatted paragraphs, lists and imported quotations; tables, inserted frames and images are excluded. So are cursors beyond the end of a document replaced as a whole.",
    ["histories", "inputs"],
    "every sequence of editing calls through several cursors of a new, plain or imported document (quotations included) without tables, inserted frames or images, with undo and redo anywhere in it; cursors beyond the end of a wholesale replaced document are excluded",
    "A wrong offset needs a particular combination of selection, block boundary, multi-byte text, list or fragment and cursor position that fixed scripts do not sample; here every step is compared with a model of a few lines.",
    [PA + "cursor.rs", PA + "inner.rs", ED],
    [("offset arithmetic per use case", ED), ("adjust_cursors after each edit", PA + "inner.rs")],
    "Seeded search over operation histories, with a reference model of text and cursor positions as the oracle.",
)
prop(
    "C07", "Events suffice to follow the document",
    "An observer that only looks at the events stays in step with the document. After every call, what a ContentsChanged event leaves out is unchanged text and its numbers add up to the new length; every layout or formatting change is announced; and the last announced block count, flow element count and undo/redo availability are the current ones, unless a DocumentReset told the observer to start over. Documents hold formatted paragraphs, lists and imported quotations; tables, inserted frames and images are excluded.",
    ["histories", "inputs"],
    "every sequence of editing calls through two cursors of a new, plain or imported document (quotations included) without tables, inserted frames or images, with undo, redo and edit blocks anywhere in it; a replacement of scattered matches announces only that something changed",
    "Tests look for one event after one edit; that no event is missing or wrong must hold for every combination of edit, selection and history step, undo above all.",
    [PA + "document.rs", PA + "cursor.rs", PA + "inner.rs", PA + "events.rs"],
    [("events queued by each call", PA + "cursor.rs"), ("difference of block states around undo and redo", PA + "document.rs"), ("flow and block count change detection", PA + "inner.rs")],
    "Seeded search over operation histories; a shadow observer is compared with the document after every step.",
)
prop(
    "C08", "Operations end once, and the handle tells how",
    "Every started import or export comes to exactly one end, whatever other threads do: success, failure or cancellation, announced by exactly one LongOperationFinished event after its last progress event. Its handle agrees with the event, never changes its mind, never reports progress outside 0-100 or going back, and wait returns; wait_timeout neither gives up early nor misses a finished operation. Nothing fails unless it was cancelled or the system refused it a thread, and an operation cancelled before it has begun does not succeed.",
    ["schedules", "fault_sequences"],
    "every schedule of one to three threads starting markdown and HTML imports and DOCX exports and waiting, polling, cancelling and dropping their handles, with wall clock jumps, refused threads and an empty or a small document",
    "The end of an operation is decided by a race between its thread, cancel and the pollers; a test sees the one order it gets, and a panic or a refused thread not at all.",
    [PA + "operation.rs", PA + "document.rs", CM + "long_operation.rs", CM + "event.rs", "crates/frontend/src/event_hub_client.rs"],
    [("status, flag and result under the status lock", CM + "long_operation.rs"), ("bridge from hub events to document events", PA + "document.rs")],
    "Seeded search over schedules and faults; every answer of every handle and the whole event stream are checked against the life cycle of an operation.",
)
prop(
    "C09", "Imports replace the document all at once",
    "An import takes effect at one instant between its start and its end, if it succeeds, and not at all if it fails or is cancelled: concurrent reads and edits see the old document or the complete new one, edits made before that instant are replaced and edits made after it are kept, and the history then reaches back to the import at most. Of several imports the document is that of one which no other one followed, in content, formats, lists and statistics exactly what importing alone gives. Tables are excluded.",
    ["schedules", "inputs", "fault_sequences"],
    "every schedule of markdown and HTML imports, cancelled or not, alone, against each other and against two or three threads editing and reading; tables are excluded",
    "An import works on a thread of its own for as long as the text is big; only particular schedules show a reader half a document or lose an edit, and no test can choose them.",
    ["crates/document_io/src/use_cases/", "crates/document_io/src/units_of_work/", CM + "database/rope_store.rs", PA + "document.rs", PA + "inner.rs"],
    [("built on a private fork, published under the document lock", CM + "database/rope_store.rs"), ("history cleared at start and publication", PA + "inner.rs")],
    "Seeded search over schedules; outcomes are compared with undisturbed imports, and histories of calls checked for linearizability with the publication as a call of its own.",
)
prop(
    "C06", "Every event reaches every subscriber once",
    "Every event the document announces is handed to every subscriber exactly once, and seen exactly once by polling, whatever thread announces it: between the return of on_change and the drop of its handle a subscriber gets the same events as poll_events does, no more and no fewer, and in the same order while a single thread edits. Callbacks run outside the document's lock, so they may read, edit, subscribe and unsubscribe. Once its handle is dropped a subscriber gets nothing on the dropping thread and at most finishes a delivery on another.",
    ["schedules", "histories"],
    "every schedule of one to three threads editing, importing, polling, subscribing and unsubscribing, in callbacks too",
    "Delivery is split between the editing threads, the event thread and pollers, with queue cursors shared among them; a lost or doubled event needs two of them to meet at a particular instruction.",
    [PA + "inner.rs", PA + "events.rs", PA + "document.rs", PA + "cursor.rs", "crates/frontend/src/event_hub_client.rs"],
    [("event queue with one cursor for polling and one for callbacks", PA + "inner.rs"), ("callbacks taken under the lock, run outside it", PA + "inner.rs"), ("weak reference to a subscriber, alive flag", PA + "events.rs")],
    "Seeded search over schedules; the deliveries to each subscriber are compared, event by event, with the stream a poller sees.",
)
prop(
    "C11", "Dropping the last handle releases everything",
    "When the last handle of a document is dropped, on whatever thread and in whatever order with cursors, blocks, operations, subscriptions and running imports or exports, every thread of the document ends, no drop panics or blocks, everything its callbacks and highlighters captured is dropped, and all of its memory is released.",
    ["schedules", "histories"],
    "every schedule of one to three threads editing, importing, exporting and dropping document clones, cursors, operation handles and subscriptions, in callbacks too, wherever callbacks hold the document only through handles dropped in the end",
    "A leaked thread or cycle of references is invisible to a test; dropping on the event thread or in the middle of an operation takes a particular schedule.",
    [PA + "inner.rs", PA + "document.rs", PA + "events.rs", PA + "operation.rs", "crates/frontend/src/app_context.rs", "crates/frontend/src/event_hub_client.rs", CM + "long_operation.rs", CM + "database/"],
    [("shutdown sender dropped with the document", PA + "inner.rs"), ("weak references from the event bridge, the store and the cursor list", PA + "document.rs")],
    "Seeded search over schedules; live threads, reference counts of what was captured and the exact number of allocated bytes are compared before and after.",
)
prop(
    "C04", "A failing call has no effect",
    "A call that returns an error leaves everything as it was: content, formatting, lists, metadata, resources, statistics, cursors, selection, undo and redo history, open edit blocks, and it announces no event. The document goes on as if the call had never been made, whatever edits, undos and redos follow; and a call that succeeds in spite of a failing step inside has its whole effect. Documents hold formatted paragraphs, lists and imported quotations; tables, inserted frames and images are excluded.",
    ["fault_sequences", "histories"],
    "every sequence of editing calls, imports, undo, redo and edit blocks of a new, plain or imported document (quotations included) without tables, inserted frames or images, with any repository access, transaction begin or commit of a call failing, and with calls which fail by themselves",
    "The store does not fail in tests, so no test sees half of a compound call: deletion done, insertion failed, an edit block left open, an undo step lost.",
    [PA + "cursor.rs", PA + "document.rs", CM + "undo_redo.rs", CM + "database/transactions.rs", ED, "crates/document_io/src/use_cases/"],
    [("transactions with savepoints, rolled back on drop", CM + "database/transactions.rs"), ("edit block cancelled when its second half fails", PA + "cursor.rs"), ("history popped after commit", CM + "undo_redo.rs")],
    "Seeded search over histories and fault points; a twin document that never sees the failed calls is the reference, compared after every step and through the whole history.",
    hook="cfg text_document_sim: fault::point() in repository creation, transaction begin and commit asks the harness whether to fail",
)
prop(
    "C10", "Every call returns and the document stays usable",
    "No sequence and no interleaving of calls on documents, cursors, blocks, operations and subscriptions panics, deadlocks, or hangs, with callbacks that call back into the document, handles that have gone stale, positions out of range, clock jumps, refused threads and disk errors. Once the calls have returned all views agree, and editing, undo, export and import work as ever. Documents hold formatted paragraphs, lists and imported quotations; tables, inserted frames and images are excluded.",
    ["schedules", "fault_sequences", "inputs"],
    "every schedule of one to four threads with two to twenty calls each over text, blocks, rich fragments, formats, lists, history, imports, exports, highlighters and subscriptions; tables, inserted frames and images are excluded",
    "A deadlock needs two threads at particular instructions, a panic a particular combination of stale handles and history; tests run neither, and a hang is a violation only a scheduler that sees all threads can tell.",
    [PA, CM + "undo_redo.rs", CM + "long_operation.rs", CM + "event.rs", CM + "database/", "crates/frontend/src/event_hub_client.rs"],
    [("one document mutex, callbacks outside it", PA + "inner.rs"), ("clamped positions, stale handles tolerated", PA + "cursor.rs"), ("panics of operations caught and reported", CM + "long_operation.rs")],
    "Seeded search over schedules and faults; panics, deadlocks and stalls are detected by the simulator, and after the faults stop all views are compared and every kind of call must make progress.",
)
prop(
    "C12", "An exported file is the document or an error",
    "An export to DOCX that reports success has written exactly the document as it was when the export was requested, in place of whatever the file contained, whatever edits and imports run meanwhile and whatever short writes, interruptions and delays the disk makes. One whose disk fails reports an error, never success and never a panic; without disk error or cancellation it succeeds; a cancelled one leaves the old file or the new one; and none changes the document.",
    ["schedules", "fault_sequences"],
    "every schedule of one to three exports against up to two threads of edits, undo and imports, with open errors, full disks, write errors, short and interrupted writes and delays at any point of the file",
    "A test's disk never fails and its document never changes while it is being exported; both take control over the disk and over the schedule.",
    ["crates/document_io/src/use_cases/export_docx_uc.rs", "crates/document_io/src/units_of_work/", PA + "document.rs", CM + "long_operation.rs"],
    [("the export reads a fork of the store made when it is started", "crates/document_io/src/units_of_work/"), ("archive packed in memory, then written with write_all", "crates/document_io/src/use_cases/export_docx_uc.rs")],
    "Seeded search over schedules and disk faults; the file is compared byte by byte (but for timestamps and paragraph ids) with an undisturbed export.",
)
prop(
    "C13", "The command line tool succeeds or leaves files alone",
    "A command of the command line program that exits with 0 has done its whole work: what it printed or wrote is exactly what the library gives for the input file and the options, in the format the output's name asks for. Otherwise it exits with an error code and a message, for a reason. In no case does it change a file other than its output, leave a temporary file behind when it ends by itself, or damage a text file it writes: whether a read or write fails, the disk is full, the program is killed or the power is lost, the file is the complete old one or the complete new one (a failed DOCX export may leave a partial file).",
    ["fault_sequences", "crash_points", "inputs"],
    "every convert, stats, find, replace and cat command over text, markdown and HTML files, with errors of open, read, write, sync and rename, short and interrupted reads and writes, a full disk, and a kill or a loss of power at any disk operation; the crates' benchmark command is excluded",
    "The program has no tests at all, and replace overwrites its only input: what a full disk or a kill in the middle of that leaves can only be seen with control over the disk.",
    ["crates/cli/src/main.rs", PA + "document.rs"],
    [("load, process, write_file; errors reported by main", "crates/cli/src/main.rs"), ("temporary sibling, synced and renamed", "crates/cli/src/main.rs")],
    "Seeded search over commands and disk faults; the program runs inside the simulator, and its exit code, output and files are compared with what the library gives and with the files before.",
)
prop(
    "C14", "Highlighting is a view of its own",
    "With a syntax highlighter attached, the fragments of every block show at any moment, to any thread, exactly what one pass of the highlighter over all blocks in order would give for the text of that moment, on top of the formats the text has: after every edit, undo, redo, replacement and import, for text changed, inserted or merged, and for blocks whose state changed because of a block before them. Nothing else depends on the highlighter: text, exports, statistics, search, what cursors see, results, events and history are those of the same document without one. Documents hold formatted paragraphs, lists and imported quotations; tables, inserted frames and images are excluded.",
    ["histories", "schedules"],
    "every sequence of editing calls through two cursors with highlighters attached, replaced and removed anywhere in it, and every schedule of two or three threads editing, importing and reading a highlighted document; edits through cursors left beyond the end of a replaced document are excluded",
    "Highlighting is incremental and stops where block states settle; what it misses depends on which blocks an edit creates, merges and shifts, and on who looks in between.",
    [PA + "highlight.rs", PA + "text_block.rs", PA + "cursor.rs", PA + "document.rs", PA + "inner.rs"],
    [("rehighlight_affected after each edit, cascading until the state settles", PA + "highlight.rs"), ("spans merged into the fragments of a block", PA + "text_block.rs")],
    "Seeded search over histories and schedules; every fragment is compared with a from-scratch pass, and the document with a twin that has no highlighter.",
)
prop(
    "C15", "A table keeps its grid and its contents",
    "In a document with tables among paragraphs, every slot of a table's grid belongs to exactly one cell after every call. Inserting or removing a table, a row or a column, merging and splitting cells (through the table or the cell under the cursor) do to the grid, the spans, the contents and the formats of all cells exactly what they say; a range that cannot be merged, a cell that cannot be split and a row that is not there are refused without a trace, as is a call one of whose steps fails. Typing, deleting, pasting plain text, replacing and splitting paragraphs inside a cell change that cell only, and outside of the tables nothing in them; deleting or typing over a selection that reaches across cells or tables takes the selected text, empties the cells it touches, removes a table it covers and leaves everything else. Block handles, snapshots, positions, statistics and text agree with each other throughout. The HTML, Markdown, LaTeX and DOCX exports show every table once, in its place, with its cells. Undo and redo restore the tables exactly. Excluded: joining blocks across a cell's boundary, redo after a split, nested tables, and pasting formatted content beside a table.",
    ["histories", "fault_sequences"],
    "every sequence of structural, formatting and text edits, undos and redos in a document with inserted or imported tables, any step of any call failing",
    "Positions of everything behind a cell depend on what all earlier calls typed, inserted, merged and removed; the tests build empty tables and make one call.",
    ["crates/document_editing/src/use_cases/", PA + "text_table.rs", PA + "cursor.rs", PA + "flow.rs"],
    [("reassign_cell_block_positions, measure_cell_frames", "crates/document_editing/src/use_cases/editing_helpers.rs"), ("spans adjusted or covered on insertion and removal", "crates/document_editing/src/use_cases/insert_table_row_uc.rs"), ("ranges which cut a merged cell are refused", "crates/document_editing/src/use_cases/merge_table_cells_uc.rs")],
    "Seeded search over histories; a grid of cells with spans and texts is the reference model, complete dumps at every history point the reference for undo and redo.",
)
NA = "A pure function of its argument: no schedule, clock, disk, fault or history takes part, so a simulator would only be a slow way to call it. "
prop(
    "N01", "Imports and exports keep what the format can carry",
    "A document exported to Markdown, HTML or LaTeX and read back (or read by another program) has the text, the paragraphs, the lists, the headings and the character formats that the format can carry.",
    ["inputs"], "every document and every text of a supported format",
    "Tests convert examples; the space of documents is unbounded.",
    ["crates/document_io/src/use_cases/"], [("writers and parsers", "crates/document_io/src/use_cases/")],
    "", na=NA + "The concurrency, cancellation and disk behaviour of imports and exports is decided by C08, C09, C12 and C13.",
)
prop(
    "N02", "The parsers accept any input",
    "No Markdown or HTML text, however malformed, makes an import or a paste panic or hang.",
    ["inputs"], "every text", "Tests try examples.",
    ["crates/common/src/parser_tools/"], [("Markdown and HTML parsers", "crates/common/src/parser_tools/")],
    "", na=NA + "This is the domain of fuzzing.",
)
prop(
    "N03", "Cursors move by what a reader sees as a character or word",
    "Moving a cursor by characters never stops inside a grapheme cluster, and by words stops at word boundaries, in every script.",
    ["inputs"], "every text, position and movement", "Tests try examples.",
    [PA + "cursor.rs"], [("movement by segmentation", PA + "cursor.rs")],
    "", na=NA.strip(),
)
