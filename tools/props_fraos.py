ST = "path-sensitive typestate and value-number analysis over MIR (paths enumerated, linear terms), no solver, no execution"
DBF = "fraos/src/database.rs"
P("F01", "Appends to a database are serialised across all its handles",
  """However many threads append through however many clones of a database, the appends take effect one at a time: reading the size an append starts at, writing its records, and
  writing its index entries happen under one lock that all handles of the database share, and which is not let go in between.""",
  "schedules", "all interleavings of appends through any clones",
  "The tests append from one thread at a time, or from two and never meet the window.",
  DBF, [("Database::append_get_seqno", DBF), ("impl Clone for Database", DBF)], ST + "; lockset",
  """Every path of the appending entry point, every size read, storage change and lock event on it. The lock is taken to exclude; other processes on the same files are outside.""")
P("F02", "An index entry is written only for records already stored",
  """At whatever point an append is cut off, the index never names bytes that were not stored: records are written and flushed with success before the first entry that names them is written,
  and an append reports success only after its entries are flushed too.""",
  "crash_points", "every crash point and every failing system call of every append",
  "Tests do not crash; a reordering passes all of them.",
  DBF + " fraos/src/flatfile.rs fraos/src/seqno.rs", [("Database::append_get_seqno", DBF)], ST,
  "All paths of the append with every callee inlined. What the operating system does with a flush is trusted.")
P("F03", "What is stored is exactly the records given, in order",
  """An append stores the bytes of each record, whole, in order and without gaps, right after what was stored before; each record's index entry holds the place and length where it was put, in the layout
  it is read with, and the number returned is the first record's.""",
  "inputs", "all record lists of any lengths and counts, on a database of any size",
  "Tests sample small records into one mapping; sums, offsets and layouts are only seen at those.",
  DBF + " fraos/src/flatfile.rs fraos/src/seqno.rs", [("FlatFile::append", "fraos/src/flatfile.rs"), ("SeqNoIndex::append", "fraos/src/seqno.rs")], ST,
  "Symbolic layout of all writes of a loop's arbitrary iteration; loops in shapes it cannot lay out are left undecided.")
P("F04", "Nothing is published before it is durable",
  """The new size of a file becomes visible to readers, and success is reported, only after the bytes it covers were flushed with success. A flush that fails publishes nothing.""",
  "crash_points schedules", "every path and failure of every append, every reader",
  "A missing or failed flush is invisible to a test.",
  "fraos/src/appender.rs fraos/src/growable_mmap.rs", [("Appender::append", "fraos/src/appender.rs"), ("GrowableMmap::grow_and_apply", "fraos/src/growable_mmap.rs")], ST,
  "All paths of both appends.")
P("F05", "No storage error is swallowed",
  """If any operation on the files or mappings fails during an operation of the database, that operation returns an error; an iterator that cannot read a record yields the error.""",
  "fault_sequences", "every fallible call on every path of every operation",
  "Tests do not make system calls fail.",
  "fraos/src", [("every function returning a Result", "fraos/src")], ST + "; per function, composed over the call graph",
  "Each function alone with its callees unknown; closing (Drop) has nowhere to report to and is excluded.")
P("F06", "A batch with an empty record is refused untouched",
  """Appending a batch in which any record is empty fails, and neither file is changed in any way.""",
  "inputs", "all batches, the empty record anywhere in them",
  "Tests try an empty record in a few places.",
  "fraos/src/flatfile.rs fraos/src/seqno.rs " + DBF, [("FlatFile::append", "fraos/src/flatfile.rs"), ("SeqNoIndex::append", "fraos/src/seqno.rs")], ST,
  "All paths; the guard must be over all records, as a fact about an arbitrary one.")
P("F07", "Opening read-only changes nothing on disk",
  """Opening a database read-only creates no directory or file, opens no file for writing and resizes none, whatever is or is not at the path.""",
  "inputs", "all paths and states of the file system",
  "Tests open a few existing databases and do not look for side effects.",
  DBF + " fraos/src/appender.rs", [("Database::file_readonly", DBF), ("Appender::new", "fraos/src/appender.rs")], "effect analysis over the call graph, with constant propagation of the writable flag through callers",
  "Every file operation reachable, in its calling context. Later appends to such a handle are outside.")
P("F08", "Closing a handle cuts files only when it is the last, to their end",
  """Dropping a handle resizes the files only if no other handle of that database is left, and then each exactly to the end of what is stored in it; so records are never cut off, whatever is done with other handles.""",
  "histories", "all sequences of clones, appends and drops",
  "Tests drop the only handle.",
  DBF + " fraos/src/growable_mmap.rs", [("Drop for Database", DBF), ("GrowableMmap::shrink_to_size", "fraos/src/growable_mmap.rs")], ST,
  "All paths of Drop. An iterator that outlives the database holds the files open but not the lock; dropping a handle at the same time in two threads may leave the files uncut, never cut short.")
P("F09", "Growing a file keeps all earlier bytes where they were",
  """However a file grows over time, an append's bytes start exactly where the storage ended, the length grows by exactly what was asked, every byte stored earlier stays mapped at its own position, and the file is never resized below what is stored.""",
  "histories inputs", "all growth histories and sizes, in memory and on file",
  "Growth goes through a few sizes in tests; the merging of mappings only after thousands of appends.",
  "fraos/src/growable_mmap.rs fraos/src/index_on_mmaps.rs", [("GrowableMmap::grow_and_apply", "fraos/src/growable_mmap.rs")], ST,
  "One growth step from any state that earlier steps can leave (the active part starts where the inactive ends); the step's result state is compared with the state before through the length query.")
P("F10", "Reading a record by its number returns its bytes",
  """Asking for a record by number yields exactly the bytes at the place its index entry names; nothing is reported absent, and no error is reported, without a reason; a view never extends past what it is a view of.""",
  "inputs histories", "all numbers, all databases with any number of mappings",
  "Tests look up the records they just wrote, mostly in one mapping.",
  DBF + " fraos/src/index_on_mmaps.rs fraos/src/shared_mmap.rs", [("Database::get_by_seqno", DBF), ("IndexOnMmaps::find", "fraos/src/index_on_mmaps.rs"), ("SharedMmap::slice", "fraos/src/shared_mmap.rs")], ST,
  "All paths with the tables of mappings symbolic; binary search in the standard library is taken by its contract, whose side conditions are checked on the key.")
P("F12", "Reopening a database finds exactly its records",
  """A database opened over existing files starts with exactly the records its index names: a trailing part of unused index entries left by an unclean end is recognised and cut at the true end, the data are taken to end with the
  last record, a damaged index or missing data are refused, and nothing is truncated.""",
  "crash_points histories", "all states of the files a closed or interrupted database can leave",
  "Tests reopen databases that were closed; the search for the end sees few lengths.",
  DBF + " fraos/src/seqno.rs fraos/src/appender.rs fraos/src/growable_mmap.rs", [("Database::new", DBF), ("SeqNoIndex::find_actual_end", "fraos/src/seqno.rs"), ("GrowableMmap::new", "fraos/src/growable_mmap.rs")], ST + "; loop invariants by elimination of candidates (Houdini)",
  "All opening paths. That the search ends is not decided.")
P("F13", "A failed append leaves the database as it was",
  """If an append fails at any point, every record stored before is still there, the number of records is unchanged, and the next append stores right after them.""",
  "fault_sequences histories", "every failing call on every path of an append",
  "Tests do not make system calls fail.",
  "fraos/src/growable_mmap.rs " + DBF, [("GrowableMmap::grow_and_apply", "fraos/src/growable_mmap.rs"), ("Database::append_get_seqno", DBF)], ST,
  "All failing paths of one growth step, from any state. One known finding: when making a full mapping read-only fails, that mapping is lost until the database is reopened.")
P("F14", "Iteration and the short forms agree with reading by number",
  """Iterating from a number yields the records from that number on, each once, in order, and continues with records appended after the end was reached; the number of records, the last record and the single-record forms of appending
  are those of the same two files.""",
  "histories", "all databases, all start numbers, appends in between",
  "Tests iterate once over a finished database.",
  "fraos/src/seqno_iter.rs " + DBF, [("SeqNoIter::next", "fraos/src/seqno_iter.rs"), ("Database::last/len/put/put_seqno/append", DBF)], ST,
  "The iterator's step from any position; all paths of the delegating entry points.")
