ML = "multiverse/src/lib.rs"
MS = "path-sensitive state comparison over MIR (symbolic maps and sets, paths enumerated), no solver, no execution"
P("M01", "An entry is on disk before it is in the graph, and leaves both",
  """An insertion of a new entry from the block number on which entries are stored succeeds only after the serialised entry was written to the database with success, and before anything changes in memory; a write that
  fails leaves the graph as it was. A removal succeeds only if the record was deleted. So what is reloaded after a stop at any point contains every entry reported inserted.""",
  "crash_points fault_sequences", "every stop and every failing storage call during insertions and removals",
  "Tests use a temporary database that does not fail and is not reopened in between.",
  ML, [("Multiverse::insert", ML), ("Multiverse::remove", ML), ("Multiverse::db_insert", ML)], MS,
  "All paths, helpers inlined. When the database is flushed is up to it.")
P("M02", "Inserting an entry links it into every part of the graph",
  """After a successful insertion of a new entry it is found under its id with the value given, is a tip, is a root exactly if its parent is not there, stands in the set of its block number, is a child of its parent, and its parent is no tip
  any more; the link to the parent lasts as long as the parent is in the graph. Nothing else changes.""",
  "histories inputs", "all graphs and all entries inserted into them",
  "Tests build a few small graphs.",
  ML + " multiverse/src/entry.rs", [("Multiverse::insert", ML), ("Entry::add_child", "multiverse/src/entry.rs")], MS,
  "The state after compared with the state before, for an arbitrary graph; that an id's Hash and Eq agree is trusted.",
  state=[("all, ordered, tips, roots", "entries by id; ids by block number; ids without children; ids without a parent in the graph", ML)])
P("M03", "Removing an entry unlinks it from every part of the graph",
  """After a successful removal the entry is in no part of the graph; each of its children is a root that no longer reaches it; its parent, if there, has lost this child and is a tip exactly if it has no other; a block number with no entry left is
  not listed. The value returned is the entry's, nothing else changes, and an unknown entry is refused.""",
  "histories inputs", "all graphs, all entries removed from them, handles to ids held elsewhere",
  "Tests remove a few entries and look at one part of the graph.",
  ML + " multiverse/src/entry.rs", [("Multiverse::remove", ML)], MS,
  "As for M02. A parent link is compared as a weak handle: what other handles keep alive is outside.")
P("M04", "Clearing and destroying leave nothing; queries say what is there",
  """Clearing empties the database's tree and every part of the graph, or fails; destroying drops the multiverse's own tree and no other. A key is contained, and its value found, exactly if the entry is there; the length and the emptiness are those of
  the entries; the tips listed are all the tips.""",
  "inputs histories", "all graphs, all keys",
  "Tests query a few graphs.",
  ML, [("Multiverse::clear", ML), ("Multiverse::destroy", ML), ("Multiverse::get/contains/len/tips", ML)], MS,
  "All paths.")
P("M05", "Records are kept under keys in the order of block numbers",
  """The key a record is stored under begins with the whole block number as big-endian bytes, so that the database's order is the order of numbers and loading meets parents before children, and holds the whole id, so that no two entries
  share a key; a removal deletes under the same key as the insertion stored.""",
  "inputs", "all block numbers and ids",
  "The test compares four pairs of keys.",
  ML, [("mk_sled_key", ML), ("Multiverse::db_insert", ML), ("Multiverse::db_remove", ML)], MS,
  "The byte string is decomposed by construction; keys built in forms it cannot decompose are left undecided. The serialised id may differ in type from the in-memory one, both through AsRef<[u8]>.")
P("M06", "Loading rebuilds the graph from every record, in order",
  """Loading a multiverse goes through all the records of its own domain in the database's order and links each into the graph just as an insertion does; a record that cannot be read or decoded makes the loading fail.""",
  "histories crash_points", "all databases earlier insertions and removals leave",
  "Tests do not reload graphs with forks or damaged records.",
  ML, [("Multiverse::load_from", ML)], MS,
  "One arbitrary record on an arbitrary graph; the order of the database's iterator is its own.")
P("M07", "The best block lies the configured depth below a highest tip",
  """The block selected is the ancestor of an entry of the highest block number, exactly the configured number of parents away; if there is no such ancestor none is selected. The entries to discard are exactly those whose number is below the
  selected one's by more than the age gap.""",
  "inputs histories", "all graphs, depths and age gaps",
  "Tests use small chains.",
  ML, [("Multiverse::select_best_block", ML)], MS,
  "Loop rules: one step from an arbitrary entry, the count of steps from the loop's range. Choosing in other shapes than a loop over the order is left undecided.")
P("M08", "The preferred tip is one of the highest",
  """The tip preferred is a tip whose block number no other tip exceeds; there is none exactly if there are no tips.""",
  "inputs histories", "all graphs",
  "Tests use graphs with two or three tips.",
  ML, [("Multiverse::preferred_fork_tip", ML)], MS + "; loop invariants",
  "A search loop with its invariant (the number kept is the tip's); library maxima by their contract.")
P("M09", "Iteration yields every entry once, lowest numbers first",
  """Iterating goes through all entries of the graph, each exactly once, in the order of their block numbers.""",
  "inputs histories", "all graphs, any number of entries under one number",
  "Tests iterate over graphs where no entry is lost by taking one of a number.",
  "multiverse/src/visitor/depth_ordered.rs", [("DepthOrderedIterator::next", "multiverse/src/visitor/depth_ordered.rs"), ("Multiverse::iter", ML)], MS,
  "One step of the iterator from any position.")
P("M10", "Inserting a known entry again changes nothing",
  """Inserting an entry whose id is already there succeeds and changes neither the graph nor the database, whatever became of the entry in between; and no insertion changes anything before it knows that the id is new.""",
  "histories inputs", "all graphs, any entry inserted again",
  "Tests insert each entry once.",
  ML, [("Multiverse::insert", ML)], MS,
  "All paths.")
P("M11", "Ids are compared by content, whichever handle holds them",
  """Two handles are equal, and hash alike, exactly if the ids they hold are; looking up by an id or by a handle of it is the same. A link to a parent yields that very id while anyone holds it.""",
  "inputs", "all ids and handles",
  "Tests mostly compare handles of the same allocation.",
  "multiverse/src/entry.rs", [("impl PartialEq/Hash/Borrow for EntryRef", "multiverse/src/entry.rs"), ("EntryWeakRef::upgrade", "multiverse/src/entry.rs")], MS,
  "All paths of each implementation; the id's own Eq and Hash are trusted.")
P("M12", "No storage or encoding error of a multiverse is swallowed",
  """If any operation on the database or on the encoding fails during an operation of the multiverse, that operation returns an error.""",
  "fault_sequences", "every fallible call on every path of every operation",
  "Tests do not make the database fail.",
  ML, [("every function returning a Result", ML)], MS + "; per function, composed over the call graph",
  "Each function alone with its callees unknown.")
