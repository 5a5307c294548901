IL = "indexed-log-map/src/storage.rs"
P("I01", "Appending under a key: the value is logged first, then found by the key",
  """An append to the indexed log map reports success only after the encoding of the value, whole and once, is in the log and, after that, the encoding of the key stands in the index with exactly the position the log gave it. Without an index it is
  refused before anything is written; no position ever enters the index that the log did not give.""",
  "crash_points fault_sequences inputs", "all keys and values, and every stop or failing call during an append",
  "Tests append to a store that never fails.",
  IL, [("IndexedLogMap::append", IL)], "path-sensitive must-precede analysis over MIR with value numbering, no solver, no execution",
  "What the log does on append is F01-F13's; sled's insert is taken by its contract. The position's encoded and decoded widths are compared.",
  state=[("storage", "the log of the values", IL), ("key_to_seqno", "position of the last value appended under each key", IL)])
P("I02", "A key finds the value it was given, and next is the one after",
  """Looking up a key answers the decoded element of the log at the position the index holds for this key's encoding, and iterating from it goes on through every later element in order; next is the element after it, or the first when no key is
  given; a key is contained exactly if it is found. An unknown key finds nothing, a failure is an error and not an absence, and looking changes nothing.""",
  "inputs histories", "all keys and all logs, including damaged records",
  "The tests look up six numbers.",
  IL, [("IndexedLogMap::get/contains/iter_from", IL), ("get_next", IL)], TERM,
  "How many elements of the log's iterator each path draws is counted; the iterator is yielded element by element.")
P("I03", "The log is iterated whole, its last is last, empty means no keys",
  """Iterating over an indexed log map yields every element of the log, decoded, from the first on, and an element that cannot be read as an error; the last is the log's last; it is empty exactly if the index holds no key.""",
  "inputs histories", "all logs",
  "Tests iterate over logs they wrote themselves.",
  IL, [("IndexedLogMap::iter/last/is_empty", IL)], TERM, "All paths.")
P("I04", "An indexed log map opens what its configuration names",
  """Without a path everything is in memory or temporary; with one, the log is the file's, opened read-only exactly when told so, and the index, there exactly when asked for, is kept under the path and found again after a restart. A part that cannot
  be opened is an error.""",
  "configurations", "all configurations, and every failure to open",
  "Tests open with one configuration.",
  IL + " indexed-log-map/src/config.rs", [("IndexedLogMap::new", IL)], TERM, "Whether sled writes to an index opened for reading is sled's.")
P("I05", "No failure of the log, the index or an encoding is passed over",
  """Every operation of the indexed log map reports success only if each operation of the log and of the index and each encoding and decoding it needed succeeded; otherwise it returns an error.""",
  "fault_sequences", "every fallible call failing",
  "Nothing fails in the tests.",
  IL, [("IndexedLogMap", IL)], FLOW, "A record only passed over on the way to the next need not be decodable.")
