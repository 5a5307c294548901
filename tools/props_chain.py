BS = "blockchain-source/src/"
BT, BP, BC, BE, BO = BS + "cardano/time.rs", BS + "cardano/point.rs", BS + "cardano/mod.rs", BS + "cardano/event.rs", BS + "source.rs"
BM, BR = BS + "multiverse/mod.rs", BS + "multiverse/rollback.rs"
P("B01", "A slot's epoch, place in it and time follow from its era",
  """From an era's first slot on, a slot's epoch is the era's first plus the whole epochs since the first slot, its place in the epoch is what is left, and its time is the era's known time plus the slots since at their length; an epoch has its length
  over the slot length of slots. Before the era's first slot there is no epoch and no place. Epoch and place together give back the slot.""",
  "inputs", "all eras and all slots from the era's first on",
  "The tests convert a handful of known slots of two networks whose slot is one second.",
  BT, [("Era::absolute_slot_to_epoch/absolute_slot_to_relative/compute_timestamp", BT)], TERM,
  "Sums are in mathematical integers; the branch facts fix on which side of the era's first slot a slot is. What a time before the era's first slot is, is not stated.")
P("B02", "Each network's era is the one its genesis and hard fork fixed",
  """The constant eras of mainnet, the old testnet, preprod, preview and sancho hold their network's first slot, first epoch, known time, slot length and epoch length, and a network's configuration carries its own network's era and magic.""",
  "configurations", "all networks the library knows",
  "Only two networks' constants are exercised.",
  BT + " " + BS + "cardano/configuration.rs", [("Era::SHELLEY_*", BT), ("NetworkConfiguration", BS + "cardano/configuration.rs")], TERM,
  "Compared with a table of the networks' published genesis parameters.")
P("B03", "A point survives its conversions; a hash that is none is an error",
  """A point of the chain converted to the node's kind and a node's point converted to ours name the same block: the origin is the origin and nothing else is, a block's point carries its own slot and its own hash and nothing is made up; a hash
  that is none is an error and never a point.""",
  "inputs", "all points",
  "Tests convert one or two points.",
  BP, [("Point conversions", BP)], TERM, "What a hexadecimal decoder does is taken by its contract.")
P("B04", "An event is what it is: only a tip is a tip, a block has its own names",
  """An event is announced as the chain's tip exactly if it is one; mapping an event's block (or tip) changes that and only that, once, and passes the mapping's error on; a block's id, parent, number and next point are its own fields, and a tip has
  no next point; a source made of one event gives it once, and then nothing.""",
  "inputs", "all events and all mappings",
  "Tests look at one kind of event at a time.",
  BE + " " + BO + " " + BR, [("CardanoNetworkEvent", BE), ("Source for Option", BO), ("Event::is_blockchain_tip", BR)], TERM,
  "Paths by kind of event.")
P("B05", "Without rollbacks, a block is given only when it is confirmed",
  """The source that hides forks gives out a block only if, after the latest block was inserted, it is the one at the confirmation depth below the best tip, and it was not the confirmed one before; or the confirmed one again when the caller says it is still at its
  parent. Every block received that is new is put in the multiverse, once; nothing else changes what is confirmed.""",
  "histories inputs", "all histories of blocks, forks and restarts",
  "Tests feed one generated chain with a fork or two.",
  BM, [("MultiverseSource::pull", BM)], TERM,
  "One pull from any state, all paths, so all histories by induction over pulls. What the selection gives is M-series'. Needs cml stand-ins for types only, so the crate is analysed whole though the build leaves this file out.")
P("B06", "The inner source is asked from every tip, and from where we are",
  """Whenever a source over a multiverse asks the source below it, it asks from the point of every tip of the multiverse, from the caller's point if given, and, with rollbacks, from the confirmed block; from nothing else. The source without rollbacks asks
  only when what the caller says fits what is confirmed.""",
  "histories inputs", "all states of the multiverse and all callers",
  "The tests' inner source ignores the points.",
  BM + " " + BR, [("MultiverseSource::pull", BM), ("ForkHandlingSource::pull", BR)], TERM,
  "The collection of points is read off the path as loops over the tips plus single points.")
P("B07", "A fork is told as a rollback to the common ancestor, then its blocks",
  """The source that tells of rollbacks gives a block that follows the last one as it is; for any other block it first gives a rollback to the nearest block that both share, then every block from there to the new one, in the order of the chain, each once, and the
  new block is the last one from then on. The first block after a start is preceded by a rollback to where the caller is.""",
  "histories inputs", "all trees of blocks in which the common ancestor is still kept",
  "Tests have one fork of one depth.",
  BR, [("ForkHandlingSource::pull", BR)], TERM,
  "The two walks over ancestors are summarised as loops whose rounds are compared; a fork deeper than the multiverse keeps is not stated.")
P("B08", "A source over a multiverse starts where the multiverse stands",
  """A source opened over a multiverse takes as confirmed the block its longest chain has at the depth asked for, or none, keeps the multiverse, the inner source and the depth as given, and starts with nothing waiting and its last block the multiverse's last.""",
  "configurations histories", "all multiverses, as reloaded after any stop, and depths",
  "Tests start from an empty multiverse.",
  BM + " " + BR, [("MultiverseSource::new", BM), ("ForkHandlingSource::new", BR)], TERM, "All paths of both constructors.")
P("B09", "Pulling from the node asks once and then hands over what came, in order",
  """While a request to the node is under way, each pull gives the request's next event or error and asks nothing new; only when there is none, or it has ended, one request is made, for the points given or the network's starting point, and its first event is the answer.
  Clearing forgets what is under way and nothing else.""",
  "histories schedules", "all orders of events, ends and errors",
  "No test has a node.",
  BC, [("CardanoSource::pull", BC)], FLOW,
  "Async functions are analysed as straight code with suspensions as events; channels are taken by their contract.")
P("B10", "What the node is asked for is what is sent on: every block, once, in order",
  """A fetch looks for the highest of the points the node knows; when the tip is there already, or none is known, no block is requested; otherwise the range to the tip is requested once, its first block is left out exactly if it is the caller's own, and
  every other block is sent on, once and in order, errors as errors, until the node has no more.""",
  "schedules fault_sequences inputs", "all answers of a node",
  "No test has a node.",
  BC, [("block_fetch", BC)], FLOW,
  "All paths of one fetch; the loop over the blocks is summarised by its rounds.")
P("B11", "Each request is served once, by a live connection, into its own channel",
  """Every request is served once, with a connection that has not failed, into the channel it came with; a connection that failed is stopped and never used again, and is made anew for the next request; one that did not fail is kept. Only a request from
  before the genesis block is told of that block.""",
  "schedules fault_sequences", "all sequences of requests and failures",
  "No test has a node.",
  BC, [("request_handler", BC)], FLOW,
  "One round of the loop from any state, all paths.")
P("B12", "A block event is what its bytes say, and bytes that are no block an error",
  """An event made of a serialised block carries that block's own hash, parent, number, slot and bytes; it is a boundary block's exactly if the block is one; its epoch is the one the block carries, or what its era says of its slot; bytes that cannot be
  read, and a slot of no era, are errors and never a panic.""",
  "inputs", "all byte strings and eras",
  "No test builds an event of bytes.",
  BE, [("BlockEvent::from_serialized_block", BE)], TERM,
  "What the decoder of blocks does is taken by its contract.")
P("B13", "No failure of the multiverse, the inner source or a block is passed over",
  """A source over a multiverse, and every other fallible operation of the library, reports success only if each insertion, removal, lookup of a point, conversion and pull of the source below that it needed succeeded; a failure is the caller's.""",
  "fault_sequences", "every fallible call failing",
  "Nothing fails in the tests.",
  BM + " " + BR + " " + BE + " " + BP, [("MultiverseSource::pull", BM), ("ForkHandlingSource::pull", BR), ("multiverse_insert_and_gc", BM)], FLOW,
  "What block_fetch and request_handler do with the node's failures is B10's and B11's.")
P("B14", "Stopping ends the request loop; clearing gives up only what is buffered",
  """Stopping the node's source, or a source over a multiverse on it, gives up the sender of requests and the receiver in use before it waits for the request loop to end, so that a loop waiting for either goes on and ends, and it returns only when that loop was left.
  Clearing the buffers drops what was received for the last request, and the source can be asked again.""",
  "schedules histories", "every state the request loop may be in when the source is stopped",
  "No test stops a source while the node answers; the wrong order waits forever only then.",
  BC + " " + BM, [("CardanoSource::stop", BC), ("request_handler", BC), ("StoppableService for MultiverseSource", BM)], FLOW,
  "The drops and the await are events of the coroutine's MIR; that the channels wake their waiters is tokio's contract.")
P("B15", "Each network's configuration names its own magic and blocks",
  """A network's configuration carries that network's own magic, the slot and hash of its first block and of the block to start from, and the hash of that first block's parent: never another network's.""",
  "configurations", "all the networks there are",
  "The tests use one or two of the networks, and none of them asks a node.",
  "blockchain-source/src/cardano/configuration.rs", [("NetworkConfiguration", "blockchain-source/src/cardano/configuration.rs")], TERM,
  "Compared with a table of the networks' published blocks; the addresses of the relays may change and are left out.")
P("K01", "An asset's fingerprint is of the policy's bytes and then the name's",
  """A fingerprint is the 20-byte hash of the policy's 28 bytes followed by the bytes of the asset's name, and of nothing else, in lower case digits padded with zeros to 64; a policy that is not 28 bytes' digits, or a name that is no digits, is an error and never
  another asset's fingerprint.""",
  "inputs", "all policies and asset names",
  "Tests compare ten known fingerprints.",
  "cardano-utils/src/cip14.rs", [("fingerprint", "cardano-utils/src/cip14.rs")], TERM,
  "What the hash took in is composed piece by piece; the hash itself is taken by its contract.")
