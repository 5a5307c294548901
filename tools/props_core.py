P("C01", "Signed balances add up and say their side",
  """Adding an amount or a balance to a balance, or taking one from it, yields exactly the signed sum or difference, whichever operator
  form is used. For non-negative amounts the result is reported in debt, balanced or in excess exactly when that signed amount is negative, zero or positive; its text is the sign of its side and its amount.""",
  "inputs histories", "all balances and all non-negative amounts, all operator forms, in any sequence",
  "The tests try a handful of small amounts through some of the forms; amounts are unbounded decimals.",
  "core/src/balance.rs", [("Add/Sub/AddAssign/SubAssign for Balance", "core/src/balance.rs"), ("in_debt/balanced/in_excess", "core/src/balance.rs")], TERM,
  """Every path of every operator is enumerated and its result compared as a linear term; complete for all amounts. Assumes payloads of debt and excess are
  positive and amounts non-negative, and exact arithmetic in bigdecimal.""")
P("C02", "Amount arithmetic is exact in every operator form",
  """The sum, difference, integer multiple, quotient by an integer, and comparison of two amounts are those of the exact decimals they hold, in every form of the operator
  (by value, by reference, assigning). Summing a sequence of amounts adds every one of them once.""",
  "inputs", "all amounts, all factors, all operator forms",
  "Tests sample a few forms with small numbers; a form or operand order that is never sampled can be wrong.",
  "core/src/value.rs", [("operator impls for Value", "core/src/value.rs"), ("Sum for Value", "core/src/value.rs")], TERM,
  "All paths of all operator impls; results compared as canonical linear terms. Trusts bigdecimal's arithmetic.")
P("C03", "Unit conversions keep the amount",
  """Converting an amount between units of one currency, or to and from the normalized form, multiplies it by exactly the power of ten between the two units (6 decimals for Lovelace and
  MicroAlgo, 18 for Wei). A regulated amount is converted with its rule's precision for the side it is converted from or to.""",
  "inputs", "all amounts, all unit pairs offered, all rules",
  "Tests cover some of the more than thirty conversions on sample values; an error in a seldom used direction is not seen.",
  "core/src/value.rs", [("normalize/from_normalized/to_* and From impls", "core/src/value.rs"), ("scale", "core/src/value.rs")], TERM,
  "All conversions found by type, all paths; the factor is computed symbolically. Text and serde forms are outside.")
P("C04", "Amounts parsed from text respect their unit",
  """Parsing an amount of a unit from text never yields a negative amount nor one with more fractional digits than the unit has, and yields the amount written.
  A well-formed amount that respects both is never refused.""",
  "inputs", "all texts, all units",
  "Tests parse a few valid texts per unit.",
  "core/src/value.rs", [("FromStr for Value", "core/src/value.rs")], TERM,
  "Every accepting and refusing path is checked against the branch facts on it; the decimal parser itself is trusted.")
P("C05", "Chain counters never wrap",
  """Advancing a block number, slot number or output index with the checked operations gives the exact sum, or nothing when it exceeds the maximum; the saturating operations give the
  exact result clamped to the counter's range. Conversions from and to plain numbers keep the number.""",
  "inputs", "all counter values and increments",
  "Tests sample random and boundary values of some operations; others are not tested at all.",
  "core/src/block_number.rs core/src/slot_number.rs core/src/output_index.rs core/src/timestamp.rs", [("checked_*/saturating_*", "core/src/block_number.rs")], TERM,
  "Every path of every counter method, as one term over its parameters; complete for all values.")
P("C06", "Counters and amounts read back from numbers and texts alike",
  """A block number, slot number or timestamp reads as the number given, from an unsigned number and from its decimal text alike, over the whole 64-bit range; an amount likewise from a decimal.
  What does not read as such is refused with an error, and what does is never refused. Counters parsed from text keep the number, and a timestamp converts to that many seconds since the Unix epoch.""",
  "inputs", "all numbers and texts, all self-describing formats",
  "Tests read one small number and one text per type.",
  "core/src/number_visitor.rs core/src/block_number.rs core/src/slot_number.rs core/src/timestamp.rs core/src/output_index.rs core/src/value.rs", [("Visitor impls", "core/src/number_visitor.rs"), ("Deserialize impls", "core/src/timestamp.rs")], TERM,
  "Every path of the visitors and of the parsing functions; the number parsers of std and bigdecimal and the format's reader are trusted.")
P("C07", "A UTxO goes into the store once, and into every index alike",
  """Inserting a UTxO whose pointer is in the store is refused and changes nothing. Otherwise it becomes part of the main set, of the main token's set and of the set of every token it holds, once in each:
  each set's balance grows by exactly all that the UTxO has of the token, however often it lists it, and the order by value has it under that amount. No other token's set changes, and the names of its tokens are known afterwards.""",
  "histories inputs", "all stores reached by insertions and removals, all UTxOs, with any tokens in any number",
  "Tests insert a few UTxOs and look at a few balances; sets, balances and orders are three records that must agree after any history.",
  "core/src/utxo_store.rs", [("UTxOStoreMut::insert", "core/src/utxo_store.rs"), ("UTxOSet::add_value", "core/src/utxo_store.rs")], TERM,
  "One insertion into an arbitrary store, every path, maps as symbolic terms, the loop over the tokens generalised. That a set reached by a history agrees with itself is the induction over C07 and C08.",
  state=[("UTxOSet", "set, balance and ordered_by_value describe the same UTxOs", "core/src/utxo_store.rs")])
P("C08", "A UTxO leaves the store, and every index alike",
  """Removing a UTxO that is not in the store is refused and changes nothing. Otherwise it leaves the main set, the main token's set and the set of every token it holds: each balance shrinks by exactly what its insertion added,
  its entry in the order by value goes, and the others under that value stay. A token's set goes when, and only when, nothing is left in it; the names of tokens stay known.""",
  "histories inputs", "all stores reached by insertions and removals, all pointers",
  "Tests remove a few UTxOs and look at a few balances.",
  "core/src/utxo_store.rs", [("UTxOStoreMut::remove", "core/src/utxo_store.rs"), ("UTxOSet::remove_from_asset/finish_remove", "core/src/utxo_store.rs")], TERM,
  "One removal from an arbitrary store whose sets agree with themselves and are named after their tokens (kept by C07 and C08), every path.",
  state=[("UTxOSet", "set, balance and ordered_by_value describe the same UTxOs", "core/src/utxo_store.rs")])
P("C09", "Queries of the UTxO store answer from the token asked for",
  """Counts, balances, lookups and iterations of the store answer from the set of the token asked for (or the main set), and nothing for a token that has none. Ordered iterations yield every UTxO of the set, by ascending amount of that token,
  or descending in the reversed form. Freezing and thawing keep the whole content.""",
  "inputs histories", "all stores, all tokens and pointers",
  "Tests query small stores; a query that answers from another set, or leaves elements out for some token, passes them.",
  "core/src/utxo_store.rs", [("UTxOStore queries and iterators", "core/src/utxo_store.rs"), ("freeze/thaw", "core/src/utxo_store.rs")], TERM,
  "Every path of every query; iterators are unfolded into the collections they draw from. The order within equal amounts is open.")
P("C10", "Identifiers hold exactly the text they were made of",
  """An address, block, transaction, token, policy or asset name made of a text holds and shows exactly that text, whole and unchanged, and tests prefixes on it. The fixed ones are what they are named for: the main token is 64 zeros,
  the main asset 414441, the absent transaction N/A. Counters show as their number and end at the least and greatest 64-bit number; a UTxO pointer shows as transaction@index.
  A new asset or output record holds the parts it was given, and is empty in the others.""",
  "inputs", "all texts and numbers",
  "Tests make two or three identifiers; a text cut, trimmed or recased passes them until another one is used as a key.",
  "core/src/address.rs core/src/block_id.rs core/src/tx/transaction_id.rs core/src/token_id.rs core/src/policy_id.rs core/src/asset_name.rs core/src/tx/utxo.rs core/src/block_number.rs", [("identifier constructors and Display", "core/src/token_id.rs")], TERM,
  "Every path of every constructor, reader and text form; the formatting machinery of std is trusted.")
P("C11", "What is written through serde reads back as it was",
  """A value of any type of these crates that is written and read through serde comes back equal: each field is written under the name, or at the place, it is read from, each variant under its own name, and no field is
  left out that its reader needs. Only the fields documented as optional may be missing from the input, and then they are empty.""",
  "inputs", "all values, all self-describing formats",
  "Tests write and read a few values of some types; a field skipped or renamed on one side only shows when that value is read again.",
  "core/src/tx/transaction.rs core/src/tx/utxo.rs core/src/tx/transaction_asset.rs core/src/value.rs blockchain-source/src/cardano/point.rs multiverse/src/lib.rs", [("Serialize/Deserialize impls", "core/src/tx/utxo.rs")], TERM,
  "The expanded writers and readers of every type, path by path, against each other; the format itself is trusted.")
P("C12", "Equality, order, hash and copies agree on the whole value",
  """Two values of a type are equal exactly when all their fields are equal; their order is that of the first field in which they differ, and equal in order means equal; equal values hash alike;
  a copy has every field of the original.""",
  "inputs", "all pairs of values",
  "Tests compare a few values; keys of maps and sets rest on these operations for every pair.",
  "core/src/value.rs core/src/balance.rs core/src/tx/utxo.rs core/src/block_id.rs blockchain-source/src/cardano/point.rs fraos/src", [("PartialEq/Ord/Hash/Clone impls", "core/src/value.rs")], TERM,
  "Every path of every comparison, hash and copy, hand-written or derived, against the fields of the type. Entries of the multiverse are compared by what they point to.")
P("C13", "Truncating an amount keeps its integral part",
  """Truncating an amount drops its decimals and keeps its integral part whatever its size: below one it becomes zero, and a whole amount is unchanged. The zero amount and the default are 0, the one amount is 1,
  an amount made from a plain number or decimal holds exactly that, and reads as a plain number exactly when that number is.""",
  "inputs", "all non-negative amounts",
  "Tests truncate one amount of one digit.",
  "core/src/value.rs", [("Value::truncate", "core/src/value.rs")], TERM,
  "Every path of the truncation and of the constant amounts and readers; the printed form of a decimal and its rounding are trusted to the decimal library.")
