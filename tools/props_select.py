UA = "utxo-selection/src/algorithms/"
UC = "utxo-selection/src/common.rs"
LF, RI, SO, FE, TH = (UA + x + ".rs" for x in ("largest_first", "random_improve", "balance_change_single_output", "balance_change_fee", "thermostat"))
US = "ledger of every loop over MIR terms: what each total was given, per round and per element (paths enumerated), no solver, no execution"
P("U01", "A selection starts from the sums of its fixed inputs and outputs",
  """The balances a selection starts from are, for the main token and for every other token, the sums over all the fixed inputs and over all the fixed outputs, each of them counted once, under that token's own name; the lists themselves and the change
  address are kept.""",
  "inputs", "all lists of fixed inputs and outputs and all tokens they hold",
  "Tests build setups with empty or one-element lists.",
  UC, [("InputOutputSetup::from_fixed_inputs_and_outputs", UC)], US,
  "Sums are followed round by round through loops, iterator chains and helpers.")
P("U02", "Balances are inputs less outputs less fee, for every token",
  """The balance of the main token is the inputs' total less the outputs' total less the fee; that of any other token its inputs less its outputs, over all tokens of either side. A result, or a list of UTxOs, is balanced exactly if each of these
  balances is.""",
  "inputs", "all totals, fees and token maps, with tokens on one side only",
  "Tests ask about a few balanced results.",
  UC, [("calculate_main_token_balance", UC), ("calculate_asset_balance", UC), ("InputSelectionResult::is_balanced", UC), ("are_utxos_balanced", UC)], US,
  "All paths; questions put as helpers or inline are recognised by the terms they compare.")
P("U03", "Largest first: what is chosen is what is counted",
  """Every input the largest-first algorithm chooses is counted once in the totals returned, in the main token and in every token it holds, its fee is added and the estimator is told of it; it is the most valuable there is of the token wanted, and it
  is not offered again. A selection that fails leaves what is offered as it was.""",
  "histories inputs", "all offered inputs, all setups, all histories of selections",
  "Tests select from one store of eight inputs.",
  LF + " " + UC, [("LargestFirst::select_inputs", LF), ("select_input_and_update_balances", LF)], US,
  "The store's order (most valuable first) is C08/C09's; the estimator is taken as unknown.",
  state=[("available_inputs", "what is offered: chosen inputs leave it", LF)])
P("U04", "Largest first: success means every output and the fee are paid for",
  """When the largest-first algorithm reports success, the inputs returned hold, of every token the outputs hold and of the main token with the fee added, at least as much as the outputs; otherwise it reports an error.""",
  "inputs histories", "all offered inputs, setups and estimators, fees that grow with every input",
  "Tests use an estimator that asks for no fee.",
  LF + " " + UC, [("LargestFirst::select_inputs", LF)], US + "; facts known at every success",
  "Paths that can return Ok are enumerated; the balance asked about last must be of the totals returned.")
P("U05", "Change balancers leave nothing over",
  """When a change balancer reports success, inputs less outputs less fee of what it returns is zero for the main token and for every other token: what was left over went, all of it and once, to the change it returns and told the estimator of, or, for
  the balancer that gives it up as fee, to the fee. Lacking value or tokens is an error, also when the fee for the change itself is what cannot be paid.""",
  "inputs", "all setups, tokens in excess, in debt and balanced, and all estimators",
  "Tests use an estimator that asks for no fee and leave two tokens over.",
  SO + " " + FE + " " + UC, [("SingleOutputChangeBalancer::select_inputs", SO), ("FeeChangeBalancer::select_inputs", FE)], US,
  "The totals returned are compared with the totals given and the change made, as linear terms; estimator calls are unknowns.")
P("U06", "Random improve: no input twice, all counted, outputs covered",
  """Every input the random-improve algorithm chooses was offered, is chosen once, counted once in the totals, in the fee and with the estimator, and not offered any more, one given back is offered again. Every output's main value, and every token it
  holds, is covered by the inputs chosen for it, also after improvement swapped some of them; on success the inputs also pay the fee. A selection that fails leaves what is offered as it was.""",
  "histories inputs schedules", "all offered inputs, setups and estimators, all random choices",
  "The test draws one random sequence a run from a store of a few inputs.",
  RI + " " + UC, [("RandomImprove::select_inputs", RI), ("select_input_and_update_balances", RI)], US,
  "Random indices are unknowns within their range. Quantities fit 64 bits and an output lists a token once (the algorithm's own restriction).",
  state=[("available_inputs, available_indices", "the inputs given; positions of those still offered", RI)])
P("U07", "Thermostat: value and tokens are neither made nor lost",
  """In every step of the thermostat, what the selected inputs hold less what the outputs and changes hold equals the balance it keeps, for the main token and every other token; it starts from the outputs' totals, every fee a change costs is counted,
  the inputs and changes returned are those the estimator was told of, and an input taken leaves the store.""",
  "histories inputs", "all stores, setups, configurations and estimators; all orders of the changes",
  "Tests balance two examples with fixed configurations.",
  TH, [("Thermostat::select_inputs", TH), ("Thermostat::add_input", TH), ("Thermostat::balance_excess_of_asset", TH), ("Thermostat::balance_excess", TH), ("Thermostat::split_accumulators", TH)], US,
  "Each step is shown to keep one equation over its state, for an arbitrary state before; the loops over steps follow. Each loop is also followed for the store it passes on. Deficits below the minimum of a change are what the balance itself may turn "
  "into a debt: whether the whole ends balanced is not decided.",
  state=[("balance, asset_balance", "what inputs hold less what outputs and changes hold", TH), ("changes, extra_changes", "the change of each token; the second halves of those split", TH)])
P("U08", "Thermostat: every token asked for is had in full",
  """When the thermostat reports success, every token its outputs hold was drawn until nothing was owed; the inputs drawn for a token hold no other token; what is left of any token in excess went to a change of that token, in full; the inputs
  drawn only to use up room are kept out of it if they cannot be taken.""",
  "histories inputs", "all stores, setups and estimators",
  "Tests unwrap one token.",
  TH, [("Thermostat::select_inputs", TH), ("Thermostat::select_input_for", TH), ("Thermostat::select_input_for_asset_until_balanced", TH)], US,
  "Order and completeness of the steps over all tokens; leaving a token out is only accepted for the main token.")
P("U09", "The inputs given to an algorithm are the inputs it offers",
  """The inputs or the store an algorithm is given replace what it offered before, all of them and once each; inputs that cannot be taken leave what was offered; asking what is offered tells of all that is, and changes nothing.""",
  "histories inputs", "all lists and stores, after any history of selections",
  "Tests give each algorithm its inputs once.",
  " ".join((LF, RI, SO, FE, TH)), [("set_available_inputs/set_available_utxos/try_from", UA), ("available_inputs/get_available_utxos", UA)], US,
  "All setters and readers of all five algorithms.")
P("U10", "No failure of the estimator or the store is passed over",
  """A selection, and every step of it, reports success only if every call it made to the estimator, to the store and to its own fallible steps succeeded; the one exception is an input drawn only to use up room, which may be refused.""",
  "fault_sequences", "every fallible call failing, alone or with others",
  "The estimators of the tests never fail.",
  " ".join((LF, RI, SO, FE, TH, UC)), [("select_inputs of all algorithms", UA)], FLOW,
  "Every fallible call is an unknown result; each path that can return Ok must have found it to be Ok.")
