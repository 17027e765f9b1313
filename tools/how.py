HOW = {
"C01": "scenario *custody*: delegations and undelegations of two users to a pool, an operator and a service, renaming of targets and blocks; the escrow accounts are compared with the model after every step, and, model-free, with the delegation and unbonding records of every state.",
"C02": "*accounting* (two users, three targets, two denoms) and *accounting+admin* (the same under every administrative message): delegations, target totals, shares and all balances compared after every step.",
"C03": "*one target*, *many targets*, *pools*: undelegations with equal, crossing and shortened due times; balances and unbonding entries compared after every block, the announced completion time compared with the model, failing blockers reported. Blocks come at fractions of a second, and times are compared in milliseconds.",
"C04": "*status and denoms*, *amounts* (zero, negative, exact, one too many, missing denom, missing target), *two services*: acceptance of every delegation and undelegation compared with the model.",
"C05": "*lifecycle*, *trust*, *trust before creation*: in every reachable state all users undelegate everything on a branch, the chain advances past the unbonding period, and balances must be complete.",
"C06": "*relations*, *deletions*: joins, allow-lists and secured pools compared with the model after every step, and through the queries.",
"C07": "*relations*, *delegation queries*, *unbonding queries*: in every reachable state every query of the four modules for every argument and page size 1, 2 and unlimited is compared with the model.",
"C09": "*lifecycle* and *registration* (blocks at fractions of a second): statuses, due times, texts, rates, admins compared; begin and end blockers must succeed.",
"C10": "*operator admin*, *service admin*: all administrative messages by three would-be admins, governance and strangers, interleaved with transfers.",
"C11": "*lifecycle*, *creation*, *automatic deactivation*.",
"C12": "*fees*: nine fee offers x fee parameters x balances; acceptance, payer balance and community pool compared.",
"C13": "*pools*: three denoms, two users; pool identifiers, totals, accounts and queries compared.",
"C14": "*small amounts* (thirds, rounding), *status and trust*, *plans*: the code alone is executed; in every state everybody withdraws everything, in two orders, on a branch, and the outstanding records are compared with the rewards pool.",
"C15": "*debits*: plan accounts compared after every block, at seconds and fractions of them; *weights*: every combination of weights, distribution types and categories with stake is allocated once on the real chain and every withdrawal compared with exact rationals.",
"C16": "*shares*, *restakable denoms and prices*, *large exponents*, *two services and operators*: the model computes exact rational entitlements; in every state every delegation is claimed on a branch and compared, and every automatic withdrawal on the way.",
"C17": "*trust*: as C16 with preferences, accreditation, securing and deletion of two services.",
"C18": "*commissions*: as C16 with rates, transfers, deletion.",
"C19": "*lifecycle* (blocks at fractions of a second around the start and end times), *admission* (valid and invalid plans), *creation fee*.",
"C20": "*withdraw address*.",
"C36": "*reward queries*: every query in every state compared with withdrawals on a branch and with the model.",
"C08": "*burn*, *burn several denoms*: balances, supply, delegations, unbonding and burn queues compared after every step, due times in milliseconds; failing blockers reported.",
"C21": "*mint and burn*: supply and balances compared; 40 messages by authorised and unauthorised senders, invalid parameters included.",
"C22": "*transfers*: every route by which coins can move; in every state all bank balances are scanned for locked tokens in wrong hands.",
"C23": "*coverage*, *coverage of several denoms*: acceptance compared with the model; in every state coverage is recomputed from the observed funds, delegations and unbonding entries.",
"C24": "*deposits*: packets are handed to the real transfer stack and committed on a successful acknowledgement, as the channel keeper does.",
"C25": "*funds*: fund records, balances, all queries, and the module balance in every state.",
"C26": "*everything*, *liquid vesting*, *extremes*, *references*: the code alone is executed, without model; the begin and end blockers of every block must complete.",
"C27": "*everything*, *references*, *liquid vesting*: in every state the modules are exported, their stores emptied, initialized again from the export, exported again and compared; then every continuation of a list is executed on the original and on the imported state and results, exports and balances are compared (the numbers of the unbondings, which restart, only have to be distinct).",
"C30": "*stakes*: all 9^3 combinations of stakes; *many delegations*; *vote transactions*: all trees. The expectation is computed with exact rationals.",
"C31": "*proposal transactions*: all trees of proposals over all lists of messages.",
"C35": "*everything*, *references*, *liquid vesting*: all invariants in all states; *corruption*: in all states of smaller bounds, every corruption is planted on a branch of the stores and the invariant responsible must report it.",
"C28": "*registry*: explored to its fixpoint; every state is queried by denom, ticker and page size.",
"C29": "*signers*, *governed messages* (valid samples from governance and ten others), *blank governed messages* (every message with an authority found in the interface registry, also of the SDK, wasm, IBC and oracle modules).",
"C32": "*rewards by pool*, *rewards by service*, *shares*, *coin comparisons*: all pairs, against plain integers and exact rates.",
"C34": "*spelling*: three scenarios in which every message exists with both spellings of the sender's or depositor's address, while the model knows the account only; *numbers around 10, 255, 65535*: targets with these numbers, among delegators with 20 and 32 byte addresses; all facts are compared.",
"C33": "the checker is built from instrumented sources (`det` rewrites, in an overlay, every iteration over a map, every reading of the clock and every unseeded random number in the repository's code to go through `vdet`, which the checker controls per goroutine). *three of everything* (three pools, operators, services, denoms; two reward denoms), *everything*, *references*, *liquid vesting*: every transition is executed five to eight times, alternating between two instances of the application with different pasts, under ascending, descending and further permutations of maps and with clocks before, within and after the period; the stores that make up the application hash, codes, data, gas and validator updates must agree. Exports and imports likewise, and the start of the chain. If the instrumented build is impossible, the runtime's own random orders remain and the run is reported as not exhaustive.",
"C37": "every case is a block of a real node (`FinalizeBlock` of the application, signed and encoded transactions, a real multistore). *single faults* and *pairs*: twenty lists of messages x sixteen faults of signatures, ten fees, three gas limits, memo, timeout, under three configurations of the fee market; *gas*: every gas limit in steps up to what is needed; *blocks*: all sequences of transactions out of twelve; *mempool*: admission compared with what the next block does. Expected state: the messages executed through the router on a branch of the committed state plus the fee; the exports of all modules and all balances are compared.",
"C38": "two real nodes over the same in-memory database: one runs straight through, the other is restarted between execution and commit or receives other requests (`CheckTx`, recheck, simulations, queries, proposals) at every point; results and application hash must agree at every height. *crashes*: the database is copied after every single write of a commit, a node started from each copy must execute the block again and the next one with the same results. The same histories are also executed on the in-memory multistore of the other checks and all stores compared, which validates that harness against the real node.",
"C39": "real nodes: after every history, `ExportAppStateAndValidators` (twice, for single modules, at height and for height zero), a new node with `InitChain` from it, an empty block and every operation on both; with two validators, every choice of those to keep; results and the exports of all modules (SDK, IBC and provider modules included, except those that store heights) compared.",
"C40": "in every reachable state of three scenarios, the exported genesis state is edited as a JSON tree: every value that is an address, denom, identifier, amount, rate, status, time, weight, ... is replaced by impossible ones, every element of every list is inserted again at every position, every list is reversed; each edited state is validated and, if that passes, initialized on empty stores. What is derived from delegations and rewards (totals and records of rewards) is left to the invariants (C35).",
"C41": "a chain of four validators with 1, 2, 3 and 3 of 9 votes, real nodes with vote extensions. *ballots of all validators*: every assignment of 7 (10) ballots to the four validators (absent, for no block, without prices, prices of one, two or three pairs, zero and negative prices, pairs that do not exist, undecodable prices); `ProcessProposal` must accept exactly the commits with more than two thirds of the votes, and `FinalizeBlock` must have exactly the effect of the same block on the stores of the checker after setting the stake-weighted medians (all stores and balances compared: the rewards of the block are valued at the new prices). *proposals prepared*: what `PrepareProposal` makes of every assignment, with invalid extensions among them, is accepted and counts the valid ballots. *faults of a proposal*: 30 faults (signatures, heights, rounds, chain, votes added, left out, exchanged, changed) at every vote of three commits, and of the injected commit. *votes of others*, *sizes*, *histories* with restarts, undecided proposals and other votes in between. *votes of a node with oracle*: a price server on the loopback interface; in every history of proposals over two rounds per height, the node votes for exactly its prices.",
"C42": "a contract of the real virtual machine which passes on what its owner tells it to (wasmd's reflect contract, uploaded and instantiated by messages) plays in turn the delegator, the operator's and the service's administrator, the funder, the minter, the burner and a holder of locked tokens. In every state reached by up to 1 (2) of 42 (26) operations, each operation is executed on branches (a) directly, signed by the contract's address, and (b) by the contract: outcome and all stores (the contracts' own included) must be the same. Every operation of someone else (administrators, minter, governance) dispatched by the contract, and every one told to the contract by someone who does not own it, must fail and change nothing; every pair in a list is executed in order and entirely or not at all; submessages whose failure is awaited fail alone, the others undo everything; funds sent along arrive as a transfer does. All queries that the application routes (about 160, with requests made from their descriptors) are sent by the contract: the five granted ones must be answered like the same query of a client (JSON of the same response, errors likewise, several requests and pages each), the others be refused, both as stargate and gRPC queries.",
"C43": "the sources are rewritten at build time (in an overlay) so that every statement of the repository and of wasmd's keeper is a point at which the checker's scheduler may switch between two goroutines. 75 pieces of work of a node: 6 operations of a block (its end and beginning included) and a contract's message on the state of the block; simulations, every query of our modules and the granted queries sent by a contract on the last committed state. *One interruption*: each of them is stopped at each of its points (about 9200 and 4900), everything else is done meanwhile, and it is continued; every result (answers, codes, data, gas, hash of all stores) must be the one the work has alone. *Two interruptions*: for every ordered pair with at most 400/200 (3000/2000) pairs of points, one is stopped, the other one is started and stopped, the first is finished, the second is finished: 400 000 and 220 000 schedules. Deciding that a thread waits for a lock takes ten seconds without progress; both are then let go.",
"C44": "real nodes, each with a wasm machine in a directory of its own: after every history, one takes a snapshot (the application's snapshot manager, with its extensions), two new ones are offered it and apply its chunks, and one of these is restarted; all stores are compared, then the results and hash of the block of every operation on all three nodes, then two blocks that are committed. One scenario has a contract, with pinned code, that delegates, withdraws and claims; the other one locked tokens.",
}
