A = "x/assets/"
prop("C14", "Everything earned can be paid: the rewards pool is always solvent",
     "In every reachable state, every delegator and every operator can withdraw everything the chain has recorded as earned by them, in any order, and all these withdrawals succeed: the rewards pool always holds at least the sum of the outstanding rewards, which are never negative.",
     "every sequence of delegations, undelegations, claims, commission changes, status and trust changes, plan changes and blocks, including amounts which do not divide evenly",
     "Rounding and double accounting errors accumulate over histories; tests withdraw once from one state.",
     [W+"allocation.go", W+"delegation.go", W+"target.go", W+"withdraw.go", W+"opertors_hooks.go", W+"services_hooks.go", "x/rewards/types/dec_pool.go"],
     [("period and outstanding bookkeeping", W+"target.go"), ("withdrawal of delegation rewards", W+"delegation.go"), ("allocation out of the plan pools", W+"allocation.go")],
     ["withdrawal results from every state, in two orders", "outstanding rewards queries", "balance of the rewards pool"])
prop("C15", "Plan rewards are debited exactly and split by the configured weights",
     "In every block in which a plan is active, its service active, its funds sufficient and somebody eligible, exactly floor(amount per day x elapsed whole milliseconds / day) of each denom leaves the account of the plan, and otherwise nothing; the amount is split among pools, operators and users by the weights of the categories that have stake (by value when all those weights are zero), and within a category by value, equally or by the configured target weights.",
     "every block schedule, funding and activity history of two plans, and every combination of category weights in {0,1,2,2^31,2^32-1}, distribution types and categories with stake",
     "Tests fix one weight vector; overflows and missing categories need the extremes of the weight space.",
     [W+"allocation.go", W+"rewards_plan.go", "x/rewards/types/models.go"],
     [("split by weights", W+"allocation.go"), ("rewards amount of a block", W+"allocation.go")],
     ["balances of the plan accounts", "withdrawals of all delegators"], over=("inputs", "histories"))
prop("C16", "Each delegator earns exactly the share his stake is entitled to",
     "What a delegator can withdraw from a target is, up to less than a unit per staked denom, the sum over the blocks since his last withdrawal of the target's rewards times his share of the stake, valued at the asset prices and decimals, counting only denoms restakable globally and for the service, only targets eligible in that block (active operators that joined and are allowed, pools securing the service), net of operator commission. Whether and when he or others claimed, delegated or undelegated in between makes no difference to the total he receives.",
     "every interleaving of delegations, undelegations, claims, price, denom, relation and status changes and blocks, by two users over pools, operators and services",
     "Entitlement is a sum over the whole history; tests check one allocation.",
     [W+"allocation.go", W+"delegation.go", W+"target.go", W+"restaking_hooks.go", W+"oracle.go"],
     [("valuation of stake", W+"oracle.go"), ("eligibility of targets", W+"allocation.go"), ("settlement on stake changes", W+"restaking_hooks.go")],
     ["withdrawals", "automatic withdrawals on delegation and undelegation"])
prop("C17", "Pool delegators earn only, and fully, from the services they trust",
     "Of a service's rewards for a pool, every delegator of the pool trusting the service in that block, by explicit choice or accreditation preference, earns the share of his stake among those trusting it, and nobody else earns. Changing preferences or accreditation settles what was earned before and never loses, duplicates or retroactively grants rewards.",
     "every sequence of preference and accreditation changes, pool delegations and undelegations, securing changes, service deletion and blocks, for two users and two services",
     "Trust is evaluated at claim time over periods accumulated earlier; mistakes show only when trust changes between allocation and claim.",
     [W+"pool_service_shares.go", W+"restaking_hooks.go", W+"services_hooks.go", W+"delegation.go", "x/restaking/types/models.go"],
     [("shares per pool and service", W+"pool_service_shares.go"), ("settlement on trust changes", W+"restaking_hooks.go")],
     ["withdrawals", "automatic withdrawals on trust changes"])
prop("C18", "Operator commissions are exact and go to the operator's admin",
     "Every allocation to an operator credits its commission rate times the rewards as commission and the rest to its delegators. Only the current admin can withdraw the commission; it is paid to his withdraw address, once, and what is pending when the operator is deleted is paid to its admin.",
     "every sequence of rate changes, transfers, status changes, deletion, withdrawals and blocks",
     "Commission crosses allocation, parameters, ownership and deletion; tests look at each alone.",
     [W+"allocation.go", W+"withdraw.go", W+"opertors_hooks.go", W+"msg_server.go"],
     [("commission split", W+"allocation.go"), ("commission pay-out on deletion", W+"opertors_hooks.go")],
     ["commission withdrawals", "bank balances"])
prop("C19", "Rewards plans are created, edited, run and ended only as specified",
     "A plan is created only by the admin of its service, with positive amounts, a non-empty period, existing and distinct weighted targets with positive weights, and against the creation fee (any one of the accepted coins), which goes to the community pool. It is edited only by the admin and only before it ends. When it ends, or its service is deleted, it is removed and everything left in its account goes to the service. Nothing else changes a plan.",
     "every sequence of plan creation, editing, funding, service changes and blocks over a set of valid and invalid plans and fees",
     "The end of a plan depends on block times falling before, on or after it; admission on the combination of all fields.",
     [W+"msg_server.go", W+"rewards_plan.go", W+"services_hooks.go", "x/rewards/types/models.go", "x/rewards/types/messages.go"],
     [("plan admission", W+"msg_server.go"), ("termination of ended plans", W+"rewards_plan.go")],
     ["plan records", "balances of plans, services and the community pool", "transaction results"], over=("inputs", "histories"))
prop("C20", "Rewards are paid to the address the delegator chose, and only there",
     "Every reward withdrawal, explicit or automatic, pays the withdraw address last set by the delegator himself, or the delegator when none is set; blocked module accounts are rejected as withdraw addresses. Nobody can change another delegator's address or claim for him.",
     "every sequence of withdraw address changes and claims interleaved with automatic withdrawals and blocks",
     "Automatic withdrawals happen inside other operations; tests cover explicit claims.",
     [W+"withdraw.go", W+"delegation.go", W+"msg_server.go", W+"alias_functions.go"],
     [("withdraw address lookup", W+"withdraw.go")],
     ["bank balances of every account after each operation"])
prop("C36", "Reward queries report exactly what a withdrawal would pay",
     "In every reachable state, the pending rewards and commission reported by the queries are exactly what a withdrawal at that moment pays, the totals are the sum over all delegations, outstanding rewards equal what is allocated and not withdrawn, and plans, withdraw addresses and parameters are reported as they are, page by page.",
     "every reachable state within the bounds, each query for every argument, compared with a withdrawal executed on a branch",
     "Query and withdrawal are two code paths; they must agree in every state, not in the handful of test states.",
     [W+"grpc_query.go", W+"delegation.go", W+"target.go"],
     [("query server", W+"grpc_query.go"), ("query-time period increment", W+"delegation.go")],
     ["gRPC query results", "withdrawals on a branch"])
V = "x/liquidvesting/"
prop("C08", "Burning locked tokens takes exactly what was asked, from the named user, once",
     "A burn requested by an authorised burner is accepted exactly when the user's liquid and restaked locked tokens cover it in every denom. It burns the liquid part at once, undelegates exactly the rest out of the user's own delegations, and burns that rest in the first block at or after the completion of the undelegation, before the user can touch it. Nothing else of the user's or of anybody's is taken, nothing is burned twice, and the block in which it is completed never fails.",
     "every interleaving of burns, delegations, undelegations, status and unbonding period changes and blocks over two users, two denoms and three kinds of target",
     "The burn spans balances, delegations, the unbonding queue and the burn queue; tests burn once from a fixed state.",
     [L+"burn.go", L+"end_blocker.go", R+"alias_functions.go"],
     [("burning out of delegations", R+"alias_functions.go"), ("burn queue", L+"burn.go"), ("completion in the end blocker", L+"end_blocker.go")],
     ["bank balances and supply after each message and block", "delegations and unbonding delegations", "transaction results"], over=("histories", "schedules"))
prop("C21", "Locked tokens are minted and burned only by their authorised minters and burners",
     "The supply of every locked token is at all times exactly what authorised minters minted minus what authorised burners burned; only the addresses currently listed as minters can mint, only those listed as burners can burn, and only governance changes the lists, to valid values. Tokens that are already locked representations cannot be locked again.",
     "every sequence of mints, burns, role changes, restaking and blocks by authorised and unauthorised senders with valid and invalid amounts",
     "Authorisation must hold for every sender and history of role changes, not for the sampled ones.",
     [L+"mint.go", L+"burn.go", L+"msg_server.go", L+"params.go", V+"types/params.go", V+"types/denom.go"],
     [("minting", L+"mint.go"), ("burning", L+"burn.go"), ("parameters", L+"params.go")],
     ["supply", "balances", "transaction results"], over=("inputs", "histories"))
prop("C22", "Locked tokens cannot be transferred",
     "No message moves a locked token from its holder to another holder: it can only go to the escrow of an existing restaking target and back, or to the liquid vesting module. In every reachable state locked tokens are held only by those they were minted to, by restaking targets and by the module. Other tokens are not restricted.",
     "every sequence of sends, multi-sends, community pool deposits, vesting account creations, registration fees, IBC receipts, restaking operations and blocks",
     "The restriction must hold on every route by which coins move, in every state of the targets.",
     [L+"send_restriction.go", "app/keepers/keepers.go", "x/operators/keeper/alias_functions.go", "x/services/keeper/alias_functions.go"],
     [("send restriction", L+"send_restriction.go"), ("registration of the restriction", "app/keepers/keepers.go")],
     ["all bank balances in every state", "transaction results"])
prop("C23", "Restaked locked tokens are covered by the insurance fund",
     "In every reachable state (as long as governance does not raise the percentage afterwards) the insurance fund of every user covers, per denom, the insurance percentage, rounded up, of all the locked tokens he has restaked or is unbonding. A delegation of locked tokens or a fund withdrawal is accepted exactly when this remains true.",
     "every sequence of deposits, withdrawals, delegations and undelegations to all kinds of target, burns, percentage changes and blocks over several denoms",
     "Coverage sums over all targets and pending undelegations; a forgotten one shows only after particular histories.",
     [L+"restake_restriction.go", L+"insurance_fund.go", L+"alias_functions.go", V+"types/models.go"],
     [("restake restriction", L+"restake_restriction.go"), ("withdrawal check", L+"insurance_fund.go"), ("active locked tokens", L+"alias_functions.go")],
     ["fund balances, delegations and unbonding delegations in every state", "transaction results"])
prop("C24", "Insurance deposits are credited exactly, and only from trusted sources",
     "An ICS20 packet whose memo asks for an insurance deposit is acknowledged positively exactly when its sender and channel are trusted, its receiver is the module account and the deposits are well formed, not negative and add up to the received amount; then each depositor is credited exactly his amount in the denom the chain receives (its own denom when the tokens return). Otherwise nothing is credited and no token moves. Packets without such a memo are ordinary transfers.",
     "every combination of sender, channel, receiver, memo form, denom (foreign, returning, returning through another channel, locked-looking) and deposit list, under every history of parameters, deposits and withdrawals",
     "The packet comes from another chain, so every combination must be handled; tests try a few.",
     [L+"ibc.go", V+"ibc_module.go", V+"types/ibc_hooks.go", "utils/ibc.go"],
     [("IBC middleware", V+"ibc_module.go"), ("deposit handling", L+"ibc.go")],
     ["acknowledgements", "fund balances", "bank balances"], over=("inputs", "histories"))
prop("C25", "Insurance funds are fully held, and reported and paid back exactly",
     "The module account always holds at least the sum of all insurance funds. A withdrawal pays exactly its amount to the owner of the fund, who is the only one who can withdraw from it. The queries report every fund's balance and the part in use (the requirement, up to the balance), the amount that can be restaked, the total and the parameters as they are.",
     "every sequence of deposits, withdrawals, mints, burns, gifts to the module account, delegations and blocks",
     "Solvency must survive burning through the same module account and gifts to it.",
     [L+"insurance_fund.go", L+"grpc_query.go", L+"msg_server.go", L+"burn.go", L+"mint.go"],
     [("fund accounting", L+"insurance_fund.go"), ("queries", L+"grpc_query.go")],
     ["fund records and module balance in every state", "gRPC query results", "balances after withdrawals"])
O = "x/operators/keeper/"
prop("C26", "No reachable state makes the beginning or the end of a block fail",
     "In every reachable state, whatever transactions were accepted before, the begin and end blockers of the operators, services, pools, restaking, rewards and liquid vesting modules complete without error or panic: no user, operator, service or plan can halt the chain.",
     "every interleaving of 39 operations over all modules, of 26 operations with locked tokens, of extreme amounts, weights, prices and exponents, and of deletions of targets that are still referenced, with short and long blocks",
     "A halt needs one unlucky combination of states of several modules at a block boundary; tests run each blocker from a prepared state.",
     [W+"abci.go", W+"allocation.go", "x/operators/abci.go", R+"end_blocker.go", L+"end_blocker.go", W+"restaking_hooks.go", L+"burn.go"],
     [("allocation in the begin blocker", W+"allocation.go"), ("maturity queues", R+"end_blocker.go"), ("burn queue", L+"end_blocker.go")],
     ["errors and panics of the begin and end blockers"], over=("histories", "inputs"))
prop("C27", "Exporting and importing the genesis state loses nothing and changes no behaviour",
     "In every reachable state, the exported genesis state of every module is valid, can be imported, exports again to the same state, moves no tokens, breaks no registered invariant, and the imported chain answers every further operation and block exactly as the original one.",
     "every reachable state of three scenarios within the bounds, and from each of them every continuation of a list of operations and blocks",
     "A record missing from the export shows only in states that contain it and only in what happens afterwards; tests round-trip hand-written states and compare the records they know of.",
     [W+"genesis.go", R+"genesis.go", O+"genesis.go", "x/services/keeper/genesis.go", "x/pools/keeper/genesis.go", "x/assets/keeper/genesis.go", L+"genesis.go"],
     [("export and import of rewards", W+"genesis.go"), ("export and import of restaking", R+"genesis.go"), ("order of import", "app/modules.go")],
     ["exported genesis states", "bank balances", "results of the continuations"])
prop("C30", "Only accounts with enough stake can vote, through any kind of transaction",
     "A transaction containing a governance vote of any kind (v1, v1beta1, weighted or not), directly or nested in authz executions at any depth, passes the ante handler exactly when every voter has at least the minimum stake over the first hundred of his delegations; other transactions are not affected.",
     "every combination of stakes around the minimum over three validators with different exchange rates; every transaction of up to two or three messages over the vote kinds, voters and nestings",
     "A spam filter with one unguarded wrapper guards nothing; tests try single messages.",
     ["ante/gov_vote_ante.go", "ante/ante.go"],
     [("vote decorator", "ante/gov_vote_ante.go")],
     ["result of the real ante handler on signed and encoded transactions"], over=("inputs",))
prop("C31", "Only software upgrades can be proposed as expedited, through any transaction",
     "A transaction that submits an expedited proposal, directly or nested in authz executions at any depth, passes the ante handler exactly when all the messages of the proposal are on the list of allowed ones (software upgrade and its cancellation) and there is at least one; normal proposals and other transactions are not affected.",
     "every transaction of up to two or three messages over proposals with every list of up to three messages out of eight kinds, and all nestings",
     "The list must hold on every wrapper and for every position in the proposal.",
     ["ante/gov_expedited_ante.go", "ante/ante.go"],
     [("expedited proposals decorator", "ante/gov_expedited_ante.go")],
     ["result of the real ante handler on signed and encoded transactions"], over=("inputs",))
prop("C35", "The registered invariants hold in every state and catch planted corruption",
     "Every invariant registered by the modules holds in every reachable state, so that an invariant check never halts a healthy chain; and each notices the corruption it is there for: missing bonded tokens or rewards, shares that do not add up, empty or negative delegations, references to missing targets, invalid targets, wrong identifiers and reference counts.",
     "every reachable state within the bounds; in each of them every planted corruption of every record",
     "An invariant that is too strict halts the chain, one that is too weak guards nothing; tests try a few states of each.",
     [R+"invariants.go", W+"invariants.go", O+"invariants.go", "x/services/keeper/invariants.go", "x/pools/keeper/invariants.go"],
     [("restaking invariants", R+"invariants.go"), ("rewards invariants", W+"invariants.go")],
     ["results of the registered invariants on reachable and corrupted states"])
A = "x/assets/keeper/"
prop("C28", "The assets registry maps every denom to one asset, and its queries are exact",
     "Every denom has at most one registered asset, the one given by the last accepted registration and not deregistered since. Only governance registers (a valid denom, a ticker of at most ten letters or digits, an exponent of at most 36) and deregisters (a registered denom); anything else is refused and changes nothing. The queries by denom, by ticker and of all assets, over all pages, answer exactly the registered assets.",
     "every sequence of registrations, re-registrations with other tickers and exponents, and deregistrations of four denoms sharing tickers, ending in the fixpoint of all reachable states",
     "The ticker index is kept apart from the assets; it goes stale only after re-registrations in particular orders.",
     [A+"assets.go", A+"msg_server.go", A+"grpc_query.go", "x/assets/types/models.go"],
     [("assets and ticker index", A+"assets.go"), ("ticker and exponent validation", "x/assets/types/models.go")],
     ["gRPC query results", "transaction results"])
prop("C29", "Only governance sends its messages; every message is signed by its actor",
     "Every message of the application with an authority is accepted from the governance module account (when otherwise valid) and refused from any other account, module account or malformed address, without changing the state. The only signer of each message of the chain's own modules is the account it acts for.",
     "every message with an authority registered in the application x every kind of other sender; every own message x sender",
     "One message wired to the wrong authority or field is a takeover; tests check the authority of the messages they know of.",
     ["app/keepers/keepers.go", "x/services/keeper/msg_server.go", R+"msg_server.go", W+"msg_server.go", A+"msg_server.go", "x/operators/keeper/msg_server.go", L+"msg_server.go"],
     [("authority given to each keeper", "app/keepers/keepers.go"), ("authority checks", R+"msg_server.go")],
     ["results of the message handlers reached through the router", "stores before and after", "signers derived by the codec"], over=("inputs",))
prop("C32", "Arithmetic on rewards by pool and service, and on shares, is exact",
     "Sums, differences, intersections, truncations and lookups of rewards by pool and by service are exact component by component, never change their operands and are canonical (sorted, no zero, no empty pool); a subtraction fails exactly when a component would become negative. Tokens added to a pool, operator or service get shares at the current rate and shares are worth and paid tokens at that rate, the last share getting the rest, without touching other denoms. The comparisons of coins by denom mean what they say.",
     "all pairs of values over five or six components with three amounts each; all sequences of two deposits and a redemption at five exchange rates; all pairs of coin lists over three denoms and four amounts",
     "Which components are present on each side decides the paths through the merge loops; tests try some shapes.",
     ["x/rewards/types/dec_pool.go", "x/rewards/types/service_pool.go", "x/operators/types/models.go", "x/services/types/models.go", "x/pools/types/models.go", "utils/restaking.go", "utils/coins.go"],
     [("merging of pools", "x/rewards/types/dec_pool.go"), ("share issuance", "x/operators/types/models.go")],
     ["returned values", "operands after the call"], over=("inputs",))
prop("C34", "Records of different accounts and targets never mix, however spelled",
     "Stakes, undelegations, rewards, preferences, insurance and relations are kept per account and per target: an operation on one never changes those of another, whatever the target numbers (neighbouring numbers, numbers one or more bytes long, numbers shared by an operator, a service and a pool), the denoms (one being the beginning of another) and the account addresses (one being the beginning of another). One account is one user in all of them, whichever way its address is spelled.",
     "every sequence of delegations, undelegations, preference changes, claims, deposits, withdrawals and burns mixing both spellings of an address; of stakes and of relations of targets with neighbouring numbers across one and two bytes",
     "Store keys concatenate strings and numbers; tests use targets 1 and 2, and lower case addresses.",
     [R+"msg_server.go", "x/restaking/types/keys.go", "x/operators/types/keys.go", "x/services/types/keys.go", "x/pools/types/keys.go", W+"keeper.go", L+"insurance_fund.go", L+"ibc.go"],
     [("store keys", "x/restaking/types/keys.go"), ("identification of the user", R+"msg_server.go")],
     ["every record and balance, compared with the reference model after every message"])
prop("C33", "Nodes executing the same blocks commit to the same state and results",
     "Executing the same transaction, block, genesis import or export on the same state gives the same committed stores, result codes, response data, gas and validator updates on every node: whatever the order in which the runtime iterates over maps, the clock and random numbers of the machine, what the process executed before, and whether it was restarted.",
     "every operation in every reachable state of four scenarios within the bounds, under several orders of all maps, several clocks and on two instances of the application with different pasts",
     "A node that disagrees halts the chain; tests run once, in one process, on one machine, with one order of maps.",
     [W+"allocation.go", R+"alias_functions.go", R+"end_blocker.go", W+"hooks.go", "app/app.go", "app/genesis.go", "x/assets/keeper/assets.go"],
     [("maps in distribution of rewards", W+"allocation.go"), ("maps in exported lists", R+"alias_functions.go"), ("maps in the end blocker", R+"end_blocker.go")],
     ["hash of every committed store", "result codes, data and gas", "exported genesis state"], over=("histories", "schedules", "configurations"))
prop("C37", "Only properly signed and paid transactions take effect, entirely or not",
     "A transaction changes the state only if each signer signed exactly it, for this chain, with his own key and his current account number and sequence, before its timeout height, with a memo within the limit, enough gas, and a fee that its payer (with an allowance, if a granter) can pay and that reaches the current minimum gas price in one accepted denom. Then it consumes exactly one sequence number per signer and at most the fee offered, and its messages take effect all together or, if one fails or the gas runs out, not at all. A refused transaction changes nothing. Admission to the mempool accepts what a block would accept.",
     "every single fault and every pair of faults in signatures, fees, gas, memo and timeout, for every kind of message; every gas limit up to what is needed; every block of up to three (four) transactions out of twelve; three configurations of the fee market",
     "The order of the decorators and what is committed on each way out decide this; the tests of the repository call decorators one at a time.",
     ["ante/ante.go", "app/app.go", "app/post.go"],
     [("chain of decorators", "ante/ante.go"), ("fee checker and handlers of the application", "app/app.go")],
     ["results of FinalizeBlock and CheckTx", "every module's state and all balances after the block"], over=("inputs", "configurations", "histories"))
prop("C38", "Restarts, crashes and other requests do not change what blocks do",
     "The result of a block and the application hash depend only on the committed history: not on whether the node was restarted, crashed between executing and committing a block or at any write of a commit and re-executed it, nor on transactions checked, simulated or rechecked, queries answered or proposals prepared and processed in between.",
     "every history of blocks of up to two (three) operations over every kind of message of the chain, every crash point within it, and every kind of request between the steps of every block",
     "State kept in memory by a keeper, a store key missing among the persistent ones, or a check writing into the state shows only when a node restarts or serves requests at the right moment; tests never restart.",
     ["app/app.go", "app/keepers/keepers.go", "app/keepers/keys.go", "app/modules.go"],
     [("construction and loading of the application", "app/app.go"), ("stores of the keepers", "app/keepers/keepers.go")],
     ["application hash", "results of every transaction, events of every block", "contents of every store after the restart"], over=("crash_points", "histories", "schedules"))
prop("C39", "A chain restarted from an export goes on as the exported one",
     "The export of the application (also for height zero, keeping all or some validators, and of single modules) changes nothing in the node and is the same when repeated. A chain started from it holds the same state, balances and (kept) validators, and every later block and transaction has the same results and effects as on the exported chain.",
     "every history of one (two) operations over every kind of message, followed by every operation and block, for exports at the current height and for height zero",
     "Imports are tested module by module with hand-written states; what is lost between modules, or tied to heights and identifiers, shows only when a restarted chain goes on.",
     ["app/export.go", "app/genesis.go", "app/modules.go", W+"genesis.go", R+"genesis.go", "x/pools/keeper/genesis.go", "x/operators/keeper/genesis.go", "x/services/keeper/genesis.go", L+"genesis.go"],
     [("export of the application", "app/export.go"), ("order of export and import", "app/modules.go")],
     ["exported genesis states of all modules", "results of FinalizeBlock on both chains"], over=("histories", "configurations"))
prop("C40", "Genesis states that contradict themselves are refused",
     "No genesis state is accepted whose targets, delegations, relations, preferences, plans, parameters, funds or queued payments have a malformed account or denom, a zero identifier, an unspecified status or type, a missing completion time, a negative or excessive amount or rate, the same operator, service, plan, relation list, parameters or weight twice, an unbonding operator that is missing or not inactivating, insurance funds or rewards that the module accounts do not hold, insurance that does not cover, or a queued burn without an unbonding. What a chain exports is accepted; neither the order of its records nor the repetition of an identical delegation, pool, asset or preference changes the state it describes.",
     "every single flaw at every place (every pair of positions for repetitions) of the genesis states exported from reachable states",
     "Hand-written tests try one flaw each, in the first record; a flaw in the second record or between the second and third is not looked for.",
     ["x/operators/types/genesis.go", "x/services/types/genesis.go", "x/restaking/types/genesis.go", "x/rewards/types/genesis.go", "x/rewards/types/models.go", "x/pools/types/genesis.go", "x/liquidvesting/types/genesis.go", "x/assets/types/genesis.go", L+"genesis.go", W+"genesis.go", "utils/slices.go"],
     [("validation of genesis states", "x/operators/types/genesis.go"), ("detection of duplicates", "utils/slices.go"), ("checks of the holdings", L+"genesis.go")],
     ["results of validating and initializing genesis states", "export after initialization"], over=("inputs",))
prop("C41", "Prices change only by what two thirds of the stake vote for",
     "A proposal is accepted exactly if its first transaction holds the votes of the validators of the last block as committed, with more than two thirds of their power, every counted extension signed by its validator for that block, round and chain, and usable. Its block then sets the price of each pair for which validators with two thirds of the bonded stake gave a valid price to the stake-weighted median of these, at the block's time and height, before rewards are valued, and no other price; nothing but such votes changes prices. What a node proposes from valid votes is accepted, within the size allowed, without the unusable ones; a node votes for exactly the prices of its oracle, in every round; the votes of others are accepted exactly if usable.",
     "every assignment of ten kinds of ballots to four validators, every single fault at every vote, every size of a proposal, every history of up to two (three) blocks over six (eight) commits with undecided proposals, other votes and restarts in between, every history of two rounds per block of a node with an oracle",
     "No test of the repository runs a block with votes; the handlers, codecs and price strategies that the application combines must agree with each other at every height and round.",
     ["app/abci/abci_extensions.go", "app/app.go", "app/keepers/keepers.go", "app/modules.go"],
     [("handlers of proposals, votes and blocks", "app/abci/abci_extensions.go"), ("registration of the handlers", "app/app.go")],
     ["results of ProcessProposal, PrepareProposal, ExtendVote and VerifyVoteExtension", "prices, and all stores and balances after FinalizeBlock"], over=("inputs", "histories", "schedules"))
prop("C42", "A contract acts only as itself, and is told exactly what it may ask",
     "In every reachable state, a message dispatched by a contract has exactly the effect of the same message signed by the contract's address; one that needs another signer, or governance, fails and changes nothing. Lists of messages are executed in order, all or none; submessages whose failure the contract awaits fail alone. The five queries granted to contracts (currency pairs, price, prices, an operator, the operators of a service) are answered as they are to clients at that moment, with the same JSON and for the same requests; every other query is refused.",
     "every state within one (two) operations of a rich state of both worlds, every operation in six roles of the contract, all pairs with their neighbours, every routed query",
     "The repository has no test in which a contract sends a message or a query.",
     ["app/keepers/keepers.go", R+"msg_server.go", L+"msg_server.go", "x/operators/keeper/msg_server.go", "x/services/keeper/msg_server.go"],
     [("queries granted to contracts", "app/keepers/keepers.go"), ("checks of the signers", R+"msg_server.go")],
     ["results of MsgExecuteContract and of smart queries", "all stores"], over=("inputs", "histories"))
prop("C43", "Clients served during a block change neither the block nor the answers",
     "Whatever queries and simulations a node serves at the same time, on other goroutines, the execution of a block has the same results, gas and state as alone, and every query, simulation and query of a contract the same answer as alone.",
     "every schedule with one interruption of any of 75 pieces of work at any statement while all others are done, and every schedule with two for the short ones, in two (three) states",
     "Interference needs an interruption at one point of the code; the tests are sequential.",
     ["app/keepers/keepers.go"]+[f"x/{m}/keeper/keeper.go" for m in ("restaking", "rewards", "liquidvesting", "assets", "pools", "operators", "services")],
     [("queries of contracts", "app/keepers/keepers.go"), ("keepers shared by the goroutines", R+"keeper.go")],
     ["results, gas and stores of the operations of a block", "answers of queries and simulations"], over=("schedules",))
prop("C44", "A node restored from a snapshot goes on like the others",
     "In every reachable state, a node takes a snapshot of its last block, and a new node accepts every chunk of it, reports the same height and application hash, and has the same contents in every store and the code of every contract. From there, restarted or not, every block has the same results and application hash as on the node that executed the whole history, contracts with pinned code included.",
     "every history of one (two) operations over every kind of message, followed by every operation and block, with contracts and with locked tokens",
     "Nodes that join by state sync execute none of the history; the repository has no test that restores one.",
     ["app/app.go", "app/keepers/keepers.go", "app/keepers/keys.go"],
     [("extensions of the snapshots", "app/app.go"), ("stores of the keepers", "app/keepers/keepers.go")],
     ["contents of every store", "results of FinalizeBlock on both nodes, application hash"], over=("histories", "configurations"))
