ET='deterministic simulation: seeded schedules and faults around the real engines, '
EN=('Seeded search, not proof: a violation is only found if a generated run reaches it. Trusts the reference model in double-double arithmetic (written from the published formulas), the noise bounds derived from each number format, and the exemptions counted in the evidence (exempt.*). Network, clients, oracle, clock and journal are simulated; both pool engines run real code.')
A=['histories','schedules','crash_points','inputs','configurations','fault_sequences']
prop('E01','Active liquidity and tick/position registry follow the open positions',
 'At every moment the pool\'s active liquidity equals the sum of the liquidity of the open positions whose range contains the current tick, and it is never negative. The set of initialised ticks is exactly the set of ends of open positions, and a position disappears exactly when its liquidity reaches zero. Adding liquidity and removing it at once leaves no trace beyond rounding.',
 A,HIST,TEST+'none of them compares active liquidity with the positions after crossing ticks in both directions, after partial exits, or after shared range ends.',
 ENG,[('deposit/withdraw adjust active liquidity and tick records','cl_pool/mod.rs, cl_pool_float/mod.rs: deposit, withdraw, set_tick, unset_tick'),('crossing a tick applies its net liquidity','cross_tick / cross_*_tick in both engines')],
 state=[('active liquidity','liquidity in range at the current tick','global_state'),('tick records','net and gross liquidity per initialised tick','active ticks map')],
 observe=['public pool fields after each operation'],note=EN,tech=ET+'active liquidity and registry compared with the positions after every event')
prop('E02','Deposits and withdrawals move exactly the tokens their liquidity stands for',
 'A deposit never takes more of either token than was offered, credits the liquidity that the offer supports, and takes the amounts that this liquidity stands for at the current price. A withdrawal returns the amounts its liquidity stands for at the current price. Depositing and withdrawing at once never gains either token.',
 A,HIST,TEST+'rounding direction, ranges that touch the price, one-sided ranges and very narrow or very wide ranges are not sampled.',
 ENG,[('liquidity for offered amounts','cl_math.rs: liq_from_x_y_rp_rng'),('amounts for liquidity','cl_math.rs: x_from_l_rp_rng, y_from_l_rp_rng'),('deposit/withdraw','cl_pool*/mod.rs')],
 observe=['amounts returned by deposit/withdraw; reserve differences'],note=EN,tech=ET+'amounts compared with a double-double reference at every deposit and withdrawal')
prop('E03','Tokens are conserved and reports match what moved',
 'For every swap the change of each reserve and each fee or adjustment pot equals what the swap reports as received, sent, charged and withheld, and no other balance changes. A swap never takes more than was given, and no reserve or pot is ever negative. Liquidity operations never move the price or the fee accumulators.',
 A,HIST,TEST+'they check reported totals of a few swaps, not that every balance moves by exactly what was reported in every segment of every swap.',
 ENG,[('execute_swap settles reserves and pots','cl_pool*/mod.rs: execute_swap_from_x/y'),('swap report','SwapResult / SwapPayload')],
 observe=['swap report, public reserves and pots'],note=EN,tech=ET+'ledger of balances kept by the simulator and reconciled after every event')
prop('E04','The pool is always solvent and every provider can leave',
 'At every moment the reserves cover what all open positions are entitled to at the current price, and the fee and adjustment pots cover what the positions are owed. Once clients stop trading, all providers can withdraw everything in any order, and each receives at least their entitlement up to rounding.',
 A,HIST+', followed by an exit of all providers in an arbitrary order','The tests never drain a pool: insolvency or a stuck last provider appears only after histories with crossings, partial fills and partial exits.',
 ENG,[('withdraw','cl_pool*/mod.rs: withdraw, round_to_reserve'),('swap segments keep the reserves on the curve','execute_swap_*')],
 observe=['public reserves and pots; outcome of the final exits'],note=EN,tech=ET+'solvency invariant after every event and a liveness phase in which every provider leaves')
prop('E05','Swaps execute at the price the curve prescribes',
 'For any liquidity landscape, the input consumed, the output paid, the end price and the average price of a swap are those of the constant-product curve of each liquidity segment it passes through, stopping exactly when the input or the liquidity is exhausted. Gaps without liquidity are skipped at no cost.',
 A,HIST,TEST+'segment boundaries, gaps, exact hits of a tick, exhaustion of liquidity and spacings above one are not reached by them.',
 ENG,[('goal price search and segment loop','cl_pool*/mod.rs: execute_swap_from_x / execute_swap_from_y'),('curve formulas','cl_math.rs: rpnew_from_dx, dx_from_drp, ...')],
 observe=['swap report; price and tick after the swap'],note=EN,tech=ET+'refinement against a reference swap in double-double arithmetic')
prop('E06','No free lunch for traders',
 'Without an intervening price change by others, trading there and back never gains a token, and cutting an order in pieces gives the same result as placing it whole. No trade pays better than the price it started at.',
 A,HIST+', with a round trip or a split order inserted at any point of the history','Such relations hold between executions; the tests only compare single executions with stored numbers.',
 ENG,[('swap rounding directions','cl_pool*/mod.rs and cl_math.rs'),('fee and adjustment','execute_swap_*')],
 observe=['swap reports of the forked executions'],note=EN,tech=ET+'round trips and split orders executed on forks of the live pool')
prop('E07','Trading fees are charged on input and shared pro rata',
 'Every swap pays the fee rate on the input it consumes, no more and no less, and the fee of each segment is credited to the positions in range there in proportion to liquidity. A position collects exactly the fees earned while it was open and in range, once, whatever operations others interleave; positions out of range and later arrivals get nothing of earlier fees.',
 A,HIST,TEST+'attribution through tick flips in both directions, positions opened at an already active tick, and partial exits are reached only by particular histories.',
 ENG,[('global fee growth and fee outside','update_fees, cross_tick, compute_latest_fee in cl_pool*/mod.rs'),('position checkpoint','set_position / withdraw')],
 state=[('fee growth','accumulated fee per unit of liquidity','global_state')],observe=['fee pots, fee growth, payouts on deposit and withdraw'],note=EN,tech=ET+'per-position entitlement ledger (simulated provider by provider) checked at every collection')
prop('E08','HMM adjustment follows the oracle rule and is shared pro rata',
 'The adjustment withheld from a swap\'s output is the one the HMM formula prescribes for the oracle price, and it is zero when the constant is zero, when no oracle price is given, or when the trade moves the price away from where the oracle rule applies. Withheld amounts are credited to positions in range in proportion to liquidity and collected once, like fees.',
 A,HIST+' and every sequence of oracle prices, including stale and jumping ones',TEST+'the oracle is constant in them, so a price on the other side of the oracle within one swap, stale readings and ties are not reached.',
 ENG,[('hmm adjusted price formulas','cl_pool*/mod.rs: compute_hmm_y / hmm_x (cl_math.rs)'),('hmm growth','update_fees / cross_tick')],
 observe=['swap report, adjustment pots, payouts'],note=EN+' HMM constants between 0 and 1 are outside the engines\' documented support and are not generated.',tech=ET+'adjustment compared with a double-double reference and per-position ledger')
prop('E09','Illegal requests are refused without effect',
 'A request that is not allowed - an empty or inverted range, a negative or nil amount, more liquidity than the position holds, a position the requester does not hold, a pool with a negative price, a negative fee rate or an HMM constant outside 0 to 2 - is refused, and in the floating-point engine also one with an amount or price that is not a number. A refused request leaves every observable of the pool as it was.',
 A,HIST+', with illegal requests at any point','The tests contain a few expected failures from fresh pools, none comparing the full state before and after, and none after a history.',
 ENG,[('request validation','cl_pool*/mod.rs: deposit, withdraw, execute_swap_*; cl_components.rs')],
 observe=['result of the request and the complete public state'],note=EN+' Refusal includes a panic; the state compared after it is the one recovered by the service.',tech=ET+'illegal requests injected between concurrent legal ones, full-state comparison')
prop('E10','Replaying the journal restores the same pool after any crash',
 'The outcome of a sequence of requests depends on the sequence and nothing else: rebuilding a pool from any durable prefix of its journal after a crash gives, bit for bit, the pool that executed that prefix. Hash seeds, addresses, clocks and refused requests in between play no role.',
 A,'every history, every crash point in it and every number of lost unsynced journal entries','Each test runs its script once in one process; hash iteration order and leftovers of refused operations differ only between executions.',
 ENG,[('operations read and write only pool state','cl_pool*/mod.rs'),('tick and position maps','cl_components.rs')],
 observe=['every public field and the debug image of the pool'],note=EN,tech=ET+'crash at arbitrary points, replay of the durable journal under different hash seeds, bit comparison')
prop('E11','Tick and price stay coherent',
 'The current price always lies within its current tick and inside the supported range, ticks that carry liquidity lie on the spacing grid, and ticks and prices convert monotonically. A sale of X never raises the price or the tick and a sale of Y never lowers them, and only swaps move them.',
 A,HIST,TEST+'off-by-one errors at exact tick boundaries, at partial fills and at the ends of the range need particular amounts after particular histories.',
 ENG,[('tick_to_rp, rp_to_tick','cl_math.rs'),('end tick of a swap','cl_pool*/mod.rs: execute_swap_*')],
 observe=['public tick and root price'],note=EN,tech=ET+'invariant after every event, including boundary-seeking trades')
prop('E12','Legitimate requests are served',
 'A deposit of positive amounts in a valid range, a withdrawal within the liquidity held and a swap for which liquidity exists are accepted, in every state the pool can reach, also right after crossings, partial fills, exits of other providers and recovery.',
 A,HIST,TEST+'a spurious refusal (an internal guard tripping on rounding noise) shows only in particular states.',
 ENG,[('internal guards','cl_pool*/mod.rs: assertions and error returns in deposit, withdraw, execute_swap_*')],
 observe=['result of each request'],note=EN+' Trades of dust size (a few last digits of the number format, enumerated by the exempt.* counters) are not claimed.',tech=ET+'liveness: every request the reference can serve must be served')
prop('E13','Requests of concurrent providers commute',
 'When the network delivers liquidity operations of different providers in either order, the pool ends in the same state up to rounding, and every later trade and collection gives the same result. No provider gains by being delivered first.',
 A,'every pair of liquidity operations issued concurrently at any point of every history','A property of pairs of executions; the tests run one order only.',
 ENG,[('tick records keep net and gross sums','cl_components.rs, set_tick/unset_tick'),('position checkpoint','set_position')],
 observe=['both orders on forks of the live pool, with later trades and collections'],note=EN,tech=ET+'both delivery orders executed on forks and compared, including later trades and exits')
prop('E14','The fixed-point and the floating-point engine agree',
 'Fed with the same requests in the same order, the two engines accept the same legal requests and agree on price, tick, active liquidity, reserves, fees and adjustments up to the accuracy of their number formats.',
 A,HIST,'The tests compare each engine with its own stored numbers; no test runs one request sequence through both.',
 ENG,[('twin implementations','cl_pool/mod.rs and cl_pool_float/mod.rs')],
 observe=['public state of both engines'],note=EN+' Comparison of a run stops where rounding legitimately decides differently (counted as exempt.engines).',tech=ET+'lock-step differential execution with a tracked error bound')
