LT='deterministic simulation: clients, attacker, lossy network, leader order, forks and aborts around the real on-chain program and token program, '
LN=('Seeded search, not proof. Runs the real instruction entry point, the real anchor account checks and the real spl-token processor inside a simulated ledger; system program, rent and transaction commit are stubs that follow the runtime\'s rules. The program has no swap instruction, so pool price and fee growth stay as initialised.')
IN=S+'instructions/'
LED=[IN+'deposit.rs',IN+'withdraw.rs',IN+'manage_position.rs',IN+'manage_tick.rs',IN+'initialize_pool.rs',IN+'manage_bitmap.rs',IN+'manage_fee.rs',S+'state/pool_state.rs',S+'state/tick_state.rs',S+'state/position_state.rs',DM]
LH='every interleaving of transactions of honest and hostile clients over one or several pools - lost, duplicated, delayed, reordered, retried, cut off half-way, undone by forks - for every tick, range and amount'
LTEST='The only tests of the on-chain program are scripts for a live validator with one provider and one range; '
B=['histories','schedules','crash_points','inputs','configurations','fault_sequences']
prop('L01','On-chain ticks and active liquidity follow the positions',
 'After every committed transaction the gross and net liquidity recorded at each tick of a pool are exactly those of the positions that start or end there, and the pool\'s active liquidity is exactly that of the positions whose range contains its current tick. A deposit or withdrawal changes one position, its two ticks and the active liquidity, and nothing else.',
 B,LH,LTEST+'they never compare ticks and pool with the positions, nor use a range that starts or ends at the current tick.',
 LED,[('position and tick updates','instructions/manage_position.rs update_position; instructions/manage_tick.rs update_tick'),('active liquidity','deposit.rs / withdraw.rs handle')],
 state=[('tick records','gross and net liquidity per tick account','state/tick_state.rs'),('active liquidity','pool_global_state.liquidity','state/pool_state.rs')],
 observe=['pool, tick and position accounts after each transaction'],note=LN,tech=LT+'global invariant over all accounts after every commit')
prop('L02','On-chain tokens are conserved and events report what moved',
 'A deposit or withdrawal moves tokens only between the provider and the pool\'s two vaults, creating and destroying none, and the LP supply always equals the LP tokens held. The event it emits states exactly the amounts of both tokens and of LP tokens that moved, and an initialisation moves nothing.',
 B,LH,LTEST+'they print balances but do not reconcile them.',
 LED,[('token transfers, mint and burn','deposit.rs / withdraw.rs handle'),('events','events.rs: LiquidityAdded, LiquidityRemoved')],
 observe=['token balances, mint supplies and emitted events'],note=LN,tech=LT+'balance sheet reconciled with events after every commit')
prop('L03','On-chain nobody takes out more than was paid in',
 'Liquidity is never credited for less than its value in both tokens, and a withdrawal never pays more than the value of the liquidity it removes. Over any history no position pays out more of either token than was paid into it, and the vaults always cover what all positions stand for.',
 B,LH,LTEST+'rounding, repeated small deposits and partial withdrawals of several providers are not reached.',
 LED,[('amounts for liquidity and their rounding','deposit.rs / withdraw.rs handle; cl_math.rs x_from_l_rp_rng, y_from_l_rp_rng')],
 state=[('vault balances','tokens held for the positions','token_x_vault, token_y_vault')],
 observe=['vault and user balances'],note=LN,tech=LT+'per-position cash-flow ledger and solvency against a double-double reference')
prop('L04','On-chain only the owner can touch a position or its tokens',
 'No transaction, whatever accounts, arguments and instruction mix an attacker passes, changes a position, takes tokens or LP tokens or spends from a vault unless the owner of what is taken has signed and the accounts are the pool\'s own. State is only ever kept in the program\'s own addresses, and token accounts and mints never change hands. A refused transaction has no effect.',
 B,LH+', with any account replaced by a look-alike, a forgery, another pool\'s or another user\'s account',LTEST+'they only send well-formed transactions.',
 LED,[('account constraints','#[derive(Accounts)] structs of every instruction')],
 observe=['every account after every transaction, against the set of signers'],note=LN,tech=LT+'attacker model that bends servable requests, with authorization judged on the account differences')
prop('L05','On-chain a deposit is fair to the depositor',
 'A deposit takes no more of either token than was offered and no more than one unit above what the credited liquidity is worth at the pool\'s price. It credits all the liquidity the offer supports, and mints one LP token per whole unit of it.',
 B,LH,LTEST+'one-sided ranges, ranges that touch the price, very unequal and very small offers are not sampled.',
 LED,[('liquidity for an offer','deposit.rs handle; cl_math.rs liq_from_x_y_rp_rng'),('LP tokens','deposit.rs mint_to')],
 observe=['amounts debited, position liquidity and LP tokens'],note=LN,tech=LT+'refinement against a double-double reference at every deposit')
prop('L06','On-chain everything is initialised exactly once and correctly',
 'A pool, tick, position, bitmap or vault can be created once, starts empty at the requested price, tick or range, and belongs to the pool it names, also when somebody sent lamports to its address before. No later transaction can re-create or reset it, and no pool opens over LP tokens that somebody else can mint.',
 B,LH,LTEST+'repeated, concurrent, hostile and pre-funded initialisations are not tried.',
 LED,[('init constraints and handlers','initialize_pool.rs, manage_bitmap.rs, manage_tick.rs initialize_tick, manage_position.rs create_position')],
 observe=['new accounts and refused initialisations'],note=LN,tech=LT+'every newly created account checked against the request')
prop('L07','On-chain a withdrawal pays the provider what the liquidity is worth',
 'A withdrawal pays the provider who signed it, in both tokens, what the removed liquidity is worth at the pool\'s price, less at most one unit of each. Everything that leaves the vaults reaches that provider.',
 B,LH,LTEST+'they compare one full withdrawal only.',
 LED,[('amounts for liquidity','withdraw.rs handle; cl_math.rs')],
 observe=['vault and provider balances'],note=LN,tech=LT+'refinement against a double-double reference at every withdrawal')
prop('L08','On-chain no funds get locked',
 'A withdrawal that the position and the provider\'s LP tokens cover is served in every reachable state. Once faults and attacks stop, all providers can take out everything, in any order, within a bounded number of transactions, and only fractions of LP tokens remain.',
 B,LH+', followed by the exit of all providers in any order',LTEST+'they never reach the states in which a withdrawal can get stuck.',
 LED,[('withdraw','withdraw.rs handle; manage_position.rs; manage_tick.rs')],
 observe=['outcome of withdrawals'],note=LN,tech=LT+'liveness phase after faults stop: every provider leaves in a seeded order')
prop('L09','On-chain pools are isolated from each other',
 'A transaction on one pool never changes the state, vaults, LP supply or positions of another, even when the pools share tokens, ticks and providers and even when the transaction mixes accounts of several pools.',
 B,LH,LTEST+'they run a single pool.',
 LED,[('account constraints tie every account to the pool','seeds and constraints in deposit.rs, withdraw.rs, manage_*.rs')],
 observe=['accounts of all pools after every transaction'],note=LN,tech=LT+'several pools with shared tokens and ticks, account differences attributed to pools')
prop('L10','On-chain legitimate requests are served',
 'A first initialisation, an opening of a position between existing ticks and a covered deposit in the supported range succeed in every reachable state, whatever other clients did before, also when paid for by somebody else or batched with others in one transaction.',
 B,LH,LTEST+'only the first request of each kind on a fresh pool is tried.',
 LED,[('all instructions','lib.rs and instructions/*')],
 observe=['outcome of well-formed requests'],note=LN,tech=LT+'each refusal of an honest request is re-executed and judged against the preconditions')
prop('L11','On-chain order independence and determinism',
 'Requests of different providers pending at the same time leave the same pool, ticks, positions and balances in whichever order the leader takes them. Re-executing the transactions of an abandoned fork from the same state gives the same accounts bit for bit.',
 B,LH,LTEST+'they submit one request at a time and have no forks.',
 LED,[('deposit and withdraw update additive state','deposit.rs, withdraw.rs, manage_position.rs, manage_tick.rs')],
 observe=['full account state of both executions'],note=LN+' The placeholder bits that deposits and withdrawals write into the bitmap are left out of the order comparison.',tech=LT+'both orders executed on copies of the ledger; forks undone and replayed')
prop('L12','On-chain pool configuration and identities never change',
 'After its initialisation no transaction changes a pool\'s price, tick, fee growth, mints, vaults, authority or number scales. A tick or position keeps its pool, owner, range and number scales for ever.',
 B,LH,LTEST+'nothing re-reads the configuration after operations.',
 LED,[('handlers only update liquidity','deposit.rs, withdraw.rs, manage_tick.rs, manage_position.rs')],
 observe=['pool, tick and position accounts'],note=LN,tech=LT+'byte comparison of the configuration after every commit')
prop('L13','On-chain LP tokens and liquidity stay tied to each other',
 'A withdrawal removes exactly as much liquidity as LP tokens are burned, never more than the position holds, and only for LP tokens actually given. In every reachable state all LP tokens of a pool are backed by liquidity of its positions, which exceeds them by less than one unit per deposit.',
 B,LH,LTEST+'they never withdraw more than was deposited, nor with transferred LP tokens.',
 LED,[('position liquidity cannot go negative','manage_position.rs update_position'),('burn and mint of LP tokens','deposit.rs, withdraw.rs')],
 observe=['LP supply, LP balances, position liquidity'],note=LN,tech=LT+'over-withdrawals, transferred LP tokens and huge amounts, with backing checked after every commit')
prop('B01','The tick bitmap is an exact set of ticks',
 'A tick is reported active exactly when it was activated and not unset since, whatever other ticks did in between. Asking for the next active tick below or above a tick, inside the map, gives the nearest active one strictly in that direction, or nothing when there is none. Aborted transactions and restarts leave the map as last committed.',
 ['histories','inputs','crash_points','fault_sequences'],'every sequence of activations, unsettings and look-ups over all ticks of the map, with transactions aborted half-way and restarts','The one test sets three ticks and its look-ups are commented out.',
 [S+'state/tick_bitmap.rs'],[('bit operations','PoolTickBitmap: activate_tick, unset_tick, tick_is_active, get_next_tick'),('search inside a byte','byte_get_next_tick')],
 state=[('tick map','one bit per tick','PoolTickBitmap.tick_map')],observe=['results of look-ups; account bytes'],
 note='Seeded search, not proof. Real bitmap behind the real zero-copy account loader; ticks 0 to 79999 (negative ticks are documented but not implemented). Driven directly because the deployed instructions only write placeholder ticks.',
 tech='deterministic simulation: providers and traders over a stored bitmap account with aborted transactions and crash/reload, compared with an ordered set after every transaction')
