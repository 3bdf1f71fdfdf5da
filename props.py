"""The properties: their text (properties.jsonl), the check of each (MANIFEST.json) and the harness entries that decide it.
`python3 tools/gen.py` writes properties.jsonl and MANIFEST.json from this file."""

PROPS = {}
NOT_APPLICABLE = {}
TECH = "symbolic execution of the contract's LLVM IR; SMT (z3/cvc5) decides every assertion; counterexamples replayed on the native build"
NOTE = ("Bounded: every assertion holds for all inputs inside the stated ranges, along every feasible path of the compiled contract code. "
        "Trusts rustc's LLVM IR for riscv64, the engine (validated on each run by replaying path models on the native build), z3/cvc5, "
        "and the harness's model of the chain (bank, token factory, cw20, message dispatch).")


def P(pid, title, statement, over, quant, why, files, mech, entries, bounds, assumptions=(), note=""):
    assert pid not in PROPS
    ents = []
    for e in entries:
        if isinstance(e, str):
            crate, entry, *cov = e.split()
            e = {"crate": crate, "entry": entry, "covers": cov}
        ents.append(e)
    PROPS[pid] = {
        "entries": ents, "bounds": bounds, "assumptions": list(assumptions), "note": note,
        "text": {"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
                 "why_tests_cant": why,
                 "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}},
    }


def E(crate, entry, *covers, **kw):
    return dict(crate=crate, entry=entry, covers=list(covers), **kw)


def NA(pid, title, statement, over, quant, why, files, mech, reason):
    NOT_APPLICABLE[pid] = {
        "reason": reason,
        "text": {"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
                 "why_tests_cant": why,
                 "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}},
    }


# ------------------------------------------------------------------ constant-product pair
XYK = ["contracts/pair/src/contract.rs"]
P("C01", "A constant-product swap never takes value from the pool",
  "Whatever the reserves, the amount offered and the fees, a swap leaves the pool with all it was paid, everything that leaves goes to the trader or the fee receivers, and the product of the reserves does not fall (up to the 18 decimals of price arithmetic). The trader is paid the constant-product amount less exactly the configured fee, and the fee receivers get their configured part of the fee, rounded in the pool's favour.",
  ["inputs", "configurations"], "all reserves, offers, total and maker fee rates, fee-sharing rates, both directions, native and cw20 assets",
  "Tests fix a handful of reserves, offers and fee rates; rounding and fee splitting can go wrong at any magnitude.",
  XYK, [("swap execution and fee split", "contracts/pair/src/contract.rs: swap"), ("curve arithmetic", "contracts/pair/src/contract.rs: compute_swap")],
  [E("h_pair", "xyk_swap", "swapped"), E("h_pair", "xyk_swap_cw20", "swapped"), E("h_pair", "xyk_fee_share", "swapped")],
  "One swap from an arbitrary state: reserves and offer 1..1e30 (native) or 1..1e24 (cw20, fee sharing), every total fee and maker fee 0..10000 bps, every fee share that the contract accepts. Spread limit at its maximum so that it does not cut inputs off.",
  ["The factory answers fee queries with the configured rates (stubbed with symbolic rates).", "The maximum spread is 50% in the entries that decide value conservation."])
P("C02", "Constant-product liquidity shares are never diluted",
  "A deposit mints shares worth no more than either deposited asset at the prevailing reserves and no fewer than the smaller side buys; a withdrawal burns exactly the shares paid in and pays no more than the proportional reserves. The first deposit mints the geometric mean and permanently locks the minimum liquidity in the pair.",
  ["inputs"], "all reserves, share supplies, deposits and withdrawn amounts",
  "Unit tests use a few round numbers; dilution shows up in rounding at unusual ratios of reserves, supply and deposit.",
  XYK, [("share minting", "contracts/pair/src/contract.rs: provide_liquidity, calculate_shares"), ("withdrawal", "contracts/pair/src/contract.rs: withdraw_liquidity, get_share_in_assets")],
  [E("h_pair", "xyk_provide", "provided"), E("h_pair", "xyk_provide_cw20", "provided"), E("h_pair", "xyk_provide_first", "provided"), E("h_pair", "xyk_withdraw", "withdrew")],
  "One deposit or withdrawal from an arbitrary state with two positive reserves and a positive supply; amounts up to 1e24 (first deposit: up to 1e30); both assets native, or one cw20.")
P("C03", "Constant-product pools respect every limit the user sets",
  "A swap that executes pays at least what the belief price (or the pool price) promises less the allowed spread, a deposit that executes keeps the pool ratio within the slippage tolerance and mints at least the asked-for minimum, and a withdrawal pays at least the asked-for amounts. Limits above one half are refused.",
  ["inputs"], "all reserves, amounts, spread limits, belief prices and tolerances",
  "The limits are inequalities over five free quantities; tests probe single points on one side of each.",
  XYK, [("spread check", "contracts/pair/src/contract.rs: assert_max_spread"), ("tolerance check", "contracts/pair/src/contract.rs: assert_slippage_tolerance"), ("withdrawal check", "packages/astroport/src/liquidity_manager / pair ensure_min_assets_to_receive")],
  [E("h_pair", "xyk_swap_limits", "swapped"), E("h_pair", "xyk_provide", "provided"), E("h_pair", "xyk_provide_cw20", "provided"), E("h_pair", "xyk_withdraw", "withdrew")],
  "Amounts to 1e24, spread limit 0..2 and belief price 0..1e6 as 18-decimal values or absent; zero fee in the spread entry; tolerance symbolic or absent.")
P("C04", "Constant-product simulations quote what execution does",
  "For any pool state, the return, commission and spread a swap simulation quotes are those a swap executed in that state yields, and the shares a deposit simulation quotes are those the deposit mints. A reverse simulation quotes an offer that (plus one unit of rounding) pays for the amount asked and does not overcharge.",
  ["inputs"], "all reserves, amounts and fee rates",
  "Tests compare a few quotes with literals; agreement between two separate code paths must hold at every point.",
  XYK, [("simulation queries", "contracts/pair/src/contract.rs: query_simulation, query_reverse_simulation, query_simulate_provide"), ("reverse curve arithmetic", "contracts/pair/src/contract.rs: compute_offer_amount")],
  [E("h_pair", "xyk_simulation", "swapped"), E("h_pair", "xyk_simulate_provide", "provided"), E("h_pair", "xyk_reverse", "quoted")],
  "Amounts up to 1e24 (reverse: 1e18, zero fee), all fee rates 0..10000 bps.")
P("C05", "Price accumulators and tracked balances follow the real reserves",
  "Between any two operations the cumulative prices grow by exactly the prevailing price times the elapsed time, so no operation can move the prices accumulated in the past. When balance tracking is on, the balances recorded for a block are the pair's real balances after the block's last operation.",
  ["inputs", "histories"], "all reserves, elapsed times and operations (swap, deposit, withdrawal)",
  "Manipulation resistance is a statement over every order and timing of operations; tests follow one schedule.",
  XYK + ["contracts/pair_concentrated/src/contract.rs"], [("accumulators", "contracts/pair/src/contract.rs: accumulate_prices"), ("tracking", "contracts/pair/src/contract.rs: BALANCES")],
  [E("h_pair", "xyk_twap", "operated"), E("h_pair", "xyk_tracking", "operated"), E("h_pcl", "pc_tracking", "operated")],
  "One operation of each kind from an arbitrary state, then a second time step; reserves up to 1e18, elapsed time up to 1e6 seconds.")
P("C06", "Constant-product pools act only for who may act and only when paid",
  "Only the factory's owner changes a pool's configuration, only a pool's own cw20 token can report a cw20 payment, and no swap or deposit executes unless exactly the stated amount was transferred with it.",
  ["inputs", "configurations"], "all senders of a set of roles, all stated and transferred amounts",
  "Tests check one wrong sender and one wrong amount for each path.",
  XYK, [("payment checks", "packages/astroport/src/asset.rs: assert_sent_native_token_balance, assert_coins_properly_sent"), ("authorisation", "contracts/pair/src/contract.rs: update_config, receive_cw20")],
  [E("h_pair", "xyk_access")],
  "Stated and transferred amounts 0..1e24; senders: owner, factory, user, token, pair itself.")

# ------------------------------------------------------------------ transmuter pair
TR = ["contracts/pair_transmuter/src/contract.rs", "contracts/pair_transmuter/src/utils.rs"]
P("C07", "Transmuter pools trade value for value and stay fully backed",
  "A transmuter swap pays exactly the value it was given, counting decimals and rounding down, takes it out of the asked asset only, and refuses when the pool does not hold enough or nothing would be paid. Deposits mint one share per unit of value, proportional and imbalanced withdrawals never pay more value than the shares they burn, and shares outstanding never exceed the value of the reserves.",
  ["inputs", "configurations"], "all reserves, offers and amounts in two- and three-asset pools with different decimals",
  "The crate's tests are few and use equal decimals and round amounts; rounding with mixed decimals can leak value in either direction.",
  TR, [("swap", "contracts/pair_transmuter/src/contract.rs: swap"), ("normalisation", "contracts/pair_transmuter/src/utils.rs: AssetExt"), ("imbalanced withdrawal", "contracts/pair_transmuter/src/contract.rs: withdraw_liquidity")],
  [E("h_transmuter", "trans_swap", "swapped"), E("h_transmuter", "trans_swap3", "swapped"), E("h_transmuter", "trans_liquidity", "provided", "withdrew")],
  "One swap, deposit, or withdrawal from an arbitrary backed state; two assets (decimals 6 and 8) or three (6, 8, 6); amounts to 1e24.")
P("C08", "Transmuter simulations quote what a swap pays and costs",
  "Whenever a swap simulation answers, a swap executed in that state pays what was quoted, with no fee. A reverse simulation's offer (plus one unit of rounding) pays for the asked amount, is no more than one unit of value above it, and is refused exactly when the pool does not hold the amount asked.",
  ["inputs"], "all reserves and asked amounts with different decimals",
  "No test asks for a reverse quote with assets of different decimals, where the comparison of pool and ask has units.",
  TR, [("reverse quote", "contracts/pair_transmuter/src/queries.rs: query_reverse_simulation"), ("shared arithmetic", "contracts/pair_transmuter/src/utils.rs: reverse_swap")],
  [E("h_transmuter", "trans_reverse", "quoted"), E("h_transmuter", "trans_swap", "swapped"), E("h_transmuter", "trans_swap3", "swapped")],
  "Amounts to 1e24; two and three assets.")
P("C09", "Transmuter pools act only when exactly paid and only with native coins",
  "A deposit credits only assets of the pool that were transferred in exactly the stated amounts, a swap executes only with exactly the stated single payment, and mismatches change nothing. Pools are made only of distinct native coins, cw20 payments and configuration updates are refused.",
  ["inputs", "configurations"], "all stated and transferred amounts, asset lists",
  "Tests check single mismatched amounts.",
  TR, [("payment", "packages/astroport/src/asset.rs: assert_coins_properly_sent"), ("instantiation", "contracts/pair_transmuter/src/contract.rs: instantiate")],
  [E("h_transmuter", "trans_payment", "provided", "swapped"), E("h_transmuter", "trans_config", "refused")],
  "Stated and transferred amounts 0..1e24 independently chosen.")

# ------------------------------------------------------------------ staking and tracker
ST = ["contracts/tokenomics/staking/src/contract.rs"]
P("C10", "xASTRO never loses value against ASTRO",
  "Entering mints xASTRO at the prevailing rate rounded down and leaving burns exactly the xASTRO paid and returns the proportional ASTRO rounded down, so neither dilutes the other stakers; entering and leaving at once never profits. The first stake locks a thousand shares in the contract for ever.",
  ["inputs"], "all deposits, supplies and amounts entered or left",
  "Tests walk one scenario with round numbers; dilution or theft through rounding depends on the ratio of deposit and supply.",
  ST, [("entering", "contracts/tokenomics/staking/src/contract.rs: execute_enter"), ("leaving", "contracts/tokenomics/staking/src/contract.rs: execute_leave")],
  [E("h_staking", "stake_enter", "staked", "first"), E("h_staking", "stake_leave", "left"), E("h_staking", "stake_round_trip", "round trip")],
  "One or two operations from an arbitrary state in which every share is worth at least one unit; amounts to 1e30.")
P("C11", "Staking accepts only its own coins and reports its real state",
  "Entering takes only ASTRO, leaving takes only xASTRO, one coin per call, and every other payment is refused without effect. Total shares, total deposit and the simulated or recorded balances that queries report are the chain's.",
  ["inputs", "configurations"], "all coins, amounts and callers",
  "Tests try one wrong coin.",
  ST, [("payment", "contracts/tokenomics/staking/src/contract.rs: execute, must_pay"), ("queries", "contracts/tokenomics/staking/src/contract.rs: query")],
  [E("h_staking", "stake_payment", "refused"), E("h_staking", "stake_enter", "staked", "first"), E("h_staking", "stake_leave", "left")],
  "Amounts to 1e30, one or two coins sent.")
P("C12", "Recorded token history is the balance held at that moment",
  "For any sequence of transfers, mints and burns of the tracked coin, the balance or total supply the tracker reports for a past block or second is what it was at its beginning, and the current values follow the latest change. Hooks for other coins, or non-blocking ones, record nothing.",
  ["histories", "schedules"], "all sequences of operations among holders in any blocks and at any times",
  "Voting power is read at arbitrary past times; tests query a few points of one history.",
  ["contracts/periphery/tokenfactory_tracker/src/contract.rs", "contracts/periphery/tokenfactory_tracker/src/query.rs"],
  [("hook", "contracts/periphery/tokenfactory_tracker/src/contract.rs: track_balances, sudo"), ("historical queries", "contracts/periphery/tokenfactory_tracker/src/query.rs: balance_at, total_supply_at")],
  [E("h_staking", "track_history", "tracked"), E("h_staking", "track_denom", "called")],
  "Histories of three operations with symbolic amounts, blocks and times, tracking by height or by second; every query point in and after the history.",
  ["The chain calls the hook as Neutron's tokenfactory does: before the balances move, with the supply grown before a mint's transfer and not yet reduced at a burn's."])

# ------------------------------------------------------------------ vesting
VE = ["contracts/tokenomics/vesting/src/contract.rs"]
P("C13", "Vesting pays exactly what has vested, once, and never more",
  "At any time an account can claim what its schedules have released by then less what it has claimed before, no other account's claims change that, and after all schedules end the sum of its claims is exactly what was registered. A claim above what is available is refused and pays nothing.",
  ["inputs", "histories"], "all schedules (start, cliff amount, end, total), claim times and claimed amounts",
  "Linear release with rounding over partial claims must add up at every second, not at the few that tests visit.",
  VE, [("release", "contracts/tokenomics/vesting/src/contract.rs: compute_available_amount"), ("claim", "contracts/tokenomics/vesting/src/contract.rs: claim")],
  [E("h_vesting", "vest_claim", "claimed"), E("h_vesting", "vest_again", "registered again")],
  "Two claims at any two times and a final one, one or two schedules; amounts to 1e24, times to 1e9 s after start.")
P("C14", "Vesting schedules are fully funded and withdrawals only take the unvested",
  "Schedules are registered only when funded exactly and sane, registering more never changes what was registered before, and only the owner (or, through the token, an allowed sender) registers. The owner's early withdrawal takes only what has not vested yet, and what had vested stays claimable.",
  ["inputs", "configurations"], "all schedules, payments, times of withdrawal and amounts",
  "Tests withdraw at fixed moments of one schedule.",
  VE, [("registration", "contracts/tokenomics/vesting/src/contract.rs: register_vesting_accounts, assert_vesting_schedules"), ("withdrawal", "contracts/tokenomics/vesting/src/contract.rs: withdraw_from_active_schedule")],
  [E("h_vesting", "vest_register", "registered"), E("h_vesting", "vest_withdraw", "withdrawn"), E("h_vesting", "vest_again", "registered again"), E("h_vesting", "vest_cw20", "registered"), E("h_vesting", "vest_access", "refused")],
  "Up to two accounts with one or two schedules each, one withdrawal at any time of an active schedule; amounts to 1e24.")

# ------------------------------------------------------------------ router
RO = ["contracts/router/src/contract.rs", "contracts/router/src/operations.rs"]
P("C15", "A routed swap delivers the whole result or nothing",
  "A multi-hop swap feeds each hop exactly what the one before it paid, delivers all of the last hop's proceeds to the receiver, leaves nothing on the router, and fails with no effect when the receiver's balance grew by less than the stated minimum. The caller's spread limit reaches the pool of a single-hop swap.",
  ["inputs", "configurations"], "all routes of one or two hops over three assets, pool rates, amounts, minimums and spread limits",
  "Tests use a fixed route at a fixed rate; the minimum check reads balances around a chain of messages.",
  RO, [("route", "contracts/router/src/contract.rs: execute_swap_operations, assert_minimum_receive"), ("hop", "contracts/router/src/operations.rs: execute_swap_operation")],
  [E("h_router", "route_two", "routed"), E("h_router", "route_limits", "routed"), E("h_router", "route_real", "routed")],
  "Two hops (native and cw20 start), pools that pay offer*rate for symbolic rates 0..1e12, and two real constant-product pools; amounts to 1e24.")
P("C16", "The router's internal steps are its own and its quotes are real",
  "Only the router can run its hop step, so coins that are on the router cannot be moved by others through it, and routes that are empty, too long or diverging are refused. The amount a route simulation quotes is what the route pays on real pools, and a reverse simulation chains the pools' reverse quotes.",
  ["inputs", "configurations"], "all callers, routes, amounts and pool states",
  "Tests call the hop step once as a stranger and simulate one route.",
  RO, [("access", "contracts/router/src/operations.rs: execute_swap_operation"), ("simulation", "contracts/router/src/contract.rs: simulate_swap_operations, simulate_reverse_swap_operations"), ("route sanity", "contracts/router/src/contract.rs: assert_operations")],
  [E("h_router", "route_access", "refused"), E("h_router", "route_reverse", "quoted"), E("h_router", "route_real", "routed")],
  "One and two hops; amounts to 1e24.")

# ------------------------------------------------------------------ factory
FA = ["contracts/factory/src/contract.rs", "contracts/factory/src/state.rs", "contracts/factory/src/querier.rs"]
P("C17", "The factory has one pair per pair of assets, found in any order",
  "At most one pair exists for any two assets, in whatever order they are given and whoever creates it, and the factory's queries find it in either order. Different asset pairs never block each other, every registered pair is listed once over the pages, and only the pair's own creation registers it.",
  ["inputs", "histories"], "all asset pairs (orders, kinds and symbolic names), creators and page sizes",
  "A router or a liquidity miner trusts the factory's answer for any assets, not the three that tests register.",
  FA, [("creation", "contracts/factory/src/contract.rs: execute_create_pair, reply"), ("key", "contracts/factory/src/state.rs: pair_key"), ("pages", "contracts/factory/src/state.rs: read_pairs")],
  [E("h_factory", "fac_create", "created"),
   E("h_factory", "fac_distinct", "distinct", opts=["--stub", "<core::hash::sip::Hasher<core::hash::sip::Sip13Rounds> as core::hash::Hasher>::finish=one_hash"]),
   E("h_factory", "fac_pages", "listed"), E("h_factory", "fac_reply", "refused")],
  "Up to three pairs; asset names of up to four symbolic bytes in the name-collision check.",
  ["The hash of a std HashSet is replaced by a constant in fac_distinct: it only decides speed, equality is still compared."])
P("C18", "Factory settings change only by its owner and stay in range",
  "Only the owner changes pair configurations, fees and addresses, and a pair type's total fee is at most 100% and the maker's part of it at most 100%, in every configuration accepted. What the owner sets is what the queries then report, other settings keep their values, and disabled or permissioned types are not created by strangers.",
  ["inputs", "configurations"], "all fee values, types, senders and settings",
  "Tests try one invalid fee; a fee above the whole would make pools pay out nothing or overflow.",
  FA + ["packages/astroport/src/factory.rs"], [("pair config", "contracts/factory/src/contract.rs: execute_update_pair_config"), ("fee range", "packages/astroport/src/factory.rs: PairConfig::valid_fee_bps"), ("config", "contracts/factory/src/contract.rs: execute_update_config")],
  [E("h_factory", "fac_fees", "updated"), E("h_factory", "fac_config", "config")],
  "One update from an arbitrary configuration of one type; fees over the whole u16 range.")
P("C19", "Contract ownership moves only in two steps",
  "Ownership changes only when the one proposed by the current owner claims it before the proposal expires, and until then the owner keeps every power and may drop or replace the proposal. A claimed, dropped or expired proposal has no effect any more.",
  ["inputs", "histories"], "all proposers, claimers, validity periods and waiting times, with an optional second proposal or a drop in between",
  "A hijacked owner controls every fund; tests walk one proposal.",
  ["packages/astroport/src/common.rs", "contracts/factory/src/contract.rs", "contracts/tokenomics/vesting/src/contract.rs", "contracts/tokenomics/incentives/src/execute.rs", "contracts/pair_stable/src/contract.rs"],
  [("shared steps", "packages/astroport/src/common.rs: propose_new_owner, drop_ownership_proposal, claim_ownership"), ("factory", "contracts/factory/src/contract.rs: execute"), ("vesting", "contracts/tokenomics/vesting/src/contract.rs: execute"), ("incentives", "contracts/tokenomics/incentives/src/execute.rs: execute")],
  [E("h_factory", "fac_owner", "claimed", "not claimed"), E("h_vesting", "vest_owner", "claimed", "not claimed"), E("h_incentives", "inc_owner", "claimed", "not claimed"), E("h_stable", "st_owner", "claimed", "not claimed"), E("h_pcl", "pc_owner", "claimed", "not claimed")],
  "One or two proposals and one claim, periods and waits over a month of seconds.")

# ------------------------------------------------------------------ incentives
IN = ["contracts/tokenomics/incentives/src/execute.rs", "contracts/tokenomics/incentives/src/state.rs", "contracts/tokenomics/incentives/src/utils.rs"]
ISTATE = "contracts/tokenomics/incentives/src/state.rs"
IUTIL = "contracts/tokenomics/incentives/src/utils.rs"
IEXEC = "contracts/tokenomics/incentives/src/execute.rs"
P("C20", "Staked LP tokens are always there for their staker",
  "A staker can withdraw at any time exactly what was deposited for them and nobody more, and the contract holds the sum of all stakes. A reward token that refuses its transfers delays neither withdrawals nor other rewards, and the staker list and totals report the real positions.",
  ["inputs", "histories"], "all deposits (own or for another), withdrawals, times and callers",
  "Tests withdraw round amounts in one order and never with a hostile reward token and partial amounts together.",
  IN, [("deposit and withdrawal", IEXEC + ": deposit, withdraw"), ("failing transfers", "contracts/tokenomics/incentives/src/reply.rs: reply"), ("list", ISTATE + ": list_pool_stakers")],
  [E("h_incentives", "inc_custody", "withdrawn"), E("h_incentives", "inc_stuck", "withdrawn"), E("h_incentives", "inc_page", "listed")],
  "Two stakers, two deposits and two withdrawals; amounts to 1e30, times to half a year.")
P("C21", "ASTRO emissions follow the rate, the points and the stakes",
  "Each active pool accrues its part of the global rate by its points, and its stakers share that by stake and time, up to rounding down by a few units; together they never get more than the rate. Changing the pools, the rate, blocked tokens or types leaves what was accrued before, and pools that are not active accrue nothing.",
  ["inputs", "histories"], "all rates, points, stakes and times; every kind of change of the active pools",
  "Emission must be right for any interleaving of stakes and changes; tests compare a few round numbers.",
  IN, [("index", ISTATE + ": PoolInfo::update_rewards, set_astro_rewards"), ("setup", IEXEC + ": setup_pools, set_tokens_per_second, update_blocked_pool_tokens"), ("deactivation", IUTIL + ": deactivate_pool, deactivate_blocked_pools")],
  [E("h_incentives", "inc_astro", "claimed"), E("h_incentives", "inc_split", "split"), E("h_incentives", "inc_change", "changed")],
  "Two stakers in one pool, or three pools with a staker each and one change; rate to 1e12 a second, points to 1e9, times to half a year.")
P("C22", "External reward schedules pay all that was funded and no more",
  "What a schedule releases is its reward spread evenly over its time, shared by stake and time; stacked schedules release the sum of each, and the schedule query tells what is to come. In the end everything funded is paid, up to a few units of rounding, and never more.",
  ["inputs", "histories"], "all rewards, stakes, start times and claim times; two or three overlapping schedules",
  "The break points of overlapping schedules are merged in storage; tests check few offsets.",
  IN + ["packages/astroport/src/incentives.rs"], [("merge", ISTATE + ": PoolInfo::incentivize"), ("release", ISTATE + ": PoolInfo::update_rewards"), ("schedule", "packages/astroport/src/incentives.rs: IncentivesSchedule::from_input")],
  [E("h_incentives", "inc_ext", "claimed"), E("h_incentives", "inc_ext_late", "claimed"), E("h_incentives", "inc_overlap", "overlapped"), E("h_incentives", "inc_stack", "overlapped"),
   E("h_incentives", "inc_ext_wide", "claimed", tier="thorough", ttime=800), E("h_incentives", "inc_overlap3", "overlapped", tier="thorough", ttime=800)],
  "Two stakers, one schedule, or one staker and two (thorough three) schedules at chosen offsets; rewards to 1e18, stakes to 1e12, any second of four weeks.")
P("C23", "Ended, removed and restarted rewards are settled once",
  "When a reward ends, is removed or comes back, in any order and even in one block, every staker still gets what was released before, exactly once, and claims and withdrawals keep working. What nobody earned goes once to the owner or the next stakers, and all payments together never exceed what was put in.",
  ["histories", "inputs"], "all rewards, stakes, times, and choices of claims before and after a removal or end",
  "The bookkeeping of finished indexes depends on which of claim, removal and restart share a block; tests never combine them.",
  IN, [("removal", ISTATE + ": PoolInfo::deregister_reward, PoolInfo::save"), ("finished", ISTATE + ": UserInfo::claim_finished_rewards, reset_user_index"), ("orphans", IUTIL + ": claim_orphaned_rewards")],
  [E("h_incentives", "inc_remove", "removed", "finished"), E("h_incentives", "inc_orphan", "settled"), E("h_incentives", "inc_same_block", "done"), E("h_incentives", "inc_again", "done"), E("h_incentives", "inc_bypass", "owed")],
  "Two stakers, one or two rewards, a removal and a restart; rewards to 1e18, any second of eight weeks.")
P("C24", "Incentives are paid for, and run by the right roles",
  "An incentive is accepted exactly when its whole reward, and the fee for a token not being paid now, are sent, and a refused one costs nothing. Administrative acts need their role, and emissions, incentives and deposits are only for pools the factory has registered, never for blocked tokens or types.",
  ["inputs", "configurations"], "all payments, coins, senders, pools and block lists",
  "Tests pay the exact fee or nothing; overpaying or reusing one coin for fee and reward is not covered.",
  IN, [("payment", IUTIL + ": incentivize, incentivize_many"), ("registration", IUTIL + ": is_pool_registered"), ("roles", IEXEC + ": setup_pools, update_config, update_blocked_pool_tokens")],
  [E("h_incentives", "inc_fee", "taken", "refused"), E("h_incentives", "inc_access", "accepted", "refused"), E("h_incentives", "inc_block", "asked")],
  "One or two schedules in one message, an optional earlier one; amounts to 1e15.")
# ------------------------------------------------------------------ stable pair
ST = ["contracts/pair_stable/src/contract.rs", "contracts/pair_stable/src/math.rs", "contracts/pair_stable/src/utils.rs"]
P("C25", "A stable swap never pays more than its curve allows",
  "Whatever the reserves, the offer, the amplification and the decimals of the assets, a swap gives the exact curve's amount up to rounding, so that the invariant does not fall. All that leaves the pool goes to the trader and the fee receivers, and the trader gets the curve's amount less exactly the configured fee.",
  ["inputs", "configurations"], "all fee rates, maker fees and fee shares, on a grid of reserves, offers, amplifications and decimals",
  "The invariant is solved by iteration; tests compare a few balanced pools.",
  ST, [("swap", "contracts/pair_stable/src/contract.rs: swap"), ("curve", "contracts/pair_stable/src/math.rs: compute_d, calc_y"), ("result", "contracts/pair_stable/src/utils.rs: compute_swap")],
  [E("h_stable", "st_swap", "swapped", time=240), E("h_stable", "st_swap_dec", "swapped", time=240), E("h_stable", "st_swap_wide", "swapped", tier="thorough", ttime=800)],
  "Every total fee and maker fee 0..10000 bps and every fee share; amplifications 1, 10, 100, 5000, up to five pools from balanced to 1:80, offers of a thousandth to four times the reserve. The curve itself is solved by iteration, so reserves and offers are a grid, not ranges; the oracle is the exact integer invariant.")
P("C26", "Stable pool shares are never diluted",
  "A deposit mints the shares its growth of the invariant is worth, no more and no less up to rounding, a first deposit locks the minimum liquidity, and a withdrawal burns exactly the shares paid in and pays the proportional reserves rounded down. So what the pool holds for other holders per share never falls.",
  ["inputs"], "all share supplies, withdrawn amounts and reserves at withdrawal; deposits on a grid of pools, amplifications and decimals",
  "Imbalanced deposits are where dilution hides; tests use near-balanced ones.",
  ST, [("deposit", "contracts/pair_stable/src/contract.rs: provide_liquidity"), ("shares", "contracts/pair_stable/src/utils.rs: mint_liquidity_token_message, compute_current_amp"), ("withdrawal", "contracts/pair_stable/src/contract.rs: withdraw_liquidity")],
  [E("h_stable", "st_provide", "provided", time=240), E("h_stable", "st_provide_first", "provided"), E("h_stable", "st_withdraw", "withdrew")],
  "Supply 1..1e24 and minimum shares 0..1e30 symbolic on a grid of pools and deposits (balanced, one-sided, mixed); withdrawals from any reserves and supply up to 1e30.")
P("C27", "Stable pools respect user limits, and quote what they pay",
  "A stable swap that executes keeps within the maximum spread or belief price, a deposit mints at least the asked-for minimum and a withdrawal pays at least the asked-for amounts; limits that are met never refuse. A simulation quotes exactly what the swap then pays, and a reverse simulation's offer buys what was asked, up to rounding.",
  ["inputs"], "all spread limits, belief prices, fees and minimums, on a grid of pools and offers",
  "Tests try one passing and one failing limit.",
  ST, [("limit", "packages/astroport/src/pair.rs"), ("simulation", "contracts/pair_stable/src/contract.rs: query_simulation, query_reverse_simulation")],
  [E("h_stable", "st_limits", "swapped", time=240), E("h_stable", "st_limits_ok", "swapped"), E("h_stable", "st_simulation", "swapped", time=240), E("h_stable", "st_reverse", "quoted"), E("h_stable", "st_withdraw", "withdrew")],
  "Spread limit 0..200%, belief price 0..1e6, fee 0..10000 bps and minimums to 1e30 symbolic; reserves, offers and amplifications on the grid of C25.")
P("C28", "A stable pool is paid in full, ramped in bounds, and run by its roles",
  "A swap or deposit counts only coins that were really paid, a withdrawal only its own LP tokens, and the receiver is the one asked for. Amplification moves linearly between its start and target within the permitted change and time, stays put once stopped, and only the owner changes it or the fee share.",
  ["inputs", "configurations", "schedules"], "all senders, payments, ramps and times",
  "A ramp must be right at every second; tests look at a few.",
  ["contracts/pair_stable/src/contract.rs", "contracts/pair_stable/src/utils.rs"], [("ramp", "contracts/pair_stable/src/contract.rs: start_changing_amp, stop_changing_amp"), ("amp", "contracts/pair_stable/src/utils.rs: compute_current_amp"), ("payment", "contracts/pair_stable/src/contract.rs: execute, receive_cw20")],
  [E("h_stable", "st_amp", "ramped", "stopped"), E("h_stable", "st_access", "swapped", "provided"), E("h_stable", "st_receiver", "done")],
  "One or two ramps, a stop, and a query at any seconds to 2e9; amplifications 0..2e6; seven kinds of wrong or right payment and caller with any amount sent.")
P("C29", "Price accumulators and trade observations report the past faithfully",
  "A stable or concentrated pool accumulates, for each second, the price that held during it and not one made by the operation that accumulates. A recorded observation averages all trades of its blocks, and a query for any past time answers from the observations around it, never from ones made later.",
  ["histories", "schedules"], "all sequences of trades, times between them and queried times",
  "A manipulated average shows only between certain blocks and at a full buffer; tests record a few regular trades.",
  ["contracts/pair_stable/src/contract.rs", "contracts/pair_stable/src/utils.rs", "contracts/pair_concentrated/src/utils.rs", "packages/astroport/src/observation.rs", "packages/circular_buffer/src/lib.rs"],
  [("accumulator", "contracts/pair_stable/src/utils.rs: accumulate_prices"), ("record", "contracts/pair_stable/src/utils.rs: accumulate_swap_sizes"), ("lookup", "packages/astroport/src/observation.rs: query_observation")],
  [E("h_stable", "st_twap", "operated", "stored"), E("h_stable", "st_trades", "recorded"), E("h_stable", "st_observe", "answered"), E("h_pcl", "pc_twap", "operated"), E("h_pcl", "pc_trades", "recorded"), E("h_pcl", "pc_observe", "answered")],
  "Accumulation over any time to 1e9 s before a swap, deposit or withdrawal on a grid of pools; three or four trades of any size at any seconds with a buffer of two or three; lookups of any second in a buffer of up to five observations with any prices.")
# ------------------------------------------------------------------ concentrated pair
PCL = ["contracts/pair_concentrated/src/contract.rs", "packages/astroport_pcl_common/src/math/mod.rs", "packages/astroport_pcl_common/src/state.rs", "packages/astroport_pcl_common/src/utils.rs"]
PGRID = "amplification/gamma pairs (10, 0.000145), (40, 0.002), (500, 0.01), three fee settings and five pools from balanced to 1:4 off balance, with price scales 7e-6 to 2900"
P("C30", "A concentrated swap follows its curve and its dynamic fee",
  "Whatever the reserves, price scale and decimals, a swap before its fee moves along the concentrated curve up to rounding, and the fee taken is the one the pool's balance asks for, between mid_fee and out_fee. All that leaves the pool goes to the trader, the fee receiver and the fee sharer, each of whom gets exactly its part.",
  ["inputs", "configurations"], "all share supplies and profit histories, on a grid of pools, curves, fees, offers, decimals and fee receivers",
  "The invariant and the swap result are solved by Newton iteration; tests compare a few pools.",
  PCL, [("swap", "contracts/pair_concentrated/src/contract.rs: swap"), ("curve", "packages/astroport_pcl_common/src/math/math_decimal.rs: newton_d, newton_y; calc_d, calc_y"), ("fee", "packages/astroport_pcl_common/src/state.rs: PoolParams::fee"), ("result", "packages/astroport_pcl_common/src/utils.rs: compute_swap")],
  [E("h_pcl", "pc_swap", "swapped", "kept", time=240), E("h_pcl", "pc_swap_dec", "swapped", "kept", "moved", time=300), E("h_pcl", "pc_swap_all", "swapped", tier="thorough", ttime=850)],
  "A grid of " + PGRID + ", offers of 1e-3, 0.1 and 1 of the reserve; supply and profits symbolic. The oracle is an exact integer bisection of the curve equation, tolerance 2e-8 of the invariant (the contract stops iterating at 1e-8..1e-5 of a token).")
P("C31", "A concentrated pool moves its price scale only at a profit",
  "After every trade the oracle price has moved towards the last price by half for each half-time, the recorded profits grow exactly as a share's worth does, and a trade that would lower a share's worth is refused. The price scale moves towards the oracle price, by the configured step and never past it, exactly when the oracle is far enough and half of the profit pays for the move.",
  ["inputs", "histories"], "all share supplies and profit histories and a choice of oracle and last prices and times, on a grid of pools",
  "Repegging depends on the whole profit history; tests walk along a few.",
  PCL, [("repeg", "packages/astroport_pcl_common/src/state.rs: PoolState::update_price"), ("oracle", "packages/astroport_pcl_common/src/math/math_decimal.rs: half_float_pow")],
  [E("h_pcl", "pc_repeg", "swapped", "kept", "moved", time=240), E("h_pcl", "pc_swap_dec", "swapped", "kept", "moved", tier="thorough", ttime=300), E("h_pcl", "pc_swap_all", "swapped", tier="thorough", ttime=800)],
  "xcp_profit and xcp_profit_real 1..2 and the supply symbolic; eight histories of oracle price (0.7 to 1.5 of the price scale), last price and elapsed time (0 to ten half-times), on the grid of C30; a trade in either direction.")
P("C32", "Concentrated pool shares are never diluted",
  "A deposit mints the shares its growth of the invariant is worth less the fee on its imbalance, no more and no less up to rounding, and a first deposit locks the minimum liquidity. A withdrawal burns exactly the shares paid in, pays the proportional reserves rounded down and leaves every price; neither lowers what a share is worth.",
  ["inputs"], "all supplies, withdrawn amounts and reserves at withdrawal; deposits on a grid of pools, curves and decimals",
  "Imbalanced deposits are where dilution hides; tests use few.",
  PCL + ["contracts/pair_concentrated/src/utils.rs"], [("deposit", "contracts/pair_concentrated/src/contract.rs: provide_liquidity"), ("shares", "contracts/pair_concentrated/src/utils.rs: calculate_shares"), ("withdrawal", "contracts/pair_concentrated/src/contract.rs: withdraw_liquidity")],
  [E("h_pcl", "pc_provide", "provided", "priced", time=240), E("h_pcl", "pc_provide_first", "provided"), E("h_pcl", "pc_withdraw", "withdrew", opts=["--stub", "astroport_pcl_common::math::calc_d=pcl_any_d", "--samples", "0"]), E("h_pcl", "pc_withdraw_worth", "withdrew"),
   E("h_pcl", "pc_provide_all", "provided", "priced", tier="thorough", ttime=600)],
  "Deposits on the grid of C30 (balanced, one-sided, mixed) with the profit history, minimum and tolerance symbolic; withdrawals of 1..1e24 shares of any supply from reserves 1..1e24 (the invariant replaced by any value there, as the amounts do not depend on it).")
P("C33", "Concentrated pools respect user limits, and quote what they pay",
  "A swap that executes keeps within the maximum spread or belief price, a deposit within its slippage tolerance and minimum shares, and a withdrawal pays the minimum amounts; limits that are met never refuse. Simulations of swaps, deposits and withdrawals quote exactly what execution pays, and a reverse simulation's offer buys what was asked, up to rounding.",
  ["inputs"], "all spread limits, belief prices, tolerances and minimums, on a grid of pools and offers",
  "Tests try one passing and one failing limit.",
  PCL + ["contracts/pair_concentrated/src/queries.rs"], [("limits", "packages/astroport_pcl_common/src/utils.rs: assert_max_spread, assert_slippage_tolerance"), ("quotes", "contracts/pair_concentrated/src/queries.rs: query_simulation, query_reverse_simulation")],
  [E("h_pcl", "pc_limits", "swapped", "refused", time=240), E("h_pcl", "pc_simulation", "swapped", time=240), E("h_pcl", "pc_reverse", "quoted"), E("h_pcl", "pc_provide", "provided", "priced", time=240), E("h_pcl", "pc_withdraw", "withdrew", opts=["--stub", "astroport_pcl_common::math::calc_d=pcl_any_d", "--samples", "0"]),
   E("h_pcl", "pc_limits_all", "swapped", "refused", tier="thorough", ttime=600), E("h_pcl", "pc_simulation_all", "swapped", tier="thorough", ttime=600)],
  "Spread limit 0..200%, belief price 0..1e6, tolerance 0..100% and minimums to 1e30 symbolic; reserves, offers and curves on the grid of C30.")
P("C34", "A concentrated pool is paid, tuned in bounds, and never blocked by a ramp",
  "A swap or deposit counts only coins really paid, a withdrawal only its own LP tokens, and the receiver is the one asked for. Amp and gamma move linearly between their bounds, fees and other parameters stay in theirs, only the owner changes any of them or the fee share, and swaps, deposits and withdrawals go on during and after a ramp.",
  ["inputs", "configurations", "schedules"], "all senders, payments, parameters, ramps and times",
  "A ramp must be right at every second and parameters at every combination; tests look at a few.",
  PCL, [("ramp", "packages/astroport_pcl_common/src/state.rs: PoolState::promote_params, get_amp_gamma"), ("parameters", "packages/astroport_pcl_common/src/state.rs: PoolParams::update_params"), ("payment", "contracts/pair_concentrated/src/contract.rs: execute, receive_cw20")],
  [E("h_pcl", "pc_promote", "ramped", "stopped"), E("h_pcl", "pc_params", "updated", "refused"), E("h_pcl", "pc_share", "shared"), E("h_pcl", "pc_access", "swapped", "provided"), E("h_pcl", "pc_receiver", "done"), E("h_pcl", "pc_ramp", "operated")],
  "One ramp and a stop at any seconds, with any target amp and gamma; any fee, threshold, delta and half-time update; seven kinds of wrong or right payment and caller; operations half-way and right after ramps from a quarter to ten times, on a grid of pools.")
NA("C90", "Liquidity on an order book is always the pool's",
   "What a concentrated pool places on an external order book (Injective, Duality) is accounted in its balances, returned with its proceeds, and never sold for less than the pool's own curve asks. The book orders never block swaps, deposits or withdrawals.",
   ["schedules", "histories"], "all schedules of placing, filling and cancelling orders between the pool's calls",
   "Orders are filled by others between any two calls of the pool.",
   ["contracts/pair_concentrated_duality/src/execute.rs", "contracts/pair_concentrated_inj/src/contract.rs"],
   [("Duality orders", "contracts/pair_concentrated_duality/src/orderbook"), ("Injective orders", "contracts/pair_concentrated_inj/src/orderbook")],
   reason="The code cannot be compiled here, so neither to LLVM IR: the two crates need the neutron-std and Injective crates, which are not in the offline cargo cache (they are left out of the workspace build too).")
