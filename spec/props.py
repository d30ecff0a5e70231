#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one list, for the checks the binary knows."""
import json, subprocess, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "programs/dynamic-bonding-curve/src/"
T = "Unit tests call single functions on hand-picked or sampled values; the TypeScript tests walk a few histories with one or two configurations and cannot run in the pinned build. "

P = []
def p(id, title, statement, over, text, why, files, mech, bound, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=T + " ".join(why.split()),
        anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech],
            **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
            observe_at=observe or ["account data, token balances, lamports and emitted events after every transaction"],
            hook_needed=None), _bound=" ".join(bound.split())))

p("P01", "Trades move along the configured curve exactly, rounded against the trader",
  """Every trade moves the pool from its current price along the piecewise constant-liquidity curve fixed in the configuration, through as many segments as the amount needs; the input that enters the curve is the exact integral rounded up and the output paid out is the exact integral rounded down (per segment crossed).
  The price after the trade and the recorded reserves are exactly those of that walk, for purchases and sales, for exact-input, partial-fill and exact-output requests alike.""",
  ["inputs", "configurations", "histories"], "all curves of the covering set (1 to 16 segments, thin to near-64-bit, extreme prices), every reachable pool state, every amount that lands on, just before or just after a segment boundary, and small amounts",
  "The swap tests use a two-segment curve and a handful of amounts; they never compare against an independent exact integral, never land on a boundary and never walk sixteen segments.",
  ["curve.rs", "state/virtual_pool.rs", "math/u128x128_math.rs", "math/utils_math.rs"],
  [("price and amount formulas with explicit rounding", S + "curve.rs"), ("segment walk per direction and mode", S + "state/virtual_pool.rs"), ("256-bit multiply-divide", S + "math/utils_math.rs")],
  "40 curve worlds (1 to 16 segments, thin to near-64-bit, extreme prices, segments holding less than one token), all trade histories to depth 3 (quick) / 4 (thorough), amounts on, before and after every segment boundary",
  state=[("sqrt price, base and quote reserve", "position on the curve", S + "state/virtual_pool.rs")])
p("P02", "No sequence of trades extracts value from the curve",
  """Whatever sequence of purchases and sales is made, the quote the pool has recorded for its curve is never less than the exact value of the curve up to the current price, and the base it still holds is never less than what the rest of the curve can still sell.
  In particular nobody can, by trading back and forth or splitting a trade, end with more quote than they started and no fewer base tokens, and a pool can always pay for a complete sell-back.""",
  ["histories", "inputs", "configurations"], "all trade sequences to the depth bound over the curve set at the lowest permitted fee, with boundary and dust amounts",
  "Round trips are tested once or twice; rounding drift across segments and over repeated trades is a property of all histories.",
  ["curve.rs", "state/virtual_pool.rs"], [("rounding direction per leg", S + "curve.rs"), ("reserve bookkeeping", S + "state/virtual_pool.rs")],
  "40 curve worlds at the lowest permitted fee; boundary-amount histories to depth 2 (quick) / 3 (thorough) and unit-sized-amount histories to depth 5 / 7")
p("P03", "Price moves the right way and stays between the start and migration prices",
  """A purchase never lowers the price and a sale never raises it; a trade with no room to move leaves it unchanged.
  The price never falls below the configured start price nor rises above the migration price implied by the quote threshold and the curve, and a purchase that would pass the end of the curve is refused or stopped at the end.""",
  ["histories", "inputs", "configurations"], "all trade sequences to the bound over the curve set, including overshooting amounts",
  "Only single trades well inside the curve are tested.",
  ["curve.rs", "state/virtual_pool.rs", "state/config.rs"], [("next price computations", S + "curve.rs"), ("stop at migration price", S + "state/virtual_pool.rs")],
  "40 curve worlds plus the covering configurations at 5 life stages; trade histories to depth 3 (quick) / 4 (thorough), all boundary amounts and overshoots")
p("P04", "Trades settle exactly, respect the caller's limit and are reported truthfully",
  """A trade that succeeds debits the trader exactly the reported input and credits exactly the reported output, never less output than the stated minimum nor more input than the stated maximum, and every unit that leaves one party arrives at another.
  A partial-fill purchase takes only what fits; an exact-output trade delivers precisely the requested amount; a trade that cannot honour the limit, has a zero amount, or uses wrong accounts leaves everything as it was.
  The emitted records state the amounts, fees, price and reserves that actually resulted.""",
  ["inputs", "histories", "configurations"], "each mode and direction, each stated limit at, one below and one above the real result, SPL and Token-2022 tokens, with and without referral, legacy and current entry points",
  "The Rust tests do not execute the swap instruction at all, so settlement, limits and events are untested by the suite.",
  ["instructions/swap/ix_swap.rs", "instructions/swap/swap_exact_in.rs", "instructions/swap/swap_exact_out.rs", "instructions/swap/swap_partial_fill.rs", "utils/token.rs", "event.rs"],
  [("limit checks", S + "instructions/swap"), ("transfers", S + "utils/token.rs"), ("event emission", S + "instructions/swap/ix_swap.rs")],
  "42 covering configurations (243 in thorough) x 3 stages x every mode, direction, entry point and referral with the stated limit at, below and above the true result; histories to depth 1 (quick) / 2 (thorough)")
p("P05", "Trading fees stay within bounds and are split without loss",
  """The total fee charged on a trade is the fee base times the current rate rounded up, at least the minimum rate and at most 99 percent, taken in the configured token (from the input of purchases and output of sales, or from the output only).
  The protocol receives 20 percent of it rounded down, the referrer, when named, 20 percent of the protocol's part, the creator the configured share of the remainder, the partner all the rest; the parts always add up to the fee, and the recorded counters equal the sum over all trades.""",
  ["inputs", "configurations", "histories"], "all fee kinds, fee collection modes, creator shares, referral presence, boundary and maximal amounts",
  "Splits are tested with one or two shares and amounts; fee-on-fee rounding at small and huge amounts and under every mode is not.",
  ["state/fee.rs", "math/fee_math.rs", "state/virtual_pool.rs", "constants.rs"], [("fee on amount and its inverse", S + "state/fee.rs"), ("counter updates", S + "state/virtual_pool.rs")],
  "fee kinds x collection modes x creator shares x dynamic fee; every amount 1 to 160 (1200), a doubling ladder and the largest, with and without referral; mixed histories to depth 2 / 4")
p("P06", "Scheduled fees start at the cliff and only decay, exactly as configured",
  """With a fee schedule the base fee equals the starting fee until trading opens, decreases once per period by the configured linear step or exponential factor, never increases with time, and stays at its final value after the last period.
  Both the slot and the timestamp clocks are honoured, and the rate charged at any moment is the one the schedule gives at that moment.""",
  ["configurations", "inputs"], "all schedule shapes in a covering set (linear and exponential, 0 to 65535 periods, frequencies 1 to large), at every period boundary, one before and one after, both clocks",
  "A few schedules are evaluated at a few times.",
  ["base_fee/fee_scheduler.rs", "base_fee/mod.rs", "math/fee_math.rs", "utils/activation_handler.rs"], [("period count and decay", S + "base_fee/fee_scheduler.rs"), ("clock selection", S + "utils/activation_handler.rs")],
  "schedule shapes x all period boundaries +-1 x both clocks, each charged on a real trade")
p("P07", "The rate limiter charges purchases progressively and is invertible",
  """While the rate limiter is active, each further reference amount of a purchase's quote input pays the configured increment more, up to the maximum rate, so a larger purchase never pays a lower rate (beyond rounding) and the fee equals the sum over its tiers; sales and purchases outside the window pay the base rate.
  A purchase asked for by output is charged the same fee as the purchase asked for by the corresponding input, and the limiter ends exactly when its configured duration has passed.""",
  ["configurations", "inputs"], "limiter shapes over reference amount, increment, cap and duration; amounts at every tier boundary +-1; window start, end and neighbours; both clocks",
  "The tests sample a few tier amounts and check monotonicity on them.",
  ["base_fee/fee_rate_limiter.rs", "base_fee/mod.rs"], [("tiered fee and its inverse", S + "base_fee/fee_rate_limiter.rs"), ("window test", S + "base_fee/fee_rate_limiter.rs")],
  "limiter shapes x tier boundaries +-1 x window boundaries, forward and inverse")
p("P08", "Under the rate limiter one transaction cannot split a purchase",
  """While the rate limiter applies, a purchase is refused if the same transaction contains another swap of that pool, at top level or hidden behind another program, or if it is itself called by another program that also touches the pool elsewhere; otherwise identical purchases in separate transactions are accepted.
  Outside the limiter window, and for sales, no such restriction exists.""",
  ["programs", "histories", "configurations"], "all transaction shapes up to three top-level instructions and two call levels over swaps, other operations and other pools, inside and outside the window",
  "No test composes transactions.",
  ["utils/cpi_checker.rs", "instructions/swap/ix_swap.rs", "base_fee/fee_rate_limiter.rs"], [("single-swap validation over the instruction list", S + "instructions/swap/ix_swap.rs"), ("call-depth check", S + "utils/cpi_checker.rs")],
  "all transaction shapes up to 3 (quick) / 4 (thorough) instructions and 2 call levels, all swap entry points and modes, x window positions")
p("P09", "The dynamic fee follows recent price movement exactly and is capped",
  """With the dynamic fee enabled, the volatility measure changes only as configured: within the filter period references stay, within the decay period the previous measure is reduced by the decay factor, afterwards it is reset, and it never exceeds its cap.
  The surcharge is computed from the measure before the trade moves the price, the total never exceeds 99 percent, and pools without it never pay it.""",
  ["histories", "inputs", "configurations"], "trade sequences interleaved with time steps at, before and after the filter and decay periods, over several control values and bin steps",
  "The accumulator is unit-tested on sampled values, not over histories of trades and times.",
  ["state/fee.rs", "state/virtual_pool.rs", "state/config.rs", "params/fee_parameters.rs"], [("volatility tracker", S + "state/fee.rs"), ("variable fee", S + "state/config.rs")],
  "trade and waiting sequences to depth 5 (quick) / 6 (thorough)")
p("P10", "The minimum-fee privilege covers only the first purchase with pool creation",
  """If enabled in the configuration, the pool's very first swap pays the minimum base fee only when it is in the same transaction as the pool's creation and both are called directly; every later swap, and a first swap made in any other way, pays the normal fee.
  If not enabled, no swap ever gets it.""",
  ["programs", "configurations", "histories"], "all transaction shapes that create a pool and swap in it, directly or through other programs, with one or two pools and repeats",
  "No test composes such transactions.",
  ["instructions/swap/ix_swap.rs", "state/virtual_pool.rs"], [("first-swap detection through the instruction list", S + "instructions/swap/ix_swap.rs"), ("first-swap mark", S + "state/virtual_pool.rs")],
  "all transaction shapes up to 3 (quick) / 4 (thorough) instructions x configurations x token kinds")
p("P11", "The pool's vaults always cover everything it owes; no tokens appear or vanish",
  """At every moment the quote vault holds at least the curve's reserve or, once complete, what is still due for migration, migration fees and surplus, plus all unclaimed fees; the base vault holds at least the unclaimed base fees, the unsold reserve, and before they are used the migration and vesting amounts; the pool account holds its rent plus exactly the unclaimed creation fee.
  Across any operation token balances only move between accounts; only the one authorised burn at migration or withdrawal reduces supply.""",
  ["histories", "configurations"], "all operation sequences to the bound from fresh, traded, completed, locked and migrated states of a covering set of configurations",
  "Accounting over arbitrary interleavings of trades, claims, donations and migration is not tested at all.",
  ["state/virtual_pool.rs", "state/config.rs", "utils/token.rs", "instructions"], [("reserve and fee counters", S + "state/virtual_pool.rs"), ("amounts fixed at configuration", S + "state/config.rs")],
  "all operations from 5 life stages of 42 (243 in thorough) configurations to depth 2 (before completion) and 3 (after) in quick, 3 and 4 in thorough")
p("P12", "Surplus, migration fee and leftover are each paid once, in full, to one party",
  """Partner and creator surplus, each side's share of the migration fee, and the leftover base tokens can each be withdrawn once and only once, only after the point in the lifecycle where they are due, only by the entitled party, and for exactly the configured share of what was raised above the threshold or of the fee.
  No order of withdrawals, trades, migration or creator change lets anybody be paid twice or reduces what another party is owed.""",
  ["histories", "configurations"], "all orders of all withdrawals and migration steps to closure, over creator shares, fee percentages and supply kinds",
  "Each withdrawal is tested in one order in separate end-to-end scripts that the pinned build does not run.",
  ["instructions/partner/ix_withdraw_partner_surplus.rs", "instructions/creator/ix_withdraw_creator_surplus.rs", "instructions/migration/ix_withdraw_migration_fee.rs", "instructions/migration/withdraw_leftover.rs", "state/virtual_pool.rs"],
  [("one-time flags", S + "state/virtual_pool.rs"), ("surplus split", S + "state/virtual_pool.rs")],
  "all withdrawal orders from the completed stages, to closure or depth 8 (quick) / 14 (thorough)")
p("P13", "Partner, creator and protocol collect exactly the trading fees accrued to them",
  """Each party can at any time collect up to what trades have accrued to it and not yet paid, in whole or in part per token, and receives exactly the smaller of the request and that amount; the accrual of the other parties is unaffected.
  Nothing is collected twice or lost, before or after completion and migration, and after a creator change only the new creator collects.""",
  ["histories", "inputs", "configurations"], "interleavings of trades and claims with caps 0, 1, exact, exact+1 and unlimited, over fee modes and shares",
  "Claims are tested once per script with unlimited amounts.",
  ["instructions/partner/ix_claim_partner_trading_fee.rs", "instructions/creator/ix_claim_creator_trading_fee.rs", "instructions/operator/ix_claim_protocol_fee.rs", "state/virtual_pool.rs"],
  [("claim with cap", S + "state/virtual_pool.rs")], "trade and claim interleavings to depth 4 (quick) / 5 (thorough) before completion, 3 / 5 after, with capped amounts")
p("P14", "The pool creation fee is paid on creation and split once between its parties",
  """Creating a pool costs exactly the configured creation fee on top of account rent, held by the pool until one tenth is collected once for the protocol's treasury and the rest once by the partner.
  Neither part can be taken twice, by another party, or out of the account's rent.""",
  ["histories", "configurations", "inputs"], "all claim orders, fees 0 to the maximum, both token programs, pools created under older rules",
  "Only one order and fee is tested end to end.",
  ["instructions/operator/ix_claim_protocol_pool_creation_fee.rs", "instructions/partner/ix_claim_partner_pool_creation_fee.rs", "instructions/initialize_pool/ix_initialize_virtual_pool_with_spl_token.rs", "state/virtual_pool.rs"],
  [("claim bits", S + "state/virtual_pool.rs")], "closure of claim orders over fee values and pool generations")
p("P15", "A pool goes through its life stages in order, once, and freezes when complete",
  """A pool moves from trading to completed to (if tokens are vested) locked to migrated, in that order, each step caused only by its own operation and never undone; it completes exactly when the recorded quote reaches the threshold and the completion time is written once.
  From completion on no trade is accepted and the recorded price and reserves never change; migration happens at most once.""",
  ["histories", "configurations"], "closure of all operations from pool creation, over configurations with and without vesting and both migration targets",
  "The scripts only follow the intended order.",
  ["state/virtual_pool.rs", "instructions/swap/ix_swap.rs", "instructions/migration"], [("progress state machine", S + "state/virtual_pool.rs"), ("completion check in swaps", S + "instructions/swap/ix_swap.rs")],
  "all operation sequences to depth 5 (quick) / 6 (thorough) from fresh pools, 4 over one-sided schedules, 2 / 3 from 5 life stages of the covering configurations, and a second migration of pools whose vaults could afford one",
  state=[("migration progress, finish time, migrated flag", "life stage", S + "state/virtual_pool.rs")])
p("P16", "Privileged operations only work for the party entitled to them",
  """Only the partner named as fee claimer, the pool's current creator, the chosen leftover receiver's entitlement, admins, and operators holding the specific permission can perform the operations reserved to them, and only with their signature.
  Everyone else is refused at every stage of the pool's life, and operations open to everyone never pay the caller.""",
  ["inputs", "histories"], "every privileged operation by every other actor, with signature missing, with each single permission bit, at every life stage",
  "One or two wrong-signer cases are tested.",
  ["access_control.rs", "instructions", "state/operator.rs"], [("account constraints", S + "instructions"), ("permission bits", S + "access_control.rs")],
  "every operation x every actor x signature x 35 stages, complete, and in histories to depth 2 (quick) / 3 (thorough)")
p("P17", "No operation accepts another pool's, another mint's or a counterfeit account",
  """Replacing any single account of any operation by the corresponding account of another pool, of another user, of another program or by a counterfeit makes the operation fail without effect, except where that account is free to choose (payer, recipient of one's own funds, receiver of rent).
  Where it is free to choose, only the freely chosen party's balance is affected.""",
  ["inputs", "configurations"], "every account slot of every operation times every account of a two-pool universe plus counterfeits",
  "Account substitution is not tested.",
  ["instructions", "const_pda.rs", "utils/token.rs"], [("derivation and relation constraints", S + "instructions")],
  "every account slot of every operation x every account of the universe (pairs of slots in thorough), at every stage; every program slot also with a program that does nothing or does the job and then steals (with one further exchange)")
p("P18", "Only sound configurations are accepted, and stored as given",
  """A configuration is accepted only if fees, fee split, curve, prices, thresholds, liquidity shares, vesting, supply and migration settings are each in their documented range and mutually consistent, and is otherwise refused; what is stored is exactly what was asked for plus the derived supply, migration price and token amounts.
  An existing configuration is never overwritten, and creating one needs its signature.
  For every accepted configuration whose token amounts fit a token account, pools can be created, the supply covers curve sale, migration and vesting, and the curve can actually be bought to its end and migrated.""",
  ["configurations", "inputs"], "every field at and beyond each of its limits, singly and in pairs, over a base set of configurations; quote mints of both token programs with each extension",
  "Validation is tested for a dozen cases.",
  ["instructions/partner/ix_create_config.rs", "params/fee_parameters.rs", "params/liquidity_distribution.rs", "state/config.rs", "utils/token.rs"], [("parameter validation", S + "instructions/partner/ix_create_config.rs"), ("derived amounts", S + "params/liquidity_distribution.rs")],
  "about 450 single-field edits over 11 base configurations and all pairs of edits over 3 (all bases, both orders in thorough), the full product of the later market's fee settings, quote-mint extension sets up to size 3; each accepted one driven through its whole life")
p("P19", "Every pool can always be sold back into, completed, migrated and emptied",
  """From every state a pool can reach, a large enough partial-fill purchase completes the curve, holders can always sell up to all sold tokens back while it is open, and once complete the remaining steps (lock, migration, every withdrawal) succeed when their parties ask for them.
  No history of trades, claims, donations or elapsed time can leave a pool stuck.""",
  ["histories", "configurations"], "every state reachable to the depth bound from each configuration",
  "Liveness from arbitrary states is not tested.",
  ["state/virtual_pool.rs", "curve.rs", "instructions/migration"], [("partial fill to the end of the curve", S + "state/virtual_pool.rs"), ("migration steps", S + "instructions/migration")],
  "completion, migration and emptying run from every state reached by histories to depth 2 (quick) / 3 (thorough); plus curves that end exactly at the migration price, over migration option, supply, vesting and fee mode")
p("P20", "A new pool starts exactly as its configuration says",
  """A created pool holds the whole configured supply in its vault, minted once with the mint authority configured, no freeze authority, the configured decimals and token program, starts at the start price with zero fees and reserves as derived, and belongs to its creator and configuration.
  It cannot be created twice for the same configuration and mint, with the wrong token program or quote mint, or without the creator's and mint's signatures, nor under a stored configuration whose minimum fee or locked liquidity is below the minimum; lamports sent ahead to its addresses change nothing.""",
  ["configurations", "inputs"], "all token kinds, decimals, supply kinds and authority options, both creation operations, each wrong account",
  "Pool creation is not executed by the Rust tests.",
  ["instructions/initialize_pool/ix_initialize_virtual_pool_with_spl_token.rs", "instructions/initialize_pool/ix_initialize_virtual_pool_with_token2022.rs", "instructions/initialize_pool/process_create_token_metadata.rs", "state/virtual_pool.rs"],
  [("mint set-up and authority hand-over", S + "instructions/initialize_pool")], "grid of token kinds x quote programs x authorities x supply kinds x decimals x activation x fee x vesting x migration, complete; every account replaced by every other; every subset of prefunded addresses")
p("P21", "The published client quotes agree with what the program then does",
  """For every pool state, direction, mode, amount, referral and time, the quote computed by the published Rust client equals the result of the trade when it is then executed, and the client declines exactly when the trade would fail for amount, liquidity or completion.""",
  ["inputs", "histories", "configurations"], "all quotable requests in every explored pool state",
  "The client's tests compare stored snapshots of two or three pools.",
  ["state/virtual_pool.rs", "instructions/swap/ix_swap.rs"], [("shared swap computation", "dynamic-bonding-curve-sdk/src")],
  "quote then execute for every request in every state reached to depth 3")
p("P22", "Migration to DAMM v1 deposits what was promised, only on the agreed terms",
  """Migrating to DAMM v1 works only for a completed pool configured for it and only with a DAMM v1 configuration whose fee matches the chosen option and which nobody controls; it deposits the quote threshold less the migration and protocol fees and the matching base amount, at the migration price, and keeps all liquidity tokens in the custody accounts for creator and partner in the configured shares.
  Base tokens that are not needed are burned or left for the leftover receiver as configured, and nothing else leaves the pool.""",
  ["configurations", "histories", "inputs"], "liquidity splits x migration fees x supply kinds x fee options, and each defect of the target configuration",
  "Migration is only exercised in scripts that the pinned build does not run.",
  ["instructions/migration/meteora_damm/migrate_meteora_damm_initialize_pool.rs", "instructions/migration/meteora_damm/migration_meteora_damm_create_metadata.rs", "instructions/migration/meteora_damm/meteora_damm_metadata_state.rs", "migration_handler/mod.rs", "state/config.rs"],
  [("target configuration validation", S + "instructions/migration/meteora_damm/migrate_meteora_damm_initialize_pool.rs"), ("liquidity split", S + "instructions/migration/meteora_damm/meteora_damm_metadata_state.rs")],
  "target-configuration edits x options; amounts grid; all operations to depth 3 (quick) / 5 (thorough) from each stage; DAMM v1, vault and metaplex are stand-ins")
p("P23", "DAMM v1 liquidity tokens reach their owners once, locked where promised",
  """After migration to DAMM v1 the creator's and partner's unlocked liquidity tokens can each be delivered once to exactly that party, and their permanently locked ones each be locked once for exactly that party, in any order and by anyone.
  No liquidity token is delivered twice, to someone else, or unlocked when it was promised locked.""",
  ["histories", "configurations"], "all orders of lock and claim by all callers over liquidity splits, including creator and partner being the same party",
  "Only one order is scripted.",
  ["instructions/migration/meteora_damm/meteora_damm_lock_lp_token.rs", "instructions/migration/meteora_damm/meteora_damm_claim_lp_token.rs", "instructions/migration/meteora_damm/meteora_damm_metadata_state.rs"],
  [("claim and lock status", S + "instructions/migration/meteora_damm/meteora_damm_metadata_state.rs")], "closure of lock and claim orders over share splits, owners and foreign records")
p("P24", "Migration to DAMM v2 deposits what was promised, only on the agreed terms",
  """Migrating to DAMM v2 works only for a completed pool configured for it, only once, and only with a target configuration whose fee and terms match the chosen option and that only this program may use; it deposits the quote threshold less migration and protocol fees and the matching base, opens at the migration price over the full range (or compounding, if chosen), with the chosen fee terms.
  Unused base tokens are burned or left for the leftover receiver as configured, and nothing else leaves the pool.""",
  ["configurations", "histories", "inputs"], "fee options x customised fee terms x migration fees x supply and token kinds, and each defect of the target configuration",
  "Migration is only exercised in scripts that the pinned build does not run.",
  ["instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs", "migration_handler/mod.rs", "migration_handler/concentrated_liquidity.rs", "migration_handler/compounding_liquidity.rs", "utils/damm_v2_utils.rs", "state/config.rs"],
  [("target configuration validation", S + "instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs"), ("liquidity computation", S + "migration_handler")],
  "target-configuration edits x options; amounts grid; goals of 1 to 40 units and exact power-of-two price ratios; all operations to depth 3 (quick) / 4 (thorough) from each stage; DAMM v2 is a stand-in")
p("P25", "Vested tokens are locked exactly as promised, once, before migration",
  """If the configuration promises vested base tokens, after completion anyone can create the lock exactly once, for the creator, holding exactly the promised amount with the promised cliff, period and schedule counted from the completion time; migration is impossible before it and nothing is locked if nothing was promised.
  The lock can be neither cancelled nor redirected by anyone but its beneficiary.""",
  ["configurations", "histories"], "vesting schedules x token programs x elapsed time between completion and lock x order of operations",
  "Not exercised by the Rust tests.",
  ["instructions/migration/create_locker.rs", "state/config.rs", "params/fee_parameters.rs"], [("lock creation", S + "instructions/migration/create_locker.rs")],
  "grid of schedules x elapsed times, all operation orders to depth 7 (quick) / 9 (thorough); the locker is a stand-in")
p("P26", "Changing the creator moves exactly the creator's rights, and only by the creator",
  """Only the current creator can hand a pool's creator role to another account, to nobody else's detriment: from then on only the new creator can collect creator fees, surplus and migration fee, and nothing else changes.
  A hand-over is refused to the same account, between completion of the curve and migration, and after a DAMM v1 migration until every recorded liquidity share has been locked and claimed.""",
  ["histories", "inputs", "configurations"], "hand-overs at every life stage and repeatedly, by every actor, with right, missing and foreign migration records",
  "Only one hand-over is scripted.",
  ["instructions/creator/ix_transfer_pool_creator.rs", "state/virtual_pool.rs"], [("creator change rules", S + "instructions/creator/ix_transfer_pool_creator.rs")],
  "every life stage of every covering configuration x actors x records, to depth 5-8 (quick) / closure (thorough)")
p("P27", "Migrated liquidity is divided and locked exactly as the configuration promised",
  """After migration to DAMM v2 the creator and the partner own positions whose unlocked, vested and permanently locked parts are exactly the configured shares of the migrated liquidity, the parts adding up to the whole with rounding to the partner or creator but never lost, and vesting schedules as configured.
  A party without a share gets no position and the larger share is never given to the other party.""",
  ["configurations", "inputs"], "all partitions of 100 percent into the six shares on a grid, vesting schedules, both liquidity kinds",
  "Distribution is unit-tested for a few shares.",
  ["migration_handler/mod.rs", "instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs", "state/config.rs"], [("liquidity distribution", S + "state/config.rs"), ("position creation and locking", S + "instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs")],
  "share grid x vesting x liquidity kind, each driven to migration, all operations to depth 5 (quick) / 7 (thorough); DAMM v2 is a stand-in")
p("P28", "The protocol's share only ever goes to the treasury, or is swapped for it",
  """Protocol fees, the protocol's surplus part and its creation fee leave a pool only through an operator holding that specific permission, and only to the protocol treasury's own accounts.
  The one exception, converting fees, is accepted only for convertible tokens, to the operator's own associated account, for the exact amount, and only when the following instruction verifiably sends the proceeds to the treasury.""",
  ["histories", "inputs", "programs"], "every operator permission set, each life stage, each token, each way the conversion can be malformed",
  "Not exercised by the Rust tests.",
  ["instructions/operator/ix_claim_protocol_fee.rs", "instructions/operator/ix_zap_protocol_fee.rs", "instructions/operator/ix_claim_protocol_pool_creation_fee.rs", "access_control.rs"],
  [("treasury constraints", S + "instructions/operator"), ("permission check", S + "access_control.rs")], "operators x stages x amounts to depth 3/4 plus the conversion grid; the conversion validator is a stand-in")
p("P29", "A configuration never changes and a pool never changes its identity",
  """Once created, a configuration is never modified or closed by any operation, and no pool's configuration, mints, vaults, activation point or token kind ever changes.
  An existing pool, configuration or record can never be created over.""",
  ["histories", "configurations"], "all operations from every life stage, including re-creation attempts",
  "Not tested.",
  ["state/config.rs", "state/virtual_pool.rs", "instructions"], [("read-only account use", S + "instructions")], "every operation at every stage to depth 3 (quick) / 5 (thorough)")
p("P30", "At least ten percent of migrated liquidity stays locked for the first day",
  """For every accepted configuration that migrates to DAMM v2 or v1, at least ten percent of the migrated liquidity is permanently locked or still vested one day after migration, and configurations that would leave less are refused.""",
  ["configurations"], "liquidity shares x vesting schedules (amounts, cliffs, periods, frequencies) around the limit",
  "A few parameter sets are unit-tested, not their effect after migration.",
  ["params/liquidity_distribution.rs", "instructions/partner/ix_create_config.rs", "state/config.rs"], [("locked-liquidity requirement", S + "instructions/partner/ix_create_config.rs")],
  "share and schedule grid, each accepted one driven to migration and measured")
p("P31", "Pools are independent: operating one never affects another",
  """An operation on one pool changes no other pool's accounts, vaults or claims, even if they share configuration, creator, partner, operator and mints, and the outcome of operations on two pools does not depend on how they are interleaved.""",
  ["histories", "schedules"], "all interleavings of operations on two pools sharing a configuration, quote mint and parties, to the bound",
  "Tests only use one pool at a time.",
  ["instructions", "const_pda.rs", "state/virtual_pool.rs"], [("per-pool derivation", S + "instructions")], "every operation on three coexisting pools leaves the others alone (depth 1 / 2); every pair of operations on two pools commutes, at every stage, as separate transactions and together within one")
p("P32", "An external program cannot rob or take over the shared pool authority",
  """All pools share one authority account, which lends rent and signs calls into external programs while pools are created, tokens are locked and liquidity is migrated.
  Whatever such a program does with that signature, no operation succeeds that leaves the authority with fewer lamports, another owner or data of its own; well-behaved calls are accepted and leave it with exactly what it had, the payer bearing all rent.""",
  ["programs", "histories"], "one external call of any operation, at any stage, additionally takes some or all lamports, reassigns or allocates",
  "No misbehaving external program exists in the tests.",
  ["utils/cpi_checker.rs", "instructions/migration/flash_rent.rs", "instructions/migration", "instructions/initialize_pool"], [("authority invariant around calls", S + "utils/cpi_checker.rs"), ("rent lending", S + "instructions/migration/flash_rent.rs")],
  "every external call with the authority's signature x misdeeds x stages x configurations; external programs are stand-ins")
p("P33", "Published metadata is written once, by its owner, as given",
  """Partner and pool metadata can be published only by the fee claimer and the pool's creator respectively, once, with exactly the given text, and never alter the pool.""",
  ["inputs", "histories"], "all texts of a boundary set, all signers, repeats, at every life stage",
  "Not tested.",
  ["instructions/partner/ix_create_partner_metadata.rs", "instructions/creator/ix_create_virtual_pool_metadata.rs", "state/partner_metadata.rs", "state/virtual_pool_metadata.rs"], [("owner constraint and init", S + "instructions")], "texts x signers x stages grid")
p("P34", "Only admins manage operators, and an operator has exactly its granted rights",
  """Only an admin can create or close an operator record; a record grants exactly the permissions it was created with, undefined permissions are refused, and a closed or never created record grants nothing.""",
  ["histories", "inputs"], "all permission sets incl. undefined bits, all signers, create/close/use orders",
  "Only the bit helper is unit-tested.",
  ["instructions/admin/ix_create_operator_account.rs", "instructions/admin/ix_close_operator_account.rs", "instructions/admin/auth.rs", "state/operator.rs", "access_control.rs"], [("admin list", S + "instructions/admin/auth.rs"), ("permission bits", S + "state/operator.rs")],
  "create, close and use over permissions and signers to depth 3 (quick) / 4 (thorough), all 128 permission bits in thorough")

have = subprocess.run([R + "/target/release/dbcmc", "list"], capture_output=True, text=True, check=True).stdout.split()
P = [x for x in P if x["id"] in have]
missing = [h for h in have if h not in [x["id"] for x in P] and h != "Z00"]
assert not missing, missing
LIVES = ["P01","P02","P03","P04","P05","P06","P09","P11","P12","P13","P14","P15","P16","P19","P20","P22","P23","P24","P25","P26","P27","P28","P29","P31"]
for x in P:
    if x["id"] in LIVES:
        x["_bound"] += ("; and four whole lives (first trade to last claim; one with gifts to the vaults and every step tried too early and again) of every configuration of two 3-wise covering sets, the second with other values, decimals, fees, terms and coinciding identities"
                        + (", with one further operation of any kind at any point of them" if x["id"] in ("P11", "P15", "P16", "P19") else " (thorough: with one further operation of any kind at any point of them)"))
NOTE = ("Every transition executes the program's own code (compiled natively from /repo's working tree) in an in-memory runtime and is compared, "
        "account by account, event by event and acceptance/refusal, with an independent reference model; on top the property's own invariant is evaluated. Bound: ")
TRUST = " Trusted: the runtime, the stand-ins for external programs (metaplex, DAMM v1/v2, vault, locker, zap) and the reference model; nothing is claimed beyond the stated bounds and alphabet."
with open(R + "/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps({k: v for k, v in x.items() if k[0] != "_"}) + "\n")
json.dump(dict(version=1, setup_cmd="bash b.sh",
    checks=[dict(property=x["id"], quick_cmd=f"bash check.sh {x['id']} quick", thorough_cmd=f"bash check.sh {x['id']} thorough", evidence_file=f"evidence/{x['id']}.json",
        technique="explicit-state model checking of the implementation: exhaustive bounded exploration in lockstep with a reference model",
        level="model_checking", level_note=NOTE + x["_bound"] + "." + TRUST) for x in P],
    not_applicable=[], notes="no hooks in /repo are needed: the checker uses the crate's public instructions and account layouts"),
    open(R + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties")
