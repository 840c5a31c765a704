#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = "programs/mango-v4/src/"
I = P + "instructions/"
S = P + "state/"
def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    a["observe_at"] = ["account data and token balances before and after every instruction"]
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}
H = ["histories", "inputs", "configurations"]
out = [
prop("C01", "Token claims never exceed the tokens that back them",
 "For every token, what the vaults hold plus what borrowers owe always equals what depositors, fee pots and dust can claim, up to rounding in the last fixed-point place: no instruction creates claims without tokens behind them. Nor does any instruction leave users' tokens without an owner, apart from interest that borrowers pay while nobody has lent what they borrowed.",
 H, "every sequence of instructions by any mix of users, liquidators, crankers and admins, every token configuration and every price path",
 "unit tests look at single balance changes; the equation can be broken by any of ~100 instructions, by rounding, by multi-bank tokens or by the interplay of liquidation, fees and interest",
 [S+"bank.rs", I+"token_liq_bankruptcy.rs", I+"flash_loan.rs", I+"token_withdraw.rs", I+"perp_settle_fees.rs", I+"admin_token_withdraw_fees.rs"],
 [("deposit / withdraw on a bank", S+"bank.rs deposit_internal, withdraw_internal"), ("loss socialization", I+"token_liq_bankruptcy.rs"), ("fee withdrawal", I+"admin_token_withdraw_fees.rs")],
 [("indexed_deposits, indexed_borrows", "claims and debts in units of an interest index")]),
prop("C02", "Recorded totals equal the sum over all accounts",
 "After every transaction, the total deposits and total borrows recorded for a token equal exactly the sums of the positive and negative positions all accounts hold in it, summed over the token's banks. The recorded amount of tokens that could come back from spot orders equals the sum of what the accounts have recorded for their spot orders.",
 H, "every history of instructions over every account and bank of a group",
 "the sums range over all accounts of a history; a test of one instruction on one account cannot see a total that drifts",
 [S+"bank.rs", I+"serum3_place_order.rs", I+"token_liq_bankruptcy.rs"],
 [("paired update of position and bank", S+"bank.rs deposit_internal, withdraw_internal"), ("potential serum tokens", S+"bank.rs update_potential_serum_tokens")]),
prop("C03", "Interest: what borrowers pay is what lenders and fees receive",
 "Interest indexes never fall except when a loss is socialized, are the same on all of a token's banks, and are advanced only by the index update, which applies the configured rate curve at current utilization over at most one hour of elapsed time. In each update the interest charged to borrowers equals what is credited to lenders plus the protocol's fee, and the utilization average, the rate scaling and the end of a weight transition follow their documented rules. The update works only in transactions without other program calls.",
 H, "every utilization, rate configuration, elapsed time and set of banks",
 "depends on the whole range of utilization, time steps and multi-bank splits; tests sample a handful of points",
 [I+"token_update_index_and_rate.rs", S+"bank.rs"],
 [("index computation", S+"bank.rs compute_index, interest_rate_curve_calculator"), ("average utilization", S+"bank.rs compute_new_avg_utilization"), ("rate scaling", S+"bank.rs update_interest_rate_scaling")]),
prop("C04", "Deposits, withdrawals and borrows change balances exactly",
 "A deposit moves tokens from the payer to the vault and credits exactly that amount; a withdrawal debits exactly what leaves the vault, and newly borrowed amounts are charged the configured origination fee exactly once. No other balance of the account or any other account changes, a balance is never dusted by a whole token or more, and repeating small operations never gains value.",
 H, "every amount from zero to the maximum, every position (lending, borrowing, empty) and every index value",
 "rounding and sign changes interact with arbitrary fractional indexes; examples cannot cover them",
 [I+"token_deposit.rs", I+"token_withdraw.rs", S+"bank.rs"],
 [("token_deposit", I+"token_deposit.rs"), ("token_withdraw", I+"token_withdraw.rs"), ("origination fee", S+"bank.rs withdraw_internal")]),
prop("C05", "Deposit, borrow and utilization limits hold",
 "No user instruction leaves a token above its deposit limit or net borrow limit per time window when that instruction increased the respective quantity, or takes borrowed tokens out of a vault below the minimum reserve. While a token or market is reduce-only, no user instruction increases what the mode forbids: deposits, borrows, perp exposure or spot buying.",
 H, "every order of deposits, borrows, swaps, liquidations and orders around the limits and across windows",
 "limits are shared by all accounts and instructions, and bypasses come from an unusual instruction reaching the same state",
 [S+"bank.rs", I+"token_deposit.rs", I+"token_withdraw.rs", I+"flash_loan.rs", I+"serum3_place_order.rs"],
 [("net borrow window", S+"bank.rs update_net_borrows, check_net_borrows"), ("deposit limit", S+"bank.rs check_deposit_and_oo_limit"), ("vault reserve", S+"bank.rs enforce_max_utilization_on_borrow, enforce_borrows_lte_deposits")]),
prop("C06", "Account health is the documented weighted sum",
 "The health the program computes for any account equals the documented value: token balances, spot orders in their worst case and perp positions in their worst case, valued at the oracle (and for new risk the worse of oracle and stable price) with the market's weights, including scaling for large totals. With initial weights at least as strict as maintenance weights, initial health never exceeds liquidation-end health, which never exceeds maintenance health; health checks accept or reject accordingly.",
 ["inputs", "configurations", "histories"], "every combination of positions, orders, prices, weights and scale limits",
 "the function has many interacting branches (signs, worst cases, scaling, weight transitions); tests check a few dozen hand-computed points",
 [P+"health/cache.rs", P+"health/account_retriever.rs", I+"health_check.rs"],
 [("health computation", P+"health/cache.rs"), ("weights", S+"bank.rs scaled_init_asset_weight, maint_weights"), ("health check", I+"health_check.rs")]),
prop("C07", "No action can make an account unsafe",
 "After any instruction an owner or counterparty can use on a healthy account, its initial health is not negative unless it did not get worse in that instruction. Accounts under liquidation cannot take on risk or move value out.",
 H, "every user instruction on every account state at every price",
 "the guarantee quantifies over all instructions and account states, and depends on incremental health updates agreeing with a recomputation",
 [P+"health/cache.rs", I+"token_withdraw.rs", I+"perp_place_order.rs", I+"serum3_place_order.rs", I+"flash_loan.rs"],
 [("pre and post health check", P+"health/cache.rs check_health_pre, check_health_post")]),
prop("C08", "Batched health checks leave no gap",
 "A transaction that opens a health region must close it on the same account, may contain only permitted order instructions inside, and at the close the account's health must be acceptable as compared to its opening. No account is ever left inside a region after a transaction, and sequence and health assertions fail the transaction when they do not hold.",
 ["programs", "histories"], "every composition of instructions into a transaction",
 "the space is all instruction sequences, including malformed and nested ones",
 [I+"health_region.rs", I+"sequence_check.rs", I+"health_check.rs"],
 [("region begin and end", I+"health_region.rs")]),
prop("C09", "Only unhealthy accounts are liquidated, and they can recover",
 "An account is liquidated or force-cancelled only when its maintenance health is negative or it is already being liquidated with negative liquidation-end health. Liquidation proceeds in order (open orders first, then assets, then bankruptcies), marks the account until its health recovers, and clears the mark as soon as it has. Accounts being liquidated can still deposit and place no new orders, and an account can never liquidate itself.",
 H, "every liquidation instruction against every account state and every price path",
 "eligibility is decided by state built over long histories and prices exactly around thresholds",
 [P+"health/cache.rs", I+"token_liq_with_token.rs", I+"perp_liq_base_or_positive_pnl.rs", I+"perp_liq_force_cancel_orders.rs", I+"serum3_liq_force_cancel_orders.rs"],
 [("liquidatable check", S+"mango_account.rs check_liquidatable"), ("phases", P+"health/cache.rs require_after_phase1_liquidation")]),
prop("C10", "Token liquidation trades at the oracle price plus the set fees",
 "In a token liquidation the liquidator takes over debt and receives collateral of exactly that value at oracle prices plus the configured liquidator fees, while the platform's fee goes to the protocol; nobody else is affected. The amounts never exceed the liquidatee's debt, its collateral, the liquidator's stated maximum, or what is needed to restore health, and the liquidatee's liquidation-end health does not fall. The liquidator ends with non-negative initial health.",
 H, "every pair of tokens, weights, fees, prices and maximum amounts",
 "the amounts solve an equation with many branches; tests check a few scenarios",
 [I+"token_liq_with_token.rs"],
 [("liquidation_action", I+"token_liq_with_token.rs")]),
prop("C11", "Token bankruptcy: insurance first, then an exact shared loss",
 "Bankruptcy applies only to accounts with debt but nothing left to liquidate. The insurance fund pays for the debt (up to the debt, its price and fee, and only for eligible tokens), and only when it is exhausted the remaining debt is spread over all lenders of that token in proportion, on every bank, leaving the account with no debt in it.",
 H, "every debt size, insurance balance, bank split and price",
 "needs bankrupt accounts reached through a history, and the loss must be exact over all depositors",
 [I+"token_liq_bankruptcy.rs"],
 [("insurance transfer and socialization", I+"token_liq_bankruptcy.rs")]),
prop("C12", "Perp liquidation: fair price, bounded, never harmful",
 "Liquidating a perp base position moves lots from liquidatee to liquidator against quote at the oracle price adjusted by the configured fees, only reduces the liquidatee's position, respects the liquidator's limits and does not lower the liquidatee's liquidation-end health. Taking over positive pnl pays the liquidatee for it in the settlement token and stops once health is restored.",
 H, "every position, fee, weight, price and limit",
 "five chained steps with fixed-point solutions; tests cover single configurations",
 [I+"perp_liq_base_or_positive_pnl.rs"],
 [("liquidation_action", I+"perp_liq_base_or_positive_pnl.rs")]),
prop("C13", "Negative perp pnl is settled, insured, then shared",
 "Negative perp pnl left after liquidation is first settled against the liquidator up to what the account's other assets allow, then covered by the insurance fund for markets entitled to it, and only then spread over the market's open interest through funding so that longs and shorts lose equally per lot and exactly the remaining loss in total.",
 H, "every loss, insurance balance, open interest and price",
 "needs multi-step bankruptcies and is a statement over all positions of a market",
 [I+"perp_liq_negative_pnl_or_bankruptcy.rs", S+"perp_market.rs"],
 [("settlement, insurance, socialization", I+"perp_liq_negative_pnl_or_bankruptcy.rs"), ("socialize_loss", S+"perp_market.rs")]),
prop("C14", "Flash loans are repaid or become borrows in the same transaction",
 "Tokens lent inside a transaction can leave the vault only if the same transaction ends the loan for the same account and tokens, with no other program instruction in between. What is not returned is borrowed with the origination fee on the borrowed part, surplus is deposited, swap fees are charged, and all health, reduce-only, borrow and deposit limits apply at the end; delegates can use it only for permitted targets.",
 ["programs", "histories"], "every transaction composition around flash loans, with any number of tokens and any flows in between",
 "the property is about arbitrary instruction sequences in between, including hostile ones",
 [I+"flash_loan.rs"],
 [("flash_loan_begin / end", I+"flash_loan.rs")]),
prop("C15", "Perp orders match in price-time priority at maker prices",
 "A perp order trades against the best prices first and, at equal price, oldest first, at the resting order's price, never beyond its own limit price or stated amounts. Post-only never takes, immediate-or-cancel never rests, expired and out-of-range pegged orders never trade, and self-trade choices are honored. Unfilled remainders rest with the right price, size and time priority.",
 ["histories", "inputs"], "every book state, order type, price (fixed or oracle-pegged) and limit",
 "priority and limits depend on arbitrary book contents; a reference book must be run side by side",
 [S+"orderbook/book.rs", S+"orderbook/bookside.rs", S+"orderbook/ordertree.rs", I+"perp_place_order.rs"],
 [("matching", S+"orderbook/book.rs new_order"), ("iteration", S+"orderbook/bookside_iterator.rs")]),
prop("C16", "Books and accounts always agree on open orders",
 "Every order on a book belongs to exactly one open order slot of its owner's account and every slot refers to one order on the book or an unprocessed event; the account's resting bid and ask totals equal the sum of its orders plus unprocessed ones. The order trees stay well formed (sorted, counted, no lost or doubly used nodes), and cancelling removes exactly the named orders of the caller.",
 ["histories"], "every history of placing, matching, cancelling, expiring and evicting orders",
 "structural invariants over long histories of a binary tree with a free list",
 [S+"orderbook/ordertree.rs", S+"orderbook/nodes.rs", S+"orderbook/book.rs", S+"mango_account.rs"],
 [("tree operations", S+"orderbook/ordertree.rs"), ("open order slots", S+"mango_account.rs add_perp_order, remove_perp_order")]),
prop("C17", "Fill and out events are processed exactly once, in order",
 "Events enter the queue with consecutive sequence numbers, are consumed strictly in order, and each fill or removal is applied to the maker exactly once, whoever processes it. A full or empty queue never loses, duplicates or corrupts an event.",
 ["histories", "schedules"], "every interleaving of trading with event processing by any cranker with any set of accounts",
 "depends on the interleaving of producers and consumers and on ring wrap-around",
 [S+"orderbook/queue.rs", I+"perp_consume_events.rs"],
 [("event queue", S+"orderbook/queue.rs"), ("consume", I+"perp_consume_events.rs")]),
prop("C18", "Perp trading is zero-sum",
 "In every perp market the base lots of all accounts, including fills not yet processed, always sum to zero and open interest equals the sum of long positions. The quote of all accounts, unprocessed fills, accrued fees and settled amounts also sums to zero apart from funding rounding, so trading, fees and liquidation only move value between participants and the protocol.",
 ["histories"], "every history over all accounts of a market",
 "a conservation law over all accounts and the event queue",
 [S+"mango_account_components.rs", S+"perp_market.rs", S+"mango_account.rs"],
 [("fills", S+"mango_account.rs execute_perp_maker, execute_perp_taker"), ("positions", S+"mango_account_components.rs change_base_position")]),
prop("C19", "Funding is bounded and symmetric",
 "Funding per lot moves by the mark-to-oracle difference at the configured impact size, clamped to the configured daily range, times the elapsed time of at most one hour, equally for longs and shorts. A position pays exactly the funding accrued between the times it was changed, once.",
 ["histories", "inputs", "configurations"], "every book, price, configuration and update timing",
 "depends on the book, time and positions over a history",
 [I+"perp_update_funding.rs", S+"perp_market.rs", S+"mango_account_components.rs"],
 [("update_funding_and_stable_price", S+"perp_market.rs"), ("settle_funding", S+"mango_account_components.rs")]),
prop("C20", "Pnl settlement moves equal amounts within limits",
 "Settling pnl moves the same amount from the losing to the winning account, at most the winner's gain, the loser's loss, what the loser can pay from assets not needed elsewhere, and the rate-limited share that price moves alone do not allow to exceed. The settler's incentive is paid by the winner within the configured bounds, fee settlement pays only accrued fees, and neither account's positions change otherwise.",
 H, "every pair of accounts, price move and limit configuration",
 "limits build up over time from trades and stable prices",
 [I+"perp_settle_pnl.rs", I+"perp_settle_fees.rs", S+"mango_account_components.rs"],
 [("settle limits", S+"mango_account_components.rs available_settle_limit, apply_pnl_settle_limit"), ("settlement", I+"perp_settle_pnl.rs")]),
prop("C21", "Conditional swaps execute only as their owner allowed",
 "A conditional swap executes only while its price condition holds (or its auction has started) and before expiry, at a price no worse than the owner's terms: the premium or auction price, the price limits, and the maximum buy and sell amounts over all executions. Tokens move only between the owner and the taker plus the configured fees, creation deposit-or-borrow restrictions are honored, and incentives are charged as configured.",
 H, "every condition, price path, taker limits and sequence of partial executions",
 "prices, premiums and partial executions over time form a space tests only sample",
 [I+"token_conditional_swap_trigger.rs", I+"token_conditional_swap_create.rs", I+"token_conditional_swap_start.rs", S+"mango_account_components.rs"],
 [("trigger", I+"token_conditional_swap_trigger.rs action"), ("pricing", S+"mango_account_components.rs premium_price, maker_price, taker_price")]),
prop("C22", "Unreliable prices are never used; stable prices move slowly",
 "No instruction that relies on a price accepts one that is older or less certain than the market's configuration allows, from whatever kind of oracle account; it fails, or uses the configured fallback under the same rules, or (where an account's assets only add to its health) leaves the asset out. The stable price follows the oracle only within its configured growth limits whatever the oracle does, slowed down by the delayed price averaged over its intervals, and never on a bad price.",
 ["inputs", "histories", "configurations", "fault_sequences"], "every oracle kind, age, confidence and price jump",
 "oracle faults at any point of a history against every price-consuming instruction",
 [S+"oracle.rs", S+"stable_price.rs", S+"bank.rs", P+"health/account_retriever.rs"],
 [("oracle_state_unchecked, check_confidence_and_maybe_staleness", S+"oracle.rs"), ("StablePriceModel::update", S+"stable_price.rs")]),
prop("C23", "Only the right signer can act, on the right accounts",
 "Value leaves an account, or its orders and settings change, only in transactions signed by its owner or a delegate within the delegate's limits, or through the documented permissionless procedures. Admin actions need the group's admin (or the limited security admin), frozen accounts (except to cancel their perp orders or process past fills) and disabled instructions are refused, and passing accounts of another owner, token, market or group in place of the right ones always fails or has no effect on them.",
 ["programs", "inputs", "histories"], "every instruction with every substitution of accounts and signers",
 "the attack surface is every account slot of about 100 instructions; tests cover a handful of substitutions",
 [P+"accounts_ix", S+"mango_account.rs", I+"ix_gate_set.rs"],
 [("account constraints", P+"accounts_ix/*.rs"), ("is_owner_or_delegate", S+"mango_account.rs")]),
prop("C24", "Account lifecycle keeps positions intact",
 "Creating, expanding, migrating and editing an account never changes its balances, positions, orders or owner, position slots are freed only when empty and unused and their usage counts match what uses them, and an account can be closed only by its owner and only when it holds nothing.",
 ["histories", "programs"], "every order of opening and closing positions and resizing accounts",
 "slot reuse and resizing bugs need long histories",
 [I+"account_expand.rs", I+"account_close.rs", S+"mango_account.rs", S+"mango_account_components.rs"],
 [("expand_dynamic_content", S+"mango_account.rs"), ("in_use_count", S+"mango_account_components.rs")]),
prop("C25", "Spot orders move exactly what the exchange moved",
 "Placing, cancelling and settling spot orders changes the account's token balances by exactly what its vaults sent to or received from the exchange, with origination fees on newly borrowed amounts charged once, when the borrow is actually used. Orders far from the oracle price or that would borrow, sell or buy against the token's restrictions are refused.",
 H, "every order, fill and settlement pattern on the external exchange",
 "depends on external fills between instructions and cached order bookkeeping",
 [I+"serum3_place_order.rs", I+"serum3_settle_funds.rs", I+"serum3_liq_force_cancel_orders.rs"],
 [("apply_vault_difference, charge_loan_origination_fees", I+"serum3_place_order.rs, serum3_settle_funds.rs")]),
prop("C26", "Protocol fees are taken, discounted and paid out as configured",
 "Collateral fees are charged at the configured daily rate only on used collateral and for at most twice the charging interval; fee rebates swap the discount token for accrued fees at the configured bonus and never more than has accrued. Admin fee and insurance withdrawals pay out at most what has accrued, once.",
 H, "every account composition, charging schedule and rebate history",
 "time-based and history-based amounts",
 [I+"token_charge_collateral_fees.rs", I+"account_buyback_fees_with_mngo.rs", I+"admin_token_withdraw_fees.rs", I+"admin_perp_withdraw_fees.rs"],
 [("charge_collateral_fees", I+"token_charge_collateral_fees.rs"), ("buyback", I+"account_buyback_fees_with_mngo.rs")]),
prop("C27", "Client-side maximums are safe and tight",
 "The health (and health ratio, and liquidatability) clients compute from cached accounts, also after simulated token, perp and spot changes, is what the program computes. The maximum borrow, swap and perp amounts for a target ratio or health always get an answer for accounts of ordinary size, never lead below the target when executed with all fees (when the target is out of reach: never make things worse), and leave less than a tenth of a point to spare, except where a net borrow or deposit limit stops them; the variants that consider these limits never plan beyond them. Judged for initial weights at least as strict as maintenance weights and asset weights at most one; dust below one native token and the effects of weight scaling on where a best amount lies are out of scope.",
 ["inputs", "configurations"], "every account, price, weight and target ratio",
 "numerical root finding over a non-monotone, piecewise function",
 [P+"health/client.rs"],
 [("max_swap_source_for_health_ratio, max_perp_for_health_ratio, max_borrow_for_health_fn", P+"health/client.rs")]),
prop("C32", "Delisting returns users' value",
 "Force-closing borrows repays the debt at oracle price plus the set fee from the borrower's other assets without the closer gaining more, force-withdrawing a delisted token sends the owner the full balance to their own account, and force-closing perp positions matches two opposite positions at the oracle price without changing either side's value. Each works only in the market's matching wind-down mode.",
 H, "every account state during a wind-down",
 "forced operations on other people's accounts across all states",
 [I+"token_force_close_borrows_with_token.rs", I+"token_force_withdraw.rs", I+"perp_force_close_position.rs"],
 [("token_force_close_borrows_with_token", I+"token_force_close_borrows_with_token.rs"), ("token_force_withdraw", I+"token_force_withdraw.rs"), ("perp_force_close_position", I+"perp_force_close_position.rs")]),
prop("C33", "Configuration changes change what they name and stay valid",
 "Editing a token, market or group changes exactly the named parameters on every bank of the token, rejects configurations that violate the documented relations between parameters, and never touches balances. The security admin can only make things safer, and permissionless-style listing is limited per week and gives new tokens no collateral value.",
 ["inputs", "histories", "configurations"], "every combination of parameters by every role",
 "dozens of optional parameters per instruction and role",
 [I+"token_edit.rs", I+"perp_edit_market.rs", I+"group_edit.rs", I+"token_register_trustless.rs", I+"token_add_bank.rs", I+"ix_gate_set.rs", S+"bank.rs"],
 [("token_edit", I+"token_edit.rs"), ("verify", S+"bank.rs verify"), ("from_existing_bank", S+"bank.rs")]),
]
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for p in out:
        f.write(json.dumps(p) + "\n")
print(len(out), "properties")
