//! Who may do what, and with which accounts.
use super::{Ix, Monitor, Out, Tx};
use crate::st::{MAcc, State};
use mango_v4::state::Group;
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

/// instruction, number of its switch (- if it cannot be switched off), then
///   O:account/signer  the account's owner signs           D: its owner or a delegate
///   A:signer          the group's admin signs             S: or the security admin    F: or the fast listing admin
///   L:account         must not be frozen                  W: may change without its owner
///   T                 only in testing groups
const RULES: &str = "\
admin_token_withdraw_fees 65 A:admin
admin_perp_withdraw_fees 66 A:admin
group_create -
group_edit - A:admin
group_withdraw_insurance_fund 51 A:admin
group_change_insurance_fund 76 A:admin
ix_gate_set - S:admin
group_close 8 A:admin T
token_register 44 A:admin
token_register_trustless 45 F:admin
token_edit - S:admin
token_add_bank 39 A:admin T
token_deregister 41 A:admin T
token_update_index_and_rate 46
token_update_index_and_rate_resilient 46
account_create 1
account_create_v2 1
account_expand 3 O:account/owner L:account
account_expand_v2 3 O:account/owner L:account
account_size_migration 67 W:account
account_edit 2 O:account/owner L:account
account_toggle_freeze 4 A:admin W:account
account_close 0 O:account/owner L:account
account_buyback_fees_with_mngo 48 D:account/owner L:account L:dao_account W:dao_account
sequence_check 73 O:account/owner L:account
health_check 74 L:account
stub_oracle_create 37 A:admin
stub_oracle_close 36 A:admin T
stub_oracle_set 38 A:admin
stub_oracle_set_test 38 A:admin
token_deposit 40 D:account/owner L:account
token_deposit_into_existing 40 L:account W:account
token_withdraw 47 D:account/owner L:account
flash_loan_begin 7 D:account/owner L:account
flash_loan_swap_begin 7 D:account/owner L:account
flash_loan_end - D:account/owner L:account
flash_loan_end_v2 - D:account/owner L:account
health_region_begin 10 L:account W:account
health_region_end - L:account W:account
serum3_register_market 34 F:admin
serum3_edit_market - S:admin
serum3_deregister_market 30 A:admin T
serum3_create_open_orders 29 D:account/owner L:account
serum3_close_open_orders 28 D:account/owner L:account
serum3_place_order 33 D:account/owner L:account
serum3_place_order_v2 71 D:account/owner L:account
serum3_cancel_order 27 D:account/owner L:account
serum3_cancel_order_by_client_order_id 27 D:account/owner L:account
serum3_cancel_all_orders 26 D:account/owner L:account
serum3_settle_funds 35 D:account/owner L:account
serum3_settle_funds_v2 35 D:account/owner L:account
serum3_liq_force_cancel_orders 32 W:account
liq_token_with_token 43 D:liqor/liqor_owner L:liqor L:liqee W:liqee
token_liq_with_token 43 D:liqor/liqor_owner L:liqor L:liqee W:liqee
liq_token_bankruptcy 42 D:liqor/liqor_owner L:liqor L:liqee W:liqee
token_liq_bankruptcy 42 D:liqor/liqor_owner L:liqor L:liqee W:liqee
token_force_close_borrows_with_token 49 D:liqor/liqor_owner L:liqor L:liqee W:liqee
token_force_withdraw 72 L:account W:account
perp_create_market 17 A:admin
perp_edit_market - S:admin
perp_close_market 15 A:admin T
perp_deactivate_position 18 D:account/owner L:account
perp_place_order 22 D:account/owner L:account
perp_place_order_v2 22 D:account/owner L:account
perp_place_order_pegged 22 D:account/owner L:account
perp_place_order_pegged_v2 22 D:account/owner L:account
perp_cancel_order 13 D:account/owner L:account
perp_cancel_order_by_client_order_id 14 D:account/owner
perp_cancel_all_orders 11 D:account/owner
perp_cancel_all_orders_by_side 12 D:account/owner L:account
perp_consume_events 16 W:*
perp_update_funding 25
perp_settle_pnl 24 D:settler/settler_owner L:settler L:account_a L:account_b W:account_a W:account_b
perp_force_close_position 50 L:account_a L:account_b W:account_a W:account_b
perp_settle_fees 23 L:account W:account
perp_liq_base_or_positive_pnl 19 D:liqor/liqor_owner L:liqor L:liqee W:liqee
perp_liq_force_cancel_orders 20 W:account
perp_liq_negative_pnl_or_bankruptcy 21 D:liqor/liqor_owner L:liqor L:liqee W:liqee
perp_liq_negative_pnl_or_bankruptcy_v2 21 D:liqor/liqor_owner L:liqor L:liqee W:liqee
token_conditional_swap_create 52 D:account/authority L:account
token_conditional_swap_create_v2 52 D:account/authority L:account
token_conditional_swap_create_premium_auction 69 D:account/authority L:account
token_conditional_swap_create_linear_auction 70 D:account/authority L:account
token_conditional_swap_cancel 54 D:account/authority L:account
token_conditional_swap_trigger 53 D:liqor/liqor_authority L:liqor L:liqee W:liqee
token_conditional_swap_trigger_v2 53 D:liqor/liqor_authority L:liqor L:liqee W:liqee
token_conditional_swap_start 68 D:liqor/liqor_authority L:liqor L:liqee W:liqee
token_charge_collateral_fees - L:account W:account
alt_set 6 A:admin
alt_extend 5 A:admin
compute_account_data -
benchmark -
";
#[derive(Default)]
struct Rule {
    gate: Option<u32>,
    owner: Vec<(&'static str, &'static str)>,
    deleg: Vec<(&'static str, &'static str)>,
    admin: Option<(char, &'static str)>,
    live: Vec<&'static str>,
    free: Vec<&'static str>,
    testing: bool,
}
fn rules() -> &'static BTreeMap<&'static str, Rule> {
    static R: OnceLock<BTreeMap<&'static str, Rule>> = OnceLock::new();
    R.get_or_init(|| {
        RULES
            .lines()
            .map(|l| {
                let mut p = l.split(' ');
                let name = p.next().unwrap();
                let mut r = Rule { gate: p.next().and_then(|g| g.parse().ok()), ..Rule::default() };
                for w in p {
                    let (k, v) = w.split_once(':').unwrap_or((w, ""));
                    match k {
                        "O" => r.owner.push(v.split_once('/').unwrap()),
                        "D" => r.deleg.push(v.split_once('/').unwrap()),
                        "A" | "S" | "F" => r.admin = Some((k.chars().next().unwrap(), v)),
                        "L" => r.live.push(v),
                        "W" => r.free.push(v),
                        "T" => r.testing = true,
                        _ => unreachable!("{w}"),
                    }
                }
                (name, r)
            })
            .collect()
    })
}
/// the number of an instruction's switch
pub fn gate(name: &str) -> Option<u32> {
    rules().get(name).and_then(|r| r.gate)
}
pub fn may_act(a: &MAcc, k: &Pubkey, now: u64) -> bool {
    let f = &a.fx;
    *k == f.owner
        || (f.delegate != Pubkey::default() && *k == f.delegate)
        || (f.temporary_delegate != Pubkey::default() && *k == f.temporary_delegate && now <= f.temporary_delegate_expiry)
}
/// accounts whose place in an instruction follows from another named account's contents
fn relations(ix: &Ix) -> Vec<(&'static str, String, Pubkey)> {
    let s = ix.pre;
    let mut v: Vec<(&'static str, String, Pubkey)> = vec![];
    let bank = |n: &str| ix.acc(n).and_then(|k| s.banks.get(&k).or_else(|| ix.post.banks.get(&k)).cloned());
    let perp = |n: &str| ix.acc(n).and_then(|k| s.perps.get(&k).or_else(|| ix.post.perps.get(&k)).cloned());
    for (b, vault, oracle) in [
        ("bank", "vault", "oracle"),
        ("quote_bank", "quote_vault", "quote_oracle"),
        ("base_bank", "base_vault", "base_oracle"),
        ("payer_bank", "payer_vault", "payer_oracle"),
        ("settle_bank", "settle_vault", "settle_oracle"),
        ("insurance_bank", "insurance_bank_vault", "insurance_oracle"),
        ("mngo_bank", "", "mngo_oracle"),
        ("fees_bank", "", "fees_oracle"),
    ] {
        let Some(x) = bank(b) else { continue };
        if !vault.is_empty() {
            v.push((vault, format!("the vault of {b}"), x.vault));
        }
        if !ix.is(&["token_register", "token_register_trustless", "token_add_bank"]) {
            v.push((oracle, format!("the oracle of {b}"), x.oracle));
        }
    }
    if let Some(m) = perp("perp_market") {
        if !ix.is(&["perp_create_market", "perp_edit_market"]) {
            v.push(("bids", "the market's bids".into(), m.bids));
            v.push(("asks", "the market's asks".into(), m.asks));
            v.push(("event_queue", "the market's event queue".into(), m.event_queue));
            v.push(("oracle", "the market's oracle".into(), m.oracle));
        }
    }
    if let Some(m) = ix.acc("serum_market").and_then(|k| s.serum.get(&k)) {
        v.push(("serum_program", "the market's program".into(), m.serum_program));
        v.push(("serum_market_external", "the market's external market".into(), m.serum_market_external));
        if let Some(a) = ix.acc("account").and_then(|k| s.accounts.get(&k)) {
            if ix.name != "serum3_create_open_orders" {
                let oo = a.active_serum().find(|o| o.market_index == m.market_index).map_or(Pubkey::default(), |o| o.open_orders);
                v.push(("open_orders", "the account's open orders in the market".into(), oo));
            }
        }
    }
    if let Some(g) = ix.acc("group").and_then(|k| s.groups.get(&k)) {
        v.push(("insurance_vault", "the group's insurance vault".into(), g.insurance_vault));
        if ix.name == "account_buyback_fees_with_mngo" {
            v.push(("dao_account", "the group's fee account".into(), g.buyback_fees_swap_mango_account));
        }
    }
    if ix.name == "token_update_index_and_rate" {
        if let Some(m) = ix.acc("mint_info").and_then(|k| s.mints.get(&k)) {
            v.push(("oracle", "the token's oracle".into(), m.oracle));
        }
    }
    v
}
/// named banks that have to be of a particular token
fn tokens(ix: &Ix) -> Vec<(&'static str, String, u16)> {
    let s = ix.pre;
    let mut v = vec![];
    if let Some(m) = ix.acc("perp_market").and_then(|k| s.perps.get(&k)) {
        for b in ["settle_bank", "bank"] {
            v.push((b, "the market's settle token".into(), m.settle_token_index));
        }
    }
    if let Some(m) = ix.acc("serum_market").and_then(|k| s.serum.get(&k)) {
        v.push(("quote_bank", "the market's quote token".into(), m.quote_token_index));
        v.push(("base_bank", "the market's base token".into(), m.base_token_index));
        let bid = ix.args().u8() == 0;
        v.push(("payer_bank", "the token the order sells".into(), if bid { m.quote_token_index } else { m.base_token_index }));
    }
    if let Some(g) = ix.acc("group").and_then(|k| s.groups.get(&k)) {
        v.push(("mngo_bank", "the group's fee token".into(), g.mngo_token_index));
        v.push(("fees_bank", "the quote token".into(), 0));
    }
    if ix.name == "token_conditional_swap_cancel" {
        let mut a = ix.args();
        let (i, id) = (a.u8() as usize, a.u64());
        if let Some(t) = ix.acc("account").and_then(|k| s.accounts.get(&k)).and_then(|a| a.tcs.get(i)) {
            if t.is_configured == 1 && t.id == id {
                v.push(("buy_bank", "the token the swap buys".into(), t.buy_token_index));
                v.push(("sell_bank", "the token the swap sells".into(), t.sell_token_index));
            }
        }
    }
    v
}
fn group_of(s: &State, k: &Pubkey) -> Option<(&'static str, Pubkey)> {
    None.or_else(|| s.accounts.get(k).map(|x| ("account", x.fx.group)))
        .or_else(|| s.banks.get(k).map(|x| ("bank", x.group)))
        .or_else(|| s.perps.get(k).map(|x| ("market", x.group)))
        .or_else(|| s.serum.get(k).map(|x| ("spot market", x.group)))
        .or_else(|| s.mints.get(k).map(|x| ("token", x.group)))
        .or_else(|| s.stubs.get(k).map(|x| ("oracle", x.group)))
}
const JUPITER: [&str; 3] = [
    "JUP6LkbZbjS1jKKwapdHNy74zcZ3tLUZoi5QNyVTaV4",
    "JUP4Fb2cqiRUcaTHdrPC8h2gNsA2ETXiPDD33WcGuJB",
    "JUP3c2Uh3WA4Ng34tw6kPd2G4C5BB21Xo36Je1s32Ph",
];
fn delegate_may_call(k: &Pubkey) -> bool {
    let s = k.to_string();
    JUPITER.contains(&s.as_str())
        || *k == spl_associated_token_account::id()
        || s == "ComputeBudget111111111111111111111111111111"
        || *k == mango_v4::id()
}

#[derive(Default)]
pub struct Access {}
impl Access {
    fn gate_open(g: &Group, ix: &Ix, n: u32) -> bool {
        let on = |n: u32| g.ix_gate & (1u128 << n) == 0;
        on(n) || (ix.name == "serum3_place_order" && on(71))
    }
    fn one(&self, ix: &Ix, out: &mut Out) {
        let p = "C23";
        let Some(r) = rules().get(ix.name) else {
            out.fail(p, "unknown-instruction", format!("{} is not a documented instruction", ix.name));
            return;
        };
        let s = ix.pre;
        let mut fail = |k: &str, m: String| out.fail(p, &format!("{k}:{}", ix.name), format!("{}: {m}", ix.name));
        let acc = |n: &str| ix.acc(n).and_then(|k| s.accounts.get(&k).map(|a| (k, a)));
        // the group: named, or that of the account
        let gk = ix
            .acc("group")
            .or_else(|| acc("account").map(|(_, a)| a.fx.group))
            .unwrap_or_default();
        let group = s.groups.get(&gk);
        if ix.acc("group").is_some() && group.is_none() && ix.name != "group_create" {
            fail("no-group", format!("{gk} is no group"));
        }
        let changes = ix.changed();
        let mut facts = vec![];
        if let Some(g) = group {
            if let Some(n) = r.gate {
                if !Self::gate_open(g, ix, n) {
                    fail("disabled", "succeeded while switched off".into());
                }
            }
            if r.testing && g.testing == 0 {
                fail("not-testing", "succeeded in a group that is not for testing".into());
            }
            if let Some((kind, who)) = r.admin {
                let k = ix.acc(who).unwrap_or_default();
                let ok = ix.signed(&k) && (k == g.admin || kind == 'S' && k == g.security_admin || kind == 'F' && k == g.fast_listing_admin);
                if !ok {
                    fail("not-admin", format!("{k} is not the admin (signed: {})", ix.signed(&k)));
                }
                facts.push(format!("{kind} admin"));
            }
        }
        // who signs
        let mut allowed: BTreeSet<Pubkey> = BTreeSet::new();
        for (list, owner_only) in [(&r.owner, true), (&r.deleg, false)] {
            for (role, who) in list {
                let Some((k, a)) = acc(role) else {
                    fail("no-account", format!("{role} is no account"));
                    continue;
                };
                let w = ix.acc(who).unwrap_or_default();
                let ok = ix.signed(&w) && if owner_only { w == a.fx.owner } else { may_act(a, &w, ix.now) };
                // refusing and doing nothing come to the same
                if !ok && !changes.is_empty() {
                    fail("not-owner", format!("{w} acted for {role} {k} of {} (signed: {})", a.fx.owner, ix.signed(&w)));
                }
                facts.push(if w == a.fx.owner { format!("{role} by owner") } else if w == a.fx.delegate { format!("{role} by delegate") } else { format!("{role} by temporary delegate") });
                allowed.insert(k);
            }
        }
        for role in &r.live {
            if let Some((k, a)) = acc(role) {
                if super::liq::frozen(a, ix.now) && !changes.is_empty() {
                    fail("frozen", format!("{role} {k} is frozen until {}", a.fx.frozen_until));
                }
            }
        }
        for role in &r.free {
            if let Some(k) = ix.acc(role) {
                allowed.insert(k);
            }
        }
        // whose accounts changed
        for k in ix.changed() {
            if let Some(a) = s.accounts.get(&k) {
                if !allowed.contains(&k) && !r.free.contains(&"*") {
                    fail("bystander", format!("account {k} of {} changed", a.fx.owner));
                }
                if let Some(b) = ix.post.accounts.get(&k) {
                    let id = |x: &MAcc| (x.fx.owner, x.fx.group, x.fx.account_num);
                    if id(a) != id(b) {
                        fail("identity", format!("account {k} changed hands: {:?} to {:?}", id(a), id(b)));
                    }
                    let del = |x: &MAcc| (x.fx.delegate, x.fx.temporary_delegate, x.fx.temporary_delegate_expiry, x.fx.name);
                    if del(a) != del(b) && ix.name != "account_edit" {
                        fail("delegates", format!("the settings of account {k} changed"));
                    }
                    if a.fx.frozen_until != b.fx.frozen_until && ix.name != "account_toggle_freeze" {
                        fail("freeze", format!("account {k} was frozen or thawed"));
                    }
                } else if ix.name != "account_close" {
                    fail("closed", format!("account {k} is gone"));
                }
            } else if let Some(b) = ix.post.accounts.get(&k) {
                // new accounts
                let owner = ix.acc("owner").unwrap_or_default();
                if !ix.is(&["account_create", "account_create_v2"]) || b.fx.owner != owner || !ix.signed(&owner) || b.fx.group != gk {
                    fail("created", format!("an account of {} in {} came into being", b.fx.owner, b.fx.group));
                }
            }
            if let Some(g) = s.groups.get(&k) {
                let h = ix.post.groups.get(&k);
                let who = |g: &Group| (g.admin, g.security_admin, g.fast_listing_admin, g.creator);
                if h.map(|h| who(h)) != Some(who(g)) && !ix.is(&["group_edit", "group_close"]) {
                    fail("admins", "the group's admins changed".into());
                }
            } else if let Some(h) = ix.post.groups.get(&k) {
                if !ix.signed(&h.admin) || h.admin != h.creator {
                    fail("created", format!("a group of {} came into being", h.admin));
                }
            }
        }
        // everything named or changed belongs to the group, and to each other
        let named: Vec<(&str, Pubkey)> = ix.abi.map_or(vec![], |a| a.accounts.iter().filter_map(|n| ix.acc(n).map(|k| (*n, k))).collect());
        let changed = ix.changed();
        for (n, k) in named.iter().cloned().chain(changed.iter().map(|k| ("", *k))) {
            // an oracle may be anybody's; it has to be the one configured
            let of_group = n.is_empty()
                || n.ends_with("bank")
                || [
                    "account", "dao_account", "liqor", "liqee", "settler", "account_a", "account_b", "perp_market", "serum_market", "market", "mint_info", "liab_mint_info",
                ]
                .contains(&n)
                || ix.name.starts_with("stub_oracle") && n == "oracle";
            if !of_group {
                continue;
            }
            if let Some((kind, g)) = group_of(s, &k) {
                if g != gk {
                    fail("other-group", format!("{n} {kind} {k} belongs to another group"));
                }
            }
        }
        let mut n_rel = 0;
        for (role, what, want) in relations(ix) {
            let Some(k) = ix.acc(role) else { continue };
            n_rel += 1;
            if k != want {
                fail("wrong-account", format!("{role} is {k} and not {what} {want}"));
            }
        }
        for (role, what, want) in tokens(ix) {
            let Some(b) = ix.acc(role).and_then(|k| s.banks.get(&k)) else { continue };
            n_rel += 1;
            if b.token_index != want {
                fail("wrong-token", format!("{role} is of token {} and not {what} {want}", b.token_index));
            }
        }
        if ix.is(&["token_liq_bankruptcy", "liq_token_bankruptcy"]) {
            if let (Some(k), Some(g), Some(iv)) = (ix.acc("quote_vault"), group, ix.acc("insurance_vault")) {
                // it matters only if the insurance fund pays
                let paid = changes.contains(&iv);
                if paid && !s.banks.values().any(|b| b.group == gk && b.mint == g.insurance_mint && b.vault == k) {
                    fail("wrong-account", format!("the insurance fund paid into {k}"));
                }
            }
        }
        // delegates take nothing out
        for (role, who) in &r.deleg {
            let (Some((k, a)), Some(w)) = (acc(role), ix.acc(who)) else { continue };
            if w == a.fx.owner || !ix.is(&["token_withdraw"]) || changes.is_empty() {
                continue;
            }
            facts.push("delegate withdraws".into());
            let Some(b) = ix.acc("bank").and_then(|b| s.banks.get(&b)) else { continue };
            // asking for all of a debt does nothing
            let pos = |st: &State| st.accounts.get(&k).and_then(|x| x.tok(b.token_index).map(|p| p.indexed_position.to_bits()));
            if pos(s) == pos(ix.post) && s.tok_amount(&b.vault) == ix.post.tok_amount(&b.vault) {
                continue;
            }
            let to = ix.acc("token_account").unwrap_or_default();
            let ata = spl_associated_token_account::get_associated_token_address(&a.fx.owner, &b.mint);
            let holder = s.tokens.get(&to).map(|t| t.owner);
            if to != ata || holder != Some(a.fx.owner) {
                fail("delegate-destination", format!("{w} withdrew from {k} to {to} of {holder:?}"));
            }
            if ix.post.accounts.get(&k).map_or(false, |x| x.tok(b.token_index).is_some()) {
                fail("delegate-partial", format!("{w} withdrew from {k} and left a position"));
            }
        }
        let off = group.map_or(0, |g| g.ix_gate.count_ones());
        out.eval("authorized", (ix.name, facts.clone(), n_rel, off), || format!("{} ({}; {n_rel} account relations)", ix.name, facts.join(", ")));
        if off > 0 {
            out.count("with-switches-off");
        }
    }
}
/// how a refused transaction differs from a permitted one, as far as the monitor can tell
fn faults(t: &Tx) -> Vec<&'static str> {
    let mut v = vec![];
    let Err((i, _)) = &t.rec.result else { return v };
    let r = super::unforward_raw(&t.rec.ixs[*i]);
    let Some(abi) = super::ix_abi(&r.1) else { return v };
    let Some(rule) = rules().get(abi.name) else { return v };
    let s = t.pre;
    let at = |n: &str| abi.accounts.iter().position(|a| *a == n).and_then(|j| r.0.get(j)).cloned();
    let gk = at("group").map(|m| m.0).or_else(|| at("account").and_then(|m| s.accounts.get(&m.0).map(|a| a.fx.group)));
    let g = gk.and_then(|k| s.groups.get(&k));
    if let (Some(g), Some(n)) = (g, rule.gate) {
        if g.ix_gate & (1u128 << n) != 0 {
            v.push("switched-off");
        }
    }
    if let (Some(g), Some((kind, who))) = (g, rule.admin) {
        if let Some((k, signed)) = at(who) {
            if !signed {
                v.push("admin-unsigned");
            } else if !(k == g.admin || kind == 'S' && k == g.security_admin || kind == 'F' && k == g.fast_listing_admin) {
                v.push("not-admin");
            }
        }
    }
    for (list, only) in [(&rule.owner, true), (&rule.deleg, false)] {
        for (role, who) in list {
            if let (Some((k, _)), Some((w, signed))) = (at(role), at(who)) {
                let Some(a) = s.accounts.get(&k) else { continue };
                if !signed {
                    v.push("owner-unsigned");
                } else if w != a.fx.owner && (only || !may_act(a, &w, t.now)) {
                    v.push("not-owner");
                }
            }
        }
    }
    for role in &rule.live {
        if let Some(a) = at(role).and_then(|m| s.accounts.get(&m.0)) {
            if super::liq::frozen(a, t.now) {
                v.push("frozen");
            }
        }
    }
    if let Some(gk) = gk {
        for n in &abi.accounts {
            if let Some((k, _)) = at(n) {
                if !s.stubs.contains_key(&k) && group_of(s, &k).map_or(false, |(_, g)| g != gk) {
                    v.push("other-group");
                }
            }
        }
    }
    v.dedup();
    v
}
impl Monitor for Access {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        self.one(ix, out);
    }
    fn tx(&mut self, t: &Tx, out: &mut Out) {
        // what a delegate may do with borrowed funds
        for (i, ix) in t.ixs.iter().enumerate() {
            if !ix.is(&["flash_loan_begin", "flash_loan_swap_begin"]) {
                continue;
            }
            let Some(a) = ix.acc("account").and_then(|k| ix.pre.accounts.get(&k)) else { continue };
            let Some(w) = ix.acc("owner") else { continue };
            if w == a.fx.owner {
                continue;
            }
            out.eval("delegate-flash-loan", (i, t.ixs.len()), || format!("{} instructions follow", t.ixs.len() - i - 1));
            for later in &t.ixs[i + 1..] {
                if !delegate_may_call(&later.rec.program_id) {
                    out.fail("C23", "delegate-program", format!("a delegate's flash loan called {}", later.rec.program_id));
                }
            }
        }
        // tokens that are not the program's move only with their owner's signature
        let vaults: BTreeSet<Pubkey> = t.pre.banks.values().map(|b| b.vault).chain(t.pre.groups.values().map(|g| g.insurance_vault)).collect();
        for ix in t.ixs.iter().filter(|i| i.mango) {
            for k in ix.changed() {
                if let Some(x) = ix.pre.tokens.get(&k) {
                    let y = ix.post.tokens.get(&k);
                    if vaults.contains(&k) || y.map_or(0, |y| y.amount) >= x.amount {
                        continue;
                    }
                    // the exchange's own vaults answer to the exchange
                    if ix.name.starts_with("serum3") {
                        continue;
                    }
                    if !ix.signed(&x.owner) && !t.pre.groups.contains_key(&x.owner) {
                        out.fail("C23", &format!("tokens:{}", ix.name), format!("{} took tokens of {}", ix.name, x.owner));
                    }
                }
                if let (Some(x), Some(y)) = (ix.pre.raw.get(&k), ix.post.raw.get(&k)) {
                    // rent stays where it is
                    if x.owner == mango_v4::id() && y.lamports < x.lamports && !ix.is(&["account_expand", "account_expand_v2", "account_size_migration"]) {
                        out.fail("C23", &format!("lamports:{}", ix.name), format!("{} took lamports out of {k}", ix.name));
                    }
                }
            }
        }
    }
    fn failed(&mut self, t: &Tx, out: &mut Out) {
        let v = faults(t);
        if let (Err((i, _)), false) = (&t.rec.result, v.is_empty()) {
            let name = super::ix_abi(&super::unforward_raw(&t.rec.ixs[*i]).1).map_or("", |a| a.name);
            out.eval("refused", (name, v.clone()), || format!("{name}: {}", v.join(", ")));
            for x in v {
                out.count(&format!("refused:{x}"));
            }
        }
    }
}
