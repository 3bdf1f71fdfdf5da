//! Vesting (contracts/tokenomics/vesting).
use astroport::asset::AssetInfo;
use astroport::vesting::{Cw20HookMsg, ExecuteMsg, InstantiateMsg, QueryMsg, VestingAccount, VestingSchedule, VestingSchedulePoint};
use chain::*;
use cosmwasm_std::{to_json_binary, Uint128};
use std::rc::Rc;
use sx::*;

contract!(
    Vesting,
    astroport_vesting::contract::instantiate,
    astroport_vesting::contract::execute,
    astroport_vesting::contract::query
);
const V: &str = "vesting_addr";
const ASTRO: &str = "uastro";
const USER: &str = "user_addr";
const USER2: &str = "second_user";
const RECV: &str = "recv_addr";
const E24: u128 = 1_000_000_000_000_000_000_000_000;
const T0: u64 = 1_700_000_000;
const SPAN: u64 = 1 << 28;

fn setup(info: &AssetInfo) -> Chain {
    let mut c = Chain::new();
    c.time = T0;
    if let AssetInfo::Token { contract_addr } = info {
        c.cw20_new(contract_addr.as_str(), "minter", 6);
    }
    let m = InstantiateMsg { owner: OWNER.to_string(), vesting_token: info.clone() };
    c.instantiate(V, Rc::new(Vesting), OWNER, &m, &[]).expect("instantiate");
    c
}
#[derive(Clone, Copy)]
struct S {
    t0: u64,
    a0: u128,
    end: Option<(u64, u128)>,
}
impl S {
    fn any(p: [&str; 4], has_end: bool) -> S {
        let t0 = in_u64(p[0], T0 - SPAN, T0 + SPAN);
        let a0 = in_u128(p[1], 0, E24);
        let end = if has_end { Some((in_u64(p[2], T0 - SPAN, T0 + SPAN), in_u128(p[3], 0, E24))) } else { None };
        S { t0, a0, end }
    }
    fn total(&self) -> u128 {
        self.end.map_or(self.a0, |e| e.1)
    }
    fn msg(&self) -> VestingSchedule {
        VestingSchedule {
            start_point: VestingSchedulePoint { time: self.t0, amount: Uint128::new(self.a0) },
            end_point: self.end.map(|(time, a)| VestingSchedulePoint { time, amount: Uint128::new(a) }),
        }
    }
    /// a schedule the contract has to accept at T0
    fn valid(&self) -> bool {
        match self.end {
            None => true,
            Some((t, a)) => self.t0 < t && t > T0 && self.a0 < a,
        }
    }
    /// what has vested at t
    fn vested(&self, t: u64) -> Int {
        if t < self.t0 {
            return k(0);
        }
        match self.end {
            None => self.a0.int(),
            Some((te, ae)) => {
                if t >= te {
                    ae.int()
                } else {
                    self.a0.int() + (t.int() - self.t0) * (ae.int() - self.a0) / (te.int() - self.t0)
                }
            }
        }
    }
}
fn reg(c: &mut Chain, acc: Vec<(&str, Vec<S>)>, pay: u128) -> Result<(), String> {
    let vesting_accounts = acc
        .into_iter()
        .map(|(a, s)| VestingAccount { address: a.to_string(), schedules: s.iter().map(|s| s.msg()).collect() })
        .collect();
    let f = if pay > 0 { vec![cn(pay, ASTRO)] } else { vec![] };
    c.execute(OWNER, V, &ExecuteMsg::RegisterVestingAccounts { vesting_accounts }, &f)
}
fn claim(c: &mut Chain, who: &str, to: Option<&str>, amount: Option<u128>) -> Result<(), String> {
    c.execute(who, V, &ExecuteMsg::Claim { recipient: to.map(|s| s.to_string()), amount: amount.map(Uint128::new) }, &[])
}
fn avail(c: &Chain, who: &str) -> u128 {
    c.query::<Uint128>(V, &QueryMsg::AvailableAmount { address: who.to_string() }).expect("available").u128()
}
const A: [&str; 4] = ["start_a", "amount_a", "end_a", "total_a"];
const B_: [&str; 4] = ["start_b", "amount_b", "end_b", "total_b"];

/// registration: funded exactly, sane schedules only
#[no_mangle]
pub fn vest_register() {
    let info = native(ASTRO);
    let mut c = setup(&info);
    let s = S::any(A, in_bool("has_end"));
    let s2 = S::any(B_, false);
    let pay = in_u128("pay", 0, 2 * E24);
    c.fund(OWNER, ASTRO, 2 * E24);
    let two = in_bool("two_accounts");
    let acc = if two { vec![(USER, vec![s]), (USER2, vec![s2])] } else { vec![(USER, vec![s, s2])] };
    let r = reg(&mut c, acc, pay);
    let total = s.total().int() + s2.total();
    if r.is_err() {
        let ok = b(s.valid() && pay > 0) & total.eq(pay);
        (!ok).check("a sane schedule that is paid for is accepted");
        return;
    }
    cover("registered");
    check(s.valid(), "a schedule ends after it starts, in the future, and grows");
    total.eq(pay).check("schedules are funded exactly");
    check(c.balance(V, ASTRO) == pay, "the contract holds the funding");
}
/// two claims at arbitrary times, and all of it in the end
#[no_mangle]
pub fn vest_claim() {
    let info = native(ASTRO);
    let mut c = setup(&info);
    let s = S::any(A, in_bool("has_end"));
    let s2 = S::any(B_, false);
    let pay = s.total() + s2.total();
    c.fund(OWNER, ASTRO, 4 * E24);
    let other = in_u128("other", 1, E24);
    let o = S { t0: T0, a0: other, end: None };
    if reg(&mut c, vec![(USER, vec![s, s2]), (USER2, vec![o])], pay + other).is_err() {
        return;
    }
    let t1 = in_u64("t1", T0, T0 + SPAN);
    c.time = t1;
    let v1 = s.vested(t1) + s2.vested(t1);
    check(avail(&c, USER) == v1.to_u128(), "the claimable amount is what the schedules have unlocked");
    let amount = if in_bool("some") { Some(in_u128("claim", 0, 2 * E24)) } else { None };
    let r = claim(&mut c, USER, if in_bool("to") { Some(RECV) } else { None }, amount);
    let got1 = c.balance(USER, ASTRO) + c.balance(RECV, ASTRO);
    obs("got1", got1);
    match amount {
        Some(a) => {
            b(r.is_ok()).implies(v1.ge(a)).check("no more than the unlocked amount is paid");
            b(r.is_err()).implies(v1.lt(a)).check("any part of the unlocked amount is paid");
            check(got1 == if r.is_ok() { a } else { 0 }, "a claim pays the amount asked for");
        }
        None => {
            check(r.is_ok(), "the unlocked amount can be claimed");
            v1.eq(got1).check("a claim pays all that is unlocked");
        }
    }
    cover("claimed");
    // later
    let t2 = in_u64("t2", T0, T0 + SPAN);
    assume(t2 >= t1);
    c.time = t2;
    let v2 = s.vested(t2) + s2.vested(t2);
    (v2 - got1).eq(avail(&c, USER)).check("the claimable amount is what is unlocked and not yet paid");
    check(claim(&mut c, USER, None, None).is_ok(), "the unlocked amount can be claimed later");
    let got2 = c.balance(USER, ASTRO) + c.balance(RECV, ASTRO);
    v2.eq(got2).check("in all, exactly the unlocked amount is paid");
    check(avail(&c, USER2) == other, "another beneficiary is not affected");
    check(claim(&mut c, USER2, None, None).is_ok() && c.balance(USER2, ASTRO) == other, "another beneficiary is paid in full");
}
/// the owner takes back part of an active schedule
#[no_mangle]
pub fn vest_withdraw() {
    let info = native(ASTRO);
    let mut c = setup(&info);
    let s = S::any(A, true);
    c.fund(OWNER, ASTRO, E24);
    if reg(&mut c, vec![(USER, vec![s])], s.total()).is_err() {
        return;
    }
    let t1 = in_u64("t1", T0, T0 + SPAN);
    c.time = t1;
    let v1 = s.vested(t1);
    if in_bool("claim_before") {
        claim(&mut c, USER, None, None).expect("claim");
    }
    let got1 = c.balance(USER, ASTRO);
    let w = in_u128("withdraw", 0, E24);
    let who = [OWNER, USER][choice("who", 2) as usize];
    let m = ExecuteMsg::WithdrawFromActiveSchedule {
        account: USER.to_string(),
        recipient: if in_bool("to") { Some(RECV.to_string()) } else { None },
        withdraw_amount: Uint128::new(w),
    };
    let before = c.balance(OWNER, ASTRO);
    if c.execute(who, V, &m, &[]).is_err() {
        return;
    }
    cover("withdrawn");
    check(who == OWNER, "only the owner takes back");
    let (te, ae) = s.end.unwrap();
    check(s.t0 <= t1 && t1 < te && w > 0, "only from an active schedule");
    (v1 + w).lt(ae).check("only what is not yet unlocked");
    let out = c.balance(OWNER, ASTRO) - before + c.balance(RECV, ASTRO);
    check(out == w, "the owner gets the amount taken");
    (v1 - got1).eq(avail(&c, USER)).check("what is unlocked stays claimable");
    let t2 = in_u64("t2", T0, T0 + SPAN);
    assume(t2 >= t1);
    c.time = t2;
    let n = S { t0: t1, a0: v1.to_u128(), end: Some((te, ae - w)) };
    let v2 = n.vested(t2);
    (v2 - got1).eq(avail(&c, USER)).check("the rest unlocks linearly until the same end");
    check(claim(&mut c, USER, None, None).is_ok(), "the unlocked amount can be claimed later");
    v2.eq(c.balance(USER, ASTRO)).check("in all, exactly the unlocked amount is paid");
    c.time = te;
    if claim(&mut c, USER, None, None).is_err() {
        check(false, "everything can be claimed in the end");
    }
    (c.balance(USER, ASTRO).int() + w).eq(s.total()).check("in the end, everything is paid out");
    check(c.balance(V, ASTRO) == 0, "nothing is left over");
}
/// schedules registered later add to what was there
#[no_mangle]
pub fn vest_again() {
    let info = native(ASTRO);
    let mut c = setup(&info);
    let s = S::any(A, false);
    c.fund(OWNER, ASTRO, 4 * E24);
    if reg(&mut c, vec![(USER, vec![s])], s.total()).is_err() {
        return;
    }
    let t1 = in_u64("t1", T0, T0 + SPAN);
    c.time = t1;
    claim(&mut c, USER, None, None).expect("claim");
    let s2 = S::any(B_, in_bool("has_end"));
    if reg(&mut c, vec![(USER, vec![s2])], s2.total()).is_err() {
        return;
    }
    cover("registered again");
    c.time = T0 + 2 * SPAN;
    check(claim(&mut c, USER, None, None).is_ok(), "everything can be claimed in the end");
    (s.total().int() + s2.total()).eq(c.balance(USER, ASTRO)).check("in all, exactly what was funded is paid");
    check(c.balance(V, ASTRO) == 0, "nothing is left over");
}
/// cw20 vesting token: who may register, and in what token
#[no_mangle]
pub fn vest_cw20() {
    let info = token("astro_token");
    let mut c = setup(&info);
    c.cw20_new("bad_token", "minter", 6);
    let s = S::any(A, false);
    let tok = ["astro_token", "bad_token"][choice("token", 2) as usize];
    let who = [OWNER, USER][choice("who", 2) as usize];
    let pay = in_u128("pay", 0, E24);
    c.cw20_fund(tok, who, pay);
    let m = Cw20HookMsg::RegisterVestingAccounts {
        vesting_accounts: vec![VestingAccount { address: USER.to_string(), schedules: vec![s.msg()] }],
    };
    let m = cw20::Cw20ExecuteMsg::Send { contract: V.to_string(), amount: Uint128::new(pay), msg: to_json_binary(&m).unwrap() };
    let r = c.execute(who, tok, &m, &[]);
    let ok = who == OWNER && tok == "astro_token" && pay > 0 && pay == s.total();
    check(r.is_ok() == ok, "only the owner registers, and only with the vesting token paid in full");
    // a forged hook call
    let m2 = cw20::Cw20ReceiveMsg {
        sender: OWNER.to_string(),
        amount: Uint128::new(pay),
        msg: to_json_binary(&Cw20HookMsg::RegisterVestingAccounts { vesting_accounts: vec![] }).unwrap(),
    };
    check(c.execute(USER, V, &ExecuteMsg::Receive(m2), &[]).is_err(), "only the token can report a payment");
    if r.is_ok() {
        cover("registered");
        c.time = T0 + 2 * SPAN;
        check(claim(&mut c, USER, None, None).is_ok(), "everything can be claimed in the end");
        check(c.cw20_balance("astro_token", USER) == s.total(), "exactly what was funded is paid");
    }
    // nobody else registers natively
    let s3 = S::any(B_, false);
    let acc = vec![VestingAccount { address: USER.to_string(), schedules: vec![s3.msg()] }];
    check(c.execute(who, V, &ExecuteMsg::RegisterVestingAccounts { vesting_accounts: acc }, &[]).is_err(), "no registration without payment");
}
#[no_mangle]
pub fn vest_access() {
    let mut c = setup(&native(ASTRO));
    let s = S::any(A, false);
    c.fund(USER, ASTRO, E24);
    let acc = vec![VestingAccount { address: USER.to_string(), schedules: vec![s.msg()] }];
    let pay = in_u128("pay", 1, E24);
    check(c.execute(USER, V, &ExecuteMsg::RegisterVestingAccounts { vesting_accounts: acc }, &[cn(pay, ASTRO)]).is_err(), "only the owner registers");
    check(claim(&mut c, USER, None, None).is_err(), "nothing to claim without a schedule");
    cover("refused");
}

sx::entries!(vest_register, vest_claim, vest_withdraw, vest_again, vest_cw20, vest_access, vest_owner);
#[no_mangle]
pub fn vest_owner() {
    let mut c = setup(&native(ASTRO));
    for w in [OWNER, "next_addr", "third_addr", "stranger_addr"] {
        c.fund(w, ASTRO, E24);
    }
    ownership(
        &mut c,
        V,
        |c| c.query::<astroport::vesting::ConfigResponse>(V, &QueryMsg::Config {}).unwrap().owner.to_string(),
        |c, w| {
            let s = VestingSchedule { start_point: VestingSchedulePoint { time: T0 + 9, amount: Uint128::new(100) }, end_point: None };
            let acc = vec![VestingAccount { address: USER.to_string(), schedules: vec![s] }];
            c.execute(w, V, &ExecuteMsg::RegisterVestingAccounts { vesting_accounts: acc }, &[cn(100, ASTRO)]).is_ok()
        },
    );
}
