//! xASTRO staking (contracts/tokenomics/staking) and the balance tracker (contracts/periphery/tokenfactory_tracker).
use astroport::staking::{Config, ExecuteMsg, InstantiateMsg, QueryMsg, TrackerData};
use astroport::tokenfactory_tracker::{InstantiateMsg as TInit, QueryMsg as TQuery};
use chain::*;
use cosmwasm_std::*;
use std::rc::Rc;
use sx::*;

contract!(
    Staking,
    astroport_staking::contract::instantiate,
    astroport_staking::contract::execute,
    astroport_staking::contract::query,
    reply = astroport_staking::contract::reply
);
fn no_exec(_: DepsMut, _: Env, _: MessageInfo, _: Empty) -> StdResult<Response> {
    Err(StdError::generic_err("no execute"))
}
contract!(
    Tracker,
    astroport_tokenfactory_tracker::contract::instantiate,
    no_exec,
    astroport_tokenfactory_tracker::query::query,
    sudo = astroport_tokenfactory_tracker::contract::sudo
);
/// stands in for the tracker deployed with staking (an older release with its own query format)
pub struct OldTracker;
#[derive(serde::Deserialize)]
#[serde(rename_all = "snake_case")]
enum OldQ {
    BalanceAt { address: String, timestamp: Option<u64> },
    TotalSupplyAt { timestamp: Option<u64> },
}
impl Contract for OldTracker {
    fn execute(&self, _d: DepsMut, _e: Env, _i: MessageInfo, _m: &[u8]) -> Res {
        Err("no execute".to_string())
    }
    fn sudo(&self, d: DepsMut, _e: Env, _m: &[u8]) -> Res {
        let n = d.storage.get(b"n").map_or(0, |v| v[0]);
        d.storage.set(b"n", &[n + 1]);
        Ok(Response::new())
    }
    fn query(&self, _d: Deps, _e: Env, m: &[u8]) -> StdResult<Binary> {
        match from_json(m)? {
            OldQ::BalanceAt { address, timestamp } => {
                to_json_binary(&Uint128::new(timestamp.unwrap() as u128 * 2 + if address == USER { 1 } else { 0 }))
            }
            OldQ::TotalSupplyAt { timestamp } => to_json_binary(&Uint128::new(timestamp.unwrap() as u128 * 3)),
        }
    }
}
/// receives xASTRO through the staking hook
pub struct Sink;
impl Contract for Sink {
    fn execute(&self, d: DepsMut, _e: Env, i: MessageInfo, m: &[u8]) -> Res {
        d.storage.set(b"m", m);
        d.storage.set(b"s", i.sender.as_bytes());
        Ok(Response::new())
    }
}

const STK: &str = "staking_addr";
const ASTRO: &str = "factory/creator/astro";
const XASTRO: &str = "factory/staking_addr/xASTRO";
const USER: &str = "user_addr";
const RECV: &str = "recv_addr";
const E30: u128 = 1_000_000_000_000_000_000_000_000_000_000;

fn setup() -> Chain {
    let mut c = Chain::new();
    c.add_code(7, Rc::new(OldTracker));
    c.fund("holders", ASTRO, 1);
    let m = InstantiateMsg {
        deposit_token_denom: ASTRO.to_string(),
        tracking_admin: "admin".to_string(),
        tracking_code_id: 7,
        token_factory_addr: MODULE.to_string(),
    };
    c.instantiate(STK, Rc::new(Staking), OWNER, &m, &[]).expect("instantiate");
    let cfg: Config = c.query(STK, &QueryMsg::Config {}).expect("config");
    assert!(cfg.xastro_denom == XASTRO && cfg.astro_denom == ASTRO);
    c
}
/// the state staking can be in: every share is worth at least one unit of the deposit, the first thousand are locked
fn state(c: &mut Chain) -> (u128, u128) {
    let (d, s) = (in_u128("deposit", 0, E30), in_u128("shares", 0, E30));
    assume(s == 0 || (s > 1000 && d >= s));
    if s > 0 {
        c.fund(STK, XASTRO, 1000);
        c.fund("stakers", XASTRO, s - 1000);
    }
    c.set_balance(STK, ASTRO, d);
    (d, s)
}
#[no_mangle]
pub fn stake_enter() {
    let mut c = setup();
    let (d, s) = state(&mut c);
    let a = in_u128("amount", 1, E30);
    c.fund(USER, ASTRO, a);
    c.put("sink_addr", Rc::new(Sink));
    let (m, to) = match choice("msg", 3) {
        0 => (ExecuteMsg::Enter { receiver: None }, USER),
        1 => (ExecuteMsg::Enter { receiver: Some(RECV.to_string()) }, RECV),
        _ => (ExecuteMsg::EnterWithHook { contract_address: "sink_addr".to_string(), msg: Binary::from(b"{\"x\":1}") }, "sink_addr"),
    };
    let r = c.execute(USER, STK, &m, &[cn(a, ASTRO)]);
    let first = s == 0 || d == 0;
    if r.is_err() {
        if first {
            check(a <= 1000, "a first stake above the minimum is accepted");
        } else {
            (a.int() * s / d).eq(0u128).check("a stake that buys a share is accepted");
        }
        return;
    }
    cover("staked");
    let got = c.balance(to, XASTRO);
    obs("got", got);
    check(got > 0, "a stake buys a share");
    c.balance(STK, ASTRO).int().eq(d.int() + a).check("the stake is added to the deposit");
    check(c.balance(USER, ASTRO) == 0, "the stake is taken from the user");
    let s2 = c.supply_of(XASTRO);
    if first {
        cover("first");
        got.int().eq(a.int() - 1000u128).check("the first staker gets all but the minimum");
        check(c.balance(STK, XASTRO) == 1000, "the minimum shares stay locked");
        s2.int().eq(s.int() + a).check("only the staker's and the locked shares are minted");
    } else {
        got.int().eq(a.int() * s / d).check("a stake buys shares at the current rate, rounded down");
        s2.int().eq(s.int() + got).check("only the staker's shares are minted");
        check(c.balance(STK, XASTRO) == 1000, "the contract keeps no new shares");
        // nobody's share loses value
        ((d.int() + a) * s).ge(d.int() * s2).check("the value of a share does not fall");
    }
    (d.int() + a).ge(s2).check("every share is worth at least one unit");
    if to == "sink_addr" {
        let st = c.storage("sink_addr");
        check(st.get(b"m") == Some(b"{\"x\":1}".to_vec()), "the hook gets the user's message");
        check(st.get(b"s") == Some(STK.as_bytes().to_vec()), "the hook is called by staking");
    }
}
#[no_mangle]
pub fn stake_leave() {
    let mut c = setup();
    let (d, s) = state(&mut c);
    assume(s > 1000);
    let a = in_u128("amount", 1, E30);
    assume(a <= s - 1000);
    c.set_balance("stakers", XASTRO, s - 1000 - a);
    c.set_balance(USER, XASTRO, a);
    let (m, to) = match choice("msg", 2) {
        0 => (ExecuteMsg::Leave { receiver: None }, USER),
        _ => (ExecuteMsg::Leave { receiver: Some(RECV.to_string()) }, RECV),
    };
    let r = c.execute(USER, STK, &m, &[cn(a, XASTRO)]);
    check(r.is_ok(), "shares can always be redeemed");
    if r.is_err() {
        return;
    }
    cover("left");
    let got = c.balance(to, ASTRO);
    obs("got", got);
    got.int().eq(a.int() * d / s).check("shares are redeemed at the current rate, rounded down");
    (c.balance(STK, ASTRO).int() + got).eq(d).check("the deposit pays only the recipient");
    let s2 = c.supply_of(XASTRO);
    check(s2 == s - a, "the redeemed shares are burned");
    check(c.balance(USER, XASTRO) == 0 && c.balance(STK, XASTRO) == 1000, "the redeemed shares leave the user, the locked ones stay");
    ((d.int() - got) * s).ge(d.int() * s2).check("the value of a share does not fall");
    (d.int() - got).ge(s2).check("every share is worth at least one unit");
    let t: Addr = Addr::unchecked(c.query::<TrackerData>(STK, &QueryMsg::TrackerConfig {}).expect("tracker").tracker_addr);
    // the send of the shares, the burn, and one more send after the burn for the supply snapshot
    check(c.storage(t.as_str()).get(b"n").map_or(0, |v| v[0]) >= 3, "the tracker sees the supply after the burn");
}
/// staking and leaving at once never profits
#[no_mangle]
pub fn stake_round_trip() {
    let mut c = setup();
    let (d, s) = state(&mut c);
    let a = in_u128("amount", 1, E30);
    c.fund(USER, ASTRO, a);
    if c.execute(USER, STK, &ExecuteMsg::Enter { receiver: None }, &[cn(a, ASTRO)]).is_err() {
        return;
    }
    let got = c.balance(USER, XASTRO);
    if c.execute(USER, STK, &ExecuteMsg::Leave { receiver: None }, &[cn(got, XASTRO)]).is_err() {
        return;
    }
    cover("round trip");
    let back = c.balance(USER, ASTRO);
    obs("back", back);
    if s > 0 {
        check(back <= a, "staking and leaving never profits");
        check(c.balance(STK, ASTRO) >= d && c.supply_of(XASTRO) == s, "the other stakers lose nothing");
    }
}
/// payments in anything else are refused; queries
#[no_mangle]
pub fn stake_payment() {
    let mut c = setup();
    let (d, s) = state(&mut c);
    let a = in_u128("amount", 1, E30);
    c.fund(USER, "other", a);
    c.fund(USER, ASTRO, a);
    c.fund(USER, XASTRO, a);
    let enter = in_bool("enter");
    let m = if enter { ExecuteMsg::Enter { receiver: None } } else { ExecuteMsg::Leave { receiver: None } };
    let f = match choice("funds", 4) {
        0 => vec![],
        1 => vec![cn(a, "other")],
        2 => vec![cn(a, if enter { XASTRO } else { ASTRO })],
        _ => vec![cn(a, ASTRO), cn(a, XASTRO)],
    };
    check(c.execute(USER, STK, &m, &f).is_err(), "only the right token is accepted");
    cover("refused");
    let q: Uint128 = c.query(STK, &QueryMsg::TotalDeposit {}).expect("q");
    check(q.u128() == d, "the total deposit is the balance");
    let q: Uint128 = c.query(STK, &QueryMsg::TotalShares {}).expect("q");
    q.int().eq(s.int() + a).check("the total shares are the supply");
    let q: Uint128 = c.query(STK, &QueryMsg::BalanceAt { address: USER.to_string(), timestamp: None }).expect("q");
    check(q.u128() == a, "the current balance is the bank's");
    let t = in_u64("timestamp", 0, 1 << 40);
    let q: Uint128 = c.query(STK, &QueryMsg::BalanceAt { address: USER.to_string(), timestamp: Some(t) }).expect("q");
    q.int().eq(t.int() * k(2) + k(1)).check("a past balance is the tracker's");
    let q: Uint128 = c.query(STK, &QueryMsg::TotalSupplyAt { timestamp: Some(t) }).expect("q");
    q.int().eq(t.int() * k(3)).check("a past supply is the tracker's");
}

// ------------------------------------------------------------------ tracker
const TRK: &str = "tracker_addr";
const DENOM: &str = "factory/minter_addr/xtoken";
const WHO: [&str; 2] = ["alice_addr", "bobby_addr"];
fn tracker(secs: bool) -> Chain {
    let mut c = Chain::new();
    let m = TInit { tokenfactory_module_address: MODULE.to_string(), tracked_denom: DENOM.to_string(), track_over_seconds: secs };
    c.instantiate(TRK, Rc::new(Tracker), OWNER, &m, &[]).expect("instantiate");
    c.hooks.push((DENOM.to_string(), TRK.to_string()));
    c
}
fn at(c: &Chain, who: usize, unit: Option<u64>) -> u128 {
    c.query::<Uint128>(TRK, &TQuery::BalanceAt { address: WHO[who].to_string(), unit }).expect("balance").u128()
}
fn sup(c: &Chain, unit: Option<u64>) -> u128 {
    c.query::<Uint128>(TRK, &TQuery::TotalSupplyAt { unit }).expect("supply").u128()
}
fn history(n: usize) {
    let secs = in_bool("seconds");
    let mut c = tracker(secs);
    let unit = |c: &Chain| if secs { c.time } else { c.height };
    // value of (alice, bobby, recorded supply) at the beginning of each unit seen so far
    let mut log: Vec<(u64, [u128; 3])> = vec![];
    let mut seen = 0u128;
    for j in 0..n {
        // a new block: the other clock moves differently
        match choice(["gap0", "gap1", "gap2", "gap3"][j], 3) {
            0 => {}
            1 => {
                c.time += 5;
                c.height += 1;
            }
            _ => {
                c.time += 50;
                c.height += 7;
            }
        }
        let u = unit(&c);
        if log.last().map_or(true, |l| l.0 != u) {
            log.push((u, [c.balance(WHO[0], DENOM), c.balance(WHO[1], DENOM), seen]));
        }
        let v = in_u128(["v0", "v1", "v2", "v3"][j], 1, E30);
        let op = if j == 0 { 0 } else { choice(["op0", "op1", "op2", "op3"][j], 4) };
        let sb = c.supply_of(DENOM);
        let r = match op {
            0 => c.tf_mint(WHO[0], DENOM, v),
            1 => c.send(WHO[0], WHO[1], &[cn(v, DENOM)]),
            2 => c.send(WHO[0], WHO[0], &[cn(v, DENOM)]),
            _ => c.tf_burn(WHO[0], DENOM, v),
        };
        match r {
            Err(_) => {
                let b = log[log.len() - 1].1;
                let _ = b;
                (v.int().gt(c.balance(WHO[0], DENOM)) & b_(op != 0)).check("tracking never blocks a covered transfer");
                stop()
            }
            Ok(()) => {
                // the supply seen by the hook: after a mint, before a burn
                seen = if op == 0 { c.supply_of(DENOM) } else { sb };
            }
        }
    }
    cover("tracked");
    for w in 0..2 {
        check(at(&c, w, None) == c.balance(WHO[w], DENOM), "the current balance is the bank's");
        check(at(&c, w, Some(unit(&c))) == c.balance(WHO[w], DENOM), "the balance at the current unit is the bank's");
        for l in &log {
            if l.0 != unit(&c) {
                check(at(&c, w, Some(l.0)) == l.1[w], "the balance at a past unit is the one at its beginning");
                check(at(&c, w, Some(l.0 - 1)) == at_before(&log, l.0 - 1, w), "the balance between changes is the last one before");
            }
        }
    }
    check(sup(&c, None) == seen, "the current supply is the last one seen");
    for l in &log {
        if l.0 != unit(&c) {
            check(sup(&c, Some(l.0)) == l.1[2], "the supply at a past unit is the one at its beginning");
        }
    }
    obs("a", c.balance(WHO[0], DENOM));
}
fn b_(c: bool) -> B {
    b(c)
}
fn at_before(log: &[(u64, [u128; 3])], u: u64, w: usize) -> u128 {
    // first recorded unit at or after u
    for l in log {
        if l.0 >= u {
            return l.1[w];
        }
    }
    unreachable!()
}
#[no_mangle]
pub fn track_history() {
    history(3);
}
/// only the tracked denom is accepted, and the hook never writes on the non-blocking call
#[no_mangle]
pub fn track_denom() {
    let mut c = tracker(true);
    c.tf_mint(WHO[0], DENOM, 1000).expect("mint");
    #[derive(serde::Serialize)]
    #[serde(rename_all = "snake_case")]
    enum M {
        BlockBeforeSend { from: String, to: String, amount: Coin },
        TrackBeforeSend { from: String, to: String, amount: Coin },
    }
    let v = in_u128("amount", 1, E30);
    c.fund(WHO[0], "other", v);
    let (from, to, amount) = (WHO[0].to_string(), WHO[1].to_string(), cn(v, "other"));
    let block = in_bool("block");
    let m = if block { M::BlockBeforeSend { from, to, amount } } else { M::TrackBeforeSend { from, to, amount } };
    let r = c.sudo(TRK, &m);
    if block {
        check(r.is_err(), "another denom is not tracked");
    }
    cover("called");
    check(at(&c, 0, None) == 1000 && at(&c, 1, None) == 0 && sup(&c, None) == 1000, "the history does not change");
}

sx::entries!(stake_enter, stake_leave, stake_round_trip, stake_payment, track_history, track_denom);
