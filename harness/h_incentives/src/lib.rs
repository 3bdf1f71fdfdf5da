//! Liquidity mining (contracts/tokenomics/incentives).
use astroport::asset::{Asset, AssetInfo};
use astroport::factory::PairType;
use astroport::incentives::*;
use chain::*;
use cosmwasm_std::*;
use std::rc::Rc;
use sx::*;

contract!(
    Incentives,
    astroport_incentives::instantiate::instantiate,
    astroport_incentives::execute::execute,
    astroport_incentives::query::query,
    reply = astroport_incentives::reply::reply
);
const I: &str = GENERATOR;
const A: &str = "alice_addr";
const B: &str = "bobby_addr";
const VEST: &str = "vest_addr";
const ASTRO: &str = "uastro";
const LP1: &str = "factory/pair_one/astroport/share";
const LP2: &str = "factory/pair_two/astroport/share";
const LP3: &str = "factory/pair_tri/astroport/share";
const R1: &str = "urewone";
const R2: &str = "urewtwo";
const E: u64 = EPOCH_LENGTH;
const E30: u128 = 1_000_000_000_000_000_000_000_000_000_000;

/// pays ASTRO to whom the rewards contract says
struct Vest;
impl Contract for Vest {
    fn execute(&self, _d: DepsMut, _e: Env, i: MessageInfo, m: &[u8]) -> Res {
        match from_json(m).map_err(err)? {
            astroport::vesting::ExecuteMsg::Claim { recipient: Some(r), amount: Some(a) } if i.sender == I => {
                Ok(Response::new().add_message(BankMsg::Send { to_address: r, amount: vec![cn(a.u128(), ASTRO)] }))
            }
            _ => Err("vesting".to_string()),
        }
    }
}
/// refuses every transfer of a coin while switched on
struct Refuse;
impl Contract for Refuse {
    fn execute(&self, _d: DepsMut, _e: Env, _i: MessageInfo, _m: &[u8]) -> Res {
        Ok(Response::new())
    }
    fn sudo(&self, d: DepsMut, _e: Env, _m: &[u8]) -> Res {
        match d.storage.get(b"on") {
            Some(_) => Err("refused".to_string()),
            None => Ok(Response::new()),
        }
    }
}
fn setup_fee(fee: Option<IncentivizationFeeInfo>) -> Chain {
    let mut c = Chain::new();
    c.time = EPOCHS_START + 40 * E + 1000;
    c.factory_stub(false, true);
    c.put(VEST, Rc::new(Vest));
    c.fund(VEST, ASTRO, E30);
    c.pair_stub("pair_one", &native("uaaa"), &native("ubbb"), 1, 1);
    c.pair_stub("pair_two", &native("uaaa"), &native("uccc"), 1, 1);
    c.pair_stub("pair_tri", &native("uddd"), &native("ueee"), 1, 1);
    let m = InstantiateMsg {
        owner: OWNER.to_string(),
        factory: FACTORY.to_string(),
        astro_token: native(ASTRO),
        vesting_contract: VEST.to_string(),
        incentivization_fee_info: fee,
        guardian: Some("guard_addr".to_string()),
    };
    c.instantiate(I, Rc::new(Incentives), OWNER, &m, &[]).expect("instantiate");
    c
}
fn setup() -> Chain {
    setup_fee(None)
}
fn rate(c: &mut Chain, r: u128) {
    c.execute(OWNER, I, &ExecuteMsg::SetTokensPerSecond { amount: Uint128::new(r) }, &[]).expect("rate");
}
fn pools(c: &mut Chain, p: &[(&str, u128)]) -> Result<(), String> {
    let pools = p.iter().map(|(l, v)| (l.to_string(), Uint128::new(*v))).collect();
    c.execute(OWNER, I, &ExecuteMsg::SetupPools { pools }, &[])
}
fn deposit(c: &mut Chain, who: &str, lp: &str, v: u128) -> Result<(), String> {
    c.fund(who, lp, v);
    c.execute(who, I, &ExecuteMsg::Deposit { recipient: None }, &[cn(v, lp)])
}
fn withdraw(c: &mut Chain, who: &str, lp: &str, v: u128) -> Result<(), String> {
    c.execute(who, I, &ExecuteMsg::Withdraw { lp_token: lp.to_string(), amount: Uint128::new(v) }, &[])
}
fn claim(c: &mut Chain, who: &str, lp: &[&str]) -> Result<(), String> {
    c.execute(who, I, &ExecuteMsg::ClaimRewards { lp_tokens: lp.iter().map(|x| x.to_string()).collect() }, &[])
}
fn incentivize(c: &mut Chain, who: &str, lp: &str, rew: &str, v: u128, n: u64) -> Result<(), String> {
    c.fund(who, rew, v);
    let s = InputSchedule { reward: Asset { info: native(rew), amount: Uint128::new(v) }, duration_periods: n };
    c.execute(who, I, &ExecuteMsg::Incentivize { lp_token: lp.to_string(), schedule: s }, &[cn(v, rew)])
}
fn remove(c: &mut Chain, lp: &str, rew: &str, bypass: bool) -> Result<(), String> {
    let m = ExecuteMsg::RemoveRewardFromPool { lp_token: lp.to_string(), reward: rew.to_string(), bypass_upcoming_schedules: bypass, receiver: "recv_addr".to_string() };
    c.execute(OWNER, I, &m, &[])
}
fn orphans(c: &mut Chain) -> Result<(), String> {
    c.execute(OWNER, I, &ExecuteMsg::ClaimOrphanedRewards { limit: None, receiver: "orph_addr".to_string() }, &[])
}
fn staked(c: &Chain, who: &str, lp: &str) -> u128 {
    c.query::<Uint128>(I, &QueryMsg::Deposit { lp_token: lp.to_string(), user: who.to_string() }).unwrap().u128()
}
fn total(c: &Chain, lp: &str) -> u128 {
    c.query::<PoolInfoResponse>(I, &QueryMsg::PoolInfo { lp_token: lp.to_string() }).unwrap().total_lp.u128()
}
/// what a user is told they can claim
fn pending(c: &Chain, who: &str, lp: &str, rew: &str) -> u128 {
    let v: Vec<Asset> = match c.query(I, &QueryMsg::PendingRewards { lp_token: lp.to_string(), user: who.to_string() }) {
        Ok(v) => v,
        Err(_) => return 0,
    };
    v.iter().filter(|a| a.info == native(rew)).map(|a| a.amount.u128()).sum()
}
fn dt(name: &str, max: u64) -> u64 {
    in_u64(name, 0, max)
}

/// emissions: two stakers share a pool's part of the rate by stake and time
#[no_mangle]
pub fn inc_astro() {
    let mut c = setup();
    let r = in_u128("rate", 0, 1_000_000_000_000);
    rate(&mut c, r);
    pools(&mut c, &[(LP1, 3), (LP2, 1)]).expect("pools");
    let (a, b) = (in_u128("alice", 1, 1_000_000_000_000_000), in_u128("bobby", 1, 1_000_000_000_000_000));
    deposit(&mut c, A, LP1, a).expect("deposit");
    let (d1, d2) = (dt("t1", 1 << 24), dt("t2", 1 << 24));
    c.time += d1;
    deposit(&mut c, B, LP1, b).expect("deposit");
    check(c.balance(A, ASTRO) == 0 && c.balance(B, ASTRO) == 0, "a deposit pays nothing to others or to a new staker");
    c.time += d2;
    let (pa, pb) = (pending(&c, A, LP1, ASTRO), pending(&c, B, LP1, ASTRO));
    claim(&mut c, A, &[LP1]).expect("claim");
    claim(&mut c, B, &[LP1]).expect("claim");
    let (ga, gb) = (c.balance(A, ASTRO), c.balance(B, ASTRO));
    check(pa == ga && pb == gb, "a claim pays what was pending");
    // exact shares, scaled by 4 (a + b)
    let r3 = r.int() * k(3);
    let l = a.int() + b.int();
    let ea = r3 * (d1.int() * l + d2.int() * a);
    let eb = r3 * d2.int() * b;
    let s = l * k(4);
    ga.int().le(ea / s).check("no staker gets more than their share of the emissions");
    gb.int().le(eb / s).check("no later staker gets more than their share of the emissions");
    (ga.int() + k(3)).gt(ea / s).check("a staker gets their share of the emissions");
    (gb.int() + k(3)).gt(eb / s).check("a later staker gets their share of the emissions");
    check(claim(&mut c, A, &[LP1]).is_ok() && c.balance(A, ASTRO) == ga, "claiming again pays nothing");
    cover("claimed");
}
/// deposited LP tokens: every staker can take out exactly what was put in for them
#[no_mangle]
pub fn inc_custody() {
    let mut c = setup();
    rate(&mut c, 1_000_000);
    pools(&mut c, &[(LP1, 1)]).expect("pools");
    let (a, b) = (in_u128("alice", 1, E30), in_u128("bobby", 1, E30));
    deposit(&mut c, A, LP1, a).expect("deposit");
    c.time += dt("t1", 1 << 24);
    // bobby stakes, perhaps for alice
    let gift = in_bool("for_alice");
    c.fund(B, LP1, b);
    let m = ExecuteMsg::Deposit { recipient: if gift { Some(A.to_string()) } else { None } };
    check(c.execute(B, I, &m, &[cn(b, LP1)]).is_ok(), "deposits are accepted");
    let mut own = if gift { [a.int() + b.int(), k(0)] } else { [a.int(), b.int()] };
    let ok = |c: &Chain, own: &[Int; 2], l: &str| {
        (staked(c, A, LP1).int().eq(own[0]) & staked(c, B, LP1).int().eq(own[1])).check(l);
        let t = own[0] + own[1];
        (total(c, LP1).int().eq(t) & c.balance(I, LP1).int().eq(t)).check("the contract holds every staked LP token");
    };
    ok(&c, &own, "a deposit is credited to its recipient");
    // two withdrawals by anybody of anything
    for n in 0..2 {
        c.time += dt(["t2", "t3"][n], 1 << 24);
        let w = choice(["who1", "who2"][n], 3) as usize;
        let who = [A, B, "stranger_addr"][w];
        let v = in_u128(["amount1", "amount2"][n], 1, E30);
        let had = c.balance(who, LP1);
        let can = if w < 2 { v.int().le(own[w]).fork() } else { false };
        let r = withdraw(&mut c, who, LP1, v);
        check(r.is_ok() == can, "a staker can withdraw up to what was staked for them, at any time, and nobody more");
        if can {
            own[w] = own[w] - v.int();
            check(c.balance(who, LP1) == had + v, "a withdrawal returns the LP tokens");
        } else {
            check(c.balance(who, LP1) == had, "a refused withdrawal pays nothing");
        }
        ok(&c, &own, "withdrawals change only the position withdrawn from");
    }
    cover("withdrawn");
}
/// a reward token whose transfers fail blocks nobody's LP tokens or other rewards
#[no_mangle]
pub fn inc_stuck() {
    let mut c = setup();
    c.put("hook_addr", Rc::new(Refuse));
    c.hooks.push((R1.to_string(), "hook_addr".to_string()));
    let a = in_u128("alice", 1, E30);
    deposit(&mut c, A, LP1, a).expect("deposit");
    let (v1, v2) = (10 * E as u128, 7 * E as u128);
    incentivize(&mut c, B, LP1, R1, v1, 1).expect("incentivize");
    incentivize(&mut c, B, LP1, R2, v2, 1).expect("incentivize");
    c.time += in_u64("t", 1, 4 * E);
    let p = pending(&c, A, LP1, R2);
    if in_bool("refuse") {
        c.storage("hook_addr").set(b"on", b"1");
    }
    if in_bool("claim_first") {
        check(claim(&mut c, A, &[LP1]).is_ok(), "a failing reward transfer does not block claims");
    }
    let w = in_u128("amount", 1, E30);
    assume(w <= a);
    check(withdraw(&mut c, A, LP1, w).is_ok(), "a failing reward transfer does not block withdrawals");
    check(c.balance(A, LP1) == w, "the LP tokens are returned");
    check(c.balance(A, R2) == p, "other rewards are paid");
    cover("withdrawn");
}
fn funded(a: u128, now: u64, n: u64) -> (u64, Int) {
    // schedules end on weekly boundaries, counted from the first epoch
    let end = EPOCHS_START + ((now - EPOCHS_START) / E + 1 + n) * E;
    (end, a.int())
}
/// one external schedule: who gets what, and never more than was put in
fn ext(first: bool, t0: u64, n: u64, maxv: u128, maxl: u128) {
    let mut c = setup();
    let (a, b) = (in_u128("alice", 1, maxl), in_u128("bobby", 1, maxl));
    if first {
        deposit(&mut c, A, LP1, a).expect("deposit");
    }
    c.time += t0;
    let v = in_u128("reward", 1, maxv);
    let now = c.time;
    let ok = incentivize(&mut c, B, LP1, R1, v, n).is_ok();
    let (end, _) = funded(v, now, n);
    check(ok == (v >= (end - now) as u128), "a schedule of at least one unit a second is accepted");
    if !ok {
        stop();
    }
    check(c.balance(I, R1) == v && c.balance(B, R1) == 0, "a schedule is paid in full");
    let d0 = if first { 0 } else { dt("late", 600_000) };
    c.time += d0;
    if !first {
        deposit(&mut c, A, LP1, a).expect("deposit");
    }
    let (d1, d2) = (dt("t1", 3 * E), dt("t2", 3 * E));
    c.time += d1;
    deposit(&mut c, B, LP1, b).expect("deposit");
    check(c.balance(A, R1) == 0 && c.balance(B, R1) == 0, "nobody is paid by a deposit of somebody else");
    let mid = c.time;
    c.time += d2;
    let (pa, pb) = (pending(&c, A, LP1, R1), pending(&c, B, LP1, R1));
    let order = in_bool("bobby_first");
    for who in if order { [B, A] } else { [A, B] } {
        if (who == B) != order {
            check(withdraw(&mut c, who, LP1, if who == A { a } else { b }).is_ok(), "withdrawals work");
        } else {
            check(claim(&mut c, who, &[LP1]).is_ok(), "claims work");
        }
    }
    let (ga, gb) = (c.balance(A, R1), c.balance(B, R1));
    check(ga == pa && gb == pb, "a claim pays what was pending");
    // released per second: v / (end - now)
    let cut = |t: u64| if t < end { t } else { end };
    // what was released before anybody staked goes to those staked at the next update
    let e1 = if d1 == 0 && !first { 0 } else { cut(mid) - now };
    let e2 = cut(c.time) - now - e1;
    let l = a.int() + b.int();
    let dur = (end - now).int();
    let ea = v.int() * (e1.int() * l + e2.int() * a);
    let eb = v.int() * e2.int() * b;
    ga.int().le(ea / (dur * l)).check("no staker gets more than their share of the reward");
    gb.int().le(eb / (dur * l)).check("no later staker gets more than their share of the reward");
    if first || d1 + d2 > 0 {
        (ga.int() + k(4)).gt(ea / (dur * l)).check("a staker gets their share of the reward");
        (gb.int() + k(4)).gt(eb / (dur * l)).check("a later staker gets their share of the reward");
    }
    (ga.int() + gb.int()).le(v.int()).check("no more is paid than was put in");
    cover("claimed");
}
#[no_mangle]
pub fn inc_ext() {
    ext(true, [0, E - 1001][choice("t0", 2) as usize], 1, 1_000_000_000_000_000_000, 1_000_000_000_000)
}
#[no_mangle]
pub fn inc_ext_late() {
    ext(false, 0, 1, 1_000_000_000_000_000_000, 1_000_000_000_000)
}
#[no_mangle]
pub fn inc_ext_wide() {
    ext(in_bool("staked_before"), [0, E - 1001, E - 1000][choice("t0", 3) as usize], 1 + choice("weeks", 2), 1_000_000_000_000_000_000_000_000, 1_000_000_000_000_000)
}
/// schedules of one reward stacked on each other release together what each would alone
fn overlap(n: usize, offs: &[u64], weeks: u64) {
    let v: Vec<u128> = (0..n).map(|j| in_u128(["reward1", "reward2", "reward3"][j], 4 * E as u128, 1_000_000_000_000_000_000)).collect();
    overlap_of(&v, offs, weeks, true)
}
fn overlap_of(rewards: &[u128], offs: &[u64], weeks: u64, between: bool) {
    let n = rewards.len();
    let mut c = setup();
    let a = in_u128("alice", 1, 1_000_000_000_000);
    deposit(&mut c, A, LP1, a).expect("deposit");
    let mut sch: Vec<(u64, u64, u128)> = vec![];
    let mut sum = k(0);
    for j in 0..n {
        if j > 0 {
            c.time += offs[choice(["gap1", "gap2", "gap3"][j - 1], offs.len() as u64) as usize];
        }
        let w = 1 + choice(["weeks1", "weeks2", "weeks3"][j], weeks);
        let v = rewards[j];
        let (end, _) = funded(v, c.time, w);
        check(incentivize(&mut c, B, LP1, R1, v, w).is_ok(), "a schedule is accepted");
        sch.push((c.time, end, v));
        sum = sum + v.int();
    }
    check(c.balance(A, R1) == 0, "nothing is paid before a claim");
    // perhaps a claim on the way
    if between && in_bool("claim_between") {
        c.time += offs[choice("gap_claim", offs.len() as u64) as usize];
        claim(&mut c, A, &[LP1]).expect("claim");
    }
    c.time += in_u64("t", 0, (weeks + 2) * E);
    // what the schedule query promises for the time ahead
    let p = pending(&c, A, LP1, R1);
    let left = match c.query::<Vec<ScheduleResponse>>(I, &QueryMsg::ExternalRewardSchedules { reward: R1.to_string(), lp_token: LP1.to_string(), start_after: None, limit: None }) {
        Ok(v) => v.iter().fold(k(0), |x, r| {
            let rps = Uint128::try_from(r.rps.atomics()).unwrap();
            x + rps.int() * (r.end_ts - r.start_ts).int()
        }),
        Err(_) => k(0),
    };
    let got = c.balance(A, R1);
    check(claim(&mut c, A, &[LP1]).is_ok(), "claims work");
    let all = c.balance(A, R1);
    check(all == got + p, "a claim pays what was pending");
    let mut exact = k(0); // scaled by 1e18
    let e18 = k(1_000_000_000_000_000_000);
    for (t0, end, v) in &sch {
        let e = if c.time < *end { c.time - t0 } else { end - t0 };
        exact = exact + v.int() * e18 * e.int() / (end - t0).int();
    }
    (all.int() * e18).le(exact + k(3)).check("schedules release no more than the sum of each");
    ((all.int() + k(8)) * e18).gt(exact).check("schedules release the sum of each");
    (all.int() * e18 + left).le(sum * e18).check("what is left to come was funded");
    ((all.int() + k(10)) * e18 + left).gt(sum * e18).check("all that was funded is still to come");
    // in the end everything is paid
    c.time += 5 * E;
    check(claim(&mut c, A, &[LP1]).is_ok(), "claims work");
    let fin = c.balance(A, R1);
    (fin.int().le(sum)).check("no more is paid than was put in");
    ((fin.int() + k(10)).gt(sum)).check("all that was put in is paid in the end");
    cover("overlapped");
}
/// three schedules of fixed rewards at many offsets, claimed at any time
#[no_mangle]
pub fn inc_stack() {
    overlap_of(&[700 * E as u128 + 5, 300 * E as u128 + 1, 4900 * E as u128], &[0, E], 3, false)
}
#[no_mangle]
pub fn inc_overlap() {
    overlap(2, &[0, 5000, E], 2)
}
#[no_mangle]
pub fn inc_overlap3() {
    overlap(3, &[0, E, 2 * E], 3)
}
/// removal of a reward: stakers keep what was released, the rest goes back, and nothing is paid twice
#[no_mangle]
pub fn inc_remove() {
    let mut c = setup();
    let a = in_u128("alice", 1, 1_000_000_000_000);
    let before = in_bool("staked");
    if before {
        deposit(&mut c, A, LP1, a).expect("deposit");
    }
    let v = in_u128("reward", 4 * E as u128, 1_000_000_000_000_000_000);
    incentivize(&mut c, B, LP1, R1, v, 1).expect("incentivize");
    let mut sum = v.int();
    if in_bool("second") {
        c.time += 1000;
        let v2 = in_u128("reward2", 4 * E as u128, 1_000_000_000_000_000_000);
        incentivize(&mut c, B, LP1, R1, v2, 2).expect("incentivize");
        sum = sum + v2.int();
    }
    // others' money of the same coin is around
    c.fund(I, R1, 1_000_000_000_000_000_000_000);
    let extra = k(1_000_000_000_000_000_000_000);
    c.time += in_u64("t", 0, 3 * E);
    let p = pending(&c, A, LP1, R1);
    let stranger = ExecuteMsg::RemoveRewardFromPool { lp_token: LP1.to_string(), reward: R1.to_string(), bypass_upcoming_schedules: false, receiver: "recv_addr".to_string() };
    check(c.execute(A, I, &stranger, &[]).is_err(), "only the owner removes a reward");
    let r = remove(&mut c, LP1, R1, false);
    let back = c.balance("recv_addr", R1);
    check(pending(&c, A, LP1, R1) == p, "removal leaves what stakers are owed");
    if r.is_ok() {
        check(remove(&mut c, LP1, R1, false).is_err(), "a reward is removed once");
        let q = c.query::<Vec<ScheduleResponse>>(I, &QueryMsg::ExternalRewardSchedules { reward: R1.to_string(), lp_token: LP1.to_string(), start_after: None, limit: None });
        check(q.is_err(), "a removed reward has no schedule");
    }
    c.time += in_u64("t2", 0, 4 * E);
    if before {
        check(claim(&mut c, A, &[LP1]).is_ok(), "claims work after removal");
        check(c.balance(A, R1) == p || r.is_err(), "stakers get what was released before the removal");
    }
    let o = orphans(&mut c).is_ok();
    let orph = c.balance("orph_addr", R1);
    let out = c.balance(A, R1).int() + back.int() + orph.int();
    out.le(sum).check("a removed reward pays out no more than was put in");
    if r.is_ok() {
        (out + k(8)).gt(sum).check("a removed reward is paid out in full");
    }
    check(c.balance(I, R1).int().eq(extra + sum - out).fork(), "other money of the coin is untouched");
    check(!o || orphans(&mut c).is_err() || c.balance("orph_addr", R1) == orph, "orphaned rewards are taken once");
    cover(if r.is_ok() { "removed" } else { "finished" });
}
/// a schedule nobody staked for: the first staker or the owner gets it, once
#[no_mangle]
pub fn inc_orphan() {
    let mut c = setup();
    let v = in_u128("reward", 2 * E as u128, 1_000_000_000_000_000_000);
    incentivize(&mut c, B, LP1, R1, v, 1).expect("incentivize");
    // the same coin in another pool
    let other = in_bool("other_pool");
    let v2 = 3 * E as u128 + 1;
    if other {
        incentivize(&mut c, B, LP2, R1, v2, 1).expect("incentivize");
    }
    c.fund(I, R1, 1_000_000_000_000_000_000_000);
    c.time += in_u64("t", 0, 3 * E);
    let a = in_u128("alice", 1, 1_000_000_000_000);
    let staked = in_bool("staked");
    if staked {
        deposit(&mut c, A, LP1, a).expect("deposit");
    } else {
        // any touch of the pool settles it
        incentivize(&mut c, B, LP1, R2, 2 * E as u128, 1).expect("incentivize");
    }
    c.time += in_u64("t2", 0, 3 * E);
    let m = ExecuteMsg::ClaimOrphanedRewards { limit: None, receiver: A.to_string() };
    check(c.execute(A, I, &m, &[]).is_err(), "only the owner takes orphaned rewards");
    if staked {
        check(claim(&mut c, A, &[LP1]).is_ok(), "claims work");
    } else {
        incentivize(&mut c, B, LP1, R2, 2 * E as u128, 1).expect("incentivize");
    }
    let _ = orphans(&mut c);
    let _ = orphans(&mut c);
    c.time += 3 * E;
    if staked {
        check(claim(&mut c, A, &[LP1]).is_ok(), "claims work");
    } else {
        incentivize(&mut c, B, LP1, R2, 2 * E as u128, 1).expect("incentivize");
    }
    if other {
        incentivize(&mut c, B, LP2, R2, 2 * E as u128, 1).expect("incentivize");
    }
    let _ = orphans(&mut c);
    let _ = orphans(&mut c);
    let out = c.balance(A, R1).int() + c.balance("orph_addr", R1).int();
    let v = if other { v.int() + v2.int() } else { v.int() };
    out.le(v).check("no more is paid than was put in");
    (out + k(16)).gt(v).check("all that was put in is paid");
    cover("settled");
}
fn two(c: &mut Chain) -> (u128, u128) {
    let (a, b) = (in_u128("alice", 1, 1_000_000_000_000), in_u128("bobby", 1, 1_000_000_000_000));
    deposit(c, A, LP1, a).expect("deposit");
    deposit(c, B, LP1, b).expect("deposit");
    (a, b)
}
/// rewards ending in one block, by time or by removal, lose nobody's claims
#[no_mangle]
pub fn inc_same_block() {
    let mut c = setup();
    let (_, b) = two(&mut c);
    let (v1, v2) = (in_u128("reward1", 4 * E as u128, 1_000_000_000_000_000_000), in_u128("reward2", 4 * E as u128, 1_000_000_000_000_000_000));
    incentivize(&mut c, "payer_addr", LP1, R1, v1, 1).expect("incentivize");
    incentivize(&mut c, "payer_addr", LP1, R2, v2, 2).expect("incentivize");
    c.time += in_u64("t", 1, 3 * E);
    let (p1, p2) = (pending(&c, A, LP1, R1), pending(&c, A, LP1, R2));
    let (q1, q2) = (pending(&c, B, LP1, R1), pending(&c, B, LP1, R2));
    let m = choice("removed", 3);
    let r1 = m != 2 && remove(&mut c, LP1, R1, false).is_ok();
    let r2 = m != 1 && remove(&mut c, LP1, R2, false).is_ok();
    check(pending(&c, A, LP1, R1) == p1 && pending(&c, A, LP1, R2) == p2, "removals leave what stakers are owed");
    check(claim(&mut c, A, &[LP1]).is_ok(), "claims work");
    check(c.balance(A, R1) == p1 && c.balance(A, R2) == p2, "stakers get what was released before");
    c.time += in_u64("t2", 0, 3 * E);
    let ok = no_panic("claims and withdrawals keep working", || claim(&mut c, A, &[LP1]).is_ok() && withdraw(&mut c, B, LP1, b).is_ok());
    check(ok, "claims and withdrawals are accepted");
    check(!r1 || c.balance(A, R1) == p1 && c.balance(B, R1) == q1, "a removed reward pays nothing more");
    check(!r2 || c.balance(A, R2) == p2 && c.balance(B, R2) == q2, "another removed reward pays nothing more");
    check(c.balance(B, R1) >= q1 && c.balance(B, R2) >= q2, "others get what was released before");
    cover("done");
}
/// a reward that ends, or is removed, and comes back starts afresh for everybody
#[no_mangle]
pub fn inc_again() {
    let mut c = setup();
    let (a, b) = [(1, 1), (3, 1_000_000), (7_000_000_000_000, 5)][choice("stakes", 3) as usize];
    deposit(&mut c, A, LP1, a).expect("deposit");
    deposit(&mut c, B, LP1, b).expect("deposit");
    let v1 = in_u128("reward", 4 * E as u128, 1_000_000_000_000_000_000);
    incentivize(&mut c, "payer_addr", LP1, R1, v1, 1).expect("incentivize");
    c.time += in_u64("t", 1, E);
    let (p1, q1) = (pending(&c, A, LP1, R1), pending(&c, B, LP1, R1));
    // alice claims before the end, in the block of the removal or not at all
    let m = choice("claims", 3);
    if m == 1 {
        check(claim(&mut c, A, &[LP1]).is_ok(), "claims work");
    }
    remove(&mut c, LP1, R1, false).expect("remove");
    if m == 2 {
        check(claim(&mut c, A, &[LP1]).is_ok(), "claims work");
    }
    check(pending(&c, A, LP1, R1) == if m == 0 { p1 } else { 0 }, "a removal leaves what stakers are owed");
    // it comes back, at once or later
    if in_bool("later") {
        c.time += 50;
    }
    let v2 = in_u128("reward2", 4 * E as u128, 1_000_000_000_000_000_000);
    incentivize(&mut c, "payer_addr", LP1, R1, v2, 1).expect("incentivize");
    c.time += in_u64("t2", 0, 3 * E);
    if in_bool("removed_again") {
        let _ = remove(&mut c, LP1, R1, false);
    }
    let ok = no_panic("claims and withdrawals keep working", || claim(&mut c, A, &[LP1]).is_ok() && withdraw(&mut c, B, LP1, b).is_ok());
    check(ok, "claims and withdrawals are accepted");
    let (n, m) = (c.balance(A, R1).int() - p1.int(), c.balance(B, R1).int() - q1.int());
    (n.ge(k(0)) & m.ge(k(0))).check("what was owed before is paid");
    (n + m).le(v2.int()).check("a later schedule pays no more than was put in");
    ((n + k(3)) * b.int()).ge((m - k(3)) * a.int()).check("a later schedule is shared by stake");
    ((m + k(3)) * a.int()).ge((n - k(3)) * b.int()).check("a later schedule is shared by stake with others");
    cover("done");
}
entries!(inc_same_block, inc_again, inc_astro, inc_custody, inc_stuck, inc_ext, inc_ext_late, inc_ext_wide, inc_overlap, inc_stack, inc_overlap3, inc_remove, inc_orphan, inc_split, inc_change, inc_access, inc_fee, inc_owner, inc_page, inc_bypass, inc_block);
const POOLS: [&str; 3] = [LP1, LP2, LP3];
const C: &str = "carol_addr";
fn rps(c: &Chain, lp: &str) -> u128 {
    let v: Vec<RewardInfo> = match c.query(I, &QueryMsg::RewardInfo { lp_token: lp.to_string() }) {
        Ok(v) => v,
        Err(_) => return 0,
    };
    let mut r = 0;
    for x in &v {
        if !x.reward.is_external() {
            check(r == 0, "a pool has one ASTRO reward");
            r = Uint128::try_from(x.rps.atomics()).unwrap().u128();
        }
    }
    r
}
fn active(c: &Chain) -> Vec<(String, Uint128)> {
    c.query(I, &QueryMsg::ActivePools {}).unwrap()
}
/// the emission rates are those of the live pools by their points
fn split_ok(c: &Chain, r: u128, w: &[u128; 3], live: &[bool; 3]) {
    let e18 = k(1_000_000_000_000_000_000);
    let mut sum = k(0);
    let mut tot = k(0);
    for j in 0..3 {
        if live[j] {
            tot = tot + w[j].int();
        }
    }
    for j in 0..3 {
        let x = rps(c, POOLS[j]).int();
        sum = sum + x;
        if live[j] {
            let full = r.int() * w[j].int() * e18;
            ((x * tot).le(full) & ((x + k(1)) * tot).gt(full)).check("a pool's rate is its part of the whole by its points");
        } else {
            x.eq(k(0)).check("a pool that is not active has no rate");
        }
    }
    sum.le(r.int() * e18).check("the pools' rates add up to no more than the whole");
    let a = active(c);
    let mut n = 0;
    for j in 0..3 {
        if live[j] {
            n += 1;
            check(a.iter().any(|(l, v)| l == POOLS[j] && v.u128() == w[j]), "the list of active pools is right");
        }
    }
    check(a.len() == n, "the list of active pools has no others");
}
/// an administrative change of the active pools; returns whether it was done
fn change(c: &mut Chain, op: u64, w: &mut [u128; 3], live: &mut [bool; 3], r: &mut u128) -> bool {
    let blk = |c: &mut Chain, t: &[&str]| {
        let m = ExecuteMsg::UpdateBlockedTokenslist { add: t.iter().map(|x| native(x)).collect(), remove: vec![] };
        c.execute("guard_addr", I, &m, &[]).is_ok()
    };
    match op {
        0 => {
            *live = [false, true, true];
            *w = [0, 7, 2];
            pools(c, &[(LP3, 2), (LP2, 7)]).is_ok()
        }
        1 => {
            *r = in_u128("rate2", 0, 1_000_000_000_000);
            c.execute(OWNER, I, &ExecuteMsg::SetTokensPerSecond { amount: Uint128::new(*r) }, &[]).is_ok()
        }
        2 => {
            *live = [false, true, true];
            blk(c, &["ubbb"])
        }
        3 => {
            *live = [false, false, true];
            blk(c, &["uaaa"])
        }
        // both assets of one pool, and one of another
        4 => {
            *live = [false, false, true];
            blk(c, &["uaaa", "ubbb"])
        }
        5 => {
            *live = [false, false, true];
            blk(c, &["ubbb", "uzzz", "uccc"])
        }
        6 => {
            // two stable pools, whose type is now banned
            *live = [true, false, false];
            c.storage(FACTORY).set(b"blacklist", br#"[{"stable":{}}]"#);
            for p in ["pair_two", "pair_tri"] {
                c.storage(p).set(b"ptype", br#"{"stable":{}}"#);
            }
            c.execute("stranger_addr", I, &ExecuteMsg::DeactivateBlockedPools {}, &[]).is_ok()
        }
        _ => {
            *live = [true, false, true];
            c.execute(FACTORY, I, &ExecuteMsg::DeactivatePool { lp_token: LP2.to_string() }, &[]).is_ok()
        }
    }
}
/// how the whole rate is split between pools, after any change of them
#[no_mangle]
pub fn inc_split() {
    let mut c = setup();
    let mut r = in_u128("rate", 0, 1_000_000_000_000);
    rate(&mut c, r);
    let mut w = [in_u128("w1", 0, 1_000_000_000), in_u128("w2", 0, 1_000_000_000), in_u128("w3", 0, 1_000_000_000)];
    let ok = pools(&mut c, &[(LP1, w[0]), (LP2, w[1]), (LP3, w[2])]).is_ok();
    check(ok == (w[0] > 0 && w[1] > 0 && w[2] > 0), "pools are set up with positive points");
    if !ok {
        check(active(&c).is_empty(), "a refused setup changes nothing");
        stop();
    }
    let mut live = [true; 3];
    split_ok(&c, r, &w, &live);
    let op = choice("op", 8);
    check(change(&mut c, op, &mut w, &mut live, &mut r), "a change of the pools is accepted");
    split_ok(&c, r, &w, &live);
    cover("split");
}
/// emissions before and after a change of the pools: nobody loses or gains for the time before
#[no_mangle]
pub fn inc_change() {
    let mut c = setup();
    let mut r = in_u128("rate", 0, 1_000_000_000_000);
    rate(&mut c, r);
    let mut w = [3, 5, 1];
    pools(&mut c, &[(LP1, w[0]), (LP2, w[1]), (LP3, w[2])]).expect("pools");
    let who = [A, B, C];
    // one pool has its first staker only at the end, who then gets all since the beginning
    let late = choice("late_staker", 2) as usize * 2 + 1;
    for j in 0..3 {
        if j != late {
            deposit(&mut c, who[j], POOLS[j], 1_000_000).expect("deposit");
        }
    }
    let (d1, d2) = (dt("t1", 1 << 24), dt("t2", 1 << 24));
    c.time += d1;
    let p: Vec<u128> = (0..3).map(|j| pending(&c, who[j], POOLS[j], ASTRO)).collect();
    let mut live = [true; 3];
    let (w0, r0) = (w, r);
    let op = choice("op", 8);
    check(change(&mut c, op, &mut w, &mut live, &mut r), "a change of the pools is accepted");
    for j in 0..3 {
        check(pending(&c, who[j], POOLS[j], ASTRO) == p[j], "a change of the pools leaves what stakers are owed");
    }
    c.time += d2;
    if late < 3 {
        deposit(&mut c, who[late], POOLS[late], 1_000_000).expect("deposit");
    }
    c.time += 1;
    let t0 = (w0[0] + w0[1] + w0[2]) as u128;
    let t1: u128 = (0..3).filter(|j| live[*j]).map(|j| w[j]).sum();
    let mut sum = k(0);
    for j in 0..3 {
        check(claim(&mut c, who[j], &[POOLS[j]]).is_ok(), "claims work");
        let g = c.balance(who[j], ASTRO).int();
        sum = sum + g;
        let part = if live[j] { w[j] } else { 0 };
        // scaled by the product of the totals
        let e = r0.int() * d1.int() * k(w0[j] * t1) + r.int() * (d2.int() + k(1)) * k(part * t0);

        let s = k(t0 * t1);
        (g * s).le(e).check("no more is emitted to a pool than its part");
        ((g + k(3)) * s).gt(e).check("a pool's stakers get its part");
    }
    sum.le(r0.int() * d1.int() + r.int() * (d2.int() + k(1))).check("no more ASTRO is emitted than the rate");
    cover("changed");
}
/// who may do what
#[no_mangle]
pub fn inc_access() {
    let mut c = setup();
    rate(&mut c, 1000);
    pools(&mut c, &[(LP1, 1)]).expect("pools");
    incentivize(&mut c, B, LP1, R1, 4 * E as u128, 1).expect("incentivize");
    let noop = ExecuteMsg::UpdateConfig {
        astro_token: None,
        vesting_contract: None,
        generator_controller: Some("ctrl_addr".to_string()),
        guardian: None,
        incentivization_fee_info: None,
        token_transfer_gas_limit: None,
    };
    c.execute(OWNER, I, &noop, &[]).expect("config");
    let who = ["stranger_addr", OWNER, "ctrl_addr", "guard_addr", FACTORY, MAKER, VEST];
    let s = who[choice("sender", who.len() as u64) as usize];
    let fee = IncentivizationFeeInfo { fee_receiver: Addr::unchecked("taker_addr"), fee: cn(5, "ufee") };
    let cfg = |a: Option<AssetInfo>, v: Option<String>, f, g| ExecuteMsg::UpdateConfig {
        astro_token: a,
        vesting_contract: v,
        generator_controller: None,
        guardian: None,
        incentivization_fee_info: f,
        token_transfer_gas_limit: g,
    };
    let (m, who): (ExecuteMsg, &[&str]) = match choice("op", 10) {
        0 => (ExecuteMsg::SetupPools { pools: vec![(LP2.to_string(), Uint128::new(4))] }, &[OWNER, "ctrl_addr"]),
        1 => (ExecuteMsg::SetTokensPerSecond { amount: Uint128::new(9) }, &[OWNER]),
        2 => (cfg(Some(native("unew")), None, None, None), &[OWNER]),
        3 => (cfg(None, Some("newvest_addr".to_string()), None, None), &[OWNER]),
        4 => (cfg(None, None, Some(fee), None), &[OWNER]),
        5 => (cfg(None, None, None, Some(500_000)), &[OWNER]),
        6 => (ExecuteMsg::UpdateBlockedTokenslist { add: vec![native("uccc")], remove: vec![] }, &[OWNER, "guard_addr"]),
        7 => (
            ExecuteMsg::RemoveRewardFromPool { lp_token: LP1.to_string(), reward: R1.to_string(), bypass_upcoming_schedules: in_bool("bypass"), receiver: s.to_string() },
            &[OWNER],
        ),
        8 => (ExecuteMsg::DeactivatePool { lp_token: LP1.to_string() }, &[FACTORY]),
        _ => (noop.clone(), &[OWNER]),
    };
    let r = c.execute(s, I, &m, &[]);
    check(r.is_ok() == who.contains(&s), "only the roles allowed to can do an administrative act");
    if r.is_err() {
        check(active(&c).len() == 1 && rps(&c, LP1) > 0 && c.balance(s, R1) == 0, "a refused act changes nothing");
        cover("refused");
    } else {
        cover("accepted");
    }
}
/// what an incentive costs: the whole reward, and the fee for a new token
#[no_mangle]
pub fn inc_fee() {
    let f = in_u128("fee", 1, 1_000_000_000_000);
    let mut c = setup_fee(Some(IncentivizationFeeInfo { fee_receiver: Addr::unchecked("taker_addr"), fee: cn(f, "ufee") }));
    let rew = ["urewone", "ufee", ASTRO][choice("reward_coin", 3) as usize];
    let known = in_bool("known");
    if known && rew != ASTRO {
        // an earlier schedule of the same coin
        let v = 4 * E as u128;
        c.fund(B, rew, v);
        c.fund(B, "ufee", f);
        let s = InputSchedule { reward: asset(&native(rew), v), duration_periods: 1 };
        let fs = if rew == "ufee" { vec![cn(v + f, "ufee")] } else { vec![cn(f, "ufee"), cn(v, rew)] };
        c.execute(B, I, &ExecuteMsg::Incentivize { lp_token: LP1.to_string(), schedule: s }, &fs).expect("incentivize");
    }
    let left = in_bool("lapsed");
    if left {
        c.time += 3 * E;
    }
    let due = rew != ASTRO && !(known && !left);
    let q: bool = c.query(I, &QueryMsg::IsFeeExpected { lp_token: LP1.to_string(), reward: rew.to_string() }).unwrap();
    check(q == due, "the fee is asked for tokens that are not being paid now");
    let (took, had) = (c.balance("taker_addr", "ufee"), c.balance(I, rew));
    // two schedules at once, or one; funds of the reward and of the fee as the payer likes
    let (v1, v2) = (4 * E as u128, 5 * E as u128);
    let both = in_bool("two");
    let s = |v: u128| (LP1.to_string(), InputSchedule { reward: asset(&native(rew), v), duration_periods: 1 });
    let m = if both { ExecuteMsg::IncentivizeMany(vec![s(v1), s(v2)]) } else { ExecuteMsg::IncentivizeMany(vec![s(v1)]) };
    let need = if both { v1 + v2 } else { v1 };
    let pay = in_u128("paid", 1, 1_000_000_000_000_000);
    let payf = in_u128("paid_fee", 1, 1_000_000_000_000_000);
    let with = in_bool("send_fee_coin");
    let mut fs = vec![cn(pay, rew)];
    c.fund(B, rew, pay);
    if with && rew != "ufee" {
        c.fund(B, "ufee", payf);
        fs.insert(if rew < "ufee" { 0 } else { 1 }, cn(payf, "ufee"));
        fs.sort_by(|a, b| a.denom.cmp(&b.denom));
    }
    let r = c.execute(B, I, &m, &fs).is_ok();
    let fee = if due { f } else { 0 };
    let good = if rew == "ufee" { pay == need + fee } else { pay == need && if with { due && payf == f } else { !due } };
    check(r == good, "an incentive is taken exactly when the reward and the fee are paid in full, and nothing more");
    let d = c.balance("taker_addr", "ufee") - took;
    if r {
        check(d == fee && c.balance(I, rew) == had + need, "the fee goes to its receiver and the reward to the contract");
        check(c.balance(B, rew) == 0, "the payer pays what was sent");
        cover("taken");
    } else {
        check(d == 0 && c.balance(I, rew) == had && c.balance(B, rew) == pay, "a refused incentive costs nothing");
        cover("refused");
    }
}
#[no_mangle]
pub fn inc_owner() {
    let mut c = setup();
    ownership(
        &mut c,
        I,
        |c| c.query::<Config>(I, &QueryMsg::Config {}).unwrap().owner.to_string(),
        |c, w| c.execute(w, I, &ExecuteMsg::SetTokensPerSecond { amount: Uint128::new(7) }, &[]).is_ok(),
    );
}
/// stakers listed page by page are all the stakers, once each, in pages of what was asked
#[no_mangle]
pub fn inc_page() {
    let mut c = setup();
    let names = ["alice_addr", "bobby_addr", "carol_addr", "david_addr"];
    let mut want = vec![];
    for (j, n) in names.iter().enumerate() {
        if in_bool(["a", "b", "c", "d"][j]) {
            let v = in_u128(["va", "vb", "vc", "vd"][j], 1, E30);
            deposit(&mut c, n, LP1, v).expect("deposit");
            want.push((n.to_string(), v));
        }
    }
    if want.is_empty() {
        stop();
    }
    let limit = 1 + choice("limit", 4) as u8;
    let mut got: Vec<(String, Uint128)> = vec![];
    for _ in 0..5 {
        let p: Vec<(String, Uint128)> = c
            .query(I, &QueryMsg::PoolStakers { lp_token: LP1.to_string(), start_after: got.last().map(|x| x.0.clone()), limit: Some(limit) })
            .unwrap();
        check(p.len() <= limit as usize, "a page holds at most what was asked");
        check(p.len() == (want.len() - got.len()).min(limit as usize), "a page is full while there is more");
        got.extend(p);
    }
    check(got.len() == want.len() && (0..got.len()).all(|j| got[j].0 == want[j].0 && got[j].1.u128() == want[j].1), "every staker is listed once with their stake");
    cover("listed");
}
/// a removal that skips the upcoming schedules, and the coin again
#[no_mangle]
pub fn inc_bypass() {
    let mut c = setup();
    let a = in_u128("alice", 1, 1_000_000_000_000);
    deposit(&mut c, A, LP1, a).expect("deposit");
    let v: Vec<u128> = (0..3).map(|j| in_u128(["reward1", "reward2", "reward3"][j], 8 * E as u128, 1_000_000_000_000_000_000)).collect();
    incentivize(&mut c, B, LP1, R1, v[0], 1 + choice("weeks1", 2)).expect("incentivize");
    incentivize(&mut c, B, LP1, R1, v[1], 1 + 3 * choice("weeks2", 2)).expect("incentivize");
    c.time += in_u64("t", 0, E);
    remove(&mut c, LP1, R1, true).expect("remove");
    let again = in_bool("again");
    if again {
        incentivize(&mut c, B, LP1, R1, v[2], 1).expect("incentivize");
    } else {
        incentivize(&mut c, B, LP1, R2, v[2], 1).expect("incentivize");
    }
    c.time += in_u64("t2", 0, 8 * E);
    let p = pending(&c, A, LP1, R1).int();
    let sum = v[0].int() + v[1].int();
    let sum = if again { sum + v[2].int() } else { sum };
    (p + c.balance("recv_addr", R1).int()).le(sum).check("after a removal without its upcoming schedules no more is owed than was put in");
    cover("owed");
}
/// blocked tokens and pair types take no part; what is unknown to the factory neither
#[no_mangle]
pub fn inc_block() {
    let mut c = setup();
    rate(&mut c, 1000);
    let m = ExecuteMsg::UpdateBlockedTokenslist { add: vec![native("uccc"), native(R1)], remove: vec![] };
    c.execute(OWNER, I, &m, &[]).expect("block");
    let un = in_bool("unblock");
    if un {
        let m = ExecuteMsg::UpdateBlockedTokenslist { add: vec![], remove: vec![native("uccc"), native(R1)] };
        check(c.execute("guard_addr", I, &m, &[]).is_ok(), "tokens are unblocked");
    }
    let all: Vec<AssetInfo> = c.query(I, &QueryMsg::BlockedTokensList { start_after: None, limit: None }).unwrap();
    check(all.len() == if un { 0 } else { 2 } && (un || all.contains(&native("uccc")) && all.contains(&native(R1))), "the list of blocked tokens is right");
    let ban = in_bool("ban_type");
    if ban {
        c.storage(FACTORY).set(b"blacklist", br#"[{"xyk":{}}]"#);
    }
    // a pair the factory does not know, or one whose LP token is another
    c.put("fake_pair", Rc::new(PairStub));
    let i = [from_json(c.storage("pair_one").get(b"i0").unwrap()).unwrap(), native("uzzz")];
    for (j, x) in i.iter().enumerate() {
        let x: &AssetInfo = x;
        c.storage("fake_pair").set([b"i0", b"i1"][j], &to_json_vec(x).unwrap());
    }
    let clone = in_bool("clone");
    if clone {
        // pretends to be the registered pair
        let x = c.storage("pair_one").get(b"i1").unwrap();
        c.storage("fake_pair").set(b"i1", &x);
    }
    let fake = "factory/fake_pair/astroport/share";
    let lp = [LP1, LP2, fake, "ulpless"][choice("pool", 4) as usize];
    match choice("op", 3) {
        0 => {
            let ok = pools(&mut c, &[(lp, 5)]).is_ok();
            check(ok == (!ban && (lp == LP1 || lp == LP2 && un)), "emissions go only to registered pools without blocked tokens or types");
        }
        1 => {
            let rew = [R1, R2][choice("reward", 2) as usize];
            let ok = incentivize(&mut c, B, lp, rew, 4 * E as u128, 1).is_ok();
            check(ok == ((lp == LP1 || lp == LP2) && (un || rew == R2)), "incentives go only to registered pools, in tokens that are not blocked");
        }
        _ => {
            let v = in_u128("stake", 1, E30);
            let ok = deposit(&mut c, A, lp, v).is_ok();
            check(ok == (lp == LP1 || lp == LP2), "only LP tokens of registered pools are taken");
            check(c.balance(A, lp) == if ok { 0 } else { v }, "a refused deposit costs nothing");
        }
    }
    let m = ExecuteMsg::UpdateBlockedTokenslist { add: vec![native(ASTRO)], remove: vec![] };
    check(c.execute(OWNER, I, &m, &[]).is_err(), "ASTRO is never blocked");
    cover("asked");
}
