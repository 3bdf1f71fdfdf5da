//! Stable-swap pair (contracts/pair_stable).
use astroport::asset::{Asset, AssetInfo, PairInfo};
use astroport::factory::PairType;
use astroport::pair::{
    ConfigResponse, CumulativePricesResponse, Cw20HookMsg, ExecuteMsg, InstantiateMsg, QueryMsg, ReverseSimulationResponse, SimulationResponse,
    StablePoolConfig, StablePoolParams, StablePoolUpdateParams,
};
use chain::*;
use cosmwasm_std::{from_json, to_json_binary, Decimal, Uint128};
use std::rc::Rc;
use sx::*;

contract!(
    Pair,
    astroport_pair_stable::contract::instantiate,
    astroport_pair_stable::contract::execute,
    astroport_pair_stable::contract::query,
    reply = astroport_pair_stable::contract::reply
);
pub const PAIR: &str = "pair_addr";
pub const LP: &str = "factory/pair_addr/astroport/share";
pub const USER: &str = "user_addr";
const E18: u128 = 1_000_000_000_000_000_000;
const E24: u128 = 1_000_000_000_000_000_000_000_000;
const E30: u128 = 1_000_000_000_000_000_000_000_000_000_000;

struct S {
    c: Chain,
    i: [AssetInfo; 2],
    dec: [u8; 2],
}
impl S {
    fn new(cw20: bool, amp: u64, dec: [u8; 2], maker: bool) -> S {
        let mut c = Chain::new();
        c.factory_stub(maker, false);
        c.factory_fee(maker, 30, 3333);
        c.decimals("uaaa", dec[0]);
        let i = [native("uaaa"), if cw20 { token("token_b") } else { native("ubbb") }];
        if cw20 {
            c.cw20_new("token_b", "minter", dec[1]);
        } else {
            c.decimals("ubbb", dec[1]);
        }
        let m = InstantiateMsg {
            asset_infos: i.to_vec(),
            token_code_id: 1,
            factory_addr: FACTORY.to_string(),
            pair_type: PairType::Stable {},
            init_params: Some(to_json_binary(&StablePoolParams { amp, owner: None }).unwrap()),
        };
        c.instantiate(PAIR, Rc::new(Pair), FACTORY, &m, &[]).expect("instantiate");
        let p: PairInfo = c.query(PAIR, &QueryMsg::Pair {}).expect("pair");
        assert!(p.liquidity_token == LP);
        S { c, i, dec }
    }
    fn state(&mut self, x: u128, y: u128, s: u128) {
        let i = self.i.clone();
        self.c.give(&i[0], PAIR, x);
        self.c.give(&i[1], PAIR, y);
        if s > 0 {
            self.c.fund("lps", LP, s);
        }
    }
    fn swap(&mut self, d: usize, a: u128, belief_price: Option<Decimal>, max_spread: Option<Decimal>) -> Result<(), String> {
        let offer_asset = asset(&self.i[d], a);
        match &self.i[d] {
            AssetInfo::NativeToken { .. } => {
                let f = funds_of(&[&offer_asset]);
                self.c.execute(USER, PAIR, &ExecuteMsg::Swap { offer_asset, ask_asset_info: None, belief_price, max_spread, to: None }, &f)
            }
            AssetInfo::Token { contract_addr } => {
                let m = Cw20HookMsg::Swap { ask_asset_info: None, belief_price, max_spread, to: None };
                let m = cw20::Cw20ExecuteMsg::Send { contract: PAIR.to_string(), amount: Uint128::new(a), msg: to_json_binary(&m).unwrap() };
                self.c.execute(USER, contract_addr.as_str(), &m, &[])
            }
        }
    }
    fn provide(&mut self, d0: u128, d1: u128, min: Option<Uint128>) -> Result<(), String> {
        let (a, b) = (asset(&self.i[0], d0), asset(&self.i[1], d1));
        let mut f = funds_of(&[&a, &b]);
        f.retain(|c| !c.amount.is_zero());
        let m = ExecuteMsg::ProvideLiquidity { assets: vec![a, b], slippage_tolerance: None, auto_stake: None, receiver: None, min_lp_to_receive: min };
        self.c.execute(USER, PAIR, &m, &f)
    }
    fn withdraw(&mut self, lp: u128, min: Option<Vec<Asset>>) -> Result<(), String> {
        let m = ExecuteMsg::WithdrawLiquidity { assets: vec![], min_assets_to_receive: min };
        self.c.execute(USER, PAIR, &m, &[cn(lp, LP)])
    }
    fn update(&mut self, who: &str, p: &StablePoolUpdateParams) -> Result<(), String> {
        self.c.execute(who, PAIR, &ExecuteMsg::UpdateConfig { params: to_json_binary(p).unwrap() }, &[])
    }
    fn r(&self, d: usize) -> u128 {
        self.c.hold(&self.i[d], PAIR)
    }
    fn u(&self, d: usize) -> u128 {
        self.c.hold(&self.i[d], USER)
    }
    /// the amplification in force, times 100
    fn amp(&self) -> Decimal {
        let c: ConfigResponse = self.c.query(PAIR, &QueryMsg::Config {}).expect("config");
        let p: StablePoolConfig = from_json(c.params.unwrap()).unwrap();
        p.amp
    }
    /// amount of asset d as an 18-decimal number
    fn dec(&self, d: usize, v: impl ToInt) -> Int {
        v.int() * k(10u128.pow(18 - self.dec[d] as u32))
    }
}
const AMP: [u64; 4] = [1, 10, 100, 5000];
/// pool sizes (first, second) in whole tokens
const POOL: [[u128; 2]; 5] = [[1_000_000, 1_000_000], [1_000_000, 700_000], [50_000, 4_000_000], [3, 2], [9_000_000_000, 8_000_000_000]];
/// offered amount in thousandths of the offered reserve
const OFFER: [u128; 4] = [1, 100, 1000, 4000];
fn pow10(d: u8) -> u128 {
    10u128.pow(d as u32)
}
/// sign of the stable-swap equation: at least 0 iff the invariant of (x, y) is at least d.
/// 2A(x+y) + d >= 2A d + d^3/(4xy), times 4xy. All in 18 decimals
fn at_least(amp: u64, x: Int, y: Int, d: Int) -> B {
    let p = k(4) * x * y;
    let a2 = k(2 * amp as u128);
    (a2 * (x + y) * p + d * p).ge(a2 * d * p + d * d * d)
}
/// the invariant, rounded down (18 decimals)
fn invariant(amp: u64, x: Int, y: Int) -> Int {
    let (mut lo, mut hi) = (k(0), x + y);
    while lo.lt(hi).fork() {
        let m = (lo + hi + k(1)) / k(2);
        if at_least(amp, x, y, m).fork() {
            lo = m;
        } else {
            hi = m - k(1);
        }
    }
    lo
}
const EPS: u128 = 2_000_000_000_000;
fn pick(s: &mut S, d: usize, pools: u64, offers: u64) -> (u128, u128, u128) {
    let (p, f) = (POOL[choice("pool", pools) as usize], OFFER[choice("offer", offers) as usize]);
    let (x, y) = (p[0] * pow10(s.dec[0]), p[1] * pow10(s.dec[1]));
    s.state(x, y, 1_000_000);
    let a = [x, y][d] / 1000 * f;
    let i = s.i.clone();
    s.c.give(&i[d], USER, a);
    let (x, y) = if d == 0 { (x, y) } else { (y, x) };
    (x, y, a)
}
/// the curve, and every fee recipient's amount
fn swap_entry(cw20: bool, dec: [u8; 2], pools: u64, offers: u64) {
    let amp = AMP[choice("amp", 4) as usize];
    let maker = in_bool("maker");
    let mut s = S::new(cw20, amp, dec, maker);
    let share = if in_bool("share") {
        let b = in_u16("share_bps", 0, u16::MAX);
        let p = StablePoolUpdateParams::EnableFeeShare { fee_share_bps: b, fee_share_address: "sharer".to_string() };
        let ok = s.update(OWNER, &p).is_ok();
        check(ok == (1..=1000).contains(&b), "a fee share is between 1 and 1000 bps");
        if !ok {
            return;
        }
        b
    } else {
        0
    };
    let d = choice("dir", 2) as usize;
    let o = 1 - d;
    let (x, y, a) = pick(&mut s, d, pools, offers);
    let (fee, mf) = (in_u16("total_bps", 0, 10_000), in_u16("maker_bps", 0, 10_000));
    s.c.factory_fee(maker, fee, mf);
    if s.swap(d, a, None, Some(Decimal::percent(50))).is_err() {
        return;
    }
    cover("swapped");
    let (x2, y2, m, out, sh) = (s.r(d), s.r(o), s.c.hold(&s.i[o], MAKER), s.u(o), s.c.hold(&s.i[o], "sharer"));
    obs("out", out);
    obs("maker", m);
    obs("share", sh);
    x2.int().eq(x.int() + a).check("the pool keeps all it was paid");
    (y2.int() + m + out + sh).eq(y).check("all that left the pool went to the trader and the fee receivers");
    let com = s.c.attr_n("commission_amount");
    let gross = out.int() + com;
    // the fee
    (com.int() * k(10_000)).le(gross * fee).check("the commission is no more than the fee rate");
    ((com.int() + k(1)) * k(10_000)).gt(gross * fee).check("the commission is no less than the fee rate");
    (sh.int() * k(10_000)).le(com.int() * share).check("the sharer gets no more than its part of the fee");
    ((sh.int() + k(1)) * k(10_000)).gt(com.int() * share).check("the sharer gets no less than its part of the fee");
    let rest = com.int() - sh;
    if maker {
        (m.int() * k(10_000)).le(rest * mf).check("the fee receiver gets no more than its part of the fee");
        ((m.int() + k(1)) * k(10_000)).gt(rest * mf).check("the fee receiver gets no less than its part of the fee");
    } else {
        check(m == 0, "no fee receiver, no transfer");
    }
    // the curve: the reserves before the fee lie on the same invariant, within one unit and 2e-6 of a token
    let (dx, dy) = (s.dec(d, x), s.dec(o, y));
    let inv = invariant(amp, dx, dy);
    let (nx, ny) = (s.dec(d, x2), s.dec(o, y.int() - gross));
    let eps = s.dec(o, k(1)) + k(EPS);
    at_least(amp, nx, ny + eps, inv - k(EPS)).check("a swap gives no more than the stable-swap curve");
    (!at_least(amp, nx, ny - eps, inv + k(EPS))).check("a swap gives no less than the stable-swap curve");
}
#[no_mangle]
pub fn st_swap() {
    swap_entry(false, [6, 6], 4, 3)
}
#[no_mangle]
pub fn st_swap_wide() {
    swap_entry(false, [6, 6], 5, 4)
}
#[no_mangle]
pub fn st_swap_dec() {
    let dec = [[6, 8], [18, 6]][choice("decimals", 2) as usize];
    swap_entry(in_bool("cw20"), dec, 2, 2)
}

/// user limits on swaps
#[no_mangle]
pub fn st_limits() {
    let amp = AMP[choice("amp", 4) as usize];
    let mut s = S::new(false, amp, [6, 6], false);
    let d = choice("dir", 2) as usize;
    let (_, _, a) = pick(&mut s, d, 4, 3);
    let fee = in_u16("total_bps", 0, 10_000);
    s.c.factory_fee(false, fee, 0);
    let ms = if in_bool("has_spread") { Some(in_decimal("max_spread", 0, 2 * E18)) } else { None };
    let bp = if in_bool("has_belief") { Some(in_decimal("belief", 0, E24)) } else { None };
    if s.swap(d, a, bp, ms).is_err() {
        return;
    }
    cover("swapped");
    let gross = s.u(1 - d).int() + s.c.attr_n("commission_amount");
    let lim = match ms {
        Some(m) => m.atomics().int(),
        None => k(5_000_000_000_000_000),
    };
    lim.le(k(E18 / 2)).check("a spread limit above one half is rejected");
    let exp = match bp {
        Some(b) => a.int() * (k(E18) * k(E18) / b.atomics()) / k(E18),
        None => a.int(),
    };
    (gross * k(E18)).ge(exp * (k(E18) - lim - k(1))).check("the trader gets, before the fee, at least the expected amount less the allowed spread");
}
/// a limit that the swap respects does not stop it
#[no_mangle]
pub fn st_limits_ok() {
    let amp = AMP[choice("amp", 4) as usize];
    let mut s = S::new(false, amp, [6, 6], false);
    let d = choice("dir", 2) as usize;
    let (_, _, a) = pick(&mut s, d, 4, 2);
    s.c.factory_fee(false, 0, 0);
    let q: SimulationResponse = match s.c.query(PAIR, &QueryMsg::Simulation { offer_asset: asset(&s.i[d], a), ask_asset_info: None }) {
        Ok(q) => q,
        Err(_) => return,
    };
    let out = q.return_amount.u128();
    let ms = in_u128("max_spread", 0, E18 / 2);
    // spread against one to one
    assume(a <= out || ((a - out).int() * k(E18)).le(a.int() * ms).fork());
    let r = s.swap(d, a, None, Some(Decimal::new(Uint128::new(ms))));
    cover("swapped");
    check(r.is_ok() && s.u(1 - d) == out, "a swap within its spread limit goes through");
}
/// what queries quote is what execution does
#[no_mangle]
pub fn st_simulation() {
    let amp = AMP[choice("amp", 4) as usize];
    let cw20 = in_bool("cw20");
    let mut s = S::new(cw20, amp, [6, if in_bool("dec8") { 8 } else { 6 }], true);
    let d = choice("dir", 2) as usize;
    let o = 1 - d;
    let (_, _, a) = pick(&mut s, d, 4, 3);
    let fee = in_u16("total_bps", 0, 10_000);
    s.c.factory_fee(true, fee, 3333);
    let i = s.i.clone();
    let q: Result<SimulationResponse, _> = s.c.query(PAIR, &QueryMsg::Simulation { offer_asset: asset(&i[d], a), ask_asset_info: None });
    if s.swap(d, a, None, Some(Decimal::percent(50))).is_err() {
        return;
    }
    cover("swapped");
    let q = match q {
        Ok(q) => q,
        Err(_) => {
            check(false, "a swap that executes can be simulated");
            return;
        }
    };
    obs("out", q.return_amount);
    check(s.u(o) == q.return_amount.u128(), "the trader gets what the simulation quotes");
    check(s.c.attr_n("commission_amount") == q.commission_amount.u128(), "the commission is what the simulation quotes");
    check(s.c.attr_n("spread_amount") == q.spread_amount.u128(), "the spread is what the simulation quotes");
}
/// reverse simulation: paying the quote buys the amount asked, within rounding
#[no_mangle]
pub fn st_reverse() {
    let amp = AMP[choice("amp", 4) as usize];
    let dec = [[6, 6], [6, 8], [18, 6]][choice("decimals", 3) as usize];
    let mut s = S::new(false, amp, dec, false);
    let d = choice("dir", 2) as usize;
    let o = 1 - d;
    let p = POOL[choice("pool", 4) as usize];
    let (x, y) = (p[0] * pow10(dec[0]), p[1] * pow10(dec[1]));
    s.state(x, y, 1_000_000);
    let (x, y) = if d == 0 { (x, y) } else { (y, x) };
    let w = y / 1000 * [1, 50, 500][choice("want", 3) as usize];
    let fee = [0, 4, 30, 500, 5000][choice("fee", 5) as usize];
    s.c.factory_fee(false, fee, 0);
    let i = s.i.clone();
    let q: ReverseSimulationResponse = match s.c.query(PAIR, &QueryMsg::ReverseSimulation { offer_asset_info: None, ask_asset: asset(&i[o], w) }) {
        Ok(q) => q,
        Err(_) => return,
    };
    cover("quoted");
    let a = q.offer_amount.u128();
    obs("offer", a);
    // the pool must give g before the fee, net of which the trader has w
    let g = (w.int() * k(10_000)).ceil_div(k(10_000) - fee);
    let inv = invariant(amp, s.dec(d, x), s.dec(o, y));
    let (nx, ny) = (s.dec(d, x.int() + a), s.dec(o, y.int() - g));
    let (ed, eo) = (s.dec(d, k(1)) + k(EPS), s.dec(o, k(1)) + k(EPS));
    at_least(amp, nx + ed, ny + eo, inv - k(EPS)).check("the quote, within rounding, pays for the amount asked");
    (!at_least(amp, nx - ed, ny - eo, inv + k(EPS))).check("the quote does not overcharge");
}
/// deposits
fn provide_entry(first: bool) {
    let amp = AMP[choice("amp", 4) as usize];
    let cw20 = in_bool("cw20");
    let dec = [[6, 6], [6, 8], [18, 6]][choice("decimals", 3) as usize];
    let mut s = S::new(cw20, amp, dec, false);
    let p = POOL[choice("pool", 4) as usize];
    let (x, y) = (p[0] * pow10(dec[0]), p[1] * pow10(dec[1]));
    let n = in_u128("supply", 1, E24);
    let sup = if first { 0 } else { n };
    let (a, b) = if first {
        if in_bool("small") {
            (1000, 3000)
        } else {
            (x, y)
        }
    } else {
        s.state(x, y, sup);
        let f = [[10, 10], [1000, 0], [0, 100], [300, 700]][choice("deposit", 4) as usize];
        (x / 1000 * f[0], y / 1000 * f[1])
    };
    let i = s.i.clone();
    s.c.give(&i[0], USER, a);
    s.c.give(&i[1], USER, b);
    let min = in_u128("min_lp", 0, E30);
    let q: Result<Uint128, _> =
        s.c.query(PAIR, &QueryMsg::SimulateProvide { assets: vec![asset(&i[0], a), asset(&i[1], b)], slippage_tolerance: None });
    if s.provide(a, b, Some(Uint128::new(min))).is_err() {
        return;
    }
    cover("provided");
    let (sh, locked) = (s.c.balance(USER, LP), s.c.balance(PAIR, LP));
    obs("shares", sh);
    check(sh >= min, "the depositor gets the minimum asked for");
    let (x0, y0) = if first { (0, 0) } else { (x, y) };
    check(s.r(0) == x0 + a && s.r(1) == y0 + b, "the pool receives both deposits");
    check(s.u(0) == 0 && s.u(1) == 0, "the depositor pays both deposits");
    match q {
        Ok(q) => check(q.u128() == sh, "the depositor gets what the simulation quotes"),
        Err(_) => check(false, "a deposit that executes can be simulated"),
    }
    let g = dec[0].max(dec[1]);
    let unit = k(10u128.pow(18 - g as u32));
    let d1 = invariant(amp, s.dec(0, x0 + a), s.dec(1, y0 + b));
    if first {
        check(locked == 1000 && sh > 0, "the minimum liquidity stays with the pair");
        s.c.supply_of(LP).int().eq(sh.int() + k(1000)).check("the supply is the depositor's shares plus the locked ones");
        let t = (sh.int() + k(1000)) * unit;
        (t.le(d1 + k(EPS)) & (t + unit).ge(d1 - k(EPS))).check("the first supply is the invariant");
    } else {
        check(locked == 0, "nothing else is minted");
        s.c.supply_of(LP).int().eq(sup.int() + sh).check("only the depositor's shares are minted");
        let d0 = invariant(amp, s.dec(0, x), s.dec(1, y));
        // share / supply = (d1 - d0) / d0
        (sh.int() * (d0 - k(EPS))).le(sup.int() * (d1 - d0 + k(2 * EPS))).check("shares are not worth more than the deposit adds to the invariant");
        ((sh.int() + k(1)) * (d0 + k(EPS))).ge(sup.int() * (d1 - d0 - k(2 * EPS))).check("the depositor gets all the shares the deposit is worth");
    }
}
#[no_mangle]
pub fn st_provide() {
    provide_entry(false)
}
#[no_mangle]
pub fn st_provide_first() {
    provide_entry(true)
}
/// withdrawals from any reserves
#[no_mangle]
pub fn st_withdraw() {
    let cw20 = in_bool("cw20");
    let mut s = S::new(cw20, 100, [6, 8], false);
    // the accumulators are up to date in this block, so only the withdrawal itself is computed
    {
        let i = s.i.clone();
        s.c.give(&i[0], USER, 1_000_000);
        s.c.give(&i[1], USER, 1_000_000);
        s.provide(1_000_000, 1_000_000, None).expect("first");
    }
    let (x, y, n, w) = (in_u128("x", 0, E30), in_u128("y", 0, E30), in_u128("supply", 1, E30), in_u128("lp", 1, E30));
    assume(w <= n);
    let i = s.i.clone();
    let (bx, by, bn) = (s.r(0), s.r(1), s.c.supply_of(LP));
    s.c.give(&i[0], PAIR, x);
    s.c.give(&i[1], PAIR, y);
    s.c.fund("lps", LP, n - w);
    s.c.fund(USER, LP, w);
    let (x, y, n) = (x + bx, y + by, n + bn);
    let lp0 = s.c.balance(USER, LP);
    let q: Vec<Asset> = match s.c.query(PAIR, &QueryMsg::SimulateWithdraw { lp_amount: Uint128::new(w) }) {
        Ok(q) => q,
        Err(_) => return,
    };
    let min = if in_bool("has_min") {
        let (m0, m1) = (in_u128("min0", 0, E30), in_u128("min1", 0, E30));
        let mut v = vec![asset(&i[0], m0), asset(&i[1], m1)];
        if in_bool("min_reversed") {
            v.reverse();
        }
        Some((v, m0, m1))
    } else {
        None
    };
    if s.withdraw(w, min.as_ref().map(|m| m.0.clone())).is_err() {
        return;
    }
    cover("withdrew");
    let (r0, r1) = (s.u(0), s.u(1));
    obs("r0", r0);
    obs("r1", r1);
    (s.c.balance(USER, LP).int() + w).eq(lp0).check("the shares are paid in");
    check(s.c.supply_of(LP) == n - w, "exactly the shares paid in are burned");
    (s.r(0).int() + r0).eq(x).check("the pool pays the first asset to the owner only");
    (s.r(1).int() + r1).eq(y).check("the pool pays the second asset to the owner only");
    (r0.int() * n).le(x.int() * w).check("no more than the proportional part of the first asset");
    (r1.int() * n).le(y.int() * w).check("no more than the proportional part of the second asset");
    let ratio = k(E18) * w / n;
    ((r0.int() + k(1)) * k(E18)).gt(ratio * x).check("no less than the proportional part of the first asset");
    ((r1.int() + k(1)) * k(E18)).gt(ratio * y).check("no less than the proportional part of the second asset");
    check(q[0].amount.u128() == r0 && q[1].amount.u128() == r1, "a withdrawal pays what its simulation quotes");
    if let Some((_, m0, m1)) = min {
        check(r0 >= m0 && r1 >= m1, "the owner gets the minimum asked for");
    }
}
/// the amplification moves in a straight line, within bounds, only when the owner says so
#[no_mangle]
pub fn st_amp() {
    let a0 = in_u64("amp", 0, 2_000_000);
    let mut s = {
        let mut c = Chain::new();
        c.factory_stub(false, false);
        c.factory_fee(false, 30, 0);
        c.decimals("uaaa", 6);
        c.decimals("ubbb", 6);
        let i = [native("uaaa"), native("ubbb")];
        let m = InstantiateMsg {
            asset_infos: i.to_vec(),
            token_code_id: 1,
            factory_addr: FACTORY.to_string(),
            pair_type: PairType::Stable {},
            init_params: Some(to_json_binary(&StablePoolParams { amp: a0, owner: None }).unwrap()),
        };
        let ok = c.instantiate(PAIR, Rc::new(Pair), FACTORY, &m, &[]).is_ok();
        check(ok == (1..=1_000_000).contains(&a0), "the amplification is between 1 and a million");
        if !ok {
            return;
        }
        S { c, i, dec: [6, 6] }
    };
    let t0 = s.c.time;
    let wait = in_u64("wait", 0, 1_000_000_000);
    s.c.time += wait;
    let (a1, dur) = (in_u64("next_amp", 0, 2_000_000), in_u64("duration", 0, 1_000_000_000));
    let who = [OWNER, "stranger_addr", PAIR][choice("who", 3) as usize];
    let start = StablePoolUpdateParams::StartChangingAmp { next_amp: a1, next_amp_time: s.c.time + dur };
    let ok = s.update(who, &start).is_ok();
    let good = who == OWNER && (1..=1_000_000).contains(&a1) && a1 <= a0 * 10 && a1 * 10 >= a0 && wait >= 86_400 && dur >= 86_400;
    check(ok == good, "the owner alone starts a change, at most tenfold, a day after the last one and over a day at least");
    let p = k(E18 / 100);
    let now = |s: &S| s.amp().atomics().int();
    now(&s).eq(k(E18) * a0).check("a change does not jump");
    if !ok {
        s.c.time += in_u64("later", 0, 1_000_000_000);
        now(&s).eq(k(E18) * a0).check("a rejected change changes nothing");
        return;
    }
    let t1 = s.c.time;
    let e = in_u64("elapsed", 0, 2_000_000_000);
    s.c.time += e;
    let cur = now(&s);
    let done = e.int().ge(dur);
    let up = a1.int().ge(a0);
    let step = ite(up, a1.int() - a0, a0.int() - a1) * k(100) * e / dur;
    let line = ite(up, a0.int() * k(100) + step, a0.int() * k(100) - step);
    cur.eq(ite(done, a1.int() * k(100), line) * p).check("the amplification moves in a straight line and then stays");
    cover("ramped");
    let stopper = [OWNER, "stranger_addr"][choice("stopper", 2) as usize];
    let st = s.update(stopper, &StablePoolUpdateParams::StopChangingAmp {}).is_ok();
    check(st == (stopper == OWNER), "the owner alone stops a change");
    if st {
        s.c.time += in_u64("later", 0, 1_000_000_000);
        now(&s).eq(cur).check("a stopped change keeps the current amplification");
        let again = s.update(OWNER, &start).is_ok();
        if again {
            check(s.c.time - t1 - e >= 86_400, "a change starts a day after the last one stopped");
        }
        cover("stopped");
    }
    let _ = t0;
}
#[no_mangle]
pub fn st_owner() {
    let mut s = S::new(false, 100, [6, 6], false);
    s.c.time += 1000;
    ownership(
        &mut s.c,
        PAIR,
        |c| {
            let r: ConfigResponse = c.query(PAIR, &QueryMsg::Config {}).expect("config");
            r.owner.to_string()
        },
        |c, who| {
            let p = StablePoolUpdateParams::EnableFeeShare { fee_share_bps: 5, fee_share_address: "sharer".to_string() };
            c.execute(who, PAIR, &ExecuteMsg::UpdateConfig { params: to_json_binary(&p).unwrap() }, &[]).is_ok()
        },
    );
}
/// that a call is paid for, in the pool's own assets
#[no_mangle]
pub fn st_access() {
    let mut s = S::new(true, 100, [6, 6], false);
    s.state(1_000_000_000_000, 1_000_000_000_000, 1_000_000_000);
    s.c.factory_fee(false, 30, 0);
    let (a, sent) = (1_000_000u128, in_u128("sent", 0, 2_000_000));
    let f = if sent > 0 { vec![cn(sent, "uaaa")] } else { vec![] };
    let i = s.i.clone();
    s.c.give(&i[0], USER, sent);
    let half = Some(Decimal::percent(50));
    match choice("case", 7) {
        0 => {
            let m = ExecuteMsg::Swap { offer_asset: asset(&i[0], a), ask_asset_info: None, belief_price: None, max_spread: None, to: None };
            if s.c.execute(USER, PAIR, &m, &f).is_ok() {
                cover("swapped");
                check(a == sent, "a swap is paid in full");
            }
        }
        1 => {
            let m = Cw20HookMsg::Swap { ask_asset_info: None, belief_price: None, max_spread: half, to: None };
            let m = ExecuteMsg::Receive(cw20::Cw20ReceiveMsg { sender: USER.to_string(), amount: Uint128::new(a), msg: to_json_binary(&m).unwrap() });
            let r = s.c.execute(["user_addr", "other_token", "lps"][choice("who", 3) as usize], PAIR, &m, &[]);
            check(r.is_err(), "only the pool's token may report a cw20 payment");
        }
        2 => {
            let m = ExecuteMsg::Swap { offer_asset: asset(&i[1], a), ask_asset_info: None, belief_price: None, max_spread: half, to: None };
            check(s.c.execute(USER, PAIR, &m, &[]).is_err(), "a cw20 cannot be offered without paying");
        }
        3 => {
            // deposit declaring more than sent
            s.c.give(&i[1], USER, a);
            let two = in_bool("two_sided");
            let m = ExecuteMsg::ProvideLiquidity {
                assets: vec![asset(&i[0], a), asset(&i[1], if two { a } else { 0 })],
                slippage_tolerance: None,
                auto_stake: None,
                receiver: None,
                min_lp_to_receive: None,
            };
            if s.c.execute(USER, PAIR, &m, &f).is_ok() {
                cover("provided");
                check(a == sent, "a deposit is paid in full");
            }
        }
        4 => {
            // the same asset twice, or an asset the pool does not hold
            s.c.fund(USER, "uzzz", a);
            let other = if in_bool("foreign") { native("uzzz") } else { i[0].clone() };
            let m = ExecuteMsg::ProvideLiquidity {
                assets: vec![asset(&i[0], a), asset(&other, a)],
                slippage_tolerance: None,
                auto_stake: None,
                receiver: None,
                min_lp_to_receive: None,
            };
            let mut f = f;
            if other == native("uzzz") {
                f.push(cn(a, "uzzz"));
            }
            check(s.c.execute(USER, PAIR, &m, &f).is_err(), "a deposit is made in the pool's two assets");
        }
        5 => {
            // offering a coin the pool does not hold
            s.c.fund(USER, "uzzz", a);
            let m = ExecuteMsg::Swap { offer_asset: asset(&native("uzzz"), a), ask_asset_info: None, belief_price: None, max_spread: half, to: None };
            check(s.c.execute(USER, PAIR, &m, &[cn(a, "uzzz")]).is_err(), "a swap is made in the pool's two assets");
        }
        _ => {
            // withdrawing with something else than shares
            s.c.fund(USER, "uzzz", a);
            let m = ExecuteMsg::WithdrawLiquidity { assets: vec![], min_assets_to_receive: None };
            let other = if in_bool("pool_asset") { f } else { vec![cn(a, "uzzz")] };
            check(s.c.execute(USER, PAIR, &m, &other).is_err(), "a withdrawal is paid in shares");
        }
    }
}
/// the shares and payments go to the named receiver
#[no_mangle]
pub fn st_receiver() {
    let mut s = S::new(false, 100, [6, 6], true);
    s.state(1_000_000_000_000, 1_000_000_000_000, 1_000_000_000);
    s.c.factory_fee(true, 30, 5000);
    let i = s.i.clone();
    let a = 1_000_000u128;
    s.c.give(&i[0], USER, a);
    s.c.give(&i[1], USER, a);
    let to = if in_bool("named") { Some("friend_addr".to_string()) } else { None };
    let (w, o) = if to.is_some() { ("friend_addr", USER) } else { (USER, "friend_addr") };
    if in_bool("swap") {
        let m = ExecuteMsg::Swap { offer_asset: asset(&i[0], a), ask_asset_info: None, belief_price: None, max_spread: None, to };
        s.c.execute(USER, PAIR, &m, &[cn(a, "uaaa")]).expect("swap");
        let keep = if w == USER { a } else { 0 };
        check(s.c.hold(&i[1], w) - keep == s.c.attr_n("return_amount") && s.c.hold(&i[1], o) == a - keep, "the named receiver is paid");
    } else {
        let m = ExecuteMsg::ProvideLiquidity {
            assets: vec![asset(&i[0], a), asset(&i[1], a)],
            slippage_tolerance: None,
            auto_stake: None,
            receiver: to,
            min_lp_to_receive: None,
        };
        s.c.execute(USER, PAIR, &m, &[cn(a, "uaaa"), cn(a, "ubbb")]).expect("provide");
        check(s.c.balance(w, LP) > 0 && s.c.balance(o, LP) == 0, "the named receiver gets the shares");
    }
    cover("done");
}
/// price accumulators
#[no_mangle]
pub fn st_twap() {
    let amp = AMP[choice("amp", 4) as usize];
    let dec = [[6, 6], [6, 8]][choice("decimals", 2) as usize];
    let mut s = S::new(false, amp, dec, false);
    let p = POOL[choice("pool", 3) as usize];
    let n = 1_000_000u128;
    s.state(p[0] * pow10(dec[0]), p[1] * pow10(dec[1]), n);
    s.c.factory_fee(false, 0, 0);
    let i = s.i.clone();
    let q = |s: &S| -> (u128, u128) {
        let r: CumulativePricesResponse = s.c.query(PAIR, &QueryMsg::CumulativePrices {}).expect("prices");
        (r.cumulative_prices[0].2.u128(), r.cumulative_prices[1].2.u128())
    };
    s.c.time += 1000;
    let before = q(&s);
    let r = match choice("op", 3) {
        0 => {
            s.c.give(&i[0], USER, 1_000_000);
            s.swap(0, 1_000_000, None, Some(Decimal::percent(50)))
        }
        1 => {
            s.c.give(&i[0], USER, 1_000_000);
            s.c.give(&i[1], USER, 1_000_000);
            s.provide(1_000_000, 1_000_000, None)
        }
        _ => {
            s.c.set_balance("lps", LP, n / 2);
            s.c.set_balance(USER, LP, n / 2);
            s.withdraw(n / 2, None)
        }
    };
    if r.is_err() {
        return;
    }
    cover("operated");
    check(before == q(&s), "an operation does not change the prices accumulated so far");
    let rate = |s: &S, d: usize| -> u128 {
        let r: SimulationResponse =
            s.c.query(PAIR, &QueryMsg::Simulation { offer_asset: asset(&i[d], pow10(dec[d])), ask_asset_info: None }).expect("simulation");
        r.return_amount.u128() * 1_000_000 / pow10(dec[1 - d])
    };
    let (r0, r1) = (rate(&s, 0), rate(&s, 1));
    let dt = in_u64("dt", 1, 1_000_000_000);
    s.c.time += dt;
    let later = q(&s);
    later.0.int().eq(before.0.int() + r0.int() * dt).check("the first accumulator grows by price times elapsed time");
    later.1.int().eq(before.1.int() + r1.int() * dt).check("the second accumulator grows by price times elapsed time");
    // and once more, through an operation in between
    s.c.give(&i[0], USER, 1_000_000);
    if s.swap(0, 1_000_000, None, Some(Decimal::percent(50))).is_ok() {
        check(later == q(&s), "an operation stores the prices accumulated so far");
        cover("stored");
    }
}

fn observe(c: &Chain, seconds_ago: u64) -> Option<astroport::observation::OracleObservation> {
    c.query(PAIR, &QueryMsg::Observe { seconds_ago }).ok()
}
#[no_mangle]
pub fn st_trades() {
    let mut s = S::new(false, 100, [6, 6], false);
    let cap = [2, 3][choice("capacity", 2) as usize];
    observe::trades(&mut s.c, PAIR, 5, cap, |st, e| astroport_pair_stable::utils::accumulate_swap_sizes(st, e).is_ok(), observe);
}
#[no_mangle]
pub fn st_observe() {
    let mut s = S::new(false, 100, [6, 6], false);
    observe::lookup(&mut s.c, PAIR, observe);
}

sx::entries!(
    st_trades, st_observe,
    st_swap, st_swap_wide, st_swap_dec, st_limits, st_limits_ok, st_simulation, st_reverse, st_provide, st_provide_first, st_withdraw, st_amp,
    st_owner, st_access, st_receiver, st_twap,
);
