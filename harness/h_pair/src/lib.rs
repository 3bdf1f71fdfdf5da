//! Constant-product pair (contracts/pair).
use astroport::asset::{Asset, AssetInfo, PairInfo};
use astroport::factory::PairType;
use astroport::pair::{
    CumulativePricesResponse, Cw20HookMsg, ExecuteMsg, InstantiateMsg, QueryMsg, ReverseSimulationResponse, SimulationResponse,
    XYKPoolParams, XYKPoolUpdateParams,
};
use chain::*;
use cosmwasm_std::{to_json_binary, Binary, Decimal, Uint128, Uint64};
use std::rc::Rc;
use sx::*;

contract!(
    Pair,
    astroport_pair::contract::instantiate,
    astroport_pair::contract::execute,
    astroport_pair::contract::query,
    reply = astroport_pair::contract::reply
);
pub const PAIR: &str = "pair_addr";
pub const LP: &str = "factory/pair_addr/astroport/share";
pub const USER: &str = "user_addr";
const E18: u128 = 1_000_000_000_000_000_000;
const E24: u128 = 1_000_000_000_000_000_000_000_000;
const E30: u128 = 1_000_000_000_000_000_000_000_000_000_000;

struct P {
    c: Chain,
    i: [AssetInfo; 2],
}
impl P {
    fn new(cw20: bool, maker: bool, generator: bool, params: Option<Binary>) -> P {
        let mut c = Chain::new();
        c.factory_stub(maker, generator);
        c.factory_fee(maker, 30, 3333);
        let i = [native("uaaa"), if cw20 { token("token_b") } else { native("ubbb") }];
        if cw20 {
            c.cw20_new("token_b", "minter", 6);
        }
        let m = InstantiateMsg {
            asset_infos: i.to_vec(),
            token_code_id: 1,
            factory_addr: FACTORY.to_string(),
            pair_type: PairType::Xyk {},
            init_params: params,
        };
        c.instantiate(PAIR, Rc::new(Pair), FACTORY, &m, &[]).expect("instantiate");
        let p: PairInfo = c.query(PAIR, &QueryMsg::Pair {}).expect("pair");
        assert!(p.liquidity_token == LP);
        P { c, i }
    }
    /// arbitrary reserves and LP supply
    fn state(&mut self, x: u128, y: u128, s: u128) {
        let i = self.i.clone();
        self.c.give(&i[0], PAIR, x);
        self.c.give(&i[1], PAIR, y);
        if s > 0 {
            self.c.fund("lps", LP, s);
        }
    }
    fn swap(&mut self, d: usize, a: u128, belief_price: Option<Decimal>, max_spread: Option<Decimal>) -> Result<(), String> {
        let offer_asset = asset(&self.i[d], a);
        match &self.i[d] {
            AssetInfo::NativeToken { .. } => {
                let f = funds_of(&[&offer_asset]);
                self.c.execute(USER, PAIR, &ExecuteMsg::Swap { offer_asset, ask_asset_info: None, belief_price, max_spread, to: None }, &f)
            }
            AssetInfo::Token { contract_addr } => {
                let m = Cw20HookMsg::Swap { ask_asset_info: None, belief_price, max_spread, to: None };
                let m = cw20::Cw20ExecuteMsg::Send {
                    contract: PAIR.to_string(),
                    amount: Uint128::new(a),
                    msg: to_json_binary(&m).unwrap(),
                };
                self.c.execute(USER, contract_addr.as_str(), &m, &[])
            }
        }
    }
    fn provide(&mut self, d0: u128, d1: u128, tol: Option<Decimal>, min: Option<Uint128>) -> Result<(), String> {
        let (a, b) = (asset(&self.i[0], d0), asset(&self.i[1], d1));
        let f = funds_of(&[&a, &b]);
        let m = ExecuteMsg::ProvideLiquidity {
            assets: vec![a, b],
            slippage_tolerance: tol,
            auto_stake: None,
            receiver: None,
            min_lp_to_receive: min,
        };
        self.c.execute(USER, PAIR, &m, &f)
    }
    fn withdraw(&mut self, lp: u128, min: Option<Vec<Asset>>) -> Result<(), String> {
        let m = ExecuteMsg::WithdrawLiquidity { assets: vec![], min_assets_to_receive: min };
        self.c.execute(USER, PAIR, &m, &[cn(lp, LP)])
    }
    fn r(&self, d: usize) -> u128 {
        self.c.hold(&self.i[d], PAIR)
    }
    fn u(&self, d: usize) -> u128 {
        self.c.hold(&self.i[d], USER)
    }
}

/// value conservation, product, fee split of one swap from an arbitrary pool state
#[no_mangle]
pub fn xyk_swap() {
    let maker = in_bool("maker");
    let mut p = P::new(false, maker, false, None);
    let d = choice("dir", 2) as usize;
    let o = 1 - d;
    let (x, y, a) = (in_u128("x", 1, E30), in_u128("y", 1, E30), in_u128("amount", 1, E30));
    let (fee, mf) = (in_u16("total_bps", 0, 10_000), in_u16("maker_bps", 0, 10_000));
    if d == 0 {
        p.state(x, y, 1_000_000);
    } else {
        p.state(y, x, 1_000_000);
    }
    p.c.factory_fee(maker, fee, mf);
    let i = p.i.clone();
    p.c.give(&i[d], USER, a);
    if p.swap(d, a, None, Some(Decimal::percent(50))).is_err() {
        return;
    }
    cover("swapped");
    swap_checks(&p, d, o, x, y, a, fee, mf, maker);
}
#[allow(clippy::too_many_arguments)]
fn swap_checks(p: &P, d: usize, o: usize, x: u128, y: u128, a: u128, fee: u16, mf: u16, maker: bool) {
    let (x2, y2, m, out) = (p.r(d), p.r(o), p.c.hold(&p.i[o], MAKER), p.u(o));
    obs("out", out);
    obs("maker", m);
    x2.int().eq(x.int() + a).check("the pool keeps all it was paid");
    (y2.int() + m + out).eq(y).check("all that left the pool went to the trader or the fee receiver");
    ((x2.int() * y2) * k(E18) + x2).ge(x.int() * y * k(E18)).check("the product of the reserves does not fall");
    // gross = y*a/(x+a); the trader gets gross - fee*gross, within rounding
    let t = x.int() + a;
    let net = k(10_000) - fee;
    (out.int() * k(10_000) * t)
        .le(y.int() * a * net + k(10_000) * t)
        .check("the trader gets no more than the constant-product amount less the fee");
    (out.int() * k(10_000) * t)
        .ge((y.int() * a - t) * net)
        .check("the trader gets no less than the constant-product amount less the fee");
    let ms = y.int() * a * fee * mf;
    if maker {
        (m.int() * k(100_000_000) * t).le(ms + t).check("the fee receiver gets no more than its share of the fee");
        (m.int() * k(100_000_000) * t)
            .ge(ms - t * fee * mf - k(200_000_000) * t)
            .check("the fee receiver gets no less than its share of the fee");
    } else {
        check(m == 0, "no fee receiver, no transfer");
    }
}
/// the same for a pool whose second asset is a cw20 (receive hook)
#[no_mangle]
pub fn xyk_swap_cw20() {
    let mut p = P::new(true, true, false, None);
    let d = choice("dir", 2) as usize;
    let o = 1 - d;
    let (x, y, a) = (in_u128("x", 1, E24), in_u128("y", 1, E24), in_u128("amount", 1, E24));
    if d == 0 {
        p.state(x, y, 1_000_000);
    } else {
        p.state(y, x, 1_000_000);
    }
    p.c.factory_fee(true, 30, 5000);
    let i = p.i.clone();
    p.c.give(&i[d], USER, a);
    if p.swap(d, a, None, Some(Decimal::percent(50))).is_err() {
        return;
    }
    cover("swapped");
    swap_checks(&p, d, o, x, y, a, 30, 5000, true);
}
/// fee sharing: nobody is paid out of the reserves
#[no_mangle]
pub fn xyk_fee_share() {
    let mut p = P::new(false, true, false, None);
    let bps = in_u16("share_bps", 0, u16::MAX);
    let params = to_json_binary(&XYKPoolUpdateParams::EnableFeeShare { fee_share_bps: bps, fee_share_address: "sharer".to_string() }).unwrap();
    if p.c.execute(OWNER, PAIR, &ExecuteMsg::UpdateConfig { params }, &[]).is_err() {
        return;
    }
    check((1..=1000).contains(&bps), "a fee share is between 1 and 1000 bps");
    let (x, y, a) = (in_u128("x", 1, E24), in_u128("y", 1, E24), in_u128("amount", 1, E24));
    let (fee, mf) = (in_u16("total_bps", 0, 10_000), in_u16("maker_bps", 0, 10_000));
    p.state(x, y, 1_000_000);
    p.c.factory_fee(true, fee, mf);
    let i = p.i.clone();
    p.c.give(&i[0], USER, a);
    if p.swap(0, a, None, Some(Decimal::percent(50))).is_err() {
        return;
    }
    cover("swapped");
    let (y2, m, out, sh) = (p.r(1), p.c.hold(&p.i[1], MAKER), p.u(1), p.c.hold(&p.i[1], "sharer"));
    obs("out", out);
    obs("maker", m);
    obs("share", sh);
    (y2.int() + m + out + sh).eq(y).check("all that left the pool went to the trader and the two fee receivers");
    let t = x.int() + a;
    ((t * y2) * k(E18) + t).ge(x.int() * y * k(E18)).check("the product of the reserves does not fall");
    (sh.int() * k(100_000_000) * t).le(y.int() * a * fee * bps + t).check("the sharer gets no more than its part of the fee");
    ((m.int() + sh) * k(10_000) * t).le(y.int() * a * fee + t).check("fee receivers together get no more than the fee");
}
/// user limits on swaps
#[no_mangle]
pub fn xyk_swap_limits() {
    let mut p = P::new(false, false, false, None);
    let (x, y, a) = (in_u128("x", 1, E24), in_u128("y", 1, E24), in_u128("amount", 1, E24));
    p.state(x, y, 1_000_000);
    p.c.factory_fee(false, 0, 0);
    let i = p.i.clone();
    p.c.give(&i[0], USER, a);
    let ms = if in_bool("has_spread") { Some(in_decimal("max_spread", 0, 2 * E18)) } else { None };
    let bp = if in_bool("has_belief") { Some(in_decimal("belief", 0, E24)) } else { None };
    if p.swap(0, a, bp, ms).is_err() {
        return;
    }
    cover("swapped");
    let out = p.u(1);
    obs("out", out);
    let lim = match ms {
        Some(m) => m.atomics().int(),
        None => k(5_000_000_000_000_000),
    };
    lim.le(k(E18 / 2)).check("a spread limit above one half is rejected");
    // expected amount in ask units, at the belief price or at the pool price
    let exp = match bp {
        Some(b) => a.int() * (k(E18) * k(E18) / b.atomics()) / k(E18),
        None => a.int() * (k(E18) * y / x) / k(E18),
    };
    (out.int() * k(E18)).ge(exp * (k(E18) - lim - k(1))).check("the trader gets at least the expected amount less the allowed spread");
}
/// share value under deposits
#[no_mangle]
pub fn xyk_provide() {
    provide_checks(false, true);
}
/// cw20 second asset, default tolerance, a minimum asked for
#[no_mangle]
pub fn xyk_provide_cw20() {
    provide_checks(true, false);
}
fn provide_checks(cw20: bool, with_tol: bool) {
    let mut p = P::new(cw20, false, false, None);
    let (x, y, s) = (in_u128("x", 1, E30), in_u128("y", 1, E30), in_u128("supply", 1, E30));
    let (a, b) = (in_u128("d0", 0, E30), in_u128("d1", 0, E30));
    p.state(x, y, s);
    let i = p.i.clone();
    p.c.give(&i[0], USER, a);
    p.c.give(&i[1], USER, b);
    let min = if !with_tol { Some(in_uint128("min_lp", 0, E30)) } else { None };
    let tol = if with_tol { Some(in_decimal("tol", 0, 2 * E18)) } else { None };
    if p.provide(a, b, tol, min).is_err() {
        return;
    }
    cover("provided");
    let sh = p.c.balance(USER, LP);
    obs("share", sh);
    p.r(0).int().eq(x.int() + a).check("the pool receives the first deposit");
    p.r(1).int().eq(y.int() + b).check("the pool receives the second deposit");
    check(p.u(0) == 0 && p.u(1) == 0, "the depositor pays both deposits");
    p.c.supply_of(LP).int().eq(s.int() + sh).check("only the depositor's shares are minted");
    (sh.int() * x).le(a.int() * s).check("shares are not worth more than the first deposit");
    (sh.int() * y).le(b.int() * s).check("shares are not worth more than the second deposit");
    (((sh.int() + k(1)) * x).gt(a.int() * s) | ((sh.int() + k(1)) * y).gt(b.int() * s)).check("the depositor gets all the shares the smaller side buys");
    if let Some(m) = min {
        check(sh >= m.u128(), "the depositor gets the minimum asked for");
    }
    let t = match tol {
        Some(t) => t.atomics().int(),
        None => k(5_000_000_000_000_000),
    };
    t.le(k(E18 / 2)).check("a slippage tolerance above one half is rejected");
    let r01 = k(E18) * x / y;
    let r10 = k(E18) * y / x;
    ((k(E18) * a / b) * (k(E18) - t) / k(E18)).le(r01).check("the deposit ratio is within the slippage tolerance (0/1)");
    ((k(E18) * b / a) * (k(E18) - t) / k(E18)).le(r10).check("the deposit ratio is within the slippage tolerance (1/0)");
}
/// first deposit
#[no_mangle]
pub fn xyk_provide_first() {
    let mut p = P::new(false, false, false, None);
    let (a, b) = (in_u128("d0", 0, E30), in_u128("d1", 0, E30));
    // someone may have donated to the empty pool
    p.state(in_u128("x", 0, E24), in_u128("y", 0, E24), 0);
    let i = p.i.clone();
    p.c.give(&i[0], USER, a);
    p.c.give(&i[1], USER, b);
    if p.provide(a, b, None, None).is_err() {
        return;
    }
    cover("provided");
    let (sh, locked) = (p.c.balance(USER, LP), p.c.balance(PAIR, LP));
    obs("share", sh);
    check(locked == 1000, "the minimum liquidity stays with the pair");
    check(sh > 0, "the first depositor gets shares");
    let t = sh.int() + k(1000);
    p.c.supply_of(LP).int().eq(t).check("the supply is the first depositor's shares plus the locked ones");
    (t * t).le(a.int() * b).check("the first supply is at most the geometric mean");
    ((t + k(1)) * (t + k(1))).gt(a.int() * b).check("the first supply is the geometric mean rounded down");
}
/// share value under withdrawals
#[no_mangle]
pub fn xyk_withdraw() {
    let cw20 = in_bool("cw20");
    let mut p = P::new(cw20, false, false, None);
    let (x, y, s, w) = (in_u128("x", 1, E30), in_u128("y", 1, E30), in_u128("supply", 1, E30), in_u128("lp", 1, E30));
    assume(w <= s);
    p.state(x, y, s);
    p.c.set_balance("lps", LP, s - w);
    p.c.set_balance(USER, LP, w);
    let q: Vec<Asset> = match p.c.query(PAIR, &QueryMsg::SimulateWithdraw { lp_amount: Uint128::new(w) }) {
        Ok(q) => q,
        Err(_) => return,
    };
    let min = if in_bool("has_min") {
        let (m0, m1) = (in_u128("min0", 0, E30), in_u128("min1", 0, E30));
        let mut v = vec![asset(&p.i[0], m0), asset(&p.i[1], m1)];
        if in_bool("min_reversed") {
            v.reverse();
        }
        Some((v, m0, m1))
    } else {
        None
    };
    if p.withdraw(w, min.as_ref().map(|m| m.0.clone())).is_err() {
        return;
    }
    cover("withdrew");
    let (r0, r1) = (p.u(0), p.u(1));
    obs("r0", r0);
    obs("r1", r1);
    check(p.c.balance(USER, LP) == 0 && p.c.supply_of(LP) == s - w, "exactly the shares paid in are burned");
    (p.r(0).int() + r0).eq(x).check("the pool pays the first asset to the owner only");
    (p.r(1).int() + r1).eq(y).check("the pool pays the second asset to the owner only");
    (r0.int() * s).le(x.int() * w).check("no more than the proportional part of the first asset");
    (r1.int() * s).le(y.int() * w).check("no more than the proportional part of the second asset");
    let ratio = k(E18) * w / s;
    ((r0.int() + k(1)) * k(E18)).gt(ratio * x).check("no less than the proportional part of the first asset");
    ((r1.int() + k(1)) * k(E18)).gt(ratio * y).check("no less than the proportional part of the second asset");
    check(q[0].amount.u128() == r0 && q[1].amount.u128() == r1, "a withdrawal pays what its simulation quotes");
    if let Some((_, m0, m1)) = min {
        check(r0 >= m0 && r1 >= m1, "the owner gets the minimum asked for");
    }
}
/// what queries quote is what execution does
#[no_mangle]
pub fn xyk_simulation() {
    let mut p = P::new(false, true, false, None);
    let (x, y, a) = (in_u128("x", 1, E24), in_u128("y", 1, E24), in_u128("amount", 1, E24));
    let d = choice("dir", 2) as usize;
    if d == 0 {
        p.state(x, y, 1_000_000);
    } else {
        p.state(y, x, 1_000_000);
    }
    let fee = in_u16("total_bps", 0, 10_000);
    p.c.factory_fee(true, fee, 3333);
    let i = p.i.clone();
    p.c.give(&i[d], USER, a);
    let q: Result<SimulationResponse, _> = p.c.query(PAIR, &QueryMsg::Simulation { offer_asset: asset(&i[d], a), ask_asset_info: None });
    let r = p.swap(d, a, None, Some(Decimal::percent(50)));
    if r.is_err() {
        return;
    }
    cover("swapped");
    let q = match q {
        Ok(q) => q,
        Err(_) => {
            check(false, "a swap that executes can be simulated");
            return;
        }
    };
    obs("out", q.return_amount);
    check(p.u(1 - d) == q.return_amount.u128(), "the trader gets what the simulation quotes");
    check(p.c.attr_n("commission_amount") == q.commission_amount.u128(), "the commission is what the simulation quotes");
    check(p.c.attr_n("spread_amount") == q.spread_amount.u128(), "the spread is what the simulation quotes");
}
#[no_mangle]
pub fn xyk_simulate_provide() {
    let mut p = P::new(false, false, false, None);
    let (x, y, s) = (in_u128("x", 1, E24), in_u128("y", 1, E24), in_u128("supply", 0, E24));
    let (a, b) = (in_u128("d0", 0, E24), in_u128("d1", 0, E24));
    p.state(x, y, s);
    let i = p.i.clone();
    p.c.give(&i[0], USER, a);
    p.c.give(&i[1], USER, b);
    let q: Result<Uint128, _> = p.c.query(
        PAIR,
        &QueryMsg::SimulateProvide { assets: vec![asset(&i[0], a), asset(&i[1], b)], slippage_tolerance: None },
    );
    if p.provide(a, b, None, None).is_err() {
        return;
    }
    cover("provided");
    match q {
        Ok(q) => check(q.u128() == p.c.balance(USER, LP), "the depositor gets what the simulation quotes"),
        Err(_) => check(false, "a deposit that executes can be simulated"),
    }
}
/// reverse simulation: paying the quote (plus rounding) buys the amount asked
#[no_mangle]
pub fn xyk_reverse() {
    let mut p = P::new(false, false, false, None);
    let (x, y, w) = (in_u128("x", 1, E24), in_u128("y", 1, E24), in_u128("want", 1, E24));
    p.state(x, y, 1_000_000);
    let fee = in_u16("total_bps", 0, 9_999);
    p.c.factory_fee(false, fee, 0);
    let i = p.i.clone();
    let q: ReverseSimulationResponse = match p.c.query(PAIR, &QueryMsg::ReverseSimulation { offer_asset_info: None, ask_asset: asset(&i[1], w) }) {
        Ok(q) => q,
        Err(_) => return,
    };
    cover("quoted");
    let a = q.offer_amount.u128();
    obs("offer", a);
    // gross amount needed: g = floor(w / (1 - fee)) as the contract rounds it
    let g = w.int() * (k(E18) * k(E18) / (k(E18) - k(E18 / 10_000) * fee)) / k(E18);
    // offer = floor(x*y/(y-g)) - x
    ((a.int() + k(1) + x) * (y.int() - g)).gt(x.int() * y).check("the quote, plus one unit, pays for the amount asked");
    ((a.int() + x) * (y.int() - g)).le(x.int() * y).check("the quote does not overcharge");
}
/// price accumulators
#[no_mangle]
pub fn xyk_twap() {
    let mut p = P::new(false, false, false, None);
    let (x, y, a) = (in_u128("x", 1, E18), in_u128("y", 1, E18), in_u128("amount", 1, E18));
    let s = 1_000_000u128;
    p.state(x, y, s);
    p.c.factory_fee(false, 0, 0);
    let i = p.i.clone();
    let q = |p: &P| -> Option<(u128, u128)> {
        let r: Result<CumulativePricesResponse, _> = p.c.query(PAIR, &QueryMsg::CumulativePrices {});
        r.ok().map(|r| (r.cumulative_prices[0].2.u128(), r.cumulative_prices[1].2.u128()))
    };
    p.c.time = 1000;
    let before = match q(&p) {
        Some(v) => v,
        None => return,
    };
    let op = choice("op", 3);
    let r = match op {
        0 => {
            p.c.give(&i[0], USER, a);
            p.swap(0, a, None, Some(Decimal::percent(50)))
        }
        1 => {
            p.c.give(&i[0], USER, x);
            p.c.give(&i[1], USER, y);
            p.provide(x, y, None, None)
        }
        _ => {
            p.c.set_balance("lps", LP, s / 2);
            p.c.set_balance(USER, LP, s / 2);
            p.withdraw(s / 2, None)
        }
    };
    if r.is_err() {
        return;
    }
    cover("operated");
    let after = q(&p).expect("query");
    obs("p0", after.0);
    check(before == after, "an operation does not change the prices accumulated so far");
    let (x2, y2) = (p.r(0), p.r(1));
    let dt = in_u64("dt", 1, 1_000_000_000);
    p.c.time += dt;
    let later = match q(&p) {
        Some(v) => v,
        None => return,
    };
    let m = k(1_000_000);
    if x2 > 0 && y2 > 0 {
        cover("advanced");
        later.0.int().eq(after.0.int() + m * dt * y2 / x2).check("the first accumulator grows by price times elapsed time");
        later.1.int().eq(after.1.int() + m * dt * x2 / y2).check("the second accumulator grows by price times elapsed time");
    }
}
/// recorded balances equal real balances
#[no_mangle]
pub fn xyk_tracking() {
    let mut p0 = Chain::new();
    let _ = &mut p0;
    let mut p = P::tracked();
    let (x, y, a) = (in_u128("x", 1, E18), in_u128("y", 1, E18), in_u128("amount", 1, E18));
    let s = 1_000_000u128;
    p.state(x, y, s);
    let (fee, mf) = (in_u16("total_bps", 0, 10_000), in_u16("maker_bps", 0, 10_000));
    p.c.factory_fee(true, fee, mf);
    let i = p.i.clone();
    if in_bool("share") {
        let params = to_json_binary(&XYKPoolUpdateParams::EnableFeeShare { fee_share_bps: 500, fee_share_address: "sharer".to_string() }).unwrap();
        p.c.execute(OWNER, PAIR, &ExecuteMsg::UpdateConfig { params }, &[]).expect("share");
    }
    let op = choice("op", 3);
    let r = match op {
        0 => {
            p.c.give(&i[0], USER, a);
            p.swap(0, a, None, Some(Decimal::percent(50)))
        }
        1 => {
            p.c.give(&i[0], USER, a);
            let b = in_u128("amount2", 1, E18);
            p.c.give(&i[1], USER, b);
            p.provide(a, b, Some(Decimal::percent(50)), None)
        }
        _ => {
            assume(a <= s);
            p.c.set_balance("lps", LP, s - a);
            p.c.set_balance(USER, LP, a);
            p.withdraw(a, None)
        }
    };
    if r.is_err() {
        return;
    }
    cover("operated");
    let h = p.c.height + 1;
    for n in 0..2 {
        let v: Option<Uint128> =
            p.c.query(PAIR, &QueryMsg::AssetBalanceAt { asset_info: i[n].clone(), block_height: Uint64::new(h) }).expect("balance");
        check(v == Some(Uint128::new(p.r(n))), "the recorded balance is the real balance");
    }
}
struct Dummy;
impl Contract for Dummy {
    fn execute(&self, _d: cosmwasm_std::DepsMut, _e: cosmwasm_std::Env, _i: cosmwasm_std::MessageInfo, _m: &[u8]) -> Res {
        Ok(cosmwasm_std::Response::new())
    }
    fn sudo(&self, _d: cosmwasm_std::DepsMut, _e: cosmwasm_std::Env, _m: &[u8]) -> Res {
        Ok(cosmwasm_std::Response::new())
    }
}
impl P {
    fn tracked() -> P {
        let mut c = Chain::new();
        c.factory_stub(true, false);
        c.add_code(77, Rc::new(Dummy));
        let i = [native("uaaa"), native("ubbb")];
        let m = InstantiateMsg {
            asset_infos: i.to_vec(),
            token_code_id: 1,
            factory_addr: FACTORY.to_string(),
            pair_type: PairType::Xyk {},
            init_params: Some(to_json_binary(&XYKPoolParams { track_asset_balances: Some(true) }).unwrap()),
        };
        c.instantiate(PAIR, Rc::new(Pair), FACTORY, &m, &[]).expect("instantiate");
        P { c, i }
    }
}
/// who may do what, and that a call is paid for
#[no_mangle]
pub fn xyk_access() {
    let mut p = P::new(true, false, false, None);
    let (x, y) = (in_u128("x", 1, E18), in_u128("y", 1, E18));
    let a = in_u128("amount", 1, E18);
    let sent = in_u128("sent", 0, E18);
    p.state(x, y, 1_000_000);
    p.c.factory_fee(false, 30, 0);
    let i = p.i.clone();
    let (r0, r1) = (p.r(0), p.r(1));
    match choice("case", 5) {
        0 => {
            let who = ["user_addr", "pair_addr", "factory_addr", "maker_addr"][choice("who", 4) as usize];
            let params = if in_bool("disable") {
                XYKPoolUpdateParams::DisableFeeShare
            } else {
                XYKPoolUpdateParams::EnableFeeShare { fee_share_bps: 1 + a as u16, fee_share_address: "sharer".to_string() }
            };
            let r = p.c.execute(who, PAIR, &ExecuteMsg::UpdateConfig { params: to_json_binary(&params).unwrap() }, &[]);
            check(r.is_err(), "only the factory owner may set fee sharing");
        }
        1 => {
            // native swap with a different amount than declared
            p.c.give(&i[0], USER, sent);
            let f = if sent > 0 { vec![cn(sent, "uaaa")] } else { vec![] };
            let m = ExecuteMsg::Swap { offer_asset: asset(&i[0], a), ask_asset_info: None, belief_price: None, max_spread: None, to: None };
            if p.c.execute(USER, PAIR, &m, &f).is_ok() {
                cover("swapped");
                check(a == sent, "a swap is paid in full");
            }
        }
        2 => {
            // a cw20 other than the pool's own, or a user, calling the hook
            let m = Cw20HookMsg::Swap { ask_asset_info: None, belief_price: None, max_spread: Some(Decimal::percent(50)), to: None };
            let m = ExecuteMsg::Receive(cw20::Cw20ReceiveMsg { sender: USER.to_string(), amount: Uint128::new(a), msg: to_json_binary(&m).unwrap() });
            let r = p.c.execute(["user_addr", "other_token", "lps"][choice("who", 3) as usize], PAIR, &m, &[]);
            check(r.is_err(), "only the pool's token may report a cw20 payment");
        }
        3 => {
            // cw20 offered directly
            let m = ExecuteMsg::Swap { offer_asset: asset(&i[1], a), ask_asset_info: None, belief_price: None, max_spread: Some(Decimal::percent(50)), to: None };
            let r = p.c.execute(USER, PAIR, &m, &[]);
            check(r.is_err(), "a cw20 cannot be offered without paying");
        }
        _ => {
            // deposit declaring more than sent
            p.c.give(&i[0], USER, sent);
            p.c.give(&i[1], USER, a);
            let f = if sent > 0 { vec![cn(sent, "uaaa")] } else { vec![] };
            let m = ExecuteMsg::ProvideLiquidity {
                assets: vec![asset(&i[0], a), asset(&i[1], a)],
                slippage_tolerance: Some(Decimal::percent(50)),
                auto_stake: None,
                receiver: None,
                min_lp_to_receive: None,
            };
            if p.c.execute(USER, PAIR, &m, &f).is_ok() {
                cover("provided");
                check(a == sent, "a deposit is paid in full");
            }
        }
    }
    let _ = (r0, r1);
}

sx::entries!(
    xyk_swap,
    xyk_swap_cw20,
    xyk_fee_share,
    xyk_swap_limits,
    xyk_provide,
    xyk_provide_cw20,
    xyk_provide_first,
    xyk_withdraw,
    xyk_simulation,
    xyk_simulate_provide,
    xyk_reverse,
    xyk_twap,
    xyk_tracking,
    xyk_access,
);
