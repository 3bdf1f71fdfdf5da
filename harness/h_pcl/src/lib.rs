//! Concentrated pair (contracts/pair_concentrated, packages/astroport_pcl_common).
use astroport::asset::{Asset, AssetInfo, PairInfo};
use astroport::factory::PairType;
use astroport::pair::{
    ConfigResponse, CumulativePricesResponse, Cw20HookMsg, ExecuteMsg, InstantiateMsg, ReverseSimulationResponse, SimulationResponse,
};
use astroport::pair_concentrated::{
    ConcentratedPoolConfig, ConcentratedPoolParams, ConcentratedPoolUpdateParams, PromoteParams, QueryMsg, UpdatePoolParams,
};
use astroport_pair_concentrated::state::CONFIG;
use astroport_pcl_common::state::PriceState;
use chain::*;
use cosmwasm_std::{from_json, to_json_binary, Decimal, Decimal256, StdResult, Uint128, Uint256};
use std::rc::Rc;
use sx::*;

contract!(
    Pair,
    astroport_pair_concentrated::contract::instantiate,
    astroport_pair_concentrated::contract::execute,
    astroport_pair_concentrated::queries::query,
    reply = astroport_pair_concentrated::contract::reply
);
pub const PAIR: &str = "pair_addr";
pub const LP: &str = "factory/pair_addr/astroport/share";
pub const USER: &str = "user_addr";
const E12: u128 = 1_000_000_000_000;
const E18: u128 = 1_000_000_000_000_000_000;
const E24: u128 = 1_000_000_000_000_000_000_000_000;
const E30: u128 = 1_000_000_000_000_000_000_000_000_000_000;
const HALF: u64 = 600;

/// amplification and gamma, in millionths
const CURVE: [[u128; 2]; 3] = [[10_000_000, 145], [40_000_000, 2_000], [500_000_000, 10_000]];
/// least and largest fee and fee gamma, in millionths
const FEES: [[u128; 3]; 3] = [[2600, 4500, 230], [50, 10_000, 100_000], [500, 600, 1]];
/// reserves in thousandths of a token, price scale in millionths
const POOL: [[u128; 3]; 5] = [
    [1_000_000_000, 1_000_000_000, 1_000_000],
    [1_000_000_000, 400_000_000, 2_500_000],
    [300_000_000, 400_000_000, 2_500_000],
    [30_000_000, 9_000, 2_900_000_000],
    [5_000_000, 900_000_000_000, 7],
];
/// offered amount in thousandths of the offered reserve
const OFFER: [u128; 3] = [1, 100, 1000];

fn micro(v: u128) -> Decimal {
    Decimal::new(Uint128::new(v * E12))
}
fn d256(v: u128) -> Decimal256 {
    Decimal256::new(Uint256::from(v))
}
fn pow10(d: u8) -> u128 {
    10u128.pow(d as u32)
}
struct Dummy;
impl Contract for Dummy {
    fn execute(&self, _d: cosmwasm_std::DepsMut, _e: cosmwasm_std::Env, _i: cosmwasm_std::MessageInfo, _m: &[u8]) -> Res {
        Ok(cosmwasm_std::Response::new())
    }
    fn sudo(&self, _d: cosmwasm_std::DepsMut, _e: cosmwasm_std::Env, _m: &[u8]) -> Res {
        Ok(cosmwasm_std::Response::new())
    }
}
struct S {
    c: Chain,
    i: [AssetInfo; 2],
    dec: [u8; 2],
    curve: [u128; 2],
    fees: [u128; 3],
}
impl S {
    fn new(cw20: bool, curve: [u128; 2], fees: [u128; 3], dec: [u8; 2], price: u128, maker: bool) -> S {
        S::create(cw20, curve, fees, dec, price, maker, None)
    }
    fn tracked(cw20: bool, curve: [u128; 2], fees: [u128; 3], dec: [u8; 2], price: u128, maker: bool) -> S {
        S::create(cw20, curve, fees, dec, price, maker, Some(true))
    }
    fn create(cw20: bool, curve: [u128; 2], fees: [u128; 3], dec: [u8; 2], price: u128, maker: bool, track_asset_balances: Option<bool>) -> S {
        let mut c = Chain::new();
        c.factory_stub(maker, false);
        c.factory_fee(maker, 30, 3333);
        if track_asset_balances.is_some() {
            c.add_code(77, Rc::new(Dummy));
        }
        c.decimals("uaaa", dec[0]);
        let i = [native("uaaa"), if cw20 { token("token_b") } else { native("ubbb") }];
        if cw20 {
            c.cw20_new("token_b", "minter", dec[1]);
        } else {
            c.decimals("ubbb", dec[1]);
        }
        let p = ConcentratedPoolParams {
            amp: micro(curve[0]),
            gamma: micro(curve[1]),
            mid_fee: micro(fees[0]),
            out_fee: micro(fees[1]),
            fee_gamma: micro(fees[2]),
            repeg_profit_threshold: micro(2),
            min_price_scale_delta: micro(146),
            price_scale: micro(price),
            ma_half_time: HALF,
            track_asset_balances,
            fee_share: None,
        };
        let m = InstantiateMsg {
            asset_infos: i.to_vec(),
            token_code_id: 1,
            factory_addr: FACTORY.to_string(),
            pair_type: PairType::Custom("concentrated".to_string()),
            init_params: Some(to_json_binary(&p).unwrap()),
        };
        c.instantiate(PAIR, Rc::new(Pair), FACTORY, &m, &[]).expect("instantiate");
        let p: PairInfo = c.query(PAIR, &QueryMsg::Pair {}).expect("pair");
        assert!(p.liquidity_token == LP);
        c.factory_pair(&p);
        // the pool looks itself up in the factory's own store
        astroport_factory::state::PAIRS
            .save(c.storage(FACTORY), &astroport_factory::state::pair_key(&i), &cosmwasm_std::Addr::unchecked(PAIR))
            .expect("pairs");
        S { c, i, dec, curve, fees }
    }
    fn state(&mut self, x: u128, y: u128, s: u128) {
        let i = self.i.clone();
        self.c.give(&i[0], PAIR, x);
        self.c.give(&i[1], PAIR, y);
        if s > 0 {
            self.c.fund("lps", LP, s);
        }
    }
    fn price(&mut self) -> PriceState {
        self.c.with_deps(PAIR, |d, _| CONFIG.load(d.storage).expect("config").pool_state.price_state)
    }
    fn set_price(&mut self, p: PriceState) {
        self.c.with_deps(PAIR, |d, _| {
            CONFIG
                .update(d.storage, |mut c| -> StdResult<_> {
                    c.pool_state.price_state = p;
                    Ok(c)
                })
                .expect("config");
        });
    }
    fn swap(&mut self, d: usize, a: u128, belief_price: Option<Decimal>, max_spread: Option<Decimal>) -> Result<(), String> {
        let offer_asset = asset(&self.i[d], a);
        match &self.i[d] {
            AssetInfo::NativeToken { .. } => {
                let f = funds_of(&[&offer_asset]);
                self.c.execute(USER, PAIR, &ExecuteMsg::Swap { offer_asset, ask_asset_info: None, belief_price, max_spread, to: None }, &f)
            }
            AssetInfo::Token { contract_addr } => {
                let m = Cw20HookMsg::Swap { ask_asset_info: None, belief_price, max_spread, to: None };
                let m = cw20::Cw20ExecuteMsg::Send { contract: PAIR.to_string(), amount: Uint128::new(a), msg: to_json_binary(&m).unwrap() };
                self.c.execute(USER, contract_addr.as_str(), &m, &[])
            }
        }
    }
    fn provide(&mut self, d0: u128, d1: u128, tol: Option<Decimal>, min: Option<Uint128>) -> Result<(), String> {
        let (a, b) = (asset(&self.i[0], d0), asset(&self.i[1], d1));
        let mut f = funds_of(&[&a, &b]);
        f.retain(|c| !c.amount.is_zero());
        let m = ExecuteMsg::ProvideLiquidity { assets: vec![a, b], slippage_tolerance: tol, auto_stake: None, receiver: None, min_lp_to_receive: min };
        self.c.execute(USER, PAIR, &m, &f)
    }
    fn withdraw(&mut self, lp: u128, min: Option<Vec<Asset>>) -> Result<(), String> {
        let m = ExecuteMsg::WithdrawLiquidity { assets: vec![], min_assets_to_receive: min };
        self.c.execute(USER, PAIR, &m, &[cn(lp, LP)])
    }
    fn update(&mut self, who: &str, p: &ConcentratedPoolUpdateParams) -> Result<(), String> {
        self.c.execute(who, PAIR, &ExecuteMsg::UpdateConfig { params: to_json_binary(p).unwrap() }, &[])
    }
    fn config(&self) -> ConcentratedPoolConfig {
        let c: ConfigResponse = self.c.query(PAIR, &QueryMsg::Config {}).expect("config");
        from_json(c.params.unwrap()).unwrap()
    }
    fn r(&self, d: usize) -> u128 {
        self.c.hold(&self.i[d], PAIR)
    }
    fn u(&self, d: usize) -> u128 {
        self.c.hold(&self.i[d], USER)
    }
    /// amount of asset d as an 18-decimal number
    fn dec(&self, d: usize, v: impl ToInt) -> Int {
        v.int() * k(10u128.pow(18 - self.dec[d] as u32))
    }
}
fn big(d: Decimal256) -> Int {
    let b = d.atomics().to_be_bytes();
    let part = |i: usize| -> Int { u64::from_be_bytes(b[i..i + 8].try_into().unwrap()).int() };
    let w = k(1 << 64);
    ((part(0) * w + part(8)) * w + part(16)) * w + part(24)
}
/// sign of the curve equation F(D) = K D (x + y) + x y - K D^2 - D^2 / 4 with K = A g^2 K0 / (g + 1 - K0)^2,
/// K0 = 4 x y / D^2: at least 0 iff the invariant of (x, y) is at least d. (x, y, d to one scale; A, g in millionths)
fn at_least(curve: [u128; 2], x: Int, y: Int, d: Int) -> bool {
    let p = x * y;
    let d2 = d * d;
    if d2.le(k(4) * p).fork() {
        return true;
    }
    if d.ge(x + y).fork() {
        return false;
    }
    let (m, g) = (k(1_000_000), k(curve[1]));
    // times (g1 D^2 - 4xy)^2, times 10^6^3 * 4
    let q = (g + m) * d2 - k(4) * p * m;
    let left = k(curve[0]) * g * g * k(4) * p * d2 * (d * (x + y) - d2) * k(4);
    // (xy - D^2/4) q^2: q carries 10^6, so q^2 carries 10^12; left carries 10^18
    let right = (d2 - k(4) * p) * q * q * m;
    left.ge(right).fork()
}
/// the invariant, rounded down
fn invariant(curve: [u128; 2], x: Int, y: Int) -> Int {
    let (mut lo, mut hi) = (k(0), x + y);
    while lo.lt(hi).fork() {
        let m = (lo + hi + k(1)) / k(2);
        if at_least(curve, x, y, m) {
            lo = m;
        } else {
            hi = m - k(1);
        }
    }
    lo
}
/// the fee rate (18 decimals) at (x, y), rounded down
fn fee_rate(fees: [u128; 3], x: Int, y: Int) -> Int {
    let s2 = (x + y) * (x + y);
    let p = k(4) * x * y;
    let (m, g) = (k(1_000_000), k(fees[2]));
    // k = g / (g + 1 - p / s2) = g s2 / ((g + 1) s2 - p)
    let (num, den) = (g * s2, (g + m) * s2 - p * m);
    let (mid, out) = (k(fees[0] * E12), k(fees[1] * E12));
    if (num * k(1000)).le(den).fork() {
        return out;
    }
    (num * mid + (den - num) * out) / den
}
fn near(a: Int, b: Int, e: Int) -> B {
    a.le(b + e) & b.le(a + e)
}
struct Pool {
    x: u128,
    y: u128,
    price: u128,
}
/// a pool whose supply is its worth at the price scale (a virtual price of one), less a quarter at most
fn pool(s: &mut S, p: [u128; 3]) -> (Pool, u128) {
    pool_of(s, p, true)
}
fn pool_of(s: &mut S, p: [u128; 3], any: bool) -> (Pool, u128) {
    let (x, y) = (p[0] * pow10(s.dec[0]) / 1000, p[1] * pow10(s.dec[1]) / 1000);
    let d = invariant(s.curve, s.dec(0, x), s.dec(1, y) * k(p[2]) / k(1_000_000));
    let xcp = (d * d * k(1_000_000) / k(4 * p[2])).isqrt();
    let top = (xcp / k(E12)).to_u128();
    let sup = if any {
        let sup = in_u128("supply", 0, E30);
        assume(sup <= top && sup >= top - top / 4);
        sup
    } else {
        top - [1, top / 5][choice("supply", 2) as usize]
    };
    s.state(x, y, sup);
    (Pool { x, y, price: p[2] }, sup)
}
/// any history of profits that fits the supply, and how far the oracle price is from the price scale (in thousandths)
fn history(s: &mut S, p: &Pool, sup: u128, off: u128, last: u128) -> PriceState {
    let d = invariant(s.curve, s.dec(0, p.x), s.dec(1, p.y) * k(p.price) / k(1_000_000));
    let xcp = (d * d * k(1_000_000) / k(4 * p.price)).isqrt();
    let (real, profit) = (in_u128("xcp_profit_real", E18, 2 * E18), in_u128("xcp_profit", E18, 2 * E18));
    assume(real <= profit);
    // the worth of a share only ever grows
    assume((real.int() * sup * k(E12)).le(xcp * k(E18) - xcp * k(E12)).fork());
    let now = s.c.time;
    let pr = PriceState {
        oracle_price: d256(p.price * E12 / 1000 * off),
        last_price: d256(p.price * E12 / 1000 * last),
        price_scale: d256(p.price * E12),
        last_price_update: now,
        xcp_profit: d256(profit),
        xcp_profit_real: d256(real),
    };
    s.set_price(pr.clone());
    pr
}
/// how a trade moves the pool's price: `x`, `y` are the reserves after it, `out0` tells what of asset 0 and 1 the
/// trader exchanged
fn repegged(s: &mut S, was: &PriceState, now: &PriceState, x: u128, y: u128, sup: Int, dt: u64, pool: u128) {
    // the oracle price: halfway to the last price in each half-time
    let n = dt / HALF;
    let (o, l) = (big(was.oracle_price), big(was.last_price));
    if dt % HALF == 0 {
        let e = l.max(o) / k(1_000_000_000) + k(4);
        let w = k(1u128 << n);
        let exp = (l * (w - k(1)) + o) / w;
        (big(now.oracle_price).le(exp + e) & (big(now.oracle_price) + e).ge(exp)).check("the oracle price halves its distance to the last price in each half-time");
    } else {
        (big(now.oracle_price).ge(l.min(o)) & big(now.oracle_price).le(l.max(o))).check("the oracle price moves between its old value and the last price");
    }
    check(now.last_price_update == s.c.time, "the price update is recorded");
    // a share's worth at the old price scale
    let m = k(1_000_000);
    let worth = |s: &S, scale: Int| -> Int {
        let d = invariant(s.curve, s.dec(0, x), s.dec(1, y) * scale / k(E18));
        (d * d / k(4) * k(E18) / scale).isqrt()
    };
    let scale = big(was.price_scale);
    let _ = (pool, m);
    let one = k(E18);
    let xcp = worth(s, scale);
    let v = xcp * k(E18) / (sup * k(E12));
    let (r0, p0) = (big(was.xcp_profit_real), big(was.xcp_profit));
    // a relative 1e-7, an absolute 1e-8, and three units of each reserve
    let tol = v / k(10_000_000) + k(10_000_000_000) + v * k(3) / k(x) + v * k(3) / k(y);
    (v + tol).ge(r0).check("a share's worth does not fall");
    let p1 = big(now.xcp_profit);
    (p1.le(p0 * (v + tol) / r0 + tol) & (p1 + tol).ge(p0 * (v - tol) / r0)).check("the profit grows as much as a share's worth");
    let (r1, sc) = (big(now.xcp_profit_real), big(now.price_scale));
    let oracle = big(now.oracle_price);
    let norm = oracle * one / scale;
    let norm = ite(norm.ge(one), norm - one, one - norm);
    let delta = k(146 * E12).max(norm / k(10));
    let thr = k(2 * E12);
    if now.price_scale == was.price_scale {
        near(r1, v, tol).check("without a change of the price scale the real profit is a share's worth");
        cover("kept");
        // it stays only if far enough from neither profit nor price, or if the change would cost too much
        let go = norm.ge(delta + k(10_000_000_000)) & (v - tol - one).gt((p1 - one) / k(2) + thr + tol);
        if go.fork() {
            let next = (scale * (norm - delta) + delta * oracle) / norm;
            let w = worth(s, next) * k(E18) / (sup * k(E12));
            (k(2) * w).le(p1 + one + k(4) * tol).check("the price scale follows the oracle price when half of the profit pays for it");
        }
    } else {
        cover("moved");
        norm.ge(delta - k(10_000_000_000)).check("the price scale moves only when the oracle price is far enough from it");
        (v + tol - one).gt((p1 - one) / k(2) + thr - tol).check("the price scale moves only when more than half of the profit is there");
        (k(2) * r1 + k(4)).gt(p1 + one).check("after a move half of the profit is left");
        near(r1, worth(s, sc) * k(E18) / (sup * k(E12)), tol).check("after a move the real profit is a share's worth");
        let up = oracle.ge(scale);
        ite(up, sc, scale).ge(ite(up, scale, sc)).check("the price scale moves towards the oracle price");
        ite(up, sc, oracle).le(ite(up, oracle, sc)).check("the price scale does not pass the oracle price");
        let step = ite(up, sc - scale, scale - sc);
        let e = k(10_000_000_000) * scale / one + k(4);
        (step.le(delta * scale / one + e) & (step + e).ge(delta * scale / one)).check("the price scale moves by a tenth of the distance, or the smallest step");
    }
}
/// oracle price and last price over the price scale (thousandths), and seconds since the last update
const HISTORY: [(u128, u128, u64); 8] = [
    (1000, 1000, HALF),
    (1000, 1100, 10 * HALF),
    (1010, 1000, 0),
    (900, 1100, HALF),
    (1500, 1500, 3 * HALF),
    (1010, 990, HALF / 3),
    (700, 1000, 0),
    (1001, 1001, 7),
];
struct Case {
    cw20: bool,
    dec: [u8; 2],
    curve: usize,
    fees: usize,
    pool: usize,
    offers: u64,
    fee_to: (bool, bool),
    hist: usize,
    mf: u16,
}
fn swap_case(z: Case) {
    let (cv, fe, pl) = (CURVE[z.curve], FEES[z.fees], POOL[z.pool]);
    let (maker, offers) = (z.fee_to.0, z.offers);
    let mut s = S::new(z.cw20, cv, fe, z.dec, pl[2], maker);
    let share = if z.fee_to.1 { 700u16 } else { 0 };
    if share > 0 {
        let p = ConcentratedPoolUpdateParams::EnableFeeShare { fee_share_bps: share, fee_share_address: "sharer".to_string() };
        s.update(OWNER, &p).expect("share");
    }
    let mf = z.mf;
    s.c.factory_fee(maker, 30, mf);
    let (p, sup) = pool(&mut s, pl);
    let (off, last, dt) = HISTORY[z.hist];
    let was = history(&mut s, &p, sup, off, last);
    s.c.time += dt;
    let d = choice("dir", 2) as usize;
    let o = 1 - d;
    let (x, y) = if d == 0 { (p.x, p.y) } else { (p.y, p.x) };
    let a = x / 1000 * OFFER[choice("offer", offers) as usize];
    let i = s.i.clone();
    s.c.give(&i[d], USER, a);
    if s.swap(d, a, None, Some(Decimal::percent(50))).is_err() {
        return;
    }
    cover("swapped");
    let (x2, y2, m, out, sh) = (s.r(d), s.r(o), s.c.hold(&s.i[o], MAKER), s.u(o), s.c.hold(&s.i[o], "sharer"));
    obs("out", out);
    x2.int().eq(x.int() + a).check("the pool keeps all it was paid");
    (y2.int() + m + out + sh).eq(y).check("all that left the pool went to the trader and the fee receivers");
    let com = s.c.attr_n("commission_amount");
    // the curve: what the trader gets before the fee keeps the invariant
    let gross = s.dec(o, out.int() + com);
    let tr = |s: &S, x: Int, y: Int| -> (Int, Int) {
        let (x, y) = if d == 0 { (x, y) } else { (y, x) };
        let _ = s;
        (x, y * k(p.price) / k(1_000_000))
    };
    let (ix, iy) = tr(&s, s.dec(d, x), s.dec(o, y));
    let inv = invariant(cv, ix, iy);
    let eps = inv / k(50_000_000) + k(10_000_000_000);
    let unit = s.dec(o, k(2)) + s.dec(o, y) / k(50_000_000);
    let (nx, ny) = tr(&s, s.dec(d, x2), s.dec(o, y) - gross + unit);
    check(at_least(cv, nx, ny, inv - eps), "a swap gives no more than the concentrated curve");
    let (nx, ny) = tr(&s, s.dec(d, x2), s.dec(o, y) - gross - unit);
    check(!at_least(cv, nx, ny, inv + eps), "a swap gives no less than the concentrated curve");
    // the fee
    let (nx, ny) = tr(&s, s.dec(d, x2), s.dec(o, y) - gross);
    let rate = fee_rate(fe, nx, ny);
    check(rate.ge(k(fe[0] * E12)).fork() && rate.le(k(fe[1] * E12)).fork(), "the fee model");
    let fee = s.dec(o, com);
    let fe = (gross * rate / k(E18), gross / k(10_000_000) + s.dec(o, k(2)));
    (fee.le(fe.0 + fe.1) & (fee + fe.1).ge(fe.0)).check("the fee follows the balance of the pool between its least and greatest rate");
    (sh.int() * k(10_000)).le((com.int() + k(1)) * share).check("the sharer gets no more than its part of the fee");
    ((sh.int() + k(1)) * k(10_000)).ge(com.int() * share).check("the sharer gets no less than its part of the fee");
    if maker {
        let rest = com.int() - sh;
        (m.int() * k(10_000)).le((rest + k(1)) * mf).check("the fee receiver gets no more than its part of the fee");
        ((m.int() + k(1)) * k(10_000)).ge((rest - k(1)) * mf).check("the fee receiver gets no less than its part of the fee");
    } else {
        check(m == 0, "no fee receiver, no transfer");
    }
    let now = s.price();
    // a trade is too small below 1e-5 of either asset
    let least = k(10 * E12);
    let small = s.dec(d, a).lt(least).fork() || (s.dec(o, out.int() + m + sh) + s.dec(o, k(3))).lt(least).fork();
    if small {
        check(now == was, "a tiny trade does not move the price");
        cover("tiny");
        return;
    }
    // the price of the trade, 0 in 1
    let net = s.dec(o, out.int() + m + sh);
    let l = big(now.last_price);
    let sold = s.dec(d, a);
    let e = s.dec(o, k(4));
    if d == 0 {
        ((l * net / k(E18)).le(sold + sold / k(E12) + l * e / k(E18)) & (l * (net + e) / k(E18) + sold / k(E12)).ge(sold)).check("the last price is the price of the trade");
    } else {
        let e = e + sold / k(E18) + k(2);
        ((l * sold / k(E18)).le(net + e) & (l * sold / k(E18) + e + e).ge(net)).check("the last price is the price of the trade");
    }
    let (x, y) = (s.r(0), s.r(1));
    repegged(&mut s, &was, &now, x, y, sup.int(), dt, p.price);
}
/// the curve and the fee, at a quiet price
#[no_mangle]
pub fn pc_swap() {
    let (curve, pool) = (choice("curve", 3) as usize, choice("pool", 5) as usize);
    let fee_to = if in_bool("fee_to") { (true, true) } else { (false, false) };
    swap_case(Case { cw20: false, dec: [6, 6], curve, fees: (curve + pool) % 3, pool, offers: 3, fee_to, hist: 0, mf: 3333 })
}
/// the price scale follows the market
#[no_mangle]
pub fn pc_repeg() {
    let i = choice("pool", 3) as usize;
    let (curve, fees, pool) = [(0, 1, 0), (1, 0, 2), (2, 2, 3)][i];
    swap_case(Case { cw20: false, dec: [6, 6], curve, fees, pool, offers: 2, fee_to: (false, false), hist: choice("history", 6) as usize, mf: 0 })
}
/// other decimals, a cw20, and each of the fee receivers
#[no_mangle]
pub fn pc_swap_dec() {
    let dec = [[6, 18], [18, 8], [8, 6]][choice("decimals", 3) as usize];
    let pool = [1, 4][choice("pool", 2) as usize];
    let n = choice("fee_to", 4) as usize;
    let (fee_to, mf) = ([(false, false), (true, true), (true, false), (false, true)][n], [0, 5000, 10_000, 1][n]);
    swap_case(Case { cw20: in_bool("cw20"), dec, curve: 1, fees: 0, pool, offers: 2, fee_to, hist: 2, mf })
}
/// everything with everything
#[no_mangle]
pub fn pc_swap_all() {
    let (curve, fees, pool) = (choice("curve", 3) as usize, choice("fees", 3) as usize, choice("pool", 5) as usize);
    swap_case(Case { cw20: false, dec: [6, 6], curve, fees, pool, offers: 3, fee_to: (true, false), hist: choice("history", 8) as usize, mf: 3333 })
}

/// a pool at rest: every share is worth one, the oracle price is off the price scale as told (in thousandths)
fn quiet(s: &mut S, pl: [u128; 3], off: u128) -> (Pool, u128) {
    let (x, y) = (pl[0] * pow10(s.dec[0]) / 1000, pl[1] * pow10(s.dec[1]) / 1000);
    let d = invariant(s.curve, s.dec(0, x), s.dec(1, y) * k(pl[2]) / k(1_000_000));
    let xcp = (d * d * k(1_000_000) / k(4 * pl[2])).isqrt();
    let sup = (xcp / k(E12)).to_u128() - 1;
    s.state(x, y, sup);
    let now = s.c.time;
    s.set_price(PriceState {
        oracle_price: d256(pl[2] * E12 / 1000 * off),
        last_price: d256(pl[2] * E12 / 1000 * off),
        price_scale: d256(pl[2] * E12),
        last_price_update: now,
        xcp_profit: d256(E18),
        xcp_profit_real: d256(E18),
    });
    (Pool { x, y, price: pl[2] }, sup)
}
fn curve_of(pool: usize, all: bool) -> usize {
    if all {
        choice("curve", 3) as usize
    } else {
        (pool + 1) % 3
    }
}
/// user limits on swaps
#[no_mangle]
pub fn pc_limits() {
    limits(false)
}
#[no_mangle]
pub fn pc_limits_all() {
    limits(true)
}
fn limits(all: bool) {
    let pool = choice("pool", 5) as usize;
    let curve = curve_of(pool, all);
    let pl = POOL[pool];
    let mut s = S::new(false, CURVE[curve], FEES[pool % 3], [6, 6], pl[2], false);
    let off = [1000, 970][choice("oracle", 2) as usize];
    let (p, _) = quiet(&mut s, pl, off);
    let d = choice("dir", 2) as usize;
    let o = 1 - d;
    let a = [p.x, p.y][d] / 1000 * OFFER[choice("offer", 2) as usize];
    let i = s.i.clone();
    s.c.give(&i[d], USER, a);
    let ms = if in_bool("has_spread") { Some(in_decimal("max_spread", 0, 2 * E18)) } else { None };
    let bp = if in_bool("has_belief") { Some(in_decimal("belief", 0, E24)) } else { None };
    let quote: Result<SimulationResponse, _> = s.c.query(PAIR, &QueryMsg::Simulation { offer_asset: asset(&i[d], a), ask_asset_info: None });
    let r = s.swap(d, a, bp, ms);
    let lim = match ms {
        Some(m) => m.atomics().int(),
        None => k(E18 / 20),
    };
    let ok = r.is_ok();
    let out = match (&quote, ok) {
        (_, true) => s.u(o),
        (Ok(q), false) => q.return_amount.u128(),
        _ => return,
    };
    let (loss, exp) = match bp {
        Some(b) => {
            if b.is_zero() {
                check(!ok, "no belief price of zero");
                return;
            }
            let exp = a.int() * (k(E18) * k(E18) / b.atomics()) / k(E18);
            (exp.max(k(out)) - out, exp.max(k(out)))
        }
        None => {
            // against the pool's oracle price, before the fee
            let com = if ok { s.c.attr_n("commission_amount") } else { quote.as_ref().unwrap().commission_amount.u128() };
            let (price, m) = (k(p.price * off), k(1_000_000_000));
            let exp = if d == 0 { k(a) * m / price } else { k(a) * price / m };
            let sp = (exp.max(k(out + com)) - (out + com)).max(k(2)) - k(2);
            (sp, k(out) + sp)
        }
    };
    if ok {
        cover("swapped");
        lim.le(k(E18 / 2)).check("a spread limit above one half is rejected");
        (loss * k(E18)).le(exp * (lim + k(1))).check("the trader does not lose more than the allowed spread");
    } else {
        cover("refused");
        (lim.gt(k(E18 / 2)) | ((loss + k(5)) * k(E18)).ge(exp * lim)).check("a swap within its spread limit goes through");
    }
}
/// what queries quote is what execution does
#[no_mangle]
pub fn pc_simulation() {
    simulation(false)
}
#[no_mangle]
pub fn pc_simulation_all() {
    simulation(true)
}
fn simulation(all: bool) {
    let pi = choice("pool", 5) as usize;
    let curve = curve_of(pi, all);
    let pl = POOL[pi];
    let cw20 = in_bool("cw20");
    let mut s = S::new(cw20, CURVE[curve], FEES[(curve + pi) % 3], [6, if cw20 { 8 } else { 6 }], pl[2], true);
    s.c.factory_fee(true, 30, 3333);
    if in_bool("share") {
        let p = ConcentratedPoolUpdateParams::EnableFeeShare { fee_share_bps: 700, fee_share_address: "sharer".to_string() };
        s.update(OWNER, &p).expect("share");
    }
    let (p, sup) = pool(&mut s, pl);
    let (off, last, dt) = HISTORY[2 + choice("history", 2) as usize];
    history(&mut s, &p, sup, off, last);
    s.c.time += dt;
    let d = choice("dir", 2) as usize;
    let o = 1 - d;
    let a = [p.x, p.y][d] / 1000 * 100;
    let i = s.i.clone();
    s.c.give(&i[d], USER, a);
    let q: Result<SimulationResponse, _> = s.c.query(PAIR, &QueryMsg::Simulation { offer_asset: asset(&i[d], a), ask_asset_info: None });
    if s.swap(d, a, None, Some(Decimal::percent(50))).is_err() {
        return;
    }
    cover("swapped");
    match q {
        Ok(q) => {
            check(s.u(o) == q.return_amount.u128(), "the trader gets what the simulation quotes");
            check(s.c.attr_n("commission_amount") == q.commission_amount.u128(), "the commission is what the simulation quotes");
            check(s.c.attr_n("spread_amount") == q.spread_amount.u128(), "the spread is what the simulation quotes");
        }
        Err(_) => check(false, "a swap that executes can be simulated"),
    }
}
/// reverse simulation: paying the quote buys at least the amount asked, and no more than the fee range explains
#[no_mangle]
pub fn pc_reverse() {
    let (curve, pi) = (choice("curve", 3) as usize, choice("pool", 5) as usize);
    let pl = POOL[pi];
    let dec = [[6, 6], [6, 18], [18, 8]][choice("decimals", 3) as usize];
    let fe = FEES[(curve + pi) % 3];
    let mut s = S::new(false, CURVE[curve], fe, dec, pl[2], false);
    let (p, _) = quiet(&mut s, pl, 1000);
    let d = choice("dir", 2) as usize;
    let o = 1 - d;
    let y = [p.x, p.y][o];
    let w = y / 1000 * [1, 50, 500][choice("want", 3) as usize];
    let i = s.i.clone();
    let q: ReverseSimulationResponse = match s.c.query(PAIR, &QueryMsg::ReverseSimulation { offer_asset_info: None, ask_asset: asset(&i[o], w) }) {
        Ok(q) => q,
        Err(_) => return,
    };
    cover("quoted");
    let a = q.offer_amount.u128() + 1;
    obs("offer", a);
    s.c.give(&i[d], USER, a);
    // without a limit of the trader's, as far as the pool goes
    let r: Result<SimulationResponse, _> = s.c.query(PAIR, &QueryMsg::Simulation { offer_asset: asset(&i[d], a), ask_asset_info: None });
    let out = match r {
        Ok(r) => r.return_amount.u128(),
        Err(_) => {
            check(false, "the quote can be paid");
            return;
        }
    };
    let e = k(w) / k(10_000_000) + k(y) / k(10_000_000) + k(2);
    (k(out) + e).ge(w).check("paying the quote buys the amount asked");
    // the quote reckons with the greatest fee, the swap takes between the least and the greatest
    let hi = k(w) * k(1_000_000 - fe[0]) / k(1_000_000 - fe[1]);
    // one unit of the offer may be worth more than the tolerance
    let unit = k(y) / k([p.x, p.y][d]) * k(3);
    k(out).le(hi + e + unit).check("the quote does not overcharge");
}
fn provide_entry(first: bool, all: bool) {
    let pi = choice("pool", 5) as usize;
    let curve = curve_of(pi, all);
    let (cv, fe, pl) = (CURVE[curve], FEES[(curve + pi) % 3], POOL[pi]);
    let dec = [[6, 6], [18, 8]][choice("decimals", 2) as usize];
    let mut s = S::new(dec[0] == 18, cv, fe, dec, pl[2], false);
    let (p, sup, f, was) = if first {
        let p = Pool { x: pl[0] * pow10(dec[0]) / 1000, y: pl[1] * pow10(dec[1]) / 1000, price: pl[2] };
        let was = s.price();
        (p, 0, [[1000, 1000], [1, 2], [1000, 0]][choice("deposit", 3) as usize], was)
    } else {
        let (p, sup) = pool_of(&mut s, pl, false);
        let was = history(&mut s, &p, sup, 1000, 1000);
        (p, sup, [[10, 10], [1000, 0], [0, 100], [300, 700]][choice("deposit", 4) as usize], was)
    };
    let (a, b) = (p.x / 1000 * f[0], p.y / 1000 * f[1]);
    let i = s.i.clone();
    s.c.give(&i[0], USER, a);
    s.c.give(&i[1], USER, b);
    let min = in_u128("min_lp", 0, E30);
    let tol = if first { Some(Decimal::percent(50)) } else { Some(in_decimal("tolerance", 0, E18)) };
    let q: Result<Uint128, _> =
        s.c.query(PAIR, &QueryMsg::SimulateProvide { assets: vec![asset(&i[0], a), asset(&i[1], b)], slippage_tolerance: tol });
    let r = s.provide(a, b, tol, Some(Uint128::new(min)));
    if r.is_err() {
        return;
    }
    cover("provided");
    let (sh, locked) = (s.c.balance(USER, LP), s.c.balance(PAIR, LP));
    obs("shares", sh);
    check(sh >= min, "the depositor gets the minimum asked for");
    let (x0, y0) = if first { (0, 0) } else { (p.x, p.y) };
    check(s.r(0) == x0 + a && s.r(1) == y0 + b, "the pool receives both deposits");
    check(s.u(0) == 0 && s.u(1) == 0, "the depositor pays both deposits");
    match q {
        Ok(q) => check(q.u128() == sh, "the depositor gets what the simulation quotes"),
        Err(_) => check(false, "a deposit that executes can be simulated"),
    }
    let sc = |v: Int| v * k(p.price) / k(1_000_000);
    let d1 = invariant(cv, s.dec(0, x0 + a), sc(s.dec(1, y0 + b)));
    let e = d1 / k(1_000_000_000_000) + k(10_000_000);
    let now = s.price();
    if first {
        check(f[1] != 0, "a first deposit has both assets");
        check(locked == 1000 && sh > 0, "the minimum liquidity stays with the pair");
        s.c.supply_of(LP).int().eq(sh.int() + k(1000)).check("the supply is the depositor's shares plus the locked ones");
        let xcp = (d1 * d1 * k(1_000_000) / k(4 * p.price)).isqrt() / k(E12);
        let t = sh.int() + k(1000);
        let e = e / k(E12) * k(1000) + xcp / k(100_000_000_000) + k(2);
        (t.le(xcp + e) & (t + e).ge(xcp)).check("the first supply is the pool's worth at the price scale");
        check(now.xcp_profit == Decimal256::one() && now.xcp_profit_real == Decimal256::one(), "profits start at one");
        return;
    }
    check(locked == 0, "nothing else is minted");
    s.c.supply_of(LP).int().eq(sup.int() + sh).check("only the depositor's shares are minted");
    let d0 = invariant(cv, s.dec(0, p.x), sc(s.dec(1, p.y)));
    // the fee on how far the deposit is from balance
    let rate = fee_rate(fe, s.dec(0, x0 + a), sc(s.dec(1, y0 + b)));
    let (v0, v1) = (s.dec(0, a), sc(s.dec(1, b)));
    let diff = ite(v0.ge(v1), v0 - v1, v1 - v0);
    // of shares: (d1 - d0) / d0 * (1 - diff / 2 / (v0 + v1) * rate)
    let one = k(E18);
    let fee = diff * rate / (k(2) * (v0 + v1));
    let slack = rate / k(1_000_000) + k(100);
    (sh.int() * (d0 - e) * one).le(sup.int() * (d1 - d0 + k(2) * e) * (one - fee + slack)).check("shares are not worth more than the deposit adds to the invariant, less its fee");
    ((sh.int() + k(1)) * (d0 + e) * one).ge(sup.int() * (d1 - d0 - k(2) * e) * (one - fee - slack)).check("the depositor gets all the shares the deposit is worth");
    // the tolerance: against the deposit's value at the price scale and at what a share is worth
    if now.last_price != was.last_price {
        let v = v0 + v1;
        let val = (v * v * k(1_000_000) / k(4 * p.price)).isqrt();
        let exp = val * one / big(was.xcp_profit_real);
        let t = tol.unwrap().atomics().int();
        t.le(k(E18 / 2)).check("a tolerance above one half is rejected");
        let got = (sh.int() + k(1)) * k(E12);
        (got * one).ge(exp * (one - t - k(10))).check("the deposit loses no more than the slippage tolerance");
        cover("priced");
        let v = worth_of(&s, cv, x0 + a, y0 + b, p.price) * one / ((sup.int() + sh) * k(E12));
        (v + v / k(10_000_000)).ge(big(was.xcp_profit_real)).check("a deposit does not lower the worth of a share");
    }
}
fn worth_of(s: &S, cv: [u128; 2], x: u128, y: u128, price: u128) -> Int {
    let d = invariant(cv, s.dec(0, x), s.dec(1, y) * k(price) / k(1_000_000));
    (d * d * k(1_000_000) / k(4 * price)).isqrt()
}
#[no_mangle]
pub fn pc_provide() {
    provide_entry(false, false)
}
#[no_mangle]
pub fn pc_provide_all() {
    provide_entry(false, true)
}
#[no_mangle]
pub fn pc_provide_first() {
    provide_entry(true, true)
}

/// stands in for the curve's invariant where only the amounts matter: any value
#[no_mangle]
pub extern "Rust" fn pcl_any_d(xs: &[Decimal256], _: &astroport_pcl_common::state::AmpGamma) -> StdResult<Decimal256> {
    let _ = xs;
    let n = unsafe {
        static mut N: u32 = 0;
        N += 1;
        N
    };
    Ok(d256(in_u128(&format!("d{n}"), 1, 1 << 110)))
}
/// withdrawals from any reserves
#[no_mangle]
pub fn pc_withdraw() {
    let cw20 = in_bool("cw20");
    let mut s = S::new(cw20, CURVE[1], FEES[0], [6, 8], 2_500_000, false);
    let (x, y, n, w) = (in_u128("x", 1, E24), in_u128("y", 1, E24), in_u128("supply", 1001, E24), in_u128("lp", 1, E24));
    // the minimum liquidity is never withdrawn
    assume(w.int().le(n.int() - k(1000)).fork());
    s.state(x, y, n);
    s.c.set_balance("lps", LP, n - w);
    s.c.set_balance(USER, LP, w);
    let i = s.i.clone();
    let q: Vec<Asset> = match s.c.query(PAIR, &QueryMsg::SimulateWithdraw { lp_amount: Uint128::new(w) }) {
        Ok(q) => q,
        Err(_) => return,
    };
    let min = if in_bool("has_min") {
        let (m0, m1) = (in_u128("min0", 0, E30), in_u128("min1", 0, E30));
        let mut v = vec![asset(&i[0], m0), asset(&i[1], m1)];
        match choice("min_kind", 4) {
            1 => v.reverse(),
            2 => v[1] = asset(&i[0], m1),
            3 => {
                v.pop();
            }
            _ => {}
        }
        let ok = v.len() == 2 && v[0].info != v[1].info;
        Some((v, m0, m1, ok))
    } else {
        None
    };
    if s.withdraw(w, min.as_ref().map(|m| m.0.clone())).is_err() {
        return;
    }
    cover("withdrew");
    let (r0, r1) = (s.u(0), s.u(1));
    obs("r0", r0);
    obs("r1", r1);
    check(s.c.balance(USER, LP) == 0, "the shares are paid in");
    check(s.c.supply_of(LP) == n - w, "exactly the shares paid in are burned");
    (s.r(0).int() + r0).eq(x).check("the pool pays the first asset to the owner only");
    (s.r(1).int() + r1).eq(y).check("the pool pays the second asset to the owner only");
    // the part of the supply, in 18 decimals, rounded down
    let ratio = (w.int() - k(1)) * k(E18) / n;
    (r0.int() * k(E18)).le(ratio * x).check("no more than the proportional part of the first asset");
    (r1.int() * k(E18)).le(ratio * y).check("no more than the proportional part of the second asset");
    ((r0.int() + k(1)) * k(E18)).gt(ratio * x).check("no less than the proportional part of the first asset");
    ((r1.int() + k(1)) * k(E18)).gt(ratio * y).check("no less than the proportional part of the second asset");
    check(q[0].amount.u128() == r0 && q[1].amount.u128() == r1, "a withdrawal pays what its simulation quotes");
    if let Some((_, m0, m1, ok)) = min {
        check(ok && r0 >= m0 && r1 >= m1, "the owner gets the minimum asked for");
    }
}
/// after a withdrawal the pool knows what a share is worth
#[no_mangle]
pub fn pc_withdraw_worth() {
    let (curve, pi) = (choice("curve", 3) as usize, choice("pool", 5) as usize);
    let pl = POOL[pi];
    let mut s = S::new(false, CURVE[curve], FEES[0], [6, 6], pl[2], false);
    let (p, sup) = quiet(&mut s, pl, 1010);
    let was = s.price();
    let f = [1u128, 500, 900][choice("lp", 3) as usize];
    let w = sup / 1000 * f;
    s.c.set_balance("lps", LP, sup - w);
    s.c.set_balance(USER, LP, w);
    if s.withdraw(w, None).is_err() {
        return;
    }
    cover("withdrew");
    let now = s.price();
    // the worth scales with what is left
    let one = k(E18);
    let whole = worth_of(&s, CURVE[curve], p.x, p.y, p.price) * one / (sup.int() * k(E12));
    let e = whole / k(100_000) + k(E12);
    near(big(now.xcp_profit_real), whole, e).check("a withdrawal leaves the worth of a share");
    (big(now.xcp_profit_real) + k(10_000_000_000)).ge(big(was.xcp_profit_real)).check("a withdrawal does not lower the worth of a share");
    check(now.price_scale == was.price_scale && now.last_price == was.last_price && now.oracle_price == was.oracle_price && now.xcp_profit == was.xcp_profit, "a withdrawal changes no price");
}
/// amplification and gamma move in straight lines, within bounds, only when the owner says so
#[no_mangle]
pub fn pc_promote() {
    let (a0, g0) = (40_000_000u128, 2_000u128);
    let mut s = S::new(false, [a0, g0], FEES[0], [6, 6], 1_000_000, false);
    let now = |s: &S| {
        let c = s.config();
        (c.amp.atomics().int(), c.gamma.atomics().int())
    };
    let (a0, g0) = (k(a0 * E12), k(g0 * E12));
    let (a1, g1) = (in_u128("next_amp", 0, 200_000 * E18), in_u128("next_gamma", 0, E18 / 10));
    let dur = in_u64("duration", 0, 1_000_000_000);
    s.c.time += 1_000_000;
    let who = [OWNER, "stranger_addr", PAIR][choice("who", 3) as usize];
    let m = ConcentratedPoolUpdateParams::Promote(PromoteParams {
        next_amp: Decimal::new(a1.into()),
        next_gamma: Decimal::new(g1.into()),
        future_time: s.c.time + dur,
    });
    let ok = s.update(who, &m).is_ok();
    // the ratio is reckoned in 18 decimals
    let tenfold = |a: Int, b: Int| (a.max(b) * k(E18) / a.min(b).max(k(1))).le(k(10 * E18));
    let good = sx::b(who == OWNER && dur >= 86_400)
        & k(a1).ge(k(E18 / 10)) & k(a1).le(k(100_000 * E18))
        & k(g1).ge(k(10_000_000_000)) & k(g1).le(k(E18 / 50))
        & tenfold(a0, k(a1)) & tenfold(g0, k(g1));
    check(ok == good.fork(), "the owner alone starts a change, in range, at most tenfold and over a day at least");
    let (ca, cg) = now(&s);
    (ca.eq(a0) & cg.eq(g0)).check("a change does not jump");
    let t1 = s.c.time;
    let e = in_u64("elapsed", 0, 2_000_000_000);
    s.c.time += e;
    let (ca, cg) = now(&s);
    if !ok {
        (ca.eq(a0) & cg.eq(g0)).check("a rejected change changes nothing");
        return;
    }
    let done = e.int().ge(dur);
    let line = |v0: Int, v1: u128| (v0 * (k(dur as u128) - e.int().min(k(dur as u128))) + k(v1) * e.int().min(k(dur as u128))) / k(dur as u128);
    let close = |c: Int, v0: Int, v1: u128| {
        let l = ite(done, k(v1), line(v0, v1));
        c.le(l + k(2)) & (c + k(2)).ge(l)
    };
    close(ca, a0, a1).check("the amplification moves in a straight line and then stays");
    close(cg, g0, g1).check("gamma moves in a straight line and then stays");
    cover("ramped");
    let stopper = [OWNER, "stranger_addr"][choice("stopper", 2) as usize];
    let st = s.update(stopper, &ConcentratedPoolUpdateParams::StopChangingAmpGamma {}).is_ok();
    check(st == (stopper == OWNER), "the owner alone stops a change");
    let again = s.update(OWNER, &m).is_ok();
    if again {
        check(s.c.time - t1 >= 86_400, "a change starts a day after the last one");
    } else if st {
        s.c.time += in_u64("later", 0, 1_000_000_000);
        let (c2, g2) = now(&s);
        (c2.eq(ca) & g2.eq(cg)).check("a stopped change keeps the current values");
        cover("stopped");
    }
}
/// the pool's parameters stay in range
#[no_mangle]
pub fn pc_params() {
    let mut s = S::new(false, CURVE[0], FEES[0], [6, 6], 1_000_000, false);
    let was = s.config();
    let who = [OWNER, "stranger_addr", PAIR][choice("who", 3) as usize];
    let mut u = UpdatePoolParams { mid_fee: None, out_fee: None, fee_gamma: None, repeg_profit_threshold: None, min_price_scale_delta: None, ma_half_time: None };
    let mut good = sx::b(who == OWNER);
    let top = 2 * E18;
    let field = choice("field", 5);
    let range = |v: u128, lo: u128, hi: u128| k(v).ge(k(lo)) & k(v).le(k(hi));
    match field {
        0 => {
            let (m, o) = (in_u128("mid", 0, top), in_u128("out", 0, top));
            let w = choice("fees", 3);
            let (mut vm, mut vo) = (FEES[0][0] * E12, FEES[0][1] * E12);
            if w != 1 {
                u.mid_fee = Some(Decimal::new(m.into()));
                vm = m;
                good = good & range(m, E18 / 20_000, E18 / 100);
            }
            if w != 0 {
                u.out_fee = Some(Decimal::new(o.into()));
                vo = o;
                good = good & range(o, E18 / 20_000, E18 / 100);
            }
            good = good & k(vm).lt(k(vo));
        }
        1 => {
            let v = in_u128("fee_gamma", 0, top);
            u.fee_gamma = Some(Decimal::new(v.into()));
            good = good & range(v, 0, E18);
        }
        2 => {
            let v = in_u128("threshold", 0, top);
            u.repeg_profit_threshold = Some(Decimal::new(v.into()));
            good = good & range(v, 0, E18 / 100);
        }
        3 => {
            let v = in_u128("delta", 0, top);
            u.min_price_scale_delta = Some(Decimal::new(v.into()));
            good = good & range(v, 0, E18);
        }
        _ => {
            let v = in_u64("half_time", 0, 10_000_000);
            u.ma_half_time = Some(v);
            good = good & range(v as u128, 1, 604_800);
        }
    }
    let set = u.clone();
    let ok = s.update(who, &ConcentratedPoolUpdateParams::Update(u)).is_ok();
    let gg = good.fork();
    obs("ok", ok as u128);
    obs("good", gg as u128);
    check(ok == gg, "the owner alone sets parameters, in their ranges, with the least fee below the greatest");
    let now = s.config();
    cover(if ok { "updated" } else { "refused" });
    let want = |n: Option<Decimal>, w: Decimal| if ok { n.unwrap_or(w) } else { w };
    check(now.mid_fee == want(set.mid_fee, was.mid_fee) && now.out_fee == want(set.out_fee, was.out_fee), "the fees are what was set");
    check(
        now.fee_gamma == want(set.fee_gamma, was.fee_gamma)
            && now.repeg_profit_threshold == want(set.repeg_profit_threshold, was.repeg_profit_threshold)
            && now.min_price_scale_delta == want(set.min_price_scale_delta, was.min_price_scale_delta)
            && now.ma_half_time == if ok { set.ma_half_time.unwrap_or(was.ma_half_time) } else { was.ma_half_time },
        "the other parameters are what was set",
    );
    check(now.amp == was.amp && now.gamma == was.gamma && now.price_scale == was.price_scale, "nothing else changes");
}
/// fee sharing is the owner's, within its bound
#[no_mangle]
pub fn pc_share() {
    let mut s = S::new(false, CURVE[0], FEES[0], [6, 6], 1_000_000, false);
    let b = in_u16("bps", 0, u16::MAX);
    let who = [OWNER, "stranger_addr"][choice("who", 2) as usize];
    let ok = s.update(who, &ConcentratedPoolUpdateParams::EnableFeeShare { fee_share_bps: b, fee_share_address: "sharer".to_string() }).is_ok();
    check(ok == (who == OWNER && (1..=1000).contains(&b)), "the owner shares between 1 and 1000 bps of the fee");
    let c = s.config();
    check(c.fee_share.is_some() == ok, "a refused share changes nothing");
    if ok {
        check(c.fee_share.unwrap().bps == b, "the share is what was set");
        cover("shared");
        let off = s.update(who, &ConcentratedPoolUpdateParams::DisableFeeShare).is_ok();
        check(off && s.config().fee_share.is_none(), "the share can be ended");
    }
}
#[no_mangle]
pub fn pc_owner() {
    let mut s = S::new(false, CURVE[0], FEES[0], [6, 6], 1_000_000, false);
    s.c.time += 1000;
    ownership(
        &mut s.c,
        PAIR,
        |c| {
            let r: ConfigResponse = c.query(PAIR, &QueryMsg::Config {}).expect("config");
            r.owner.to_string()
        },
        |c, who| {
            let p = ConcentratedPoolUpdateParams::EnableFeeShare { fee_share_bps: 5, fee_share_address: "sharer".to_string() };
            c.execute(who, PAIR, &ExecuteMsg::UpdateConfig { params: to_json_binary(&p).unwrap() }, &[]).is_ok()
        },
    );
}
#[no_mangle]
pub fn pc_access() {
    let mut s = S::new(true, CURVE[0], FEES[0], [6, 6], 1_000_000, false);
    s.state(1_000_000_000_000, 1_000_000_000_000, 999_999_999_999);
    s.c.factory_fee(false, 30, 0);
    let (a, sent) = (1_000_000u128, in_u128("sent", 0, 2_000_000));
    let f = if sent > 0 { vec![cn(sent, "uaaa")] } else { vec![] };
    let i = s.i.clone();
    s.c.give(&i[0], USER, sent);
    let half = Some(Decimal::percent(50));
    match choice("case", 7) {
        0 => {
            let m = ExecuteMsg::Swap { offer_asset: asset(&i[0], a), ask_asset_info: None, belief_price: None, max_spread: None, to: None };
            if s.c.execute(USER, PAIR, &m, &f).is_ok() {
                cover("swapped");
                check(a == sent, "a swap is paid in full");
            }
        }
        1 => {
            let m = Cw20HookMsg::Swap { ask_asset_info: None, belief_price: None, max_spread: half, to: None };
            let m = ExecuteMsg::Receive(cw20::Cw20ReceiveMsg { sender: USER.to_string(), amount: Uint128::new(a), msg: to_json_binary(&m).unwrap() });
            let r = s.c.execute(["user_addr", "other_token", "lps"][choice("who", 3) as usize], PAIR, &m, &[]);
            check(r.is_err(), "only the pool's token may report a cw20 payment");
        }
        2 => {
            let m = ExecuteMsg::Swap { offer_asset: asset(&i[1], a), ask_asset_info: None, belief_price: None, max_spread: half, to: None };
            check(s.c.execute(USER, PAIR, &m, &[]).is_err(), "a cw20 cannot be offered without paying");
        }
        3 => {
            // deposit declaring more than sent
            s.c.give(&i[1], USER, a);
            let two = in_bool("two_sided");
            let m = ExecuteMsg::ProvideLiquidity {
                assets: vec![asset(&i[0], a), asset(&i[1], if two { a } else { 0 })],
                slippage_tolerance: None,
                auto_stake: None,
                receiver: None,
                min_lp_to_receive: None,
            };
            if s.c.execute(USER, PAIR, &m, &f).is_ok() {
                cover("provided");
                check(a == sent, "a deposit is paid in full");
            }
        }
        4 => {
            // the same asset twice, or an asset the pool does not hold
            s.c.fund(USER, "uzzz", a);
            let other = if in_bool("foreign") { native("uzzz") } else { i[0].clone() };
            let m = ExecuteMsg::ProvideLiquidity {
                assets: vec![asset(&i[0], a), asset(&other, a)],
                slippage_tolerance: None,
                auto_stake: None,
                receiver: None,
                min_lp_to_receive: None,
            };
            let mut f = f;
            if other == native("uzzz") {
                f.push(cn(a, "uzzz"));
            }
            check(s.c.execute(USER, PAIR, &m, &f).is_err(), "a deposit is made in the pool's two assets");
        }
        5 => {
            // offering a coin the pool does not hold
            s.c.fund(USER, "uzzz", a);
            let m = ExecuteMsg::Swap { offer_asset: asset(&native("uzzz"), a), ask_asset_info: None, belief_price: None, max_spread: half, to: None };
            check(s.c.execute(USER, PAIR, &m, &[cn(a, "uzzz")]).is_err(), "a swap is made in the pool's two assets");
        }
        _ => {
            // withdrawing with something else than shares
            s.c.fund(USER, "uzzz", a);
            let m = ExecuteMsg::WithdrawLiquidity { assets: vec![], min_assets_to_receive: None };
            let other = if in_bool("pool_asset") { f } else { vec![cn(a, "uzzz")] };
            check(s.c.execute(USER, PAIR, &m, &other).is_err(), "a withdrawal is paid in shares");
        }
    }
}
/// the shares and payments go to the named receiver
#[no_mangle]
pub fn pc_receiver() {
    let mut s = S::new(false, CURVE[0], FEES[0], [6, 6], 1_000_000, true);
    s.state(1_000_000_000_000, 1_000_000_000_000, 999_999_999_999);
    s.c.factory_fee(true, 30, 5000);
    let i = s.i.clone();
    let a = 1_000_000u128;
    s.c.give(&i[0], USER, a);
    s.c.give(&i[1], USER, a);
    let to = if in_bool("named") { Some("friend_addr".to_string()) } else { None };
    let (w, o) = if to.is_some() { ("friend_addr", USER) } else { (USER, "friend_addr") };
    if in_bool("swap") {
        let m = ExecuteMsg::Swap { offer_asset: asset(&i[0], a), ask_asset_info: None, belief_price: None, max_spread: None, to };
        s.c.execute(USER, PAIR, &m, &[cn(a, "uaaa")]).expect("swap");
        let keep = if w == USER { a } else { 0 };
        check(s.c.hold(&i[1], w) - keep == s.c.attr_n("return_amount") && s.c.hold(&i[1], o) == a - keep, "the named receiver is paid");
    } else {
        let m = ExecuteMsg::ProvideLiquidity {
            assets: vec![asset(&i[0], a), asset(&i[1], a)],
            slippage_tolerance: None,
            auto_stake: None,
            receiver: to,
            min_lp_to_receive: None,
        };
        s.c.execute(USER, PAIR, &m, &[cn(a, "uaaa"), cn(a, "ubbb")]).expect("provide");
        check(s.c.balance(w, LP) > 0 && s.c.balance(o, LP) == 0, "the named receiver gets the shares");
    }
    cover("done");
}
/// while the curve parameters move, and with the price far from its scale, the pool still trades
#[no_mangle]
pub fn pc_ramp() {
    let (curve, pi) = (choice("curve", 3) as usize, choice("pool", 3) as usize);
    let pl = [POOL[0], [1_000_000_000, 900_000_000, 1_000_000], POOL[3]][pi];
    let off = [1000, 1300][choice("oracle", 2) as usize];
    let mut s = S::new(false, CURVE[curve], FEES[0], [6, 6], pl[2], false);
    let (p, sup) = quiet(&mut s, pl, off);
    let (a1, g1) = ([5u128, 200][choice("amp", 2) as usize], [1u128, 3][choice("gamma", 2) as usize]);
    let c = CURVE[curve];
    let pr = PromoteParams {
        next_amp: micro(c[0] * a1 / 20),
        next_gamma: micro(c[1] * g1 / 2),
        future_time: s.c.time + 100_000,
    };
    if s.update(OWNER, &ConcentratedPoolUpdateParams::Promote(pr)).is_err() {
        return;
    }
    let w = [50_000, 100_000][choice("when", 2) as usize];
    s.c.time += w;
    let i = s.i.clone();
    let op = choice("op", 4);
    let r = match op {
        0 | 1 => {
            let d = op as usize;
            let a = [p.x, p.y][d] / 100;
            s.c.give(&i[d], USER, a);
            s.swap(d, a, None, Some(Decimal::percent(50)))
        }
        2 => {
            let (a, b) = (p.x / 10, p.y / 10);
            s.c.give(&i[0], USER, a);
            s.c.give(&i[1], USER, b);
            s.provide(a, b, Some(Decimal::percent(50)), None)
        }
        _ => {
            s.c.set_balance("lps", LP, sup / 2);
            s.c.set_balance(USER, LP, sup - sup / 2);
            s.withdraw(sup / 2, None)
        }
    };

    check(r.is_ok(), "a ramp does not stop the pool");
    cover("operated");
}
/// recorded balances equal real balances
#[no_mangle]
pub fn pc_tracking() {
    let pl = POOL[choice("pool", 3) as usize];
    let dec = [[6, 6], [18, 8]][choice("decimals", 2) as usize];
    let mut s = S::tracked(in_bool("cw20"), CURVE[1], FEES[0], dec, pl[2], true);
    s.c.factory_fee(true, 30, 3333);
    s.update(OWNER, &ConcentratedPoolUpdateParams::EnableFeeShare { fee_share_bps: 700, fee_share_address: "sharer".to_string() }).expect("share");
    let (p, sup) = pool_of(&mut s, pl, false);
    history(&mut s, &p, sup, 1000, 1000);
    let i = s.i.clone();
    let r = match choice("op", 3) {
        0 => {
            let d = choice("dir", 2) as usize;
            let a = [p.x, p.y][d] / 100;
            s.c.give(&i[d], USER, a);
            s.swap(d, a, None, Some(Decimal::percent(50)))
        }
        1 => {
            let (a, b) = (p.x / 10, p.y / 1000 * [100, 3, 0][choice("deposit", 3) as usize]);
            s.c.give(&i[0], USER, a);
            s.c.give(&i[1], USER, b);
            s.provide(a, b, Some(Decimal::percent(50)), None)
        }
        _ => {
            let w = [1_000_001, sup / 3][choice("lp", 2) as usize];
            s.c.set_balance("lps", LP, sup - w);
            s.c.set_balance(USER, LP, w);
            s.withdraw(w, None)
        }
    };
    if r.is_err() {
        return;
    }
    cover("operated");
    let h = s.c.height + 1;
    for n in 0..2 {
        let v: Option<Uint128> =
            s.c.query(PAIR, &QueryMsg::AssetBalanceAt { asset_info: i[n].clone(), block_height: h.into() }).expect("balance");
        check(v == Some(Uint128::new(s.r(n))), "the recorded balance is the real balance");
        let v: Option<Uint128> =
            s.c.query(PAIR, &QueryMsg::AssetBalanceAt { asset_info: i[n].clone(), block_height: (h - 1).into() }).expect("balance");
        check(v == None || v == Some(Uint128::zero()), "earlier balances are what they were");
    }
}
fn observe(c: &Chain, seconds_ago: u64) -> Option<astroport::observation::OracleObservation> {
    c.query(PAIR, &QueryMsg::Observe { seconds_ago }).ok()
}
#[no_mangle]
pub fn pc_trades() {
    let mut s = S::new(false, CURVE[0], FEES[0], [6, 6], 1_000_000, false);
    let cap = [2, 3][choice("capacity", 2) as usize];
    observe::trades(&mut s.c, PAIR, 5, cap, |st, e| astroport_pair_concentrated::utils::accumulate_swap_sizes(st, e).is_ok(), observe);
}
#[no_mangle]
pub fn pc_observe() {
    let mut s = S::new(false, CURVE[0], FEES[0], [6, 6], 1_000_000, false);
    observe::lookup(&mut s.c, PAIR, observe);
}
/// price accumulators
#[no_mangle]
pub fn pc_twap() {
    let (curve, pi) = (choice("curve", 2) as usize, choice("pool", 3) as usize);
    let pl = POOL[pi];
    let mut s = S::new(false, CURVE[curve], FEES[0], [6, 6], pl[2], false);
    let (p, sup) = quiet(&mut s, pl, 1020);
    let i = s.i.clone();
    let q = |s: &S| -> (u128, u128) {
        let r: CumulativePricesResponse = s.c.query(PAIR, &QueryMsg::CumulativePrices {}).expect("prices");
        (r.cumulative_prices[0].2.u128(), r.cumulative_prices[1].2.u128())
    };
    let stored = |s: &mut S| -> (u128, u128) {
        s.c.with_deps(PAIR, |d, _| {
            let c = CONFIG.load(d.storage).expect("config").cumulative_prices;
            (c[0].2.u128(), c[1].2.u128())
        })
    };
    let s0 = stored(&mut s);
    let dt = [1u64, 600, 100_000][choice("dt", 3) as usize];
    s.c.time += dt;
    let before = q(&s);
    let last = s.price().last_price;
    let op = choice("op", 4);
    let r = match op {
        0 | 1 => {
            let d = op as usize;
            let a = [p.x, p.y][d] / 10;
            s.c.give(&i[d], USER, a);
            s.swap(d, a, None, Some(Decimal::percent(50)))
        }
        2 => {
            let (a, b) = (p.x / 10, p.y / 100);
            s.c.give(&i[0], USER, a);
            s.c.give(&i[1], USER, b);
            s.provide(a, b, Some(Decimal::percent(50)), None)
        }
        _ => {
            s.c.set_balance("lps", LP, sup / 2);
            s.c.set_balance(USER, LP, sup - sup / 2);
            s.withdraw(sup / 2, None)
        }
    };
    if r.is_err() {
        return;
    }
    cover("operated");
    let after = stored(&mut s);
    match op {
        0 | 1 => check(after == before && q(&s) == before, "a swap accumulates the price before it, and only that"),
        2 => {
            // the price of the last trade before the deposit
            let l = big(last);
            let inv = k(E18) * k(E18) / l;
            // (in millionths; the contract's precision constant lies just below 10^6)
            let e = k(dt as u128);
            let (i0, i1) = (inv * k(1_000_000) / k(E18) * dt, l * k(1_000_000) / k(E18) * dt);
            let (g0, g1) = (after.0.int() - k(s0.0), after.1.int() - k(s0.1));
            (g0.le(i0) & (g0 + e).ge(i0)).check("a deposit accumulates the last price before it");
            (g1.le(i1) & (g1 + e).ge(i1)).check("a deposit accumulates the last price before it (inverse)");
        }
        _ => check(after == s0, "a withdrawal accumulates nothing"),
    }
    let again = q(&s);
    let more = in_u64("more", 1, 1_000_000);
    s.c.time += more;
    let later = q(&s);
    check(later.0 > again.0 && later.1 > again.1, "prices go on accumulating");
}
sx::entries!(
    pc_swap, pc_repeg, pc_swap_dec, pc_swap_all, pc_limits, pc_simulation, pc_reverse, pc_provide, pc_provide_first, pc_withdraw, pc_withdraw_worth,
    pc_limits_all, pc_simulation_all, pc_provide_all,
    pc_promote, pc_params, pc_share, pc_owner, pc_tracking, pc_trades, pc_observe, pc_twap, pc_access, pc_receiver, pc_ramp,
);
