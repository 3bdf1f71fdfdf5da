//! Transmuter pair (contracts/pair_transmuter): 1:1 exchange of assets of equal value.
use astroport::asset::{Asset, AssetInfo, PairInfo};
use astroport::factory::PairType;
use astroport::pair::{ExecuteMsg, InstantiateMsg, QueryMsg, ReverseSimulationResponse, SimulationResponse};
use chain::*;
use cosmwasm_std::{to_json_binary, Uint128};
use std::rc::Rc;
use sx::*;

contract!(
    Pair,
    astroport_pair_transmuter::contract::instantiate,
    astroport_pair_transmuter::contract::execute,
    astroport_pair_transmuter::queries::query,
    reply = astroport_pair_transmuter::contract::reply
);
pub const PAIR: &str = "pair_addr";
pub const LP: &str = "factory/pair_addr/astroport/share";
pub const USER: &str = "user_addr";
const E24: u128 = 1_000_000_000_000_000_000_000_000;
const E30: u128 = 1_000_000_000_000_000_000_000_000_000_000;

const DECS: [[u8; 3]; 4] = [[6, 6, 6], [6, 18, 8], [18, 6, 6], [8, 6, 18]];
const DEN: [&str; 3] = ["uaaa", "ubbb", "uccc"];

struct P {
    c: Chain,
    i: Vec<AssetInfo>,
    /// units of the common scale per unit of each asset
    f: Vec<u128>,
}
impl P {
    fn new(n: usize) -> P {
        let mut c = Chain::new();
        c.factory_stub(false, false);
        let d = DECS[choice("decimals", DECS.len() as u64) as usize];
        let mut i = vec![];
        let mut max = 0;
        for j in 0..n {
            c.decimals(DEN[j], d[j]);
            i.push(native(DEN[j]));
            if d[j] > max {
                max = d[j];
            }
        }
        let mut f = vec![];
        for j in 0..n {
            f.push(10u128.pow((max - d[j]) as u32));
        }
        let m = InstantiateMsg {
            asset_infos: i.clone(),
            token_code_id: 1,
            factory_addr: FACTORY.to_string(),
            pair_type: PairType::Custom("transmuter".to_string()),
            init_params: None,
        };
        c.instantiate(PAIR, Rc::new(Pair), FACTORY, &m, &[]).expect("instantiate");
        let p: PairInfo = c.query(PAIR, &QueryMsg::Pair {}).expect("pair");
        assert!(p.liquidity_token == LP);
        P { c, i, f }
    }
    /// arbitrary reserves
    fn state(&mut self) -> Vec<u128> {
        let mut r = vec![];
        for j in 0..self.i.len() {
            let v = in_u128(["r0", "r1", "r2"][j], 0, E30);
            self.c.set_balance(PAIR, DEN[j], v);
            r.push(v);
        }
        r
    }
    fn r(&self, j: usize) -> u128 {
        self.c.balance(PAIR, DEN[j])
    }
    fn u(&self, j: usize) -> u128 {
        self.c.balance(USER, DEN[j])
    }
}
fn swap_on(n: usize) {
    let mut p = P::new(n);
    let r = p.state();
    let o = choice("offer", n as u64) as usize;
    let q = choice("ask", n as u64) as usize;
    let a = in_u128("amount", 1, E30);
    let sent = in_u128("sent", 1, E30);
    let named = n > 2 || in_bool("ask_named");
    if !named && o == q {
        return;
    }
    p.c.set_balance(USER, DEN[o], sent);
    let ask_asset_info = if named { Some(p.i[q].clone()) } else { None };
    let sim: Result<SimulationResponse, _> = if sent == a {
        // the pool as the swap will see it: the payment has arrived
        p.c.set_balance(PAIR, DEN[o], r[o] + a);
        let s = p.c.query(PAIR, &QueryMsg::Simulation { offer_asset: asset(&p.i[o], a), ask_asset_info: ask_asset_info.clone() });
        p.c.set_balance(PAIR, DEN[o], r[o]);
        s
    } else {
        stop()
    };
    let m = ExecuteMsg::Swap { offer_asset: asset(&p.i[o], a), ask_asset_info, belief_price: None, max_spread: None, to: None };
    let res = p.c.execute(USER, PAIR, &m, &[cn(sent, DEN[o])]);
    let out = a.int() * p.f[o] / p.f[q];
    if res.is_err() {
        if o != q {
            // only two reasons: the pool does not hold enough, or nothing would be paid out
            (out.gt(r[q]) | out.eq(0u128)).check("a swap the pool can pay is carried out");
        }
        return;
    }
    cover("swapped");
    // a two-asset pool has only one asset to give
    let got = if o == q && n == 2 { 1 - o } else { q };
    obs("out", p.u(got));
    if got != o {
        let out = a.int() * p.f[o] / p.f[got];
        p.u(got).int().eq(out).check("the trader gets the same value, rounded down");
        (p.r(got).int() + out).eq(r[got]).check("the pool pays only the trader");
        p.r(o).int().eq(r[o].int() + a).check("the pool keeps what it was paid");
    } else {
        (p.r(o).int() + p.u(o)).eq(r[o].int() + a).check("nothing leaves but the payment");
        check(p.u(o) <= a, "a swap of an asset for itself gains nothing");
    }
    for j in 0..n {
        if j != o && j != got {
            check(p.r(j) == r[j] && p.u(j) == 0, "other assets do not move");
        }
    }
    match sim {
        Ok(s) => check(s.return_amount.u128() == p.u(got), "the trader gets what the simulation quotes"),
        Err(_) => check(false, "a swap that executes can be simulated"),
    }
}
#[no_mangle]
pub fn trans_swap() {
    swap_on(2);
}
#[no_mangle]
pub fn trans_swap3() {
    swap_on(3);
}
/// an underpaid or overpaid call does nothing
#[no_mangle]
pub fn trans_payment() {
    let mut p = P::new(2);
    p.state();
    let (a, b) = (in_u128("amount", 0, E24), in_u128("amount2", 0, E24));
    let (sa, sb) = (in_u128("sent", 0, E24), in_u128("sent2", 0, E24));
    p.c.set_balance(USER, DEN[0], E24);
    p.c.set_balance(USER, DEN[1], E24);
    let mut f = vec![];
    if sa > 0 {
        f.push(cn(sa, DEN[0]));
    }
    if sb > 0 {
        f.push(cn(sb, DEN[1]));
    }
    if in_bool("provide") {
        let assets = match choice("assets", 3) {
            0 => vec![asset(&p.i[0], a), asset(&p.i[1], b)],
            1 => vec![asset(&p.i[0], a)],
            _ => vec![asset(&p.i[0], a), asset(&p.i[0], b)],
        };
        let n = assets.len();
        let dup = n == 2 && assets[0].info == assets[1].info;
        let m = ExecuteMsg::ProvideLiquidity { assets, slippage_tolerance: None, auto_stake: None, receiver: None, min_lp_to_receive: None };
        if p.c.execute(USER, PAIR, &m, &f).is_ok() {
            cover("provided");
            check(!dup, "an asset is not listed twice");
            check(sa == a, "a deposit is paid in full");
            if n == 2 {
                check(sb == b, "a deposit is paid in full");
            }
            // nothing but the assets listed is credited
            let bb = if n == 2 { b } else { 0 };
            p.c.balance(USER, LP).int().eq(a.int() * p.f[0] + bb.int() * p.f[1]).check("shares are the value deposited");
        }
    } else {
        let m = ExecuteMsg::Swap { offer_asset: asset(&p.i[0], a), ask_asset_info: None, belief_price: None, max_spread: None, to: None };
        if p.c.execute(USER, PAIR, &m, &f).is_ok() {
            cover("swapped");
            check(a == sa, "a swap is paid in full");
        }
    }
}
/// deposits and both kinds of withdrawal keep every share backed by one unit of value
#[no_mangle]
pub fn trans_liquidity() {
    let mut p = P::new(2);
    let r = p.state();
    let s = in_u128("supply", 0, E30);
    // backed: shares outstanding never exceed the value of the reserves
    let value = r[0].int() * p.f[0] + r[1].int() * p.f[1];
    value.ge(s).assume();
    match choice("op", 3) {
        0 => {
            if s > 0 {
                p.c.fund("lps", LP, s);
            }
            let (a, b) = (in_u128("d0", 0, E30), in_u128("d1", 0, E30));
            let mut f = vec![];
            if a > 0 {
                p.c.set_balance(USER, DEN[0], a);
                f.push(cn(a, DEN[0]));
            }
            if b > 0 {
                p.c.set_balance(USER, DEN[1], b);
                f.push(cn(b, DEN[1]));
            }
            let m = ExecuteMsg::ProvideLiquidity {
                assets: vec![asset(&p.i[1], b), asset(&p.i[0], a)],
                slippage_tolerance: None,
                auto_stake: None,
                receiver: Some("receiver".to_string()),
                min_lp_to_receive: None,
            };
            if p.c.execute(USER, PAIR, &m, &f).is_err() {
                return;
            }
            cover("provided");
            let sh = p.c.balance("receiver", LP);
            obs("share", sh);
            sh.int().eq(a.int() * p.f[0] + b.int() * p.f[1]).check("a deposit mints its value in shares");
            p.c.supply_of(LP).int().eq(s.int() + sh).check("only the receiver's shares are minted");
            check(p.u(0) == 0 && p.u(1) == 0, "the depositor pays the deposit");
        }
        k_ => {
            let w = in_u128("lp", 1, E30);
            assume(w <= s);
            p.c.fund(USER, LP, w);
            if s > w {
                p.c.fund("lps", LP, s - w);
            }
            let (x, y) = (in_u128("want0", 0, E30), in_u128("want1", 0, E30));
            let assets: Vec<Asset> = if k_ == 1 { vec![] } else { vec![asset(&p.i[0], x), asset(&p.i[1], y)] };
            let m = ExecuteMsg::WithdrawLiquidity { assets, min_assets_to_receive: None };
            if p.c.execute(USER, PAIR, &m, &[cn(w, LP)]).is_err() {
                if k_ == 2 {
                    let need = x.int() * p.f[0] + y.int() * p.f[1];
                    (need.gt(w) | x.int().gt(r[0]) | y.int().gt(r[1]) | need.eq(0u128)).check("an affordable exact withdrawal is carried out");
                }
                return;
            }
            cover("withdrew");
            let (g0, g1) = (p.u(0), p.u(1));
            let burned = s.int() - p.c.supply_of(LP);
            obs("g0", g0);
            (p.r(0).int() + g0).eq(r[0]).check("the pool pays the first asset to the owner only");
            (p.r(1).int() + g1).eq(r[1]).check("the pool pays the second asset to the owner only");
            (p.c.balance(USER, LP).int() + burned).eq(w).check("unused shares are returned");
            if k_ == 1 {
                burned.eq(w).check("all shares paid in are burned");
                (g0.int() * s).le(r[0].int() * w).check("no more than the proportional part of the first asset");
                (g1.int() * s).le(r[1].int() * w).check("no more than the proportional part of the second asset");
                let ratio = k(1_000_000_000_000_000_000) * w / s;
                ((g0.int() + k(1)) * k(1_000_000_000_000_000_000)).gt(ratio * r[0]).check("no less than the proportional part of the first asset");
                ((g1.int() + k(1)) * k(1_000_000_000_000_000_000)).gt(ratio * r[1]).check("no less than the proportional part of the second asset");
            } else {
                check(g0 == x && g1 == y, "an exact withdrawal pays the amounts asked for");
                burned.eq(g0.int() * p.f[0] + g1.int() * p.f[1]).check("an exact withdrawal costs its value in shares");
            }
        }
    }
    // the invariant survives
    (p.r(0).int() * p.f[0] + p.r(1).int() * p.f[1]).ge(p.c.supply_of(LP)).check("every share stays backed by one unit of value");
}
/// the reverse quote pays for the amount asked
#[no_mangle]
pub fn trans_reverse() {
    let mut p = P::new(2);
    let r = p.state();
    let q = choice("ask", 2) as usize;
    let o = 1 - q;
    let w = in_u128("want", 1, E30);
    let s: Result<ReverseSimulationResponse, _> =
        p.c.query(PAIR, &QueryMsg::ReverseSimulation { offer_asset_info: if in_bool("named") { Some(p.i[o].clone()) } else { None }, ask_asset: asset(&p.i[q], w) });
    match s {
        Err(_) => {
            check(w > r[q], "any amount the pool holds can be quoted");
        }
        Ok(s) => {
            cover("quoted");
            obs("offer", s.offer_amount);
            check(w <= r[q], "only what the pool holds is quoted");
            let a = s.offer_amount;
            ((a.int() + k(1)) * p.f[o]).gt(w.int() * p.f[q]).check("the quote, plus one unit, pays for the amount asked");
            (a.int() * p.f[o]).le(w.int() * p.f[q]).check("the quote does not overcharge");
        }
    }
}
/// only native, distinct assets; calls through the cw20 hook and configuration updates are refused
#[no_mangle]
pub fn trans_config() {
    let mut p = P::new(2);
    let r = p.state();
    let m = match choice("msg", 4) {
        0 => ExecuteMsg::UpdateConfig { params: to_json_binary(&Uint128::zero()).unwrap() },
        1 => ExecuteMsg::ProposeNewOwner { owner: USER.to_string(), expires_in: 100 },
        2 => ExecuteMsg::ClaimOwnership {},
        _ => ExecuteMsg::WithdrawLiquidity { assets: vec![asset(&p.i[0], 1)], min_assets_to_receive: None },
    };
    let v = in_u128("sent", 1, E24);
    p.c.set_balance(USER, DEN[0], v);
    let res = p.c.execute([OWNER, FACTORY, USER][choice("who", 3) as usize], PAIR, &m, &[]);
    check(res.is_err(), "the pool has no configuration to change, and pays nothing without shares");
    let res = p.c.execute(USER, PAIR, &m, &[cn(v, DEN[0])]);
    check(res.is_err(), "only shares are redeemed");
    check(p.r(0) == r[0] && p.r(1) == r[1], "the reserves are untouched");
    cover("refused");
}

sx::entries!(trans_swap, trans_swap3, trans_payment, trans_liquidity, trans_reverse, trans_config,);
