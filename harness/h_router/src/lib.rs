//! Multi-hop router (contracts/router).
use astroport::asset::{AssetInfo, PairInfo};
use astroport::router::*;
use chain::*;
use cosmwasm_std::{from_json, to_json_binary, Decimal, Storage, Uint128};
use std::rc::Rc;
use sx::*;

contract!(
    Router,
    astroport_router::contract::instantiate,
    astroport_router::contract::execute,
    astroport_router::contract::query,
    reply = astroport_router::contract::reply
);
contract!(
    Pair,
    astroport_pair::contract::instantiate,
    astroport_pair::contract::execute,
    astroport_pair::contract::query,
    reply = astroport_pair::contract::reply
);
const R: &str = "router_addr";
const USER: &str = "user_addr";
const RECV: &str = "recv_addr";
const E18: u128 = 1_000_000_000_000_000_000;
const E12: u128 = 1_000_000_000_000;

fn setup() -> Chain {
    let mut c = Chain::new();
    c.factory_stub(false, false);
    c.factory_fee(false, 30, 0);
    c.instantiate(R, Rc::new(Router), OWNER, &InstantiateMsg { astroport_factory: FACTORY.to_string() }, &[]).expect("instantiate");
    c
}
fn hop(a: &AssetInfo, b: &AssetInfo) -> SwapOperation {
    SwapOperation::AstroSwap { offer_asset_info: a.clone(), ask_asset_info: b.clone() }
}
fn start(c: &mut Chain, first: &AssetInfo, amount: u128, ops: Vec<SwapOperation>, min: Option<Uint128>, to: Option<String>, spread: Option<Decimal>) -> Result<(), String> {
    c.give(first, USER, amount);
    match first {
        AssetInfo::NativeToken { denom } => {
            let m = ExecuteMsg::ExecuteSwapOperations { operations: ops, minimum_receive: min, to, max_spread: spread };
            c.execute(USER, R, &m, &[cn(amount, denom)])
        }
        AssetInfo::Token { contract_addr } => {
            let m = Cw20HookMsg::ExecuteSwapOperations { operations: ops, minimum_receive: min, to, max_spread: spread };
            let m = cw20::Cw20ExecuteMsg::Send { contract: R.to_string(), amount: Uint128::new(amount), msg: to_json_binary(&m).unwrap() };
            c.execute(USER, contract_addr.as_str(), &m, &[])
        }
    }
}
/// any two hops over three assets and pools with arbitrary rates
#[no_mangle]
pub fn route_two() {
    let mut c = setup();
    let i = [native("uaaa"), token("token_b"), native("uccc")];
    c.cw20_new("token_b", "minter", 6);
    let rate = [in_u128("rate_ab", 0, E12), in_u128("rate_ba", 0, E12), in_u128("rate_bc", 0, E12), in_u128("rate_cb", 0, E12)];
    c.pair_stub("pair_ab", &i[0], &i[1], rate[0], rate[1]);
    c.pair_stub("pair_bc", &i[1], &i[2], rate[2], rate[3]);
    for p in ["pair_ab", "pair_bc"] {
        for x in &i {
            c.give(x, p, E18 * E18);
        }
    }
    let n = choice("hops", 3);
    let mut ops = vec![];
    let mut path = vec![];
    for j in 0..n as usize {
        let (o, a) = (choice(["offer1", "offer2"][j], 3) as usize, choice(["ask1", "ask2"][j], 3) as usize);
        ops.push(hop(&i[o], &i[a]));
        path.push((o, a));
    }
    let v = in_u128("amount", 1, E18);
    let min = if in_bool("has_min") { Some(in_uint128("min", 0, E18 * E18)) } else { None };
    let to = if in_bool("to") { Some(RECV.to_string()) } else { None };
    let who = if to.is_some() { RECV } else { USER };
    let had = in_u128("had", 0, E18);
    let (first, last) = if n > 0 { (path[0].0, path[n as usize - 1].1) } else { (0, 0) };
    c.give(&i[last], who, had);
    let r = start(&mut c, &i[first].clone(), v, ops.clone(), min, to, None);
    // what the pools pay, step by step
    let mut ok = n > 0;
    let mut exp = v.int();
    let mut pos = b(true);
    for j in 0..n as usize {
        let (o, a) = path[j];
        ok = ok && o != a && (o as i32 - a as i32).abs() == 1 && (j == 0 || path[j - 1].1 == o);
        if ok {
            let q = match (o, a) {
                (0, 1) => rate[0],
                (1, 0) => rate[1],
                (1, 2) => rate[2],
                _ => rate[3],
            };
            exp = exp * q / RATE_ONE;
            pos = pos & exp.gt(0u128);
        }
    }
    if r.is_err() {
        if ok {
            let reach = match min {
                Some(m) => exp.ge(m),
                None => b(true),
            };
            (!(pos & reach)).check("a valid route that yields the minimum is carried out");
        }
        return;
    }
    cover("routed");
    check(ok, "each hop offers what the previous one bought, over an existing pair");
    let got = c.hold(&i[last], who) - if last == first && who == USER { had } else { had };
    obs("got", got);
    exp.eq(got).check("the receiver gets what the last pool paid");
    if let Some(m) = min {
        check(got >= m.u128(), "the receiver gets at least the minimum");
    }
    for x in 0..3 {
        check(c.hold(&i[x], R) == 0, "nothing stays with the router");
        if x != last {
            check(c.hold(&i[x], who) == 0 && c.hold(&i[x], USER) == 0, "the user pays the offer and gets nothing else");
        }
    }
    // documented: only meaningful when the first token is native
    if first != 1 {
        let d: SwapResponseData = from_json(c.data.clone().expect("data")).expect("data");
        check(d.return_amount.u128() == got, "the amount reported is the amount received");
    }
    // limits are handed to the pools
    let sim: SimulateSwapOperationsResponse = c
        .query(R, &QueryMsg::SimulateSwapOperations { offer_amount: Uint128::new(v), operations: ops })
        .expect("simulate");
    check(sim.amount.u128() == got, "a simulation of the route quotes what it pays");
}
/// the spread limit reaches the pool of a single-hop swap; only multi-hop swaps waive the price check
#[no_mangle]
pub fn route_limits() {
    let mut c = setup();
    let i = [native("uaaa"), native("ubbb"), native("uccc")];
    c.pair_stub("pair_ab", &i[0], &i[1], RATE_ONE, RATE_ONE);
    c.pair_stub("pair_bc", &i[1], &i[2], RATE_ONE, RATE_ONE);
    for p in ["pair_ab", "pair_bc"] {
        for x in &i {
            c.give(x, p, E18);
        }
    }
    let v = in_u128("amount", 1, E12);
    let spread = if in_bool("has_spread") { Some(in_decimal("spread", 0, E18)) } else { None };
    let two = in_bool("two");
    let mut ops = vec![hop(&i[0], &i[1])];
    if two {
        ops.push(hop(&i[1], &i[2]));
    }
    start(&mut c, &i[0].clone(), v, ops, None, None, spread).expect("route");
    cover("routed");
    for p in if two { vec!["pair_ab", "pair_bc"] } else { vec!["pair_ab"] } {
        let s: Option<Decimal> = from_json(c.storage(p).get(b"spread").unwrap()).unwrap();
        check(s == spread, "the pool is told the spread limit");
        let s: Option<Decimal> = from_json(c.storage(p).get(b"belief").unwrap()).unwrap();
        check(s.is_some() == two, "the price check is waived only on multi-hop routes");
    }
}
/// only the router calls its hop step
#[no_mangle]
pub fn route_access() {
    let mut c = setup();
    let i = [native("uaaa"), native("ubbb")];
    c.pair_stub("pair_ab", &i[0], &i[1], RATE_ONE, RATE_ONE);
    c.give(&i[0], "pair_ab", E18);
    c.give(&i[1], "pair_ab", E18);
    // somebody's coins are on the router, say, sent by mistake
    c.give(&i[0], R, in_u128("stuck", 0, E12));
    let before = c.hold(&i[0], R);
    let v = in_u128("amount", 1, E12);
    c.give(&i[0], USER, v);
    let m = ExecuteMsg::ExecuteSwapOperation { operation: hop(&i[0], &i[1]), to: Some(USER.to_string()), max_spread: None, single: in_bool("single") };
    let f = if in_bool("pay") { vec![cn(v, "uaaa")] } else { vec![] };
    let who = [USER, OWNER, FACTORY, "pair_ab"][choice("who", 4) as usize];
    check(c.execute(who, R, &m, &f).is_err(), "only the router calls its hop step");
    check(c.hold(&i[0], R) == before, "the router's funds do not move");
    let m = ExecuteMsg::ExecuteSwapOperations {
        operations: vec![SwapOperation::NativeSwap { offer_denom: "uaaa".to_string(), ask_denom: "ubbb".to_string() }],
        minimum_receive: None,
        to: None,
        max_spread: None,
    };
    check(c.execute(USER, R, &m, &[cn(v, "uaaa")]).is_err(), "unsupported routes are refused");
    cover("refused");
}
/// reverse simulation walks the route backwards
#[no_mangle]
pub fn route_reverse() {
    let mut c = setup();
    let i = [native("uaaa"), native("ubbb"), native("uccc")];
    let rate = [in_u128("rate_ab", 1, E12), in_u128("rate_bc", 1, E12)];
    c.pair_stub("pair_ab", &i[0], &i[1], rate[0], RATE_ONE);
    c.pair_stub("pair_bc", &i[1], &i[2], rate[1], RATE_ONE);
    let v = in_u128("ask", 1, E12);
    let ops = vec![hop(&i[0], &i[1]), hop(&i[1], &i[2])];
    let q: Uint128 = c.query(R, &QueryMsg::ReverseSimulateSwapOperations { ask_amount: Uint128::new(v), operations: ops }).expect("reverse");
    cover("quoted");
    obs("q", q);
    q.int().eq(v.int() * RATE_ONE / rate[1] * RATE_ONE / rate[0]).check("the quote is the pools' quotes from last to first");
    let bad = match choice("bad", 3) {
        0 => vec![],
        1 => vec![hop(&i[0], &i[1]), hop(&i[0], &i[1])],
        _ => vec![hop(&i[0], &i[0])],
    };
    let q: Result<Uint128, _> = c.query(R, &QueryMsg::ReverseSimulateSwapOperations { ask_amount: Uint128::new(v), operations: bad.clone() });
    check(q.is_err(), "invalid routes are not quoted");
    let q: Result<SimulateSwapOperationsResponse, _> = c.query(R, &QueryMsg::SimulateSwapOperations { offer_amount: Uint128::new(v), operations: bad });
    check(q.is_err(), "invalid routes are not quoted");
}
/// two real constant-product pools: what the router simulates is what it executes
#[no_mangle]
pub fn route_real() {
    let mut c = setup();
    let i = [native("uaaa"), native("ubbb"), native("uccc")];
    for (p, a, b_) in [("pair_ab", 0usize, 1usize), ("pair_bc", 1, 2)] {
        let m = astroport::pair::InstantiateMsg {
            asset_infos: vec![i[a].clone(), i[b_].clone()],
            token_code_id: 1,
            factory_addr: FACTORY.to_string(),
            pair_type: astroport::factory::PairType::Xyk {},
            init_params: None,
        };
        c.instantiate(p, Rc::new(Pair), FACTORY, &m, &[]).expect("pair");
        let pi: PairInfo = c.query(p, &astroport::pair::QueryMsg::Pair {}).expect("info");
        c.factory_pair(&pi);
        c.fund("lps", &pi.liquidity_token, 1_000_000);
    }
    let (x, y, z, w) = (in_u128("x", 1, E18), in_u128("y", 1, E18), in_u128("z", 1, E18), in_u128("w", 1, E18));
    c.give(&i[0], "pair_ab", x);
    c.give(&i[1], "pair_ab", y);
    c.give(&i[1], "pair_bc", z);
    c.give(&i[2], "pair_bc", w);
    let v = in_u128("amount", 1, E18);
    let ops = vec![hop(&i[0], &i[1]), hop(&i[1], &i[2])];
    let sim: Result<SimulateSwapOperationsResponse, _> =
        c.query(R, &QueryMsg::SimulateSwapOperations { offer_amount: Uint128::new(v), operations: ops.clone() });
    if start(&mut c, &i[0].clone(), v, ops, None, None, None).is_err() {
        return;
    }
    cover("routed");
    let got = c.hold(&i[2], USER);
    obs("got", got);
    check(sim.map_or(0, |s| s.amount.u128()) == got, "a simulation of the route quotes what it pays");
    check(c.hold(&i[1], R) == 0 && c.hold(&i[0], R) == 0 && c.hold(&i[2], R) == 0, "nothing stays with the router");
    (c.hold(&i[2], "pair_bc").int() + got).eq(w).check("the last pool pays only the user");
}

sx::entries!(route_two, route_limits, route_access, route_reverse, route_real,);
