//! Pair registry (contracts/factory).
use astroport::asset::{Asset, AssetInfo, PairInfo};
use astroport::factory::*;
use chain::*;
use cosmwasm_std::*;
use std::rc::Rc;
use sx::*;

contract!(
    Factory,
    astroport_factory::contract::instantiate,
    astroport_factory::contract::execute,
    astroport_factory::contract::query,
    reply = astroport_factory::contract::reply
);
const USER: &str = "user_addr";

/// a pair that only tells what it was made of
struct NewPair;
impl Contract for NewPair {
    fn instantiate(&self, d: DepsMut, e: Env, i: MessageInfo, m: &[u8]) -> Res {
        let m: astroport::pair::InstantiateMsg = from_json(m).map_err(err)?;
        let p = PairInfo {
            asset_infos: m.asset_infos,
            contract_addr: e.contract.address.clone(),
            liquidity_token: format!("factory/{}/lp", e.contract.address),
            pair_type: m.pair_type,
        };
        d.storage.set(b"info", &to_json_vec(&p).map_err(err)?);
        d.storage.set(b"factory", m.factory_addr.as_bytes());
        d.storage.set(b"creator", i.sender.as_bytes());
        d.storage.set(b"params", m.init_params.unwrap_or_default().as_slice());
        Ok(Response::new())
    }
    fn execute(&self, _d: DepsMut, _e: Env, _i: MessageInfo, _m: &[u8]) -> Res {
        Err("pair".to_string())
    }
    fn query(&self, d: Deps, _e: Env, _m: &[u8]) -> StdResult<Binary> {
        Ok(Binary::from(d.storage.get(b"info").unwrap()))
    }
}
/// records the pools it was told to deactivate
struct Gen;
impl Contract for Gen {
    fn execute(&self, d: DepsMut, _e: Env, i: MessageInfo, m: &[u8]) -> Res {
        let m: astroport::incentives::ExecuteMsg = from_json(m).map_err(err)?;
        match m {
            astroport::incentives::ExecuteMsg::DeactivatePool { lp_token } if i.sender == FACTORY => d.storage.set(b"off", lp_token.as_bytes()),
            _ => return Err("generator".to_string()),
        }
        Ok(Response::new())
    }
}
fn types() -> [PairType; 3] {
    [PairType::Xyk {}, PairType::Stable {}, PairType::Custom("concentrated".to_string())]
}
fn cfg(t: PairType, code_id: u64) -> PairConfig {
    PairConfig { code_id, pair_type: t, total_fee_bps: 30, maker_fee_bps: 3333, is_disabled: false, is_generator_disabled: false, permissioned: false }
}
fn init(pair_configs: Vec<PairConfig>, generator: bool) -> (Chain, bool) {
    let mut c = Chain::new();
    c.put(GENERATOR, Rc::new(Gen));
    c.add_code(11, Rc::new(NewPair));
    c.add_code(12, Rc::new(NewPair));
    let m = InstantiateMsg {
        pair_configs,
        token_code_id: 1,
        fee_address: Some(MAKER.to_string()),
        generator_address: if generator { Some(GENERATOR.to_string()) } else { None },
        owner: OWNER.to_string(),
        whitelist_code_id: 2,
        coin_registry_address: COIN_REGISTRY.to_string(),
        tracker_config: None,
    };
    let ok = c.instantiate(FACTORY, Rc::new(Factory), "deployer", &m, &[]).is_ok();
    (c, ok)
}
fn infos() -> [AssetInfo; 4] {
    [native("uaaa"), native("ibc/bbb"), token("token_ccc"), native("uddd")]
}
fn create(c: &mut Chain, who: &str, t: &PairType, a: &[AssetInfo], params: Option<Binary>) -> Result<(), String> {
    c.execute(who, FACTORY, &ExecuteMsg::CreatePair { pair_type: t.clone(), asset_infos: a.to_vec(), init_params: params }, &[])
}
fn pair(c: &Chain, a: &[AssetInfo]) -> Option<PairInfo> {
    c.query(FACTORY, &QueryMsg::Pair { asset_infos: a.to_vec() }).ok()
}
fn all(c: &Chain) -> Vec<PairInfo> {
    let r: PairsResponse = c.query(FACTORY, &QueryMsg::Pairs { start_after: None, limit: None }).unwrap();
    r.pairs
}
fn pick(name: &str, n: u64) -> usize {
    choice(name, n) as usize
}

/// at most one pair of any set of assets, made only as the pair type allows
#[no_mangle]
pub fn fac_create() {
    let (mut c, ok) = init(vec![cfg(PairType::Xyk {}, 11), cfg(PairType::Stable {}, 12)], in_bool("generator"));
    check(ok, "instantiated");
    let gen = c.query::<ConfigResponse>(FACTORY, &QueryMsg::Config {}).unwrap().generator_address.is_some();
    let i = infos();
    let t = pick("type", 3);
    let t = types()[t].clone();
    // the owner may have restricted the type
    let (disabled, perm) = (in_bool("disabled"), in_bool("permissioned"));
    let known = t != types()[2];
    if disabled || perm {
        let mut k = cfg(t.clone(), if t == types()[0] { 11 } else { 12 });
        if !known {
            stop();
        }
        k.is_disabled = disabled;
        k.permissioned = perm;
        c.execute(OWNER, FACTORY, &ExecuteMsg::UpdatePairConfig { config: k }, &[]).expect("config");
    }
    let (a, b) = (pick("first", 3), pick("second", 3));
    let set = [i[a].clone(), i[b].clone()];
    let who = if in_bool("by_owner") { OWNER } else { USER };
    let params = if in_bool("params") { Some(Binary::from(b"abc")) } else { None };
    let ok = create(&mut c, who, &t, &set, params.clone()).is_ok();
    check(ok == (a != b && known && !disabled && (!perm || who == OWNER)), "a pair is created exactly when its type allows it");
    let rev = [set[1].clone(), set[0].clone()];
    if !ok {
        check(pair(&c, &set).is_none() && all(&c).is_empty(), "no pair is registered when creation fails");
        stop();
    }
    let p = pair(&c, &set).expect("registered");
    check(p.asset_infos == set && p.pair_type == t, "the registered pair trades the requested assets");
    check(pair(&c, &rev) == Some(p.clone()), "a pair is found in either order of its assets");
    check(all(&c) == vec![p.clone()], "the pair is listed");
    let s = c.slot(p.contract_addr.as_str()).unwrap();
    check(s.code_id == if t == types()[0] { 11 } else { 12 }, "the pair runs the code configured for its type");
    check(s.admin.as_deref() == Some(OWNER), "the pair's admin is the owner");
    let st = c.storage(p.contract_addr.as_str());
    check(st.get(b"factory").unwrap() == FACTORY.as_bytes() && st.get(b"creator").unwrap() == FACTORY.as_bytes(), "the pair is told who its factory is");
    check(st.get(b"params").unwrap() == params.unwrap_or_default().as_slice(), "the pair gets its parameters");
    // once more, of any type and order
    let t2 = types()[pick("type2", 2)].clone();
    if !disabled && !perm {
        let again = if in_bool("swapped") { &rev } else { &set };
        let ok = create(&mut c, OWNER, &t2, again, None).is_ok();
        check(!ok, "a pair is created once");
        check(all(&c) == vec![p.clone()] && pair(&c, &set) == Some(p.clone()), "a registered pair is not replaced");
        // other assets are free
        let o = [set[1].clone(), i[3].clone()];
        let ok = create(&mut c, USER, &t2, &o, None).is_ok();
        check(ok, "other pairs can be created");
        check(pair(&c, &o).map(|x| x.asset_infos) == Some(o.to_vec()) && pair(&c, &set) == Some(p.clone()), "pairs do not mix");
    }
    // deregistration
    let n = all(&c).len();
    let who = if in_bool("dereg_by_owner") { OWNER } else { USER };
    let which = if in_bool("dereg_swapped") { &rev } else { &set };
    let ok = c.execute(who, FACTORY, &ExecuteMsg::Deregister { asset_infos: which.to_vec() }, &[]).is_ok();
    check(ok == (who == OWNER), "only the owner deregisters");
    if ok {
        check(pair(&c, &set).is_none() && pair(&c, &rev).is_none() && all(&c).len() == n - 1, "a deregistered pair is gone");
        let off = c.storage(GENERATOR).get(b"off");
        check(off == if gen { Some(p.liquidity_token.as_bytes().to_vec()) } else { None }, "its rewards are switched off");
        let ok = c.execute(OWNER, FACTORY, &ExecuteMsg::Deregister { asset_infos: set.to_vec() }, &[]).is_ok();
        check(!ok, "a pair is deregistered once");
        if !disabled && !perm {
            let ok = create(&mut c, USER, &t2, &rev, None).is_ok();
            check(ok && pair(&c, &set).map(|x| x.contract_addr != p.contract_addr) == Some(true), "it can be created anew");
        }
    } else {
        check(pair(&c, &set) == Some(p) && all(&c).len() == n, "a refused deregistration does nothing");
        check(c.storage(GENERATOR).get(b"off").is_none(), "a refused deregistration does not touch rewards");
    }
    cover("created");
}
/// fee settings stay in range, change only by the owner, and are what pairs are told
#[no_mangle]
pub fn fac_fees() {
    let any = |n: [&str; 3], t: PairType| {
        let mut k = cfg(t, 11);
        k.total_fee_bps = in_u16(n[0], 0, 20_000);
        k.maker_fee_bps = in_u16(n[1], 0, 20_000);
        k.is_disabled = in_bool(n[2]);
        k
    };
    let k1 = any(["total1", "maker1", "dis1"], PairType::Xyk {});
    let same = in_bool("same_type");
    let k2 = any(["total2", "maker2", "dis2"], if same { PairType::Xyk {} } else { PairType::Custom("xyz".to_string()) });
    let (mut c, ok) = init(vec![k1.clone(), k2.clone()], false);
    let good = |k: &PairConfig| k.total_fee_bps <= 10_000 && k.maker_fee_bps <= 10_000;
    check(ok == (!same && good(&k1) && good(&k2)), "a factory starts only with distinct types and fees in range");
    if !ok {
        stop();
    }
    let fee = |c: &Chain, t: &PairType| c.query::<FeeInfoResponse>(FACTORY, &QueryMsg::FeeInfo { pair_type: t.clone() }).ok().map(|f| (f.total_fee_bps, f.maker_fee_bps, f.fee_address == Some(Addr::unchecked(MAKER))));
    let want = |k: &PairConfig| Some((k.total_fee_bps, k.maker_fee_bps, true));
    check(fee(&c, &k1.pair_type) == want(&k1) && fee(&c, &k2.pair_type) == want(&k2), "pairs are told the configured fees");
    let t3 = [PairType::Xyk {}, PairType::Custom("xyz".to_string()), PairType::Stable {}][pick("updated", 3)].clone();
    let mut k3 = any(["total3", "maker3", "dis3"], t3.clone());
    k3.is_generator_disabled = in_bool("nogen3");
    let who = if in_bool("by_owner") { OWNER } else { USER };
    let old = fee(&c, &t3);
    let ok = c.execute(who, FACTORY, &ExecuteMsg::UpdatePairConfig { config: k3.clone() }, &[]).is_ok();
    check(ok == (who == OWNER && good(&k3)), "only the owner changes fees, within range");
    check(fee(&c, &t3) == if ok { want(&k3) } else { old }, "the fees change exactly when accepted");
    for k in [&k1, &k2] {
        if k.pair_type != t3 {
            check(fee(&c, &k.pair_type) == want(k), "other types keep their fees");
        }
    }
    // pair types that get no emissions
    let b: Vec<PairType> = c.query(FACTORY, &QueryMsg::BlacklistedPairTypes {}).unwrap();
    let r: ConfigResponse = c.query(FACTORY, &QueryMsg::Config {}).unwrap();
    let mut now = vec![k1.clone(), k2.clone()];
    if ok {
        now.retain(|k| k.pair_type != t3);
        now.push(k3.clone());
    }
    for k in &now {
        check(b.contains(&k.pair_type) == (k.is_disabled || k.is_generator_disabled), "blacklisted types are the disabled ones");
        check(r.pair_configs.contains(k), "the configuration reports every type as it is");
    }
    check(r.pair_configs.len() == now.len(), "the configuration reports nothing else");
    cover("updated");
}
/// every setting changes only by the owner, and only the named ones
#[no_mangle]
pub fn fac_config() {
    let (mut c, _) = init(vec![cfg(PairType::Xyk {}, 11)], true);
    let o = |n: &str, v: &str| if in_bool(n) { Some(v.to_string()) } else { None };
    let (f, g, r) = (o("fee", "fee2"), o("gen", "gen2"), o("registry", "registry2"));
    let t = if in_bool("token") { Some(in_u64("token_id", 0, 1 << 40)) } else { None };
    let w = if in_bool("whitelist") { Some(in_u64("whitelist_id", 0, 1 << 40)) } else { None };
    let who = if in_bool("by_owner") { OWNER } else { [USER, GENERATOR, MAKER][pick("who", 3)] };
    let ok = c
        .execute(
            who,
            FACTORY,
            &ExecuteMsg::UpdateConfig { token_code_id: t, fee_address: f.clone(), generator_address: g.clone(), whitelist_code_id: w, coin_registry_address: r.clone() },
            &[],
        )
        .is_ok();
    check(ok == (who == OWNER), "only the owner changes the settings");
    let q: ConfigResponse = c.query(FACTORY, &QueryMsg::Config {}).unwrap();
    let a = |x: &Option<String>, d: &str| if ok { x.clone().unwrap_or(d.to_string()) } else { d.to_string() };
    check(q.owner == OWNER, "settings do not change the owner");
    check(q.fee_address == Some(Addr::unchecked(a(&f, MAKER))), "fee receiver");
    check(q.generator_address == Some(Addr::unchecked(a(&g, GENERATOR))), "generator");
    check(q.coin_registry_address == a(&r, COIN_REGISTRY), "coin registry");
    check(q.token_code_id == if ok { t.unwrap_or(1) } else { 1 }, "token code");
    check(q.whitelist_code_id == if ok { w.unwrap_or(2) } else { 2 }, "whitelist code");
    // pairs read the same settings from storage directly
    let raw: Config = from_json(c.storage(FACTORY).get(b"config").unwrap()).unwrap();
    check(raw.fee_address == q.fee_address && raw.generator_address == q.generator_address && raw.owner == q.owner && raw.coin_registry_address == q.coin_registry_address, "pairs read the reported settings");
    // the tracker for new LP tokens
    let m = |id, a: Option<&str>| ExecuteMsg::UpdateTrackerConfig { tracker_code_id: id, token_factory_addr: a.map(|x| x.to_string()) };
    let id = in_u64("tracker_id", 0, 1 << 40);
    let has = in_bool("tracker_addr");
    let ok = c.execute(who, FACTORY, &m(id, if has { Some(MODULE) } else { None }), &[]).is_ok();
    check(ok == (who == OWNER && has), "only the owner sets the tracker");
    let q = |c: &Chain| c.query::<TrackerConfig>(FACTORY, &QueryMsg::TrackerConfig {}).ok();
    check(q(&c).map(|t| (t.code_id, t.token_factory_addr)) == if ok { Some((id, MODULE.to_string())) } else { None }, "the tracker is set exactly then");
    if ok {
        let id = in_u64("tracker_id2", 0, 1 << 40);
        c.execute(OWNER, FACTORY, &m(id, None), &[]).expect("update");
        check(q(&c).map(|t| (t.code_id, t.token_factory_addr)) == Some((id, MODULE.to_string())), "an update keeps the token factory's address");
    }
    cover("config");
}
/// listing the pairs page by page shows each once
#[no_mangle]
pub fn fac_pages() {
    let (mut c, _) = init(vec![cfg(PairType::Xyk {}, 11)], false);
    let i = infos();
    let cand = [vec![i[0].clone(), i[1].clone()], vec![i[2].clone(), i[0].clone()], vec![i[1].clone(), i[2].clone()], vec![i[0].clone(), i[1].clone(), i[2].clone()], vec![i[3].clone(), i[0].clone()]];
    let mut made: Vec<Vec<AssetInfo>> = vec![];
    for (j, p) in cand.iter().enumerate() {
        if in_bool(["p0", "p1", "p2", "p3", "p4"][j]) {
            create(&mut c, USER, &PairType::Xyk {}, p, None).expect("create");
            made.push(p.clone());
        }
    }
    let limit = in_u32("limit", 1, 40);
    let mut seen: Vec<Vec<AssetInfo>> = vec![];
    let mut after = None;
    loop {
        let r: PairsResponse = c.query(FACTORY, &QueryMsg::Pairs { start_after: after.clone(), limit: Some(limit) }).unwrap();
        check(r.pairs.len() <= limit as usize, "no more than asked for");
        if r.pairs.is_empty() {
            break;
        }
        seen.extend(r.pairs.iter().map(|p| p.asset_infos.clone()));
        check(seen.len() <= made.len(), "no pair is listed twice");
        if seen.len() > made.len() {
            stop();
        }
        let mut l = seen[seen.len() - 1].clone();
        if in_bool("reversed") {
            l.reverse();
        }
        after = Some(l);
    }
    check(seen.len() == made.len() && made.iter().all(|m| seen.contains(m)), "every pair is listed");
    cover("listed");
}
#[no_mangle]
pub fn fac_owner() {
    let (mut c, _) = init(vec![cfg(PairType::Xyk {}, 11)], false);
    ownership(
        &mut c,
        FACTORY,
        |c| c.query::<ConfigResponse>(FACTORY, &QueryMsg::Config {}).unwrap().owner.to_string(),
        |c, w| c.execute(w, FACTORY, &ExecuteMsg::UpdatePairConfig { config: cfg(PairType::Stable {}, 12) }, &[]).is_ok(),
    );
}
/// only pairs the factory itself created get registered
#[no_mangle]
pub fn fac_reply() {
    let (mut c, _) = init(vec![cfg(PairType::Xyk {}, 11)], false);
    let i = infos();
    let a = [i[0].clone(), i[1].clone()];
    // denominations that cannot exist
    let bad = [native("ab"), native("1abc"), native("a*bc"), AssetInfo::Token { contract_addr: Addr::unchecked("UPPER/") }][pick("bad", 4)].clone();
    let ok = create(&mut c, USER, &PairType::Xyk {}, &[a[0].clone(), bad], None).is_ok();
    check(!ok && all(&c).is_empty(), "pairs of malformed assets are refused");
    // a message of another contract, or to the factory's hooks, cannot register pairs
    let ok = c.execute(USER, FACTORY, &cw20::Cw20ReceiveMsg { sender: USER.to_string(), amount: Uint128::one(), msg: Binary::default() }, &[]).is_ok();
    check(!ok, "unknown messages are refused");
    cover("refused");
}
fn name(tag: &str, n: usize) -> String {
    let mut v = vec![];
    for j in 0..n {
        v.push(in_u8(&format!("{tag}{j}"), b'a', b'c'));
    }
    String::from_utf8(v).unwrap()
}
/// any two pairs of distinct assets can exist side by side
#[no_mangle]
pub fn fac_distinct() {
    let (mut c, _) = init(vec![cfg(PairType::Xyk {}, 11)], false);
    let l = [[3, 3, 3, 3], [3, 4, 4, 3], [4, 3, 3, 4], [4, 3, 4, 3]][pick("lengths", 4)];
    let d = [name("p", l[0]), name("q", l[1]), name("r", l[2]), name("s", l[3])];
    if d[0] == d[1] || d[2] == d[3] {
        stop();
    }
    let (x, y) = ([native(&d[0]), native(&d[1])], [native(&d[2]), native(&d[3])]);
    create(&mut c, USER, &PairType::Xyk {}, &x, None).expect("create");
    let same = (d[0] == d[2] && d[1] == d[3]) || (d[0] == d[3] && d[1] == d[2]);
    let ok = create(&mut c, USER, &PairType::Xyk {}, &y, None).is_ok();
    let join = |a: &str, b: &str| if a < b { format!("{a}{b}") } else { format!("{b}{a}") };
    if same {
        check(!ok, "the same two assets make one pair");
    } else if join(&d[0], &d[1]) == join(&d[2], &d[3]) {
        check(ok, "pairs whose names join to the same text can both exist");
    } else {
        check(ok, "different assets make another pair");
        check(pair(&c, &y).map(|p| p.asset_infos) == Some(y.to_vec()) && pair(&c, &x).map(|p| p.asset_infos) == Some(x.to_vec()), "each pair is found by its own assets");
        cover("distinct");
    }
}
#[allow(unused)]
fn unused(_: Asset) {}
entries!(fac_distinct, fac_create, fac_fees, fac_config, fac_pages, fac_owner, fac_reply);
/// stands in for the hash function when names are symbolic: one bucket, equality decides
#[no_mangle]
pub extern "Rust" fn one_hash(_: *const u8) -> u64 {
    7
}
