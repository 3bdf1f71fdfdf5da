//! A small CosmWasm chain: contracts with isolated storage, bank, token factory, a minimal cw20,
//! message dispatch with replies, and rollback of failed transactions.
pub mod observe;
use cosmwasm_std::*;
use serde::{de::DeserializeOwned, Serialize};
use std::cell::UnsafeCell;
use std::rc::Rc;

pub type Res = Result<Response, String>;

pub trait Contract {
    fn instantiate(&self, _d: DepsMut, _e: Env, _i: MessageInfo, _m: &[u8]) -> Res {
        Ok(Response::new())
    }
    fn execute(&self, d: DepsMut, e: Env, i: MessageInfo, m: &[u8]) -> Res;
    fn query(&self, _d: Deps, _e: Env, _m: &[u8]) -> StdResult<Binary> {
        Err(StdError::generic_err("no query"))
    }
    fn reply(&self, _d: DepsMut, _e: Env, _r: Reply) -> Res {
        Err("no reply".to_string())
    }
    fn sudo(&self, _d: DepsMut, _e: Env, _m: &[u8]) -> Res {
        Err("no sudo".to_string())
    }
}

/// implement [`Contract`] for a unit struct from a contract's entry points
#[macro_export]
macro_rules! contract {
    ($n:ident, $inst:path, $exec:path, $query:path $(, reply = $reply:path)? $(, sudo = $sudo:path)?) => {
        pub struct $n;
        impl $crate::Contract for $n {
            fn instantiate(&self, d: cosmwasm_std::DepsMut, e: cosmwasm_std::Env, i: cosmwasm_std::MessageInfo, m: &[u8]) -> $crate::Res {
                let m = cosmwasm_std::from_json(m).map_err(|e| format!("parse: {e}"))?;
                $inst(d, e, i, m).map_err($crate::err)
            }
            fn execute(&self, d: cosmwasm_std::DepsMut, e: cosmwasm_std::Env, i: cosmwasm_std::MessageInfo, m: &[u8]) -> $crate::Res {
                let m = cosmwasm_std::from_json(m).map_err(|e| format!("parse: {e}"))?;
                $exec(d, e, i, m).map_err($crate::err)
            }
            fn query(&self, d: cosmwasm_std::Deps, e: cosmwasm_std::Env, m: &[u8]) -> cosmwasm_std::StdResult<cosmwasm_std::Binary> {
                let m = cosmwasm_std::from_json(m)?;
                $query(d, e, m).map_err(|e| cosmwasm_std::StdError::generic_err($crate::err(e)))
            }
            $(fn reply(&self, d: cosmwasm_std::DepsMut, e: cosmwasm_std::Env, r: cosmwasm_std::Reply) -> $crate::Res {
                $reply(d, e, r).map_err($crate::err)
            })?
            $(fn sudo(&self, d: cosmwasm_std::DepsMut, e: cosmwasm_std::Env, m: &[u8]) -> $crate::Res {
                let m = cosmwasm_std::from_json(m).map_err(|e| format!("parse: {e}"))?;
                $sudo(d, e, m).map_err($crate::err)
            })?
        }
    };
}
/// Error text. Kept off the symbolic path: only whether a call failed matters to the harnesses.
#[cfg(target_arch = "riscv64")]
pub fn err<E>(_: E) -> String {
    "error".to_string()
}
#[cfg(not(target_arch = "riscv64"))]
pub fn err<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

// ------------------------------------------------------------------ storage
#[derive(Clone, Default)]
pub struct Mem(pub Vec<(Vec<u8>, Vec<u8>)>);
impl Mem {
    fn find(&self, k: &[u8]) -> Result<usize, usize> {
        let (mut lo, mut hi) = (0, self.0.len());
        while lo < hi {
            let m = (lo + hi) / 2;
            match self.0[m].0.as_slice().cmp(k) {
                std::cmp::Ordering::Equal => return Ok(m),
                std::cmp::Ordering::Less => lo = m + 1,
                std::cmp::Ordering::Greater => hi = m,
            }
        }
        Err(lo)
    }
}
impl Storage for Mem {
    fn get(&self, k: &[u8]) -> Option<Vec<u8>> {
        self.find(k).ok().map(|i| self.0[i].1.clone())
    }
    fn set(&mut self, k: &[u8], v: &[u8]) {
        match self.find(k) {
            Ok(i) => self.0[i].1 = v.to_vec(),
            Err(i) => self.0.insert(i, (k.to_vec(), v.to_vec())),
        }
    }
    fn remove(&mut self, k: &[u8]) {
        if let Ok(i) = self.find(k) {
            self.0.remove(i);
        }
    }
    fn range<'a>(&'a self, start: Option<&[u8]>, end: Option<&[u8]>, order: Order) -> Box<dyn Iterator<Item = Record> + 'a> {
        let s = start.map_or(0, |k| match self.find(k) {
            Ok(i) | Err(i) => i,
        });
        let e = end.map_or(self.0.len(), |k| match self.find(k) {
            Ok(i) | Err(i) => i,
        });
        let mut v: Vec<Record> = if s < e { self.0[s..e].to_vec() } else { vec![] };
        if order == Order::Descending {
            v.reverse();
        }
        Box::new(v.into_iter())
    }
}

// ------------------------------------------------------------------ api
pub struct SimpleApi;
impl Api for SimpleApi {
    fn addr_validate(&self, h: &str) -> StdResult<Addr> {
        // names like "uastro" are coins here, never addresses
        let coin = h.starts_with('u') && !h.contains('_');
        if h.len() < 3 || coin || h.bytes().any(|c| c.is_ascii_uppercase() || c == b'/' || c == b' ') {
            return Err(StdError::generic_err("invalid address"));
        }
        Ok(Addr::unchecked(h))
    }
    fn addr_canonicalize(&self, h: &str) -> StdResult<CanonicalAddr> {
        self.addr_validate(h)?;
        Ok(CanonicalAddr::from(h.as_bytes()))
    }
    fn addr_humanize(&self, c: &CanonicalAddr) -> StdResult<Addr> {
        Ok(Addr::unchecked(String::from_utf8_lossy(c.as_slice()).into_owned()))
    }
    fn secp256k1_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn secp256k1_recover_pubkey(&self, _: &[u8], _: &[u8], _: u8) -> Result<Vec<u8>, RecoverPubkeyError> {
        unimplemented!()
    }
    fn ed25519_verify(&self, _: &[u8], _: &[u8], _: &[u8]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn ed25519_batch_verify(&self, _: &[&[u8]], _: &[&[u8]], _: &[&[u8]]) -> Result<bool, VerificationError> {
        unimplemented!()
    }
    fn debug(&self, _: &str) {}
}

// ------------------------------------------------------------------ chain
pub struct Slot {
    pub addr: String,
    pub code: Rc<dyn Contract>,
    pub code_id: u64,
    pub admin: Option<String>,
    pub store: UnsafeCell<Mem>,
}
#[derive(Clone)]
pub struct Snap {
    bank: Vec<(String, String, u128)>,
    supply: Vec<(String, u128)>,
    stores: Vec<Mem>,
    n: usize,
    next: u64,
    hooks: usize,
}
pub struct Chain {
    pub bank: Vec<(String, String, u128)>,
    pub supply: Vec<(String, u128)>,
    pub slots: Vec<Box<Slot>>,
    pub codes: Vec<(u64, Rc<dyn Contract>)>,
    pub time: u64,
    pub height: u64,
    pub next: u64,
    pub hooks: Vec<(String, String)>, // denom -> before-send hook contract
    pub other: Vec<(String, String)>, // other messages: (sender, kind)
    pub attrs: Vec<Attribute>,
    pub data: Option<Binary>, // data of the last successful execution
    pub last_err: String,
}

struct Q(*const Chain);
impl Querier for Q {
    fn raw_query(&self, b: &[u8]) -> QuerierResult {
        let c = unsafe { &*self.0 };
        let r: QueryRequest<Empty> = match from_json(b) {
            Ok(r) => r,
            Err(_) => {
                return SystemResult::Err(SystemError::InvalidRequest { error: "parse".into(), request: Binary::default() });
            }
        };
        let r = match r {
            QueryRequest::Bank(BankQuery::Balance { address, denom }) => {
                let amount = Uint128::new(c.balance(&address, &denom));
                to_json_binary(&BalanceResponse { amount: Coin { denom, amount } })
            }
            QueryRequest::Bank(BankQuery::AllBalances { address }) => {
                let mut amount = vec![];
                for (a, d, v) in &c.bank {
                    if *a == address && *v != 0 {
                        amount.push(Coin { denom: d.clone(), amount: Uint128::new(*v) });
                    }
                }
                to_json_binary(&AllBalanceResponse { amount })
            }
            QueryRequest::Bank(BankQuery::Supply { denom }) => {
                let amount = Uint128::new(c.supply_of(&denom));
                #[derive(Serialize)]
                struct S {
                    amount: Coin,
                }
                to_json_binary(&S { amount: Coin { denom, amount } })
            }
            QueryRequest::Wasm(WasmQuery::Smart { contract_addr, msg }) => match c.slot(&contract_addr) {
                None => return SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }),
                Some(s) => {
                    let st = unsafe { &*s.store.get() };
                    let q = Q(self.0);
                    s.code.query(
                        Deps { storage: st, api: &SimpleApi, querier: QuerierWrapper::new(&q) },
                        c.env(&contract_addr),
                        &msg,
                    )
                }
            },
            QueryRequest::Wasm(WasmQuery::Raw { contract_addr, key }) => match c.slot(&contract_addr) {
                None => return SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }),
                Some(s) => {
                    let st = unsafe { &*s.store.get() };
                    Ok(Binary::from(st.get(&key).unwrap_or_default()))
                }
            },
            QueryRequest::Wasm(WasmQuery::ContractInfo { contract_addr }) => match c.slot(&contract_addr) {
                None => return SystemResult::Err(SystemError::NoSuchContract { addr: contract_addr }),
                Some(s) => {
                    let mut r = ContractInfoResponse::default();
                    r.code_id = s.code_id;
                    r.creator = "creator".to_string();
                    r.admin = s.admin.clone();
                    to_json_binary(&r)
                }
            },
            _ => return SystemResult::Err(SystemError::UnsupportedRequest { kind: "query".into() }),
        };
        SystemResult::Ok(match r {
            Ok(b) => ContractResult::Ok(b),
            Err(e) => ContractResult::Err(err(e)),
        })
    }
}

impl Chain {
    pub fn new() -> Chain {
        Chain {
            bank: vec![],
            supply: vec![],
            slots: vec![],
            codes: vec![],
            time: 1_700_000_000,
            height: 1000,
            next: 0,
            hooks: vec![],
            other: vec![],
            attrs: vec![],
            data: None,
            last_err: String::new(),
        }
    }
    pub fn env(&self, addr: &str) -> Env {
        Env {
            block: BlockInfo { height: self.height, time: Timestamp::from_seconds(self.time), chain_id: "chain-1".to_string() },
            transaction: Some(TransactionInfo { index: 0 }),
            contract: ContractInfo { address: Addr::unchecked(addr) },
        }
    }
    pub fn slot(&self, a: &str) -> Option<&Slot> {
        for s in &self.slots {
            if s.addr == a {
                return Some(s);
            }
        }
        None
    }
    pub fn snapshot(&self) -> Snap {
        Snap {
            bank: self.bank.clone(),
            supply: self.supply.clone(),
            stores: self.slots.iter().map(|s| unsafe { (*s.store.get()).clone() }).collect(),
            n: self.slots.len(),
            next: self.next,
            hooks: self.hooks.len(),
        }
    }
    pub fn restore(&mut self, s: Snap) {
        self.bank = s.bank;
        self.supply = s.supply;
        self.slots.truncate(s.n);
        self.next = s.next;
        self.hooks.truncate(s.hooks);
        for (i, m) in s.stores.into_iter().enumerate() {
            unsafe { *self.slots[i].store.get() = m };
        }
    }
    // ---- bank
    pub fn balance(&self, a: &str, d: &str) -> u128 {
        for (x, y, v) in &self.bank {
            if x == a && y == d {
                return *v;
            }
        }
        0
    }
    pub fn supply_of(&self, d: &str) -> u128 {
        for (x, v) in &self.supply {
            if x == d {
                return *v;
            }
        }
        0
    }
    fn set_supply(&mut self, d: &str, v: u128) {
        for (x, y) in self.supply.iter_mut() {
            if x == d {
                *y = v;
                return;
            }
        }
        self.supply.push((d.to_string(), v));
    }
    pub fn set_balance(&mut self, a: &str, d: &str, v: u128) {
        for (x, y, z) in self.bank.iter_mut() {
            if x == a && y == d {
                *z = v;
                return;
            }
        }
        self.bank.push((a.to_string(), d.to_string(), v));
    }
    /// test set-up: give coins (counted in the supply)
    pub fn fund(&mut self, a: &str, d: &str, v: u128) {
        let b = self.balance(a, d);
        self.set_balance(a, d, b + v);
        let s = self.supply_of(d);
        self.set_supply(d, s.checked_add(v).expect("supply"));
    }
    /// the token factory mints to its module account, then sends; supply has grown when the hook sees the send
    fn mint(&mut self, a: &str, d: &str, v: u128) -> Result<(), String> {
        let s = self.supply_of(d).checked_add(v).ok_or("supply overflow")?;
        self.set_supply(d, s);
        self.before_send(MODULE, a, d, v)?;
        let b = self.balance(a, d);
        self.set_balance(a, d, b + v);
        Ok(())
    }
    /// the coins are sent to the module account, then burned there
    fn burn(&mut self, a: &str, d: &str, v: u128) -> Result<(), String> {
        let b = self.balance(a, d).checked_sub(v).ok_or("insufficient funds")?;
        self.before_send(a, MODULE, d, v)?;
        self.set_balance(a, d, b);
        let s = self.supply_of(d).checked_sub(v).ok_or("supply")?;
        self.set_supply(d, s);
        Ok(())
    }
    /// run a denom's before-send hook, which may refuse the transfer
    fn before_send(&mut self, from: &str, to: &str, d: &str, v: u128) -> Result<(), String> {
        let mut hook = None;
        for (x, h) in &self.hooks {
            if *x == d {
                hook = Some(h.clone());
            }
        }
        if let Some(h) = hook {
            #[derive(Serialize)]
            struct In<'a> {
                from: &'a str,
                to: &'a str,
                amount: Coin,
            }
            #[derive(Serialize)]
            #[serde(rename_all = "snake_case")]
            enum M<'a> {
                BlockBeforeSend(In<'a>),
                TrackBeforeSend(In<'a>),
            }
            let m = to_json_vec(&M::BlockBeforeSend(In { from, to, amount: cn(v, d) })).map_err(err)?;
            self.call(&h, |k, d, e| k.sudo(d, e, &m))?;
            let m = to_json_vec(&M::TrackBeforeSend(In { from, to, amount: cn(v, d) })).map_err(err)?;
            // the tracking call cannot block a transfer
            let s = self.snapshot();
            if self.call(&h, |k, d, e| k.sudo(d, e, &m)).is_err() {
                self.restore(s);
            }
        }
        Ok(())
    }
    fn transfer(&mut self, from: &str, to: &str, coins: &[Coin]) -> Result<(), String> {
        for c in coins {
            let v = c.amount.u128();
            if v == 0 {
                return Err("zero coin".to_string());
            }
            let b = self.balance(from, &c.denom).checked_sub(v).ok_or("insufficient funds")?;
            self.before_send(from, to, &c.denom, v)?;
            self.set_balance(from, &c.denom, b);
            let t = self.balance(to, &c.denom).checked_add(v).ok_or("overflow")?;
            self.set_balance(to, &c.denom, t);
        }
        Ok(())
    }
    /// chain-level mint and burn of any denom
    pub fn tf_mint(&mut self, a: &str, d: &str, v: u128) -> Result<(), String> {
        self.tx(|c| c.mint(a, d, v))
    }
    pub fn tf_burn(&mut self, a: &str, d: &str, v: u128) -> Result<(), String> {
        self.tx(|c| c.burn(a, d, v))
    }
    // ---- contracts
    pub fn add_code(&mut self, id: u64, c: Rc<dyn Contract>) {
        self.codes.push((id, c));
    }
    /// place a contract without running instantiate
    pub fn put(&mut self, addr: &str, c: Rc<dyn Contract>) {
        self.slots.push(Box::new(Slot {
            addr: addr.to_string(),
            code: c,
            code_id: 0,
            admin: None,
            store: UnsafeCell::new(Mem::default()),
        }));
    }
    pub fn storage(&self, addr: &str) -> &mut Mem {
        unsafe { &mut *self.slot(addr).expect("contract").store.get() }
    }
    fn call(&mut self, addr: &str, f: impl FnOnce(&dyn Contract, DepsMut, Env) -> Res) -> Res {
        let env = self.env(addr);
        let q = Q(self as *const Chain);
        let s = match self.slot(addr) {
            Some(s) => s,
            None => return Err("no such contract".to_string()),
        };
        let code = s.code.clone();
        let st = unsafe { &mut *s.store.get() };
        f(&*code, DepsMut { storage: st, api: &SimpleApi, querier: QuerierWrapper::new(&q) }, env)
    }
    /// direct access to a contract's dependencies
    pub fn with_deps<T>(&mut self, addr: &str, f: impl FnOnce(DepsMut, Env) -> T) -> T {
        let env = self.env(addr);
        let q = Q(self as *const Chain);
        let st = self.storage(addr);
        f(DepsMut { storage: st, api: &SimpleApi, querier: QuerierWrapper::new(&q) }, env)
    }
    fn exec_in(&mut self, sender: &str, addr: &str, msg: &[u8], funds: &[Coin]) -> Result<Option<Binary>, String> {
        self.transfer(sender, addr, funds)?;
        let info = MessageInfo { sender: Addr::unchecked(sender), funds: funds.to_vec() };
        let r = self.call(addr, |k, d, e| k.execute(d, e, info, msg))?;
        self.finish(addr, r)
    }
    fn finish(&mut self, addr: &str, r: Response) -> Result<Option<Binary>, String> {
        self.attrs.extend(r.attributes);
        let mut data = r.data;
        for m in r.messages {
            let snap = match m.reply_on {
                ReplyOn::Error | ReplyOn::Always => Some(self.snapshot()),
                _ => None,
            };
            let res = self.dispatch(addr, m.msg);
            let rep = match res {
                Ok(d) => match m.reply_on {
                    ReplyOn::Success | ReplyOn::Always => Some(SubMsgResult::Ok(SubMsgResponse { events: vec![], data: d })),
                    _ => None,
                },
                Err(e) => match snap {
                    Some(s) => {
                        self.restore(s);
                        Some(SubMsgResult::Err(e))
                    }
                    None => return Err(e),
                },
            };
            if let Some(result) = rep {
                let id = m.id;
                let r = self.call(addr, |k, d, e| k.reply(d, e, Reply { id, result }))?;
                if let Some(d) = self.finish(addr, r)? {
                    data = Some(d);
                }
            }
        }
        Ok(data)
    }
    fn dispatch(&mut self, sender: &str, m: CosmosMsg) -> Result<Option<Binary>, String> {
        match m {
            CosmosMsg::Bank(BankMsg::Send { to_address, amount }) => {
                self.transfer(sender, &to_address, &amount)?;
                Ok(None)
            }
            CosmosMsg::Bank(BankMsg::Burn { amount }) => {
                for c in amount {
                    self.burn(sender, &c.denom, c.amount.u128())?;
                }
                Ok(None)
            }
            CosmosMsg::Wasm(WasmMsg::Execute { contract_addr, msg, funds }) => self.exec_in(sender, &contract_addr, &msg, &funds),
            CosmosMsg::Wasm(WasmMsg::Instantiate { admin, code_id, msg, funds, .. }) => {
                let mut code = None;
                for (i, c) in &self.codes {
                    if *i == code_id {
                        code = Some(c.clone());
                    }
                }
                let code = code.ok_or("no code")?;
                let addr = format!("contract{}", self.next);
                self.next += 1;
                self.slots.push(Box::new(Slot { addr: addr.clone(), code, code_id, admin, store: UnsafeCell::new(Mem::default()) }));
                self.init_in(sender, &addr, &msg, &funds)?;
                // MsgInstantiateContractResponse
                let mut b = vec![0x0a, addr.len() as u8];
                b.extend_from_slice(addr.as_bytes());
                Ok(Some(Binary::from(b)))
            }
            CosmosMsg::Stargate { type_url, value } => {
                use astroport::token_factory::{MsgBurn, MsgCreateDenom, MsgCreateDenomResponse, MsgMint, MsgSetBeforeSendHook};
                if type_url.ends_with(".MsgCreateDenom") {
                    let m = MsgCreateDenom::try_from(value).map_err(err)?;
                    if m.sender != sender {
                        return Err("wrong denom creator".to_string());
                    }
                    let new_token_denom = format!("factory/{}/{}", m.sender, m.subdenom);
                    return Ok(Some(MsgCreateDenomResponse { new_token_denom }.into()));
                }
                if type_url.ends_with(".MsgMint") {
                    let m = MsgMint::try_from(value).map_err(err)?;
                    let c = m.amount.ok_or("amount")?;
                    self.owned(sender, &c.denom)?;
                    let a: Uint128 = c.amount.as_str().try_into().map_err(err)?;
                    self.mint(&m.mint_to_address, &c.denom, a.u128())?;
                    return Ok(None);
                }
                if type_url.ends_with(".MsgBurn") {
                    let m = MsgBurn::try_from(value).map_err(err)?;
                    let c = m.amount.ok_or("amount")?;
                    self.owned(sender, &c.denom)?;
                    let a: Uint128 = c.amount.as_str().try_into().map_err(err)?;
                    let from = if m.burn_from_address.is_empty() { sender.to_string() } else { m.burn_from_address };
                    self.burn(&from, &c.denom, a.u128())?;
                    return Ok(None);
                }
                if type_url.ends_with(".MsgSetBeforeSendHook") {
                    let m = MsgSetBeforeSendHook::try_from(value).map_err(err)?;
                    self.owned(sender, &m.denom)?;
                    self.hooks.push((m.denom, m.cosmwasm_address));
                    return Ok(None);
                }
                self.other.push((sender.to_string(), type_url));
                Ok(None)
            }
            _ => {
                self.other.push((sender.to_string(), "other".to_string()));
                Ok(None)
            }
        }
    }
    fn owned(&self, sender: &str, denom: &str) -> Result<(), String> {
        // factory/{creator}/{sub}
        let mut it = denom.split('/');
        if it.next() == Some("factory") && it.next() == Some(sender) {
            Ok(())
        } else {
            Err("not the denom admin".to_string())
        }
    }
    fn init_in(&mut self, sender: &str, addr: &str, msg: &[u8], funds: &[Coin]) -> Result<(), String> {
        if !funds.is_empty() {
            self.transfer(sender, addr, funds)?;
        }
        let info = MessageInfo { sender: Addr::unchecked(sender), funds: funds.to_vec() };
        let r = self.call(addr, |k, d, e| k.instantiate(d, e, info, msg))?;
        self.finish(addr, r)?;
        Ok(())
    }
    // ---- transactions
    fn tx(&mut self, f: impl FnOnce(&mut Chain) -> Result<(), String>) -> Result<(), String> {
        let s = self.snapshot();
        self.attrs.clear();
        match f(self) {
            Ok(()) => Ok(()),
            Err(e) => {
                self.restore(s);
                #[cfg(not(target_arch = "riscv64"))]
                if std::env::var("SX_VERBOSE").is_ok() {
                    println!("tx failed: {e}");
                }
                self.last_err = e.clone();
                Err(e)
            }
        }
    }
    pub fn instantiate(&mut self, addr: &str, code: Rc<dyn Contract>, sender: &str, msg: &impl Serialize, funds: &[Coin]) -> Result<(), String> {
        let m = to_json_vec(msg).map_err(err)?;
        self.put(addr, code);
        self.tx(|c| c.init_in(sender, addr, &m, funds))
    }
    pub fn execute(&mut self, sender: &str, addr: &str, msg: &impl Serialize, funds: &[Coin]) -> Result<(), String> {
        let m = to_json_vec(msg).map_err(err)?;
        self.tx(|c| {
            c.data = None;
            c.data = c.exec_in(sender, addr, &m, funds)?;
            Ok(())
        })
    }
    pub fn sudo(&mut self, addr: &str, msg: &impl Serialize) -> Result<(), String> {
        let m = to_json_vec(msg).map_err(err)?;
        self.tx(|c| {
            let r = c.call(addr, |k, d, e| k.sudo(d, e, &m))?;
            c.finish(addr, r).map(|_| ())
        })
    }
    pub fn send(&mut self, from: &str, to: &str, coins: &[Coin]) -> Result<(), String> {
        self.tx(|c| c.transfer(from, to, coins))
    }
    pub fn query<T: DeserializeOwned>(&self, addr: &str, msg: &impl Serialize) -> StdResult<T> {
        let m = to_json_vec(msg)?;
        let s = self.slot(addr).expect("contract");
        let q = Q(self as *const Chain);
        let st = unsafe { &*s.store.get() };
        let b = s.code.query(Deps { storage: st, api: &SimpleApi, querier: QuerierWrapper::new(&q) }, self.env(addr), &m)?;
        from_json(b)
    }
    /// attribute of the last transaction, as a number
    pub fn attr_n(&self, key: &str) -> u128 {
        self.attr(key).expect("attribute").parse().expect("number")
    }
    pub fn attr(&self, key: &str) -> Option<String> {
        for a in &self.attrs {
            if a.key == key {
                return Some(a.value.clone());
            }
        }
        None
    }
}
pub fn cn(v: u128, d: &str) -> Coin {
    Coin { denom: d.to_string(), amount: Uint128::new(v) }
}

// ------------------------------------------------------------------ cw20
/// Minimal cw20: balances only (allowances are taken as granted). Storage: "b"+addr -> amount, "s" -> supply,
/// "m" -> minter, "d" -> decimals.
pub struct Cw20;
fn rd(s: &dyn Storage, k: &[u8]) -> u128 {
    match s.get(k) {
        Some(b) => u128::from_le_bytes(b.as_slice().try_into().unwrap()),
        None => 0,
    }
}
fn bk(a: &str) -> Vec<u8> {
    let mut v = b"b".to_vec();
    v.extend_from_slice(a.as_bytes());
    v
}
impl Cw20 {
    fn mv(s: &mut dyn Storage, from: &str, to: &str, v: u128) -> Result<(), String> {
        if v == 0 {
            return Err("Invalid zero amount".to_string());
        }
        let b = rd(s, &bk(from)).checked_sub(v).ok_or("insufficient cw20")?;
        s.set(&bk(from), &b.to_le_bytes());
        let t = rd(s, &bk(to)).checked_add(v).ok_or("overflow")?;
        s.set(&bk(to), &t.to_le_bytes());
        Ok(())
    }
}
impl Contract for Cw20 {
    fn execute(&self, d: DepsMut, _e: Env, i: MessageInfo, m: &[u8]) -> Res {
        use cw20::Cw20ExecuteMsg::*;
        let m: cw20::Cw20ExecuteMsg = from_json(m).map_err(err)?;
        let s = d.storage;
        let me = i.sender.as_str();
        match m {
            Transfer { recipient, amount } => Self::mv(s, me, &recipient, amount.u128())?,
            TransferFrom { owner, recipient, amount } => Self::mv(s, &owner, &recipient, amount.u128())?,
            Send { contract, amount, msg } => {
                Self::mv(s, me, &contract, amount.u128())?;
                let r = cw20::Cw20ReceiveMsg { sender: me.to_string(), amount, msg };
                return Ok(Response::new().add_message(r.into_cosmos_msg(contract).map_err(err)?));
            }
            Mint { recipient, amount } => {
                if s.get(b"m") != Some(me.as_bytes().to_vec()) {
                    return Err("unauthorized".to_string());
                }
                let t = rd(s, &bk(&recipient)).checked_add(amount.u128()).ok_or("overflow")?;
                s.set(&bk(&recipient), &t.to_le_bytes());
                let t = rd(s, b"s").checked_add(amount.u128()).ok_or("overflow")?;
                s.set(b"s", &t.to_le_bytes());
            }
            Burn { amount } => {
                let b = rd(s, &bk(me)).checked_sub(amount.u128()).ok_or("insufficient cw20")?;
                s.set(&bk(me), &b.to_le_bytes());
                let t = rd(s, b"s").checked_sub(amount.u128()).ok_or("supply")?;
                s.set(b"s", &t.to_le_bytes());
            }
            _ => return Err("cw20: unsupported".to_string()),
        }
        Ok(Response::new())
    }
    fn query(&self, d: Deps, _e: Env, m: &[u8]) -> StdResult<Binary> {
        let m: cw20::Cw20QueryMsg = from_json(m)?;
        match m {
            cw20::Cw20QueryMsg::Balance { address } => {
                to_json_binary(&cw20::BalanceResponse { balance: Uint128::new(rd(d.storage, &bk(&address))) })
            }
            cw20::Cw20QueryMsg::TokenInfo {} => to_json_binary(&cw20::TokenInfoResponse {
                name: "token".to_string(),
                symbol: "TKN".to_string(),
                decimals: d.storage.get(b"d").map_or(6, |x| x[0]),
                total_supply: Uint128::new(rd(d.storage, b"s")),
            }),
            cw20::Cw20QueryMsg::Minter {} => to_json_binary(&Some(cw20::MinterResponse {
                minter: String::from_utf8_lossy(&d.storage.get(b"m").unwrap_or_default()).into_owned(),
                cap: None,
            })),
            _ => Err(StdError::generic_err("cw20: unsupported")),
        }
    }
}
impl Chain {
    pub fn cw20_new(&mut self, addr: &str, minter: &str, decimals: u8) {
        self.put(addr, Rc::new(Cw20));
        let s = self.storage(addr);
        s.set(b"m", minter.as_bytes());
        s.set(b"d", &[decimals]);
    }
    pub fn cw20_fund(&mut self, tok: &str, a: &str, v: u128) {
        let s = self.storage(tok);
        let b = rd(s, &bk(a));
        s.set(&bk(a), &(b + v).to_le_bytes());
        let t = rd(s, b"s");
        s.set(b"s", &(t.checked_add(v).expect("supply")).to_le_bytes());
    }
    pub fn cw20_balance(&self, tok: &str, a: &str) -> u128 {
        rd(self.storage(tok), &bk(a))
    }
    pub fn cw20_supply(&self, tok: &str) -> u128 {
        rd(self.storage(tok), b"s")
    }
}

// ------------------------------------------------------------------ factory stand-in
/// Answers the factory queries the other contracts make. Storage: raw `config` and `tracker_config` as in the
/// real factory, "fee" -> FeeInfoResponse, "pair:"+.. handled by `pairs`.
pub struct FactoryStub;
impl Contract for FactoryStub {
    fn execute(&self, _d: DepsMut, _e: Env, _i: MessageInfo, _m: &[u8]) -> Res {
        Err("factory stub".to_string())
    }
    fn query(&self, d: Deps, _e: Env, m: &[u8]) -> StdResult<Binary> {
        use astroport::factory::QueryMsg as Q;
        match from_json(m)? {
            Q::FeeInfo { .. } => Ok(Binary::from(d.storage.get(b"fee").unwrap())),
            Q::Config {} => Ok(Binary::from(d.storage.get(b"config_resp").unwrap())),
            Q::BlacklistedPairTypes {} => Ok(Binary::from(d.storage.get(b"blacklist").unwrap_or(b"[]".to_vec()))),
            Q::Pair { asset_infos } => {
                let mut key = b"pair".to_vec();
                let mut v: Vec<String> = asset_infos.iter().map(|i| i.to_string()).collect();
                v.sort();
                for i in v {
                    key.push(b':');
                    key.extend_from_slice(i.as_bytes());
                }
                d.storage.get(&key).map(Binary::from).ok_or_else(|| StdError::generic_err("no pair"))
            }
            _ => Err(StdError::generic_err("factory stub: unsupported")),
        }
    }
}
pub struct RegistryStub;
impl Contract for RegistryStub {
    fn execute(&self, _d: DepsMut, _e: Env, _i: MessageInfo, _m: &[u8]) -> Res {
        Err("registry stub".to_string())
    }
}
pub const MODULE: &str = "tokenfactory_module";
pub const FACTORY: &str = "factory_addr";
pub const OWNER: &str = "owner_addr";
pub const MAKER: &str = "maker_addr";
pub const GENERATOR: &str = "generator_addr";
pub const COIN_REGISTRY: &str = "coin_registry";
impl Chain {
    pub fn factory_stub(&mut self, maker: bool, generator: bool) {
        use astroport::factory::{Config, TrackerConfig};
        self.put(FACTORY, Rc::new(FactoryStub));
        let c = Config {
            owner: Addr::unchecked(OWNER),
            token_code_id: 1,
            generator_address: if generator { Some(Addr::unchecked(GENERATOR)) } else { None },
            fee_address: if maker { Some(Addr::unchecked(MAKER)) } else { None },
            whitelist_code_id: 2,
            coin_registry_address: Addr::unchecked(COIN_REGISTRY),
        };
        let t = TrackerConfig { code_id: 77, token_factory_addr: MODULE.to_string() };
        let r = astroport::factory::ConfigResponse {
            owner: c.owner.clone(),
            pair_configs: vec![],
            token_code_id: c.token_code_id,
            fee_address: c.fee_address.clone(),
            generator_address: c.generator_address.clone(),
            whitelist_code_id: c.whitelist_code_id,
            coin_registry_address: c.coin_registry_address.clone(),
        };
        let r = to_json_vec(&r).unwrap();
        let (c, t) = (to_json_vec(&c).unwrap(), to_json_vec(&t).unwrap());
        let s = self.storage(FACTORY);
        s.set(b"config_resp", &r);
        s.set(b"config", &c);
        s.set(b"tracker_config", &t);
    }
    /// make the factory stand-in know a pair
    pub fn factory_pair(&mut self, p: &PairInfo) {
        let mut key = b"pair".to_vec();
        let mut v: Vec<String> = p.asset_infos.iter().map(|i| i.to_string()).collect();
        v.sort();
        for i in v {
            key.push(b':');
            key.extend_from_slice(i.as_bytes());
        }
        let r = to_json_vec(p).unwrap();
        self.storage(FACTORY).set(&key, &r);
    }
    /// record a native coin's decimals in the coin registry stand-in
    pub fn decimals(&mut self, denom: &str, dec: u8) {
        if self.slot(COIN_REGISTRY).is_none() {
            self.put(COIN_REGISTRY, Rc::new(RegistryStub));
        }
        astroport::native_coin_registry::COINS_INFO.save(self.storage(COIN_REGISTRY), denom.to_string(), &dec).unwrap();
    }
    pub fn factory_fee(&mut self, maker: bool, total_fee_bps: u16, maker_fee_bps: u16) {
        let r = astroport::factory::FeeInfoResponse {
            fee_address: if maker { Some(Addr::unchecked(MAKER)) } else { None },
            total_fee_bps,
            maker_fee_bps,
        };
        let r = to_json_vec(&r).unwrap();
        self.storage(FACTORY).set(b"fee", &r);
    }
}

// ------------------------------------------------------------------ assets, native or cw20
use astroport::asset::{Asset, AssetInfo, PairInfo};
pub fn native(d: &str) -> AssetInfo {
    AssetInfo::NativeToken { denom: d.to_string() }
}
pub fn token(d: &str) -> AssetInfo {
    AssetInfo::Token { contract_addr: Addr::unchecked(d) }
}
pub fn asset(i: &AssetInfo, v: u128) -> Asset {
    Asset { info: i.clone(), amount: Uint128::new(v) }
}
impl Chain {
    pub fn hold(&self, i: &AssetInfo, who: &str) -> u128 {
        match i {
            AssetInfo::NativeToken { denom } => self.balance(who, denom),
            AssetInfo::Token { contract_addr } => self.cw20_balance(contract_addr.as_str(), who),
        }
    }
    pub fn give(&mut self, i: &AssetInfo, who: &str, v: u128) {
        match i {
            AssetInfo::NativeToken { denom } => self.fund(who, denom, v),
            AssetInfo::Token { contract_addr } => self.cw20_fund(contract_addr.as_str(), who, v),
        }
    }
}
pub fn funds_of(assets: &[&Asset]) -> Vec<Coin> {
    let mut v = vec![];
    for a in assets {
        if let AssetInfo::NativeToken { denom } = &a.info {
            v.push(cn(a.amount.u128(), denom));
        }
    }
    v
}

// ------------------------------------------------------------------ pair stand-in
/// A pool of two assets that exchanges at a fixed rate: out = offer * rate / 1e6 (rate per direction).
/// Storage: "i0", "i1" asset infos, "r0", "r1" rate when the offer is asset 0 / 1, "in" last offered amount,
/// "spread"/"belief" last limits passed.
pub struct PairStub;
pub const RATE_ONE: u128 = 1_000_000;
impl PairStub {
    fn infos(s: &dyn Storage) -> [AssetInfo; 2] {
        [from_json(s.get(b"i0").unwrap()).unwrap(), from_json(s.get(b"i1").unwrap()).unwrap()]
    }
    fn quote(s: &dyn Storage, offer: &Asset) -> Result<Asset, String> {
        let i = Self::infos(s);
        let d = if i[0] == offer.info {
            0
        } else if i[1] == offer.info {
            1
        } else {
            return Err("wrong asset".to_string());
        };
        let v = offer.amount.u128().checked_mul(rd(s, [b"r0", b"r1"][d])).ok_or("overflow")? / RATE_ONE;
        Ok(asset(&i[1 - d], v))
    }
    fn swap(s: &mut dyn Storage, sender: &str, offer: Asset, belief: Option<Decimal>, spread: Option<Decimal>, to: Option<String>) -> Res {
        let out = Self::quote(s, &offer)?;
        s.set(b"in", &offer.amount.u128().to_le_bytes());
        s.set(b"spread", &to_json_vec(&spread).unwrap());
        s.set(b"belief", &to_json_vec(&belief).unwrap());
        let n = rd(s, b"swaps");
        s.set(b"swaps", &(n + 1).to_le_bytes());
        let to = to.unwrap_or_else(|| sender.to_string());
        Ok(Response::new().add_message(out.into_msg(to).map_err(err)?))
    }
}
impl Contract for PairStub {
    fn execute(&self, d: DepsMut, _e: Env, i: MessageInfo, m: &[u8]) -> Res {
        use astroport::pair::{Cw20HookMsg, ExecuteMsg};
        #[derive(serde::Deserialize)]
        #[serde(rename_all = "snake_case")]
        enum M {
            Receive(cw20::Cw20ReceiveMsg),
            Swap {
                offer_asset: Asset,
                #[allow(dead_code)]
                ask_asset_info: Option<AssetInfo>,
                belief_price: Option<Decimal>,
                max_spread: Option<Decimal>,
                to: Option<String>,
            },
        }
        let _: Option<ExecuteMsg> = None;
        match from_json(m).map_err(err)? {
            M::Receive(r) => {
                let Cw20HookMsg::Swap { belief_price, max_spread, to, .. } = from_json(&r.msg).map_err(err)?;
                let offer = Asset { info: AssetInfo::Token { contract_addr: i.sender }, amount: r.amount };
                Self::swap(d.storage, &r.sender, offer, belief_price, max_spread, to)
            }
            M::Swap { offer_asset, belief_price, max_spread, to, .. } => {
                offer_asset.assert_sent_native_token_balance(&i).map_err(err)?;
                Self::swap(d.storage, i.sender.as_str(), offer_asset, belief_price, max_spread, to)
            }
        }
    }
    fn query(&self, d: Deps, e: Env, m: &[u8]) -> StdResult<Binary> {
        use astroport::pair::*;
        match from_json(m)? {
            QueryMsg::Simulation { offer_asset, .. } => {
                let q = Self::quote(d.storage, &offer_asset).map_err(StdError::generic_err)?;
                to_json_binary(&SimulationResponse { return_amount: q.amount, spread_amount: Uint128::zero(), commission_amount: Uint128::zero() })
            }
            QueryMsg::ReverseSimulation { ask_asset, .. } => {
                let i = Self::infos(d.storage);
                let o = if i[0] == ask_asset.info { 1 } else { 0 };
                let v = ask_asset.amount.u128() * RATE_ONE / rd(d.storage, [b"r0", b"r1"][o]);
                to_json_binary(&ReverseSimulationResponse {
                    offer_amount: Uint128::new(v),
                    spread_amount: Uint128::zero(),
                    commission_amount: Uint128::zero(),
                })
            }
            QueryMsg::Pair {} => to_json_binary(&PairInfo {
                asset_infos: Self::infos(d.storage).to_vec(),
                contract_addr: e.contract.address.clone(),
                liquidity_token: format!("factory/{}/astroport/share", e.contract.address),
                pair_type: match d.storage.get(b"ptype") {
                    Some(t) => from_json(&t)?,
                    None => astroport::factory::PairType::Xyk {},
                },
            }),
            _ => Err(StdError::generic_err("pair stub")),
        }
    }
}
impl Chain {
    /// a pair stand-in known to the factory stand-in
    pub fn pair_stub(&mut self, addr: &str, a: &AssetInfo, b: &AssetInfo, rate0: u128, rate1: u128) {
        self.put(addr, Rc::new(PairStub));
        let (ja, jb) = (to_json_vec(a).unwrap(), to_json_vec(b).unwrap());
        let s = self.storage(addr);
        s.set(b"i0", &ja);
        s.set(b"i1", &jb);
        s.set(b"r0", &rate0.to_le_bytes());
        s.set(b"r1", &rate1.to_le_bytes());
        let p: PairInfo = self.query(addr, &astroport::pair::QueryMsg::Pair {}).expect("pair stub");
        if self.slot(FACTORY).is_some() {
            self.factory_pair(&p);
        }
    }
    pub fn stub_u128(&self, addr: &str, key: &[u8]) -> u128 {
        rd(self.storage(addr), key)
    }
}

// ------------------------------------------------------------------ two-step ownership
#[derive(Serialize)]
#[serde(rename_all = "snake_case")]
enum Own {
    ProposeNewOwner { owner: String, expires_in: u64 },
    DropOwnershipProposal {},
    ClaimOwnership {},
}
/// The hand-over of a contract's ownership: `owner()` tells the recorded owner, `acts(who)` tries something only the
/// owner may do and tells whether it worked.
pub fn ownership(c: &mut Chain, addr: &str, owner: impl Fn(&Chain) -> String, mut acts: impl FnMut(&mut Chain, &str) -> bool) {
    use sx::*;
    let who = [OWNER, "next_addr", "third_addr", "stranger_addr"];
    let prop = |s: &str, x: u64| Own::ProposeNewOwner { owner: s.to_string(), expires_in: x };
    // a proposal by anybody
    let (s, p, x) = (choice("proposer", 2) as usize * 3, choice("proposed", 2) as usize, in_u64("expires_in", 0, 2_000_000));
    let ok = c.execute(who[s], addr, &prop(who[p], x), &[]).is_ok();
    check(ok == (s == 0 && p != 0 && x <= 1_209_600), "only the owner proposes somebody else, for two weeks at most");
    check(owner(c) == OWNER, "a proposal does not change the owner");
    let mut pending = if ok { Some((p, c.time + x)) } else { None };
    // more before it is claimed
    match choice("meanwhile", 4) {
        1 => {
            c.time += in_u64("wait", 0, 3_000_000);
            let y = in_u64("expires_in2", 0, 2_000_000);
            if c.execute(OWNER, addr, &prop(who[2], y), &[]).is_ok() {
                pending = Some((2, c.time + y));
            }
        }
        2 => {
            let ok = c.execute(OWNER, addr, &Own::DropOwnershipProposal {}, &[]).is_ok();
            check(ok, "the owner drops a proposal");
            pending = None;
        }
        3 => {
            let w = choice("dropper", 2) as usize * 2 + 1;
            let ok = c.execute(who[w], addr, &Own::DropOwnershipProposal {}, &[]).is_ok();
            check(!ok, "only the owner drops a proposal");
        }
        _ => {}
    }
    c.time += in_u64("wait2", 0, 3_000_000);
    let w = choice("claimer", 4) as usize;
    let ok = c.execute(who[w], addr, &Own::ClaimOwnership {}, &[]).is_ok();
    let good = match pending {
        Some((p, t)) => p == w && c.time <= t,
        None => false,
    };
    check(ok == good, "only the proposed owner claims, in time");
    let now = if good { who[w] } else { OWNER };
    check(owner(c) == now, "the owner changes exactly when claimed");
    let a = choice("actor", 4) as usize;
    check(acts(c, who[a]) == (who[a] == now), "the owner's powers follow the ownership");
    let ok = c.execute(who[w], addr, &Own::ClaimOwnership {}, &[]).is_ok();
    check(!ok || !good, "a proposal is claimed once");
    cover(if good { "claimed" } else { "not claimed" });
}
