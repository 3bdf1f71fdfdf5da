//! The history of traded prices that stable and concentrated pools keep (astroport::observation).
use crate::*;
use astroport::observation::{Observation, OracleObservation, PrecommitObservation};
use cosmwasm_std::{Decimal, Storage};
use sx::*;

const STATE: &[u8] = b"observations_state";
fn key(i: u32) -> Vec<u8> {
    let n = b"observations_buffer";
    let mut k = vec![0, n.len() as u8];
    k.extend_from_slice(n);
    k.extend_from_slice(&i.to_be_bytes());
    k
}
/// shrink the buffer, so that it wraps around within the bound
fn shrink(c: &Chain, addr: &str, cap: u32, head: u32) {
    let st = c.storage(addr);
    assert!(st.get(STATE).is_some(), "the observation buffer's key");
    st.set(STATE, format!("{{\"capacity\":{cap},\"head\":{head}}}").as_bytes());
}
/// one second of trading
struct Block {
    ts: u64,
    base: Int,
    quote: u128,
}
const E18: u128 = 1_000_000_000_000_000_000;

/// trades at arbitrary seconds and prices, through the pool's own `commit` and `PrecommitObservation::save`;
/// `ask` is the pool's Observe query
pub fn trades(c: &mut Chain, addr: &str, n: u64, cap: u32, commit: impl Fn(&mut dyn Storage, &cosmwasm_std::Env) -> bool, ask: impl Fn(&Chain, u64) -> Option<OracleObservation>) {
    shrink(c, addr, cap, 0);
    let mut blocks: Vec<Block> = vec![];
    for t in 0..n {
        if t > 0 && !in_bool(&format!("same{t}")) {
            c.time += in_u64(&format!("gap{t}"), 1, 1_000_000);
        }
        let (b, q) = (in_u128(&format!("base{t}"), 1, E18), [1_000_000u128, 3_000_000][(t % 2) as usize]);
        let env = c.env(addr);
        let ok = commit(c.storage(addr), &env);
        check(ok, "recording trades never fails");
        PrecommitObservation::save(c.storage(addr), &env, b.into(), q.into()).expect("save");
        match blocks.last_mut() {
            Some(l) if l.ts == c.time => {
                l.base = l.base + b;
                l.quote += q;
            }
            _ => blocks.push(Block { ts: c.time, base: b.int(), quote: q }),
        }
    }
    // some time later, the last trades are recorded too
    c.time += in_u64("rest", 1, 1_000_000);
    let env = c.env(addr);
    check(commit(c.storage(addr), &env), "recording trades never fails");
    cover("recorded");
    let m = blocks.len();
    let price: Vec<Int> = blocks.iter().map(|b| b.base * k(E18) / b.quote).collect();
    // what is stored: one observation per second of trading, with that second's mean price and the moving average
    for i in 0..m {
        if i + (cap as usize) < m {
            continue;
        }
        let raw = c.storage(addr).get(&key(i as u32 % cap));
        let o: Observation = match raw.and_then(|r| cosmwasm_std::from_json(r).ok()) {
            Some(o) => o,
            None => {
                check(false, "every second of trading is recorded");
                return;
            }
        };
        check(o.ts == blocks[i].ts, "an observation has the time of its trades");
        o.price.atomics().int().eq(price[i]).check("an observation has the mean price of all trades of its second");
        let w = (i + 1).min(cap as usize);
        let mut sum = k(0);
        for p in &price[i + 1 - w..=i] {
            sum = sum + *p;
        }
        let sma = o.price_sma.atomics().int() * k(w as u128);
        let eps = k(((i + 1) * cap as usize) as u128);
        (sma.le(sum + eps) & (sma + eps).ge(sum)).check("the moving average is the mean of the recorded prices");
    }
    let raw = c.storage(addr).get(&key(m as u32 % cap));
    check(m >= cap as usize || raw.is_none(), "nothing else is recorded");
    // now
    let last: Observation = cosmwasm_std::from_json(c.storage(addr).get(&key((m as u32 - 1) % cap)).unwrap()).unwrap();
    match ask(c, 0) {
        Some(a) => check(a.timestamp == c.time && a.price == last.price_sma, "the current observation is the latest average"),
        None => check(false, "the current observation is known"),
    }
}
/// the Observe query on any content of the buffer
pub fn lookup(c: &mut Chain, addr: &str, ask: impl Fn(&Chain, u64) -> Option<OracleObservation>) {
    let cap = [1u32, 2, 4, 5][choice("capacity", 4) as usize];
    // full, with the oldest at any place, or partly filled from the start
    let n = 1 + choice("filled", cap as u64) as u32;
    let head = if n == cap { choice("head", cap as u64) as u32 } else { n };
    shrink(c, addr, cap, head);
    let start = c.time;
    let gaps = [7u64, 1, 1000, 60];
    let mut all: Vec<(u64, u128)> = vec![];
    for i in 0..n {
        let at = if n == cap { (head + i) % cap } else { i };
        if i > 0 {
            c.time += gaps[(i as usize - 1) % 4];
        }
        let p = in_u128(&format!("price{i}"), 0, E18 * 1_000_000);
        let o = Observation { ts: c.time, price: Decimal::one(), price_sma: Decimal::new(p.into()) };
        c.storage(addr).set(&key(at), &cosmwasm_std::to_json_vec(&o).unwrap());
        all.push((c.time, p));
    }
    c.time += in_u64("rest", 0, 1_000_000);
    let ago = in_u64("ago", 0, 3_000_000);
    let t = c.time - ago;
    let r = ask(c, ago);
    if t < start {
        check(r.is_none(), "nothing is known before the oldest observation");
        return;
    }
    let r = match r {
        Some(r) => r,
        None => {
            check(false, "every time since the oldest observation is known");
            return;
        }
    };
    cover("answered");
    check(r.timestamp == t, "the answer is for the time asked");
    let v = r.price.atomics().int();
    let (lt, lp) = all[n as usize - 1];
    if t >= lt {
        v.eq(lp).check("after the latest observation its average holds");
        return;
    }
    for w in all.windows(2) {
        let ((a, p), (b, q)) = (w[0], w[1]);
        if a <= t && t < b {
            let (lo, hi) = (p.int().min(q), p.int().max(q));
            (v.ge(lo) & v.le(hi)).check("between two observations the answer lies between them");
            // (v - p) * (b - a) = (q - p) * (t - a), up to the rounding of the slope
            let (l, r) = (v * (b - a) + p.int() * (t - a), p.int() * (b - a) + q.int() * (t - a));
            // a unit of the slope in each second
            let eps = (((hi - lo) / k(E18) + k(2)) * (t - a) + k(2)) * (b - a);
            (l.le(r + eps) & (l + eps).ge(r)).check("between two observations the answer is on the line");
        }
    }
}
