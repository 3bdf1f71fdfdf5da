//! Mathematical-integer / boolean expression DAG with interval facts (one table per path).
use bnum::BInt;
use std::collections::{HashMap, HashSet};
use std::fmt::Write;

pub type Id = u32;
pub type Big = BInt<16>;

pub fn big(v: u128) -> Big {
    Big::from(v)
}
pub fn bigi(v: i128) -> Big {
    Big::from(v)
}
pub fn pow2(n: u32) -> Big {
    Big::from(1u8) << n
}
pub fn zero() -> Big {
    Big::from(0u8)
}
pub fn one() -> Big {
    Big::from(1u8)
}
pub fn gcd(a: Big, b: Big) -> Big {
    let (mut a, mut b) = (a.abs(), b.abs());
    while !b.is_zero() {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}
pub fn fdiv(a: Big, b: Big) -> Big {
    // floor division, b > 0
    let q = a / b;
    let r = a % b;
    if r.is_negative() != b.is_negative() && !r.is_zero() {
        q - one()
    } else {
        q
    }
}
pub fn fmod(a: Big, b: Big) -> Big {
    a - fdiv(a, b) * b
}
pub fn cdiv(a: Big, b: Big) -> Big {
    -fdiv(-a, b)
}
pub fn isqrt(a: Big) -> Big {
    if a <= zero() {
        return zero();
    }
    let mut x = Big::from(1u8) << ((a.bits() + 1) / 2 + 1).min(1000);
    loop {
        let y = (x + a / x) >> 1;
        if y >= x {
            return x;
        }
        x = y;
    }
}
pub fn to_u128(b: &Big) -> Option<u128> {
    u128::try_from(*b).ok()
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    None,
    Const(Big),
    Var(u32),
    Aff(Big, Big, Id), // k + m*t
    Prim(Vec<(Big, Id)>),
    Mul(Vec<Id>),
    Div(Id, Id),
    Mod(Id, Id),
    Isqrt(Id),
    Ite(Id, Id, Id),
    Bsw(Id, u32),
    Bits(Id, u32, u32), // bits [o, o+n) of a non-negative integer
    True,
    False,
    Ge(Id, Big),
    Le(Id, Big),
    Eq(Id, Big),
    Ne(Id, Big),
    And(Vec<Id>),
    Or(Vec<Id>),
}

#[derive(Clone, Copy, Debug)]
pub struct Iv {
    pub lo: Option<Big>,
    pub hi: Option<Big>,
}
impl Iv {
    pub fn full() -> Iv {
        Iv { lo: None, hi: None }
    }
    pub fn new(lo: Big, hi: Big) -> Iv {
        Iv { lo: Some(lo), hi: Some(hi) }
    }
    fn meet(self, o: Iv) -> Iv {
        Iv {
            lo: match (self.lo, o.lo) {
                (Some(a), Some(b)) => Some(if a > b { a } else { b }),
                (a, None) => a,
                (None, b) => b,
            },
            hi: match (self.hi, o.hi) {
                (Some(a), Some(b)) => Some(if a < b { a } else { b }),
                (a, None) => a,
                (None, b) => b,
            },
        }
    }
    fn join(self, o: Iv) -> Iv {
        Iv {
            lo: match (self.lo, o.lo) {
                (Some(a), Some(b)) => Some(if a < b { a } else { b }),
                _ => None,
            },
            hi: match (self.hi, o.hi) {
                (Some(a), Some(b)) => Some(if a > b { a } else { b }),
                _ => None,
            },
        }
    }
    pub fn empty(&self) -> bool {
        matches!((self.lo, self.hi), (Some(a), Some(b)) if a > b)
    }
    pub fn nonneg(&self) -> bool {
        matches!(self.lo, Some(a) if !a.is_negative())
    }
    pub fn pos(&self) -> bool {
        matches!(self.lo, Some(a) if a.is_positive())
    }
    fn scale(self, m: Big) -> Iv {
        let f = |x: Option<Big>| x.and_then(|v| v.checked_mul(m));
        if m.is_negative() {
            Iv { lo: f(self.hi), hi: f(self.lo) }
        } else {
            Iv { lo: f(self.lo), hi: f(self.hi) }
        }
    }
    fn add(self, o: Iv) -> Iv {
        let f = |a: Option<Big>, b: Option<Big>| match (a, b) {
            (Some(a), Some(b)) => a.checked_add(b),
            _ => None,
        };
        Iv { lo: f(self.lo, o.lo), hi: f(self.hi, o.hi) }
    }
    fn mul(self, o: Iv) -> Iv {
        if self.nonneg() && o.nonneg() {
            let hi = match (self.hi, o.hi) {
                (Some(a), Some(b)) => a.checked_mul(b),
                _ => None,
            };
            return Iv { lo: self.lo.unwrap().checked_mul(o.lo.unwrap()), hi };
        }
        if let (Some(a), Some(b), Some(c), Some(d)) = (self.lo, self.hi, o.lo, o.hi) {
            let mut lo: Option<Big> = None;
            let mut hi: Option<Big> = None;
            for (x, y) in [(a, c), (a, d), (b, c), (b, d)] {
                match x.checked_mul(y) {
                    None => return Iv::full(),
                    Some(p) => {
                        lo = Some(lo.map_or(p, |l| if p < l { p } else { l }));
                        hi = Some(hi.map_or(p, |l| if p > l { p } else { l }));
                    }
                }
            }
            return Iv { lo, hi };
        }
        Iv::full()
    }
    fn div(self, o: Iv) -> Iv {
        // floor division; o assumed positive
        if let Some(ol) = o.lo {
            if ol.is_positive() {
                let lo = match self.lo {
                    Some(l) if l.is_negative() => Some(fdiv(l, ol)),
                    Some(l) => match o.hi {
                        Some(h) => Some(fdiv(l, h)),
                        None => Some(zero()),
                    },
                    None => None,
                };
                let hi = match self.hi {
                    Some(h) if h.is_negative() => match o.hi {
                        Some(oh) => Some(fdiv(h, oh)),
                        None => Some(-one()),
                    },
                    Some(h) => Some(fdiv(h, ol)),
                    None => None,
                };
                return Iv { lo, hi };
            }
        }
        Iv::full()
    }
}

#[derive(Clone)]
pub struct VarInfo {
    pub name: String,
    pub lo: Big,
    pub hi: Big,
}

pub struct Ctx {
    pub nodes: Vec<N>,
    ivs: Vec<(u32, Iv)>,
    map: HashMap<N, Id>,
    pub vars: Vec<VarInfo>,
    pub facts: HashSet<Id>,
    pub pc: Vec<Id>,
    ver: u32,
    pub contradiction: bool,
}

pub const TRUE: Id = 1;
pub const FALSE: Id = 2;

pub type Model = HashMap<String, Big>;

type Poly = std::collections::BTreeMap<Vec<Id>, Big>;
fn padd(p: &mut Poly, m: Vec<Id>, c: Big) {
    if c.is_zero() {
        return;
    }
    let e = p.entry(m.clone()).or_insert(zero());
    *e = *e + c;
    if e.is_zero() {
        p.remove(&m);
    }
}
fn pmul(a: &Poly, b: &Poly) -> Option<Poly> {
    if a.len() * b.len() > 400 {
        return None;
    }
    let mut r = Poly::new();
    for (m, c) in a {
        for (n, d) in b {
            let mut v = m.clone();
            v.extend(n.iter().copied());
            v.sort();
            let x = c.checked_mul(*d)?;
            if x.bits() > 1200 {
                return None;
            }
            padd(&mut r, v, x);
        }
    }
    Some(r)
}

impl Ctx {
    pub fn new() -> Ctx {
        let mut c = Ctx {
            nodes: vec![],
            ivs: vec![],
            map: HashMap::new(),
            vars: vec![],
            facts: HashSet::new(),
            pc: vec![],
            ver: 1,
            contradiction: false,
        };
        c.intern(N::None);
        c.intern(N::True);
        c.intern(N::False);
        c
    }
    fn intern(&mut self, n: N) -> Id {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let id = self.nodes.len() as Id;
        self.nodes.push(n.clone());
        self.ivs.push((0, Iv::full()));
        self.map.insert(n, id);
        id
    }
    pub fn n(&self, id: Id) -> &N {
        &self.nodes[id as usize]
    }
    pub fn is_bool(&self, id: Id) -> bool {
        matches!(
            self.n(id),
            N::True | N::False | N::Ge(..) | N::Le(..) | N::Eq(..) | N::Ne(..) | N::And(_) | N::Or(_)
        )
    }
    pub fn constant(&mut self, b: Big) -> Id {
        self.intern(N::Const(b))
    }
    pub fn cu(&mut self, v: u128) -> Id {
        self.constant(big(v))
    }
    pub fn as_const(&self, id: Id) -> Option<Big> {
        match self.n(id) {
            N::Const(b) => Some(*b),
            _ => None,
        }
    }
    pub fn var(&mut self, name: String, lo: Big, hi: Big) -> Id {
        let i = self.vars.len() as u32;
        self.vars.push(VarInfo { name, lo, hi });
        if lo == hi {
            return self.constant(lo);
        }
        self.intern(N::Var(i))
    }
    pub fn iv(&mut self, id: Id) -> Iv {
        let (v, cur) = self.ivs[id as usize];
        if v == self.ver {
            return cur;
        }
        let n = self.nodes[id as usize].clone();
        let calc = match n {
            N::Const(b) => Iv::new(b, b),
            N::Var(i) => {
                let v = &self.vars[i as usize];
                Iv::new(v.lo, v.hi)
            }
            N::Aff(k, m, t) => self.iv(t).scale(m).add(Iv::new(k, k)),
            N::Prim(ts) => {
                let mut a = Iv::new(zero(), zero());
                for (c, t) in ts {
                    let x = self.iv(t).scale(c);
                    a = a.add(x);
                }
                a
            }
            N::Mul(fs) => {
                let mut a = Iv::new(one(), one());
                let sq = fs.len() == 2 && fs[0] == fs[1];
                for f in fs {
                    let x = self.iv(f);
                    a = a.mul(x);
                }
                if sq {
                    a = a.meet(Iv { lo: Some(zero()), hi: None });
                }
                a
            }
            N::Div(a, b) => {
                let x = self.iv(a);
                let y = self.iv(b);
                let mut r = x.div(y);
                // k*f*rest / (f + ..) <= k*rest
                if y.pos() && x.nonneg() {
                    let (k, m, t) = self.aff(a);
                    if k.is_zero() && m.is_positive() {
                        let fs = match self.n(t) {
                            N::Mul(fs) => fs.clone(),
                            _ => vec![t],
                        };
                        for i in 0..fs.len() {
                            let d = self.sub(b, fs[i]);
                            if self.iv(d).nonneg() {
                                let mut h = Iv::new(m, m);
                                for (j, f) in fs.iter().enumerate() {
                                    if i != j {
                                        let z = self.iv(*f);
                                        h = h.mul(z);
                                    }
                                }
                                r = r.meet(Iv { lo: None, hi: h.hi });
                            }
                        }
                    }
                }
                r
            }
            N::Mod(a, b) => {
                let y = self.iv(b);
                let x = self.iv(a);
                let mut r = if y.pos() {
                    Iv { lo: Some(zero()), hi: y.hi.map(|h| h - one()) }
                } else {
                    Iv::full()
                };
                if x.nonneg() && y.pos() {
                    r = r.meet(Iv { lo: None, hi: x.hi });
                }
                r
            }
            N::Isqrt(a) => {
                let x = self.iv(a);
                Iv { lo: Some(x.lo.map_or(zero(), isqrt)), hi: x.hi.map(isqrt) }
            }
            N::Ite(c, a, b) => {
                let x = self.iv(a);
                let y = self.iv(b);
                match self.truth(c) {
                    Some(true) => x,
                    Some(false) => y,
                    None => x.join(y),
                }
            }
            N::Bsw(_, n) => Iv::new(zero(), pow2(8 * n) - one()),
            N::Bits(x, o, n) => {
                let i = self.iv(x);
                let p = pow2(o);
                let m = pow2(n) - one();
                match (i.lo, i.hi) {
                    (Some(l), Some(h)) if !l.is_negative() => {
                        let (l, h) = (fdiv(l, p), fdiv(h, p));
                        if h <= m {
                            Iv::new(l, h)
                        } else {
                            Iv::new(zero(), m)
                        }
                    }
                    _ => Iv::new(zero(), m),
                }
            }
            _ => Iv::full(),
        };
        let r = cur.meet(calc);
        self.ivs[id as usize] = (self.ver, r);
        r
    }
    fn refine(&mut self, id: Id, r: Iv, depth: u32) {
        let cur = self.iv(id);
        let nw = cur.meet(r);
        if nw.lo == cur.lo && nw.hi == cur.hi {
            return;
        }
        if nw.empty() {
            self.contradiction = true;
            return;
        }
        self.ver += 1;
        self.ivs[id as usize] = (self.ver, nw);
        if depth == 0 {
            return;
        }
        // one-level downward propagation
        match self.n(id).clone() {
            N::Aff(k, m, t) => {
                let x = nw.add(Iv::new(-k, -k));
                let f = |b: Option<Big>, up: bool| b.map(|v| if up { fdiv(v, m.abs()) } else { cdiv(v, m.abs()) });
                let x = if m.is_negative() { x.scale(-one()) } else { x };
                let y = Iv { lo: f(x.lo, false), hi: f(x.hi, true) };
                self.refine(t, y, depth - 1);
            }
            N::Prim(ts) => {
                if ts.len() > 24 {
                    return;
                }
                for i in 0..ts.len() {
                    let mut rest = Iv::new(zero(), zero());
                    for (j, (c, t)) in ts.iter().enumerate() {
                        if i != j {
                            let x = self.iv(*t).scale(*c);
                            rest = rest.add(x);
                        }
                    }
                    // c_i x_i = S - rest
                    let x = nw.add(rest.scale(-one()));
                    let c = ts[i].0;
                    let x = if c.is_negative() { x.scale(-one()) } else { x };
                    let c = c.abs();
                    let y = Iv { lo: x.lo.map(|v| cdiv(v, c)), hi: x.hi.map(|v| fdiv(v, c)) };
                    self.refine(ts[i].1, y, depth - 1);
                    if self.contradiction {
                        return;
                    }
                }
            }
            N::Mul(fs) => {
                // upper bounds on non-negative factors, lower bounds when positive
                for i in 0..fs.len() {
                    let mut rest = Iv::new(one(), one());
                    for (j, f) in fs.iter().enumerate() {
                        if i != j {
                            let x = self.iv(*f);
                            rest = rest.mul(x);
                        }
                    }
                    let me = self.iv(fs[i]);
                    if rest.pos() && me.nonneg() {
                        let hi = match (nw.hi, rest.lo) {
                            (Some(h), Some(l)) => Some(fdiv(h, l)),
                            _ => None,
                        };
                        let lo = match (nw.lo, rest.hi) {
                            (Some(l), Some(h)) => Some(cdiv(l, h)),
                            _ => None,
                        };
                        self.refine(fs[i], Iv { lo, hi }, depth - 1);
                    }
                    if self.contradiction {
                        return;
                    }
                }
            }
            N::Bits(x, 0, n) => {
                let i = self.iv(x);
                if i.nonneg() && matches!(i.hi, Some(h) if h < pow2(n)) {
                    self.refine(x, nw, depth - 1);
                }
            }
            N::Bits(x, o, n) => {
                let i = self.iv(x);
                if i.nonneg() && matches!(i.hi, Some(h) if h < pow2(o + n)) {
                    let lo = nw.lo.map(|l| l * pow2(o));
                    let hi = nw.hi.map(|h| h * pow2(o) + pow2(o) - one());
                    self.refine(x, Iv { lo, hi }, depth - 1);
                }
            }
            _ => {}
        }
    }

    // ---------- linear arithmetic ----------
    pub fn aff(&self, id: Id) -> (Big, Big, Id) {
        match self.n(id) {
            N::Const(b) => (*b, zero(), 0),
            N::Aff(k, m, t) => (*k, *m, *t),
            _ => (zero(), one(), id),
        }
    }
    fn mk_aff(&mut self, k: Big, m: Big, t: Id) -> Id {
        if m.is_zero() {
            return self.constant(k);
        }
        if k.is_zero() && m.is_one() {
            return t;
        }
        self.intern(N::Aff(k, m, t))
    }
    pub fn lin(&self, id: Id) -> (Big, Vec<(Big, Id)>) {
        let (k, m, t) = self.aff(id);
        if m.is_zero() {
            return (k, vec![]);
        }
        match self.n(t) {
            N::Prim(ts) => (k, ts.iter().map(|(c, x)| (*c * m, *x)).collect()),
            _ => (k, vec![(m, t)]),
        }
    }
    fn mk_lin(&mut self, k: Big, mut ts: Vec<(Big, Id)>) -> Id {
        ts.sort_by_key(|x| x.1);
        let mut out: Vec<(Big, Id)> = Vec::with_capacity(ts.len());
        for (c, t) in ts {
            if let Some(l) = out.last_mut() {
                if l.1 == t {
                    l.0 = l.0 + c;
                    continue;
                }
            }
            out.push((c, t));
        }
        out.retain(|x| !x.0.is_zero());
        if out.len() > 1 {
            if let Some(v) = self.rejoin(&out) {
                return self.mk_lin(k + v.0, v.1);
            }
        }
        if out.is_empty() {
            return self.constant(k);
        }
        if out.len() == 1 {
            return self.mk_aff(k, out[0].0, out[0].1);
        }
        let mut g = zero();
        for (c, _) in &out {
            g = gcd(g, *c);
        }
        if out[0].0.is_negative() {
            g = -g;
        }
        for x in out.iter_mut() {
            x.0 = x.0 / g;
        }
        let t = self.intern(N::Prim(out));
        self.mk_aff(k, g, t)
    }
    /// join neighbouring bit windows of the same value; quotient and remainder of the same division
    fn rejoin(&mut self, ts: &[(Big, Id)]) -> Option<(Big, Vec<(Big, Id)>)> {
        for i in 0..ts.len() {
            match *self.n(ts[i].1) {
                N::Bits(x, o, n) => {
                    let w = match ts[i].0.checked_mul(pow2(n)) {
                        Some(w) => w,
                        None => continue,
                    };
                    for j in 0..ts.len() {
                        if i != j && ts[j].0 == w {
                            if let N::Bits(y, p, m) = *self.n(ts[j].1) {
                                if y == x && p == o + n {
                                    let mut v: Vec<(Big, Id)> =
                                        ts.iter().enumerate().filter(|(q, _)| *q != i && *q != j).map(|(_, t)| *t).collect();
                                    let b = self.bits(x, o, n + m);
                                    let (k, l) = self.lin(b);
                                    v.extend(l.into_iter().map(|(c, t)| (c * ts[i].0, t)));
                                    return Some((k * ts[i].0, v));
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
            let (x, dc) = match *self.n(ts[i].1) {
                N::Bits(x, 0, n) => (x, pow2(n)),
                N::Mod(x, d) => match self.as_const(d) {
                    Some(c) => (x, c),
                    None => continue,
                },
                _ => continue,
            };
            let w = match ts[i].0.checked_mul(dc) {
                Some(w) => w,
                None => continue,
            };
            for j in 0..ts.len() {
                if i != j && ts[j].0 == w {
                    // quotient of x, or of x and a multiple of the divisor
                    let q = match *self.n(ts[j].1) {
                        N::Div(y, e) if self.as_const(e) == Some(dc) => {
                            if y == x {
                                Some(zero())
                            } else {
                                let df = self.sub(y, x);
                                match self.as_const(df) {
                                    Some(c) if (c % dc).is_zero() => Some(c / dc),
                                    _ => None,
                                }
                            }
                        }
                        _ => None,
                    };
                    if let Some(q) = q {
                        let mut v: Vec<(Big, Id)> = ts.iter().enumerate().filter(|(q, _)| *q != i && *q != j).map(|(_, t)| *t).collect();
                        let (k, l) = self.lin(x);
                        v.extend(l.into_iter().map(|(c, t)| (c * ts[i].0, t)));
                        return Some((k * ts[i].0 + q * w, v));
                    }
                }
            }
        }
        None
    }
    /// bits [o, o+n) of x (x >= 0)
    pub fn bits(&mut self, x: Id, o: u32, n: u32) -> Id {
        if n == 0 {
            return self.constant(zero());
        }
        let i = self.iv(x);
        if !i.nonneg() {
            let d = self.constant(pow2(o));
            let q = self.div(x, d);
            return self.mod_c(q, pow2(n));
        }
        if let Some(h) = i.hi {
            if h < pow2(o) {
                return self.constant(zero());
            }
            if h < pow2(o + n) && o == 0 {
                return x;
            }
            if fdiv(i.lo.unwrap(), pow2(o)) == fdiv(h, pow2(o)) {
                return self.constant(fmod(fdiv(h, pow2(o)), pow2(n)));
            }
        }
        match *self.n(x) {
            N::Bits(y, p, m) => {
                if o >= m {
                    return self.constant(zero());
                }
                return self.bits(y, p + o, n.min(m - o));
            }
            N::Aff(..) | N::Prim(..) => {
                // a concatenation splits cleanly when every coefficient is a power of two
                let (k, ts) = self.lin(x);
                let p2 = |b: Big| b.is_positive() && (b & (b - one())).is_zero();
                if ts.iter().all(|(c, _)| p2(*c)) && (ts.len() > 1 || ts[0].0 > one() || !k.is_zero()) {
                    let lo = {
                        let d = self.constant(pow2(o));
                        let q = self.div(x, d);
                        self.mod_c(q, pow2(n))
                    };
                    if !matches!(self.n(lo), N::Mod(..) | N::Div(..)) {
                        return lo;
                    }
                }
            }
            _ => {}
        }
        let n = match i.hi {
            Some(h) if h < pow2(o + n) => {
                let mut m = n;
                while m > 1 && h < pow2(o + m - 1) {
                    m -= 1;
                }
                m
            }
            _ => n,
        };
        self.intern(N::Bits(x, o, n))
    }
    pub fn add(&mut self, a: Id, b: Id) -> Id {
        let (k1, mut t1) = self.lin(a);
        let (k2, t2) = self.lin(b);
        t1.extend(t2);
        self.mk_lin(k1 + k2, t1)
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        let (k1, mut t1) = self.lin(a);
        let (k2, t2) = self.lin(b);
        t1.extend(t2.into_iter().map(|(c, t)| (-c, t)));
        self.mk_lin(k1 - k2, t1)
    }
    pub fn scale(&mut self, a: Id, m: Big) -> Id {
        let (k, t) = self.lin(a);
        let t = t.into_iter().map(|(c, t)| (c * m, t)).collect();
        self.mk_lin(k * m, t)
    }
    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        if let Some(c) = self.as_const(a) {
            return self.scale(b, c);
        }
        if let Some(c) = self.as_const(b) {
            return self.scale(a, c);
        }
        let mut coef = one();
        let mut fs: Vec<Id> = vec![];
        for x in [a, b] {
            let (k, m, t) = self.aff(x);
            if k.is_zero() {
                coef = coef * m;
                match self.n(t) {
                    N::Mul(g) => fs.extend(g.iter().copied()),
                    _ => fs.push(t),
                }
            } else {
                let g = gcd(k, m);
                coef = coef * g;
                let f = self.mk_aff(k / g, m / g, t);
                fs.push(f);
            }
        }
        fs.sort();
        let t = self.intern(N::Mul(fs));
        self.mk_aff(zero(), coef, t)
    }
    /// floor division; caller guarantees b > 0 on this path (or result irrelevant)
    pub fn div(&mut self, a: Id, b: Id) -> Id {
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            return self.constant(fdiv(x, y));
        }
        if let Some(c) = self.as_const(b) {
            return self.div_c(a, c);
        }
        if a == b {
            return self.constant(one());
        }
        let (ia, ib) = (self.iv(a), self.iv(b));
        if let (Some(ah), Some(bl)) = (ia.hi, ib.lo) {
            if ia.nonneg() && bl > ah {
                return self.constant(zero());
            }
        }
        // (m * Mul(.. b ..)) / b
        let (k, m, t) = self.aff(a);
        if k.is_zero() && !m.is_zero() {
            let (kb, mb, tb) = self.aff(b);
            if let N::Mul(fs) = self.n(t).clone() {
                if kb.is_zero() && (m % mb).is_zero() {
                    // b = mb * tb ; tb may itself be a Mul
                    let need: Vec<Id> = match self.n(tb) {
                        N::Mul(g) => g.clone(),
                        _ => vec![tb],
                    };
                    let mut rest = fs.clone();
                    let mut ok = true;
                    for x in &need {
                        if let Some(p) = rest.iter().position(|y| y == x) {
                            rest.remove(p);
                        } else {
                            ok = false;
                            break;
                        }
                    }
                    if ok {
                        let mut r = self.constant(m / mb);
                        for x in rest {
                            r = self.mul(r, x);
                        }
                        return r;
                    }
                } else if let Some(p) = fs.iter().position(|y| *y == b) {
                    let mut rest = fs.clone();
                    rest.remove(p);
                    let mut r = self.constant(m);
                    for x in rest {
                        r = self.mul(r, x);
                    }
                    return r;
                }
            } else if kb.is_zero() && tb == t && (m % mb).is_zero() {
                return self.constant(m / mb);
            }
        }
        // common constant factor
        let (kb, mb, tb) = self.aff(b);
        let ga = gcd(k, m);
        let gb = gcd(kb, mb);
        let g = gcd(ga, gb);
        if g > one() {
            let a2 = self.mk_aff(k / g, m / g, t);
            let b2 = self.mk_aff(kb / g, mb / g, tb);
            return self.div(a2, b2);
        }
        self.intern(N::Div(a, b))
    }
    fn learn(&mut self, id: Id, i: Iv) {
        if self.as_const(id).is_some() || self.is_bool(id) {
            return;
        }
        let cur = self.iv(id);
        let nw = cur.meet(i);
        if (nw.lo != cur.lo || nw.hi != cur.hi) && !nw.empty() {
            self.ver += 1;
            self.ivs[id as usize] = (self.ver, nw);
        }
    }
    fn div_c(&mut self, a: Id, c: Big) -> Id {
        let r = self.div_c_(a, c);
        let i = self.iv(a);
        let q = Iv { lo: i.lo.map(|x| fdiv(x, c)), hi: i.hi.map(|x| fdiv(x, c)) };
        self.learn(r, q);
        r
    }
    fn div_c_(&mut self, a: Id, c: Big) -> Id {
        assert!(c.is_positive());
        if c.is_one() {
            return a;
        }
        let i = self.iv(a);
        if let (Some(l), Some(h)) = (i.lo, i.hi) {
            let q = fdiv(l, c);
            if q == fdiv(h, c) {
                return self.constant(q);
            }
        }
        let (k, ts) = self.lin(a);
        let kq = fdiv(k, c);
        let kr = k - kq * c;
        let mut quo = vec![];
        let mut rem = vec![];
        for (co, t) in ts {
            if (co % c).is_zero() {
                quo.push((co / c, t));
            } else {
                rem.push((co, t));
            }
        }
        if rem.is_empty() {
            return self.mk_lin(kq, quo);
        }
        let split = !quo.is_empty() || !kq.is_zero();
        let q0 = self.mk_lin(kq, quo);
        // gcd reduction
        let mut g = c;
        for (co, _) in &rem {
            g = gcd(g, *co);
        }
        let (c2, kr2) = (c / g, fdiv(kr, g));
        let rem2: Vec<_> = rem.into_iter().map(|(co, t)| (co / g, t)).collect();
        let r = self.mk_lin(kr2, rem2);
        let rq = if split || g > one() {
            self.div_c(r, c2)
        } else {
            match self.n(r).clone() {
                N::Div(x, y) => {
                    if let Some(cy) = self.as_const(y) {
                        self.div_c(x, cy * c2)
                    } else {
                        let cc = self.constant(c2);
                        self.intern(N::Div(r, cc))
                    }
                }
                N::Bits(x, o, n) if (c2 & (c2 - one())).is_zero() => {
                    let mut k = 0;
                    while pow2(k) < c2 {
                        k += 1;
                    }
                    if k >= n {
                        self.constant(zero())
                    } else {
                        self.bits(x, o + k, n - k)
                    }
                }
                N::Mod(x, y) => {
                    let cy = self.as_const(y);
                    match cy {
                        Some(cy) if (cy % c2).is_zero() => {
                            let d = self.div_c(x, c2);
                            self.mod_c(d, cy / c2)
                        }
                        _ => {
                            let cc = self.constant(c2);
                            self.intern(N::Div(r, cc))
                        }
                    }
                }
                N::Ite(cnd, x, y) if self.as_const(x).is_some() && self.as_const(y).is_some() => {
                    let a = self.div_c(x, c2);
                    let b = self.div_c(y, c2);
                    self.ite(cnd, a, b)
                }
                _ => {
                    let cc = self.constant(c2);
                    self.intern(N::Div(r, cc))
                }
            }
        };
        if split {
            self.add(q0, rq)
        } else {
            rq
        }
    }
    pub fn modulo(&mut self, a: Id, b: Id) -> Id {
        if let Some(c) = self.as_const(b) {
            return self.mod_c(a, c);
        }
        let q = self.div(a, b);
        let p = self.mul(q, b);
        self.sub(a, p)
    }
    pub fn mod_c(&mut self, a: Id, c: Big) -> Id {
        assert!(c.is_positive());
        if c.is_one() {
            return self.constant(zero());
        }
        let i = self.iv(a);
        if let (Some(l), Some(h)) = (i.lo, i.hi) {
            let q = fdiv(l, c);
            if q == fdiv(h, c) {
                if q.is_zero() {
                    return a;
                }
                let d = self.constant(q * c);
                return self.sub(a, d);
            }
        }
        let (k, ts) = self.lin(a);
        let k2 = fmod(k, c);
        let n0 = ts.len();
        let ts2: Vec<_> = ts.into_iter().filter(|(co, _)| !(*co % c).is_zero()).collect();
        if ts2.len() != n0 || k2 != k {
            // keep small negative constants (x - 1) as they are: reduce only if something was dropped
            if ts2.len() != n0 {
                let r = self.mk_lin(k2, ts2);
                return self.mod_c(r, c);
            }
        }
        match self.n(a).clone() {
            N::Bits(x, o, n) if (c & (c - one())).is_zero() => {
                let mut k = 0;
                while pow2(k) < c {
                    k += 1;
                }
                return self.bits(x, o, n.min(k));
            }
            N::Mod(x, y) => {
                if let Some(cy) = self.as_const(y) {
                    if (cy % c).is_zero() {
                        return self.mod_c(x, c);
                    }
                }
            }
            N::Ite(cnd, x, y) => {
                if self.as_const(x).is_some() && self.as_const(y).is_some() {
                    let p = self.mod_c(x, c);
                    let q = self.mod_c(y, c);
                    return self.ite(cnd, p, q);
                }
            }
            _ => {}
        }
        let cc = self.constant(c);
        self.intern(N::Mod(a, cc))
    }
    /// Re-simplify a value whose intervals may have been refined since it was built.
    pub fn resolve(&mut self, id: Id) -> Id {
        match self.n(id) {
            N::Mod(a, b) => {
                let (a, b) = (*a, *b);
                if let Some(c) = self.as_const(b) {
                    let i = self.iv(a);
                    if let (Some(l), Some(h)) = (i.lo, i.hi) {
                        let q = fdiv(l, c);
                        if q == fdiv(h, c) {
                            let r = if q.is_zero() {
                                a
                            } else {
                                let d = self.constant(q * c);
                                self.sub(a, d)
                            };
                            return self.resolve(r);
                        }
                    }
                }
                id
            }
            N::Ite(c, a, b) => {
                let (c, a, b) = (*c, *a, *b);
                match self.truth(c) {
                    Some(true) => self.resolve(a),
                    Some(false) => self.resolve(b),
                    None => id,
                }
            }
            N::Const(_) => id,
            _ => {
                let i = self.iv(id);
                if let (Some(l), Some(h)) = (i.lo, i.hi) {
                    if l == h {
                        return self.constant(l);
                    }
                }
                id
            }
        }
    }
    pub fn isqrt(&mut self, a: Id) -> Id {
        if let Some(c) = self.as_const(a) {
            return self.constant(isqrt(c));
        }
        self.intern(N::Isqrt(a))
    }
    pub fn bswap(&mut self, a: Id, n: u32) -> Id {
        match self.n(a) {
            N::Bsw(x, m) if *m == n => *x,
            _ => self.intern(N::Bsw(a, n)),
        }
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if a == b {
            return a;
        }
        match self.truth(c) {
            Some(true) => return a,
            Some(false) => return b,
            None => {}
        }
        if self.is_bool(a) || self.is_bool(b) {
            let nc = self.not(c);
            let x = self.and(c, a);
            let y = self.and(nc, b);
            return self.or(x, y);
        }
        self.intern(N::Ite(c, a, b))
    }
    pub fn bool2int(&mut self, c: Id) -> Id {
        let (o, z) = (self.cu(1), self.cu(0));
        self.ite(c, o, z)
    }

    // ---------- booleans ----------
    pub fn b(&self, v: bool) -> Id {
        if v {
            TRUE
        } else {
            FALSE
        }
    }
    pub fn not(&mut self, c: Id) -> Id {
        match self.n(c).clone() {
            N::True => FALSE,
            N::False => TRUE,
            N::Ge(t, k) => self.intern(N::Le(t, k - one())),
            N::Le(t, k) => self.intern(N::Ge(t, k + one())),
            N::Eq(t, k) => self.intern(N::Ne(t, k)),
            N::Ne(t, k) => self.intern(N::Eq(t, k)),
            N::And(v) => {
                let w: Vec<Id> = v.into_iter().map(|x| self.not(x)).collect();
                self.nary(w, false)
            }
            N::Or(v) => {
                let w: Vec<Id> = v.into_iter().map(|x| self.not(x)).collect();
                self.nary(w, true)
            }
            x => panic!("not of non-bool {:?}", x),
        }
    }
    fn nary(&mut self, v: Vec<Id>, is_and: bool) -> Id {
        let (unit, absorb) = if is_and { (TRUE, FALSE) } else { (FALSE, TRUE) };
        let mut out: Vec<Id> = vec![];
        for x in v {
            let x = match self.truth(x) {
                Some(true) => TRUE,
                Some(false) => FALSE,
                None => x,
            };
            if x == absorb {
                return absorb;
            }
            if x == unit {
                continue;
            }
            match (self.n(x), is_and) {
                (N::And(w), true) => out.extend(w.iter().copied()),
                (N::Or(w), false) => out.extend(w.iter().copied()),
                _ => out.push(x),
            }
        }
        out.sort();
        out.dedup();
        for i in 0..out.len() {
            let ng = self.not_peek(out[i]);
            if let Some(ng) = ng {
                if out.binary_search(&ng).is_ok() {
                    return absorb;
                }
            }
        }
        match out.len() {
            0 => unit,
            1 => out[0],
            _ => self.intern(if is_and { N::And(out) } else { N::Or(out) }),
        }
    }
    fn not_peek(&self, c: Id) -> Option<Id> {
        let n = match self.n(c) {
            N::Ge(t, k) => N::Le(*t, *k - one()),
            N::Le(t, k) => N::Ge(*t, *k + one()),
            N::Eq(t, k) => N::Ne(*t, *k),
            N::Ne(t, k) => N::Eq(*t, *k),
            _ => return None,
        };
        self.map.get(&n).copied()
    }
    pub fn and(&mut self, a: Id, b: Id) -> Id {
        self.nary(vec![a, b], true)
    }
    pub fn or(&mut self, a: Id, b: Id) -> Id {
        self.nary(vec![a, b], false)
    }
    pub fn xor(&mut self, a: Id, b: Id) -> Id {
        let na = self.not(a);
        let nb = self.not(b);
        let x = self.and(a, nb);
        let y = self.and(na, b);
        self.or(x, y)
    }
    fn ge(&mut self, t: Id, c: Big) -> Id {
        let i = self.iv(t);
        if matches!(i.lo, Some(l) if l >= c) {
            return TRUE;
        }
        if matches!(i.hi, Some(h) if h < c) {
            return FALSE;
        }
        match self.n(t).clone() {
            N::Ite(cn, a, b) => {
                if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
                    return match (x >= c, y >= c) {
                        (true, true) => TRUE,
                        (false, false) => FALSE,
                        (true, false) => cn,
                        (false, true) => self.not(cn),
                    };
                }
            }
            N::Div(a, b) => {
                if self.iv(b).pos() {
                    let nb = self.scale(b, c);
                    return self.ge_ab(a, nb);
                }
            }
            N::Bits(x, o, n) => {
                let iv = self.iv(x);
                if iv.nonneg() && matches!(iv.hi, Some(h) if h < pow2(o + n)) {
                    let k = self.constant(c * pow2(o));
                    return self.ge_ab(x, k);
                }
            }
            N::Isqrt(a) => {
                if c.is_positive() {
                    if let Some(c2) = c.checked_mul(c) {
                        let k = self.constant(c2);
                        return self.ge_ab(a, k);
                    }
                }
            }
            N::Mul(fs) => {
                if c.is_one() {
                    let mut all = true;
                    for f in &fs {
                        all &= self.iv(*f).nonneg();
                    }
                    if all {
                        let o = self.cu(1);
                        let v: Vec<Id> = fs.iter().map(|f| self.ge_ab(*f, o)).collect();
                        return self.nary(v, true);
                    }
                }
            }
            _ => {}
        }
        self.intern(N::Ge(t, c))
    }
    fn le(&mut self, t: Id, c: Big) -> Id {
        let i = self.iv(t);
        if matches!(i.hi, Some(h) if h <= c) {
            return TRUE;
        }
        if matches!(i.lo, Some(l) if l > c) {
            return FALSE;
        }
        match self.n(t) {
            N::Ite(..) | N::Div(..) | N::Bits(..) | N::Isqrt(..) | N::Mul(..) => {
                let g = self.ge(t, c + one());
                match self.n(g) {
                    N::Ge(t2, c2) if *t2 == t && *c2 == c + one() => {}
                    _ => return self.not(g),
                }
            }
            _ => {}
        }
        self.intern(N::Le(t, c))
    }
    pub fn ge_ab(&mut self, a: Id, b: Id) -> Id {
        let d = self.sub(a, b);
        let (k, m, t) = self.aff(d);
        if m.is_zero() {
            return self.b(!k.is_negative());
        }
        if m.is_positive() {
            self.ge(t, cdiv(-k, m))
        } else {
            self.le(t, fdiv(k, -m))
        }
    }
    pub fn lt_ab(&mut self, a: Id, b: Id) -> Id {
        let g = self.ge_ab(a, b);
        self.not(g)
    }
    pub fn eq_ab(&mut self, a: Id, b: Id) -> Id {
        if a == b {
            return TRUE;
        }
        if let (N::Bsw(x, n), N::Bsw(y, m)) = (self.n(a).clone(), self.n(b).clone()) {
            if n == m {
                return self.eq_ab(x, y);
            }
        }
        for (p, q) in [(a, b), (b, a)] {
            if let (N::Bsw(x, n), Some(c)) = (self.n(p).clone(), self.as_const(q)) {
                let c2 = bswap_big(c, n);
                let k = self.constant(c2);
                return self.eq_ab(x, k);
            }
        }
        let d = self.sub(a, b);
        let (k, m, t) = self.aff(d);
        if m.is_zero() {
            return self.b(k.is_zero());
        }
        if !(k % m).is_zero() {
            return FALSE;
        }
        let c = -(k / m);
        let i = self.iv(t);
        if matches!(i.lo, Some(l) if l > c) || matches!(i.hi, Some(h) if h < c) {
            return FALSE;
        }
        if i.lo == Some(c) && i.hi == Some(c) {
            return TRUE;
        }
        match self.n(t).clone() {
            N::Ite(cn, a, b) => {
                if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
                    return match (x == c, y == c) {
                        (true, true) => TRUE,
                        (false, false) => FALSE,
                        (true, false) => cn,
                        (false, true) => self.not(cn),
                    };
                }
            }
            N::Div(..) | N::Bits(..) => {
                let p = self.ge(t, c);
                let q = self.le(t, c);
                return self.and(p, q);
            }
            N::Mul(fs) => {
                if c.is_zero() {
                    let z = self.cu(0);
                    let v: Vec<Id> = fs.iter().map(|f| self.eq_ab(*f, z)).collect();
                    return self.nary(v, false);
                }
            }
            _ => {}
        }
        // boundary equalities become inequalities
        if i.lo == Some(c) {
            return self.le(t, c);
        }
        if i.hi == Some(c) {
            return self.ge(t, c);
        }
        self.intern(N::Eq(t, c))
    }
    pub fn truth(&mut self, c: Id) -> Option<bool> {
        if c == TRUE {
            return Some(true);
        }
        if c == FALSE {
            return Some(false);
        }
        if self.facts.contains(&c) {
            return Some(true);
        }
        if let Some(n) = self.not_peek(c) {
            if self.facts.contains(&n) {
                return Some(false);
            }
        }
        match self.n(c).clone() {
            N::Ge(t, k) => {
                let i = self.iv(t);
                if matches!(i.lo, Some(l) if l >= k) {
                    Some(true)
                } else if matches!(i.hi, Some(h) if h < k) {
                    Some(false)
                } else {
                    None
                }
            }
            N::Le(t, k) => {
                let i = self.iv(t);
                if matches!(i.hi, Some(h) if h <= k) {
                    Some(true)
                } else if matches!(i.lo, Some(l) if l > k) {
                    Some(false)
                } else {
                    None
                }
            }
            N::Eq(t, k) | N::Ne(t, k) => {
                let eq = matches!(self.n(c), N::Eq(..));
                let i = self.iv(t);
                if matches!(i.lo, Some(l) if l > k) || matches!(i.hi, Some(h) if h < k) {
                    Some(!eq)
                } else if i.lo == Some(k) && i.hi == Some(k) {
                    Some(eq)
                } else {
                    None
                }
            }
            N::And(v) => {
                let mut all = true;
                for x in v {
                    match self.truth(x) {
                        Some(false) => return Some(false),
                        Some(true) => {}
                        None => all = false,
                    }
                }
                if all {
                    Some(true)
                } else {
                    None
                }
            }
            N::Or(v) => {
                let mut all = true;
                for x in v {
                    match self.truth(x) {
                        Some(true) => return Some(true),
                        Some(false) => {}
                        None => all = false,
                    }
                }
                if all {
                    Some(false)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    /// note a fact that already follows from the path condition
    pub fn imply(&mut self, c: Id) {
        if self.truth(c).is_some() {
            return;
        }
        let n = self.pc.len();
        self.assume(c);
        self.pc.truncate(n);
    }
    /// Add a fact to the path condition.
    pub fn assume(&mut self, c: Id) {
        match self.truth(c) {
            Some(true) => return,
            Some(false) => {
                self.contradiction = true;
                self.pc.push(c);
                return;
            }
            None => {}
        }
        match self.n(c).clone() {
            N::And(v) => {
                for x in v {
                    self.assume(x);
                }
                self.facts.insert(c);
            }
            N::Or(v) => {
                let mut live = vec![];
                for x in v {
                    if self.truth(x) != Some(false) {
                        live.push(x);
                    }
                }
                if live.len() == 1 {
                    self.assume(live[0]);
                } else {
                    self.pc.push(c);
                }
                self.facts.insert(c);
                self.ver += 1;
            }
            n => {
                self.pc.push(c);
                self.facts.insert(c);
                self.ver += 1;
                match n {
                    N::Ge(t, k) => self.refine(t, Iv { lo: Some(k), hi: None }, 3),
                    N::Le(t, k) => self.refine(t, Iv { lo: None, hi: Some(k) }, 3),
                    N::Eq(t, k) => self.refine(t, Iv::new(k, k), 3),
                    N::Ne(t, k) => {
                        let i = self.iv(t);
                        if i.lo == Some(k) {
                            self.refine(t, Iv { lo: Some(k + one()), hi: None }, 3);
                        } else if i.hi == Some(k) {
                            self.refine(t, Iv { lo: None, hi: Some(k - one()) }, 3);
                        }
                    }
                    _ => {}
                }
            }
        }
    }

    // ---------- polynomial bounds ----------
    fn poly(&self, id: Id, depth: u32) -> Option<Poly> {
        let mut p = Poly::new();
        match self.n(id) {
            N::Const(b) => {
                if !b.is_zero() {
                    p.insert(vec![], *b);
                }
            }
            N::Aff(k, m, t) => {
                for (mo, c) in self.poly(*t, depth)? {
                    p.insert(mo, c.checked_mul(*m)?);
                }
                padd(&mut p, vec![], *k);
            }
            N::Prim(ts) => {
                for (c, t) in ts {
                    for (mo, d) in self.poly(*t, depth)? {
                        padd(&mut p, mo, d.checked_mul(*c)?);
                    }
                }
            }
            N::Mul(fs) => {
                p.insert(vec![], one());
                for f in fs {
                    let g = self.poly(*f, depth)?;
                    p = pmul(&p, &g)?;
                }
            }
            _ => {
                p.insert(vec![id], one());
            }
        }
        if p.len() > 200 {
            return None;
        }
        Some(p)
    }
    fn piv(&mut self, p: &Poly) -> Iv {
        let mut r = Iv::new(zero(), zero());
        for (m, c) in p {
            let mut x = Iv::new(one(), one());
            for f in m {
                let z = self.iv(*f);
                x = x.mul(z);
            }
            r = r.add(x.scale(*c));
        }
        r
    }
    /// p >= 0 on this path? Sufficient conditions only: bounds, and q = floor(N/D) replaced by N/D or (N-D+1)/D.
    fn prove_nonneg(&mut self, p: &Poly, depth: u32, budget: &mut u32) -> bool {
        if matches!(self.piv(p).lo, Some(l) if !l.is_negative()) {
            return true;
        }
        if depth == 0 || *budget == 0 || p.len() > 80 {
            return false;
        }
        *budget -= 1;
        let mut atoms: Vec<Id> = vec![];
        for m in p.keys() {
            for f in m {
                if !atoms.contains(f) && matches!(self.n(*f), N::Div(..) | N::Isqrt(..) | N::Mod(..) | N::Bits(..)) {
                    atoms.push(*f);
                }
            }
        }
        atoms.sort();
        atoms.reverse();
        for q in atoms {
            // p = q*a + e
            let (mut a, mut e) = (Poly::new(), Poly::new());
            let mut ok = true;
            for (m, c) in p {
                let k = m.iter().filter(|f| **f == q).count();
                if k == 0 {
                    e.insert(m.clone(), *c);
                } else if k == 1 {
                    let mut m2 = m.clone();
                    let i = m2.iter().position(|f| *f == q).unwrap();
                    m2.remove(i);
                    padd(&mut a, m2, *c);
                } else {
                    ok = false;
                }
            }
            if !ok {
                continue;
            }
            let ia = self.piv(&a);
            let neg = matches!(ia.hi, Some(h) if !h.is_positive());
            let pos = ia.nonneg();
            if !neg && !pos {
                continue;
            }
            let unit = a.len() == 1 && a.get(&vec![]).map_or(false, |c| c.is_one());
            let unit_int = a.len() == 1 && a.contains_key(&vec![]);
            let nx = match *self.n(q) {
                N::Div(n, d) => {
                    if !self.iv(d).pos() {
                        continue;
                    }
                    let (n, d) = match (self.poly(n, 0), self.poly(d, 0)) {
                        (Some(n), Some(d)) => (n, d),
                        _ => continue,
                    };
                    (|| {
                        let mut r = pmul(&e, &d)?;
                        if neg {
                            // e + a q >= 0  <=  e d + a n (+ d - 1) >= 0
                            for (m, c) in pmul(&a, &n)? {
                                padd(&mut r, m, c);
                            }
                            let _ = unit_int;
                            for (m, c) in &d {
                                padd(&mut r, m.clone(), *c);
                            }
                            padd(&mut r, vec![], -one());
                        } else if unit {
                            for (m, c) in n {
                                padd(&mut r, m, c);
                            }
                        } else {
                            let mut n1 = n.clone();
                            for (m, c) in &d {
                                padd(&mut n1, m.clone(), -*c);
                            }
                            padd(&mut n1, vec![], one());
                            for (m, c) in pmul(&a, &n1)? {
                                padd(&mut r, m, c);
                            }
                        }
                        Some(r)
                    })()
                }
                N::Mod(x, _) | N::Bits(x, 0, _) => {
                    // 0 <= r <= x
                    if !self.iv(x).nonneg() {
                        continue;
                    }
                    (|| {
                        let mut r = e.clone();
                        if neg {
                            let n = self.poly(x, 0)?;
                            for (m, c) in pmul(&a, &n)? {
                                padd(&mut r, m, c);
                            }
                        }
                        Some(r)
                    })()
                }
                _ => continue,
            };
            if let Some(r) = nx {
                if self.prove_nonneg(&r, depth - 1, budget) {
                    return true;
                }
            }
        }
        false
    }
    fn diff_poly(&self, t: Id, c: Big, sgn: bool) -> Option<Poly> {
        let mut p = self.poly(t, 0)?;
        padd(&mut p, vec![], -c);
        if !sgn {
            p = p.into_iter().map(|(m, c)| (m, -c)).collect();
        }
        Some(p)
    }
    fn has_div(&self, p: &Poly) -> bool {
        p.keys().any(|m| m.len() > 1 || m.iter().any(|f| matches!(self.n(*f), N::Div(..) | N::Mod(..) | N::Bits(..))))
    }
    /// truth by polynomial bounds
    pub fn truth_deep(&mut self, c: Id) -> Option<bool> {
        if let Some(b) = self.truth(c) {
            return Some(b);
        }
        let mut budget = 60;
        match self.n(c).clone() {
            N::Ge(t, k) | N::Le(t, k) => {
                let ge = matches!(self.n(c), N::Ge(..));
                let p = self.diff_poly(t, k, ge)?;
                if !self.has_div(&p) {
                    return None;
                }
                if self.prove_nonneg(&p, 4, &mut budget) {
                    return Some(true);
                }
                // negation: p <= -1
                let mut n: Poly = p.into_iter().map(|(m, c)| (m, -c)).collect();
                padd(&mut n, vec![], -one());
                let mut budget = 60;
                if self.prove_nonneg(&n, 4, &mut budget) {
                    return Some(false);
                }
                None
            }
            N::Eq(t, k) | N::Ne(t, k) => {
                let eq = matches!(self.n(c), N::Eq(..));
                for sgn in [true, false] {
                    let mut p = self.diff_poly(t, k, sgn)?;
                    if !self.has_div(&p) {
                        return None;
                    }
                    padd(&mut p, vec![], -one());
                    let mut budget = 40;
                    if self.prove_nonneg(&p, 4, &mut budget) {
                        return Some(!eq);
                    }
                }
                None
            }
            N::And(v) => {
                let mut all = true;
                for x in v {
                    match self.truth_deep(x) {
                        Some(false) => return Some(false),
                        Some(true) => {}
                        None => all = false,
                    }
                }
                all.then_some(true)
            }
            N::Or(v) => {
                let mut all = true;
                for x in v {
                    match self.truth_deep(x) {
                        Some(true) => return Some(true),
                        Some(false) => {}
                        None => all = false,
                    }
                }
                all.then_some(false)
            }
            _ => None,
        }
    }

    // ---------- evaluation under a model ----------
    pub fn eval(&self, id: Id, m: &Model, memo: &mut HashMap<Id, Option<Big>>) -> Option<Big> {
        if let Some(v) = memo.get(&id) {
            return *v;
        }
        let mut e = |x: Id| self.eval(x, m, memo);
        let bb = |v: bool| Some(if v { one() } else { zero() });
        let r: Option<Big> = (|| match self.n(id) {
            N::None => None,
            N::Const(b) => Some(*b),
            N::Var(i) => {
                let v = &self.vars[*i as usize];
                Some(*m.get(&v.name).unwrap_or(&v.lo))
            }
            N::Aff(k, mm, t) => e(*t)?.checked_mul(*mm)?.checked_add(*k),
            N::Prim(ts) => {
                let mut s = zero();
                for (c, t) in ts {
                    s = s.checked_add(e(*t)?.checked_mul(*c)?)?;
                }
                Some(s)
            }
            N::Mul(fs) => {
                let mut s = one();
                for f in fs {
                    s = s.checked_mul(e(*f)?)?;
                }
                Some(s)
            }
            N::Div(a, b) => {
                let (x, y) = (e(*a)?, e(*b)?);
                if y.is_positive() {
                    Some(fdiv(x, y))
                } else {
                    None
                }
            }
            N::Mod(a, b) => {
                let (x, y) = (e(*a)?, e(*b)?);
                if y.is_positive() {
                    Some(fmod(x, y))
                } else {
                    None
                }
            }
            N::Isqrt(a) => Some(isqrt(e(*a)?)),
            N::Ite(c, a, b) => {
                if e(*c)?.is_one() {
                    e(*a)
                } else {
                    e(*b)
                }
            }
            N::Bsw(a, n) => Some(bswap_big(e(*a)?, *n)),
            N::Bits(a, o, n) => Some(fmod(fdiv(e(*a)?, pow2(*o)), pow2(*n))),
            N::True => bb(true),
            N::False => bb(false),
            N::Ge(t, k) => bb(e(*t)? >= *k),
            N::Le(t, k) => bb(e(*t)? <= *k),
            N::Eq(t, k) => bb(e(*t)? == *k),
            N::Ne(t, k) => bb(e(*t)? != *k),
            N::And(v) => {
                let mut r = true;
                for x in v {
                    r &= e(*x)?.is_one();
                }
                bb(r)
            }
            N::Or(v) => {
                let mut r = false;
                for x in v {
                    r |= e(*x)?.is_one();
                }
                bb(r)
            }
        })();
        memo.insert(id, r);
        r
    }
    pub fn holds(&self, ids: &[Id], m: &Model) -> bool {
        let mut memo = HashMap::new();
        ids.iter().all(|i| matches!(self.eval(*i, m, &mut memo), Some(v) if v.is_one()))
    }

    // ---------- SMT-LIB ----------
    fn children(&self, id: Id) -> Vec<Id> {
        match self.n(id) {
            N::Aff(_, _, t) => vec![*t],
            N::Prim(ts) => ts.iter().map(|x| x.1).collect(),
            N::Mul(f) => f.clone(),
            N::Div(a, b) | N::Mod(a, b) => vec![*a, *b],
            N::Isqrt(a) | N::Bsw(a, _) | N::Bits(a, _, _) => vec![*a],
            N::Ite(c, a, b) => vec![*c, *a, *b],
            N::Ge(t, _) | N::Le(t, _) | N::Eq(t, _) | N::Ne(t, _) => vec![*t],
            N::And(v) | N::Or(v) => v.clone(),
            _ => vec![],
        }
    }
    pub fn vars_of(&self, id: Id, memo: &mut HashMap<Id, std::rc::Rc<HashSet<u32>>>) -> std::rc::Rc<HashSet<u32>> {
        if let Some(r) = memo.get(&id) {
            return r.clone();
        }
        let mut s = HashSet::new();
        if let N::Var(i) = self.n(id) {
            s.insert(*i);
        }
        for c in self.children(id) {
            s.extend(self.vars_of(c, memo).iter().copied());
        }
        let r = std::rc::Rc::new(s);
        memo.insert(id, r.clone());
        r
    }
    /// conjuncts of pc connected (through shared variables) to the roots
    pub fn slice(&self, roots: &[Id]) -> Vec<Id> {
        let mut memo = HashMap::new();
        let mut vs: HashSet<u32> = HashSet::new();
        for r in roots {
            vs.extend(self.vars_of(*r, &mut memo).iter().copied());
        }
        let pcv: Vec<_> = self.pc.iter().map(|p| (*p, self.vars_of(*p, &mut memo))).collect();
        let mut used = vec![false; pcv.len()];
        loop {
            let mut ch = false;
            for (i, (_, v)) in pcv.iter().enumerate() {
                if !used[i] && (v.is_empty() || v.iter().any(|x| vs.contains(x))) {
                    used[i] = true;
                    let n = vs.len();
                    vs.extend(v.iter().copied());
                    ch |= vs.len() != n || true;
                }
            }
            if !ch {
                break;
            }
        }
        pcv.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, p)| p.0).collect()
    }
    /// Emit declarations and assertions. Returns (text, variable names).
    pub fn smt(&mut self, asserts: &[Id], real: bool) -> Result<(String, Vec<String>), String> {
        let mut order: Vec<Id> = vec![];
        let mut seen: HashSet<Id> = HashSet::new();
        // iterative post-order
        for r in asserts {
            let mut st = vec![(*r, false)];
            while let Some((x, done)) = st.pop() {
                if done {
                    order.push(x);
                    continue;
                }
                if !seen.insert(x) {
                    continue;
                }
                st.push((x, true));
                for c in self.children(x).into_iter().rev() {
                    if !seen.contains(&c) {
                        st.push((c, false));
                    }
                }
            }
        }
        let sort = if real { "Real" } else { "Int" };
        let mut out = String::new();
        let mut names: Vec<String> = vec![];
        let mut nm: HashMap<Id, String> = HashMap::new();
        let lit = |b: &Big| {
            if b.is_negative() {
                format!("(- {})", b.unsigned_abs())
            } else {
                format!("{}", b)
            }
        };
        let mut k = 0;
        for id in order {
            let n = self.n(id).clone();
            let g = |x: &Id, nm: &HashMap<Id, String>| nm[x].clone();
            match n {
                N::None => return Err("none".into()),
                N::Const(b) => {
                    nm.insert(id, lit(&b));
                }
                N::Var(i) => {
                    let v = self.vars[i as usize].clone();
                    let s = format!("|{}|", v.name);
                    let iv = self.iv(id);
                    let _ = writeln!(out, "(declare-const {} {})", s, sort);
                    let _ = writeln!(
                        out,
                        "(assert (and (<= {} {}) (<= {} {})))",
                        lit(&iv.lo.unwrap()),
                        s,
                        s,
                        lit(&iv.hi.unwrap())
                    );
                    names.push(v.name.clone());
                    nm.insert(id, s);
                }
                N::Div(a, b) => {
                    let s = format!("q{}", k);
                    k += 1;
                    let (x, y) = (g(&a, &nm), g(&b, &nm));
                    let _ = writeln!(out, "(declare-const {} {})", s, sort);
                    let ax = if self.as_const(b).is_some() {
                        let c = self.as_const(b).unwrap();
                        format!("(and (<= (* {c} {s}) {x}) (<= {x} (+ (* {c} {s}) {})))", c - one(), c = lit(&c))
                    } else {
                        format!("(and (<= (* {y} {s}) {x}) (<= {x} (+ (* {y} {s}) {y} (- 1))))")
                    };
                    if self.iv(b).pos() {
                        let _ = writeln!(out, "(assert {})", ax);
                    } else {
                        let _ = writeln!(out, "(assert (=> (>= {} 1) {}))", y, ax);
                    }
                    let iv = self.iv(id);
                    if let Some(l) = iv.lo {
                        let _ = writeln!(out, "(assert (>= {} {}))", s, lit(&l));
                    }
                    if let Some(h) = iv.hi {
                        let _ = writeln!(out, "(assert (<= {} {}))", s, lit(&h));
                    }
                    nm.insert(id, s);
                }
                N::Mod(a, b) => {
                    let c = self.as_const(b).ok_or("mod nonconst")?;
                    let x = g(&a, &nm);
                    let q = format!("mq{}", k);
                    let r = format!("mr{}", k);
                    k += 1;
                    let _ = writeln!(out, "(declare-const {} {})\n(declare-const {} {})", q, sort, r, sort);
                    let _ = writeln!(
                        out,
                        "(assert (and (= {x} (+ (* {c} {q}) {r})) (<= 0 {r}) (<= {r} {})))",
                        c - one(),
                        c = lit(&c)
                    );
                    nm.insert(id, r);
                }
                N::Isqrt(a) => {
                    let x = g(&a, &nm);
                    let s = format!("sq{}", k);
                    k += 1;
                    let _ = writeln!(out, "(declare-const {} {})", s, sort);
                    let _ = writeln!(
                        out,
                        "(assert (and (>= {s} 0) (<= (* {s} {s}) {x}) (<= {x} (+ (* {s} {s}) (* 2 {s})))))"
                    );
                    nm.insert(id, s);
                }
                N::Bits(a, o, n) => {
                    let x = g(&a, &nm);
                    let (h, r, l) = (format!("bh{}", k), format!("br{}", k), format!("bl{}", k));
                    k += 1;
                    let _ = writeln!(out, "(declare-const {h} {sort})\n(declare-const {r} {sort})\n(declare-const {l} {sort})");
                    let _ = writeln!(
                        out,
                        "(assert (and (= {x} (+ (* {} {h}) (* {} {r}) {l})) (<= 0 {r}) (<= {r} {}) (<= 0 {l}) (<= {l} {}) (<= 0 {h})))",
                        pow2(o + n),
                        pow2(o),
                        pow2(n) - one(),
                        pow2(o) - one()
                    );
                    if matches!(self.iv(a).hi, Some(v) if v < pow2(o + n)) {
                        let _ = writeln!(out, "(assert (= {h} 0))");
                    }
                    nm.insert(id, r);
                }
                N::Bsw(..) => return Err("byte-swapped value in solver query".into()),
                N::Aff(kk, m, t) => {
                    let t = g(&t, &nm);
                    let s = if kk.is_zero() {
                        format!("(* {} {})", lit(&m), t)
                    } else if m.is_one() {
                        format!("(+ {} {})", t, lit(&kk))
                    } else {
                        format!("(+ (* {} {}) {})", lit(&m), t, lit(&kk))
                    };
                    nm.insert(id, s);
                }
                N::Prim(ts) => {
                    let mut s = String::from("(+");
                    for (c, t) in &ts {
                        if c.is_one() {
                            let _ = write!(s, " {}", g(t, &nm));
                        } else {
                            let _ = write!(s, " (* {} {})", lit(c), g(t, &nm));
                        }
                    }
                    s.push(')');
                    let nme = format!("e{}", k);
                    k += 1;
                    let _ = writeln!(out, "(define-fun {} () {} {})", nme, sort, s);
                    nm.insert(id, nme);
                }
                N::Mul(fs) => {
                    let mut s = String::from("(*");
                    for f in &fs {
                        let _ = write!(s, " {}", g(f, &nm));
                    }
                    s.push(')');
                    let nme = format!("e{}", k);
                    k += 1;
                    let _ = writeln!(out, "(define-fun {} () {} {})", nme, sort, s);
                    nm.insert(id, nme);
                }
                N::Ite(c, a, b) => {
                    let nme = format!("e{}", k);
                    k += 1;
                    let _ = writeln!(
                        out,
                        "(define-fun {} () {} (ite {} {} {}))",
                        nme,
                        sort,
                        g(&c, &nm),
                        g(&a, &nm),
                        g(&b, &nm)
                    );
                    nm.insert(id, nme);
                }
                N::True => {
                    nm.insert(id, "true".into());
                }
                N::False => {
                    nm.insert(id, "false".into());
                }
                N::Ge(t, c) => {
                    let s = format!("(>= {} {})", g(&t, &nm), lit(&c));
                    nm.insert(id, s);
                }
                N::Le(t, c) => {
                    let s = format!("(<= {} {})", g(&t, &nm), lit(&c));
                    nm.insert(id, s);
                }
                N::Eq(t, c) => {
                    let s = format!("(= {} {})", g(&t, &nm), lit(&c));
                    nm.insert(id, s);
                }
                N::Ne(t, c) => {
                    let s = format!(
                        "(or (>= {x} {}) (<= {x} {}))",
                        lit(&(c + one())),
                        lit(&(c - one())),
                        x = g(&t, &nm)
                    );
                    nm.insert(id, s);
                }
                N::And(v) | N::Or(v) => {
                    let op = if matches!(self.n(id), N::And(_)) { "and" } else { "or" };
                    let mut s = format!("({}", op);
                    for x in &v {
                        let _ = write!(s, " {}", g(x, &nm));
                    }
                    s.push(')');
                    nm.insert(id, s);
                }
            }
        }
        for a in asserts {
            let _ = writeln!(out, "(assert {})", nm[a]);
        }
        Ok((out, names))
    }
    pub fn show(&self, id: Id, depth: u32) -> String {
        if depth == 0 {
            return "..".into();
        }
        let s = |x: &Id| self.show(*x, depth - 1);
        match self.n(id) {
            N::Const(b) => format!("{}", b),
            N::Var(i) => self.vars[*i as usize].name.clone(),
            N::Aff(k, m, t) => format!("({}+{}*{})", k, m, s(t)),
            N::Prim(ts) => format!(
                "({})",
                ts.iter().map(|(c, t)| format!("{}*{}", c, s(t))).collect::<Vec<_>>().join(" + ")
            ),
            N::Mul(f) => format!("({})", f.iter().map(s).collect::<Vec<_>>().join(" * ")),
            N::Div(a, b) => format!("({} / {})", s(a), s(b)),
            N::Mod(a, b) => format!("({} % {})", s(a), s(b)),
            N::Isqrt(a) => format!("isqrt({})", s(a)),
            N::Ite(c, a, b) => format!("ite({}, {}, {})", s(c), s(a), s(b)),
            N::Bits(a, o, n) => format!("{}[{}+{}]", s(a), o, n),
            N::Bsw(a, n) => format!("bsw{}({})", n, s(a)),
            N::Ge(t, c) => format!("{} >= {}", s(t), c),
            N::Le(t, c) => format!("{} <= {}", s(t), c),
            N::Eq(t, c) => format!("{} == {}", s(t), c),
            N::Ne(t, c) => format!("{} != {}", s(t), c),
            N::And(v) => format!("({})", v.iter().map(s).collect::<Vec<_>>().join(" && ")),
            N::Or(v) => format!("({})", v.iter().map(s).collect::<Vec<_>>().join(" || ")),
            x => format!("{:?}", x),
        }
    }
}

pub fn bswap_big(v: Big, n: u32) -> Big {
    let mut r = zero();
    let mut v = v;
    let m = big(256);
    for _ in 0..n {
        r = r * m + v % m;
        v = v / m;
    }
    r
}
