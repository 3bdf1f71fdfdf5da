//! Symbolic interpreter for the LLVM IR rustc emits.
use crate::expr::*;
use crate::hooks::{Hook, Hooks};
use crate::llvm::*;
use crate::solver::{Sat, Session};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Copy, Debug)]
pub struct Val {
    pub lo: u64,
    pub hi: u64,
    pub s: Id,
}
impl Val {
    pub fn c(v: u64) -> Val {
        Val { lo: v, hi: 0, s: 0 }
    }
    pub fn c128(v: u128) -> Val {
        Val { lo: v as u64, hi: (v >> 64) as u64, s: 0 }
    }
    pub fn w(&self) -> u128 {
        self.lo as u128 | ((self.hi as u128) << 64)
    }
}

#[derive(Clone, Debug)]
pub enum Stop {
    Done,
    Panic(String),
    Infeasible,
    Assume,
    Unsupported(String),
    Limit(String),
}
pub type R<T> = Result<T, Stop>;

pub fn unsup<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Unsupported(s.into()))
}

pub const GLOB: u64 = 0x1_0000;
pub const STACK: u64 = 0x400_0000; // 64 MB
pub const HEAP: u64 = 0x800_0000; // 128 MB
pub const END: u64 = 0x4000_0000; // 1 GB
pub const FNB: u64 = 0x7000_0000_0000;

pub struct FnEnt {
    pub m: usize, // defining module or usize::MAX
    pub name: String,
    pub dem: String,
    pub hook: Hook,
    pub func: Option<Rc<Func>>,
    pub calls: u64,
}

pub struct Patch {
    pub area: u64,
    pub magic: u128,
    pub nb: u32,
    pub id: Id,
}

pub struct Frame {
    pub f: Rc<Func>,
    pub fi: u32,
    pub pc: u32,
    pub base: u32,
    pub prev: u32,
    pub sp: u64,
    pub d: u32,
    pub nret: u32,
    pub patch: Option<Patch>,
}

#[derive(Clone)]
pub struct Item {
    pub prefix: Vec<u16>,
    /// where each decision of the prefix was taken
    pub sites: Vec<u32>,
    pub model: Option<Model>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub label: String,
    pub model: Model,
    pub choices: Vec<(String, u64)>,
    pub note: String,
}

#[derive(Clone)]
pub struct Hard {
    pub label: String,
    pub int: String,
    pub real: String,
    pub names: Vec<String>,
    pub base: Option<Model>,
    pub choices: Vec<(String, u64)>,
    pub lows: Model,
}

pub struct Opts {
    pub fork_ms: u64,
    pub check_ms: u64,
    pub max_steps: u64,
    pub max_forks: usize,
    pub trace: bool,
}

/// results of one path
#[derive(Default)]
pub struct PathOut {
    pub alts: Vec<Item>,
    pub checks: Vec<(String, u8)>, // 0 trivially true, 1 proved
    pub covers: Vec<String>,
    pub violations: Vec<Violation>,
    pub hard: Vec<Hard>,
    pub obs: Vec<(String, Id)>,
    pub obs_txt: Vec<(String, String)>,
    pub steps: u64,
    pub forks: usize,
    pub choices: Vec<(String, u64)>,
    pub model: Option<Model>,
    pub inputs: Vec<String>,
}

pub struct Machine {
    pub prog: Arc<Program>,
    pub hooks: Arc<Hooks>,
    pub fns: Vec<FnEnt>,
    fn_ix: HashMap<(usize, String), u32>,
    gl: HashMap<(usize, String), u64>,
    gtop: u64,
    ginit: bool,
    pub mem: Vec<u8>,
    flags: Vec<u8>,
    flagged: Vec<u64>,
    over: HashMap<u64, (Id, u8, u8)>,
    sites: Vec<u32>,
    want: Vec<u32>,
    undo: Vec<(u64, u8)>,
    pub heap: u64,
    heap_max: u64,
    sp: u64,
    pub ctx: Ctx,
    pub regs: Vec<Val>,
    pub frames: Vec<Frame>,
    pub sess: Session,
    pub opts: Arc<Opts>,
    // path
    prefix: Vec<u16>,
    trace: Vec<u16>,
    pub model: Option<Model>,
    pub out: PathOut,
    pub ints: Vec<Id>,
    pub nopanic: Vec<String>,
    pub choice_n: u64,
    pub used: HashSet<u32>,
    pub steps: u64,
    pub magic: u64,
    pub small: Vec<Id>,
}

impl Link for Machine {
    fn fn_ref(&mut self, m: usize, name: &str) -> u32 {
        let prog = self.prog.clone();
        let dm = prog.find_fn(m, name).unwrap_or(usize::MAX);
        if let Some(i) = self.fn_ix.get(&(dm, name.to_string())) {
            return *i;
        }
        let dem = if dm == usize::MAX { name.to_string() } else { prog.demangled(dm, name) };
        let hook = self.hooks.find(name, &dem);
        let mut m2 = dm;
        let mut n2 = name.to_string();
        if let Some(sym) = self.hooks.stub(&dem) {
            if let Some(x) = prog.find_fn(m, &sym) {
                m2 = x;
                n2 = sym;
            }
        }
        let i = self.fns.len() as u32;
        self.fns.push(FnEnt { m: m2, name: n2, dem, hook, func: None, calls: 0 });
        self.fn_ix.insert((dm, name.to_string()), i);
        i
    }
    fn fn_addr(&mut self, m: usize, name: &str) -> u64 {
        FNB + 16 * self.fn_ref(m, name) as u64
    }
    fn glob_addr(&mut self, m: usize, name: &str) -> u64 {
        let prog = self.prog.clone();
        let dm = match prog.find_glob(m, name) {
            Some(x) => x,
            None => {
                // function used as a global, or truly external
                if prog.find_fn(m, name).is_some() {
                    return self.fn_addr(m, name);
                }
                usize::MAX
            }
        };
        if let Some(a) = self.gl.get(&(dm, name.to_string())) {
            return *a;
        }
        if dm == usize::MAX {
            let a = (self.gtop + 63) & !63;
            self.gtop = a + 64;
            self.gl.insert((dm, name.to_string()), a);
            return a;
        }
        let md = &prog.mods[dm];
        let (s, e) = md.globals[name];
        let mut l = Lex::new(&md.text, s, e);
        loop {
            match l.next() {
                Tok::Word(w) if w == "constant" || w == "global" => break,
                Tok::Eof => panic!("global {name}"),
                _ => {}
            }
        }
        let mut d = Dec { prog: &prog, m: dm, link: self };
        let ty = d.ty(&mut l);
        let sz = ty.size().max(1);
        let al = 64u64;
        let a = (self.gtop + al - 1) / al * al;
        self.gtop = a + sz;
        assert!(self.gtop < STACK);
        self.gl.insert((dm, name.to_string()), a);
        let mut out = vec![0u8; sz as usize];
        let mut d = Dec { prog: &prog, m: dm, link: self };
        d.init(&mut l, &ty, &mut out);
        self.mem[a as usize..(a + sz) as usize].copy_from_slice(&out);
        a
    }
}

impl Machine {
    pub fn new(prog: Arc<Program>, hooks: Arc<Hooks>, opts: Arc<Opts>, sess: Session) -> Machine {
        Machine {
            prog,
            hooks,
            fns: vec![],
            fn_ix: HashMap::new(),
            gl: HashMap::new(),
            gtop: GLOB,
            ginit: false,
            mem: vec![0u8; END as usize],
            flags: vec![0u8; (END >> 3) as usize],
            flagged: vec![],
            over: HashMap::new(),
            undo: vec![],
            sites: vec![],
            want: vec![],
            heap: HEAP,
            heap_max: HEAP,
            sp: STACK,
            ctx: Ctx::new(),
            regs: vec![],
            frames: vec![],
            sess,
            opts,
            prefix: vec![],
            trace: vec![],
            model: None,
            out: PathOut::default(),
            ints: vec![],
            nopanic: vec![],
            choice_n: 0,
            used: HashSet::new(),
            steps: 0,
            magic: 0,
            small: vec![],
        }
    }

    fn reset(&mut self, it: &Item) {
        while let Some((a, b)) = self.undo.pop() {
            self.mem[a as usize] = b;
        }
        for w in self.flagged.drain(..) {
            self.flags[w as usize] = 0;
        }
        self.over.clear();
        self.heap = HEAP;
        self.sp = STACK;
        self.ctx = Ctx::new();
        self.regs.clear();
        self.frames.clear();
        self.prefix = it.prefix.clone();
        self.want = it.sites.clone();
        self.sites.clear();
        self.trace = vec![];
        self.model = it.model.clone();
        if self.prefix.is_empty() && self.model.is_none() {
            self.model = Some(Model::new());
        }
        self.out = PathOut::default();
        self.ints = vec![0];
        self.nopanic = vec![];
        self.choice_n = 0;
        self.steps = 0;
        self.magic = 0;
        self.small.clear();
        self.ginit = true;
    }

    // ------------------------------------------------------------ memory
    #[inline]
    pub fn chk(&self, a: u64, n: u64) -> R<()> {
        if a < GLOB || a >= END || n > END - a {
            return unsup(format!("bad pointer {a:#x}+{n} in {}", self.whereami()));
        }
        Ok(())
    }
    pub fn whereami(&self) -> String {
        let mut v = vec![];
        for f in self.frames.iter().rev().take(4) {
            v.push(self.fns[f.fi as usize].dem.clone());
        }
        v.join(" <- ")
    }
    #[inline]
    pub fn flag_range(&self, a: u64, n: u64) -> bool {
        if n == 0 {
            return false;
        }
        let (s, e) = (a >> 3, (a + n - 1) >> 3);
        if e - s < 4 {
            for w in s..=e {
                if self.flags[w as usize] != 0 {
                    return true;
                }
            }
            false
        } else {
            self.flags[s as usize..=e as usize].iter().any(|x| *x != 0)
        }
    }
    pub fn is_sym(&self, a: u64, n: u64) -> bool {
        self.flag_range(a, n) && (a..a + n).any(|x| self.over.contains_key(&x))
    }
    #[inline]
    fn touch(&mut self, a: u64, n: u64) {
        if a < STACK {
            for x in a..a + n {
                self.undo.push((x, self.mem[x as usize]));
            }
        }
    }
    #[inline]
    fn unsym(&mut self, a: u64, n: u64) {
        if self.flag_range(a, n) {
            for x in a..a + n {
                self.over.remove(&x);
            }
        }
    }
    pub fn wr_bytes(&mut self, a: u64, b: &[u8]) -> R<()> {
        self.chk(a, b.len() as u64)?;
        self.touch(a, b.len() as u64);
        self.unsym(a, b.len() as u64);
        self.mem[a as usize..a as usize + b.len()].copy_from_slice(b);
        Ok(())
    }
    pub fn rd_bytes(&self, a: u64, n: u64) -> R<Vec<u8>> {
        self.chk(a, n)?;
        if self.is_sym(a, n) {
            return unsup(format!("symbolic bytes where concrete needed in {}", self.whereami()));
        }
        Ok(self.mem[a as usize..(a + n) as usize].to_vec())
    }
    /// store symbolic integer `id` of `n` bytes
    pub fn wr_sym(&mut self, a: u64, id: Id, n: u64) -> R<()> {
        self.chk(a, n)?;
        self.touch(a, n);
        if let Some(c) = self.ctx.as_const(id) {
            self.unsym(a, n);
            let mut v = c;
            for i in 0..n {
                let b = fmod(v, big(256));
                self.mem[(a + i) as usize] = to_u128(&b).unwrap() as u8;
                v = fdiv(v, big(256));
            }
            return Ok(());
        }
        for i in 0..n {
            self.over.insert(a + i, (id, n as u8, i as u8));
            let w = (a + i) >> 3;
            if self.flags[w as usize] == 0 {
                self.flags[w as usize] = 1;
                self.flagged.push(w);
            }
        }
        Ok(())
    }
    /// byte range [i, i+n) of integer `id` (size m bytes)
    fn extract(&mut self, id: Id, m: u64, i: u64, n: u64) -> Id {
        if i == 0 && n == m {
            return id;
        }
        if let N::Bsw(x, k) = self.ctx.n(id) {
            let (x, k) = (*x, *k as u64);
            if k == m {
                // bytes i..i+n of bswap(x) = reverse of bytes (m-i-n .. m-i) of x
                let y = self.extract(x, m, m - i - n, n);
                return if n == 1 { y } else { self.ctx.bswap(y, n as u32) };
            }
        }
        self.ctx.bits(id, 8 * i as u32, 8 * n as u32)
    }
    /// read n bytes as an integer expression (little endian)
    pub fn rd_id(&mut self, a: u64, n: u64) -> R<Id> {
        self.chk(a, n)?;
        if !self.flag_range(a, n) {
            let mut v = zero();
            for i in (0..n).rev() {
                v = v * big(256) + big(self.mem[(a + i) as usize] as u128);
            }
            return Ok(self.ctx.constant(v));
        }
        let mut acc = self.ctx.cu(0);
        let mut i = 0;
        while i < n {
            match self.over.get(&(a + i)).copied() {
                None => {
                    let b = self.mem[(a + i) as usize];
                    if b != 0 {
                        let t = self.ctx.constant(big(b as u128) * pow2(8 * i as u32));
                        acc = self.ctx.add(acc, t);
                    }
                    i += 1;
                }
                Some((id, m, x)) => {
                    let mut k = 1;
                    while i + k < n {
                        match self.over.get(&(a + i + k)) {
                            Some((id2, m2, x2)) if *id2 == id && *m2 == m && *x2 as u64 == x as u64 + k => k += 1,
                            _ => break,
                        }
                    }
                    let part = self.extract(id, m as u64, x as u64, k);
                    let part = self.ctx.resolve(part);
                    let t = self.ctx.scale(part, pow2(8 * i as u32));
                    acc = self.ctx.add(acc, t);
                    i += k;
                }
            }
        }
        Ok(acc)
    }
    #[inline]
    pub fn load(&mut self, a: u64, bits: u32) -> R<Val> {
        let n = ((bits + 7) / 8) as u64;
        self.chk(a, n)?;
        if self.flag_range(a, n) {
            let id = self.rd_id(a, n)?;
            let id = if bits % 8 != 0 && self.ctx.as_const(id).is_none() { self.ctx.mod_c(id, pow2(bits)) } else { id };
            return Ok(self.val(id, bits));
        }
        let a = a as usize;
        let m = &self.mem;
        Ok(match n {
            8 => Val::c(u64::from_le_bytes(m[a..a + 8].try_into().unwrap())),
            1 => Val::c(m[a] as u64 & if bits < 8 { (1 << bits) - 1 } else { 255 }),
            4 => Val::c(u32::from_le_bytes(m[a..a + 4].try_into().unwrap()) as u64),
            16 => Val::c128(u128::from_le_bytes(m[a..a + 16].try_into().unwrap())),
            2 => Val::c(u16::from_le_bytes(m[a..a + 2].try_into().unwrap()) as u64),
            _ if n <= 16 => {
                let mut v = 0u128;
                for i in (0..n as usize).rev() {
                    v = v << 8 | m[a + i] as u128;
                }
                if bits < 128 {
                    v &= (1u128 << bits) - 1;
                }
                Val::c128(v)
            }
            _ => return unsup(format!("load of {bits} bits")),
        })
    }
    #[inline]
    pub fn store(&mut self, a: u64, bits: u32, v: Val) -> R<()> {
        let n = ((bits + 7) / 8) as u64;
        self.chk(a, n)?;
        if v.s != 0 {
            let id = if self.ctx.is_bool(v.s) { self.ctx.bool2int(v.s) } else { self.ctx.resolve(v.s) };
            return self.wr_sym(a, id, n);
        }
        self.touch(a, n);
        self.unsym(a, n);
        let a = a as usize;
        match n {
            8 => self.mem[a..a + 8].copy_from_slice(&v.lo.to_le_bytes()),
            1 => self.mem[a] = v.lo as u8,
            4 => self.mem[a..a + 4].copy_from_slice(&(v.lo as u32).to_le_bytes()),
            16 => self.mem[a..a + 16].copy_from_slice(&v.w().to_le_bytes()),
            _ if n <= 16 => {
                let b = v.w().to_le_bytes();
                self.mem[a..a + n as usize].copy_from_slice(&b[..n as usize]);
            }
            _ => return unsup(format!("store of {bits} bits")),
        }
        Ok(())
    }
    pub fn memmove(&mut self, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        self.chk(d, n)?;
        self.chk(s, n)?;
        let symsrc = self.flag_range(s, n);
        let mut ents = vec![];
        if symsrc {
            for i in 0..n {
                if let Some(e) = self.over.get(&(s + i)) {
                    ents.push((i, *e));
                }
            }
        }
        self.touch(d, n);
        self.unsym(d, n);
        self.mem.copy_within(s as usize..(s + n) as usize, d as usize);
        for (i, e) in ents {
            self.over.insert(d + i, e);
            let w = (d + i) >> 3;
            if self.flags[w as usize] == 0 {
                self.flags[w as usize] = 1;
                self.flagged.push(w);
            }
        }
        Ok(())
    }
    pub fn alloc(&mut self, size: u64, align: u64, zero: bool) -> R<u64> {
        let al = align.max(8);
        let a = (self.heap + al - 1) / al * al;
        if size > END || a + size + 16 > END {
            return Err(Stop::Limit("heap".into()));
        }
        self.heap = a + size.max(1) + 8;
        if zero {
            self.mem[a as usize..(a + size) as usize].fill(0);
        }
        if self.heap > self.heap_max {
            self.heap_max = self.heap;
        }
        Ok(a)
    }
    /// 0 equal, else sign of the comparison (lexicographic). `eq_only`: result nonzero just means different
    pub fn memcmp(&mut self, a: u64, b: u64, n: u64, eq_only: bool) -> R<i32> {
        if n == 0 {
            return Ok(0);
        }
        self.chk(a, n)?;
        self.chk(b, n)?;
        if !self.flag_range(a, n) && !self.flag_range(b, n) {
            let x = &self.mem[a as usize..(a + n) as usize];
            let y = &self.mem[b as usize..(b + n) as usize];
            let r = x.cmp(y) as i32;
            if r != 0 {
                let i = x.iter().zip(y).position(|(p, q)| p != q).unwrap();
                if Self::tok_near(x, i) || Self::tok_near(y, i) {
                    return unsup(format!("comparison of formatted symbolic numbers in {}", self.whereami()));
                }
            }
            return Ok(r);
        }
        let mut i = 0;
        while i < n {
            let ea = self.over.get(&(a + i)).copied();
            let eb = self.over.get(&(b + i)).copied();
            if ea.is_none() && eb.is_none() {
                let (x, y) = (self.mem[(a + i) as usize], self.mem[(b + i) as usize]);
                if x != y {
                    return Ok(if x < y { -1 } else { 1 });
                }
                i += 1;
                continue;
            }
            // length of the run: take the longer remaining piece
            let rem = |e: Option<(Id, u8, u8)>| e.map_or(1, |(_, m, x)| (m - x) as u64);
            let k = rem(ea).max(rem(eb)).min(n - i).min(32);
            let x = self.rd_id(a + i, k)?;
            let y = self.rd_id(b + i, k)?;
            if x == y {
                i += k;
                continue;
            }
            if eq_only {
                let c = self.ctx.eq_ab(x, y);
                if !self.decide(c)? {
                    return Ok(1);
                }
            } else {
                let (x, y) = if k > 1 {
                    (self.ctx_bsw(x, k as u32), self.ctx_bsw(y, k as u32))
                } else {
                    (x, y)
                };
                let r = self.cmp3(x, y)?;
                if r != 0 {
                    return Ok(r);
                }
            }
            i += k;
        }
        Ok(0)
    }
    fn tok_near(x: &[u8], i: usize) -> bool {
        // is position i inside a token "@S123" / "@D123"?
        let mut j = i as i64;
        let mut steps = 0;
        while j >= 0 && steps < 12 {
            let c = x[j as usize];
            if c == b'@' {
                return x.get(j as usize + 1).map_or(false, |c| *c == b'S' || *c == b'D');
            }
            if !(c.is_ascii_digit() || c == b'S' || c == b'D') && j as usize != i {
                return false;
            }
            j -= 1;
            steps += 1;
        }
        false
    }
    pub fn ctx_bsw(&mut self, x: Id, n: u32) -> Id {
        if let Some(c) = self.ctx.as_const(x) {
            let v = bswap_big(c, n);
            return self.ctx.constant(v);
        }
        self.ctx.bswap(x, n)
    }
    pub fn cmp3(&mut self, x: Id, y: Id) -> R<i32> {
        let lt = self.ctx.lt_ab(x, y);
        if self.decide(lt)? {
            return Ok(-1);
        }
        let eq = self.ctx.eq_ab(x, y);
        if self.decide(eq)? {
            return Ok(0);
        }
        Ok(1)
    }

    // ------------------------------------------------------------ values
    pub fn id(&mut self, v: Val) -> Id {
        if v.s != 0 {
            let r = self.ctx.resolve(v.s);
            return r;
        }
        self.ctx.cu(v.w())
    }
    /// integer id (booleans converted)
    pub fn iid(&mut self, v: Val) -> Id {
        let i = self.id(v);
        if self.ctx.is_bool(i) {
            self.ctx.bool2int(i)
        } else {
            i
        }
    }
    pub fn bid(&mut self, v: Val) -> Id {
        if v.s != 0 {
            if self.ctx.is_bool(v.s) {
                v.s
            } else {
                let one = self.ctx.cu(1);
                let m = self.ctx.mod_c(v.s, big(2));
                self.ctx.eq_ab(m, one)
            }
        } else {
            self.ctx.b(v.lo & 1 == 1)
        }
    }
    pub fn val(&mut self, id: Id, _bits: u32) -> Val {
        if id == TRUE {
            return Val::c(1);
        }
        if id == FALSE {
            return Val::c(0);
        }
        match self.ctx.as_const(id) {
            Some(c) => match to_u128(&c) {
                Some(u) => Val::c128(u),
                None => Val { lo: 0, hi: 0, s: id },
            },
            None => Val { lo: 0, hi: 0, s: id },
        }
    }
    #[inline]
    fn op(&self, base: usize, o: Op) -> Val {
        match o {
            Op::R(r) => self.regs[base + r as usize],
            Op::C(a, b) => Val { lo: a, hi: b, s: 0 },
        }
    }

    // ------------------------------------------------------------ decisions
    fn model_eval(&self, c: Id) -> Option<bool> {
        let m = self.model.as_ref()?;
        let mut memo = HashMap::new();
        let v = self.ctx.eval(c, m, &mut memo)?;
        Some(!v.is_zero())
    }
    pub fn query(&mut self, extra: Id, ms: u64, full: bool) -> Sat {
        let asserts = if full {
            let mut v = self.ctx.pc.clone();
            v.push(extra);
            v
        } else {
            let mut v = self.ctx.slice(&[extra]);
            v.push(extra);
            v
        };
        match self.ctx.smt(&asserts, false) {
            Ok((t, names)) => self.sess.check(&t, &names, ms),
            Err(_) => Sat::Unknown,
        }
    }
    /// merge a (sliced) model with the current path model; None if it does not satisfy everything
    fn merged(&mut self, m: &Model, extra: Id) -> Option<Model> {
        let mut r = self.model.clone().unwrap_or_default();
        for (k, v) in m {
            r.insert(k.clone(), *v);
        }
        for v in &self.ctx.vars {
            r.entry(v.name.clone()).or_insert(v.lo);
        }
        let mut ids = self.ctx.pc.clone();
        ids.push(extra);
        if self.ctx.holds(&ids, &r) {
            Some(r)
        } else {
            None
        }
    }
    pub fn feas(&mut self, extra: Id) -> (Option<bool>, Option<Model>) {
        let ms = self.opts.fork_ms;
        match self.query(extra, ms, false) {
            Sat::Unsat => (Some(false), None),
            Sat::Unknown => (None, None),
            Sat::Sat(m) => {
                let r = self.merged(&m, extra);
                if r.is_some() || self.model.is_some() {
                    return (Some(true), r);
                }
                match self.query(extra, ms, true) {
                    Sat::Unsat => (Some(false), None),
                    Sat::Unknown => (None, None),
                    Sat::Sat(m) => {
                        let r = self.merged(&m, extra);
                        (Some(true), r)
                    }
                }
            }
        }
    }
    fn push_alt(&mut self, d: u16, model: Option<Model>) {
        let mut p = self.trace.clone();
        p.push(d);
        let mut sites = self.sites.clone();
        sites.push(self.site());
        self.out.alts.push(Item { prefix: p, sites, model });
    }
    pub fn replaying(&self) -> bool {
        self.trace.len() < self.prefix.len()
    }
    /// the program point of a decision
    fn site(&self) -> u32 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        for f in self.frames.iter().rev().take(6) {
            (self.fns[f.fi as usize].dem.as_str(), f.pc).hash(&mut h);
        }
        self.frames.len().hash(&mut h);
        h.finish() as u32
    }
    /// take decision `d`, here
    fn take(&mut self, d: u16) {
        let s = self.site();
        self.trace.push(d);
        self.sites.push(s);
    }
    /// the next decision of the prefix; it must have been taken here
    fn replayed(&mut self) -> R<Option<u16>> {
        let k = self.trace.len();
        if k >= self.prefix.len() {
            return Ok(None);
        }
        if let Some(w) = self.want.get(k) {
            if *w != self.site() {
                return unsup(format!("a replayed path takes another course in {}", self.whereami()));
            }
        }
        let d = self.prefix[k];
        self.take(d);
        Ok(Some(d))
    }
    /// whether the path condition implies `c`, by the solver; then it is assumed
    pub fn forced(&mut self, c: Id) -> R<bool> {
        let d = match self.replayed()? {
            Some(d) => d == 1,
            None => {
                let nc = self.ctx.not(c);
                let d = matches!(self.feas(nc).0, Some(false));
                self.take(d as u16);
                d
            }
        };
        if d {
            self.assume_in(c)?;
        }
        Ok(d)
    }
    fn assume_in(&mut self, c: Id) -> R<()> {
        self.ctx.assume(c);
        if self.ctx.contradiction {
            return Err(Stop::Infeasible);
        }
        Ok(())
    }
    pub fn decide(&mut self, c: Id) -> R<bool> {
        if let Some(b) = self.ctx.truth_deep(c) {
            // implied: record it, so later steps can use it
            let f = if b { c } else { self.ctx.not(c) };
            self.ctx.imply(f);
            return Ok(b);
        }
        let nc = self.ctx.not(c);
        if let Some(d) = self.replayed()? {
            let b = d == 1;
            self.assume_in(if b { c } else { nc })?;
            return Ok(b);
        }
        self.out.forks += 1;
        if self.out.forks > self.opts.max_forks {
            return Err(Stop::Limit("forks".into()));
        }
        if self.opts.trace {
            eprintln!("fork {} {} @ {}", self.trace.len(), self.ctx.show(c, 5), self.whereami());
        }
        let take;
        match self.model_eval(c) {
            Some(v) => {
                take = v;
                let other = if v { nc } else { c };
                match self.feas(other) {
                    (Some(false), _) => {}
                    (_, m) => self.push_alt(!v as u16, m),
                }
            }
            None => {
                let (f1, m1) = self.feas(c);
                let (f2, m2) = self.feas(nc);
                match (f1, f2) {
                    (Some(false), Some(false)) => return Err(Stop::Infeasible),
                    (Some(false), _) => {
                        take = false;
                        self.model = m2;
                    }
                    (_, Some(false)) => {
                        take = true;
                        self.model = m1;
                    }
                    _ => {
                        // prefer a side with a model
                        take = m1.is_some() || m2.is_none();
                        if take {
                            self.push_alt(0, m2);
                            self.model = m1;
                        } else {
                            self.push_alt(1, m1);
                            self.model = m2;
                        }
                    }
                }
            }
        }
        self.take(take as u16);
        self.assume_in(if take { c } else { nc })?;
        Ok(take)
    }
    pub fn choose(&mut self, n: u64) -> R<u64> {
        if let Some(d) = self.replayed()? {
            return Ok(d as u64);
        }
        for i in (1..n).rev() {
            let m = self.model.clone();
            self.push_alt(i as u16, m);
        }
        self.take(0);
        Ok(0)
    }
    pub fn assume_user(&mut self, c: Id) -> R<()> {
        match self.ctx.truth_deep(c) {
            Some(true) => return Ok(()),
            Some(false) => return Err(Stop::Assume),
            None => {}
        }
        let replay = self.trace.len() < self.prefix.len();
        let mv = self.model_eval(c);
        if mv != Some(true) && !replay {
            match self.feas(c) {
                (Some(false), _) => return Err(Stop::Assume),
                (_, m) => self.model = m,
            }
        }
        self.ctx.assume(c);
        if self.ctx.contradiction {
            return Err(Stop::Assume);
        }
        Ok(())
    }
    /// give a symbolic value a concrete value by forking over its (small) range
    pub fn concretize(&mut self, id: Id, what: &str) -> R<u128> {
        let id = self.ctx.resolve(id);
        let id = if self.ctx.is_bool(id) { self.ctx.bool2int(id) } else { id };
        if let Some(c) = self.ctx.as_const(id) {
            return to_u128(&c).ok_or(Stop::Unsupported("negative".into()));
        }
        let iv = self.ctx.iv(id);
        if let (Some(l), Some(h)) = (iv.lo, iv.hi) {
            if h - l <= big(300) {
                let mut v = l;
                while v < h {
                    let k = self.ctx.constant(v);
                    let c = self.ctx.eq_ab(id, k);
                    if self.decide(c)? {
                        return to_u128(&v).ok_or(Stop::Unsupported("negative".into()));
                    }
                    v = v + one();
                }
                let k = self.ctx.constant(h);
                let c = self.ctx.eq_ab(id, k);
                if self.decide(c)? {
                    return to_u128(&h).ok_or(Stop::Unsupported("negative".into()));
                }
                return Err(Stop::Infeasible);
            }
        }
        // maybe it is forced by the path condition: the value is part of the trace, in eight parts
        let mut v: Option<u128> = None;
        if self.trace.len() < self.prefix.len() {
            let mut w = 0u128;
            for i in 0..8 {
                w |= (self.replayed()?.unwrap_or(0) as u128) << (16 * i);
            }
            v = Some(w);
        } else if let Some(m) = &self.model {
            let mut memo = HashMap::new();
            if let Some(w) = self.ctx.eval(id, m, &mut memo).and_then(|w| to_u128(&w)) {
                let k = self.ctx.constant(Big::from(w));
                let e = self.ctx.eq_ab(id, k);
                let ne = self.ctx.not(e);
                if let (Some(false), _) = self.feas(ne) {
                    for i in 0..8 {
                        self.take((w >> (16 * i)) as u16);
                    }
                    v = Some(w);
                }
            }
        }
        if let Some(w) = v {
            let k = self.ctx.constant(Big::from(w));
            let e = self.ctx.eq_ab(id, k);
            self.assume_in(e)?;
            return Ok(w);
        }
        let s = self.ctx.show(id, 4);
        unsup(format!("{what} depends on a symbolic value {s} in {}", self.whereami()))
    }
    pub fn conc(&mut self, v: Val, what: &str) -> R<u64> {
        if v.s == 0 {
            return Ok(v.lo);
        }
        Ok(self.concretize(v.s, what)? as u64)
    }
    pub fn full_model(&mut self) -> Option<Model> {
        let mut m = self.model.clone()?;
        for v in &self.ctx.vars {
            m.entry(v.name.clone()).or_insert(v.lo);
        }
        Some(m)
    }
    /// try to obtain a model of the whole path condition
    pub fn ensure_model(&mut self, ms: u64) -> Option<Model> {
        if self.model.is_some() {
            return self.full_model();
        }
        if let Sat::Sat(m) = self.query(TRUE, ms, true) {
            let r = self.merged(&m, TRUE);
            self.model = r.clone();
            return r;
        }
        None
    }
    pub fn check(&mut self, c: Id, label: &str) -> R<()> {
        let replay = self.trace.len() < self.prefix.len();
        if let Some(true) = self.ctx.truth_deep(c) {
            if !replay {
                self.out.checks.push((label.into(), 0));
            }
            return Ok(());
        }
        if replay {
            // decided on the path that created this alternative
            self.ctx.assume(c);
            return Ok(());
        }
        let nc = self.ctx.not(c);
        let mut viol: Option<Model> = None;
        let mut done = false;
        if self.model_eval(nc) == Some(true) {
            viol = self.full_model();
            done = true;
        }
        if !done {
            let ms = self.opts.check_ms;
            match self.query(nc, ms, false) {
                Sat::Unsat => {
                    self.out.checks.push((label.into(), 1));
                    done = true;
                }
                Sat::Sat(m) => {
                    viol = self.merged(&m, nc);
                    if viol.is_none() {
                        match self.query(nc, ms, true) {
                            Sat::Unsat => {
                                self.out.checks.push((label.into(), 1));
                                done = true;
                            }
                            Sat::Sat(m) => {
                                viol = self.merged(&m, nc);
                                done = viol.is_some();
                            }
                            Sat::Unknown => {}
                        }
                    } else {
                        done = true;
                    }
                }
                Sat::Unknown => {}
            }
        }
        if let Some(m) = viol {
            self.out.violations.push(Violation {
                label: label.into(),
                model: m,
                choices: self.out.choices.clone(),
                note: String::new(),
            });
        } else if !done {
            let base = self.full_model();
            // without a model of the whole path, only the whole path condition will do
            let mut asserts = if base.is_some() { self.ctx.slice(&[nc]) } else { self.ctx.pc.clone() };
            asserts.push(nc);
            let a = self.ctx.smt(&asserts, false);
            let b = self.ctx.smt(&asserts, true);
            let lows = self.ctx.vars.iter().map(|v| (v.name.clone(), v.lo)).collect();
            match (a, b) {
                (Ok((int, names)), Ok((real, _))) => self.out.hard.push(Hard {
                    label: label.into(),
                    int,
                    real,
                    names,
                    base,
                    choices: self.out.choices.clone(),
                    lows,
                }),
                (Err(e), _) | (_, Err(e)) => return unsup(format!("check {label}: {e}")),
            }
        }
        // continue under the checked condition
        if self.model_eval(c) != Some(true) {
            match self.feas(c) {
                (Some(false), _) => return Err(Stop::Infeasible),
                (_, m) => self.model = m,
            }
        }
        self.ctx.assume(c);
        if self.ctx.contradiction {
            return Err(Stop::Infeasible);
        }
        Ok(())
    }

    // ------------------------------------------------------------ arithmetic
    fn mask(bits: u32) -> u128 {
        if bits >= 128 {
            u128::MAX
        } else {
            (1u128 << bits) - 1
        }
    }
    pub fn wrap(&mut self, id: Id, bits: u32) -> Id {
        self.ctx.mod_c(id, pow2(bits))
    }
    /// signed reading of a w-bit value
    pub fn signed(&mut self, id: Id, bits: u32) -> Id {
        let iv = self.ctx.iv(id);
        let half = pow2(bits - 1);
        if let Some(h) = iv.hi {
            if h < half {
                return id;
            }
        }
        let w = self.ctx.constant(pow2(bits));
        let neg = self.ctx.sub(id, w);
        if let Some(l) = iv.lo {
            if l >= half {
                return neg;
            }
        }
        // Mod(x, 2^w) with x in the signed range
        if let N::Mod(x, m) = self.ctx.n(id).clone() {
            if self.ctx.as_const(m) == Some(pow2(bits)) {
                let i = self.ctx.iv(x);
                if let (Some(l), Some(h)) = (i.lo, i.hi) {
                    if l >= -half && h < half {
                        return x;
                    }
                }
            }
        }
        let hc = self.ctx.constant(half);
        let c = self.ctx.lt_ab(id, hc);
        self.ctx.ite(c, id, neg)
    }
    pub fn arith(&mut self, op: BinOp, bits: u32, a: Val, b: Val) -> R<Val> {
        use BinOp::*;
        if a.s == 0 && b.s == 0 {
            let m = Self::mask(bits);
            let (x, y) = (a.w(), b.w());
            let sx = |v: u128| -> i128 {
                let s = 128 - bits;
                ((v << s) as i128) >> s
            };
            let r = match op {
                Add => x.wrapping_add(y),
                Sub => x.wrapping_sub(y),
                Mul => x.wrapping_mul(y),
                UDiv | URem | SDiv | SRem if y == 0 => return Err(Stop::Panic("division by zero".into())),
                UDiv => x / y,
                URem => x % y,
                SDiv => sx(x).wrapping_div(sx(y)) as u128,
                SRem => sx(x).wrapping_rem(sx(y)) as u128,
                And => x & y,
                Or => x | y,
                Xor => x ^ y,
                Shl => {
                    if y >= 128 {
                        0
                    } else {
                        x << y
                    }
                }
                LShr => {
                    if y >= 128 {
                        0
                    } else {
                        x >> y
                    }
                }
                AShr => (sx(x) >> (y.min(127) as u32)) as u128,
                FAdd | FSub | FMul | FDiv | FRem => {
                    let (p, q) = (f64::from_bits(a.lo), f64::from_bits(b.lo));
                    let r = match op {
                        FAdd => p + q,
                        FSub => p - q,
                        FMul => p * q,
                        FDiv => p / q,
                        _ => p % q,
                    };
                    r.to_bits() as u128
                }
            };
            return Ok(Val::c128(r & m));
        }
        if bits == 1 {
            let (x, y) = (self.bid(a), self.bid(b));
            let r = match op {
                And | Mul => self.ctx.and(x, y),
                Or => self.ctx.or(x, y),
                Xor | Add | Sub => self.ctx.xor(x, y),
                _ => return unsup("i1 arithmetic"),
            };
            return Ok(self.val(r, 1));
        }
        let (x, y) = (self.iid(a), self.iid(b));
        let cx = self.ctx.as_const(x);
        let cy = self.ctx.as_const(y);
        let r = match op {
            Add => {
                let t = self.ctx.add(x, y);
                self.wrap(t, bits)
            }
            Sub => {
                let t = self.ctx.sub(x, y);
                self.wrap(t, bits)
            }
            Mul => {
                let t = self.ctx.mul(x, y);
                self.wrap(t, bits)
            }
            UDiv | URem => {
                let i = self.ctx.iv(y);
                if !i.pos() {
                    let z = self.ctx.cu(0);
                    let c = self.ctx.eq_ab(y, z);
                    if self.decide(c)? {
                        return Err(Stop::Panic("division by zero".into()));
                    }
                }
                if op == UDiv {
                    self.ctx.div(x, y)
                } else {
                    self.ctx.modulo(x, y)
                }
            }
            SDiv | SRem => {
                let (sx, sy) = (self.signed(x, bits), self.signed(y, bits));
                let z = self.ctx.cu(0);
                let c = self.ctx.eq_ab(sy, z);
                if self.decide(c)? {
                    return Err(Stop::Panic("division by zero".into()));
                }
                let nx = self.ctx.lt_ab(sx, z);
                let nx = self.decide(nx)?;
                let ny = self.ctx.lt_ab(sy, z);
                let ny = self.decide(ny)?;
                let ax = if nx { self.ctx.sub(z, sx) } else { sx };
                let ay = if ny { self.ctx.sub(z, sy) } else { sy };
                let r = if op == SDiv {
                    let q = self.ctx.div(ax, ay);
                    if nx != ny {
                        self.ctx.sub(z, q)
                    } else {
                        q
                    }
                } else {
                    let q = self.ctx.modulo(ax, ay);
                    if nx {
                        self.ctx.sub(z, q)
                    } else {
                        q
                    }
                };
                self.wrap(r, bits)
            }
            And => {
                if let Some(m) = cy.or(cx) {
                    let v = if cy.is_some() { x } else { y };
                    self.and_mask(v, m, bits)
                } else if x == y {
                    x
                } else {
                    let (ix, iy) = (self.ctx.iv(x), self.ctx.iv(y));
                    if ix.hi == Some(one()) && iy.hi == Some(one()) {
                        self.ctx.mul(x, y)
                    } else {
                        return unsup(format!("and of symbolic values in {}", self.whereami()));
                    }
                }
            }
            Or => self.or_id(x, y, bits)?,
            Xor => {
                let full = pow2(bits) - one();
                if cy == Some(full) || cx == Some(full) {
                    let v = if cy.is_some() { x } else { y };
                    let f = self.ctx.constant(full);
                    self.ctx.sub(f, v)
                } else if x == y {
                    self.ctx.cu(0)
                } else if cy == Some(zero()) {
                    x
                } else if cx == Some(zero()) {
                    y
                } else {
                    let (ix, iy) = (self.ctx.iv(x), self.ctx.iv(y));
                    if ix.hi == Some(one()) && iy.hi == Some(one()) {
                        let e = self.ctx.eq_ab(x, y);
                        let ne = self.ctx.not(e);
                        self.ctx.bool2int(ne)
                    } else {
                        return unsup(format!("xor of symbolic values in {}", self.whereami()));
                    }
                }
            }
            Shl | LShr | AShr => {
                let k = match cy {
                    Some(k) => to_u128(&k).unwrap() as u32,
                    None => {
                        if let (Shl, Some(_)) = (op, cx) {
                            // 2^y etc. : concretize small shift
                        }
                        self.concretize(y, "shift amount")? as u32
                    }
                };
                if k >= bits {
                    return unsup("oversized shift");
                }
                match op {
                    Shl => {
                        let t = self.ctx.scale(x, pow2(k));
                        self.wrap(t, bits)
                    }
                    LShr => {
                        let d = self.ctx.constant(pow2(k));
                        self.ctx.div(x, d)
                    }
                    _ => {
                        let s = self.signed(x, bits);
                        let d = self.ctx.constant(pow2(k));
                        let q = self.ctx.div(s, d);
                        self.wrap(q, bits)
                    }
                }
            }
            _ => return unsup("symbolic float"),
        };
        Ok(self.val(r, bits))
    }
    fn and_mask(&mut self, v: Id, m: Big, bits: u32) -> Id {
        let mut r = self.ctx.cu(0);
        let m = to_u128(&m).unwrap();
        let mut i = 0;
        while i < bits {
            if m >> i & 1 == 1 {
                let mut j = i;
                while j < bits && m >> j & 1 == 1 {
                    j += 1;
                }
                let d = self.ctx.constant(pow2(i));
                let q = self.ctx.div(v, d);
                let q = if j < bits { self.ctx.mod_c(q, pow2(j - i)) } else { q };
                let t = self.ctx.scale(q, pow2(i));
                r = self.ctx.add(r, t);
                i = j;
            } else {
                i += 1;
            }
        }
        r
    }
    fn or_id(&mut self, x: Id, y: Id, bits: u32) -> R<Id> {
        if x == y {
            return Ok(x);
        }
        for (p, q) in [(x, y), (y, x)] {
            // p multiple of 2^k, q < 2^k
            let iq = self.ctx.iv(q);
            if let Some(h) = iq.hi {
                if h.is_zero() {
                    return Ok(p);
                }
                let mut k = 0;
                while pow2(k) <= h {
                    k += 1;
                }
                if k < bits {
                    let r = self.ctx.mod_c(p, pow2(k));
                    if self.ctx.as_const(r) == Some(zero()) {
                        return Ok(self.ctx.add(p, q));
                    }
                }
            }
        }
        let (ix, iy) = (self.ctx.iv(x), self.ctx.iv(y));
        if ix.hi == Some(one()) && iy.hi == Some(one()) {
            let o = self.ctx.cu(1);
            let a = self.ctx.eq_ab(x, o);
            let b = self.ctx.eq_ab(y, o);
            let c = self.ctx.or(a, b);
            return Ok(self.ctx.bool2int(c));
        }
        // constant mask: x | c = x - (x & c) + c
        for (p, q) in [(x, y), (y, x)] {
            if let Some(c) = self.ctx.as_const(q) {
                let a = self.and_mask(p, c, bits);
                let t = self.ctx.sub(p, a);
                return Ok(self.ctx.add(t, q));
            }
        }
        unsup(format!("or of symbolic values in {}", self.whereami()))
    }
    pub fn icmp(&mut self, pred: Pred, bits: u32, a: Val, b: Val) -> R<Val> {
        use Pred::*;
        if a.s == 0 && b.s == 0 {
            let (x, y) = (a.w(), b.w());
            let sx = |v: u128| -> i128 {
                let s = 128 - bits;
                ((v << s) as i128) >> s
            };
            let r = match pred {
                Eq => x == y,
                Ne => x != y,
                Ult => x < y,
                Ule => x <= y,
                Ugt => x > y,
                Uge => x >= y,
                Slt => sx(x) < sx(y),
                Sle => sx(x) <= sx(y),
                Sgt => sx(x) > sx(y),
                Sge => sx(x) >= sx(y),
            };
            return Ok(Val::c(r as u64));
        }
        if bits == 1 {
            let (x, y) = (self.bid(a), self.bid(b));
            let xr = self.ctx.xor(x, y);
            let r = match pred {
                Eq => self.ctx.not(xr),
                Ne => xr,
                Ult => {
                    let n = self.ctx.not(x);
                    self.ctx.and(n, y)
                }
                Ugt => {
                    let n = self.ctx.not(y);
                    self.ctx.and(n, x)
                }
                Ule => {
                    let n = self.ctx.not(x);
                    self.ctx.or(n, y)
                }
                Uge => {
                    let n = self.ctx.not(y);
                    self.ctx.or(n, x)
                }
                _ => return unsup("signed i1 compare"),
            };
            return Ok(self.val(r, 1));
        }
        let (mut x, mut y) = (self.iid(a), self.iid(b));
        if matches!(pred, Slt | Sle | Sgt | Sge) {
            x = self.signed(x, bits);
            y = self.signed(y, bits);
        }
        let r = match pred {
            Eq => self.ctx.eq_ab(x, y),
            Ne => {
                let e = self.ctx.eq_ab(x, y);
                self.ctx.not(e)
            }
            Ult | Slt => self.ctx.lt_ab(x, y),
            Ugt | Sgt => self.ctx.lt_ab(y, x),
            Uge | Sge => self.ctx.ge_ab(x, y),
            Ule | Sle => self.ctx.ge_ab(y, x),
        };
        Ok(self.val(r, 1))
    }
    fn cast(&mut self, op: Cast, from: u32, to: u32, a: Val) -> R<Val> {
        if a.s == 0 {
            let v = a.w();
            let r = match op {
                Cast::Sext => {
                    let s = 128 - from;
                    ((((v << s) as i128) >> s) as u128) & Self::mask(to)
                }
                _ => v & Self::mask(to),
            };
            return Ok(Val::c128(r));
        }
        match op {
            Cast::Copy => Ok(a),
            Cast::Zext => {
                let i = self.iid(a);
                Ok(self.val(i, to))
            }
            Cast::Trunc => {
                if to == 1 {
                    let b = self.bid(a);
                    return Ok(self.val(b, 1));
                }
                let i = self.iid(a);
                let r = self.wrap(i, to);
                Ok(self.val(r, to))
            }
            Cast::Sext => {
                if from == 1 {
                    let b = self.bid(a);
                    let m = self.ctx.constant(pow2(to) - one());
                    let z = self.ctx.cu(0);
                    let r = self.ctx.ite(b, m, z);
                    return Ok(self.val(r, to));
                }
                let i = self.iid(a);
                let s = self.signed(i, from);
                let r = self.wrap(s, to);
                Ok(self.val(r, to))
            }
            Cast::Unsup => unsup("cast"),
        }
    }

    // ------------------------------------------------------------ execution
    pub fn func(&mut self, fi: u32) -> R<Rc<Func>> {
        if let Some(f) = &self.fns[fi as usize].func {
            return Ok(f.clone());
        }
        let (m, name) = {
            let e = &self.fns[fi as usize];
            (e.m, e.name.clone())
        };
        if m == usize::MAX {
            return unsup(format!("external function {name} called from {}", self.whereami()));
        }
        let prog = self.prog.clone();
        let mut d = Dec { prog: &prog, m, link: self };
        let f = Rc::new(d.function(&name));
        self.fns[fi as usize].func = Some(f.clone());
        Ok(f)
    }
    pub fn push_call(&mut self, fi: u32, args: &[Val], d: u32, nret: u32, patch: Option<Patch>) -> R<()> {
        let f = self.func(fi)?;
        if f.nparams as usize != args.len() {
            return unsup(format!("arity of {}: {} vs {}", f.name, f.nparams, args.len()));
        }
        if self.frames.len() > 2000 {
            return Err(Stop::Limit("call depth".into()));
        }
        self.fns[fi as usize].calls += 1;
        let base = match self.frames.last() {
            Some(fr) => fr.base + fr.f.nregs,
            None => 0,
        };
        let need = (base + f.nregs) as usize;
        if self.regs.len() < need {
            self.regs.resize(need.max(1024), Val::c(0));
        }
        self.regs[base as usize..base as usize + args.len()].copy_from_slice(args);
        let sp = self.sp;
        let prev = f.block_of.first().copied().unwrap_or(0);
        self.frames.push(Frame { f, fi, pc: 0, base, prev, sp, d, nret, patch });
        Ok(())
    }
    pub fn set_ret(&mut self, d: u32, vals: &[Val]) {
        if d == u32::MAX {
            return;
        }
        let base = self.frames.last().unwrap().base as usize;
        for (i, v) in vals.iter().enumerate() {
            self.regs[base + d as usize + i] = *v;
        }
    }
    fn do_ret(&mut self, mut vals: Vec<Val>) -> R<bool> {
        let fr = self.frames.pop().unwrap();
        self.sp = fr.sp;
        if let Some(p) = &fr.patch {
            let mb = p.magic.to_le_bytes();
            let mut n = 0;
            for v in vals.iter_mut() {
                if v.s == 0 && v.w() == p.magic {
                    *v = Val { lo: 0, hi: 0, s: p.id };
                    n += 1;
                }
            }
            if p.area != 0 {
                let nb = p.nb.min(16) as usize;
                for o in 0..64u64 {
                    let a = p.area + o;
                    if a as usize + p.nb as usize > END as usize {
                        break;
                    }
                    if self.mem[a as usize..a as usize + nb] == mb[..nb]
                        && !self.is_sym(a, p.nb as u64)
                        && self.mem[a as usize + nb..a as usize + p.nb as usize].iter().all(|x| *x == 0)
                    {
                        self.wr_sym(a, p.id, p.nb as u64)?;
                        n += 1;
                        break;
                    }
                }
            }
            if n == 0 {
                return unsup(format!("result of {} not found", self.fns[fr.fi as usize].dem));
            }
        }
        if self.frames.is_empty() {
            return Ok(true);
        }
        if fr.nret as usize == vals.len() {
            self.set_ret(fr.d, &vals);
        } else if fr.d != u32::MAX {
            return unsup("return arity");
        }
        Ok(false)
    }
    pub fn call(&mut self, fi: u32, args: &[Val], d: u32, nret: u32, abits: &[u32]) -> R<()> {
        let h = self.fns[fi as usize].hook.clone();
        if !matches!(h, Hook::None) {
            if self.run_hook(&h, fi, args, d, nret, abits)? {
                return Ok(());
            }
        }
        self.push_call(fi, args, d, nret, None)
    }

    pub fn run(&mut self, entry: u32, it: &Item) -> Stop {
        self.reset(it);
        let f = match self.func(entry) {
            Ok(f) => f,
            Err(e) => return e,
        };
        let args = vec![Val::c(0); f.nparams as usize];
        if let Err(e) = self.push_call(entry, &args, u32::MAX, 0, None) {
            return e;
        }
        let r = self.exec();
        self.out.steps = self.steps;
        match r {
            Ok(()) => Stop::Done,
            Err(Stop::Panic(m)) => {
                if let Some(l) = self.nopanic.last().cloned() {
                    // a panic where none is allowed: is the path feasible?
                    let label = format!("no panic: {l}");
                    match self.ensure_model(5000) {
                        Some(model) => self.out.violations.push(Violation {
                            label,
                            model,
                            choices: self.out.choices.clone(),
                            note: m.clone(),
                        }),
                        None => {
                            let pc = self.ctx.pc.clone();
                            if let (Ok((int, names)), Ok((real, _))) = (self.ctx.smt(&pc, false), self.ctx.smt(&pc, true)) {
                                let lows = self.ctx.vars.iter().map(|v| (v.name.clone(), v.lo)).collect();
                                self.out.hard.push(Hard {
                                    label,
                                    int,
                                    real,
                                    names,
                                    base: None,
                                    choices: self.out.choices.clone(),
                                    lows,
                                });
                            }
                        }
                    }
                }
                Stop::Panic(m)
            }
            Err(e) => e,
        }
    }

    fn goto(&mut self, b: u32) {
        let fr = self.frames.last_mut().unwrap();
        fr.prev = fr.f.block_of[fr.pc as usize];
        fr.pc = fr.f.block_pc[b as usize];
    }

    fn exec(&mut self) -> R<()> {
        loop {
            self.steps += 1;
            if self.steps > self.opts.max_steps {
                return Err(Stop::Limit(format!("steps in {}", self.whereami())));
            }
            let (f, pc, base) = {
                let fr = self.frames.last().unwrap();
                (fr.f.clone(), fr.pc as usize, fr.base as usize)
            };
            // run instructions of this frame until control leaves it
            let mut pc = pc;
            loop {
                let ins = &f.code[pc];
                match ins {
                    I::Load1 { d, p, bits } => {
                        let a = self.op(base, *p);
                        let a = if a.s != 0 { self.at(pc).conc(a, "address")? } else { a.lo };
                        let v = match self.load(a, *bits) {
                            Ok(v) => v,
                            Err(e) => {
                                self.at(pc);
                                return Err(e);
                            }
                        };
                        self.regs[base + *d as usize] = v;
                    }
                    I::Store { p, vals } => {
                        let a = self.op(base, *p);
                        let a = if a.s != 0 { self.at(pc).conc(a, "address")? } else { a.lo };
                        for (o, b, x) in vals.iter() {
                            let v = self.op(base, *x);
                            self.store(a.wrapping_add(*o), *b, v)?;
                        }
                    }
                    I::Gep { d, base: bp, off, idx } => {
                        let b = self.op(base, *bp);
                        let mut a = if b.s != 0 { self.at(pc).conc(b, "address")? } else { b.lo };
                        a = a.wrapping_add(*off as u64);
                        for (r, bits, sc) in idx.iter() {
                            let v = self.op(base, *r);
                            let k = if v.s != 0 { self.at(pc).conc(v, "index")? } else { v.lo };
                            let k = if *bits < 64 { ((k << (64 - bits)) as i64) >> (64 - bits) } else { k as i64 };
                            a = a.wrapping_add(k.wrapping_mul(*sc) as u64);
                        }
                        self.regs[base + *d as usize] = Val::c(a);
                    }
                    I::Bin { op, d, bits, a, b } => {
                        let (x, y) = (self.op(base, *a), self.op(base, *b));
                        if x.s != 0 || y.s != 0 {
                            self.at(pc);
                        }
                        let v = self.arith(*op, *bits, x, y)?;
                        self.regs[base + *d as usize] = v;
                    }
                    I::Icmp { pred, d, bits, a, b, .. } => {
                        let (x, y) = (self.op(base, *a), self.op(base, *b));
                        let v = self.icmp(*pred, *bits, x, y)?;
                        self.regs[base + *d as usize] = v;
                    }
                    I::Cast { op, d, from, to, a } => {
                        let x = self.op(base, *a);
                        let v = self.cast(*op, *from, *to, x)?;
                        self.regs[base + *d as usize] = v;
                    }
                    I::Alloca { d, size, align } => {
                        let al = (*align).max(8);
                        let a = (self.sp + al - 1) / al * al;
                        self.sp = a + size.max(&1);
                        if self.sp > HEAP {
                            return Err(Stop::Limit("stack".into()));
                        }
                        self.regs[base + *d as usize] = Val::c(a);
                    }
                    I::Load { d, p, parts } => {
                        let a = self.op(base, *p);
                        let a = if a.s != 0 { self.at(pc).conc(a, "address")? } else { a.lo };
                        for (i, (o, b)) in parts.iter().enumerate() {
                            let v = self.load(a.wrapping_add(*o), *b)?;
                            self.regs[base + *d as usize + i] = v;
                        }
                    }
                    I::Copy { d, src } => {
                        let vs: Vec<Val> = src.iter().map(|o| self.op(base, *o)).collect();
                        for (i, v) in vs.into_iter().enumerate() {
                            self.regs[base + *d as usize + i] = v;
                        }
                    }
                    I::Select { d, c, a, b, ptr, bits } => {
                        let cv = self.op(base, *c);
                        if cv.s == 0 {
                            let src = if cv.lo & 1 == 1 { a } else { b };
                            let vs: Vec<Val> = src.iter().map(|o| self.op(base, *o)).collect();
                            for (i, v) in vs.into_iter().enumerate() {
                                self.regs[base + *d as usize + i] = v;
                            }
                        } else {
                            self.at(pc);
                            let cb = self.bid(cv);
                            let mut done = false;
                            if !*ptr && a.len() == 1 && self.ctx.truth(cb).is_none() {
                                let (x, y) = (self.op(base, a[0]), self.op(base, b[0]));
                                let (xi, yi) = if bits[0] == 1 { (self.bid(x), self.bid(y)) } else { (self.iid(x), self.iid(y)) };
                                let r = self.ctx.ite(cb, xi, yi);
                                let v = self.val(r, bits[0]);
                                self.regs[base + *d as usize] = v;
                                done = true;
                            }
                            if !done {
                                let t = self.decide(cb)?;
                                let src = if t { a } else { b };
                                let vs: Vec<Val> = src.iter().map(|o| self.op(base, *o)).collect();
                                for (i, v) in vs.into_iter().enumerate() {
                                    self.regs[base + *d as usize + i] = v;
                                }
                            }
                        }
                    }
                    I::Br(b) => {
                        self.frames.last_mut().unwrap().pc = pc as u32;
                        self.goto(*b);
                        break;
                    }
                    I::CondBr { c, t, f: fb } => {
                        let v = self.op(base, *c);
                        self.frames.last_mut().unwrap().pc = pc as u32;
                        let r = if v.s == 0 {
                            v.lo & 1 == 1
                        } else {
                            let cb = self.bid(v);
                            self.decide(cb)?
                        };
                        self.goto(if r { *t } else { *fb });
                        break;
                    }
                    I::Switch { v, bits, def, cases } => {
                        let x = self.op(base, *v);
                        self.frames.last_mut().unwrap().pc = pc as u32;
                        let mut tgt = *def;
                        if x.s == 0 {
                            let w = x.w();
                            for (k, b) in cases.iter() {
                                if *k == w {
                                    tgt = *b;
                                    break;
                                }
                            }
                        } else {
                            let id = if *bits == 1 { self.iid(x) } else { self.iid(x) };
                            for (k, b) in cases.iter() {
                                let kc = self.ctx.cu(*k);
                                let c = self.ctx.eq_ab(id, kc);
                                if self.decide(c)? {
                                    tgt = *b;
                                    break;
                                }
                            }
                        }
                        self.goto(tgt);
                        break;
                    }
                    I::Ret(v) => {
                        let vs: Vec<Val> = v.iter().map(|o| self.op(base, *o)).collect();
                        if self.do_ret(vs)? {
                            return Ok(());
                        }
                        break;
                    }
                    I::Call { d, nret, rbits, callee, args, abits } => {
                        let av: Vec<Val> = args.iter().map(|o| self.op(base, *o)).collect();
                        self.frames.last_mut().unwrap().pc = pc as u32 + 1;
                        match callee {
                            Callee::Fn(fi) => self.call(*fi, &av, *d, *nret, abits)?,
                            Callee::Ind(o) => {
                                let v = self.op(base, *o);
                                let a = self.conc(v, "function pointer")?;
                                if a < FNB || (a - FNB) % 16 != 0 || (a - FNB) / 16 >= self.fns.len() as u64 {
                                    return unsup(format!("bad function pointer {a:#x} in {}", self.whereami()));
                                }
                                self.call(((a - FNB) / 16) as u32, &av, *d, *nret, abits)?
                            }
                            Callee::Intr(n) => self.intrinsic(n, &av, abits, *d, rbits)?,
                        }
                        break;
                    }
                    I::Phi { .. } => {
                        // evaluate all phis of the block simultaneously
                        let prev = self.frames.last().unwrap().prev;
                        let mut k = pc;
                        let mut outs = vec![];
                        while let I::Phi { d, inc, .. } = &f.code[k] {
                            let o = inc.iter().find(|x| x.0 == prev).map(|x| x.1);
                            match o {
                                Some(o) => outs.push((*d, self.op(base, o))),
                                None => return unsup("phi predecessor"),
                            }
                            k += 1;
                        }
                        for (d, v) in outs {
                            self.regs[base + d as usize] = v;
                        }
                        pc = k;
                        continue;
                    }
                    I::CmpXchg { d, p, cmp, new, bits } => {
                        let a = self.op(base, *p).lo;
                        let old = self.load(a, *bits)?;
                        let c = self.op(base, *cmp);
                        let n = self.op(base, *new);
                        let e = old.s == 0 && c.s == 0 && old.w() == c.w();
                        if e {
                            self.store(a, *bits, n)?;
                        }
                        self.regs[base + *d as usize] = old;
                        self.regs[base + *d as usize + 1] = Val::c(e as u64);
                    }
                    I::Rmw { d, op, p, v, bits } => {
                        let a = self.op(base, *p).lo;
                        let old = self.load(a, *bits)?;
                        let x = self.op(base, *v);
                        let n = match op.as_str() {
                            "xchg" => x,
                            "add" => self.arith(BinOp::Add, *bits, old, x)?,
                            "sub" => self.arith(BinOp::Sub, *bits, old, x)?,
                            "and" => self.arith(BinOp::And, *bits, old, x)?,
                            "or" => self.arith(BinOp::Or, *bits, old, x)?,
                            _ => return unsup("atomicrmw"),
                        };
                        self.store(a, *bits, n)?;
                        self.regs[base + *d as usize] = old;
                    }
                    I::Unreachable => return unsup(format!("unreachable executed in {}", self.whereami())),
                    I::Unsup(s) => return unsup(format!("instruction {s} in {}", self.whereami())),
                }
                pc += 1;
                self.steps += 1;
            }
        }
    }
    /// remember the program point (for messages)
    fn at(&mut self, pc: usize) -> &mut Self {
        self.frames.last_mut().unwrap().pc = pc as u32;
        self
    }
    pub fn steps_total(&self) -> u64 {
        self.steps
    }

    fn ret1(&mut self, d: u32, v: Val) {
        self.set_ret(d, &[v]);
    }
    fn intrinsic(&mut self, n: &str, a: &[Val], ab: &[u32], d: u32, _rb: &[u32]) -> R<()> {
        let s = &n[if n.len() > 5 { 5 } else { 0 }..];
        if s.starts_with("memcpy") || s.starts_with("memmove") {
            let n = self.conc(a[2], "copy length")?;
            let dst = self.conc(a[0], "address")?;
            let src = self.conc(a[1], "address")?;
            return self.memmove(dst, src, n);
        }
        if s.starts_with("memset") {
            let n = self.conc(a[2], "set length")?;
            if n == 0 {
                return Ok(());
            }
            let p = a[0].lo;
            self.chk(p, n)?;
            let b = self.conc(a[1], "set byte")? as u8;
            self.touch(p, n);
            self.unsym(p, n);
            self.mem[p as usize..(p + n) as usize].fill(b);
            return Ok(());
        }
        if s.starts_with("lifetime") || s.starts_with("dbg") || s.starts_with("assume") || s.starts_with("experimental.noalias") || s.starts_with("donothing") {
            return Ok(());
        }
        if s.starts_with("expect") || s.starts_with("threadlocal.address") {
            self.ret1(d, a[0]);
            return Ok(());
        }
        let bits = ab.first().copied().unwrap_or(0);
        if s.contains(".with.overflow") {
            let signed = s.starts_with('s');
            let op = &s[1..4];
            if a[0].s == 0 && a[1].s == 0 {
                let (x, y) = (a[0].w(), a[1].w());
                let m = Self::mask(bits);
                let (r, o) = if !signed {
                    let (r, o) = match op {
                        "add" => x.overflowing_add(y),
                        "sub" => x.overflowing_sub(y),
                        _ => x.overflowing_mul(y),
                    };
                    (r & m, if bits == 128 { o } else { o || r & m != r })
                } else {
                    let sh = 128 - bits;
                    let (sx, sy) = (((x << sh) as i128) >> sh, ((y << sh) as i128) >> sh);
                    let (r, o) = match op {
                        "add" => sx.overflowing_add(sy),
                        "sub" => sx.overflowing_sub(sy),
                        _ => sx.overflowing_mul(sy),
                    };
                    let rr = (r as u128) & m;
                    let back = ((rr << sh) as i128) >> sh;
                    (rr, if bits == 128 { o } else { o || back != r })
                };
                self.set_ret(d, &[Val::c128(r), Val::c(o as u64)]);
                return Ok(());
            }
            let (mut x, mut y) = (self.iid(a[0]), self.iid(a[1]));
            if signed {
                x = self.signed(x, bits);
                y = self.signed(y, bits);
            }
            let r = match op {
                "add" => self.ctx.add(x, y),
                "sub" => self.ctx.sub(x, y),
                _ => self.ctx.mul(x, y),
            };
            let (lo, hi) = if signed { (-pow2(bits - 1), pow2(bits - 1) - one()) } else { (zero(), pow2(bits) - one()) };
            let (lo, hi) = (self.ctx.constant(lo), self.ctx.constant(hi));
            let under = self.ctx.lt_ab(r, lo);
            let over = self.ctx.lt_ab(hi, r);
            let o = self.ctx.or(under, over);
            // deciding here keeps wrapped values out of the path condition
            let o = self.decide(o)?;
            let w = self.wrap(r, bits);
            let w = self.ctx.resolve(w);
            let v = self.val(w, bits);
            self.set_ret(d, &[v, Val::c(o as u64)]);
            return Ok(());
        }
        if s.starts_with("uadd.sat") || s.starts_with("usub.sat") {
            let (x, y) = (self.iid(a[0]), self.iid(a[1]));
            let r = if s.starts_with("uadd") {
                let t = self.ctx.add(x, y);
                let m = self.ctx.constant(pow2(bits) - one());
                let c = self.ctx.lt_ab(m, t);
                self.ctx.ite(c, m, t)
            } else {
                let t = self.ctx.sub(x, y);
                let z = self.ctx.cu(0);
                let c = self.ctx.lt_ab(x, y);
                self.ctx.ite(c, z, t)
            };
            let v = self.val(r, bits);
            self.ret1(d, v);
            return Ok(());
        }
        if s.starts_with("ucmp") || s.starts_with("scmp") {
            let (mut x, mut y) = (self.iid(a[0]), self.iid(a[1]));
            if s.starts_with('s') {
                x = self.signed(x, bits);
                y = self.signed(y, bits);
            }
            let r = self.cmp3(x, y)?;
            let rb = _rb.first().copied().unwrap_or(8);
            self.ret1(d, Val::c128((r as i128 as u128) & Self::mask(rb)));
            return Ok(());
        }
        if s.starts_with("umin") || s.starts_with("umax") || s.starts_with("smin") || s.starts_with("smax") {
            let (x, y) = (self.iid(a[0]), self.iid(a[1]));
            let (sx, sy) = if s.starts_with('s') { (self.signed(x, bits), self.signed(y, bits)) } else { (x, y) };
            let c = if &s[1..4] == "min" { self.ctx.lt_ab(sx, sy) } else { self.ctx.lt_ab(sy, sx) };
            let r = self.ctx.ite(c, x, y);
            let v = self.val(r, bits);
            self.ret1(d, v);
            return Ok(());
        }
        if s.starts_with("bswap") {
            let nb = bits / 8;
            let x = self.iid(a[0]);
            let r = self.ctx_bsw(x, nb);
            let v = self.val(r, bits);
            self.ret1(d, v);
            return Ok(());
        }
        if s.starts_with("ctpop") || s.starts_with("ctlz") || s.starts_with("cttz") || s.starts_with("bitreverse") {
            if a[0].s != 0 {
                if s.starts_with("ctlz") {
                    return self.ctlz_sym(a[0], bits, d);
                }
                return unsup(format!("{s} of symbolic value in {}", self.whereami()));
            }
            let x = a[0].w();
            let r = if s.starts_with("ctpop") {
                x.count_ones()
            } else if s.starts_with("ctlz") {
                x.leading_zeros() - (128 - bits)
            } else if s.starts_with("cttz") {
                x.trailing_zeros().min(bits)
            } else {
                self.ret1(d, Val::c128(x.reverse_bits() >> (128 - bits)));
                return Ok(());
            };
            self.ret1(d, Val::c(r as u64));
            return Ok(());
        }
        if s.starts_with("fshl") || s.starts_with("fshr") {
            if a.iter().any(|v| v.s != 0) {
                return unsup(format!("{s} symbolic"));
            }
            let k = (a[2].w() % bits as u128) as u32;
            let (x, y) = (a[0].w(), a[1].w());
            let m = Self::mask(bits);
            let sh = |v: u128, k: u32| if k >= 128 { 0 } else { v << k };
            let r = if s.starts_with("fshl") {
                if k == 0 { x } else { sh(x, k) & m | y >> (bits - k) }
            } else if k == 0 {
                y
            } else {
                (sh(x, bits - k) & m) | y >> k
            };
            self.ret1(d, Val::c128(r & m));
            return Ok(());
        }
        if s.starts_with("abs") {
            let x = self.iid(a[0]);
            let sx = self.signed(x, bits);
            let z = self.ctx.cu(0);
            let neg = self.ctx.sub(z, sx);
            let c = self.ctx.lt_ab(sx, z);
            let r = self.ctx.ite(c, neg, sx);
            let v = self.val(r, bits);
            self.ret1(d, v);
            return Ok(());
        }
        if s.starts_with("trap") || s.starts_with("ubsantrap") {
            return Err(Stop::Panic("trap".into()));
        }
        if s.starts_with("is.constant") {
            self.ret1(d, Val::c(0));
            return Ok(());
        }
        if n == "asm" && d == u32::MAX {
            return Ok(()); // black_box / compiler fence
        }
        unsup(format!("intrinsic {n} in {}", self.whereami()))
    }
    fn ctlz_sym(&mut self, a: Val, bits: u32, d: u32) -> R<()> {
        let x = self.iid(a);
        // fork over the bit length
        let mut lo = 0u32;
        let mut hi = bits; // bit length in [lo, hi]
        while lo < hi {
            let mid = (lo + hi) / 2;
            let k = self.ctx.constant(pow2(mid));
            let c = self.ctx.lt_ab(x, k); // bitlen <= mid
            if self.decide(c)? {
                hi = mid;
            } else {
                lo = mid + 1;
            }
        }
        self.ret1(d, Val::c((bits - lo) as u64));
        Ok(())
    }
}
