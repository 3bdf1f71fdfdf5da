//! Index and lazily decode LLVM IR text emitted by rustc.
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Other, // f16, f128, vectors: unsupported when executed
    Struct(Vec<Ty>, bool),
    Arr(u64, Box<Ty>),
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void => 1,
            Ty::Int(b) => match b {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Other => 16,
            Ty::Struct(f, p) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Arr(_, t) => t.align(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::Int(b) => {
                let n = ((*b as u64) + 7) / 8;
                let a = self.align();
                (n + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Other => 16,
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Arr(n, t) => n * t.size(),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !*p {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field_off")
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            _ => panic!("field_off of scalar"),
        }
    }
    pub fn sub(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Arr(_, t) => t,
            _ => panic!("sub"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            _ => 0,
        }
    }
    /// flattened scalars with byte offsets
    pub fn flat(&self) -> Vec<(u64, Ty)> {
        let mut v = vec![];
        self.flat_into(0, &mut v);
        v
    }
    fn flat_into(&self, off: u64, v: &mut Vec<(u64, Ty)>) {
        match self {
            Ty::Void => {}
            Ty::Struct(..) | Ty::Arr(..) => {
                for i in 0..self.count() {
                    self.sub(i).flat_into(off + self.field_off(i), v);
                }
            }
            t => v.push((off, t.clone())),
        }
    }
    pub fn nslots(&self) -> usize {
        match self {
            Ty::Void => 0,
            Ty::Struct(f, _) => f.iter().map(|t| t.nslots()).sum(),
            Ty::Arr(n, t) => *n as usize * t.nslots(),
            _ => 1,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(b) => *b,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
}

pub struct FnDef {
    pub start: usize,
    pub end: usize,
    pub demangled: (usize, usize),
}

pub struct Module {
    pub text: Vec<u8>,
    pub path: String,
    pub fns: HashMap<String, FnDef>,
    pub globals: HashMap<String, (usize, usize)>,
    pub types: HashMap<String, (usize, usize)>,
}

fn take_name(t: &[u8], mut p: usize) -> (String, usize) {
    // after '@' or '%'
    if t[p] == b'"' {
        p += 1;
        let s = p;
        while t[p] != b'"' {
            p += 1;
        }
        (String::from_utf8_lossy(&t[s..p]).into_owned(), p + 1)
    } else {
        let s = p;
        while p < t.len() && (t[p].is_ascii_alphanumeric() || b"_.$-".contains(&t[p])) {
            p += 1;
        }
        (String::from_utf8_lossy(&t[s..p]).into_owned(), p)
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).unwrap_or_else(|e| panic!("read {path}: {e}"));
        let mut m = Module {
            text: vec![],
            path: path.to_string(),
            fns: HashMap::new(),
            globals: HashMap::new(),
            types: HashMap::new(),
        };
        let n = text.len();
        let mut p = 0;
        let mut comment = (0, 0);
        let mut open: Option<(String, usize, (usize, usize))> = None;
        while p < n {
            let mut e = p;
            while e < n && text[e] != b'\n' {
                e += 1;
            }
            let l = &text[p..e];
            if open.is_some() {
                if l == b"}" {
                    let (name, s, c) = open.take().unwrap();
                    m.fns.insert(name, FnDef { start: s, end: e, demangled: c });
                    comment = (0, 0);
                }
            } else if l.starts_with(b"define ") {
                let mut q = p;
                while text[q] != b'@' {
                    q += 1;
                }
                let (name, _) = take_name(&text, q + 1);
                open = Some((name, p, comment));
            } else if l.starts_with(b"; Function Attrs") {
            } else if l.starts_with(b"; ") {
                comment = (p + 2, e);
            } else if l.starts_with(b"@") {
                let (name, q) = take_name(&text, p + 1);
                m.globals.insert(name, (q, e));
            } else if l.starts_with(b"%") {
                let (name, q) = take_name(&text, p + 1);
                m.types.insert(name, (q, e));
            } else if l.is_empty() {
                comment = (0, 0);
            }
            p = e + 1;
        }
        m.text = text;
        m
    }
}

pub struct Program {
    pub mods: Vec<Module>,
    pub fn_index: HashMap<String, usize>,
    pub glob_index: HashMap<String, usize>,
}

impl Program {
    pub fn load(paths: &[String]) -> Program {
        let paths: Arc<Vec<String>> = Arc::new(paths.to_vec());
        let next = Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let mut hs = vec![];
        for _ in 0..8 {
            let (p, nx) = (paths.clone(), next.clone());
            hs.push(std::thread::spawn(move || {
                let mut v = vec![];
                loop {
                    let i = nx.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= p.len() {
                        return v;
                    }
                    v.push((i, Module::load(&p[i])));
                }
            }));
        }
        let mut all: Vec<(usize, Module)> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
        all.sort_by_key(|x| x.0);
        let mods: Vec<Module> = all.into_iter().map(|x| x.1).collect();
        let mut fn_index = HashMap::new();
        let mut glob_index = HashMap::new();
        for (i, m) in mods.iter().enumerate() {
            for k in m.fns.keys() {
                fn_index.entry(k.clone()).or_insert(i);
            }
            for (k, (s, _)) in &m.globals {
                if !m.text[*s..].starts_with(b" = external") {
                    glob_index.entry(k.clone()).or_insert(i);
                }
            }
        }
        Program { mods, fn_index, glob_index }
    }
    /// resolve a function symbol referenced from module `m`
    pub fn find_fn(&self, m: usize, name: &str) -> Option<usize> {
        if self.mods[m].fns.contains_key(name) {
            return Some(m);
        }
        self.fn_index.get(name).copied()
    }
    pub fn find_glob(&self, m: usize, name: &str) -> Option<usize> {
        if let Some((s, _)) = self.mods[m].globals.get(name) {
            if !self.mods[m].text[*s..].starts_with(b" = external") {
                return Some(m);
            }
        }
        self.glob_index.get(name).copied()
    }
    pub fn demangled(&self, m: usize, name: &str) -> String {
        let md = &self.mods[m];
        match md.fns.get(name) {
            Some(d) if d.demangled.1 > d.demangled.0 => {
                String::from_utf8_lossy(&md.text[d.demangled.0..d.demangled.1]).into_owned()
            }
            _ => name.to_string(),
        }
    }
}

// ---------------------------------------------------------------- lexer
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Local(String),
    Global(String),
    Word(String),
    Num(String), // integer or float literal text
    Str(Vec<u8>),
    P(u8),
    Meta,
    Attr,
    Nl,
    Eof,
}

pub struct Lex<'a> {
    t: &'a [u8],
    p: usize,
    end: usize,
    pub tok: Tok,
}

impl<'a> Lex<'a> {
    pub fn new(t: &'a [u8], s: usize, e: usize) -> Lex<'a> {
        let mut l = Lex { t, p: s, end: e, tok: Tok::Eof };
        l.next();
        l
    }
    pub fn next(&mut self) -> Tok {
        let old = std::mem::replace(&mut self.tok, Tok::Eof);
        self.tok = self.lex();
        old
    }
    fn lex(&mut self) -> Tok {
        let t = self.t;
        loop {
            if self.p >= self.end {
                return Tok::Eof;
            }
            let c = t[self.p];
            match c {
                b' ' | b'\t' | b'\r' => self.p += 1,
                b';' => {
                    while self.p < self.end && t[self.p] != b'\n' {
                        self.p += 1;
                    }
                }
                b'\n' => {
                    self.p += 1;
                    return Tok::Nl;
                }
                b'%' => {
                    let (n, q) = take_name(t, self.p + 1);
                    self.p = q;
                    return Tok::Local(n);
                }
                b'@' => {
                    let (n, q) = take_name(t, self.p + 1);
                    self.p = q;
                    return Tok::Global(n);
                }
                b'!' => {
                    self.p += 1;
                    while self.p < self.end && (t[self.p].is_ascii_alphanumeric() || b"_.".contains(&t[self.p])) {
                        self.p += 1;
                    }
                    return Tok::Meta;
                }
                b'#' => {
                    self.p += 1;
                    while self.p < self.end && t[self.p].is_ascii_digit() {
                        self.p += 1;
                    }
                    return Tok::Attr;
                }
                b'"' => {
                    let (s, q) = self.string(self.p + 1);
                    self.p = q;
                    return Tok::Str(s);
                }
                b'c' if t[self.p + 1] == b'"' => {
                    let (s, q) = self.string(self.p + 2);
                    self.p = q;
                    return Tok::Str(s);
                }
                b'0'..=b'9' | b'-' => {
                    let s = self.p;
                    self.p += 1;
                    while self.p < self.end
                        && (t[self.p].is_ascii_alphanumeric() || b".+-".contains(&t[self.p]))
                    {
                        if (t[self.p] == b'+' || t[self.p] == b'-') && t[self.p - 1] != b'e' {
                            break;
                        }
                        self.p += 1;
                    }
                    // label like "12:" appears as bb names, handled by caller through Word only
                    return Tok::Num(String::from_utf8_lossy(&t[s..self.p]).into_owned());
                }
                c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => {
                    let s = self.p;
                    while self.p < self.end
                        && (t[self.p].is_ascii_alphanumeric() || b"_.$-".contains(&t[self.p]))
                    {
                        self.p += 1;
                    }
                    return Tok::Word(String::from_utf8_lossy(&t[s..self.p]).into_owned());
                }
                c => {
                    self.p += 1;
                    return Tok::P(c);
                }
            }
        }
    }
    fn string(&self, mut p: usize) -> (Vec<u8>, usize) {
        let t = self.t;
        let mut v = vec![];
        let hex = |c: u8| (c as char).to_digit(16).unwrap() as u8;
        while t[p] != b'"' {
            if t[p] == b'\\' {
                if t[p + 1] == b'\\' {
                    v.push(b'\\');
                    p += 2;
                } else {
                    v.push(hex(t[p + 1]) * 16 + hex(t[p + 2]));
                    p += 3;
                }
            } else {
                v.push(t[p]);
                p += 1;
            }
        }
        (v, p + 1)
    }
    pub fn is_p(&self, c: u8) -> bool {
        self.tok == Tok::P(c)
    }
    pub fn is_w(&self, w: &str) -> bool {
        matches!(&self.tok, Tok::Word(x) if x == w)
    }
    pub fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn exp_p(&mut self, c: u8) {
        if !self.eat_p(c) {
            panic!("expected {:?} got {:?} near {:?}", c as char, self.tok, self.ctx());
        }
    }
    pub fn ctx(&self) -> String {
        let s = self.p.saturating_sub(120);
        String::from_utf8_lossy(&self.t[s..(self.p + 60).min(self.t.len())]).into_owned()
    }
    pub fn skip_line(&mut self) {
        while self.tok != Tok::Nl && self.tok != Tok::Eof {
            self.next();
        }
        self.next();
    }
    pub fn skip_parens(&mut self) {
        // current token is '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
}

// ---------------------------------------------------------------- instructions
#[derive(Clone, Copy, Debug)]
pub enum Op {
    R(u32),
    C(u64, u64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    Zext,
    Sext,
    Copy,
    Unsup,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Intr(String),
    Ind(Op),
}

#[derive(Clone, Debug)]
pub enum I {
    Alloca { d: u32, size: u64, align: u64 },
    Load { d: u32, p: Op, parts: Rc<Vec<(u64, u32)>> }, // (offset, bits)
    Load1 { d: u32, p: Op, bits: u32 },
    Store { p: Op, vals: Rc<Vec<(u64, u32, Op)>> },
    Gep { d: u32, base: Op, off: i64, idx: Rc<Vec<(Op, u32, i64)>> },
    Bin { op: BinOp, d: u32, bits: u32, a: Op, b: Op },
    Icmp { pred: Pred, d: u32, bits: u32, a: Op, b: Op, ptr: bool },
    Cast { op: Cast, d: u32, from: u32, to: u32, a: Op },
    Select { d: u32, c: Op, a: Rc<Vec<Op>>, b: Rc<Vec<Op>>, ptr: bool, bits: Rc<Vec<u32>> },
    Copy { d: u32, src: Rc<Vec<Op>> },
    Call { d: u32, nret: u32, rbits: Rc<Vec<u32>>, callee: Callee, args: Rc<Vec<Op>>, abits: Rc<Vec<u32>> },
    Br(u32),
    CondBr { c: Op, t: u32, f: u32 },
    Switch { v: Op, bits: u32, def: u32, cases: Rc<Vec<(u128, u32)>> },
    Ret(Rc<Vec<Op>>),
    Phi { d: u32, bits: u32, inc: Rc<Vec<(u32, Op)>> },
    CmpXchg { d: u32, p: Op, cmp: Op, new: Op, bits: u32 },
    Rmw { d: u32, op: String, p: Op, v: Op, bits: u32 },
    Unreachable,
    Unsup(String),
}

pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub nparams: u32,
    pub code: Vec<I>,
    pub block_of: Vec<u32>,   // code index -> block number
    pub block_pc: Vec<u32>,   // block number -> code index
    pub retbits: Vec<u32>,
}

/// Services the decoder needs from the per-worker linker.
pub trait Link {
    fn fn_ref(&mut self, m: usize, name: &str) -> u32;
    fn fn_addr(&mut self, m: usize, name: &str) -> u64;
    fn glob_addr(&mut self, m: usize, name: &str) -> u64;
}

pub struct Dec<'a, L: Link> {
    pub prog: &'a Program,
    pub m: usize,
    pub link: &'a mut L,
}

const TYPE_WORDS: &[&str] = &["void", "ptr", "float", "double", "half", "fp128", "label", "metadata", "token", "opaque"];

impl<'a, L: Link> Dec<'a, L> {
    pub fn ty(&mut self, l: &mut Lex) -> Ty {
        match l.next() {
            Tok::Word(w) => match w.as_str() {
                "void" | "label" | "metadata" => Ty::Void,
                "ptr" => {
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "half" | "fp128" | "opaque" => Ty::Other,
                _ => {
                    if let Some(n) = w.strip_prefix('i').and_then(|x| x.parse::<u32>().ok()) {
                        Ty::Int(n)
                    } else {
                        panic!("type? {w} near {}", l.ctx())
                    }
                }
            },
            Tok::P(b'{') => {
                let f = self.ty_list(l, b'}');
                Ty::Struct(f, false)
            }
            Tok::P(b'<') => {
                if l.is_p(b'{') {
                    l.next();
                    let f = self.ty_list(l, b'}');
                    l.exp_p(b'>');
                    Ty::Struct(f, true)
                } else {
                    // vector
                    l.next();
                    l.next();
                    self.ty(l);
                    l.exp_p(b'>');
                    Ty::Other
                }
            }
            Tok::P(b'[') => {
                let n = match l.next() {
                    Tok::Num(n) => n.parse::<u64>().unwrap(),
                    x => panic!("array len {:?}", x),
                };
                assert!(l.eat_w("x"));
                let t = self.ty(l);
                l.exp_p(b']');
                Ty::Arr(n, Box::new(t))
            }
            Tok::Local(n) => {
                let md = &self.prog.mods[self.m];
                let (s, e) = *md.types.get(&n).unwrap_or_else(|| panic!("type %{n}"));
                let mut l2 = Lex::new(&md.text, s, e);
                // " = type {...}"
                l2.exp_p(b'=');
                assert!(l2.eat_w("type"));
                self.ty(&mut l2)
            }
            x => panic!("type tok {:?} near {}", x, l.ctx()),
        }
    }
    fn ty_list(&mut self, l: &mut Lex, close: u8) -> Vec<Ty> {
        let mut v = vec![];
        if l.eat_p(close) {
            return v;
        }
        loop {
            v.push(self.ty(l));
            if l.eat_p(close) {
                return v;
            }
            l.exp_p(b',');
        }
    }
    fn num(s: &str) -> (u64, u64) {
        if let Some(x) = s.strip_prefix('-') {
            let v = (x.parse::<u128>().unwrap() as i128).wrapping_neg() as u128;
            (v as u64, (v >> 64) as u64)
        } else {
            let v = s.parse::<u128>().unwrap_or_else(|_| panic!("num {s}"));
            (v as u64, (v >> 64) as u64)
        }
    }
    pub fn mask(v: (u64, u64), bits: u32) -> Op {
        let x = (v.0 as u128) | ((v.1 as u128) << 64);
        let x = if bits >= 128 { x } else { x & ((1u128 << bits) - 1) };
        Op::C(x as u64, (x >> 64) as u64)
    }
    /// constant initializer written into bytes; relocations are absolute because all addresses are known
    pub fn init(&mut self, l: &mut Lex, ty: &Ty, out: &mut [u8]) {
        match &l.tok {
            Tok::Word(w) if w == "zeroinitializer" || w == "undef" || w == "poison" || w == "null" => {
                l.next();
            }
            Tok::Str(s) => {
                out[..s.len()].copy_from_slice(s);
                l.next();
            }
            Tok::P(b'[') | Tok::P(b'{') | Tok::P(b'<') => {
                let packed = l.eat_p(b'<');
                let close = if l.eat_p(b'[') {
                    b']'
                } else {
                    l.exp_p(b'{');
                    b'}'
                };
                let mut i = 0;
                if !l.eat_p(close) {
                    loop {
                        let t = self.ty(l);
                        let o = ty.field_off(i) as usize;
                        self.init(l, &t, &mut out[o..o + t.size() as usize]);
                        i += 1;
                        if l.eat_p(close) {
                            break;
                        }
                        l.exp_p(b',');
                    }
                }
                if packed {
                    l.exp_p(b'>');
                }
            }
            _ => match ty {
                Ty::F64 | Ty::F32 | Ty::Other => {
                    l.next();
                }
                _ => {
                    let op = self.scalar(l, ty, &mut |_, _| panic!("local in constant"));
                    if let Op::C(a, b) = op {
                        let v = (a as u128) | ((b as u128) << 64);
                        let n = ty.size() as usize;
                        out[..n].copy_from_slice(&v.to_le_bytes()[..n]);
                    }
                }
            },
        }
    }
    fn const_gep(&mut self, l: &mut Lex) -> u64 {
        // after 'getelementptr'
        while !l.is_p(b'(') {
            l.next();
        }
        l.exp_p(b'(');
        let t = self.ty(l);
        l.exp_p(b',');
        let bt = self.ty(l);
        let base = match self.scalar(l, &bt, &mut |_, _| panic!("local in const gep")) {
            Op::C(a, _) => a,
            _ => unreachable!(),
        };
        let mut off: i64 = 0;
        let mut cur = t;
        let mut first = true;
        while l.eat_p(b',') {
            let it = self.ty(l);
            let v = match self.scalar(l, &it, &mut |_, _| panic!("local")) {
                Op::C(a, _) => a as i64,
                _ => unreachable!(),
            };
            if first {
                off += v * cur.size() as i64;
                first = false;
            } else {
                off += cur.field_off(v as usize) as i64;
                cur = cur.sub(v as usize).clone();
            }
        }
        l.exp_p(b')');
        (base as i64 + off) as u64
    }
    /// one scalar operand of the given type
    pub fn scalar(&mut self, l: &mut Lex, ty: &Ty, loc: &mut dyn FnMut(&str, &Ty) -> u32) -> Op {
        match l.next() {
            Tok::Local(n) => Op::R(loc(&n, ty)),
            Tok::Global(n) => Op::C(self.sym_addr(&n), 0),
            Tok::Num(s) => match ty {
                Ty::F64 => {
                    let v = if let Some(h) = s.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).unwrap_or(0)
                    } else {
                        s.parse::<f64>().unwrap_or(0.0).to_bits()
                    };
                    Op::C(v, 0)
                }
                Ty::F32 | Ty::Other => Op::C(0, 0),
                _ => Self::mask(Self::num(&s), ty.bits()),
            },
            Tok::Word(w) => match w.as_str() {
                "true" => Op::C(1, 0),
                "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" => Op::C(0, 0),
                "getelementptr" => Op::C(self.const_gep(l), 0),
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" => {
                    l.exp_p(b'(');
                    let t = self.ty(l);
                    let v = self.scalar(l, &t, loc);
                    assert!(l.eat_w("to"));
                    let t2 = self.ty(l);
                    l.exp_p(b')');
                    match v {
                        Op::C(a, b) => Self::mask((a, b), t2.bits()),
                        x => x,
                    }
                }
                "sub" | "add" => {
                    while !l.is_p(b'(') {
                        l.next();
                    }
                    l.exp_p(b'(');
                    let t = self.ty(l);
                    let a = self.scalar(l, &t, loc);
                    l.exp_p(b',');
                    let t2 = self.ty(l);
                    let b = self.scalar(l, &t2, loc);
                    l.exp_p(b')');
                    match (a, b) {
                        (Op::C(x, _), Op::C(y, _)) => {
                            Self::mask((if w == "sub" { x.wrapping_sub(y) } else { x.wrapping_add(y) }, 0), t.bits())
                        }
                        _ => panic!("const expr"),
                    }
                }
                _ => panic!("operand word {w} near {}", l.ctx()),
            },
            x => panic!("operand {:?} near {}", x, l.ctx()),
        }
    }
    fn sym_addr(&mut self, n: &str) -> u64 {
        if self.prog.mods[self.m].fns.contains_key(n) {
            return self.link.fn_addr(self.m, n);
        }
        if self.prog.find_glob(self.m, n).is_some() {
            return self.link.glob_addr(self.m, n);
        }
        self.link.fn_addr(self.m, n)
    }
    /// operand of any type -> flattened scalar ops
    fn operand(&mut self, l: &mut Lex, ty: &Ty, loc: &mut dyn FnMut(&str, &Ty) -> u32) -> Vec<Op> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) => match &l.tok {
                Tok::Local(n) => {
                    let r = loc(n, ty);
                    l.next();
                    (0..ty.nslots() as u32).map(|i| Op::R(r + i)).collect()
                }
                Tok::Word(w) if ["zeroinitializer", "undef", "poison"].contains(&w.as_str()) => {
                    l.next();
                    vec![Op::C(0, 0); ty.nslots()]
                }
                _ => {
                    let packed = l.eat_p(b'<');
                    let close = if l.eat_p(b'[') {
                        b']'
                    } else {
                        l.exp_p(b'{');
                        b'}'
                    };
                    let mut v = vec![];
                    if !l.eat_p(close) {
                        loop {
                            let t = self.ty(l);
                            v.extend(self.operand(l, &t, loc));
                            if l.eat_p(close) {
                                break;
                            }
                            l.exp_p(b',');
                        }
                    }
                    if packed {
                        l.exp_p(b'>');
                    }
                    v
                }
            },
            Ty::Void => {
                // metadata operand
                l.next();
                vec![]
            }
            _ => vec![self.scalar(l, ty, loc)],
        }
    }
    fn skip_attrs(&mut self, l: &mut Lex) {
        loop {
            match &l.tok {
                Tok::Word(w) => {
                    if [
                        "true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "inttoptr",
                        "ptrtoint", "bitcast", "none", "sub", "add", "trunc", "zext",
                    ]
                    .contains(&w.as_str())
                    {
                        return;
                    }
                    let al = w == "align";
                    l.next();
                    if al {
                        if let Tok::Num(_) = l.tok {
                            l.next();
                        }
                    }
                    if l.is_p(b'(') {
                        l.skip_parens();
                    }
                }
                Tok::Str(_) => {
                    l.next();
                    if l.eat_p(b'=') {
                        l.next();
                    }
                }
                _ => return,
            }
        }
    }
    fn is_type_start(&self, l: &Lex) -> bool {
        match &l.tok {
            Tok::Word(w) => {
                TYPE_WORDS.contains(&w.as_str())
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') | Tok::Local(_) => true,
            _ => false,
        }
    }

    pub fn function(&mut self, name: &str) -> Func {
        let prog = self.prog;
        let md = &prog.mods[self.m];
        let def = &md.fns[name];
        let mut l = Lex::new(&md.text, def.start, def.end);
        l.next(); // define
        // skip linkage / cc / ret attrs until a type
        while !self.is_type_start(&l) {
            let w = l.next();
            if w == Tok::Word("align".into()) {
                l.next();
            }
            if l.is_p(b'(') {
                l.skip_parens();
            }
        }
        let rt = self.ty(&mut l);
        l.next(); // @name
        l.exp_p(b'(');
        let mut regs: HashMap<String, (u32, Ty)> = HashMap::new();
        let mut nregs: u32 = 0;
        let mut nparams = 0;
        if !l.eat_p(b')') {
            loop {
                if l.is_p(b'.') {
                    break;
                }
                if l.is_w("...") {
                    l.next();
                    l.exp_p(b')');
                    break;
                }
                let t = self.ty(&mut l);
                loop {
                    match &l.tok {
                        Tok::Local(n) => {
                            regs.insert(n.clone(), (nregs, t.clone()));
                            l.next();
                            break;
                        }
                        Tok::P(b'(') => l.skip_parens(),
                        Tok::P(b',') | Tok::P(b')') => {
                            regs.insert(format!("{}", nparams), (nregs, t.clone()));
                            break;
                        }
                        _ => {
                            l.next();
                        }
                    }
                }
                nregs += t.nslots() as u32;
                nparams += 1;
                if l.eat_p(b')') {
                    break;
                }
                l.exp_p(b',');
            }
        }
        let nparam_slots = nregs;
        l.skip_line();
        let mut code: Vec<I> = vec![];
        let mut block_of: Vec<u32> = vec![];
        let mut block_pc: Vec<u32> = vec![];
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut nlab = 0u32;
        let mut cur_block = 0u32;
        let mut first = true;
        macro_rules! lab {
            ($n:expr) => {{
                let n: String = $n;
                *labels.entry(n).or_insert_with(|| {
                    let r = nlab;
                    nlab += 1;
                    block_pc.push(u32::MAX);
                    r
                })
            }};
        }
        // forward references to registers are possible (phi): allocate on demand
        fn reg_of(regs: &mut HashMap<String, (u32, Ty)>, nregs: &mut u32, n: &str, t: &Ty) -> u32 {
            if let Some(r) = regs.get(n) {
                return r.0;
            }
            let r = *nregs;
            *nregs += t.nslots() as u32;
            regs.insert(n.to_string(), (r, t.clone()));
            r
        }
        macro_rules! oper {
            ($l:expr, $t:expr) => {{
                let r = &mut regs;
                let nr = &mut nregs;
                self.operand($l, $t, &mut |n, t| reg_of(r, nr, n, t))
            }};
        }
        macro_rules! scal {
            ($l:expr, $t:expr) => {{
                let r = &mut regs;
                let nr = &mut nregs;
                self.scalar($l, $t, &mut |n, t| reg_of(r, nr, n, t))
            }};
        }
        loop {
            match l.tok.clone() {
                Tok::Eof | Tok::P(b'}') => break,
                Tok::Nl => {
                    l.next();
                    continue;
                }
                _ => {}
            }
            // label?
            if let Tok::Word(w) = &l.tok {
                let save = (l.p, l.tok.clone());
                let w = w.clone();
                l.next();
                if l.is_p(b':') {
                    let b = lab!(w);
                    block_pc[b as usize] = code.len() as u32;
                    cur_block = b;
                    first = false;
                    l.skip_line();
                    continue;
                }
                // rewind
                l.p = save.0;
                l.tok = save.1;
            } else if let Tok::Num(w) = &l.tok {
                let w = w.clone();
                l.next();
                if l.is_p(b':') {
                    let b = lab!(w);
                    block_pc[b as usize] = code.len() as u32;
                    cur_block = b;
                    first = false;
                    l.skip_line();
                    continue;
                }
                panic!("number at statement start");
            }
            if first {
                let b = lab!(format!("%entry"));
                block_pc[b as usize] = 0;
                cur_block = b;
                first = false;
            }
            let mut dst: Option<String> = None;
            if let Tok::Local(n) = &l.tok {
                dst = Some(n.clone());
                l.next();
                l.exp_p(b'=');
            }
            let w = match l.next() {
                Tok::Word(w) => w,
                x => panic!("instr {:?} near {}", x, l.ctx()),
            };
            macro_rules! dreg {
                ($t:expr) => {
                    reg_of(&mut regs, &mut nregs, dst.as_ref().unwrap(), $t)
                };
            }
            let ins: I = match w.as_str() {
                "alloca" => {
                    let t = self.ty(&mut l);
                    let mut al = t.align();
                    while l.eat_p(b',') {
                        if l.eat_w("align") {
                            if let Tok::Num(n) = l.next() {
                                al = n.parse().unwrap();
                            }
                        } else {
                            let _ = self.ty(&mut l);
                            l.next();
                        }
                    }
                    I::Alloca { d: dreg!(&Ty::Ptr), size: t.size(), align: al }
                }
                "load" => {
                    l.eat_w("atomic");
                    l.eat_w("volatile");
                    let t = self.ty(&mut l);
                    l.exp_p(b',');
                    let pt = self.ty(&mut l);
                    let p = scal!(&mut l, &pt);
                    let d = dreg!(&t);
                    let fl = t.flat();
                    if fl.iter().any(|x| x.1 == Ty::Other) {
                        I::Unsup("load vector".into())
                    } else if fl.len() == 1 && fl[0].0 == 0 {
                        I::Load1 { d, p, bits: fl[0].1.bits() }
                    } else {
                        I::Load { d, p, parts: Rc::new(fl.iter().map(|(o, t)| (*o, t.bits())).collect()) }
                    }
                }
                "store" => {
                    l.eat_w("atomic");
                    l.eat_w("volatile");
                    let t = self.ty(&mut l);
                    let v = oper!(&mut l, &t);
                    l.exp_p(b',');
                    let pt = self.ty(&mut l);
                    let p = scal!(&mut l, &pt);
                    let fl = t.flat();
                    if fl.iter().any(|x| x.1 == Ty::Other) {
                        I::Unsup("store vector".into())
                    } else {
                        I::Store {
                            p,
                            vals: Rc::new(fl.iter().zip(v).map(|((o, t), x)| (*o, t.bits(), x)).collect()),
                        }
                    }
                }
                "getelementptr" => {
                    while l.is_w("inbounds") || l.is_w("nuw") || l.is_w("nusw") || l.is_w("inrange") {
                        l.next();
                    }
                    let t = self.ty(&mut l);
                    l.exp_p(b',');
                    let bt = self.ty(&mut l);
                    let base = scal!(&mut l, &bt);
                    let mut off: i64 = 0;
                    let mut idx = vec![];
                    let mut cur = t;
                    let mut fst = true;
                    while l.eat_p(b',') {
                        if let Tok::Meta = l.tok {
                            break;
                        }
                        let it = self.ty(&mut l);
                        let v = scal!(&mut l, &it);
                        let scale;
                        let nxt;
                        if fst {
                            scale = cur.size() as i64;
                            nxt = cur.clone();
                            fst = false;
                        } else {
                            match &cur {
                                Ty::Struct(..) => {
                                    let i = match v {
                                        Op::C(a, _) => a as usize,
                                        _ => panic!("struct gep"),
                                    };
                                    off += cur.field_off(i) as i64;
                                    cur = cur.sub(i).clone();
                                    continue;
                                }
                                Ty::Arr(_, e) => {
                                    scale = e.size() as i64;
                                    nxt = (**e).clone();
                                }
                                _ => panic!("gep into scalar"),
                            }
                        }
                        match v {
                            Op::C(a, _) => {
                                let b = it.bits();
                                let a = if b < 64 { ((a << (64 - b)) as i64) >> (64 - b) } else { a as i64 };
                                off += a * scale
                            }
                            r => idx.push((r, it.bits(), scale)),
                        }
                        cur = nxt;
                    }
                    I::Gep { d: dreg!(&Ty::Ptr), base, off, idx: Rc::new(idx) }
                }
                "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr"
                | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                    while ["nuw", "nsw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz"].iter().any(|x| l.is_w(x)) {
                        l.next();
                    }
                    let t = self.ty(&mut l);
                    let a = oper!(&mut l, &t);
                    l.exp_p(b',');
                    let b = oper!(&mut l, &t);
                    let op = match w.as_str() {
                        "add" => BinOp::Add,
                        "sub" => BinOp::Sub,
                        "mul" => BinOp::Mul,
                        "udiv" => BinOp::UDiv,
                        "sdiv" => BinOp::SDiv,
                        "urem" => BinOp::URem,
                        "srem" => BinOp::SRem,
                        "and" => BinOp::And,
                        "or" => BinOp::Or,
                        "xor" => BinOp::Xor,
                        "shl" => BinOp::Shl,
                        "lshr" => BinOp::LShr,
                        "ashr" => BinOp::AShr,
                        "fadd" => BinOp::FAdd,
                        "fsub" => BinOp::FSub,
                        "fmul" => BinOp::FMul,
                        "fdiv" => BinOp::FDiv,
                        _ => BinOp::FRem,
                    };
                    let d = dreg!(&t);
                    if t == Ty::Other || t == Ty::F32 || matches!(t, Ty::Int(n) if n > 128) {
                        I::Unsup("float/vector arith".into())
                    } else {
                        I::Bin { op, d, bits: t.bits(), a: a[0], b: b[0] }
                    }
                }
                "icmp" => {
                    l.eat_w("samesign");
                    let pr = match l.next() {
                        Tok::Word(p) => p,
                        _ => panic!(),
                    };
                    let t = self.ty(&mut l);
                    let a = oper!(&mut l, &t);
                    l.exp_p(b',');
                    let b = oper!(&mut l, &t);
                    let pred = match pr.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        _ => panic!("pred {pr}"),
                    };
                    let d = dreg!(&Ty::Int(1));
                    if t == Ty::Other {
                        I::Unsup("vector icmp".into())
                    } else {
                        I::Icmp { pred, d, bits: t.bits(), a: a[0], b: b[0], ptr: t == Ty::Ptr }
                    }
                }
                "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" | "fptoui" | "fptosi" | "uitofp"
                | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" => {
                    while ["nuw", "nsw", "nneg", "fast"].iter().any(|x| l.is_w(x)) {
                        l.next();
                    }
                    let t = self.ty(&mut l);
                    let a = oper!(&mut l, &t);
                    if !l.eat_w("to") {
                        panic!("cast to");
                    }
                    let t2 = self.ty(&mut l);
                    let d = dreg!(&t2);
                    let op = match w.as_str() {
                        "trunc" => Cast::Trunc,
                        "zext" => Cast::Zext,
                        "sext" => Cast::Sext,
                        "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                            if t2.bits() < t.bits() {
                                Cast::Trunc
                            } else {
                                Cast::Copy
                            }
                        }
                        _ => Cast::Unsup,
                    };
                    let big = |t: &Ty| matches!(t, Ty::Int(n) if *n > 128);
                    if op == Cast::Unsup || t == Ty::Other || t2 == Ty::Other || big(&t) || big(&t2) {
                        I::Unsup(format!("cast {w}"))
                    } else {
                        I::Cast { op, d, from: t.bits(), to: t2.bits(), a: a[0] }
                    }
                }
                "select" => {
                    let ct = self.ty(&mut l);
                    let c = oper!(&mut l, &ct);
                    l.exp_p(b',');
                    let t = self.ty(&mut l);
                    let a = oper!(&mut l, &t);
                    l.exp_p(b',');
                    let t2 = self.ty(&mut l);
                    let b = oper!(&mut l, &t2);
                    let fl = t.flat();
                    let d = dreg!(&t);
                    if ct == Ty::Other {
                        I::Unsup("vector select".into())
                    } else {
                        I::Select {
                            d,
                            c: c[0],
                            a: Rc::new(a),
                            b: Rc::new(b),
                            ptr: fl.iter().any(|x| x.1 == Ty::Ptr),
                            bits: Rc::new(fl.iter().map(|x| x.1.bits()).collect()),
                        }
                    }
                }
                "extractvalue" => {
                    let t = self.ty(&mut l);
                    let v = oper!(&mut l, &t);
                    let mut cur = &t;
                    let mut base = 0;
                    while l.eat_p(b',') {
                        let i = match l.next() {
                            Tok::Num(n) => n.parse::<usize>().unwrap(),
                            Tok::Meta => break,
                            x => panic!("extractvalue {:?}", x),
                        };
                        for k in 0..i {
                            base += cur.sub(k).nslots();
                        }
                        cur = cur.sub(i);
                    }
                    let n = cur.nslots();
                    let d = dreg!(&cur.clone());
                    I::Copy { d, src: Rc::new(v[base..base + n].to_vec()) }
                }
                "insertvalue" => {
                    let t = self.ty(&mut l);
                    let mut v = oper!(&mut l, &t);
                    l.exp_p(b',');
                    let et = self.ty(&mut l);
                    let e = oper!(&mut l, &et);
                    let mut cur = &t;
                    let mut base = 0;
                    while l.eat_p(b',') {
                        let i = match l.next() {
                            Tok::Num(n) => n.parse::<usize>().unwrap(),
                            Tok::Meta => break,
                            x => panic!("insertvalue {:?}", x),
                        };
                        for k in 0..i {
                            base += cur.sub(k).nslots();
                        }
                        cur = cur.sub(i);
                    }
                    for (k, x) in e.into_iter().enumerate() {
                        v[base + k] = x;
                    }
                    let d = dreg!(&t);
                    I::Copy { d, src: Rc::new(v) }
                }
                "freeze" => {
                    let t = self.ty(&mut l);
                    let v = oper!(&mut l, &t);
                    let d = dreg!(&t);
                    I::Copy { d, src: Rc::new(v) }
                }
                "fneg" | "fcmp" | "extractelement" | "insertelement" | "shufflevector" | "landingpad" | "va_arg"
                | "resume" | "invoke" | "cleanupret" | "cleanuppad" | "catchswitch" | "catchret" | "catchpad"
                | "callbr" | "indirectbr" => {
                    if let Some(_) = &dst {
                        dreg!(&Ty::Int(128));
                    }
                    if w == "invoke" {
                        // two-line instruction; skip rest of first line here
                        while l.tok != Tok::Nl {
                            l.next();
                        }
                        l.next();
                    }
                    I::Unsup(w.clone())
                }
                "call" | "tail" | "musttail" | "notail" => {
                    if w != "call" {
                        l.next(); // call
                    }
                    // cc, ret attrs
                    loop {
                        if self.is_type_start(&l) {
                            break;
                        }
                        match l.next() {
                            Tok::Word(a) => {
                                if a == "align" {
                                    l.next();
                                }
                                if l.is_p(b'(') {
                                    l.skip_parens();
                                }
                            }
                            x => panic!("call attr {:?} near {}", x, l.ctx()),
                        }
                    }
                    let t = self.ty(&mut l);
                    if l.is_p(b'(') {
                        // function type
                        l.skip_parens();
                    }
                    enum C {
                        G(String),
                        O(Op),
                        Asm,
                    }
                    let callee = match l.tok.clone() {
                        Tok::Global(n) => {
                            l.next();
                            C::G(n)
                        }
                        Tok::Word(x) if x == "asm" => {
                            while !l.is_p(b'(') {
                                l.next();
                            }
                            C::Asm
                        }
                        _ => C::O(scal!(&mut l, &Ty::Ptr)),
                    };
                    l.exp_p(b'(');
                    let mut args = vec![];
                    let mut abits = vec![];
                    if !l.eat_p(b')') {
                        loop {
                            let at = self.ty(&mut l);
                            if at == Ty::Void {
                                // metadata
                                let mut d = 0;
                                loop {
                                    match &l.tok {
                                        Tok::P(b'(') => d += 1,
                                        Tok::P(b')') if d == 0 => break,
                                        Tok::P(b')') => d -= 1,
                                        Tok::P(b',') if d == 0 => break,
                                        _ => {}
                                    }
                                    l.next();
                                }
                            } else {
                                self.skip_attrs(&mut l);
                                let v = oper!(&mut l, &at);
                                for (_, t) in at.flat() {
                                    abits.push(t.bits());
                                }
                                args.extend(v);
                            }
                            if l.eat_p(b')') {
                                break;
                            }
                            l.exp_p(b',');
                        }
                    }
                    let nret = t.nslots() as u32;
                    let rbits: Vec<u32> = t.flat().iter().map(|x| x.1.bits()).collect();
                    let d = if dst.is_some() { dreg!(&t) } else { u32::MAX };
                    let cal = match callee {
                        C::G(n) => {
                            if n.starts_with("llvm.") {
                                Callee::Intr(n)
                            } else {
                                Callee::Fn(self.link.fn_ref(self.m, &n))
                            }
                        }
                        C::O(o) => Callee::Ind(o),
                        C::Asm => Callee::Intr("asm".into()),
                    };
                    I::Call { d, nret, rbits: Rc::new(rbits), callee: cal, args: Rc::new(args), abits: Rc::new(abits) }
                }
                "br" => {
                    if l.eat_w("label") {
                        match l.next() {
                            Tok::Local(n) => I::Br(lab!(n)),
                            x => panic!("{:?}", x),
                        }
                    } else {
                        let t = self.ty(&mut l);
                        let c = scal!(&mut l, &t);
                        l.exp_p(b',');
                        assert!(l.eat_w("label"));
                        let a = match l.next() {
                            Tok::Local(n) => lab!(n),
                            x => panic!("{:?}", x),
                        };
                        l.exp_p(b',');
                        assert!(l.eat_w("label"));
                        let b = match l.next() {
                            Tok::Local(n) => lab!(n),
                            x => panic!("{:?}", x),
                        };
                        I::CondBr { c, t: a, f: b }
                    }
                }
                "switch" => {
                    let t = self.ty(&mut l);
                    let v = scal!(&mut l, &t);
                    l.exp_p(b',');
                    assert!(l.eat_w("label"));
                    let def = match l.next() {
                        Tok::Local(n) => lab!(n),
                        x => panic!("{:?}", x),
                    };
                    l.exp_p(b'[');
                    let mut cases = vec![];
                    loop {
                        while l.tok == Tok::Nl {
                            l.next();
                        }
                        if l.eat_p(b']') {
                            break;
                        }
                        let ct = self.ty(&mut l);
                        let c = match scal!(&mut l, &ct) {
                            Op::C(a, b) => a as u128 | ((b as u128) << 64),
                            _ => panic!(),
                        };
                        l.exp_p(b',');
                        assert!(l.eat_w("label"));
                        match l.next() {
                            Tok::Local(n) => cases.push((c, lab!(n))),
                            x => panic!("{:?}", x),
                        }
                    }
                    I::Switch { v, bits: t.bits(), def, cases: Rc::new(cases) }
                }
                "ret" => {
                    let t = self.ty(&mut l);
                    if t == Ty::Void {
                        I::Ret(Rc::new(vec![]))
                    } else {
                        let v = oper!(&mut l, &t);
                        I::Ret(Rc::new(v))
                    }
                }
                "unreachable" => I::Unreachable,
                "phi" => {
                    let t = self.ty(&mut l);
                    let mut inc: Vec<(u32, Vec<Op>)> = vec![];
                    loop {
                        l.exp_p(b'[');
                        let v = oper!(&mut l, &t);
                        l.exp_p(b',');
                        match l.next() {
                            Tok::Local(n) => inc.push((lab!(n), v)),
                            x => panic!("{:?}", x),
                        }
                        l.exp_p(b']');
                        if !l.eat_p(b',') || !l.is_p(b'[') {
                            break;
                        }
                    }
                    let d = dreg!(&t);
                    let fl = t.flat();
                    for k in 1..fl.len() {
                        code.push(I::Phi {
                            d: d + k as u32,
                            bits: fl[k].1.bits(),
                            inc: Rc::new(inc.iter().map(|(b, v)| (*b, v[k])).collect()),
                        });
                        block_of.push(cur_block);
                    }
                    I::Phi { d, bits: fl[0].1.bits(), inc: Rc::new(inc.iter().map(|(b, v)| (*b, v[0])).collect()) }
                }
                "cmpxchg" => {
                    l.eat_w("weak");
                    l.eat_w("volatile");
                    let pt = self.ty(&mut l);
                    let p = scal!(&mut l, &pt);
                    l.exp_p(b',');
                    let t = self.ty(&mut l);
                    let cmp = scal!(&mut l, &t);
                    l.exp_p(b',');
                    let t2 = self.ty(&mut l);
                    let new = scal!(&mut l, &t2);
                    let d = dreg!(&Ty::Struct(vec![t.clone(), Ty::Int(1)], false));
                    I::CmpXchg { d, p, cmp, new, bits: t.bits() }
                }
                "atomicrmw" => {
                    l.eat_w("volatile");
                    let op = match l.next() {
                        Tok::Word(x) => x,
                        _ => panic!(),
                    };
                    let pt = self.ty(&mut l);
                    let p = scal!(&mut l, &pt);
                    l.exp_p(b',');
                    let t = self.ty(&mut l);
                    let v = scal!(&mut l, &t);
                    I::Rmw { d: dreg!(&t), op, p, v, bits: t.bits() }
                }
                "fence" => {
                    l.skip_line();
                    continue;
                }
                _ => I::Unsup(w.clone()),
            };
            code.push(ins);
            block_of.push(cur_block);
            l.skip_line();
        }
        for (n, b) in &labels {
            if block_pc[*b as usize] == u32::MAX {
                panic!("undefined label {n} in {name}");
            }
        }
        Func {
            name: name.to_string(),
            nregs,
            nparams: nparam_slots,
            code,
            block_of,
            block_pc,
            retbits: rt.flat().iter().map(|x| x.1.bits()).collect(),
        }
    }
}
