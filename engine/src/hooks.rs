//! Replacements for a few library functions: allocation, panics, big-integer arithmetic, number
//! formatting / parsing of symbolic numbers, and the harness interface (`sx_*`).
use crate::expr::*;
use crate::interp::*;
use crate::llvm::Link;

#[derive(Clone, Debug)]
pub enum Hook {
    None,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    NoOp,
    RandKeys,
    Panic,
    Memcmp,
    Bcmp,
    Memcpy,
    Strlen,
    Api(String),
    /// bnum (bytes, signed, op)
    Bn(u64, bool, String),
    BnFrom(u64, u32),
    BnCast(u64, u64, bool),
    TryTo(u64, u64),
    Fmt,
    FmtInner,
    Show(u64, u8),
    Parse(u32, u8),
    SerU(u32),
    Visit,
    Isqrt(u64),
    /// full product of two u128 plus two addends, as (low, high)
    Wide,
    /// byte-array to wide integer: (bytes in, bytes out, reversed)
    Bytes(u64, u64, bool),
    U256(String),
}

pub struct Hooks {
    pub stubs: Vec<(String, String)>,
}

fn between<'a>(s: &'a str, a: &str, b: &str) -> Option<&'a str> {
    let i = s.find(a)? + a.len();
    let j = s[i..].find(b)? + i;
    Some(&s[i..j])
}

impl Hooks {
    pub fn stub(&self, dem: &str) -> Option<String> {
        for (d, s) in &self.stubs {
            if dem == d {
                return Some(s.clone());
            }
        }
        None
    }
    pub fn find(&self, name: &str, dem: &str) -> Hook {
        if name.starts_with("sx_") {
            return Hook::Api(name.to_string());
        }
        match name {
            "memcmp" => return Hook::Memcmp,
            "bcmp" => return Hook::Bcmp,
            "memcpy" | "memmove" => return Hook::Memcpy,
            "strlen" => return Hook::Strlen,
            _ => {}
        }
        if name.contains("___rust_alloc_zeroed") {
            return Hook::AllocZ;
        }
        if name.ends_with("___rust_alloc") {
            return Hook::Alloc;
        }
        if name.ends_with("___rust_dealloc") {
            return Hook::Dealloc;
        }
        if name.ends_with("___rust_realloc") {
            return Hook::Realloc;
        }
        if name.contains("___rust_no_alloc_shim") {
            return Hook::NoOp;
        }
        if dem.contains("hashmap_random_keys") {
            return Hook::RandKeys;
        }
        if dem == "core::panicking::panic_fmt"
            || dem == "core::panicking::panic_nounwind"
            || dem == "core::panicking::panic_nounwind_fmt"
            || dem == "core::panicking::panic_cannot_unwind"
            || dem.starts_with("std::panicking::begin_panic")
            || dem == "std::process::abort"
            || dem.contains("handle_alloc_error")
        {
            return Hook::Panic;
        }
        // bnum
        if dem.starts_with("<bnum::") {
            if let Some(n) = dem
                .strip_prefix("<bnum::buint::BUint<")
                .or_else(|| dem.strip_prefix("<bnum::bint::BInt<"))
                .and_then(|r| r.split('>').next())
                .and_then(|x| x.parse::<u64>().ok())
            {
                let signed = dem.starts_with("<bnum::bint");
                let nb = n * 8;
                let last = dem.rsplit("::").next().unwrap_or("");
                if dem.contains("bnum::cast::CastFrom<bnum::") && last == "cast_from" {
                    if let Some(m) = between(dem, "CastFrom<bnum::buint::BUint<", ">").and_then(|x| x.parse::<u64>().ok()) {
                        return Hook::BnCast(nb, m * 8, false);
                    }
                    if let Some(m) = between(dem, "CastFrom<bnum::bint::BInt<", ">").and_then(|x| x.parse::<u64>().ok()) {
                        return Hook::BnCast(nb, m * 8, true);
                    }
                }
                if dem.contains("core::convert::From<") && last == "from" {
                    let t = between(dem, "core::convert::From<", ">").unwrap_or("");
                    if let Some(b) = t.strip_prefix('u').and_then(|x| x.parse::<u32>().ok()) {
                        return Hook::BnFrom(nb, b);
                    }
                }
                let op = last.split("::<").next().unwrap_or("");
                let known = [
                    "overflowing_add", "overflowing_sub", "overflowing_mul", "div_rem_unchecked", "cmp", "eq", "ne", "lt", "le",
                    "gt", "ge", "is_zero", "is_one", "is_negative", "is_positive", "unsigned_abs", "wrapping_neg", "overflowing_neg",
                    "unchecked_shl_internal", "unchecked_shr_internal", "partial_cmp", "bits",
                ];
                if op == "long_mul" && !signed {
                    return Hook::Bn(nb, false, "overflowing_mul".to_string());
                }
                if known.contains(&op) && !(op == "partial_cmp") {
                    return Hook::Bn(nb, signed, op.to_string());
                }
                return Hook::None;
            }
            if dem.starts_with("<u128 as") {}
        }
        if dem.contains("as core::convert::TryFrom<bnum::buint::BUint<") && dem.ends_with("::try_from") {
            let src = between(dem, "TryFrom<bnum::buint::BUint<", ">").and_then(|x| x.parse::<u64>().ok());
            let dst = dem.strip_prefix("<u").and_then(|x| x.split(' ').next()).and_then(|x| x.parse::<u64>().ok());
            if let (Some(s), Some(d)) = (src, dst) {
                return Hook::TryTo(s * 8, d / 8);
            }
        }
        match dem {
            "<cosmwasm_std::math::uint512::Uint512>::from_be_bytes" => return Hook::Bytes(64, 64, true),
            "<cosmwasm_std::math::uint512::Uint512>::from_le_bytes" => return Hook::Bytes(64, 64, false),
            "<cosmwasm_std::math::uint256::Uint256>::from_be_bytes" => return Hook::Bytes(32, 32, true),
            "<cosmwasm_std::math::uint256::Uint256>::from_le_bytes" => return Hook::Bytes(32, 32, false),
            "<cosmwasm_std::math::uint512::Uint512>::from_uint256" => return Hook::Bytes(32, 64, false),
            _ => {}
        }
        const CM: &str = "cosmwasm_std::math::";
        if dem.starts_with("<cosmwasm_std::math::") {
            let ty = dem[CM.len() + 1..].split(' ').next().unwrap_or("");
            let ty = ty.trim_end_matches('>');
            let w = match ty {
                "decimal::Decimal" => (16, b'D'),
                "decimal256::Decimal256" => (32, b'D'),
                "signed_decimal::SignedDecimal" => (16, b'D'),
                "signed_decimal_256::SignedDecimal256" => (32, b'D'),
                "uint256::Uint256" | "int256::Int256" => (32, b'S'),
                "uint512::Uint512" | "int512::Int512" => (64, b'S'),
                "uint128::Uint128" | "int128::Int128" => (16, b'S'),
                "uint64::Uint64" | "int64::Int64" => (8, b'S'),
                _ => (0, 0),
            };
            if w.0 > 0 {
                if dem.ends_with(" as core::fmt::Display>::fmt") && (w.1 == b'D' || w.0 >= 32 || ty.starts_with("int")) {
                    return Hook::Show(w.0, w.1);
                }
                if dem.ends_with(" as core::str::traits::FromStr>::from_str") && (w.1 == b'D' || w.0 == 32) {
                    return Hook::Parse(w.0 as u32 * 8, w.1);
                }
                if dem.ends_with("as core::convert::TryFrom<cosmwasm_std::math::uint512::Uint512>>::try_from") && w.0 < 64 {
                    return Hook::TryTo(64, w.0);
                }
                if dem.ends_with("as core::convert::TryFrom<cosmwasm_std::math::uint256::Uint256>>::try_from") && w.0 < 32 {
                    return Hook::TryTo(32, w.0);
                }
                if dem.contains("isqrt::Isqrt>::isqrt") {
                    return Hook::Isqrt(w.0);
                }
            }
        }
        if dem.starts_with("<cosmwasm_std::math::uint") && dem.contains("::isqrt::Isqrt>::isqrt") {}
        if dem.starts_with("<i") || dem.starts_with("<u") {
            if dem == "<u128>::carrying_mul" || dem == "<u128>::carrying_mul_add" {
                return Hook::Wide;
            }
            if dem.ends_with(">::_fmt") {
                return Hook::Fmt;
            }
            if dem.ends_with(">::_fmt_inner") {
                return Hook::FmtInner;
            }
            if dem.ends_with(">::from_ascii_bytes_radix_impl") {
                let b: String = dem[2..].chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(b) = b.parse::<u32>() {
                    if b >= 32 {
                        return Hook::Parse(b, b'S');
                    }
                }
            }
        }
        if dem.starts_with("<&mut serde_json_wasm::ser::Serializer as serde::ser::Serializer>::serialize_u") {
            let b: String = dem.rsplit("_u").next().unwrap().to_string();
            if let Ok(b) = b.parse::<u32>() {
                return Hook::SerU(b);
            }
        }
        if dem.contains("serde::de::Visitor>::visit_u") || dem.contains(">::visit_u64::<") || dem.contains(">::visit_u32::<") {
            return Hook::Visit;
        }
        if dem.starts_with("<astroport::uints::") {
            return Hook::U256(dem.to_string());
        }
        Hook::None
    }
}

pub const MAGIC64: u64 = 0xF5EE_0000_0000_0000;
pub const MAGIC32: u64 = 0xF5E0_0000;
pub const MAGIC128: u128 = 0xF5EE_F5EE_0000_0000_0000_0000_0000_0000;
pub const MAGICD: u128 = 0xF5EE_F5EE_0000_0000_0000_0000;

impl Machine {
    fn read_uint(&mut self, p: u64, nb: u64, signed: bool) -> R<Id> {
        let i = self.rd_id(p, nb)?;
        let i = self.ctx.resolve(i);
        if signed {
            return Ok(self.signed(i, nb as u32 * 8));
        }
        Ok(i)
    }
    fn token(&mut self, kind: u8, id: Id) -> R<(u64, u64)> {
        let s = format!("@{}{}", kind as char, id);
        let a = self.alloc(s.len() as u64, 1, false)?;
        self.wr_bytes(a, s.as_bytes())?;
        Ok((a, s.len() as u64))
    }
    fn str_arg(&mut self, p: Val, n: Val) -> R<String> {
        let n = self.conc(n, "string length")?;
        if n == 0 {
            return Ok(String::new());
        }
        let b = self.rd_bytes(p.lo, n)?;
        Ok(String::from_utf8_lossy(&b).into_owned())
    }
    fn jump(&mut self, sym_dem: &str, args: &[Val], d: u32, nret: u32, from: u32) -> R<()> {
        // call another IR function by demangled name
        let m = self.fns[from as usize].m;
        let prog = self.prog.clone();
        for (i, md) in prog.mods.iter().enumerate() {
            for (name, def) in &md.fns {
                if def.demangled.1 - def.demangled.0 == sym_dem.len()
                    && &md.text[def.demangled.0..def.demangled.1] == sym_dem.as_bytes()
                {
                    let fi = self.fn_ref(i, name);
                    return self.push_call(fi, args, d, nret, None);
                }
            }
        }
        let _ = m;
        unsup(format!("{sym_dem} not found"))
    }

    pub fn run_hook(&mut self, h: &Hook, fi: u32, a: &[Val], d: u32, nret: u32, ab: &[u32]) -> R<bool> {
        match h {
            Hook::None => Ok(false),
            Hook::Alloc | Hook::AllocZ => {
                let n = self.conc(a[0], "allocation size")?;
                let al = self.conc(a[1], "alignment")?;
                let p = self.alloc(n, al, matches!(h, Hook::AllocZ))?;
                self.set_ret(d, &[Val::c(p)]);
                Ok(true)
            }
            Hook::Dealloc | Hook::NoOp => Ok(true),
            Hook::Realloc => {
                let old = self.conc(a[1], "old size")?;
                let al = self.conc(a[2], "alignment")?;
                let n = self.conc(a[3], "allocation size")?;
                let p = self.alloc(n, al, false)?;
                self.memmove(p, a[0].lo, old.min(n))?;
                self.set_ret(d, &[Val::c(p)]);
                Ok(true)
            }
            Hook::RandKeys => {
                if nret == 2 {
                    self.set_ret(d, &[Val::c(0x1234_5678), Val::c(0x9abc_def0)]);
                } else {
                    self.wr_bytes(a[0].lo, &[7u8; 16])?;
                }
                Ok(true)
            }
            Hook::Panic => Err(Stop::Panic(self.whereami())),
            Hook::Memcmp | Hook::Bcmp => {
                let n = self.conc(a[2], "compare length")?;
                let r = self.memcmp(a[0].lo, a[1].lo, n, matches!(h, Hook::Bcmp))?;
                self.set_ret(d, &[Val::c(r as u32 as u64)]);
                Ok(true)
            }
            Hook::Memcpy => {
                let n = self.conc(a[2], "copy length")?;
                self.memmove(a[0].lo, a[1].lo, n)?;
                self.set_ret(d, &[a[0]]);
                Ok(true)
            }
            Hook::Strlen => {
                let mut n = 0;
                while self.mem[(a[0].lo + n) as usize] != 0 {
                    n += 1;
                }
                self.set_ret(d, &[Val::c(n)]);
                Ok(true)
            }
            Hook::Api(n) => self.api(n, a, d),
            Hook::Bytes(src, dst, rev) => {
                if a.len() != 2 || self.is_sym(a[1].lo, *src) {
                    return Ok(false);
                }
                let mut b = self.rd_bytes(a[1].lo, *src)?.to_vec();
                if *rev {
                    b.reverse();
                }
                b.resize(*dst as usize, 0);
                self.wr_bytes(a[0].lo, &b)?;
                Ok(true)
            }
            Hook::Bn(nb, signed, op) => self.bn(*nb, *signed, op, a, d),
            Hook::BnFrom(nb, bits) => {
                if a.len() != 2 || a[1].s == 0 || ab.get(1) != Some(bits) {
                    return Ok(false);
                }
                let x = self.iid(a[1]);
                self.wr_sym(a[0].lo, x, *nb)?;
                Ok(true)
            }
            Hook::BnCast(dst, src, signed) => {
                if a.len() != 2 || !self.is_sym(a[1].lo, *src) {
                    return Ok(false);
                }
                let x = self.read_uint(a[1].lo, *src, *signed)?;
                let y = self.wrap(x, *dst as u32 * 8);
                self.wr_sym(a[0].lo, y, *dst)?;
                Ok(true)
            }
            Hook::TryTo(src, dst) => {
                // (sret, ptr) -> Result<dst, _>; run the body on a stand-in and patch the result
                if a.len() != 2 || !self.is_sym(a[1].lo, *src) {
                    return Ok(false);
                }
                let x = self.read_uint(a[1].lo, *src, false)?;
                let lim = self.ctx.constant(pow2(*dst as u32 * 8));
                let fits = self.ctx.lt_ab(x, lim);
                let p = self.alloc(*src, 16, true)?;
                if self.decide(fits)? {
                    let x = self.ctx.resolve(x);
                    if self.ctx.as_const(x).is_some() {
                        self.wr_sym(p, x, *src)?;
                        self.push_call(fi, &[a[0], Val::c(p)], d, nret, None)?;
                        return Ok(true);
                    }
                    self.magic += 1;
                    let magic = if *dst >= 16 { MAGIC128 } else { MAGIC64 as u128 } + self.magic as u128;
                    let nbw = (*dst).min(16) as usize;
                    self.wr_bytes(p, &magic.to_le_bytes()[..nbw.min(if *dst >= 16 { 16 } else { 8 })])?;
                    let patch = Patch { area: a[0].lo, magic, nb: *dst as u32, id: x };
                    self.push_call(fi, &[a[0], Val::c(p)], d, nret, Some(patch))?;
                } else {
                    self.wr_bytes(p, &vec![0xffu8; *src as usize])?;
                    self.push_call(fi, &[a[0], Val::c(p)], d, nret, None)?;
                }
                Ok(true)
            }
            Hook::Wide => {
                let (x, y) = (self.iid(a[1]), self.iid(a[2]));
                let mut r = self.ctx.mul(x, y);
                for v in &a[3..] {
                    let v = self.iid(*v);
                    r = self.ctx.add(r, v);
                }
                self.wr_sym(a[0].lo, r, 32)?;
                Ok(true)
            }
            Hook::Isqrt(nb) => {
                // by value (<=16 bytes) or via sret
                if *nb <= 16 {
                    if a.len() == 1 && a[0].s != 0 {
                        let x = self.iid(a[0]);
                        let r = self.ctx.isqrt(x);
                        let v = self.val(r, 128);
                        self.set_ret(d, &[v]);
                        return Ok(true);
                    }
                    return Ok(false);
                }
                if a.len() != 2 || !self.is_sym(a[1].lo, *nb) {
                    return Ok(false);
                }
                let x = self.read_uint(a[1].lo, *nb, false)?;
                let r = self.ctx.isqrt(x);
                self.wr_sym(a[0].lo, r, *nb)?;
                Ok(true)
            }
            Hook::Fmt => {
                if a[0].s == 0 {
                    return Ok(false);
                }
                let id = self.iid(a[0]);
                if self.ctx.as_const(id).is_some() {
                    let v = self.val(id, 128);
                    let mut b = a.to_vec();
                    b[0] = v;
                    self.push_call(fi, &b, d, nret, None)?;
                    return Ok(true);
                }
                let (p, n) = self.token(b'S', id)?;
                self.set_ret(d, &[Val::c(p), Val::c(n)]);
                Ok(true)
            }
            Hook::FmtInner => {
                if a[0].s == 0 {
                    return Ok(false);
                }
                let id = self.iid(a[0]);
                let (p, n) = self.token(b'S', id)?;
                let len = self.conc(a[2], "buffer length")?;
                if len < n {
                    return unsup("formatting a symbolic number into a short buffer");
                }
                self.memmove(a[1].lo + len - n, p, n)?;
                self.set_ret(d, &[Val::c(len - n)]);
                Ok(true)
            }
            Hook::Show(nb, kind) => {
                if !self.is_sym(a[0].lo, *nb) {
                    return Ok(false);
                }
                let id = self.rd_id(a[0].lo, *nb)?;
                let id = self.ctx.resolve(id);
                if self.ctx.as_const(id).is_some() {
                    let p = self.alloc(*nb, 16, true)?;
                    self.wr_sym(p, id, *nb)?;
                    self.push_call(fi, &[Val::c(p), a[1]], d, nret, None)?;
                    return Ok(true);
                }
                let (p, n) = self.token(*kind, id)?;
                self.jump("<core::fmt::Formatter>::write_str", &[a[1], Val::c(p), Val::c(n)], d, nret, fi)?;
                Ok(true)
            }
            Hook::Parse(bits, kind) => {
                // find (ptr, len)
                for i in 0..a.len().saturating_sub(1) {
                    let (p, n) = (a[i], a[i + 1]);
                    if p.s != 0 || n.s != 0 || n.lo < 3 || n.lo > 12 || ab[i] != 64 || ab[i + 1] != 64 {
                        continue;
                    }
                    if p.lo < GLOB || p.lo + n.lo > END || self.is_sym(p.lo, n.lo) {
                        continue;
                    }
                    let b = self.mem[p.lo as usize..(p.lo + n.lo) as usize].to_vec();
                    if b[0] != b'@' || !(b[1] == b'S' || b[1] == b'D') || !b[2..].iter().all(|c| c.is_ascii_digit()) {
                        continue;
                    }
                    if b[1] != *kind {
                        return unsup("number text of another kind parsed");
                    }
                    let id: Id = String::from_utf8_lossy(&b[2..]).parse().unwrap();
                    let nb = *bits as u64 / 8;
                    let iv = self.ctx.iv(id);
                    if !(iv.nonneg() && iv.hi.map_or(false, |h| h < pow2(*bits))) {
                        let lim = self.ctx.constant(pow2(*bits));
                        let c = self.ctx.lt_ab(id, lim);
                        if !self.decide(c)? {
                            return unsup("number out of range parsed");
                        }
                    }
                    self.magic += 1;
                    let k = self.magic as u128;
                    let (magic, text) = if *kind == b'D' {
                        let m = MAGICD + k;
                        (m, format!("{}.{:018}", m / 1_000_000_000_000_000_000, m % 1_000_000_000_000_000_000))
                    } else {
                        let m = match nb {
                            4 => MAGIC32 as u128 + k,
                            8 => MAGIC64 as u128 + k,
                            _ => MAGIC128 + k,
                        };
                        (m, m.to_string())
                    };
                    let sp = self.alloc(text.len() as u64, 1, false)?;
                    self.wr_bytes(sp, text.as_bytes())?;
                    let mut args = a.to_vec();
                    args[i] = Val::c(sp);
                    args[i + 1] = Val::c(text.len() as u64);
                    let area = if i > 0 { a[0].lo } else { 0 };
                    self.push_call(fi, &args, d, nret, Some(Patch { area, magic, nb: nb as u32, id }))?;
                    return Ok(true);
                }
                Ok(false)
            }
            Hook::SerU(bits) => {
                let mut args = a.to_vec();
                let mut hit = false;
                for i in 0..a.len() {
                    if a[i].s != 0 && ab[i] == *bits {
                        let id = self.iid(a[i]);
                        if let Some(c) = self.ctx.as_const(id) {
                            args[i] = Val::c128(to_u128(&c).unwrap());
                        } else if *bits == 64 {
                            args[i] = Val::c(MAGIC64 + id as u64);
                        } else if *bits == 32 {
                            args[i] = Val::c(MAGIC32 + id as u64);
                        } else {
                            let (base, n) = if *bits == 16 { (0xF000u64, 0xfffu64) } else { (0xF0, 0xf) };
                            let k = match self.small.iter().position(|x| *x == id) {
                                Some(k) => k,
                                None => {
                                    self.small.push(id);
                                    self.small.len() - 1
                                }
                            };
                            if k as u64 >= n {
                                return unsup("too many symbolic small integers in JSON");
                            }
                            args[i] = Val::c(base + k as u64);
                        }
                        hit = true;
                    } else if ab[i] == *bits && !self.small.is_empty() && ((*bits == 16 && a[i].lo >= 0xF000) || (*bits == 8 && a[i].lo >= 0xF0)) {
                        return unsup("large small-integer in JSON");
                    }
                }
                if hit {
                    self.push_call(fi, &args, d, nret, None)?;
                }
                Ok(hit)
            }
            Hook::Visit => {
                let mut args = a.to_vec();
                let mut hit = false;
                for i in 0..a.len() {
                    if a[i].s == 0 {
                        let k = if ab[i] == 64 && a[i].lo >= MAGIC64 && a[i].lo < MAGIC64 + self.ctx.nodes.len() as u64 {
                            a[i].lo - MAGIC64
                        } else if ab[i] == 32 && a[i].lo >= MAGIC32 && a[i].lo < MAGIC32 + self.ctx.nodes.len() as u64 {
                            a[i].lo - MAGIC32
                        } else if ab[i] == 16 && a[i].lo >= 0xF000 && ((a[i].lo - 0xF000) as usize) < self.small.len() {
                            self.small[(a[i].lo - 0xF000) as usize] as u64
                        } else if ab[i] == 8 && a[i].lo >= 0xF0 && ((a[i].lo - 0xF0) as usize) < self.small.len() {
                            self.small[(a[i].lo - 0xF0) as usize] as u64
                        } else {
                            continue;
                        };
                        args[i] = Val { lo: 0, hi: 0, s: k as Id };
                        hit = true;
                    }
                }
                if hit {
                    self.push_call(fi, &args, d, nret, None)?;
                }
                Ok(hit)
            }
            Hook::U256(dem) => self.u256(dem, a, d, ab),
        }
    }

    fn bn(&mut self, nb: u64, signed: bool, op: &str, a: &[Val], d: u32) -> R<bool> {
        let bits = nb as u32 * 8;
        let min = if signed { -pow2(bits - 1) } else { zero() };
        let max = if signed { pow2(bits - 1) - one() } else { pow2(bits) - one() };
        // constants of unsigned types: computed here instead of word by word
        if !signed && nb <= 64 && a.len() == 3 && matches!(op, "overflowing_mul" | "div_rem_unchecked") && !self.is_sym(a[1].lo, nb) && !self.is_sym(a[2].lo, nb) {
            let rd = |m: &Machine, p: u64| -> R<Big> {
                let b = m.rd_bytes(p, nb)?;
                let mut w = [0u8; 128];
                w[..nb as usize].copy_from_slice(&b);
                Ok(Big::from_bits(bnum::BUint::<16>::from_le_slice(&w).unwrap()))
            };
            let (x, y) = (rd(self, a[1].lo)?, rd(self, a[2].lo)?);
            let out = |v: Big| -> Vec<u8> {
                let mut b = vec![];
                for d in v.to_bits().digits() {
                    b.extend_from_slice(&d.to_le_bytes());
                }
                b.truncate(nb as usize);
                b
            };
            if op == "overflowing_mul" {
                if x.bits() + y.bits() < 1020 {
                    let r = x * y;
                    self.wr_bytes(a[0].lo, &out(r))?;
                    self.wr_bytes(a[0].lo + nb, &[(r > max) as u8])?;
                    return Ok(true);
                }
            } else if !y.is_zero() {
                self.wr_bytes(a[0].lo, &out(x / y))?;
                self.wr_bytes(a[0].lo + nb, &out(x % y))?;
                return Ok(true);
            }
        }
        match op {
            "overflowing_add" | "overflowing_sub" | "overflowing_mul" => {
                if a.len() != 3 || !(self.is_sym(a[1].lo, nb) || self.is_sym(a[2].lo, nb)) {
                    return Ok(false);
                }
                let x = self.read_uint(a[1].lo, nb, signed)?;
                let y = self.read_uint(a[2].lo, nb, signed)?;
                let r = match op {
                    "overflowing_add" => self.ctx.add(x, y),
                    "overflowing_sub" => self.ctx.sub(x, y),
                    _ => self.ctx.mul(x, y),
                };
                let (lo, hi) = (self.ctx.constant(min), self.ctx.constant(max));
                let u = self.ctx.lt_ab(r, lo);
                let o = self.ctx.lt_ab(hi, r);
                let c = self.ctx.or(u, o);
                let o = self.decide(c)?;
                let w = self.wrap(r, bits);
                let w = self.ctx.resolve(w);
                self.wr_sym(a[0].lo, w, nb)?;
                self.wr_bytes(a[0].lo + nb, &[o as u8])?;
                Ok(true)
            }
            "overflowing_neg" => {
                if a.len() != 2 || !self.is_sym(a[1].lo, nb) {
                    return Ok(false);
                }
                let x = self.read_uint(a[1].lo, nb, signed)?;
                let z = self.ctx.cu(0);
                let r = self.ctx.sub(z, x);
                let (lo, hi) = (self.ctx.constant(min), self.ctx.constant(max));
                let u = self.ctx.lt_ab(r, lo);
                let o = self.ctx.lt_ab(hi, r);
                let c = self.ctx.or(u, o);
                let o = self.decide(c)?;
                let w = self.wrap(r, bits);
                let w = self.ctx.resolve(w);
                self.wr_sym(a[0].lo, w, nb)?;
                self.wr_bytes(a[0].lo + nb, &[o as u8])?;
                Ok(true)
            }
            "wrapping_neg" | "unsigned_abs" => {
                if a.len() != 2 || !self.is_sym(a[1].lo, nb) {
                    return Ok(false);
                }
                let x = self.read_uint(a[1].lo, nb, signed)?;
                let z = self.ctx.cu(0);
                let mut r = self.ctx.sub(z, x);
                if op == "unsigned_abs" {
                    let c = self.ctx.lt_ab(x, z);
                    if !self.decide(c)? {
                        r = x;
                    }
                }
                let w = self.wrap(r, bits);
                let w = self.ctx.resolve(w);
                self.wr_sym(a[0].lo, w, nb)?;
                Ok(true)
            }
            "div_rem_unchecked" => {
                if a.len() != 3 || !(self.is_sym(a[1].lo, nb) || self.is_sym(a[2].lo, nb)) {
                    return Ok(false);
                }
                let x = self.read_uint(a[1].lo, nb, signed)?;
                let y = self.read_uint(a[2].lo, nb, signed)?;
                let z = self.ctx.cu(0);
                let c = self.ctx.eq_ab(y, z);
                if self.decide(c)? {
                    return Err(Stop::Panic("bnum division by zero".into()));
                }
                let (mut nx, mut ny) = (false, false);
                if signed {
                    let c = self.ctx.lt_ab(x, z);
                    nx = self.decide(c)?;
                    let c = self.ctx.lt_ab(y, z);
                    ny = self.decide(c)?;
                }
                let ax = if nx { self.ctx.sub(z, x) } else { x };
                let ay = if ny { self.ctx.sub(z, y) } else { y };
                let mut q = self.ctx.div(ax, ay);
                let qy = self.ctx.mul(q, ay);
                let mut r = self.ctx.sub(ax, qy);
                if self.ctx.as_const(ay).is_some() {
                    r = self.ctx.modulo(ax, ay);
                }
                if nx != ny {
                    q = self.ctx.sub(z, q);
                }
                if nx {
                    r = self.ctx.sub(z, r);
                }
                let (q, r) = (self.wrap(q, bits), self.wrap(r, bits));
                let (q, r) = (self.ctx.resolve(q), self.ctx.resolve(r));
                self.wr_sym(a[0].lo, q, nb)?;
                self.wr_sym(a[0].lo + nb, r, nb)?;
                Ok(true)
            }
            "cmp" | "eq" | "ne" | "lt" | "le" | "gt" | "ge" => {
                if a.len() != 2 || !(self.is_sym(a[0].lo, nb) || self.is_sym(a[1].lo, nb)) {
                    return Ok(false);
                }
                let x = self.read_uint(a[0].lo, nb, signed)?;
                let y = self.read_uint(a[1].lo, nb, signed)?;
                let c = match op {
                    "cmp" => {
                        let r = self.cmp3(x, y)?;
                        self.set_ret(d, &[Val::c(r as u8 as u64)]);
                        return Ok(true);
                    }
                    "eq" => self.ctx.eq_ab(x, y),
                    "ne" => {
                        let e = self.ctx.eq_ab(x, y);
                        self.ctx.not(e)
                    }
                    "lt" => self.ctx.lt_ab(x, y),
                    "le" => self.ctx.ge_ab(y, x),
                    "gt" => self.ctx.lt_ab(y, x),
                    _ => self.ctx.ge_ab(x, y),
                };
                let v = self.val(c, 1);
                self.set_ret(d, &[v]);
                Ok(true)
            }
            "is_zero" | "is_one" | "is_negative" | "is_positive" => {
                if a.len() != 1 || !self.is_sym(a[0].lo, nb) {
                    return Ok(false);
                }
                let x = self.read_uint(a[0].lo, nb, signed)?;
                let z = self.ctx.cu(0);
                let c = match op {
                    "is_zero" => self.ctx.eq_ab(x, z),
                    "is_one" => {
                        let o = self.ctx.cu(1);
                        self.ctx.eq_ab(x, o)
                    }
                    "is_negative" => self.ctx.lt_ab(x, z),
                    _ => self.ctx.lt_ab(z, x),
                };
                let v = self.val(c, 1);
                self.set_ret(d, &[v]);
                Ok(true)
            }
            "bits" => {
                if a.len() != 1 || !self.is_sym(a[0].lo, nb) {
                    return Ok(false);
                }
                let x = self.read_uint(a[0].lo, nb, false)?;
                let (mut lo, mut hi) = (0u32, bits);
                while lo < hi {
                    let mid = (lo + hi) / 2;
                    let k = self.ctx.constant(pow2(mid));
                    let c = self.ctx.lt_ab(x, k);
                    if self.decide(c)? {
                        hi = mid
                    } else {
                        lo = mid + 1
                    }
                }
                self.set_ret(d, &[Val::c(lo as u64)]);
                Ok(true)
            }
            "unchecked_shl_internal" | "unchecked_shr_internal" => {
                if a.len() != 3 || !self.is_sym(a[1].lo, nb) {
                    return Ok(false);
                }
                let x = self.read_uint(a[1].lo, nb, false)?;
                let k = self.conc(a[2], "shift")? as u32;
                let r = if op == "unchecked_shl_internal" {
                    let t = self.ctx.scale(x, pow2(k));
                    self.wrap(t, bits)
                } else {
                    let c = self.ctx.constant(pow2(k));
                    self.ctx.div(x, c)
                };
                self.wr_sym(a[0].lo, r, nb)?;
                Ok(true)
            }
            _ => Ok(false),
        }
    }

    fn u256(&mut self, dem: &str, a: &[Val], d: u32, ab: &[u32]) -> R<bool> {
        // astroport::uints::U256 (crate `uint`), used for the initial LP share
        let _ = ab;
        if dem.contains("core::convert::From<u128>>::from") && a.len() == 2 && a[1].s != 0 {
            let x = self.iid(a[1]);
            self.wr_sym(a[0].lo, x, 32)?;
            return Ok(true);
        }
        if dem.contains("core::convert::From<u64>>::from") && a.len() == 2 && a[1].s != 0 {
            let x = self.iid(a[1]);
            self.wr_sym(a[0].lo, x, 32)?;
            return Ok(true);
        }
        let bin = |op: &str| dem.contains(&format!("core::ops::arith::{op}"));
        if a.len() == 3 && (bin("Mul") || bin("Add") || bin("Sub") || bin("Div")) && dem.matches("uints::").count() >= 1 && !dem.contains("Assign") {
            if !(self.is_sym(a[1].lo, 32) || (a[2].s == 0 && a[2].lo >= GLOB && a[2].lo + 32 < END && self.is_sym(a[2].lo, 32))) {
                return Ok(false);
            }
            let x = self.read_uint(a[1].lo, 32, false)?;
            let y = if a[2].s != 0 || a[2].lo < GLOB || a[2].lo >= END { self.iid(a[2]) } else { self.read_uint(a[2].lo, 32, false)? };
            let r = if bin("Mul") {
                self.ctx.mul(x, y)
            } else if bin("Add") {
                self.ctx.add(x, y)
            } else if bin("Sub") {
                self.ctx.sub(x, y)
            } else {
                let z = self.ctx.cu(0);
                let c = self.ctx.eq_ab(y, z);
                if self.decide(c)? {
                    return Err(Stop::Panic("U256 division by zero".into()));
                }
                self.ctx.div(x, y)
            };
            let (lo, hi) = (self.ctx.cu(0), self.ctx.constant(pow2(256) - one()));
            let u = self.ctx.lt_ab(r, lo);
            let o = self.ctx.lt_ab(hi, r);
            let c = self.ctx.or(u, o);
            if self.decide(c)? {
                return Err(Stop::Panic("U256 overflow".into()));
            }
            self.wr_sym(a[0].lo, r, 32)?;
            return Ok(true);
        }
        if dem.ends_with("::integer_sqrt") && a.len() == 2 && self.is_sym(a[1].lo, 32) {
            let x = self.read_uint(a[1].lo, 32, false)?;
            let r = self.ctx.isqrt(x);
            self.wr_sym(a[0].lo, r, 32)?;
            return Ok(true);
        }
        if dem.ends_with("::as_u128") && a.len() == 1 && self.is_sym(a[0].lo, 32) {
            let x = self.read_uint(a[0].lo, 32, false)?;
            let lim = self.ctx.constant(pow2(128));
            let c = self.ctx.lt_ab(x, lim);
            if !self.decide(c)? {
                return Err(Stop::Panic("Integer overflow when casting to u128".into()));
            }
            let x = self.ctx.resolve(x);
            let v = self.val(x, 128);
            self.set_ret(d, &[v]);
            return Ok(true);
        }
        Ok(false)
    }

    fn hid(&mut self, v: Val) -> R<Id> {
        let i = self.conc(v, "handle")?;
        if i == 0 || i >= self.ctx.nodes.len() as u64 {
            return unsup("bad handle");
        }
        Ok(i as Id)
    }

    fn api(&mut self, n: &str, a: &[Val], d: u32) -> R<bool> {
        let ret = |m: &mut Machine, v: u64| m.set_ret(d, &[Val::c(v)]);
        // only these take symbolic arguments; anything else must be one value
        let mut cs = a.to_vec();
        if !matches!(n, "sx_assume" | "sx_check" | "sx_b_from" | "sx_i_const") {
            for v in cs.iter_mut() {
                if v.s != 0 {
                    *v = Val::c(self.conc(*v, "argument of the harness")?);
                }
            }
        }
        let a = &cs[..];
        match n {
            "sx_input" => {
                let name = self.str_arg(a[0], a[1])?;
                let nb = a[2].lo;
                let lo = u128::from_le_bytes(self.rd_bytes(a[3].lo, 16)?.try_into().unwrap());
                let hi = u128::from_le_bytes(self.rd_bytes(a[4].lo, 16)?.try_into().unwrap());
                if lo > hi {
                    return Err(Stop::Assume);
                }
                if self.ctx.vars.iter().any(|v| v.name == name) {
                    return unsup(format!("duplicate input {name}"));
                }
                let id = self.ctx.var(name.clone(), big(lo), big(hi));
                if let Some(m) = &mut self.model {
                    m.entry(name.clone()).or_insert(big(lo));
                }
                self.out.inputs.push(name);
                self.wr_sym(a[5].lo, id, nb)?;
            }
            "sx_choice" => {
                let name = self.str_arg(a[0], a[1])?;
                let k = self.choose(a[2].lo)?;
                self.out.choices.push((name, k));
                ret(self, k);
            }
            "sx_assume" => {
                let c = self.bid(a[0]);
                self.assume_user(c)?;
            }
            "sx_assume_b" => {
                let c = self.hid(a[0])?;
                self.assume_user(c)?;
            }
            "sx_check" => {
                let c = self.bid(a[0]);
                let l = self.str_arg(a[1], a[2])?;
                self.check(c, &l)?;
            }
            "sx_check_b" => {
                let c = self.hid(a[0])?;
                let l = self.str_arg(a[1], a[2])?;
                self.check(c, &l)?;
            }
            "sx_cover" => {
                let l = self.str_arg(a[0], a[1])?;
                // while a prefix is replayed, a model of the part so far may contradict the rest
                if self.model.is_some() || (!self.replaying() && self.ensure_model(3000).is_some()) {
                    self.out.covers.push(l);
                }
            }
            "sx_obs" => {
                let l = self.str_arg(a[0], a[1])?;
                let id = self.rd_id(a[2].lo, a[3].lo)?;
                self.out.obs.push((l, id));
            }
            "sx_obs_i" => {
                let l = self.str_arg(a[0], a[1])?;
                let id = self.hid(a[2])?;
                self.out.obs.push((l, id));
            }
            "sx_dbg" => {
                let l = self.str_arg(a[0], a[1])?;
                if self.opts.trace {
                    eprintln!("dbg {l}");
                }
            }
            "sx_dbg_i" => {
                let l = self.str_arg(a[0], a[1])?;
                if self.opts.trace {
                    let id = self.hid(a[2])?;
                    eprintln!("dbg {l} = {}", self.ctx.show(id, 8));
                }
            }
            "sx_stop" => return Err(Stop::Assume),
            "sx_nopanic" => {
                let l = self.str_arg(a[0], a[1])?;
                self.nopanic.push(l);
            }
            "sx_nopanic_end" => {
                self.nopanic.pop();
            }
            "sx_i_const" => {
                let (lo, hi) = (self.iid(a[0]), self.iid(a[1]));
                let w = self.ctx.constant(pow2(64));
                let hi = self.ctx.mul(hi, w);
                let id = self.ctx.add(lo, hi);
                ret(self, id as u64);
            }
            "sx_i_from" => {
                let nb = a[1].lo;
                let id = self.rd_id(a[0].lo, nb)?;
                let id = self.ctx.resolve(id);
                let id = if a[2].lo & 1 == 1 { self.signed(id, nb as u32 * 8) } else { id };
                ret(self, id as u64);
            }
            "sx_i_write" => {
                let id = self.hid(a[0])?;
                let nb = a[2].lo;
                let hi = self.ctx.constant(pow2(nb as u32 * 8));
                let z = self.ctx.cu(0);
                let c1 = self.ctx.lt_ab(id, hi);
                let c2 = self.ctx.ge_ab(id, z);
                let c = self.ctx.and(c1, c2);
                self.assume_user(c)?;
                self.wr_sym(a[1].lo, id, nb)?;
            }
            "sx_i_op" => {
                let (x, y) = (self.hid(a[1])?, self.hid(a[2])?);
                let r = match a[0].lo {
                    0 => self.ctx.add(x, y),
                    1 => self.ctx.sub(x, y),
                    2 => self.ctx.mul(x, y),
                    3 | 4 => {
                        let i = self.ctx.iv(y);
                        if !i.pos() {
                            let z = self.ctx.cu(0);
                            let c = self.ctx.lt_ab(z, y);
                            if self.ctx.truth(c) != Some(true) {
                                if !self.forced(c)? {
                                    return unsup("harness division by a possibly non-positive number");
                                }
                            }
                        }
                        if a[0].lo == 3 {
                            self.ctx.div(x, y)
                        } else {
                            self.ctx.modulo(x, y)
                        }
                    }
                    5 => self.ctx.isqrt(x),
                    6 => {
                        let c = self.ctx.lt_ab(x, y);
                        self.ctx.ite(c, x, y)
                    }
                    7 => {
                        let c = self.ctx.lt_ab(x, y);
                        self.ctx.ite(c, y, x)
                    }
                    _ => return unsup("sx_i_op"),
                };
                ret(self, r as u64);
            }
            "sx_i_cmp" => {
                let (x, y) = (self.hid(a[1])?, self.hid(a[2])?);
                let r = match a[0].lo {
                    0 => self.ctx.eq_ab(x, y),
                    1 => self.ctx.lt_ab(x, y),
                    _ => self.ctx.ge_ab(y, x),
                };
                ret(self, r as u64);
            }
            "sx_i_ite" => {
                let (c, x, y) = (self.hid(a[0])?, self.hid(a[1])?, self.hid(a[2])?);
                let r = self.ctx.ite(c, x, y);
                ret(self, r as u64);
            }
            "sx_b_from" => {
                let c = self.bid(a[0]);
                ret(self, c as u64);
            }
            "sx_b_op" => {
                let (x, y) = (self.hid(a[1])?, self.hid(a[2])?);
                let r = match a[0].lo {
                    0 => self.ctx.and(x, y),
                    1 => self.ctx.or(x, y),
                    2 => self.ctx.not(x),
                    _ => {
                        let n = self.ctx.not(x);
                        self.ctx.or(n, y)
                    }
                };
                ret(self, r as u64);
            }
            "sx_b_fork" => {
                let x = self.hid(a[0])?;
                let r = self.decide(x)?;
                ret(self, r as u64);
            }
            _ => return unsup(format!("api {n}")),
        }
        Ok(true)
    }
}
