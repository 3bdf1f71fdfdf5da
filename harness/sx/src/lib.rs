//! Harness interface. On the symbolic target (riscv64) the `sx_*` functions are provided by the
//! engine; natively they replay one concrete assignment read from the file named by SX_MODEL.
use cosmwasm_std::{Decimal, Decimal256, Int256, Uint128, Uint256, Uint512, Uint64};
use std::ops::{Add, BitAnd, BitOr, Div, Mul, Not, Rem, Sub};

#[cfg(target_arch = "riscv64")]
mod imp {
    extern "C" {
        pub fn sx_input(n: *const u8, nl: usize, nb: usize, lo: *const u128, hi: *const u128, out: *mut u8);
        pub fn sx_choice(n: *const u8, nl: usize, k: u64) -> u64;
        pub fn sx_assume(c: bool);
        pub fn sx_assume_b(c: u64);
        pub fn sx_check(c: bool, l: *const u8, ll: usize);
        pub fn sx_check_b(c: u64, l: *const u8, ll: usize);
        pub fn sx_cover(l: *const u8, ll: usize);
        pub fn sx_obs(l: *const u8, ll: usize, p: *const u8, n: usize);
        pub fn sx_obs_i(l: *const u8, ll: usize, h: u64);
        pub fn sx_dbg(l: *const u8, ll: usize);
        pub fn sx_dbg_i(l: *const u8, ll: usize, h: u64);
        pub fn sx_stop();
        pub fn sx_nopanic(l: *const u8, ll: usize);
        pub fn sx_nopanic_end();
        pub fn sx_i_const(lo: u64, hi: u64) -> u64;
        pub fn sx_i_from(p: *const u8, n: usize, signed: bool) -> u64;
        pub fn sx_i_write(h: u64, p: *mut u8, n: usize);
        pub fn sx_i_op(op: u64, a: u64, b: u64) -> u64;
        pub fn sx_i_cmp(op: u64, a: u64, b: u64) -> u64;
        pub fn sx_i_ite(c: u64, a: u64, b: u64) -> u64;
        pub fn sx_b_from(c: bool) -> u64;
        pub fn sx_b_op(op: u64, a: u64, b: u64) -> u64;
        pub fn sx_b_fork(c: u64) -> bool;
    }
}

#[cfg(not(target_arch = "riscv64"))]
mod imp {
    use bnum::BInt;
    use std::cell::RefCell;
    pub type Big = BInt<24>;
    #[derive(Default)]
    pub struct St {
        pub vals: std::collections::HashMap<String, u128>,
        pub choices: Vec<(String, u64)>,
        pub ci: usize,
        pub ints: Vec<Big>,
        pub bools: Vec<bool>,
        pub nopanic: Vec<String>,
        pub failed: bool,
    }
    thread_local! { pub static ST: RefCell<St> = RefCell::new(St::default()); }
    fn s(p: *const u8, n: usize) -> String {
        unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() }
    }
    pub fn push(v: Big) -> u64 {
        ST.with(|x| {
            let mut x = x.borrow_mut();
            x.ints.push(v);
            x.ints.len() as u64 - 1
        })
    }
    pub fn get(h: u64) -> Big {
        ST.with(|x| x.borrow().ints[h as usize])
    }
    fn pushb(v: bool) -> u64 {
        ST.with(|x| {
            let mut x = x.borrow_mut();
            x.bools.push(v);
            x.bools.len() as u64 - 1
        })
    }
    fn getb(h: u64) -> bool {
        ST.with(|x| x.borrow().bools[h as usize])
    }
    pub fn end(what: &str) -> ! {
        println!("end {what}");
        std::process::exit(0)
    }
    pub unsafe fn sx_input(n: *const u8, nl: usize, nb: usize, lo: *const u128, hi: *const u128, out: *mut u8) {
        let name = s(n, nl);
        let v = ST.with(|x| x.borrow().vals.get(&name).copied()).unwrap_or(*lo);
        if v < *lo || v > *hi {
            end(&format!("input {name} out of range"));
        }
        let b = v.to_le_bytes();
        for i in 0..nb {
            *out.add(i) = if i < 16 { b[i] } else { 0 };
        }
    }
    pub unsafe fn sx_choice(n: *const u8, nl: usize, k: u64) -> u64 {
        let name = s(n, nl);
        let r = ST.with(|x| {
            let mut x = x.borrow_mut();
            let i = x.ci;
            x.ci += 1;
            x.choices.get(i).cloned()
        });
        match r {
            Some((m, v)) if m == name && v < k => v,
            None => 0,
            _ => end("choice mismatch"),
        }
    }
    pub unsafe fn sx_assume(c: bool) {
        if !c {
            end("assumption does not hold")
        }
    }
    pub unsafe fn sx_assume_b(c: u64) {
        sx_assume(getb(c))
    }
    pub unsafe fn sx_check(c: bool, l: *const u8, ll: usize) {
        println!("check {} {}", c as u8, s(l, ll));
    }
    pub unsafe fn sx_check_b(c: u64, l: *const u8, ll: usize) {
        sx_check(getb(c), l, ll)
    }
    pub unsafe fn sx_cover(_: *const u8, _: usize) {}
    pub unsafe fn sx_obs(l: *const u8, ll: usize, p: *const u8, n: usize) {
        let mut v = Big::ZERO;
        for i in (0..n).rev() {
            v = v * Big::from(256) + Big::from(*p.add(i));
        }
        println!("obs {v} {}", s(l, ll));
    }
    pub unsafe fn sx_obs_i(l: *const u8, ll: usize, h: u64) {
        println!("obs {} {}", get(h), s(l, ll));
    }
    pub unsafe fn sx_dbg(l: *const u8, ll: usize) {
        if std::env::var("SX_VERBOSE").is_ok() {
            println!("dbg {}", s(l, ll));
        }
    }
    pub unsafe fn sx_dbg_i(l: *const u8, ll: usize, h: u64) {
        if std::env::var("SX_VERBOSE").is_ok() {
            println!("dbg {} = {}", s(l, ll), get(h));
        }
    }
    pub unsafe fn sx_stop() {
        end("stop")
    }
    pub unsafe fn sx_nopanic(l: *const u8, ll: usize) {
        let t = s(l, ll);
        ST.with(|x| x.borrow_mut().nopanic.push(t));
    }
    pub unsafe fn sx_nopanic_end() {
        ST.with(|x| x.borrow_mut().nopanic.pop());
    }
    pub unsafe fn sx_i_const(lo: u64, hi: u64) -> u64 {
        push(Big::from(lo as u128 | (hi as u128) << 64))
    }
    pub unsafe fn sx_i_from(p: *const u8, n: usize, signed: bool) -> u64 {
        let mut v = Big::ZERO;
        for i in (0..n).rev() {
            v = v * Big::from(256) + Big::from(*p.add(i));
        }
        if signed && *p.add(n - 1) >= 128 {
            v = v - (Big::ONE << (8 * n as u32));
        }
        push(v)
    }
    pub unsafe fn sx_i_write(h: u64, p: *mut u8, n: usize) {
        let mut v = get(h);
        if v.is_negative() || v >= (Big::ONE << (8 * n as u32)) {
            end("assumption does not hold");
        }
        for i in 0..n {
            *p.add(i) = u8::try_from(v % Big::from(256)).unwrap();
            v = v / Big::from(256);
        }
    }
    fn fdiv(a: Big, b: Big) -> Big {
        let q = a / b;
        if (a % b) != Big::ZERO && (a.is_negative() != b.is_negative()) {
            q - Big::ONE
        } else {
            q
        }
    }
    pub unsafe fn sx_i_op(op: u64, a: u64, b: u64) -> u64 {
        let (x, y) = (get(a), get(b));
        push(match op {
            0 => x + y,
            1 => x - y,
            2 => x * y,
            3 => fdiv(x, y),
            4 => x - fdiv(x, y) * y,
            5 => {
                let mut lo = Big::ZERO;
                let mut hi = Big::ONE << 500;
                while lo < hi {
                    let m = (lo + hi + Big::ONE) / Big::from(2);
                    if m * m <= x {
                        lo = m
                    } else {
                        hi = m - Big::ONE
                    }
                }
                lo
            }
            6 => if x < y { x } else { y },
            _ => if x < y { y } else { x },
        })
    }
    pub unsafe fn sx_i_cmp(op: u64, a: u64, b: u64) -> u64 {
        let (x, y) = (get(a), get(b));
        pushb(match op {
            0 => x == y,
            1 => x < y,
            _ => x <= y,
        })
    }
    pub unsafe fn sx_i_ite(c: u64, a: u64, b: u64) -> u64 {
        if getb(c) {
            a
        } else {
            b
        }
    }
    pub unsafe fn sx_b_from(c: bool) -> u64 {
        pushb(c)
    }
    pub unsafe fn sx_b_op(op: u64, a: u64, b: u64) -> u64 {
        let (x, y) = (getb(a), getb(b));
        pushb(match op {
            0 => x && y,
            1 => x || y,
            2 => !x,
            _ => !x || y,
        })
    }
    pub unsafe fn sx_b_fork(c: u64) -> bool {
        getb(c)
    }
}
use imp::*;

/// Runs one entry natively on the assignment in SX_MODEL. Prints checks and observations.
#[cfg(not(target_arch = "riscv64"))]
pub fn native_main(entries: &[(&str, fn())]) {
    let name = std::env::args().nth(1).expect("entry");
    if let Ok(f) = std::env::var("SX_MODEL") {
        let t = std::fs::read_to_string(f).unwrap();
        ST.with(|s| {
            let mut s = s.borrow_mut();
            for l in t.lines() {
                let p: Vec<&str> = l.split(' ').collect();
                match p[0] {
                    "v" => {
                        s.vals.insert(p[1].to_string(), p[2].parse().unwrap());
                    }
                    "c" => s.choices.push((p[1].to_string(), p[2].parse().unwrap())),
                    _ => {}
                }
            }
        });
    }
    let e = entries.iter().find(|x| x.0 == name).expect("no such entry").1;
    if std::env::var("SX_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let r = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn({
            let st = ST.with(|s| std::mem::take(&mut *s.borrow_mut()));
            move || {
                ST.with(|s| *s.borrow_mut() = st);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e()));
                if r.is_err() {
                    let l = ST.with(|s| s.borrow().nopanic.last().cloned());
                    if let Some(l) = l {
                        println!("check 0 no panic: {l}");
                    }
                    println!("end panic");
                } else {
                    println!("end done");
                }
            }
        })
        .unwrap()
        .join();
    let _ = r;
}
// ------------------------------------------------------------------ inputs
pub fn in_u128(name: &str, lo: u128, hi: u128) -> u128 {
    let mut v = [0u128; 1];
    unsafe { sx_input(name.as_ptr(), name.len(), 16, &lo, &hi, v.as_mut_ptr() as *mut u8) };
    v[0]
}
pub fn in_u64(name: &str, lo: u64, hi: u64) -> u64 {
    let mut v = [0u64; 1];
    unsafe { sx_input(name.as_ptr(), name.len(), 8, &(lo as u128), &(hi as u128), v.as_mut_ptr() as *mut u8) };
    v[0]
}
pub fn in_u32(name: &str, lo: u32, hi: u32) -> u32 {
    let mut v = [0u32; 1];
    unsafe { sx_input(name.as_ptr(), name.len(), 4, &(lo as u128), &(hi as u128), v.as_mut_ptr() as *mut u8) };
    v[0]
}
pub fn in_u16(name: &str, lo: u16, hi: u16) -> u16 {
    let mut v = [0u16; 1];
    unsafe { sx_input(name.as_ptr(), name.len(), 2, &(lo as u128), &(hi as u128), v.as_mut_ptr() as *mut u8) };
    v[0]
}
pub fn in_u8(name: &str, lo: u8, hi: u8) -> u8 {
    let mut v = [0u8; 1];
    unsafe { sx_input(name.as_ptr(), name.len(), 1, &(lo as u128), &(hi as u128), v.as_mut_ptr()) };
    v[0]
}
pub fn in_uint128(name: &str, lo: u128, hi: u128) -> Uint128 {
    Uint128::new(in_u128(name, lo, hi))
}
pub fn in_bool(name: &str) -> bool {
    choice(name, 2) == 1
}
pub fn in_decimal(name: &str, lo: u128, hi: u128) -> Decimal {
    Decimal::new(Uint128::new(in_u128(name, lo, hi)))
}
/// nondeterministic choice among n alternatives (forks)
pub fn choice(name: &str, n: u64) -> u64 {
    unsafe { sx_choice(name.as_ptr(), name.len(), n) }
}
pub fn assume(c: bool) {
    unsafe { sx_assume(c) }
}
pub fn check(c: bool, label: &str) {
    unsafe { sx_check(c, label.as_ptr(), label.len()) }
}
/// reachability witness
pub fn cover(label: &str) {
    unsafe { sx_cover(label.as_ptr(), label.len()) }
}
pub fn dbg(label: &str) {
    unsafe { sx_dbg(label.as_ptr(), label.len()) }
}
pub fn dbg_i(label: &str, v: impl ToInt) {
    unsafe { sx_dbg_i(label.as_ptr(), label.len(), v.int().0) }
}
pub fn obs(label: &str, v: impl ToInt) {
    unsafe { sx_obs_i(label.as_ptr(), label.len(), v.int().0) }
}
pub fn stop() -> ! {
    unsafe { sx_stop() };
    loop {}
}
/// within `f`, a panic is a violation
pub fn no_panic<T>(label: &str, f: impl FnOnce() -> T) -> T {
    unsafe { sx_nopanic(label.as_ptr(), label.len()) };
    let r = f();
    unsafe { sx_nopanic_end() };
    r
}

// ------------------------------------------------------------------ exact integers
#[derive(Clone, Copy)]
pub struct Int(pub u64);
#[derive(Clone, Copy)]
pub struct B(pub u64);

pub trait ToInt {
    fn int(self) -> Int;
}
impl ToInt for Int {
    fn int(self) -> Int {
        self
    }
}
fn from_mem<T>(v: &T, n: usize, signed: bool) -> Int {
    Int(unsafe { sx_i_from(v as *const T as *const u8, n, signed) })
}
macro_rules! prim {
    ($($t:ty, $n:expr, $s:expr;)*) => { $(
        impl ToInt for $t { fn int(self) -> Int { from_mem(&self, $n, $s) } }
        impl<'a> ToInt for &'a $t { fn int(self) -> Int { from_mem(self, $n, $s) } }
    )* };
}
prim! {
    u8, 1, false; u16, 2, false; u32, 4, false; u64, 8, false; u128, 16, false; usize, 8, false;
    i32, 4, true; i64, 8, true; i128, 16, true;
    Uint128, 16, false; Uint64, 8, false; Uint256, 32, false; Uint512, 64, false; Decimal, 16, false; Decimal256, 32, false;
    Int256, 32, true;
}
pub fn k(v: u128) -> Int {
    Int(unsafe { sx_i_const(v as u64, (v >> 64) as u64) })
}
impl Int {
    fn op(self, o: u64, b: Int) -> Int {
        Int(unsafe { sx_i_op(o, self.0, b.0) })
    }
    fn cmp_(self, o: u64, b: Int) -> B {
        B(unsafe { sx_i_cmp(o, self.0, b.0) })
    }
    pub fn isqrt(self) -> Int {
        self.op(5, self)
    }
    pub fn min(self, b: impl ToInt) -> Int {
        self.op(6, b.int())
    }
    pub fn max(self, b: impl ToInt) -> Int {
        self.op(7, b.int())
    }
    pub fn eq(self, b: impl ToInt) -> B {
        self.cmp_(0, b.int())
    }
    pub fn lt(self, b: impl ToInt) -> B {
        self.cmp_(1, b.int())
    }
    pub fn le(self, b: impl ToInt) -> B {
        self.cmp_(2, b.int())
    }
    pub fn gt(self, b: impl ToInt) -> B {
        b.int().cmp_(1, self)
    }
    pub fn ge(self, b: impl ToInt) -> B {
        b.int().cmp_(2, self)
    }
    pub fn ceil_div(self, b: impl ToInt) -> Int {
        let b = b.int();
        (self + b - k(1)) / b
    }
    pub fn to_u128(self) -> u128 {
        let mut v = [0u128; 1];
        unsafe { sx_i_write(self.0, v.as_mut_ptr() as *mut u8, 16) };
        v[0]
    }
    pub fn uint128(self) -> Uint128 {
        Uint128::new(self.to_u128())
    }
}
impl<T: ToInt> Add<T> for Int {
    type Output = Int;
    fn add(self, b: T) -> Int {
        self.op(0, b.int())
    }
}
impl<T: ToInt> Sub<T> for Int {
    type Output = Int;
    fn sub(self, b: T) -> Int {
        self.op(1, b.int())
    }
}
impl<T: ToInt> Mul<T> for Int {
    type Output = Int;
    fn mul(self, b: T) -> Int {
        self.op(2, b.int())
    }
}
/// floor division
impl<T: ToInt> Div<T> for Int {
    type Output = Int;
    fn div(self, b: T) -> Int {
        self.op(3, b.int())
    }
}
impl<T: ToInt> Rem<T> for Int {
    type Output = Int;
    fn rem(self, b: T) -> Int {
        self.op(4, b.int())
    }
}
pub fn b(c: bool) -> B {
    B(unsafe { sx_b_from(c) })
}
pub fn ite(c: B, x: impl ToInt, y: impl ToInt) -> Int {
    Int(unsafe { sx_i_ite(c.0, x.int().0, y.int().0) })
}
impl B {
    pub fn check(self, label: &str) {
        unsafe { sx_check_b(self.0, label.as_ptr(), label.len()) }
    }
    pub fn assume(self) {
        unsafe { sx_assume_b(self.0) }
    }
    /// decide (forks)
    pub fn fork(self) -> bool {
        unsafe { sx_b_fork(self.0) }
    }
    pub fn implies(self, o: B) -> B {
        B(unsafe { sx_b_op(3, self.0, o.0) })
    }
}
impl BitAnd for B {
    type Output = B;
    fn bitand(self, o: B) -> B {
        B(unsafe { sx_b_op(0, self.0, o.0) })
    }
}
impl BitOr for B {
    type Output = B;
    fn bitor(self, o: B) -> B {
        B(unsafe { sx_b_op(1, self.0, o.0) })
    }
}
impl Not for B {
    type Output = B;
    fn not(self) -> B {
        B(unsafe { sx_b_op(2, self.0, self.0) })
    }
}
#[macro_export]
macro_rules! entries {
    ($($n:ident),* $(,)?) => {
        pub const ENTRIES: &[(&str, fn())] = &[$((stringify!($n), $n)),*];
    };
}
