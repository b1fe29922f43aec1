//! What a harness uses to talk to the symbolic executor.
//!
//! Under the executor the `sym_*` functions are undefined symbols it interprets itself. With
//! `--cfg sym_native` they are ordinary functions that read the input from a file: that is how a
//! counterexample is replayed against the real, natively compiled code, and how sampled paths are
//! compared with what the executor computed.

pub mod wire;
#[cfg(feature = "mabo")]
mod mabo_types;

mod raw {
    unsafe extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_assume(c: bool);
        pub fn sym_check(c: bool, p: *const u8, n: usize);
        pub fn sym_observe(x: u64);
        pub fn sym_pin(x: u64) -> u64;
        pub fn sym_settle(p: *mut u8, n: usize);
        pub fn sym_cover(p: *const u8, n: usize);
        pub fn sym_heap() -> u64;
    }
}

static mut QUIET: bool = false;

/// Whether values are small constants at the moment instead of input.
fn quiet() -> bool {
    unsafe { *(&raw const QUIET) }
}
fn set_quiet(q: bool) {
    unsafe { *(&raw mut QUIET) = q }
}

/// Which of the parts of a larger value are input: the product of the cases of all of them would
/// be out of reach. Values of up to two parts vary completely.
pub struct Focus {
    at: u8,
    next: u8,
    all: bool,
}

impl Focus {
    pub fn of(n: usize) -> Self {
        let all = n <= 2 || quiet();
        Focus { at: if all { 0 } else { below(n as u8) }, next: 0, all }
    }
    pub fn part<T: Sym>(&mut self) -> T {
        let i = self.next;
        self.next += 1;
        if self.all || i == self.at || (wide() && i == self.at + 1) {
            return T::sym();
        }
        let q = quiet();
        set_quiet(true);
        let v = T::sym();
        set_quiet(q);
        v
    }
}

/// A value with small constant parts.
pub fn plain<T: Sym>() -> T {
    let q = quiet();
    set_quiet(true);
    let v = T::sym();
    set_quiet(q);
    v
}

static mut WIDE: bool = false;
/// Vary two neighbouring parts at a time.
pub fn set_wide() {
    unsafe { *(&raw mut WIDE) = true }
}
fn wide() -> bool {
    unsafe { *(&raw const WIDE) }
}

static mut NARROW: bool = false;
static mut DEPTH: u8 = 0;
/// Collections and strings inside of collections have up to one element.
pub fn set_narrow(deeper: bool) {
    unsafe {
        *(&raw mut NARROW) = true;
        *(&raw mut DEPTH) = (deeper && !wide()) as u8;
    }
}
fn room() -> u8 {
    unsafe { if *(&raw const NARROW) && *(&raw const DEPTH) > 0 { 1 } else { 2 } }
}
fn deep() -> bool {
    unsafe { *(&raw const NARROW) && *(&raw const DEPTH) > 1 }
}
fn inside<T>(f: impl FnOnce() -> T) -> T {
    unsafe { *(&raw mut DEPTH) += 1 }
    let r = f();
    unsafe { *(&raw mut DEPTH) -= 1 }
    r
}

/// `N` unconstrained input bytes.
#[inline(never)]
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0; N];
    if quiet() {
        if N > 0 {
            b[0] = 1;
        }
        return b;
    }
    unsafe { raw::sym_bytes(b.as_mut_ptr(), N) };
    b
}

/// Between 0 and `N` unconstrained input bytes.
pub fn slice<const N: usize>(buf: &mut [u8; N]) -> &[u8] {
    *buf = bytes();
    let n = below(N as u8 + 1) as usize;
    &buf[..n]
}

pub fn u8() -> u8 {
    bytes::<1>()[0]
}
pub fn u16() -> u16 {
    u16::from_le_bytes(bytes())
}
pub fn u32() -> u32 {
    u32::from_le_bytes(bytes())
}
pub fn u64() -> u64 {
    u64::from_le_bytes(bytes())
}
pub fn u128() -> u128 {
    u128::from_le_bytes(bytes())
}
pub fn bool() -> bool {
    below(2) == 1
}

/// One of `0..n`, chosen by the input; each is explored as a case of its own.
pub fn below(n: u8) -> u8 {
    if quiet() {
        return if n > 1 { 1 } else { 0 };
    }
    let x = u8();
    assume(x < n);
    pin(x as u64) as u8
}

/// Discard the inputs for which `c` is false.
pub fn assume(c: bool) {
    unsafe { raw::sym_assume(c) }
}

/// The property: `c` must hold for every input that gets here.
#[inline(never)]
pub fn check(c: bool, msg: &'static str) {
    unsafe { raw::sym_check(c, msg.as_ptr(), msg.len()) }
}

/// Reachability witness.
#[inline(never)]
pub fn cover(msg: &'static str) {
    unsafe { raw::sym_cover(msg.as_ptr(), msg.len()) }
}

/// Record a value for the comparison between executor and native run.
#[inline(never)]
pub fn observe(x: u64) {
    unsafe { raw::sym_observe(x) }
}

pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    for c in b {
        observe(*c as u64);
    }
}

/// Split into one case per possible value.
#[inline(never)]
pub fn pin(x: u64) -> u64 {
    unsafe { raw::sym_pin(x) }
}

/// Simplify: bytes the path taken leaves only one value stop depending on the input.
#[inline(never)]
pub fn settle(b: &mut [u8]) {
    unsafe { raw::sym_settle(b.as_mut_ptr(), b.len()) }
}

/// Bytes allocated so far.
pub fn heap() -> u64 {
    unsafe { raw::sym_heap() }
}

#[cfg(sym_native)]
pub mod native {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::UnsafeCell;
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

    struct Counting;
    static TOTAL: AtomicU64 = AtomicU64::new(0);
    static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
    static ONE: AtomicU64 = AtomicU64::new(u64::MAX);

    fn count(n: usize) {
        let t = TOTAL.fetch_add(n as u64, Relaxed) + n as u64;
        if t > LIMIT.load(Relaxed) || n as u64 > ONE.load(Relaxed) {
            LIMIT.store(u64::MAX, Relaxed);
            ONE.store(u64::MAX, Relaxed);
            println!("NATIVE memory-bound");
            std::process::exit(21);
        }
    }

    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            count(l.size());
            unsafe { System.alloc(l) }
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            unsafe { System.dealloc(p, l) }
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            count(l.size());
            unsafe { System.alloc_zeroed(l) }
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            count(n);
            unsafe { System.realloc(p, l, n) }
        }
    }

    #[global_allocator]
    static A: Counting = Counting;

    struct Input(UnsafeCell<(Vec<u8>, usize)>);
    unsafe impl Sync for Input {}
    static INPUT: Input = Input(UnsafeCell::new((Vec::new(), 0)));

    #[unsafe(no_mangle)]
    extern "C" fn sym_bytes(p: *mut u8, n: usize) {
        let i = unsafe { &mut *INPUT.0.get() };
        for k in 0..n {
            unsafe { *p.add(k) = i.0.get(i.1).copied().unwrap_or(0) };
            i.1 += 1;
        }
    }
    #[unsafe(no_mangle)]
    extern "C" fn sym_assume(c: bool) {
        if !c {
            println!("NATIVE assume");
            std::process::exit(22);
        }
    }
    #[unsafe(no_mangle)]
    extern "C" fn sym_check(c: bool, p: *const u8, n: usize) {
        if !c {
            let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
            println!("NATIVE check {s}");
            std::process::exit(20);
        }
    }
    #[unsafe(no_mangle)]
    extern "C" fn sym_observe(x: u64) {
        println!("OBS {x}");
    }
    #[unsafe(no_mangle)]
    extern "C" fn sym_settle(_: *mut u8, _: usize) {}
    #[unsafe(no_mangle)]
    extern "C" fn sym_pin(x: u64) -> u64 {
        x
    }
    #[unsafe(no_mangle)]
    extern "C" fn sym_cover(_: *const u8, _: usize) {}
    #[unsafe(no_mangle)]
    extern "C" fn sym_heap() -> u64 {
        TOTAL.load(Relaxed)
    }

    /// `<bin> ENTRY HEX [total-limit one-limit]`
    pub fn main(table: &[(&str, extern "C" fn())]) {
        let a: Vec<String> = std::env::args().collect();
        let f = table.iter().find(|x| x.0 == a[1]).expect("entry").1;
        let h = a[2].as_bytes();
        let v: Vec<u8> = h.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
        unsafe { *INPUT.0.get() = (v, 0) };
        TOTAL.store(0, Relaxed);
        if let (Some(t), Some(o)) = (a.get(3), a.get(4)) {
            LIMIT.store(t.parse().unwrap(), Relaxed);
            ONE.store(o.parse().unwrap(), Relaxed);
        }
        f();
        println!("NATIVE done");
    }
}

/// Define the entry points of a harness and the table the native driver looks them up in.
#[macro_export]
macro_rules! harness {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $($(#[$m])* #[unsafe(no_mangle)] pub extern "C" fn $name() $body)*
        pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($name), $name)),*];
    };
}

/// Fully symbolic values.
pub trait Sym: Sized {
    fn sym() -> Self;
}

macro_rules! sym_int {
    ($($t:ty),*) => {$(
        impl Sym for $t {
            fn sym() -> Self {
                <$t>::from_le_bytes(bytes())
            }
        }
    )*};
}
sym_int!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);

impl Sym for () {
    fn sym() -> Self {}
}
macro_rules! sym_nz {
    ($($t:ty => $z:ty),*) => {$(
        impl Sym for $z {
            fn sym() -> Self {
                let x = <$t>::sym();
                assume(x != 0);
                unsafe { <$z>::new_unchecked(x) }
            }
        }
        impl Same for $z {
            fn same(&self, o: &Self) -> bool {
                self.get() == o.get()
            }
        }
        impl wire::Wire for $z {
            fn wire(&self, out: &mut Vec<u8>) {
                self.get().wire(out)
            }
        }
    )*};
}
use std::num::*;
sym_nz!(u8 => NonZeroU8, u16 => NonZeroU16, u32 => NonZeroU32, u64 => NonZeroU64, u128 => NonZeroU128,
    i8 => NonZeroI8, i16 => NonZeroI16, i32 => NonZeroI32, i64 => NonZeroI64, i128 => NonZeroI128);

impl Sym for bool {
    fn sym() -> Self {
        bool()
    }
}
impl Sym for f32 {
    fn sym() -> Self {
        f32::from_bits(u32())
    }
}
impl Sym for f64 {
    fn sym() -> Self {
        f64::from_bits(u64())
    }
}
impl Sym for char {
    fn sym() -> Self {
        let x = u32();
        assume(x < 0xd800 || (x > 0xdfff && x <= 0x10ffff));
        unsafe { char::from_u32_unchecked(x) }
    }
}

/// Any character, one case for each length of its encoding.
pub fn push_char(out: &mut Vec<u8>) {
    match if quiet() { 0 } else if deep() { 2 * below(2) } else { below(4) } {
        0 => {
            let x = u8();
            assume(x < 0x80);
            out.push(x);
        }
        1 => {
            let [a, b] = bytes();
            assume(a >= 0xc2 && a < 0xe0 && b & 0xc0 == 0x80);
            out.extend_from_slice(&[a, b]);
        }
        2 => {
            let [a, b, c] = bytes();
            assume(a & 0xf0 == 0xe0 && b & 0xc0 == 0x80 && c & 0xc0 == 0x80);
            assume((a != 0xe0 || b >= 0xa0) && (a != 0xed || b < 0xa0));
            out.extend_from_slice(&[a, b, c]);
        }
        _ => {
            let [a, b, c, d] = bytes();
            assume(a >= 0xf0 && a < 0xf5 && b & 0xc0 == 0x80 && c & 0xc0 == 0x80 && d & 0xc0 == 0x80);
            assume((a != 0xf0 || b >= 0x90) && (a != 0xf4 || b < 0x90));
            out.extend_from_slice(&[a, b, c, d]);
        }
    }
}
/// Up to two arbitrary characters.
impl Sym for String {
    fn sym() -> Self {
        let n = below(room() + 1);
        let mut s = Vec::new();
        for _ in 0..n {
            push_char(&mut s);
        }
        unsafe { String::from_utf8_unchecked(s) }
    }
}
/// Up to two elements.
impl<T: Sym> Sym for Vec<T> {
    fn sym() -> Self {
        vec(room())
    }
}
impl<T: Sym> Sym for Option<T> {
    fn sym() -> Self {
        if bool() { Some(T::sym()) } else { None }
    }
}
impl<T: Sym, const N: usize> Sym for [T; N] {
    fn sym() -> Self {
        inside(|| std::array::from_fn(|_| T::sym()))
    }
}
impl<A: Sym, B: Sym> Sym for (A, B) {
    fn sym() -> Self {
        (A::sym(), B::sym())
    }
}
impl<A: Sym, B: Sym, C: Sym> Sym for (A, B, C) {
    fn sym() -> Self {
        (A::sym(), B::sym(), C::sym())
    }
}
/// Up to two entries.
impl<K: Sym + Eq + std::hash::Hash, T: Sym> Sym for std::collections::HashMap<K, T> {
    fn sym() -> Self {
        let n = below(room() + 1);
        inside(|| (0..n).map(|_| (K::sym(), T::sym())).collect())
    }
}
impl<K: Sym + Eq + std::hash::Hash> Sym for std::collections::HashSet<K> {
    fn sym() -> Self {
        let n = below(room() + 1);
        inside(|| (0..n).map(|_| K::sym()).collect())
    }
}
impl Sym for Box<str> {
    fn sym() -> Self {
        String::sym().into()
    }
}
impl Sym for Box<[u8]> {
    fn sym() -> Self {
        Vec::sym().into()
    }
}
impl<T: Sym> Sym for std::rc::Rc<T> {
    fn sym() -> Self {
        std::rc::Rc::new(T::sym())
    }
}
impl<T: Sym> Sym for std::sync::Arc<T> {
    fn sym() -> Self {
        std::sync::Arc::new(T::sym())
    }
}
impl<T: Sym + Clone> Sym for std::borrow::Cow<'_, T> {
    fn sym() -> Self {
        std::borrow::Cow::Owned(T::sym())
    }
}

/// Up to `max` elements.
pub fn vec<T: Sym>(max: u8) -> Vec<T> {
    let n = below(max + 1) as usize;
    let mut v = Vec::with_capacity(n);
    inside(|| {
        for _ in 0..n {
            v.push(T::sym());
        }
    });
    v
}

/// Equality that tells NaNs and signed zeros apart.
pub trait Same {
    fn same(&self, o: &Self) -> bool;
}
macro_rules! same_eq {
    ($($t:ty),*) => {$(impl Same for $t { fn same(&self, o: &Self) -> bool { self == o } })*};
}
same_eq!(bool, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, String, Box<str>, Box<[u8]>, ());
impl Same for f32 {
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl Same for f64 {
    fn same(&self, o: &Self) -> bool {
        self.to_bits() == o.to_bits()
    }
}
impl<T: Same> Same for [T] {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b))
    }
}
impl<T: Same> Same for Vec<T> {
    fn same(&self, o: &Self) -> bool {
        self[..].same(&o[..])
    }
}
impl<T: Same, const N: usize> Same for [T; N] {
    fn same(&self, o: &Self) -> bool {
        self[..].same(&o[..])
    }
}
impl<T: Same> Same for Option<T> {
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
}
impl<A: Same, B: Same> Same for (A, B) {
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
impl<A: Same, B: Same, C: Same> Same for (A, B, C) {
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
impl<K: Eq + std::hash::Hash, T: Same> Same for std::collections::HashMap<K, T> {
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).is_some_and(|w| v.same(w)))
    }
}
impl<K: Eq + std::hash::Hash> Same for std::collections::HashSet<K> {
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl<T: Same + ?Sized> Same for &T {
    fn same(&self, o: &Self) -> bool {
        (**self).same(*o)
    }
}
impl<T: Same> Same for std::rc::Rc<T> {
    fn same(&self, o: &Self) -> bool {
        (**self).same(&**o)
    }
}
impl<T: Same> Same for std::sync::Arc<T> {
    fn same(&self, o: &Self) -> bool {
        (**self).same(&**o)
    }
}
impl<T: Same + Clone> Same for std::borrow::Cow<'_, T> {
    fn same(&self, o: &Self) -> bool {
        (**self).same(&**o)
    }
}
