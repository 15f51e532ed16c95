//! Element types: plain ones of many sizes and alignments, and tokens whose
//! every creation, clone and drop is entered in a ledger. All caller code
//! that the library can invoke (Default, Clone, Drop, comparison, formatting,
//! arithmetic) ticks the fault injector.
use matreex::Matrix;
use std::fmt::{self, Debug, Display};
use std::ops::*;
use std::sync::Mutex;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicBool, Ordering::SeqCst};

// ---------------------------------------------------------------- faults

pub mod fault {
    use super::*;
    static LEFT: AtomicI64 = AtomicI64::new(-1);
    static CALLS: AtomicU64 = AtomicU64::new(0);
    static FIRED: AtomicBool = AtomicBool::new(false);
    static KIND: Mutex<&'static str> = Mutex::new("");

    pub const MARK: &str = "injected fault";

    /// The `k`-th call of caller code from now on (counting from 1) panics.
    pub fn arm(k: u64) {
        CALLS.store(0, SeqCst);
        FIRED.store(false, SeqCst);
        LEFT.store(k as i64, SeqCst);
    }
    pub fn disarm() { LEFT.store(-1, SeqCst); }
    pub fn fired() -> bool { FIRED.load(SeqCst) }
    pub fn kind() -> &'static str { *KIND.lock().unwrap_or_else(|e| e.into_inner()) }
    /// Number of caller-code invocations since `arm`.
    pub fn calls() -> u64 { CALLS.load(SeqCst) }

    #[inline]
    pub fn tick(kind: &'static str) {
        if LEFT.load(SeqCst) < 0 { return; }
        // Panicking while unwinding would abort; one fault per run anyway.
        if std::thread::panicking() { return; }
        CALLS.fetch_add(1, SeqCst);
        if LEFT.fetch_sub(1, SeqCst) == 1 {
            LEFT.store(-1, SeqCst);
            FIRED.store(true, SeqCst);
            *KIND.lock().unwrap_or_else(|e| e.into_inner()) = kind;
            panic!("{} in {kind}", MARK);
        }
    }
}

// ---------------------------------------------------------------- ledger

#[derive(Default)]
struct Ledger {
    /// Index = id; 1 = live, 2 = dropped.
    state: Vec<u8>,
    live: i64,
    zlive: i64,
    created: u64,
    clones: u64,
    defaults: u64,
    drops: u64,
    errors: Vec<String>,
}

static LEDGER: Mutex<Ledger> = Mutex::new(Ledger {
    state: Vec::new(), live: 0, zlive: 0, created: 0, clones: 0, defaults: 0, drops: 0, errors: Vec::new(),
});

fn ledger<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
    f(&mut LEDGER.lock().unwrap_or_else(|e| e.into_inner()))
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Tally {
    pub live: i64,
    pub zlive: i64,
    pub created: u64,
    pub clones: u64,
    pub defaults: u64,
    pub drops: u64,
}

pub mod led {
    use super::*;
    pub fn reset() {
        ledger(|l| {
            l.state.clear();
            l.state.push(0);
            l.live = 0;
            l.zlive = 0;
            l.created = 0;
            l.clones = 0;
            l.defaults = 0;
            l.drops = 0;
            l.errors.clear();
        })
    }
    pub fn tally() -> Tally {
        ledger(|l| Tally { live: l.live, zlive: l.zlive, created: l.created, clones: l.clones, defaults: l.defaults, drops: l.drops })
    }
    /// Double drops, drops or uses of things that were never elements.
    pub fn check() -> Result<(), String> {
        ledger(|l| if l.errors.is_empty() { Ok(()) } else { Err(format!("ledger: {}", l.errors[..l.errors.len().min(3)].join("; "))) })
    }
    pub fn error(msg: String) { ledger(|l| if l.errors.len() < 16 { l.errors.push(msg) }) }
}

fn canary(id: u32) -> u32 { id.wrapping_mul(0x9E37_79B1) ^ 0x5AFE_C0DE }

// ---------------------------------------------------------------- traits

/// An element whose value is observable as a `u32` (after `norm`).
pub trait Elem: Sized + Send + Sync + 'static {
    const NAME: &'static str;
    /// Whether the ledger knows how many elements are alive.
    const LEDGER: bool = false;
    /// Ledger entries per element.
    const UNITS: i64 = 1;
    fn new(v: u32) -> Self;
    fn val(&self) -> u32;
    /// The value that `new(v)` stores.
    fn norm(v: u32) -> u32 { v }
    /// Identity that is preserved by moves and fresh for clones (0 if none).
    fn id(&self) -> u32 { 0 }
    /// Whether the object is a live element (detects reads of freed or
    /// uninitialised memory through the ledger).
    fn alive(&self) -> Result<(), String> { Ok(()) }
    /// Set the value in place.
    fn set(&mut self, v: u32);
}

/// Semantics of the arithmetic of the test elements, on values.
pub mod sem {
    pub fn add(a: u32, b: u32) -> u32 { a.wrapping_add(b) }
    pub fn sub(a: u32, b: u32) -> u32 { a.wrapping_sub(b) }
    pub fn mul(a: u32, b: u32) -> u32 { a.wrapping_mul(0x0001_0003).wrapping_add(b.wrapping_mul(7)).wrapping_add(11) ^ (a >> 3) }
    pub fn div(a: u32, b: u32) -> u32 { a.wrapping_mul(5) ^ b.wrapping_mul(3).wrapping_add(1) }
    pub fn rem(a: u32, b: u32) -> u32 { a.wrapping_mul(9).wrapping_add(b.rotate_left(3)).wrapping_add(2) }
    pub fn neg(a: u32) -> u32 { (!a).wrapping_add(1) }
}

/// Everything the operation engine needs of an element type.
pub trait Full:
    Elem + Clone + Default + PartialEq + Debug + Display
    + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> + Rem<Output = Self>
    + AddAssign + SubAssign + MulAssign + DivAssign + RemAssign + Neg<Output = Self>
{
}
impl<T> Full for T where
    T: Elem + Clone + Default + PartialEq + Debug + Display
        + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Div<Output = Self> + Rem<Output = Self>
        + AddAssign + SubAssign + MulAssign + DivAssign + RemAssign + Neg<Output = Self>
{
}

macro_rules! arith {
    ([$($g:tt)*] $t:ty) => {
        arith!(@op [$($g)*] $t, Add, add, AddAssign, add_assign);
        arith!(@op [$($g)*] $t, Sub, sub, SubAssign, sub_assign);
        arith!(@op [$($g)*] $t, Mul, mul, MulAssign, mul_assign);
        arith!(@op [$($g)*] $t, Div, div, DivAssign, div_assign);
        arith!(@op [$($g)*] $t, Rem, rem, RemAssign, rem_assign);
        impl<$($g)*> Neg for $t {
            type Output = Self;
            fn neg(self) -> Self { fault::tick("Neg"); <$t as Elem>::new(sem::neg(self.val())) }
        }
        impl<$($g)*> Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fault::tick("Debug"); write!(f, "d{}", self.val()) }
        }
        impl<$($g)*> Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fault::tick("Display"); write!(f, "{}", self.val()) }
        }
        impl<$($g)*> PartialEq for $t {
            fn eq(&self, o: &Self) -> bool { fault::tick("PartialEq"); self.val() == o.val() }
        }
    };
    (@op [$($g:tt)*] $t:ty, $tr:ident, $f:ident, $tra:ident, $fa:ident) => {
        impl<$($g)*> $tr for $t {
            type Output = Self;
            fn $f(self, rhs: Self) -> Self { fault::tick(stringify!($tr)); <$t as Elem>::new(sem::$f(self.val(), rhs.val())) }
        }
        impl<$($g)*> $tra for $t {
            fn $fa(&mut self, rhs: Self) { fault::tick(stringify!($tra)); let v = sem::$f(self.val(), rhs.val()); self.set(v) }
        }
    };
}

// ---------------------------------------------------------------- plain

macro_rules! plain {
    ($name:ident, $label:expr, $(#[$m:meta])* { $($body:tt)* }, new($v:ident) $new:expr, val($s:ident) $val:expr, set($s2:ident, $v2:ident) $set:expr, norm($v3:ident) $norm:expr) => {
        $(#[$m])*
        pub struct $name $($body)*
        impl Elem for $name {
            const NAME: &'static str = $label;
            fn new($v: u32) -> Self { $new }
            fn val(&self) -> u32 { let $s = self; $val }
            fn set(&mut self, $v2: u32) { let $s2 = self; $set }
            fn norm($v3: u32) -> u32 { $norm }
        }
        impl Clone for $name { fn clone(&self) -> Self { fault::tick("Clone"); Self::new(self.val()) } }
        impl Default for $name { fn default() -> Self { fault::tick("Default"); Self::new(0) } }
        arith!([] $name);
    };
}

plain!(B1, "u8", { (pub u8); }, new(v) B1(v as u8), val(s) s.0 as u32, set(s, v) s.0 = v as u8, norm(v) v & 0xff);
plain!(W2, "u16", { (pub u16); }, new(v) W2(v as u16), val(s) s.0 as u32, set(s, v) s.0 = v as u16, norm(v) v & 0xffff);
plain!(W4, "u32", { (pub u32); }, new(v) W4(v), val(s) s.0, set(s, v) s.0 = v, norm(v) v);
plain!(W8, "u64", { (pub u64); }, new(v) W8(v as u64 | (!(v as u64)) << 32), val(s) s.0 as u32, set(s, v) s.0 = v as u64 | (!(v as u64)) << 32, norm(v) v);
plain!(P3, "[u8;3]", { (pub [u8; 3]); }, new(v) P3([v as u8, (v >> 8) as u8, (v >> 16) as u8]), val(s) s.0[0] as u32 | (s.0[1] as u32) << 8 | (s.0[2] as u32) << 16, set(s, v) s.0 = [v as u8, (v >> 8) as u8, (v >> 16) as u8], norm(v) v & 0xff_ffff);
plain!(P24, "[u64;3]", { (pub [u64; 3]); }, new(v) P24([v as u64, !(v as u64), v as u64 ^ 0x55]), val(s) s.0[0] as u32, set(s, v) s.0 = [v as u64, !(v as u64), v as u64 ^ 0x55], norm(v) v);
plain!(A16, "align16", #[repr(align(16))] { (pub u32); }, new(v) A16(v), val(s) s.0, set(s, v) s.0 = v, norm(v) v);
plain!(Big, "[u32;40]", { (pub [u32; 40]); }, new(v) Big([v; 40]), val(s) { assert!(s.0.iter().all(|x| *x == s.0[0]), "torn element"); s.0[0] }, set(s, v) s.0 = [v; 40], norm(v) v);
plain!(Unit, "()", { ; }, new(_v) Unit, val(_s) 0, set(_s, _v) {}, norm(_v) 0);
plain!(Z8, "zst align 8", #[repr(align(8))] { ; }, new(_v) Z8, val(_s) 0, set(_s, _v) {}, norm(_v) 0);

/// Arrays of `N` machine words: sizes that are (or are not) those of vector
/// registers or cache lines, with an alignment below their size.
macro_rules! words {
    ($name:ident, $w:ty, $($n:literal $label:literal),*) => {
        pub struct $name<const N: usize>(pub [$w; N]);
        impl<const N: usize> Elem for $name<N> {
            const NAME: &'static str = match N { $($n => $label,)* _ => stringify!($name) };
            fn new(v: u32) -> Self { Self(std::array::from_fn(|i| (Self::norm(v) as u64).rotate_left(7 * i as u32) as $w)) }
            fn val(&self) -> u32 {
                let v = Self::norm(self.0[0] as u32);
                // a torn element has a value that none is made with
                if self.0 == Self::new(v).0 { v } else { v ^ 0x8000_0000 }
            }
            fn norm(v: u32) -> u32 { v & (<$w>::MAX as u64 as u32) }
            fn set(&mut self, v: u32) { *self = Self::new(v) }
        }
        impl<const N: usize> Clone for $name<N> { fn clone(&self) -> Self { fault::tick("Clone"); Self(self.0) } }
        impl<const N: usize> Default for $name<N> { fn default() -> Self { fault::tick("Default"); Self::new(0) } }
        arith!([const N: usize] $name<N>);
    };
}
words!(Half, u16, 3 "[u16;3]", 5 "[u16;5]", 8 "[u16;8]", 32 "[u16;32]");
words!(Wide, u64, 2 "[u64;2]", 4 "[u64;4]", 8 "[u64;8]");
words!(Quad, u32, 2 "[u32;2]", 5 "[u32;5]");

// ---------------------------------------------------------------- tokens

/// A token entered in the ledger; `H` adds payload (heap or padding).
pub struct Tok<H: Payload> { id: u32, canary: u32, val: u32, pay: H }

pub trait Payload: Send + Sync + 'static {
    const NAME: &'static str;
    fn make(id: u32) -> Self;
    fn ok(&self, id: u32) -> bool;
}
impl Payload for () {
    const NAME: &'static str = "tok12";
    fn make(_: u32) -> Self {}
    fn ok(&self, _: u32) -> bool { true }
}
impl Payload for Box<u32> {
    const NAME: &'static str = "tokbox";
    fn make(id: u32) -> Self { Box::new(id ^ 0xB0B0) }
    fn ok(&self, id: u32) -> bool { **self == id ^ 0xB0B0 }
}
impl Payload for [u64; 5] {
    const NAME: &'static str = "tok56";
    fn make(id: u32) -> Self { [id as u64; 5] }
    fn ok(&self, id: u32) -> bool { self.iter().all(|x| *x == id as u64) }
}

pub type T12 = Tok<()>;
pub type TBox = Tok<Box<u32>>;
pub type T56 = Tok<[u64; 5]>;

impl<H: Payload> Tok<H> {
    fn make(v: u32) -> Self {
        let id = ledger(|l| {
            if l.state.is_empty() { l.state.push(0); }
            let id = l.state.len() as u32;
            l.state.push(1);
            l.live += 1;
            l.created += 1;
            id
        });
        Tok { id, canary: canary(id), val: v, pay: H::make(id) }
    }
}

impl<H: Payload> Elem for Tok<H> {
    const NAME: &'static str = H::NAME;
    const LEDGER: bool = true;
    fn new(v: u32) -> Self { Self::make(v) }
    fn val(&self) -> u32 {
        if let Err(e) = self.alive() { led::error(format!("use of a non-element: {e}")); }
        self.val
    }
    fn id(&self) -> u32 { self.id }
    fn alive(&self) -> Result<(), String> {
        if self.canary != canary(self.id) { return Err(format!("canary mismatch (id field {})", self.id)); }
        match ledger(|l| l.state.get(self.id as usize).copied()) {
            Some(1) => {}
            Some(2) => return Err(format!("token {} was already dropped", self.id)),
            _ => return Err(format!("token {} was never created", self.id)),
        }
        if !self.pay.ok(self.id) { return Err(format!("payload of token {} corrupted", self.id)); }
        Ok(())
    }
    fn set(&mut self, v: u32) {
        if let Err(e) = self.alive() { led::error(format!("write to a non-element: {e}")); }
        self.val = v
    }
}
impl<H: Payload> Clone for Tok<H> {
    fn clone(&self) -> Self {
        fault::tick("Clone");
        let v = self.val();
        ledger(|l| l.clones += 1);
        Self::make(v)
    }
}
impl<H: Payload> Default for Tok<H> {
    fn default() -> Self {
        fault::tick("Default");
        ledger(|l| l.defaults += 1);
        Self::make(0)
    }
}
impl<H: Payload> Drop for Tok<H> {
    fn drop(&mut self) {
        let good = self.canary == canary(self.id);
        let id = self.id;
        ledger(|l| {
            l.drops += 1;
            let err = if !good { Some(format!("drop of a non-element (id field {id})")) } else {
                match l.state.get_mut(id as usize) {
                    Some(s) if *s == 1 => { *s = 2; l.live -= 1; None }
                    Some(2) => Some(format!("token {id} dropped twice")),
                    _ => Some(format!("drop of token {id}, which was never created")),
                }
            };
            if let Some(e) = err && l.errors.len() < 16 { l.errors.push(e) }
        });
        // If this unwinds, the payload is dropped by the drop glue.
        fault::tick("Drop");
    }
}
arith!([H: Payload] Tok<H>);

/// A zero-sized element with drop glue; only the number of live ones is known.
pub struct Zt;
impl Zt {
    fn make() -> Self {
        ledger(|l| { l.zlive += 1; l.created += 1; });
        Zt
    }
}
impl Elem for Zt {
    const NAME: &'static str = "zst+drop";
    const LEDGER: bool = true;
    fn new(_: u32) -> Self { Zt::make() }
    fn val(&self) -> u32 { 0 }
    fn norm(_: u32) -> u32 { 0 }
    fn set(&mut self, _: u32) {}
}
impl Clone for Zt { fn clone(&self) -> Self { fault::tick("Clone"); ledger(|l| l.clones += 1); Zt::make() } }
impl Default for Zt { fn default() -> Self { fault::tick("Default"); ledger(|l| l.defaults += 1); Zt::make() } }
impl Drop for Zt {
    fn drop(&mut self) {
        ledger(|l| {
            l.drops += 1;
            l.zlive -= 1;
            if l.zlive < 0 && l.errors.len() < 16 { l.errors.push("more zero-sized elements dropped than created".into()) }
        });
        fault::tick("Drop");
    }
}
arith!([] Zt);

/// A token without drop glue: moves preserve its identity, a clone gets a new
/// one and is counted, so that a bitwise copy can be told from a clone.
pub struct Nd { id: u32, canary: u32, val: u32, gen_: u32 }
impl Nd {
    fn make(v: u32, gen_: u32) -> Self {
        let id = ledger(|l| {
            if l.state.is_empty() { l.state.push(0); }
            l.state.push(1);
            l.created += 1;
            l.state.len() as u32 - 1
        });
        Nd { id, canary: canary(id), val: v, gen_ }
    }
    /// How many clones lie between this element and one made by `new`.
    pub fn generation(&self) -> u32 { self.gen_ }
}
impl Elem for Nd {
    const NAME: &'static str = "tok without drop";
    fn new(v: u32) -> Self { Nd::make(v, 0) }
    fn val(&self) -> u32 {
        if let Err(e) = self.alive() { led::error(format!("use of a non-element: {e}")); }
        self.val
    }
    fn id(&self) -> u32 { self.id }
    fn alive(&self) -> Result<(), String> {
        if self.canary != canary(self.id) { return Err(format!("canary mismatch (id field {})", self.id)); }
        if ledger(|l| l.state.get(self.id as usize).copied()) != Some(1) { return Err(format!("token {} was never created", self.id)); }
        Ok(())
    }
    fn set(&mut self, v: u32) { self.val = v }
}
impl Clone for Nd {
    fn clone(&self) -> Self {
        fault::tick("Clone");
        let v = self.val();
        ledger(|l| l.clones += 1);
        Nd::make(v, self.gen_ + 1)
    }
}
impl Default for Nd { fn default() -> Self { fault::tick("Default"); ledger(|l| l.defaults += 1); Nd::make(0, 0) } }
arith!([] Nd);

/// An element that holds a matrix itself: its Default, Clone, comparison,
/// arithmetic and formatting go through the library again, while the library
/// is at work on the outer matrix.
pub struct Nest(Matrix<T12>);
const PAIR: u32 = 0x5a5a_0ff0;
impl Nest {
    fn pair(v: u32) -> Self {
        let mut m = Matrix::from_row(vec![T12::new(v), T12::new(v ^ PAIR)]);
        if v % 2 == 1 { m.switch_order(); }
        Nest(m)
    }
    fn with(&self, rhs: &Self, f: impl Fn(u32, u32) -> u32) -> Self {
        let (x, v) = (self.val(), f(self.val(), rhs.val()));
        let done = self.0.elementwise_operation(&rhs.0, |a, _| T12::new(if a.val() == x { v } else { v ^ PAIR }));
        match done { Ok(m) => Nest(m), Err(e) => { led::error(format!("elementwise operation on the matrices inside elements: {e:?}")); Nest::pair(0) } }
    }
}
impl Elem for Nest {
    const NAME: &'static str = "matrix of tokens";
    const LEDGER: bool = true;
    const UNITS: i64 = 2;
    fn new(v: u32) -> Self { Nest::pair(v) }
    fn val(&self) -> u32 {
        if let Err(e) = self.alive() { led::error(format!("use of a non-element: {e}")); }
        self.0.get((0, 0)).map_or(0, |e| e.val())
    }
    fn id(&self) -> u32 { self.0.get((0, 0)).map_or(0, |e| e.id()) }
    fn alive(&self) -> Result<(), String> {
        if (self.0.nrows(), self.0.ncols()) != (1, 2) { return Err(format!("the matrix inside an element is {}x{}", self.0.nrows(), self.0.ncols())); }
        let (Ok(a), Ok(b)) = (self.0.get((0, 0)), self.0.get((0, 1))) else { return Err("the matrix inside an element has no elements".into()) };
        a.alive()?;
        b.alive()?;
        if a.val() ^ PAIR != b.val() { return Err("torn element".into()); }
        Ok(())
    }
    fn set(&mut self, v: u32) {
        if let Err(e) = self.alive() { led::error(format!("write to a non-element: {e}")); }
        for (j, v) in [v, v ^ PAIR].into_iter().enumerate() { if let Ok(e) = self.0.get_mut((0, j)) { e.set(v) } }
    }
}
impl Clone for Nest {
    fn clone(&self) -> Self {
        match Matrix::with_initializer((1, 2), |_| T12::new(0)) {
            Ok(mut m) if self.val() % 3 == 0 => { m.overwrite(&self.0); Nest(m) }
            _ => Nest(self.0.clone()),
        }
    }
}
impl Default for Nest {
    fn default() -> Self {
        let mut m: Matrix<T12> = Matrix::new();
        let _ = m.resize((1, 2));
        if let Ok(e) = m.get_mut((0, 1)) { e.set(PAIR) }
        Nest(m)
    }
}
impl PartialEq for Nest { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl Debug for Nest { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { let _ = format!("{:?}", self.0); write!(f, "d{}", self.val()) } }
impl Display for Nest { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { let _ = format!("{}", self.0); write!(f, "{}", self.val()) } }
macro_rules! nest_op { ($($tr:ident $f:ident $tra:ident $fa:ident),*) => { $(
    impl $tr for Nest { type Output = Self; fn $f(self, rhs: Self) -> Self { self.with(&rhs, sem::$f) } }
    impl $tra for Nest { fn $fa(&mut self, rhs: Self) { let v = self.with(&rhs, sem::$f); *self = v; } }
)* }; }
nest_op!(Add add AddAssign add_assign, Sub sub SubAssign sub_assign, Mul mul MulAssign mul_assign, Div div DivAssign div_assign, Rem rem RemAssign rem_assign);
impl Neg for Nest { type Output = Self; fn neg(self) -> Self { Nest::pair(sem::neg(self.val())) } }

/// Elements that own their token through a pointer: of the size and alignment
/// of a pointer or of two words, with a destructor.
macro_rules! pointed {
    ($name:ident, $p:ty, $label:literal, $wrap:expr, $r:ident => $get:expr, $m:ident => $get_mut:expr) => {
        pub struct $name($p);
        impl $name {
            fn tok(&self) -> &T12 { let $r = &self.0; $get }
            fn tok_mut(&mut self) -> &mut T12 { let $m = &mut self.0; $get_mut }
        }
        impl Elem for $name {
            const NAME: &'static str = $label;
            const LEDGER: bool = true;
            fn new(v: u32) -> Self { $name($wrap(T12::new(v))) }
            fn val(&self) -> u32 { self.tok().val() }
            fn id(&self) -> u32 { self.tok().id() }
            fn alive(&self) -> Result<(), String> { self.tok().alive() }
            fn set(&mut self, v: u32) { self.tok_mut().set(v) }
        }
        impl Clone for $name { fn clone(&self) -> Self { $name($wrap(self.tok().clone())) } }
        impl Default for $name { fn default() -> Self { $name($wrap(T12::default())) } }
        arith!([] $name);
    };
}
pointed!(Bx, Box<T12>, "box", Box::new, r => r, m => m);
pointed!(Fat, Box<[T12]>, "boxed slice", |t| vec![t].into_boxed_slice(), r => &r[0], m => &mut m[0]);

/// Number of live elements of type `T`, if the ledger knows it.
pub fn live_of<T: Elem>() -> Option<i64> {
    if !T::LEDGER { return None; }
    let t = led::tally();
    let n = if size_of::<T>() == 0 { t.zlive } else { t.live };
    Some(if n % T::UNITS == 0 { n / T::UNITS } else { n })
}
