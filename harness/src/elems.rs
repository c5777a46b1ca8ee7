//! Element types used to instantiate the library, and the exact comparison used by the oracles.
use crate::engine::Src;
use crate::gen;
use num_traits::{Inv, Num, One, Zero};
use std::fmt::{self, Debug, Display};
use std::ops::*;

/// A copyable element with a generator and bit-exact comparison (any NaN equals any NaN).
pub trait Elem: Copy + Debug + PartialEq + Send + Sync + 'static {
    /// Arbitrary value, extremes and special values included.
    fn any(s: &mut Src) -> Self;
    /// Small value: sums and products of a few of them are exact.
    fn small(s: &mut Src) -> Self;
    fn same(&self, o: &Self) -> bool;
    /// Injective tag for index `i` (as far as the type allows).
    fn tag(i: usize) -> Self;
    const NAME: &'static str;
}

macro_rules! elem_int {
    ($($t:ident)*) => {$(
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            fn any(s: &mut Src) -> Self {
                match s.below(8) {
                    0 | 1 => s.below(8) as $t,
                    2 => (s.zigzag(12)) as $t,
                    3 => *s.pick(&[<$t>::MIN, <$t>::MAX, 0, 1, (0 as $t).wrapping_sub(1), <$t>::MIN.wrapping_add(1), <$t>::MAX - 1, <$t>::MAX / 2]),
                    4 => gen::dict_int(s) as $t,
                    5 => (1 as $t).wrapping_shl(s.below(64) as u32).wrapping_add(s.range(-1, 1) as $t),
                    _ => s.bits() as $t,
                }
            }
            fn small(s: &mut Src) -> Self { let v = s.zigzag(3); if <$t>::MIN == 0 { v.abs() as $t } else { v as $t } }
            fn same(&self, o: &Self) -> bool { self == o }
            fn tag(i: usize) -> Self { i as $t }
        }
    )*};
}
elem_int!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

macro_rules! elem_float {
    ($($t:ident $b:ident $from:ident)*) => {$(
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            fn any(s: &mut Src) -> Self {
                match s.below(10) {
                    0 | 1 => s.zigzag(6) as $t,
                    2 => *s.pick(&[0.0, -0.0, 1.0, -1.0, <$t>::INFINITY, <$t>::NEG_INFINITY, <$t>::NAN,
                        <$t>::MAX, <$t>::MIN, <$t>::MIN_POSITIVE, -<$t>::MIN_POSITIVE, <$t>::EPSILON, -<$t>::EPSILON,
                        <$t>::from_bits(1), -<$t>::from_bits(1), 0.5, -0.5, 1.5, 2.5]),
                    3 => gen::dict_float(s) as $t,
                    4 => s.zigzag(40) as $t / 4.0,
                    5 | 6 => gen::unit_f64(s) as $t,
                    7 => (gen::unit_f64(s) * (10f64).powi(s.zigzag(12) as i32)) as $t,
                    _ => <$t>::from_bits(s.bits() as $b),
                }
            }
            fn small(s: &mut Src) -> Self { s.zigzag(3) as $t }
            fn same(&self, o: &Self) -> bool { (self.is_nan() && o.is_nan()) || self.to_bits() == o.to_bits() }
            fn tag(i: usize) -> Self { i as $t + 0.5 }
        }
    )*};
}
elem_float!(f32 u32 f32 f64 u64 f64);

impl Elem for bool {
    const NAME: &'static str = "bool";
    fn any(s: &mut Src) -> Self {
        s.bool()
    }
    fn small(s: &mut Src) -> Self {
        s.bool()
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn tag(i: usize) -> Self {
        i % 3 == 1
    }
}
impl Elem for char {
    const NAME: &'static str = "char";
    fn any(s: &mut Src) -> Self {
        char::from_u32(s.below(0xD7FF) as u32).unwrap()
    }
    fn small(s: &mut Src) -> Self {
        (b'a' + s.below(26) as u8) as char
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn tag(i: usize) -> Self {
        char::from_u32(33 + i as u32).unwrap()
    }
}
impl Elem for (u8, u32) {
    const NAME: &'static str = "(u8,u32)";
    fn any(s: &mut Src) -> Self {
        (u8::any(s), u32::any(s))
    }
    fn small(s: &mut Src) -> Self {
        (u8::small(s), u32::small(s))
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn tag(i: usize) -> Self {
        (i as u8, 7 * i as u32 + 1)
    }
}
impl Elem for [u8; 3] {
    const NAME: &'static str = "[u8;3]";
    fn any(s: &mut Src) -> Self {
        [u8::any(s), u8::any(s), u8::any(s)]
    }
    fn small(s: &mut Src) -> Self {
        [u8::small(s), u8::small(s), 1]
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn tag(i: usize) -> Self {
        [i as u8, (i >> 8) as u8, 9]
    }
}
impl Elem for () {
    const NAME: &'static str = "()";
    fn any(_: &mut Src) -> Self {}
    fn small(_: &mut Src) -> Self {}
    fn same(&self, _: &Self) -> bool {
        true
    }
    fn tag(_: usize) -> Self {}
}
/// Over-aligned element.
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(align(32))]
pub struct Al32(pub u16);
impl Elem for Al32 {
    const NAME: &'static str = "align32";
    fn any(s: &mut Src) -> Self {
        Al32(u16::any(s))
    }
    fn small(s: &mut Src) -> Self {
        Al32(u16::small(s))
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn tag(i: usize) -> Self {
        Al32(i as u16)
    }
}

/// Element of a few hundred bytes, all of which differ.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Big([u64; 40]);
impl Big {
    fn of(x: u64) -> Self {
        Big(std::array::from_fn(|i| x.wrapping_mul(2 * i as u64 + 1)))
    }
}
impl Elem for Big {
    const NAME: &'static str = "320 bytes";
    fn any(s: &mut Src) -> Self {
        Big::of(u64::any(s))
    }
    fn small(s: &mut Src) -> Self {
        Big::of(u64::small(s))
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn tag(i: usize) -> Self {
        Big::of(i as u64)
    }
}

/// Exact field of integers modulo the prime `P` (below 2^62).
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Gf<const P: u64>(u64);
pub const BIGP: u64 = (1 << 61) - 1;
pub type F = Gf<BIGP>;
/// Prime congruent to 3 mod 4: x^2 + 1 has no root, so complex numbers over it form a field.
pub type F7 = Gf<1000003>;
impl<const P: u64> Gf<P> {
    pub fn of(x: i64) -> Self {
        Gf((x as i128).rem_euclid(P as i128) as u64)
    }
    pub fn raw(self) -> u64 {
        self.0
    }
    pub fn pow(self, mut e: u64) -> Self {
        let (mut b, mut r) = (self, Gf::of(1));
        while e > 0 {
            if e & 1 == 1 {
                r = r * b;
            }
            b = b * b;
            e >>= 1;
        }
        r
    }
}
impl<const P: u64> Debug for Gf<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.0 > P / 2 {
            write!(f, "-{}", P - self.0)
        } else {
            write!(f, "{}", self.0)
        }
    }
}
impl<const P: u64> Display for Gf<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        Debug::fmt(self, f)
    }
}
impl<const P: u64> Add for Gf<P> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Gf(((self.0 as u128 + o.0 as u128) % P as u128) as u64)
    }
}
impl<const P: u64> Sub for Gf<P> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Gf(((self.0 as u128 + (P - o.0) as u128) % P as u128) as u64)
    }
}
impl<const P: u64> Mul for Gf<P> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Gf((self.0 as u128 * o.0 as u128 % P as u128) as u64)
    }
}
impl<const P: u64> Inv for Gf<P> {
    type Output = Self;
    fn inv(self) -> Self {
        assert!(self.0 != 0, "division by zero in Gf");
        self.pow(P - 2)
    }
}
impl<const P: u64> Div for Gf<P> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        self * o.inv()
    }
}
impl<const P: u64> Rem for Gf<P> {
    type Output = Self;
    // An arbitrary but distinctive, non-commutative binary operation.
    fn rem(self, o: Self) -> Self {
        assert!(o.0 != 0, "remainder by zero in Gf");
        Gf(self.0 % o.0)
    }
}
impl<const P: u64> Neg for Gf<P> {
    type Output = Self;
    fn neg(self) -> Self {
        Gf::of(0) - self
    }
}
impl<const P: u64> Zero for Gf<P> {
    fn zero() -> Self {
        Gf(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl<const P: u64> One for Gf<P> {
    fn one() -> Self {
        Gf(1)
    }
}
impl<const P: u64> Num for Gf<P> {
    type FromStrRadixErr = std::num::ParseIntError;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        i64::from_str_radix(s, r).map(Self::of)
    }
}
impl<const P: u64> num_traits::ToPrimitive for Gf<P> {
    fn to_i64(&self) -> Option<i64> {
        Some(self.0 as i64)
    }
    fn to_u64(&self) -> Option<u64> {
        Some(self.0)
    }
}
impl<const P: u64> num_traits::NumCast for Gf<P> {
    /// Exact for every finite float (a dyadic fraction) and every integer below 2^53.
    fn from<N: num_traits::ToPrimitive>(n: N) -> Option<Self> {
        let x = n.to_f64()?;
        if !x.is_finite() {
            return None;
        }
        let (m, e, s) = num_traits::Float::integer_decode(x);
        let (m, two) = (Gf((m % P) as u64), Gf::of(2));
        let v = if e >= 0 { m * two.pow(e as u64) } else { m / two.pow(-e as u64) };
        Some(if s < 0 { -v } else { v })
    }
}
macro_rules! assign_via {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> AddAssign for $t { fn add_assign(&mut self, o: Self) { *self = *self + o; } }
        impl<$($g)*> SubAssign for $t { fn sub_assign(&mut self, o: Self) { *self = *self - o; } }
        impl<$($g)*> MulAssign for $t { fn mul_assign(&mut self, o: Self) { *self = *self * o; } }
    };
}
assign_via!([const P: u64] Gf<P>);
impl<const P: u64> DivAssign for Gf<P> {
    fn div_assign(&mut self, o: Self) {
        *self = *self / o;
    }
}
impl<const P: u64> RemAssign for Gf<P> {
    fn rem_assign(&mut self, o: Self) {
        *self = *self % o;
    }
}
impl<const P: u64> Elem for Gf<P> {
    const NAME: &'static str = "Gf";
    fn any(s: &mut Src) -> Self {
        match s.below(4) {
            0 => Gf::of(s.zigzag(2)),
            1 => Gf::of(s.zigzag(10)),
            2 => Gf::of(gen::dict_int(s)),
            _ => Gf((s.bits() >> 2) % P),
        }
    }
    fn small(s: &mut Src) -> Self {
        Gf::of(s.zigzag(3))
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn tag(i: usize) -> Self {
        Gf::of(i as i64)
    }
}

/// Non-commutative exact ring: 2x2 matrices over a prime field.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Nc([F; 4]);
impl Nc {
    pub fn of(a: i64, b: i64, c: i64, d: i64) -> Self {
        Nc([F::of(a), F::of(b), F::of(c), F::of(d)])
    }
}
impl Add for Nc {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Nc(std::array::from_fn(|i| self.0[i] + o.0[i]))
    }
}
impl Sub for Nc {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Nc(std::array::from_fn(|i| self.0[i] - o.0[i]))
    }
}
impl Neg for Nc {
    type Output = Self;
    fn neg(self) -> Self {
        Nc(self.0.map(|x| -x))
    }
}
impl Mul for Nc {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        let (a, b) = (self.0, o.0);
        Nc([
            a[0] * b[0] + a[1] * b[2],
            a[0] * b[1] + a[1] * b[3],
            a[2] * b[0] + a[3] * b[2],
            a[2] * b[1] + a[3] * b[3],
        ])
    }
}
assign_via!([] Nc);
impl Zero for Nc {
    fn zero() -> Self {
        Nc::of(0, 0, 0, 0)
    }
    fn is_zero(&self) -> bool {
        *self == Self::zero()
    }
}
impl One for Nc {
    fn one() -> Self {
        Nc::of(1, 0, 0, 1)
    }
}
impl Elem for Nc {
    const NAME: &'static str = "Nc";
    fn any(s: &mut Src) -> Self {
        Nc(std::array::from_fn(|_| F::any(s)))
    }
    fn small(s: &mut Src) -> Self {
        Nc(std::array::from_fn(|_| F::small(s)))
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn tag(i: usize) -> Self {
        Nc::of(1, i as i64, 0, 1)
    }
}

/// Elements whose addition does not commute: maps `x -> a x + b`, added by applying the right one
/// first and multiplied by applying the left one first.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cat(F, F);
impl Add for Cat {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Cat(self.0 * o.0, self.0 * o.1 + self.1)
    }
}
impl Mul for Cat {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        o + self
    }
}
impl Zero for Cat {
    fn zero() -> Self {
        Cat(F::of(1), F::of(0))
    }
    fn is_zero(&self) -> bool {
        *self == Self::zero()
    }
}
impl One for Cat {
    fn one() -> Self {
        Self::zero()
    }
}
impl Elem for Cat {
    const NAME: &'static str = "Cat";
    fn any(s: &mut Src) -> Self {
        Cat(F::of(s.range(1, 9)), F::any(s))
    }
    fn small(s: &mut Src) -> Self {
        Cat(F::of(s.range(1, 3)), F::small(s))
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn tag(i: usize) -> Self {
        Cat(F::of(2), F::of(i as i64))
    }
}

/// Ledger of tracked elements: every one must be dropped at most once and never used when dead.
pub mod track {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Ledger {
        live: Vec<bool>,
        n_live: usize,
        zst_live: i64,
        errs: Vec<String>,
        fuse: Option<u64>,
        ticks: u64,
        fired: bool,
    }
    thread_local! {
        static L: RefCell<Ledger> = RefCell::new(Ledger::default());
    }
    fn with<R>(f: impl FnOnce(&mut Ledger) -> R) -> R {
        L.with(|l| f(&mut l.borrow_mut()))
    }
    pub fn reset() {
        with(|l| *l = Ledger::default());
    }
    pub fn live() -> usize {
        with(|l| l.n_live)
    }
    pub fn zst_live() -> i64 {
        with(|l| l.zst_live)
    }
    pub fn errs() -> Vec<String> {
        with(|l| l.errs.clone())
    }
    pub fn err(e: String) {
        with(|l| {
            if l.errs.len() < 8 {
                l.errs.push(e)
            }
        });
    }
    /// Panic at the `n`-th tick from now (0 = the next one).
    pub fn arm(n: u64) {
        with(|l| {
            l.fuse = Some(n);
            l.fired = false;
        });
    }
    pub fn disarm() {
        with(|l| l.fuse = None);
    }
    pub fn fired() -> bool {
        with(|l| l.fired)
    }
    pub fn ticks() -> u64 {
        with(|l| l.ticks)
    }
    /// A point at which user code may panic.
    pub fn tick() {
        let fire = with(|l| {
            l.ticks += 1;
            match l.fuse {
                Some(0) => {
                    l.fuse = None;
                    l.fired = true;
                    true
                }
                Some(n) => {
                    l.fuse = Some(n - 1);
                    false
                }
                None => false,
            }
        });
        if fire && !std::thread::panicking() {
            std::panic::panic_any(crate::engine::INJECTED);
        }
    }
    pub(super) fn born() -> u32 {
        with(|l| {
            l.live.push(true);
            l.n_live += 1;
            (l.live.len() - 1) as u32
        })
    }
    pub(super) fn died(id: u32, tag_ok: bool) {
        with(|l| {
            let e = if !tag_ok || id as usize >= l.live.len() {
                Some("dropped an element that was never initialised".to_string())
            } else if !l.live[id as usize] {
                Some(format!("element #{} dropped twice", id))
            } else {
                l.live[id as usize] = false;
                l.n_live -= 1;
                None
            };
            if let Some(e) = e {
                if l.errs.len() < 8 {
                    l.errs.push(e)
                }
            }
        });
    }
    pub(super) fn used(id: u32, tag_ok: bool) {
        with(|l| {
            if !tag_ok || id as usize >= l.live.len() || !l.live[id as usize] {
                if l.errs.len() < 8 {
                    l.errs.push(format!("element #{} used while not alive", id));
                }
            }
        });
    }
    pub(super) fn zst(d: i64) {
        with(|l| {
            l.zst_live += d;
            if l.zst_live < 0 && l.errs.len() < 8 {
                l.errs.push("zero-sized element dropped more often than created".into());
            }
        });
    }
}

const TAG: u32 = 0x5EED_1E55;
/// Drop-tracked element; neither `Copy` nor cheaply forgeable. `Clone`, arithmetic and drop are
/// points where the injected panic may happen.
pub struct Tr {
    id: u32,
    tag: u32,
    val: i64,
}
impl Tr {
    pub fn new(val: i64) -> Self {
        let id = track::born();
        Tr { id, tag: id ^ TAG, val }
    }
    fn ok(&self) -> bool {
        self.tag == self.id ^ TAG
    }
    /// The payload; reports a use of a dead element.
    pub fn get(&self) -> i64 {
        track::used(self.id, self.ok());
        self.val
    }
    pub fn set(&mut self, v: i64) {
        track::used(self.id, self.ok());
        self.val = v;
    }
}
impl Drop for Tr {
    fn drop(&mut self) {
        track::died(self.id, self.ok());
        self.tag = 0;
        track::tick();
    }
}
impl Clone for Tr {
    fn clone(&self) -> Self {
        track::tick();
        Tr::new(self.get())
    }
}
impl Debug for Tr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.get())
    }
}
impl Display for Tr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.get())
    }
}
impl PartialEq for Tr {
    fn eq(&self, o: &Self) -> bool {
        track::tick();
        self.get() == o.get()
    }
}
impl PartialOrd for Tr {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        track::tick();
        self.get().partial_cmp(&o.get())
    }
}
impl Default for Tr {
    fn default() -> Self {
        track::tick();
        Tr::new(0)
    }
}
macro_rules! tr_op {
    ($($Op:ident $op:ident $OpA:ident $opa:ident $w:ident;)*) => {$(
        impl $Op for Tr {
            type Output = Tr;
            fn $op(self, o: Tr) -> Tr { track::tick(); Tr::new(self.get().$w(o.get())) }
        }
        impl $OpA for Tr {
            fn $opa(&mut self, o: Tr) { track::tick(); let v = self.get().$w(o.get()); self.set(v); }
        }
    )*};
}
tr_op! {
    Add add AddAssign add_assign wrapping_add;
    Sub sub SubAssign sub_assign wrapping_sub;
    Mul mul MulAssign mul_assign wrapping_mul;
    Div div DivAssign div_assign safe_div;
    Rem rem RemAssign rem_assign safe_rem;
    BitAnd bitand BitAndAssign bitand_assign bitand;
    BitOr bitor BitOrAssign bitor_assign bitor;
    BitXor bitxor BitXorAssign bitxor_assign bitxor;
}
pub trait SafeDiv {
    fn safe_div(self, o: Self) -> Self;
    fn safe_rem(self, o: Self) -> Self;
}
impl SafeDiv for i64 {
    fn safe_div(self, o: i64) -> i64 {
        if o == 0 {
            self
        } else {
            self.wrapping_div(o)
        }
    }
    fn safe_rem(self, o: i64) -> i64 {
        if o == 0 {
            self
        } else {
            self.wrapping_rem(o)
        }
    }
}
impl Eq for Tr {}
impl Ord for Tr {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        track::tick();
        self.get().cmp(&o.get())
    }
}
impl Num for Tr {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, ()> {
        i64::from_str_radix(s, radix).map(Tr::new).map_err(|_| ())
    }
}
/// Floored division of the safe kind: dividing by zero gives the dividend.
pub fn floor_div(x: i64, y: i64) -> i64 {
    if y == 0 {
        x
    } else {
        x.wrapping_div_euclid(y) - (y < 0 && x.wrapping_rem_euclid(y) != 0) as i64
    }
}
pub fn floor_mod(x: i64, y: i64) -> i64 {
    if y == 0 {
        x
    } else {
        x - y * floor_div(x, y)
    }
}
impl num_integer::Integer for Tr {
    fn div_floor(&self, o: &Self) -> Self {
        track::tick();
        Tr::new(floor_div(self.get(), o.get()))
    }
    fn mod_floor(&self, o: &Self) -> Self {
        track::tick();
        Tr::new(floor_mod(self.get(), o.get()))
    }
    fn gcd(&self, o: &Self) -> Self {
        Tr::new(num_integer::gcd(self.get(), o.get()))
    }
    fn lcm(&self, o: &Self) -> Self {
        Tr::new(num_integer::lcm(self.get(), o.get()))
    }
    fn is_multiple_of(&self, o: &Self) -> bool {
        self.get().safe_rem(o.get()) == 0
    }
    fn is_even(&self) -> bool {
        self.get() % 2 == 0
    }
    fn is_odd(&self) -> bool {
        self.get() % 2 != 0
    }
    fn div_rem(&self, o: &Self) -> (Self, Self) {
        (Tr::new(self.get().safe_div(o.get())), Tr::new(self.get().safe_rem(o.get())))
    }
}
impl Neg for Tr {
    type Output = Tr;
    fn neg(self) -> Tr {
        track::tick();
        Tr::new(self.get().wrapping_neg())
    }
}
impl Not for Tr {
    type Output = Tr;
    fn not(self) -> Tr {
        track::tick();
        Tr::new(!self.get())
    }
}
impl Zero for Tr {
    fn zero() -> Self {
        track::tick();
        Tr::new(0)
    }
    fn is_zero(&self) -> bool {
        track::tick();
        self.get() == 0
    }
}
impl One for Tr {
    fn one() -> Self {
        track::tick();
        Tr::new(1)
    }
}

/// Drop-counted zero-sized element.
#[derive(Debug, PartialEq)]
pub struct Zs(());
impl Zs {
    pub fn new() -> Self {
        track::zst(1);
        Zs(())
    }
}
impl Drop for Zs {
    fn drop(&mut self) {
        track::zst(-1);
        track::tick();
    }
}
impl Clone for Zs {
    fn clone(&self) -> Self {
        track::tick();
        Zs::new()
    }
}
impl Default for Zs {
    fn default() -> Self {
        track::tick();
        Zs::new()
    }
}

/// What the ownership checks need from an element that is neither `Copy` nor trivially dropped.
pub trait Own: Sized + Debug + 'static {
    const NAME: &'static str;
    fn make(v: i64) -> Self;
    fn val(&self) -> i64;
    fn set(&mut self, v: i64);
    /// Number of currently live elements of this kind.
    fn live() -> i64;
    /// Value as observable for this kind (0 for zero-sized ones).
    fn obs(v: i64) -> i64;
    /// What one element adds to the counts of live tracked and zero-sized elements.
    const LEDGER: [i64; 2] = [1, 0];
}
macro_rules! own_plain {
    ($($t:ty, $n:literal, $to:expr, $from:expr;)*) => {$(
        impl Own for $t {
            const NAME: &'static str = $n;
            fn make(v: i64) -> Self {
                $to(v)
            }
            fn val(&self) -> i64 {
                $from(self)
            }
            fn set(&mut self, v: i64) {
                *self = Self::make(v)
            }
            fn live() -> i64 {
                0
            }
            fn obs(v: i64) -> i64 {
                Self::make(v).val()
            }
            const LEDGER: [i64; 2] = [0, 0];
        }
    )*};
}
own_plain! {
    (), "unit", |_| (), |_: &()| 0;
    u8, "u8", |v| v as u8, |x: &u8| *x as i64;
    u32, "u32", |v| v as u32, |x: &u32| *x as i64;
    i64, "i64", |v| v, |x: &i64| *x;
    [u64; 5], "big", |v: i64| [v as u64; 5], |x: &[u64; 5]| if x.iter().all(|y| *y == x[0]) { x[0] as i64 } else { -1 };
}
impl Own for Tr {
    const NAME: &'static str = "tracked";
    fn make(v: i64) -> Self {
        Tr::new(v)
    }
    fn val(&self) -> i64 {
        self.get()
    }
    fn set(&mut self, v: i64) {
        Tr::set(self, v)
    }
    fn live() -> i64 {
        track::live() as i64
    }
    fn obs(v: i64) -> i64 {
        v
    }
}
impl Own for Zs {
    const NAME: &'static str = "zst";
    fn make(_: i64) -> Self {
        Zs::new()
    }
    fn val(&self) -> i64 {
        0
    }
    fn set(&mut self, _: i64) {}
    fn live() -> i64 {
        track::zst_live()
    }
    fn obs(_: i64) -> i64 {
        0
    }
    const LEDGER: [i64; 2] = [0, 1];
}
/// Over-aligned tracked element.
#[derive(Debug)]
#[repr(align(64))]
pub struct Wide(pub Tr);
impl Own for Wide {
    const NAME: &'static str = "wide";
    fn make(v: i64) -> Self {
        Wide(Tr::new(v))
    }
    fn val(&self) -> i64 {
        self.0.get()
    }
    fn set(&mut self, v: i64) {
        self.0.set(v)
    }
    fn live() -> i64 {
        track::live() as i64
    }
    fn obs(v: i64) -> i64 {
        v
    }
}
/// Tracked element of a few hundred bytes, tampering with which shows.
#[derive(Debug)]
pub struct Bulk {
    pad: [i64; 24],
    it: Tr,
    tail: [i64; 24],
}
impl Own for Bulk {
    const NAME: &'static str = "bulk";
    fn make(v: i64) -> Self {
        Bulk { pad: [v; 24], it: Tr::new(v), tail: [!v; 24] }
    }
    fn val(&self) -> i64 {
        let v = self.it.get();
        if self.pad != [v; 24] || self.tail != [!v; 24] {
            return i64::MIN;
        }
        v
    }
    fn set(&mut self, v: i64) {
        self.pad = [v; 24];
        self.it.set(v);
        self.tail = [!v; 24];
    }
    fn live() -> i64 {
        track::live() as i64
    }
    fn obs(v: i64) -> i64 {
        v
    }
}
/// Heap-owning tracked element.
#[derive(Debug)]
pub struct Heap(Box<Tr>);
impl Own for Heap {
    const NAME: &'static str = "heap";
    fn make(v: i64) -> Self {
        Heap(Box::new(Tr::new(v)))
    }
    fn val(&self) -> i64 {
        self.0.get()
    }
    fn set(&mut self, v: i64) {
        self.0.set(v)
    }
    fn live() -> i64 {
        track::live() as i64
    }
    fn obs(v: i64) -> i64 {
        v
    }
}
