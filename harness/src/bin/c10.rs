//! C10: integer floor division and bit operations are element-wise.
use num_integer::Integer;
use num_traits::{One, Zero};
use std::ops::*;
use vecmat::{Matrix, Vector};
use vh::{every_dim, every_shape, add_mat, add_vec, cont::*, elementwise, elems::*, engine::*, ensure};

trait FloorDiv: Cont {
    fn div_floor_(self, o: Self) -> Self;
    fn mod_floor_(self, o: Self) -> Self;
    fn div_mod_floor_(self, o: Self) -> (Self, Self);
}
impl<T: Elem + Integer, const N: usize> FloorDiv for Vector<T, N> {
    fn div_floor_(self, o: Self) -> Self {
        self.div_floor(o)
    }
    fn mod_floor_(self, o: Self) -> Self {
        self.mod_floor(o)
    }
    fn div_mod_floor_(self, o: Self) -> (Self, Self) {
        self.div_mod_floor(o)
    }
}
impl<T: Elem + Integer, const M: usize, const N: usize> FloorDiv for Matrix<T, M, N> {
    fn div_floor_(self, o: Self) -> Self {
        self.div_floor(o)
    }
    fn mod_floor_(self, o: Self) -> Self {
        self.mod_floor(o)
    }
    fn div_mod_floor_(self, o: Self) -> (Self, Self) {
        self.div_mod_floor(o)
    }
}
trait Int: Elem + Integer {
    /// Floored quotient and remainder; `None` if undefined or not representable.
    fn floor_div(a: Self, b: Self) -> Option<(Self, Self)>;
}
macro_rules! int {
    ($($t:ident)*) => {$(
        impl Int for $t {
            fn floor_div(a: $t, b: $t) -> Option<($t, $t)> {
                let (q, r) = (a.checked_div(b)?, a.checked_rem(b)?);
                #[allow(unused_comparisons)]
                if r != 0 && ((r < 0) != (b < 0)) { Some((q - 1, r + b)) } else { Some((q, r)) }
            }
        }
    )*};
}
int!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

fn floor<V: FloorDiv>(c: &mut Cx) -> Res
where
    V::E: Int,
{
    let (a, mut b, _) = operands::<V>(c);
    let zero_ok = c.s.chance(1, 5);
    if !zero_ok {
        for x in b.iter_mut() {
            if x.is_zero() {
                *x = V::E::one();
            }
        }
    }
    c.show(|| format!("{:?} by {:?}", a, b));
    // the quotient MIN / -1 does not exist
    if a.iter().zip(&b).any(|(x, y)| !y.is_zero() && V::E::floor_div(*x, *y).is_none()) {
        c.label("unrepresentable quotient, skipped");
        return Ok(());
    }
    let has_zero = b.iter().any(|y| y.is_zero());
    c.label_if(has_zero, "division by zero");
    c.label_if(a.iter().zip(&b).any(|(x, y)| !y.is_zero() && x.div_rem(y) != V::E::floor_div(*x, *y).unwrap()), "floored differs from truncated");
    let q = expect(&a, &b, |x, y| V::E::floor_div(x, y).unwrap().0);
    let r = expect(&a, &b, |x, y| V::E::floor_div(x, y).unwrap().1);
    compare("div_floor", q.clone(), || V::make(&a).div_floor_(V::make(&b)))?;
    compare("mod_floor", r.clone(), || V::make(&a).mod_floor_(V::make(&b)))?;
    compare("div_mod_floor quotient", q, || V::make(&a).div_mod_floor_(V::make(&b)).0)?;
    compare("div_mod_floor remainder", r, || V::make(&a).div_mod_floor_(V::make(&b)).1)?;
    if !has_zero {
        let (q, r) = V::make(&a).div_mod_floor_(V::make(&b));
        for (i, (q, r)) in q.flat().into_iter().zip(r.flat()).enumerate() {
            ensure!(guard(|| q * b[i] + r == a[i]).unwrap_or(true), "element {}: q*d + r is not the dividend", i);
            ensure!(r.is_zero() || (r < V::E::zero()) == (b[i] < V::E::zero()), "element {}: the remainder has the wrong sign", i);
        }
    }
    Ok(())
}
fn bits<V>(c: &mut Cx) -> Res
where
    V: Cont + Not<Output = V> + BitAnd<Output = V> + BitOr<Output = V> + BitXor<Output = V> + BitAndAssign + BitOrAssign + BitXorAssign,
    V::E: Not<Output = V::E> + BitAnd<Output = V::E> + BitOr<Output = V::E> + BitXor<Output = V::E> + BitAndAssign + BitOrAssign + BitXorAssign,
{
    let (a, b, k) = operands::<V>(c);
    elementwise!(c, V, a, b, k; bitand bitand_assign, bitor bitor_assign, bitxor bitxor_assign; );
    compare("not", expect(&a, &a, |x, _| !x), || !V::make(&a))
}

fn main() {
    let mut p = Prop::new("C10", "some pair of corresponding elements differs");
    add_vec!(p, floor, "floor division", 700; [u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize] [1, 2, 3, 4]);
    add_vec!(p, floor, "floor division", 300; [i8, i32] [0, 5, 6, 7, 8, 9, 11, 12, 15, 16, 17, 32]);
    add_mat!(p, floor, "floor division", 500; [u8, u32, i8, i32, i64, i128] [(1, 1), (2, 2), (2, 3), (3, 2), (4, 4)]);
    add_mat!(p, floor, "floor division", 200; [i16, i32] [(0, 2), (2, 0), (3, 3), (1, 4), (4, 1), (5, 6), (3, 4), (5, 5), (7, 2), (8, 8)]);
    add_vec!(p, bits, "bits", 300; [bool, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, Sym] [1, 2, 3, 4]);
    add_vec!(p, bits, "bits", 150; [bool, u8, i32, Sym] [0, 5, 8, 16, 33]);
    add_vec!(p, bits, "bits", 100; [bool, Sym] [6, 7, 9, 10, 11, 12, 13, 15, 17, 32, 64]);
    add_mat!(p, bits, "bits", 300; [bool, u8, i32, i64, Sym] [(1, 1), (2, 2), (2, 3), (3, 2), (4, 4)]);
    add_mat!(p, bits, "bits", 150; [bool, Sym] [(5, 5), (7, 7), (1, 9), (9, 1), (0, 2), (2, 0), (3, 3), (3, 4), (1, 4), (4, 1), (5, 6), (8, 8)]);
    add_vec!(p, floor, "floor division", 12; [i32] [64, 300]);
    add_mat!(p, floor, "floor division", 12; [i32] [(16, 17), (300, 1), (1, 300)]);
    add_vec!(p, bits, "bits", 12; [bool, Sym] [128, 257, 300]);
    add_mat!(p, bits, "bits", 12; [bool, Sym] [(16, 17), (300, 1), (1, 300)]);
    every_dim!(add_vec!(p, floor, "floor division, every dimension", 20; [i16]));
    every_shape!(add_mat!(p, floor, "floor division, every shape", 20; [i64]));
    every_dim!(add_vec!(p, bits, "bits, every dimension", 20; [u32]));
    every_shape!(add_mat!(p, bits, "bits, every shape", 20; [u32]));
    p.main();
}
