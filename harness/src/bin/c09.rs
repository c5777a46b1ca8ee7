//! C09: matrix arithmetic is exactly element-wise scalar arithmetic.
use std::ops::*;
use vh::{every_shape, add_mat, cont::*, elementwise, elems::*, engine::*};

fn full<V>(c: &mut Cx) -> Res
where
    V: Cont + Add<Output = V> + Sub<Output = V> + Mul<Output = V> + Div<Output = V> + Rem<Output = V>,
    V: AddAssign + SubAssign + MulAssign + DivAssign + RemAssign,
    V: Mul<V::E, Output = V> + Div<V::E, Output = V> + Rem<V::E, Output = V> + MulAssign<V::E> + DivAssign<V::E> + RemAssign<V::E>,
    V::E: Add<Output = V::E> + Sub<Output = V::E> + Mul<Output = V::E> + Div<Output = V::E> + Rem<Output = V::E>,
    V::E: AddAssign + SubAssign + MulAssign + DivAssign + RemAssign,
{
    let (a, b, k) = operands::<V>(c);
    elementwise!(c, V, a, b, k; add add_assign, sub sub_assign, mul mul_assign, div div_assign, rem rem_assign; mul mul_assign, div div_assign, rem rem_assign);
    compare("a*b-(b+a)", expect(&a, &b, |x, y| (x * y) - (y + x)), || {
        let (v, w) = (V::make(&a), V::make(&b));
        (v * w) - (w + v)
    })
}
fn ring<V>(c: &mut Cx) -> Res
where
    V: Cont<E = Nc> + Add<Output = V> + Sub<Output = V> + Mul<Output = V> + Mul<Nc, Output = V>,
    V: AddAssign + SubAssign + MulAssign + MulAssign<Nc> + Neg<Output = V>,
{
    let (a, b, k) = operands::<V>(c);
    elementwise!(c, V, a, b, k; add add_assign, sub sub_assign, mul mul_assign; mul mul_assign);
    compare("neg", expect(&a, &a, |x, _| -x), || -V::make(&a))
}
fn neg<V: Cont + Neg<Output = V>>(c: &mut Cx) -> Res
where
    V::E: Neg<Output = V::E>,
{
    let (a, _, _) = operands::<V>(c);
    let want = expect(&a, &a, |x, _| -x);
    c.label_if(want.is_none(), "scalar operator panics");
    compare("neg", want, || -V::make(&a))
}

fn main() {
    let mut p = Prop::new("C09", "some pair of corresponding elements differs");
    add_mat!(p, full, "operators", 500; [u8, u16, u32, u64, u128, usize, i8, i16, i64, i128, isize, f32, F] [(2, 3), (3, 3)]);
    add_mat!(p, full, "operators", 400; [i32, f64, Sym] [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (2, 4), (4, 2), (3, 3), (3, 4), (4, 3), (4, 4)]);
    add_mat!(p, full, "operators", 150; [i32, Sym] [(0, 0), (0, 3), (3, 0), (1, 5), (5, 1), (5, 5), (2, 6), (6, 3), (4, 8), (8, 8)]);
    add_mat!(p, full, "operators", 100; [Sym] [(1, 7), (7, 1), (2, 5), (5, 2), (3, 5), (5, 3), (5, 4), (4, 5), (6, 6), (7, 7), (1, 9), (9, 1), (16, 1), (1, 16), (9, 9), (5, 8), (8, 5), (7, 9)]);
    add_mat!(p, neg, "negation", 300; [i8, i16, i32, i64, i128, isize, f32, f64, F, Sym] [(2, 2), (3, 2), (3, 4)]);
    add_mat!(p, neg, "negation", 100; [i32, Sym] [(0, 2), (2, 0), (1, 1), (1, 4), (4, 1), (4, 4), (5, 6), (8, 8), (5, 5), (6, 5), (7, 7), (1, 9), (9, 1), (7, 2), (3, 8)]);
    add_mat!(p, ring, "ring", 150; [Nc] [(1, 1), (2, 2), (2, 3), (3, 2), (4, 3), (4, 4)]);
    add_mat!(p, full, "operators", 12; [Sym, i32] [(16, 17), (300, 1), (1, 300), (20, 30)]);
    add_mat!(p, neg, "negation", 12; [Sym] [(16, 17), (300, 1), (1, 300), (20, 30)]);
    every_shape!(add_mat!(p, full, "operators, every shape", 16; [Sym]));
    every_shape!(add_mat!(p, neg, "negation, every shape", 16; [Sym]));
    p.main();
}
