//! C04: every element is moved out or dropped exactly once.
use vh::{elems::*, engine::*, machine::*};
macro_rules! h {
    ($p:ident, $t:ty, $k:expr; $($m:literal x $n:literal),*) => {$(
        $p.sub(format!("history {} {}x{}", <$t as Own>::NAME, $m, $n), $k, history::<$t, $m, $n>);
    )*};
}
macro_rules! a {
    ($p:ident; $($m:literal x $n:literal),*) => {$(
        $p.sub(format!("arithmetic {}x{}", $m, $n), 1500, |c: &mut Cx| arith::<$m, $n>(c, false));
    )*};
}
fn main() {
    let mut p = Prop::new("C04", "a history of at least four calls in which elements were created and moved, or an operation on at least two elements");
    h!(p, Tr, 2500; 1 x 1, 1 x 2, 2 x 1, 2 x 2, 2 x 3, 3 x 2, 3 x 3, 4 x 4, 1 x 5, 5 x 1, 3 x 4, 7 x 2, 2 x 8, 4 x 9, 9 x 5, 0 x 2, 2 x 0, 3 x 16, 17 x 3);
    h!(p, Heap, 1500; 2 x 3, 3 x 3, 4 x 2, 3 x 5);
    h!(p, Wide, 1500; 2 x 3, 3 x 2, 4 x 4);
    h!(p, Bulk, 1000; 2 x 3, 5 x 4);
    h!(p, Zs, 1500; 1 x 1, 2 x 3, 3 x 3, 4 x 2);
    a!(p; 1 x 1, 2 x 2, 2 x 3, 3 x 4, 4 x 1, 3 x 8, 2 x 17);
    h!(p, Tr, 40; 16 x 17, 300 x 1, 1 x 300, 40 x 37);
    p.sub("tuples", 200, tuples);
    vh::add_pairs!(p, false, 300; Tr, (); (), Tr; Tr, Zs; Zs, Tr; Zs, (); Tr, u8; u8, Tr; [u64; 5], Tr; Tr, [u64; 5]; Wide, u8; Zs, Wide; Heap, Zs; Tr, Tr);
    p.main();
}
