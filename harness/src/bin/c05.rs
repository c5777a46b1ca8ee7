//! C05: a panic in user code never double-drops or exposes bad elements.
use vh::{elems::*, engine::*, machine::*};
macro_rules! h {
    ($p:ident, $t:ty, $k:expr; $($m:literal x $n:literal),*) => {$(
        $p.sub(format!("panicking {} {}x{}", <$t as Own>::NAME, $m, $n), $k, panicking::<$t, $m, $n>);
    )*};
}
macro_rules! a {
    ($p:ident; $($m:literal x $n:literal),*) => {$(
        $p.sub(format!("arithmetic {}x{}", $m, $n), 4000, |c: &mut Cx| arith::<$m, $n>(c, true));
    )*};
}
fn main() {
    let mut p = Prop::new("C05", "an injected panic fired inside a library call");
    h!(p, Tr, 4000; 1 x 1, 1 x 2, 2 x 1, 2 x 2, 2 x 3, 3 x 2, 3 x 3, 4 x 4, 1 x 5, 5 x 1, 3 x 4, 7 x 2, 2 x 8, 4 x 9);
    h!(p, Heap, 2000; 2 x 3, 3 x 3, 4 x 2);
    h!(p, Wide, 2000; 2 x 3, 3 x 2);
    h!(p, Bulk, 1000; 2 x 3, 5 x 4);
    h!(p, Zs, 2000; 1 x 1, 2 x 3, 3 x 3);
    a!(p; 1 x 1, 2 x 2, 2 x 3, 3 x 4, 4 x 1, 3 x 8, 2 x 17);
    h!(p, Tr, 40; 16 x 17, 300 x 1, 1 x 300, 40 x 37);
    vh::add_pairs!(p, true, 500; Tr, (); (), Tr; Tr, Zs; Zs, Tr; Zs, (); Tr, u8; u8, Tr; [u64; 5], Tr; Tr, [u64; 5]; Wide, u8; Zs, Wide; Heap, Zs; Tr, Tr);
    p.main();
}
