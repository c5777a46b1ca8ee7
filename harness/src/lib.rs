//! Property-based testing harness for vecmat.
pub mod elems;
pub mod engine;
pub mod gen;
pub mod machine;
pub mod tol;
pub mod iters;
pub mod cont;
pub mod det;
pub mod alg;
pub mod tf;
pub mod custom;

/// Type aliases that name a dimension mean exactly that type: `(name, alias's id, type's id)`.
pub fn aliases(c: &mut engine::Cx, table: &[(&str, std::any::TypeId, std::any::TypeId)]) -> engine::Res {
    let (name, got, want) = c.s.pick(table);
    c.show(|| name.to_string());
    c.nontrivial(true);
    crate::ensure!(got == want, "{} is another type than its name says", name);
    Ok(())
}
#[macro_export]
macro_rules! alias_table {
    ($($alias:path => $t:ty),* $(,)?) => {
        [$((stringify!($alias), std::any::TypeId::of::<$alias>(), std::any::TypeId::of::<$t>())),*]
    };
}
