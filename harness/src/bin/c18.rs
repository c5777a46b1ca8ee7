//! C18: transposition swaps indices for every shape and element type.
use vecmat::{traits::Dot, Matrix};
use vh::{cont::Sym, elems::*, engine::*, ensure, ensure_eq, gen};

fn copy<T: Elem, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    let a: [[T; N]; M] = if c.s.chance(1, 3) {
        std::array::from_fn(|i| std::array::from_fn(|j| T::tag(i * N + j)))
    } else {
        gen::arr2(&mut c.s)
    };
    c.show(|| format!("{:?}", a));
    c.nontrivial(M * N < 2 || a.iter().flatten().any(|x| !x.same(&a[0][0])));
    let m = Matrix::from_array_of_arrays(a);
    let t: Matrix<T, N, M> = m.transpose();
    let b = *t.as_array_of_arrays();
    for j in 0..N {
        for i in 0..M {
            ensure!(b[j][i].same(&a[i][j]), "element ({}, {}) of the transpose is {:?}, original ({}, {}) is {:?}", j, i, b[j][i], i, j, a[i][j]);
        }
    }
    let r = *t.transpose().as_array_of_arrays();
    for i in 0..M {
        for j in 0..N {
            ensure!(r[i][j].same(&a[i][j]), "element ({}, {}) after transposing twice is {:?}, original {:?}", i, j, r[i][j], a[i][j]);
        }
    }
    // rows become columns
    for i in 0..M {
        let (p, q) = (m.row(i).into_array(), t.col(i).into_array());
        ensure!(p.iter().zip(&q).all(|(x, y)| x.same(y)), "row {} of the matrix is {:?}, column of the transpose {:?}", i, &p[..], &q[..]);
    }
    for j in 0..N {
        let (p, q) = (m.col(j).into_array(), t.row(j).into_array());
        ensure!(p.iter().zip(&q).all(|(x, y)| x.same(y)), "column {} of the matrix is {:?}, row of the transpose {:?}", j, &p[..], &q[..]);
    }
    Ok(())
}
/// Elements that own something: values, and exactly-once ownership.
fn own<T: Own, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    track::reset();
    let a: [[i64; N]; M] = std::array::from_fn(|i| std::array::from_fn(|j| c.s.zigzag(50) * 100 + (i * N + j) as i64));
    c.show(|| format!("{:?}", a));
    c.nontrivial(M * N > 1);
    let m: Matrix<T, M, N> = Matrix::from_array_of_arrays(a.map(|r| r.map(T::make)));
    let t = m.transpose();
    ensure_eq!(T::live(), (M * N) as i64, "live elements after transposing");
    let b = t.as_array_of_arrays();
    for i in 0..M {
        for j in 0..N {
            ensure_eq!(b[j][i].val(), T::obs(a[i][j]), "element ({}, {}) of the transpose", j, i);
        }
    }
    let r = t.transpose();
    for i in 0..M {
        for j in 0..N {
            ensure_eq!(r.as_array_of_arrays()[i][j].val(), T::obs(a[i][j]), "element ({}, {}) after transposing twice", i, j);
        }
    }
    drop(r);
    ensure_eq!(T::live(), 0, "live elements at the end");
    ensure!(track::errs().is_empty(), "{:?}", track::errs());
    Ok(())
}
fn strings<const M: usize, const N: usize>(c: &mut Cx) -> Res {
    let a: Vec<Vec<String>> = (0..M).map(|_| (0..N).map(|_| (0..c.s.below(30)).map(|_| char::any(&mut c.s)).collect()).collect()).collect();
    c.show(|| format!("{:?}", a));
    c.nontrivial(a.iter().flatten().any(|x| x.len() > 3));
    let m: Matrix<String, M, N> = Matrix::from_array_of_arrays(std::array::from_fn(|i| std::array::from_fn(|j| a[i][j].clone())));
    let t = m.transpose();
    for i in 0..M {
        for j in 0..N {
            ensure_eq!(t.as_array_of_arrays()[j][i], a[i][j], "element ({}, {}) of the transpose", j, i);
        }
    }
    Ok(())
}
fn product<const L: usize, const M: usize, const N: usize>(c: &mut Cx) -> Res {
    let a = Matrix::from_array_of_arrays(gen::structured::<F, L, M>(&mut c.s));
    let b = Matrix::from_array_of_arrays(gen::structured::<F, M, N>(&mut c.s));
    let x: [F; M] = gen::arr(&mut c.s);
    let x = vecmat::Vector::from(x);
    c.show(|| format!("{:?} {:?}", a, b));
    c.nontrivial(a.into_iter().filter(|x| x.raw() != 0).count() > 1);
    ensure_eq!(a.dot(b).transpose(), b.transpose().dot(a.transpose()), "transpose of the product");
    ensure_eq!(a.dot(x), x.dot(a.transpose()), "vector on the other side");
    ensure_eq!((a + a).transpose(), a.transpose() + a.transpose(), "transpose of a sum");
    Ok(())
}

fn main() {
    let mut p = Prop::new("C18", "the elements are not all equal (or there is only one)");
    macro_rules! all { ($(($m:literal $n:literal))*) => {$(
        let d = concat!($m, "x", $n);
        p.sub(format!("symbolic {}", d), 150, copy::<Sym, $m, $n>);
        p.sub(format!("u8 {}", d), 60, copy::<u8, $m, $n>);
        p.sub(format!("tracked {}", d), 60, own::<Tr, $m, $n>);
    )*}}
    all!((0 0)(0 1)(1 0)(0 3)(3 0)(1 1)(1 2)(2 1)(1 3)(3 1)(1 4)(4 1)(1 7)(7 1)(1 16)(16 1)(1 17)(19 1)(1 33)(2 17)(18 2)(5 9)(11 6)(7 13)(2 2)(2 3)(3 2)(2 4)(4 2)(2 5)(5 2)(3 3)(3 4)(4 3)
        (3 5)(5 3)(4 4)(4 5)(5 4)(4 6)(6 4)(4 7)(7 4)(4 8)(8 4)(2 8)(8 2)(5 5)(5 6)(6 5)(6 6)(7 7)(8 8)(9 9)(8 9)(3 11)(10 12)(12 10)(16 16)(17 17));
    p.sub("symbolic 40x37", 3, copy::<Sym, 40, 37>);
    p.sub("symbolic 300x2", 3, copy::<Sym, 300, 2>);
    p.sub("symbolic 2x300", 3, copy::<Sym, 2, 300>);
    p.sub("symbolic 33x32", 3, copy::<Sym, 33, 32>);
    p.sub("symbolic 65x65", 3, copy::<Sym, 65, 65>);
    p.sub("symbolic 1x257", 3, copy::<Sym, 1, 257>);
    p.sub("symbolic 257x1", 3, copy::<Sym, 257, 1>);
    p.sub("u8 130x129", 1, copy::<u8, 130, 129>);
    p.sub("u8 257x260", 1, copy::<u8, 257, 260>);
    p.sub("u8 1x257", 3, copy::<u8, 1, 257>);
    p.sub("u8 257x1", 3, copy::<u8, 257, 1>);
    p.sub("u8 3x67", 3, copy::<u8, 3, 67>);
    p.sub("three bytes 1x35", 20, copy::<[u8; 3], 1, 35>);
    p.sub("f64 21x1", 20, copy::<f64, 21, 1>);
    p.sub("320 bytes 1x19", 20, copy::<Big, 1, 19>);
    p.sub("320 bytes 9x7", 20, copy::<Big, 9, 7>);
    p.sub("u128 12x11", 20, copy::<u128, 12, 11>);
    p.sub("char 6x21", 20, copy::<char, 6, 21>);
    p.sub("over-aligned 17x2", 20, copy::<Al32, 17, 2>);
    p.sub("heap 1x18", 20, own::<Heap, 1, 18>);
    p.sub("heap 7x9", 20, own::<Heap, 7, 9>);
    p.sub("bulk tracked 8x8", 10, own::<Bulk, 8, 8>);
    p.sub("zero-sized 9x17", 10, own::<Zs, 9, 17>);
    p.sub("tracked 20x30", 3, own::<Tr, 20, 30>);
    macro_rules! some { ($(($m:literal $n:literal))*) => {$(
        let d = concat!($m, "x", $n);
        p.sub(format!("f64 {}", d), 80, copy::<f64, $m, $n>);
        p.sub(format!("u128 {}", d), 60, copy::<u128, $m, $n>);
        p.sub(format!("char {}", d), 60, copy::<char, $m, $n>);
        p.sub(format!("pair {}", d), 60, copy::<(u8, u32), $m, $n>);
        p.sub(format!("three bytes {}", d), 60, copy::<[u8; 3], $m, $n>);
        p.sub(format!("unit {}", d), 2, copy::<(), $m, $n>);
        p.sub(format!("over-aligned {}", d), 60, copy::<Al32, $m, $n>);
        p.sub(format!("320 bytes {}", d), 30, copy::<Big, $m, $n>);
        p.sub(format!("bulk tracked {}", d), 30, own::<Bulk, $m, $n>);
        p.sub(format!("heap {}", d), 60, own::<Heap, $m, $n>);
        p.sub(format!("over-aligned tracked {}", d), 60, own::<Wide, $m, $n>);
        p.sub(format!("zero-sized {}", d), 20, own::<Zs, $m, $n>);
        p.sub(format!("string {}", d), 60, strings::<$m, $n>);
    )*}}
    some!((0 2)(2 0)(1 1)(1 4)(4 1)(2 2)(2 3)(3 2)(3 3)(3 4)(4 3)(4 4)(2 5)(5 5)(6 4));
    macro_rules! prod { ($(($l:literal $m:literal $n:literal))*) => {$(
        p.sub(concat!("product ", $l, "x", $m, "x", $n), 150, product::<$l, $m, $n>);
    )*}}
    prod!((1 1 1)(2 2 2)(3 3 3)(4 4 4)(1 2 3)(3 2 1)(2 3 4)(4 2 3)(4 1 2)(1 4 1)(5 5 5)(2 6 5));
    macro_rules! every { ([$(($m:literal, $n:literal)),*]) => {$(
        p.sub(concat!("every shape ", $m, "x", $n), 8, copy::<u16, $m, $n>);
        p.sub(concat!("every shape, tracked ", $m, "x", $n), 3, own::<Tr, $m, $n>);
    )*}}
    vh::every_shape!(every!());
    p.main();
}
