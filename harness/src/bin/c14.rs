//! C14 Matrix arithmetic is exact for all shapes, and parallel equals sequential.
use ark_ff::{PrimeField, Zero};
use groth_sahai::data_structures::{col_vec_to_vec, vec_to_col_vec};
use groth_sahai::*;
use gsv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// left (m x k), right (k x n); the commitment matrices have the same shapes
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Case {
    m: u16,
    k: u16,
    n: u16,
    l: GamS,
    r: GamS,
    /// second component of commitment-group entries, and the summand
    o: GamS,
    by: Sc,
}
fn strat(max: u16, wide: bool) -> BoxedStrategy<Case> {
    let d = move || -> BoxedStrategy<u16> {
        prop_oneof![3 => Just(1u16), 6 => 1u16..=4, 3 => 1u16..=max].boxed()
    };
    let dims = if wide {
        let w = || prop_oneof![Just(63u16), Just(64), Just(65), Just(128), Just(129), 30u16..=100, 100u16..=520];
        prop_oneof![
            (w(), 1u16..=3, 1u16..=3),
            (1u16..=3, w(), 1u16..=3),
            (1u16..=3, 1u16..=3, w()),
            (20u16..=70, 2u16..=5, 20u16..=70),
        ]
        .boxed()
    } else {
        (d(), d(), d()).boxed()
    };
    (dims, gam(), gam(), gam(), sc())
        .prop_map(|((m, k, n), l, r, o, by)| Case { m, k, n, l, r, o, by })
        .boxed()
}
fn same<T: PartialEq>(what: &str, got: &Vec<Vec<T>>, rows: usize, cols: usize, want: impl Fn(usize, usize) -> T) -> Result<(), String> {
    if got.len() != rows || got.iter().any(|r| r.len() != cols) {
        return Err(format!("{what}: shape {}x{:?} instead of {rows}x{cols}", got.len(), got.first().map(|r| r.len())));
    }
    for i in 0..rows {
        for j in 0..cols {
            if got[i][j] != want(i, j) {
                return Err(format!("{what}: entry ({i},{j}) of {rows}x{cols} is wrong"));
            }
        }
    }
    Ok(())
}
fn labels(c: &Case, t: &mut Tally) {
    t.l(match (c.m, c.k, c.n) {
        (1, 1, 1) => "all dimensions 1",
        (1, _, 1) => "row times column",
        (_, 1, _) => "inner dimension 1",
        (1, _, _) => "row vector left",
        (_, _, 1) => "column vector right",
        _ => "general shape",
    });
    if c.m.max(c.k).max(c.n) > 60 {
        t.l("some dimension above 60");
    }
}

/// field matrices
fn field<F: PrimeField>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let (m, k, n) = (c.m as usize, c.k as usize, c.n as usize);
    let (a, b): (Matrix<F>, Matrix<F>) = (c.l.full(m, k), c.r.full(k, n));
    let o: Matrix<F> = c.o.full(m, k);
    let by: F = c.by.f();
    // reference: naive triple loop, computed once
    let mut p = vec![vec![F::zero(); n]; m];
    for i in 0..m {
        for q in 0..k {
            for j in 0..n {
                p[i][j] += a[i][q] * b[q][j];
            }
        }
    }
    for par in [false, true] {
        same(&format!("right_mul parallel={par}"), &a.right_mul(&b, par), m, n, |i, j| p[i][j])?;
        same(&format!("left_mul parallel={par}"), &b.left_mul(&a, par), m, n, |i, j| p[i][j])?;
        // transposed product
        let (at, bt) = (Mat::transpose(&a), Mat::transpose(&b));
        same(&format!("transposed product parallel={par}"), &bt.right_mul(&at, par), n, m, |i, j| p[j][i])?;
    }
    same("add", &Mat::add(&a, &o), m, k, |i, j| a[i][j] + o[i][j])?;
    same("add self", &Mat::add(&a, &a), m, k, |i, j| a[i][j].double())?;
    same("neg", &Mat::neg(&a), m, k, |i, j| -a[i][j])?;
    same("add neg", &Mat::add(&a, &Mat::neg(&a)), m, k, |_, _| F::zero())?;
    same("scalar_mul", &Mat::scalar_mul(&a, &by), m, k, |i, j| a[i][j] * by)?;
    same("transpose", &Mat::transpose(&a), k, m, |i, j| a[j][i])?;
    same("transpose transpose", &Mat::transpose(&Mat::transpose(&a)), m, k, |i, j| a[i][j])?;
    vectors(&a[0].clone(), &a.iter().map(|r| r[0]).collect::<Vec<_>>())?;
    labels(c, t);
    t.nt(p.iter().any(|r| r.iter().any(|z| !z.is_zero())));
    Ok(())
}
/// conversions between vectors and row / column matrices
fn vectors<T: Clone + PartialEq + std::fmt::Debug>(row: &Vec<T>, col: &Vec<T>) -> Result<(), String> {
    for v in [row, col] {
        let cm = vec_to_col_vec(v);
        if cm.len() != v.len() || cm.iter().any(|r| r.len() != 1) || (0..v.len()).any(|i| cm[i][0] != v[i]) {
            return Err(format!("vec_to_col_vec of length {}", v.len()));
        }
        if col_vec_to_vec(&cm) != *v {
            return Err(format!("col_vec_to_vec of a column of length {}", v.len()));
        }
        if col_vec_to_vec(&vec![v.clone()]) != *v {
            return Err(format!("col_vec_to_vec of a row of length {}", v.len()));
        }
    }
    Ok(())
}

macro_rules! com_mats {
    ($fname:ident, $T:ident, $mk:ident, $raw:expr) => {
        fn $fname<E: Eng>(c: &Case, bs: &Bases<E>) -> Result<bool, String> {
            let raw = $raw;
            let (m, k, n) = (c.m as usize, c.k as usize, c.n as usize);
            let pair = |s0: &GamS, s1: &GamS, r: usize, q: usize| -> Vec<Vec<P2<Fr<E>>>> {
                (0..r).map(|i| (0..q).map(|j| [s0.at(i, j, r, q), s1.at(i, j, r, q)]).collect()).collect()
            };
            let mk = |e: &Vec<Vec<P2<Fr<E>>>>| -> Matrix<$T<E>> { e.iter().map(|r| r.iter().map(|z| $mk(bs, *z)).collect()).collect() };
            let chk = |what: &str, got: &Matrix<$T<E>>, rows: usize, cols: usize, want: &dyn Fn(usize, usize) -> P2<Fr<E>>| {
                let g: Vec<Vec<_>> = got.iter().map(|r| r.iter().map(|z| raw(z)).collect()).collect();
                same(&format!("{} {what}", stringify!($T)), &g, rows, cols, |i, j| raw(&$mk(bs, want(i, j))))
            };
            let by: Fr<E> = c.by.f();
            // commitment-group matrix a (m x k) times field matrix b (k x n), and field matrix f (m x k) times a' (k x n)
            let ea = pair(&c.l, &c.o, m, k);
            let a = mk(&ea);
            let b: Matrix<Fr<E>> = c.r.full(k, n);
            let ea2 = pair(&c.r, &c.o, k, n);
            let a2 = mk(&ea2);
            let f: Matrix<Fr<E>> = c.l.full(m, k);
            let z = [Fr::<E>::zero(); 2];
            let mut pr = vec![vec![z; n]; m];
            let mut pl = vec![vec![z; n]; m];
            for i in 0..m {
                for q in 0..k {
                    for j in 0..n {
                        pr[i][j] = add2(pr[i][j], mul2(ea[i][q], b[q][j]));
                        pl[i][j] = add2(pl[i][j], mul2(ea2[q][j], f[i][q]));
                    }
                }
            }
            for par in [false, true] {
                chk(&format!("right_mul parallel={par}"), &a.right_mul(&b, par), m, n, &|i, j| pr[i][j])?;
                chk(&format!("left_mul parallel={par}"), &a2.left_mul(&f, par), m, n, &|i, j| pl[i][j])?;
            }
            let eo = pair(&c.o, &c.r, m, k);
            chk("add", &Mat::add(&a, &mk(&eo)), m, k, &|i, j| add2(ea[i][j], eo[i][j]))?;
            chk("add self", &Mat::add(&a, &a), m, k, &|i, j| add2(ea[i][j], ea[i][j]))?;
            chk("add neg", &Mat::add(&a, &Mat::neg(&a)), m, k, &|_, _| z)?;
            chk("neg", &Mat::neg(&a), m, k, &|i, j| sub2(z, ea[i][j]))?;
            chk("scalar_mul", &Mat::scalar_mul(&a, &by), m, k, &|i, j| mul2(ea[i][j], by))?;
            chk("transpose", &Mat::transpose(&a), k, m, &|i, j| ea[j][i])?;
            let row: Vec<_> = a[0].clone();
            let col: Vec<_> = a.iter().map(|r| r[0]).collect();
            vectors(&row, &col)?;
            Ok(pr.iter().any(|r| r.iter().any(|w| w[0] != z[0] && w[1] != z[0])))
        }
    };
}
com_mats!(mats1, Com1, com1, |c: &Com1<E>| [c.0, c.1]);
com_mats!(mats2, Com2, com2, |c: &Com2<E>| [c.0, c.1]);
fn coms<E: Eng>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let bs = Bases::<E>::std();
    let nt = mats1::<E>(c, &bs)? & mats2::<E>(c, &bs)?;
    labels(c, t);
    t.nt(nt);
    Ok(())
}

/// empty operands and incompatible dimensions
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Bad {
    m: u8,
    k: u8,
    k2: u8,
    n: u8,
    /// 0: [], otherwise that many empty rows
    empty: u8,
    par: bool,
    seed: u64,
}
fn bad_strat() -> BoxedStrategy<Bad> {
    (1u8..=6, 1u8..=6, 1u8..=6, 1u8..=6, 0u8..=3, any::<bool>(), any::<u64>())
        .prop_map(|(m, k, k2, n, empty, par, seed)| Bad { m, k, k2, n, empty, par, seed })
        .boxed()
}
fn bad<E: Eng>(c: &Bad, t: &mut Tally) -> Result<(), String> {
    let bs = Bases::<E>::std();
    let (m, k, k2, n) = (c.m as usize, c.k as usize, c.k2 as usize, c.n as usize);
    let g = |r: usize, q: usize, s: u64| -> Matrix<Fr<E>> { GamS::Dense(c.seed ^ s).full(r, q) };
    let m1 = |r, q, s| -> Matrix<Com1<E>> { g(r, q, s).iter().map(|w| w.iter().map(|z| com1(&bs, [*z, *z + *z])).collect()).collect() };
    let m2 = |r, q, s| -> Matrix<Com2<E>> { g(r, q, s).iter().map(|w| w.iter().map(|z| com2(&bs, [*z, *z + *z])).collect()).collect() };
    let par = c.par;
    fn none<T>() -> Vec<Vec<T>> {
        vec![]
    }
    fn emp<T>(n: u8) -> Vec<Vec<T>> {
        (0..n).map(|_| vec![]).collect()
    }
    let e = c.empty;
    // products with an empty operand
    let r = [
        ("field right_mul by empty", g(m, k, 1).right_mul(&emp(e), par) == none()),
        ("empty field right_mul", emp::<Fr<E>>(e).right_mul(&g(k, n, 2), par) == none()),
        ("field left_mul by empty", g(m, k, 1).left_mul(&emp(e), par) == none()),
        ("empty field left_mul", emp::<Fr<E>>(e).left_mul(&g(k, n, 2), par) == none()),
        ("Com1 right_mul by empty", m1(m, k, 1).right_mul(&emp(e), par) == none()),
        ("empty Com1 right_mul", emp::<Com1<E>>(e).right_mul(&g(k, n, 2), par) == none()),
        ("Com1 left_mul by empty", m1(m, k, 1).left_mul(&emp(e), par) == none()),
        ("empty Com1 left_mul", emp::<Com1<E>>(e).left_mul(&g(k, n, 2), par) == none()),
        ("Com2 right_mul by empty", m2(m, k, 1).right_mul(&emp(e), par) == none()),
        ("empty Com2 right_mul", emp::<Com2<E>>(e).right_mul(&g(k, n, 2), par) == none()),
        ("Com2 left_mul by empty", m2(m, k, 1).left_mul(&emp(e), par) == none()),
        ("empty Com2 left_mul", emp::<Com2<E>>(e).left_mul(&g(k, n, 2), par) == none()),
    ];
    if let Some((w, _)) = r.iter().find(|x| !x.1) {
        return Err(format!("{w}: not the empty matrix"));
    }
    if col_vec_to_vec(&vec_to_col_vec::<Fr<E>>(&[])).len() != 0 {
        return Err("empty vector conversion".into());
    }
    if k != k2 {
        let r = [
            ("field right_mul", refused(|| { g(m, k, 1).right_mul(&g(k2, n, 2), par); true })),
            ("field left_mul", refused(|| { g(k2, n, 2).left_mul(&g(m, k, 1), par); true })),
            ("Com1 right_mul", refused(|| { m1(m, k, 1).right_mul(&g(k2, n, 2), par); true })),
            ("Com1 left_mul", refused(|| { m1(k2, n, 2).left_mul(&g(m, k, 1), par); true })),
            ("Com2 right_mul", refused(|| { m2(m, k, 1).right_mul(&g(k2, n, 2), par); true })),
            ("Com2 left_mul", refused(|| { m2(k2, n, 2).left_mul(&g(m, k, 1), par); true })),
            ("field add (columns)", refused(|| { Mat::add(&g(m, k, 1), &g(m, k2, 2)); true })),
            ("field add (rows)", refused(|| { Mat::add(&g(k, m, 1), &g(k2, m, 2)); true })),
            ("Com1 add (columns)", refused(|| { Mat::add(&m1(m, k, 1), &m1(m, k2, 2)); true })),
            ("Com1 add (rows)", refused(|| { Mat::add(&m1(k, m, 1), &m1(k2, m, 2)); true })),
            ("Com2 add (columns)", refused(|| { Mat::add(&m2(m, k, 1), &m2(m, k2, 2)); true })),
            ("Com2 add (rows)", refused(|| { Mat::add(&m2(k, m, 1), &m2(k2, m, 2)); true })),
        ];
        if let Some((w, _)) = r.iter().find(|x| !x.1) {
            return Err(format!("{w}: operands of incompatible dimensions ({m},{k},{k2},{n}) are not refused"));
        }
        t.l(if k < k2 { "inner dimension too small" } else { "inner dimension too large" });
        t.nt(true);
    } else {
        t.l("empty operands only");
        t.nt(true);
    }
    Ok(())
}

fn main() {
    let mut r = Run::from_args(
        "C14",
        "matrices of every shape from 1x1 to 40 per side, plus shapes with one or two dimensions up to 520, with dense, sparse, structured, zero and \
         special entries; every operation against naive loops, sequential and parallel, in pools of one and three workers; empty operands and \
         incompatible dimensions; non-trivial: the product is not the zero matrix, respectively a refusal or an empty product was required",
    );
    r.section("field mid", 360000, 2160000, || strat(24, false), field::<Fr<Mid>>);
    r.section("field bls", 240000, 1440000, || strat(24, false), field::<Fr<Bls>>);
    r.section("field tiny5", 180000, 1080000, || strat(40, false), field::<Fr<T5>>);
    r.section("field wide", 48000, 288000, || strat(24, true), field::<Fr<Mid>>);
    r.section("coms mid", 24000, 144000, || strat(10, false), coms::<Mid>);
    r.section("coms tiny13", 96000, 576000, || strat(16, false), coms::<T13>);
    r.section("coms bls", 600, 3600, || strat(4, false), coms::<Bls>);
    r.section("coms wide", 3600, 21600, || strat(8, true), coms::<T13>);
    r.section("refusals", 60000, 360000, bad_strat, bad::<T13>);
    r.section("refusals bls", 200, 1200, bad_strat, bad::<Bls>);
    r.finish()
}
