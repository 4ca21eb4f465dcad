//! Generated inputs as plain, serialisable, shrinkable data, independent of the engine.

use crate::model::*;
use ark_ff::PrimeField;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A scalar / exponent.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Sc {
    /// small signed integer
    S(i32),
    /// +-2^k
    P(i16),
    /// (r-1)/2 + small
    H(i8),
    /// full-size pseudo-random element named by a seed (equal seeds = equal values)
    W(u64),
    /// 64-bit limbs, each 0, 1, all ones, the top bit, or pseudo-random (base-5 digits of the first number)
    L(u16, u64),
    /// a relative of W(s): negative, double, inverse, successor, square, negative inverse
    R(u8, u64),
}

impl Sc {
    pub fn f<F: PrimeField>(&self) -> F {
        match self {
            Sc::S(v) => {
                let a = F::from(v.unsigned_abs());
                if *v < 0 {
                    -a
                } else {
                    a
                }
            }
            Sc::P(k) => {
                let a = F::from(2u64).pow([k.unsigned_abs() as u64]);
                if *k < 0 {
                    -a
                } else {
                    a
                }
            }
            Sc::H(d) => {
                // (r-1)/2 = -1/2
                let half = -F::from(2u64).inverse().unwrap();
                half + Sc::S(*d as i32).f::<F>()
            }
            Sc::W(s) => crate::eng::field_from_seed(*s),
            Sc::L(p, s) => {
                let mut h = *s;
                let mut b = vec![];
                let mut p = *p as usize;
                for _ in 0..4 {
                    let r = crate::eng::splitmix(&mut h);
                    b.extend([0, 1, u64::MAX, 1 << 63, r][p % 5].to_le_bytes());
                    p /= 5;
                }
                F::from_le_bytes_mod_order(&b)
            }
            Sc::R(k, s) => {
                let w: F = crate::eng::field_from_seed(*s);
                match k % 6 {
                    0 => -w,
                    1 => w.double(),
                    2 => w.inverse().unwrap_or(F::zero()),
                    3 => w + F::one(),
                    4 => w.square(),
                    _ => -w.inverse().unwrap_or(F::zero()),
                }
            }
        }
    }
    /// as above, but never zero
    pub fn nz<F: PrimeField>(&self) -> F {
        let v: F = self.f();
        if v.is_zero() {
            F::one()
        } else {
            v
        }
    }
}

pub fn sc() -> BoxedStrategy<Sc> {
    prop_oneof![
        2 => Just(Sc::S(0)),
        1 => Just(Sc::S(1)),
        1 => Just(Sc::S(-1)),
        3 => (-9i32..=9).prop_map(Sc::S),
        1 => (-70000i32..70000).prop_map(Sc::S),
        1 => (-260i16..260).prop_map(Sc::P),
        1 => (-3i8..3).prop_map(Sc::H),
        3 => (0u64..6).prop_map(Sc::W),
        1 => (0u8..6, 0u64..6).prop_map(|(k, s)| Sc::R(k, s)),
        2 => (0u16..625, any::<u64>()).prop_map(|(p, s)| Sc::L(p, s)),
        8 => any::<u64>().prop_map(Sc::W),
    ]
    .boxed()
}
pub fn scs(lo: usize, hi: usize) -> BoxedStrategy<Vec<Sc>> {
    prop::collection::vec(sc(), lo..=hi).boxed()
}
pub fn fs<F: PrimeField>(v: &[Sc]) -> Vec<F> {
    v.iter().map(|s| s.f()).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum GamS {
    Zero,
    Dense(u64),
    /// entries taken cyclically from a list, row by row
    Cyc(Vec<Sc>),
    Diag(Sc),
    One(u16, u16, Sc),
    Row(u16, u64),
    Col(u16, u64),
    Sparse(u64, u8),
    /// rank one
    Outer(u64),
}
impl GamS {
    pub fn at<F: PrimeField>(&self, i: usize, j: usize, m: usize, n: usize) -> F {
        let cell = |seed: u64| crate::eng::field_from_seed::<F>(seed ^ ((i as u64) << 32) ^ ((j as u64) << 8) ^ 0x1357);
        let z = F::zero();
        match self {
            GamS::Zero => z,
            GamS::Dense(s) => cell(*s),
            GamS::Cyc(v) => {
                if v.is_empty() {
                    z
                } else {
                    v[(i * n + j) % v.len()].f()
                }
            }
            GamS::Diag(s) => {
                if i == j {
                    s.f()
                } else {
                    z
                }
            }
            GamS::One(p, q, s) => {
                if i == (*p as usize) % m && j == (*q as usize) % n {
                    s.f()
                } else {
                    z
                }
            }
            GamS::Row(p, s) => {
                if i == (*p as usize) % m {
                    cell(*s)
                } else {
                    z
                }
            }
            GamS::Col(p, s) => {
                if j == (*p as usize) % n {
                    cell(*s)
                } else {
                    z
                }
            }
            GamS::Sparse(s, d) => {
                let mut h = *s ^ ((i as u64) << 20) ^ (j as u64);
                if (crate::eng::splitmix(&mut h) & 0xff) as u8 <= *d {
                    cell(*s)
                } else {
                    z
                }
            }
            GamS::Outer(s) => {
                crate::eng::field_from_seed::<F>(s ^ i as u64) * crate::eng::field_from_seed::<F>(!s ^ j as u64)
            }
        }
    }
    pub fn full<F: PrimeField>(&self, m: usize, n: usize) -> Vec<Vec<F>> {
        (0..m).map(|i| (0..n).map(|j| self.at(i, j, m, n)).collect()).collect()
    }
}
pub fn gam() -> BoxedStrategy<GamS> {
    prop_oneof![
        1 => Just(GamS::Zero),
        6 => any::<u64>().prop_map(GamS::Dense),
        5 => scs(1, 9).prop_map(GamS::Cyc),
        1 => sc().prop_map(GamS::Diag),
        2 => (any::<u16>(), any::<u16>(), sc()).prop_map(|(a, b, c)| GamS::One(a, b, c)),
        1 => (any::<u16>(), any::<u64>()).prop_map(|(a, b)| GamS::Row(a, b)),
        1 => (any::<u16>(), any::<u64>()).prop_map(|(a, b)| GamS::Col(a, b)),
        2 => (any::<u64>(), any::<u8>()).prop_map(|(a, b)| GamS::Sparse(a, b)),
        1 => any::<u64>().prop_map(GamS::Outer),
    ]
    .boxed()
}

/// An equation with a witness; the target is the value at the witness plus `off`.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct EqS {
    pub ty: u8,
    /// (x_i, b_i)
    pub rows: Vec<(Sc, Sc)>,
    /// (y_j, a_j)
    pub cols: Vec<(Sc, Sc)>,
    pub gam: GamS,
}
impl EqS {
    pub fn ty(&self) -> Ty {
        Ty::of(self.ty)
    }
    pub fn m(&self) -> usize {
        self.rows.len()
    }
    pub fn n(&self) -> usize {
        self.cols.len()
    }
    pub fn x<F: PrimeField>(&self) -> Vec<F> {
        self.rows.iter().map(|r| r.0.f()).collect()
    }
    pub fn y<F: PrimeField>(&self) -> Vec<F> {
        self.cols.iter().map(|r| r.0.f()).collect()
    }
    /// the satisfied model equation
    pub fn eq<F: PrimeField>(&self) -> MEq<F> {
        let mut e = MEq {
            ty: self.ty(),
            a: self.cols.iter().map(|c| c.1.f()).collect(),
            b: self.rows.iter().map(|c| c.1.f()).collect(),
            g: self.gam.full(self.m(), self.n()),
            t: F::zero(),
        };
        e.t = e.lhs(&self.x(), &self.y());
        e
    }
    /// at least one non-zero coefficient or constant and a non-zero variable
    pub fn nontrivial<F: PrimeField>(&self) -> bool {
        let e = self.eq::<F>();
        let nz = |v: &Vec<F>| v.iter().any(|z| !z.is_zero());
        (nz(&e.a) || nz(&e.b) || e.g.iter().any(nz)) && (nz(&self.x()) || nz(&self.y()))
    }
    pub fn dim_label(&self) -> &'static str {
        match self.m().max(self.n()) {
            0..=1 => "dim 1x1",
            2..=3 => "dim max 2-3",
            4..=8 => "dim max 4-8",
            9..=32 => "dim max 9-32",
            33..=64 => "dim max 33-64",
            _ => "dim max 65+",
        }
    }
}

/// size profile of generated equations
#[derive(Clone, Copy)]
pub enum Size {
    /// exhaustive-friendly
    Tiny,
    /// BLS12-381
    Small,
    /// cheap engines: also tens to hundreds of variables
    Big,
    /// explicit bounds
    Max(usize),
    /// one side with hundreds of variables
    Wide,
}
fn dim(sz: Size) -> BoxedStrategy<std::ops::RangeInclusive<usize>> {
    match sz {
        Size::Tiny => prop_oneof![3 => Just(1..=1), 2 => Just(1..=2), 1 => Just(1..=3)].boxed(),
        Size::Small => prop_oneof![10 => Just(1..=3), 4 => Just(2..=5), 1 => Just(6..=10)].boxed(),
        Size::Big => prop_oneof![20 => Just(1..=4), 10 => Just(3..=9), 5 => Just(9..=20), 2 => Just(21..=48)].boxed(),
        Size::Max(k) => Just(1..=k).boxed(),
        Size::Wide => Just(1..=2).boxed(),
    }
}
pub fn eqs_ty(ty: Option<u8>, sz: Size) -> BoxedStrategy<EqS> {
    let t = match ty {
        Some(k) => (k..=k).boxed(),
        None => (0u8..4).boxed(),
    };
    let base = (dim(sz), dim(sz))
        .prop_flat_map(|(r, c)| {
            (
                prop::collection::vec((sc(), sc()), r),
                prop::collection::vec((sc(), sc()), c),
            )
        })
        .boxed();
    let rc = match sz {
        // one long side, or a product of moderate ones
        Size::Big => prop_oneof![
            30 => base,
            1 => (prop::collection::vec((sc(), sc()), 49..=140usize), prop::collection::vec((sc(), sc()), 1..=3usize)),
            1 => (prop::collection::vec((sc(), sc()), 1..=3usize), prop::collection::vec((sc(), sc()), 49..=140usize)),
        ]
        .boxed(),
        Size::Wide => {
            let long = || prop_oneof![Just(64..=66usize), Just(126..=130), Just(250..=260), Just(100..=700), Just(1020..=1030)];
            let lv = move || long().prop_flat_map(|r| prop::collection::vec((sc(), sc()), r));
            prop_oneof![
                (lv(), prop::collection::vec((sc(), sc()), 1..=3usize)),
                (prop::collection::vec((sc(), sc()), 1..=3usize), lv()),
            ]
            .boxed()
        }
        _ => base,
    };
    (t, rc, gam())
        .prop_map(|(ty, (rows, cols), gam)| EqS { ty, rows, cols, gam })
        .boxed()
}
pub fn eqs(sz: Size) -> BoxedStrategy<EqS> {
    eqs_ty(None, sz)
}

/// Key specification.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum CrsS {
    /// through `generate_crs` with this randomness seed
    Gen(u64),
    /// binding key with exponents p1,a1,t1,p2,a2,t2
    Bind([Sc; 6]),
    /// hiding key with the same exponents
    Hide([Sc; 6]),
    /// arbitrary (possibly degenerate) group elements: g1, g2, u (4), v (4)
    Arb(Vec<Sc>),
}
fn six() -> BoxedStrategy<[Sc; 6]> {
    [sc(), sc(), sc(), sc(), sc(), sc()].boxed()
}
pub fn crs_bind() -> BoxedStrategy<CrsS> {
    six().prop_map(CrsS::Bind).boxed()
}
pub fn crs_hide() -> BoxedStrategy<CrsS> {
    six().prop_map(CrsS::Hide).boxed()
}
pub fn crs_gen() -> BoxedStrategy<CrsS> {
    any::<u64>().prop_map(CrsS::Gen).boxed()
}
pub fn crs_arb() -> BoxedStrategy<CrsS> {
    scs(10, 10).prop_map(CrsS::Arb).boxed()
}
/// keys a caller may legitimately hold
pub fn crs_any() -> BoxedStrategy<CrsS> {
    prop_oneof![3 => crs_gen(), 3 => crs_bind(), 3 => crs_hide()].boxed()
}
/// keys whose exponents are known by construction
pub fn crs_known() -> BoxedStrategy<CrsS> {
    prop_oneof![1 => crs_bind(), 1 => crs_hide()].boxed()
}
/// binding keys
pub fn crs_binding() -> BoxedStrategy<CrsS> {
    prop_oneof![1 => crs_gen(), 2 => crs_bind()].boxed()
}

/// randomness stream of the caller
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct RngS {
    pub seed: u64,
    /// the first `zeros` words of the stream are zero
    pub zeros: u8,
}
impl RngS {
    pub fn rng(&self) -> crate::eng::TapeRng {
        crate::eng::TapeRng::with_zeros(self.seed, self.zeros as u32)
    }
}
pub fn rngs() -> BoxedStrategy<RngS> {
    (any::<u64>(), prop_oneof![6 => Just(0u8), 1 => 1u8..=16, 1 => 17u8..=96])
        .prop_map(|(seed, zeros)| RngS { seed, zeros })
        .boxed()
}
pub fn rngs_plain() -> BoxedStrategy<RngS> {
    any::<u64>().prop_map(|seed| RngS { seed, zeros: 0 }).boxed()
}
