//! C12 Commitment groups obey the abelian-group and scalar-module laws.
use ark_ff::{One, Zero};
use groth_sahai::*;
use gsv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// How the second operand relates to the first.
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
enum Rel {
    Free([Sc; 4]),
    Equal,
    Opposite,
    Double,
    Zero,
    /// equal except in the components of the mask, where the value is shifted
    Differs(u8, Sc),
    /// opposite except in the components of the mask
    OppDiffers(u8, Sc),
    /// the same components in another order
    Rotated(u8),
    /// only the components of the mask are kept, the others are identities
    Masked(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Case {
    first: [Sc; 4],
    mask: u8,
    rels: Vec<Rel>,
    ks: Vec<Sc>,
    /// what gets summed: indices into the operand list, with a sign
    sum: Vec<(u8, bool)>,
}
fn four() -> BoxedStrategy<[Sc; 4]> {
    [sc(), sc(), sc(), sc()].boxed()
}
fn rel() -> BoxedStrategy<Rel> {
    prop_oneof![
        4 => four().prop_map(Rel::Free),
        2 => Just(Rel::Equal),
        2 => Just(Rel::Opposite),
        1 => Just(Rel::Double),
        1 => Just(Rel::Zero),
        4 => (1u8..16, sc()).prop_map(|(m, s)| Rel::Differs(m, s)),
        3 => (1u8..16, sc()).prop_map(|(m, s)| Rel::OppDiffers(m, s)),
        2 => (1u8..4).prop_map(Rel::Rotated),
        2 => (0u8..16).prop_map(Rel::Masked),
    ]
    .boxed()
}
fn strat(maxsum: usize) -> BoxedStrategy<Case> {
    let idx = move || prop::collection::vec((any::<u8>(), any::<bool>()), 0..=9).boxed();
    let sums = prop_oneof![8 => idx(), 1 => prop::collection::vec((any::<u8>(), any::<bool>()), 0..=maxsum)];
    (four(), prop_oneof![5 => Just(15u8), 3 => 0u8..16], prop::collection::vec(rel(), 1..=3), scs(2, 3), sums)
        .prop_map(|(first, mask, rels, ks, sum)| Case { first, mask, rels, ks, sum })
        .boxed()
}
type V<F> = Vec<F>;
impl Case {
    /// the operands, `n` exponents each
    fn ops<F: ark_ff::PrimeField>(&self, n: usize) -> Vec<V<F>> {
        let on = |m: u8, i: usize| m & (1 << i) != 0;
        let a: V<F> = (0..n).map(|i| if on(self.mask, i) { self.first[i].f() } else { F::zero() }).collect();
        let mut out = vec![a.clone()];
        for r in &self.rels {
            out.push(
                (0..n)
                    .map(|i| match r {
                        Rel::Free(v) => v[i].f(),
                        Rel::Equal => a[i],
                        Rel::Opposite => -a[i],
                        Rel::Double => a[i] + a[i],
                        Rel::Zero => F::zero(),
                        Rel::Differs(m, s) => if on(*m, i) { a[i] + s.nz::<F>() } else { a[i] },
                        Rel::OppDiffers(m, s) => if on(*m, i) { s.nz::<F>() - a[i] } else { -a[i] },
                        Rel::Rotated(k) => a[(i + *k as usize) % n],
                        Rel::Masked(m) => if on(*m, i) { a[i] } else { F::zero() },
                    })
                    .collect(),
            );
        }
        out
    }
}
fn vadd<F: ark_ff::PrimeField>(a: &V<F>, b: &V<F>) -> V<F> {
    a.iter().zip(b).map(|(x, y)| *x + y).collect()
}
fn vsub<F: ark_ff::PrimeField>(a: &V<F>, b: &V<F>) -> V<F> {
    a.iter().zip(b).map(|(x, y)| *x - y).collect()
}
fn vmul<F: ark_ff::PrimeField>(a: &V<F>, k: F) -> V<F> {
    a.iter().map(|x| *x * k).collect()
}

macro_rules! group_laws {
    ($fname:ident, $T:ident, $n:expr, $mk:expr, $raw:expr) => {
        fn $fname<E: Eng>(c: &Case, bs: &Bases<E>) -> Result<(), String> {
            let mk = $mk;
            let raw = $raw;
            let es = c.ops::<Fr<E>>($n);
            let xs: Vec<$T<E>> = es.iter().map(|e| mk(bs, e)).collect();
            // compares raw components, not the library's equality
            let is = |what: &str, got: $T<E>, want: V<Fr<E>>| -> Result<(), String> {
                if raw(&got) == raw(&mk(bs, &want)) {
                    Ok(())
                } else {
                    Err(format!("{} {what}: wrong value on {}", stringify!($T), E::NAME))
                }
            };
            let zero = vec![Fr::<E>::zero(); $n];
            is("zero()", $T::<E>::zero(), zero.clone())?;
            for (x, ex) in xs.iter().zip(&es) {
                let allz = ex.iter().all(|z| z.is_zero());
                if x.is_zero() != allz {
                    return Err(format!("{} is_zero says {}", stringify!($T), !allz));
                }
                is("neg", -*x, vmul(ex, -Fr::<E>::one()))?;
                is("neg neg", -(-*x), ex.clone())?;
                is("x + 0", *x + $T::<E>::zero(), ex.clone())?;
                is("0 + x", $T::<E>::zero() + *x, ex.clone())?;
                is("x - 0", *x - $T::<E>::zero(), ex.clone())?;
                is("0 - x", $T::<E>::zero() - *x, vmul(ex, -Fr::<E>::one()))?;
                is("x + x", *x + *x, vadd(ex, ex))?;
                is("x - x", *x - *x, zero.clone())?;
                is("x + -x", *x + -*x, zero.clone())?;
                let mut w = *x;
                w.set_zero();
                is("set_zero", w, zero.clone())?;
                for (y, ey) in xs.iter().zip(&es) {
                    is("x + y", *x + *y, vadd(ex, ey))?;
                    is("x - y", *x - *y, vsub(ex, ey))?;
                    let mut z = *x;
                    z += *y;
                    is("x += y", z, vadd(ex, ey))?;
                    let mut z = *x;
                    z -= *y;
                    is("x -= y", z, vsub(ex, ey))?;
                    let same = ex == ey;
                    if (*x == *y) != same || (*x != *y) == same {
                        return Err(format!("{} equality: components equal: {same}, == says {}", stringify!($T), *x == *y));
                    }
                    for (z, ez) in xs.iter().zip(&es).take(2) {
                        is("(x + y) + z", (*x + *y) + *z, vadd(&vadd(ex, ey), ez))?;
                        is("x + (y - z)", *x + (*y - *z), vsub(&vadd(ex, ey), ez))?;
                    }
                }
            }
            let (mut terms, mut want) = (vec![], zero.clone());
            for (k, neg) in &c.sum {
                let k = *k as usize % xs.len();
                terms.push(if *neg { mk(bs, &vmul(&es[k], -Fr::<E>::one())) } else { xs[k] });
                want = if *neg { vsub(&want, &es[k]) } else { vadd(&want, &es[k]) };
            }
            is("sum", terms.iter().copied().sum::<$T<E>>(), want.clone())?;
            is("fold", terms.iter().fold($T::<E>::zero(), |a, b| a + *b), want.clone())?;
            let mut acc = $T::<E>::zero();
            for b in terms.iter().rev() {
                acc += *b;
            }
            is("accumulated", acc, want)?;
            Ok(())
        }
    };
}
group_laws!(laws1, Com1, 2, |bs: &Bases<E>, e: &V<Fr<E>>| com1(bs, [e[0], e[1]]), |c: &Com1<E>| [c.0, c.1]);
group_laws!(laws2, Com2, 2, |bs: &Bases<E>, e: &V<Fr<E>>| com2(bs, [e[0], e[1]]), |c: &Com2<E>| [c.0, c.1]);
group_laws!(
    lawst,
    ComT,
    4,
    |bs: &Bases<E>, e: &V<Fr<E>>| ComT::<E>(bs.gt(e[0]), bs.gt(e[1]), bs.gt(e[2]), bs.gt(e[3])),
    |c: &ComT<E>| [c.0, c.1, c.2, c.3]
);

fn module_laws<E: Eng>(c: &Case, bs: &Bases<E>) -> Result<(), String> {
    let mut ks: Vec<Fr<E>> = fs(&c.ks);
    ks.extend([Fr::<E>::zero(), Fr::<E>::one(), -Fr::<E>::one()]);
    let es = c.ops::<Fr<E>>(2);
    for e in &es {
        let (p, q) = (com1(bs, [e[0], e[1]]), com2(bs, [e[0], e[1]]));
        for k in &ks {
            let w = [e[0] * k, e[1] * k];
            let r = B1::<E>::scalar_mul(&p, k);
            if [r.0, r.1] != [bs.g1(w[0]), bs.g1(w[1])] {
                return Err(format!("Com1 scalar_mul on {}", E::NAME));
            }
            let r = B2::<E>::scalar_mul(&q, k);
            if [r.0, r.1] != [bs.g2(w[0]), bs.g2(w[1])] {
                return Err(format!("Com2 scalar_mul on {}", E::NAME));
            }
        }
        let (k, l) = (ks[0], ks[1]);
        let (m1, m2) = (|p: &Com1<E>, k: Fr<E>| B1::<E>::scalar_mul(p, &k), |p: &Com2<E>, k: Fr<E>| B2::<E>::scalar_mul(p, &k));
        let o = &es[es.len() - 1];
        let (p2, q2) = (com1(bs, [o[0], o[1]]), com2(bs, [o[0], o[1]]));
        let ok = m1(&p, k + l) == m1(&p, k) + m1(&p, l)
            && m1(&p, k * l) == m1(&m1(&p, k), l)
            && m1(&(p + p2), k) == m1(&p, k) + m1(&p2, k)
            && m1(&-p, k) == -m1(&p, k)
            && m2(&q, k + l) == m2(&q, k) + m2(&q, l)
            && m2(&q, k * l) == m2(&m2(&q, k), l)
            && m2(&(q + q2), k) == m2(&q, k) + m2(&q2, k)
            && m2(&-q, k) == -m2(&q, k);
        if !ok {
            return Err(format!("module law on {}", E::NAME));
        }
    }
    Ok(())
}

fn conversions<E: Eng>(c: &Case, bs: &Bases<E>) -> Result<(), String> {
    for e in c.ops::<Fr<E>>(4) {
        let (p0, p1) = (bs.g1(e[0]), bs.g1(e[1]));
        let p = Com1::<E>(p0, p1);
        if B1::<E>::as_vec(&p) != vec![p0, p1] || B1::<E>::as_col_vec(&p) != vec![vec![p0], vec![p1]] {
            return Err("Com1 to vector".into());
        }
        let b = Com1::<E>::from(vec![vec![p0], vec![p1]]);
        if b.0 != p0 || b.1 != p1 {
            return Err("Com1 from column".into());
        }
        let (q0, q1) = (bs.g2(e[0]), bs.g2(e[1]));
        let q = Com2::<E>(q0, q1);
        if B2::<E>::as_vec(&q) != vec![q0, q1] || B2::<E>::as_col_vec(&q) != vec![vec![q0], vec![q1]] {
            return Err("Com2 to vector".into());
        }
        let b = Com2::<E>::from(vec![vec![q0], vec![q1]]);
        if b.0 != q0 || b.1 != q1 {
            return Err("Com2 from column".into());
        }
        let z: Vec<Gt<E>> = e.iter().map(|k| bs.gt(*k)).collect();
        let w = ComT::<E>(z[0], z[1], z[2], z[3]);
        let mat = vec![vec![z[0], z[1]], vec![z[2], z[3]]];
        if w.as_matrix() != mat {
            return Err("ComT to matrix".into());
        }
        let b = ComT::<E>::from(mat);
        if [b.0, b.1, b.2, b.3] != [z[0], z[1], z[2], z[3]] {
            return Err("ComT from matrix".into());
        }
    }
    Ok(())
}

fn check<E: Eng>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let bs = Bases::<E>::std();
    laws1::<E>(c, &bs)?;
    laws2::<E>(c, &bs)?;
    lawst::<E>(c, &bs)?;
    module_laws::<E>(c, &bs)?;
    conversions::<E>(c, &bs)?;
    for r in &c.rels {
        t.l(match r {
            Rel::Free(_) => "free",
            Rel::Equal => "equal",
            Rel::Opposite => "opposite",
            Rel::Double => "double",
            Rel::Zero => "zero",
            Rel::Differs(..) => "equal but for some components",
            Rel::OppDiffers(..) => "opposite but for some components",
            Rel::Rotated(_) => "rotated",
            Rel::Masked(_) => "masked",
        });
    }
    t.l(match c.sum.len() {
        0 => "empty sum",
        1 => "sum of one",
        2..=9 => "sum of 2-9",
        _ => "long sum",
    });
    t.nt(c.ops::<Fr<E>>(4)[0].iter().any(|z| !z.is_zero()));
    Ok(())
}

/// every pair of elements of the three groups, in a tiny group
fn all_pairs<E: Eng>(first: &u32, t: &mut Tally) -> Result<(), String> {
    let bs = Bases::<E>::std();
    let q: u64 = 3;
    let dec = |mut k: u64, n: usize| -> V<Fr<E>> {
        (0..n)
            .map(|_| {
                let d = k % q;
                k /= q;
                Fr::<E>::from(d)
            })
            .collect()
    };
    let ct = |e: &V<Fr<E>>| ComT::<E>(bs.gt(e[0]), bs.gt(e[1]), bs.gt(e[2]), bs.gt(e[3]));
    let a = dec(*first as u64, 4);
    let x = ct(&a);
    for k in 0..q.pow(4) {
        let b = dec(k, 4);
        let y = ct(&b);
        let (s, d) = (x + y, x - y);
        let (ws, wd) = (ct(&vadd(&a, &b)), ct(&vsub(&a, &b)));
        if s.as_matrix() != ws.as_matrix() || d.as_matrix() != wd.as_matrix() || (x == y) != (a == b) {
            return Err(format!("ComT arithmetic on {a:?} and {b:?}"));
        }
        if a[2].is_zero() && a[3].is_zero() && k < q * q {
            let (p1, p2) = (com1(&bs, [a[0], a[1]]), com1(&bs, [b[0], b[1]]));
            let (r1, r2) = (com2(&bs, [a[0], a[1]]), com2(&bs, [b[0], b[1]]));
            let (s, d) = (vadd(&a, &b), vsub(&a, &b));
            let (sp, dp, sr, dr) = (p1 + p2, p1 - p2, r1 + r2, r1 - r2);
            if [sp.0, sp.1, dp.0, dp.1] != [bs.g1(s[0]), bs.g1(s[1]), bs.g1(d[0]), bs.g1(d[1])]
                || [sr.0, sr.1, dr.0, dr.1] != [bs.g2(s[0]), bs.g2(s[1]), bs.g2(d[0]), bs.g2(d[1])]
                || (p1 == p2) != (a == b)
                || (r1 == r2) != (a == b)
            {
                return Err(format!("Com arithmetic on {a:?} and {b:?}"));
            }
        }
    }
    t.inner(q.pow(4));
    t.nt(*first != 0);
    Ok(())
}

fn main() {
    let mut r = Run::from_args(
        "C12",
        "two to four operands per case (free, equal, opposite, doubled, identity, equal or opposite but for a set of components, rotated, \
         partly identity), all operators, assigning forms, equality, scalar multiplication, conversions, sums of 0 to 200 signed terms, \
         compared component-wise with exponent arithmetic; non-trivial: first operand not the identity",
    );
    r.section("mid", 36000, 216000, || strat(200), check::<Mid>);
    r.section("tiny13", 80000, 480000, || strat(120), check::<T13>);
    r.section("bls", 350, 2500, || strat(30), check::<Bls>);
    r.fixed("all pairs tiny3", (0..81u32).collect(), all_pairs::<T3>);
    r.finish()
}
