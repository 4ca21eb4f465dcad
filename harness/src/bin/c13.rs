//! C13 Pairing is bilinear and all inclusion maps commute with it.
use ark_ff::{One, Zero};
use groth_sahai::*;
use gsv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn ct<E: Eng>(bs: &Bases<E>, e: P4<Fr<E>>) -> ComT<E> {
    ComT(bs.gt(e[0]), bs.gt(e[1]), bs.gt(e[2]), bs.gt(e[3]))
}
fn is_t<E: Eng>(bs: &Bases<E>, what: &str, got: ComT<E>, want: P4<Fr<E>>) -> Result<(), String> {
    let w = ct(bs, want);
    let bad: Vec<usize> = [got.0 == w.0, got.1 == w.1, got.2 == w.2, got.3 == w.3].iter().enumerate().filter(|x| !*x.1).map(|x| x.0).collect();
    if bad.is_empty() {
        Ok(())
    } else {
        Err(format!("{what} on {}: components {bad:?} are wrong", E::NAME))
    }
}
fn is_1<E: Eng>(bs: &Bases<E>, what: &str, got: &Com1<E>, want: P2<Fr<E>>) -> Result<(), String> {
    if got.0 == bs.g1(want[0]) && got.1 == bs.g1(want[1]) {
        Ok(())
    } else {
        Err(format!("{what} on {}: wrong value", E::NAME))
    }
}
fn is_2<E: Eng>(bs: &Bases<E>, what: &str, got: &Com2<E>, want: P2<Fr<E>>) -> Result<(), String> {
    if got.0 == bs.g2(want[0]) && got.1 == bs.g2(want[1]) {
        Ok(())
    } else {
        Err(format!("{what} on {}: wrong value", E::NAME))
    }
}

/// lists of pairs to be paired
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct PairCase {
    xs: Vec<[Sc; 2]>,
    ys: Vec<[Sc; 2]>,
    ks: [Sc; 2],
    /// terms made to cancel the previous one, by index
    cancel: Vec<bool>,
}
fn pair_strat(wide: bool) -> BoxedStrategy<PairCase> {
    let n = if wide { prop_oneof![Just(1usize..=40), Just(60..=70), Just(100..=300)].boxed() } else { prop_oneof![6 => Just(0usize..=3), 3 => Just(0..=8), 1 => Just(9..=20)].boxed() };
    n.prop_flat_map(|r| prop::collection::vec(([sc(), sc()], [sc(), sc()], prop::bool::weighted(0.1)), r))
        .prop_flat_map(|v| (Just(v), [sc(), sc()]))
        .prop_map(|(v, ks)| PairCase {
            xs: v.iter().map(|t| t.0.clone()).collect(),
            ys: v.iter().map(|t| t.1.clone()).collect(),
            cancel: v.iter().map(|t| t.2).collect(),
            ks,
        })
        .boxed()
}
fn pairs<E: Eng>(c: &PairCase, t: &mut Tally) -> Result<(), String> {
    let bs = Bases::<E>::std();
    let p2 = |s: &[Sc; 2]| -> P2<Fr<E>> { [s[0].f(), s[1].f()] };
    let mut ex: Vec<_> = c.xs.iter().map(p2).collect();
    let mut ey: Vec<_> = c.ys.iter().map(p2).collect();
    for i in 1..ex.len() {
        if c.cancel[i] {
            ex[i] = mul2(ex[i - 1], -Fr::<E>::one());
            ey[i] = ey[i - 1];
        }
    }
    let (xs, ys) = (com1s(&bs, &ex), com2s(&bs, &ey));
    let mut want = [Fr::<E>::zero(); 4];
    for i in 0..ex.len() {
        want = add4(want, outer(ex[i], ey[i]));
        if i < 4 {
            is_t(&bs, "pairing", ComT::pairing(xs[i], ys[i]), outer(ex[i], ey[i]))?;
        }
    }
    is_t(&bs, "pairing_sum", ComT::pairing_sum(&xs, &ys), want)?;
    t.l(match xs.len() {
        0 => "empty lists",
        1 => "one pair",
        2..=3 => "2-3 pairs",
        4..=20 => "4-20 pairs",
        _ => "more than 20 pairs",
    });
    t.nt(want.iter().any(|z| !z.is_zero()));
    if xs.len() > 0 {
        // bilinearity, through the library's own group operations
        let (k, l): (Fr<E>, Fr<E>) = (c.ks[0].f(), c.ks[1].f());
        let (i, j) = (0, xs.len() - 1);
        let kx = B1::<E>::scalar_mul(&xs[i], &k);
        let ly = B2::<E>::scalar_mul(&ys[i], &l);
        let sc4 = |z: P4<Fr<E>>, k: Fr<E>| z.map(|v| v * k);
        is_t(&bs, "pairing(kx, ly)", ComT::pairing(kx, ly), sc4(outer(ex[i], ey[i]), k * l))?;
        is_t(&bs, "pairing(x + x', y)", ComT::pairing(xs[i] + xs[j], ys[j]), outer(add2(ex[i], ex[j]), ey[j]))?;
        is_t(&bs, "pairing(x, y + y')", ComT::pairing(xs[i], ys[i] + ys[j]), outer(ex[i], add2(ey[i], ey[j])))?;
        is_t(&bs, "pairing(-x, y)", ComT::pairing(-xs[i], ys[i]), sc4(outer(ex[i], ey[i]), -Fr::<E>::one()))?;
        is_t(&bs, "pairing(x, 0)", ComT::pairing(xs[i], Com2::zero()), [Fr::<E>::zero(); 4])?;
        is_t(&bs, "pairing(0, y)", ComT::pairing(Com1::zero(), ys[i]), [Fr::<E>::zero(); 4])?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct MapCase {
    crs: CrsS,
    xs: Vec<Sc>,
    ys: Vec<Sc>,
    t: Sc,
}
fn map_strat(n: usize) -> BoxedStrategy<MapCase> {
    let crs = prop_oneof![2 => crs_gen(), 3 => crs_bind(), 3 => crs_hide(), 2 => crs_arb()];
    let l = move || prop_oneof![6 => scs(0, 3), 1 => scs(0, n)];
    (crs, l(), l(), sc()).prop_map(|(crs, xs, ys, t)| MapCase { crs, xs, ys, t }).boxed()
}
fn maps<E: Eng>(c: &MapCase, t: &mut Tally) -> Result<(), String> {
    let key = key::<E>(&c.crs);
    let (bs, crs) = (&key.bs, &key.crs);
    let Some(m) = key.m.clone() else {
        t.l("generated key, secrets not recovered");
        return Ok(());
    };
    let (ex, ey): (Vec<Fr<E>>, Vec<Fr<E>>) = (fs(&c.xs), fs(&c.ys));
    let (gx, gy) = (bs.g1s(&ex), bs.g2s(&ey));
    let one = Fr::<E>::one();
    // batch forms are element-wise
    let (b1, b2) = (Com1::<E>::batch_linear_map(&gx), Com2::<E>::batch_linear_map(&gy));
    let (s1, s2) = (Com1::<E>::batch_scalar_linear_map(&ex, crs), Com2::<E>::batch_scalar_linear_map(&ey, crs));
    if b1.len() != ex.len() || s1.len() != ex.len() || b2.len() != ey.len() || s2.len() != ey.len() {
        return Err("batch map changes the length".into());
    }
    for (i, x) in ex.iter().enumerate() {
        is_1(bs, "batch_linear_map", &b1[i], m.i1(true, *x))?;
        is_1(bs, "linear_map", &Com1::<E>::linear_map(&gx[i]), m.i1(true, *x))?;
        is_1(bs, "batch_scalar_linear_map", &s1[i], m.i1(false, *x))?;
        is_1(bs, "scalar_linear_map", &Com1::<E>::scalar_linear_map(x, crs), m.i1(false, *x))?;
    }
    for (i, y) in ey.iter().enumerate() {
        is_2(bs, "batch_linear_map", &b2[i], m.i2(true, *y))?;
        is_2(bs, "linear_map", &Com2::<E>::linear_map(&gy[i]), m.i2(true, *y))?;
        is_2(bs, "batch_scalar_linear_map", &s2[i], m.i2(false, *y))?;
        is_2(bs, "scalar_linear_map", &Com2::<E>::scalar_linear_map(y, crs), m.i2(false, *y))?;
    }
    // targets
    let v: Fr<E> = c.t.f();
    is_t(bs, "linear_map_PPE", ComT::<E>::linear_map_PPE(&bs.gt(v)), m.it(Ty::Ppe, v))?;
    is_t(bs, "linear_map_MSMEG1", ComT::<E>::linear_map_MSMEG1(&bs.g1(v), crs), m.it(Ty::M1, v))?;
    is_t(bs, "linear_map_MSMEG2", ComT::<E>::linear_map_MSMEG2(&bs.g2(v), crs), m.it(Ty::M2, v))?;
    is_t(bs, "linear_map_quad", ComT::<E>::linear_map_quad(&v, crs), m.it(Ty::Quad, v))?;
    // commuting squares and homomorphisms, through the library's own operations
    for (x, y) in ex.iter().zip(&ey).take(3) {
        let (px, py) = (bs.g1(*x), bs.g2(*y));
        let (lx, ly) = (Com1::<E>::linear_map(&px), Com2::<E>::linear_map(&py));
        let (sx, sy) = (Com1::<E>::scalar_linear_map(x, crs), Com2::<E>::scalar_linear_map(y, crs));
        let sq = [
            ("pairing-product", ComT::pairing(lx, ly), ComT::<E>::linear_map_PPE(&E::pairing(px, py))),
            ("multi-scalar G1", ComT::pairing(lx, sy), ComT::<E>::linear_map_MSMEG1(&bs.g1(*x * y), crs)),
            ("multi-scalar G2", ComT::pairing(sx, ly), ComT::<E>::linear_map_MSMEG2(&bs.g2(*x * y), crs)),
            ("quadratic", ComT::pairing(sx, sy), ComT::<E>::linear_map_quad(&(*x * y), crs)),
        ];
        for (n, a, b) in sq {
            if a.as_matrix() != b.as_matrix() || a != b {
                return Err(format!("{n}: pairing the included values differs from including the product on {}", E::NAME));
            }
        }
        let w = v;
        let hom = Com1::<E>::linear_map(&bs.g1(*x + w)) == lx + Com1::<E>::linear_map(&bs.g1(w))
            && Com2::<E>::linear_map(&bs.g2(*y + w)) == ly + Com2::<E>::linear_map(&bs.g2(w))
            && Com1::<E>::scalar_linear_map(&(*x + w), crs) == sx + Com1::<E>::scalar_linear_map(&w, crs)
            && Com2::<E>::scalar_linear_map(&(*y + w), crs) == sy + Com2::<E>::scalar_linear_map(&w, crs)
            && ComT::<E>::linear_map_PPE(&bs.gt(*x + w)) == ComT::<E>::linear_map_PPE(&bs.gt(*x)) + ComT::<E>::linear_map_PPE(&bs.gt(w))
            && ComT::<E>::linear_map_MSMEG1(&bs.g1(*x + w), crs)
                == ComT::<E>::linear_map_MSMEG1(&bs.g1(*x), crs) + ComT::<E>::linear_map_MSMEG1(&bs.g1(w), crs)
            && ComT::<E>::linear_map_MSMEG2(&bs.g2(*x + w), crs)
                == ComT::<E>::linear_map_MSMEG2(&bs.g2(*x), crs) + ComT::<E>::linear_map_MSMEG2(&bs.g2(w), crs)
            && ComT::<E>::linear_map_quad(&(*x + w), crs) == ComT::<E>::linear_map_quad(x, crs) + ComT::<E>::linear_map_quad(&w, crs);
        if !hom {
            return Err(format!("an inclusion map is not a homomorphism on {}", E::NAME));
        }
    }
    t.l(match &c.crs {
        CrsS::Gen(_) => "generated key",
        CrsS::Bind(_) => "binding key",
        CrsS::Hide(_) => "hiding key",
        CrsS::Arb(_) => "arbitrary key",
    });
    if ex.is_empty() || ey.is_empty() {
        t.l("empty batch");
    }
    let _ = one;
    t.nt(!v.is_zero() && ex.iter().any(|z| !z.is_zero()) && ey.iter().any(|z| !z.is_zero()));
    Ok(())
}

fn main() {
    let mut r = Run::from_args(
        "C13",
        "lists of 0 to 300 pairs of commitment-group elements (identities, cancelling terms) and inclusion maps of random and special values \
         under generated, binding, hiding and arbitrary keys, compared with the tensor product over exponents; non-trivial: non-zero \
         pairing sum, respectively non-zero values on both sides and in the target",
    );
    r.section("pairing mid", 120000, 720000, || pair_strat(false), pairs::<Mid>);
    r.section("pairing tiny13", 180000, 1080000, || pair_strat(false), pairs::<T13>);
    r.section("pairing wide mid", 6000, 36000, || pair_strat(true), pairs::<Mid>);
    r.section("pairing bls", 1000, 6000, || pair_strat(false), pairs::<Bls>);
    r.section("maps mid", 80000, 480000, || map_strat(40), maps::<Mid>);
    r.section("maps tiny5", 180000, 1080000, || map_strat(40), maps::<T5>);
    r.section("maps bls", 660, 3960, || map_strat(6), maps::<Bls>);
    r.finish()
}
