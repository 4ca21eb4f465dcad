//! C10 Generated keys are well formed, independent and fresh.
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{One, PrimeField, Zero};
use groth_sahai::{AbstractCrs, CRS};
use gsv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Case {
    seeds: Vec<u64>,
    /// how many keys are drawn from each stream
    per: u8,
}
fn strat() -> BoxedStrategy<Case> {
    (prop::collection::vec(any::<u64>(), 1..=3), 1u8..=2).prop_map(|(seeds, per)| Case { seeds, per }).boxed()
}
fn check<E: Eng>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let (mut e1, mut e2) = (HashSet::new(), HashSet::new());
    let mut seeds = c.seeds.clone();
    seeds.sort();
    seeds.dedup();
    let mut secrets = vec![];
    for s in &seeds {
        let mut rng = TapeRng::new(*s);
        for _ in 0..c.per {
            let (b0, l0) = (rng.bytes, rng.log.len());
            let crs = CRS::<E>::generate_crs(&mut rng);
            let cand = candidates::<Fr<E>>(&rng.log[l0..]);
            if crs.u.len() != 2 || crs.v.len() != 2 {
                return Err(format!("key has {} and {} elements", crs.u.len(), crs.v.len()));
            }
            if crs.g1_gen.is_zero() || crs.g2_gen.is_zero() || crs.gt_gen.is_zero() {
                return Err("identity generator".into());
            }
            if crs.gt_gen != E::pairing(crs.g1_gen, crs.g2_gen) {
                return Err("gt is not e(g1, g2)".into());
            }
            if crs.u[0].0 != crs.g1_gen || crs.v[0].0 != crs.g2_gen {
                return Err("first key element does not start with the generator".into());
            }
            // two points and four scalars
            let need = 6 * (Fr::<E>::MODULUS_BIT_SIZE as u64 - 1) / 8;
            if rng.bytes - b0 < need {
                return Err(format!("key generation drew {} bytes, {need} needed", rng.bytes - b0));
            }
            for (p, what) in [(crs.u[0].0, "u[0].0"), (crs.u[0].1, "u[0].1"), (crs.u[1].0, "u[1].0"), (crs.u[1].1, "u[1].1")] {
                if p.is_zero() || !e1.insert(ser(&p, true)) {
                    return Err(format!("{what} is the identity or occurs twice among keys"));
                }
            }
            for (p, what) in [(crs.v[0].0, "v[0].0"), (crs.v[0].1, "v[0].1"), (crs.v[1].0, "v[1].0"), (crs.v[1].1, "v[1].1")] {
                if p.is_zero() || !e2.insert(ser(&p, true)) {
                    return Err(format!("{what} is the identity or occurs twice among keys"));
                }
            }
            // the same element under the two generators would tie the two sides together
            let one = Fr::<E>::one();
            let find1 = |z: G1A<E>| dlog(crs.g1_gen, z, &cand, false);
            let find2 = |z: G2A<E>| dlog(crs.g2_gen, z, &cand, false);
            match (find1(crs.u[0].1), find1(crs.u[1].0), find2(crs.v[0].1), find2(crs.v[1].0)) {
                (Some(a1), Some(t1), Some(a2), Some(t2)) => {
                    t.l("secrets recovered");
                    if crs.u[1].1 != (crs.g1_gen.into_group() * (a1 * t1)).into_affine() {
                        return Err(format!(
                            "u[1] is not t1 u[0]{}",
                            if crs.u[1].1 == (crs.g1_gen.into_group() * (a1 * t1 - one)).into_affine() { " (it is the hiding form)" } else { "" }
                        ));
                    }
                    if crs.v[1].1 != (crs.g2_gen.into_group() * (a2 * t2)).into_affine() {
                        return Err(format!(
                            "v[1] is not t2 v[0]{}",
                            if crs.v[1].1 == (crs.g2_gen.into_group() * (a2 * t2 - one)).into_affine() { " (it is the hiding form)" } else { "" }
                        ));
                    }
                    for s in [a1, t1, a2, t2] {
                        if s.is_zero() || s.is_one() || secrets.contains(&s) || secrets.contains(&-s) {
                            return Err("secret exponents are trivial, repeated or related".into());
                        }
                        secrets.push(s);
                    }
                    let d = [a1 * t1, a2 * t2];
                    if d.iter().any(|z| z.is_one() || secrets.contains(z)) {
                        return Err("secret exponents are related".into());
                    }
                }
                _ => t.l("secrets not found in the recorded randomness"),
            }
            t.nt(true);
        }
    }
    Ok(())
}

/// joint distribution of (g1, g2, a1, t1, a2, t2) over many streams, in a tiny group
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Many {
    seed: u64,
    n: u32,
}
fn joint<E: Eng>(c: &Many, t: &mut Tally) -> Result<(), String> {
    let q = Fr::<E>::MODULUS.as_ref()[0];
    let bs = Bases::<E>::std();
    let cells = (q - 1) * (q - 1) * q.pow(4);
    let mut hist = vec![0u32; cells as usize];
    let mut s = c.seed;
    let mut used = 0u32;
    let small = |f: Fr<E>| (0..q).find(|i| Fr::<E>::from(*i) == f).unwrap();
    // a few keys may be drawn from one stream, most from their own
    let mut rng = TapeRng::new(c.seed);
    for i in 0..c.n {
        if i % 4 != 1 {
            rng = TapeRng::new(splitmix(&mut s));
        }
        let crs = CRS::<E>::generate_crs(&mut rng);
        if crs.g1_gen.is_zero() || crs.g2_gen.is_zero() {
            continue;
        }
        if crs.u[0].0 != crs.g1_gen || crs.v[0].0 != crs.g2_gen || crs.gt_gen != E::pairing(crs.g1_gen, crs.g2_gen) {
            return Err("malformed key".into());
        }
        let d1 = |z| small(dlog(crs.g1_gen, z, &[], true).unwrap());
        let d2 = |z| small(dlog(crs.g2_gen, z, &[], true).unwrap());
        let (a1, t1, a2, t2) = (d1(crs.u[0].1), d1(crs.u[1].0), d2(crs.v[0].1), d2(crs.v[1].0));
        if d1(crs.u[1].1) != a1 * t1 % q || d2(crs.v[1].1) != a2 * t2 % q {
            return Err(format!("second key element is not a multiple of the first: a1={a1} t1={t1} u={}, a2={a2} t2={t2} v={} mod {q}", d1(crs.u[1].1), d2(crs.v[1].1)));
        }
        let (p1, p2) = (small(dlog(bs.b1, crs.g1_gen, &[], true).unwrap()) - 1, small(dlog(bs.b2, crs.g2_gen, &[], true).unwrap()) - 1);
        let mut id = p1 * (q - 1) + p2;
        for v in [a1, t1, a2, t2] {
            id = id * q + v;
        }
        hist[id as usize] += 1;
        used += 1;
    }
    t.inner(c.n as u64);
    let mean = used as f64 / cells as f64;
    let (lo, hi) = (*hist.iter().min().unwrap(), *hist.iter().max().unwrap());
    t.nt(mean > 60.0);
    t.l(format!("order {q}: {cells} cells, mean {mean:.1}, min {lo}, max {hi}"));
    // 64+ expected per cell: an empty cell or a tripled one is impossible for independent uniform secrets
    if mean > 60.0 && (lo == 0 || hi as f64 > 3.0 * mean) {
        return Err(format!("joint distribution of generators and secrets over {used} keys is not uniform: cell counts {lo}..{hi}, mean {mean:.1} (order {q})"));
    }
    Ok(())
}

fn main() {
    let mut r = Run::from_args(
        "C10",
        "keys generated from random streams (one or two keys per stream, up to three streams compared); secrets recovered from the \
         recorded randomness (large groups) or by brute force (tiny groups, joint distribution over all cells); every case is non-trivial",
    );
    r.section("mid", 48000, 288000, strat, check::<Mid>);
    r.section("bls", 450, 3000, strat, check::<Bls>);
    let n = if r.thorough() { 16 } else { 4 };
    let mut s = r.seed;
    let items: Vec<Many> = (0..n).map(|_| Many { seed: splitmix(&mut s), n: 324 * 100 * 9 / 4 }).collect();
    r.fixed("joint tiny3", items.clone(), joint::<T3>);
    let items: Vec<Many> = items[..n / 4].iter().map(|m| Many { seed: !m.seed, n: 10000 * 110 }).collect();
    r.fixed("joint tiny5", items, joint::<T5>);
    r.finish()
}
