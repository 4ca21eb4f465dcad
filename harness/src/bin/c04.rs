//! C04 Commitments under generated keys are perfectly binding and extractable.
use ark_ec::AffineRepr;
use ark_ff::{Field, Zero};
use gsv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Case {
    crs: CrsS,
    vals: Vec<Sc>,
    group: bool,
    side2: bool,
    how: u8,
    rng: RngS,
}
fn strat(crs: BoxedStrategy<CrsS>, hi: usize, wide: bool) -> BoxedStrategy<Case> {
    let n = if wide { prop_oneof![6 => scs(1, hi), 1 => scs(30, 140), 1 => scs(250, 520)].boxed() } else { scs(1, hi) };
    (crs, n, any::<bool>(), any::<bool>(), any::<u8>(), rngs())
        .prop_map(|(crs, vals, group, side2, how, rng)| Case { crs, vals, group, side2, how, rng })
        .boxed()
}

fn check<E: Eng>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let key = key::<E>(&c.crs);
    let Some(tr) = key.trap else {
        t.l("key secrets not recovered");
        return Ok(());
    };
    let k = &key.crs;
    // the key itself: both elements open to the identity, otherwise any value could be shifted
    for q in 0..2 {
        if !extract1(&k.u[q], tr.a1).is_zero() || !extract2(&k.v[q], tr.a2).is_zero() {
            return Err(format!("key element {q} does not open to the identity: key is not binding on {}", E::NAME));
        }
    }
    let v: Vec<Fr<E>> = fs(&c.vals);
    let mut rng = c.rng.rng();
    t.l(if c.group { "group elements" } else { "scalars" });
    t.l(if v.len() > 64 { "more than 64 values" } else { "up to 64 values" });
    t.nt(v.iter().any(|z| !z.is_zero()));
    if !c.side2 {
        let com = commit_x(c.group, &key.bs, &v, k, How::of(c.how), &mut rng.r());
        if com.coms.len() != v.len() {
            return Err(format!("{} commitments for {} values", com.coms.len(), v.len()));
        }
        for (i, q) in com.coms.iter().enumerate() {
            let want = if c.group { key.bs.g1(v[i]).into_group() } else { k.g1_gen.into_group() * v[i] };
            if extract1(q, tr.a1) != want {
                return Err(format!("B1 commitment {i} of {} does not open to the committed value (group {}, {:?}) on {}", v.len(), c.group, How::of(c.how), E::NAME));
            }
        }
    } else {
        let com = commit_y(c.group, &key.bs, &v, k, How::of(c.how), &mut rng.r());
        if com.coms.len() != v.len() {
            return Err(format!("{} commitments for {} values", com.coms.len(), v.len()));
        }
        for (i, q) in com.coms.iter().enumerate() {
            let want = if c.group { key.bs.g2(v[i]).into_group() } else { k.g2_gen.into_group() * v[i] };
            if extract2(q, tr.a2) != want {
                return Err(format!("B2 commitment {i} of {} does not open to the committed value (group {}, {:?}) on {}", v.len(), c.group, How::of(c.how), E::NAME));
            }
        }
    }
    Ok(())
}

/// all values with all randomness under one tiny key: no commitment is shared between two values
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct All {
    crs: CrsS,
    group: bool,
    side2: bool,
    batch: bool,
}
fn all<E: Eng>(c: &All, t: &mut Tally) -> Result<(), String> {
    let key = key::<E>(&c.crs);
    if key.m.is_none() {
        return Ok(());
    }
    let q = {
        let m = Fr::<E>::characteristic();
        m[0]
    };
    let draws = if c.group { 2 } else { 1 };
    let how = if c.batch { How::Batch } else { How::Singles };
    let mut owner = std::collections::HashMap::new();
    for x in 0..q {
        let v = [Fr::<E>::from(x)];
        let Some(d) = exact(q, q.pow(draws), |r| {
            if c.side2 {
                ser(&commit_y(c.group, &key.bs, &v, &key.crs, how, r).coms, true)
            } else {
                ser(&commit_x(c.group, &key.bs, &v, &key.crs, how, r).coms, true)
            }
        }) else {
            t.l("too many draws to enumerate");
            return Ok(());
        };
        t.inner(d.paths);
        for bytes in d.mass.into_keys() {
            if let Some(o) = owner.insert(bytes, x) {
                if o != x {
                    return Err(format!("values {o} and {x} share a commitment under a binding key of order {q}"));
                }
            }
        }
    }
    t.nt(true);
    t.l(format!("order {q}"));
    Ok(())
}
fn all_strat() -> BoxedStrategy<All> {
    (crs_binding(), any::<bool>(), any::<bool>(), any::<bool>())
        .prop_map(|(crs, group, side2, batch)| All { crs, group, side2, batch })
        .boxed()
}

fn main() {
    let mut r = Run::from_args(
        "C04",
        "lists of values (zeros, duplicates, full-size) committed by every commitment function and grouping under generated and \
         constructed binding keys, opened with the trapdoor (recovered from the recorded randomness for generated keys); plus all \
         values with all randomness in tiny groups; non-trivial: some value is non-zero",
    );
    r.section("mid gen", 36000, 216000, || strat(crs_gen(), 12, true), check::<Mid>);
    r.section("mid bind", 48000, 288000, || strat(crs_bind(), 12, true), check::<Mid>);
    r.section("bls gen", 880, 5280, || strat(crs_gen(), 6, false), check::<Bls>);
    r.section("bls bind", 2400, 14400, || strat(crs_bind(), 10, false), check::<Bls>);
    r.section("tiny13", 90000, 540000, || strat(crs_binding(), 6, true), check::<T13>);
    r.section("all tiny5", 9000, 54000, all_strat, all::<T5>);
    r.section("all tiny13", 1800, 10800, all_strat, all::<T13>);
    r.section("all tiny3", 9000, 54000, all_strat, all::<T3>);
    r.finish()
}
