//! C05 Commitments are perfectly hiding under hiding keys and always freshly randomised.
use ark_ff::{Field, PrimeField, Zero};
use gsv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

/// exact distribution over all randomness, for two lists of values
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Dist {
    crs: CrsS,
    group: bool,
    side2: bool,
    how: u8,
    pairs: Vec<(Sc, Sc)>,
}
fn dist_strat(maxg: usize, maxs: usize) -> BoxedStrategy<Dist> {
    any::<bool>()
        .prop_flat_map(move |group| {
            let hi = if group { maxg } else { maxs };
            (crs_hide(), any::<bool>(), any::<u8>(), prop::collection::vec((sc(), sc()), 1..=hi))
                .prop_map(move |(crs, side2, how, pairs)| Dist { crs, group, side2, how, pairs })
        })
        .boxed()
}
fn coms_bytes<E: Eng>(key: &Key<E>, group: bool, side2: bool, how: How, v: &[Fr<E>], r: &mut TapeRngOr<'_>) -> Vec<u8> {
    if side2 {
        ser(&commit_y(group, &key.bs, v, &key.crs, how, r).coms, false)
    } else {
        ser(&commit_x(group, &key.bs, v, &key.crs, how, r).coms, false)
    }
}
fn dist<E: Eng>(c: &Dist, t: &mut Tally) -> Result<(), String> {
    let key = key::<E>(&c.crs);
    let q = Fr::<E>::characteristic()[0];
    let v: Vec<Fr<E>> = c.pairs.iter().map(|p| p.0.f()).collect();
    let w: Vec<Fr<E>> = c.pairs.iter().map(|p| p.1.f()).collect();
    let how = How::of(c.how);
    let mut hist = vec![];
    for vals in [&v, &w] {
        let Some(d) = exact(q, 100_000, |r| coms_bytes(&key, c.group, c.side2, how, vals, r)) else {
            t.l("too many draws to enumerate");
            return Ok(());
        };
        t.inner(d.paths);
        hist.push(d);
    }
    t.nt(v != w);
    t.l(format!("{} x{} {}", if c.group { "group" } else { "scalar" }, v.len(), if c.side2 { "B2" } else { "B1" }));
    if hist[0].differs(&hist[1]) {
        return Err(format!(
            "distribution of {} commitments under a hiding key of order {q} depends on the values ({:?}): {} vs {} distinct outcomes",
            v.len(),
            how,
            hist[0].outcomes(),
            hist[1].outcomes()
        ));
    }
    // every variable uses its own randomness: the lists of commitments fill the whole product space
    let per = if c.group { q.pow(2) } else { q };
    let want = per.pow(v.len() as u32);
    if hist[0].not_uniform(want) {
        return Err(format!("commitments of {} values are not uniform over the {want} outcomes ({} reached): randomness is shared, missing or skewed", v.len(), hist[0].outcomes()));
    }
    Ok(())
}
/// freshness on large groups
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Fresh {
    crs: CrsS,
    /// calls: (kind, grouping, values)
    calls: Vec<(bool, bool, u8, Vec<Sc>)>,
    /// all values equal
    same: bool,
    rng: RngS,
}
fn fresh_strat(hi: usize) -> BoxedStrategy<Fresh> {
    (
        crs_any(),
        prop::collection::vec((any::<bool>(), any::<bool>(), any::<u8>(), prop_oneof![4 => scs(1, 6), 1 => scs(1, hi)]), 1..=4),
        any::<bool>(),
        rngs_plain(),
    )
        .prop_map(|(crs, calls, same, rng)| Fresh { crs, calls, same, rng })
        .boxed()
}
fn fresh<E: Eng>(c: &Fresh, t: &mut Tally) -> Result<(), String> {
    let key = key_plain::<E>(&c.crs);
    let mut rng = c.rng.rng();
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    let mut scalars: HashSet<Vec<u8>> = HashSet::new();
    let mut n = 0usize;
    let same = c.calls[0].3[0].f::<Fr<E>>();
    for (group, side2, how, vals) in &c.calls {
        let v: Vec<Fr<E>> = if c.same { vec![same; vals.len()] } else { fs(vals) };
        let before = rng.bytes;
        let (bytes, rand): (Vec<Vec<u8>>, _) = if *side2 {
            let q = commit_y(*group, &key.bs, &v, &key.crs, How::of(*how), &mut rng.r());
            (q.coms.iter().map(|z| [vec![2], ser(z, false)].concat()).collect(), rand2(&q))
        } else {
            let q = commit_x(*group, &key.bs, &v, &key.crs, How::of(*how), &mut rng.r());
            (q.coms.iter().map(|z| [vec![1], ser(z, false)].concat()).collect(), rand1(&q))
        };
        let per = if *group { 2 } else { 1 };
        // independent uniform scalars need at least their entropy from the caller's generator
        let need = (v.len() * per) as u64 * (Fr::<E>::MODULUS_BIT_SIZE as u64 - 1) / 8;
        if rng.bytes - before < need {
            return Err(format!("only {} bytes drawn from the caller's generator for {} variables, {} needed", rng.bytes - before, v.len(), need));
        }
        for (i, b) in bytes.into_iter().enumerate() {
            if !seen.insert(b) {
                return Err(format!("two commitments coincide (variable {i} of {}, group {group}, {:?}, equal values: {})", v.len(), How::of(*how), c.same));
            }
        }
        if let Some(rand) = rand {
            if rand.len() == v.len() && rand.iter().all(|r| r.len() == per) {
                for s in rand.iter().flatten() {
                    if s.is_zero() || !scalars.insert(ser(s, true)) {
                        return Err(format!("a randomiser is zero or repeated among {} variables (group {group}, {:?})", v.len(), How::of(*how)));
                    }
                }
            }
        }
        n += v.len();
    }
    t.nt(n > 1);
    t.l(if c.same { "equal values" } else { "mixed values" });
    t.l(if n > 32 { "more than 32 variables" } else { "up to 32 variables" });
    Ok(())
}

fn main() {
    let mut r = Run::from_args(
        "C05",
        "(1) two lists of values, any commitment function and grouping, hiding keys of tiny groups: the multiset of commitment lists over \
         all randomness must coincide and fill the product space; (2) sequences of commitment calls on large groups: commitments and \
         randomisers pairwise distinct, entropy drawn; non-trivial: the lists differ / at least two variables",
    );
    r.section("exact tiny3", 9000, 54000, || dist_strat(3, 5), dist::<T3>);
    r.section("exact tiny5", 4200, 25200, || dist_strat(2, 4), dist::<T5>);
    r.section("exact tiny13", 1500, 9000, || dist_strat(1, 3), dist::<T13>);
    r.section("fresh mid", 24000, 144000, || fresh_strat(300), fresh::<Mid>);
    r.section("fresh bls", 1000, 6000, || fresh_strat(24), fresh::<Bls>);
    r.finish()
}
