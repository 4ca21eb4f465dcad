//! C06 Proofs are perfectly witness-indistinguishable under hiding keys.
use ark_ff::{Field, PrimeField, Zero};
use groth_sahai::prover::CProof;
use gsv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Case {
    crs: CrsS,
    eq: EqS,
    /// the second witness
    x2: Vec<Sc>,
    y2: Vec<Sc>,
    r: GamS,
    s: GamS,
}
fn strat(sz: Size) -> BoxedStrategy<Case> {
    (crs_hide(), eqs(sz), scs(8, 8), scs(8, 8), rand_gam(), rand_gam())
        .prop_map(|(crs, eq, x2, y2, r, s)| Case { crs, eq, x2, y2, r, s })
        .boxed()
}

struct Two<F> {
    eq: MEq<F>,
    w: [(Vec<F>, Vec<F>); 2],
    differ: bool,
}
/// an equation satisfied by two witnesses: one constant is adjusted
fn two<F: PrimeField>(c: &Case) -> Two<F> {
    let mut eq = c.eq.eq::<F>();
    let (x, y) = (c.eq.x::<F>(), c.eq.y::<F>());
    let pick = |v: &Vec<Sc>, n: usize| (0..n).map(|i| v[i % v.len()].f::<F>()).collect::<Vec<_>>();
    let (mut x2, y2) = (pick(&c.x2, x.len()), pick(&c.y2, y.len()));
    if x2[0] == x[0] {
        x2[0] = x[0] + F::one();
    }
    eq.b[0] = F::zero();
    let rest = eq.lhs(&x, &y) - eq.lhs(&x2, &y2);
    // x0*b0 + ... equal for both
    eq.b[0] = -rest * (x[0] - x2[0]).inverse().unwrap();
    eq.t = eq.lhs(&x, &y);
    debug_assert!(eq.satisfied(&x2, &y2));
    let differ = x != x2 || y != y2;
    Two { eq, w: [(x, y), (x2, y2)], differ }
}

fn proof_bytes<E: Eng>(p: &groth_sahai::prover::EquProof<E>) -> Vec<u8> {
    [ser(&p.pi, false), ser(&p.theta, false)].concat()
}
/// same commitments, opened to either witness: the proofs are identically distributed
fn conditional<E: Eng>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let key = key::<E>(&c.crs);
    let k = key.m.clone().unwrap();
    let tr = key.trap.unwrap();
    let q = Fr::<E>::characteristic()[0];
    let tw = two::<Fr<E>>(c);
    let ty = tw.eq.ty;
    let (x, y) = &tw.w[0];
    let r = c.r.full::<Fr<E>>(x.len(), ty.xr());
    let s = c.s.full::<Fr<E>>(y.len(), ty.yr());
    let cs: Vec<_> = (0..x.len()).map(|i| k.com1(ty.xg(), x[i], &r[i])).collect();
    let ds: Vec<_> = (0..y.len()).map(|j| k.com2(ty.yg(), y[j], &s[j])).collect();
    // randomness opening the same commitments to the second witness
    let (x2, y2) = &tw.w[1];
    // hiding key, u0 = p(1,a), u1 = p(t, at-1):  (0, z) = (z t / p)u0 - (z / p) u1
    let shift = |p: Fr<E>, t: Fr<E>, group: bool, from: Fr<E>, to: Fr<E>, r: &Vec<Fr<E>>| {
        let d = from - to;
        if group {
            let z = d * p.inverse().unwrap();
            vec![r[0] + z * t, r[1] - z]
        } else {
            vec![r[0] + t * d]
        }
    };
    let r2: Vec<_> = (0..x.len()).map(|i| shift(k.g1, tr.t1, ty.xg(), x[i], x2[i], &r[i])).collect();
    let s2: Vec<_> = (0..y.len()).map(|j| shift(k.g2, tr.t2, ty.yg(), y[j], y2[j], &s[j])).collect();
    for i in 0..x.len() {
        if k.com1(ty.xg(), x2[i], &r2[i]) != cs[i] {
            return Err("HARNESS: equivocation failed".into());
        }
    }
    for j in 0..y.len() {
        if k.com2(ty.yg(), y2[j], &s2[j]) != ds[j] {
            return Err("HARNESS: equivocation failed".into());
        }
    }
    let le = AnyEq::<E>::build(&key.bs, &tw.eq);
    let (lc, ld) = (com1s(&key.bs, &cs), com2s(&key.bs, &ds));
    let side = [(mk_com1(&lc, &r), mk_com2(&ld, &s)), (mk_com1(&lc, &r2), mk_com2(&ld, &s2))];
    let mut hist = vec![];
    for w in 0..2 {
        let Some(d) = exact(q, 40_000, |r| {
            proof_bytes(&le.prove(&key.bs, &tw.w[w].0, &tw.w[w].1, &side[w].0, &side[w].1, &key.crs, r))
        }) else {
            t.l("too many draws to enumerate");
            return Ok(());
        };
        t.inner(d.paths);
        hist.push(d);
    }
    t.nt(tw.differ);
    t.l(ty.name());
    t.l(c.eq.dim_label());
    if hist[0].differs(&hist[1]) {
        return Err(format!(
            "{} proofs over the same commitments are distributed differently for two witnesses ({} and {} distinct proofs, order {q}, {}x{})",
            ty.name(),
            hist[0].outcomes(),
            hist[1].outcomes(),
            x.len(),
            y.len()
        ));
    }
    // the proof is uniform over the solutions of the verification equation
    let full = 2 * (ty.npi() + ty.ntheta());
    let rank = match ty {
        Ty::Quad => 3u32,
        _ => 4,
    };
    let want = q.pow(full as u32 - rank);
    if hist[0].not_uniform(want) {
        return Err(format!("{} proofs take {} of the {} valid values, or not uniformly: not fully randomised", ty.name(), hist[0].outcomes(), want));
    }
    Ok(())
}

/// commitments and proof together, over all randomness of the whole pipeline
fn joint<E: Eng>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let key = key::<E>(&c.crs);
    let q = Fr::<E>::characteristic()[0];
    let tw = two::<Fr<E>>(c);
    let ty = tw.eq.ty;
    let le = AnyEq::<E>::build(&key.bs, &tw.eq);
    let mut hist = vec![];
    for w in 0..2 {
        let Some(d) = exact(q, 20_000, |r| {
            let p = le.commit_and_prove(&key.bs, &tw.w[w].0, &tw.w[w].1, &key.crs, r);
            [ser(&p.xcoms.coms, false), ser(&p.ycoms.coms, false), proof_bytes(&p.equ_proofs[0])].concat()
        }) else {
            t.l("too many draws to enumerate");
            return Ok(());
        };
        t.inner(d.paths);
        hist.push(d);
    }
    t.nt(tw.differ);
    t.l(format!("{} {}x{}", ty.name(), tw.w[0].0.len(), tw.w[0].1.len()));
    if hist[0].differs(&hist[1]) {
        return Err(format!("joint distribution of {} commitments and proofs differs between two witnesses (order {q})", ty.name()));
    }
    Ok(())
}

/// repeated proofs on large groups
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Fresh {
    p: Case,
    any_key: CrsS,
    rng: RngS,
    n: u8,
}
fn fresh_strat(sz: Size) -> BoxedStrategy<Fresh> {
    (strat(sz), crs_any(), rngs_plain(), 2u8..4).prop_map(|(p, any_key, rng, n)| Fresh { p, any_key, rng, n }).boxed()
}
fn fresh<E: Eng>(c: &Fresh, t: &mut Tally) -> Result<(), String> {
    let key = key_plain::<E>(&c.any_key);
    let eq = c.p.eq.eq::<Fr<E>>();
    let ty = eq.ty;
    let le = AnyEq::<E>::build(&key.bs, &eq);
    let (x, y) = (c.p.eq.x::<Fr<E>>(), c.p.eq.y::<Fr<E>>());
    let mut rng = c.rng.rng();
    let first: CProof<E> = le.commit_and_prove(&key.bs, &x, &y, &key.crs, &mut rng.r());
    let mut scal: HashSet<Vec<u8>> = HashSet::new();
    let (mut pis, mut ths) = (HashSet::new(), HashSet::new());
    let mut add = |m: Option<Vec<Vec<Fr<E>>>>, what: &str| -> Result<(), String> {
        for s in m.into_iter().flatten().flatten() {
            if s.is_zero() || !scal.insert(ser(&s, true)) {
                return Err(format!("{what} randomness of a {} proof is zero or reused", ty.name()));
            }
        }
        Ok(())
    };
    add(rand1(&first.xcoms), "X commitment")?;
    add(rand2(&first.ycoms), "Y commitment")?;
    let need = (ty.npi() * ty.ntheta()) as u64 * (Fr::<E>::MODULUS_BIT_SIZE as u64 - 1) / 8;
    let mut all = vec![first.equ_proofs[0].clone()];
    for _ in 1..c.n {
        let before = rng.bytes;
        all.push(le.prove(&key.bs, &x, &y, &first.xcoms, &first.ycoms, &key.crs, &mut rng.r()));
        if rng.bytes - before < need {
            return Err(format!("{} prover drew {} bytes of randomness, {need} needed", ty.name(), rng.bytes - before));
        }
    }
    for p in &all {
        add(randp(p), "proof")?;
        for e in &p.pi {
            if !pis.insert(ser(e, false)) {
                return Err(format!("two pi elements of repeated {} proofs coincide", ty.name()));
            }
        }
        for e in &p.theta {
            if !ths.insert(ser(e, false)) {
                return Err(format!("two theta elements of repeated {} proofs coincide", ty.name()));
            }
        }
    }
    t.nt(true);
    t.l(ty.name());
    Ok(())
}

fn main() {
    let mut r = Run::from_args(
        "C06",
        "equations with two generated witnesses (one constant adjusted so both satisfy): (1) same commitments opened to either witness, \
         multiset of proofs over all proof randomness; (2) multiset of commitments and proofs over all randomness of the pipeline; \
         (3) repeated proofs on large groups never share elements or randomness; non-trivial: the witnesses differ",
    );
    r.section("same commitments tiny3", 24000, 144000, || strat(Size::Max(4)), conditional::<T3>);
    r.section("same commitments tiny5", 4800, 28800, || strat(Size::Max(3)), conditional::<T5>);
    r.section("same commitments tiny13", 64, 384, || strat(Size::Max(2)), conditional::<T13>);
    r.section("joint tiny3", 2100, 12600, || strat(Size::Max(2)), joint::<T3>);
    r.section("joint tiny5", 600, 3600, || strat(Size::Max(2)), joint::<T5>);
    r.section("fresh mid", 24000, 144000, || fresh_strat(Size::Max(5)), fresh::<Mid>);
    r.section("fresh bls", 600, 3600, || fresh_strat(Size::Max(2)), fresh::<Bls>);
    r.finish()
}
