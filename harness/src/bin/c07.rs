//! C07 Zero-knowledge: proofs can be simulated with a hiding key's trapdoor.
use ark_ff::{Field, One, Zero};
use groth_sahai::prover::{Commit1, Commit2, EquProof};
use gsv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Case {
    crs: CrsS,
    eq: EqS,
    /// replaces the satisfied target when present (ignored for pairing-product equations)
    target: Option<Sc>,
    rng: RngS,
    how: u8,
}
fn strat(sz: Size) -> BoxedStrategy<Case> {
    let eq = prop_oneof![
        6 => eqs(sz),
        // no coefficients at all: unsatisfiable unless the target is zero
        1 => eqs(sz).prop_map(|mut e| {
            for r in e.rows.iter_mut().chain(e.cols.iter_mut()) {
                r.1 = Sc::S(0);
            }
            e.gam = GamS::Zero;
            e
        }),
    ];
    (crs_hide(), eq, prop_oneof![1 => Just(None), 3 => sc().prop_map(Some)], rngs(), any::<u8>())
        .prop_map(|(crs, eq, target, rng, how)| Case { crs, eq, target, rng, how })
        .boxed()
}

/// Simulated commitments and proof for `eq` (any target; PPE: target zero), using only the trapdoor.
fn simulate<E: Eng>(key: &Key<E>, eq: &MEq<Fr<E>>, how: u8, rng: &mut TapeRngOr<'_>) -> Result<(Commit1<E>, Commit2<E>, EquProof<E>), String> {
    let tr = key.trap.unwrap();
    let ty = eq.ty;
    let (m, n) = (eq.b.len(), eq.a.len());
    let z = Fr::<E>::zero();
    let (x, y) = (vec![z; m], vec![z; n]);
    let xc = commit_x(ty.xg(), &key.bs, &x, &key.crs, How::of(how), rng);
    let yc = commit_y(ty.yg(), &key.bs, &y, &key.crs, How::of(how / 4), rng);
    if ty == Ty::Ppe {
        let p = AnyEq::<E>::build(&key.bs, eq).prove(&key.bs, &x, &y, &xc, &yc, &key.crs, rng);
        return Ok((xc, yc, p));
    }
    let (r, s) = (rand1(&xc).ok_or("commitment randomness not readable")?, rand2(&yc).ok_or("commitment randomness not readable")?);
    let mut e = eq.clone();
    e.t = z;
    // the public value 1 moves the target to the left side; with the trapdoor its commitment is
    // also a commitment to 0
    let k = key.m.as_ref().unwrap();
    if ty == Ty::M2 {
        e.b.push(-eq.t);
        e.g.push(vec![z; n]);
        let mut cs = xc.coms.clone();
        cs.push(com1(&key.bs, k.i1(false, Fr::<E>::one())));
        let mut r = r;
        r.push(vec![tr.t1]);
        let x = vec![z; m + 1];
        let p = AnyEq::<E>::build(&key.bs, &e).prove(&key.bs, &x, &y, &mk_com1(&cs, &r), &yc, &key.crs, rng);
        Ok((xc, yc, p))
    } else {
        e.a.push(-eq.t);
        for row in e.g.iter_mut() {
            row.push(z);
        }
        let mut ds = yc.coms.clone();
        ds.push(com2(&key.bs, k.i2(false, Fr::<E>::one())));
        let mut s = s;
        s.push(vec![tr.t2]);
        let y = vec![z; n + 1];
        let p = AnyEq::<E>::build(&key.bs, &e).prove(&key.bs, &x, &y, &xc, &mk_com2(&ds, &s), &key.crs, rng);
        Ok((xc, yc, p))
    }
}
fn target<F: ark_ff::PrimeField>(c: &Case) -> MEq<F> {
    let mut eq = c.eq.eq::<F>();
    if eq.ty == Ty::Ppe {
        eq.t = F::zero();
    } else if let Some(t) = &c.target {
        eq.t = t.f();
    }
    eq
}

fn accepted<E: Eng>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let key = key::<E>(&c.crs);
    let eq = target::<Fr<E>>(c);
    let mut rng = c.rng.rng();
    let (xc, yc, p) = simulate(&key, &eq, c.how, &mut rng.r())?;
    let le = AnyEq::<E>::build(&key.bs, &eq);
    t.l(eq.ty.name());
    t.l(c.eq.dim_label());
    let nz = |v: &Vec<Fr<E>>| v.iter().any(|q| !q.is_zero());
    let coef = nz(&eq.a) || nz(&eq.b) || eq.g.iter().any(nz);
    t.l(if !coef && !eq.t.is_zero() {
        "unsatisfiable"
    } else if eq.t.is_zero() {
        "target zero"
    } else {
        "satisfiable, target non-zero"
    });
    t.nt(coef || !eq.t.is_zero());
    if !le.verify(&groth_sahai::prover::CProof { xcoms: xc, ycoms: yc, equ_proofs: vec![p] }, &key.crs) {
        return Err(format!("simulated {} proof rejected ({}x{}) on {}", eq.ty.name(), eq.b.len(), eq.a.len(), E::NAME));
    }
    Ok(())
}

/// simulated and honest commitments and proofs have the same exact distribution
fn same<E: Eng>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let key = key::<E>(&c.crs);
    let q = Fr::<E>::characteristic()[0];
    let eq = target::<Fr<E>>(c);
    // an honest witness, by search
    let (m, n) = (eq.b.len(), eq.a.len());
    let tot = q.pow((m + n) as u32);
    let start = c.rng.seed % tot;
    let Some((x, y)) = (0..tot).map(|i| (i + start) % tot).find_map(|id| {
        let v: Vec<Fr<E>> = (0..(m + n) as u32).map(|d| Fr::<E>::from(id / q.pow(d) % q)).collect();
        eq.satisfied(&v[..m], &v[m..]).then(|| (v[..m].to_vec(), v[m..].to_vec()))
    }) else {
        t.l("unsatisfiable");
        return Ok(());
    };
    let le = AnyEq::<E>::build(&key.bs, &eq);
    let honest = |r: &mut TapeRngOr<'_>| {
        let p = le.commit_and_prove(&key.bs, &x, &y, &key.crs, r);
        [ser(&p.xcoms.coms, false), ser(&p.ycoms.coms, false), ser(&p.equ_proofs[0].pi, false), ser(&p.equ_proofs[0].theta, false)].concat()
    };
    let sim = |r: &mut TapeRngOr<'_>| {
        let (xc, yc, p) = simulate(&key, &eq, c.how, r).unwrap();
        [ser(&xc.coms, false), ser(&yc.coms, false), ser(&p.pi, false), ser(&p.theta, false)].concat()
    };
    let (Some(a), Some(b)) = (exact(q, 7000, honest), exact(q, 7000, sim)) else {
        t.l("too many draws to enumerate");
        return Ok(());
    };
    t.inner(a.paths + b.paths);
    t.l(format!("{} {m}x{n}", eq.ty.name()));
    t.nt(x.iter().chain(y.iter()).any(|v| !v.is_zero()));
    if a.differs(&b) {
        return Err(format!("simulated {} proofs are distributed differently from honest ones (order {q}): {} vs {} outcomes", eq.ty.name(), b.outcomes(), a.outcomes()));
    }
    Ok(())
}

fn main() {
    let mut r = Run::from_args(
        "C07",
        "equations with arbitrary targets (satisfiable or not; zero for pairing products), hiding keys with known trapdoor; a simulator \
         runs the library's own prover on the all-zero witness of the equation with the target moved to the left; accepted by the \
         verifier for the original equation, and equal in exact distribution to honest proofs in tiny groups; non-trivial: some \
         coefficient or target is non-zero / the honest witness is not the simulator's",
    );
    r.section("mid", 64000, 384000, || strat(Size::Big), accepted::<Mid>);
    r.section("tiny13", 90000, 540000, || strat(Size::Max(5)), accepted::<T13>);
    r.section("tiny3", 90000, 540000, || strat(Size::Max(4)), accepted::<T3>);
    r.section("wide13", 1200, 7200, || strat(Size::Wide), accepted::<T13>);
    r.section("bls", 1200, 7200, || strat(Size::Small), accepted::<Bls>);
    r.section("distribution tiny3", 1800, 10800, || strat(Size::Max(2)), same::<T3>);
    r.section("distribution tiny5", 1200, 7200, || strat(Size::Max(2)), same::<T5>);
    r.finish()
}
