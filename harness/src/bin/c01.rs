//! C01 Completeness.
use ark_ff::Zero;
use gsv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Case {
    crs: CrsS,
    eq: EqS,
    rng: RngS,
    /// 0: commit_and_prove; else two-step with this way of committing
    how: u8,
}

fn strat(sz: Size) -> BoxedStrategy<Case> {
    (crs_any(), eqs(sz), rngs(), prop_oneof![Just(0u8), 1u8..40])
        .prop_map(|(crs, eq, rng, how)| Case { crs, eq, rng, how })
        .boxed()
}

fn check<E: Eng>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let k = key_plain::<E>(&c.crs);
    let (x, y) = (c.eq.x::<Fr<E>>(), c.eq.y::<Fr<E>>());
    let me = c.eq.eq::<Fr<E>>();
    let eq = AnyEq::build(&k.bs, &me);
    let mut rng = c.rng.rng();
    let pf = if c.how == 0 {
        eq.commit_and_prove(&k.bs, &x, &y, &k.crs, &mut rng.r())
    } else {
        let xc = commit_x(me.ty.xg(), &k.bs, &x, &k.crs, How::of(c.how), &mut rng.r());
        let yc = commit_y(me.ty.yg(), &k.bs, &y, &k.crs, How::of(c.how / 3), &mut rng.r());
        let p = eq.prove(&k.bs, &x, &y, &xc, &yc, &k.crs, &mut rng.r());
        groth_sahai::prover::CProof { xcoms: xc, ycoms: yc, equ_proofs: vec![p] }
    };
    t.nt(c.eq.nontrivial::<Fr<E>>());
    t.l(me.ty.name());
    t.l(c.eq.dim_label());
    t.l(match c.crs {
        CrsS::Gen(_) => "generated key",
        CrsS::Bind(_) => "binding key",
        _ => "hiding key",
    });
    if me.t.is_zero() {
        t.l("trivial target");
    }
    if c.rng.zeros > 0 {
        t.l("degenerate randomness");
    }
    if eq.verify(&pf, &k.crs) {
        Ok(())
    } else {
        Err(format!("honest {} proof rejected ({} x {} variables, {})", me.ty.name(), x.len(), y.len(), E::NAME))
    }
}

fn main() {
    let mut r = Run::from_args(
        "C01",
        "random satisfied equation (type, dims, constants, coefficients, witness incl. zeros/identities/duplicates), key \
         (generated, binding, hiding), caller randomness and commit route; non-trivial: some coefficient or constant and \
         some variable are non-zero",
    );
    r.section("bls", 1500, 9000, || strat(Size::Small), check::<Bls>);
    r.section("mid", 48000, 288000, || strat(Size::Big), check::<Mid>);
    r.section("tiny13", 72000, 432000, || strat(Size::Max(6)), check::<T13>);
    r.section("tiny3", 72000, 432000, || strat(Size::Max(5)), check::<T3>);
    r.section("wide13", 1800, 10800, || strat(Size::Wide), check::<T13>);
    r.finish()
}
