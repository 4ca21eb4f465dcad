//! C03 The verifier accepts exactly when the verification equation holds.
use ark_ff::Zero;
use gsv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
enum Mode {
    /// a textbook proof, unchanged
    Honest,
    /// changes applied to a textbook proof, equation or key
    Change(Vec<Chg>),
    /// proof elements whose residual is non-zero in exactly the marked components
    Residual(u8, Sc),
    /// arbitrary commitments and proof elements; then, if `solve`, completed to satisfy the equation
    Arbitrary { seed: u64, solve: bool },
    /// changes first, then the proof elements re-solved: must be accepted although not textbook
    ChangeSolve(Vec<Chg>),
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Case {
    p: PfS,
    mode: Mode,
    /// verdicts on the untouched textbook proof are asked for before and after
    warm: u8,
}

fn mode() -> BoxedStrategy<Mode> {
    prop_oneof![
        2 => Just(Mode::Honest),
        6 => prop::collection::vec(chg(0..16), 1..=1).prop_map(Mode::Change),
        1 => prop::collection::vec(chg(0..16), 2..=3).prop_map(Mode::Change),
        6 => (prop_oneof![4 => (0u8..4).prop_map(|c| 1 << c), 2 => (1u8..16, 0u8..16).prop_map(|(m, s)| m | (s << 4))], sc()).prop_map(|(c, s)| Mode::Residual(c, s)),
        3 => (any::<u64>(), any::<bool>()).prop_map(|(seed, solve)| Mode::Arbitrary { seed, solve }),
        3 => prop::collection::vec(chg(0..6), 1..=2).prop_map(Mode::ChangeSolve),
    ]
    .boxed()
}
fn strat(sz: Size) -> BoxedStrategy<Case> {
    let crs = prop_oneof![2 => crs_bind(), 3 => crs_hide(), 3 => crs_arb()].boxed();
    (pfs(crs, eqs(sz)), mode(), 0u8..6).prop_map(|(p, mode, warm)| Case { p, mode, warm }).boxed()
}

fn check<E: Eng>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let key = key::<E>(&c.p.crs);
    let mut k = key.m.clone().unwrap();
    let h = c.p.honest(&k);
    let (mut eq, mut pf) = (h.eq.clone(), h.pf.clone());
    let z = Fr::<E>::zero();
    let fill = |v: &mut Vec<P2<Fr<E>>>, s: u64| {
        for (i, p) in v.iter_mut().enumerate() {
            *p = [rnd(s, 2 * i as u64), rnd(s, 2 * i as u64 + 1)];
        }
    };
    match &c.mode {
        Mode::Honest => {
            t.l("textbook");
            if !eq.accepts(&k, &pf) {
                return Err("MODEL: textbook proof does not satisfy the equation".into());
            }
        }
        Mode::Change(v) => {
            for g in v {
                g.apply(&mut eq, &mut pf, &mut k);
                t.l(format!("changed {}", g.name()));
            }
        }
        Mode::Residual(mask, s) => {
            let mut want = [z; 4];
            for q in 0..4 {
                if mask & (1 << q) != 0 {
                    want[q] = if mask & (16 << q) != 0 { -s.nz::<Fr<E>>() } else { s.nz() };
                }
            }
            match eq.solve(&k, &pf, want).or_else(|| eq.solve_with(&k, &pf, want, 1)).or_else(|| eq.solve_with(&k, &pf, want, 2)) {
                Some(p) => {
                    pf = p;
                    t.l(format!("residual in components {:04b}", mask & 15));
                }
                None => {
                    // unreachable for this key: change the target side instead
                    t.l("residual not reachable");
                    eq.t += s.nz::<Fr<E>>();
                }
            }
        }
        Mode::Arbitrary { seed, solve } => {
            fill(&mut pf.c, *seed);
            fill(&mut pf.d, seed ^ 1);
            fill(&mut pf.pi, seed ^ 2);
            fill(&mut pf.th, seed ^ 3);
            if *solve {
                if let Some(p) = eq.solve(&k, &pf, [z; 4]) {
                    pf = p;
                    t.l("arbitrary, completed");
                } else {
                    t.l("arbitrary, not completable");
                }
            } else {
                t.l("arbitrary");
            }
        }
        Mode::ChangeSolve(v) => {
            for g in v {
                g.apply(&mut eq, &mut pf, &mut k);
            }
            if let Some(p) = eq.solve(&k, &pf, [z; 4]) {
                pf = p;
                t.l("changed and completed");
            } else {
                t.l("changed, not completable");
            }
        }
    }
    let expect = eq.accepts(&k, &pf);
    let leq = AnyEq::<E>::build(&key.bs, &eq);
    let lpf = cproof(&key.bs, eq.ty, &pf);
    let crs = crs_of(&key.bs, &k);
    let honest = || -> Result<(), String> {
        match quiet(|| AnyEq::<E>::build(&key.bs, &h.eq).verify(&cproof(&key.bs, h.eq.ty, &h.pf), &key.crs)) {
            Ok(true) => Ok(()),
            Ok(false) => Err(format!("{} on {}: textbook proof rejected (next to a changed one)", h.eq.ty.name(), E::NAME)),
            Err(p) => Err(format!("verifier panicked on a textbook proof: {p}")),
        }
    };
    if c.warm & 1 == 1 {
        t.l("history");
        honest()?;
    }
    let mut got = quiet(|| leq.verify(&lpf, &crs)).map_err(|p| format!("verifier panicked on well-shaped input: {p}"))?;
    if c.warm == 1 {
        honest()?;
        if got == expect {
            got = quiet(|| leq.verify(&lpf, &crs)).map_err(|p| format!("verifier panicked on well-shaped input: {p}"))?;
        }
    }
    t.l(eq.ty.name());
    t.l(c.p.eq.dim_label());
    t.l(if expect { "equation holds" } else { "equation fails" });
    t.nt(c.p.eq.nontrivial::<Fr<E>>());
    if got != expect {
        return Err(format!(
            "{} on {}: verifier says {got}, verification equation says {expect} (residual components {:?})",
            eq.ty.name(),
            E::NAME,
            eq.residual(&k, &pf).map(|z| !z.is_zero())
        ));
    }
    Ok(())
}

fn main() {
    let mut r = Run::from_args(
        "C03",
        "textbook proofs, single and multiple changes to any equation, proof or key element, proofs with a residual in chosen \
         components, arbitrary proof elements with and without completion by a linear solver, under binding, hiding, arbitrary and \
         degenerate keys; the library's verdict is compared with the verification equation evaluated over exponents; non-trivial: \
         some coefficient or constant and some variable are non-zero",
    );
    r.section("mid", 72000, 600000, || strat(Size::Big), check::<Mid>);
    r.section("tiny13", 90000, 540000, || strat(Size::Max(4)), check::<T13>);
    r.section("tiny3", 180000, 1080000, || strat(Size::Max(3)), check::<T3>);
    r.section("bls", 1100, 6600, || strat(Size::Small), check::<Bls>);
    r.section("wide13", 1800, 10800, || strat(Size::Wide), check::<T13>);
    r.finish()
}
