//! C02 Soundness under binding keys.
use ark_ff::{Field, Zero};
use gsv::*;
use groth_sahai::prover::CProof;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
enum Kind {
    /// the library proves an equation its witness does not satisfy (the equation is changed first)
    WrongWitness(Vec<Chg>),
    /// the prover is given satisfying values that are not the committed ones
    OtherValues(Vec<(bool, u16, Sc)>),
    /// a valid library proof is presented for a changed equation
    OtherEquation(Vec<Chg>),
    /// commitments to values that violate the equation, proof elements solved for as many components as possible
    Forge(Vec<Chg>, u8),
    /// changes anywhere (commitments, proof, equation), then solved as far as possible if `bool`
    Altered(Vec<Chg>, bool),
}
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Case {
    p: PfS,
    rng: RngS,
    kind: Kind,
    /// the verifier accepts the untouched proof of the untouched equation just before
    warm: bool,
}
fn chgs(k: std::ops::Range<u8>, n: usize) -> BoxedStrategy<Vec<Chg>> {
    prop_oneof![3 => prop::collection::vec(chg(k.clone()), 1..=1), 1 => prop::collection::vec(chg(k), 1..=n)].boxed()
}
fn strat(crs: BoxedStrategy<CrsS>, sz: Size) -> BoxedStrategy<Case> {
    let kind = prop_oneof![
        3 => chgs(0..4, 3).prop_map(Kind::WrongWitness),
        3 => chgs(0..4, 3).prop_map(Kind::OtherEquation),
        2 => prop::collection::vec((any::<bool>(), any::<u16>(), sc()), 1..=2).prop_map(Kind::OtherValues),
        3 => (chgs(0..4, 2), any::<u8>()).prop_map(|(a, b)| Kind::Forge(a, b)),
        3 => (chgs(0..14, 3), any::<bool>()).prop_map(|(a, b)| Kind::Altered(a, b)),
    ];
    (pfs(crs, eqs(sz)), rngs(), kind, any::<bool>()).prop_map(|(p, rng, kind, warm)| Case { p, rng, kind, warm }).boxed()
}

/// values inside commitments, by the trapdoor
fn open<F: ark_ff::PrimeField>(k: &MCrs<F>, tr: &Trap<F>, ty: Ty, p: &MProof<F>) -> (Vec<F>, Vec<F>) {
    let g1 = if ty.xg() { F::one() } else { k.g1.inverse().unwrap() };
    let g2 = if ty.yg() { F::one() } else { k.g2.inverse().unwrap() };
    (
        p.c.iter().map(|c| (c[1] - tr.a1 * c[0]) * g1).collect(),
        p.d.iter().map(|d| (d[1] - tr.a2 * d[0]) * g2).collect(),
    )
}

fn check<E: Eng>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let key = key::<E>(&c.p.crs);
    if E::TINY && key.m.is_none() {
        return Ok(()); // a tiny generated key hit the identity
    }
    let e0 = c.p.eq.eq::<Fr<E>>();
    let (x, y) = (c.p.eq.x::<Fr<E>>(), c.p.eq.y::<Fr<E>>());
    let ty = e0.ty;
    t.l(ty.name());
    t.l(c.p.eq.dim_label());
    let dummy_k = || MCrs::structured(Fr::<E>::from(1u64), Fr::<E>::from(1u64), Fr::<E>::from(1u64), Fr::<E>::from(1u64), Fr::<E>::from(1u64), Fr::<E>::from(1u64), false);
    let change_eq = |v: &[Chg]| {
        let mut e = e0.clone();
        let mut p = MProof { c: vec![], d: vec![], pi: vec![], th: vec![] };
        for g in v {
            g.apply(&mut e, &mut p, &mut dummy_k());
        }
        e
    };
    let run = |t: &mut Tally, e: &MEq<Fr<E>>, pf: &CProof<E>, sat: bool, what: &str| -> Result<(), String> {
        let le = AnyEq::build(&key.bs, e);
        t.nt(!sat);
        t.l(format!("{what}{}", if sat { " (still true)" } else { "" }));
        if !sat && !refused(|| le.verify(pf, &key.crs)) == true {
            return Err(format!("{what}: false {} statement accepted on {}", ty.name(), E::NAME));
        }
        Ok(())
    };
    let warm = |t: &mut Tally, pf: &CProof<E>| -> Result<(), String> {
        if c.warm {
            t.l("after accepting the original");
            // (a refusal here is for C01 and C03 to report)
            refused(|| AnyEq::build(&key.bs, &e0).verify(pf, &key.crs));
        }
        Ok(())
    };
    match &c.kind {
        Kind::WrongWitness(v) => {
            let e = change_eq(v);
            let le = AnyEq::build(&key.bs, &e);
            let pf = match quiet(|| le.commit_and_prove(&key.bs, &x, &y, &key.crs, &mut c.rng.rng().r())) {
                Ok(p) => p,
                Err(_) => return Ok(()), // refusing to prove is fine
            };
            run(t, &e, &pf, e.satisfied(&x, &y), "proof from a wrong witness")
        }
        Kind::OtherValues(v) => {
            let mut e = e0.clone();
            let (mut x2, mut y2) = (x.clone(), y.clone());
            for (side, i, by) in v {
                let l = if *side { &mut x2 } else { &mut y2 };
                let n = l.len();
                l[*i as usize % n] += by.nz::<Fr<E>>();
            }
            e.t = e.lhs(&x2, &y2);
            let le = AnyEq::build(&key.bs, &e);
            let mut rng = c.rng.rng();
            let xc = commit_x(ty.xg(), &key.bs, &x, &key.crs, How::Batch, &mut rng.r());
            let yc = commit_y(ty.yg(), &key.bs, &y, &key.crs, How::Batch, &mut rng.r());
            let p = match quiet(|| le.prove(&key.bs, &x2, &y2, &xc, &yc, &key.crs, &mut rng.r())) {
                Ok(p) => p,
                Err(_) => return Ok(()),
            };
            run(t, &e, &CProof { xcoms: xc, ycoms: yc, equ_proofs: vec![p] }, e.satisfied(&x, &y), "values other than the committed ones")
        }
        Kind::OtherEquation(v) => {
            let e = change_eq(v);
            let pf = AnyEq::build(&key.bs, &e0).commit_and_prove(&key.bs, &x, &y, &key.crs, &mut c.rng.rng().r());
            warm(t, &pf)?;
            run(t, &e, &pf, e.satisfied(&x, &y), "valid proof for another equation")
        }
        Kind::Forge(v, which) => {
            let e = change_eq(v);
            let sat = e.satisfied(&x, &y);
            let Some(k) = &key.m else {
                t.l("generated key not analysed");
                return Ok(());
            };
            // commitments by the library, randomness read from their encoding when possible
            let mut rng = c.rng.rng();
            let xc = commit_x(ty.xg(), &key.bs, &x, &key.crs, How::of(*which), &mut rng.r());
            let yc = commit_y(ty.yg(), &key.bs, &y, &key.crs, How::of(which / 4), &mut rng.r());
            let ok = |r: &Option<Vec<Vec<Fr<E>>>>, n: usize, w: usize| matches!(r, Some(r) if r.len() == n && r.iter().all(|q| q.len() == w));
            let (r, s) = (rand1(&xc), rand2(&yc));
            if !ok(&r, x.len(), ty.xr()) || !ok(&s, y.len(), ty.yr()) {
                t.l("randomness not readable");
                return Ok(());
            }
            let (r, s) = (r.unwrap(), s.unwrap());
            let mut pf = e.prove(k, &x, &y, &r, &s, &c.p.tt.full(ty.ntheta(), ty.npi()));
            let z = Fr::<E>::zero();
            // full forgery if the key allows it, else the residual confined to one component
            let mut best = e.solve(k, &pf, [z; 4]);
            if best.is_some() && !sat {
                t.l("complete forgery found: key equivocates");
            }
            if best.is_none() {
                for q in 0..4 {
                    let q = (q + *which as usize) % 4;
                    let base = e.residual(k, &pf);
                    for cand in [base[0], base[1], base[2], base[3], base[3] - base[0]] {
                        let mut want = [z; 4];
                        want[q] = cand;
                        best = best.or_else(|| e.solve(k, &pf, want));
                    }
                    if let (None, Some(tr)) = (&best, &key.trap) {
                        // the reachable single-component residual, from the trapdoor functional
                        let w = |a: Fr<E>, b: Fr<E>| [a * b, -a, -b, Fr::<E>::from(1u64)];
                        let f = w(tr.a1, tr.a2);
                        let val: Fr<E> = (0..4).map(|i| f[i] * base[i]).sum();
                        if let Some(inv) = f[q].inverse() {
                            let mut want = [z; 4];
                            want[q] = val * inv;
                            best = e.solve(k, &pf, want);
                        }
                    }
                    if best.is_some() {
                        t.l(format!("residual confined to component {q}"));
                        break;
                    }
                }
            }
            if let Some(b) = best {
                pf = b;
            }
            let mut lp = cproof(&key.bs, ty, &pf);
            lp.xcoms = xc;
            lp.ycoms = yc;
            run(t, &e, &lp, sat, "forged proof over honest commitments")
        }
        Kind::Altered(v, solve) => {
            let Some(k) = &key.m else { return Ok(()) };
            let Some(tr) = &key.trap else { return Ok(()) };
            if k.u[1][1] != tr.a1 * k.u[1][0] || k.v[1][1] != tr.a2 * k.v[1][0] {
                return Ok(()); // not binding: extraction is not defined (C04 and C10 report this)
            }
            let h = c.p.honest(k);
            let (mut e, mut pf) = (h.eq, h.pf);
            warm(t, &cproof(&key.bs, ty, &pf))?;
            for g in v {
                g.apply(&mut e, &mut pf, &mut k.clone());
            }
            if *solve {
                if let Some(p) = e.solve(k, &pf, [Fr::<E>::zero(); 4]) {
                    pf = p;
                }
            }
            let (ex, ey) = open(k, tr, ty, &pf);
            let sat = e.satisfied(&ex, &ey);
            run(t, &e, &cproof(&key.bs, ty, &pf), sat, "altered proof")
        }
    }
}

/// every proof there is, for one key and equation of a tiny group
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct All {
    crs: CrsS,
    eq: EqS,
    off: Sc,
    fix_x: bool,
}
fn all_strat(ty: u8) -> BoxedStrategy<All> {
    (crs_bind(), eqs_ty(Some(ty), Size::Max(1)), sc(), any::<bool>())
        .prop_map(|(crs, eq, off, fix_x)| All { crs, eq, off, fix_x })
        .boxed()
}
fn all<E: Eng>(c: &All, t: &mut Tally) -> Result<(), String> {
    let key = key::<E>(&c.crs);
    let (k, tr) = (key.m.clone().unwrap(), key.trap.unwrap());
    let mut e = c.eq.eq::<Fr<E>>();
    e.t += c.off.f::<Fr<E>>();
    let ty = e.ty;
    let le = AnyEq::<E>::build(&key.bs, &e);
    let q = 3u64;
    let np = ty.npi() + ty.ntheta();
    // x and y commitments (or only y), then the proof
    let free = if c.fix_x { 1 + np } else { 2 + np };
    let total = q.pow(2 * free as u32);
    let g1: Vec<_> = (0..q).map(|i| key.bs.g1(Fr::<E>::from(i))).collect();
    let g2: Vec<_> = (0..q).map(|i| key.bs.g2(Fr::<E>::from(i))).collect();
    let h = PfS { crs: c.crs.clone(), eq: c.eq.clone(), r: GamS::Dense(1), s: GamS::Dense(2), tt: GamS::Dense(3) }.honest(&k);
    let mut lp = cproof(&key.bs, ty, &h.pf);
    let mut mp = h.pf.clone();
    let (mut acc, mut sat_coms) = (0u64, 0u64);
    for id in 0..total {
        let mut w = id;
        let mut dig = || {
            let d = w % q;
            w /= q;
            d as usize
        };
        macro_rules! set {
            ($mv:expr, $lv:expr, $g:expr) => {{
                let (a, b) = (dig(), dig());
                $mv = [Fr::<E>::from(a as u64), Fr::<E>::from(b as u64)];
                $lv.0 = $g[a];
                $lv.1 = $g[b];
            }};
        }
        for i in 0..ty.npi() {
            set!(mp.pi[i], lp.equ_proofs[0].pi[i], g2);
        }
        for i in 0..ty.ntheta() {
            set!(mp.th[i], lp.equ_proofs[0].theta[i], g1);
        }
        set!(mp.d[0], lp.ycoms.coms[0], g2);
        if !c.fix_x {
            set!(mp.c[0], lp.xcoms.coms[0], g1);
        }
        let ok = !refused(|| le.verify(&lp, &key.crs));
        let (ex, ey) = open(&k, &tr, ty, &mp);
        let sat = e.satisfied(&ex, &ey);
        acc += ok as u64;
        sat_coms += sat as u64;
        if ok && !sat {
            return Err(format!("{}: accepted although the committed values violate the equation: {mp:?}", ty.name()));
        }
    }
    t.inner(total);
    t.l(ty.name());
    t.l(if acc > 0 { "some proofs accepted" } else { "statement false for all commitments tried" });
    t.nt(sat_coms < total);
    t.note = Some(format!("{total} proofs, {acc} accepted, {sat_coms} over satisfying commitments"));
    Ok(())
}

fn main() {
    let mut r = Run::from_args(
        "C02",
        "false statements under binding keys: wrong witnesses, proofs moved to other equations, proof elements solved by linear \
         algebra to leave a residual in one component only, arbitrary alterations, plus every possible proof in groups of order 3; \
         an accepted proof whose committed values (by trapdoor) violate the equation is a violation; non-trivial: the committed \
         values do violate the equation",
    );
    r.section("mid", 72000, 432000, || strat(crs_bind(), Size::Big), check::<Mid>);
    r.section("midgen", 36000, 216000, || strat(crs_gen(), Size::Max(5)), check::<Mid>);
    r.section("tiny13", 120000, 720000, || strat(crs_binding(), Size::Max(4)), check::<T13>);
    r.section("tiny3", 120000, 720000, || strat(crs_binding(), Size::Max(3)), check::<T3>);
    r.section("bls", 1000, 6000, || strat(crs_bind(), Size::Small), check::<Bls>);
    r.section("blsgen", 480, 2880, || strat(crs_gen(), Size::Max(2)), check::<Bls>);
    r.section("allproofs quad", 580, 3480, || all_strat(3), all::<T3>);
    r.section("allproofs msmeg1", 130, 780, || all_strat(1), all::<T3>);
    r.section("allproofs msmeg2", 130, 780, || all_strat(2), all::<T3>);
    r.section("allproofs ppe", 32, 192, || all_strat(0), all::<T3>);
    r.section("wide13", 1800, 10800, || strat(crs_bind(), Size::Wide), check::<T13>);
    r.finish()
}
