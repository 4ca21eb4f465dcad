//! C09 Batch, single, append and one-step APIs agree.
use ark_ff::Zero;
use groth_sahai::prover::{CProof, Commit};
use gsv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Lists {
    crs: CrsS,
    group: bool,
    side2: bool,
    vals: Vec<Sc>,
    split: u8,
    rng: RngS,
}
fn lists(hi: usize, wide: bool) -> BoxedStrategy<Lists> {
    let n = if wide { prop_oneof![8 => scs(1, hi), 1 => scs(30, 140), 1 => scs(250, 520)].boxed() } else { scs(1, hi) };
    (crs_any(), any::<bool>(), any::<bool>(), n, any::<u8>(), rngs())
        .prop_map(|(crs, group, side2, vals, split, rng)| Lists { crs, group, side2, vals, split, rng })
        .boxed()
}
fn routes<E: Eng>(c: &Lists, t: &mut Tally) -> Result<(), String> {
    let key = key_plain::<E>(&c.crs);
    let v: Vec<Fr<E>> = fs(&c.vals);
    let n = v.len();
    let hows = [How::Batch, How::Singles, How::Split(c.split as usize % n), How::Split(n / 2)];
    t.nt(n > 1 && v.iter().any(|z| !z.is_zero()));
    t.l(format!("{} {}", if c.group { "group" } else { "scalar" }, if c.side2 { "B2" } else { "B1" }));
    t.l(match n {
        1 => "1 value",
        2..=8 => "2-8 values",
        9..=64 => "9-64 values",
        _ => "65+ values",
    });
    macro_rules! go {
        ($commit:ident) => {{
            let base = $commit(c.group, &key.bs, &v, &key.crs, hows[0], &mut c.rng.rng().r());
            let bytes = ser(&base, true);
            for how in &hows[1..] {
                let o = $commit(c.group, &key.bs, &v, &key.crs, *how, &mut c.rng.rng().r());
                if o != base || o.coms != base.coms || ser(&o, true) != bytes {
                    return Err(format!("{how:?} differs from one batch for {n} values (group {}, side 2 {}) on {}", c.group, c.side2, E::NAME));
                }
            }
            // several batches appended in order
            let cut1 = c.split as usize % (n + 1);
            let cut2 = cut1 + (n - cut1) / 2;
            let mut rng = c.rng.rng();
            let mut acc = None;
            for (lo, hi) in [(0, cut1), (cut1, cut2), (cut2, n)] {
                if lo == hi {
                    continue;
                }
                let mut q = $commit(c.group, &key.bs, &v[lo..hi], &key.crs, How::Batch, &mut rng.r());
                let piece = q.clone();
                match acc.as_mut() {
                    None => acc = Some(q),
                    Some(o) => {
                        let before = o.clone();
                        o.append(&mut q);
                        if !q.coms.is_empty() || ser(&q, false).len() != 16 {
                            return Err("append does not leave the second list empty".into());
                        }
                        if o.coms != [before.coms.clone(), piece.coms.clone()].concat() {
                            return Err("append does not keep both lists in order".into());
                        }
                        // appending the now empty list changes nothing
                        let snap = ser(&*o, true);
                        o.append(&mut q);
                        if ser(&*o, true) != snap {
                            return Err("appending an empty list changes the first".into());
                        }
                    }
                }
            }
            if acc.unwrap() != base {
                return Err(format!("batches of {cut1}, {} and {} appended differ from one batch of {n}", cut2 - cut1, n - cut2));
            }
        }};
    }
    if c.side2 {
        go!(commit_y);
    } else {
        go!(commit_x);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Step {
    crs: CrsS,
    eq: EqS,
    rng: RngS,
    hx: u8,
    hy: u8,
}
fn steps(sz: Size) -> BoxedStrategy<Step> {
    (crs_any(), eqs(sz), rngs(), any::<u8>(), any::<u8>()).prop_map(|(crs, eq, rng, hx, hy)| Step { crs, eq, rng, hx, hy }).boxed()
}
fn one_step<E: Eng>(c: &Step, t: &mut Tally) -> Result<(), String> {
    let key = key_plain::<E>(&c.crs);
    let e = c.eq.eq::<Fr<E>>();
    let ty = e.ty;
    let le = AnyEq::<E>::build(&key.bs, &e);
    let (x, y) = (c.eq.x::<Fr<E>>(), c.eq.y::<Fr<E>>());
    let one = le.commit_and_prove(&key.bs, &x, &y, &key.crs, &mut c.rng.rng().r());
    let mut rng = c.rng.rng();
    let xc = commit_x(ty.xg(), &key.bs, &x, &key.crs, How::of(c.hx), &mut rng.r());
    let yc = commit_y(ty.yg(), &key.bs, &y, &key.crs, How::of(c.hy), &mut rng.r());
    let p = le.prove(&key.bs, &x, &y, &xc, &yc, &key.crs, &mut rng.r());
    let two = CProof { xcoms: xc, ycoms: yc, equ_proofs: vec![p] };
    t.nt(c.eq.nontrivial::<Fr<E>>());
    t.l(ty.name());
    t.l(c.eq.dim_label());
    if one.xcoms != two.xcoms || one.ycoms != two.ycoms {
        return Err(format!("{}: one-step commitments differ from separate ones ({:?}, {:?})", ty.name(), How::of(c.hx), How::of(c.hy)));
    }
    if one != two || one.equ_proofs.len() != 1 || ser(&one.equ_proofs[0], true) != ser(&two.equ_proofs[0], true) {
        return Err(format!("{}: one-step proof differs from committing and then proving", ty.name()));
    }
    Ok(())
}

fn main() {
    let mut r = Run::from_args(
        "C09",
        "the same values and randomness stream sent through one batch, single commitments, mixed splits and several appended batches, \
         and through one-step and two-step proving; all results must be equal, also as bytes; non-trivial: at least two values, not \
         all zero / a non-trivial equation",
    );
    r.section("routes mid", 22000, 150000, || lists(20, true), routes::<Mid>);
    r.section("routes tiny13", 40000, 240000, || lists(20, true), routes::<T13>);
    r.section("routes bls", 1200, 7200, || lists(6, false), routes::<Bls>);
    r.section("one step mid", 32000, 192000, || steps(Size::Big), one_step::<Mid>);
    r.section("one step tiny13", 60000, 360000, || steps(Size::Max(5)), one_step::<T13>);
    r.section("one step wide13", 1200, 7200, || steps(Size::Wide), one_step::<T13>);
    r.section("one step bls", 900, 5400, || steps(Size::Small), one_step::<Bls>);
    r.finish()
}
