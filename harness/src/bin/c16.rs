//! C16 Serialisation round-trips exactly and keeps a stable format.
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use gsv::codec::*;
use groth_sahai::prover::*;
use groth_sahai::*;
use gsv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Case {
    objs: Vec<ObjS>,
    trail: Vec<u8>,
}
fn strat(max: u8) -> BoxedStrategy<Case> {
    (prop::collection::vec(objs(max), 1..=3), prop::collection::vec(any::<u8>(), 0..4))
        .prop_map(|(objs, trail)| Case { objs, trail })
        .boxed()
}
/// delivers at most `n` bytes at a time
struct Slow<'a>(&'a [u8], usize);
impl ark_serialize::Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> ark_std::io::Result<usize> {
        let n = self.1.min(b.len()).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
struct SlowW(Vec<u8>, usize);
impl ark_serialize::Write for SlowW {
    fn write(&mut self, b: &[u8]) -> ark_std::io::Result<usize> {
        let n = self.1.min(b.len());
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> ark_std::io::Result<()> {
        Ok(())
    }
}
fn check<E: Eng>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let vals: Vec<V<E>> = c.objs.iter().map(|o| o.value()).collect();
    let mut built = vec![];
    for (o, v) in c.objs.iter().zip(&vals) {
        let k = o.kind;
        let x = o.object(v)?;
        if !x.public_matches(v) {
            return Err(format!("{k:?}: decoded object has other fields"));
        }
        for compress in [true, false] {
            let want = v.bytes(compress);
            let got = x.bytes(compress);
            let m = if compress { "compressed" } else { "uncompressed" };
            if got != want {
                let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                return Err(format!("{k:?}: {m} encoding is not the concatenation of the fields (length {} / {}, first difference at byte {at})", got.len(), want.len()));
            }
            let (s1, s2) = x.size(compress);
            if s1 != want.len() || s2 != want.len() {
                return Err(format!("{k:?}: announces {s1}/{s2} bytes {m}, writes {}", want.len()));
            }
            let mut w = SlowW(vec![], 1 + c.trail.len());
            x.write(&mut w, compress).map_err(|e| format!("{k:?}: writing piecewise: {e:?}"))?;
            if w.0 != want {
                return Err(format!("{k:?}: writing piecewise gives other bytes"));
            }
            for validate in [true, false] {
                let mut long = want.clone();
                long.extend(&c.trail);
                let mut rd: &[u8] = &long;
                let back = Obj::<E>::read(k, &mut rd, compress, validate).map_err(|e| format!("{k:?}: decoding its own {m} encoding (checked: {validate}): {e:?}"))?;
                if rd != &c.trail[..] {
                    return Err(format!("{k:?}: decoding consumes {} bytes of {}", long.len() - rd.len(), want.len()));
                }
                let named = Obj::<E>::read_named(k, &want, compress, validate).map_err(|e| format!("{k:?}: decoding its own {m} encoding: {e:?}"))?;
                let slow = Obj::<E>::read(k, Slow(&want, 1 + c.trail.len()), compress, validate).map_err(|e| format!("{k:?}: decoding piecewise: {e:?}"))?;
                for b in [&back, &named, &slow] {
                    if !b.equal(&x) || !b.public_matches(v) || b.bytes(true) != v.bytes(true) || b.bytes(false) != v.bytes(false) {
                        return Err(format!("{k:?}: decoding the {m} encoding (checked: {validate}) gives another object"));
                    }
                }
            }
        }
        t.l(format!("{k:?}"));
        let mut sp = vec![];
        v.enc(true, &mut vec![], &mut sp);
        if sp.iter().any(|s| s.what == Field_::Len) && sp.len() > 4 {
            t.l("with list entries");
        }
        built.push(x);
    }
    // different values are different objects with different bytes
    for i in 0..vals.len() {
        for j in 0..i {
            if c.objs[i].kind == c.objs[j].kind && built[i].equal(&built[j]) != (vals[i] == vals[j]) {
                return Err(format!("{:?}: equality of two objects disagrees with their values", c.objs[i].kind));
            }
        }
    }
    // one stream
    for compress in [true, false] {
        let mut s = vec![];
        for x in &built {
            x.write(&mut s, compress).map_err(|e| format!("{e:?}"))?;
        }
        let mut rd: &[u8] = &s;
        for (o, x) in c.objs.iter().zip(&built) {
            let y = Obj::<E>::read(o.kind, &mut rd, compress, true).map_err(|e| format!("{:?} in a stream of objects: {e:?}", o.kind))?;
            if !y.equal(x) {
                return Err(format!("{:?} in a stream of objects decodes to another object", o.kind));
            }
        }
        if !rd.is_empty() {
            return Err("stream of objects not fully consumed".into());
        }
    }
    t.nt(vals.iter().any(|v| v.bytes(true).iter().any(|b| *b != 0)));
    Ok(())
}

/// objects that went through bytes behave like the originals
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Use {
    crs: CrsS,
    eq: EqS,
    other: (GamS, u8),
    rng: RngS,
    how: (u8, u8),
    compress: u8,
    wrong: bool,
}
fn use_strat(sz: Size) -> BoxedStrategy<Use> {
    (crs_any(), eqs(sz), (gam(), any::<u8>()), rngs(), any::<(u8, u8)>(), any::<u8>(), any::<bool>())
        .prop_map(|(crs, eq, other, rng, how, compress, wrong)| Use { crs, eq, other, rng, how, compress, wrong })
        .boxed()
}
fn re<T: CanonicalSerialize + CanonicalDeserialize>(x: &T, how: u8) -> Result<T, String> {
    let (c, v) = (how & 1 == 1, how & 2 == 2);
    let b = ser(x, c);
    T::deserialize_with_mode(&b[..], if c { Compress::Yes } else { Compress::No }, if v { Validate::Yes } else { Validate::No }).map_err(|e| format!("decoding failed: {e:?}"))
}
fn uses<E: Eng>(c: &Use, t: &mut Tally) -> Result<(), String> {
    let k = key_plain::<E>(&c.crs);
    let crs2: CRS<E> = re(&k.crs, c.compress)?;
    let me = c.eq.eq::<Fr<E>>();
    let (x, y) = (c.eq.x::<Fr<E>>(), c.eq.y::<Fr<E>>());
    let (gx, gy) = (me.ty.xg(), me.ty.yg());
    let eq = AnyEq::<E>::build(&k.bs, &me);
    let eq2 = eq.reload(c.compress & 1 == 1)?;
    if !eq2.same(&eq) {
        return Err("reloaded equation differs".into());
    }
    let mut rng = c.rng.rng();
    let xc = commit_x(gx, &k.bs, &x, &k.crs, How::of(c.how.0), &mut rng.r());
    let yc = commit_y(gy, &k.bs, &y, &k.crs, How::of(c.how.1), &mut rng.r());
    let mut rng2 = c.rng.rng();
    let xc2 = commit_x(gx, &k.bs, &x, &crs2, How::of(c.how.0), &mut rng2.r());
    let yc2 = commit_y(gy, &k.bs, &y, &crs2, How::of(c.how.1), &mut rng2.r());
    if xc2 != xc || yc2 != yc {
        return Err("commitments under the reloaded key differ".into());
    }
    let (xr, yr): (Commit1<E>, Commit2<E>) = (re(&xc, c.compress >> 2)?, re(&yc, c.compress >> 4)?);
    if xr != xc || yr != yc {
        return Err("reloaded commitments differ".into());
    }
    // prove with the original objects and with the reloaded ones
    let (mut r1, mut r2) = (rng.clone(), rng2);
    let p1 = eq.prove(&k.bs, &x, &y, &xc, &yc, &k.crs, &mut r1.r());
    let p2 = eq2.prove(&k.bs, &x, &y, &xr, &yr, &crs2, &mut r2.r());
    if p1 != p2 || ser(&p1, false) != ser(&p2, false) {
        return Err("proof made from reloaded objects differs".into());
    }
    let p3: EquProof<E> = re(&p1, c.compress >> 6)?;
    let cp = |x: &Commit1<E>, y: &Commit2<E>, p: &EquProof<E>| CProof { xcoms: x.clone(), ycoms: y.clone(), equ_proofs: vec![p.clone()] };
    // another equation over the reloaded commitments
    let mut m2 = me.clone();
    m2.g = c.other.0.full(x.len(), y.len());
    m2.t = m2.lhs(&x, &y);
    let e2 = AnyEq::<E>::build(&k.bs, &m2);
    let q = e2.prove(&k.bs, &x, &y, &xr, &yr, &crs2, &mut r2.r());
    if !e2.verify(&cp(&xr, &yr, &re(&q, c.other.1)?), &crs2) {
        return Err("second equation over reloaded commitments is rejected".into());
    }
    let mut target = me.clone();
    if c.wrong {
        target.t += Fr::<E>::from(1u64);
    }
    let e = AnyEq::<E>::build(&k.bs, &target);
    let v = [
        e.verify(&cp(&xc, &yc, &p1), &k.crs),
        e.verify(&cp(&xr, &yr, &p3), &crs2),
        e.reload(true)?.verify(&cp(&xr, &yr, &p2), &k.crs),
        e.reload(false)?.verify(&cp(&xc, &yr, &p3), &crs2),
    ];
    if v.iter().any(|b| *b != v[0]) {
        return Err(format!("verdicts before and after reloading differ: {v:?}"));
    }
    if !c.wrong && !v[0] {
        return Err("honest proof rejected".into());
    }
    t.l(me.ty.name());
    t.l(if v[0] { "accepted" } else { "rejected" });
    t.nt(c.eq.nontrivial::<Fr<E>>());
    Ok(())
}

/// the one-byte equation types
fn tags(b: &u8, t: &mut Tally) -> Result<(), String> {
    use groth_sahai::EquType as T;
    let all = [T::PairingProduct, T::MultiScalarG1, T::MultiScalarG2, T::Quadratic];
    let d = T::deserialize_compressed(&[*b][..]).ok();
    let d2 = T::deserialize_uncompressed_unchecked(&[*b, 9][..]).ok();
    let want = all.get(*b as usize).cloned();
    if d != want || d2 != want {
        return Err(format!("byte {b} decodes to {d:?} / {d2:?}"));
    }
    if let Some(w) = want {
        if ser(&w, true) != [*b] || ser(&w, false) != [*b] || w.compressed_size() != 1 || w.uncompressed_size() != 1 {
            return Err(format!("{w:?} is not encoded as the byte {b}"));
        }
        t.l("known tag");
    }
    t.nt(true);
    Ok(())
}

fn main() {
    let mut r = Run::from_args(
        "C16",
        "one to three objects of fourteen kinds (lists of 0 to 40 entries, ragged and rectangular matrices, identity elements and special scalars), \
         both compression modes, checked and unchecked decoding, piecewise readers and writers, trailing bytes and streams of several objects, \
         against an independent field-by-field encoder; reloaded objects used for committing, proving and verifying; non-trivial: some encoded \
         byte is non-zero, respectively the equation is non-trivial",
    );
    r.fixed("tags", (0..=255u8).collect(), tags);
    r.section("format mid", 60000, 360000, || strat(40), check::<Mid>);
    r.section("format tiny13", 48000, 288000, || strat(40), check::<T13>);
    r.section("format bls", 1200, 7200, || strat(5), check::<Bls>);
    r.section("use mid", 22000, 132000, || use_strat(Size::Big), uses::<Mid>);
    r.section("use bls", 270, 1620, || use_strat(Size::Small), uses::<Bls>);
    r.finish()
}
