//! C17 Decoding accepts only valid objects and rejects malformed bytes cleanly.
use ark_ff::{BigInteger, Field, PrimeField, Zero};
use gsv::codec::*;
use gsv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
enum Mut {
    /// a point off the curve, outside the subgroup, of small order, or shifted by one
    Point { which: u16, kind: u8, seed: u64 },
    /// an integer >= the group order in the place of a scalar
    Scalar { which: u16, kind: u8, seed: u64 },
    /// a target-field element of the wrong order
    Target { which: u16, kind: u8, seed: u64 },
    Tag { which: u16, to: u8 },
    Len { which: u16, by: i8 },
    Flip { at: u32, bit: u8 },
    Byte { at: u32, to: u8 },
    /// one field's bytes over another's
    Copy { from: u16, to: u16 },
    Remove { which: u16 },
    Insert { which: u16, n: u8, seed: u64 },
    /// all ones in a field
    Ones { which: u16, keep: u8 },
    Truncate { at: u32 },
    Random { n: u8, seed: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Case {
    obj: ObjS,
    compress: bool,
    muts: Vec<Mut>,
}
fn mutation() -> BoxedStrategy<Mut> {
    let w = || any::<u16>();
    prop_oneof![
        6 => (w(), 0u8..4, any::<u64>()).prop_map(|(which, kind, seed)| Mut::Point { which, kind, seed }),
        3 => (w(), 0u8..5, any::<u64>()).prop_map(|(which, kind, seed)| Mut::Scalar { which, kind, seed }),
        3 => (w(), 0u8..5, any::<u64>()).prop_map(|(which, kind, seed)| Mut::Target { which, kind, seed }),
        3 => (w(), prop_oneof![Just(4u8), Just(5), Just(128), Just(255), 4u8..=255]).prop_map(|(which, to)| Mut::Tag { which, to }),
        2 => (w(), -3i8..=3).prop_map(|(which, by)| Mut::Len { which, by }),
        3 => (any::<u32>(), 0u8..8).prop_map(|(at, bit)| Mut::Flip { at, bit }),
        2 => (any::<u32>(), any::<u8>()).prop_map(|(at, to)| Mut::Byte { at, to }),
        2 => (w(), w()).prop_map(|(from, to)| Mut::Copy { from, to }),
        1 => w().prop_map(|which| Mut::Remove { which }),
        1 => (w(), 1u8..40, any::<u64>()).prop_map(|(which, n, seed)| Mut::Insert { which, n, seed }),
        2 => (w(), any::<u8>()).prop_map(|(which, keep)| Mut::Ones { which, keep }),
        2 => any::<u32>().prop_map(|at| Mut::Truncate { at }),
        1 => (any::<u8>(), any::<u64>()).prop_map(|(n, seed)| Mut::Random { n, seed }),
    ]
    .boxed()
}
fn strat(max: u8) -> BoxedStrategy<Case> {
    (objs(max), any::<bool>(), prop_oneof![6 => prop::collection::vec(mutation(), 1..=1), 1 => prop::collection::vec(mutation(), 2..=4)])
        .prop_map(|(obj, compress, muts)| Case { obj, compress, muts })
        .boxed()
}
fn noise(seed: u64, n: usize) -> Vec<u8> {
    let mut s = seed;
    (0..n).map(|_| splitmix(&mut s) as u8).collect()
}
fn bad_gt<E: Eng>(kind: u8, seed: u64, valid: E::TargetField) -> E::TargetField {
    let rand = || {
        let d = E::TargetField::extension_degree();
        type B<E> = <<E as ark_ec::pairing::Pairing>::TargetField as Field>::BasePrimeField;
        E::TargetField::from_base_prime_field_elems((0..d).map(|i| field_from_seed::<B<E>>(seed.wrapping_add(i << 33)))).unwrap()
    };
    match kind {
        0 => E::TargetField::zero(),
        1 => rand(),
        2 => rand().pow(Fr::<E>::MODULUS.as_ref()),
        3 => valid * rand().pow(Fr::<E>::MODULUS.as_ref()),
        _ => -valid,
    }
}
fn apply<E: Eng>(m: &Mut, b: &mut Vec<u8>, spans: &[Span], c: bool, t: &mut Tally) {
    let pick = |w: u16, f: &dyn Fn(Field_) -> bool| -> Option<Span> {
        let v: Vec<&Span> = spans.iter().filter(|s| f(s.what)).collect();
        if v.is_empty() {
            None
        } else {
            Some(*v[w as usize % v.len()])
        }
    };
    let put = |b: &mut Vec<u8>, s: Span, new: &[u8]| {
        if s.at + s.len <= b.len() && new.len() == s.len {
            b[s.at..s.at + s.len].copy_from_slice(new);
        }
    };
    let n = b.len();
    match m {
        Mut::Point { which, kind, seed } => {
            if let Some(s) = pick(*which, &|f| matches!(f, Field_::G1 | Field_::G2)) {
                let v: V<E> = if s.what == Field_::G1 { V::G1(E::odd1(*kind, *seed)) } else { V::G2(E::odd2(*kind, *seed)) };
                put(b, s, &v.bytes(c));
                t.l(["point off the curve", "random curve point", "small-order point", "valid plus small-order point"][*kind as usize]);
            }
        }
        Mut::Scalar { which, kind, seed } => {
            if let Some(s) = pick(*which, &|f| f == Field_::Fr) {
                let mut r = Fr::<E>::MODULUS;
                match kind {
                    0 => {}
                    1 => {
                        r.add_with_carry(&<Fr<E> as PrimeField>::BigInt::from((*seed & 0xff) as u8));
                    }
                    2 => {
                        r.mul2();
                    }
                    _ => {}
                }
                let mut v = r.to_bytes_le();
                v.truncate(s.len);
                if *kind == 3 {
                    v = vec![0xff; s.len];
                }
                if *kind == 4 {
                    v = noise(*seed, s.len);
                }
                put(b, s, &v);
                t.l("scalar replaced");
            }
        }
        Mut::Target { which, kind, seed } => {
            if let Some(s) = pick(*which, &|f| f == Field_::Gt) {
                let valid = Bases::<E>::std().bt.0;
                put(b, s, &V::<E>::Gt(bad_gt::<E>(*kind, *seed, valid)).bytes(c));
                t.l("target element replaced");
            }
        }
        Mut::Tag { which, to } => {
            if let Some(s) = pick(*which, &|f| f == Field_::Tag) {
                put(b, s, &[*to]);
                t.l("unknown tag");
            }
        }
        Mut::Len { which, by } => {
            if let Some(s) = pick(*which, &|f| f == Field_::Len) {
                if s.at + 8 <= n {
                    let old = u64::from_le_bytes(b[s.at..s.at + 8].try_into().unwrap());
                    put(b, s, &(old.saturating_add_signed(*by as i64)).to_le_bytes());
                    t.l("list length changed");
                }
            }
        }
        Mut::Flip { at, bit } => {
            if n > 0 {
                b[*at as usize % n] ^= 1 << bit;
                t.l("bit flipped");
            }
        }
        Mut::Byte { at, to } => {
            if n > 0 {
                b[*at as usize % n] = *to;
                t.l("byte replaced");
            }
        }
        Mut::Copy { from, to } => {
            if let (Some(f), Some(g)) = (pick(*from, &|_| true), pick(*to, &|_| true)) {
                if f.at + f.len <= n && g.at + g.len <= n {
                    let src = b[f.at..f.at + f.len].to_vec();
                    let k = f.len.min(g.len);
                    b[g.at..g.at + k].copy_from_slice(&src[..k]);
                    t.l("field copied");
                }
            }
        }
        Mut::Remove { which } => {
            if let Some(s) = pick(*which, &|_| true) {
                if s.at + s.len <= n {
                    b.drain(s.at..s.at + s.len);
                    t.l("field removed");
                }
            }
        }
        Mut::Insert { which, n: k, seed } => {
            if let Some(s) = pick(*which, &|_| true) {
                if s.at <= n {
                    let v = noise(*seed, *k as usize);
                    b.splice(s.at..s.at, v);
                    t.l("bytes inserted");
                }
            }
        }
        Mut::Ones { which, keep } => {
            if let Some(s) = pick(*which, &|f| f != Field_::Len) {
                if s.at + s.len <= n {
                    let k = *keep as usize % s.len.min(2);
                    for q in s.at + k..s.at + s.len - k {
                        b[q] = 0xff;
                    }
                    t.l("field all ones");
                }
            }
        }
        Mut::Truncate { at } => {
            b.truncate(if n == 0 { 0 } else { *at as usize % n });
            t.l("truncated");
        }
        Mut::Random { n: k, seed } => {
            *b = noise(*seed, *k as usize);
            // lists of plausible length
            let mut p = 0;
            while p + 8 <= b.len() {
                for z in 1..8 {
                    b[p + z] = 0;
                }
                b[p] &= 7;
                p += 8;
            }
            t.l("random bytes");
        }
    }
}
/// decodes `b` in every way and compares with the reference decoder
fn judge<E: Eng>(k: Kind, b: &[u8], c: bool, t: &mut Tally) -> Result<bool, String> {
    let mut rest = b;
    let want = V::<E>::dec(&k.layout(), &mut rest, c);
    if want == Err(DecErr::Huge) {
        t.l("skipped: list longer than the harness tries");
        return Ok(false);
    }
    let m = if c { "compressed" } else { "uncompressed" };
    let got = quiet(|| Obj::<E>::read_named(k, b, c, true)).map_err(|p| format!("{k:?} {m}: decoding {} bytes panics: {p}", b.len()))?;
    match (&want, got) {
        (Err(e), Ok(_)) => return Err(format!("{k:?} {m}: decoding {} malformed bytes ({e:?}) succeeds on {}", b.len(), E::NAME)),
        (Err(_), Err(_)) => t.l("refused: not decodable"),
        (Ok(v), Ok(o)) => {
            v.validity().map_err(|why| format!("{k:?} {m}: checked decoding yields an object with a {why} on {}", E::NAME))?;
            if o.bytes(false) != v.bytes(false) {
                return Err(format!("{k:?} {m}: decoded object differs from the bytes' meaning"));
            }
            t.l("accepted: valid");
        }
        (Ok(v), Err(_)) => t.l(if v.validity().is_err() { "refused: invalid element" } else { "refused: valid elements" }),
    }
    // without validation, truncations and unknown tags are still errors
    if want.is_err() {
        let un = quiet(|| Obj::<E>::read_named(k, b, c, false)).map_err(|p| format!("{k:?} {m}: unchecked decoding of {} malformed bytes panics: {p}", b.len()))?;
        if un.is_ok() {
            return Err(format!("{k:?} {m}: unchecked decoding of {} malformed bytes succeeds on {}", b.len(), E::NAME));
        }
    }
    Ok(true)
}
fn check<E: Eng>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let v: V<E> = c.obj.value();
    let (mut b, mut spans) = (vec![], vec![]);
    v.enc(c.compress, &mut b, &mut spans);
    let orig = b.clone();
    for m in &c.muts {
        apply::<E>(m, &mut b, &spans, c.compress, t);
    }
    t.l(format!("{:?}", c.obj.kind));
    let tried = judge::<E>(c.obj.kind, &b, c.compress, t)?;
    t.nt(tried && b != orig);
    Ok(())
}

/// every prefix of an encoding, and readers that fail after that many bytes
struct Failing<'a>(&'a [u8]);
impl ark_serialize::Read for Failing<'_> {
    fn read(&mut self, b: &mut [u8]) -> ark_std::io::Result<usize> {
        if self.0.is_empty() && !b.is_empty() {
            return Err(ark_std::io::Error::new(ark_std::io::ErrorKind::Other, "failing reader"));
        }
        let n = b.len().min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
fn prefixes<E: Eng>(o: &ObjS, t: &mut Tally) -> Result<(), String> {
    let v: V<E> = o.value();
    for c in [true, false] {
        let (mut b, mut spans) = (vec![], vec![]);
        v.enc(c, &mut b, &mut spans);
        let all = b.len() <= 400;
        for n in 0..b.len() {
            // long encodings: around every field boundary, and a sample of the rest
            if !all && n % 17 != 0 && !spans.iter().any(|s| n + 1 >= s.at && n <= s.at + 1) {
                continue;
            }
            for validate in [true, false] {
                let r = quiet(|| Obj::<E>::read_named(o.kind, &b[..n], c, validate).is_ok());
                if r != Ok(false) {
                    return Err(format!("{:?}: the first {n} of {} bytes (compressed: {c}, checked: {validate}) give {r:?} instead of an error", o.kind, b.len()));
                }
            }
            let r = quiet(|| Obj::<E>::read(o.kind, Failing(&b[..n]), c, n % 2 == 0).is_ok());
            if r != Ok(false) {
                return Err(format!("{:?}: a reader failing after {n} bytes gives {r:?}", o.kind));
            }
            t.inner(3);
        }
    }
    t.l(format!("{:?}", o.kind));
    t.nt(v.bytes(true).len() > 1);
    Ok(())
}

fn main() {
    let mut r = Run::from_args(
        "C17",
        "encodings of generated objects with one to four corruptions (points off the curve, outside the subgroup or of small order, scalars >= r, \
         target elements of the wrong order, unknown tags, lengths, bit flips, copied, removed or inserted fields, random bytes), compared with a \
         reference decoder and checked element by element; every prefix of encodings; non-trivial: the bytes differ from the valid encoding and \
         decoding was attempted, respectively more than one byte long",
    );
    r.section("corrupt mid", 800000, 4800000, || strat(8), check::<Mid>);
    r.section("corrupt tiny13", 600000, 3600000, || strat(8), check::<T13>);
    r.section("corrupt bls", 26000, 156000, || strat(4), check::<Bls>);
    r.section("prefixes mid", 12000, 72000, || objs(8), prefixes::<Mid>);
    r.section("prefixes bls", 600, 3600, || objs(3), prefixes::<Bls>);
    r.assume("list lengths above 65536 are not decoded: reserving memory for a hostile length prefix is ark-serialize's");
    r.finish()
}
