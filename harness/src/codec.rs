//! Reference encoding: objects as trees of field values, encoded and decoded element by element,
//! without the library's own (derived) serialisers.

use crate::eng::*;
use ark_ec::{pairing::PairingOutput, AffineRepr};
use ark_ff::{Field, One, PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, SerializationError, Validate};
use groth_sahai::prover::*;
use groth_sahai::statement::*;
use groth_sahai::*;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum L {
    G1,
    G2,
    Fr,
    Gt,
    Tag,
    Vec(Box<L>),
    Seq(Vec<L>),
}

/// the serialisable kinds of objects
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Kind {
    Crs,
    Commit1,
    Commit2,
    EquProof,
    Ppe,
    Msmeg1,
    Msmeg2,
    Quad,
    EquType,
    Com1,
    Com2,
    /// several objects in one stream
    ManyProofs,
    ManyCommits,
    ManyTypes,
}
pub const KINDS: [Kind; 14] = [
    Kind::Crs,
    Kind::Commit1,
    Kind::Commit2,
    Kind::EquProof,
    Kind::Ppe,
    Kind::Msmeg1,
    Kind::Msmeg2,
    Kind::Quad,
    Kind::EquType,
    Kind::Com1,
    Kind::Com2,
    Kind::ManyProofs,
    Kind::ManyCommits,
    Kind::ManyTypes,
];
impl Kind {
    pub fn layout(self) -> L {
        use L::*;
        let v = |l: L| Vec(Box::new(l));
        let c1 = || Seq(vec![G1, G1]);
        let c2 = || Seq(vec![G2, G2]);
        let mat = || v(v(Fr));
        match self {
            Kind::Crs => Seq(vec![v(c1()), v(c2()), G1, G2, Gt]),
            Kind::Commit1 => Seq(vec![v(c1()), mat()]),
            Kind::Commit2 => Seq(vec![v(c2()), mat()]),
            Kind::EquProof => Seq(vec![v(c2()), v(c1()), Tag, mat()]),
            Kind::Ppe => Seq(vec![v(G1), v(G2), mat(), Gt]),
            Kind::Msmeg1 => Seq(vec![v(G1), v(Fr), mat(), G1]),
            Kind::Msmeg2 => Seq(vec![v(Fr), v(G2), mat(), G2]),
            Kind::Quad => Seq(vec![v(Fr), v(Fr), mat(), Fr]),
            Kind::EquType => Tag,
            Kind::Com1 => c1(),
            Kind::Com2 => c2(),
            Kind::ManyProofs => v(Kind::EquProof.layout()),
            Kind::ManyCommits => v(Kind::Commit1.layout()),
            Kind::ManyTypes => v(Tag),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum V<E: Eng> {
    G1(G1A<E>),
    G2(G2A<E>),
    Fr(Fr<E>),
    Gt(E::TargetField),
    Tag(u8),
    Vec(Vec<V<E>>),
    Seq(Vec<V<E>>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Field_ {
    Len,
    G1,
    G2,
    Fr,
    Gt,
    Tag,
}
#[derive(Clone, Copy, Debug)]
pub struct Span {
    pub at: usize,
    pub len: usize,
    pub what: Field_,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DecErr {
    Short,
    Invalid,
    /// a list length beyond what the harness is willing to try
    Huge,
}
pub const MAX_LEN: u64 = 1 << 16;

impl<E: Eng> V<E> {
    pub fn enc(&self, c: bool, out: &mut Vec<u8>, spans: &mut Vec<Span>) {
        let at = out.len();
        let mode = if c { Compress::Yes } else { Compress::No };
        let what = match self {
            V::G1(p) => {
                p.serialize_with_mode(&mut *out, mode).unwrap();
                Field_::G1
            }
            V::G2(p) => {
                p.serialize_with_mode(&mut *out, mode).unwrap();
                Field_::G2
            }
            V::Fr(p) => {
                // little-endian canonical integer, fixed width
                let mut b = vec![];
                for w in p.into_bigint().as_ref() {
                    b.extend(w.to_le_bytes());
                }
                b.truncate((Fr::<E>::MODULUS_BIT_SIZE as usize + 7) / 8);
                out.extend(b);
                Field_::Fr
            }
            V::Gt(p) => {
                p.serialize_with_mode(&mut *out, mode).unwrap();
                Field_::Gt
            }
            V::Tag(t) => {
                out.push(*t);
                Field_::Tag
            }
            V::Vec(v) => {
                out.extend((v.len() as u64).to_le_bytes());
                spans.push(Span { at, len: 8, what: Field_::Len });
                for x in v {
                    x.enc(c, out, spans);
                }
                return;
            }
            V::Seq(v) => {
                for x in v {
                    x.enc(c, out, spans);
                }
                return;
            }
        };
        spans.push(Span { at, len: out.len() - at, what });
    }
    pub fn bytes(&self, c: bool) -> Vec<u8> {
        let mut o = vec![];
        self.enc(c, &mut o, &mut vec![]);
        o
    }
    /// element-wise decoding without validity checks beyond the encodings of the elements
    pub fn dec(l: &L, b: &mut &[u8], c: bool) -> Result<V<E>, DecErr> {
        let mode = if c { Compress::Yes } else { Compress::No };
        macro_rules! elem {
            ($T:ty, $w:ident) => {{
                let n = <$T>::default().serialized_size(mode);
                if b.len() < n {
                    return Err(DecErr::Short);
                }
                let (h, t) = b.split_at(n);
                *b = t;
                <$T>::deserialize_with_mode(h, mode, Validate::No).map(V::$w).map_err(|_| DecErr::Invalid)
            }};
        }
        match l {
            L::G1 => elem!(G1A<E>, G1),
            L::G2 => elem!(G2A<E>, G2),
            L::Fr => elem!(Fr<E>, Fr),
            L::Gt => elem!(E::TargetField, Gt),
            L::Tag => {
                let Some((t, r)) = b.split_first() else { return Err(DecErr::Short) };
                *b = r;
                if *t > 3 {
                    return Err(DecErr::Invalid);
                }
                Ok(V::Tag(*t))
            }
            L::Vec(l) => {
                if b.len() < 8 {
                    return Err(DecErr::Short);
                }
                let (h, t) = b.split_at(8);
                *b = t;
                let n = u64::from_le_bytes(h.try_into().unwrap());
                if n > MAX_LEN {
                    return Err(DecErr::Huge);
                }
                let mut v = vec![];
                for _ in 0..n {
                    v.push(V::dec(l, b, c)?);
                }
                Ok(V::Vec(v))
            }
            L::Seq(ls) => {
                let mut v = vec![];
                for l in ls {
                    v.push(V::dec(l, b, c)?);
                }
                Ok(V::Seq(v))
            }
        }
    }
    /// every element is what it claims to be, checked from first principles
    pub fn validity(&self) -> Result<(), String> {
        let r = Fr::<E>::MODULUS;
        match self {
            V::G1(p) => {
                let q = p.into_group();
                if !E::on_curve1(p) {
                    return Err("G1 point off the curve".into());
                }
                if !mul_bits(q, r.as_ref()).is_zero() {
                    return Err("G1 point outside the prime-order subgroup".into());
                }
            }
            V::G2(p) => {
                let q = p.into_group();
                if !E::on_curve2(p) {
                    return Err("G2 point off the curve".into());
                }
                if !mul_bits(q, r.as_ref()).is_zero() {
                    return Err("G2 point outside the prime-order subgroup".into());
                }
            }
            V::Gt(f) => {
                if f.is_zero() || !f.pow(r.as_ref()).is_one() {
                    return Err("target-group element of the wrong order".into());
                }
            }
            V::Fr(s) => {
                if s.into_bigint() >= r {
                    return Err("non-canonical scalar".into());
                }
            }
            V::Tag(t) => {
                if *t > 3 {
                    return Err("unknown tag".into());
                }
            }
            V::Vec(v) | V::Seq(v) => {
                for x in v {
                    x.validity()?;
                }
            }
        }
        Ok(())
    }
}
// ---- the library's objects ------------------------------------------------------------------

pub enum Obj<E: Eng> {
    Crs(CRS<E>),
    Commit1(Commit1<E>),
    Commit2(Commit2<E>),
    EquProof(EquProof<E>),
    Ppe(PPE<E>),
    Msmeg1(MSMEG1<E>),
    Msmeg2(MSMEG2<E>),
    Quad(QuadEqu<E>),
    EquType(EquType),
    Com1(Com1<E>),
    Com2(Com2<E>),
    ManyProofs(Vec<EquProof<E>>),
    ManyCommits(Vec<Commit1<E>>),
    ManyTypes(Vec<EquType>),
}
macro_rules! each {
    ($self:expr, $x:ident => $e:expr) => {
        match $self {
            Obj::Crs($x) => $e,
            Obj::Commit1($x) => $e,
            Obj::Commit2($x) => $e,
            Obj::EquProof($x) => $e,
            Obj::Ppe($x) => $e,
            Obj::Msmeg1($x) => $e,
            Obj::Msmeg2($x) => $e,
            Obj::Quad($x) => $e,
            Obj::EquType($x) => $e,
            Obj::Com1($x) => $e,
            Obj::Com2($x) => $e,
            Obj::ManyProofs($x) => $e,
            Obj::ManyCommits($x) => $e,
            Obj::ManyTypes($x) => $e,
        }
    };
}
impl<E: Eng> Obj<E> {
    pub fn read<R: ark_serialize::Read>(k: Kind, r: R, c: bool, validate: bool) -> Result<Obj<E>, SerializationError> {
        let m = if c { Compress::Yes } else { Compress::No };
        let v = if validate { Validate::Yes } else { Validate::No };
        Ok(match k {
            Kind::Crs => Obj::Crs(CanonicalDeserialize::deserialize_with_mode(r, m, v)?),
            Kind::Commit1 => Obj::Commit1(CanonicalDeserialize::deserialize_with_mode(r, m, v)?),
            Kind::Commit2 => Obj::Commit2(CanonicalDeserialize::deserialize_with_mode(r, m, v)?),
            Kind::EquProof => Obj::EquProof(CanonicalDeserialize::deserialize_with_mode(r, m, v)?),
            Kind::Ppe => Obj::Ppe(CanonicalDeserialize::deserialize_with_mode(r, m, v)?),
            Kind::Msmeg1 => Obj::Msmeg1(CanonicalDeserialize::deserialize_with_mode(r, m, v)?),
            Kind::Msmeg2 => Obj::Msmeg2(CanonicalDeserialize::deserialize_with_mode(r, m, v)?),
            Kind::Quad => Obj::Quad(CanonicalDeserialize::deserialize_with_mode(r, m, v)?),
            Kind::EquType => Obj::EquType(CanonicalDeserialize::deserialize_with_mode(r, m, v)?),
            Kind::Com1 => Obj::Com1(CanonicalDeserialize::deserialize_with_mode(r, m, v)?),
            Kind::Com2 => Obj::Com2(CanonicalDeserialize::deserialize_with_mode(r, m, v)?),
            Kind::ManyProofs => Obj::ManyProofs(CanonicalDeserialize::deserialize_with_mode(r, m, v)?),
            Kind::ManyCommits => Obj::ManyCommits(CanonicalDeserialize::deserialize_with_mode(r, m, v)?),
            Kind::ManyTypes => Obj::ManyTypes(CanonicalDeserialize::deserialize_with_mode(r, m, v)?),
        })
    }
    /// through the four named entry points
    pub fn read_named(k: Kind, r: &[u8], c: bool, validate: bool) -> Result<Obj<E>, SerializationError> {
        fn go<T: CanonicalDeserialize>(r: &[u8], c: bool, v: bool) -> Result<T, SerializationError> {
            match (c, v) {
                (true, true) => T::deserialize_compressed(r),
                (true, false) => T::deserialize_compressed_unchecked(r),
                (false, true) => T::deserialize_uncompressed(r),
                (false, false) => T::deserialize_uncompressed_unchecked(r),
            }
        }
        Ok(match k {
            Kind::Crs => Obj::Crs(go(r, c, validate)?),
            Kind::Commit1 => Obj::Commit1(go(r, c, validate)?),
            Kind::Commit2 => Obj::Commit2(go(r, c, validate)?),
            Kind::EquProof => Obj::EquProof(go(r, c, validate)?),
            Kind::Ppe => Obj::Ppe(go(r, c, validate)?),
            Kind::Msmeg1 => Obj::Msmeg1(go(r, c, validate)?),
            Kind::Msmeg2 => Obj::Msmeg2(go(r, c, validate)?),
            Kind::Quad => Obj::Quad(go(r, c, validate)?),
            Kind::EquType => Obj::EquType(go(r, c, validate)?),
            Kind::Com1 => Obj::Com1(go(r, c, validate)?),
            Kind::Com2 => Obj::Com2(go(r, c, validate)?),
            Kind::ManyProofs => Obj::ManyProofs(go(r, c, validate)?),
            Kind::ManyCommits => Obj::ManyCommits(go(r, c, validate)?),
            Kind::ManyTypes => Obj::ManyTypes(go(r, c, validate)?),
        })
    }
    pub fn write<W: ark_serialize::Write>(&self, w: W, c: bool) -> Result<(), SerializationError> {
        let m = if c { Compress::Yes } else { Compress::No };
        each!(self, x => x.serialize_with_mode(w, m))
    }
    pub fn bytes(&self, c: bool) -> Vec<u8> {
        let mut b = vec![];
        if c {
            each!(self, x => x.serialize_compressed(&mut b)).unwrap();
        } else {
            each!(self, x => x.serialize_uncompressed(&mut b)).unwrap();
        }
        b
    }
    pub fn size(&self, c: bool) -> (usize, usize) {
        let m = if c { Compress::Yes } else { Compress::No };
        each!(self, x => (x.serialized_size(m), if c { x.compressed_size() } else { x.uncompressed_size() }))
    }
    /// the library's own equality (keys have none: compared field by field)
    pub fn equal(&self, o: &Self) -> bool {
        match (self, o) {
            (Obj::Crs(a), Obj::Crs(b)) => a.u == b.u && a.v == b.v && a.g1_gen == b.g1_gen && a.g2_gen == b.g2_gen && a.gt_gen == b.gt_gen,
            (Obj::Commit1(a), Obj::Commit1(b)) => a == b,
            (Obj::Commit2(a), Obj::Commit2(b)) => a == b,
            (Obj::EquProof(a), Obj::EquProof(b)) => a == b,
            (Obj::Ppe(a), Obj::Ppe(b)) => a == b,
            (Obj::Msmeg1(a), Obj::Msmeg1(b)) => a == b,
            (Obj::Msmeg2(a), Obj::Msmeg2(b)) => a == b,
            (Obj::Quad(a), Obj::Quad(b)) => a == b,
            (Obj::EquType(a), Obj::EquType(b)) => a == b,
            (Obj::Com1(a), Obj::Com1(b)) => a == b,
            (Obj::Com2(a), Obj::Com2(b)) => a == b,
            (Obj::ManyProofs(a), Obj::ManyProofs(b)) => a == b,
            (Obj::ManyCommits(a), Obj::ManyCommits(b)) => a == b,
            (Obj::ManyTypes(a), Obj::ManyTypes(b)) => a == b,
            _ => false,
        }
    }
    /// the object's public parts, in the shape of its layout; private randomness as None
    pub fn public(&self) -> Vec<Option<V<E>>> {
        fn c1<E: Eng>(v: &[Com1<E>]) -> V<E> {
            V::Vec(v.iter().map(|c| V::Seq(vec![V::G1(c.0), V::G1(c.1)])).collect())
        }
        fn c2<E: Eng>(v: &[Com2<E>]) -> V<E> {
            V::Vec(v.iter().map(|c| V::Seq(vec![V::G2(c.0), V::G2(c.1)])).collect())
        }
        fn g1<E: Eng>(v: &[G1A<E>]) -> V<E> {
            V::Vec(v.iter().map(|c| V::G1(*c)).collect())
        }
        fn g2<E: Eng>(v: &[G2A<E>]) -> V<E> {
            V::Vec(v.iter().map(|c| V::G2(*c)).collect())
        }
        fn fr<E: Eng>(v: &[Fr<E>]) -> V<E> {
            V::Vec(v.iter().map(|c| V::Fr(*c)).collect())
        }
        fn mat<E: Eng>(v: &[Vec<Fr<E>>]) -> V<E> {
            V::Vec(v.iter().map(|c| fr::<E>(c)).collect())
        }
        let s = |v: Vec<V<E>>| v.into_iter().map(Some).collect::<Vec<_>>();
        match self {
            Obj::Crs(k) => s(vec![c1(&k.u), c2(&k.v), V::G1(k.g1_gen), V::G2(k.g2_gen), V::Gt(k.gt_gen.0)]),
            Obj::Commit1(c) => vec![Some(c1(&c.coms)), None],
            Obj::Commit2(c) => vec![Some(c2(&c.coms)), None],
            Obj::EquProof(p) => vec![Some(c2(&p.pi)), Some(c1(&p.theta)), Some(V::Tag(tag_of(&p.equ_type))), None],
            Obj::Ppe(e) => s(vec![g1(&e.a_consts), g2(&e.b_consts), mat(&e.gamma), V::Gt(e.target.0)]),
            Obj::Msmeg1(e) => s(vec![g1(&e.a_consts), fr(&e.b_consts), mat(&e.gamma), V::G1(e.target)]),
            Obj::Msmeg2(e) => s(vec![fr(&e.a_consts), g2(&e.b_consts), mat(&e.gamma), V::G2(e.target)]),
            Obj::Quad(e) => s(vec![fr(&e.a_consts), fr(&e.b_consts), mat(&e.gamma), V::Fr(e.target)]),
            Obj::EquType(t) => s(vec![V::Tag(tag_of(t))]),
            Obj::Com1(c) => s(vec![V::G1(c.0), V::G1(c.1)]),
            Obj::Com2(c) => s(vec![V::G2(c.0), V::G2(c.1)]),
            Obj::ManyProofs(_) | Obj::ManyCommits(_) => vec![None],
            Obj::ManyTypes(v) => s(vec![V::Vec(v.iter().map(|t| V::Tag(tag_of(t))).collect())]),
        }
    }
    pub fn public_matches(&self, v: &V<E>) -> bool {
        let p = self.public();
        match v {
            V::Seq(parts) => parts.len() == p.len() && parts.iter().zip(&p).all(|(a, b)| b.as_ref().map_or(true, |b| a == b)),
            other => p.len() == 1 && p[0].as_ref().map_or(true, |b| other == b),
        }
    }
    /// built through public constructors, where the type has them
    pub fn construct(k: Kind, v: &V<E>) -> Option<Obj<E>> {
        let V::Seq(p) = v else {
            return match (k, v) {
                (Kind::EquType, V::Tag(t)) => Some(Obj::EquType(tag(*t))),
                (Kind::ManyTypes, V::Vec(w)) => Some(Obj::ManyTypes(w.iter().map(|x| if let V::Tag(t) = x { tag(*t) } else { unreachable!() }).collect())),
                _ => None,
            };
        };
        fn list<E: Eng, T>(v: &V<E>, f: impl Fn(&V<E>) -> T) -> Vec<T> {
            match v {
                V::Vec(w) => w.iter().map(f).collect(),
                _ => unreachable!(),
            }
        }
        fn g1<E: Eng>(v: &V<E>) -> G1A<E> {
            if let V::G1(p) = v { *p } else { unreachable!() }
        }
        fn g2<E: Eng>(v: &V<E>) -> G2A<E> {
            if let V::G2(p) = v { *p } else { unreachable!() }
        }
        fn fr<E: Eng>(v: &V<E>) -> Fr<E> {
            if let V::Fr(p) = v { *p } else { unreachable!() }
        }
        fn gt<E: Eng>(v: &V<E>) -> PairingOutput<E> {
            if let V::Gt(p) = v { PairingOutput(*p) } else { unreachable!() }
        }
        fn c1<E: Eng>(v: &V<E>) -> Com1<E> {
            if let V::Seq(p) = v { Com1(g1(&p[0]), g1(&p[1])) } else { unreachable!() }
        }
        fn c2<E: Eng>(v: &V<E>) -> Com2<E> {
            if let V::Seq(p) = v { Com2(g2(&p[0]), g2(&p[1])) } else { unreachable!() }
        }
        fn mat<E: Eng>(v: &V<E>) -> Vec<Vec<Fr<E>>> {
            list(v, |r| list(r, |x| fr(x)))
        }
        Some(match k {
            Kind::Crs => Obj::Crs(CRS { u: list(&p[0], c1), v: list(&p[1], c2), g1_gen: g1(&p[2]), g2_gen: g2(&p[3]), gt_gen: gt(&p[4]) }),
            Kind::Ppe => Obj::Ppe(PPE { a_consts: list(&p[0], g1), b_consts: list(&p[1], g2), gamma: mat(&p[2]), target: gt(&p[3]) }),
            Kind::Msmeg1 => Obj::Msmeg1(MSMEG1 { a_consts: list(&p[0], g1), b_consts: list(&p[1], fr), gamma: mat(&p[2]), target: g1(&p[3]) }),
            Kind::Msmeg2 => Obj::Msmeg2(MSMEG2 { a_consts: list(&p[0], fr), b_consts: list(&p[1], g2), gamma: mat(&p[2]), target: g2(&p[3]) }),
            Kind::Quad => Obj::Quad(QuadEqu { a_consts: list(&p[0], fr), b_consts: list(&p[1], fr), gamma: mat(&p[2]), target: fr(&p[3]) }),
            Kind::Com1 => Obj::Com1(c1(v)),
            Kind::Com2 => Obj::Com2(c2(v)),
            _ => return None,
        })
    }
}
pub fn tag(t: u8) -> EquType {
    [EquType::PairingProduct, EquType::MultiScalarG1, EquType::MultiScalarG2, EquType::Quadratic][t as usize].clone()
}
pub fn tag_of(t: &EquType) -> u8 {
    match t {
        EquType::PairingProduct => 0,
        EquType::MultiScalarG1 => 1,
        EquType::MultiScalarG2 => 2,
        EquType::Quadratic => 3,
    }
}

// ---- generated objects ----------------------------------------------------------------------

use crate::spec::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// an object of a kind: list lengths and element values are taken cyclically
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct ObjS {
    pub kind: Kind,
    pub lens: Vec<u8>,
    /// matrices with rows of equal length
    pub rect: bool,
    pub vals: Vec<Sc>,
    pub seed: u64,
}
pub fn objs(max: u8) -> BoxedStrategy<ObjS> {
    let len = prop_oneof![1 => Just(0u8), 2 => Just(1u8), 3 => Just(2u8), 3 => 0u8..=4, 1 => 0u8..=max];
    (0..KINDS.len(), prop::collection::vec(len, 1..=5), prop::bool::weighted(0.7), scs(0, 6), any::<u64>())
        .prop_map(|(k, lens, rect, vals, seed)| ObjS { kind: KINDS[k], lens, rect, vals, seed })
        .boxed()
}
impl ObjS {
    pub fn value<E: Eng>(&self) -> V<E> {
        let mut st = (0usize, 0u64);
        self.go(&self.kind.layout(), &Bases::std(), &mut st, None)
    }
    fn go<E: Eng>(&self, l: &L, bs: &Bases<E>, st: &mut (usize, u64), inner: Option<usize>) -> V<E> {
        let mut e = || -> Fr<E> {
            st.1 += 1;
            let n = self.vals.len();
            // a third of the elements are full-size, the rest come from the list
            if n == 0 || st.1 % 3 == 0 {
                field_from_seed(self.seed ^ (st.1 << 20))
            } else {
                self.vals[st.1 as usize % n].f()
            }
        };
        match l {
            L::G1 => V::G1(bs.g1(e())),
            L::G2 => V::G2(bs.g2(e())),
            L::Fr => V::Fr(e()),
            L::Gt => V::Gt(bs.gt(e()).0),
            L::Tag => {
                st.1 += 1;
                V::Tag(((self.seed >> (st.1 % 32)) & 3) as u8)
            }
            L::Vec(x) => {
                let n = inner.unwrap_or_else(|| {
                    st.0 += 1;
                    self.lens[(st.0 - 1) % self.lens.len()] as usize
                });
                let nested = matches!(**x, L::Vec(_)) && self.rect;
                let w = if nested { Some(self.lens[st.0 % self.lens.len()] as usize) } else { None };
                V::Vec((0..n).map(|_| self.go(x, bs, st, w)).collect())
            }
            L::Seq(xs) => V::Seq(xs.iter().map(|x| self.go(x, bs, st, None)).collect()),
        }
    }
    /// the library's object of this value, through constructors or, failing that, its decoder
    pub fn object<E: Eng>(&self, v: &V<E>) -> Result<Obj<E>, String> {
        if let Some(o) = Obj::construct(self.kind, v) {
            return Ok(o);
        }
        Obj::read(self.kind, &v.bytes(false)[..], false, false).map_err(|e| format!("{:?}: decoding a valid encoding fails: {e:?}", self.kind))
    }
}
