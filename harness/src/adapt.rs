//! Bridges between model values and the library's public types.

use crate::eng::*;
use crate::model::*;
use crate::spec::*;
use ark_ec::{pairing::Pairing, AffineRepr};
use ark_ff::{One, PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use groth_sahai::prover::*;
use groth_sahai::statement::*;
use groth_sahai::verifier::Verifiable;
use groth_sahai::*;

pub enum AnyEq<E: Pairing> {
    P(PPE<E>),
    M1(MSMEG1<E>),
    M2(MSMEG2<E>),
    Q(QuadEqu<E>),
}

impl<E: Pairing> Clone for AnyEq<E> {
    fn clone(&self) -> Self {
        match self {
            AnyEq::P(e) => AnyEq::P(e.clone()),
            AnyEq::M1(e) => AnyEq::M1(e.clone()),
            AnyEq::M2(e) => AnyEq::M2(e.clone()),
            AnyEq::Q(e) => AnyEq::Q(e.clone()),
        }
    }
}

pub fn equ_type(t: Ty) -> EquType {
    match t {
        Ty::Ppe => EquType::PairingProduct,
        Ty::M1 => EquType::MultiScalarG1,
        Ty::M2 => EquType::MultiScalarG2,
        Ty::Quad => EquType::Quadratic,
    }
}

impl<E: Pairing> AnyEq<E> {
    pub fn build(bs: &Bases<E>, e: &MEq<Fr<E>>) -> Self {
        let g = e.g.clone();
        match e.ty {
            Ty::Ppe => AnyEq::P(PPE { a_consts: bs.g1s(&e.a), b_consts: bs.g2s(&e.b), gamma: g, target: bs.gt(e.t) }),
            Ty::M1 => AnyEq::M1(MSMEG1 { a_consts: bs.g1s(&e.a), b_consts: e.b.clone(), gamma: g, target: bs.g1(e.t) }),
            Ty::M2 => AnyEq::M2(MSMEG2 { a_consts: e.a.clone(), b_consts: bs.g2s(&e.b), gamma: g, target: bs.g2(e.t) }),
            Ty::Quad => AnyEq::Q(QuadEqu { a_consts: e.a.clone(), b_consts: e.b.clone(), gamma: g, target: e.t }),
        }
    }
    pub fn ty(&self) -> Ty {
        match self {
            AnyEq::P(_) => Ty::Ppe,
            AnyEq::M1(_) => Ty::M1,
            AnyEq::M2(_) => Ty::M2,
            AnyEq::Q(_) => Ty::Quad,
        }
    }
    pub fn verify(&self, p: &CProof<E>, k: &CRS<E>) -> bool {
        match self {
            AnyEq::P(e) => e.verify(p, k),
            AnyEq::M1(e) => e.verify(p, k),
            AnyEq::M2(e) => e.verify(p, k),
            AnyEq::Q(e) => e.verify(p, k),
        }
    }
    pub fn get_type(&self) -> EquType {
        match self {
            AnyEq::P(e) => e.get_type(),
            AnyEq::M1(e) => e.get_type(),
            AnyEq::M2(e) => e.get_type(),
            AnyEq::Q(e) => e.get_type(),
        }
    }
    /// one-step API, witness given by exponents
    pub fn commit_and_prove(&self, bs: &Bases<E>, x: &[Fr<E>], y: &[Fr<E>], k: &CRS<E>, rng: &mut TapeRngOr<'_>) -> CProof<E> {
        match self {
            AnyEq::P(e) => e.commit_and_prove(&bs.g1s(x), &bs.g2s(y), k, rng),
            AnyEq::M1(e) => e.commit_and_prove(&bs.g1s(x), y, k, rng),
            AnyEq::M2(e) => e.commit_and_prove(x, &bs.g2s(y), k, rng),
            AnyEq::Q(e) => e.commit_and_prove(x, y, k, rng),
        }
    }
    pub fn prove(&self, bs: &Bases<E>, x: &[Fr<E>], y: &[Fr<E>], xc: &Commit1<E>, yc: &Commit2<E>, k: &CRS<E>, rng: &mut TapeRngOr<'_>) -> EquProof<E> {
        match self {
            AnyEq::P(e) => e.prove(&bs.g1s(x), &bs.g2s(y), xc, yc, k, rng),
            AnyEq::M1(e) => e.prove(&bs.g1s(x), y, xc, yc, k, rng),
            AnyEq::M2(e) => e.prove(x, &bs.g2s(y), xc, yc, k, rng),
            AnyEq::Q(e) => e.prove(x, y, xc, yc, k, rng),
        }
    }
    pub fn bytes(&self, compress: bool) -> Vec<u8> {
        match self {
            AnyEq::P(e) => ser(e, compress),
            AnyEq::M1(e) => ser(e, compress),
            AnyEq::M2(e) => ser(e, compress),
            AnyEq::Q(e) => ser(e, compress),
        }
    }
    pub fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (AnyEq::P(a), AnyEq::P(b)) => a == b,
            (AnyEq::M1(a), AnyEq::M1(b)) => a == b,
            (AnyEq::M2(a), AnyEq::M2(b)) => a == b,
            (AnyEq::Q(a), AnyEq::Q(b)) => a == b,
            _ => false,
        }
    }
    pub fn reload(&self, compress: bool) -> Result<Self, String> {
        let b = self.bytes(compress);
        Ok(match self {
            AnyEq::P(_) => AnyEq::P(de(&b, compress)?),
            AnyEq::M1(_) => AnyEq::M1(de(&b, compress)?),
            AnyEq::M2(_) => AnyEq::M2(de(&b, compress)?),
            AnyEq::Q(_) => AnyEq::Q(de(&b, compress)?),
        })
    }
}

/// The caller's randomness, either a recorded stream or an explicit tape.
pub enum TapeRngOr<'a> {
    T(&'a mut TapeRng),
    E(&'a mut EnumRng),
}
impl ark_std::rand::RngCore for TapeRngOr<'_> {
    fn next_u32(&mut self) -> u32 {
        match self {
            TapeRngOr::T(r) => r.next_u32(),
            TapeRngOr::E(r) => r.next_u32(),
        }
    }
    fn next_u64(&mut self) -> u64 {
        match self {
            TapeRngOr::T(r) => r.next_u64(),
            TapeRngOr::E(r) => r.next_u64(),
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        match self {
            TapeRngOr::T(r) => r.fill_bytes(d),
            TapeRngOr::E(r) => r.fill_bytes(d),
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl TapeRng {
    pub fn r(&mut self) -> TapeRngOr<'_> {
        TapeRngOr::T(self)
    }
}

pub fn ser<T: CanonicalSerialize>(t: &T, compress: bool) -> Vec<u8> {
    let mut b = vec![];
    if compress {
        t.serialize_compressed(&mut b).expect("serialize");
    } else {
        t.serialize_uncompressed(&mut b).expect("serialize");
    }
    b
}
pub fn de<T: CanonicalDeserialize>(b: &[u8], compress: bool) -> Result<T, String> {
    let r = if compress { T::deserialize_compressed(b) } else { T::deserialize_uncompressed(b) };
    r.map_err(|e| format!("decoding failed: {e:?}"))
}

// ---- objects with private parts are assembled through their byte form --------------------

pub fn mk_com1<E: Pairing>(coms: &[Com1<E>], rand: &[Vec<Fr<E>>]) -> Commit1<E> {
    let mut b = ser(&coms.to_vec(), false);
    b.extend(ser(&rand.to_vec(), false));
    Commit1::deserialize_uncompressed_unchecked(&b[..]).expect("assemble Commit1")
}
pub fn mk_com2<E: Pairing>(coms: &[Com2<E>], rand: &[Vec<Fr<E>>]) -> Commit2<E> {
    let mut b = ser(&coms.to_vec(), false);
    b.extend(ser(&rand.to_vec(), false));
    Commit2::deserialize_uncompressed_unchecked(&b[..]).expect("assemble Commit2")
}
pub fn mk_eqproof<E: Pairing>(pi: &[Com2<E>], th: &[Com1<E>], ty: Ty, rand: &[Vec<Fr<E>>]) -> EquProof<E> {
    let mut b = ser(&pi.to_vec(), false);
    b.extend(ser(&th.to_vec(), false));
    b.push(TYS.iter().position(|t| *t == ty).unwrap() as u8);
    b.extend(ser(&rand.to_vec(), false));
    EquProof::deserialize_uncompressed_unchecked(&b[..]).expect("assemble EquProof")
}
/// the private randomness, as it appears in the encoding (None if the format is not as expected)
pub fn rand1<E: Pairing>(c: &Commit1<E>) -> Option<Vec<Vec<Fr<E>>>> {
    let b = ser(c, false);
    let k = ser(&c.coms, false).len();
    if k > b.len() {
        return None;
    }
    Vec::<Vec<Fr<E>>>::deserialize_uncompressed(&b[k..]).ok()
}
pub fn rand2<E: Pairing>(c: &Commit2<E>) -> Option<Vec<Vec<Fr<E>>>> {
    let b = ser(c, false);
    let k = ser(&c.coms, false).len();
    if k > b.len() {
        return None;
    }
    Vec::<Vec<Fr<E>>>::deserialize_uncompressed(&b[k..]).ok()
}
pub fn randp<E: Pairing>(p: &EquProof<E>) -> Option<Vec<Vec<Fr<E>>>> {
    let b = ser(p, false);
    let k = ser(&p.pi, false).len() + ser(&p.theta, false).len() + 1;
    if k > b.len() {
        return None;
    }
    Vec::<Vec<Fr<E>>>::deserialize_uncompressed(&b[k..]).ok()
}

pub fn com1<E: Pairing>(bs: &Bases<E>, p: P2<Fr<E>>) -> Com1<E> {
    Com1(bs.g1(p[0]), bs.g1(p[1]))
}
pub fn com2<E: Pairing>(bs: &Bases<E>, p: P2<Fr<E>>) -> Com2<E> {
    Com2(bs.g2(p[0]), bs.g2(p[1]))
}
pub fn com1s<E: Pairing>(bs: &Bases<E>, p: &[P2<Fr<E>>]) -> Vec<Com1<E>> {
    p.iter().map(|z| com1(bs, *z)).collect()
}
pub fn com2s<E: Pairing>(bs: &Bases<E>, p: &[P2<Fr<E>>]) -> Vec<Com2<E>> {
    p.iter().map(|z| com2(bs, *z)).collect()
}
/// a library proof with the model's public values (its private randomness is a filler)
pub fn cproof<E: Pairing>(bs: &Bases<E>, ty: Ty, p: &MProof<Fr<E>>) -> CProof<E> {
    let z = Fr::<E>::zero();
    CProof {
        xcoms: mk_com1(&com1s(bs, &p.c), &vec![vec![z; ty.xr()]; p.c.len()]),
        ycoms: mk_com2(&com2s(bs, &p.d), &vec![vec![z; ty.yr()]; p.d.len()]),
        equ_proofs: vec![mk_eqproof(&com2s(bs, &p.pi), &com1s(bs, &p.th), ty, &vec![vec![z; ty.npi()]; ty.ntheta()])],
    }
}

/// A key together with what the harness knows about it.
#[derive(Clone)]
pub struct Key<E: Pairing> {
    pub crs: CRS<E>,
    pub bs: Bases<E>,
    /// exponents relative to `bs`; None when a generated key's secrets could not be recovered
    pub m: Option<MCrs<Fr<E>>>,
    pub trap: Option<Trap<Fr<E>>>,
}

pub fn crs_of<E: Pairing>(bs: &Bases<E>, m: &MCrs<Fr<E>>) -> CRS<E> {
    CRS {
        u: com1s(bs, &m.u),
        v: com2s(bs, &m.v),
        g1_gen: bs.g1(m.g1),
        g2_gen: bs.g2(m.g2),
        gt_gen: bs.gt(m.gt),
    }
}

/// exponent e with base*e == target: from candidates, or by brute force in tiny groups
pub fn dlog<A: AffineRepr>(base: A, target: A, cand: &[A::ScalarField], tiny: bool) -> Option<A::ScalarField> {
    if tiny {
        let mut acc = A::Group::zero();
        let mut e = A::ScalarField::zero();
        for _ in 0..64 {
            if acc == target.into_group() {
                return Some(e);
            }
            acc += base;
            e += A::ScalarField::one();
        }
        return None;
    }
    cand.iter().find(|c| base.into_group() * **c == target.into_group()).copied()
}

pub fn gen_key<E: Eng>(rng: &mut TapeRng) -> Key<E> {
    let start = rng.log.len();
    let crs = CRS::<E>::generate_crs(rng);
    let cand = candidates::<Fr<E>>(&rng.log[start..]);
    recover(crs, &cand)
}

pub fn recover<E: Eng>(crs: CRS<E>, cand: &[Fr<E>]) -> Key<E> {
    let bs = Bases::of(crs.g1_gen, crs.g2_gen);
    let mut key = Key { crs, bs, m: None, trap: None };
    let c = &key.crs;
    if c.u.len() != 2 || c.v.len() != 2 || c.g1_gen.is_zero() || c.g2_gen.is_zero() {
        return key;
    }
    let one = Fr::<E>::one();
    let side = || -> Option<(Trap<Fr<E>>, MCrs<Fr<E>>)> {
        if c.u[0].0 != c.g1_gen || c.v[0].0 != c.g2_gen {
            return None;
        }
        let a1 = dlog(c.g1_gen, c.u[0].1, cand, E::TINY)?;
        let t1 = dlog(c.g1_gen, c.u[1].0, cand, E::TINY)?;
        let a2 = dlog(c.g2_gen, c.v[0].1, cand, E::TINY)?;
        let t2 = dlog(c.g2_gen, c.v[1].0, cand, E::TINY)?;
        let u3 = dlog(c.g1_gen, c.u[1].1, &[a1 * t1, a1 * t1 - one], E::TINY)?;
        let v3 = dlog(c.g2_gen, c.v[1].1, &[a2 * t2, a2 * t2 - one], E::TINY)?;
        Some((
            Trap { a1, t1, a2, t2 },
            MCrs { g1: one, g2: one, gt: one, u: [[one, a1], [t1, u3]], v: [[one, a2], [t2, v3]] },
        ))
    };
    if let Some((t, m)) = side() {
        key.trap = Some(t);
        key.m = Some(m);
    }
    key
}

pub fn key<E: Eng>(s: &CrsS) -> Key<E> {
    match s {
        CrsS::Gen(seed) => {
            let mut r = TapeRng::new(*seed);
            gen_key(&mut r)
        }
        CrsS::Bind(e) | CrsS::Hide(e) => {
            let hide = matches!(s, CrsS::Hide(_));
            let v: Vec<Fr<E>> = e.iter().map(|z| z.nz()).collect();
            let m = MCrs::structured(v[0], v[1], v[2], v[3], v[4], v[5], hide);
            let bs = Bases::std();
            Key {
                crs: crs_of(&bs, &m),
                bs,
                m: Some(m),
                trap: Some(Trap { a1: v[1], t1: v[2], a2: v[4], t2: v[5] }),
            }
        }
        CrsS::Arb(e) => {
            let v: Vec<Fr<E>> = e.iter().map(|z| z.f()).collect();
            let m = MCrs {
                g1: v[0],
                g2: v[1],
                gt: v[0] * v[1],
                u: [[v[2], v[3]], [v[4], v[5]]],
                v: [[v[6], v[7]], [v[8], v[9]]],
            };
            let bs = Bases::std();
            Key { crs: crs_of(&bs, &m), bs, m: Some(m), trap: None }
        }
    }
}
/// like `key`, without spending time on recovering a generated key's secrets
pub fn key_plain<E: Eng>(s: &CrsS) -> Key<E> {
    match s {
        CrsS::Gen(seed) => {
            let crs = CRS::<E>::generate_crs(&mut TapeRng::new(*seed));
            let bs = Bases::of(crs.g1_gen, crs.g2_gen);
            Key { crs, bs, m: None, trap: None }
        }
        _ => key(s),
    }
}

/// how a list of variables gets committed
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How {
    Batch,
    Singles,
    /// first `k` singly, the rest in one batch
    Split(usize),
}
impl How {
    pub fn of(k: u8) -> How {
        match k % 4 {
            0 | 1 => How::Batch,
            2 => How::Singles,
            _ => How::Split(k as usize / 4),
        }
    }
    fn parts(self, n: usize) -> Vec<(usize, usize)> {
        match self {
            How::Batch => vec![(0, n)],
            How::Singles => (0..n).map(|i| (i, i + 1)).collect(),
            How::Split(k) => {
                let k = k.min(n - 1);
                let mut v: Vec<_> = (0..k).map(|i| (i, i + 1)).collect();
                v.push((k, n));
                v
            }
        }
    }
}

pub fn commit_x<E: Pairing>(group: bool, bs: &Bases<E>, x: &[Fr<E>], k: &CRS<E>, how: How, rng: &mut TapeRngOr<'_>) -> Commit1<E> {
    let mut out: Option<Commit1<E>> = None;
    for (lo, hi) in how.parts(x.len()) {
        let single = hi == lo + 1 && how != How::Batch;
        let mut c = match (group, single) {
            (true, true) => commit_G1(&bs.g1(x[lo]), k, rng),
            (true, false) => batch_commit_G1(&bs.g1s(&x[lo..hi]), k, rng),
            (false, true) => commit_scalar_to_B1(&x[lo], k, rng),
            (false, false) => batch_commit_scalar_to_B1(&x[lo..hi], k, rng),
        };
        match out.as_mut() {
            None => out = Some(c),
            Some(o) => o.append(&mut c),
        }
    }
    out.unwrap()
}
pub fn commit_y<E: Pairing>(group: bool, bs: &Bases<E>, y: &[Fr<E>], k: &CRS<E>, how: How, rng: &mut TapeRngOr<'_>) -> Commit2<E> {
    let mut out: Option<Commit2<E>> = None;
    for (lo, hi) in how.parts(y.len()) {
        let single = hi == lo + 1 && how != How::Batch;
        let mut c = match (group, single) {
            (true, true) => commit_G2(&bs.g2(y[lo]), k, rng),
            (true, false) => batch_commit_G2(&bs.g2s(&y[lo..hi]), k, rng),
            (false, true) => commit_scalar_to_B2(&y[lo], k, rng),
            (false, false) => batch_commit_scalar_to_B2(&y[lo..hi], k, rng),
        };
        match out.as_mut() {
            None => out = Some(c),
            Some(o) => o.append(&mut c),
        }
    }
    out.unwrap()
}

/// trapdoor extraction: the group element inside a commitment (for scalars: value * generator)
pub fn extract1<E: Pairing>(c: &Com1<E>, a1: Fr<E>) -> E::G1 {
    c.1.into_group() - c.0.into_group() * a1
}
pub fn extract2<E: Pairing>(d: &Com2<E>, a2: Fr<E>) -> E::G2 {
    d.1.into_group() - d.0.into_group() * a2
}

pub fn rnd<F: PrimeField>(seed: u64, i: u64) -> F {
    field_from_seed(seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ (i << 17) ^ i)
}
