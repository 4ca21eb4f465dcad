//! Engines, group helpers and caller-side random generators.

use ark_ec::{
    pairing::{Pairing, PairingOutput},
    AffineRepr, CurveGroup,
};
use ark_ff::{Field, PrimeField};
use ark_std::rand::{Error, RngCore};

pub use crate::toy::{Mid, T13, T3, T5};
pub use ark_bls12_381::Bls12_381 as Bls;

pub type Fr<E> = <E as Pairing>::ScalarField;
pub type G1A<E> = <E as Pairing>::G1Affine;
pub type G2A<E> = <E as Pairing>::G2Affine;
pub type Gt<E> = PairingOutput<E>;

pub trait Eng: Pairing {
    const NAME: &'static str;
    /// order too small for "never happens by accident" arguments
    const TINY: bool;
    fn on_curve1(p: &G1A<Self>) -> bool;
    fn on_curve2(p: &G2A<Self>) -> bool;
    /// points that should not be decoded: 0 off the curve, 1 any curve point, 2 small order, 3 valid plus small order
    fn odd1(kind: u8, seed: u64) -> G1A<Self>;
    fn odd2(kind: u8, seed: u64) -> G2A<Self>;
}
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
fn sw_on<C: SWCurveConfig>(p: &Affine<C>) -> bool {
    match p.xy() {
        None => true,
        Some((x, y)) => y.square() == x.square() * x + C::COEFF_A * x + C::COEFF_B,
    }
}
fn base_from_seed<F: Field>(seed: u64) -> F {
    F::from_base_prime_field_elems((0..F::extension_degree()).map(|i| field_from_seed::<F::BasePrimeField>(seed.wrapping_add(i << 40)))).unwrap()
}
/// plain double-and-add, no endomorphisms
pub fn mul_bits<G: CurveGroup>(g: G, bits: &[u64]) -> G {
    let mut acc = G::zero();
    for w in bits.iter().rev() {
        for k in (0..64).rev() {
            acc.double_in_place();
            if (w >> k) & 1 == 1 {
                acc += g;
            }
        }
    }
    acc
}
fn sw_odd<C: SWCurveConfig>(kind: u8, seed: u64) -> Affine<C> {
    if kind == 0 {
        let p = Affine::<C>::new_unchecked(base_from_seed(seed), base_from_seed(!seed));
        return p;
    }
    let mut s = seed;
    let pt = loop {
        if let Some(p) = Affine::<C>::get_point_from_x_unchecked(base_from_seed(s), seed & 1 == 1) {
            break p;
        }
        s = s.wrapping_add(1);
    };
    let r = C::ScalarField::MODULUS;
    match kind {
        1 => pt,
        2 => mul_bits(pt.into_group(), r.as_ref()).into_affine(),
        _ => (mul_bits(pt.into_group(), r.as_ref()) + C::GENERATOR).into_affine(),
    }
}
macro_rules! eng {
    ($($E:ty, $name:literal, $tiny:literal;)*) => { $(
        impl Eng for $E {
            const NAME: &'static str = $name;
            const TINY: bool = $tiny;
            fn on_curve1(p: &G1A<Self>) -> bool {
                sw_on(p)
            }
            fn on_curve2(p: &G2A<Self>) -> bool {
                sw_on(p)
            }
            fn odd1(kind: u8, seed: u64) -> G1A<Self> {
                sw_odd(kind, seed)
            }
            fn odd2(kind: u8, seed: u64) -> G2A<Self> {
                sw_odd(kind, seed)
            }
        }
    )* };
}
eng! {
    Bls, "bls12-381", false;
    Mid, "mid60", false;
    T3, "tiny3", true;
    T5, "tiny5", true;
    T13, "tiny13", true;
}

/// Elements of known discrete logarithm with respect to fixed bases.
#[derive(Clone, Copy, Debug)]
pub struct Bases<E: Pairing> {
    pub b1: G1A<E>,
    pub b2: G2A<E>,
    pub bt: Gt<E>,
}

impl<E: Pairing> Bases<E> {
    pub fn std() -> Self {
        let b1 = G1A::<E>::generator();
        let b2 = G2A::<E>::generator();
        Bases { b1, b2, bt: E::pairing(b1, b2) }
    }
    pub fn of(b1: G1A<E>, b2: G2A<E>) -> Self {
        Bases { b1, b2, bt: E::pairing(b1, b2) }
    }
    pub fn g1(&self, e: Fr<E>) -> G1A<E> {
        (self.b1.into_group() * e).into_affine()
    }
    pub fn g2(&self, e: Fr<E>) -> G2A<E> {
        (self.b2.into_group() * e).into_affine()
    }
    pub fn gt(&self, e: Fr<E>) -> Gt<E> {
        self.bt * e
    }
    pub fn g1s(&self, e: &[Fr<E>]) -> Vec<G1A<E>> {
        e.iter().map(|x| self.g1(*x)).collect()
    }
    pub fn g2s(&self, e: &[Fr<E>]) -> Vec<G2A<E>> {
        e.iter().map(|x| self.g2(*x)).collect()
    }
}

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Pseudo-random field element expanded from a 64-bit seed (pure function of the seed).
pub fn field_from_seed<F: PrimeField>(seed: u64) -> F {
    let mut s = seed ^ 0x5851_F42D_4C95_7F2D;
    let mut b = [0u8; 64];
    for i in 0..8 {
        b[i * 8..i * 8 + 8].copy_from_slice(&splitmix(&mut s).to_le_bytes());
    }
    F::from_le_bytes_mod_order(&b)
}

/// The caller's random generator: deterministic stream, counts and records what is consumed,
/// can be told to produce zeros first.
#[derive(Clone, Debug)]
pub struct TapeRng {
    state: u64,
    pub zeros: u32,
    pub bytes: u64,
    pub log: Vec<u64>,
}
impl TapeRng {
    pub fn new(seed: u64) -> Self {
        TapeRng { state: seed ^ 0xA076_1D64_78BD_642F, zeros: 0, bytes: 0, log: vec![] }
    }
    pub fn with_zeros(seed: u64, zeros: u32) -> Self {
        let mut r = Self::new(seed);
        r.zeros = zeros;
        r
    }
    fn draw(&mut self) -> u64 {
        let v = if self.zeros > 0 {
            self.zeros -= 1;
            0
        } else {
            splitmix(&mut self.state)
        };
        // no honest use comes near this; a consumer that rejects everything must not run for ever
        assert!(self.log.len() < 1 << 22, "more than 4 million words drawn from the caller's generator");
        self.log.push(v);
        v
    }
}
impl RngCore for TapeRng {
    fn next_u32(&mut self) -> u32 {
        self.bytes += 4;
        self.draw() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.bytes += 8;
        self.draw()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.bytes += dest.len() as u64;
        for c in dest.chunks_mut(8) {
            let v = self.draw().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&v[..n]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// Plays an explicit tape of small values, extended with zeros on demand up to `limit` words;
/// beyond that the consumer is unwound (`cut`).
#[derive(Clone, Debug, Default)]
pub struct EnumRng {
    pub tape: Vec<u64>,
    pub pos: usize,
    pub limit: usize,
    pub cut: bool,
}
impl RngCore for EnumRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        if self.pos == self.tape.len() {
            if self.pos >= self.limit {
                self.cut = true;
                panic!("more than {} random words", self.limit);
            }
            self.tape.push(0);
        }
        self.pos += 1;
        self.tape[self.pos - 1]
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&v[..n]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// Exact distribution of the bytes returned by a randomised function when every word it draws is
/// uniform over 0..q (which is what the samplers of a field of order q accept): all paths of its
/// decision tree, cut at `limit` words.
#[derive(Clone, Debug)]
pub struct Exact {
    /// outcome -> number of tapes of `limit` words leading to it
    pub mass: std::collections::HashMap<Vec<u8>, u128>,
    /// tapes on which more than `limit` words are drawn
    pub cut: u128,
    /// q^limit
    pub total: u128,
    pub paths: u64,
}
/// None: more than `budget` paths (or nothing learned).
pub fn exact(q: u64, budget: u64, mut f: impl FnMut(&mut crate::TapeRngOr<'_>) -> Vec<u8>) -> Option<Exact> {
    let mut run = |tape: Vec<u64>, limit: usize| {
        let mut er = EnumRng { tape, pos: 0, limit, cut: false };
        let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut crate::TapeRngOr::E(&mut er))));
        match out {
            Ok(b) => (er, Some(b)),
            Err(_) if er.cut => (er, None),
            Err(p) => std::panic::resume_unwind(p),
        }
    };
    // how deep: what a straight run takes, plus some room for rejection
    let mut least = usize::MAX;
    for k in 0..4u64 {
        let mut s = 77 + k;
        let (er, out) = run((0..64).map(|_| splitmix(&mut s) % q).collect(), 64);
        if out.is_some() {
            least = least.min(er.pos);
        }
    }
    if least == usize::MAX || q.checked_pow(least as u32).map(|n| n > budget).unwrap_or(true) {
        return None;
    }
    let limit = least + 3;
    let total = (q as u128).checked_pow(limit as u32)?;
    let mut e = Exact { mass: Default::default(), cut: 0, total, paths: 0 };
    let mut tape: Vec<u64> = vec![];
    loop {
        let (er, out) = run(tape, limit);
        e.paths += 1;
        if e.paths > 4 * budget {
            return None;
        }
        tape = er.tape;
        tape.truncate(er.pos);
        let w = (q as u128).pow((limit - tape.len()) as u32);
        match out {
            Some(b) => *e.mass.entry(b).or_default() += w,
            None => e.cut += w,
        }
        // next path
        while let Some(d) = tape.last_mut() {
            if *d + 1 < q {
                *d += 1;
                break;
            }
            tape.pop();
        }
        if tape.is_empty() {
            return Some(e);
        }
    }
}
impl Exact {
    pub fn outcomes(&self) -> u64 {
        self.mass.len() as u64
    }
    /// the two distributions differ by more than the unexplored tails could account for
    pub fn differs(&self, o: &Exact) -> bool {
        let excess = |a: &Exact, b: &Exact| {
            let mut d = 0u128;
            for (k, m) in &a.mass {
                let (x, y) = (m * b.total, b.mass.get(k).copied().unwrap_or(0) * a.total);
                d += x.saturating_sub(y);
            }
            d > b.cut * a.total
        };
        excess(self, o) || excess(o, self)
    }
    /// certainly not uniform over `n` outcomes
    pub fn not_uniform(&self, n: u64) -> bool {
        self.outcomes() > n
            || self.mass.values().any(|m| m * n as u128 > self.total)
            || self.mass.values().any(|m| (m + self.cut) * (n as u128) < self.total)
            || (self.outcomes() < n && self.cut * (n as u128) < self.total)
    }
}

/// All candidate field elements that a consumer may have drawn from a recorded 64-bit stream.
pub fn candidates<F: PrimeField>(log: &[u64]) -> Vec<F> {
    let mut out = vec![];
    for off in 0..log.len() {
        struct Replay<'a>(&'a [u64], usize, bool);
        impl RngCore for Replay<'_> {
            fn next_u32(&mut self) -> u32 {
                self.next_u64() as u32
            }
            fn next_u64(&mut self) -> u64 {
                if self.1 < self.0.len() {
                    self.1 += 1;
                    self.0[self.1 - 1]
                } else {
                    self.2 = true;
                    0
                }
            }
            fn fill_bytes(&mut self, dest: &mut [u8]) {
                for c in dest.chunks_mut(8) {
                    let v = self.next_u64().to_le_bytes();
                    let n = c.len();
                    c.copy_from_slice(&v[..n]);
                }
            }
            fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
                self.fill_bytes(d);
                Ok(())
            }
        }
        let mut r = Replay(log, off, false);
        let f = F::rand(&mut r);
        if !r.2 {
            out.push(f);
        }
    }
    out
}
