//! Small pairing-friendly groups used as additional *configurations* of the library under test.
//!
//! The library is generic over `E: Pairing`.  These engines are genuine Type-III-style
//! instantiations (two distinct Rust types for G1 and G2, the reduced Tate pairing with a
//! distortion map on the supersingular curve y^2 = x^3 + x over F_p, p = 3 mod 4, p + 1 = h*q).
//! With a tiny q whole randomness / proof spaces can be enumerated; with q ~ 2^60 thousands of
//! random cases per second are affordable without accidental collisions.

use ark_ec::{
    models::short_weierstrass::{Affine, Projective, SWCurveConfig},
    models::CurveConfig,
    pairing::{MillerLoopOutput, Pairing, PairingOutput},
    AffineRepr, CurveGroup,
};
use ark_ff::{AdditiveGroup, Field, Fp2, Fp2Config, One, PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};

macro_rules! toy_engine {
    ($modname:ident, $Engine:ident, q = $q:literal, qgen = $qg:literal, p = $p:literal, pgen = $pg:literal,
     h = $h:literal, hinv = $hinv:literal, g1 = ($x1:literal, $y1:literal), g2 = ($x2:literal, $y2:literal)) => {
        pub mod $modname {
            use super::*;
            use ark_ff::fields::{Fp64, MontBackend, MontConfig};
            use ark_ff::MontFp;

            #[derive(MontConfig)]
            #[modulus = $q]
            #[generator = $qg]
            pub struct FrConfig;
            pub type Fr = Fp64<MontBackend<FrConfig, 1>>;

            #[derive(MontConfig)]
            #[modulus = $p]
            #[generator = $pg]
            pub struct FqConfig;
            pub type Fq = Fp64<MontBackend<FqConfig, 1>>;

            #[derive(Clone, Copy)]
            pub struct Fq2Cfg;
            impl Fp2Config for Fq2Cfg {
                type Fp = Fq;
                const NONRESIDUE: Fq = MontFp!("-1");
                const FROBENIUS_COEFF_FP2_C1: &'static [Fq] = &[MontFp!("1"), MontFp!("-1")];
            }
            pub type Fq2 = Fp2<Fq2Cfg>;

            macro_rules! cfg {
                ($C:ident, $gx:literal, $gy:literal) => {
                    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
                    pub struct $C;
                    impl CurveConfig for $C {
                        type BaseField = Fq;
                        type ScalarField = Fr;
                        const COFACTOR: &'static [u64] = &[$h];
                        const COFACTOR_INV: Fr = MontFp!($hinv);
                    }
                    impl SWCurveConfig for $C {
                        const COEFF_A: Fq = MontFp!("1");
                        const COEFF_B: Fq = MontFp!("0");
                        const GENERATOR: Affine<Self> =
                            Affine::new_unchecked(MontFp!($gx), MontFp!($gy));
                    }
                };
            }
            cfg!(C1, $x1, $y1);
            cfg!(C2, $x2, $y2);

            pub type G1Affine = Affine<C1>;
            pub type G2Affine = Affine<C2>;
            pub type G1 = Projective<C1>;
            pub type G2 = Projective<C2>;

            macro_rules! prepared {
                ($P:ident, $C:ident) => {
                    #[derive(Clone, Debug, Default, CanonicalSerialize, CanonicalDeserialize)]
                    pub struct $P(pub Affine<$C>);
                    impl From<Affine<$C>> for $P {
                        fn from(a: Affine<$C>) -> Self {
                            $P(a)
                        }
                    }
                    impl<'a> From<&'a Affine<$C>> for $P {
                        fn from(a: &'a Affine<$C>) -> Self {
                            $P(*a)
                        }
                    }
                    impl From<Projective<$C>> for $P {
                        fn from(a: Projective<$C>) -> Self {
                            $P(a.into_affine())
                        }
                    }
                    impl<'a> From<&'a Projective<$C>> for $P {
                        fn from(a: &'a Projective<$C>) -> Self {
                            $P(a.into_affine())
                        }
                    }
                };
            }
            prepared!(P1, C1);
            prepared!(P2, C2);

            #[derive(Clone, Copy, Debug, PartialEq, Eq)]
            pub struct $Engine;

            /// Miller loop f_{q,P}(phi(Q)); vertical lines lie in F_p and are erased by the final
            /// exponentiation, so they are never evaluated.  Jacobian-free, one inversion per step
            /// is avoided by scaling each line by its (F_p) denominator.
            fn miller(pt: &G1Affine, qt: &G2Affine) -> Fq2 {
                if pt.is_zero() || qt.is_zero() {
                    return Fq2::one();
                }
                // phi(Q) = (-x, i*y)
                let (xq, yq) = (-qt.x, qt.y);
                let (xp, yp) = (pt.x, pt.y);
                let n: u64 = <Fr as PrimeField>::MODULUS.0[0];
                let mut f = Fq2::one();
                // T in Jacobian coordinates (x = X/Z^2, y = Y/Z^3)
                let (mut x, mut y, mut z) = (xp, yp, Fq::one());
                let bits = 64 - n.leading_zeros();
                for k in (0..bits - 1).rev() {
                    f.square_in_place();
                    if !z.is_zero() {
                        // tangent at T:   l = (yQ - yT) - lam (xQ - xT), lam = (3 xT^2 + 1)/(2 yT)
                        // times 2 Y Z^3:  2 Y Z^3 yQ - 2 Y^2 - (3 X^2 + Z^4)(xQ Z^2 - X)
                        let z2 = z.square();
                        let z4 = z2.square();
                        let x2 = x.square();
                        let y2 = y.square();
                        let m = x2 + x2 + x2 + z4;
                        let yz = y * z;
                        let a = yz.double() * z2; // 2 Y Z^3
                        f *= Fq2::new(-(y2.double()) - m * (xq * z2 - x), a * yq);
                        // doubling
                        let s = (x * y2).double().double();
                        let x3 = m.square() - s.double();
                        let y3 = m * (s - x3) - y2.square().double().double().double();
                        z = yz.double();
                        x = x3;
                        y = y3;
                    }
                    if (n >> k) & 1 == 1 && !z.is_zero() {
                        let z2 = z.square();
                        let u2 = xp * z2;
                        let s2 = yp * z2 * z;
                        let hh = u2 - x;
                        let r = s2 - y;
                        if hh.is_zero() {
                            if r.is_zero() {
                                unreachable!("T == P inside the Miller loop");
                            }
                            // vertical line through P and -P: T becomes the identity
                            x = Fq::one();
                            y = Fq::one();
                            z = Fq::zero();
                        } else {
                            // line through T and P, slope r/(hh Z); times hh Z:
                            let zh = z * hh;
                            f *= Fq2::new(-(zh * yp) - r * (xq - xp), zh * yq);
                            let h2 = hh.square();
                            let h3 = h2 * hh;
                            let v = x * h2;
                            let x3 = r.square() - h3 - v.double();
                            y = r * (v - x3) - y * h3;
                            x = x3;
                            z = zh;
                        }
                    }
                }
                f
            }

            impl Pairing for $Engine {
                type BaseField = Fq;
                type ScalarField = Fr;
                type G1 = G1;
                type G1Affine = G1Affine;
                type G1Prepared = P1;
                type G2 = G2;
                type G2Affine = G2Affine;
                type G2Prepared = P2;
                type TargetField = Fq2;

                fn multi_miller_loop(
                    a: impl IntoIterator<Item = impl Into<P1>>,
                    b: impl IntoIterator<Item = impl Into<P2>>,
                ) -> MillerLoopOutput<Self> {
                    let mut f = Fq2::one();
                    let mut ia = a.into_iter();
                    let mut ib = b.into_iter();
                    // like the arkworks models, stop at the shorter side
                    while let (Some(p), Some(q)) = (ia.next(), ib.next()) {
                        f *= miller(&p.into().0, &q.into().0);
                    }
                    MillerLoopOutput(f)
                }

                fn final_exponentiation(m: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> {
                    // (p^2 - 1)/q = (p - 1) * h
                    let inv = m.0.inverse()?;
                    let conj = Fq2::new(m.0.c0, -m.0.c1);
                    Some(PairingOutput((conj * inv).pow([$h as u64])))
                }
            }
        }
        pub use $modname::$Engine;
    };
}

toy_engine!(t3, T3, q = "3", qgen = "2", p = "11", pgen = "2", h = 4, hinv = "1", g1 = ("5", "3"), g2 = ("5", "8"));
toy_engine!(t5, T5, q = "5", qgen = "2", p = "19", pgen = "2", h = 4, hinv = "4", g1 = ("5", "4"), g2 = ("9", "15"));
toy_engine!(t13, T13, q = "13", qgen = "2", p = "103", pgen = "5", h = 8, hinv = "5", g1 = ("49", "22"), g2 = ("18", "44"));
toy_engine!(
    mid, Mid,
    q = "1152921504606846581", qgen = "3",
    p = "4611686018427386323", pgen = "3",
    h = 4, hinv = "864691128455134936",
    g1 = ("4090080294351448217", "4274799706699126941"),
    g2 = ("1262400325800128443", "738402942482587387")
);
