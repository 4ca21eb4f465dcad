//! Generated proofs: an equation, a key and explicit randomness, evaluated by the model.

use crate::model::*;
use crate::spec::*;
use ark_ff::PrimeField;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct PfS {
    pub crs: CrsS,
    pub eq: EqS,
    pub r: GamS,
    pub s: GamS,
    pub tt: GamS,
}
pub struct Honest<F> {
    pub eq: MEq<F>,
    pub x: Vec<F>,
    pub y: Vec<F>,
    pub r: Vec<Vec<F>>,
    pub s: Vec<Vec<F>>,
    pub tt: Vec<Vec<F>>,
    pub pf: MProof<F>,
}
impl PfS {
    pub fn honest<F: PrimeField>(&self, k: &MCrs<F>) -> Honest<F> {
        let eq = self.eq.eq::<F>();
        let (x, y) = (self.eq.x::<F>(), self.eq.y::<F>());
        let r = self.r.full(x.len(), eq.ty.xr());
        let s = self.s.full(y.len(), eq.ty.yr());
        let tt = self.tt.full(eq.ty.ntheta(), eq.ty.npi());
        let pf = eq.prove(k, &x, &y, &r, &s, &tt);
        Honest { eq, x, y, r, s, tt, pf }
    }
}
pub fn rand_gam() -> BoxedStrategy<GamS> {
    prop_oneof![6 => any::<u64>().prop_map(GamS::Dense), 2 => gam()].boxed()
}
pub fn pfs(crs: BoxedStrategy<CrsS>, eq: BoxedStrategy<EqS>) -> BoxedStrategy<PfS> {
    (crs, eq, rand_gam(), rand_gam(), rand_gam())
        .prop_map(|(crs, eq, r, s, tt)| PfS { crs, eq, r, s, tt })
        .boxed()
}

/// One change to an equation, a proof or a key.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Chg {
    pub what: u8,
    pub i: u16,
    pub j: u16,
    pub by: Sc,
}
pub const CHG_NAMES: [&str; 16] = [
    "a", "b", "gamma", "target", "c", "d", "pi", "theta", "swap pi", "swap theta", "swap c", "swap d", "negate pi", "negate theta", "key u", "key v",
];
pub fn chg(kinds: std::ops::Range<u8>) -> BoxedStrategy<Chg> {
    (kinds, any::<u16>(), any::<u16>(), sc()).prop_map(|(what, i, j, by)| Chg { what, i, j, by }).boxed()
}
impl Chg {
    pub fn name(&self) -> &'static str {
        CHG_NAMES[self.what as usize % CHG_NAMES.len()]
    }
    pub fn apply<F: PrimeField>(&self, e: &mut MEq<F>, p: &mut MProof<F>, k: &mut MCrs<F>) {
        let by: F = self.by.nz();
        let (i, j) = (self.i as usize, self.j as usize);
        fn bump<F: PrimeField>(v: &mut Vec<P2<F>>, i: usize, j: usize, by: F) {
            let n = v.len();
            if n > 0 {
                v[i % n][j % 2] += by;
            }
        }
        fn swap<F>(v: &mut Vec<P2<F>>, i: usize, j: usize) {
            let n = v.len();
            if n == 1 {
                v[0].swap(0, 1);
            } else {
                v.swap(i % n, (i + 1 + j % (n - 1)) % n);
            }
        }
        match self.what % 16 {
            0 => {
                let n = e.a.len();
                e.a[i % n] += by
            }
            1 => {
                let n = e.b.len();
                e.b[i % n] += by
            }
            2 => {
                let (m, n) = (e.b.len(), e.a.len());
                e.g[i % m][j % n] += by
            }
            3 => e.t += by,
            4 => bump(&mut p.c, i, j, by),
            5 => bump(&mut p.d, i, j, by),
            6 => bump(&mut p.pi, i, j, by),
            7 => bump(&mut p.th, i, j, by),
            8 => swap(&mut p.pi, i, j),
            9 => swap(&mut p.th, i, j),
            10 => swap(&mut p.c, i, j),
            11 => swap(&mut p.d, i, j),
            12 => {
                let n = p.pi.len();
                p.pi[i % n] = mul2(p.pi[i % n], -F::one())
            }
            13 => {
                let n = p.th.len();
                p.th[i % n] = mul2(p.th[i % n], -F::one())
            }
            14 => k.u[i % 2][j % 2] += by,
            _ => k.v[i % 2][j % 2] += by,
        }
    }
}
