//! C18 Proofs compose: re-randomisation, addition, permutation and unused variables.
use ark_ff::Zero;
use groth_sahai::data_structures::{col_vec_to_vec, vec_to_col_vec};
use groth_sahai::prover::CProof;
use groth_sahai::*;
use gsv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
enum Op {
    Rerand { r: GamS, s: GamS, t: GamS, par: bool },
    Perm(u64),
    /// variables with zero constants and coefficients and arbitrary commitments: (side, position, commitment)
    Unused(Vec<(bool, u16, Sc, Sc)>),
    /// everything scaled by a non-zero factor
    Scale(Sc),
}
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Case {
    p: PfS,
    /// commitments and proof made by the library rather than the model
    lib: Option<(RngS, u8, u8)>,
    chg: Option<Chg>,
    /// a second equation over the same variables, added with factors
    sum: Option<(GamS, GamS, GamS, Sc, Sc, bool)>,
    ops: Vec<Op>,
}
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        4 => (rand_gam(), rand_gam(), rand_gam(), any::<bool>()).prop_map(|(r, s, t, par)| Op::Rerand { r, s, t, par }),
        3 => any::<u64>().prop_map(Op::Perm),
        3 => prop::collection::vec((any::<bool>(), any::<u16>(), sc(), sc()), 1..=3).prop_map(Op::Unused),
        1 => sc().prop_map(Op::Scale),
    ]
    .boxed()
}
fn strat(sz: Size) -> BoxedStrategy<Case> {
    let crs = prop_oneof![2 => crs_gen(), 3 => crs_bind(), 3 => crs_hide()].boxed();
    (
        pfs(crs, eqs(sz)),
        prop::option::of((rngs(), any::<u8>(), any::<u8>())),
        prop_oneof![3 => Just(None), 2 => chg(0..14).prop_map(Some)],
        prop::option::weighted(0.4, (gam(), gam(), gam(), sc(), sc(), prop::bool::weighted(0.3))),
        prop::collection::vec(op(), 1..=3),
    )
        .prop_map(|(p, lib, chg, sum, ops)| Case { p, lib, chg, sum, ops })
        .boxed()
}

struct St<E: Eng> {
    e: MEq<Fr<E>>,
    c: Vec<Com1<E>>,
    d: Vec<Com2<E>>,
    pi: Vec<Com2<E>>,
    th: Vec<Com1<E>>,
}
impl<E: Eng> St<E> {
    fn verdict(&self, k: &Key<E>) -> Result<bool, String> {
        let z = Fr::<E>::zero();
        let ty = self.e.ty;
        let pf: CProof<E> = CProof {
            xcoms: mk_com1(&self.c, &vec![vec![z; ty.xr()]; self.c.len()]),
            ycoms: mk_com2(&self.d, &vec![vec![z; ty.yr()]; self.d.len()]),
            equ_proofs: vec![mk_eqproof(&self.pi, &self.th, ty, &vec![vec![z; ty.npi()]; ty.ntheta()])],
        };
        let eq = AnyEq::<E>::build(&k.bs, &self.e);
        quiet(|| eq.verify(&pf, &k.crs)).map_err(|p| format!("verifier panicked: {p}"))
    }
    fn apply(&mut self, op: &Op, k: &Key<E>, t: &mut Tally) {
        let (m, n) = (self.c.len(), self.d.len());
        let ty = self.e.ty;
        match op {
            Op::Rerand { r, s, t: tt, par } => {
                t.l("re-randomised");
                let r: Matrix<Fr<E>> = r.full(m, ty.xr());
                let s: Matrix<Fr<E>> = s.full(n, ty.yr());
                let tt: Matrix<Fr<E>> = tt.full(ty.ntheta(), ty.npi());
                let u = vec_to_col_vec(&k.crs.u[..ty.xr()]);
                let v = vec_to_col_vec(&k.crs.v[..ty.yr()]);
                let ia = if ty.xg() { Com1::<E>::batch_linear_map(&k.bs.g1s(&self.e.a)) } else { Com1::<E>::batch_scalar_linear_map(&self.e.a, &k.crs) };
                let ib = if ty.yg() { Com2::<E>::batch_linear_map(&k.bs.g2s(&self.e.b)) } else { Com2::<E>::batch_scalar_linear_map(&self.e.b, &k.crs) };
                let c0 = vec_to_col_vec(&self.c);
                let d1 = Mat::add(&vec_to_col_vec(&self.d), &v.left_mul(&s, *par));
                let c1 = Mat::add(&c0, &u.left_mul(&r, *par));
                // pi' = pi + R^T (i(B) + Gamma d') - T^T v,  theta' = theta + S^T (i(A) + Gamma^T c) + T u
                let gd = Mat::add(&vec_to_col_vec(&ib), &d1.left_mul(&self.e.g, *par));
                let gc = Mat::add(&vec_to_col_vec(&ia), &c0.left_mul(&Mat::transpose(&self.e.g), *par));
                let pi = Mat::add(&vec_to_col_vec(&self.pi), &gd.left_mul(&Mat::transpose(&r), *par));
                let th = Mat::add(&vec_to_col_vec(&self.th), &gc.left_mul(&Mat::transpose(&s), *par));
                let pi = Mat::add(&pi, &Mat::neg(&v.left_mul(&Mat::transpose(&tt), *par)));
                let th = Mat::add(&th, &u.left_mul(&tt, *par));
                self.c = col_vec_to_vec(&c1);
                self.d = col_vec_to_vec(&d1);
                self.pi = col_vec_to_vec(&pi);
                self.th = col_vec_to_vec(&th);
            }
            Op::Perm(seed) => {
                t.l("permuted");
                let mut h = *seed;
                let mut perm = |n: usize| -> Vec<usize> {
                    let mut p: Vec<usize> = (0..n).collect();
                    for i in (1..n).rev() {
                        p.swap(i, (splitmix(&mut h) % (i as u64 + 1)) as usize);
                    }
                    p
                };
                let (px, py) = (perm(m), perm(n));
                self.c = px.iter().map(|i| self.c[*i]).collect();
                self.d = py.iter().map(|j| self.d[*j]).collect();
                self.e.b = px.iter().map(|i| self.e.b[*i]).collect();
                self.e.a = py.iter().map(|j| self.e.a[*j]).collect();
                self.e.g = px.iter().map(|i| py.iter().map(|j| self.e.g[*i][*j]).collect()).collect();
            }
            Op::Unused(list) => {
                t.l("unused variables added");
                let z = Fr::<E>::zero();
                for (side, at, p, q) in list {
                    if *side {
                        let at = *at as usize % (self.c.len() + 1);
                        self.c.insert(at, com1(&k.bs, [p.f(), q.f()]));
                        self.e.b.insert(at, z);
                        self.e.g.insert(at, vec![z; self.e.a.len()]);
                    } else {
                        let at = *at as usize % (self.d.len() + 1);
                        self.d.insert(at, com2(&k.bs, [p.f(), q.f()]));
                        self.e.a.insert(at, z);
                        for r in self.e.g.iter_mut() {
                            r.insert(at, z);
                        }
                    }
                }
            }
            Op::Scale(f) => {
                t.l("scaled");
                let f: Fr<E> = f.nz();
                self.e.a.iter_mut().for_each(|z| *z *= f);
                self.e.b.iter_mut().for_each(|z| *z *= f);
                self.e.g = Mat::scalar_mul(&self.e.g, &f);
                self.e.t *= f;
                self.pi = self.pi.iter().map(|z| B2::<E>::scalar_mul(z, &f)).collect();
                self.th = self.th.iter().map(|z| B1::<E>::scalar_mul(z, &f)).collect();
            }
        }
    }
}

fn check<E: Eng>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let k = key::<E>(&c.p.crs);
    let Some(mut m) = k.m.clone() else {
        t.l("generated key, secrets not recovered");
        return Ok(());
    };
    let mut h = c.p.honest(&m);
    let ty = h.eq.ty;
    let second = |x: &[Fr<E>], y: &[Fr<E>]| {
        c.sum.as_ref().map(|(g, a, b, _, _, bad)| {
            let mut e2 = MEq {
                ty,
                a: a.full::<Fr<E>>(1, y.len()).remove(0),
                b: b.full::<Fr<E>>(1, x.len()).remove(0),
                g: g.full(x.len(), y.len()),
                t: Fr::<E>::zero(),
            };
            e2.t = e2.lhs(x, y);
            (e2, *bad)
        })
    };
    let e2 = second(&h.x, &h.y);
    // commitments, proof and (if wanted) the second proof over the same commitments
    let (mut st, two): (St<E>, Option<(Vec<Com2<E>>, Vec<Com1<E>>)>) = match &c.lib {
        Some((rng, hx, hy)) => {
            t.l("made by the library");
            let mut r = rng.rng();
            let xc = commit_x(ty.xg(), &k.bs, &h.x, &k.crs, How::of(*hx), &mut r.r());
            let yc = commit_y(ty.yg(), &k.bs, &h.y, &k.crs, How::of(*hy), &mut r.r());
            let p = AnyEq::<E>::build(&k.bs, &h.eq).prove(&k.bs, &h.x, &h.y, &xc, &yc, &k.crs, &mut r.r());
            let q = e2.as_ref().map(|e| {
                let q = AnyEq::<E>::build(&k.bs, &e.0).prove(&k.bs, &h.x, &h.y, &xc, &yc, &k.crs, &mut r.r());
                (q.pi, q.theta)
            });
            (St { e: h.eq.clone(), c: xc.coms.clone(), d: yc.coms.clone(), pi: p.pi.clone(), th: p.theta.clone() }, q)
        }
        None => {
            t.l("made by the model");
            let q = e2.as_ref().map(|e| {
                let q = e.0.prove(&m, &h.x, &h.y, &h.r, &h.s, &h.tt);
                (com2s(&k.bs, &q.pi), com1s(&k.bs, &q.th))
            });
            (St { e: h.eq.clone(), c: com1s(&k.bs, &h.pf.c), d: com2s(&k.bs, &h.pf.d), pi: com2s(&k.bs, &h.pf.pi), th: com1s(&k.bs, &h.pf.th) }, q)
        }
    };
    if let (Some((mut e2, bad)), Some((mut pi2, th2)), Some(s)) = (e2, two, &c.sum) {
        t.l(if bad { "sum with an invalid proof" } else { "sum with a valid proof" });
        let (f1, f2): (Fr<E>, Fr<E>) = (s.3.nz(), s.4.nz());
        if bad {
            pi2[0] = pi2[0] + Com2::<E>(k.bs.b2, k.bs.b2);
        }
        st.apply(&Op::Scale(s.3.clone()), &k, t);
        let _ = f1;
        for (p, q) in st.pi.iter_mut().zip(&pi2) {
            *p += B2::<E>::scalar_mul(q, &f2);
        }
        for (p, q) in st.th.iter_mut().zip(&th2) {
            *p = *p + B1::<E>::scalar_mul(q, &f2);
        }
        e2.a.iter_mut().for_each(|z| *z *= f2);
        e2.b.iter_mut().for_each(|z| *z *= f2);
        st.e.a = st.e.a.iter().zip(&e2.a).map(|(x, y)| *x + y).collect();
        st.e.b = st.e.b.iter().zip(&e2.b).map(|(x, y)| *x + y).collect();
        st.e.g = Mat::add(&st.e.g, &Mat::scalar_mul(&e2.g, &f2));
        st.e.t += e2.t * f2;
        let v = st.verdict(&k)?;
        if v == bad {
            return Err(format!("{} on {}: sum with {} proof: verifier says {v}", ty.name(), E::NAME, if bad { "an invalid" } else { "a valid" }));
        }
    } else if !st.verdict(&k)? {
        return Err(format!("{} on {}: honest proof rejected", ty.name(), E::NAME));
    }
    if let Some(g) = &c.chg {
        // the change is made on exponents and carried over as a difference
        let mut p = h.pf.clone();
        let before = p.clone();
        let mut e = st.e.clone();
        g.apply(&mut e, &mut p, &mut m);
        h.eq = e.clone();
        st.e = e;
        if g.what < 8 {
            for i in 0..p.c.len() {
                st.c[i] = st.c[i] + com1(&k.bs, sub2(p.c[i], before.c[i]));
            }
            for i in 0..p.d.len() {
                st.d[i] = st.d[i] + com2(&k.bs, sub2(p.d[i], before.d[i]));
            }
            for i in 0..p.pi.len() {
                st.pi[i] = st.pi[i] + com2(&k.bs, sub2(p.pi[i], before.pi[i]));
            }
            for i in 0..p.th.len() {
                st.th[i] = st.th[i] + com1(&k.bs, sub2(p.th[i], before.th[i]));
            }
        }
        t.l(format!("changed {}", g.name()));
    }
    let start = st.verdict(&k)?;
    let mut names = vec![];
    for op in &c.ops {
        st.apply(op, &k, t);
        names.push(match op {
            Op::Rerand { .. } => "re-randomised",
            Op::Perm(_) => "permuted",
            Op::Unused(_) => "unused variables added",
            Op::Scale(_) => "scaled",
        });
        let v = st.verdict(&k)?;
        if v != start {
            return Err(format!("{} on {}: verdict {start} becomes {v} after: {}", ty.name(), E::NAME, names.join(", ")));
        }
    }
    t.inner(c.ops.len() as u64);
    t.l(ty.name());
    t.l(c.p.eq.dim_label());
    t.l(if start { "valid" } else { "invalid" });
    t.nt(c.p.eq.nontrivial::<Fr<E>>());
    Ok(())
}

fn main() {
    let mut r = Run::from_args(
        "C18",
        "valid and altered proofs made by the library or the model, optionally added to the proof of a second equation over the same commitments, \
         then one to three of: re-randomised, permuted, unused variables inserted, scaled, through the library's own arithmetic; the verdict must \
         stay the same after every step; non-trivial: some coefficient or constant and some variable are non-zero",
    );
    r.section("mid", 29000, 300000, || strat(Size::Big), check::<Mid>);
    r.section("tiny13", 60000, 360000, || strat(Size::Max(5)), check::<T13>);
    r.section("bls", 330, 2500, || strat(Size::Small), check::<Bls>);
    r.section("wide", 1200, 7200, || strat(Size::Wide), check::<T13>);
    r.finish()
}
