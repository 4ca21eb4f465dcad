//! The reference model: Groth-Sahai over exponents, written independently of the library
//! (naive loops, no matrices, no shared helpers).
//!
//! Every group element is represented by its discrete logarithm.  An element of B1 or B2 is a
//! pair, an element of BT is `[xx, xy, yx, yy]` in the order of the library's four components.

use ark_ff::{Field, PrimeField};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Ppe,
    M1,
    M2,
    Quad,
}
pub const TYS: [Ty; 4] = [Ty::Ppe, Ty::M1, Ty::M2, Ty::Quad];
impl Ty {
    pub fn of(k: u8) -> Ty {
        TYS[(k % 4) as usize]
    }
    /// X variables are group elements (committed with two random scalars each)
    pub fn xg(self) -> bool {
        matches!(self, Ty::Ppe | Ty::M1)
    }
    /// Y variables are group elements
    pub fn yg(self) -> bool {
        matches!(self, Ty::Ppe | Ty::M2)
    }
    pub fn xr(self) -> usize {
        1 + self.xg() as usize
    }
    pub fn yr(self) -> usize {
        1 + self.yg() as usize
    }
    /// number of proof elements in B2 (pi) and B1 (theta)
    pub fn npi(self) -> usize {
        self.xr()
    }
    pub fn ntheta(self) -> usize {
        self.yr()
    }
    pub fn name(self) -> &'static str {
        match self {
            Ty::Ppe => "ppe",
            Ty::M1 => "msmeg1",
            Ty::M2 => "msmeg2",
            Ty::Quad => "quad",
        }
    }
}

pub type P2<F> = [F; 2];
pub type P4<F> = [F; 4];

pub fn add2<F: Field>(a: P2<F>, b: P2<F>) -> P2<F> {
    [a[0] + b[0], a[1] + b[1]]
}
pub fn sub2<F: Field>(a: P2<F>, b: P2<F>) -> P2<F> {
    [a[0] - b[0], a[1] - b[1]]
}
pub fn mul2<F: Field>(a: P2<F>, k: F) -> P2<F> {
    [a[0] * k, a[1] * k]
}
pub fn outer<F: Field>(a: P2<F>, b: P2<F>) -> P4<F> {
    [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
}
pub fn add4<F: Field>(a: P4<F>, b: P4<F>) -> P4<F> {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]]
}
pub fn sub4<F: Field>(a: P4<F>, b: P4<F>) -> P4<F> {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3]]
}

#[derive(Clone, Debug)]
pub struct MCrs<F> {
    pub g1: F,
    pub g2: F,
    pub gt: F,
    pub u: [P2<F>; 2],
    pub v: [P2<F>; 2],
}

impl<F: PrimeField> MCrs<F> {
    pub fn structured(p1: F, a1: F, t1: F, p2: F, a2: F, t2: F, hiding: bool) -> Self {
        let h1 = if hiding { p1 } else { F::zero() };
        let h2 = if hiding { p2 } else { F::zero() };
        MCrs {
            g1: p1,
            g2: p2,
            gt: p1 * p2,
            u: [[p1, a1 * p1], [t1 * p1, a1 * t1 * p1 - h1]],
            v: [[p2, a2 * p2], [t2 * p2, a2 * t2 * p2 - h2]],
        }
    }
    pub fn i1(&self, group: bool, x: F) -> P2<F> {
        if group {
            [F::zero(), x]
        } else {
            [x * self.u[1][0], x * (self.u[1][1] + self.g1)]
        }
    }
    pub fn i2(&self, group: bool, y: F) -> P2<F> {
        if group {
            [F::zero(), y]
        } else {
            [y * self.v[1][0], y * (self.v[1][1] + self.g2)]
        }
    }
    pub fn it(&self, ty: Ty, t: F) -> P4<F> {
        let o = F::one();
        match ty {
            Ty::Ppe => [F::zero(), F::zero(), F::zero(), t],
            Ty::M1 => outer(self.i1(true, t), self.i2(false, o)),
            Ty::M2 => outer(self.i1(false, o), self.i2(true, t)),
            Ty::Quad => outer(self.i1(false, t), self.i2(false, o)),
        }
    }
    /// commitment to x in B1 with 1 (scalar) or 2 (group) random exponents
    pub fn com1(&self, group: bool, x: F, r: &[F]) -> P2<F> {
        let mut c = self.i1(group, x);
        for (k, rk) in r.iter().enumerate() {
            c = add2(c, mul2(self.u[k], *rk));
        }
        c
    }
    pub fn com2(&self, group: bool, y: F, s: &[F]) -> P2<F> {
        let mut d = self.i2(group, y);
        for (k, sk) in s.iter().enumerate() {
            d = add2(d, mul2(self.v[k], *sk));
        }
        d
    }
}

#[derive(Clone, Debug)]
pub struct MEq<F> {
    pub ty: Ty,
    pub a: Vec<F>,
    pub b: Vec<F>,
    pub g: Vec<Vec<F>>,
    pub t: F,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MProof<F> {
    pub c: Vec<P2<F>>,
    pub d: Vec<P2<F>>,
    pub pi: Vec<P2<F>>,
    pub th: Vec<P2<F>>,
}

impl<F: PrimeField> MEq<F> {
    pub fn lhs(&self, x: &[F], y: &[F]) -> F {
        let mut s = F::zero();
        for j in 0..y.len() {
            s += self.a[j] * y[j];
        }
        for i in 0..x.len() {
            s += x[i] * self.b[i];
            for j in 0..y.len() {
                s += x[i] * self.g[i][j] * y[j];
            }
        }
        s
    }
    pub fn satisfied(&self, x: &[F], y: &[F]) -> bool {
        self.lhs(x, y) == self.t
    }

    /// LHS - RHS of the verification equation, component by component.
    pub fn residual(&self, k: &MCrs<F>, p: &MProof<F>) -> P4<F> {
        let mut l = [F::zero(); 4];
        for j in 0..p.d.len() {
            l = add4(l, outer(k.i1(self.ty.xg(), self.a[j]), p.d[j]));
        }
        for i in 0..p.c.len() {
            l = add4(l, outer(p.c[i], k.i2(self.ty.yg(), self.b[i])));
            for j in 0..p.d.len() {
                l = add4(l, outer(p.c[i], mul2(p.d[j], self.g[i][j])));
            }
        }
        let mut r = k.it(self.ty, self.t);
        for q in 0..self.ty.npi() {
            r = add4(r, outer(k.u[q], p.pi[q]));
        }
        for q in 0..self.ty.ntheta() {
            r = add4(r, outer(p.th[q], k.v[q]));
        }
        sub4(l, r)
    }
    pub fn accepts(&self, k: &MCrs<F>, p: &MProof<F>) -> bool {
        self.residual(k, p).iter().all(|z| z.is_zero())
    }

    /// Textbook prover. `r`: m x xr, `s`: n x yr, `tt`: ntheta x npi.
    pub fn prove(&self, k: &MCrs<F>, x: &[F], y: &[F], r: &[Vec<F>], s: &[Vec<F>], tt: &[Vec<F>]) -> MProof<F> {
        let (m, n) = (x.len(), y.len());
        let ty = self.ty;
        let c = (0..m).map(|i| k.com1(ty.xg(), x[i], &r[i])).collect();
        let d = (0..n).map(|j| k.com2(ty.yg(), y[j], &s[j])).collect();
        let mut pi = vec![];
        for q in 0..ty.npi() {
            let mut e = [F::zero(); 2];
            for i in 0..m {
                e = add2(e, mul2(k.i2(ty.yg(), self.b[i]), r[i][q]));
                for j in 0..n {
                    e = add2(e, mul2(k.i2(ty.yg(), y[j]), r[i][q] * self.g[i][j]));
                    for w in 0..ty.yr() {
                        e = add2(e, mul2(k.v[w], r[i][q] * self.g[i][j] * s[j][w]));
                    }
                }
            }
            for w in 0..ty.ntheta() {
                e = sub2(e, mul2(k.v[w], tt[w][q]));
            }
            pi.push(e);
        }
        let mut th = vec![];
        for w in 0..ty.ntheta() {
            let mut e = [F::zero(); 2];
            for j in 0..n {
                e = add2(e, mul2(k.i1(ty.xg(), self.a[j]), s[j][w]));
                for i in 0..m {
                    e = add2(e, mul2(k.i1(ty.xg(), x[i]), s[j][w] * self.g[i][j]));
                }
            }
            for q in 0..ty.npi() {
                e = add2(e, mul2(k.u[q], tt[w][q]));
            }
            th.push(e);
        }
        MProof { c, d, pi, th }
    }

    /// Search for proof elements with the given residual: solves the 4 linear equations in the
    /// 2*(npi + ntheta) exponents of (pi, theta), starting from `p`.  None if unsolvable.
    pub fn solve(&self, k: &MCrs<F>, p: &MProof<F>, want: P4<F>) -> Option<MProof<F>> {
        self.solve_with(k, p, want, 0)
    }
    /// `also`: 1 = the X commitments are unknowns too, 2 = the Y commitments
    pub fn solve_with(&self, k: &MCrs<F>, p: &MProof<F>, want: P4<F>, also: u8) -> Option<MProof<F>> {
        let np = 2 * self.ty.npi();
        let nt = 2 * self.ty.ntheta();
        let nv = np + nt + match also {
            1 => 2 * p.c.len(),
            2 => 2 * p.d.len(),
            _ => 0,
        };
        let base = self.residual(k, p);
        let put = |p: &mut MProof<F>, v: usize, dlt: F| {
            if v < np {
                p.pi[v / 2][v % 2] += dlt;
            } else if v < np + nt {
                p.th[(v - np) / 2][(v - np) % 2] += dlt;
            } else {
                let w = v - np - nt;
                if also == 1 {
                    p.c[w / 2][w % 2] += dlt;
                } else {
                    p.d[w / 2][w % 2] += dlt;
                }
            }
        };
        // residual is affine in the unknowns
        let mut rows = vec![vec![F::zero(); nv + 1]; 4];
        for v in 0..nv {
            let mut q = p.clone();
            put(&mut q, v, F::one());
            let r = sub4(self.residual(k, &q), base);
            for e in 0..4 {
                rows[e][v] = r[e];
            }
        }
        for e in 0..4 {
            rows[e][nv] = want[e] - base[e];
        }
        // Gaussian elimination
        let mut piv = vec![];
        let mut rr = 0;
        for col in 0..nv {
            let Some(sel) = (rr..4).find(|i| !rows[*i][col].is_zero()) else { continue };
            rows.swap(rr, sel);
            let inv = rows[rr][col].inverse().unwrap();
            for z in 0..=nv {
                rows[rr][z] *= inv;
            }
            for i in 0..4 {
                if i != rr && !rows[i][col].is_zero() {
                    let f = rows[i][col];
                    for z in 0..=nv {
                        let t = rows[rr][z];
                        rows[i][z] -= f * t;
                    }
                }
            }
            piv.push(col);
            rr += 1;
            if rr == 4 {
                break;
            }
        }
        for i in rr..4 {
            if !rows[i][nv].is_zero() {
                return None;
            }
        }
        let mut out = p.clone();
        for (i, col) in piv.iter().enumerate() {
            put(&mut out, *col, rows[i][nv]);
        }
        debug_assert!(self.residual(k, &out) == want);
        Some(out)
    }
}

/// Secret exponents behind a structured key (base = the key's own generators, so p = 1 there).
#[derive(Clone, Copy, Debug)]
pub struct Trap<F> {
    pub a1: F,
    pub t1: F,
    pub a2: F,
    pub t2: F,
}
