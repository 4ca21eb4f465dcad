//! C11 Mis-shaped or mis-typed proofs and inputs are refused.
use ark_ff::Zero;
use gsv::*;
use groth_sahai::prover::{Commit, Commit1, Commit2};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// how missing entries are filled when a list is made longer
#[derive(Clone, Copy, Debug, Serialize, Deserialize, Hash, PartialEq)]
enum Fill {
    Zero,
    Dup,
    Random,
}
fn fill() -> BoxedStrategy<Fill> {
    prop_oneof![Just(Fill::Zero), Just(Fill::Dup), Just(Fill::Random)].boxed()
}
fn resize<T: Clone>(v: &mut Vec<T>, n: usize, f: Fill, zero: T, rnd: impl Fn(usize) -> T) {
    while v.len() > n {
        v.pop();
    }
    while v.len() < n {
        let e = match f {
            Fill::Zero => zero.clone(),
            Fill::Dup => v.last().cloned().unwrap_or(zero.clone()),
            Fill::Random => rnd(v.len()),
        };
        v.push(e);
    }
}

// ------------------------------------------------------------------ verifier

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
enum Mut {
    /// declared type
    Type(u8),
    /// number of equation proofs
    Proofs(u8, Fill),
    Pi(u8, Fill),
    Theta(u8, Fill),
    XComs(i8, Fill),
    YComs(i8, Fill),
    A(i8, Fill),
    B(i8, Fill),
    Rows(i8, Fill),
    Cols(i8, Fill),
}
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct V {
    p: PfS,
    muts: Vec<Mut>,
}
fn d() -> BoxedStrategy<i8> {
    prop_oneof![Just(1i8), Just(-1), -3i8..=3].boxed()
}
fn mutation() -> BoxedStrategy<Mut> {
    prop_oneof![
        3 => (0u8..4).prop_map(Mut::Type),
        2 => (0u8..4, fill()).prop_map(|(n, f)| Mut::Proofs(n, f)),
        3 => (0u8..5, fill()).prop_map(|(n, f)| Mut::Pi(n, f)),
        3 => (0u8..5, fill()).prop_map(|(n, f)| Mut::Theta(n, f)),
        1 => (d(), fill()).prop_map(|(n, f)| Mut::XComs(n, f)),
        1 => (d(), fill()).prop_map(|(n, f)| Mut::YComs(n, f)),
        1 => (d(), fill()).prop_map(|(n, f)| Mut::A(n, f)),
        1 => (d(), fill()).prop_map(|(n, f)| Mut::B(n, f)),
        1 => (d(), fill()).prop_map(|(n, f)| Mut::Rows(n, f)),
        1 => (d(), fill()).prop_map(|(n, f)| Mut::Cols(n, f)),
    ]
    .boxed()
}
fn vstrat(sz: Size) -> BoxedStrategy<V> {
    // satisfied, and often trivially (zeros), so that only the shape is wrong
    let muts = prop_oneof![4 => prop::collection::vec(mutation(), 1..=1), 1 => prop::collection::vec(mutation(), 2..=3)];
    let zero_eq = eqs(sz).prop_map(|mut e| {
        for r in e.rows.iter_mut().chain(e.cols.iter_mut()) {
            r.1 = Sc::S(0);
        }
        e.gam = GamS::Zero;
        e
    });
    (pfs(crs_known(), prop_oneof![3 => eqs(sz), 1 => zero_eq.clone()].boxed()), muts)
        .prop_map(|(p, muts)| V { p, muts })
        .boxed()
}
fn verifier<E: Eng>(c: &V, t: &mut Tally) -> Result<(), String> {
    type F<E> = Fr<E>;
    let key = key::<E>(&c.p.crs);
    let k = key.m.clone().unwrap();
    let h = c.p.honest(&k);
    let (m, n) = (h.x.len(), h.y.len());
    let ty = h.eq.ty;
    let (mut eq, mut pf) = (h.eq, h.pf);
    let base_ok = !refused(|| AnyEq::<E>::build(&key.bs, &eq).verify(&cproof(&key.bs, ty, &pf), &key.crs));
    let z2 = [F::<E>::zero(); 2];
    let r2 = |i: usize| [rnd::<F<E>>(77, i as u64), rnd::<F<E>>(78, i as u64)];
    let r1 = |i: usize| rnd::<F<E>>(79, i as u64);
    let (mut label, mut proofs, mut pfill) = (ty, 1usize, Fill::Dup);
    let mut cols = n;
    let at = |len: usize, by: i8| (len as i64 + by as i64).max(0) as usize;
    for q in &c.muts {
        match q {
            Mut::Type(x) => label = Ty::of(*x),
            Mut::Proofs(x, f) => {
                proofs = *x as usize;
                pfill = *f
            }
            Mut::Pi(x, f) => resize(&mut pf.pi, *x as usize, *f, z2, r2),
            Mut::Theta(x, f) => resize(&mut pf.th, *x as usize, *f, z2, r2),
            Mut::XComs(x, f) => {
                let l = at(pf.c.len(), *x);
                resize(&mut pf.c, l, *f, z2, r2)
            }
            Mut::YComs(x, f) => {
                let l = at(pf.d.len(), *x);
                resize(&mut pf.d, l, *f, z2, r2)
            }
            Mut::A(x, f) => {
                let l = at(eq.a.len(), *x);
                resize(&mut eq.a, l, *f, F::<E>::zero(), r1)
            }
            Mut::B(x, f) => {
                let l = at(eq.b.len(), *x);
                resize(&mut eq.b, l, *f, F::<E>::zero(), r1)
            }
            Mut::Rows(x, f) => {
                let l = at(eq.g.len(), *x);
                resize(&mut eq.g, l, *f, vec![F::<E>::zero(); cols], |i| (0..cols).map(|j| r1(i * 7 + j)).collect())
            }
            Mut::Cols(x, f) => {
                cols = at(cols, *x);
                for row in eq.g.iter_mut() {
                    resize(row, cols, *f, F::<E>::zero(), r1)
                }
            }
        }
    }
    if cols == 0 || eq.g.is_empty() {
        // a matrix without entries has no recognisable shape: if one side has neither constants nor commitments,
        // the equation is one over the other side only, however many empty rows it is written with
        if (pf.c.is_empty() && eq.b.is_empty()) || (pf.d.is_empty() && eq.a.is_empty()) {
            return Ok(());
        }
    }
    let shape_ok = label == ty
        && proofs == 1
        && pf.pi.len() == ty.npi()
        && pf.th.len() == ty.ntheta()
        && pf.c.len() == eq.b.len()
        && pf.c.len() == eq.g.len()
        && pf.d.len() == eq.a.len()
        && pf.d.len() == cols;
    if shape_ok {
        t.l("still well shaped");
        return Ok(());
    }
    let mut lp = cproof(&key.bs, ty, &pf);
    lp.equ_proofs[0].equ_type = equ_type(label);
    match proofs {
        0 => lp.equ_proofs.clear(),
        q => {
            for i in 1..q {
                let mut e = lp.equ_proofs[0].clone();
                match pfill {
                    Fill::Dup => {}
                    Fill::Zero => e = mk_eqproof(&com2s(&key.bs, &vec![z2; ty.npi()]), &com1s(&key.bs, &vec![z2; ty.ntheta()]), ty, &[]),
                    Fill::Random => e = mk_eqproof(&com2s(&key.bs, &vec![r2(i); ty.npi()]), &com1s(&key.bs, &vec![r2(i + 1); ty.ntheta()]), Ty::of(i as u8), &[]),
                }
                if i % 2 == 0 {
                    lp.equ_proofs.insert(0, e)
                } else {
                    lp.equ_proofs.push(e)
                }
            }
        }
    }
    t.nt(base_ok);
    t.l(ty.name());
    for q in &c.muts {
        t.l(format!("{q:?}").split('(').next().unwrap().to_string());
    }
    let le = AnyEq::<E>::build(&key.bs, &eq);
    if !refused(|| le.verify(&lp, &key.crs)) {
        return Err(format!(
            "mis-shaped {} proof accepted: label {}, {} equation proofs, {} pi, {} theta, {} X / {} Y commitments against {}x{} equation with {} a, {} b (original {m}x{n})",
            ty.name(),
            label.name(),
            proofs,
            pf.pi.len(),
            pf.th.len(),
            pf.c.len(),
            pf.d.len(),
            eq.g.len(),
            cols,
            eq.a.len(),
            eq.b.len()
        ));
    }
    Ok(())
}

// -------------------------------------------------------------------- prover

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
enum Coms {
    Right,
    Wrong,
    /// right kind, except this one
    Mixed(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct P {
    crs: CrsS,
    ty: u8,
    m: u8,
    n: u8,
    seed: u64,
    zeros: bool,
    /// deviations: which of [x, xcoms, b, rows, y, ycoms, a, cols], by how much
    dev: Vec<(u8, i8)>,
    /// (row, delta): one row of the coefficient matrix has a different length
    ragged: Option<(u8, i8)>,
    xk: Coms,
    yk: Coms,
    one_step: bool,
}
fn coms() -> BoxedStrategy<Coms> {
    prop_oneof![6 => Just(Coms::Right), 2 => Just(Coms::Wrong), 2 => (0u8..5).prop_map(Coms::Mixed)].boxed()
}
fn pstrat() -> BoxedStrategy<P> {
    (
        (crs_any(), 0u8..4, 1u8..5, 1u8..5, any::<u64>(), any::<bool>()),
        prop_oneof![1 => Just(vec![]), 4 => prop::collection::vec((0u8..8, d()), 1..=1), 1 => prop::collection::vec((0u8..8, d()), 2..=3)],
        prop_oneof![9 => Just(None), 1 => (0u8..5, prop_oneof![Just(-1i8), Just(1), Just(2)]).prop_map(Some)],
        coms(),
        coms(),
        any::<bool>(),
    )
        .prop_map(|((crs, ty, m, n, seed, zeros), dev, ragged, xk, yk, one_step)| P { crs, ty, m, n, seed, zeros, dev, ragged, xk, yk, one_step })
        .boxed()
}
fn prover<E: Eng>(c: &P, t: &mut Tally) -> Result<(), String> {
    let key = key_plain::<E>(&c.crs);
    let ty = Ty::of(c.ty);
    let mut l = [c.m as i64, c.m as i64, c.m as i64, c.m as i64, c.n as i64, c.n as i64, c.n as i64, c.n as i64];
    for (w, by) in &c.dev {
        let w = *w as usize % 8;
        l[w] = (l[w] + *by as i64).max(if w == 1 || w == 5 { 1 } else { 0 });
    }
    let l = l.map(|v| v as usize);
    let val = |i: u64| if c.zeros { Fr::<E>::zero() } else { rnd::<Fr<E>>(c.seed, i) };
    let list = |n: usize, o: u64| (0..n as u64).map(|i| val(o + i)).collect::<Vec<_>>();
    let x = list(l[0], 0);
    let y = list(l[4], 100);
    let mut e = MEq { ty, a: list(l[6], 200), b: list(l[2], 300), g: (0..l[3]).map(|i| list(l[7], 400 + 20 * i as u64)).collect(), t: Fr::<E>::zero() };
    let mut ragged = false;
    if let Some((r, by)) = c.ragged {
        if l[3] > 1 {
            let r = r as usize % l[3];
            let n = (l[7] as i64 + by as i64).max(0) as usize;
            if n != l[7] {
                e.g[r] = list(n, 900);
                ragged = true;
            }
        }
    }
    let (nx, ny) = if c.one_step { (l[0], l[4]) } else { (l[1], l[5]) };
    let lens_ok = nx == l[0] && nx == l[2] && nx == l[3] && ny == l[4] && ny == l[6] && (l[3] == 0 || ny == l[7]) && !ragged;
    let xwrong = !c.one_step && !matches!(c.xk, Coms::Right);
    let ywrong = !c.one_step && !matches!(c.yk, Coms::Right);
    if lens_ok && !xwrong && !ywrong {
        t.l("consistent");
        return Ok(());
    }
    t.nt(true);
    t.l(ty.name());
    if !c.dev.is_empty() {
        t.l("lengths disagree");
    }
    if ragged {
        t.l("ragged coefficients");
    }
    if xwrong || ywrong {
        t.l("wrong kind of commitment");
    }
    let le = AnyEq::<E>::build(&key.bs, &e);
    let mut rng = TapeRng::new(c.seed);
    let out = if c.one_step {
        quiet(|| le.commit_and_prove(&key.bs, &x, &y, &key.crs, &mut rng.r())).map(|_| ())
    } else {
        let kind = |k: &Coms, i: usize, n: usize, g: bool| match k {
            Coms::Right => g,
            Coms::Wrong => !g,
            Coms::Mixed(w) => g != (i == *w as usize % n),
        };
        let mut xc: Option<Commit1<E>> = None;
        for i in 0..l[1] {
            let mut q = commit_x(kind(&c.xk, i, l[1], ty.xg()), &key.bs, &[val(i as u64)], &key.crs, How::Singles, &mut rng.r());
            match xc.as_mut() {
                None => xc = Some(q),
                Some(o) => o.append(&mut q),
            }
        }
        let mut yc: Option<Commit2<E>> = None;
        for i in 0..l[5] {
            let mut q = commit_y(kind(&c.yk, i, l[5], ty.yg()), &key.bs, &[val(100 + i as u64)], &key.crs, How::Singles, &mut rng.r());
            match yc.as_mut() {
                None => yc = Some(q),
                Some(o) => o.append(&mut q),
            }
        }
        let (xc, yc) = (xc.unwrap(), yc.unwrap());
        quiet(|| le.prove(&key.bs, &x, &y, &xc, &yc, &key.crs, &mut rng.r())).map(|_| ())
    };
    if out.is_ok() {
        return Err(format!(
            "{} prover returned a proof for inconsistent inputs: {} x, {} X commitments ({:?}), {} b, {} rows; {} y, {} Y commitments ({:?}), {} a, {} columns, ragged {ragged}, one step {}",
            ty.name(),
            l[0],
            l[1],
            c.xk,
            l[2],
            l[3],
            l[4],
            l[5],
            c.yk,
            l[6],
            l[7],
            c.one_step
        ));
    }
    Ok(())
}

fn main() {
    let mut r = Run::from_args(
        "C11",
        "valid proofs whose declared type, number of equation proofs, proof elements, commitments or equation dimensions are changed \
         (filled with zeros, duplicates or random elements), and prover calls with disagreeing lengths, ragged coefficients or \
         commitments of the wrong kind; non-trivial: the proof was accepted before the change / the inputs really disagree",
    );
    r.section("verifier mid", 120000, 720000, || vstrat(Size::Max(4)), verifier::<Mid>);
    r.section("verifier tiny3", 180000, 1080000, || vstrat(Size::Max(3)), verifier::<T3>);
    r.section("verifier bls", 1200, 7200, || vstrat(Size::Max(2)), verifier::<Bls>);
    r.section("prover mid", 160000, 960000, pstrat, prover::<Mid>);
    r.section("prover tiny13", 180000, 1080000, pstrat, prover::<T13>);
    r.section("prover bls", 2400, 14400, pstrat, prover::<Bls>);
    r.finish()
}
