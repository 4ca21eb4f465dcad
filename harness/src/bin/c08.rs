//! C08 Commitments can be shared across any set of equations and any history of calls (stateful).
use ark_ff::Zero;
use groth_sahai::prover::{CProof, Commit, Commit1, Commit2, EquProof};
use gsv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
enum Op {
    NewKey(CrsS),
    /// key, kind (x group, x scalar, y group, y scalar), values, grouping
    Commit(u8, u8, Vec<Sc>, u8),
    /// append the second list of this kind to the first (same key)
    Append(u8, u8, u8),
    /// two copies of a list, each continued with as many new commitments
    Fork(u8, u8, Vec<Sc>, Vec<Sc>, u8),
    /// a list of some variables of another list, in any order, possibly repeated (as made by appending copies of singles)
    Pick(u8, u8, Vec<u8>),
    /// encode and decode a list / proof / key: which, compressed
    Reload(u8, u8, bool),
    /// x list, y list, coefficients (a, b, gamma), offset of the target from the satisfied value
    Prove { x: u8, y: u8, a: GamS, b: GamS, g: GamS, off: Option<Sc> },
    /// a proof against its own equation and commitments
    Verify(u8),
    /// a proof with the equation of one proof, the commitments of others, the key of another
    Cross { proof: u8, eq: u8, xs: u8, ys: u8, key: u8 },
    /// a one-step proof interleaved (checked at once)
    OneStep(u8, EqS),
    /// another equation over the commitments of a proof, whose proof is reused
    OtherEq(u8, Chg),
}
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Case {
    first: CrsS,
    ops: Vec<Op>,
    rng: RngS,
}
fn strat(crs: fn() -> BoxedStrategy<CrsS>, len: usize, vals: usize) -> BoxedStrategy<Case> {
    let op = move || {
        prop_oneof![
            2 => crs().prop_map(Op::NewKey),
            10 => (any::<u8>(), 0u8..4, scs(1, vals), any::<u8>()).prop_map(|(a, b, c, d)| Op::Commit(a, b, c, d)),
            5 => (0u8..4, any::<u8>(), any::<u8>()).prop_map(|(a, b, c)| Op::Append(a, b, c)),
            2 => (0u8..4, any::<u8>(), scs(0, 2), scs(2, 2), any::<u8>()).prop_map(|(a, b, c, d, e)| Op::Fork(a, b, c, d, e)),
            2 => (0u8..4, any::<u8>(), prop::collection::vec(any::<u8>(), 1..=5)).prop_map(|(a, b, c)| Op::Pick(a, b, c)),
            3 => (0u8..6, any::<u8>(), any::<bool>()).prop_map(|(a, b, c)| Op::Reload(a, b, c)),
            14 => (any::<u8>(), any::<u8>(), gam(), gam(), gam(), prop_oneof![4 => Just(None), 1 => sc().prop_map(Some)])
                .prop_map(|(x, y, a, b, g, off)| Op::Prove { x, y, a, b, g, off }),
            4 => any::<u8>().prop_map(Op::Verify),
            4 => (any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>())
                .prop_map(|(proof, eq, xs, ys, key)| Op::Cross { proof, eq, xs, ys, key }),
            1 => (any::<u8>(), eqs(Size::Max(3))).prop_map(|(a, b)| Op::OneStep(a, b)),
            3 => (any::<u8>(), chg(0..4)).prop_map(|(a, b)| Op::OtherEq(a, b)),
        ]
    };
    // starts with one list on each side, so that most histories prove something
    let start = (0u8..2, 2u8..4, scs(1, vals), scs(1, vals), any::<u8>(), any::<u8>())
        .prop_map(|(kx, ky, vx, vy, hx, hy)| vec![Op::Commit(0, kx, vx, hx), Op::Commit(0, ky, vy, hy)]);
    (crs(), start, prop::collection::vec(op(), (len / 4)..=len), rngs())
        .prop_map(|(first, mut s, ops, rng)| {
            s.extend(ops);
            Case { first, ops: s, rng }
        })
        .boxed()
}

struct XList<E: Eng> {
    key: usize,
    group: bool,
    com: Commit1<E>,
    vals: Vec<Fr<E>>,
}
struct YList<E: Eng> {
    key: usize,
    group: bool,
    com: Commit2<E>,
    vals: Vec<Fr<E>>,
}
struct Proof<E: Eng> {
    key: usize,
    eq: MEq<Fr<E>>,
    leq: AnyEq<E>,
    xc: Commit1<E>,
    yc: Commit2<E>,
    x: Vec<Fr<E>>,
    y: Vec<Fr<E>>,
    pf: EquProof<E>,
    /// exponents of everything public, when they could be established
    model: Option<MProof<Fr<E>>>,
    truth: bool,
}

fn check<E: Eng>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let mut keys: Vec<Key<E>> = vec![key::<E>(&c.first)];
    let mut hiding = vec![matches!(c.first, CrsS::Hide(_))];
    let mut xs: Vec<XList<E>> = vec![];
    let mut ys: Vec<YList<E>> = vec![];
    let mut proofs: Vec<Proof<E>> = vec![];
    let mut rng = c.rng.rng();
    let (mut appended, mut shared, mut crossed) = (false, 0usize, 0usize);
    for (step, op) in c.ops.iter().enumerate() {
        let at = |s: String| Err(format!("step {step}: {s}"));
        match op {
            Op::NewKey(s) => {
                if keys.len() < 4 {
                    keys.push(key::<E>(s));
                    hiding.push(matches!(s, CrsS::Hide(_)));
                }
            }
            Op::Commit(k, kind, vals, how) => {
                let ki = if *k < 150 { 0 } else { *k as usize % keys.len() };
                let v: Vec<Fr<E>> = fs(vals);
                let group = kind % 2 == 0;
                let key = &keys[ki];
                if kind / 2 == 0 {
                    let com = commit_x(group, &key.bs, &v, &key.crs, How::of(*how), &mut rng.r());
                    xs.push(XList { key: ki, group, com, vals: v });
                } else {
                    let com = commit_y(group, &key.bs, &v, &key.crs, How::of(*how), &mut rng.r());
                    ys.push(YList { key: ki, group, com, vals: v });
                }
            }
            Op::Append(kind, i, j) => {
                let group = kind % 2 == 0;
                macro_rules! app {
                    ($l:expr) => {{
                        let ids: Vec<usize> = (0..$l.len()).filter(|q| $l[*q].group == group).collect();
                        if ids.len() >= 2 {
                            let a = ids[*i as usize % ids.len()];
                            let b = ids[*j as usize % ids.len()];
                            if a != b && $l[a].key == $l[b].key {
                                let mut other = $l.remove(b);
                                let a = if b < a { a - 1 } else { a };
                                let before = ($l[a].com.coms.clone(), other.com.coms.clone());
                                $l[a].com.append(&mut other.com);
                                if $l[a].com.coms != [before.0, before.1].concat() {
                                    return at("append does not put the second list after the first".into());
                                }
                                if !other.com.coms.is_empty() {
                                    return at("append leaves commitments behind".into());
                                }
                                $l[a].vals.append(&mut other.vals);
                                appended = true;
                            }
                        }
                    }};
                }
                if kind / 2 == 0 {
                    app!(xs)
                } else {
                    app!(ys)
                }
            }
            Op::Fork(kind, i, v, w, how) => {
                let group = kind % 2 == 0;
                macro_rules! fork {
                    ($l:expr, $T:ident, $commit:expr) => {{
                        let ids: Vec<usize> = (0..$l.len()).filter(|q| $l[*q].group == group).collect();
                        if !ids.is_empty() {
                            let a = ids[*i as usize % ids.len()];
                            let key = &keys[$l[a].key];
                            let mut made = vec![];
                            for more in [v, w] {
                                let more: Vec<Fr<E>> = fs(&more[..v.len()]);
                                let (mut com, mut vals) = ($l[a].com.clone(), $l[a].vals.clone());
                                if !more.is_empty() {
                                    let mut tail = $commit(group, &key.bs, &more, &key.crs, How::of(*how), &mut rng.r());
                                    com.append(&mut tail);
                                    vals.extend(more);
                                }
                                made.push($T { key: $l[a].key, group, com, vals });
                            }
                            $l.extend(made);
                            appended = true;
                        }
                    }};
                }
                if kind / 2 == 0 {
                    fork!(xs, XList, commit_x)
                } else {
                    fork!(ys, YList, commit_y)
                }
            }
            Op::Pick(kind, i, which) => {
                let group = kind % 2 == 0;
                macro_rules! pick {
                    ($l:expr, $T:ident, $rand:ident, $mk:ident) => {{
                        let ids: Vec<usize> = (0..$l.len()).filter(|q| $l[*q].group == group).collect();
                        if !ids.is_empty() {
                            let l = &$l[ids[*i as usize % ids.len()]];
                            if let Some(r) = $rand(&l.com) {
                                if r.len() == l.vals.len() && l.com.coms.len() == l.vals.len() {
                                    let w: Vec<usize> = which.iter().map(|q| *q as usize % l.vals.len()).collect();
                                    let coms: Vec<_> = w.iter().map(|q| l.com.coms[*q]).collect();
                                    let rand: Vec<_> = w.iter().map(|q| r[*q].clone()).collect();
                                    let made = $T { key: l.key, group, com: $mk(&coms, &rand), vals: w.iter().map(|q| l.vals[*q]).collect() };
                                    $l.push(made);
                                    t.l("picked variables");
                                }
                            }
                        }
                    }};
                }
                if kind / 2 == 0 {
                    pick!(xs, XList, rand1, mk_com1)
                } else {
                    pick!(ys, YList, rand2, mk_com2)
                }
            }
            Op::Reload(what, i, compress) => {
                let i = *i as usize;
                match what {
                    0 | 3 if !xs.is_empty() => {
                        let n = xs.len();
                        xs[i % n].com = de(&ser(&xs[i % n].com, *compress), *compress)?;
                    }
                    1 | 4 if !ys.is_empty() => {
                        let n = ys.len();
                        ys[i % n].com = de(&ser(&ys[i % n].com, *compress), *compress)?;
                    }
                    2 if !proofs.is_empty() => {
                        let n = proofs.len();
                        let p = &mut proofs[i % n];
                        p.pf = de(&ser(&p.pf, *compress), *compress)?;
                        p.leq = p.leq.reload(*compress)?;
                    }
                    5 => {
                        let n = keys.len();
                        let k = &mut keys[i % n];
                        k.crs = de(&ser(&k.crs, *compress), *compress)?;
                    }
                    _ => {}
                }
            }
            Op::Prove { x, y, a, b, g, off } => {
                if xs.is_empty() || ys.is_empty() {
                    continue;
                }
                let xl = &xs[*x as usize % xs.len()];
                let cands: Vec<&YList<E>> = ys.iter().filter(|l| l.key == xl.key).collect();
                if cands.is_empty() {
                    continue;
                }
                let yl = cands[*y as usize % cands.len()];
                let ty = match (xl.group, yl.group) {
                    (true, true) => Ty::Ppe,
                    (true, false) => Ty::M1,
                    (false, true) => Ty::M2,
                    (false, false) => Ty::Quad,
                };
                let (m, n) = (xl.vals.len(), yl.vals.len());
                let mut eq = MEq {
                    ty,
                    a: a.full::<Fr<E>>(1, n)[0].clone(),
                    b: b.full::<Fr<E>>(1, m)[0].clone(),
                    g: g.full(m, n),
                    t: Fr::<E>::zero(),
                };
                eq.t = eq.lhs(&xl.vals, &yl.vals);
                let mut truth = true;
                if let Some(o) = off {
                    eq.t += o.nz::<Fr<E>>();
                    truth = false;
                }
                let k = &keys[xl.key];
                let leq = AnyEq::<E>::build(&k.bs, &eq);
                let pf = match quiet(|| leq.prove(&k.bs, &xl.vals, &yl.vals, &xl.com, &yl.com, &k.crs, &mut rng.r())) {
                    Ok(p) => p,
                    Err(e) if truth => return at(format!("prover failed on consistent inputs: {e}")),
                    Err(_) => continue,
                };
                // exponents of the published proof
                let model = (|| {
                    let km = k.m.as_ref()?;
                    let (r, s, tt) = (rand1(&xl.com)?, rand2(&yl.com)?, randp(&pf)?);
                    let fits = |q: &Vec<Vec<Fr<E>>>, n: usize, w: usize| q.len() == n && q.iter().all(|z| z.len() == w);
                    if !fits(&r, m, ty.xr()) || !fits(&s, n, ty.yr()) || !fits(&tt, ty.ntheta(), ty.npi()) {
                        return None;
                    }
                    let mp = eq.prove(km, &xl.vals, &yl.vals, &r, &s, &tt);
                    let same = com1s(&k.bs, &mp.c) == xl.com.coms
                        && com2s(&k.bs, &mp.d) == yl.com.coms
                        && com2s(&k.bs, &mp.pi) == pf.pi
                        && com1s(&k.bs, &mp.th) == pf.theta;
                    same.then_some(mp)
                })();
                t.l(ty.name());
                if model.is_none() {
                    t.l("proof exponents not established");
                }
                proofs.push(Proof {
                    key: xl.key,
                    eq,
                    leq,
                    xc: xl.com.clone(),
                    yc: yl.com.clone(),
                    x: xl.vals.clone(),
                    y: yl.vals.clone(),
                    pf,
                    model,
                    truth,
                });
                let p = proofs.last().unwrap();
                let used = proofs.iter().filter(|q| q.xc.coms == p.xc.coms || q.yc.coms == p.yc.coms).count();
                shared = shared.max(used);
                own(&keys, p).or_else(|e| at(e))?;
            }
            Op::Verify(i) => {
                if !proofs.is_empty() {
                    own(&keys, &proofs[*i as usize % proofs.len()]).or_else(|e| at(e))?;
                }
            }
            Op::OtherEq(i, ch) => {
                if proofs.is_empty() {
                    continue;
                }
                let p = &proofs[*i as usize % proofs.len()];
                let Some(km) = &keys[p.key].m else { continue };
                let (mut e, mut mp) = (p.eq.clone(), p.model.clone().unwrap_or(MProof { c: vec![], d: vec![], pi: vec![], th: vec![] }));
                ch.apply(&mut e, &mut mp, &mut km.clone());
                let leq = AnyEq::<E>::build(&keys[p.key].bs, &e);
                if i & 1 == 1 {
                    own(&keys, p).or_else(|e| at(e))?;
                }
                let got = !refused(|| leq.verify(&CProof { xcoms: p.xc.clone(), ycoms: p.yc.clone(), equ_proofs: vec![p.pf.clone()] }, &keys[p.key].crs));
                if let Some(m) = &p.model {
                    let want = e.accepts(km, m);
                    if got != want {
                        return at(format!("{} proof against a changed equation ({}): verifier {got}, model {want}", e.ty.name(), ch.name()));
                    }
                } else if got && !hiding[p.key] && !e.satisfied(&p.x, &p.y) {
                    return at("proof accepted for an equation its commitments do not satisfy".into());
                }
                crossed += 1;
            }
            Op::Cross { proof, eq, xs: xi, ys: yi, key } => {
                if proofs.is_empty() {
                    continue;
                }
                let n = proofs.len();
                let (p, q, cx, cy) = (&proofs[*proof as usize % n], &proofs[*eq as usize % n], &proofs[*xi as usize % n], &proofs[*yi as usize % n]);
                let ki = if key % 3 == 0 { *key as usize % keys.len() } else { p.key };
                let cp = CProof { xcoms: cx.xc.clone(), ycoms: cy.yc.clone(), equ_proofs: vec![p.pf.clone()] };
                // the equation is expressed over the key it is verified with only when bases agree
                let bases_ok = [q.key, cx.key, cy.key, ki].iter().all(|k| keys[*k].bs.b1 == keys[p.key].bs.b1 && keys[*k].bs.b2 == keys[p.key].bs.b2);
                let got = !refused(|| q.leq.verify(&cp, &keys[ki].crs));
                let shape = q.eq.ty == p.eq.ty && cx.x.len() == q.x.len() && cy.y.len() == q.y.len();
                if !shape {
                    if got {
                        return at("proof of another type or size accepted".into());
                    }
                    continue;
                }
                crossed += 1;
                if let (true, Some(km), Some(mp), Some(mx), Some(my)) = (bases_ok, &keys[ki].m, &p.model, &cx.model, &cy.model) {
                    let m = MProof { c: mx.c.clone(), d: my.d.clone(), pi: mp.pi.clone(), th: mp.th.clone() };
                    let want = q.eq.accepts(km, &m);
                    t.l(if want { "cross-check holds" } else { "cross-check fails" });
                    if got != want {
                        return at(format!("{} proof with exchanged equation/commitments/key: verifier {got}, model {want}", p.eq.ty.name()));
                    }
                } else if got && !hiding[ki] && ki == cx.key && ki == cy.key && ki == q.key && cx.eq.ty.xg() == q.eq.ty.xg() && cy.eq.ty.yg() == q.eq.ty.yg() && !q.eq.satisfied(&cx.x, &cy.y) {
                    return at("proof accepted for an equation the commitments do not satisfy".into());
                }
            }
            Op::OneStep(k, s) => {
                let ki = *k as usize % keys.len();
                let e = s.eq::<Fr<E>>();
                let le = AnyEq::<E>::build(&keys[ki].bs, &e);
                let p = le.commit_and_prove(&keys[ki].bs, &s.x(), &s.y(), &keys[ki].crs, &mut rng.r());
                if !le.verify(&p, &keys[ki].crs) {
                    return at(format!("interleaved one-step {} proof rejected", e.ty.name()));
                }
            }
        }
    }
    // at the end every proof still stands
    for p in &proofs {
        own(&keys, p).map_err(|e| format!("at the end: {e}"))?;
    }
    t.nt(proofs.iter().any(|p| p.truth));
    if shared >= 2 {
        t.l("commitments shared by several proofs");
    }
    if appended {
        t.l("with append");
    }
    if keys.len() > 1 {
        t.l("several keys");
    }
    if crossed > 0 {
        t.l("with cross-checks");
    }
    t.l(format!("{} proofs", match proofs.len() { 0 => "0", 1 => "1", 2..=4 => "2-4", _ => "5+" }));
    Ok(())
}

fn own<E: Eng>(keys: &[Key<E>], p: &Proof<E>) -> Result<(), String> {
    let cp = CProof { xcoms: p.xc.clone(), ycoms: p.yc.clone(), equ_proofs: vec![p.pf.clone()] };
    let got = !refused(|| p.leq.verify(&cp, &keys[p.key].crs));
    if got != p.truth {
        return Err(format!(
            "{} proof over shared commitments ({}x{}) {} although its statement is {}",
            p.eq.ty.name(),
            p.x.len(),
            p.y.len(),
            if got { "accepted" } else { "rejected" },
            p.truth
        ));
    }
    Ok(())
}

fn main() {
    let mut r = Run::from_args(
        "C08",
        "histories of up to 40 calls (new keys, committing singly and in batches, appending, forking and rearranging lists, proving satisfied and violated equations of \
         all four types over shared commitments, verifying, exchanging parts between proofs, re-encoding), checked step by step against \
         a model of who should verify; non-trivial: at least one satisfied equation was proved",
    );
    r.section("mid", 12000, 72000, || strat(crs_any, 40, 5), check::<Mid>);
    r.section("mid known keys", 12000, 72000, || strat(crs_known, 40, 3), check::<Mid>);
    r.section("bls", 220, 1500, || strat(crs_known, 20, 2), check::<Bls>);
    r.finish()
}
