//! C15 Results depend only on the inputs and the caller's randomness, not on scheduling.
use groth_sahai::prover::*;
use groth_sahai::statement::*;
use groth_sahai::*;
use gsv::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

/// one complete use of the library
#[derive(Clone, Debug, Serialize, Deserialize, Hash, PartialEq, Eq)]
struct Unit {
    crs: CrsS,
    eq: EqS,
    rng: RngS,
    how: (u8, u8),
    one_step: bool,
}
/// a unit derived from the first one by changing a single ingredient
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
enum Deriv {
    Key(CrsS),
    /// one exponent of a structured key
    KeyPart(u8, Sc),
    Type(u8),
    Const(u16, Sc),
    Gamma(GamS),
    Witness(u16, Sc),
    Rng(RngS),
    Route,
    Unrelated(Box<Unit>),
}
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct Case {
    base: Unit,
    more: Vec<Deriv>,
    /// history: index of a unit, or a call that gets refused
    hist: Vec<(u8, bool)>,
    threads: u8,
    style: u8,
}
fn unit(sz: Size) -> BoxedStrategy<Unit> {
    (crs_any(), eqs(sz), rngs(), any::<(u8, u8)>(), any::<bool>())
        .prop_map(|(crs, eq, rng, how, one_step)| Unit { crs, eq, rng, how, one_step })
        .boxed()
}
fn strat(sz: Size) -> BoxedStrategy<Case> {
    let d = prop_oneof![
        2 => crs_any().prop_map(Deriv::Key),
        3 => (0u8..6, sc()).prop_map(|(k, s)| Deriv::KeyPart(k, s)),
        1 => (0u8..4).prop_map(Deriv::Type),
        2 => (any::<u16>(), sc()).prop_map(|(k, s)| Deriv::Const(k, s)),
        2 => gam().prop_map(Deriv::Gamma),
        2 => (any::<u16>(), sc()).prop_map(|(k, s)| Deriv::Witness(k, s)),
        2 => rngs().prop_map(Deriv::Rng),
        1 => Just(Deriv::Route),
        2 => unit(sz).prop_map(|u| Deriv::Unrelated(Box::new(u))),
    ];
    (
        unit(sz),
        prop::collection::vec(d, 1..=3),
        prop::collection::vec((any::<u8>(), prop::bool::weighted(0.2)), 3..=6),
        2u8..=4,
        any::<u8>(),
    )
        .prop_map(|(base, more, hist, threads, style)| Case { base, more, hist, threads, style })
        .boxed()
}
impl Case {
    fn units(&self) -> Vec<Unit> {
        let mut out = vec![self.base.clone()];
        for d in &self.more {
            let mut u = self.base.clone();
            match d {
                Deriv::Key(k) => u.crs = k.clone(),
                Deriv::KeyPart(i, s) => match &mut u.crs {
                    CrsS::Bind(e) | CrsS::Hide(e) => e[*i as usize] = s.clone(),
                    CrsS::Gen(x) => *x ^= 1 << i,
                    CrsS::Arb(_) => {}
                },
                Deriv::Type(t) => u.eq.ty = *t,
                Deriv::Const(i, s) => {
                    let n = u.eq.rows.len() + u.eq.cols.len();
                    let i = *i as usize % n;
                    if i < u.eq.rows.len() {
                        u.eq.rows[i].1 = s.clone()
                    } else {
                        let i = i - u.eq.rows.len();
                        u.eq.cols[i].1 = s.clone()
                    }
                }
                Deriv::Gamma(g) => u.eq.gam = g.clone(),
                Deriv::Witness(i, s) => {
                    let n = u.eq.rows.len() + u.eq.cols.len();
                    let i = *i as usize % n;
                    if i < u.eq.rows.len() {
                        u.eq.rows[i].0 = s.clone()
                    } else {
                        let i = i - u.eq.rows.len();
                        u.eq.cols[i].0 = s.clone()
                    }
                }
                Deriv::Rng(r) => u.rng = r.clone(),
                Deriv::Route => u.one_step = !u.one_step,
                Deriv::Unrelated(v) => u = (**v).clone(),
            }
            out.push(u);
        }
        out
    }
}

/// everything observable about one use of the library
#[derive(Clone, PartialEq, Eq, Debug)]
struct Trace {
    parts: Vec<(&'static str, u64)>,
    verdicts: Vec<bool>,
    /// the changed equation is satisfied, too
    still: bool,
}
fn h(b: &[u8]) -> u64 {
    let mut x = 0xcbf29ce484222325u64;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        x = (x ^ u64::from_le_bytes(w)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29) ^ c.len() as u64;
    }
    x
}
fn run<E: Eng>(u: &Unit) -> Result<Trace, String> {
    let key = key_plain::<E>(&u.crs);
    let (crs, bs) = (&key.crs, &key.bs);
    let me = u.eq.eq::<Fr<E>>();
    let (x, y) = (u.eq.x::<Fr<E>>(), u.eq.y::<Fr<E>>());
    let eq = AnyEq::<E>::build(bs, &me);
    let (k0, e0) = (ser(crs, false), eq.bytes(false));
    let mut rng = u.rng.rng();
    let mut parts = vec![("key", h(&k0))];
    let (gx, gy) = (me.ty.xg(), me.ty.yg());
    let pf: CProof<E> = if u.one_step {
        eq.commit_and_prove(bs, &x, &y, crs, &mut rng.r())
    } else {
        let xc = commit_x(gx, bs, &x, crs, How::of(u.how.0), &mut rng.r());
        let yc = commit_y(gy, bs, &y, crs, How::of(u.how.1), &mut rng.r());
        let (bx, by) = (ser(&xc, false), ser(&yc, false));
        let p = eq.prove(bs, &x, &y, &xc, &yc, crs, &mut rng.r());
        if ser(&xc, false) != bx || ser(&yc, false) != by {
            return Err("proving changed the commitments it was given".into());
        }
        CProof { xcoms: xc, ycoms: yc, equ_proofs: vec![p] }
    };
    parts.push(("xcoms", h(&ser(&pf.xcoms, false))));
    parts.push(("ycoms", h(&ser(&pf.ycoms, false))));
    parts.push(("proof", h(&ser(&pf.equ_proofs[0], false))));
    parts.push(("randomness consumed", rng.bytes));
    parts.push(("randomness state", ark_std::rand::RngCore::next_u64(&mut rng)));
    let body = |p: &CProof<E>| [ser(&p.xcoms, false), ser(&p.ycoms, false), ser(&p.equ_proofs, false)];
    let b0 = body(&pf);
    let v1 = eq.verify(&pf, crs);
    // the same proof against an equation with one other constant, coefficient or target
    let mut wrong = me.clone();
    let one = Fr::<E>::from(1u64);
    let s = u.rng.seed as usize;
    match s % 4 {
        0 => wrong.t += one,
        1 => wrong.a[s / 4 % y.len()] += one,
        2 => wrong.b[s / 4 % x.len()] += one,
        _ => wrong.g[s / 4 % x.len()][s / 64 % y.len()] += one,
    }
    let v2 = AnyEq::<E>::build(bs, &wrong).verify(&pf, crs);
    let v3 = eq.verify(&pf, crs);
    let still = wrong.satisfied(&x, &y);
    if body(&pf) != b0 || ser(crs, false) != k0 || eq.bytes(false) != e0 {
        return Err("an input was modified".into());
    }
    Ok(Trace { parts, verdicts: vec![v1, v2, v3], still })
}
/// a call that the library refuses
fn refused_call<E: Eng>(u: &Unit) -> bool {
    let key = key_plain::<E>(&u.crs);
    let me = u.eq.eq::<Fr<E>>();
    let (x, mut y) = (u.eq.x::<Fr<E>>(), u.eq.y::<Fr<E>>());
    y.push(y[0]);
    let eq = AnyEq::<E>::build(&key.bs, &me);
    quiet(|| eq.commit_and_prove(&key.bs, &x, &y, &key.crs, &mut u.rng.rng().r())).is_err()
}
fn same(what: &str, u: &Unit, a: &Trace, b: &Result<Trace, String>) -> Result<(), String> {
    match b {
        Err(e) => Err(format!("{what}: {e}")),
        Ok(b) if a == b => Ok(()),
        Ok(b) => {
            let mut d: Vec<&str> = a.parts.iter().zip(&b.parts).filter(|(x, y)| x != y).map(|(x, _)| x.0).collect();
            if a.verdicts != b.verdicts {
                d.push("verdicts");
            }
            Err(format!("{what}: {} differ(s) from the reference run of the same inputs ({})", d.join(", "), u.eq.ty().name()))
        }
    }
}
fn pools() -> &'static Vec<(usize, rayon::ThreadPool)> {
    static P: OnceLock<Vec<(usize, rayon::ThreadPool)>> = OnceLock::new();
    P.get_or_init(|| [1, 2, 3, 5, 8].iter().map(|n| (*n, pool(*n))).collect())
}
fn caught<E: Eng>(u: &Unit) -> Result<Trace, String> {
    quiet(|| run::<E>(u)).unwrap_or_else(|p| Err(format!("panic: {p}")))
}

fn check<E: Eng>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let units = c.units();
    // reference: a thread of its own, one worker
    let reference: Vec<Trace> = std::thread::scope(|s| {
        units
            .iter()
            .map(|u| s.spawn(move || pool(1).install(|| caught::<E>(u))).join().map_err(|_| "panic".to_string())?)
            .collect::<Result<_, _>>()
    })?;
    for (u, r) in units.iter().zip(&reference) {
        // absolute: honest proofs are accepted, also again; under binding keys (large groups) a violated equation is not
        let hide = matches!(u.crs, CrsS::Hide(_));
        if !r.verdicts[0] || !r.verdicts[2] || (!hide && r.verdicts[1] && !r.still) {
            return Err(format!("verdicts {:?} on {}", r.verdicts, u.eq.ty().name()));
        }
    }
    for (n, p) in pools() {
        for (u, r) in units.iter().zip(&reference) {
            same(&format!("pool of {n} workers"), u, r, &p.install(|| caught::<E>(u)))?;
        }
    }
    // a history in one thread, with refused calls in between
    for (k, bad) in &c.hist {
        let k = *k as usize % units.len();
        if *bad {
            refused_call::<E>(&units[k]);
        } else {
            same("after other calls", &units[k], &reference[k], &caught::<E>(&units[k]))?;
        }
    }
    // concurrent callers
    let nt = c.threads as usize;
    let shared = &pools()[1 + c.style as usize % 4].1;
    let style = c.style / 4 % 3;
    let outcome: Result<(), String> = match style {
        0 | 1 => std::thread::scope(|s| {
            let hs: Vec<_> = (0..nt)
                .map(|w| {
                    let (units, reference) = (&units, &reference);
                    s.spawn(move || -> Result<(), String> {
                        for q in 0..units.len() {
                            let k = (q + w) % units.len();
                            // all callers through one pool, or each with the process-wide pool
                            let r = if style == 0 { shared.install(|| caught::<E>(&units[k])) } else { caught::<E>(&units[k]) };
                            same(&format!("{nt} concurrent callers"), &units[k], &reference[k], &r)?;
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().map_err(|_| "panic".to_string())?).collect()
        }),
        _ => shared.install(|| {
            use rayon::prelude::*;
            (0..nt * units.len())
                .into_par_iter()
                .map(|k| {
                    let k = k % units.len();
                    same("callers inside the worker pool", &units[k], &reference[k], &caught::<E>(&units[k]))
                })
                .collect()
        }),
    };
    outcome?;
    t.inner((units.len() * (pools().len() + nt + 1) + c.hist.len()) as u64);
    for u in &units {
        t.l(u.eq.ty().name());
        t.l(u.eq.dim_label());
    }
    t.l(["callers share a pool", "callers use the global pool", "callers are pool workers"][style as usize]);
    t.nt(units.iter().any(|u| u.eq.nontrivial::<Fr<E>>()));
    Ok(())
}

/// the same in processes of their own
fn processes<E: Eng>(c: &Case, t: &mut Tally) -> Result<(), String> {
    let units = c.units();
    let here: Vec<Result<Trace, String>> = units.iter().map(|u| caught::<E>(u)).collect();
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    for (j, n) in ["1", "2", "7"].iter().enumerate() {
        // every process sees the units in another order, and only some of them
        let order: Vec<usize> = if j == 0 { vec![c.style as usize % units.len()] } else { (0..units.len()).map(|q| (q * j + c.threads as usize) % units.len()).collect() };
        let list: Vec<&Unit> = order.iter().map(|k| &units[*k]).collect();
        let out = std::process::Command::new(&exe)
            .arg("--trace")
            .arg(E::NAME)
            .arg(serde_json::to_string(&list).unwrap())
            .env("RAYON_NUM_THREADS", n)
            .output()
            .map_err(|e| format!("HARNESS: cannot start a process: {e}"))?;
        let text = String::from_utf8_lossy(&out.stdout);
        let lines: Vec<&str> = text.lines().collect();
        if lines.len() != list.len() {
            return Err(format!("a process with {n} workers ended with {:?} after {} of {} results", out.status, lines.len(), list.len()));
        }
        for (k, l) in order.iter().zip(lines) {
            if format!("{:?}", here[*k]) != l {
                return Err(format!("a process with {n} workers gives another result: {l} instead of {:?}", here[*k]));
            }
        }
    }
    t.inner(3);
    t.l(format!("{} units", units.len()));
    t.nt(units.iter().any(|u| u.eq.nontrivial::<Fr<E>>()));
    Ok(())
}

/// matrix products split among workers
#[derive(Clone, Debug, Serialize, Deserialize, Hash)]
struct MatCase {
    m: u16,
    k: u16,
    n: u16,
    l: GamS,
    r: GamS,
}
fn mat_strat() -> BoxedStrategy<MatCase> {
    let w = || prop_oneof![2 => 1u16..=8, 1 => 9u16..=70, 1 => Just(64u16), 1 => Just(65u16), 1 => 100u16..=300];
    (w(), 1u16..=6, w(), gam(), gam())
        .prop_map(|(m, k, n, l, r)| if m as u32 * n as u32 > 4000 { MatCase { m, k, n: n % 8 + 1, l, r } } else { MatCase { m, k, n, l, r } })
        .boxed()
}
fn mats<E: Eng>(c: &MatCase, t: &mut Tally) -> Result<(), String> {
    let (m, k, n) = (c.m as usize, c.k as usize, c.n as usize);
    let bs = Bases::<E>::std();
    let a: Matrix<Fr<E>> = c.l.full(m, k);
    let b: Matrix<Fr<E>> = c.r.full(k, n);
    let a1: Matrix<Com1<E>> = a.iter().map(|r| r.iter().map(|z| com1(&bs, [*z, z.double_()])).collect()).collect();
    let b2: Matrix<Com2<E>> = b.iter().map(|r| r.iter().map(|z| com2(&bs, [z.double_(), *z])).collect()).collect();
    let s = (a.right_mul(&b, false), a1.right_mul(&b, false), b2.left_mul(&a, false));
    for (w, p) in pools() {
        let q = p.install(|| (a.right_mul(&b, true), a1.right_mul(&b, true), b2.left_mul(&a, true), b.left_mul(&a, true)));
        if q.0 != s.0 || q.1 != s.1 || q.2 != s.2 || q.3 != s.0 {
            return Err(format!("parallel product of {m}x{k} and {k}x{n} with {w} workers differs from the sequential one"));
        }
    }
    t.inner(pools().len() as u64 * 4);
    t.nt(m > 1 && n > 1);
    Ok(())
}
trait Dbl: Copy {
    fn double_(&self) -> Self;
}
impl<F: ark_ff::Field> Dbl for F {
    fn double_(&self) -> F {
        *self + *self
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--trace") {
        std::panic::set_hook(Box::new(|_| {}));
        let list: Vec<Unit> = serde_json::from_str(&args[3]).unwrap();
        for u in &list {
            let r = if args[2] == Mid::NAME { caught::<Mid>(u) } else { caught::<Bls>(u) };
            println!("{r:?}");
        }
        return;
    }
    let _ = (EquType::Quadratic, pools());
    let mut r = Run::from_args(
        "C15",
        "groups of two to four complete uses of the library (key, commitments, proof, verdicts), related by one changed ingredient, each run in \
         pools of 1, 2, 3, 5 and 8 workers, after other (also refused) calls, by 2-4 concurrent callers and in processes of their own; results, \
         consumed randomness and inputs compared; non-trivial: some equation is non-trivial, respectively at least 2x2 products",
    );
    r.section("mid", 640, 8000, || strat(Size::Big), check::<Mid>);
    r.section("mid small", 2400, 30000, || strat(Size::Max(3)), check::<Mid>);
    r.section("bls", 25, 300, || strat(Size::Max(2)), check::<Bls>);
    r.section("wide", 38, 400, || strat(Size::Wide), check::<Mid>);
    r.section("matrices", 2400, 20000, mat_strat, mats::<T13>);
    r.section("processes", 240, 2000, || strat(Size::Max(4)), processes::<Mid>);
    r.section("processes bls", 12, 100, || strat(Size::Max(2)), processes::<Bls>);
    r.finish()
}
