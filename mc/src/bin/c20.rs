//! C20: concurrent read-only use of shared matrices gives the sequential results.
#[macro_use]
extern crate mc;
use la::*;
use mc::engine::*;
use mc::first::*;
use mc::model::M;
use mc::ops::*;
use mc::scalars::C64;
use mc::sched::*;
use mc::spaces::structured;
use std::marker::PhantomData;
use std::sync::Arc;

// whether a type is Send / Sync, decided without failing to compile when it is not
struct Probe<T: ?Sized>(PhantomData<T>);
trait No {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> No for Probe<T> {}
struct ProbeSend<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> No for ProbeSend<T> {}
#[allow(dead_code)]
impl<T: ?Sized + Sync> Probe<T> {
    const SYNC: bool = true;
}
#[allow(dead_code)]
impl<T: ?Sized + Send> ProbeSend<T> {
    const SEND: bool = true;
}
/// shared across threads whatever the library says; that it may be is checked separately
struct Share<T>(T);
unsafe impl<T> Sync for Share<T> {}
unsafe impl<T> Send for Share<T> {}

/// operations on one shared decomposition
struct Decs {
    lu: LUDecomposition<C64>,
    qr: QRDecomposition<C64>,
    svd: SVD<C64>,
    eig: EigenDecomposition<C64>,
    chol: CholeskyDecomposition<C64>,
    rhs: Matrix<C64>,
}
type DecOp = (&'static str, fn(&Decs, &mut Dig));
fn dec_ops() -> Vec<DecOp> {
    vec![
        ("lu.get_l/u/p", |x, d| {
            d.m(&x.lu.get_l());
            d.m(&x.lu.get_u());
            d.m(&x.lu.get_p())
        }),
        ("lu.solve", |x, d| d.o(&x.lu.solve(&x.rhs))),
        ("lu.det and singularity", |x, d| {
            d.v(x.lu.det());
            d.b(x.lu.is_singular());
            d.b(x.lu.is_non_singular())
        }),
        ("qr.get_q", |x, d| d.m(&x.qr.get_q())),
        ("qr.get_r/h", |x, d| {
            d.m(&x.qr.get_r());
            d.m(&x.qr.get_h())
        }),
        ("qr.solve", |x, d| {
            d.b(x.qr.is_full_rank());
            d.o(&x.qr.solve(&x.rhs))
        }),
        ("svd parts and rank", |x, d| {
            d.n(x.svd.rank());
            d.m(x.svd.get_s());
            d.m(x.svd.get_u());
            d.m(x.svd.get_v())
        }),
        ("eigen parts", |x, d| {
            d.m(&x.eig.get_d());
            d.m(x.eig.get_v());
            d.vs(x.eig.get_real_eigenvalues())
        }),
        ("cholesky.solve", |x, d| {
            d.m(x.chol.get_l());
            d.m(&x.chol.solve(&x.rhs))
        }),
    ]
}
fn dec_digest(o: &DecOp, x: &Decs) -> Dig {
    let mut d = Dig::default();
    (o.1)(x, &mut d);
    d.m(&x.rhs);
    d
}
fn all_ops() -> Vec<Op<C64>> {
    let mut v = ops::<C64>();
    v.extend(more_ops::<C64>());
    v
}
fn input(r: usize, c: usize, kind: &str) -> M<f64> {
    structured(r, c).into_iter().find(|(n, _)| n == kind).unwrap().1
}
/// every schedule of two jobs with at most one preemption
fn plans1(n: &[u64], cap: u64) -> Vec<(usize, Plan)> {
    let mut v = vec![];
    for s in 0..2usize {
        v.push((s, vec![]));
        // beyond the cap, every point of the first and last part and an even spread in between
        let m = n[s];
        let stride = m / cap + 1;
        let mut k = 0;
        while k < m {
            v.push((s, vec![(k, 1 - s)]));
            k += if k < 40 || k + 40 >= m { 1 } else { stride };
        }
    }
    v
}
/// alternate between the threads every `p` points
fn lockstep(n: &[u64], p: u64) -> (usize, Plan) {
    let total: u64 = n.iter().sum::<u64>().min(4000);
    let mut v = vec![];
    let (mut k, mut to) = (p, 1);
    while k < total {
        v.push((k, to));
        to = (to + 1) % n.len();
        k += p;
    }
    (0, v)
}
/// every schedule of two jobs with exactly two preemptions
fn plans2(n: &[u64], cap: u64) -> Vec<(usize, Plan)> {
    let mut v = vec![];
    for s in 0..2usize {
        let (sa, sb) = (n[s] / cap + 1, n[1 - s] / cap + 1);
        let mut k = 0;
        while k < n[s] {
            let mut j = 0;
            while j < n[1 - s] {
                v.push((s, vec![(k, 1 - s), (k + 1 + j, s)]));
                j += sb;
            }
            k += sa;
        }
    }
    v
}
/// three jobs: the first is preempted, the second is preempted, the third runs to completion
fn plans3(n: &[u64], cap: u64) -> Vec<(usize, Plan)> {
    let mut v = vec![];
    for s in 0..3usize {
        for t in [(s + 1) % 3, (s + 2) % 3] {
            let u = 3 - s - t;
            let (sa, sb) = (n[s] / cap + 1, n[t] / cap + 1);
            let mut k = 0;
            while k < n[s] {
                let mut j = 0;
                while j < n[t] {
                    v.push((s, vec![(k, t), (k + 1 + j, u)]));
                    j += sb;
                }
                k += sa;
            }
        }
    }
    v
}
fn go(c: &mut Ctx, jobs: &[&(dyn Fn() -> Dig + Sync)], names: &[String], mk: impl Fn(&[u64]) -> Vec<(usize, Plan)>) -> Res {
    let mut n = vec![];
    let mut want = vec![];
    for j in jobs {
        let (_, d) = points(*j);
        let (k2, d2) = points(*j);
        ensure!(d == d2, "a job's sequential result differs between two runs");
        n.push(k2);
        want.push(d);
    }
    let plans = mk(&n);
    match Sched::explore(jobs, &want, &Plans::Coarse(&plans)) {
        Ok((k, t, _)) => {
            c.call(k * jobs.len() as u64);
            c.traces += k;
            c.nontrivial += plans.iter().filter(|p| !p.1.is_empty()).count() as u64;
            c.note("schedules", k);
            c.note("turns taken over from a blocked thread", t);
            if k < plans.len() as u64 {
                c.skip("schedules left out: too many blocked threads");
            }
            for (i, p) in plans.iter().enumerate() {
                c.state_hash(hash_of(&(names, i, &p.1)));
            }
            Ok(())
        }
        Err((k, who)) => Err(format!("thread {} ({}) gets another result than in the sequential run; schedule: start thread {}, switches (point, to) {:?}", who, names[who], plans[k].0, plans[k].1)),
    }
}
fn saturated(c: &mut Ctx, ja: &(dyn Fn() -> Dig + Sync), jb: &(dyn Fn() -> Dig + Sync), want: &[Dig; 2], p: &'static str, q: &'static str, fine: bool, how: &[(u64, u64)]) -> Res {
    let what = if fine { "instruction" } else { "scheduling point" };
    for &(every, phase) in how {
        match saturate(ja, jb, want, fine, every, phase) {
            Ok((k, late)) => {
                c.call(k + 1);
                c.traces += 1;
                c.nontrivial += 1;
                c.note("schedules", 1);
                c.note("runs of the second operation between steps of the first", k);
                c.note("turns taken over from a blocked thread", late);
                c.state(&(p, q, every, phase, fine));
            }
            Err((who, at)) => {
                return Err(format!(
                    "thread {} ({}) gets another result than in the sequential run when {} runs before every {}-th {} (from number {}) of {}{}",
                    who,
                    if who == 0 { p } else { q },
                    q,
                    every,
                    what,
                    phase,
                    p,
                    if who == 1 { format!("; first seen before number {}", at) } else { String::new() }
                ))
            }
        }
    }
    Ok(())
}
/// every schedule of two jobs in which the first is preempted once, at any of its machine instructions
fn go_fine(c: &mut Ctx, jobs: &[&(dyn Fn() -> Dig + Sync); 2], names: &[String], (budget, max): (u64, u64)) -> Res {
    let (_, d) = points(jobs[0]);
    let (k, d2) = points(jobs[0]);
    ensure!(d == d2, "a job's sequential result differs between two runs");
    let want = [d, points(jobs[1]).1];
    let gaps = match gaps(jobs[0], k as usize + 50, max) {
        Some(g) => g,
        None => {
            c.skip("operations of too many instructions (left to scheduling points)");
            return Ok(());
        }
    };
    // the cost of reaching instruction i of a gap is i traps
    let cost: u64 = gaps.iter().map(|g| (*g as u64 + 2) * (*g as u64 + 60) / 2).sum();
    let stride = cost / budget + 1;
    let mut plans = vec![];
    let mut at = 0;
    for (p, g) in gaps.iter().enumerate() {
        for e in 0..*g as u64 + 2 {
            if at % stride == 0 {
                plans.push((0, Fine { point: p as u64, extra: e, to: 1 }));
            }
            at += 1;
        }
    }
    c.note("instructions of the preempted operations", gaps.iter().map(|g| *g as u64).sum());
    if stride > 1 {
        c.note("operations preempted at evenly spread instructions only", 1);
    } else {
        c.note("operations preempted at every instruction", 1);
    }
    match Sched::explore(jobs, &want, &Plans::Fine(&plans)) {
        Ok((k, t, late)) => {
            c.call(2 * k);
            c.traces += k;
            c.nontrivial += k;
            c.note("schedules", k);
            c.note("turns taken over from a blocked thread", t);
            c.note("preemptions that fell on the next scheduling point", late);
            if k < plans.len() as u64 {
                c.skip("schedules left out: too many blocked threads");
            }
            for p in &plans {
                c.state_hash(hash_of(&(names, p.1.point, p.1.extra)));
            }
            Ok(())
        }
        Err((k, who)) => Err(format!("thread {} ({}) gets another result than in the sequential run; thread 0 was preempted {} instructions after its scheduling point {}", who, names[who], plans[k].1.extra, plans[k].1.point)),
    }
}
/// In a process of its own: two threads whose first use of the library is this one. The first is preempted once, at every
/// instruction (beyond `budget`, at evenly spread ones) or, for long operations, scheduling point. Returns the schedules run.
fn first_use(o: usize, q: usize, budget: u64) -> Result<u64, String> {
    let ops = all_ops();
    let (p, q) = (&ops[o], &ops[q]);
    let a = Share(In::<C64>::new(&input(3, 3, "neg-first")));
    let b = Share(In::<C64>::new(&input(3, 3, "min")));
    let (a, b) = (&a, &b);
    let ja = || digest(p, &{ a }.0);
    let jb = || digest(q, &{ b }.0);
    let want = [Dig(isolated(|| ja().0)?), Dig(isolated(|| jb().0)?)];
    let n = isolated(|| vec![points(&ja).0])?[0];
    let g = isolated(|| gaps(&ja, n as usize + 50, 60_000).map_or(vec![], |g| g.iter().map(|x| *x as u64).collect()))?;
    let mut plans: Vec<(usize, Fine)> = g.iter().enumerate().flat_map(|(p, g)| (0..g + 2).map(move |e| (0, Fine { point: p as u64, extra: e, to: 1 }))).collect();
    if plans.is_empty() {
        plans = (0..n).map(|p| (0, Fine { point: p, extra: 0, to: 1 })).collect();
    }
    let stride = plans.len() as u64 / budget + 1;
    let mut k = 0;
    for pl in plans.iter().step_by(stride as usize) {
        let r = isolated(|| match Sched::explore(&[&ja, &jb], &want, &Plans::Fine(std::slice::from_ref(pl))) {
            Ok(_) => vec![0],
            Err((_, who)) => vec![1, who as u64],
        })
        .map_err(|e| format!("{}; preempted {} instructions after its scheduling point {}", e, pl.1.extra, pl.1.point))?;
        if r[0] != 0 {
            return Err(format!("thread {} gets another result than in the sequential run; thread 0 was preempted {} instructions after its scheduling point {}", r[1], pl.1.extra, pl.1.point));
        }
        k += 1;
    }
    Ok(k)
}
const SHAPES: [(usize, usize, &str, &str); 4] = [(2, 2, "neg-first", "seq"), (3, 3, "neg-first", "rank2"), (3, 2, "neg-first", "seq"), (4, 4, "frank", "neg-first")];

fn main() {
    if let Ok(s) = std::env::var("MC_FIRST") {
        install_hook();
        let w: Vec<u64> = s.split(' ').map(|x| x.parse().unwrap()).collect();
        match first_use(w[0] as usize, w[1] as usize, w[2]) {
            Ok(k) => println!("first {}", k),
            Err(e) => println!("wrong {}", e),
        }
        return;
    }
    run_check(
        Spec {
            id: "C20",
            level: "model_checking",
            rule: "each case enumerates all schedules of one set of threads within the preemption bound, switching at scalar operations and allocations; every thread's result and the operands must be those of the sequential run",
            assumptions: &["first uses are explored only when the executable has writable variables of the library, as seen in its symbol table", "switches inside code between two scalar operations or allocations, and weak memory effects, are not explored"],
        },
        |tier| {
            let mut v = vec![];
            v.push(family("matrices and decompositions of Send + Sync elements are Send + Sync", 1, "7 types", |_| "types".into(), |_, c| {
                macro_rules! both {
                    ($($t:ty),*) => {$(
                        ensure!(<Probe<$t>>::SYNC, "{} cannot be shared between threads (not Sync)", stringify!($t));
                        ensure!(<ProbeSend<$t>>::SEND, "{} cannot be sent to threads (not Send)", stringify!($t));
                        c.state(&stringify!($t));
                        c.outcome(&stringify!($t));
                    )*};
                }
                both!(Matrix<f64>, Matrix<f32>, LUDecomposition<f64>, QRDecomposition<f64>, CholeskyDecomposition<f64>, SVD<f64>, EigenDecomposition<f64>);
                ensure!(!<Probe<std::cell::Cell<u8>>>::SYNC, "the probe is broken");
                c.call(7);
                c.trace();
                c.nontrivial += 1;
                Ok(())
            }));
            // the first use of the library in a process
            {
                let names: Arc<Vec<&str>> = Arc::new(all_ops().iter().map(|o| o.name).collect());
                let no = names.len();
                let n2 = names.clone();
                let vars = library_variables();
                let none = matches!(&vars, Ok(v) if v.is_empty());
                // the operations that leave a variable of the library changed: only these are paired with all the others in quick
                let setters: Vec<bool> = match &vars {
                    Ok(v) if !v.is_empty() => (0..no)
                        .map(|o| {
                            isolated(|| {
                                let a = Share(In::<C64>::new(&input(3, 3, "neg-first")));
                                let before = contents(v);
                                digest(&all_ops()[o], &a.0);
                                vec![(contents(v) != before) as u64]
                            })
                            .map_or(true, |w| w[0] == 1)
                        })
                        .collect(),
                    _ => vec![true; no],
                };
                let ns = setters.iter().filter(|s| **s).count();
                let other = tier.pick((20_000 / (ns * no + 1) as u64).clamp(1, 25), 1000);
                let pairs: Arc<Vec<(usize, usize, u64)>> = Arc::new((0..no * no).map(|i| (i % no, i / no)).filter(|&(p, q)| p == q || setters[p] || tier.pick(0, 1) == 1).map(|(p, q)| (p, q, if p == q { tier.pick(600, 60_000) } else { other })).collect());
                let p2 = pairs.clone();
                v.push(family(
                    "two threads, the first use of the library in the process, one preemption at any instruction",
                    if none { 1 } else { pairs.len() as u64 },
                    match vars {
                        Ok(v) if v.is_empty() => "the library has no writable or thread-local variables, so there is no first use; this is looked up in the symbol table".to_string(),
                        Ok(v) => format!("{} ordered pairs of {} operations, each with itself{}, a new process for every schedule, because the library has {} variables", pairs.len(), no, if tier.pick(0, 1) == 1 { " and all the others" } else { " and, when it changes a variable of the library, with all the others" }, v.len()),
                        Err(e) => format!("{} ordered pairs of {} operations, a new process for every schedule ({})", pairs.len(), no, e),
                    },
                    move |i| if none { "no variables".to_string() } else { format!("{} | {}", n2[p2[i as usize].0], n2[p2[i as usize].1]) },
                    move |i, c| {
                        c.state(&("first", i));
                        if none {
                            c.note("variables of the library", 0);
                            c.trace();
                            return Ok(());
                        }
                        let (p, q, budget) = pairs[i as usize];
                        let out = std::process::Command::new(std::env::current_exe().unwrap()).env("MC_FIRST", format!("{} {} {}", p, q, budget)).output().map_err(|e| format!("cannot start a child: {}", e))?;
                        let txt = String::from_utf8_lossy(&out.stdout).to_string();
                        match txt.trim().strip_prefix("first ") {
                            Some(k) => {
                                let k: u64 = k.parse().unwrap_or(0);
                                c.note("schedules", k);
                                c.note("first uses", k);
                                c.call(2 * k);
                                c.traces += k;
                                c.nontrivial += k;
                                c.outcome(&(p, q));
                                Ok(())
                            }
                            None => Err(format!("{} and {}, first use in the process: {}", names[p], names[q], txt.trim().strip_prefix("wrong ").map(|s| s.to_string()).unwrap_or(format!("the process ended with {:?}", out.status)))),
                        }
                    },
                ));
            }
            // many threads at once
            for nt in [5usize, 20, 40, 70] {
                let ops = Arc::new(all_ops());
                let no = ops.len();
                let kinds: Vec<M<f64>> = structured(2, 2).into_iter().map(|x| x.1).take(12).collect();
                let ins: Arc<Vec<Share<In<C64>>>> = Arc::new((0..nt).map(|t| Share(In::<C64>::new(&kinds[t % kinds.len()]))).collect());
                let o1 = ops.clone();
                v.push(family(
                    format!("{} threads, own operands, 2x2", nt),
                    no as u64,
                    "every operation in all threads; one thread waits at each of up to 40 points until all others are done, the threads take turns after every 1, 3, 10 points",
                    move |i| o1[i as usize].name.to_string(),
                    move |i, c| {
                        let p = &ops[i as usize];
                        let jobs: Vec<Box<dyn Fn() -> Dig + Sync>> = (0..nt)
                            .map(|t| {
                                let x: &'static Share<In<C64>> = unsafe { &*(&ins[t] as *const _) };
                                let p: &'static Op<C64> = unsafe { &*(p as *const _) };
                                Box::new(move || digest(p, &{ x }.0)) as Box<dyn Fn() -> Dig + Sync>
                            })
                            .collect();
                        let refs: Vec<&(dyn Fn() -> Dig + Sync)> = jobs.iter().map(|j| &**j).collect();
                        let names = vec![p.name.to_string(); nt];
                        c.outcome(&(p.name, nt));
                        go(c, &refs, &names, |n| {
                            let mut v = vec![];
                            let s = n[0] / 40 + 1;
                            let mut k = 0;
                            while k < n[0] {
                                v.push((0, vec![(k, 1)]));
                                k += s;
                            }
                            for p in [1, 3, 10] {
                                v.push(lockstep(n, p));
                            }
                            v
                        })
                    },
                ));
            }
            let cap = tier.pick(300u64, 4000);
            for (si, (r, k, kind, kind2)) in SHAPES.iter().enumerate() {
                let cap = if si == 3 { tier.pick(40, 400) } else { cap };
                let ops = Arc::new(all_ops());
                let shared = Arc::new(Share(In::<C64>::new(&input(*r, *k, kind))));
                let other = Arc::new(Share(In::<C64>::new(&input(*r, *k, kind2))));
                let no = ops.len();
                for mode in 0..2 {
                    let (o1, o2, i1, i2) = (ops.clone(), ops.clone(), shared.clone(), if mode == 0 { shared.clone() } else { other.clone() });
                    v.push(family(
                        format!("two threads, {}, {}x{}, one preemption", if mode == 0 { "shared operands" } else { "own operands" }, r, k),
                        (no * no) as u64,
                        format!("all ordered pairs of {} operations, all schedules with at most one preemption ({} evenly spread points beyond the first and last 40)", no, cap),
                        move |i| format!("{} | {}", o1[i as usize % no].name, o1[i as usize / no].name),
                        move |i, c| {
                            let (p, q) = (&o2[i as usize % no], &o2[i as usize / no]);
                            if mode == 0 && i as usize % no > i as usize / no {
                                return Ok(()); // the two threads are exchangeable
                            }
                            let (a, b) = (&*i1, &*i2);
                            let ja = || digest(p, &{ &a }.0);
                            let jb = || digest(q, &{ &b }.0);
                            c.outcome(&(p.name, q.name));
                            go(c, &[&ja, &jb], &[p.name.to_string(), q.name.to_string()], |n| {
                                let mut v = plans1(n, cap);
                                for p in [1, 3, 10] {
                                    v.push(lockstep(n, p));
                                }
                                v
                            })
                        },
                    ));
                }
            }
            // larger operands, where implementations like to switch strategy
            for (r, k) in [(17usize, 17usize), (33, 32), (64, 64)] {
                let ops = Arc::new(all_ops());
                let no = ops.len();
                let cap = tier.pick(if r > 40 { 3 } else { 12 }, 60);
                let i1 = Arc::new(Share(In::<C64>::new(&input(r, k, "neg-first"))));
                let i2 = Arc::new(Share(In::<C64>::new(&input(r, k, "circulant"))));
                let (o1, o2) = (ops.clone(), ops.clone());
                v.push(family(
                    format!("two threads, own operands, {}x{}, one preemption", r, k),
                    no as u64,
                    format!("every operation against itself, {} evenly spread points and the first and last 40", cap),
                    move |i| o1[i as usize].name.to_string(),
                    move |i, c| {
                        let p = &o2[i as usize];
                        let (a, b) = (&*i1, &*i2);
                        let ja = || digest(p, &{ &a }.0);
                        let jb = || digest(p, &{ &b }.0);
                        c.outcome(&p.name);
                        go(c, &[&ja, &jb], &[p.name.to_string(), p.name.to_string()], |n| {
                            let mut v = plans1(n, cap);
                            v.push(lockstep(n, 50));
                            v
                        })
                    },
                ));
            }
            // two preemptions: every operation against itself and its neighbours in the list
            let cap2 = tier.pick(60u64, 250);
            for mode in 0..2 {
                let ops = Arc::new(all_ops());
                let no = ops.len();
                let shared = Arc::new(Share(In::<C64>::new(&input(2, 2, "neg-first"))));
                let other = Arc::new(Share(In::<C64>::new(&input(2, 2, "seq"))));
                let (o1, o2, i1, i2) = (ops.clone(), ops.clone(), shared.clone(), if mode == 0 { shared.clone() } else { other.clone() });
                v.push(family(
                    format!("two threads, {}, 2x2, two preemptions", if mode == 0 { "shared operands" } else { "own operands" }),
                    (no * 3) as u64,
                    format!("every operation against itself and the next two, up to {}x{} placements of two preemptions", cap2, cap2),
                    move |i| format!("{} | {}", o1[i as usize % no].name, o1[(i as usize % no + i as usize / no) % no].name),
                    move |i, c| {
                        let (p, q) = (&o2[i as usize % no], &o2[(i as usize % no + i as usize / no) % no]);
                        let (a, b) = (&*i1, &*i2);
                        let ja = || digest(p, &{ &a }.0);
                        let jb = || digest(q, &{ &b }.0);
                        c.outcome(&(p.name, q.name));
                        go(c, &[&ja, &jb], &[p.name.to_string(), q.name.to_string()], |n| plans2(n, cap2))
                    },
                ));
            }
            // three threads, each with its own operands
            {
                let ops = Arc::new(all_ops());
                let no = ops.len();
                let ins: Vec<Arc<Share<In<C64>>>> = ["neg-first", "seq", "rotblocks"].iter().map(|k| Arc::new(Share(In::<C64>::new(&input(2, 2, k))))).collect();
                let (o1, o2) = (ops.clone(), ops.clone());
                let cap3 = tier.pick(20u64, 60);
                v.push(family(
                    "three threads, own operands, 2x2, two preemptions",
                    no as u64,
                    format!("every operation in three threads, up to {0}x{0} placements for each order", cap3),
                    move |i| o1[i as usize].name.to_string(),
                    move |i, c| {
                        let p = &o2[i as usize];
                        let (x, y, z) = (&*ins[0], &*ins[1], &*ins[2]);
                        let ja = || digest(p, &{ &x }.0);
                        let jb = || digest(p, &{ &y }.0);
                        let jc = || digest(p, &{ &z }.0);
                        c.outcome(&p.name);
                        let n = p.name.to_string();
                        go(c, &[&ja, &jb, &jc], &[n.clone(), n.clone(), n], |n| plans3(n, cap3))
                    },
                ));
            }
            // the second thread runs its operation between any two machine instructions of the first
            for (r, k, kind, kind2) in [(2usize, 2usize, "neg-first", "seq"), (3, 2, "seq", "neg-first"), (3, 3, "neg-first", "rank2")] {
                for mode in 0..tier.pick(3, 4usize) {
                    let ops = Arc::new(all_ops());
                    let no = ops.len();
                    let i1 = Arc::new(Share(In::<C64>::new(&input(r, k, kind))));
                    let i2 = if mode == 0 { i1.clone() } else { Arc::new(Share(In::<C64>::new(&input(r, k, kind2)))) };
                    let (o1, o2) = (ops.clone(), ops.clone());
                    let pair = move |i: u64| {
                        let i = i as usize;
                        match mode {
                            0 | 1 => (i, i),
                            2 => (i, (i + 1) % no),
                            _ => (i % no, i / no),
                        }
                    };
                    let cap = tier.pick(1500u64, 60000);
                    v.push(family(
                        format!("two threads, {} operands, {}x{}, the second runs {} at every instruction of the first", if mode == 0 { "shared" } else { "own" }, r, k, ["the same operation", "the same operation", "the next operation", "every operation"][mode]),
                        if mode == 3 { no * no } else { no } as u64,
                        format!("those of {} operations that have at most {} instructions; the second operation runs completely before every instruction of the first, before every even one, before every odd one", no, cap),
                        move |i| format!("{} | {}", o1[pair(i).0].name, o1[pair(i).1].name),
                        move |i, c| {
                            let (p, q) = pair(i);
                            let (p, q) = (&o2[p], &o2[q]);
                            let (a, b) = (&*i1, &*i2);
                            let ja = || digest(p, &{ &a }.0);
                            let jb = || digest(q, &{ &b }.0);
                            ja();
                            jb();
                            let want = [ja(), jb()];
                            if gaps(&ja, 1 << 16, cap).is_none() {
                                c.skip("operations of too many instructions (left to scheduling points)");
                                return Ok(());
                            }
                            saturated(c, &ja, &jb, &want, p.name, q.name, true, &[(1, 0), (2, 0), (2, 1)])?;
                            c.outcome(&(p.name, q.name));
                            Ok(())
                        },
                    ));
                }
            }
            // ... and at each scheduling point of the first
            for (mode, (r, k, kind, kind2)) in [(0, (2usize, 2usize, "neg-first", "seq")), (1, (3, 2, "seq", "neg-first")), (1, (3, 3, "neg-first", "rank2"))] {
                let ops = Arc::new(all_ops());
                let no = ops.len();
                let i1 = Arc::new(Share(In::<C64>::new(&input(r, k, kind))));
                let i2 = if mode == 0 { i1.clone() } else { Arc::new(Share(In::<C64>::new(&input(r, k, kind2)))) };
                let (o1, o2) = (ops.clone(), ops.clone());
                v.push(family(
                    format!("two threads, {} operands, {}x{}, the second runs at every scheduling point of the first", if mode == 0 { "shared" } else { "own" }, r, k),
                    (no * no) as u64,
                    format!("all ordered pairs of {} operations (quick: every, or one of n points so that there are at most 150)", no),
                    move |i| format!("{} | {}", o1[i as usize % no].name, o1[i as usize / no].name),
                    move |i, c| {
                        let (p, q) = (&o2[i as usize % no], &o2[i as usize / no]);
                        let (a, b) = (&*i1, &*i2);
                        let ja = || digest(p, &{ &a }.0);
                        let jb = || digest(q, &{ &b }.0);
                        jb();
                        let (n, _) = points(&ja);
                        let want = [ja(), jb()];
                        let every = n / tier.pick(150, 20_000) + 1;
                        saturated(c, &ja, &jb, &want, p.name, q.name, false, &[(every, 0)])?;
                        c.outcome(&(p.name, q.name));
                        Ok(())
                    },
                ));
            }
            // one preemption at any machine instruction
            for (r, k, kind, kind2) in tier.pick(vec![(2usize, 2usize, "neg-first", "seq")], vec![(2, 2, "neg-first", "seq"), (3, 2, "seq", "neg-first")]) {
                for mode in tier.pick(1u64..2, 0..6) {
                    let ops = Arc::new(all_ops());
                    let no = ops.len();
                    let i1 = Arc::new(Share(In::<C64>::new(&input(r, k, kind))));
                    let i2 = if mode % 2 == 0 { i1.clone() } else { Arc::new(Share(In::<C64>::new(&input(r, k, kind2)))) };
                    let (o1, o2) = (ops.clone(), ops.clone());
                    let budget = tier.pick((90_000u64, 1500u64), (400_000, 20_000));
                    let off = mode as usize / 2;
                    v.push(family(
                        format!("two threads, {}, {}x{}, one preemption at any instruction{}", if mode % 2 == 0 { "shared operands" } else { "own operands" }, r, k, if off > 0 { format!(", next operation {}", off) } else { String::new() }),
                        no as u64,
                        format!("every operation of at most {} instructions against itself (thorough: and the next two); every instruction of the preempted one, unless noted", budget.1),
                        move |i| o1[i as usize].name.to_string(),
                        move |i, c| {
                            let (p, q) = (&o2[i as usize], &o2[(i as usize + off) % no]);
                            let (a, b) = (&*i1, &*i2);
                            let ja = || digest(p, &{ &a }.0);
                            let jb = || digest(q, &{ &b }.0);
                            c.outcome(&(p.name, q.name));
                            go_fine(c, &[&ja, &jb], &[p.name.to_string(), q.name.to_string()], budget)
                        },
                    ));
                }
            }
            // operations on one shared decomposition
            for n in [2usize, 3] {
                let a = input(n, n, "min");
                let x = Share(In::<C64>::new(&a));
                let d = Arc::new(Share(Decs {
                    lu: LUDecomposition::new(&x.0.a),
                    qr: QRDecomposition::new(&x.0.a),
                    svd: SVD::new(&x.0.a),
                    eig: EigenDecomposition::new(&x.0.a),
                    chol: CholeskyDecomposition::new(&x.0.a).expect("min is positive definite"),
                    rhs: x.0.rhs.clone(),
                }));
                let no = dec_ops().len();
                let cap4 = tier.pick(60, 400);
                v.push(family(
                    format!("two threads on one shared decomposition, {}x{}", n, n),
                    (no * no) as u64,
                    format!("all ordered pairs of {} groups of operations, at most two preemptions", no),
                    move |i| format!("{} | {}", dec_ops()[i as usize % no].0, dec_ops()[i as usize / no].0),
                    move |i, c| {
                        let os = dec_ops();
                        let (p, q) = (os[i as usize % no], os[i as usize / no]);
                        let d = &*d;
                        let ja = || dec_digest(&p, &{ &d }.0);
                        let jb = || dec_digest(&q, &{ &d }.0);
                        c.outcome(&(p.0, q.0));
                        go(c, &[&ja, &jb], &[p.0.to_string(), q.0.to_string()], |n| {
                            let mut v = plans1(n, cap4);
                            v.extend(plans2(n, cap4 / 3));
                            v
                        })
                    },
                ));
            }
            v
        },
    )
}
