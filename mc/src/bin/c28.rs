//! C28: memory and files are given back, and memory in use stays in proportion to operands and results.
#[macro_use]
extern crate mc;
use la::Matrix;
use mc::alloc::*;
use mc::engine::*;
use mc::model::M;
use mc::ops::*;
use mc::scalars::{clear_budget, set_budget, C64};
use mc::spaces::structured;
use mc::valid::Sc;
use std::sync::Arc;

fn all<T: Sc>() -> Arc<Vec<Op<T>>> {
    let mut v = ops::<T>();
    v.extend(more_ops::<T>());
    Arc::new(v)
}
/// run an operation; bytes held afterwards (more than before), bytes at most, refused?
struct Use {
    kept: i64,
    most: i64,
    failed: bool,
}
fn measure<T: Sc>(o: &Op<T>, i: &In<T>) -> Use {
    uncounted(true);
    i.csv();
    let mut d = Dig::default();
    forget_panic();
    uncounted(false);
    set_quiet_hook(Some(uncounted));
    let before = live();
    reset_peak();
    let failed = attempt(|| (o.run)(i, &mut d)).is_err();
    let (p, _) = peak();
    forget_panic();
    let after = live();
    set_quiet_hook(None);
    uncounted(true);
    drop(d);
    uncounted(false);
    Use { kept: after - before, most: p - before, failed }
}
/// inputs of one shape with different contents
fn content(r: usize, c: usize, k: usize) -> M<f64> {
    let st = structured(r, c);
    if k < st.len() {
        return st[k].1.clone();
    }
    M::from_fn(r, c, |i, j| ((i * 7 + j * 3 + k * (i + 2 * j + 1)) % 23) as f64 - 9.0 + if i == j { 30.0 + k as f64 } else { 0.0 })
}
const SHAPES: [(usize, usize); 14] = [(1, 1), (2, 2), (3, 3), (4, 3), (3, 4), (2, 7), (5, 1), (1, 5), (5, 5), (6, 6), (9, 7), (7, 9), (16, 17), (20, 20)];

fn growth<T: Sc>(t: &'static str, tier: Tier, v: &mut Vec<Family>) {
    let ops = all::<T>();
    let n = ops.len();
    let rounds = tier.pick(150usize, 1100);
    let (o1, o2) = (ops.clone(), ops.clone());
    v.push(family(
        format!("{}: memory held after 2 and after {} rounds of calls", t, rounds),
        (n * SHAPES.len()) as u64,
        format!("{} operations on {} shapes, with other contents in every round (all structured kinds, then dense)", n, SHAPES.len()),
        move |i| format!("{} on {:?}", o1[i as usize % n].name, SHAPES[i as usize / n]),
        move |i, c| {
            let (r, k) = SHAPES[i as usize / n];
            let o = &o2[i as usize % n];
            let rounds = if r * k > 100 { rounds / 3 } else { rounds };
            let mut sum = 0;
            for x in 0..rounds {
                uncounted(true);
                let m = In::<T>::new(&content(r, k, x));
                uncounted(false);
                let u = measure(o, &m);
                uncounted(true);
                drop(m);
                uncounted(false);
                if x >= 2 {
                    sum += u.kept;
                }
                c.outcome(&(o.name, r, k, u.most, u.failed));
            }
            c.state(&(t, i));
            c.call(rounds as u64);
            c.trace();
            c.nontrivial += 1;
            ensure!(sum <= 0, "{} bytes more are held after {} further calls whose results were dropped", sum, rounds - 2);
            Ok(())
        },
    ));
    // histories of two operations
    let (o1, o2) = (ops.clone(), ops.clone());
    v.push(family(
        format!("{}: memory held after repeated pairs of calls", t),
        (n * n) as u64,
        "all ordered pairs of operations on a 4x3 and a 3x3 matrix, 40 repetitions",
        move |i| format!("{} then {}", o1[i as usize % n].name, o1[i as usize / n].name),
        move |i, c| {
            let (a, b) = (&o2[i as usize % n], &o2[i as usize / n]);
            uncounted(true);
            let (x, y) = (In::<T>::new(&content(4, 3, 1)), In::<T>::new(&content(3, 3, 2)));
            uncounted(false);
            let mut sum = 0;
            for k in 0..40 {
                let u = measure(a, &x).kept + measure(b, &y).kept;
                if k >= 2 {
                    sum += u;
                }
            }
            uncounted(true);
            drop((x, y));
            uncounted(false);
            c.state(&(t, i, 2));
            c.call(80);
            c.trace();
            c.nontrivial += 1;
            c.outcome(&i);
            ensure!(sum <= 0, "{} bytes more are held after 38 repetitions", sum);
            Ok(())
        },
    ));
    // results are kept for a while and dropped in another order: the memory comes back all the same
    let (o1, o2) = (ops.clone(), ops);
    let big: Vec<(usize, usize)> = vec![(1, 3000), (3000, 1), (2, 1500), (1500, 2), (3, 700), (700, 3), (40, 90), (90, 40), (120, 120), (200, 200)];
    let nb = big.len();
    let b1 = big.clone();
    v.push(family(
        format!("{}: largest memory in use during a call", t),
        (n * nb) as u64,
        format!("{} operations on {} large shapes", n, nb),
        move |i| format!("{} on {:?}", o1[i as usize % n].name, b1[i as usize / n]),
        move |i, c| {
            let (r, k) = big[i as usize / n];
            let o = &o2[i as usize % n];
            let long = (r.max(k)) as f64;
            let short = r.min(k) as f64;
            let e = std::mem::size_of::<T>() as f64;
            let lin = long * short;
            // multiples of the elements of operands and results (worst on the unchanged code in brackets)
            let elems = match o.name {
                // the digest needs both A*B and B*A, or matrices of the longer dimension
                "mul" | "mul owned" | "mmul" => 16.0 * (lin + long * long),
                "lu" | "cholesky" | "qr" | "svd" | "svd direct" | "pinverse" => 16.0 * (lin + long * long),
                // text
                "debug" => 40.0 * lin,
                "read_csv" | "read_csv with a failing parser" => 40.0 * lin,
                _ => 16.0 * lin,
            };
            if ["svd", "svd direct", "pinverse", "cholesky", "eigen of a symmetric matrix", "eigen"].contains(&o.name) && r.max(k) > 700 {
                c.skip("decompositions with a dimension above 700");
                return Ok(());
            }
            uncounted(true);
            let m = In::<T>::new(&M::from_fn(r, k, |i, j| ((i * 7 + j * 3) % 11) as f64 + if i == j { 20.0 } else { 0.0 }));
            uncounted(false);
            let u = measure(o, &m);
            let u2 = measure(o, &m);
            uncounted(true);
            drop(m);
            uncounted(false);
            c.state(&(t, i, 3));
            c.call(2);
            c.trace();
            c.nontrivial += 1;
            c.outcome(&(o.name, u.most));
            let most = u.most.max(u2.most) as f64;
            let limit = elems * e + 100_000.0;
            if most > 200_000.0 {
                c.worst("largest memory in use / limit", most / limit, || format!("{} on {}x{}", o.name, r, k));
            }
            ensure!(most <= limit, "{} bytes were in use; operands and results account for at most {:.0}", most, limit);
            Ok(())
        },
    ));
}
struct Slots(Vec<(usize, usize, u64)>, u64);
/// a panic at every scalar operation
fn faults(tier: Tier, v: &mut Vec<Family>) {
    let ops = all::<C64>();
    let shapes: &[(usize, usize)] = tier.pick(&[(3, 3), (4, 3), (2, 5)], &[(3, 3), (4, 3), (2, 5), (1, 4), (5, 5), (7, 4)]);
    let mut s = Slots(vec![], 0);
    for (x, &(r, c)) in shapes.iter().enumerate() {
        for (o, op) in ops.iter().enumerate() {
            let i = In::<C64>::new(&content(r, c, 3));
            i.csv();
            set_budget(u64::MAX - 1);
            let _ = attempt(|| (op.run)(&i, &mut Dig::default()));
            let n = clear_budget().min(3000);
            s.0.push((x, o, s.1));
            s.1 += n;
        }
    }
    let total = s.1;
    let s = Arc::new(s);
    let (s1, s2, o1) = (s.clone(), s, ops.clone());
    let find = |s: &Slots, i: u64| {
        let k = s.0.partition_point(|x| x.2 <= i) - 1;
        (s.0[k].0, s.0[k].1, i - s.0[k].2)
    };
    v.push(family(
        "memory held after a panic at every scalar operation, callback and Debug call",
        total,
        format!("{} operations on the shapes {:?}, up to 3000 places each", ops.len(), shapes),
        move |i| {
            let (x, o, k) = find(&s1, i);
            format!("{} on {:?}, panic at scalar operation {}", o1[o].name, shapes[x], k)
        },
        move |i, c| {
            let (x, o, k) = find(&s2, i);
            let (r, cc) = shapes[x];
            uncounted(true);
            let m = In::<C64>::new(&content(r, cc, 3));
            uncounted(false);
            let mut sum = 0;
            let mut hit = false;
            for n in 0..6 {
                uncounted(true);
                m.csv();
                uncounted(false);
                set_budget(k);
                let u = measure(&ops[o], &m);
                clear_budget();
                hit |= u.failed;
                if n >= 2 {
                    sum += u.kept;
                }
                if n == 2 && sum == 0 {
                    break;
                }
            }
            uncounted(true);
            drop(m);
            uncounted(false);
            c.state(&("fault", i));
            c.call(3);
            c.trace();
            c.nontrivial += 1;
            c.outcome(&(o, hit));
            ensure!(sum <= 0, "{} bytes are kept by four calls that panicked", sum);
            Ok(())
        },
    ));
}
fn open_files() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}
/// files are closed, whatever way the call ends
fn files(v: &mut Vec<Family>) {
    let cases: Vec<(&'static str, &'static str, usize)> = vec![
        ("1,2\n3,4\n", "a good file", usize::MAX),
        ("", "an empty file", usize::MAX),
        ("1,2\n3\n", "a ragged file", usize::MAX),
        ("1,2\n\n3,4\n", "a file with an empty line", usize::MAX),
        ("1,2\n3,4\n", "a parser that fails at once", 0),
        ("1,2\n3,4\n", "a parser that fails at the third field", 2),
        ("1,\u{fffd}\n", "text outside ASCII", usize::MAX),
    ];
    let n = cases.len() as u64;
    let cs = Arc::new(cases);
    let (c1, c2) = (cs.clone(), cs);
    v.push(family(
        "files held open after 50 calls of read_csv",
        n + 3,
        "good, empty, ragged files, failing parsers, bytes that are not text, a missing file, a directory",
        move |i| match i.checked_sub(n) {
            None => c1[i as usize].1.to_string(),
            Some(0) => "bytes that are not UTF-8".into(),
            Some(1) => "a missing file".into(),
            Some(_) => "a directory".into(),
        },
        move |i, c| {
            let d = format!("/tmp/verif-c28-{}-{}", std::process::id(), i);
            std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
            let p = format!("{}/f.csv", d);
            let (name, stop) = match i.checked_sub(n) {
                None => {
                    std::fs::write(&p, c2[i as usize].0).map_err(|e| e.to_string())?;
                    (p.clone(), c2[i as usize].2)
                }
                Some(0) => {
                    std::fs::write(&p, b"1,2\n3,\xff\n").map_err(|e| e.to_string())?;
                    (p.clone(), usize::MAX)
                }
                Some(1) => (format!("{}/none.csv", d), usize::MAX),
                Some(_) => (d.clone(), usize::MAX),
            };
            let before = open_files();
            let mut kept = 0;
            for k in 0..50 {
                forget_panic();
                let l = live();
                let n = std::cell::Cell::new(0);
                let ok = attempt(|| {
                    la::util::read_csv::<f64>(&name, &|s: &str| {
                        n.set(n.get() + 1);
                        if n.get() > stop {
                            panic!("parser")
                        }
                        s.trim().parse().unwrap_or(0.0)
                    })
                })
                .is_ok();
                forget_panic();
                if k >= 2 {
                    kept += live() - l;
                }
                c.outcome(&(i, ok));
            }
            let after = open_files();
            let _ = std::fs::remove_file(&p);
            let _ = std::fs::remove_dir(&d);
            c.state(&("files", i));
            c.call(50);
            c.trace();
            c.nontrivial += 1;
            ensure!(after <= before, "{} files more are open after 50 calls", after - before);
            ensure!(kept <= 0, "{} bytes more are held after 48 calls", kept);
            Ok(())
        },
    ));
    v.last_mut().unwrap().serial = true;
    // many live results, dropped oldest first and newest first; drops of decompositions
    v.push(family(
        "results kept and dropped later, in both orders",
        2 * 12,
        "100 matrices and decompositions alive at once, sizes 1 to 12",
        |i| format!("size {}, {}", i / 2 + 1, if i % 2 == 0 { "oldest first" } else { "newest first" }),
        |i, c| {
            let n = i as usize / 2 + 1;
            let m = Matrix::new(n, n, content(n, n, 500).d);
            let one = |k: usize| -> Box<dyn std::any::Any> {
                match k % 9 {
                    0 => Box::new(m.clone()),
                    1 => Box::new(la::LUDecomposition::new(&m)),
                    2 => Box::new(la::QRDecomposition::new(&m)),
                    3 => Box::new(la::SVD::new(&m)),
                    4 => Box::new(la::EigenDecomposition::new(&m)),
                    5 => Box::new(la::CholeskyDecomposition::new(&(&m * &m.t()))),
                    6 => Box::new(Matrix::<f64>::random(n, n)),
                    7 => Box::new(m.t()),
                    _ => Box::new((m.inverse(), m.solve(&m), m.minor_or(n))),
                }
            };
            let mut kept = 0;
            for round in 0..4 {
                let l = live();
                let mut v: Vec<Option<Box<dyn std::any::Any>>> = (0..100).map(|k| Some(one(k))).collect();
                for k in 0..100 {
                    let j = if i % 2 == 0 { k } else { 99 - k };
                    v[j].take();
                }
                drop(v);
                if round >= 1 {
                    kept += live() - l;
                }
            }
            c.state(&("order", i));
            c.call(400);
            c.trace();
            c.nontrivial += 1;
            c.outcome(&i);
            ensure!(kept <= 0, "{} bytes more are held after all results were dropped", kept);
            Ok(())
        },
    ));
}
trait MinorOr {
    fn minor_or(&self, n: usize) -> Option<Matrix<f64>>;
}
impl MinorOr for Matrix<f64> {
    fn minor_or(&self, n: usize) -> Option<Matrix<f64>> {
        if n > 1 {
            Some(self.minor(0, 0))
        } else {
            None
        }
    }
}
fn main() {
    run_check(
        Spec {
            id: "C28",
            level: "model_checking",
            rule: "each case is one call, history or fault point executed under an allocator that counts every byte taken and given back by the thread; after the results are dropped the count must not have grown between early and late rounds, and its maximum during the call must stay below a fixed multiple of operands and results",
            assumptions: &["a bounded amount taken by the first two rounds (a pool or cache of fixed size) is not counted as growth", "memory is that of the Rust global allocator on the calling thread"],
        },
        |tier| {
            let mut v = vec![];
            growth::<f64>("f64", tier, &mut v);
            growth::<f32>("f32", tier, &mut v);
            faults(tier, &mut v);
            files(&mut v);
            v
        },
    )
}
