//! C23: a panic in a scalar operation or callback leaves every matrix well-formed.
//! A fault is injected at every scalar operation / callback call of every operation.
#[macro_use]
extern crate mc;
use la::*;
use mc::engine::*;
use mc::model::M;
use mc::ops::*;
use mc::scalars::{clear_budget, set_budget, C64};
use mc::spaces::structured;
use std::cell::Cell;
use std::sync::Arc;

type Mat = Matrix<C64>;
fn subject(r: usize, c: usize, kind: &str) -> M<f64> {
    structured(r, c).into_iter().find(|(n, _)| n == kind).unwrap().1
}
fn bits(m: &Mat) -> Vec<u64> {
    m.get_data().iter().map(|x| x.0.to_bits()).collect()
}
/// number of scalar operations of `f` (refused calls: up to the refusal)
fn points(f: impl FnOnce()) -> u64 {
    set_budget(400_000);
    let _ = attempt(f);
    clear_budget().min(400_000)
}
/// run `f` with a panic at scalar operation k; did it panic?
fn faulty(k: u64, f: impl FnOnce()) -> bool {
    set_budget(k);
    let r = attempt(f);
    clear_budget();
    r.is_err()
}
struct Index(Vec<(usize, usize, u64)>, u64); // (op, subject, first index)
impl Index {
    fn find(&self, i: u64) -> (usize, usize, u64) {
        let k = self.0.partition_point(|x| x.2 <= i) - 1;
        (self.0[k].0, self.0[k].1, i - self.0[k].2)
    }
}
/// one entry per (op, subject) with points+1 indices (the last: no fault inside)
fn index(nops: usize, nsub: usize, n: impl Fn(usize, usize) -> u64) -> Index {
    let mut v = vec![];
    let mut at = 0;
    for o in 0..nops {
        for s in 0..nsub {
            v.push((o, s, at));
            at += n(o, s) + 1;
        }
    }
    Index(v, at)
}
/// a matrix is usable when operations on it give what they give on a fresh matrix of its content
fn usable(m: &Mat, r: usize, c: usize) -> Res {
    ensure!(m.rows() == r && m.cols() == c && m.get_data().len() == r * c, "the matrix is left as {}x{} with {} values, expected {}x{}", m.rows(), m.cols(), m.get_data().len(), r, c);
    let f = Matrix::new(r, c, m.get_data().clone());
    let show = |m: &Mat| {
        let mut m = m.clone();
        let mut d = Dig::default();
        d.m(&m);
        for i in 0..r {
            for j in 0..c {
                d.v(m.get(i, j));
                d.v(m[(i, j)]);
                d.v(*m.get_ref(i, j));
            }
        }
        d.m(&m.t());
        d.m(&m.cr(&m));
        d.m(&m.cb(&m));
        d.m(&(&m + &m));
        d.m(&(&m * &m.t()));
        d.m(&m.get_column(c - 1));
        d.s(&format!("{:?}", m));
        m.set(r - 1, c - 1, C64(3.0));
        m.mneg();
        let o = m.clone();
        m.madd(&o);
        m.mt();
        d.m(&m);
        d
    };
    let (a, b) = (attempt(|| show(m)), attempt(|| show(&f)));
    match (a, b) {
        (Ok(a), Ok(b)) => {
            ensure!(a == b, "after the panic operations on the matrix give other results than on a fresh matrix of the same content");
            Ok(())
        }
        (Err(e), _) => Err(format!("after the panic an operation on the matrix fails: {}", e)),
        (_, Err(e)) => Err(format!("an operation on a fresh matrix fails: {}", e)),
    }
}
struct InPlace {
    name: &'static str,
    run: fn(&mut Mat, &In<C64>),
    /// leaves the elements in place, so that each is old or new
    keeps_shape: bool,
}
fn in_place() -> Vec<InPlace> {
    macro_rules! ip {
        ($n:expr, $k:expr, |$m:ident, $i:ident| $e:expr) => {
            InPlace { name: $n, keeps_shape: $k, run: |$m: &mut Mat, $i: &In<C64>| { let _ = $i; $e } }
        };
    }
    vec![
        ip!("mneg", true, |m, i| m.mneg()),
        ip!("mscale", true, |m, i| m.mscale(C64(-1.5))),
        ip!("madd", true, |m, i| m.madd(&i.b)),
        ip!("msub", true, |m, i| m.msub(&i.b)),
        ip!("melem_mul", true, |m, i| m.melem_mul(&i.b)),
        ip!("melem_div", true, |m, i| m.melem_div(&i.b)),
        ip!("mmap", true, |m, i| m.mmap(&|x: &C64| *x * C64(3.0) + C64(1.0))),
        ip!("mmul by the transpose", false, |m, i| m.mmul(&i.bt)),
        ip!("mmul by a narrow matrix", false, |m, i| m.mmul(&i.bt.get_column(0))),
        ip!("mmul by a wide matrix", false, |m, i| m.mmul(&i.bt.cr(&i.bt))),
        ip!("mmul by a square matrix", true, |m, i| m.mmul(&Matrix::new(m.cols(), m.cols(), (0..m.cols() * m.cols()).map(|k| C64((k % 5) as f64 - 1.5)).collect()))),
        ip!("madd of a refused shape", true, |m, i| m.madd(&i.a.cr(&i.a))),
        ip!("msub of a refused shape", true, |m, i| m.msub(&i.a.cb(&i.a))),
        ip!("melem_mul of a refused shape", true, |m, i| m.melem_mul(&i.a.cr(&i.a))),
        ip!("melem_div of a refused shape", true, |m, i| m.melem_div(&i.a.cb(&i.a))),
        ip!("mmul of a refused shape", true, |m, i| m.mmul(&i.bt.cb(&i.bt))),
        ip!("mt", false, |m, i| m.mt()),
    ]
}
struct Decs {
    lu: LUDecomposition<C64>,
    qr: QRDecomposition<C64>,
    svd: SVD<C64>,
    eig: EigenDecomposition<C64>,
    chol: CholeskyDecomposition<C64>,
    rhs: Mat,
    bad: Mat,
}
fn decs(n: usize, kind: &str) -> Decs {
    let a: Mat = mc::valid::up(&subject(n, n, kind));
    let mut g = &a * &a.t();
    for i in 0..n {
        for j in 0..i {
            let x = g.get(i, j);
            g.set(j, i, x);
        }
        let x = g.get(i, i) + C64(5.0);
        g.set(i, i, x);
    }
    let rhs = Matrix::new(n, 2, (0..2 * n).map(|i| C64(i as f64 - 1.5)).collect());
    let bad = Matrix::new(n + 1, 1, vec![C64(1.0); n + 1]);
    Decs { lu: LUDecomposition::new(&a), qr: QRDecomposition::new(&a), svd: SVD::new(&a), eig: EigenDecomposition::new(&a), chol: CholeskyDecomposition::new(&g).unwrap(), rhs, bad }
}
fn all_of(x: &Decs) -> Dig {
    let mut d = Dig::default();
    d.m(&x.lu.get_l());
    d.m(&x.lu.get_u());
    d.m(&x.lu.get_p());
    d.v(x.lu.det());
    d.b(x.lu.is_singular());
    d.o(&x.lu.solve(&x.rhs));
    d.m(&x.qr.get_q());
    d.m(&x.qr.get_r());
    d.m(&x.qr.get_h());
    d.b(x.qr.is_full_rank());
    d.o(&x.qr.solve(&x.rhs));
    d.n(x.svd.rank());
    d.m(x.svd.get_u());
    d.m(x.svd.get_s());
    d.m(x.svd.get_v());
    d.m(&x.eig.get_d());
    d.m(x.eig.get_v());
    d.m(x.chol.get_l());
    d.m(&x.chol.solve(&x.rhs));
    d.m(&x.rhs);
    d
}
const DEC_OPS: [(&str, fn(&Decs)); 15] = [
    ("lu.get_l", |x| drop(x.lu.get_l())),
    ("lu.get_u", |x| drop(x.lu.get_u())),
    ("lu.get_p", |x| drop(x.lu.get_p())),
    ("lu.det", |x| drop(x.lu.det())),
    ("lu.is_singular", |x| drop(x.lu.is_singular())),
    ("lu.solve", |x| drop(x.lu.solve(&x.rhs))),
    ("lu.solve refused", |x| drop(x.lu.solve(&x.bad))),
    ("qr.get_q", |x| drop(x.qr.get_q())),
    ("qr.get_r and get_h", |x| drop((x.qr.get_r(), x.qr.get_h()))),
    ("qr.solve", |x| drop(x.qr.solve(&x.rhs))),
    ("qr.solve refused", |x| drop(x.qr.solve(&x.bad))),
    ("svd.rank", |x| drop(x.svd.rank())),
    ("eig.get_d", |x| drop(x.eig.get_d())),
    ("cholesky.solve", |x| drop(x.chol.solve(&x.rhs))),
    ("cholesky.solve refused", |x| drop(x.chol.solve(&x.bad))),
];
fn main() {
    run_check(
        Spec {
            id: "C23",
            level: "fault_enumeration",
            rule: "each case injects one panic at one scalar operation or callback call (or lets the call be refused or succeed); non-trivial: the panic was raised inside the operation; operation, operands and point differ between cases",
            assumptions: &["allocation failures abort the process and are outside the property", "copying an element does not panic (elements are Copy)"],
        },
        |tier| {
            let mut v = vec![];
            // ---- every operation, every scalar operation of it
            let mut subs: Vec<(usize, usize, &str)> = vec![(1, 1, "seq"), (2, 2, "dense0"), (2, 3, "dense1"), (3, 2, "dense2"), (3, 3, "dense3"), (3, 3, "cyclic"), (3, 3, "min"), (4, 4, "rotblocks-coupled")];
            if tier.thorough() {
                subs.extend([(1, 4, "seq"), (4, 1, "seq"), (4, 3, "dense0"), (3, 4, "dense0"), (3, 3, "zero"), (4, 4, "rank1"), (4, 4, "dense1"), (5, 5, "companion-poly"), (5, 5, "dense2"), (6, 4, "dense0"), (4, 6, "dense0"), (6, 6, "grcar"), (6, 6, "frank")]);
            }
            let ins: Arc<Vec<M<f64>>> = Arc::new(subs.iter().map(|s| subject(s.0, s.1, s.2)).collect());
            let reg = Arc::new(ops::<C64>());
            let pure = |reg: &Vec<Op<C64>>, o: usize, i: &In<C64>| {
                let mut d = Dig::default();
                match attempt(|| {
                    let mut d = Dig::default();
                    (reg[o].run)(i, &mut d);
                    d
                }) {
                    Ok(r) => d.0.extend(r.0),
                    Err(_) => d.0.push(0xDEAD),
                }
                d
            };
            let ix = {
                let (reg, ins) = (reg.clone(), ins.clone());
                index(reg.len(), ins.len(), move |o, s| {
                    let i = In::<C64>::new(&ins[s]);
                    points(|| {
                        let mut d = Dig::default();
                        (reg[o].run)(&i, &mut d)
                    })
                })
            };
            let total = ix.1;
            let ix = Arc::new(ix);
            // what an undisturbed run of each (operation, subject) gives, computed once
            let fresh: Arc<Vec<Dig>> = {
                let mut v = vec![];
                for o in 0..reg.len() {
                    for s in 0..ins.len() {
                        set_budget(2_000_000);
                        v.push(pure(&reg, o, &In::new(&ins[s])));
                        clear_budget();
                    }
                }
                Arc::new(v)
            };
            let (i2, r2, s2) = (ix.clone(), reg.clone(), subs.clone());
            v.push(family("every operation, every scalar operation", total, format!("{} operations on {} subjects {:?}", reg.len(), subs.len(), subs), move |i| {
                let (o, s, k) = i2.find(i);
                format!("{} on {:?}, panic at scalar operation {}", r2[o].name, s2[s], k)
            }, move |i, c| {
                let (o, s, k) = ix.find(i);
                let inp = In::<C64>::new(&ins[s]);
                let mut before = Dig::default();
                inp.digest(&mut before);
                c.state(&i);
                let hit = faulty(k, || {
                    let mut d = Dig::default();
                    (reg[o].run)(&inp, &mut d)
                });
                c.nontrivial += hit as u64;
                c.call(2);
                c.trace();
                let mut after = Dig::default();
                inp.digest(&mut after);
                ensure!(before == after, "a borrowed operand changed");
                for m in [&inp.a, &inp.b, &inp.bt, &inp.rhs] {
                    ensure!(m.rows() * m.cols() == m.get_data().len(), "a borrowed operand is malformed");
                }
                // and the library works on as before (every point of the cheap ones, else a fixed stride)
                let n = fresh[o * ins.len() + s].0.len();
                if k < 60 || k % 7 == 0 {
                    let again = pure(&reg, o, &inp);
                    ensure!(again == fresh[o * ins.len() + s], "after the panic the same call gives another result ({} and {} words)", again.0.len(), n);
                    c.call(1);
                }
                c.outcome(&(o, hit));
                Ok(())
            }));
            // ---- in-place operations
            let ips = Arc::new(in_place());
            let big = tier.pick(vec![(17, 16), (1, 65), (65, 1), (33, 2)], vec![(17, 16), (1, 65), (65, 1), (33, 2), (32, 33), (64, 3), (3, 129), (130, 1), (1, 257)]);
            let mut shapes: Vec<(usize, usize)> = vec![];
            let b = tier.pick(5, 8);
            for r in 1..=b {
                for c in 1..=b {
                    shapes.push((r, c));
                }
            }
            shapes.extend(big);
            let sh = Arc::new(shapes);
            let mk = |s: (usize, usize)| In::<C64>::new(&M::from_fn(s.0, s.1, |i, j| (i * s.1 + j) as f64 * 1.25 - 3.0));
            let ix = {
                let (ips, sh) = (ips.clone(), sh.clone());
                Arc::new(index(ips.len(), sh.len(), move |o, s| {
                    let i = mk(sh[s]);
                    let mut m = i.a.clone();
                    points(|| (ips[o].run)(&mut m, &i))
                }))
            };
            let (i2, p2, s2) = (ix.clone(), ips.clone(), sh.clone());
            let nsh = sh.len();
            v.push(family("in-place operations, every scalar operation", ix.1, format!("{} in-place operations (refused ones included) on {} shapes", ips.len(), nsh), move |i| {
                let (o, s, k) = i2.find(i);
                format!("{} on {:?}, panic at scalar operation {}", p2[o].name, s2[s], k)
            }, move |i, c| {
                let (o, s, k) = ix.find(i);
                let (r, cc) = sh[s];
                let inp = mk(sh[s]);
                let op = &ips[o];
                let mut before = Dig::default();
                inp.digest(&mut before);
                c.state(&(i, "in place"));
                let mut new = inp.a.clone();
                let refused = attempt(|| (op.run)(&mut new, &inp)).is_err();
                let mut m = mc::model::fresh(&inp.a);
                let kept = m.clone();
                let hit = faulty(k, || (op.run)(&mut m, &inp));
                c.call(2);
                c.trace();
                c.nontrivial += (hit && !refused) as u64;
                let mut after = Dig::default();
                inp.digest(&mut after);
                ensure!(before == after && bits(&kept) == bits(&inp.a), "a borrowed operand or a clone changed");
                if hit {
                    usable(&m, r, cc)?;
                    let (o, n, x) = (bits(&inp.a), bits(&new), bits(&m));
                    if refused {
                        ensure!(x == o, "a refused call changed the matrix: {:?}, before {:?}", m.get_data(), inp.a.get_data());
                    } else if op.keeps_shape {
                        for p in 0..x.len() {
                            ensure!(x[p] == o[p] || x[p] == n[p], "element {} is {:?}: neither the value before ({:?}) nor after ({:?})", p, m.get_data()[p], inp.a.get_data()[p], new.get_data()[p]);
                        }
                    } else if op.name != "mt" {
                        // the shape is the one before, so the elements are
                        ensure!(x == o || (n.len() == o.len() && new.rows() == r && (0..x.len()).all(|p| x[p] == o[p] || x[p] == n[p])), "a panicking {} left {:?}, before {:?}", op.name, m.get_data(), inp.a.get_data());
                    }
                } else {
                    ensure!(!refused, "the call is refused only without a fault");
                    usable(&m, new.rows(), new.cols())?;
                    ensure!(bits(&m) == bits(&new), "the call gave two results");
                }
                // the same call again on the matrix as it is now equals the call on a fresh matrix
                let mut f = mc::model::fresh(&m);
                let a = attempt(|| (op.run)(&mut m, &inp)).is_err();
                let b = attempt(|| (op.run)(&mut f, &inp)).is_err();
                ensure!(a == b && m.rows() == f.rows() && m.cols() == f.cols() && bits(&m) == bits(&f), "repeating the call after the panic differs from the call on a fresh matrix");
                c.outcome(&(o, hit, refused));
                Ok(())
            }));
            // ---- two faults in a row on one live matrix, then a third operation
            let nip = ips_len();
            let two = tier.pick(8u64, 14);
            v.push(family("two faulty in-place operations in a row", (nip * nip) as u64 * two * two, format!("all pairs of in-place operations on 2x2, 3x2 and 2x3, panic at each of the first {} scalar operations of both", two), move |i| format!("pair {} faults {:?}", i / two / two, (i % two, i / two % two)), move |i, c| {
                let (k1, k2) = (i % two, i / two % two);
                let p = (i / two / two) as usize;
                let ips = in_place();
                c.state(&(i, "pair"));
                for (r, cc) in [(2, 2), (3, 2), (2, 3)] {
                    let inp = mk((r, cc));
                    let mut m = mc::model::fresh(&inp.a);
                    let h1 = faulty(k1, || (ips[p % nip].run)(&mut m, &inp));
                    let mut f = mc::model::fresh(&m);
                    ensure!(m.rows() * m.cols() == m.get_data().len(), "malformed matrix after the first fault");
                    let h2 = faulty(k2, || (ips[p / nip].run)(&mut m, &inp));
                    let g2 = faulty(k2, || (ips[p / nip].run)(&mut f, &inp));
                    ensure!(h2 == g2 && m.rows() == f.rows() && bits(&m) == bits(&f), "{} after a faulty {} differs from a fresh matrix", ips[p / nip].name, ips[p % nip].name);
                    usable(&m, f.rows(), f.cols())?;
                    c.call(4);
                    c.trace();
                    c.nontrivial += (h1 && h2) as u64;
                }
                Ok(())
            }));
            // ---- callbacks that panic, at every call
            let b = tier.pick(8u64, 16);
            let ncb = 6u64;
            v.push(family("callbacks that panic at every call", b * b * ncb, format!("map, mmap, reduce, filter_rows, filter_columns, element Debug on all shapes up to {0}x{0}, at every call and beyond the last", b), move |i| format!("{}x{} callback of kind {}", i % b + 1, i / b % b + 1, i / b / b), move |i, c| {
                let (r, cc, kind) = ((i % b + 1) as usize, (i / b % b + 1) as usize, i / b / b);
                let calls = match kind {
                    3 => r,
                    4 => cc,
                    _ => r * cc,
                };
                for at in 0..=calls {
                    let a = M::from_fn(r, cc, |i, j| (i * cc + j) as f64 + 0.5).real();
                    let mut m = a.clone();
                    let n = Cell::new(0);
                    let step = || {
                        n.set(n.get() + 1);
                        if n.get() == at + 1 {
                            panic!("callback")
                        }
                    };
                    c.state(&(i, at));
                    let init = vec![1.0; cc];
                    thread_local!(static DEBUG_LEFT: Cell<usize> = const { Cell::new(usize::MAX) });
                    #[derive(Clone, Copy)]
                    struct D(usize);
                    impl std::fmt::Debug for D {
                        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                            DEBUG_LEFT.with(|d| {
                                if d.get() == 0 {
                                    panic!("debug")
                                }
                                d.set(d.get() - 1)
                            });
                            write!(f, "{}", self.0)
                        }
                    }
                    let dm = Matrix::new(r, cc, (0..r * cc).map(D).collect());
                    let res = attempt(|| match kind {
                        0 => drop(m.map(&|x: &f64| {
                            step();
                            *x * 2.0
                        })),
                        1 => m.mmap(&|x: &f64| {
                            step();
                            *x * 2.0
                        }),
                        2 => drop(m.reduce(&init, &|s: &f64, x: &f64| {
                            step();
                            *s + *x
                        })),
                        3 => drop(m.filter_rows(&|_: &Matrix<f64>, k| {
                            step();
                            k == 0
                        })),
                        4 => drop(m.filter_columns(&|_: &Matrix<f64>, k| {
                            step();
                            k == 0
                        })),
                        _ => {
                            DEBUG_LEFT.with(|d| d.set(at));
                            let _ = format!("{:?}", dm);
                        }
                    });
                    DEBUG_LEFT.with(|d| d.set(usize::MAX));
                    c.call(1);
                    c.trace();
                    c.nontrivial += res.is_err() as u64;
                    // (how often the element texts are made is not specified)
                    if kind != 5 {
                        ensure!(res.is_err() == (at < calls), "panic at call {} of {}: the operation {}", at + 1, calls, if res.is_err() { "panicked" } else { "went on" });
                    }
                    ensure!(init.iter().all(|x| *x == 1.0), "reduce changed its initial values");
                    ensure!(dm.get_data().iter().enumerate().all(|(i, x)| x.0 == i), "formatting changed the matrix");
                    ensure!(m.rows() == r && m.cols() == cc && m.get_data().len() == r * cc, "the matrix is left as {}x{} with {} values", m.rows(), m.cols(), m.get_data().len());
                    for p in 0..r * cc {
                        let (o, x) = (a.get_data()[p], m.get_data()[p]);
                        let ok = if kind == 1 { x == o * 2.0 || (res.is_err() && x == o) } else { x == o };
                        ensure!(ok, "element {} is {}, it was {}", p, x, o);
                    }
                    // still usable
                    let d = attempt(|| {
                        let mut k = m.clone();
                        k.mmap(&|x: &f64| *x - 1.0);
                        k.mt();
                        (k, m.t(), format!("{:?}", m), format!("{:?}", dm).len())
                    });
                    match d {
                        Ok((k, t, s, _)) => {
                            let f = Matrix::new(r, cc, m.get_data().clone());
                            ensure!(k == f.map(&|x: &f64| *x - 1.0).t() && t == f.t() && s == format!("{:?}", f), "operations after the panic give other results than on a fresh matrix");
                        }
                        Err(e) => return Err(format!("an operation after the panic fails: {}", e)),
                    }
                    c.outcome(&(kind, res.is_err()));
                }
                Ok(())
            }));
            // ---- refused accesses and arguments change nothing
            v.push(family("refused writes and arguments", 8 * 8 * 8 * 8, "all pairs of shapes up to 8x8: element-wise operations, product, concatenation, out-of-range writes", |i| format!("{}x{} with {}x{}", i % 8 + 1, i / 8 % 8 + 1, i / 64 % 8 + 1, i / 512 + 1), |i, c| {
                let (r, k, r2, k2) = ((i % 8 + 1) as usize, (i / 8 % 8 + 1) as usize, (i / 64 % 8 + 1) as usize, (i / 512 + 1) as usize);
                c.state(&(i, "refused"));
                let a: Mat = mc::valid::up(&M::from_fn(r, k, |i, j| (i * k + j) as f64 + 0.5));
                let o: Mat = mc::valid::up(&M::from_fn(r2, k2, |i, j| (i * k2 + j) as f64 - 7.25));
                let mut m = a.clone();
                let fs: [&dyn Fn(&mut Mat); 12] = [
                    &|m| m.madd(&o),
                    &|m| m.msub(&o),
                    &|m| m.melem_mul(&o),
                    &|m| m.melem_div(&o),
                    &|m| m.mmul(&o),
                    &|m| m.set(r2 - 1, k2 - 1, C64(99.0)),
                    &|m| *m.get_mref(r2 - 1, k2 - 1) = C64(98.0),
                    &|m| drop(m.cr(&o)),
                    &|m| drop(m.cb(&o)),
                    &|m| drop(&*m + &o),
                    &|m| drop(&*m * &o),
                    &|m| drop(m.select_rows(&vec![true; r2 + k2])),
                ];
                for (n, f) in fs.iter().enumerate() {
                    if attempt(|| f(&mut m)).is_err() {
                        ensure!(bits(&m) == bits(&a), "refused call {} changed the matrix", n);
                        usable(&m, r, k)?;
                        c.nontrivial += 1;
                    }
                    m = a.clone();
                    c.call(1);
                }
                c.trace();
                let before = Matrix::new(r2, k2, (0..r2 * k2).map(|i| C64(i as f64 - 7.25)).collect());
                ensure!(bits(&o) == bits(&before) && o.rows() == r2, "a borrowed operand changed");
                Ok(())
            }));
            // ---- operations on decompositions
            let ks = ["dense0", "min", "seq", "rotblocks-coupled"];
            let nmax = tier.pick(4usize, 7);
            let mut dl = vec![];
            for n in 1..=nmax {
                for k in ks {
                    dl.push((n, k));
                }
            }
            let dl = Arc::new(dl);
            let ix = {
                let dl = dl.clone();
                Arc::new(index(DEC_OPS.len(), dl.len(), move |o, s| match attempt(|| decs(dl[s].0, dl[s].1)) {
                    Ok(d) => points(|| (DEC_OPS[o].1)(&d)),
                    Err(_) => 0,
                }))
            };
            let (i2, d2) = (ix.clone(), dl.clone());
            v.push(family("operations on shared decompositions, every scalar operation", ix.1, format!("{} operations on decompositions of {} matrices", DEC_OPS.len(), dl.len()), move |i| {
                let (o, s, k) = i2.find(i);
                format!("{} of {:?}, panic at scalar operation {}", DEC_OPS[o].0, d2[s], k)
            }, move |i, c| {
                let (o, s, k) = ix.find(i);
                let x = decs(dl[s].0, dl[s].1);
                let before = all_of(&x);
                c.state(&(i, "dec"));
                let hit = faulty(k, || (DEC_OPS[o].1)(&x));
                c.nontrivial += hit as u64;
                c.call(1);
                c.trace();
                let after = attempt(|| all_of(&x)).map_err(|e| format!("after the panic the decomposition fails: {}", e))?;
                ensure!(before == after, "after the panic the decomposition gives other results");
                c.outcome(&(o, hit));
                Ok(())
            }));
            mc::model::and_roomy(v)
        },
    )
}
fn ips_len() -> usize {
    in_place().len()
}
