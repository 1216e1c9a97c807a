//! C10: Cholesky exists exactly for symmetric positive definite matrices and solves.
#[macro_use]
extern crate mc;
use la::{CholeskyDecomposition, Matrix};
use mc::engine::*;
use mc::model::M;
use mc::numsp::*;
use mc::scalars::{q_inconclusive, Q};
use mc::spaces::*;
use mc::valid::*;
use num::traits::Zero;

fn rhs(n: usize) -> Vec<M<f64>> {
    vec![
        M::from_fn(n, 1, |i, _| (i + 1) as f64),
        M::from_fn(n, 1, |i, _| if i + 1 == n { 1.0 } else { 0.0 }),
        M::from_fn(n, n, |i, j| ((i * 3 + j * 5) % 7) as f64 - 3.0),
        M::from_fn(n, n + 2, |i, j| if (i + j) % 3 == 0 { 1.0 } else { -((i * j) as f64) }),
    ]
}
/// A = G G' with rational G of positive diagonal: the factor is exactly G
fn exact_body(g: &M<f64>, c: &mut Ctx) -> Res {
    let n = g.r;
    let gm = M::of(&q_up(g));
    let qmul = |a: &M<Q>, b: &M<Q>| a.mul_by(b, Q::zero(), |s, x, y| s + x * y);
    let am = qmul(&gm, &gm.t());
    let a = am.real();
    let ch = match CholeskyDecomposition::new(&a) {
        Some(c) => c,
        None => return Err(format!("None for the positive definite {:?}", am)),
    };
    am.same(&a, "the argument")?;
    let l = M::of(ch.get_l());
    ensure!(l == gm, "L = {:?}, the factor of {:?} is {:?}", l, am, gm);
    for b in rhs(n) {
        let rb = q_up(&b);
        let x = ch.solve(&rb);
        ensure!((x.rows(), x.cols()) == (n, b.c), "solve gives {}x{}", x.rows(), x.cols());
        let xm = M::of(&x);
        ensure!(qmul(&am, &xm) == M::of(&rb), "A = {:?} B = {:?}: X = {:?} does not solve", am, b, xm);
        M::of(&q_up(&b)).same(&rb, "the right-hand side")?;
        c.call(1);
    }
    // the matrix itself as right-hand side, the factor where the decomposition keeps it, and its transpose
    let id = M::from_fn(n, n, |i, j| Q::int((i == j) as i64));
    ensure!(M::of(&ch.solve(&a)) == id, "A = {:?}: solve(A) = {:?}", am, M::of(&ch.solve(&a)));
    let x = M::of(&ch.solve(ch.get_l()));
    ensure!(qmul(&am, &x) == gm, "A = {:?}: solve(L) = {:?}", am, x);
    let x = M::of(&ch.solve(&ch.get_l().t()));
    ensure!(qmul(&am, &x) == gm.t(), "A = {:?}: solve(L') = {:?}", am, x);
    ensure!(M::of(ch.get_l()) == gm, "solve changed the decomposition");
    c.call(3);
    c.trace();
    c.nontrivial += 1;
    c.outcome(&am.d);
    Ok(())
}
fn exact(g: &M<f64>, c: &mut Ctx) -> Res {
    match attempt(|| exact_body(g, c)) {
        Ok(r) => r.map_err(|e| format!("G = {:?}: {}", g, e)),
        Err(p) if q_inconclusive(&p) => {
            c.skip("value outside the exact arithmetic's range");
            Ok(())
        }
        Err(p) => Err(format!("G = {:?}: panicked: {}", g, p)),
    }
}
const K: f64 = 12.0;
fn check_some(c: &mut Ctx, a: &M<f64>, ch: &CholeskyDecomposition<f64>) -> Res {
    check_rhs(c, a, ch, &rhs(a.r))
}
fn check_rhs(c: &mut Ctx, a: &M<f64>, ch: &CholeskyDecomposition<f64>, bs: &[M<f64>]) -> Res {
    let n = a.r;
    let l = down(ch.get_l());
    shape(&l, n, n, "L")?;
    finite(&l, "L")?;
    for i in 0..n {
        ensure!(l.at(i, i) > 0.0, "A = {:?}: L has a non-positive diagonal {:?}", a, l);
        for j in i + 1..n {
            ensure!(l.at(i, j) == 0.0, "A = {:?}: L is not lower triangular {:?}", a, l);
        }
    }
    let unit = l.abs().mul(&l.t().abs());
    let e = l.mul(&l.t()).sub(a);
    within(c, "|LL'-A| / (n eps |L||L'|)", &e, &unit.scaled(n as f64 * f64::EPSILON), 1e-290, K, || format!("A = {:?} L = {:?}", a, l))?;
    // the matrix itself and the factor (where the decomposition keeps it) as right-hand sides, too
    for b in bs.iter().chain([a, &l]) {
        let rb = up::<f64>(b);
        let x = down(&ch.solve(if std::ptr::eq(b, &l) { ch.get_l() } else { &rb }));
        shape(&x, n, b.c, "X")?;
        if x.d.iter().any(|v| !v.is_finite() || v.abs() > 1e150) {
            c.skip("solution outside the range");
            continue;
        }
        let r = a.mul(&x).sub(b);
        let w = unit.mul(&x.abs()).zip(&b.abs(), |p, q| (p + q) * n as f64 * f64::EPSILON);
        within(c, "solve |AX-B| / (n eps |L||L'||X|)", &r, &w, 1e-290, K, || format!("A = {:?} B = {:?} X = {:?}", a, b, x))?;
        ensure!(down(&rb) == *b, "the right-hand side changed");
        c.call(1);
    }
    ensure!(down(ch.get_l()) == l, "solve changed the decomposition");
    Ok(())
}
/// leading principal minors, exactly
fn minors(a: &M<f64>) -> Option<Vec<i128>> {
    (1..=a.r).map(|k| bareiss(&M::from_fn(k, k, |i, j| a.at(i, j)))).collect()
}
fn symmetric(a: &M<f64>) -> bool {
    (0..a.r).all(|i| (0..i).all(|j| a.at(i, j) == a.at(j, i)))
}
/// any symmetric or non-symmetric square matrix of integers
fn sylvester(a: &M<f64>, c: &mut Ctx) -> Res {
    let m = up::<f64>(a);
    let before = m.clone();
    let got = CholeskyDecomposition::new(&m);
    ensure!(m.get_data() == before.get_data(), "the argument changed");
    c.call(1);
    c.trace();
    if !symmetric(a) {
        ensure!(got.is_none(), "Some for the non-symmetric {:?}", a);
        c.note("non-symmetric", 1);
        return Ok(());
    }
    let ms = match minors(a) {
        Some(m) => m,
        None => {
            c.skip("minors out of range");
            return Ok(());
        }
    };
    let n = a.r;
    let bad = ms.iter().position(|x| *x <= 0);
    c.outcome(&(bad.map(|b| (b, ms[b] == 0)), got.is_some()));
    match bad {
        None => {
            // regular and far from the boundary for small integers
            let ch = match got {
                Some(c) => c,
                None => {
                    let near = ms[n - 1] as f64 / (a.max_abs() * n as f64).powi(n as i32);
                    if near < 1e-10 {
                        c.skip("positive definite within rounding of singular");
                        return Ok(());
                    }
                    return Err(format!("None for the positive definite {:?} (leading minors {:?})", a, ms));
                }
            };
            c.note("positive definite", 1);
            c.nontrivial += 1;
            check_some(c, a, &ch)
        }
        Some(k) if ms[k] < 0 => {
            let near = -ms[k] as f64 / (a.max_abs() * n as f64).powi(k as i32 + 1);
            if near < 1e-10 {
                c.skip("indefinite within rounding of singular");
                return Ok(());
            }
            ensure!(got.is_none(), "Some for the indefinite {:?} (leading minors {:?})", a, ms);
            c.note("indefinite", 1);
            Ok(())
        }
        Some(k) => {
            // semidefinite: decided exactly only when no rounding can occur
            let exact = k == 0 || {
                let d = (0..n).all(|i| (0..i).all(|j| a.at(i, j) == 0.0));
                let sq = |x: f64| x.sqrt().fract() == 0.0;
                // the leading factor is integral
                d || k == 1 && sq(a.at(0, 0)) && (a.at(1, 0) / a.at(0, 0).sqrt()).fract() == 0.0
            };
            if exact {
                ensure!(got.is_none(), "Some for the singular {:?} (leading minors {:?})", a, ms);
                c.note("singular, decided without rounding", 1);
            } else {
                c.skip("semidefinite: rounding decides");
            }
            Ok(())
        }
    }
}
/// the same question in exact arithmetic, semidefinite ones included
fn sylvester_q_body(a: &M<f64>, c: &mut Ctx) -> Res {
    let q = q_up(a);
    let ms = minors(a).unwrap_or_default();
    let pd = symmetric(a) && ms.iter().all(|x| *x > 0);
    let got = CholeskyDecomposition::new(&q);
    ensure!(got.is_some() == pd, "{} but leading minors are {:?}", if got.is_some() { "Some" } else { "None" }, ms);
    c.call(1);
    c.trace();
    c.outcome(&(pd, ms));
    Ok(())
}
fn sylvester_q(a: &M<f64>, c: &mut Ctx) -> Res {
    match attempt(|| sylvester_q_body(a, c)) {
        Ok(r) => r.map_err(|e| format!("A = {:?}: {}", a, e)),
        Err(p) if q_inconclusive(&p) => {
            c.skip("irrational factor");
            Ok(())
        }
        Err(p) => Err(format!("A = {:?}: panicked: {}", a, p)),
    }
}
/// structured positive definite matrices of every size: B B' + D
fn spd(n: usize) -> Vec<M<f64>> {
    let mut v = vec![];
    for (_, b) in structured(n, n) {
        let s = b.max_abs();
        if !(s > 0.0) || s > 1e8 {
            continue;
        }
        let b = b.scaled(1.0 / s);
        let mut a = b.mul(&b.t());
        for i in 0..n {
            let x = a.at(i, i) + 0.25 + (i % 3) as f64 * 0.125;
            a.set(i, i, x);
            for j in 0..i {
                // exactly symmetric
                let y = a.at(j, i);
                a.set(i, j, y);
            }
        }
        v.push(a);
    }
    v
}
fn spd_space(sizes: &[usize], name: &str, k: f64) -> Space {
    let v: Vec<M<f64>> = sizes.iter().flat_map(|&n| spd(n)).map(|m| m.scaled(k)).collect();
    list(name, &format!("B*B' + D for every structured B, sizes {:?}, times {:e}", sizes, k), v)
}
fn spd_check(a: &M<f64>, c: &mut Ctx) -> Res {
    let m = up::<f64>(a);
    let before = m.clone();
    let ch = match CholeskyDecomposition::new(&m) {
        Some(c) => c,
        None => return Err(format!("None for the positive definite {:?}", a)),
    };
    ensure!(m.get_data() == before.get_data(), "the argument changed");
    c.call(1);
    c.trace();
    c.nontrivial += 1;
    check_some(c, a, &ch)
}
fn ulp(x: f64, up: bool) -> f64 {
    if x == 0.0 {
        return if up { f64::MIN_POSITIVE } else { -f64::MIN_POSITIVE };
    }
    let b = x.to_bits();
    f64::from_bits(if up == (x > 0.0) { b + 1 } else { b - 1 })
}

fn main() {
    run_check(
        Spec {
            id: "C10",
            level: "model_checking",
            rule: "each case is one square matrix; existence is decided by Sylvester's criterion on exact minors, factors and solutions exactly for rational factors and by backward error in f64",
            assumptions: &["semidefinite f64 inputs whose outcome depends on rounding are not judged; they are judged in exact arithmetic when the factor is rational"],
        },
        |tier| {
            let mut v = vec![];
            let d: &[f64] = &[1.0, 2.0, 0.5];
            let o: &[f64] = &[0.0, 1.0, -2.0];
            for n in 1..=tier.pick(4, 4) {
                v.push(on_space("exact A = GG'", lower_alphabet(n, "{1,2,1/2}/{0,1,-2}", d, o), exact));
            }
            v.push(on_space("exact A = GG'", lower_alphabet(5, "{1,2}/{0,1}", &[1.0, 2.0], &[0.0, 1.0]), exact));
            if tier.thorough() {
                v.push(on_space("exact A = GG'", lower_alphabet(4, "{1,2,3}/{0,±1,2}", &[1.0, 2.0, 3.0], &[0.0, 1.0, -1.0, 2.0]), exact));
                v.push(on_space("exact A = GG'", lower_alphabet(6, "{1,2}/{0,1}", &[1.0, 2.0], &[0.0, 1.0]), exact));
            }
            let l9: &[f64] = &[0.0, 1.0, -1.0, 2.0, -2.0, 3.0, 4.0, 5.0, 9.0];
            for (n, l) in [(1, l9), (2, l9), (3, l9), (4, &[0.0, 1.0, -1.0, 3.0][..])] {
                v.push(on_space("f64", sym_alphabet(n, &format!("{} letters", l.len()), l), sylvester));
                v.push(on_space("exact existence", sym_alphabet(n, &format!("{} letters", l.len()), l), sylvester_q));
            }
            if tier.thorough() {
                v.push(on_space("f64", sym_alphabet(4, "{0,1,-1,2,4}", &[0.0, 1.0, -1.0, 2.0, 4.0]), sylvester));
                v.push(on_space("exact existence", sym_alphabet(4, "{0,1,-1,2,4}", &[0.0, 1.0, -1.0, 2.0, 4.0]), sylvester_q));
                v.push(on_space("f64", sym_alphabet(5, "{0,1,3}", &[0.0, 1.0, 3.0]), sylvester));
            }
            v.push(on_space("f64", alphabet(2, 2, "9 letters", l9), sylvester));
            v.push(on_space("f64", alphabet(3, 3, "{0,1,2,4}", &[0.0, 1.0, 2.0, 4.0]), sylvester));
            v.push(on_space("exact existence", alphabet(3, 3, "{0,1,2,4}", &[0.0, 1.0, 2.0, 4.0]), sylvester_q));
            let top = tier.pick(24usize, 40);
            let orders: Vec<usize> = (1..=top).collect();
            v.push(on_space("f64", spd_space(&orders, "structured positive definite", 1.0), spd_check));
            v.push(on_space("f64", mapped(&sizes(tier.pick(120, 200), |r, c| r == c), "B B' + I of", |b| {
                let p = b.mul(&b.t());
                M::from_fn(b.r, b.r, |i, j| p.at(i.min(j), i.max(j)) + (i == j) as u8 as f64)
            }), spd_check));
            let ws = widths(tier);
            let w2 = ws.clone();
            v.push(family("every number of right-hand sides", ws.len() as u64 * 2, "n up to 33 (thorough: 65), 1..40 columns (thorough: 140) and up to 70000; a dense and a tridiagonal matrix", move |i| format!("{:?} kind {}", w2[i as usize / 2], i % 2), move |i, c| {
                let (n, w) = ws[i as usize / 2];
                let a = M::from_fn(n, n, |r, k| match i % 2 {
                    0 => 1.0 / (1.0 + (r as f64 - k as f64).abs()) + if r == k { 1.0 + (r % 3) as f64 } else { 0.0 },
                    _ => if r == k { 4.0 } else if r + 1 == k || k + 1 == r { -1.0 } else { 0.0 },
                });
                c.state(&(n, w, i % 2));
                let ch = CholeskyDecomposition::new(&up::<f64>(&a)).ok_or("None for a diagonally dominant matrix")?;
                c.call(1);
                c.trace();
                c.nontrivial += 1;
                check_rhs(c, &a, &ch, &[wide_rhs(n, w)])
            }));
            v.push(on_space("f64", spd_space(&large_sq(tier).iter().map(|s| s.0).collect::<Vec<_>>(), "structured positive definite, large", 1.0), spd_check));
            for (n, k) in [("2^-60", 2f64.powi(-60)), ("1e-9", 1e-9), ("2^300", 2f64.powi(300)), ("2^-300", 2f64.powi(-300))] {
                v.push(on_space("f64", spd_space(&(1..=9).collect::<Vec<_>>(), &format!("structured positive definite times {}", n), k), spd_check));
            }
            // not a number at one or two positions: no matrix of numbers, so not positive definite
            let nm = tier.pick(9u64, 16);
            v.push(family("NaN at every position", nm * nm * nm * 6, format!("orders up to {nm}, NaN at one position, at both symmetric ones, with NaN or the neighbour's sign, the rest positive definite; f64 and f32"), move |i| format!("n = {} position ({}, {}) kind {}", i % nm + 1, i / nm % nm, i / nm / nm % nm, i / nm / nm / nm), move |i, c| {
                let (n, x, y, kind) = ((i % nm + 1) as usize, (i / nm % nm) as usize, (i / nm / nm % nm) as usize, i / nm / nm / nm);
                if x >= n || y >= n {
                    c.skip("position outside the matrix");
                    return Ok(());
                }
                let mut a = M::from_fn(n, n, |i, j| if i == j { 4.0 + (i % 3) as f64 } else if i.max(j) == i.min(j) + 1 { 1.0 } else { 0.0 });
                let nan = if kind % 2 == 0 { f64::NAN } else { -f64::NAN };
                a.set(x, y, nan);
                if kind / 2 > 0 {
                    a.set(y, x, nan);
                }
                if kind / 2 > 1 {
                    a = a.scaled(-1.0);
                    (0..n).for_each(|k| if k != x || x != y { a.set(k, k, 5.0) });
                }
                c.state(&(n, x, y, kind));
                ensure!(CholeskyDecomposition::new(&up::<f64>(&a)).is_none(), "a decomposition of {:?}", a);
                ensure!(CholeskyDecomposition::new(&up::<f32>(&a)).is_none(), "a decomposition of {:?} in f32", a);
                c.call(2);
                c.trace();
                c.nontrivial += 1;
                Ok(())
            }));
            // zero is zero, whatever its sign
            let nz = tier.pick(8u64, 14);
            v.push(family("zeros of either sign", nz * nz * nz * 4, format!("orders up to {nz}, every position: 0 against -0, -0 against 0, -0 on both sides, all lower zeros -0; a block and a diagonal matrix; f64 and f32"), move |i| format!("n = {} position ({}, {}) kind {}", i % nz + 1, i / nz % nz, i / nz / nz % nz, i / nz / nz / nz), move |i, c| {
                let (n, x, y, kind) = ((i % nz + 1) as usize, (i / nz % nz) as usize, (i / nz / nz % nz) as usize, i / nz / nz / nz);
                if x >= n || y >= x {
                    c.skip("position outside the lower half");
                    return Ok(());
                }
                c.state(&(n, x, y, kind));
                for dense in [false, true] {
                    let mut a = M::from_fn(n, n, |i, j| if i == j { 4.0 + (i % 3) as f64 } else if dense && (i, j) != (x, y) && (i, j) != (y, x) && i.max(j) == i.min(j) + 1 { 1.0 } else { 0.0 });
                    match kind {
                        0 => a.set(x, y, -0.0),
                        1 => a.set(y, x, -0.0),
                        2 => {
                            a.set(x, y, -0.0);
                            a.set(y, x, -0.0);
                        }
                        _ => (0..n).for_each(|i| (0..i).for_each(|j| if a.at(i, j) == 0.0 { a.set(i, j, -0.0) })),
                    }
                    ensure!(CholeskyDecomposition::new(&up::<f32>(&a)).is_some(), "None for the positive definite {:?} in f32", a);
                    spd_check(&a, c)?;
                }
                Ok(())
            }));
            // diagonal matrices with one bad entry at each position: exactly decided at any size
            v.push(family("one non-positive pivot at each position", 40 * 40 * 5, "n up to 40; the pivot k <= n is 0, -1, -2^-60, -0.0 or -1e-300, unit lower bidiagonal otherwise", |i| format!("n = {} k = {} kind {}", i % 40 + 1, i / 40 % 40, i / 1600), |i, c| {
                let (n, k, kind) = ((i % 40 + 1) as usize, (i / 40 % 40) as usize, (i / 1600) as usize);
                if k >= n {
                    c.skip("position outside the matrix");
                    return Ok(());
                }
                c.state(&(n, k, kind));
                // A = L D L' with L unit lower bidiagonal (ones), D = I except the bad entry: every step is exact
                let bad = [0.0, -1.0, -(2f64.powi(-40)), -0.0, -(2f64.powi(-20))][kind];
                let dd: Vec<f64> = (0..n).map(|i| if i == k { bad } else { 1.0 }).collect();
                let a = M::from_fn(n, n, |i, j| {
                    let (i, j) = (i.max(j), i.min(j));
                    if i == j { dd[i] + if i > 0 { dd[i - 1] } else { 0.0 } } else if i == j + 1 { dd[j] } else { 0.0 }
                });
                ensure!(CholeskyDecomposition::new(&up::<f64>(&a)).is_none(), "Some although pivot {} of {} is {}", k, n, bad);
                c.call(1);
                c.trace();
                c.nontrivial += 1;
                Ok(())
            }));
            // a difference in one mirrored pair, however small, at each position
            let n = tier.pick(14u64, 24);
            v.push(family("asymmetry at each position", (n * n * n) * 4, format!("n up to {n}, every off-diagonal position, changed by one ulp up and down, 1e-7 and 2^-40 relative"), move |i| format!("n = {} ({},{}) kind {}", i % n + 1, i / n % n, i / n / n % n, i / n / n / n), move |i, c| {
                let (sz, p, q, kind) = ((i % n + 1) as usize, (i / n % n) as usize, (i / n / n % n) as usize, i / n / n / n);
                if p >= sz || q >= sz || p == q {
                    c.skip("position outside the matrix");
                    return Ok(());
                }
                c.state(&(sz, p, q, kind));
                for zero in [false, true] {
                    let mut a = M::from_fn(sz, sz, |i, j| if i == j { 2.0 * sz as f64 } else if zero { 0.0 } else { 1.0 + ((i + j) % 3) as f64 * 0.25 });
                    let x = a.at(p, q);
                    let y = match kind {
                        0 => ulp(x, true),
                        1 => ulp(x, false),
                        2 => x + 1e-7,
                        _ => x - 2f64.powi(-40),
                    };
                    ensure!(CholeskyDecomposition::new(&up::<f64>(&a)).is_some(), "None for the symmetric {:?}", a);
                    a.set(p, q, y);
                    ensure!(CholeskyDecomposition::new(&up::<f64>(&a)).is_none(), "Some for a matrix of size {} with ({},{}) = {:e} and ({},{}) = {:e}", sz, p, q, y, q, p, x);
                }
                c.call(4);
                c.trace();
                c.nontrivial += 1;
                Ok(())
            }));
            // the same far from the diagonal of larger matrices
            let far = tier.pick(vec![33usize, 40, 65, 72], vec![33, 40, 48, 64, 65, 72, 100, 130]);
            let at: Vec<(usize, usize, usize)> = far.iter().flat_map(|&n| (0..n).flat_map(move |i| (0..n).filter(move |&j| i != j).map(move |j| (n, i, j)))).collect();
            let at2 = at.clone();
            v.push(family("asymmetry at each position of larger matrices", at.len() as u64, format!("orders {far:?}, every off-diagonal position, changed by one ulp and by 1/2, sparse and dense"), move |i| format!("{:?}", at2[i as usize]), move |i, c| {
                let (n, p, q) = at[i as usize];
                c.state(&(n, p, q));
                for zero in [false, true] {
                    let mut a = M::from_fn(n, n, |i, j| if i == j { 2.0 * n as f64 } else if zero { 0.0 } else { 1.0 + ((i + j) % 3) as f64 * 0.25 });
                    let x = a.at(p, q);
                    for y in [ulp(x, true), x + 0.5] {
                        a.set(p, q, y);
                        ensure!(CholeskyDecomposition::new(&up::<f64>(&a)).is_none(), "Some for a matrix of size {} with ({},{}) = {:e} and ({},{}) = {:e}", n, p, q, y, q, p, x);
                        c.call(1);
                    }
                }
                c.trace();
                c.nontrivial += 1;
                Ok(())
            }));
            v.push(family("non-square matrices and wrong right-hand sides", 12 * 12 * 4, "all shapes up to 12x12", |i| format!("{}x{} columns {}", i % 12 + 1, i / 12 % 12 + 1, i / 144 + 1), |i, c| {
                let (r, k, nx) = ((i % 12 + 1) as usize, (i / 12 % 12 + 1) as usize, (i / 144 + 1) as usize);
                c.state(&(r, k, nx));
                let m: Matrix<f64> = M::from_fn(r, k, |i, j| if i == j { 20.0 } else { 1.0 }).real();
                let got = CholeskyDecomposition::new(&m);
                ensure!(got.is_some() == (r == k), "{}x{}: {}", r, k, if got.is_some() { "Some" } else { "None" });
                let sq: Matrix<f64> = M::from_fn(r, r, |i, j| if i == j { 20.0 } else { 1.0 }).real();
                let ch = match CholeskyDecomposition::new(&sq) {
                    Some(c) => c,
                    None => return Err("None for a positive definite matrix".into()),
                };
                let b: Matrix<f64> = M::from_fn(k, nx, |i, j| (i + 2 * j) as f64).real();
                if r != k {
                    must_reject(|| format!("solve of {}x{} with {} rows", r, r, k), || ch.solve(&b))?;
                } else {
                    let x = ch.solve(&b);
                    ensure!((x.rows(), x.cols()) == (r, nx), "solve gives {}x{}", x.rows(), x.cols());
                }
                M::from_fn(k, nx, |i, j| (i + 2 * j) as f64).same(&b, "B")?;
                c.call(3);
                c.trace();
                Ok(())
            }));
            v
        },
    )
}
