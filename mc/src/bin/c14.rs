//! C14: rank counts the singular values above the documented tolerance.
#[macro_use]
extern crate mc;
use la::SVD;
use mc::engine::*;
use mc::model::M;
use mc::numsp::*;
use mc::spaces::*;
use mc::valid::*;

/// exact rank of an integer matrix
fn rank_exact(a: &M<f64>) -> Option<usize> {
    if a.d.iter().any(|x| x.fract() != 0.0 || x.abs() > 1e6) {
        return None;
    }
    let (r, c) = (a.r, a.c);
    let mut m: Vec<i128> = a.d.iter().map(|x| *x as i128).collect();
    let mut prev = 1i128;
    let mut row = 0;
    for col in 0..c {
        if row == r {
            break;
        }
        let p = match (row..r).find(|&i| m[i * c + col] != 0) {
            Some(p) => p,
            None => continue,
        };
        for j in 0..c {
            m.swap(row * c + j, p * c + j);
        }
        for i in row + 1..r {
            for j in col + 1..c {
                let x = m[i * c + j].checked_mul(m[row * c + col])?;
                let y = m[i * c + col].checked_mul(m[row * c + j])?;
                m[i * c + j] = x.checked_sub(y)? / prev;
            }
            m[i * c + col] = 0;
        }
        prev = m[row * c + col];
        row += 1;
    }
    Some(row)
}
fn float(a: &M<f64>, c: &mut Ctx) -> Res {
    float_known(a, None, c)
}
fn float_known(a: &M<f64>, known: Option<usize>, c: &mut Ctx) -> Res {
    let (m, n) = (a.r, a.c);
    let ra = up::<f64>(a);
    let svd = SVD::new(&ra);
    let s = svd.get_s();
    let k = m.min(n);
    let sv: Vec<f64> = (0..k).map(|i| s.get(i, i)).collect();
    let got = svd.rank();
    c.call(3);
    c.trace();
    let tol = m.max(n) as f64 * sv[0] * f64::EPSILON;
    // the product of three factors may be rounded in either order
    let lo = sv.iter().filter(|x| **x > tol * (1.0 + 1e-12)).count();
    let hi = sv.iter().filter(|x| **x > tol * (1.0 - 1e-12)).count();
    if tol == 0.0 && sv[0] > 0.0 {
        c.skip("tolerance underflows");
        return Ok(());
    }
    ensure!(got >= lo && got <= hi, "A = {:?}: rank {} but {} singular values exceed the tolerance {:e}: {:?}", a, got, lo, tol, sv);
    c.outcome(&(m, n, got));
    if a.max_abs() == 0.0 {
        ensure!(got == 0, "rank of the zero matrix is {}", got);
        c.note("zero matrices", 1);
        return Ok(());
    }
    // against the true rank
    let want = match known.or_else(|| rank_exact(a)) {
        Some(r) => r,
        None => return Ok(()),
    };
    let js = jacobi_sv(a);
    let gap = js[want - 1] / js[0];
    if gap > 1e3 * m.max(n) as f64 * f64::EPSILON {
        if want < k {
            c.worst("largest vanishing singular value / tolerance", sv[want] / tol, || format!("A = {:?}", a));
        }
        ensure!(got == want, "A = {:?}: rank is {}, the matrix has rank {} (singular values {:?})", a, got, want, sv);
        c.nontrivial += (want < k) as u64;
        c.note(if want < k { "rank deficient" } else { "full rank" }, 1);
    } else {
        c.skip("non-zero singular values near the tolerance");
    }
    Ok(())
}
fn main() {
    run_check(
        Spec {
            id: "C14",
            level: "model_checking",
            rule: "each case is one matrix; rank is compared with the defining count over get_s and with the exact rank of the integer matrix",
            assumptions: &["the true rank is judged when the smallest non-zero singular value exceeds a thousand tolerances"],
        },
        |tier| {
            let mut v = vec![];
            for s in small_rect(tier) {
                v.push(on_space("", s, float));
            }
            for s in thresholds(&[(1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)]) {
                v.push(on_space("", s, float));
            }
            for s in perms(tier) {
                v.push(on_space("", s, float));
            }
            for s in structs(tier, (14, 14), (24, 24), &large_rect(tier)).into_iter().chain([sizes(tier.pick(60, 120), |_, _| true)]) {
                v.push(on_space("", s, float));
            }
            for s in variants(tier.pick(7, 11), |_, _| true) {
                v.push(on_space("", s, float));
            }
            // diagonal matrices: the singular values are known, one of them walks through the tolerance
            let n = tier.pick(24u64, 40);
            v.push(family("one singular value around the tolerance", n * n * 24, format!("shapes up to {n}x{n}, second singular value from 2^-8 to 2^15 tolerances"), move |i| format!("{}x{} exponent {}", i % n + 1, i / n % n + 1, (i / n / n) as i64 - 8), move |i, c| {
                let (r, k, e) = ((i % n + 1) as usize, (i / n % n + 1) as usize, (i / n / n) as i32 - 8);
                if r.min(k) < 2 {
                    return Ok(());
                }
                c.state(&(r, k, e));
                let tol = r.max(k) as f64 * f64::EPSILON;
                for x in [2f64.powi(e) * 1.4, 2f64.powi(e) * 1.01, 2f64.powi(e) * 0.99] {
                    let a = M::from_fn(r, k, |i, j| if i == j { if i == 0 { 1.0 } else if i == 1 { tol * x } else { 0.0 } } else { 0.0 });
                    let svd = SVD::new(&up::<f64>(&a));
                    let want = 1 + (x > 1.0) as usize;
                    ensure!(svd.rank() == want, "{}x{} diag(1, {:e}): rank {}, expected {} (tolerance {:e})", r, k, tol * x, svd.rank(), want, tol);
                    c.call(2);
                }
                c.trace();
                c.nontrivial += 1;
                Ok(())
            }));
            // products of thin integer factors of every rank
            let b = tier.pick(16u64, 26);
            v.push(family("every rank on every shape", b * b * b * 2, format!("shapes up to {b}x{b}, every rank up to the smaller dimension, two matrices each"), move |i| format!("{}x{} rank {} variant {}", i % b + 1, i / b % b + 1, i / b / b % b, i / b / b / b), move |i, c| {
                let (r, k, q, kind) = ((i % b + 1) as usize, (i / b % b + 1) as usize, (i / b / b % b) as usize, i / b / b / b);
                if q > r.min(k) {
                    return Ok(());
                }
                c.state(&(r, k, q, kind));
                // unit lower trapezoidal times unit upper trapezoidal: the rank is q
                let l = M::from_fn(r, q.max(1), |i, j| if q == 0 { 0.0 } else if i == j { 1.0 } else if i > j { ((i * 3 + j * 5 + kind as usize) % 3) as f64 - 1.0 } else { 0.0 });
                let u = M::from_fn(q.max(1), k, |i, j| if q == 0 { 0.0 } else if i == j { 1.0 } else if j > i { ((i * 2 + j * 7 + kind as usize) % 3) as f64 - 1.0 } else { 0.0 });
                float_known(&l.mul(&u), Some(q), c)
            }));
            for (n, s) in [("2^-300", 2f64.powi(-300)), ("2^300", 2f64.powi(300)), ("1e-9", 1e-9)] {
                v.push(on_space("", mapped(&structured_space("structured up to 7x7", &shapes_upto(7, 7)), &format!("times {}", n), move |m| m.scaled(s)), float));
            }
            v.push(on_space("", alphabet(4, 4, "{0,±1}", &L3), float));
            if tier.thorough() {
                v.push(on_space("", alphabet(5, 5, "{0,1}", &L2), float));
            }
            v
        },
    )
}
