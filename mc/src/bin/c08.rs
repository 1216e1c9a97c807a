//! C08: determinant and singularity tests are those of linear algebra.
#[macro_use]
extern crate mc;
use la::{LUDecomposition, Matrix};
use mc::engine::*;
use mc::model::M;
use mc::numsp::*;
use mc::scalars::{q_inconclusive, Q};
use mc::spaces::*;
use mc::valid::*;

fn exact_body(a: &M<f64>, c: &mut Ctx) -> Res {
    let q = q_up(a);
    let want = match bareiss(a) {
        Some(d) if d.unsigned_abs() < 1 << 62 => Q::int(d as i64),
        _ => q_det(&M::of(&q)),
    };
    let before = M::of(&q);
    let lu = LUDecomposition::new(&q);
    let (d1, d2) = (q.det(), lu.det());
    let sing = want == Q::int(0);
    ensure!(d1 == want, "det is {:?}, the determinant is {:?}", d1, want);
    ensure!(d2 == want, "det of the LU decomposition is {:?}, the determinant is {:?}", d2, want);
    ensure!(q.is_singular() == sing, "is_singular is {} but det = {:?}", !sing, want);
    ensure!(q.is_non_singular() != sing, "is_non_singular is {} but det = {:?}", sing, want);
    ensure!(lu.is_singular() == sing, "is_singular of the LU decomposition is {} but det = {:?}", !sing, want);
    ensure!(lu.is_non_singular() != sing, "is_non_singular of the LU decomposition is {} but det = {:?}", sing, want);
    ensure!(lu.det() == want && q.det() == want, "a repeated det differs");
    before.same(&q, "the argument")?;
    c.call(9);
    c.trace();
    c.nontrivial += !sing as u64;
    c.note(if sing { "singular matrices" } else { "regular matrices" }, 1);
    c.outcome(&want);
    Ok(())
}
fn exact(a: &M<f64>, c: &mut Ctx) -> Res {
    match attempt(|| exact_body(a, c)) {
        Ok(r) => r.map_err(|e| format!("A = {:?}: {}", a, e)),
        Err(p) if q_inconclusive(&p) => {
            c.skip("value outside the exact arithmetic's range");
            Ok(())
        }
        Err(p) => Err(format!("A = {:?}: panicked: {}", a, p)),
    }
}
const K: f64 = 12.0;
fn float(a: &M<f64>, c: &mut Ctx) -> Res {
    let n = a.r;
    let m = up::<f64>(a);
    let before = m.clone();
    let lu = LUDecomposition::new(&m);
    let r = ref_lu(a);
    if !(r.pivots.iter().fold(1.0, |p, x| p * x.abs().max(1.0)) < 1e200 && r.pivots.iter().all(|p| *p == 0.0 || p.abs() > 1e-100)) {
        c.skip("determinant near the overflow limit");
        return Ok(());
    }
    let (want, exact) = match bareiss(a) {
        Some(d) => (d as f64, true),
        None => (r.det, false),
    };
    let ds = [m.det(), lu.det()];
    ensure!(ds.iter().all(|d| d.is_finite()), "A = {:?}: det = {:?}", a, ds);
    let err = match r.det_unit(a, f64::EPSILON) {
        Some(unit) => {
            let e = n as f64 * f64::EPSILON * unit;
            for d in ds {
                ratio(c, "det error / (n eps unit)", (d - want).abs() / (e + 1e-290), K, || format!("A = {:?} det = {:?} expected {:?}", a, d, want))?;
            }
            e
        }
        None => {
            let e = r.det_near(a, f64::EPSILON);
            for d in ds {
                ensure!((d - want).abs() <= e, "A = {:?}: det = {:?}, expected {:?} within {:e}", a, d, want, e);
            }
            c.note("f64 matrices singular to working precision", 1);
            e
        }
    };
    let s = m.is_singular();
    ensure!(m.is_non_singular() != s && lu.is_singular() == s && lu.is_non_singular() != s, "A = {:?}: the singularity tests contradict each other", a);
    if s {
        ensure!(ds[0] == 0.0 && ds[1] == 0.0, "A = {:?} is singular but det = {:?}", a, ds);
        ensure!(!(want.abs() > 2.0 * K * err), "A = {:?} is called singular but det = {:?}", a, want);
    } else if want.abs() > 1e-250 {
        ensure!(ds[0] != 0.0 && ds[1] != 0.0, "A = {:?} is called non-singular but det = {:?}", a, ds);
    }
    // zero row or column, or upper triangular with a zero on the diagonal: no rounding involved
    let zr = (0..n).any(|i| (0..n).all(|j| a.at(i, j) == 0.0));
    let zc = (0..n).any(|j| (0..n).all(|i| a.at(i, j) == 0.0));
    let ut = (0..n).all(|i| (0..i).all(|j| a.at(i, j) == 0.0)) && (0..n).any(|i| a.at(i, i) == 0.0);
    if zr || zc || ut {
        ensure!(s, "A = {:?} is exactly singular (zero row, column or pivot) but not called so", a);
        c.note("exactly singular f64 matrices", 1);
    }
    ensure!(m.get_data() == before.get_data(), "the argument changed");
    c.call(7);
    c.trace();
    c.nontrivial += exact as u64;
    c.outcome(&(s, ds[0].to_bits()));
    Ok(())
}
/// triangular and permuted triangular matrices: the determinant is the product of the diagonal
fn tri(n: usize, letters: &'static [f64]) -> Space {
    let k = letters.len() as u64;
    let off = letters;
    let s = lower_alphabet(n, "letters", letters, off);
    let g = s.get.clone();
    Space { name: format!("triangular {}x{} over {} letters, both orientations", n, n, k), bound: s.bound.clone(), total: s.total * 2, get: std::sync::Arc::new(move |i| if i % 2 == 0 { g(i / 2) } else { g(i / 2).t() }) }
}

/// P U for a unit-like upper triangular U, and its determinant
fn permuted(n: usize, kind: usize, diag: usize, zero: Option<usize>) -> (M<f64>, f64) {
    let mut p: Vec<usize> = (0..n).collect();
    match kind {
        0 => {}
        1 => p.reverse(),
        2 => p.rotate_left(1),
        3 => p.rotate_right(1),
        4 => p.swap(0, n - 1),
        5 => p.swap(n / 2, n - 1),
        6 => (0..n / 2).for_each(|k| p.swap(2 * k, 2 * k + 1)),
        _ => (1..n).for_each(|k| p.swap(k, (k * 7 + 3) % (k + 1))),
    }
    let mut sign = 1.0;
    let mut seen = vec![false; n];
    for s in 0..n {
        let (mut k, mut len) = (s, 0);
        while !seen[k] {
            seen[k] = true;
            k = p[k];
            len += 1;
        }
        if len > 0 && len % 2 == 0 {
            sign = -sign;
        }
    }
    let d = |k: usize| match diag {
        0 => 1.0,
        1 => [2.0, -0.5, -1.0, 1.0][k % 4],
        _ => [-4.0, 0.25, 2.0, 0.5, -1.0][k % 5],
    };
    let u = M::from_fn(n, n, |i, j| if i == j { if Some(i) == zero { 0.0 } else { d(i) } } else if i < j { ((i * 3 + j * 5) % 3) as f64 - 1.0 } else { 0.0 });
    let det = (0..n).map(|k| u.at(k, k)).product::<f64>() * sign;
    (M::from_fn(n, n, |i, j| u.at(p[i], j)), det)
}
fn main() {
    run_check(
        Spec {
            id: "C08",
            level: "model_checking",
            rule: "each case is one square matrix; exact families compare with the fraction-free determinant, f64 families with its first-order perturbation bound",
            assumptions: &["the f64 bound uses the first-order perturbation of the determinant with constant 12"],
        },
        |tier| {
            let mut v = vec![];
            let mut sq = small_square(tier);
            sq.push(alphabet(3, 3, "{0,±1,1/2,3}", &[0.0, 1.0, -1.0, 0.5, 3.0]));
            sq.push(tri(4, &[0.0, 1.0, -2.0]));
            if tier.thorough() {
                sq.push(alphabet(5, 5, "{0,1}", &L2));
                sq.push(tri(5, &[0.0, 1.0, -2.0]));
            }
            for s in sq.iter().cloned() {
                v.push(on_space("exact", s, exact));
            }
            for s in perms(tier) {
                v.push(on_space("exact", s, exact));
            }
            v.push(on_space("exact", structured_space("structured squares up to 9", &squares_upto(9)), exact));
            for s in small_square(tier) {
                v.push(on_space("f64", s, float));
            }
            if !tier.thorough() {
                v.push(on_space("f64", alphabet(4, 4, "{0,±1}", &L3), float));
            }
            for s in thresholds(&[(1, 1), (2, 2), (3, 3)]) {
                v.push(on_space("f64", s, float));
            }
            for s in perms(tier) {
                v.push(on_space("f64", s, float));
            }
            v.push(on_space("f64", tri(4, &[0.0, 1.0, -2.0]), float));
            let b = tier.pick(24, 34);
            v.push(on_space("f64", structured_space(&format!("structured squares up to {}", b), &squares_upto(b)), float));
            v.push(on_space("f64", sizes(tier.pick(40, 60), |r, c| r == c), float));
            for s in variants(tier.pick(7, 11), |r, c| r == c).into_iter().chain(near_symmetric(tier.pick(7, 12))) {
                v.push(on_space("f64", s, float));
            }
            for (n, s) in [("2^-30", 2f64.powi(-30)), ("2^30", 2f64.powi(30)), ("1e-9", 1e-9)] {
                v.push(on_space("f64", mapped(&structured_space("structured squares up to 7", &squares_upto(7)), &format!("times {}", n), move |m| m.scaled(s)), float));
            }
            // row-permuted upper triangular matrices: no rounding, the determinant is known for every order
            let nmax = tier.pick(140u64, 260);
            let kinds = 8u64;
            v.push(family("permuted triangular matrices of every order", nmax * kinds * 3, format!("orders 1 to {}, 8 permutations, 3 diagonals", nmax), move |i| format!("order {} permutation {} diagonal {}", i / 24 + 1, i % 8, i / 8 % 3), move |i, c| {
                let n = (i / 24 + 1) as usize;
                c.state(&(i, "perm"));
                let (a, want) = permuted(n, (i % 8) as usize, (i / 8 % 3) as usize, None);
                let m: Matrix<f64> = up(&a);
                let lu = LUDecomposition::new(&m);
                for d in [m.det(), lu.det()] {
                    ensure!((d - want).abs() <= 1e-9 * want.abs(), "order {}: det = {:?}, expected {:?}", n, d, want);
                }
                ensure!(!m.is_singular() && m.is_non_singular() && !lu.is_singular() && lu.is_non_singular(), "order {}: a permuted triangular matrix with det {:?} is called singular", n, want);
                let m: Matrix<f32> = up(&a);
                if want.abs() < 1e30 && want.abs() > 1e-30 {
                    ensure!((m.det() as f64 - want).abs() <= 1e-3 * want.abs(), "f32, order {}: det = {:?}, expected {:?}", n, m.det(), want);
                }
                ensure!(!m.is_singular() && m.is_non_singular(), "f32, order {}: a permuted triangular matrix with det {:?} is called singular", n, want);
                c.call(9);
                c.trace();
                c.nontrivial += 1;
                c.outcome(&want.to_bits());
                Ok(())
            }));
            // and with one zero on the diagonal: singular at every position
            let ns: Vec<usize> = (1..=tier.pick(40, 80)).chain([64, 65, 100, 127, 128, 129, 130]).collect();
            let ix: Vec<(usize, usize)> = ns.iter().flat_map(|n| (0..*n).map(move |p| (*n, p))).collect();
            let ix2 = ix.clone();
            v.push(family("permuted triangular matrices with a zero pivot at every position", ix.len() as u64 * 8, "orders up to the bound and around 64 and 128, 8 permutations", move |i| format!("order, position {:?} permutation {}", ix2[i as usize / 8], i % 8), move |i, c| {
                let (n, p) = ix[i as usize / 8];
                c.state(&(i, "zero"));
                let (a, _) = permuted(n, (i % 8) as usize, 0, Some(p));
                let m: Matrix<f64> = up(&a);
                let lu = LUDecomposition::new(&m);
                ensure!(m.is_singular() && !m.is_non_singular() && lu.is_singular() && !lu.is_non_singular(), "order {}: a zero at diagonal position {} goes unnoticed", n, p);
                ensure!(m.det() == 0.0 && lu.det() == 0.0, "order {}: zero at diagonal position {}, det = {:?}", n, p, m.det());
                c.call(6);
                c.trace();
                c.nontrivial += 1;
                Ok(())
            }));
            // singularity is decided by the pivots, also where their product leaves the range
            let ks: &[i32] = &[-900, -500, -200, -100, -60, 60, 100, 200, 500, 900];
            let nk = ks.len() as u64;
            let nmax = tier.pick(40u64, 120);
            v.push(family("permuted triangular matrices with determinants out of range", nmax * 8 * nk, format!("orders 1 to {nmax}, 8 permutations, factors 2^k for k in {ks:?}"), move |i| format!("order {} permutation {} factor 2^{}", i / 8 / nk + 1, i % 8, ks[(i / 8 % nk) as usize]), move |i, c| {
                let n = (i / 8 / nk + 1) as usize;
                let k = ks[(i / 8 % nk) as usize];
                c.state(&(i, "range"));
                for zero in [None, Some(n / 2), Some(n - 1)] {
                    let a = permuted(n, (i % 8) as usize, 1, zero).0.scaled(2f64.powi(k));
                    let sing = zero.is_some();
                    let m: Matrix<f64> = up(&a);
                    let lu = LUDecomposition::new(&m);
                    ensure!(m.is_singular() == sing && m.is_non_singular() != sing && lu.is_singular() == sing && lu.is_non_singular() != sing, "order {}, factor 2^{}: singular is {}, but is_singular says {}, is_non_singular {}, of the decomposition {} and {}", n, k, sing, m.is_singular(), m.is_non_singular(), lu.is_singular(), lu.is_non_singular());
                    ensure!(sing == m.inverse().is_none(), "order {}, factor 2^{}: inverse is none: {}, singular: {}", n, k, !sing, sing);
                    c.call(5);
                    if k.abs() <= 100 {
                        let m: Matrix<f32> = up(&a);
                        let lu = LUDecomposition::new(&m);
                        ensure!(m.is_singular() == sing && m.is_non_singular() != sing && lu.is_singular() == sing && lu.is_non_singular() != sing, "f32, order {}, factor 2^{}: singular is {}, but is_singular says {}, is_non_singular {}", n, k, sing, m.is_singular(), m.is_non_singular());
                        c.call(4);
                    }
                }
                c.trace();
                c.nontrivial += 1;
                Ok(())
            }));
            // refusals
            let mut sh: Vec<(usize, usize)> = shapes_upto(7, 7).into_iter().filter(|s| s.0 != s.1).collect();
            sh.extend_from_slice(&[(1, 16), (16, 1), (2, 8), (8, 2), (1, 64), (64, 1), (17, 16), (16, 17), (33, 32), (32, 33)]);
            let s2 = sh.clone();
            v.push(family("non-square matrices are refused", sh.len() as u64 * 4, "all non-square shapes up to 7x7 and larger ones, 4 matrices each", move |i| format!("{:?} kind {}", s2[i as usize / 4], i % 4), move |i, c| {
                let (r, cc) = sh[i as usize / 4];
                c.state(&(r, cc, i % 4));
                let m: Matrix<f64> = M::from_fn(r, cc, |a, b| match i % 4 {
                    0 => 0.0,
                    1 => (a == b) as u8 as f64,
                    2 => 1.0 + (a * cc + b) as f64,
                    _ => 1.0 / (1 + a + b) as f64,
                }).real();
                let b = m.clone();
                must_reject(|| format!("det of a {}x{} matrix", r, cc), || m.det())?;
                must_reject(|| format!("is_singular of a {}x{} matrix", r, cc), || m.is_singular())?;
                must_reject(|| format!("is_non_singular of a {}x{} matrix", r, cc), || m.is_non_singular())?;
                must_reject(|| format!("det of the LU decomposition of a {}x{} matrix", r, cc), || LUDecomposition::new(&m).det())?;
                ensure!(m.get_data() == b.get_data() && m.rows() == r, "a refused call changed the matrix");
                c.call(4);
                c.trace();
                Ok(())
            }));
            v
        },
    )
}
