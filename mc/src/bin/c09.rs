//! C09: solve and inverse give the solution, or None exactly when singular.
#[macro_use]
extern crate mc;
use la::{LUDecomposition, Matrix};
use mc::engine::*;
use mc::model::M;
use mc::numsp::*;
use mc::scalars::{q_inconclusive, Q};
use mc::spaces::*;
use mc::valid::*;
use num::traits::Zero;

/// right-hand sides for n rows: narrow, square, wide; structured and dense
fn rhs(n: usize) -> Vec<M<f64>> {
    vec![
        M::from_fn(n, 1, |i, _| (i + 1) as f64),
        M::from_fn(n, 1, |i, _| if i + 1 == n { 1.0 } else { 0.0 }),
        M::from_fn(n, 2, |i, j| if j == 0 { 0.0 } else { 2.0 - i as f64 }),
        M::from_fn(n, n, |i, j| ((i * 3 + j * 5) % 7) as f64 - 3.0),
        M::from_fn(n, n + 2, |i, j| if (i + j) % 3 == 0 { 1.0 } else { -((i * j) as f64) }),
    ]
}
fn qmul(a: &M<Q>, b: &M<Q>) -> M<Q> {
    a.mul_by(b, Q::zero(), |s, x, y| s + x * y)
}
fn exact_body(a: &M<f64>, c: &mut Ctx) -> Res {
    let n = a.r;
    let q = q_up(a);
    let qm = M::of(&q);
    let sing = match bareiss(a) {
        Some(d) => d == 0,
        None => q_det(&qm) == Q::zero(),
    };
    let lu = LUDecomposition::new(&q);
    for b in rhs(n) {
        let rb = q_up(&b);
        let bm = M::of(&rb);
        for (what, x) in [("solve", q.solve(&rb)), ("LU solve", lu.solve(&rb))] {
            match x {
                None => ensure!(sing, "{} gives None for a regular matrix, B = {:?}", what, bm),
                Some(x) => {
                    ensure!(!sing, "{} gives a solution for a singular matrix, B = {:?}", what, bm);
                    ensure!((x.rows(), x.cols()) == (n, b.c), "{} is {}x{}, expected {}x{}", what, x.rows(), x.cols(), n, b.c);
                    let xm = M::of(&x);
                    ensure!(qmul(&qm, &xm) == bm, "{}: A*X = {:?} but B = {:?} (X = {:?})", what, qmul(&qm, &xm), bm, xm);
                    c.outcome(&xm.d);
                }
            }
        }
        bm.same(&rb, "the right-hand side")?;
        c.call(2);
    }
    // the matrix as its own right-hand side, the same object and an equal one
    let id = M::from_fn(n, n, |i, j| Q::int((i == j) as i64));
    let q2 = q.clone();
    for (what, x) in [("a.solve(&a)", q.solve(&q)), ("a.solve(&a.clone())", q.solve(&q2)), ("LU solve of a itself", lu.solve(&q)), ("LU solve of a's copy", lu.solve(&q2))] {
        match x {
            None => ensure!(sing, "{} gives None for a regular matrix", what),
            Some(x) => ensure!(!sing && M::of(&x) == id, "{} gives {:?}", what, M::of(&x)),
        }
        c.call(1);
    }
    match q.inverse() {
        None => ensure!(sing, "inverse gives None for a regular matrix"),
        Some(x) => {
            ensure!(!sing, "inverse gives a matrix for a singular one");
            let xm = M::of(&x);
            let id = M::from_fn(n, n, |i, j| Q::int((i == j) as i64));
            ensure!(xm.r == n && xm.c == n && qmul(&qm, &xm) == id && qmul(&xm, &qm) == id, "inverse {:?} is wrong", xm);
        }
    }
    ensure!(q.is_singular() == sing && lu.is_singular() == sing, "is_singular disagrees with the determinant");
    qm.same(&q, "the argument")?;
    c.call(3);
    c.trace();
    c.nontrivial += !sing as u64;
    c.note(if sing { "singular matrices" } else { "regular matrices" }, 1);
    Ok(())
}
fn exact(a: &M<f64>, c: &mut Ctx) -> Res {
    match attempt(|| exact_body(a, c)) {
        Ok(r) => r.map_err(|e| format!("A = {:?}: {}", a, e)),
        Err(p) if q_inconclusive(&p) => {
            c.skip("value outside the exact arithmetic's range");
            Ok(())
        }
        Err(p) => Err(format!("A = {:?}: panicked: {}", a, p)),
    }
}
const K: f64 = 12.0;
fn resid(c: &mut Ctx, name: &'static str, a: &M<f64>, unit: &M<f64>, x: &M<f64>, b: &M<f64>) -> Res {
    let e = a.mul(x).sub(b);
    let w = unit.mul(&x.abs()).zip(&b.abs(), |p, q| (p + q) * a.r as f64 * f64::EPSILON);
    within(c, name, &e, &w, 1e-290, K, || format!("A = {:?} B = {:?} X = {:?}", a, b, x))
}
fn float(a: &M<f64>, c: &mut Ctx) -> Res {
    float_rhs(a, &rhs(a.r), c)
}
fn float_rhs(a: &M<f64>, bs: &[M<f64>], c: &mut Ctx) -> Res {
    let n = a.r;
    let m = up::<f64>(a);
    let before = m.clone();
    let lu = LUDecomposition::new(&m);
    let sing = m.is_singular();
    let r = ref_lu(a);
    // the unit is computed from the library's own factors when they are larger (equally good pivots)
    let mut unit = r.unit.clone();
    let own = down(&lu.get_l()).abs().mul(&down(&lu.get_u()).abs());
    ensure!(lu.get_piv().len() == n, "piv has the wrong length");
    for (i, &p) in lu.get_piv().iter().enumerate() {
        for j in 0..n {
            let x = unit.at(p, j).max(own.at(i, j));
            unit.set(p, j, x);
        }
    }
    for b in bs.iter().chain([a]) {
        let own = std::ptr::eq(b, a);
        let rb = if own { m.clone() } else { up::<f64>(b) };
        let rb = if own { &m } else { &rb };
        for (what, x) in [("solve residual / (n eps |L||U||X|)", m.solve(rb)), ("LU solve residual / (n eps |L||U||X|)", lu.solve(rb))] {
            match x {
                None => ensure!(sing, "A = {:?}: {}: None although not is_singular", a, what),
                Some(x) => {
                    ensure!(!sing, "A = {:?}: {}: a solution although is_singular", a, what);
                    let x = down(&x);
                    shape(&x, n, b.c, "X")?;
                    if x.d.iter().any(|v| !v.is_finite() || v.abs() > 1e150) {
                        // the solution of a matrix singular to working precision may leave the range
                        ensure!(r.det_unit(a, f64::EPSILON).is_none(), "A = {:?} B = {:?}: X = {:?}", a, b, x);
                        c.skip("solution outside the range");
                        continue;
                    }
                    resid(c, what, a, &unit, &x, b)?;
                }
            }
        }
        ensure!(down(rb) == *b, "the right-hand side changed");
        c.call(2);
    }
    match m.inverse() {
        None => ensure!(sing, "A = {:?}: no inverse although not is_singular", a),
        Some(x) => {
            ensure!(!sing, "A = {:?}: inverse although is_singular", a);
            let x = down(&x);
            shape(&x, n, n, "inverse")?;
            if x.d.iter().all(|v| v.is_finite() && v.abs() < 1e150) {
                resid(c, "inverse residual / (n eps |L||U||X|)", a, &unit, &x, &M::id(n))?;
            } else {
                ensure!(r.det_unit(a, f64::EPSILON).is_none(), "A = {:?}: inverse = {:?}", a, x);
            }
        }
    }
    ensure!(m.get_data() == before.get_data(), "the argument changed");
    c.call(4);
    c.trace();
    c.nontrivial += !sing as u64;
    Ok(())
}

fn far(a: &M<f64>, k: i32, c: &mut Ctx) -> Res {
    if a.d.iter().any(|x| *x != 0.0 && (x.abs() < 1e-6 || x.abs() > 1e6)) {
        c.skip("entries of very different size");
        return Ok(());
    }
    let n = a.r;
    let r = ref_lu(a);
    let mul = |m: &M<f64>, k: i32| m.scaled(2f64.powi(k / 2)).scaled(2f64.powi(k - k / 2));
    let m = up::<f64>(&mul(a, k));
    let sing = m.is_singular();
    if r.det_unit(a, f64::EPSILON).is_some() {
        ensure!(!sing && !LUDecomposition::new(&m).is_singular(), "factor 2^{}: the regular A = {:?} is said to be singular", k, a);
    }
    let small = |x: &M<f64>| x.d.iter().all(|v| v.is_finite() && v.abs() < 1e12);
    match m.inverse() {
        None => ensure!(sing, "factor 2^{}: no inverse although not is_singular, A = {:?}", k, a),
        Some(x) => {
            ensure!(!sing, "factor 2^{}: inverse although is_singular, A = {:?}", k, a);
            let x = mul(&down(&x), k);
            shape(&x, n, n, "inverse")?;
            if r.det_unit(a, f64::EPSILON).is_some() || small(&x) {
                ensure!(small(&x), "factor 2^{}: inverse times the factor is {:?} for A = {:?}", k, x, a);
                resid(c, "inverse residual at far factors / (n eps |L||U||X|)", a, &r.unit, &x, &M::id(n))?;
            }
        }
    }
    for b in rhs(n) {
        let rb = up::<f64>(&mul(&b, k));
        for x in [m.solve(&rb), LUDecomposition::new(&m).solve(&rb)] {
            match x {
                None => ensure!(sing, "factor 2^{}: no solution although not is_singular, A = {:?}", k, a),
                Some(x) => {
                    ensure!(!sing, "factor 2^{}: a solution although is_singular, A = {:?}", k, a);
                    let x = down(&x);
                    shape(&x, n, b.c, "X")?;
                    if r.det_unit(a, f64::EPSILON).is_some() || small(&x) {
                        ensure!(small(&x), "factor 2^{}: X = {:?} for A = {:?}, B = {:?}", k, x, a, b);
                        resid(c, "solve residual at far factors / (n eps |L||U||X|)", a, &r.unit, &x, &b)?;
                    }
                }
            }
        }
        c.call(2);
    }
    c.call(2);
    c.trace();
    c.nontrivial += !sing as u64;
    Ok(())
}

fn main() {
    run_check(
        Spec {
            id: "C09",
            level: "model_checking",
            rule: "each case is one square matrix with five right-hand sides; exact families require A*X = B, f64 families the componentwise residual bound",
            assumptions: &["the residual constant 12 of the f64 families covers every correct substitution order"],
        },
        |tier| {
            let mut v = vec![];
            let mut sq = small_square(tier);
            if !tier.thorough() {
                sq.retain(|s| !s.name.contains("3x3"));
                sq.push(alphabet(3, 3, "{0,±1}", &L3));
                sq.push(alphabet(3, 3, "{1,2,-1/2,0}", &[1.0, 2.0, -0.5, 0.0]));
            }
            sq.push(lower_alphabet(4, "{±1,2}/{0,1,-2}", &[1.0, -1.0, 2.0], &[0.0, 1.0, -2.0]));
            for s in sq.iter().cloned() {
                v.push(on_space("exact", s, exact));
            }
            for s in perms(tier) {
                v.push(on_space("exact", s, exact));
            }
            v.push(on_space("exact", structured_space("structured squares up to 8", &squares_upto(8)), exact));
            for s in sq.iter().cloned() {
                v.push(on_space("f64", s, float));
            }
            for s in thresholds(&[(1, 1), (2, 2), (3, 3)]) {
                v.push(on_space("f64", s, float));
            }
            for s in perms(tier) {
                v.push(on_space("f64", s, float));
            }
            let b = tier.pick(24, 40);
            v.push(on_space("f64", structured_space(&format!("structured squares up to {}", b), &squares_upto(b)), float));
            v.push(on_space("f64", structured_space("structured large", &large_sq(tier)), float));
            let ws = widths(tier);
            let w2 = ws.clone();
            v.push(family("every number of right-hand sides", ws.len() as u64 * 3, "n up to 33 (thorough: 65), 1..40 columns (thorough: 140) and up to 70000; a dense, a tridiagonal and a singular matrix", move |i| format!("{:?} kind {}", w2[i as usize / 3], i % 3), move |i, c| {
                let (n, w) = ws[i as usize / 3];
                let a = M::from_fn(n, n, |r, k| match i % 3 {
                    0 => (((r * 7919 + k * 104729 + r * k * 31 + 17) % 1009) as f64 - 504.0) / 64.0,
                    1 => if r == k { 4.0 } else if r + 1 == k { -1.0 } else if k + 1 == r { 2.0 } else { 0.0 },
                    _ => if r + 1 == n { 0.0 } else { (r == k) as u8 as f64 + 1.0 },
                });
                c.state(&(n, w, i % 3));
                float_rhs(&a, &[wide_rhs(n, w)], c)
            }));
            v.push(on_space("f64", sizes(tier.pick(120, 200), |r, c| r == c), float));
            for s in variants(tier.pick(7, 11), |r, c| r == c).into_iter().chain(near_symmetric(tier.pick(7, 12))) {
                v.push(on_space("f64", s, float));
            }
            v.push(on_space("f64", huge(&huge_direct(tier).into_iter().filter(|s| s.0 == s.1).collect::<Vec<_>>(), &HUGE_KINDS), float));
            for (n, s) in [("2^-200", 2f64.powi(-200)), ("2^200", 2f64.powi(200)), ("1e-9", 1e-9)] {
                v.push(on_space("f64", mapped(&structured_space("structured squares up to 8", &squares_upto(8)), &format!("times {}", n), move |m| m.scaled(s)), float));
            }
            // scales at which the determinant and squares leave the range, but the elimination and the solution do not
            for k in [-900i32, -700, -540, 540, 700, 900] {
                for s in [alphabet(1, 1, "9 letters", &L7), alphabet(2, 2, "{0,±1,±2,3,1/2}", &L7), alphabet(3, 3, "{0,±1}", &L3), structured_space("structured squares up to 8", &squares_upto(8))] {
                    v.push(on_space(&format!("f64 times 2^{}", k), s, move |a, c| far(a, k, c)));
                }
            }
            v.push(family("every width of the right-hand side", 6 * 140 * 2, "n up to 6, 1..140 columns, B dense and a slice of the identity, f64", |i| format!("n = {} columns = {} kind {}", i % 6 + 1, i / 6 % 140 + 1, i / 840), |i, c| {
                let (n, k, kind) = ((i % 6 + 1) as usize, (i / 6 % 140 + 1) as usize, i / 840);
                c.state(&(n, k, kind));
                let a = M::from_fn(n, n, |i, j| if (i + 1) % n == j { 4.0 } else { ((i * 2 + j) % 3) as f64 - 1.0 });
                let b = M::from_fn(n, k, |i, j| if kind == 0 { ((i * 7 + j * 5) % 11) as f64 - 5.0 } else { (i == j) as u8 as f64 });
                let (ra, rb) = (up::<f64>(&a), up::<f64>(&b));
                let u = ref_lu(&a);
                for x in [ra.solve(&rb), LUDecomposition::new(&ra).solve(&rb)] {
                    let x = match x {
                        Some(x) => down(&x),
                        None => return Err(format!("no solution for the regular {:?}", a)),
                    };
                    shape(&x, n, k, "X")?;
                    resid(c, "solve residual / (n eps |L||U||X|)", &a, &u.unit, &x, &b)?;
                }
                c.call(2);
                c.trace();
                c.nontrivial += 1;
                Ok(())
            }));
            // refusals
            v.push(family("wrong right-hand sides and non-square inverses are refused", 9 * 12 * 3 * 4, "A n x n (n up to 9, regular, singular, zero, dense), B with 1..12 rows and 1..3 columns; inverse of n x k", |i| format!("n = {} rows = {} cols = {} kind {}", i % 9 + 1, i / 9 % 12 + 1, i / 108 % 3 + 1, i / 324), |i, c| {
                let (n, r, k, kind) = ((i % 9 + 1) as usize, (i / 9 % 12 + 1) as usize, (i / 108 % 3 + 1) as usize, i / 324);
                let f = move |a: usize, b: usize| match kind {
                    0 => (a == b) as u8 as f64,
                    1 => 1.0,
                    2 => 0.0,
                    _ => 1.0 / (1 + a + b) as f64,
                };
                c.state(&(n, r, k, kind));
                let a: Matrix<f64> = M::from_fn(n, n, f).real();
                let b: Matrix<f64> = M::from_fn(r, k, |i, j| (i + j) as f64).real();
                if r != n {
                    must_reject(|| format!("solve of {}x{} with a {}x{} right-hand side", n, n, r, k), || a.solve(&b))?;
                    let lu = LUDecomposition::new(&a);
                    must_reject(|| format!("LU solve of {}x{} with a {}x{} right-hand side", n, n, r, k), || lu.solve(&b))?;
                    let w: Matrix<f64> = M::from_fn(n, r, f).real();
                    must_reject(|| format!("inverse of a {}x{} matrix", n, r), || w.inverse())?;
                    c.call(3);
                    c.nontrivial += 1;
                }
                M::from_fn(n, n, f).same(&a, "A")?;
                M::from_fn(r, k, |i, j| (i + j) as f64).same(&b, "B")?;
                c.trace();
                Ok(())
            }));
            v
        },
    )
}
