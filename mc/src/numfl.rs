//! Oracles of the operations built on the factorizations, for any floating-point element type.
//! `a` must hold values representable in T.
use crate::engine::{Ctx, Res};
use crate::model::M;
use crate::valid::*;
use la::*;

/// rounds the values to T
pub fn round<T: Sc>(a: &M<f64>) -> M<f64> {
    down(&up::<T>(a))
}
fn lim<T: Sc>() -> (f64, f64, f64) {
    // largest product of pivots, smallest pivot, largest element of a solution
    if T::U > 1e-10 {
        (1e30, 1e-15, 1e25)
    } else {
        (1e200, 1e-100, 1e150)
    }
}
pub fn det_check<T: Sc>(a: &M<f64>, c: &mut Ctx, k: f64) -> Res {
    let n = a.r;
    let m = up::<T>(a);
    let lu = LUDecomposition::new(&m);
    let r = ref_lu(a);
    let s = m.is_singular();
    ensure!(m.is_non_singular() != s && lu.is_singular() == s && lu.is_non_singular() != s, "A = {:?}: the singularity tests contradict each other", a);
    let l = lim::<T>();
    if !(r.pivots.iter().fold(1.0, |p, x| p * x.abs().max(1.0)) < l.0 && r.pivots.iter().fold(1.0, |p, x| p * if *x == 0.0 { 1.0 } else { x.abs().min(1.0) }) > 1.0 / l.0) {
        c.skip("determinant near the limits of the range");
        return Ok(());
    }
    let want = match bareiss(a) {
        Some(d) => d as f64,
        None => r.det,
    };
    let ds = [m.det().to(), lu.det().to()];
    ensure!(ds.iter().all(|d| d.is_finite()), "A = {:?}: det = {:?}", a, ds);
    let err = match r.det_unit(a, T::U) {
        Some(unit) => {
            let e = n as f64 * T::U * unit;
            for d in ds {
                ratio(c, "det error / (n eps unit)", (d - want).abs() / (e + T::TINY), k, || format!("A = {:?} det = {:?} expected {:?}", a, d, want))?;
            }
            e
        }
        None => {
            let e = r.det_near(a, T::U);
            for d in ds {
                ensure!((d - want).abs() <= e, "A = {:?}: det = {:?}, expected {:?} within {:e}", a, d, want, e);
            }
            e
        }
    };
    if s {
        ensure!(ds[0] == 0.0 && ds[1] == 0.0, "A = {:?} is singular but det = {:?}", a, ds);
        ensure!(!(want.abs() > 2.0 * k * err), "A = {:?} is called singular but det = {:?}", a, want);
    }
    let zr = (0..n).any(|i| (0..n).all(|j| a.at(i, j) == 0.0));
    let zc = (0..n).any(|j| (0..n).all(|i| a.at(i, j) == 0.0));
    ensure!(!(zr || zc) || s, "A = {:?} has a zero row or column but is not called singular", a);
    c.call(6);
    Ok(())
}
pub fn solve_rhs(n: usize) -> Vec<M<f64>> {
    vec![
        M::from_fn(n, 1, |i, _| (i + 1) as f64),
        M::from_fn(n, 1, |i, _| if i + 1 == n { 1.0 } else { 0.0 }),
        M::from_fn(n, n, |i, j| ((i * 3 + j * 5) % 7) as f64 - 3.0),
        M::from_fn(n, n + 2, |i, j| if (i + j) % 3 == 0 { 1.0 } else { -((i * j) as f64) }),
    ]
}
fn resid<T: Sc>(c: &mut Ctx, name: &'static str, a: &M<f64>, unit: &M<f64>, x: &M<f64>, b: &M<f64>, k: f64) -> Res {
    let e = a.mul(x).sub(b);
    let w = unit.mul(&x.abs()).zip(&b.abs(), |p, q| (p + q) * a.r as f64 * T::U);
    within(c, name, &e, &w, T::TINY, k, || format!("A = {:?} B = {:?} X = {:?}", a, b, x))
}
pub fn solve_check<T: Sc>(a: &M<f64>, c: &mut Ctx, k: f64) -> Res {
    let n = a.r;
    let m = up::<T>(a);
    let lu = LUDecomposition::new(&m);
    let sing = m.is_singular();
    let r = ref_lu(a);
    let mut unit = r.unit.clone();
    let own = down(&lu.get_l()).abs().mul(&down(&lu.get_u()).abs());
    for (i, &p) in lu.get_piv().iter().enumerate() {
        for j in 0..n {
            let x = unit.at(p, j).max(own.at(i, j));
            unit.set(p, j, x);
        }
    }
    let big = lim::<T>().2;
    for b in solve_rhs(n) {
        let rb = up::<T>(&b);
        for (what, x) in [("solve residual / (n eps |L||U||X|)", m.solve(&rb)), ("LU solve residual / (n eps |L||U||X|)", lu.solve(&rb))] {
            match x {
                None => ensure!(sing, "A = {:?}: {}: None although not is_singular", a, what),
                Some(x) => {
                    ensure!(!sing, "A = {:?}: {}: a solution although is_singular", a, what);
                    let x = down(&x);
                    shape(&x, n, b.c, "X")?;
                    if x.d.iter().any(|v| !v.is_finite() || v.abs() > big) {
                        ensure!(r.det_unit(a, T::U).is_none(), "A = {:?} B = {:?}: X = {:?}", a, b, x);
                        c.skip("solution outside the range");
                        continue;
                    }
                    resid::<T>(c, what, a, &unit, &x, &b, k)?;
                }
            }
        }
        c.call(2);
    }
    match m.inverse() {
        None => ensure!(sing, "A = {:?}: no inverse although not is_singular", a),
        Some(x) => {
            ensure!(!sing, "A = {:?}: inverse although is_singular", a);
            let x = down(&x);
            shape(&x, n, n, "inverse")?;
            if x.d.iter().all(|v| v.is_finite() && v.abs() < big) {
                resid::<T>(c, "inverse residual / (n eps |L||U||X|)", a, &unit, &x, &M::id(n), k)?;
            } else {
                ensure!(r.det_unit(a, T::U).is_none(), "A = {:?}: inverse = {:?}", a, x);
            }
        }
    }
    c.call(2);
    Ok(())
}
/// a: symmetric
pub fn chol_check<T: Sc>(a: &M<f64>, c: &mut Ctx, k: f64) -> Res {
    let n = a.r;
    let got = CholeskyDecomposition::new(&up::<T>(a));
    c.call(1);
    let sym = (0..n).all(|i| (0..i).all(|j| a.at(i, j) == a.at(j, i)));
    if !sym {
        ensure!(got.is_none(), "Some for the non-symmetric {:?}", a);
        return Ok(());
    }
    // smallest eigenvalue through the library-independent Jacobi method on A + sI
    let an = a.fro();
    let s = a.zip(&M::id(n), |x, y| x + 2.0 * an * y);
    let ev = jacobi_sv(&s);
    let least = ev[n - 1] - 2.0 * an;
    let tol = 1e2 * n as f64 * T::U * an;
    if least > tol {
        ensure!(got.is_some(), "None for the positive definite {:?} (smallest eigenvalue {:e})", a, least);
        c.note("positive definite", 1);
    } else if least < -tol {
        ensure!(got.is_none(), "Some for the indefinite {:?} (smallest eigenvalue {:e})", a, least);
        c.note("indefinite", 1);
    }
    if an == 0.0 {
        ensure!(got.is_none(), "Some for the zero matrix");
    }
    if let Some(ch) = got {
        let l = down(ch.get_l());
        shape(&l, n, n, "L")?;
        finite(&l, "L")?;
        for i in 0..n {
            ensure!(l.at(i, i) > 0.0, "A = {:?}: L has a non-positive diagonal {:?}", a, l);
            for j in i + 1..n {
                ensure!(l.at(i, j) == 0.0, "A = {:?}: L is not lower triangular {:?}", a, l);
            }
        }
        let unit = l.abs().mul(&l.t().abs());
        let e = l.mul(&l.t()).sub(a);
        within(c, "|LL'-A| / (n eps |L||L'|)", &e, &unit.scaled(n as f64 * T::U), T::TINY, k, || format!("A = {:?} L = {:?}", a, l))?;
        let big = lim::<T>().2;
        for b in solve_rhs(n) {
            let x = down(&ch.solve(&up::<T>(&b)));
            shape(&x, n, b.c, "X")?;
            if x.d.iter().any(|v| !v.is_finite() || v.abs() > big) {
                c.skip("solution outside the range");
                continue;
            }
            resid::<T>(c, "Cholesky solve / (n eps |L||L'||X|)", a, &unit, &x, &b, k)?;
            c.call(1);
        }
    }
    Ok(())
}
/// singular values of the matrix with its columns scaled to unit length: smallest / largest
pub fn independence(a: &M<f64>) -> f64 {
    let mut b = a.clone();
    for j in 0..a.c {
        let s = (0..a.r).fold(0.0f64, |s, i| s.hypot(a.at(i, j)));
        if s == 0.0 {
            return 0.0;
        }
        for i in 0..a.r {
            b.set(i, j, a.at(i, j) / s);
        }
    }
    let sv = jacobi_sv(&b);
    sv[sv.len() - 1] / sv[0]
}
/// a: at least as many rows as columns
pub fn lsq_check<T: Sc>(a: &M<f64>, c: &mut Ctx, k: f64) -> Res {
    let (m, n) = (a.r, a.c);
    let ra = up::<T>(a);
    let qr = QRDecomposition::new(&ra);
    let full = qr.is_full_rank();
    let ind = independence(a);
    let clear = T::U.sqrt() * 8.0;
    let zerocol = (0..n).any(|j| (0..m).all(|i| a.at(i, j) == 0.0));
    ensure!(!zerocol || !full, "A = {:?}: is_full_rank although a column is zero", a);
    ensure!(!(ind > clear) || full, "A = {:?}: not full rank, but the columns are independent (ratio {:e})", a, ind);
    let an = a.fro();
    let mut bs = solve_rhs(m);
    bs.push(a.clone());
    for b in &bs {
        match qr.solve(&up::<T>(b)) {
            None => ensure!(!full, "A = {:?}: solve gives None although is_full_rank", a),
            Some(x) => {
                ensure!(full, "A = {:?}: solve gives a solution although not is_full_rank", a);
                let x = down(&x);
                shape(&x, n, b.c, "X")?;
                if x.d.iter().any(|v| !v.is_finite() || v.abs() > lim::<T>().2) {
                    ensure!(!(ind > clear), "A = {:?} B = {:?}: X = {:?}", a, b, x);
                    c.skip("solution outside the range");
                    continue;
                }
                let g = a.t().mul(&b.sub(&a.mul(&x)));
                let mut w: f64 = 0.0;
                for j in 0..b.c {
                    let nr = |q: &M<f64>| (0..q.r).fold(0.0f64, |s, i| s.hypot(q.at(i, j)));
                    let unit = m as f64 * T::U * an * (nr(b) + an * nr(&x));
                    let y = nr(&g) / (unit + T::TINY);
                    w = if y.is_nan() { f64::INFINITY } else { w.max(y) };
                }
                ratio(c, "|A'(AX-B)| / (m eps |A|(|A||X|+|B|))", w, k, || format!("A = {:?} B = {:?} X = {:?}", a, b, x))?;
            }
        }
        c.call(1);
    }
    let sv = jacobi_sv(a);
    let cond = if sv[n - 1] > 0.0 { sv[0] / sv[n - 1] } else { f64::INFINITY };
    if cond.powi(3) * T::U * (m as f64) < 1e-3 {
        let x = down(&ra.pinverse());
        c.call(1);
        shape(&x, n, m, "pinverse")?;
        let u = (m as f64) * T::U * cond.powi(3);
        let e = x.mul(a).sub(&M::id(n)).max_abs();
        ratio(c, "|A+ A - I| / (m eps cond^3)", e / u, k, || format!("A = {:?} A+ = {:?}", a, x))?;
        let ax = a.mul(&x);
        let e = ax.sub(&ax.t()).max_abs();
        ratio(c, "|A A+ - (A A+)'| / (m eps cond^3)", e / u, k, || format!("A = {:?} A+ = {:?}", a, x))?;
        c.note("pseudo-inverses", 1);
    }
    Ok(())
}
pub fn rank_check<T: Sc>(a: &M<f64>, c: &mut Ctx) -> Res {
    let (m, n) = (a.r, a.c);
    let svd = SVD::new(&up::<T>(a));
    let s = svd.get_s();
    let sv: Vec<f64> = (0..m.min(n)).map(|i| s.get(i, i).to()).collect();
    let tol = m.max(n) as f64 * sv[0] * T::U;
    let lo = sv.iter().filter(|x| **x > tol * (1.0 + 1e3 * T::U)).count();
    let hi = sv.iter().filter(|x| **x > tol * (1.0 - 1e3 * T::U)).count();
    let got = svd.rank();
    ensure!(got >= lo && got <= hi, "A = {:?}: rank {} but {} singular values exceed the tolerance {:e}: {:?}", a, got, lo, tol, sv);
    let js = jacobi_sv(a);
    // the true rank where the reference shows a clear gap
    if js[0] > 0.0 {
        let want = js.iter().filter(|x| **x > 1e3 * tol).count();
        if js.iter().all(|x| *x > 1e3 * tol || *x < 1e-4 * tol) {
            ensure!(got == want, "A = {:?}: rank is {}, the matrix has rank {} (singular values {:?})", a, got, want, sv);
            c.note("rank against the reference", 1);
        }
        for (x, y) in sv.iter().zip(&js) {
            ratio(c, "singular values against the reference / (dim eps |A|)", (x - y).abs() / (m.max(n) as f64 * T::U * js[0]), 40.0, || format!("A = {:?}: {:?}, reference {:?}", a, sv, js))?;
        }
    } else {
        ensure!(got == 0, "rank of the zero matrix is {}", got);
    }
    c.call(3);
    Ok(())
}
pub fn norms_check<T: Sc>(a: &M<f64>, c: &mut Ctx) -> Res {
    let m = up::<T>(a);
    let n = (a.r + a.c) as f64;
    let mut cmp = |what: &'static str, x: f64, y: f64, unit: f64| ratio(c, what, (x - y).abs() / (n * T::U * unit + T::TINY), 20.0, || format!("A = {:?}: {:e}, expected {:e}", a, x, y));
    let k = a.r.min(a.c);
    cmp("trace / (n eps sum)", m.trace().to(), (0..k).map(|i| a.at(i, i)).sum(), (0..k).map(|i| a.at(i, i).abs()).sum())?;
    cmp("frobenius / (n eps norm)", m.frobenius_norm().to(), a.fro(), a.fro())?;
    for j in 0..a.c {
        let v = m.get_column(j);
        let d: Vec<f64> = (0..a.r).map(|i| a.at(i, j).abs()).collect();
        let n1: f64 = d.iter().sum();
        let n2 = d.iter().fold(0.0f64, |s, x| s.hypot(*x));
        let ni = d.iter().fold(0.0f64, |s, x| s.max(*x));
        cmp("1-norm / (n eps norm)", v.vector_1_norm().to(), n1, n1)?;
        cmp("2-norm / (n eps norm)", v.vector_2_norm().to(), n2, n2)?;
        cmp("2-norm / (n eps norm)", v.vector_euclidean_norm().to(), n2, n2)?;
        cmp("2-norm / (n eps norm)", v.length().to(), n2, n2)?;
        cmp("inf-norm / (n eps norm)", v.vector_inf_norm().to(), ni, ni)?;
        // powf loses a few digits
        cmp("3-norm / (n eps norm)", v.vector_p_norm(T::of(3.0)).to(), if ni == 0.0 { 0.0 } else { ni * d.iter().map(|x| (x / ni).powi(3)).sum::<f64>().cbrt() }, 8.0 * n1)?;
    }
    Ok(())
}
