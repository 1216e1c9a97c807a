//! C27: different routes through the library to the same quantity agree.
#[macro_use]
extern crate mc;
use la::*;
use mc::engine::*;
use mc::model::M;
use mc::numfl::round;
use mc::numsp::*;
use mc::spaces::*;
use mc::valid::*;

const K: f64 = 30.0;
/// sums of the k-th powers of complex numbers, k = 1..=n
fn power_sums(re: &[f64], im: &[f64], n: usize) -> Vec<f64> {
    let mut p: Vec<(f64, f64)> = vec![(1.0, 0.0); re.len()];
    (0..n)
        .map(|_| {
            for (i, q) in p.iter_mut().enumerate() {
                *q = (q.0 * re[i] - q.1 * im[i], q.0 * im[i] + q.1 * re[i]);
            }
            p.iter().map(|q| q.0).sum()
        })
        .collect()
}
fn product(re: &[f64], im: &[f64]) -> f64 {
    let mut p = (1.0, 0.0);
    for i in 0..re.len() {
        p = (p.0 * re[i] - p.1 * im[i], p.0 * im[i] + p.1 * re[i]);
    }
    p.0
}
fn f<T: Sc>(v: &[T]) -> Vec<f64> {
    v.iter().map(|x| x.to()).collect()
}
fn close(c: &mut Ctx, what: &'static str, a: &M<f64>, x: f64, y: f64, unit: f64) -> Res {
    ratio(c, what, (x - y).abs() / unit, K, || format!("A = {:?}: {:e} and {:e}", a, x, y))
}
fn near(c: &mut Ctx, what: &'static str, a: &M<f64>, x: &M<f64>, y: &M<f64>, unit: f64) -> Res {
    shape(x, y.r, y.c, what)?;
    let d = x.sub(y).max_abs();
    ratio(c, what, d / unit, K, || format!("A = {:?}: {:?} and {:?}", a, x, y))
}
fn check<T: Sc>(a: &M<f64>, c: &mut Ctx) -> Res {
    let a = &round::<T>(a);
    let scale = if T::U > 1e-10 { 1e9 } else { 1e100 };
    if !a.d.iter().all(|x| *x == 0.0 || (x.abs() > 1.0 / scale && x.abs() < scale)) {
        c.skip("not of moderate scale");
        return Ok(());
    }
    let (m, n) = (a.r, a.c);
    let k = m.min(n);
    let dim = m.max(n) as f64;
    let ra = up::<T>(a);
    let rt = ra.t();
    let svd = SVD::new(&ra);
    let svdt = SVD::new(&rt);
    let qr = QRDecomposition::new(&ra);
    let sv: Vec<f64> = (0..k).map(|i| svd.get_s().get(i, i).to()).collect();
    let svt: Vec<f64> = (0..k).map(|i| svdt.get_s().get(i, i).to()).collect();
    c.call(6);
    c.trace();
    let top = jacobi_sv(a)[0];
    if top == 0.0 {
        ensure!(sv.iter().chain(&svt).all(|x| *x == 0.0), "A = {:?}: singular values {:?} {:?}", a, sv, svt);
        ensure!(m != n || ra.det().to() == 0.0, "A = {:?}: det {:?}", a, ra.det());
        return Ok(());
    }
    let e = dim * T::U;
    // singular values of the matrix and of its transpose
    for i in 0..k {
        close(c, "singular values of A and A' / (dim eps |A|)", a, sv[i], svt[i], e * top)?;
    }
    // the Frobenius norm and singular values and R
    let fro = ra.frobenius_norm().to();
    close(c, "Frobenius norm and singular values / (dim eps |A|)", a, fro, sv.iter().fold(0.0f64, |s, x| s.hypot(*x)), e * fro)?;
    close(c, "Frobenius norms of A and A' / (dim eps |A|)", a, fro, rt.frobenius_norm().to(), e * fro)?;
    close(c, "Frobenius norms of A and R / (dim eps |A|)", a, fro, qr.get_r().frobenius_norm().to(), e * fro)?;
    // the products A'A and AA': eigenvalues, trace
    let big = if T::U > 1e-10 { 1e12 } else { 1e100 };
    if top < big && top > 1.0 / big {
        for (what, g) in [("eigenvalues of A'A and squared singular values / (dim eps |A|^2)", &rt * &ra), ("eigenvalues of AA' and squared singular values / (dim eps |A|^2)", &ra * &rt)] {
            let eg = EigenDecomposition::new(&g);
            let ev = f(eg.get_real_eigenvalues());
            ensure!(eg.get_imag_eigenvalues().iter().all(|x| *x == T::zero()), "A = {:?}: complex eigenvalues of A'A or AA'", a);
            for i in 0..ev.len() {
                let s = if i < k { sv[i] } else { 0.0 };
                close(c, what, a, ev[i], s * s, e * top * top * dim.sqrt())?;
            }
            close(c, "trace of A'A and |A|^2 / (dim eps |A|^2)", a, g.trace().to(), fro * fro, e * fro * fro)?;
            c.call(3);
        }
    }
    let cond = if sv[k - 1] > 0.0 { sv[0] / sv[k - 1] } else { f64::INFINITY };
    c.outcome(&(m, n, cond.is_finite()));
    if m >= n && e * cond.powi(3) * K < 0.05 {
        ensure!(qr.is_full_rank() && svd.rank() == n && svdt.rank() == n, "A = {:?}: the rank tests disagree", a);
        // |A+| = 1 / smallest singular value
        let p = SVD::new(&ra.pinverse());
        let ps: Vec<f64> = (0..k).map(|i| p.get_s().get(i, i).to()).collect();
        for i in 0..k {
            close(c, "singular values of the pseudo-inverse / (dim eps cond^3 |A+|)", a, ps[i], 1.0 / sv[k - 1 - i], e * cond.powi(3) / sv[k - 1])?;
        }
        let x = M::from_fn(n, 2, |i, j| ((i * 3 + j * 5) % 7) as f64 - 2.0);
        let b = &ra * &up::<T>(&x);
        let w = e * cond * cond * x.max_abs() * dim.sqrt();
        let direct = ra.pinverse() * &b;
        near(c, "A+ (A X) and X / (dim eps cond^3 |X|)", a, &down(&direct), &x, w * cond)?;
        match qr.solve(&b) {
            Some(y) => near(c, "QR solution of A Y = A X and X / (dim eps cond^2 |X|)", a, &down(&y), &x, w)?,
            None => return Err(format!("A = {:?}: no least-squares solution", a)),
        }
        c.call(5);
        c.nontrivial += 1;
    }
    if m != n {
        return Ok(());
    }
    // ---- square matrices
    let eg = EigenDecomposition::new(&ra);
    let egt = EigenDecomposition::new(&rt);
    c.call(2);
    let (re, im) = (f(eg.get_real_eigenvalues()), f(eg.get_imag_eigenvalues()));
    let (ret, imt) = (f(egt.get_real_eigenvalues()), f(egt.get_imag_eigenvalues()));
    close(c, "trace and sum of eigenvalues / (n^1.5 eps |A|)", a, ra.trace().to(), re.iter().sum(), e * fro * dim.sqrt())?;
    ensure!(im.iter().sum::<f64>().abs() <= K * e * fro, "A = {:?}: imaginary parts do not cancel {:?}", a, im);
    // power sums of the eigenvalues against traces of the powers, for A and A'
    let kk = n.min(4);
    if fro.powi(kk as i32) < big && fro.powi(kk as i32) > 1.0 / big {
        let (ps, pt) = (power_sums(&re, &im, kk), power_sums(&ret, &imt, kk));
        let mut pw = ra.clone();
        for p in 0..kk {
            if p > 0 {
                pw = &pw * &ra;
            }
            let unit = (p + 1) as f64 * e * fro.powi(p as i32 + 1) * dim.sqrt();
            close(c, "power sums of eigenvalues and traces of powers / (n^1.5 eps |A|^k)", a, ps[p], pw.trace().to(), unit)?;
            close(c, "power sums of the eigenvalues of A and A' / (n^1.5 eps |A|^k)", a, ps[p], pt[p], unit)?;
        }
    }
    // symmetric: singular values are the moduli of the eigenvalues
    let sym = (0..n).all(|i| (0..i).all(|j| a.at(i, j) == a.at(j, i)));
    if sym {
        let mut mods: Vec<f64> = re.iter().map(|x| x.abs()).collect();
        mods.sort_by(|x, y| y.partial_cmp(x).unwrap());
        for i in 0..n {
            close(c, "symmetric: moduli of eigenvalues and singular values / (n^1.5 eps |A|)", a, mods[i], sv[i], e * top * dim.sqrt())?;
        }
        ensure!(ra.is_symmetric() && !ra.is_non_symmetric(), "A = {:?} is not called symmetric", a);
    }
    let prod: f64 = sv.iter().product();
    let low = if T::U > 1e-10 { 1e-30 } else { 1e-250 };
    if !(e * dim * cond * K < 0.05 && prod > low && prod < 1.0 / low && sv.iter().all(|x| *x > low.sqrt() && *x < 1.0 / low.sqrt())) {
        c.note("square, without the comparisons that need conditioning", 1);
        return Ok(());
    }
    c.nontrivial += 1;
    // determinants
    let det = ra.det().to();
    let unit = e * dim * cond * prod;
    let lu = LUDecomposition::new(&ra);
    let rd: f64 = (0..n).map(|i| qr.get_r().get(i, i).to().abs()).product();
    close(c, "|det| and product of singular values / (n^2 eps cond |det|)", a, det.abs(), prod, unit)?;
    close(c, "det and product of eigenvalues / (n^2 eps cond |det|)", a, det, product(&re, &im), unit)?;
    close(c, "|det| and diagonal of R / (n^2 eps cond |det|)", a, det.abs(), rd, unit)?;
    close(c, "det of the matrix and of its LU / (n^2 eps cond |det|)", a, det, lu.det().to(), unit)?;
    close(c, "det of A and A' / (n^2 eps cond |det|)", a, det, rt.det().to(), unit)?;
    ensure!(!ra.is_singular() && ra.is_non_singular() && !lu.is_singular() && lu.is_non_singular() && svd.rank() == n, "A = {:?} is called singular", a);
    c.call(12);
    // the growth of the elimination enters the solutions
    let (l, u) = (down(&lu.get_l()), down(&lu.get_u()));
    let grow = l.abs().mul(&u.abs()).fro() / fro;
    let none = |what: &str| format!("A = {:?}: {} is None", a, what);
    let inv = ra.inverse().ok_or_else(|| none("inverse"))?;
    let iv = down(&inv);
    let wi = e * cond * grow * iv.fro();
    let id = up::<T>(&M::id(n));
    near(c, "inverse and solve(I) / (n eps cond |inverse|)", a, &iv, &down(&ra.solve(&id).ok_or_else(|| none("solve"))?), wi)?;
    near(c, "inverse and LU solve(I) / (n eps cond |inverse|)", a, &iv, &down(&lu.solve(&id).ok_or_else(|| none("LU solve"))?), wi)?;
    near(c, "inverse and QR solve(I) / (n eps cond |inverse|)", a, &iv, &down(&qr.solve(&id).ok_or_else(|| none("QR solve"))?), wi)?;
    near(c, "inverses of A and A' / (n eps cond |inverse|)", a, &iv.t(), &down(&rt.inverse().ok_or_else(|| none("inverse of A'"))?), wi * (1.0 + cond.sqrt()))?;
    close(c, "det of the inverse / (n^2 eps cond^2 |det|^-1)", a, inv.det().to() * det, 1.0, e * dim * cond * cond * grow)?;
    if e * cond.powi(3) * K < 0.05 {
        near(c, "inverse and pseudo-inverse / (n eps cond^3 |inverse|)", a, &iv, &down(&ra.pinverse()), e * cond.powi(3) * grow * iv.fro())?;
    }
    for b in [M::from_fn(n, 1, |i, _| (i + 1) as f64), M::from_fn(n, 3, |i, j| ((i * 5 + j * 3) % 4) as f64 - 1.5)] {
        let rb = up::<T>(&b);
        let x = ra.solve(&rb).ok_or_else(|| none("solve"))?;
        let xd = down(&x);
        let w = e * cond * grow * xd.fro() * 2.0;
        near(c, "LU and matrix solutions / (n eps cond |X|)", a, &xd, &down(&lu.solve(&rb).ok_or_else(|| none("LU solve"))?), w)?;
        near(c, "LU and QR solutions / (n eps cond |X|)", a, &xd, &down(&qr.solve(&rb).ok_or_else(|| none("QR solve"))?), w)?;
        near(c, "solution and inverse times B / (n eps cond |A^-1||B|)", a, &xd, &down(&(&inv * &rb)), e * cond * grow * iv.fro() * b.fro())?;
        c.call(4);
        if sym {
            if let Some(ch) = CholeskyDecomposition::new(&ra) {
                near(c, "LU and Cholesky solutions / (n eps cond |X|)", a, &xd, &down(&ch.solve(&rb)), w)?;
                let ld: f64 = (0..n).map(|i| ch.get_l().get(i, i).to()).product();
                close(c, "det and diagonal of the Cholesky factor / (n^2 eps cond |det|)", a, det, ld * ld, unit)?;
                c.note("Cholesky solutions", 1);
                ensure!(re.iter().all(|x| *x > 0.0), "A = {:?}: a Cholesky factor but eigenvalues {:?}", a, re);
            } else {
                ensure!(re[n - 1] < 0.0, "A = {:?}: no Cholesky factor but eigenvalues {:?}", a, re);
            }
        }
    }
    c.call(8);
    Ok(())
}
/// also the symmetric and Gram matrices derived from a square matrix
fn derived<T: Sc>(a: &M<f64>, c: &mut Ctx) -> Res {
    check::<T>(a, c)?;
    if a.r == a.c && a.r > 1 {
        check::<T>(&a.zip(&a.t(), |x, y| x + y), c)?;
        let g = a.t().mul(a);
        if g.max_abs() < 1e6 {
            let s = g.fro() * 0.25 + 0.5;
            check::<T>(&M::from_fn(g.r, g.c, |i, j| (if i >= j { g.at(i, j) } else { g.at(j, i) }) + if i == j { s } else { 0.0 }), c)?;
        }
    }
    Ok(())
}
fn main() {
    run_check(
        Spec {
            id: "C27",
            level: "model_checking",
            rule: "each case compares, for one matrix (and its transpose, and A+A' and A'A+sI for square ones), every pair of routes to a quantity; non-trivial: a comparison that needs a well-conditioned matrix was made",
            assumptions: &["determinant and solution comparisons where n^2 eps cond < 5e-4, pseudo-inverse comparisons where n eps cond^3 < 5e-4; all others on every matrix of moderate scale"],
        },
        |tier| {
            let mut v = vec![];
            for s in small_rect(tier) {
                v.push(on_space("f64", s, derived::<f64>));
            }
            for s in thresholds(&[(1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)]) {
                v.push(on_space("f64", s, check::<f64>));
            }
            for s in perms(tier) {
                v.push(on_space("f64", s, check::<f64>));
            }
            v.push(on_space("f64", sym_alphabet(4, "{0,±1}", &L3), check::<f64>));
            v.push(on_space("f64", sym_alphabet(5, "{0,1}", &L2), check::<f64>));
            for s in structs(tier, (16, 16), (26, 26), &large_rect_few(tier)).into_iter().chain([sizes(tier.pick(50, 90), |_, _| true)]) {
                v.push(on_space("f64", s, derived::<f64>));
            }
            for s in [alphabet(1, 1, "{0,±1,±2,3,1/2}", &L7), alphabet(2, 2, "{0,±1,±2,3,1/2}", &L7), alphabet(2, 3, "{0,±1}", &L3), alphabet(3, 2, "{0,±1}", &L3), alphabet(3, 3, "{0,±1}", &L3), alphabet(4, 2, "{0,±1}", &L3)] {
                v.push(on_space("f32", s, derived::<f32>));
            }
            for s in structs(tier, (9, 9), (16, 16), &[]) {
                v.push(on_space("f32", s, derived::<f32>));
            }
            for s in variants(tier.pick(6, 9), |_, _| true).into_iter().chain(near_symmetric(tier.pick(7, 10))) {
                v.push(on_space("f64", s, check::<f64>));
            }
            if tier.thorough() {
                v.push(on_space("f64", alphabet(4, 4, "{0,±1}", &L3), check::<f64>));
                v.push(on_space("f64", alphabet(3, 3, "{0,±1,±2,3,1/2}", &L7), check::<f64>));
                v.push(on_space("f64", alphabet(4, 3, "{0,1,-2}", &[0.0, 1.0, -2.0]), check::<f64>));
                v.push(on_space("f64", sym_alphabet(4, "{0,±1,±2}", &L5), check::<f64>));
                v.push(on_space("f32", alphabet(3, 3, "{0,±1,±2}", &L5), derived::<f32>));
                v.push(on_space("f32", alphabet(4, 4, "{0,1}", &L2), derived::<f32>));
            }
            v
        },
    )
}
