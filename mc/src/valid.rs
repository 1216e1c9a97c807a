//! Oracles: what a factorization has to satisfy, with the standard backward-error bounds.
//! Every bound is (ratio of observed error to the theoretical unit bound) <= K.
use crate::engine::{Ctx, Res};
use crate::model::M;
use crate::scalars::{C32, C64, Q};
use la::{ApproxEq, Matrix};
use num::traits::{Float, Signed};
use std::fmt::Debug;

pub trait Sc: Float + ApproxEq<Self> + Signed + Copy + Debug + Send + Sync + 'static {
    const U: f64; // machine epsilon
    const TINY: f64; // absolute slack for underflow
    fn of(x: f64) -> Self;
    fn to(self) -> f64;
}
impl Sc for f64 {
    const U: f64 = f64::EPSILON;
    const TINY: f64 = 1e-290;
    #[inline]
    fn of(x: f64) -> f64 {
        x
    }
    #[inline]
    fn to(self) -> f64 {
        self
    }
}
impl Sc for f32 {
    const U: f64 = f32::EPSILON as f64;
    const TINY: f64 = 1e-35;
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn to(self) -> f64 {
        self as f64
    }
}
impl Sc for C64 {
    const U: f64 = f64::EPSILON;
    const TINY: f64 = 1e-290;
    fn of(x: f64) -> C64 {
        C64(x)
    }
    fn to(self) -> f64 {
        self.0
    }
}
impl Sc for C32 {
    const U: f64 = f32::EPSILON as f64;
    const TINY: f64 = 1e-35;
    fn of(x: f64) -> C32 {
        C32(x as f32)
    }
    fn to(self) -> f64 {
        self.0 as f64
    }
}

pub fn up<T: Sc>(m: &M<f64>) -> Matrix<T> {
    Matrix::new(m.r, m.c, m.d.iter().map(|x| T::of(*x)).collect())
}
pub fn down<T: Sc>(m: &Matrix<T>) -> M<f64> {
    M { r: m.rows(), c: m.cols(), d: m.get_data().iter().map(|x| x.to()).collect() }
}
pub fn q_up(m: &M<f64>) -> Matrix<Q> {
    Matrix::new(m.r, m.c, m.d.iter().map(|x| Q::from_float(*x)).collect())
}
pub fn shape(m: &M<f64>, r: usize, c: usize, what: &str) -> Res {
    ensure!(m.r == r && m.c == c && m.d.len() == r * c, "{} is {}x{}, expected {}x{}", what, m.r, m.c, r, c);
    Ok(())
}
pub fn finite(m: &M<f64>, what: &str) -> Res {
    ensure!(m.d.iter().all(|x| x.is_finite()), "{} contains a non-finite value: {:?}", what, m);
    Ok(())
}
/// err <= K * bound, element by element
pub fn within(ctx: &mut Ctx, name: &'static str, err: &M<f64>, bound: &M<f64>, tiny: f64, k: f64, d: impl Fn() -> String) -> Res {
    let mut w: f64 = 0.0;
    for (e, b) in err.d.iter().zip(&bound.d) {
        let r = e.abs() / (b + tiny);
        if r.is_nan() {
            w = f64::INFINITY;
            break;
        }
        w = w.max(r);
    }
    ratio(ctx, name, w, k, d)
}
pub fn ratio(ctx: &mut Ctx, name: &'static str, w: f64, k: f64, d: impl Fn() -> String) -> Res {
    let bad = !(w <= k);
    ctx.worst(name, w, &d);
    if bad {
        return Err(format!("{}: error is {:.3e} times the unit bound (allowed {:.0e}): {}", name, w, k, d()));
    }
    Ok(())
}
pub fn orthogonal<T: Sc>(ctx: &mut Ctx, name: &'static str, q: &M<f64>, k: f64) -> Res {
    ensure!(q.r == q.c, "{}: {}x{} is not square", name, q.r, q.c);
    finite(q, name)?;
    let e = q.t().mul(q).sub(&M::id(q.r)).max_abs();
    ratio(ctx, name, e / (q.r as f64 * T::U), k, || format!("Q = {:?}", q))
}

// ---------------------------------------------------------------- LU
pub struct LuParts {
    pub l: M<f64>,
    pub u: M<f64>,
    pub piv: Vec<usize>,
    /// P' |L| |U| : the componentwise error unit
    pub e: M<f64>,
}
pub const K_LU: f64 = 15.0;
pub fn lu_valid<T: Sc>(ctx: &mut Ctx, a: &M<f64>) -> Result<(la::LUDecomposition<T>, LuParts), String> {
    let ra = up::<T>(a);
    let a = &down(&ra);
    let before = ra.clone();
    let lu = la::LUDecomposition::new(&ra);
    ensure!(ra.get_data() == before.get_data() && ra.rows() == before.rows(), "LU changed its input");
    let (l, u, p) = (down(&lu.get_l()), down(&lu.get_u()), down(&lu.get_p()));
    ctx.call(4);
    let (m, n) = (a.r, a.c);
    let k = m.min(n);
    shape(&l, m, k, "L")?;
    shape(&u, k, n, "U")?;
    shape(&p, m, m, "P")?;
    let piv = lu.get_piv().clone();
    ensure!(piv.len() == m, "piv has {} entries, expected {}", piv.len(), m);
    let mut s = piv.clone();
    s.sort();
    ensure!(s == (0..m).collect::<Vec<_>>(), "piv {:?} is not a permutation", piv);
    for i in 0..m {
        for j in 0..m {
            ensure!(p.at(i, j) == (piv[i] == j) as u8 as f64, "P is not the permutation matrix of piv {:?}: {:?}", piv, p);
        }
        for j in 0..k {
            let x = l.at(i, j);
            ensure!(j <= i || x == 0.0, "L not lower trapezoidal: {:?}", l);
            ensure!(j != i || x == 1.0, "L has a non-unit diagonal: {:?}", l);
            ensure!(x.abs() <= 1.0 + 4.0 * T::U, "multiplier |L({},{})| = {} > 1: pivoting failed", i, j, x);
        }
    }
    for i in 0..k {
        for j in 0..n.min(i) {
            ensure!(u.at(i, j) == 0.0, "U not upper: {:?}", u);
        }
    }
    finite(&u, "U")?;
    let pa = a.rows_of(&piv);
    let unit = l.abs().mul(&u.abs());
    let err = pa.sub(&l.mul(&u));
    within(ctx, "LU |PA-LU| / (n eps |L||U|)", &err, &unit.scaled(k as f64 * T::U), T::TINY, K_LU, || format!("A = {:?} L = {:?} U = {:?} piv = {:?}", a, l, u, piv))?;
    let mut e = unit.clone();
    for i in 0..m {
        for j in 0..n {
            e.set(piv[i], j, unit.at(i, j));
        }
    }
    Ok((lu, LuParts { l, u, piv, e }))
}

/// exact determinant of an integer matrix (fraction-free elimination)
pub fn bareiss(a: &M<f64>) -> Option<i128> {
    let n = a.r;
    let mut m: Vec<i128> = Vec::with_capacity(n * n);
    for x in &a.d {
        if x.fract() != 0.0 || x.abs() > 1e12 {
            return None;
        }
        m.push(*x as i128);
    }
    let mut sign = 1i128;
    let mut prev = 1i128;
    for k in 0..n.saturating_sub(1) {
        if m[k * n + k] == 0 {
            let p = (k + 1..n).find(|&i| m[i * n + k] != 0);
            match p {
                None => return Some(0),
                Some(p) => {
                    for j in 0..n {
                        m.swap(k * n + j, p * n + j);
                    }
                    sign = -sign;
                }
            }
        }
        for i in k + 1..n {
            for j in k + 1..n {
                let x = m[i * n + j].checked_mul(m[k * n + k])?;
                let y = m[i * n + k].checked_mul(m[k * n + j])?;
                m[i * n + j] = x.checked_sub(y)? / prev;
            }
            m[i * n + k] = 0;
        }
        prev = m[k * n + k];
    }
    Some(sign * m[n * n - 1])
}

/// one-sided Jacobi singular values (independent reference), descending, length min(r,c)
pub fn jacobi_sv(a: &M<f64>) -> Vec<f64> {
    let mut a = if a.r >= a.c { a.clone() } else { a.t() };
    let sc = a.max_abs();
    if sc == 0.0 {
        return vec![0.0; a.c];
    }
    a = a.scaled(1.0 / sc);
    let (r, c) = (a.r, a.c);
    for _ in 0..60 {
        let mut off = 0.0f64;
        for p in 0..c {
            for q in p + 1..c {
                let (mut x, mut y, mut z) = (0.0, 0.0, 0.0);
                for i in 0..r {
                    x += a.at(i, p) * a.at(i, p);
                    y += a.at(i, q) * a.at(i, q);
                    z += a.at(i, p) * a.at(i, q);
                }
                if z == 0.0 || z.abs() <= 1e-17 * (x * y).sqrt() {
                    continue;
                }
                off = off.max(z.abs() / (x * y).sqrt());
                let zeta = (y - x) / (2.0 * z);
                let t = zeta.signum() / (zeta.abs() + (1.0 + zeta * zeta).sqrt());
                let cs = 1.0 / (1.0 + t * t).sqrt();
                let sn = cs * t;
                for i in 0..r {
                    let (u, v) = (a.at(i, p), a.at(i, q));
                    a.set(i, p, cs * u - sn * v);
                    a.set(i, q, sn * u + cs * v);
                }
            }
        }
        if off < 1e-15 {
            break;
        }
    }
    let mut s: Vec<f64> = (0..c).map(|j| (0..r).map(|i| a.at(i, j) * a.at(i, j)).sum::<f64>().sqrt() * sc).collect();
    s.sort_by(|a, b| b.partial_cmp(a).unwrap());
    s
}

// ---------------------------------------------------------------- QR
pub const K_QR: f64 = 25.0;
pub struct QrParts {
    pub q: M<f64>,
    pub r: M<f64>,
    pub h: M<f64>,
}
pub fn qr_valid<T: Sc>(ctx: &mut Ctx, a: &M<f64>) -> Result<(la::QRDecomposition<T>, QrParts), String> {
    let ra = up::<T>(a);
    let a = &down(&ra);
    let before = ra.clone();
    let qr = la::QRDecomposition::new(&ra);
    ensure!(ra.get_data() == before.get_data() && ra.rows() == before.rows(), "QR changed its input");
    let (q, r, h) = (down(&qr.get_q()), down(&qr.get_r()), down(&qr.get_h()));
    ctx.call(4);
    let (m, n) = (a.r, a.c);
    shape(&q, m, m, "Q")?;
    shape(&r, m, n, "R")?;
    shape(&h, m, n, "H")?;
    finite(&r, "R")?;
    for i in 0..m {
        for j in 0..n {
            ensure!(i <= j || r.at(i, j) == 0.0, "R is not upper triangular: {:?}", r);
            ensure!(i >= j || h.at(i, j) == 0.0, "H is not lower trapezoidal: {:?}", h);
        }
    }
    orthogonal::<T>(ctx, "QR |Q'Q-I| / (m eps)", &q, K_QR).map_err(|e| format!("Q is not orthogonal for A = {:?}: {}", a, e))?;
    let e = a.sub(&q.mul(&r));
    let mut w: f64 = 0.0;
    for j in 0..n {
        let cn = (0..m).map(|i| a.at(i, j).powi(2)).sum::<f64>().sqrt();
        let en = (0..m).map(|i| e.at(i, j).powi(2)).sum::<f64>().sqrt();
        let x = en / (cn * m as f64 * T::U + T::TINY);
        w = if x.is_nan() { f64::INFINITY } else { w.max(x) };
    }
    ratio(ctx, "QR |A-QR|_col / (m eps |A|_col)", w, K_QR, || format!("A = {:?} Q = {:?} R = {:?}", a, q, r))?;
    // the Householder vectors define the reflections whose product is Q
    let mut p = M::id(m);
    for k in (0..m.min(n)).rev() {
        let v: Vec<f64> = (0..m).map(|i| if i >= k { h.at(i, k) } else { 0.0 }).collect();
        let sc = v.iter().fold(0.0f64, |m, x| m.max(x.abs()));
        if sc == 0.0 {
            continue;
        }
        let v: Vec<f64> = v.iter().map(|x| x / sc).collect();
        let s: f64 = v.iter().map(|x| x * x).sum();
        for j in 0..m {
            let dot: f64 = (0..m).map(|i| v[i] * p.at(i, j)).sum();
            let f = 2.0 * dot / s;
            for i in 0..m {
                let x = p.at(i, j) - f * v[i];
                p.set(i, j, x);
            }
        }
    }
    let d = p.sub(&q).max_abs();
    ratio(ctx, "QR |H1..Hk - Q| / (m eps)", d / (m as f64 * T::U), K_QR, || format!("A = {:?} Q = {:?} H = {:?}", a, q, h))?;
    Ok((qr, QrParts { q, r, h }))
}

// ---------------------------------------------------------------- SVD
pub const K_SVD: f64 = 40.0;
pub struct SvdParts {
    pub u: M<f64>,
    pub s: Vec<f64>,
    pub v: M<f64>,
}
pub fn svd_check<T: Sc>(ctx: &mut Ctx, a: &M<f64>, svd: &la::SVD<T>) -> Result<SvdParts, String> {
    let (u, s, v) = (down(svd.get_u()), down(svd.get_s()), down(svd.get_v()));
    let (m, n) = (a.r, a.c);
    shape(&u, m, m, "U")?;
    shape(&s, m, n, "S")?;
    shape(&v, n, n, "V")?;
    finite(&s, "S")?;
    let k = m.min(n);
    for i in 0..m {
        for j in 0..n {
            ensure!(i == j || s.at(i, j) == 0.0, "S has a non-zero off-diagonal: {:?} for A = {:?}", s, a);
        }
    }
    let sv: Vec<f64> = (0..k).map(|i| s.at(i, i)).collect();
    for i in 0..k {
        ensure!(sv[i] >= 0.0, "negative singular value {:?} for A = {:?}", sv, a);
        ensure!(i == 0 || sv[i - 1] >= sv[i], "singular values not ordered: {:?} for A = {:?}", sv, a);
    }
    let dim = m.max(n) as f64;
    orthogonal::<T>(ctx, "SVD |U'U-I| / (m eps)", &u, K_SVD).map_err(|e| format!("U not orthogonal for A = {:?}: {}", a, e))?;
    orthogonal::<T>(ctx, "SVD |V'V-I| / (n eps)", &v, K_SVD).map_err(|e| format!("V not orthogonal for A = {:?}: {}", a, e))?;
    let e = u.mul(&s).mul(&v.t()).sub(a).fro();
    ratio(ctx, "SVD |USV'-A| / (dim eps |A|)", e / (dim * T::U * a.fro() + T::TINY), K_SVD, || {
        format!("A = {:?} U = {:?} S = {:?} V = {:?}", a, u, sv, v)
    })?;
    Ok(SvdParts { u, s: sv, v })
}
pub fn svd_valid<T: Sc>(ctx: &mut Ctx, a: &M<f64>) -> Result<(la::SVD<T>, SvdParts), String> {
    let ra = up::<T>(a);
    let a = &down(&ra);
    let before = ra.clone();
    let svd = la::SVD::new(&ra);
    ensure!(ra.get_data() == before.get_data() && ra.rows() == before.rows(), "SVD changed its input");
    ctx.call(4);
    let p = svd_check(ctx, a, &svd)?;
    Ok((svd, p))
}

// ---------------------------------------------------------------- eigen
pub const K_EIG: f64 = 80.0;
pub struct EigParts {
    pub v: M<f64>,
    pub d: M<f64>,
    pub re: Vec<f64>,
    pub im: Vec<f64>,
}
pub fn eig_valid<T: Sc>(ctx: &mut Ctx, a: &M<f64>) -> Result<EigParts, String> {
    let ra = up::<T>(a);
    let a = &down(&ra);
    let before = ra.clone();
    let eg = la::EigenDecomposition::new(&ra);
    ensure!(ra.get_data() == before.get_data() && ra.rows() == before.rows(), "eigen changed its input");
    ctx.call(5);
    let n = a.c;
    let v = down(eg.get_v());
    let d = down(&eg.get_d());
    let re: Vec<f64> = eg.get_real_eigenvalues().iter().map(|x| x.to()).collect();
    let im: Vec<f64> = eg.get_imag_eigenvalues().iter().map(|x| x.to()).collect();
    shape(&v, n, n, "V")?;
    shape(&d, n, n, "D")?;
    ensure!(re.len() == n && im.len() == n, "eigenvalue lists have lengths {} and {}, expected {}", re.len(), im.len(), n);
    let sym = (0..n).all(|i| (0..n).all(|j| a.at(i, j) == a.at(j, i)));
    finite(&d, "D").map_err(|e| format!("{} for A = {:?}", e, a))?;
    finite(&v, "V").map_err(|e| format!("{} for A = {:?}", e, a))?;
    // block structure of D and conjugate pairing
    let mut i = 0;
    let mut exp = M { r: n, c: n, d: vec![0.0; n * n] };
    while i < n {
        exp.set(i, i, re[i]);
        if im[i] != 0.0 {
            ensure!(
                i + 1 < n && im[i] > 0.0 && im[i + 1] == -im[i] && re[i + 1] == re[i],
                "complex eigenvalues are not conjugate pairs: re {:?} im {:?} for A = {:?}",
                re,
                im,
                a
            );
            exp.set(i, i + 1, im[i]);
            exp.set(i + 1, i, -im[i]);
            exp.set(i + 1, i + 1, re[i + 1]);
            i += 1;
        }
        i += 1;
    }
    ensure!(exp == d, "D {:?} does not hold the eigenvalues re {:?} im {:?}", d, re, im);
    let an = a.fro();
    if sym {
        ensure!(im.iter().all(|x| *x == 0.0), "symmetric matrix {:?} with complex eigenvalues {:?}", a, im);
        for i in 1..n {
            ensure!(re[i - 1] >= re[i], "eigenvalues of symmetric {:?} not in non-increasing order: {:?}", a, re);
        }
        orthogonal::<T>(ctx, "eigen sym |V'V-I| / (n eps)", &v, K_EIG).map_err(|e| format!("V not orthogonal for A = {:?}: {}", a, e))?;
        let e = a.mul(&v).sub(&v.mul(&d)).fro();
        ratio(ctx, "eigen sym |AV-VD| / (n eps |A|)", e / (n as f64 * T::U * an + T::TINY), K_EIG, || format!("A = {:?} re {:?} V = {:?}", a, re, v))?;
    } else {
        let e = a.mul(&v).sub(&v.mul(&d));
        let mut w: f64 = 0.0;
        for j in 0..n {
            let cols: Vec<usize> = if im[j] > 0.0 { vec![j, j + 1] } else if im[j] < 0.0 { vec![j - 1, j] } else { vec![j] };
            let sc = cols.iter().flat_map(|&c| (0..n).map(move |i| (i, c))).map(|(i, c)| v.at(i, c).abs()).fold(0.0, f64::max);
            ensure!(sc > 0.0, "eigenvector {} is zero for A = {:?}: V = {:?}", j, a, v);
            let cn = cols.iter().map(|&c| (0..n).map(|i| (v.at(i, c) / sc).powi(2)).sum::<f64>()).sum::<f64>().sqrt();
            let en = (0..n).map(|i| (e.at(i, j) / sc).powi(2)).sum::<f64>().sqrt();
            let x = en / (cn * n as f64 * T::U * an + T::TINY);
            w = if x.is_nan() { f64::INFINITY } else { w.max(x) };
        }
        ratio(ctx, "eigen gen |Av-vD| / (n eps |A||v|)", w, K_EIG, || format!("A = {:?} re {:?} im {:?} V = {:?}", a, re, im, v))?;
    }
    // all eigenvalues with multiplicity: power sums against traces of powers
    if an > 0.0 {
        let s = a.scaled(1.0 / an);
        let mut p = s.clone();
        let lam: Vec<(f64, f64)> = re.iter().zip(&im).map(|(x, y)| (x / an, y / an)).collect();
        let mut lp = lam.clone();
        let mut w: f64 = 0.0;
        for k in 1..=n.min(8) {
            let tr: f64 = (0..n).map(|i| p.at(i, i)).sum();
            let sr: f64 = lp.iter().map(|x| x.0).sum();
            let x = (tr - sr).abs() / (n as f64 * k as f64 * T::U);
            w = if x.is_nan() { f64::INFINITY } else { w.max(x) };
            if k < n {
                p = p.mul(&s);
                lp = lp.iter().zip(&lam).map(|(a, b)| (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)).collect();
            }
        }
        ratio(ctx, "eigen power sums / (n k eps)", w, K_EIG, || format!("A = {:?} re {:?} im {:?}", a, re, im))?;
    }
    Ok(EigParts { v, d, re, im })
}

// ---------------------------------------------------------------- reference elimination (independent of the library)
/// Gaussian elimination with partial pivoting on plain f64: determinant, inverse (if regular) and the
/// componentwise error unit P'|L||U|.
pub struct RefLu {
    pub det: f64,
    pub inv: Option<M<f64>>,
    pub unit: M<f64>,
    pub pivots: Vec<f64>,
}
pub fn ref_lu(a: &M<f64>) -> RefLu {
    let n = a.r;
    let mut w = a.clone();
    let mut l = M::from_fn(n, n, |_, _| 0.0);
    let mut piv: Vec<usize> = (0..n).collect();
    let mut det = 1.0;
    let mut reg = true;
    let mut pivots = vec![];
    for k in 0..n {
        let mut p = k;
        for i in k + 1..n {
            if w.at(i, k).abs() > w.at(p, k).abs() {
                p = i;
            }
        }
        if p != k {
            for j in 0..n {
                w.d.swap(k * n + j, p * n + j);
                l.d.swap(k * n + j, p * n + j);
            }
            piv.swap(k, p);
            det = -det;
        }
        l.set(k, k, 1.0);
        let d = w.at(k, k);
        det *= d;
        pivots.push(d);
        if d == 0.0 {
            reg = false;
            continue;
        }
        for i in k + 1..n {
            let f = w.at(i, k) / d;
            l.set(i, k, f);
            w.set(i, k, 0.0);
            for j in k + 1..n {
                let x = w.at(i, j) - f * w.at(k, j);
                w.set(i, j, x);
            }
        }
    }
    let lu = l.abs().mul(&w.abs());
    let mut unit = lu.clone();
    for i in 0..n {
        for j in 0..n {
            unit.set(piv[i], j, lu.at(i, j));
        }
    }
    let inv = if reg {
        let mut x = M::from_fn(n, n, |i, j| (piv[i] == j) as u8 as f64);
        for c in 0..n {
            for i in 0..n {
                let mut s = x.at(i, c);
                for k in 0..i {
                    s -= l.at(i, k) * x.at(k, c);
                }
                x.set(i, c, s);
            }
            for i in (0..n).rev() {
                let mut s = x.at(i, c);
                for k in i + 1..n {
                    s -= w.at(i, k) * x.at(k, c);
                }
                x.set(i, c, s / w.at(i, i));
            }
        }
        Some(x)
    } else {
        None
    };
    RefLu { det, inv, unit, pivots }
}
impl RefLu {
    /// first-order perturbation unit of the determinant (without the factor n*eps); None when the matrix is
    /// too close to singular for it to mean anything
    pub fn det_unit(&self, a: &M<f64>, eps: f64) -> Option<f64> {
        let n = a.r;
        let x = self.inv.as_ref()?;
        let mut s = 0.0;
        for i in 0..n {
            for j in 0..n {
                s += x.at(j, i).abs() * self.unit.at(i, j);
            }
        }
        if !(s * n as f64 * eps < 1e-4) {
            return None;
        }
        Some(self.det.abs() * (1.0 + s))
    }
    /// bound of the determinant of every nearby matrix
    /// (|det(A + E)| <= product of (singular value + |E|); pivots may hide a small singular value in ratios)
    pub fn det_near(&self, a: &M<f64>, eps: f64) -> f64 {
        let n = self.pivots.len();
        let e = 1e3 * n as f64 * eps * self.unit.max_abs();
        jacobi_sv(a).iter().map(|p| p.abs() + e).product()
    }
    /// infinity-norm condition estimate
    pub fn cond(&self, a: &M<f64>) -> f64 {
        let nrm = |m: &M<f64>| (0..m.r).map(|i| (0..m.c).map(|j| m.at(i, j).abs()).sum::<f64>()).fold(0.0, f64::max);
        match &self.inv {
            Some(x) => nrm(a) * nrm(x),
            None => f64::INFINITY,
        }
    }
}

/// determinant over any field by elimination on exact numbers
pub fn q_det(a: &M<Q>) -> Q {
    let n = a.r;
    let mut w = a.clone();
    let mut det = Q::int(1);
    for k in 0..n {
        let p = match (k..n).find(|&i| w.at(i, k) != Q::int(0)) {
            Some(p) => p,
            None => return Q::int(0),
        };
        if p != k {
            for j in 0..n {
                w.d.swap(k * n + j, p * n + j);
            }
            det = -det;
        }
        let d = w.at(k, k);
        det = det * d;
        for i in k + 1..n {
            let f = w.at(i, k) / d;
            for j in k..n {
                let x = w.at(i, j) - f * w.at(k, j);
                w.set(i, j, x);
            }
        }
    }
    det
}
