//! C24: results scale exactly with the input by powers of two: no absolute threshold anywhere.
#[macro_use]
extern crate mc;
use la::*;
use mc::engine::*;
use mc::model::M;
use mc::numsp::*;
use mc::spaces::*;
use mc::valid::*;

const K: f64 = 60.0;
fn pow2(k: i32) -> f64 {
    2f64.powi(k)
}
fn close(c: &mut Ctx, name: &'static str, x: f64, y: f64, unit: f64, a: &M<f64>, k: i32) -> Res {
    let e = (x - y).abs() / (unit + 1e-300);
    let e = if e.is_nan() { f64::INFINITY } else { e };
    ratio(c, name, e, K, || format!("factor 2^{}: {:e} instead of {:e} for A = {:?}", k, x, y, a))
}
/// scalar functions of a matrix that scale by factor^p, p the returned power
fn scalars<T: Sc>(m: &Matrix<T>) -> Vec<(&'static str, f64, i32)> {
    let mut v = vec![("trace", m.trace().to(), 1), ("frobenius_norm", m.frobenius_norm().to(), 1)];
    let c = m.get_column(0);
    v.push(("vector_1_norm", c.vector_1_norm().to(), 1));
    v.push(("vector_2_norm", c.vector_2_norm().to(), 1));
    v.push(("vector_euclidean_norm", c.vector_euclidean_norm().to(), 1));
    v.push(("length", c.length().to(), 1));
    v.push(("vector_inf_norm", c.vector_inf_norm().to(), 1));
    v
}
struct Base<T: Sc> {
    sc: Vec<(&'static str, f64, i32)>,
    p3: f64,
    lu: M<f64>,
    uu: M<f64>,
    piv: Vec<usize>,
    r: M<f64>,
    full: bool,
    sv: Vec<f64>,
    rank: usize,
    clear_rank: bool,
    cond: f64,
    det: Option<f64>,
    sing: Option<bool>,
    inv: Option<Option<M<f64>>>,
    eig: Option<(Vec<f64>, Vec<f64>, f64)>, // re, im, condition of the vectors
    sym: bool,
    chol: Option<Option<M<f64>>>,
    _t: std::marker::PhantomData<T>,
}
fn base<T: Sc>(a: &M<f64>, c: &mut Ctx) -> Result<Base<T>, String> {
    let m = up::<T>(a);
    let (_, l) = lu_valid::<T>(c, a)?;
    let (qr, q) = qr_valid::<T>(c, a)?;
    let (svd, s) = svd_valid::<T>(c, a)?;
    let rank = svd.rank();
    let tol = a.r.max(a.c) as f64 * s.s[0] * T::U;
    let clear_rank = s.s.iter().all(|x| *x == 0.0 || *x > 16.0 * tol || *x < tol / 16.0);
    let cond = s.s[0] / s.s[s.s.len() - 1].max(1e-300);
    let sq = a.r == a.c;
    let sym = sq && (0..a.r).all(|i| (0..i).all(|j| a.at(i, j) == a.at(j, i)));
    let eig = if sq {
        let e = eig_valid::<T>(c, a)?;
        let v = jacobi_sv(&e.v);
        Some((e.re, e.im, v[0] / v[v.len() - 1].max(1e-300)))
    } else {
        None
    };
    Ok(Base {
        sc: scalars(&m),
        p3: m.get_column(0).vector_p_norm(T::of(3.0)).to(),
        lu: l.l,
        uu: l.u,
        piv: l.piv,
        r: q.r,
        full: if a.r >= a.c { qr.is_full_rank() } else { false },
        sv: s.s,
        rank,
        clear_rank,
        cond,
        det: if sq { Some(m.det().to()) } else { None },
        sing: if sq { Some(m.is_singular()) } else { None },
        inv: if sq { Some(m.inverse().map(|x| down(&x))) } else { None },
        eig,
        sym,
        chol: if sq { Some(CholeskyDecomposition::new(&m).map(|x| down(x.get_l()))) } else { None },
        _t: std::marker::PhantomData,
    })
}
/// match two lists of complex numbers; largest distance of the greedy matching
fn spread(a: (&[f64], &[f64]), b: (&[f64], &[f64])) -> f64 {
    let mut free: Vec<usize> = (0..b.0.len()).collect();
    let mut w: f64 = 0.0;
    for i in 0..a.0.len() {
        let (p, d) = free
            .iter()
            .enumerate()
            .map(|(p, &j)| (p, (a.0[i] - b.0[j]).hypot(a.1[i] - b.1[j])))
            .min_by(|x, y| x.1.partial_cmp(&y.1).unwrap())
            .unwrap();
        free.remove(p);
        w = w.max(d);
    }
    w
}
fn scaled<T: Sc>(a: &M<f64>, b: &Base<T>, k: i32, c: &mut Ctx) -> Res {
    let f = pow2(k);
    let g = 1.0 / f;
    let s = a.scaled(f);
    let m = up::<T>(&s);
    let an = a.fro();
    let u = T::U * a.r.max(a.c) as f64;
    let maxexp = if T::U > 1e-10 { 120.0 } else { 1000.0 };
    // exact up to rounding: trace, norms
    for (x, y) in scalars(&m).iter().zip(&b.sc) {
        close(c, "scalar functions / (n eps |A|)", x.1 * g, y.1, u * an, a, k)?;
    }
    if (k.abs() + 40) as f64 * 3.0 < maxexp {
        let p = m.get_column(0).vector_p_norm(T::of(3.0)).to();
        close(c, "vector_p_norm / (n eps |A| |k|)", p * g, b.p3, u * an * (k.abs() + 1) as f64, a, k)?;
    }
    // LU: same pivots, same L, scaled U
    let (lu, l) = lu_valid::<T>(c, &s)?;
    // (rounding noise of rank deficient matrices may fall out of the range, level by level)
    let least = b.uu.d.iter().chain(&b.lu.d).filter(|x| **x != 0.0).fold(1.0f64, |m, x| m.min(x.abs()));
    let in_range = least.log2() * 2.0 - 2.0 * (k.abs() as f64) > -maxexp;
    if !in_range {
        c.note("LU with noise out of range, not compared", 1);
    }
    ensure!(!in_range || l.piv == b.piv, "factor 2^{}: pivots {:?} instead of {:?} for A = {:?}", k, l.piv, b.piv, a);
    ensure!(!in_range || l.l == b.lu, "factor 2^{}: L = {:?} instead of {:?} for A = {:?}", k, l.l, b.lu, a);
    ensure!(!in_range || l.u.scaled(g) == b.uu, "factor 2^{}: U = {:?} instead of {:?} (times the factor) for A = {:?}", k, l.u, b.uu, a);
    // QR
    let (qr, q) = qr_valid::<T>(c, &s)?;
    if a.r >= a.c {
        let zero_col = (0..a.c).any(|j| (0..a.r).all(|i| a.at(i, j) == 0.0));
        ensure!((b.cond > 1e-3 / T::U && !zero_col) || qr.is_full_rank() == b.full, "factor 2^{}: is_full_rank is {} instead of {} for A = {:?}", k, !b.full, b.full, a);
        if b.cond < 1e-3 / T::U {
            for (x, y) in q.r.d.iter().zip(&b.r.d) {
                close(c, "R / (n eps |A| cond)", x * g, *y, u * an * b.cond, a, k)?;
            }
        }
    }
    // SVD
    let (svd, p) = svd_valid::<T>(c, &s)?;
    for (x, y) in p.s.iter().zip(&b.sv) {
        close(c, "singular values / (n eps |A|)", x * g, *y, u * an, a, k)?;
    }
    if b.clear_rank {
        ensure!(svd.rank() == b.rank, "factor 2^{}: rank {} instead of {} for A = {:?}", k, svd.rank(), b.rank, a);
    } else {
        c.note("rank near the tolerance, not compared", 1);
    }
    c.call(10);
    if a.r != a.c {
        return Ok(());
    }
    let n = a.r as i32;
    ensure!(!in_range || m.is_singular() == b.sing.unwrap() && m.is_non_singular() != b.sing.unwrap() && lu.is_singular() == b.sing.unwrap(), "factor 2^{}: is_singular is no longer {} for A = {:?}", k, b.sing.unwrap(), a);
    // determinant, when every partial product stays in range
    let lg = |k: f64| (0..a.r).map(|i| (b.uu.at(i, i).abs().log2() + k).abs()).filter(|x| x.is_finite()).sum::<f64>();
    if lg(0.0).max(lg(k as f64)) < maxexp {
        let d = m.det().to();
        let d0 = b.det.unwrap();
        let want = if d0 == 0.0 { 0.0 } else { d0 * 2f64.powi(k * n / 2) * 2f64.powi(k * n - k * n / 2) };
        close(c, "det / (n eps |det|)", d, want, u * want.abs(), a, k)?;
        c.note("determinants compared", 1);
    }
    match (&b.inv, m.inverse()) {
        (Some(None), None) => {}
        (Some(Some(x)), Some(y)) => {
            if b.cond < 1e-3 / T::U {
                let e = down(&y).scaled(f).sub(x).fro();
                let unit = u * x.fro() * b.cond;
                ratio(c, "inverse / (n eps |inv| cond)", e / (unit + 1e-300), K, || format!("factor 2^{}: A = {:?}", k, a))?;
            }
        }
        _ if !in_range => {}
        _ => return Err(format!("factor 2^{}: inverse exists for one of A and its multiple, A = {:?}", k, a)),
    }
    // eigenvalues
    let e = eig_valid::<T>(c, &s)?;
    let (re, im, cv) = b.eig.as_ref().unwrap();
    let (r2, i2): (Vec<f64>, Vec<f64>) = (e.re.iter().map(|x| x * g).collect(), e.im.iter().map(|x| x * g).collect());
    if b.sym {
        for (x, y) in r2.iter().zip(re) {
            close(c, "symmetric eigenvalues / (n eps |A|)", *x, *y, u * an, a, k)?;
        }
    } else if *cv < 1e-4 / T::U {
        let w = spread((&r2, &i2), (re, im));
        ratio(c, "eigenvalues / (n eps |A| cond(V))", w / (u * an * cv + 1e-300), K, || format!("factor 2^{}: ({:?}, {:?}) instead of ({:?}, {:?}) for A = {:?}", k, r2, i2, re, im, a))?;
        c.note("general spectra compared", 1);
    }
    // Cholesky
    let ch = CholeskyDecomposition::new(&m).map(|x| down(x.get_l()));
    match (&ch, b.chol.as_ref().unwrap()) {
        (None, None) => {}
        (Some(x), Some(y)) => {
            c.note("cholesky factors compared", 1);
            if k % 2 == 0 {
                let e = x.scaled(pow2(-k / 2)).sub(y).max_abs();
                ratio(c, "cholesky / (n eps |L| cond)", e / (u * y.fro() * b.cond.min(1e12)), K, || format!("factor 2^{}: A = {:?}", k, a))?;
            }
        }
        // the square roots of an odd power of two round, which decides numerically semidefinite matrices
        _ if k % 2 != 0 && b.cond > 1e-3 / T::U => c.note("semidefinite matrices at odd powers, not compared", 1),
        _ => return Err(format!("factor 2^{}: Cholesky exists for one of A and its multiple, A = {:?}", k, a)),
    }
    c.call(8);
    Ok(())
}
/// what involves no squares scales over the whole range of the format
fn wide<T: Sc>(a: &M<f64>, b: &Base<T>, k: i32, c: &mut Ctx) -> Res {
    let maxexp = if T::U > 1e-10 { 120.0 } else { 1010.0 };
    let entries = a.d.iter().chain(&b.uu.d).chain(&b.lu.d).filter(|x| **x != 0.0).map(|x| x.abs().log2());
    let (lo, hi) = entries.fold((0.0f64, 0.0f64), |m, x| (m.0.min(x), m.1.max(x)));
    // (every product in the elimination is between the smallest entry times the smallest multiplier and twice the largest)
    if 2.0 * lo + (k as f64) + T::U.log2() < -maxexp || hi + (k as f64) + (a.r as f64).log2() + 1.0 > maxexp {
        c.note("entries out of range at a far factor, not compared", 1);
        return Ok(());
    }
    let s = a.scaled(pow2(k / 2)).scaled(pow2(k - k / 2));
    let back = |m: M<f64>| m.scaled(pow2(-k / 2)).scaled(pow2(-(k - k / 2)));
    let m = up::<T>(&s);
    let lu = LUDecomposition::new(&m);
    let piv: Vec<usize> = lu.get_piv().to_vec();
    ensure!(piv == b.piv, "factor 2^{}: pivots {:?} instead of {:?} for A = {:?}", k, piv, b.piv, a);
    let l = down(&lu.get_l());
    ensure!(l == b.lu, "factor 2^{}: L = {:?} instead of {:?} for A = {:?}", k, l, b.lu, a);
    let u = back(down(&lu.get_u()));
    ensure!(u == b.uu, "factor 2^{}: U = {:?} instead of {:?} (times the factor) for A = {:?}", k, u, b.uu, a);
    let unit = T::U * a.r.max(a.c) as f64 * a.d.iter().map(|x| x.abs()).sum::<f64>();
    let one = |x: f64| x * pow2(-k / 2) * pow2(-(k - k / 2));
    let (v, w) = (m.get_column(0), up::<T>(a).get_column(0));
    close(c, "trace at far factors / (n eps sum|a|)", one(m.trace().to()), b.sc[0].1, unit, a, k)?;
    close(c, "vector_1_norm at far factors / (n eps sum|a|)", one(v.vector_1_norm().to()), w.vector_1_norm().to(), unit, a, k)?;
    let (x, y) = (one(v.vector_inf_norm().to()), w.vector_inf_norm().to());
    ensure!(x == y, "factor 2^{}: vector_inf_norm {:e} instead of {:e} for A = {:?}", k, x, y, a);
    c.call(8);
    c.note("factors beyond the range of squares compared", 1);
    if a.r == a.c {
        let sing = b.sing.unwrap();
        ensure!(m.is_singular() == sing && m.is_non_singular() != sing && lu.is_singular() == sing, "factor 2^{}: is_singular is no longer {} for A = {:?}", k, sing, a);
        // the elimination scales exactly, and so does the substitution as long as the inverse is in range
        let id = Matrix::<T>::id(a.r, a.r);
        match (b.inv.as_ref().unwrap(), m.inverse(), lu.solve(&id), m.solve(&id)) {
            (None, None, None, None) => {}
            (Some(x), Some(y), Some(z), Some(w)) => {
                let top = x.d.iter().fold(0.0f64, |m, v| m.max(v.abs())).log2();
                if b.cond < 1e-3 / T::U && top - (k as f64) < maxexp && top - (k as f64) > 80.0 - maxexp {
                    for y in [y, z, w] {
                        let y = down(&y).scaled(pow2(k / 2)).scaled(pow2(k - k / 2));
                        ratio(c, "inverse at far factors / (n eps |inv| cond)", y.sub(x).fro() / (T::U * a.r as f64 * x.fro() * b.cond + 1e-300), K, || format!("factor 2^{}: A = {:?} inverse times the factor = {:?}", k, a, y))?;
                    }
                    c.note("inverses at far factors compared", 1);
                }
            }
            _ => return Err(format!("factor 2^{}: inverse exists for one of A and its multiple, A = {:?}", k, a)),
        }
        c.call(3);
        let ch = CholeskyDecomposition::new(&m).map(|x| down(x.get_l()));
        match (&ch, b.chol.as_ref().unwrap()) {
            (None, None) => {}
            (Some(x), Some(y)) => {
                let d = y.d.iter().filter(|x| **x != 0.0).fold(1.0f64, |m, x| m.min(x.abs())).log2();
                if k % 2 == 0 && 2.0 * d + k as f64 + T::U.log2() > -maxexp {
                    let e = x.scaled(pow2(-k / 2)).sub(y).max_abs();
                    ratio(c, "cholesky at far factors / (n eps |L| cond)", e / (T::U * a.r as f64 * y.fro() * b.cond.min(1e12)), K, || format!("factor 2^{}: A = {:?}", k, a))?;
                }
            }
            _ if b.cond > 1e-3 / T::U => c.note("semidefinite matrices at far powers, not compared", 1),
            _ => return Err(format!("factor 2^{}: Cholesky exists for one of A and its multiple, A = {:?}", k, a)),
        }
        c.call(4);
    }
    Ok(())
}
fn judge<T: Sc>(a: &M<f64>, ks: &[i32], c: &mut Ctx) -> Res {
    let a = &down(&up::<T>(a));
    let b = base::<T>(a, c)?;
    for &k in ks {
        scaled(a, &b, k, c)?;
        c.trace();
        c.nontrivial += (a.max_abs() > 0.0) as u64;
    }
    let far: &[i32] = if T::U > 1e-10 { &[-90, -70, -64, -50, 50, 65, 90, 110] } else { &[-950, -810, -700, -620, -537, -520, -511, -460, 460, 512, 530, 640, 790, 1000] };
    for &k in far {
        wide(a, &b, k, c)?;
    }
    c.outcome(&(b.rank, b.sing, b.chol.as_ref().map(|x| x.is_some()), a.r, a.c));
    Ok(())
}
fn moderate(s: Space, lo: f64, hi: f64) -> Space {
    // matrices with an entry outside the range are replaced by the zero matrix of their shape
    mapped(&s, "within the range:", move |m| if m.d.iter().all(|x| *x == 0.0 || (x.abs() >= lo && x.abs() <= hi)) { m } else { m.map(|_| 0.0) })
}
fn main() {
    run_check(
        Spec {
            id: "C24",
            level: "model_checking",
            rule: "each case compares every result for one matrix with the results for its multiples by powers of two; non-trivial: the matrix is not zero",
            assumptions: &["factors 2^-400..2^400 (f64) and 2^-20..2^20 (f32) on entries of moderate size, for LU, inverse, solve, Cholesky, trace, 1- and infinity norms, which square nothing, 2^-950..2^1000 (2^-90..2^110); determinants only where every partial product stays in range", "comparisons of R, inverses and general spectra use a tolerance proportional to the condition and are left out where it exceeds 1e-3/eps (1e-4/eps); the factorizations are checked there all the same"],
        },
        |tier| {
            let ks: &'static [i32] = tier.pick(&[-400, -200, -53, -20, -7, 1, 13, 27, 60, 150, 400], &[-400, -399, -301, -200, -107, -100, -60, -53, -52, -33, -27, -20, -7, -2, -1, 1, 2, 3, 13, 20, 26, 27, 34, 52, 53, 60, 100, 107, 150, 200, 301, 399, 400]);
            let k32: &'static [i32] = tier.pick(&[-20, -12, -3, 1, 7, 20], &[-20, -17, -12, -10, -7, -3, -1, 1, 2, 5, 10, 12, 20]);
            let mut v = vec![];
            let mut sp = vec![];
            for &(r, c) in &[(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)] {
                sp.push(alphabet(r, c, "{0,±1,±2,3,1/2}", &L7));
            }
            sp.push(alphabet(2, 3, "{0,±1}", &L3));
            sp.push(alphabet(3, 2, "{0,±1}", &L3));
            sp.push(alphabet(3, 3, "{0,±1}", &L3));
            sp.push(alphabet(3, 3, "{0,±1,2}", &[0.0, 1.0, -1.0, 2.0]));
            sp.push(sym_alphabet(3, "{0,±1,±2}", &L5));
            {
                sp.push(alphabet(2, 3, "{0,±1,±2}", &L5));
                sp.push(alphabet(3, 2, "{0,±1,±2}", &L5));
                sp.push(alphabet(4, 4, "{0,1}", &L2));
                sp.push(sym_alphabet(4, "{0,±1}", &L3));
                sp.extend(perms(tier));
            }
            sp.push(sym_alphabet(5, "{0,1}", &L2));
            sp.push(alphabet(4, 4, "{±1}", &LS));
            if tier.thorough() {
                sp.push(alphabet(3, 3, "{0,±1,±2}", &L5));
                sp.push(alphabet(3, 4, "{0,±1}", &L3));
                sp.push(alphabet(4, 3, "{0,±1}", &L3));
            }
            let th = thresholds(tier.pick(&[(1, 2), (2, 1), (2, 2), (2, 3), (3, 2)], &[(1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 5), (5, 1), (1, 6), (6, 1)]));
            for s in sp.into_iter().chain(th) {
                v.push(on_space("f64", s, move |a, c| judge::<f64>(a, ks, c)));
            }
            for s in structs(tier, (12, 12), (22, 20), tier.pick(&[(12, 12), (17, 16)][..], &[(17, 16), (20, 20), (16, 20), (24, 23), (20, 9)][..])) {
                // (the squares of the squares of the entries have to stay in range as well)
                v.push(on_space("f64", moderate(s, 1e-30, 1e20), move |a, c| judge::<f64>(a, ks, c)));
            }
            for s in variants(tier.pick(4, 7), |_, _| true) {
                v.push(on_space("f64", moderate(s, 1e-30, 1e20), move |a, c| judge::<f64>(a, ks, c)));
            }
            for s in [alphabet(2, 2, "{0,±1,±2,3,1/2}", &L7), alphabet(3, 3, "{0,±1}", &L3), alphabet(2, 3, "{0,±1}", &L3), alphabet(3, 2, "{0,±1}", &L3), sym_alphabet(3, "{0,±1,±2}", &L5)] {
                v.push(on_space("f32", s, move |a, c| judge::<f32>(a, k32, c)));
            }
            for s in structs(tier, (9, 9), (13, 13), &[]) {
                v.push(on_space("f32", moderate(s, 1e-4, 1e4), move |a, c| judge::<f32>(a, k32, c)));
            }
            v
        },
    )
}
