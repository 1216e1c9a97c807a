//! C26: SVD::direct reproduces full-rank matrices through A'A.
#[macro_use]
extern crate mc;
use la::SVD;
use mc::engine::*;
use mc::model::M;
use mc::numfl::round;
use mc::numsp::*;
use mc::spaces::*;
use mc::valid::*;

const K: f64 = 20.0;
fn check<T: Sc>(a: &M<f64>, c: &mut Ctx) -> Res {
    let a = &round::<T>(a);
    let (m, n) = (a.r, a.c);
    let k = m.min(n);
    let dim = m.max(n) as f64;
    let js = jacobi_sv(a);
    let cond = if js[k - 1] > 0.0 { js[0] / js[k - 1] } else { f64::INFINITY };
    let u2 = dim * T::U * cond * cond;
    if !(u2 < 0.1 / K) {
        c.skip("not well-conditioned of full rank");
        return Ok(());
    }
    // the squares of the entries stay in the range
    if !(js[0].powi(2) < T::max_value().to() * 1e-6 && js[k - 1].powi(2) > T::min_positive_value().to() * 1e6 / T::U) {
        c.skip("squares leave the range");
        return Ok(());
    }
    let ra = up::<T>(a);
    let before = ra.clone();
    let svd = SVD::<T>::direct(&ra);
    ensure!(ra.get_data() == before.get_data() && ra.rows() == m && ra.cols() == n, "direct changed its input");
    c.call(4);
    c.trace();
    let (u, s, v) = (down(svd.get_u()), down(svd.get_s()), down(svd.get_v()));
    shape(&u, m, m, "U")?;
    shape(&s, m, n, "S")?;
    shape(&v, n, n, "V")?;
    finite(&u, "U")?;
    finite(&s, "S")?;
    finite(&v, "V")?;
    for i in 0..m {
        for j in 0..n {
            ensure!(i == j || s.at(i, j) == 0.0, "A = {:?}: S has a non-zero off-diagonal: {:?}", a, s);
        }
    }
    let sv: Vec<f64> = (0..k).map(|i| s.at(i, i)).collect();
    for i in 0..k {
        ensure!(sv[i] >= 0.0, "A = {:?}: negative singular value {:?}", a, sv);
        ensure!(i == 0 || sv[i - 1] >= sv[i], "A = {:?}: singular values not ordered: {:?}", a, sv);
        ratio(c, "singular value error / (dim eps cond |A|)", (sv[i] - js[i]).abs() / (dim * T::U * cond * js[0]), K, || format!("A = {:?}: {:?}, reference {:?}", a, sv, js))?;
    }
    // the square factor is orthogonal, the other one's leading columns are orthonormal
    let (full, eco, fname, ename) = if m >= n { (&v, &u, "V", "U") } else { (&u, &v, "U", "V") };
    orthogonal::<T>(c, "orthogonality of the square factor / (dim eps)", full, K).map_err(|e| format!("{} not orthogonal for A = {:?}: {}", fname, a, e))?;
    let cols: Vec<usize> = (0..k).collect();
    let q = eco.cols_of(&cols);
    let e = q.t().mul(&q).sub(&M::id(k)).max_abs();
    ratio(c, "orthonormality of the economy factor / (dim eps cond^2)", e / u2, K, || format!("A = {:?}: {} = {:?}", a, ename, eco))?;
    let e = u.mul(&s).mul(&v.t()).sub(a).max_abs();
    ratio(c, "|USV'-A| / (dim eps cond^2 |A|)", e / (u2 * js[0]), K, || format!("A = {:?}: U = {:?} S = {:?} V = {:?}", a, u, sv, v))?;
    // rank needs no tolerance here
    ensure!(svd.rank() == k, "A = {:?}: rank {} of the direct decomposition, expected {}", a, svd.rank(), k);
    c.nontrivial += (k > 1) as u64;
    c.note(if m > n { "tall" } else if m < n { "wide" } else { "square" }, 1);
    c.outcome(&(m, n));
    Ok(())
}
fn main() {
    run_check(
        Spec {
            id: "C26",
            level: "model_checking",
            rule: "each case is one matrix of full rank; its direct decomposition is judged by the defining equations and against one-sided Jacobi singular values; non-trivial: at least two singular values",
            assumptions: &["dim * eps * cond^2 below 0.002 by the reference singular values; all other matrices are counted as skipped"],
        },
        |tier| {
            let mut v = vec![];
            for s in small_rect(tier) {
                v.push(on_space("f64", s, check::<f64>));
            }
            for s in thresholds(&[(1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)]) {
                v.push(on_space("f64", s, check::<f64>));
            }
            for s in perms(tier) {
                v.push(on_space("f64", s, check::<f64>));
            }
            for s in structs(tier, (16, 16), (26, 26), &large_rect(tier)).into_iter().chain([sizes(tier.pick(60, 120), |_, _| true)]) {
                v.push(on_space("f64", s, check::<f64>));
            }
            for s in variants(tier.pick(6, 9), |_, _| true) {
                v.push(on_space("f64", s, check::<f64>));
            }
            // scaled: no absolute thresholds
            let base = [alphabet(2, 2, "{0,±1,±2}", &L5), alphabet(2, 3, "{0,±1}", &L3), alphabet(3, 2, "{0,±1}", &L3), alphabet(3, 3, "{0,±1}", &L3), alphabet(1, 3, "{0,±1,±2}", &L5)];
            for b in &base {
                for (name, x) in [("2^-300", 2f64.powi(-300)), ("2^-60", 2f64.powi(-60)), ("1e-5", 1e-5), ("2^200", 2f64.powi(200))] {
                    v.push(on_space("f64", mapped(b, &format!("times {}", name), move |m| m.scaled(x)), check::<f64>));
                }
                v.push(on_space("f64", mapped(b, "rows scaled 1, 30, 1/40", |m| M::from_fn(m.r, m.c, |i, j| m.at(i, j) * [1.0, 30.0, 1.0 / 40.0][i])), check::<f64>));
                v.push(on_space("f64", mapped(b, "columns scaled 1, 1/50, 20", |m| M::from_fn(m.r, m.c, |i, j| m.at(i, j) * [1.0, 0.02, 20.0][j])), check::<f64>));
            }
            // single precision
            for s in [alphabet(1, 1, "{0,±1,±2,3,1/2}", &L7), alphabet(2, 2, "{0,±1,±2,3,1/2}", &L7), alphabet(2, 3, "{0,±1}", &L3), alphabet(3, 2, "{0,±1}", &L3), alphabet(3, 3, "{0,±1}", &L3), alphabet(4, 2, "{0,±1}", &L3), alphabet(4, 4, "{0,1}", &L2)] {
                v.push(on_space("f32", s, check::<f32>));
            }
            for s in structs(tier, (9, 9), (16, 16), &[]) {
                v.push(on_space("f32", s, check::<f32>));
            }
            if tier.thorough() {
                v.push(on_space("f64", alphabet(4, 4, "{0,±1}", &L3), check::<f64>));
                v.push(on_space("f64", alphabet(4, 3, "{0,1,-2}", &[0.0, 1.0, -2.0]), check::<f64>));
                v.push(on_space("f64", alphabet(3, 5, "{0,1,-1}", &L3), check::<f64>));
                v.push(on_space("f64", alphabet(5, 3, "{0,1,-1}", &L3), check::<f64>));
                v.push(on_space("f64", alphabet(3, 3, "{0,±1,±2,3,1/2}", &L7), check::<f64>));
                v.push(on_space("f32", alphabet(3, 3, "{0,±1,±2}", &L5), check::<f32>));
            }
            v
        },
    )
}
