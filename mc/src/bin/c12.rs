//! C12: QR solve, full-rank test and pseudo-inverse are the least-squares ones.
#[macro_use]
extern crate mc;
use la::{Matrix, QRDecomposition};
use mc::engine::*;
use mc::model::M;
use mc::numsp::*;
use mc::spaces::*;
use mc::valid::*;

const K: f64 = 25.0;
fn rhs(m: usize) -> Vec<M<f64>> {
    vec![
        M::from_fn(m, 1, |i, _| (i + 1) as f64),
        M::from_fn(m, 1, |i, _| if i + 1 == m { 1.0 } else { 0.0 }),
        M::from_fn(m, 2, |i, j| if j == 0 { 0.0 } else { 2.0 - i as f64 }),
        M::from_fn(m, if m > 150 { 5 } else { m + 2 }, |i, j| ((i * 3 + j * 5) % 7) as f64 - 3.0),
        // consistent systems are covered by B = A (see below)
    ]
}
/// singular values of the matrix with its columns scaled to unit length
fn independence(a: &M<f64>) -> f64 {
    let mut b = a.clone();
    for j in 0..a.c {
        let s = (0..a.r).fold(0.0f64, |s, i| s.hypot(a.at(i, j)));
        if s == 0.0 {
            return 0.0;
        }
        for i in 0..a.r {
            b.set(i, j, a.at(i, j) / s);
        }
    }
    let sv = jacobi_sv(&b);
    sv[sv.len() - 1] / sv[0]
}
fn float(a: &M<f64>, c: &mut Ctx) -> Res {
    float_rhs(a, rhs(a.r), c)
}
fn float_rhs(a: &M<f64>, mut bs: Vec<M<f64>>, c: &mut Ctx) -> Res {
    let (m, n) = (a.r, a.c);
    if m < n {
        return Ok(());
    }
    let ra = up::<f64>(a);
    let before = ra.clone();
    let qr = QRDecomposition::new(&ra);
    let full = qr.is_full_rank();
    let r = down(&qr.get_r());
    let ind = independence(a);
    let zerocol = (0..n).any(|j| (0..m).all(|i| a.at(i, j) == 0.0));
    // upper trapezoidal input: the reflections are exact, so is the zero on the diagonal
    let ut = (0..m).all(|i| (0..n.min(i)).all(|j| a.at(i, j) == 0.0)) && (0..n).any(|i| a.at(i, i) == 0.0);
    c.call(3);
    if zerocol || ut || (0..n).any(|i| r.at(i, i) == 0.0) {
        ensure!(!full, "A = {:?}: is_full_rank although a column is zero or R has a zero on its diagonal (R = {:?})", a, r);
        c.note("rank deficient by a zero column or zero on the diagonal of R", 1);
    }
    if ind > 1e-7 {
        ensure!(full, "A = {:?}: not full rank, but the columns are independent (smallest singular value ratio {:e})", a, ind);
    }
    let an = a.fro();
    if m <= 150 {
        bs.push(a.scaled(-3.0));
    }
    bs.push(a.clone());
    // the decomposed object itself is the last right-hand side
    for b in bs.iter().chain([a]) {
        let rb = if std::ptr::eq(a, b) { ra.clone() } else { up::<f64>(b) };
        match qr.solve(if std::ptr::eq(a, b) { &ra } else { &rb }) {
            None => ensure!(!full, "A = {:?}: solve gives None although is_full_rank", a),
            Some(x) => {
                ensure!(full, "A = {:?}: solve gives a solution although not is_full_rank", a);
                let x = down(&x);
                shape(&x, n, b.c, "X")?;
                if x.d.iter().any(|v| !v.is_finite() || v.abs() > 1e150) {
                    ensure!(!(ind > 1e-7), "A = {:?} B = {:?}: X = {:?}", a, b, x);
                    c.skip("solution outside the range");
                    continue;
                }
                // the normal equations characterise the minimiser
                let res = b.sub(&a.mul(&x));
                let g = a.t().mul(&res);
                let mut w: f64 = 0.0;
                for j in 0..b.c {
                    let nr = |q: &M<f64>| (0..q.r).fold(0.0f64, |s, i| s.hypot(q.at(i, j)));
                    let unit = m as f64 * f64::EPSILON * an * (nr(b) + an * nr(&x));
                    let y = nr(&g) / (unit + 1e-290);
                    w = if y.is_nan() { f64::INFINITY } else { w.max(y) };
                }
                ratio(c, "|A'(AX-B)| / (m eps |A|(|A||X|+|B|))", w, K, || format!("A = {:?} B = {:?} X = {:?}", a, b, x))?;
            }
        }
        ensure!(down(&rb) == *b, "the right-hand side changed");
        c.call(1);
    }
    // pseudo-inverse of well-conditioned full-rank matrices
    let sv = jacobi_sv(a);
    let cond = if sv[n - 1] > 0.0 { sv[0] / sv[n - 1] } else { f64::INFINITY };
    if cond < 1e4 {
        let x = down(&ra.pinverse());
        c.call(1);
        shape(&x, n, m, "pinverse")?;
        let u = (m as f64) * f64::EPSILON * cond.powi(3);
        let e = x.mul(a).sub(&M::id(n)).max_abs();
        ratio(c, "|A+ A - I| / (m eps cond^3)", e / u, K, || format!("A = {:?} A+ = {:?}", a, x))?;
        let ax = a.mul(&x);
        let e = ax.sub(&ax.t()).max_abs();
        ratio(c, "|A A+ - (A A+)'| / (m eps cond^3)", e / u, K, || format!("A = {:?} A+ = {:?}", a, x))?;
        let e = x.mul(a).mul(&x).sub(&x).max_abs() / x.max_abs();
        ratio(c, "|A+ A A+ - A+| / (m eps cond^3 |A+|)", e / u, K, || format!("A = {:?} A+ = {:?}", a, x))?;
        c.note("pseudo-inverses", 1);
        c.nontrivial += 1;
    }
    ensure!(ra.get_data() == before.get_data() && ra.rows() == m, "the argument changed");
    c.trace();
    c.outcome(&(m, n, full, zerocol));
    Ok(())
}

fn main() {
    run_check(
        Spec {
            id: "C12",
            level: "model_checking",
            rule: "each case is one matrix with six right-hand sides; the normal equations characterise the least-squares solution, the Moore-Penrose equations the pseudo-inverse",
            assumptions: &["full rank is judged only when the column-scaled singular value ratio exceeds 1e-7 or a zero column / exact zero pivot is present"],
        },
        |tier| {
            let mut v = vec![];
            for s in small_rect(tier) {
                let m = (s.get)(0);
                if m.r >= m.c && (tier.thorough() || s.total < 600_000) {
                    v.push(on_space("", s, float));
                }
            }
            if !tier.thorough() {
                v.push(on_space("", alphabet(3, 3, "{0,±1,2}", &[0.0, 1.0, -1.0, 2.0]), float));
            }
            v.push(on_space("", alphabet(6, 2, "{0,-1}", &[0.0, -1.0]), float));
            for s in thresholds(&[(1, 1), (2, 1), (2, 2), (3, 2), (3, 3)]) {
                v.push(on_space("", s, float));
            }
            for s in perms(tier) {
                v.push(on_space("", s, float));
            }
            let b = tier.pick(14usize, 26);
            let sh: Vec<(usize, usize)> = shapes_upto(b, b).into_iter().filter(|s| s.0 >= s.1).collect();
            v.push(on_space("", structured_space(&format!("structured tall and square up to {}", b), &sh), float));
            v.push(on_space("", structured_space("structured large", &large_rect_few(tier).into_iter().filter(|s| s.0 >= s.1).collect::<Vec<_>>()), float));
            for s in variants(tier.pick(7, 11), |r, c| r >= c) {
                v.push(on_space("", s, float));
            }
            let ws: Vec<(usize, usize)> = widths(tier).into_iter().filter(|w| w.1 < 10_000).collect();
            let w2 = ws.clone();
            v.push(family("every number of right-hand sides", ws.len() as u64 * 3, "m up to 33 (thorough: 65), 1..40 columns (thorough: 140) and up to 5000; square, tall, and of deficient rank", move |i| format!("{:?} kind {}", w2[i as usize / 3], i % 3), move |i, c| {
                let (m, w) = ws[i as usize / 3];
                let a = M::from_fn(m, if i % 3 == 0 { m } else { (m + 1) / 2 }, |r, k| match i % 3 {
                    2 if k == 0 => 0.0,
                    _ => (((r * 7919 + k * 104729 + r * k * 31 + 17) % 1009) as f64 - 504.0) / 64.0,
                });
                c.state(&(m, w, i % 3));
                float_rhs(&a, vec![wide_rhs(m, w)], c)
            }));
            v.push(on_space("", sizes(tier.pick(72, 140), |r, c| r >= c), float));
            v.push(on_space("", huge(&tier.pick(vec![(140, 140), (270, 200), (515, 40), (1030, 8)], vec![(300, 300), (520, 300), (515, 130), (1030, 40), (2100, 4)]), &HUGE_KINDS), float));
            for (n, s) in [("2^-100", 2f64.powi(-100)), ("2^100", 2f64.powi(100)), ("1e-9", 1e-9)] {
                let sh: Vec<(usize, usize)> = shapes_upto(7, 7).into_iter().filter(|s| s.0 >= s.1).collect();
                v.push(on_space("", mapped(&structured_space("structured up to 7x7", &sh), &format!("times {}", n), move |m| m.scaled(s)), float));
            }
            // columns zero at each position of tall matrices; exact rank loss at each position
            v.push(family("rank loss at each position", 16 * 16 * 16 * 3, "m <= 16, n <= m, column k zero / upper triangular with R(k,k) = 0 / diagonal with a zero", |i| format!("m = {} n = {} k = {} kind {}", i % 16 + 1, i / 16 % 16 + 1, i / 256 % 16, i / 4096), |i, c| {
                let (m, n, k, kind) = ((i % 16 + 1) as usize, (i / 16 % 16 + 1) as usize, (i / 256 % 16) as usize, i / 4096);
                if n > m || k >= n {
                    c.skip("position outside the matrix");
                    return Ok(());
                }
                c.state(&(m, n, k, kind));
                let a = M::from_fn(m, n, |i, j| match kind {
                    0 => if j == k { 0.0 } else { ((i * 5 + j * 3) % 7) as f64 - 2.5 + (i == j) as u8 as f64 * 9.0 },
                    1 => if i == j && i == k { 0.0 } else if i <= j { 1.0 + ((i + 2 * j) % 3) as f64 } else { 0.0 },
                    _ => if i == j && i != k { (i + 1) as f64 } else { 0.0 },
                });
                float(&a, c)?;
                let qr = QRDecomposition::new(&up::<f64>(&a));
                ensure!(!qr.is_full_rank(), "{:?} has no full rank", a);
                ensure!(qr.solve(&up::<f64>(&M::from_fn(m, 1, |i, _| i as f64))).is_none(), "{:?}: a solution without full rank", a);
                Ok(())
            }));
            v.push(family("wrong right-hand sides are refused", 10 * 10 * 14 * 2, "m <= 10, n <= m, 1..14 rows, full and deficient rank", |i| format!("m = {} n = {} rows = {} kind {}", i % 10 + 1, i / 10 % 10 + 1, i / 100 % 14 + 1, i / 1400), |i, c| {
                let (m, n, r, kind) = ((i % 10 + 1) as usize, (i / 10 % 10 + 1) as usize, (i / 100 % 14 + 1) as usize, i / 1400);
                if n > m || r == m {
                    return Ok(());
                }
                c.state(&(m, n, r, kind));
                let a = M::from_fn(m, n, |i, j| if kind == 0 { (i == j) as u8 as f64 * 3.0 + 0.5 } else { 0.0 });
                let qr = QRDecomposition::new(&up::<f64>(&a));
                let b: Matrix<f64> = M::from_fn(r, 2, |i, j| (i + j) as f64).real();
                must_reject(|| format!("QR solve of {}x{} with {} rows", m, n, r), || qr.solve(&b))?;
                M::from_fn(r, 2, |i, j| (i + j) as f64).same(&b, "B")?;
                c.call(2);
                c.trace();
                c.nontrivial += 1;
                Ok(())
            }));
            v
        },
    )
}
