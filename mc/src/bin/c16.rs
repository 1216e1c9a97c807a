//! C16: general matrices get all eigenvalues, conjugate pairs and A*V = V*D.
#[macro_use]
extern crate mc;
use la::EigenDecomposition;
use mc::engine::*;
use mc::model::M;
use mc::numsp::*;
use mc::spaces::*;
use mc::valid::*;

fn float(a: &M<f64>, c: &mut Ctx) -> Res {
    let p = eig_valid::<f64>(c, a)?;
    c.trace();
    let cplx = p.im.iter().filter(|x| **x != 0.0).count();
    c.nontrivial += (a.r > 1) as u64;
    c.note(if cplx > 0 { "with complex pairs" } else { "real spectrum" }, 1);
    c.outcome(&(a.r, cplx, p.im.iter().position(|x| *x != 0.0)));
    Ok(())
}
/// upper Hessenberg letters with a full subdiagonal pattern
fn hess(n: usize, up: &'static [f64], sub: &'static [f64]) -> Space {
    let (ku, ks) = (up.len() as u64, sub.len() as u64);
    let nu = n * (n + 1) / 2;
    Space {
        name: format!("all Hessenberg {}x{} over {}/{} letters", n, n, ku, ks),
        bound: format!("upper part {:?}, subdiagonal {:?}", up, sub),
        total: ku.pow(nu as u32) * ks.pow(n as u32 - 1),
        get: std::sync::Arc::new(move |mut i| {
            let mut m = M::from_fn(n, n, |_, _| 0.0);
            for a in 0..n {
                for b in a..n {
                    m.set(a, b, up[(i % ku) as usize]);
                    i /= ku;
                }
                if a + 1 < n {
                    m.set(a + 1, a, sub[(i % ks) as usize]);
                    i /= ks;
                }
            }
            m
        }),
    }
}
/// block diagonal similarity-transformed matrices with a prescribed spectrum of pairs and reals
fn spectrum_space(n: usize) -> Space {
    // every sequence of blocks: real r (two choices) or pair (two choices)
    let mut seqs: Vec<Vec<u8>> = vec![];
    fn rec(left: usize, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if left == 0 {
            out.push(cur.clone());
            return;
        }
        for k in 0..4u8 {
            let w = if k < 2 { 1 } else { 2 };
            if w <= left {
                cur.push(k);
                rec(left - w, cur, out);
                cur.pop();
            }
        }
    }
    rec(n, &mut vec![], &mut seqs);
    let mut v = vec![];
    for s in &seqs {
        for mode in 0..3 {
            let mut a = M::from_fn(n, n, |_, _| 0.0);
            let mut i = 0;
            for (t, k) in s.iter().enumerate() {
                match k {
                    0 => a.set(i, i, 1.0 + t as f64),
                    1 => a.set(i, i, -2.0),
                    2 => {
                        a.set(i, i, 1.0);
                        a.set(i + 1, i + 1, 1.0);
                        a.set(i, i + 1, 2.0);
                        a.set(i + 1, i, -2.0);
                    }
                    _ => {
                        a.set(i, i + 1, 1.0 + t as f64);
                        a.set(i + 1, i, -4.0);
                    }
                }
                i += if *k < 2 { 1 } else { 2 };
            }
            if mode >= 1 {
                // couple the blocks (upper block triangular)
                for i in 0..n {
                    for j in i + 2..n {
                        a.set(i, j, 1.0);
                    }
                }
            }
            if mode == 2 {
                // similarity with a unit lower bidiagonal matrix: L A L^-1
                for i in (1..n).rev() {
                    for j in 0..n {
                        let x = a.at(i, j) + a.at(i - 1, j);
                        a.set(i, j, x);
                    }
                }
                for i in 0..n {
                    // right multiply by the inverse of the same elementary sequence
                    let mut acc = 0.0;
                    for j in (0..n).rev() {
                        let x = a.at(i, j) - acc;
                        a.set(i, j, x);
                        acc = x;
                    }
                }
            }
            v.push(a);
        }
    }
    list(&format!("every block spectrum of size {}", n), "all sequences of real and complex-pair blocks, plain, coupled and hidden by a similarity", v)
}
fn main() {
    run_check(
        Spec {
            id: "C16",
            level: "model_checking",
            rule: "each case is one square matrix; pairing, block form, non-zero vectors, A*V = V*D columnwise and power sums against traces of powers are checked",
            assumptions: &["the constant 80 of the backward-error bound (times n*eps) covers every correct general eigensolver"],
        },
        |tier| {
            let mut v = vec![];
            for s in small_square(tier) {
                v.push(on_space("", s, float));
            }
            v.push(on_space("", alphabet(3, 3, "{0,±1,1/2,3}", &[0.0, 1.0, -1.0, 0.5, 3.0]), float));
            for s in thresholds(&[(1, 1), (2, 2), (3, 3)]) {
                v.push(on_space("", s, float));
            }
            if !tier.thorough() {
                // (the thorough small squares have it)
                v.push(on_space("", alphabet(4, 4, "{0,±1}", &L3), float));
            }
            v.push(on_space("", hess(4, &[0.0, 1.0], &[0.0, 1.0, -1.0]), float));
            v.push(on_space("", hess(4, &[0.0, -2.0, 1.0], &[1.0]), float));
            for s in perms(tier) {
                v.push(on_space("", s, float));
            }
            for n in 2..=tier.pick(6, 8) {
                v.push(on_space("", spectrum_space(n), float));
            }
            let b = tier.pick(20usize, 32);
            v.push(on_space("", structured_space(&format!("structured squares up to {}", b), &squares_upto(b)), float));
            v.push(on_space("", structured_space("structured large", &large_sq(tier)), float));
            for (n, s) in [("2^-100", 2f64.powi(-100)), ("2^100", 2f64.powi(100)), ("1e-9", 1e-9), ("-1e-30", -1e-30)] {
                v.push(on_space("", mapped(&structured_space("structured squares up to 12", &squares_upto(12)), &format!("times {}", n), move |m| m.scaled(s)), float));
            }
            for s in variants(tier.pick(7, 11), |r, c| r == c).into_iter().chain(near_symmetric(tier.pick(9, 14))) {
                v.push(on_space("", s, float));
            }
            v.push(on_space("", sizes(tier.pick(90, 150), |r, c| r == c), float));
            v.push(on_space("", huge(&[(260, 260)], &["dense0", "neg-first", "cyclic"]), float));
            for n in tier.pick(vec![12, 24, 44], vec![12, 24, 44, 50, 72]) {
                v.push(on_space("", far_asymmetric(n, false), float));
            }
            v.push(on_space("", far_asymmetric(tier.pick(70, 110), true), float));
            // companion matrices of every small integer polynomial
            v.push(on_space("", companion(4, &[0.0, 1.0, -1.0, 2.0, -3.0]), float));
            v.push(on_space("", companion(6, &[0.0, 1.0, -1.0, 2.0]), float));
            v.push(family("non-square matrices are refused", 12 * 12 * 3, "all non-square shapes up to 12x12, three kinds", |i| format!("{}x{} kind {}", i % 12 + 1, i / 12 % 12 + 1, i / 144), |i, c| {
                let (r, k, kind) = ((i % 12 + 1) as usize, (i / 12 % 12 + 1) as usize, i / 144);
                if r == k {
                    return Ok(());
                }
                c.state(&(r, k, kind));
                let m = M::from_fn(r, k, |i, j| match kind {
                    0 => (i == j) as u8 as f64,
                    1 => 0.0,
                    _ => (i * k + j) as f64,
                });
                let ra = up::<f64>(&m);
                must_reject(|| format!("eigen decomposition of a {}x{} matrix", r, k), || EigenDecomposition::new(&ra))?;
                m.same(&ra, "the refused argument")?;
                c.call(1);
                c.trace();
                Ok(())
            }));
            v.push(on_space("", cyclers(), float));
            if tier.thorough() {
                v.push(on_space("", alphabet(3, 3, "7 letters", &L7), float));
                v.push(on_space("", alphabet(5, 5, "{0,1}", &L2), float));
                v.push(on_space("", companion(8, &[0.0, 1.0, -1.0, 2.0]), float));
                v.push(on_space("", hess(5, &[0.0, 1.0], &[0.0, 1.0]), float));
                v.push(on_space("", structured_space("structured very large", &[(96, 96), (128, 128)]), float));
            }
            v
        },
    )
}
/// symmetric but for one position
fn far_asymmetric(n: usize, rim: bool) -> Space {
    let at: std::sync::Arc<Vec<(usize, usize)>> = std::sync::Arc::new((0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|&(i, j)| i != j && (!rim || i == 0 || j == 0 || i == n - 1 || j == n - 1)).collect());
    Space {
        name: format!("symmetric {0}x{0} but for one {1}position", n, if rim { "outer " } else { "" }),
        bound: "diagonal and tridiagonal, every off-diagonal position raised by 1/2".to_string(),
        total: at.len() as u64 * 2,
        get: std::sync::Arc::new(move |i| {
            let (p, q) = at[i as usize / 2];
            M::from_fn(n, n, |a, b| {
                let base = if a == b { 1.0 + (a * 7 % n) as f64 * 0.25 } else if i % 2 == 1 && a.max(b) == a.min(b) + 1 { 0.5 } else { 0.0 };
                base + if (a, b) == (p, q) { 0.5 } else { 0.0 }
            })
        }),
    }
}
fn companion(n: usize, l: &'static [f64]) -> Space {
    let k = l.len() as u64;
    Space {
        name: format!("all companion matrices of degree {} over {} letters", n, k),
        bound: format!("coefficients {:?}", l),
        total: k.pow(n as u32),
        get: std::sync::Arc::new(move |mut i| {
            let mut m = M::from_fn(n, n, |a, b| (a == b + 1) as u8 as f64);
            for b in 0..n {
                m.set(b, n - 1, l[(i % k) as usize]);
                i /= k;
            }
            m
        }),
    }
}
/// matrices on which the double-shift iteration runs into a cycle unless an exceptional shift breaks it
fn cyclers() -> Space {
    let base = [
        M::new(4, 4, vec![1.0, 1.0, -1.0, 0.0, 1.0, -1.0, 0.0, 0.0, 1.0, 0.0, -1.0, 1.0, 0.0, 0.0, 1.0, 1.0]),
        M::new(3, 3, vec![-1.0, -2.0, 0.0, 0.5, 0.5, -2.0, 0.0, 0.5, -1.0]),
        M::new(3, 3, vec![0.0, 0.0, 1.0, 1.0, 0.0, 0.0, 0.0, 1.0, 0.0]),
        M::new(4, 4, vec![0.0, 0.0, 0.0, -1.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0]),
    ];
    let mut v = vec![];
    for b in &base {
        for p in permutations(b.r) {
            for signs in 0..1u32 << b.r {
                for scale in [1.0, 2f64.powi(-30), 3.0, -1.0] {
                    for tr in [false, true] {
                        let sg = |i: usize| if signs >> i & 1 == 1 { -1.0 } else { 1.0 };
                        v.push(M::from_fn(b.r, b.r, |i, j| {
                            let (i, j) = if tr { (j, i) } else { (i, j) };
                            scale * sg(i) * sg(j) * b.at(p[i], p[j])
                        }));
                    }
                }
            }
        }
    }
    list("cyclic matrices under permutation and sign similarities", "4 matrices, all permutations, all signs, 4 scales, transposed or not", v)
}
