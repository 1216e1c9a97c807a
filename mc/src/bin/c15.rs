//! C15: symmetric matrices get real sorted eigenvalues and orthogonal eigenvectors.
#[macro_use]
extern crate mc;
use mc::engine::*;
use mc::model::M;
use mc::numsp::*;
use mc::spaces::*;
use mc::valid::*;

fn sym_of(m: &M<f64>) -> M<f64> {
    M::from_fn(m.r, m.r, |i, j| {
        let (i, j) = (i.min(j), i.max(j));
        m.at(i, j) + m.at(j, i)
    })
}
fn float(a: &M<f64>, c: &mut Ctx) -> Res {
    for i in 0..a.r {
        for j in 0..i {
            if a.at(i, j) != a.at(j, i) {
                return Err("space error: not symmetric".into());
            }
        }
    }
    let p = eig_valid::<f64>(c, a)?;
    c.trace();
    c.nontrivial += (a.r > 1 && a.max_abs() > 0.0) as u64;
    let distinct = 1 + (1..a.r).filter(|&i| p.re[i] != p.re[i - 1]).count();
    c.outcome(&(a.r, distinct, p.re.iter().filter(|x| **x < 0.0).count()));
    Ok(())
}
/// symmetric tridiagonal matrices over letters
fn tridiag(n: usize, d: &'static [f64], e: &'static [f64]) -> Space {
    let (kd, ke) = (d.len() as u64, e.len() as u64);
    Space {
        name: format!("all tridiagonal {}x{} over {}/{} letters", n, n, kd, ke),
        bound: format!("diagonal {:?}, off-diagonal {:?}", d, e),
        total: kd.pow(n as u32) * ke.pow(n as u32 - 1),
        get: std::sync::Arc::new(move |mut i| {
            let mut m = M::from_fn(n, n, |_, _| 0.0);
            for k in 0..n {
                m.set(k, k, d[(i % kd) as usize]);
                i /= kd;
                if k + 1 < n {
                    let x = e[(i % ke) as usize];
                    i /= ke;
                    m.set(k, k + 1, x);
                    m.set(k + 1, k, x);
                }
            }
            m
        }),
    }
}
fn main() {
    run_check(
        Spec {
            id: "C15",
            level: "model_checking",
            rule: "each case is one exactly symmetric matrix; reality, order, orthogonality, A*V = V*D and all power sums are checked",
            assumptions: &["the constant 80 of the backward-error bound (times n*eps) covers every correct symmetric eigensolver"],
        },
        |tier| {
            let mut v = vec![];
            let l9: &[f64] = &[0.0, 1.0, -1.0, 2.0, -2.0, 3.0, 4.0, 0.5, -5.0];
            v.push(on_space("", sym_alphabet(1, "9 letters", l9), float));
            v.push(on_space("", sym_alphabet(2, "9 letters", l9), float));
            v.push(on_space("", sym_alphabet(3, "9 letters", l9), float));
            v.push(on_space("", sym_alphabet(4, "{0,±1,2}", &[0.0, 1.0, -1.0, 2.0]), float));
            v.push(on_space("", sym_alphabet(5, "{0,1}", &L2), float));
            v.push(on_space("", sym_alphabet(3, "{0,±1,1e-7,-1e-9,2^-40}", &LT), float));
            v.push(on_space("", sym_alphabet(3, "{0,1,-3,1e-16,-1e-13}", &LT2), float));
            v.push(on_space("", sym_alphabet(3, "{0,1,-1e5,1e-5,3e8}", &LG), float));
            v.push(on_space("", sym_alphabet(4, "{0,1,1e-9}", &[0.0, 1.0, 1e-9]), float));
            v.push(on_space("", sym_alphabet(4, "{1,-1e-14,3}", &[1.0, -1e-14, 3.0]), float));
            v.push(on_space("", tridiag(4, &[0.0, 1.0, -2.0], &[0.0, 1.0, 3.0]), float));
            v.push(on_space("", tridiag(6, &[0.0, 1.0, -2.0], &[0.0, 1.0]), float));
            v.push(on_space("", tridiag(4, &[0.0, 1.0], &[1.0, 1e-9, 1e-17, 1e-160]), float));
            for s in perms(tier) {
                let s = mapped(&s, "A + A' of", |m| sym_of(&m));
                v.push(on_space("", s, float));
            }
            let b = tier.pick(26usize, 40);
            v.push(on_space("", mapped(&structured_space(&format!("structured squares up to {}", b), &squares_upto(b)), "A + A' of", |m| sym_of(&m)), float));
            v.push(on_space("", mapped(&structured_space(&format!("structured up to {0}x{0}", b / 2), &shapes_upto(b / 2, b / 2)), "A A' of", |m| {
                let p = m.mul(&m.t());
                M::from_fn(m.r, m.r, |i, j| p.at(i.min(j), i.max(j)))
            }), float));
            v.push(on_space("", mapped(&structured_space("structured large", &large_sq(tier)), "A + A' of", |m| sym_of(&m)), float));
            for (n, s) in [("2^-100", 2f64.powi(-100)), ("2^100", 2f64.powi(100)), ("1e-9", 1e-9), ("-1e-30", -1e-30)] {
                v.push(on_space("", mapped(&structured_space("structured squares up to 12", &squares_upto(12)), &format!("A + A', times {},", n), move |m| sym_of(&m).scaled(s)), float));
            }
            for s in variants(tier.pick(7, 11), |r, c| r == c) {
                v.push(on_space("", mapped(&s, "A + A' of", |m| sym_of(&m)), float));
            }
            v.push(on_space("", mapped(&sizes(tier.pick(110, 180), |r, c| r == c), "A + A' of", |m| sym_of(&m)), float));
            v.push(on_space("", mapped(&huge(&[(260, 260)], &["dense0", "neg-first", "cyclic", "min"]), "A + A' of", |m| sym_of(&m)), float));
            if tier.thorough() {
                v.push(on_space("", sym_alphabet(4, "{0,±1,±2}", &L5), float));
                v.push(on_space("", sym_alphabet(5, "{0,±1}", &L3), float));
                v.push(on_space("", sym_alphabet(6, "{0,1}", &L2), float));
                v.push(on_space("", tridiag(8, &[0.0, 1.0, -2.0], &[0.0, 1.0]), float));
                v.push(on_space("", mapped(&structured_space("structured very large", &[(128, 128), (129, 129), (160, 160)]), "A + A' of", |m| sym_of(&m)), float));
            }
            v
        },
    )
}
