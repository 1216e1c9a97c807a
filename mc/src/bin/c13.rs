//! C13: the SVD reproduces the matrix from orthogonal U, V and ordered singular values.
#[macro_use]
extern crate mc;
use mc::engine::*;
use mc::model::M;
use mc::numsp::*;
use mc::spaces::*;
use mc::valid::*;

fn float(a: &M<f64>, c: &mut Ctx) -> Res {
    let (svd, p) = svd_valid::<f64>(c, a)?;
    ensure!(down(svd.get_u()) == p.u && down(svd.get_v()) == p.v, "a second read of the factors of {:?} differs", a);
    c.call(2);
    c.trace();
    c.nontrivial += (p.s[0] > 0.0) as u64;
    let zeros = p.s.iter().filter(|x| **x == 0.0).count();
    c.outcome(&(a.r, a.c, zeros));
    Ok(())
}

fn main() {
    run_check(
        Spec {
            id: "C13",
            level: "model_checking",
            rule: "each case is one matrix; orthogonality, order, non-negativity and the product are checked on the real decomposition with the normwise backward-error bound",
            assumptions: &["the constant 40 of the backward-error bound (times dimension*eps) covers every correct SVD implementation"],
        },
        |tier| {
            let mut v = vec![];
            for s in small_rect(tier) {
                v.push(on_space("", s, float));
            }
            for s in [alphabet(1, 6, "{0,±1}", &L3), alphabet(6, 1, "{0,±1}", &L3), alphabet(6, 2, "{0,-1}", &[0.0, -1.0]), alphabet(2, 6, "{0,-1}", &[0.0, -1.0]), alphabet(6, 3, "{0,1}", &L2), alphabet(3, 6, "{0,1}", &L2)] {
                v.push(on_space("", s, float));
            }
            for s in thresholds(&[(1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)]) {
                v.push(on_space("", s, float));
            }
            for s in perms(tier) {
                v.push(on_space("", s, float));
            }
            // every bidiagonal zero pattern: the cases of the implicit QR iteration
            for n in 2..=tier.pick(6usize, 8) {
                let s = bidiag(n, 0);
                v.push(on_space("", s, float));
                v.push(on_space("", bidiag(n, 1), float));
            }
            let ex = large_rect(tier);
            for s in structs(tier, (14, 14), (26, 26), &ex) {
                v.push(on_space("", s, float));
            }
            for s in variants(tier.pick(7, 11), |_, _| true) {
                v.push(on_space("", s, float));
            }
            v.push(on_space("", sizes(tier.pick(72, 140), |_, _| true), float));
            v.push(on_space("", huge(&huge_iter(tier), &HUGE_KINDS), float));
            v.push(on_space("", alphabet(4, 4, "{0,±1}", &L3), float));
            if tier.thorough() {
                v.push(on_space("", alphabet(3, 4, "{0,±1,2}", &[0.0, 1.0, -1.0, 2.0]), float));
                v.push(on_space("", alphabet(4, 3, "{0,±1,2}", &[0.0, 1.0, -1.0, 2.0]), float));
                v.push(on_space("", alphabet(5, 5, "{0,1}", &L2), float));
            }
            for (n, s) in [("2^-300", 2f64.powi(-300)), ("2^300", 2f64.powi(300)), ("1e-9", 1e-9), ("-1e-30", -1e-30)] {
                v.push(on_space("", mapped(&structured_space("structured up to 8x8", &shapes_upto(8, 8)), &format!("times {}", n), move |m| m.scaled(s)), float));
            }
            v
        },
    )
}
/// upper bidiagonal matrices: diagonal in {0,1,-2}, superdiagonal in {0,1}; `tail` extra rows below
fn bidiag(n: usize, tail: usize) -> Space {
    let d = [1.0, 0.0, -2.0];
    let total = 3u64.pow(n as u32) * 2u64.pow(n as u32 - 1);
    Space {
        name: format!("all bidiagonal {}x{} over {{0,1,-2}}/{{0,1}}", n + tail, n),
        bound: "every upper bidiagonal matrix over the letters".into(),
        total,
        get: std::sync::Arc::new(move |mut i| {
            let mut m = M::from_fn(n + tail, n, |_, _| 0.0);
            for k in 0..n {
                m.set(k, k, d[(i % 3) as usize]);
                i /= 3;
                if k + 1 < n {
                    m.set(k, k + 1, (i % 2) as f64);
                    i /= 2;
                }
            }
            m
        }),
    }
}
