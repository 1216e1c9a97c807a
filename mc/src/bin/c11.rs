//! C11: QR gives an orthogonal Q and upper triangular R with Q*R the matrix.
#[macro_use]
extern crate mc;
use mc::engine::*;
use mc::model::M;
use mc::numsp::*;
use mc::spaces::*;
use mc::valid::*;

fn float(a: &M<f64>, c: &mut Ctx) -> Res {
    let (qr, p) = qr_valid::<f64>(c, a)?;
    // the readers give the same answer again, in another order
    ensure!(down(&qr.get_h()) == p.h && down(&qr.get_r()) == p.r && down(&qr.get_q()) == p.q, "a second read of the factors of {:?} differs", a);
    c.call(3);
    c.trace();
    let zeros = (0..a.r.min(a.c)).filter(|&i| p.r.at(i, i) == 0.0).count();
    c.nontrivial += (a.r > 1) as u64;
    c.outcome(&(a.r, a.c, zeros));
    Ok(())
}

fn main() {
    run_check(
        Spec {
            id: "C11",
            level: "model_checking",
            rule: "each case is one matrix; Q, R and the reflections of H are checked against the defining equations with the normwise backward-error bound",
            assumptions: &["the constant 25 of the backward-error bound (times m*eps) covers every correct Householder implementation"],
        },
        |tier| {
            let mut v = vec![];
            for s in small_rect(tier) {
                v.push(on_space("", s, float));
            }
            v.push(on_space("", alphabet(3, 3, "{0,±1,1/2,3}", &[0.0, 1.0, -1.0, 0.5, 3.0]), float));
            v.push(on_space("", alphabet(1, 6, "{0,±1}", &L3), float));
            v.push(on_space("", alphabet(6, 1, "{0,±1}", &L3), float));
            v.push(on_space("", alphabet(6, 2, "{0,-1}", &[0.0, -1.0]), float));
            v.push(on_space("", alphabet(2, 6, "{0,-1}", &[0.0, -1.0]), float));
            for s in thresholds(&[(1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)]) {
                v.push(on_space("", s, float));
            }
            for s in perms(tier) {
                v.push(on_space("", s, float));
            }
            let ex = large_rect(tier);
            for s in structs(tier, (14, 14), (26, 26), &ex) {
                v.push(on_space("", s, float));
            }
            for s in variants(tier.pick(7, 11), |_, _| true) {
                v.push(on_space("", s, float));
            }
            v.push(on_space("", sizes(tier.pick(120, 200), |_, _| true), float));
            v.push(on_space("", huge(&huge_direct(tier), &HUGE_KINDS), float));
            v.push(on_space("", alphabet(4, 4, "{0,±1}", &L3), float));
            if tier.thorough() {
                v.push(on_space("", alphabet(3, 4, "{0,±1,2}", &[0.0, 1.0, -1.0, 2.0]), float));
                v.push(on_space("", alphabet(4, 3, "{0,±1,2}", &[0.0, 1.0, -1.0, 2.0]), float));
                v.push(on_space("", alphabet(5, 5, "{0,1}", &L2), float));
            }
            for (n, s) in [("2^-300", 2f64.powi(-300)), ("2^300", 2f64.powi(300)), ("1e-9", 1e-9), ("-1e-30", -1e-30)] {
                v.push(on_space("", mapped(&structured_space("structured up to 7x7", &shapes_upto(7, 7)), &format!("times {}", n), move |m| m.scaled(s)), float));
            }
            v
        },
    )
}
