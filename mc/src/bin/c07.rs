//! C07: LU factors reproduce the row-permuted matrix with unit L and partial pivoting.
#[macro_use]
extern crate mc;
use la::{LUDecomposition, Matrix};
use mc::engine::*;
use mc::model::M;
use mc::numsp::*;
use mc::scalars::{q_inconclusive, Q};
use mc::spaces::*;
use mc::valid::*;
use num::traits::{One, Zero};

fn exact_body(a: &Matrix<Q>, c: &mut Ctx) -> Res {
    let (m, n) = (a.rows(), a.cols());
    let k = m.min(n);
    let before = M::of(a);
    let lu = LUDecomposition::new(a);
    before.same(a, "the argument")?;
    let (l, u, p, piv) = (lu.get_l(), lu.get_u(), lu.get_p(), lu.get_piv().clone());
    c.call(5);
    ensure!((l.rows(), l.cols()) == (m, k), "L is {}x{}", l.rows(), l.cols());
    ensure!((u.rows(), u.cols()) == (k, n), "U is {}x{}", u.rows(), u.cols());
    ensure!((p.rows(), p.cols()) == (m, m), "P is {}x{}", p.rows(), p.cols());
    let mut s = piv.clone();
    s.sort();
    ensure!(s == (0..m).collect::<Vec<_>>(), "piv {:?} is not a permutation of 0..{}", piv, m);
    for i in 0..m {
        for j in 0..m {
            ensure!(p.get(i, j) == Q::int((piv[i] == j) as i64), "P is not the permutation matrix of {:?}: {:?}", piv, M::of(&p));
        }
        for j in 0..k {
            let x = l.get(i, j);
            ensure!(j <= i || x.is_zero(), "L is not lower trapezoidal: {:?}", M::of(&l));
            ensure!(j != i || x == Q::one(), "L has a non-unit diagonal: {:?}", M::of(&l));
            ensure!(x <= Q::one() && x >= -Q::one(), "multiplier {:?} > 1 in {:?}", x, M::of(&l));
        }
    }
    for i in 0..k {
        for j in 0..i.min(n) {
            ensure!(u.get(i, j).is_zero(), "U is not upper trapezoidal: {:?}", M::of(&u));
        }
    }
    let (lm, um) = (M::of(&l), M::of(&u));
    let prod = lm.mul_by(&um, Q::zero(), |s, x, y| s + x * y);
    let pa = before.rows_of(&piv);
    ensure!(prod == pa, "L*U = {:?} but the rows {:?} of A are {:?}", prod, piv, pa);
    c.trace();
    c.nontrivial += 1;
    c.outcome(&(lm.d, um.d, piv));
    Ok(())
}
fn exact(a: &M<f64>, c: &mut Ctx) -> Res {
    match attempt(|| exact_body(&q_up(a), c)) {
        Ok(r) => r.map_err(|e| format!("A = {:?}: {}", a, e)),
        Err(p) if q_inconclusive(&p) => {
            c.skip("value outside the exact arithmetic's range");
            Ok(())
        }
        Err(p) => Err(format!("A = {:?}: panicked: {}", a, p)),
    }
}
fn float(a: &M<f64>, c: &mut Ctx) -> Res {
    let (lu, p) = lu_valid::<f64>(c, a)?;
    // the readers give the same answer again
    ensure!(down(&lu.get_l()) == p.l && down(&lu.get_u()) == p.u && *lu.get_piv() == p.piv, "a second read of the factors differs");
    c.call(3);
    c.trace();
    c.nontrivial += 1;
    c.outcome(&p.piv);
    Ok(())
}

fn main() {
    run_check(
        Spec {
            id: "C07",
            level: "model_checking",
            rule: "each case is one matrix: exact rational entries decide the factorization identity with equality, float entries with the componentwise backward-error bound",
            assumptions: &["the backward-error constant 15 of the f64 families covers every correct order of summation"],
        },
        |tier| {
            let mut v = vec![];
            for s in small_rect(tier) {
                v.push(on_space("exact", s, exact));
            }
            v.push(on_space("exact", alphabet(1, 6, "{0,±1}", &L3), exact));
            v.push(on_space("exact", alphabet(6, 1, "{0,±1}", &L3), exact));
            v.push(on_space("exact", alphabet(3, 3, "{0,±1,1/2,3}", &[0.0, 1.0, -1.0, 0.5, 3.0]), exact));
            for s in perms(tier) {
                v.push(on_space("exact", s, exact));
            }
            v.push(on_space("exact", structured_space("structured up to 6x6", &shapes_upto(6, 6)), exact));
            if tier.thorough() {
                v.push(on_space("exact", alphabet(4, 4, "{0,±1}", &L3), exact));
                v.push(on_space("exact", alphabet(3, 3, "7 letters", &L7), exact));
                v.push(on_space("exact", alphabet(5, 5, "{0,1}", &L2), exact));
            }
            for s in small_rect(tier) {
                v.push(on_space("f64", s, float));
            }
            v.push(on_space("f64", alphabet(4, 4, "{0,±1}", &L3), float));
            if tier.thorough() {
                v.push(on_space("f64", alphabet(5, 5, "{0,1}", &L2), float));
            }
            for s in thresholds(&[(1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3)]) {
                v.push(on_space("f64", s, float));
            }
            for s in perms(tier) {
                v.push(on_space("f64", s, float));
            }
            let ex = large_rect(tier);
            for s in structs(tier, (14, 14), (26, 26), &ex) {
                v.push(on_space("f64", s, float));
            }
            for s in variants(tier.pick(7, 11), |_, _| true) {
                v.push(on_space("f64", s, float));
            }
            v.push(on_space("f64", sizes(tier.pick(140, 260), |_, _| true), float));
            v.push(on_space("f64", huge(&huge_direct(tier), &HUGE_KINDS), float));
            // extreme but normal scales
            for (n, s) in [("2^-300", 2f64.powi(-300)), ("2^300", 2f64.powi(300)), ("1e-30", 1e-30)] {
                v.push(on_space("f64", mapped(&structured_space("structured up to 7x7", &shapes_upto(7, 7)), &format!("times {}", n), move |m| m.scaled(s)), float));
            }
            v
        },
    )
}
