//! C25: single precision satisfies the same factorization guarantees.
extern crate mc;
use mc::engine::*;
use mc::model::M;
use mc::numfl::*;
use mc::numsp::*;
use mc::spaces::*;
use mc::valid::*;

const K: f64 = 25.0;
fn all(a: &M<f64>, c: &mut Ctx) -> Res {
    let a = &round::<f32>(a);
    // of moderate scale: products of a few entries neither overflow nor vanish in single precision
    if !a.d.iter().all(|x| *x == 0.0 || (x.abs() > 1e-9 && x.abs() < 1e9)) {
        c.skip("not of moderate scale in single precision");
        return Ok(());
    }
    lu_valid::<f32>(c, a)?;
    qr_valid::<f32>(c, a)?;
    svd_valid::<f32>(c, a)?;
    rank_check::<f32>(a, c)?;
    norms_check::<f32>(a, c)?;
    if a.r >= a.c {
        lsq_check::<f32>(a, c, K)?;
    }
    if a.r == a.c {
        det_check::<f32>(a, c, K)?;
        solve_check::<f32>(a, c, K)?;
        let e = eig_valid::<f32>(c, a)?;
        c.outcome(&(a.r, e.im.iter().filter(|x| **x != 0.0).count()));
        chol_check::<f32>(a, c, K)?;
        // and of the symmetric matrices derived from it
        let s = round::<f32>(&a.zip(&a.t(), |x, y| x + y));
        eig_valid::<f32>(c, &s)?;
        chol_check::<f32>(&s, c, K)?;
        let g = round::<f32>(&a.t().mul(a));
        let g = M::from_fn(g.r, g.c, |i, j| if i >= j { g.at(i, j) } else { g.at(j, i) });
        if g.max_abs() < 1e9 {
            eig_valid::<f32>(c, &g)?;
            chol_check::<f32>(&g, c, K)?;
        }
    }
    c.trace();
    c.nontrivial += (a.max_abs() > 0.0) as u64;
    c.outcome(&(a.r, a.c));
    Ok(())
}
fn main() {
    run_check(
        Spec {
            id: "C25",
            level: "model_checking",
            rule: "each case checks every decomposition and operation of one f32 matrix (and, if square, of A+A' and A'A) against the defining equations; non-trivial: the matrix is not zero",
            assumptions: &["entries between 1e-9 and 1e9 in magnitude, or zero", "the residual constants are those of the f64 checks (at most 500) times n and the epsilon of f32"],
        },
        |tier| {
            let mut v = vec![];
            let mut sp = vec![];
            for &(r, c) in &[(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)] {
                sp.push(alphabet(r, c, "{0,±1,±2,3,1/2}", &L7));
            }
            for &(r, c) in &[(2, 3), (3, 2), (3, 3), (2, 4), (4, 2)] {
                sp.push(alphabet(r, c, "{0,±1}", &L3));
            }
            for &(r, c) in &[(3, 4), (4, 3)] {
                sp.push(alphabet(r, c, "{0,1}", &L2));
            }
            sp.push(alphabet(4, 4, "{0,1}", &L2));
            sp.push(sym_alphabet(3, "{0,±1,±2}", &L5));
            sp.push(alphabet(2, 2, "{0,±1,1e-3,-1e-7}", &[0.0, 1.0, -1.0, 1e-3, -1e-7]));
            sp.push(alphabet(3, 2, "{0,1,1e-3,-1e-7}", &[0.0, 1.0, 1e-3, -1e-7]));
            sp.push(alphabet(2, 3, "{0,1,1e-3,-1e-7}", &[0.0, 1.0, 1e-3, -1e-7]));
            sp.push(alphabet(2, 2, "{1/3,0.1,-0.7,2e4}", &[1.0 / 3.0, 0.1, -0.7, 2e4]));
            sp.push(alphabet(3, 3, "{1/3,-0.7}", &[1.0 / 3.0, -0.7]));
            if tier.thorough() {
                sp.push(alphabet(3, 3, "{0,±1,±2}", &L5));
                sp.push(alphabet(3, 4, "{0,±1}", &L3));
                sp.push(alphabet(4, 3, "{0,±1}", &L3));
                sp.push(alphabet(4, 4, "{±1}", &LS));
                sp.push(sym_alphabet(4, "{0,±1}", &L3));
                sp.push(sym_alphabet(5, "{0,1}", &L2));
                sp.push(alphabet(3, 3, "{0,1,1e-3,-1e-7}", &[0.0, 1.0, 1e-3, -1e-7]));
                sp.push(alphabet(3, 3, "{1/3,-0.7,2e4}", &[1.0 / 3.0, -0.7, 2e4]));
            }
            sp.extend(perms(tier));
            for s in sp {
                v.push(on_space("f32", s, all));
            }
            for s in structs(tier, (16, 16), (26, 24), &large_rect_few(Tier::Quick)).into_iter().chain([sizes(tier.pick(50, 80), |_, _| true)]) {
                v.push(on_space("f32", s, all));
            }
            for s in variants(tier.pick(5, 8), |_, _| true).into_iter().chain(near_symmetric(tier.pick(6, 9))) {
                v.push(on_space("f32", s, all));
            }
            v
        },
    )
}
