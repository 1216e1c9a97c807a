//! C17: every decomposition finishes within a bounded amount of scalar arithmetic, in f64 and f32.
#[macro_use]
extern crate mc;
use la::*;
use mc::engine::*;
use mc::model::M;
use mc::numsp::*;
use mc::scalars::*;
use mc::spaces::*;
use mc::valid::*;

/// budgets: K * (d+2)^3 scalar operations (comparisons included), d the larger dimension
const DIRECT: f64 = 40.0;
const ITER: f64 = 1000.0;

fn run<R>(c: &mut Ctx, name: &'static str, k: f64, d: usize, may_refuse: bool, f: impl FnOnce() -> R) -> Result<Option<R>, String> {
    let unit = ((d + 2) as f64).powi(3);
    set_budget((k * unit) as u64);
    let r = attempt(f);
    let n = clear_budget();
    c.call(1);
    c.worst(name, n as f64 / unit, || format!("{} operations, larger dimension {}", n, d));
    c.outcome(&(name, d, (n as f64).log2() as u32));
    match r {
        Ok(r) => Ok(Some(r)),
        Err(e) if e.contains(BUDGET_MSG) => Err(format!("{}: still running after {} scalar operations ({} times the cube of {}+2)", name, n, k, d)),
        Err(e) if may_refuse => {
            let _ = e;
            c.note("refused (allowed)", 1);
            Ok(None)
        }
        Err(e) => Err(format!("{}: panicked: {}", name, e)),
    }
}
fn all<T: Sc>(a: &M<f64>, c: &mut Ctx) -> Res {
    let ra = up::<T>(a);
    let d = a.r.max(a.c);
    let b = up::<T>(&M::from_fn(a.r, 2.min(d), |i, j| (1 + (i * 3 + j) % 5) as f64));
    let mut b_op = |c: &mut Ctx, n: &'static str, f: &mut dyn FnMut()| run(c, n, DIRECT, d, false, || f()).map(|_| ());
    let lu = run(c, "LU::new", DIRECT, d, false, || LUDecomposition::new(&ra))?.unwrap();
    b_op(c, "LU parts", &mut || {
        lu.get_l();
        lu.get_u();
        lu.get_p();
        lu.get_piv();
    })?;
    if a.r == a.c {
        b_op(c, "LU det", &mut || {
            lu.det();
            lu.is_singular();
        })?;
        b_op(c, "LU solve", &mut || {
            lu.solve(&b);
        })?;
        b_op(c, "Matrix det, solve, inverse", &mut || {
            ra.det();
            ra.solve(&b);
            ra.inverse();
        })?;
    }
    let ch = run(c, "Cholesky::new", DIRECT, d, false, || CholeskyDecomposition::new(&ra))?.unwrap();
    if let Some(ch) = ch {
        b_op(c, "Cholesky parts and solve", &mut || {
            ch.get_l();
            ch.solve(&b);
        })?;
    }
    let qr = run(c, "QR::new", DIRECT, d, false, || QRDecomposition::new(&ra))?.unwrap();
    b_op(c, "QR parts", &mut || {
        qr.get_q();
        qr.get_r();
        qr.get_h();
    })?;
    if a.r >= a.c {
        b_op(c, "QR rank and solve", &mut || {
            qr.is_full_rank();
            qr.solve(&b);
        })?;
    }
    let svd = run(c, "SVD::new", ITER, d, false, || SVD::new(&ra))?.unwrap();
    b_op(c, "SVD parts and rank", &mut || {
        svd.get_u();
        svd.get_s();
        svd.get_v();
        svd.rank();
    })?;
    if a.r == a.c {
        let e = run(c, "Eigen::new", ITER, d, false, || EigenDecomposition::new(&ra))?.unwrap();
        b_op(c, "Eigen parts", &mut || {
            e.get_v();
            e.get_d();
            e.get_real_eigenvalues();
            e.get_imag_eigenvalues();
        })?;
    }
    c.trace();
    c.nontrivial += (d > 1) as u64;
    Ok(())
}
/// the routes through A'A, on moderate condition numbers only (their squares must stay in range)
fn squared<T: Sc>(a: &M<f64>, c: &mut Ctx) -> Res {
    if a.max_abs() > 1e6 {
        c.skip("entries above 1e6");
        return Ok(());
    }
    let ra = up::<T>(a);
    let d = a.r.max(a.c);
    run(c, "SVD::direct", ITER, d, true, || SVD::direct(&ra))?;
    if a.r >= a.c {
        run(c, "pinverse", DIRECT, d, true, || ra.pinverse())?;
    }
    c.trace();
    c.nontrivial += (d > 1) as u64;
    Ok(())
}
fn both(a: &M<f64>, c: &mut Ctx) -> Res {
    // products of entries stay in the range
    if a.max_abs() > 1e145 {
        c.skip("not of moderate scale");
        return Ok(());
    }
    all::<C64>(a, c)?;
    if a.max_abs() < 1e9 && a.d.iter().all(|x| *x == 0.0 || x.abs() > 1e-9) {
        all::<C32>(a, c).map_err(|e| format!("f32: {}", e))?;
    }
    Ok(())
}
/// iterative decompositions only
fn iter_only<T: Sc>(a: &M<f64>, c: &mut Ctx) -> Res {
    let ra = up::<T>(a);
    let d = a.r.max(a.c);
    run(c, "SVD::new", ITER, d, false, || SVD::new(&ra))?;
    if a.r == a.c {
        run(c, "Eigen::new", ITER, d, false, || EigenDecomposition::new(&ra))?;
    }
    c.trace();
    c.nontrivial += (d > 1) as u64;
    Ok(())
}
fn sym_of(m: &M<f64>) -> M<f64> {
    M::from_fn(m.r, m.r, |i, j| {
        let (i, j) = (i.min(j), i.max(j));
        m.at(i, j) + m.at(j, i)
    })
}
fn main() {
    run_check(
        Spec {
            id: "C17",
            level: "model_checking",
            rule: "each case runs every construction and operation of one matrix under a scalar-operation budget of K (d+2)^3 (K = 40 direct, 1000 iterative); a watchdog catches loops without scalar operations",
            assumptions: &["loops that execute no scalar operation are caught by wall-clock time only"],
        },
        |tier| {
            let mut v = vec![];
            for s in small_rect(Tier::Quick) {
                if s.total <= 600_000 || tier.thorough() {
                    v.push(on_space("all operations, f64 and f32", s, both));
                }
            }
            for s in thresholds(&[(1, 1), (2, 2), (2, 3), (3, 2), (3, 3)]) {
                v.push(on_space("all operations, f64 and f32", s, both));
            }
            for s in perms(tier) {
                v.push(on_space("all operations, f64 and f32", s, both));
            }
            let t9 = [0.0, 1.0, -1.0, 0.5, 3.0];
            v.push(on_space("iterations in f32:", alphabet(3, 3, "{0,±1,1/2,3}", &t9), iter_only::<C32>));
            v.push(on_space("iterations in f64:", alphabet(3, 3, "{0,±1,1/2,3}", &t9), iter_only::<C64>));
            v.push(on_space("iterations in f32:", alphabet(4, 4, "{±1}", &LS), iter_only::<C32>));
            v.push(on_space("iterations in f64:", alphabet(4, 4, "{±1}", &LS), iter_only::<C64>));
            v.push(on_space("iterations in f32:", sym_alphabet(4, "{0,±1}", &L3), iter_only::<C32>));
            v.push(on_space("iterations in f64:", sym_alphabet(4, "{0,±1}", &L3), iter_only::<C64>));
            let cyc = [
                M::new(4, 4, vec![1.0, 1.0, -1.0, 0.0, 1.0, -1.0, 0.0, 0.0, 1.0, 0.0, -1.0, 1.0, 0.0, 0.0, 1.0, 1.0]),
                M::new(3, 3, vec![-1.0, -2.0, 0.0, 0.5, 0.5, -2.0, 0.0, 0.5, -1.0]),
            ];
            let mut cv = vec![];
            for b in &cyc {
                for p in permutations(b.r) {
                    for signs in 0..1u32 << b.r {
                        for scale in [1.0, 2f64.powi(-30), 3.0, -1.0] {
                            let sg = |i: usize| if signs >> i & 1 == 1 { -1.0 } else { 1.0 };
                            cv.push(M::from_fn(b.r, b.r, |i, j| scale * sg(i) * sg(j) * b.at(p[i], p[j])));
                        }
                    }
                }
            }
            v.push(on_space("all operations, f64 and f32", list("cyclic matrices under similarities", "2 matrices, all permutations and signs, 4 scales", cv), both));
            let b = tier.pick(14usize, 28);
            v.push(on_space("all operations, f64 and f32", structured_space(&format!("structured up to {0}x{0}", b), &shapes_upto(b, b)), both));
            v.push(on_space("all operations, f64 and f32", mapped(&structured_space("structured squares up to 24", &squares_upto(24)), "A + A' of", |m| sym_of(&m)), both));
            for s in variants(tier.pick(6, 9), |_, _| true).into_iter().chain(near_symmetric(tier.pick(7, 12))) {
                v.push(on_space("all operations, f64 and f32", s, both));
            }
            let big: &[(usize, usize)] = &[(24, 27), (27, 24), (40, 40), (43, 40), (40, 43), (48, 48), (64, 64), (65, 33), (33, 65)];
            v.push(on_space("all operations, f64 and f32", structured_space("structured large", big), both));
            v.push(on_space("all operations, f64 and f32", mapped(&structured_space("structured large squares", &[(33, 33), (48, 48), (64, 64), (100, 100)]), "A + A' of", |m| sym_of(&m)), both));
            v.push(on_space("routes through A'A, f64", structured_space("structured up to 12x12", &shapes_upto(12, 12)), squared::<C64>));
            v.push(on_space("routes through A'A, f32", structured_space("structured up to 12x12", &shapes_upto(12, 12)), squared::<C32>));
            for (r, k) in [(2, 2), (2, 3), (3, 2)] {
                v.push(on_space("routes through A'A, f64", alphabet(r, k, "{0,±1,±2}", &L5), squared::<C64>));
                v.push(on_space("routes through A'A, f32", alphabet(r, k, "{0,±1,±2}", &L5), squared::<C32>));
            }
            for (n, s) in [("2^-100", 2f64.powi(-100)), ("2^100", 2f64.powi(100)), ("-1e-30", -1e-30)] {
                v.push(on_space(&format!("all operations, f64, times {}", n), mapped(&structured_space("structured up to 8x8", &shapes_upto(8, 8)), "scaled", move |m| m.scaled(s)), all::<C64>));
            }
            v.push(on_space("iterations in f64:", alphabet(4, 4, "{0,±1}", &L3), iter_only::<C64>));
            if tier.thorough() {
                v.push(on_space("iterations in f32:", alphabet(4, 4, "{0,±1}", &L3), iter_only::<C32>));
                v.push(on_space("iterations in f32:", alphabet(3, 3, "7 letters", &L7), iter_only::<C32>));
                v.push(on_space("all operations, f64 and f32", structured_space("structured very large", &[(128, 128), (130, 90), (90, 130), (160, 160)]), both));
            }
            v
        },
    )
}
