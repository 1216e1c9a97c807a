//! C18: norms, trace, symmetry and approximate equality follow their definitions.
#[macro_use]
extern crate mc;
use la::{ApproxEq, Matrix};
use mc::engine::*;
use mc::model::M;
use mc::numsp::*;
use mc::spaces::*;
use mc::valid::*;

// ------------------------------------------------------------ norms
const PS: [f64; 20] = [1.0, 2.0, 3.0, 4.0, 5.0, 1.5, 2.5, 0.5, 7.0, 1.25, 6.0, 10.0, 32.0, 0.25, 0.75, 8.5, 12.25, 3.5, 100.0, 0.125];

fn close(c: &mut Ctx, name: &'static str, got: f64, want: f64, unit: f64, d: impl Fn() -> String) -> Res {
    if got == want {
        return Ok(());
    }
    ensure!(got.is_finite(), "{}: {:?} instead of {:?} {}", name, got, want, d());
    let w = (got - want).abs() / unit;
    ratio(c, name, w, 8.0, || format!("{:?} instead of {:?} {}", got, want, d()))
}
/// the definition in scaled arithmetic
fn p_ref(x: &[f64], p: f64) -> f64 {
    let m = x.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    if m == 0.0 {
        return 0.0;
    }
    let s: f64 = x.iter().map(|v| (v.abs() / m).powf(p)).sum();
    m * s.powf(1.0 / p)
}
fn norms<T: Sc>(a: &M<f64>, c: &mut Ctx) -> Res {
    // (the letters are not all representable in f32)
    let a = &down::<T>(&up::<T>(a));
    let r = up::<T>(a);
    let n = a.d.len() as f64;
    let u = T::U * (n + 8.0);
    let d = || format!("of {:?}", a);
    let l1: f64 = a.d.iter().map(|x| x.abs()).sum();
    let linf = a.max_abs();
    let l2 = p_ref(&a.d, 2.0);
    let (lo, hi) = if T::U > 1e-10 { (1e-17, 1e17) } else { (1e-140, 1e140) };
    // squares of the significant elements stay in the normal range
    let in_range = linf == 0.0 || (linf > lo && linf < hi);
    if in_range {
        close(c, "frobenius norm", r.frobenius_norm().to(), l2, u * l2, d)?;
        c.call(1);
    }
    if a.c == 1 {
        if in_range {
            close(c, "euclidean norm", r.vector_euclidean_norm().to(), l2, u * l2, d)?;
            close(c, "2-norm", r.vector_2_norm().to(), l2, u * l2, d)?;
            close(c, "length", r.length().to(), l2, u * l2, d)?;
        }
        close(c, "1-norm", r.vector_1_norm().to(), l1, u * l1, d)?;
        ensure!(r.vector_inf_norm().to() == linf, "infinity norm {:?} instead of {:?} of {:?}", r.vector_inf_norm(), linf, a);
        for p in PS {
            if linf > 0.0 {
                let e = linf.ln() * p;
                if e.abs() > (if T::U > 1e-10 { 70.0 } else { 600.0 }) {
                    c.skip("power outside the normal range");
                    continue;
                }
            }
            let want = p_ref(&a.d, p);
            if want > 0.0 && want.ln().abs() > (if T::U > 1e-10 { 80.0 } else { 690.0 }) {
                c.skip("norm outside the normal range");
                continue;
            }
            let ls = if want > 0.0 { (want.ln() * p).abs() } else { 0.0 };
            close(c, "p-norm", r.vector_p_norm(T::of(p)).to(), want, T::U * (n + 8.0 + ls) * (1.0 + 1.0 / p) * want, || format!("p = {} {}", p, d()))?;
        }
        c.call(5 + PS.len() as u64);
    }
    let k = a.r.min(a.c);
    let tr: f64 = (0..k).map(|i| a.at(i, i)).sum();
    let tabs: f64 = (0..k).map(|i| a.at(i, i).abs()).sum();
    close(c, "trace", r.trace().to(), tr, u * tabs, d)?;
    ensure!(a.d == down::<T>(&r).d, "the matrix changed while its norms were taken: {:?}", a);
    c.call(1);
    c.trace();
    c.nontrivial += (n > 1.0 && linf > 0.0) as u64;
    c.outcome(&(a.r, a.c, l1.to_bits(), l2.to_bits(), linf.to_bits(), tr.to_bits()));
    Ok(())
}
fn both(a: &M<f64>, c: &mut Ctx) -> Res {
    norms::<f64>(a, c)?;
    norms::<f32>(a, c).map_err(|e| format!("f32: {}", e))
}
/// an infinite entry makes every norm infinite, and the trace when it is on the diagonal
fn infinite<T: Sc>(a: &M<f64>, c: &mut Ctx) -> Res {
    if !a.d.iter().any(|x| x.is_infinite()) {
        c.skip("no infinite entry");
        return Ok(());
    }
    let r = up::<T>(a);
    let inf = |n: &str, x: T| if x.to() == f64::INFINITY { Ok(()) } else { Err(format!("{} of {:?} is {:?}", n, a, x)) };
    inf("frobenius norm", r.frobenius_norm())?;
    if a.c == 1 {
        inf("euclidean norm", r.vector_euclidean_norm())?;
        inf("2-norm", r.vector_2_norm())?;
        inf("length", r.length())?;
        inf("1-norm", r.vector_1_norm())?;
        inf("infinity norm", r.vector_inf_norm())?;
        for p in PS {
            inf("p-norm", r.vector_p_norm(T::of(p)))?;
        }
        c.call(5 + PS.len() as u64);
    }
    let tr: f64 = (0..a.r.min(a.c)).map(|i| a.at(i, i)).sum();
    let t = r.trace().to();
    ensure!(t == tr || t.is_nan() && tr.is_nan(), "trace of {:?} is {:?}", a, t);
    c.call(2);
    c.trace();
    c.nontrivial += 1;
    Ok(())
}
fn refuse(m: &M<f64>, c: &mut Ctx) -> Res {
    let r = up::<f64>(m);
    let d = |n: &str| format!("{} of a {}x{} matrix", n, m.r, m.c);
    must_reject(|| d("euclidean norm"), || r.vector_euclidean_norm())?;
    must_reject(|| d("2-norm"), || r.vector_2_norm())?;
    must_reject(|| d("length"), || r.length())?;
    must_reject(|| d("1-norm"), || r.vector_1_norm())?;
    must_reject(|| d("infinity norm"), || r.vector_inf_norm())?;
    for p in PS {
        must_reject(|| d("p-norm"), || r.vector_p_norm(p))?;
    }
    c.call(15);
    c.trace();
    c.nontrivial += 1;
    c.outcome(&(m.r, m.c));
    Ok(())
}

// ------------------------------------------------------------ approximate equality
fn approx_values() -> Vec<f64> {
    let mut v = vec![0.0, -0.0, 1.0, -1.0, 0.5, 1e-6, -1e-6, 5e-7, 2e-6, 1e-7, 1e-12, 1e300, -1e300, 1e-300, f64::MIN_POSITIVE, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, 3.0, 1e-3, 1e6];
    for b in [0.0, 1.0, -1.0, 3.0, 1024.0] {
        for s in [1.0, -1.0] {
            for k in [-2i64, -1, 0, 1, 2] {
                // neighbours of b +- 1e-6
                let x: f64 = b + s * 1e-6;
                v.push(f64::from_bits((x.to_bits() as i64 + k) as u64));
            }
        }
    }
    v
}
fn eps_values() -> Vec<f64> {
    vec![1e-6, 0.0, 1e-12, 1.0, 2.0, 1e-3, -1.0, f64::INFINITY, f64::NAN, f64::MIN_POSITIVE]
}
macro_rules! scalar_approx {
    ($name:ident, $F:ident) => {
        fn $name(c: &mut Ctx, x: f64, y: f64) -> Res {
            let (a, b) = (x as $F, y as $F);
            let diff = (a - b).abs();
            ensure!(<$F as ApproxEq<$F>>::approx_epsilon() == 1.0e-6 as $F, "approx_epsilon is {:?}", <$F as ApproxEq<$F>>::approx_epsilon());
            let want = diff < 1.0e-6 as $F;
            ensure!(a.approx_eq(&b) == want, "{:?}.approx_eq({:?}) is {}, difference {:?}", a, b, !want, diff);
            for e in eps_values() {
                let e = e as $F;
                let want = diff < e;
                ensure!(a.approx_eq_eps(&b, &e) == want, "{:?}.approx_eq_eps({:?}, {:?}) is {}", a, b, e, !want);
            }
            c.call(2 + eps_values().len() as u64);
            c.outcome(&(stringify!($F), want));
            Ok(())
        }
    };
}
scalar_approx!(approx64, f64);
scalar_approx!(approx32, f32);

fn mat_approx(a: &M<f64>, b: &M<f64>, c: &mut Ctx) -> Res {
    let want = a.r == b.r && a.c == b.c && (0..a.d.len()).all(|i| (a.d[i] - b.d[i]).abs() < 1e-6);
    let (ra, rb) = (up::<f64>(a), up::<f64>(b));
    ensure!(ra.approx_eq(&rb) == want, "{:?} approx_eq {:?} is {}", a, b, !want);
    ensure!(rb.approx_eq(&ra) == want, "{:?} approx_eq {:?} is {}", b, a, !want);
    // exact equality
    let eq = a.r == b.r && a.c == b.c && (0..a.d.len()).all(|i| a.d[i] == b.d[i]);
    ensure!((ra == rb) == eq && (rb == ra) == eq && (ra != rb) != eq, "{:?} == {:?} is {}", a, b, !eq);
    // an object and itself, an object and its clone
    for (m, r) in [(a, &ra), (b, &rb)] {
        let (same, close) = (m.d.iter().all(|x| x == x), m.d.iter().all(|x| (x - x).abs() < 1e-6));
        let k = r.clone();
        ensure!((r == r) == same && (r != r) != same && (*r == k) == same, "{:?} == itself is {}", m, !same);
        ensure!(r.approx_eq(r) == close && r.approx_eq(&k) == close, "{:?} approx_eq itself is {}", m, !close);
    }
    let want32 = a.r == b.r && a.c == b.c && (0..a.d.len()).all(|i| (a.d[i] as f32 - b.d[i] as f32).abs() < 1e-6f32);
    ensure!(up::<f32>(a).approx_eq(&up::<f32>(b)) == want32, "f32 {:?} approx_eq {:?} is {}", a, b, !want32);
    c.call(3);
    c.trace();
    c.nontrivial += (a.d.len() > 1) as u64;
    c.outcome(&(a.r, a.c, b.r, b.c, want, eq));
    Ok(())
}
fn sym(a: &M<f64>, c: &mut Ctx) -> Res {
    let want = a.r == a.c && (0..a.r).all(|i| (0..i).all(|j| (a.at(i, j) - a.at(j, i)).abs() < 1e-6));
    let r = up::<f64>(a);
    ensure!(r.is_symmetric() == want, "is_symmetric of {:?} is {}", a, !want);
    ensure!(r.is_non_symmetric() != want, "is_non_symmetric of {:?} is {}", a, want);
    let a32: Matrix<f32> = up(a);
    let want32 = a.r == a.c && (0..a.r).all(|i| (0..i).all(|j| (a.at(i, j) as f32 - a.at(j, i) as f32).abs() < 1e-6f32));
    ensure!(a32.is_symmetric() == want32 && a32.is_non_symmetric() != want32, "f32 is_symmetric of {:?} is {}", a, !want32);
    c.call(4);
    c.trace();
    c.nontrivial += (a.r == a.c && a.r > 1) as u64;
    c.outcome(&(a.r, a.c, want));
    Ok(())
}
fn base(r: usize, k: usize) -> M<f64> {
    M::from_fn(r, k, |i, j| ((i.min(j) * 5 + i.max(j) * 3) % 11) as f64 - 5.0)
}
fn squares_index(n: usize) -> Vec<(usize, usize, usize)> {
    let mut v = vec![];
    for s in 2..=n {
        for i in 0..s {
            for j in 0..s {
                v.push((s, i, j));
            }
        }
    }
    v
}
fn main() {
    run_check(
        Spec {
            id: "C18",
            level: "model_checking",
            rule: "each case evaluates every norm, the trace and the predicates of one matrix (or pair) and compares with the defining formula",
            assumptions: &["norm values are compared to 8 (n+8) eps; powers outside the normal range are not judged"],
        },
        |tier| {
            let mut v = vec![];
            let l9: &[f64] = &[0.0, 1.0, -1.0, 2.0, -3.0, 0.5, -0.25, 1e5, -1e-5];
            for n in 1..=tier.pick(5, 6) {
                v.push(on_space("norms and trace", alphabet(n, 1, "9 letters", l9), both));
            }
            let lx: &[f64] = &[0.0, -1e100, 1e100, 1e-100, -1e-100, 1.0];
            for n in 1..=4 {
                v.push(on_space("norms and trace", alphabet(n, 1, "{0,±1e±100,1}", lx), norms::<f64>));
            }
            let li: &[f64] = &[0.0, 1.0, -2.0, f64::INFINITY, f64::NEG_INFINITY];
            for &(r, k) in &[(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (2, 2), (2, 3), (3, 2)] {
                v.push(on_space("infinite entries, f64", alphabet(r, k, "{0,1,-2,±inf}", li), infinite::<f64>));
                v.push(on_space("infinite entries, f32", alphabet(r, k, "{0,1,-2,±inf}", li), infinite::<f32>));
            }
            v.push(on_space("norms and trace", alphabet(8, 1, "{0,±1}", &L3), both));
            v.push(on_space("norms and trace", alphabet(8, 1, "{2,-3}", &[2.0, -3.0]), both));
            for &(r, k) in &[(2, 2), (2, 3), (3, 2), (1, 4), (1, 2), (1, 3)] {
                v.push(on_space("frobenius norm and trace", alphabet(r, k, "{0,±1,±2,3,1/2}", &L7), both));
            }
            v.push(on_space("frobenius norm and trace", alphabet(3, 3, "{0,±1,2}", &[0.0, 1.0, -1.0, 2.0]), both));
            v.push(on_space("frobenius norm and trace", alphabet(4, 4, "{0,1}", &L2), both));
            v.push(on_space("trace with cancellation", alphabet(2, 2, "{0,1,±1e16,1e-16}", &[0.0, 1.0, 1e16, -1e16, 1e-16]), norms::<f64>));
            let b = tier.pick(20usize, 40);
            v.push(on_space("", structured_space(&format!("structured up to {0}x{0}", b), &shapes_upto(b, b)), norms::<f64>));
            v.push(on_space("", structured_space("structured large", &[big_shapes(), huge_shapes()].concat()), norms::<f64>));
            v.push(on_space("", structured_space("structured large columns", &[(513, 1), (1000, 1), (1025, 1), (4097, 1), (10_000, 1), (65_537, 1)]), norms::<f64>));
            // long vectors and large matrices, one heavy element at every position
            let mut shapes = vec![];
            for n in (1..=tier.pick(70usize, 200)).chain([127, 128, 129, 255, 256, 257, 300]) {
                shapes.push((n, 1));
            }
            for s in 2..=12 {
                for t in 1..=12 {
                    if t > 1 {
                        shapes.push((s, t));
                    }
                }
            }
            let mut ix = vec![];
            for &(r, k) in &shapes {
                for p in 0..r * k {
                    ix.push((r, k, p));
                }
            }
            let ix2 = ix.clone();
            v.push(family("norms with one heavy element at every position", ix.len() as u64 * 2, format!("{} shapes, every position, both signs", shapes.len()), move |i| format!("{:?} sign {}", ix[i as usize / 2], i % 2), move |i, c| {
                let (r, k, p) = ix2[i as usize / 2];
                c.state(&(r, k, p, i % 2));
                let mut m = M::from_fn(r, k, |i, j| ((i * 3 + j * 7) % 5) as f64 * 0.125 - 0.25);
                m.d[p] = if i % 2 == 0 { 1000.0 } else { -1000.0 };
                norms::<f64>(&m, c)
            }));
            let mut ms = vec![];
            for r in 1..=12usize {
                for k in 2..=12usize {
                    for z in 0..3 {
                        ms.push(M::from_fn(r, k, |i, j| match z {
                            0 => 0.0,
                            1 => (i * k + j) as f64 + 1.0,
                            _ => (j == 0) as u8 as f64,
                        }));
                    }
                }
            }
            v.push(on_space("vector norms are refused for", list("matrices with more than one column", "all shapes up to 12 x 2..12, three kinds", ms), refuse));
            // approximate equality
            let vals = approx_values();
            let k = vals.len() as u64;
            let vals2 = vals.clone();
            v.push(family("ApproxEq of all pairs of values", k * k, format!("{} values (zeros, neighbours of the epsilon, infinities, NaN) x 10 epsilons, f64 and f32", k), move |i| format!("{:?} {:?}", vals[(i % k) as usize], vals[(i / k) as usize]), move |i, c| {
                let (x, y) = (vals2[(i % k) as usize], vals2[(i / k) as usize]);
                c.state(&(x.to_bits(), y.to_bits()));
                approx64(c, x, y)?;
                approx32(c, x, y)?;
                c.trace();
                c.nontrivial += (x != y) as u64;
                Ok(())
            }));
            let n = tier.pick(7usize, 10);
            let s2 = move |i: u64| {
                let k = n as u64;
                ((i % k + 1) as usize, (i / k % k + 1) as usize, (i / k / k % k + 1) as usize, (i / k / k / k % k + 1) as usize)
            };
            v.push(family("approx_eq of all pairs of shapes", (n as u64).pow(4) * 2, format!("all shapes up to {0}x{0} against each other, ones and zeros", n), move |i| format!("{:?} kind {}", s2(i / 2), i % 2), move |i, c| {
                let (a, b, x, y) = s2(i / 2);
                c.state(&(a, b, x, y, i % 2));
                let z = (i % 2) as f64;
                mat_approx(&M::from_fn(a, b, |_, _| z), &M::from_fn(x, y, |_, _| z), c)
            }));
            const DELTA: [f64; 10] = [0.0, 9.9e-7, 1.1e-6, -9.9e-7, -1.1e-6, 1.0, -1.0, 1e-9, f64::NAN, f64::INFINITY];
            let mut ix = vec![];
            for s in 1..=tier.pick(14usize, 24) {
                for t in 1..=tier.pick(14usize, 24) {
                    for p in 0..s * t {
                        ix.push((s, t, p));
                    }
                }
            }
            for &(s, t) in &[(300, 1), (1, 300), (33, 9), (17, 17), (5, 60), (1, 1100), (1100, 1), (33, 33), (65, 64), (2, 600)] {
                for p in 0..s * t {
                    ix.push((s, t, p));
                }
            }
            let ix2 = ix.clone();
            v.push(family("approx_eq with one difference at every position", ix.len() as u64 * 10, "all shapes in the bound and ten larger ones, every position, 10 differences", move |i| format!("{:?} {:?}", ix[i as usize / 10], DELTA[i as usize % 10]), move |i, c| {
                let (s, t, p) = ix2[i as usize / 10];
                c.state(&(s, t, p, i % 10));
                let a = M::from_fn(s, t, |i, j| ((i * 5 + j * 3) % 7) as f64 * 0.5 - 1.0);
                let mut b = a.clone();
                b.d[p] += DELTA[i as usize % 10];
                mat_approx(&a, &b, c)
            }));
            let li: &[f64] = &[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.0];
            for (r, k) in [(1usize, 2usize), (2, 1), (1, 3)] {
                let sp = alphabet(r, k, "", li);
                let n = sp.total;
                let (g1, g2) = (sp.get.clone(), sp.get.clone());
                v.push(family(format!("== and approx_eq of all pairs of {r}x{k} over {{0,-0,NaN,inf,-inf,1}}"), n * n, "all pairs", move |i| format!("{:?} {:?}", g1(i % n), g1(i / n)), move |i, c| {
                    c.state(&(r, k, i, 1));
                    mat_approx(&g2(i % n), &g2(i / n), c)
                }));
            }
            let lm: &[f64] = &[0.0, 5e-7, 2e-6, -1.0];
            let sp = alphabet(2, 2, "", lm);
            let (g1, g2) = (sp.get.clone(), sp.get.clone());
            v.push(family("approx_eq of all pairs of 2x2 over {0,5e-7,2e-6,-1}", 65536, "all pairs", move |i| format!("{:?} {:?}", g1(i % 256), g1(i / 256)), move |i, c| {
                c.state(&(i, 1));
                mat_approx(&g2(i % 256), &g2(i / 256), c)
            }));
            // symmetry
            v.push(on_space("symmetry", alphabet(2, 2, "{0,5e-7,2e-6,-1,1e9}", &[0.0, 5e-7, 2e-6, -1.0, 1e9]), sym));
            v.push(on_space("symmetry", alphabet(3, 3, "{0,5e-7,2e-6,1}", &[0.0, 5e-7, 2e-6, 1.0]), sym));
            v.push(on_space("symmetry", alphabet(4, 4, "{0,1}", &L2), sym));
            let mut ix = squares_index(tier.pick(20, 40));
            for s in [257usize, 300] {
                ix.extend((0..s * s).map(|k| (s, k / s, k % s)).filter(|x| [0, 1, s - 1].contains(&x.1) || [0, s - 1].contains(&x.2) || (x.1 + 1 == x.2 && x.1 % 16 == 0) || (x.1 >= 254 && x.1 < 258 && x.2 % 3 == 0)));
            }
            for s in [32usize, 33, 64, 65, 129] {
                ix.extend((0..s * s).map(|k| (s, k / s, k % s)));
            }
            let ix2 = ix.clone();
            v.push(family("symmetry with one difference at every position", ix.len() as u64 * 10, "all squares in the bound, every position, 10 differences", move |i| format!("{:?} {:?}", ix[i as usize / 10], DELTA[i as usize % 10]), move |i, c| {
                let (s, a, b) = ix2[i as usize / 10];
                let d = DELTA[i as usize % 10];
                if a == b && !d.is_finite() {
                    c.skip("NaN or infinity on the diagonal");
                    return Ok(());
                }
                c.state(&(s, a, b, i % 10, 2));
                let mut m = base(s, s);
                let x = m.at(a, b) + d;
                m.set(a, b, x);
                sym(&m, c)
            }));
            let n = tier.pick(20u64, 40);
            v.push(family("symmetry of every shape", n * n * 3, format!("all shapes up to {0}x{0}, three kinds", n), move |i| format!("{}x{} kind {}", i / 3 % n + 1, i / 3 / n + 1, i % 3), move |i, c| {
                let (r, k) = ((i / 3 % n + 1) as usize, (i / 3 / n + 1) as usize);
                c.state(&(r, k, i % 3, 3));
                sym(&match i % 3 {
                    0 => base(r, k),
                    1 => M::from_fn(r, k, |_, _| 0.0),
                    _ => M::from_fn(r, k, |i, j| (i * k + j) as f64),
                }, c)
            }));
            v
        },
    )
}
