//! C05: the matrix product is the exact row-by-column sum for every shape.
#[macro_use]
extern crate mc;
use la::Matrix;
use mc::engine::*;
use mc::model::M;
use mc::scalars::{Gf, Poly};
use mc::spaces::*;
use mc::tags::*;
use std::fmt::Debug;
use std::ops::*;

trait El: num::Num + Neg<Output = Self> + Copy + Debug + PartialEq {}
impl<T: num::Num + Neg<Output = T> + Copy + Debug + PartialEq> El for T {}

fn forms<T: El>(c: &mut Ctx, a: &M<T>, b: &M<T>, e: &M<T>, eq: &dyn Fn(&T, &T) -> bool) -> Res {
    let (ma, mb) = (a.real(), b.real());
    let chk = |m: &Matrix<T>, w: &str| e.same_by(m, w, |x, y| eq(x, y)).map_err(|x| format!("{} for A = {:?}, B = {:?}", x, a, b));
    chk(&(&ma * &mb), "&a * &b")?;
    chk(&(a.real() * &mb), "a * &b")?;
    chk(&(&ma * b.real()), "&a * b")?;
    chk(&(a.real() * b.real()), "a * b")?;
    let mut m = a.real();
    m.mmul(&mb);
    chk(&m, "mmul")?;
    c.call(5);
    c.trace();
    a.same_by(&ma, "left operand", |x, y| eq(x, y))?;
    b.same_by(&mb, "right operand", |x, y| eq(x, y))
}
fn prod<T: El>(a: &M<T>, b: &M<T>) -> M<T> {
    a.mul_by(b, T::zero(), |s, x, y| s + x * y)
}
fn exact<T: El>(c: &mut Ctx, a: &M<T>, b: &M<T>) -> Res {
    forms(c, a, b, &prod(a, b), &|x, y| x == y)
}
/// NaN where the sum is NaN, the same infinity, the same finite value up to rounding
fn float(c: &mut Ctx, a: &M<f64>, b: &M<f64>) -> Res {
    let e = prod(a, b);
    let unit = prod(&a.abs(), &b.abs());
    forms(c, a, b, &e, &|x, y| {
        if x.is_nan() || y.is_nan() {
            x.is_nan() && y.is_nan()
        } else if x.is_infinite() || y.is_infinite() {
            x == y
        } else {
            // (the unit is not indexed: the largest one bounds every element's rounding)
            (x - y).abs() <= 1e-13 * unit.d.iter().filter(|v| v.is_finite()).fold(0.0, |m: f64, v| m.max(*v))
        }
    })
}

fn main() {
    run_check(
        Spec {
            id: "C05",
            level: "model_checking",
            rule: "symbolic entries decide a shape for all commutative rings, matrix-ring entries the order of the factors; value alphabets decide value shortcuts",
            assumptions: &["no collisions among 256-bit pseudo-random ring elements"],
        },
        |tier| {
            let mut v = vec![];
            // polynomial entries: one run per shape decides the identity for every commutative ring
            let n = tier.pick(5u64, 7);
            v.push(family("symbolic entries, every conforming shape", n * n * n, format!("all (m, k, n) up to {n}, entries are independent indeterminates over Z"), move |i| format!("{}x{} * {}x{}", i % n + 1, i / n % n + 1, i / n % n + 1, i / n / n + 1), move |i, c| {
                let (m, k, n) = ((i % n + 1) as usize, (i / n % n + 1) as usize, (i / n / n + 1) as usize);
                Poly::reset();
                c.state(&(m, k, n));
                c.nontrivial += 1;
                let a = M::from_fn(m, k, |_, _| Poly::var());
                let b = M::from_fn(k, n, |_, _| Poly::var());
                exact(c, &a, &b)?;
                if m == k && k == n {
                    exact(c, &a, &a)?;
                    // the same object on both sides
                    let r = a.real();
                    prod(&a, &a).same(&(&r * &r), "&a * &a")?;
                }
                Ok(())
            }));
            // non-commutative entries
            let n = tier.pick(14u64, 24);
            v.push(family("non-commutative entries, every conforming shape", n * n * n, format!("all (m, k, n) up to {n}, entries in the ring of 2x2 matrices over Z/2^64"), move |i| format!("{}x{} * {}x{}", i % n + 1, i / n % n + 1, i / n % n + 1, i / n / n + 1), move |i, c| {
                let (m, k, n) = ((i % n + 1) as usize, (i / n % n + 1) as usize, (i / n / n + 1) as usize);
                c.state(&(m, k, n));
                c.nontrivial += 1;
                exact(c, &M::from_fn(m, k, |i, j| Nc::tag((i * k + j) as u64)), &M::from_fn(k, n, |i, j| Nc::tag((i * n + j + 100000) as u64)))?;
                if m == k && k == n {
                    // an object with itself, also after it was changed by itself
                    let a = M::from_fn(m, k, |i, j| Nc::tag((i * k + j + 7000) as u64));
                    let mut r = a.real();
                    let e = prod(&a, &a);
                    e.same(&(&r * &r), "&a * &a")?;
                    r = &r * &r;
                    prod(&e, &e).same(&(&r * &r), "&a * &a of a product")?;
                    c.call(2);
                }
                Ok(())
            }));
            // an object with itself
            let al = [0.0, 1.0, -1.0, 2.5, f64::INFINITY, f64::NAN];
            let l2 = 6u64.pow(4);
            let l3 = tier.pick(4u64, 5).pow(9);
            v.push(family("all 2x2 and 3x3 multiplied by themselves, as one object", l2 + l3, tier.pick("2x2 over 0, 1, -1, 2.5, inf, NaN, 3x3 over the first 4", "2x2 over 0, 1, -1, 2.5, inf, NaN, 3x3 over the first 5"), move |i| format!("number {}", i), move |i, c| {
                let (n, l, i) = if i < l2 { (2, 6, i) } else { (3, tier.pick(4u64, 5), i - l2) };
                let mut k = i;
                let a = M::from_fn(n, n, |_, _| {
                    let x = al[(k % l) as usize];
                    k /= l;
                    x
                });
                c.state(&(n, i));
                c.nontrivial += 1;
                let r = a.real();
                let e = prod(&a, &a);
                c.call(1);
                e.same_by(&(&r * &r), "&a * &a", |x, y| x == y || (x.is_nan() && y.is_nan()) || (x - y).abs() < 1e-13).map_err(|x| format!("{} for {:?}", x, a))
            }));
            let mut big: Vec<(usize, usize, usize)> = vec![];
            let ns = tier.pick(vec![1usize, 2, 7, 31, 32, 33, 64, 65, 130], vec![1usize, 2, 3, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 257]);
            for &m in &ns {
                for &k in &ns {
                    for &n in &ns {
                        if m * k * n <= tier.pick(1_000_000, 5_000_000) {
                            big.push((m, k, n));
                        }
                    }
                }
            }
            big.extend_from_slice(&[(1, 5000, 1), (300, 1, 300), (2, 1100, 3), (1, 3, 3000), (3000, 3, 1), (70_000, 1, 2), (2, 70_000, 2), (2, 1, 70_000), (1, 66_000, 1), (66_000, 2, 1), (1, 2, 66_000), (257, 2, 257), (300, 1, 300)]);
            let b2 = big.clone();
            v.push(family("large shapes", big.len() as u64, "all combinations of sizes where implementations switch strategy", move |i| format!("{:?}", b2[i as usize]), move |i, c| {
                let (m, k, n) = big[i as usize];
                c.state(&(m, k, n));
                c.nontrivial += 1;
                let f = |s: usize| move |i: usize, j: usize| (mix((i * 70001 + j * 3 + s) as u64) % 2001) as i64 - 1000;
                exact(c, &M::from_fn(m, k, f(1)), &M::from_fn(k, n, f(99)))?;
                if m == k && k == n {
                    let a = M::from_fn(m, k, f(5));
                    let r = a.real();
                    prod(&a, &a).same(&(&r * &r), "&a * &a")?;
                }
                if m * k * n <= 100_000 {
                    exact(c, &M::from_fn(m, k, |i, j| Nc::tag((i * k + j) as u64)), &M::from_fn(k, n, |i, j| Nc::tag((i * n + j + 10_000_000) as u64)))?;
                }
                Ok(())
            }));
            // one infinity or NaN anywhere in long sums: it reaches its own row or column and no other
            let longs: Vec<(usize, usize)> = tier.pick(vec![17, 40, 70, 131, 260, 520, 1100], vec![17, 40, 70, 131, 260, 520, 1100, 2100, 4200]).into_iter().flat_map(|k| (0..k).map(move |x| (k, x))).collect();
            let l2 = longs.clone();
            v.push(family("one infinity or NaN in long sums", longs.len() as u64, "inner dimensions up to 1100 (4200), each position in every row of the left and every column of the right operand, 3 rows and 2 columns", move |i| format!("inner dimension {}, position {}", l2[i as usize].0, l2[i as usize].1), move |i, c| {
                let (k, x) = longs[i as usize];
                c.state(&(k, x, "long"));
                c.nontrivial += 1;
                let (a, b) = (M::from_fn(3, k, |i, j| ((i * 3 + j * 5) % 11) as f64 - 4.5), M::from_fn(k, 2, |i, j| ((i * 7 + j) % 13) as f64 - 5.5));
                let y = if x % 2 == 0 { f64::INFINITY } else { f64::NAN };
                for r in 0..3 {
                    let mut a = a.clone();
                    a.d[r * k + x] = y;
                    float(c, &a, &b)?;
                }
                for r in 0..2 {
                    let mut b = b.clone();
                    b.d[x * 2 + r] = y;
                    float(c, &a, &b)?;
                }
                Ok(())
            }));
            // all small operands over an alphabet with NaN and infinities
            for (m, k, n) in tier.pick(vec![(2, 2, 1), (1, 3, 1), (1, 2, 2), (2, 1, 2)], vec![(2, 2, 1), (1, 3, 1), (1, 2, 2), (2, 1, 2), (2, 2, 2), (1, 4, 1), (2, 3, 1)]) {
                let al = [0.0, 1.0, -1.0, 2.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN];
                let l = if m * k + k * n > 7 { 6u64 } else { 7 };
                let al: Vec<f64> = if l == 6 { vec![0.0, 1.0, -1.0, 2.5, f64::INFINITY, f64::NAN] } else { al.to_vec() };
                let dec = move |mut i: u64| {
                    let mut d = vec![];
                    for _ in 0..m * k + k * n {
                        d.push(al[(i % l) as usize]);
                        i /= l;
                    }
                    let b = d.split_off(m * k);
                    (M::new(m, k, d), M::new(k, n, b))
                };
                let d2 = dec.clone();
                v.push(family(format!("all {m}x{k} * {k}x{n} over 0, 1, -1, 2.5, inf, NaN"), l.pow((m * k + k * n) as u32), format!("{l} letters in every position of both operands"), move |i| format!("{:?}", d2(i)), move |i, c| {
                    let (a, b) = dec(i);
                    c.nontrivial += 1;
                    c.state(&(i, m, k, n));
                    float(c, &a, &b)
                }));
            }
            // every special pair in every product position
            let sp = special_f64();
            let l = sp.len() as u64;
            let shapes: Vec<(usize, usize, usize)> = vec![(1, 1, 1), (2, 2, 2), (2, 3, 2), (3, 2, 1), (1, 4, 3), (3, 3, 3), (4, 4, 4), (5, 5, 5), (8, 8, 8)];
            let shapes: Vec<_> = shapes.into_iter().filter(|s| tier.thorough() || s.0 < 5).collect();
            let mut pos = vec![];
            for &(m, k, n) in &shapes {
                for i in 0..m {
                    for j in 0..k {
                        for q in 0..n {
                            pos.push((m, k, n, i, j, q));
                        }
                    }
                }
            }
            let (p2, s2) = (pos.clone(), sp.clone());
            v.push(family("every pair of special floats in every product", l * l * pos.len() as u64, format!("{} special values squared at every (i, k, j) of {} shapes", l, shapes.len()), move |i| format!("{:?} * {:?} at {:?}", s2[(i % l) as usize], s2[(i / l % l) as usize], p2[(i / l / l) as usize]), move |i, c| {
                let (x, y) = (sp[(i % l) as usize], sp[(i / l % l) as usize]);
                let (m, k, n, a, b, d) = pos[(i / l / l) as usize];
                let mut p = M::from_fn(m, k, |i, j| (i * 2 + j) as f64 * 0.25 - 0.75);
                let mut q = M::from_fn(k, n, |i, j| (i + j * 3) as f64 * 0.5 + 0.25);
                p.set(a, b, x);
                q.set(b, d, y);
                c.state(&i);
                c.nontrivial += 1;
                float(c, &p, &q)
            }));
            // structured operands against one special value: what a shortcut for zeros and identities would miss
            let sp = [f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -0.0, f64::MAX, 5e-324];
            let mut items: Vec<(usize, usize, usize, usize, usize)> = vec![];
            for k in 1..tier.pick(6usize, 9) {
                for n in 1..tier.pick(6usize, 9) {
                    for kind in 0..12 {
                        for idx in 0..k.max(n) {
                            if kind < 7 && idx > 0 {
                                continue;
                            }
                            for m in [k, k + 1, 1] {
                                items.push((m, k, n, kind, idx));
                            }
                        }
                    }
                }
            }
            let i2 = items.clone();
            v.push(family("structured operands (zero, unit, identity, permutation, a zero row or column) against one special value", items.len() as u64, "12 kinds of k x n operands, each zero or unit row and column, against an operand with inf, -inf, NaN, -0, the largest or the smallest value at every position; both orders (transposed)", move |i| format!("(m, k, n, kind, index) = {:?}", i2[i as usize]), move |i, c| {
                let (m, k, n, kind, idx) = items[i as usize];
                let full = |r: usize, j: usize| (r * 3 + j * 5) as f64 * 0.5 + 1.0;
                let b = M::from_fn(k, n, |r, j| match kind {
                    0 => 0.0,
                    1 => (r == j) as u8 as f64,
                    2 => -((r == j) as u8 as f64),
                    3 => if r == j { full(r, j) } else { 0.0 },
                    4 => ((r + 1) % k.max(1) == j) as u8 as f64,
                    5 => 1.0,
                    6 => -0.0,
                    7 => if r == idx { 0.0 } else { full(r, j) },
                    8 => if j == idx { 0.0 } else { full(r, j) },
                    9 => if r == idx { full(r, j) } else { 0.0 },
                    10 => if j == idx { full(r, j) } else { 0.0 },
                    _ => if j == idx { (r == idx) as u8 as f64 } else { full(r, j) },
                });
                for p in 0..m * k {
                    for s in sp {
                        let mut a = M::from_fn(m, k, |r, j| (r * 2 + j) as f64 * 0.25 - 0.75);
                        a.set(p / k, p % k, s);
                        c.nontrivial += 1;
                        c.state(&(m, k, n, kind, idx, p, s.to_bits()));
                        float(c, &a, &b)?;
                        float(c, &b.t(), &a.t())?;
                    }
                }
                Ok(())
            }));
            // all small operands over a field
            let dec = |mut i: u64, n: usize| {
                let mut d: Vec<Gf<3>> = vec![];
                for _ in 0..2 * n * n {
                    d.push(Gf((i % 3) as u8));
                    i /= 3;
                }
                let b = d.split_off(n * n);
                (M::new(n, n, d), M::new(n, n, b))
            };
            v.push(family("all 2x2 * 2x2 over GF(3)", 6561, "every pair of 2x2 matrices over the field with 3 elements", move |i| format!("{:?}", dec(i, 2)), move |i, c| {
                let (a, b) = dec(i, 2);
                c.state(&(&a, &b));
                c.nontrivial += 1;
                exact(c, &a, &b)
            }));
            // every pattern of zeros, and both operands one object
            for (m, k) in tier.pick(vec![(2usize, 2usize), (3, 3), (2, 4), (4, 2), (4, 4)], vec![(2usize, 2usize), (3, 3), (2, 4), (4, 2), (4, 4), (3, 5), (5, 3)]) {
                v.push(family(format!("every zero pattern of {m}x{k} operands, the same object on both sides included"), 1 << (m * k), "different non-zero integers at the other positions".to_string(), move |i| format!("{m}x{k} pattern {i:b}"), move |i, c| {
                    let a = M::from_fn(m, k, |x, y| if i >> (x * k + y) & 1 == 1 { 2 + 3 * (x * k + y) as i64 } else { 0 });
                    c.state(&(m, k, i));
                    c.nontrivial += 1;
                    let b = M::from_fn(k, m + 1, |x, y| (x * 7 + y * y) as i64 - 5);
                    exact(c, &a, &b)?;
                    exact(c, &b.t(), &a.t())?;
                    let at = a.t();
                    exact(c, &a, &at)?;
                    if m == k {
                        // equal operands that are different objects, too
                        exact(c, &a, &a)?;
                        let e = prod(&a, &a);
                        let r = a.real();
                        e.same(&(&r * &r), "&a * &a")?;
                        e.same(&(r.clone() * &r), "a * &a")?;
                        e.same(&(&r * r.clone()), "&a * a")?;
                        prod(&e, &a).same(&(&(&r * &r) * &r), "&a * &a * &a")?;
                        c.call(4);
                        a.same(&r, "the operand")?;
                    }
                    Ok(())
                }));
            }
            // larger ones: up to two positions differ from a regular pattern
            let bases: Vec<(&'static str, fn(usize, usize) -> bool)> = vec![("zero", |_, _| false), ("diagonal", |i, j| i == j), ("upper", |i, j| i <= j), ("lower", |i, j| i >= j), ("tridiagonal", |i, j| i <= j + 1 && j <= i + 1), ("hessenberg", |i, j| i <= j + 1), ("full", |_, _| true), ("antidiagonal", |i, j| (i + j) % 5 == 4), ("permutation", |i, j| j == (i + 1) % 5)];
            for n in tier.pick(5usize..8, 5usize..12) {
                let p = (n * n) as u64;
                let b = bases.clone();
                let nb = bases.len() as u64;
                v.push(family(format!("regular zero patterns of {n}x{n} with one or two positions changed"), nb * p * p, format!("{nb} patterns, every pair of positions, the same object on both sides and different ones"), move |i| format!("{n}x{n} {} with {} and {} changed", b[(i % nb) as usize].0, i / nb % p, i / nb / p), {
                    let bases = bases.clone();
                    move |i, c| {
                        let (x, y) = ((i / nb % p) as usize, (i / nb / p) as usize);
                        if x < y {
                            return Ok(());
                        }
                        let f = bases[(i % nb) as usize].1;
                        let a = M::from_fn(n, n, |r, k| if f(r, k) != (r * n + k == x || r * n + k == y) { 2 + 3 * (r * n + k) as i64 } else { 0 });
                        c.state(&(n, i));
                        c.nontrivial += 1;
                        let r = a.real();
                        prod(&a, &a).same(&(&r * &r), "&a * &a")?;
                        exact(c, &a, &a)?;
                        let full = M::from_fn(n, n, |r, k| (r * 7 + k * k) as i64 - 5);
                        exact(c, &a, &full)?;
                        exact(c, &full, &a)?;
                        exact(c, &a, &a.t())
                    }
                }));
            }
            // zero and unit patterns in larger operands (sparse shortcuts)
            let pats: Vec<(usize, u64)> = (0..tier.pick(300, 3000u64)).map(|s| (2 + (s % 9) as usize, s)).collect();
            let p2 = pats.clone();
            v.push(family("zero and unit patterns", pats.len() as u64, "square operands of 2..10 rows with every third element 0 or 1, all zero rows and columns, identities", move |i| format!("{:?}", p2[i as usize]), move |i, c| {
                let (n, s) = pats[i as usize];
                let f = |salt: u64| {
                    M::from_fn(n, n, |i, j| match (mix(s * 1000 + salt + (i * n + j) as u64) % 5, s % 7) {
                        (_, 0) => (i == j) as i64,
                        (_, 1) if i == (s / 7) as usize % n => 0,
                        (_, 2) if j == (s / 7) as usize % n => 0,
                        (0, _) | (1, _) => 0,
                        (2, _) => 1,
                        (3, _) => -1,
                        (x, _) => (x + i as u64 * 3 + j as u64) as i64,
                    })
                };
                c.state(&(n, s));
                c.nontrivial += 1;
                exact(c, &f(1), &f(1))?;
                exact(c, &f(1), &f(500))
            }));
            // inner dimensions that differ
            let n = tier.pick(6usize, 9);
            let ss = shapes_upto(n, n);
            let l = ss.len() as u64;
            let s2 = ss.clone();
            v.push(family("every pair of shapes with different inner dimensions is refused", l * l, format!("all pairs of shapes up to {n}x{n}"), move |i| format!("{:?} * {:?}", s2[(i / l) as usize], s2[(i % l) as usize]), move |i, c| {
                let (s, t) = (ss[(i / l) as usize], ss[(i % l) as usize]);
                if s.1 == t.0 {
                    return Ok(());
                }
                let ea = M::from_fn(s.0, s.1, |i, j| Nc::tag((i * s.1 + j) as u64));
                let eb = M::from_fn(t.0, t.1, |i, j| Nc::tag((i * t.1 + j) as u64 + 500));
                let (a, b) = (ea.real(), eb.real());
                let w = |x: &'static str| move || format!("{} of {:?} and {:?}", x, s, t);
                must_reject(w("&a * &b"), || &a * &b)?;
                must_reject(w("a * &b"), || a.clone() * &b)?;
                must_reject(w("&a * b"), || &a * b.clone())?;
                must_reject(w("a * b"), || a.clone() * b.clone())?;
                let mut m = a.clone();
                must_reject(w("mmul"), || m.mmul(&b))?;
                c.call(5);
                c.trace();
                c.nontrivial += 1;
                c.state(&(s, t));
                ea.same(&m, "left operand of a refused mmul")?;
                ea.same(&a, "left operand")?;
                eb.same(&b, "right operand")
            }));
            mc::model::and_roomy(v)
        },
    )
}
