//! C04: element-wise arithmetic is the scalar operation at every position.
#[macro_use]
extern crate mc;
use la::Matrix;
use mc::engine::*;
use mc::model::M;
use mc::spaces::*;
use mc::tags::*;
use std::fmt::Debug;
use std::ops::*;

trait El: num::Num + Neg<Output = Self> + Copy + Debug + PartialEq {}
impl<T: num::Num + Neg<Output = T> + Copy + Debug + PartialEq> El for T {}

/// every operation and ownership form on one pair of conforming operands
fn pair<T: El>(c: &mut Ctx, a: &M<T>, b: &M<T>, f: T, eq: &dyn Fn(&T, &T) -> bool) -> Res {
    let (ma, mb) = (a.real(), b.real());
    let chk = |e: &M<T>, m: &Matrix<T>, w: &str| e.same_by(m, w, |x, y| eq(x, y));
    let add = a.zip(b, |x, y| x + y);
    chk(&add, &(&ma + &mb), "&a + &b")?;
    chk(&add, &(a.real() + &mb), "a + &b")?;
    chk(&add, &(&ma + b.real()), "&a + b")?;
    chk(&add, &(a.real() + b.real()), "a + b")?;
    let sub = a.zip(b, |x, y| x - y);
    chk(&sub, &(&ma - &mb), "&a - &b")?;
    chk(&sub, &(a.real() - &mb), "a - &b")?;
    chk(&sub, &(&ma - b.real()), "&a - b")?;
    chk(&sub, &(a.real() - b.real()), "a - b")?;
    let neg = a.map(|x| -x);
    chk(&neg, &-&ma, "-&a")?;
    chk(&neg, &-(a.real()), "-a")?;
    let sc = a.map(|x| f * x);
    chk(&sc, &ma.scale(f), "scale")?;
    let em = a.zip(b, |x, y| x * y);
    chk(&em, &ma.elem_mul(&mb), "elem_mul")?;
    let ed = a.zip(b, |x, y| x / y);
    chk(&ed, &ma.elem_div(&mb), "elem_div")?;
    let inplace = |w: &str, e: &M<T>, g: &dyn Fn(&mut Matrix<T>)| {
        let mut m = a.real();
        g(&mut m);
        chk(e, &m, w)
    };
    inplace("madd", &add, &|m| m.madd(&mb))?;
    inplace("msub", &sub, &|m| m.msub(&mb))?;
    inplace("mneg", &neg, &|m| m.mneg())?;
    inplace("mscale", &sc, &|m| m.mscale(f))?;
    inplace("melem_mul", &em, &|m| m.melem_mul(&mb))?;
    inplace("melem_div", &ed, &|m| m.melem_div(&mb))?;
    // an operand combined with itself
    chk(&a.zip(a, |x, y| x + y), &(&ma + &ma), "&a + &a")?;
    chk(&a.zip(a, |x, y| x - y), &(&ma - &ma), "&a - &a")?;
    chk(&a.zip(a, |x, y| x * y), &ma.elem_mul(&ma), "a.elem_mul(&a)")?;
    chk(&a.zip(a, |x, y| x / y), &ma.elem_div(&ma), "a.elem_div(&a)")?;
    c.call(23);
    c.trace();
    chk(a, &ma, "left operand afterwards")?;
    chk(b, &mb, "right operand afterwards")
}
fn maps(c: &mut Ctx, r: usize, k: usize) -> Res {
    let a = tags(r, k, 10);
    let mut m = a.real();
    a.map(|t| mix(t.0 as u64)).same(&m.map(&|t: &Tag| mix(t.0 as u64)), "map to another type")?;
    a.map(|t| t.0 % 3 == 0).same(&m.map(&|t: &Tag| t.0 % 3 == 0), "map to bool")?;
    a.map(|t| [t.0 as u64; 4]).same(&m.map(&|t: &Tag| [t.0 as u64; 4]), "map to a larger type")?;
    a.same(&m, "source of map")?;
    // reduce: order of rows and of arguments shows
    let init: Vec<u64> = (0..k).map(|j| mix(j as u64 + 77)).collect();
    let g = |s: u64, t: Tag| mix(s ^ 0x55).wrapping_mul(3).wrapping_add(mix(t.0 as u64 + 9));
    let e = M::from_fn(1, k, |_, j| (0..r).fold(init[j], |s, i| g(s, a.at(i, j))));
    let i2 = init.clone();
    e.same(&m.reduce(&init, &|s: &u64, t: &Tag| g(*s, *t)), "reduce")?;
    ensure!(init == i2, "reduce changed its initial values");
    a.same(&m, "source of reduce")?;
    let sums = M::from_fn(1, k, |_, j| (0..r).map(|i| a.at(i, j).0 as i64).sum::<i64>());
    sums.same(&m.reduce(&vec![0i64; k], &|s: &i64, t: &Tag| s + t.0 as i64), "reduce (sum)")?;
    let first = M::from_fn(1, k, |_, j| Some(a.at(0, j)));
    first.same(&m.reduce(&vec![None; k], &|s: &Option<Tag>, t: &Tag| s.or(Some(*t))), "reduce (first)")?;
    // once per element
    let seen = std::cell::RefCell::new(vec![]);
    let _ = m.map(&|t: &Tag| {
        seen.borrow_mut().push(*t);
        0u8
    });
    let once = |s: &std::cell::RefCell<Vec<Tag>>, what: &str| -> Res {
        let mut s = std::mem::take(&mut *s.borrow_mut());
        let mut w = a.d.clone();
        s.sort_by_key(|t| t.0);
        w.sort_by_key(|t| t.0);
        ensure!(s == w, "{} called its function {} times for {} elements, or not once for each", what, s.len(), w.len());
        Ok(())
    };
    once(&seen, "map")?;
    m.mmap(&|t: &Tag| {
        seen.borrow_mut().push(*t);
        Tag(t.0.wrapping_mul(31) ^ 5)
    });
    once(&seen, "mmap")?;
    a.map(|t| Tag(t.0.wrapping_mul(31) ^ 5)).same(&m, "mmap")?;
    c.call(7);
    c.trace();
    Ok(())
}
fn must<T: Copy>(w: &str, a: &Matrix<T>, b: &Matrix<T>, f: impl FnOnce()) -> Res {
    must_reject(|| format!("{} of {}x{} and {}x{}", w, a.rows(), a.cols(), b.rows(), b.cols()), f)
}

fn main() {
    run_check(
        Spec {
            id: "C04",
            level: "model_checking",
            rule: "free terms decide every element value at once per shape; special float pairs are enumerated at every position; non-trivial cases have more than one row and column or a special value",
            assumptions: &["hash values of the free terms do not collide (64 bits)"],
        },
        |tier| {
            let mut v = vec![];
            let n = tier.pick(40, 96);
            let mut ss = shapes_upto(n, n);
            ss.extend(big_shapes());
            ss.extend(huge_shapes());
            ss.sort();
            ss.dedup();
            let s2 = ss.clone();
            let s3 = ss.clone();
            let s4 = ss.clone();
            v.push(family("free terms on every shape", ss.len() as u64, format!("shapes up to {n}x{n} and {} large ones, every operation and ownership form", big_shapes().len() + huge_shapes().len()), move |i| format!("{:?}", s2[i as usize]), move |i, c| {
                let (r, k) = ss[i as usize];
                c.state(&(r, k));
                c.nontrivial += (r > 1 && k > 1) as u64;
                let (a, b) = (frees(r, k, 1), frees(r, k, 2));
                pair(c, &a, &b, Fr(999), &|x, y| x == y)?;
                if r <= 12 && k <= 12 {
                    // equal elements, the units, and integers of several widths
                    pair(c, &M::from_fn(r, k, |_, _| Fr(5)), &b, Fr(0), &|x, y| x == y)?;
                    pair(c, &M::from_fn(r, k, |i, j| Fr(((i + j) % 2) as u64)), &M::from_fn(r, k, |i, j| Fr(((i * j) % 2) as u64)), Fr(1), &|x, y| x == y)?;
                    pair(c, &M::from_fn(r, k, |i, j| (i * 3 + j) as i32 + 4), &M::from_fn(r, k, |i, j| (i + j * 2) as i32 + 1), -3, &|x, y| x == y)?;
                    pair(c, &M::from_fn(r, k, |i, j| ((i * 3 + j) % 5) as i8 + 1), &M::from_fn(r, k, |i, j| (i + j) as i8 % 3 + 1), -1, &|x, y| x == y)?;
                    pair(c, &M::from_fn(r, k, |i, j| (i * 3 + j) as i64 * 1000 + 7), &M::from_fn(r, k, |i, j| (i + j * 2) as i64 + 1), 1 << 20, &|x, y| x == y)?;
                    pair(c, &M::from_fn(r, k, |i, j| (i * 3 + j) as f64 * 0.1), &M::from_fn(r, k, |i, j| (i + j * 2) as f64 * 0.3 - 1.0), 0.1, &|x, y| same_f64(x, y))?;
                    pair(c, &M::from_fn(r, k, |i, j| (i * 3 + j) as f32 * 0.1), &M::from_fn(r, k, |i, j| (i + j * 2) as f32 * 0.3 - 1.0), 0.1, &|x, y| x == y || (x.is_nan() && y.is_nan()))?;
                }
                Ok(())
            }));
            v.push(family("map, mmap and reduce on every shape", s3.len() as u64, format!("shapes up to {n}x{n} and large ones, closures of several result types"), move |i| format!("{:?}", s4[i as usize]), move |i, c| {
                let (r, k) = s3[i as usize];
                c.state(&(r, k));
                c.nontrivial += (r > 1 && k > 1) as u64;
                maps(c, r, k)
            }));
            // every pair of special values at every position
            let sp = special_f64();
            let l = sp.len() as u64;
            let shapes: Vec<(usize, usize)> = if tier.thorough() { shapes_upto(4, 5) } else { vec![(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (4, 4)] };
            let mut pos: Vec<(usize, usize, usize)> = vec![];
            for &(r, k) in &shapes {
                for p in 0..r * k {
                    pos.push((r, k, p));
                }
            }
            let (p2, sp2) = (pos.clone(), sp.clone());
            v.push(family("every pair of special floats at every position", l * l * pos.len() as u64, format!("{} special values squared, every position of {} shapes, each pair also as scale factor", l, shapes.len()), move |i| format!("{:?}, {:?} at {:?}", sp2[(i % l) as usize], sp2[(i / l % l) as usize], p2[(i / l / l) as usize]), move |i, c| {
                let (x, y) = (sp[(i % l) as usize], sp[(i / l % l) as usize]);
                let (r, k, p) = pos[(i / l / l) as usize];
                let mut a = M::from_fn(r, k, |i, j| (i * 2 + j) as f64 * 0.7 - 1.1);
                let mut b = M::from_fn(r, k, |i, j| (i + j * 3) as f64 * 0.3 + 0.2);
                a.d[p] = x;
                b.d[p] = y;
                c.state(&(x.to_bits(), y.to_bits(), r, k, p));
                c.nontrivial += 1;
                pair(c, &a, &b, y, &|x, y| same_f64(x, y))?;
                // all elements special
                pair(c, &a.map(|_| x), &b.map(|_| y), x, &|x, y| same_f64(x, y))
            }));
            // different shapes are refused
            let n = tier.pick(6usize, 9);
            let ss = shapes_upto(n, n);
            let l = ss.len() as u64;
            let s2 = ss.clone();
            v.push(family("every pair of different shapes is refused", l * l, format!("all pairs of shapes up to {n}x{n}"), move |i| format!("{:?} with {:?}", s2[(i / l) as usize], s2[(i % l) as usize]), move |i, c| {
                let (s, t) = (ss[(i / l) as usize], ss[(i % l) as usize]);
                if s == t {
                    return Ok(());
                }
                let (ea, eb) = (frees(s.0, s.1, 1), frees(t.0, t.1, 2));
                let (a, b) = (ea.real(), eb.real());
                must("&a + &b", &a, &b, || drop(&a + &b))?;
                must("a + &b", &a, &b, || drop(a.clone() + &b))?;
                must("&a + b", &a, &b, || drop(&a + b.clone()))?;
                must("a + b", &a, &b, || drop(a.clone() + b.clone()))?;
                must("&a - &b", &a, &b, || drop(&a - &b))?;
                must("a - &b", &a, &b, || drop(a.clone() - &b))?;
                must("&a - b", &a, &b, || drop(&a - b.clone()))?;
                must("a - b", &a, &b, || drop(a.clone() - b.clone()))?;
                must("elem_mul", &a, &b, || drop(a.elem_mul(&b)))?;
                must("elem_div", &a, &b, || drop(a.elem_div(&b)))?;
                let mut m = a.clone();
                must("madd", &a, &b, || m.madd(&b))?;
                must("msub", &a, &b, || m.msub(&b))?;
                must("melem_mul", &a, &b, || m.melem_mul(&b))?;
                must("melem_div", &a, &b, || m.melem_div(&b))?;
                ea.same(&m, "left operand of refused in-place operations")?;
                ea.same(&a, "left operand")?;
                eb.same(&b, "right operand")?;
                c.call(14);
                c.trace();
                c.nontrivial += 1;
                c.state(&(s, t));
                Ok(())
            }));
            let n = tier.pick(9u64, 14);
            v.push(family("reduce with every number of initial values", n * n * (n + 4), format!("shapes up to {n}x{n}, 0..{} initial values", n + 4), move |i| format!("{}x{}, {} initial values", i % n + 1, i / n % n + 1, i / n / n), move |i, c| {
                let (r, k, l) = ((i % n + 1) as usize, (i / n % n + 1) as usize, (i / n / n) as usize);
                let e = tags(r, k, 1);
                let m = e.real();
                c.call(1);
                c.trace();
                c.state(&(r, k, l));
                c.nontrivial += 1;
                let f = |s: &u64, t: &Tag| s.wrapping_mul(7) + t.0 as u64;
                if l == k {
                    M::from_fn(1, k, |_, j| (0..r).fold(5u64, |s, i| f(&s, &e.at(i, j)))).same(&m.reduce(&vec![5; k], &f), "reduce")
                } else {
                    must_reject(|| format!("reduce of {}x{} with {} initial values", r, k, l), || m.reduce(&vec![5u64; l], &f))
                }
            }));
            mc::model::and_roomy(v)
        },
    )
}
