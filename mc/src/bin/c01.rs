//! C01: constructors build exactly the described matrix, or refuse.
#[macro_use]
extern crate la;
#[macro_use]
extern crate mc;
use la::Matrix;
use mc::engine::*;
use mc::model::M;
use mc::scalars::{Gf, Q};
use mc::spaces::*;
use mc::tags::*;
include!("../lits.rs");

fn e_mark<T: num::Num + Copy>(r: usize, c: usize, d: impl Fn(usize) -> T) -> M<T> {
    M::from_fn(r, c, |i, j| if i == j { d(i) } else { T::zero() })
}
/// all numeric constructors of one shape with element type T
fn numeric<T: num::Num + Copy + PartialEq + std::fmt::Debug>(c: &mut Ctx, r: usize, k: usize, of: impl Fn(usize) -> T) -> Res {
    e_mark(r, k, |_| T::one()).same(&Matrix::<T>::id(r, k), "id")?;
    M::from_fn(r, k, |_, _| T::zero()).same(&Matrix::<T>::zero(r, k), "zero")?;
    let d: Vec<T> = (0..r.min(k)).map(&of).collect();
    e_mark(r, k, |i| d[i]).same(&Matrix::block_diag(r, k, d.clone()), "block_diag")?;
    c.call(3);
    if r == k {
        e_mark(r, r, |i| d[i]).same(&Matrix::diag(d.clone()), "diag")?;
        c.call(1);
    }
    if k == 1 {
        M::from_fn(r, 1, |_, _| T::zero()).same(&Matrix::<T>::zero_vector(r), "zero_vector")?;
        M::from_fn(r, 1, |_, _| T::one()).same(&Matrix::<T>::one_vector(r), "one_vector")?;
        c.call(2);
    }
    Ok(())
}
fn data_ctors<T: Copy + PartialEq + std::fmt::Debug>(c: &mut Ctx, r: usize, k: usize, of: impl Fn(usize) -> T) -> Res {
    let d: Vec<T> = (0..r * k).map(&of).collect();
    M::new(r, k, d.clone()).same(&Matrix::new(r, k, d.clone()), "new")?;
    c.call(1);
    if k == 1 {
        M::new(r, 1, d.clone()).same(&Matrix::vector(d.clone()), "vector")?;
    }
    if r == 1 {
        M::new(1, k, d.clone()).same(&Matrix::row_vector(d), "row_vector")?;
    }
    Ok(())
}

fn main() {
    run_check(
        Spec {
            id: "C01",
            level: "model_checking",
            rule: "every shape, data length and literal row pattern of the stated bounds is built by every constructor; a case is non-trivial when it has at least two rows and two columns or must be refused",
            assumptions: &["allocations of more than isize::MAX bytes are refused by the allocator layer and are not explored"],
        },
        |tier| {
            let mut v = vec![];
            let n = tier.pick(24, 48);
            let mut shapes = shapes_upto(n, n);
            shapes.extend(big_shapes());
            shapes.extend(huge_shapes());
            shapes.sort();
            shapes.dedup();
            let s = shapes.clone();
            let s2 = shapes.clone();
            v.push(family("every constructor on every shape", s.len() as u64, format!("all shapes up to {n}x{n} and {} large ones, 5 element types", big_shapes().len() + huge_shapes().len()), move |i| format!("{:?}", s2[i as usize]), move |i, c| {
                let (r, k) = s[i as usize];
                c.state(&(r, k));
                if r > 1 && k > 1 {
                    c.nontrivial += 1;
                }
                numeric::<i64>(c, r, k, |i| i as i64 - 7)?;
                numeric::<f64>(c, r, k, |i| i as f64 * 0.5 - 3.25)?;
                numeric::<u8>(c, r, k, |i| (i * 7 + 3) as u8)?;
                numeric::<Gf<5>>(c, r, k, |i| Gf((i % 5) as u8))?;
                numeric::<Q>(c, r, k, |i| Q::int(i as i64 - 1))?;
                numeric::<Nc>(c, r, k, |i| Nc::tag(i as u64))?;
                data_ctors::<Tag>(c, r, k, |i| Tag(i as u32 + 1))?;
                data_ctors::<u8>(c, r, k, |i| mix(i as u64) as u8)?;
                data_ctors::<(u64, bool, char)>(c, r, k, |i| (i as u64, i % 2 == 0, 'x'))?;
                data_ctors::<&'static str>(c, r, k, |i| ["a", "b", "", "longer"][i % 4])?;
                // random: every element is one draw of the element type, no two the same
                let m = Matrix::<Draw>::random(r, k);
                ensure!(m.rows() == r && m.get_data().len() == r * k && m.cols() == k, "random({},{}) is {}x{} with {} values", r, k, m.rows(), m.cols(), m.get_data().len());
                let mut seen: Vec<u64> = m.get_data().iter().map(|d| d.0).collect();
                let last = draws();
                ensure!(seen.iter().all(|x| *x > DRAW_MAGIC && *x <= DRAW_MAGIC + last), "random({},{}): an element was never drawn: {:?}", r, k, m.get_data());
                seen.sort();
                seen.dedup();
                ensure!(seen.len() == r * k, "random({},{}): one draw is used for several elements", r, k);
                c.call(8);
                c.trace();
                c.outcome(&(r, k));
                Ok(())
            }));
            // new: every (rows, cols, length)
            let b = tier.pick(14u64, 22);
            let l = (b - 1) * (b - 1) + 4;
            v.push(family("new with every data length", b * b * l, format!("rows, cols in 0..{b}, data lengths 0..{l}"), move |i| format!("new({}, {}, {} values)", i % b, i / b % b, i / b / b), move |i, c| {
                let (r, k, len) = ((i % b) as usize, (i / b % b) as usize, (i / b / b) as usize);
                c.state(&(r, k, len));
                c.call(1);
                c.trace();
                c.nontrivial += 1;
                let d: Vec<Tag> = (0..len).map(|x| Tag(x as u32)).collect();
                let d2 = d.clone();
                let ok = r > 0 && k > 0 && r * k == len;
                c.outcome(&ok);
                if ok {
                    M::new(r, k, d).same(&Matrix::new(r, k, d2), "new")
                } else {
                    must_reject(|| format!("new({}, {}, {} values)", r, k, len), || Matrix::new(r, k, d2))
                }
            }));
            // the data may come in a vector with unused capacity
            let lens: Vec<usize> = (1..=tier.pick(24, 60)).chain(vec![64, 65, 100, 129, 256, 1000]).collect();
            let l2 = lens.clone();
            v.push(family("data with unused capacity", lens.len() as u64, format!("{} lengths, every unused capacity up to {}, and 8 larger", lens.len(), tier.pick(300, 2000)), move |i| format!("{} values", l2[i as usize]), move |i, c| {
                let len = lens[i as usize];
                let shapes: Vec<(usize, usize)> = (1..=len).filter(|r| len % r == 0).map(|r| (r, len / r)).collect();
                for spare in (0..=tier.pick(300, 2000)).chain(vec![4000, 4096, 5000, 10_000, 16_384, 50_000, 65_536, 100_000]) {
                    c.state(&(len, spare));
                    c.call(4 + shapes.len() as u64);
                    c.trace();
                    c.nontrivial += 1;
                    let data = || {
                        let mut d: Vec<u32> = Vec::with_capacity(len + spare);
                        d.extend((0..len).map(|x| x as u32 + 1));
                        d
                    };
                    let w = |n: &str| format!("{}, {} values, capacity {}", n, len, len + spare);
                    M::from_fn(len, 1, |x, _| x as u32 + 1).same(&Matrix::vector(data()), &w("vector"))?;
                    M::from_fn(1, len, |_, x| x as u32 + 1).same(&Matrix::row_vector(data()), &w("row_vector"))?;
                    for &(r, k) in &shapes {
                        M::from_fn(r, k, |x, y| (x * k + y) as u32 + 1).same(&Matrix::new(r, k, data()), &w("new"))?;
                    }
                    if len <= 65 {
                        e_mark(len, len, |x| x as u32 + 1).same(&Matrix::diag(data()), &w("diag"))?;
                        e_mark(len, len + 1, |x| x as u32 + 1).same(&Matrix::block_diag(len, len + 1, data()), &w("block_diag"))?;
                    }
                }
                Ok(())
            }));
            // block_diag / diag lengths
            let b = tier.pick(12u64, 24);
            v.push(family("block_diag with every data length", b * b * (b + 2), format!("rows, cols in 0..{b}, data lengths 0..{}", b + 2), move |i| format!("block_diag({}, {}, {} values)", i % b, i / b % b, i / b / b), move |i, c| {
                let (r, k, len) = ((i % b) as usize, (i / b % b) as usize, (i / b / b) as usize);
                c.state(&(r, k, len));
                c.call(1);
                c.trace();
                c.nontrivial += 1;
                let d: Vec<i32> = (0..len).map(|x| x as i32 + 5).collect();
                let ok = r > 0 && k > 0 && r.min(k) == len;
                c.outcome(&ok);
                if ok {
                    e_mark(r, k, |i| d[i]).same(&Matrix::block_diag(r, k, d.clone()), "block_diag")
                } else {
                    must_reject(|| format!("block_diag({}, {}, {} values)", r, k, len), || Matrix::block_diag(r, k, d.clone()))
                }
            }));
            // empty dimensions and sizes whose product wraps
            let h = 1usize << 32;
            let dims: Vec<usize> = vec![0, 1, 2, 3, 7, 64, h - 1, h, h + 1, 1 << 33, 1 << 62, (1 << 63) - 1, 1 << 63, usize::MAX - 1, usize::MAX];
            let mut refused: Vec<(usize, usize)> = vec![];
            for &a in &dims {
                for &b in &dims {
                    let p = a as u128 * b as u128;
                    if p == 0 || p >= 1u128 << 64 {
                        refused.push((a, b));
                    }
                }
            }
            let rf = refused.clone();
            v.push(family("dimensions that describe no matrix", refused.len() as u64, "pairs of dimensions with a zero, or whose product exceeds usize", move |i| format!("{:?}", rf[i as usize]), move |i, c| {
                let (a, b) = refused[i as usize];
                c.state(&(a, b));
                c.nontrivial += 1;
                c.call(8);
                c.trace();
                let n = |w: &str| format!("{}({}, {})", w, a, b);
                must_reject(|| n("id"), || Matrix::<u8>::id(a, b))?;
                must_reject(|| n("zero"), || Matrix::<u8>::zero(a, b))?;
                must_reject(|| n("random"), || Matrix::<u8>::random(a, b))?;
                must_reject(|| n("new, no data"), || Matrix::<u8>::new(a, b, vec![]))?;
                let w = a.wrapping_mul(b);
                if w <= 1 << 20 {
                    must_reject(|| n("new, wrapped length"), || Matrix::<u8>::new(a, b, vec![0; w]))?;
                }
                must_reject(|| n("block_diag, no data"), || Matrix::<u8>::block_diag(a, b, vec![]))?;
                if a.min(b) <= 1 << 20 {
                    must_reject(|| n("block_diag"), || Matrix::<u8>::block_diag(a, b, vec![1; a.min(b)]))?;
                }
                Ok(())
            }));
            v.push(family("empty vectors", 6, "vector, row_vector, diag, zero_vector, one_vector", |i| format!("#{}", i), |i, c| {
                c.state(&i);
                c.call(1);
                c.trace();
                c.nontrivial += 1;
                match i {
                    0 => must_reject(|| "vector of nothing".into(), || Matrix::<u8>::vector(vec![])),
                    1 => must_reject(|| "row_vector of nothing".into(), || Matrix::<u8>::row_vector(vec![])),
                    2 => must_reject(|| "diag of nothing".into(), || Matrix::<u8>::diag(vec![])),
                    3 => must_reject(|| "zero_vector(0)".into(), || Matrix::<u8>::zero_vector(0)),
                    4 => must_reject(|| "one_vector(0)".into(), || Matrix::<u8>::one_vector(0)),
                    _ => must_reject(|| "vector with capacity but nothing in it".into(), || Matrix::<u8>::vector(Vec::with_capacity(9))),
                }
            }));
            // literals
            v.push(family("m! with every row pattern", LITS.len() as u64, "every literal with up to 4 rows of 1 to 4 elements, and some larger", |i| format!("row lengths {:?}", LITS[i as usize].0), |i, c| {
                let (pat, f) = &LITS[i as usize];
                c.state(*pat);
                c.call(1);
                c.trace();
                c.nontrivial += 1;
                let mut n = 100;
                let rect = pat.iter().all(|x| x == &pat[0]);
                c.outcome(&rect);
                let r = attempt(|| {
                    f(&mut || {
                        n += 1;
                        n
                    })
                });
                if rect {
                    let m = r.map_err(|p| format!("m! with rows {:?} panicked: {}", pat, p))?;
                    let mut k = 100;
                    let e = M::from_fn(pat.len(), pat[0], |_, _| {
                        k += 1;
                        k
                    });
                    e.same(&m, "m! literal")?;
                    ensure!(n == k, "m!: {} element expressions were evaluated, the literal has {}", n - 100, k - 100);
                    Ok(())
                } else {
                    match r {
                        Err(_) => Ok(()),
                        Ok(m) => Err(format!("m! with row lengths {:?} was accepted and gave {}x{}", pat, m.rows(), m.cols())),
                    }
                }
            }));
            v.push(family("m! element expressions", 1, "literals, signs, arithmetic, calls, blocks, casts, fields, nested literals", |_| "expressions".into(), |_, c| {
                c.call(9);
                c.trace();
                let t = (7, (8, 9));
                let q = [1i32, 2, 3];
                M::new(2, 2, vec![-1, 2 + 3 * 4, !0, (5 - 6) * 2]).same(&m!(-1, 2 + 3 * 4; !0, (5 - 6) * 2), "arithmetic")?;
                M::new(1, 3, vec![7, 8, 9]).same(&m!(t.0, (t.1).0, (t.1).1), "fields")?;
                M::new(3, 1, vec![3, 2, 1]).same(&m!(q[2]; q[1]; q[0]), "indexing")?;
                M::new(2, 1, vec![1.0, 2.5f64]).same(&m!(1.0; { let x = 2.0; x + 0.5 }), "blocks")?;
                M::new(1, 2, vec![10u8, 20]).same(&m!(10i32 as u8, if q[0] == 1 { 20 } else { 0 }), "casts and ifs")?;
                M::new(2, 2, vec![4, 3, 2, 1]).same(&m!(m!(1, 2; 3, 4).get(1, 1), m!(3).get(0, 0); *m!(2, 9).get_ref(0, 0), i32::max(0, 1)), "nested")?;
                M::new(1, 1, vec!["s"]).same(&m!("s"), "one string")?;
                // every element expression is evaluated once, in order
                let n = std::cell::Cell::new(0);
                let next = || {
                    n.set(n.get() + 1);
                    n.get()
                };
                M::new(3, 2, vec![1, 2, 3, 4, 5, 6]).same(&m!(next(), next(); next(), next(); next(), next()), "counted")?;
                M::new(1, 3, vec![7, 8, 9]).same(&m!(next(), { next() }, (next())), "counted, one row")?;
                M::new(2, 1, vec![10, 11]).same(&m!(next(); next()), "counted, one column")?;
                ensure!(n.get() == 11, "11 element expressions were evaluated {} times", n.get());
                // names around the literal are the caller's, and elements may leave it early
                let (_rows, _cols, data) = (5, 6, 7);
                M::new(2, 2, vec![5, 6, 7, 11]).same(&m!(_rows, _cols; data, _rows + _cols), "names")?;
                let early = |x: Option<i32>| -> Option<Matrix<i32>> { Some(m!(1, x?; 3, 4)) };
                ensure!(early(None).is_none(), "an element that returns was not obeyed");
                M::new(2, 2, vec![1, 2, 3, 4]).same(&early(Some(2)).unwrap(), "early")?;
                M::new(2, 3, vec![true, false, true, false, false, true]).same(&m!(true, false, true; false, 1 > 2, 2 > 1), "booleans")?;
                M::new(2, 2, vec![(1, 2), (3, 4), (5, 6), (7, 8)]).same(&m!((1, 2), (3, 4); (5, 6), (7, 8)), "tuples")
            }));
            v
        },
    )
}
