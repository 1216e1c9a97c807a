//! C02: reads return the last value written; out-of-range access is refused.
#[macro_use]
extern crate mc;
use la::Matrix;
use mc::engine::*;
use mc::model::M;
use mc::spaces::*;
use mc::tags::*;
use std::hash::Hash;

/// every reader shows the model
fn readers<T: Copy + PartialEq + std::fmt::Debug>(m: &mut Matrix<T>, e: &M<T>, what: &str) -> Res {
    e.same(m, what)?;
    for i in 0..e.r {
        for j in 0..e.c {
            let x = e.at(i, j);
            ensure!(*m.get_ref(i, j) == x, "{}: get_ref({},{}) is {:?}, last written {:?}", what, i, j, m.get_ref(i, j), x);
            ensure!(m[(i, j)] == x, "{}: [({},{})] is {:?}, last written {:?}", what, i, j, m[(i, j)], x);
            let y = *m.get_mref(i, j);
            ensure!(y == x, "{}: get_mref({},{}) is {:?}, last written {:?}", what, i, j, y, x);
        }
    }
    ensure!(m.get_mut_data().as_slice() == e.d.as_slice(), "{}: get_mut_data is {:?}, expected {:?}", what, m.get_mut_data(), e);
    ensure!(m.is_square() == (e.r == e.c) && m.is_not_square() == (e.r != e.c), "{}: is_square of {}x{}", what, e.r, e.c);
    Ok(())
}
fn oob<T: Copy + PartialEq + std::fmt::Debug>(c: &mut Ctx, m: &mut Matrix<T>, i: usize, j: usize, v: T) -> Res {
    let n = |w: &str| format!("{}({},{}) on a {}x{} matrix", w, i, j, m.rows(), m.cols());
    let (a, b, d, e, f) = (n("get"), n("get_ref"), n("index"), n("get_mref"), n("set"));
    must_reject(|| a, || m.get(i, j))?;
    must_reject(|| b, || *m.get_ref(i, j))?;
    must_reject(|| d, || m[(i, j)])?;
    must_reject(|| e, || *m.get_mref(i, j) = v)?;
    must_reject(|| f, || m.set(i, j, v))?;
    c.call(5);
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Set(usize, usize, u8),
    Mref(usize, usize, u8),
    Data(usize, u8),
    BadSet(usize, usize, u8),
    BadMref(usize, usize, u8),
    BadGet(usize, usize),
}
fn ops(r: usize, c: usize, vals: &[u8]) -> Vec<Op> {
    let mut v = vec![];
    for i in 0..r {
        for j in 0..c {
            for &x in vals {
                v.push(Op::Set(i, j, x));
                v.push(Op::Mref(i, j, x));
                v.push(Op::Data(i * c + j, x));
            }
        }
    }
    for &(i, j) in &[(0, c), (r, 0), (r, c - 1), (r - 1, c)] {
        v.push(Op::BadSet(i, j, vals[0]));
        v.push(Op::BadMref(i, j, vals[0]));
        v.push(Op::BadGet(i, j));
    }
    v
}
fn step(m: &mut Matrix<u8>, e: &mut M<u8>, op: Op) -> Res {
    match op {
        Op::Set(i, j, v) => {
            m.set(i, j, v);
            e.set(i, j, v);
        }
        Op::Mref(i, j, v) => {
            *m.get_mref(i, j) = v;
            e.set(i, j, v);
        }
        Op::Data(k, v) => {
            m.get_mut_data()[k] = v;
            e.d[k] = v;
        }
        Op::BadSet(i, j, v) => must_reject(|| format!("{:?}", op), || m.set(i, j, v))?,
        Op::BadMref(i, j, v) => must_reject(|| format!("{:?}", op), || *m.get_mref(i, j) = v)?,
        Op::BadGet(i, j) => must_reject(|| format!("{:?}", op), || m.get(i, j))?,
    }
    Ok(())
}

fn fixpoint(r: usize, k: usize, vals: u8) -> Family {
    // every state of an r x k matrix over `vals` values; from each, every operation
    let n = (vals as u64).pow((r * k) as u32);
    let vs: Vec<u8> = (0..vals).collect();
    let all = ops(r, k, &vs);
    let st = move |mut i: u64| {
        M::new(
            r,
            k,
            (0..r * k)
                .map(|_| {
                    let x = (i % vals as u64) as u8;
                    i /= vals as u64;
                    x
                })
                .collect(),
        )
    };
    family(format!("every write from every {r}x{k} state over {vals} values"), n, format!("all {n} states x {} operations: closed under the operations, so histories of any length", all.len()), move |i| format!("{:?}", st(i)), move |i, c| {
        let s = st(i);
        c.state(&s);
        for op in &all {
            let mut m = s.real();
            let mut e = s.clone();
            step(&mut m, &mut e, *op)?;
            readers(&mut m, &e, &format!("{:?} after {:?}", s, op))?;
            c.call(1);
            c.trace();
            c.outcome(&e);
        }
        c.nontrivial += 1;
        Ok(())
    })
}
fn histories(r: usize, k: usize, depth: u32) -> Family {
    let all = ops(r, k, &[1, 2]);
    let n = (all.len() as u64).pow(depth);
    let a2 = all.clone();
    let dec = move |mut i: u64, a: &Vec<Op>| {
        (0..depth)
            .map(|_| {
                let o = a[(i % a.len() as u64) as usize];
                i /= a.len() as u64;
                o
            })
            .collect::<Vec<_>>()
    };
    family(format!("all {depth}-step histories on {r}x{k}"), n, format!("{} operations, depth {depth}, on one live matrix", all.len()), move |i| format!("{:?}", dec(i, &a2)), move |i, c| {
        let mut m = Matrix::new(r, k, vec![0u8; r * k]);
        let mut e = M::of(&m);
        let h = dec(i, &all);
        for op in &h {
            step(&mut m, &mut e, *op)?;
            c.call(1);
            e.same(&m, &format!("after {:?}", h))?;
            c.state(&e);
        }
        c.trace();
        c.nontrivial += 1;
        readers(&mut m, &e, "at the end")
    })
}

fn main() {
    run_check(
        Spec {
            id: "C02",
            level: "model_checking",
            rule: "every position in and around every shape, written and read through every accessor; all states and all short histories of small matrices against the model array",
            assumptions: &["get_mut_data is used to write elements, not to change the length of the vector"],
        },
        |tier| {
            let mut v = vec![];
            let n = tier.pick(12, 24);
            let mut shapes = shapes_upto(n, n);
            if tier.thorough() {
                shapes.extend(big_shapes().into_iter().filter(|s| s.0 * s.1 <= 1100));
                shapes.sort();
                shapes.dedup();
            }
            let s = shapes.clone();
            let s2 = shapes.clone();
            v.push(family("every position of every shape, every writer", s.len() as u64, format!("shapes up to {n}x{n}, elements of 0, 1, 4, 24, 64 (aligned) and 560 bytes"), move |i| format!("{:?}", s2[i as usize]), move |i, c| {
                let (r, k) = s[i as usize];
                c.nontrivial += (r > 1 && k > 1) as u64;
                fn go<T: Copy + PartialEq + std::fmt::Debug + Hash>(c: &mut Ctx, r: usize, k: usize, of: &dyn Fn(u64) -> T) -> Res {
                    let mut e = M::from_fn(r, k, |i, j| of((i * k + j) as u64));
                    let mut m = e.real();
                    let mut x = (r * k) as u64;
                    let what = format!("{}x{}", r, k);
                    readers(&mut m, &e, &what)?;
                    for i in 0..r {
                        for j in 0..k {
                            for w in 0..3 {
                                x += 1;
                                let v = of(x);
                                match w {
                                    0 => m.set(i, j, v),
                                    1 => *m.get_mref(i, j) = v,
                                    _ => m.get_mut_data()[i * k + j] = v,
                                }
                                e.set(i, j, v);
                                c.call(1);
                                e.same(&m, &format!("{}: after writer {} at ({},{})", what, ["set", "get_mref", "get_mut_data"][w], i, j))?;
                                c.state(&(r, k, i, j, w));
                            }
                        }
                    }
                    c.trace();
                    for (i, j) in [(0, k), (r, 0), (r - 1, k), (r, k - 1), (r, k), (0, r * k), (0, usize::MAX), (usize::MAX, 0)] {
                        oob(c, &mut m, i, j, of(x + 1))?;
                        e.same(&m, &format!("{}: after refused calls at ({},{})", what, i, j))?;
                    }
                    readers(&mut m, &e, &what)
                }
                go::<Tag>(c, r, k, &|x| Tag(x as u32))?;
                if r <= 10 && k <= 10 {
                    go::<u8>(c, r, k, &|x| mix(x) as u8)?;
                    go::<(u64, char, u64)>(c, r, k, &|x| (x, 'z', mix(x)))?;
                    go::<()>(c, r, k, &|_| ())?;
                    go::<Aligned>(c, r, k, &Aligned)?;
                }
                if r * k <= 12 {
                    go::<Wide>(c, r, k, &wide)?;
                }
                Ok(())
            }));
            let mut big: Vec<(usize, usize)> = big_shapes();
            big.extend(huge_shapes());
            let b2 = big.clone();
            v.push(family("large shapes read back", big.len() as u64, "every position of the large shapes written in turn by each writer and read through every accessor", move |i| format!("{:?}", b2[i as usize]), move |i, c| {
                let (r, k) = big[i as usize];
                let mut e = tags(r, k, 0);
                let mut m = e.real();
                for (n, &(i, j)) in [(0, 0), (0, k - 1), (r - 1, 0), (r - 1, k - 1), (r / 2, k / 2)].iter().enumerate() {
                    e.set(i, j, Tag(1 << 30 | n as u32));
                    m.set(i, j, Tag(1 << 30 | n as u32));
                    c.call(1);
                }
                c.state(&(r, k));
                c.trace();
                c.nontrivial += 1;
                readers(&mut m, &e, "large")?;
                for w in 0..3 {
                    for i in 0..r {
                        for j in 0..k {
                            let t = Tag((2 << 28) + (((i * k + j) as u32) << 2) + w);
                            e.set(i, j, t);
                            match w {
                                0 => m.set(i, j, t),
                                1 => *m.get_mref(i, j) = t,
                                _ => m.get_mut_data()[i * k + j] = t,
                            }
                            ensure!(m.get(i, j) == t && *m.get_ref(i, j) == t, "large: ({},{}) written by writer {} reads as {:?}", i, j, w, m.get(i, j));
                        }
                    }
                    c.call((r * k) as u64);
                    e.same(&m, "large shape with every position written")?;
                }
                readers(&mut m, &e, "large, rewritten")
            }));
            let n = tier.pick(9usize, 14);
            let os = shapes_upto(n, n);
            let o2 = os.clone();
            v.push(family("every position around every shape is refused", os.len() as u64, format!("shapes up to {n}x{n}, rows and columns up to 3 beyond, and ones whose linear index wraps into the storage"), move |i| format!("{:?}", o2[i as usize]), move |i, c| {
                let (r, k) = os[i as usize];
                let e = tags(r, k, 0);
                let mut m = e.real();
                let mut rows: Vec<usize> = (0..r + 3).collect();
                let mut cols: Vec<usize> = (0..k + 3).collect();
                for b in [r * k, r * k + 1, 1 << 31, 1 << 32, 1 << 63, usize::MAX / 2, usize::MAX - k, usize::MAX - 1, usize::MAX, usize::MAX / k, (usize::MAX / k).wrapping_add(1), (1usize << 63) / k, usize::MAX - k * (r - 1)] {
                    rows.push(b);
                    cols.push(b);
                    cols.push(b.wrapping_add(1));
                }
                for x in 1..=r {
                    // row*k + col wraps around to a valid linear index
                    cols.push(0usize.wrapping_sub(x * k));
                    cols.push(1usize.wrapping_sub(x * k));
                }
                for &i in &rows {
                    for &j in &cols {
                        if i >= r || j >= k {
                            oob(c, &mut m, i, j, Tag(99999))?;
                            c.state(&(r, k, i, j));
                            c.nontrivial += 1;
                        }
                    }
                }
                c.trace();
                readers(&mut m, &e, "after refused accesses")
            }));
            v.push(fixpoint(1, 1, 4));
            v.push(fixpoint(2, 2, 3));
            v.push(fixpoint(1, 4, 3));
            v.push(fixpoint(4, 1, 3));
            v.push(fixpoint(2, 3, 3));
            v.push(fixpoint(3, 2, 3));
            v.push(histories(2, 2, 3));
            v.push(histories(1, 3, 3));
            v.push(histories(3, 1, 3));
            if tier.thorough() {
                v.push(fixpoint(3, 3, 3));
                v.push(fixpoint(2, 4, 4));
                v.push(histories(2, 2, 4));
                v.push(histories(2, 3, 4));
                v.push(histories(1, 2, 5));
            } else {
                v.push(histories(1, 2, 4));
            }
            mc::model::and_roomy(v)
        },
    )
}
