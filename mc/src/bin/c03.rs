//! C03: structural operations move every element to its defined place.
#[macro_use]
extern crate mc;
use la::Matrix;
use mc::engine::*;
use mc::model::M;
use mc::spaces::*;
use mc::tags::*;
use std::cell::RefCell;

fn src(r: usize, c: usize) -> (M<Tag>, Matrix<Tag>) {
    let e = tags(r, c, 1000);
    let m = e.real();
    (e, m)
}
fn cat_r<T: Copy>(a: &M<T>, b: &M<T>) -> M<T> {
    M::from_fn(a.r, a.c + b.c, |i, j| if j < a.c { a.at(i, j) } else { b.at(i, j - a.c) })
}
fn cat_b<T: Copy>(a: &M<T>, b: &M<T>) -> M<T> {
    M::from_fn(a.r + b.r, a.c, |i, j| if i < a.r { a.at(i, j) } else { b.at(i - a.r, j) })
}
/// index list number `x` over 0..n of any length 1..=l
fn lists(n: usize, l: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut cur: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..l {
        let mut nx = vec![];
        for p in &cur {
            for i in 0..n {
                let mut q = p.clone();
                q.push(i);
                nx.push(q);
            }
        }
        out.extend(nx.iter().cloned());
        cur = nx;
    }
    out
}
/// an element type whose values can be numbered
trait El: Copy + PartialEq + std::fmt::Debug {
    fn nr(x: u32) -> Self;
}
macro_rules! el {
    ($($t:ty: $f:expr),*) => {$(impl El for $t { fn nr(x: u32) -> $t { let f: fn(u32) -> $t = $f; f(x) } })*};
}
el!(Tag: Tag, (): |_| (), u8: |x| mix(x as u64) as u8, u16: |x| x as u16 ^ 0xA5A5, [u8; 3]: |x| [x as u8, (x >> 8) as u8, (x >> 16) as u8], u64: |x| mix(x as u64), (u8, u64): |x| (x as u8, mix(x as u64)), [u64; 5]: |x| [x as u64, mix(x as u64), 3, 4, !(x as u64)], char: |x| char::from_u32(x % 0xD000).unwrap(), f64: |x| x as f64 * 0.1, f32: |x| x as f32 + 0.5, Wide: |x| wide(x as u64), Aligned: |x| Aligned(mix(x as u64)));
fn elems<T: El>(r: usize, c: usize, base: u32) -> M<T> {
    M::from_fn(r, c, |i, j| T::nr(base + (i * c + j) as u32))
}
fn all_ops<T: El>(r: usize, k: usize, c: &mut Ctx) -> Res {
    let e = elems::<T>(r, k, 1000);
    let m = e.real();
    let cuts = |n: usize| vec![(0, n), (0, 1), (n - 1, n), (n / 3, (n / 3 + n / 2 + 1).min(n)), (0, n.max(2) - 1), (n.min(2) - 1, n)];
    for &(r0, r1) in &cuts(r) {
        for &(c0, c1) in &cuts(k) {
            M::from_fn(r1 - r0, c1 - c0, |i, j| e.at(r0 + i, c0 + j)).same(&m.sub_matrix(r0, c0, r1, c1), "sub_matrix")?;
            c.call(1);
        }
    }
    if r > 1 && k > 1 {
        for &a in &[0, 1, r / 2, r - 1] {
            for &b in &[0, 1, k / 2, k - 1] {
                M::from_fn(r - 1, k - 1, |i, j| e.at(i + (i >= a) as usize, j + (j >= b) as usize)).same(&m.minor(a, b), "minor")?;
                c.call(1);
            }
        }
    }
    for &b in &[0, k / 2, k - 1] {
        e.cols_of(&[b]).same(&m.get_column(b), "get_column")?;
    }
    e.t().same(&m.t(), "t")?;
    let mut mm = m.clone();
    mm.mt();
    e.t().same(&mm, "mt")?;
    c.call(2);
    for stride in [1usize, 3, 7, 11] {
        let pr: Vec<usize> = (0..r + 2).map(|i| (i * stride + 2) % r).collect();
        let pc: Vec<usize> = (0..k + 2).map(|i| (i * stride + 5) % k).collect();
        e.rows_of(&pr).same(&m.permute_rows(&pr), "permute_rows")?;
        e.cols_of(&pc).same(&m.permute_columns(&pc), "permute_columns")?;
        let kr: Vec<usize> = (0..r).filter(|i| i % (stride + 1) == 0).collect();
        let kc: Vec<usize> = (0..k).filter(|i| i % (stride + 1) == 0).collect();
        e.rows_of(&kr).same(&m.filter_rows(&|_, i| i % (stride + 1) == 0), "filter_rows")?;
        e.cols_of(&kc).same(&m.filter_columns(&|_, i| i % (stride + 1) == 0), "filter_columns")?;
        let sr: Vec<bool> = (0..r).map(|i| i % (stride + 1) == 0).collect();
        let sc: Vec<bool> = (0..k).map(|i| i % (stride + 1) == 0).collect();
        e.rows_of(&kr).same(&m.select_rows(&sr), "select_rows")?;
        e.cols_of(&kc).same(&m.select_columns(&sc), "select_columns")?;
        c.call(6);
    }
    let (f, n) = (elems::<T>(r, 3, 1 << 24), elems::<T>(r, 3, 1 << 24).real());
    cat_r(&e, &f).same(&m.cr(&n), "cr")?;
    cat_r(&f, &e).same(&n.cr(&m), "cr")?;
    cat_r(&e, &e).same(&(m.clone() | &m), "|")?;
    let (f, n) = (elems::<T>(4, k, 1 << 24), elems::<T>(4, k, 1 << 24).real());
    cat_b(&e, &f).same(&m.cb(&n), "cb")?;
    cat_b(&f, &e).same(&n.cb(&m), "cb")?;
    cat_b(&e, &e).same(&m.cb(&m), "cb of one matrix with itself")?;
    cat_r(&e, &e).same(&m.cr(&m), "cr of one matrix with itself")?;
    c.call(7);
    c.state(&(r, k, std::any::type_name::<T>()));
    c.trace();
    c.nontrivial += 1;
    e.same(&m, "source")
}

fn main() {
    run_check(
        Spec {
            id: "C03",
            level: "model_checking",
            rule: "pairwise different elements, so a single moved element shows; every argument in and around its valid range is a case",
            assumptions: &["filters and selections that keep no row or column are outside the stated domain"],
        },
        |tier| {
            let mut v = vec![];
            // transposition on a wide range of shapes: the in-place version follows index cycles that depend on the shape
            let n = tier.pick(48, 140);
            let mut ss = shapes_upto(n, n);
            ss.extend(big_shapes());
            ss.sort();
            ss.dedup();
            let s2 = ss.clone();
            v.push(family("t and mt on every shape", ss.len() as u64, format!("shapes up to {n}x{n} and {} large ones", big_shapes().len()), move |i| format!("{:?}", s2[i as usize]), move |i, c| {
                let (r, k) = ss[i as usize];
                let (e, m) = src(r, k);
                let et = e.t();
                let t = m.t();
                et.same(&t, "t")?;
                e.same(&m, "source of t")?;
                let mut n = m.clone();
                n.mt();
                et.same(&n, "mt")?;
                n.mt();
                e.same(&n, "mt twice")?;
                e.same(&t.t(), "t twice")?;
                c.call(5);
                c.state(&(r, k));
                c.trace();
                c.nontrivial += (r > 1 && k > 1) as u64;
                Ok(())
            }));
            let n = tier.pick(9usize, 14);
            let ss = shapes_upto(n, n);
            let s2 = ss.clone();
            v.push(family("minor and get_column at every position", ss.len() as u64, format!("shapes up to {n}x{n}, rows and columns up to 2 beyond"), move |i| format!("{:?}", s2[i as usize]), move |i, c| {
                let (r, k) = ss[i as usize];
                let (e, m) = src(r, k);
                for a in 0..r + 2 {
                    for b in 0..k + 2 {
                        c.state(&(r, k, a, b));
                        c.call(1);
                        c.nontrivial += 1;
                        if a < r && b < k && r > 1 && k > 1 {
                            let x = M::from_fn(r - 1, k - 1, |i, j| e.at(i + (i >= a) as usize, j + (j >= b) as usize));
                            x.same(&m.minor(a, b), &format!("minor({},{})", a, b))?;
                        } else {
                            must_reject(|| format!("minor({},{}) of {}x{}", a, b, r, k), || m.minor(a, b))?;
                        }
                    }
                }
                for b in (0..k + 3).chain([usize::MAX, r * k, 1 << 63]) {
                    c.call(1);
                    if b < k {
                        e.cols_of(&[b]).same(&m.get_column(b), &format!("get_column({})", b))?;
                    } else {
                        must_reject(|| format!("get_column({}) of {}x{}", b, r, k), || m.get_column(b))?;
                    }
                }
                for &(a, b) in &[(usize::MAX, 0), (0, usize::MAX), (usize::MAX, usize::MAX)] {
                    must_reject(|| format!("minor({},{})", a, b), || m.minor(a, b))?;
                }
                c.trace();
                e.same(&m, "source")
            }));
            let n = tier.pick(6usize, 9);
            let ss = shapes_upto(n, n);
            let s2 = ss.clone();
            v.push(family("sub_matrix with every range", ss.len() as u64, format!("shapes up to {n}x{n}, all starts and ends up to 2 beyond, empty and reversed ranges"), move |i| format!("{:?}", s2[i as usize]), move |i, c| {
                let (r, k) = ss[i as usize];
                let (e, m) = src(r, k);
                let rows: Vec<usize> = (0..r + 3).chain([usize::MAX]).collect();
                let cols: Vec<usize> = (0..k + 3).chain([usize::MAX]).collect();
                for &r0 in &rows {
                    for &r1 in &rows {
                        for &c0 in &cols {
                            for &c1 in &cols {
                                c.call(1);
                                c.nontrivial += 1;
                                if r0 < r1 && r1 <= r && c0 < c1 && c1 <= k {
                                    M::from_fn(r1 - r0, c1 - c0, |i, j| e.at(r0 + i, c0 + j)).same(&m.sub_matrix(r0, c0, r1, c1), &format!("sub_matrix({},{},{},{})", r0, c0, r1, c1))?;
                                    c.state(&(r, k, r0, r1, c0, c1));
                                } else {
                                    must_reject(|| format!("sub_matrix({},{},{},{}) of {}x{}", r0, c0, r1, c1, r, k), || m.sub_matrix(r0, c0, r1, c1))?;
                                }
                            }
                        }
                    }
                }
                c.trace();
                e.same(&m, "source")
            }));
            let big: Vec<(usize, usize)> = big_shapes();
            let b2 = big.clone();
            v.push(family("large shapes, all operations", big.len() as u64, "slices, minors, columns, permutations, filters, selections and concatenations of the large shapes", move |i| format!("{:?}", b2[i as usize]), move |i, c| {
                let (r, k) = big[i as usize];
                all_ops::<Tag>(r, k, c)
            }));
            // elements of other sizes and alignments
            let mut os = shapes_upto(tier.pick(9, 16), tier.pick(9, 16));
            os.extend(big_shapes().into_iter().filter(|(r, k)| r * k <= tier.pick(5000, 100_000)));
            let o2 = os.clone();
            v.push(family("elements of other sizes, all operations", os.len() as u64, "shapes as given; elements of 0, 1, 2, 3, 8, 16 (padded), 40, 64 (aligned) and 560 bytes, characters and floats", move |i| format!("{:?}", o2[i as usize]), move |i, c| {
                let (r, k) = os[i as usize];
                all_ops::<()>(r, k, c)?;
                all_ops::<u8>(r, k, c)?;
                all_ops::<u16>(r, k, c)?;
                all_ops::<[u8; 3]>(r, k, c)?;
                all_ops::<u64>(r, k, c)?;
                all_ops::<(u8, u64)>(r, k, c)?;
                all_ops::<[u64; 5]>(r, k, c)?;
                all_ops::<char>(r, k, c)?;
                all_ops::<Aligned>(r, k, c)?;
                if r * k <= 200 {
                    all_ops::<Wide>(r, k, c)?;
                }
                all_ops::<f64>(r, k, c)?;
                all_ops::<f32>(r, k, c)
            }));
            // concatenation: every pair of shapes
            let n = tier.pick(6usize, 9);
            let ss = shapes_upto(n, n);
            let l = ss.len() as u64;
            let s2 = ss.clone();
            v.push(family("cr, | and cb on every pair of shapes", l * l, format!("all pairs of shapes up to {n}x{n}"), move |i| format!("{:?} with {:?}", s2[(i / l) as usize], s2[(i % l) as usize]), move |i, c| {
                let (r, k) = ss[(i / l) as usize];
                let (p, q) = ss[(i % l) as usize];
                let (a, m) = src(r, k);
                let b = tags(p, q, 5000);
                let n = b.real();
                c.call(3);
                c.state(&(r, k, p, q));
                c.nontrivial += 1;
                c.trace();
                if r == p {
                    let e = cat_r(&a, &b);
                    e.same(&m.cr(&n), "cr")?;
                    e.same(&(m.clone() | &n), "|")?;
                } else {
                    must_reject(|| format!("cr of {}x{} and {}x{}", r, k, p, q), || m.cr(&n))?;
                    must_reject(|| format!("| of {}x{} and {}x{}", r, k, p, q), || m.clone() | &n)?;
                }
                if k == q {
                    cat_b(&a, &b).same(&m.cb(&n), "cb")?;
                } else {
                    must_reject(|| format!("cb of {}x{} and {}x{}", r, k, p, q), || m.cb(&n))?;
                }
                a.same(&m, "left operand")?;
                b.same(&n, "right operand")
            }));
            // permute: every index list
            let mut cases: Vec<(usize, usize, Vec<usize>)> = vec![];
            let (nmax, lmax) = tier.pick((4, 4), (5, 5));
            for n in 1..=nmax {
                for l in lists(n + 1, lmax) {
                    for o in [1, 3] {
                        cases.push((n, o, l.clone()));
                    }
                }
                for o in 1..4 {
                    cases.push((n, o, vec![0, usize::MAX]));
                    cases.push((n, o, vec![(usize::MAX / o).saturating_add(1)]));
                    cases.push((n, o, vec![1 << 63, 0]));
                    cases.push((n, o, vec![n * o]));
                }
            }
            for p in permutations(tier.pick(6, 8)) {
                cases.push((p.len(), 2, p));
            }
            let c2 = cases.clone();
            v.push(family("permute_rows and permute_columns with every index list", cases.len() as u64, format!("all lists of up to {lmax} indices in 0..=n for n <= {nmax} (n itself out of range), all permutations of {}", tier.pick(6, 8)), move |i| format!("{:?}", c2[i as usize]), move |i, c| {
                let (n, o, l) = &cases[i as usize];
                let ok = l.iter().all(|x| x < n);
                c.call(2);
                c.state(&(n, o, l));
                c.trace();
                c.nontrivial += 1;
                let (e, m) = src(*n, *o);
                let (f, w) = src(*o, *n);
                if ok {
                    e.rows_of(l).same(&m.permute_rows(l), "permute_rows")?;
                    f.cols_of(l).same(&w.permute_columns(l), "permute_columns")?;
                } else {
                    must_reject(|| format!("permute_rows({:?}) of {}x{}", l, n, o), || m.permute_rows(l))?;
                    must_reject(|| format!("permute_columns({:?}) of {}x{}", l, o, n), || w.permute_columns(l))?;
                }
                e.same(&m, "source")?;
                f.same(&w, "source")
            }));
            // filters and selections: every subset, and wrong selector lengths
            let nmax = tier.pick(9usize, 13);
            let mut cases: Vec<(usize, usize, u32)> = vec![];
            for n in 1..=nmax {
                for mask in 1..1u32 << n {
                    cases.push((n, if n <= 5 { 3 } else { 2 }, mask));
                    if n <= 5 {
                        cases.push((n, 1, mask));
                    }
                }
            }
            let c2 = cases.clone();
            v.push(family("filters and selections with every non-empty subset", cases.len() as u64, format!("subsets of up to {nmax} rows or columns"), move |i| format!("{:?}", c2[i as usize]), move |i, c| {
                let (n, o, mask) = cases[i as usize];
                let keep: Vec<usize> = (0..n).filter(|x| mask >> x & 1 == 1).collect();
                let sel: Vec<bool> = (0..n).map(|x| mask >> x & 1 == 1).collect();
                let (e, m) = src(n, o);
                let (f, w) = src(o, n);
                c.call(4);
                c.state(&(n, o, mask));
                c.trace();
                c.nontrivial += 1;
                let (er, ec) = (e.rows_of(&keep), f.cols_of(&keep));
                er.same(&m.select_rows(&sel), "select_rows")?;
                ec.same(&w.select_columns(&sel), "select_columns")?;
                let asked = RefCell::new(vec![false; n]);
                let bad = RefCell::new(None);
                // the predicate decides by content, read through the matrix it is given
                let pr = |x: &Matrix<Tag>, i: usize| {
                    if i >= n || x.rows() != n || x.cols() != o || (0..o).any(|j| x.get(i, j) != e.at(i, j)) {
                        *bad.borrow_mut() = Some(i);
                        return false;
                    }
                    asked.borrow_mut()[i] = true;
                    mask >> i & 1 == 1
                };
                er.same(&m.filter_rows(&pr), "filter_rows")?;
                ensure!(bad.borrow().is_none() && asked.borrow().iter().all(|x| *x), "filter_rows asked {:?}, bad index {:?}", asked, bad);
                let asked = RefCell::new(vec![false; n]);
                let bad = RefCell::new(None);
                let pc = |x: &Matrix<Tag>, j: usize| {
                    if j >= n || x.cols() != n || x.rows() != o || (0..o).any(|i| x.get(i, j) != f.at(i, j)) {
                        *bad.borrow_mut() = Some(j);
                        return false;
                    }
                    asked.borrow_mut()[j] = true;
                    mask >> j & 1 == 1
                };
                ec.same(&w.filter_columns(&pc), "filter_columns")?;
                ensure!(bad.borrow().is_none() && asked.borrow().iter().all(|x| *x), "filter_columns asked {:?}, bad index {:?}", asked, bad);
                e.same(&m, "source")?;
                f.same(&w, "source")
            }));
            // tiles and what is left beside them
            let ds: Vec<usize> = tier.pick(vec![255, 256, 257, 270, 300, 319, 320, 321, 383, 384], vec![191, 192, 193, 255, 256, 257, 259, 263, 270, 300, 319, 320, 321, 383, 384, 385, 400, 511, 512, 513, 575, 639, 641, 1023, 1024, 1025]);
            let nd = ds.len() as u64;
            let d2 = ds.clone();
            v.push(family("t and mt of large matrices with every remainder", nd * nd, format!("all pairs of {:?}", ds), move |i| format!("{}x{}", d2[(i / nd) as usize], d2[(i % nd) as usize]), move |i, c| {
                let (r, k) = (ds[(i / nd) as usize], ds[(i % nd) as usize]);
                c.state(&(r, k));
                c.call(2);
                c.nontrivial += 1;
                let m = Matrix::new(r, k, (0..(r * k) as u32).collect::<Vec<u32>>());
                let t = m.t();
                let mut n = m.clone();
                n.mt();
                for (x, what) in [(&t, "t"), (&n, "mt")] {
                    ensure!(x.rows() == k && x.cols() == r, "{} of {}x{} is {}x{}", what, r, k, x.rows(), x.cols());
                    if let Some(p) = x.get_data().iter().enumerate().position(|(p, v)| *v as usize != p % r * k + p / r) {
                        return Err(format!("{} of {}x{}: element ({}, {}) is the source's number {}", what, r, k, p / r, p % r, x.get_data()[p]));
                    }
                }
                Ok(())
            }));
            // so many rows, columns or elements that products of them leave 32 bits and that no recursion may follow them
            let mut hs: Vec<(usize, usize)> = vec![(70000, 2), (2, 70000), (1, 150000), (150000, 1), (66000, 1), (1, 66000), (3, 50001), (50001, 3), (700, 300), (257, 256)];
            if tier.thorough() {
                hs.extend_from_slice(&[(65536, 3), (3, 65536), (65537, 2), (2, 65535), (2000, 1000), (1000, 2001), (1, 3_000_000), (3_000_000, 1), (1_500_000, 2), (2, 1_500_000)]);
            }
            let h2 = hs.clone();
            v.push(family("every operation on very long, very wide and very large matrices", hs.len() as u64, format!("{} shapes of up to {} elements", hs.len(), hs.iter().map(|x| x.0 * x.1).max().unwrap()), move |i| format!("{:?}", h2[i as usize]), move |i, c| {
                let (r, k) = hs[i as usize];
                all_ops::<u64>(r, k, c)
            }));
            let nmax = tier.pick(7u64, 12);
            v.push(family("selectors of every wrong length", nmax * nmax * (nmax + 4), format!("shapes up to {nmax}x{nmax}, selector lengths 0..{}", nmax + 4), move |i| format!("{}x{} selector of {}", i % nmax + 1, i / nmax % nmax + 1, i / nmax / nmax), move |i, c| {
                let (r, k, l) = ((i % nmax + 1) as usize, (i / nmax % nmax + 1) as usize, (i / nmax / nmax) as usize);
                let (e, m) = src(r, k);
                let sel = vec![true; l];
                c.call(2);
                c.state(&(r, k, l));
                c.nontrivial += 1;
                c.trace();
                if l == r {
                    e.same(&m.select_rows(&sel), "select_rows of everything")?;
                } else {
                    must_reject(|| format!("select_rows with {} flags on {} rows", l, r), || m.select_rows(&sel))?;
                    let mut s = vec![false; l];
                    if l > 0 {
                        s[0] = true;
                    }
                    must_reject(|| format!("select_rows with {} flags on {} rows", l, r), || m.select_rows(&s))?;
                }
                if l == k {
                    e.same(&m.select_columns(&sel), "select_columns of everything")?;
                } else {
                    must_reject(|| format!("select_columns with {} flags on {} columns", l, k), || m.select_columns(&sel))?;
                    let mut s = vec![false; l];
                    if l > 0 {
                        s[0] = true;
                    }
                    must_reject(|| format!("select_columns with {} flags on {} columns", l, k), || m.select_columns(&s))?;
                }
                e.same(&m, "source")
            }));
            mc::model::and_roomy(v)
        },
    )
}
