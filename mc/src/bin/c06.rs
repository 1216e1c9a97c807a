//! C06: in-place and copying forms agree through every history of operations.
#[macro_use]
extern crate mc;
use la::Matrix;
use mc::engine::*;
use mc::model::{Bits, M};
use mc::scalars::Gf;
use mc::spaces::*;
use mc::tags::*;
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::Hash;
use std::ops::*;
use std::sync::Arc;

trait El: num::Num + Neg<Output = Self> + Copy + Debug + PartialEq + Eq + Hash + Send + Sync + 'static {}
impl<T: num::Num + Neg<Output = T> + Copy + Debug + PartialEq + Eq + Hash + Send + Sync + 'static> El for T {}

#[derive(Clone, Debug)]
enum Op<T> {
    Neg,
    Scale(T),
    Add(M<T>),
    Sub(M<T>),
    EMul(M<T>),
    EDiv(M<T>),
    Mul(M<T>),
    Mt,
    Map,
    Set(usize, usize, T),
    Ref(usize, usize, T),
    Data(usize, T),
    /// clone_from of a matrix of any shape
    Become(M<T>),
    /// a refused call
    BadAdd(M<T>),
    BadSub(M<T>),
    BadEMul(M<T>),
    BadEDiv(M<T>),
    BadMul(M<T>),
    BadSet(usize, usize, T),
}
/// a permutation of the elements for Map
fn bump<T: El>(x: T) -> T {
    x + T::one() + T::one()
}
/// is the operation's argument conforming for this shape?
fn applies<T: El>(op: &Op<T>, r: usize, c: usize) -> bool {
    match op {
        Op::Add(m) | Op::Sub(m) | Op::EMul(m) | Op::EDiv(m) => m.r == r && m.c == c,
        Op::Mul(m) => m.r == c,
        Op::Set(i, j, _) | Op::Ref(i, j, _) => *i < r && *j < c,
        Op::Data(k, _) => *k < r * c,
        Op::BadAdd(m) | Op::BadSub(m) | Op::BadEMul(m) | Op::BadEDiv(m) => m.r != r || m.c != c,
        Op::BadMul(m) => m.r != c,
        Op::BadSet(i, j, _) => *i >= r || *j >= c,
        _ => true,
    }
}
/// the in-place operation on the live object
fn in_place<T: El>(m: &mut Matrix<T>, op: &Op<T>) -> Res {
    match op {
        Op::Neg => m.mneg(),
        Op::Scale(k) => m.mscale(*k),
        Op::Add(b) => m.madd(&b.real()),
        Op::Sub(b) => m.msub(&b.real()),
        Op::EMul(b) => m.melem_mul(&b.real()),
        Op::EDiv(b) => m.melem_div(&b.real()),
        Op::Mul(b) => m.mmul(&b.real()),
        Op::Mt => m.mt(),
        Op::Map => m.mmap(&|x: &T| bump(*x)),
        Op::Set(i, j, v) => m.set(*i, *j, *v),
        Op::Ref(i, j, v) => *m.get_mref(*i, *j) = *v,
        Op::Data(k, v) => m.get_mut_data()[*k] = *v,
        Op::Become(b) => m.clone_from(&b.real()),
        Op::BadAdd(b) => must_reject(|| format!("{:?}", op), || m.madd(&b.real()))?,
        Op::BadSub(b) => must_reject(|| format!("{:?}", op), || m.msub(&b.real()))?,
        Op::BadEMul(b) => must_reject(|| format!("{:?}", op), || m.melem_mul(&b.real()))?,
        Op::BadEDiv(b) => must_reject(|| format!("{:?}", op), || m.melem_div(&b.real()))?,
        Op::BadMul(b) => must_reject(|| format!("{:?}", op), || m.mmul(&b.real()))?,
        Op::BadSet(i, j, v) => must_reject(|| format!("{:?}", op), || m.set(*i, *j, *v))?,
    }
    Ok(())
}
/// the corresponding copying operation on a fresh matrix
fn copying<T: El>(e: &M<T>, op: &Op<T>) -> M<T> {
    let a = e.real();
    match op {
        Op::Neg => M::of(&-&a),
        Op::Scale(k) => M::of(&a.scale(*k)),
        Op::Add(b) => M::of(&(&a + &b.real())),
        Op::Sub(b) => M::of(&(&a - &b.real())),
        Op::EMul(b) => M::of(&a.elem_mul(&b.real())),
        Op::EDiv(b) => M::of(&a.elem_div(&b.real())),
        Op::Mul(b) => M::of(&(&a * &b.real())),
        Op::Mt => M::of(&a.t()),
        Op::Map => M::of(&a.map(&|x: &T| bump(*x))),
        Op::Set(i, j, v) | Op::Ref(i, j, v) => {
            let mut x = e.clone();
            x.set(*i, *j, *v);
            x
        }
        Op::Data(k, v) => {
            let mut x = e.clone();
            x.d[*k] = *v;
            x
        }
        Op::Become(b) => M::of(&b.real().clone()),
        _ => e.clone(),
    }
}
/// reference semantics, independent of the library
fn reference<T: El>(e: &M<T>, op: &Op<T>) -> M<T> {
    match op {
        Op::Neg => e.map(|x| -x),
        Op::Scale(k) => e.map(|x| *k * x),
        Op::Add(b) => e.zip(b, |x, y| x + y),
        Op::Sub(b) => e.zip(b, |x, y| x - y),
        Op::EMul(b) => e.zip(b, |x, y| x * y),
        Op::EDiv(b) => e.zip(b, |x, y| x / y),
        Op::Mul(b) => e.mul_by(b, T::zero(), |s, x, y| s + x * y),
        Op::Mt => e.t(),
        Op::Map => e.map(bump),
        Op::Become(b) => b.clone(),
        _ => copying(e, op),
    }
}
fn alphabet_of<T: El>(shapes: &[(usize, usize)], of: &dyn Fn(u64) -> T) -> Vec<Op<T>> {
    let unit = |x: T| if x.is_zero() { T::one() } else { x };
    let mut v = vec![Op::Neg, Op::Scale(of(2)), Op::Scale(of(3)), Op::Mt, Op::Map];
    for (n, &(r, c)) in shapes.iter().enumerate() {
        let s = 10 + n as u64 * 100;
        let g = |k: u64| M::from_fn(r, c, |i, j| of(s + k * 17 + (i * c + j) as u64));
        let nz = |k: u64| g(k).map(unit);
        v.push(Op::Add(g(0)));
        v.push(Op::Sub(g(1)));
        v.push(Op::EMul(g(2)));
        v.push(Op::EDiv(nz(3)));
        v.push(Op::BadAdd(g(0)));
        v.push(Op::BadSub(g(1)));
        v.push(Op::BadEMul(g(2)));
        v.push(Op::BadEDiv(nz(3)));
        v.push(Op::Mul(g(4)));
        v.push(Op::BadMul(g(4)));
        v.push(Op::Become(g(5)));
    }
    v.push(Op::Set(0, 0, of(1)));
    v.push(Op::Ref(0, 1, of(2)));
    v.push(Op::Ref(1, 0, of(4)));
    v.push(Op::Data(1, of(3)));
    v.push(Op::BadSet(0, 7, of(1)));
    v.push(Op::BadSet(7, 0, of(1)));
    v
}

/// breadth-first search to a fixpoint: every reachable (shape, contents) and every operation from it
fn fixpoint<const P: u8>(name: &str, init: (usize, usize), shapes: &'static [(usize, usize)], cap: usize) -> Family {
    let name2 = name.to_string();
    family(name, 1, format!("breadth-first to the fixpoint over GF({P}), argument shapes {:?}", shapes), move |_| format!("reachable states from the {}x{} zero matrix", init.0, init.1), move |_, c| {
        let ops = alphabet_of::<Gf<P>>(shapes, &|x| Gf((mix(x) % P as u64) as u8));
        let start = M::from_fn(init.0, init.1, |_, _| Gf::<P>(0));
        let mut seen: HashMap<M<Gf<P>>, ()> = HashMap::new();
        seen.insert(start.clone(), ());
        let mut frontier = vec![start];
        let mut depth = 0u64;
        while !frontier.is_empty() {
            let mut next = vec![];
            for s in &frontier {
                c.state(s);
                for op in ops.iter().filter(|o| applies(o, s.r, s.c)) {
                    let mut m = s.real();
                    in_place(&mut m, op).map_err(|e| format!("in state {:?}: {}", s, e))?;
                    let e = reference(s, op);
                    e.same(&m, &format!("{:?} in place on {:?}", op, s))?;
                    let k = copying(s, op);
                    ensure!(k == e, "{:?} by copying on {:?}: {:?}, expected {:?}", op, s, k, e);
                    c.call(2);
                    c.trace();
                    if seen.len() < cap && !seen.contains_key(&e) {
                        seen.insert(e.clone(), ());
                        next.push(e);
                    }
                }
            }
            frontier = next;
            depth += 1;
        }
        ensure!(seen.len() < cap, "harness: state cap of {} reached in {}", cap, name2);
        c.note_max("max breadth-first depth to a fixpoint", depth);
        c.nontrivial += seen.len() as u64;
        Ok(())
    })
}
/// every operation from every one of the P^(r*c) states
fn all_states<const P: u8>(r: usize, k: usize, shapes: &'static [(usize, usize)]) -> Family {
    let n = (P as u64).pow((r * k) as u32);
    let st = move |mut i: u64| {
        M::from_fn(r, k, |_, _| {
            let x = (i % P as u64) as u8;
            i /= P as u64;
            Gf::<P>(x)
        })
    };
    let ops = Arc::new(alphabet_of::<Gf<P>>(shapes, &|x| Gf((mix(x) % P as u64) as u8)));
    family(format!("every operation from every {r}x{k} state over GF({P})"), n, format!("{n} states, argument shapes {:?}", shapes), move |i| format!("{:?}", st(i)), move |i, c| {
        let s = st(i);
        c.state(&s);
        c.nontrivial += 1;
        for op in ops.iter().filter(|o| applies(o, r, k)) {
            let mut m = s.real();
            in_place(&mut m, op)?;
            let e = reference(&s, op);
            e.same(&m, &format!("{:?} in place on {:?}", op, s))?;
            let k = copying(&s, op);
            ensure!(k == e, "{:?} by copying on {:?}: {:?}, expected {:?}", op, s, k, e);
            c.call(2);
            c.trace();
        }
        Ok(())
    })
}
/// stateless: all operation sequences on one live object; clones and results taken on the way must not move
fn histories<T: El>(name: &str, init: (usize, usize), shapes: &'static [(usize, usize)], depth: u32, of: fn(u64) -> T) -> Family {
    let ops = Arc::new(alphabet_of::<T>(shapes, &of));
    let n = (ops.len() as u64).pow(depth - 1);
    let o2 = ops.clone();
    family(
        format!("all {depth}-step histories from {}x{} {}", init.0, init.1, name),
        n,
        format!("{} operations to depth {depth} on one live matrix, with a clone and a transposed copy kept from every step", ops.len()),
        move |i| {
            let mut i = i;
            (1..depth)
                .map(|_| {
                    let o = format!("{:?}", o2[(i % o2.len() as u64) as usize]);
                    i /= o2.len() as u64;
                    o
                })
                .collect::<Vec<_>>()
                .join("; ")
                + "; then every operation"
        },
        move |i, c| {
            let start = M::from_fn(init.0, init.1, |i, j| of((i * init.1 + j) as u64 + 1000));
            let mut m = start.real();
            let mut e = start;
            let mut kept: Vec<(Matrix<T>, M<T>, &'static str)> = vec![];
            let mut x = i;
            for _ in 1..depth {
                let op = &ops[(x % ops.len() as u64) as usize];
                x /= ops.len() as u64;
                if !applies(op, e.r, e.c) {
                    return Ok(()); // not a history
                }
                kept.push((m.clone(), e.clone(), "clone"));
                in_place(&mut m, op)?;
                e = reference(&e, op);
                c.call(1);
                kept.push((m.t(), e.t(), "result of t"));
            }
            let base = m;
            for op in ops.iter().filter(|o| applies(o, e.r, e.c)) {
                let mut m = base.clone();
                in_place(&mut m, op)?;
                let f = reference(&e, op);
                f.same(&m, &format!("{:?} at the end of the history", op))?;
                let k = copying(&e, op);
                ensure!(k == f, "{:?} by copying: {:?}, expected {:?}", op, k, f);
                // writing to the result touches nothing else
                m.set(0, 0, of(4242));
                m.mneg();
                e.same(&base, "the matrix a clone was taken from")?;
                c.call(2);
                c.trace();
                c.state(&f);
            }
            c.nontrivial += 1;
            // clones are live too: change each and look at all others
            for a in 0..kept.len() {
                kept[a].0.mneg();
                kept[a].1 = kept[a].1.map(|x| -x);
                kept[a].0.mt();
                kept[a].1 = kept[a].1.t();
                for (k, f, w) in &kept {
                    f.same(k, w)?;
                }
            }
            e.same(&base, "the matrix after its clones were changed")
        },
    )
}

/// every ordered pair of n x n matrices over GF(P), through every binary operation
fn all_pairs<const P: u8>(n: usize) -> Family {
    let k = (P as u64).pow((n * n) as u32);
    let st = move |mut i: u64| {
        M::from_fn(n, n, |_, _| {
            let x = (i % P as u64) as u8;
            i /= P as u64;
            Gf::<P>(x)
        })
    };
    family(format!("every pair of {n}x{n} matrices over GF({P})"), k * k, "madd, msub, melem_mul, melem_div (where defined) and mmul of every ordered pair", move |i| format!("{:?} with {:?}", st(i / k), st(i % k)), move |i, c| {
        let (a, b) = (st(i / k), st(i % k));
        c.state(&i);
        c.nontrivial += 1;
        let mut ops = vec![Op::Add(b.clone()), Op::Sub(b.clone()), Op::EMul(b.clone()), Op::Mul(b.clone()), Op::Scale(b.d[0])];
        if b.d.iter().all(|x| x.0 != 0) {
            ops.push(Op::EDiv(b.clone()));
        }
        for op in &ops {
            let mut m = a.real();
            in_place(&mut m, op)?;
            let e = reference(&a, op);
            e.same(&m, &format!("{:?} in place on {:?}", op, a))?;
            let k = copying(&a, op);
            ensure!(k == e, "{:?} by copying on {:?}: {:?}, expected {:?}", op, a, k, e);
            c.call(2);
        }
        c.trace();
        Ok(())
    })
}
/// floats with special values: the in-place and the copying form must agree (NaN included)
fn float_histories(depth: u32, n: usize) -> Family {
    let mk = |f: &dyn Fn(usize, usize) -> f64| M::from_fn(n, n, f);
    let id = mk(&|i, j| (i == j) as u8 as f64);
    let zero = mk(&|_, _| 0.0);
    let ints = mk(&|i, j| (i * 2 + j) as f64 - 1.0);
    let sp = mk(&|i, j| [1.0, f64::INFINITY, 0.0, f64::NAN, -0.0, 2.0, -1.0][(i * n + j) % 7]);
    let perm = mk(&|i, j| ((i + 1) % n == j) as u8 as f64);
    let mut ops: Vec<Op<f64>> = vec![Op::Neg, Op::Mt];
    for k in [0.0, 1.0, -1.0, 2.0, f64::INFINITY] {
        ops.push(Op::Scale(k));
    }
    for m in [&id, &zero, &ints, &sp, &perm] {
        ops.push(Op::Add(m.clone()));
        ops.push(Op::Sub(m.clone()));
        ops.push(Op::EMul(m.clone()));
        ops.push(Op::EDiv(m.clone()));
        ops.push(Op::Mul(m.clone()));
    }
    ops.push(Op::Set(0, 0, f64::NAN));
    ops.push(Op::Ref(n - 1, 0, 3.0));
    let starts = vec![ints.clone(), sp, id, zero];
    let l = ops.len() as u64;
    let total = starts.len() as u64 * l.pow(depth);
    let ops = Arc::new(ops);
    let (o2, s2) = (ops.clone(), starts.clone());
    family(format!("all {depth}-step float histories on {n}x{n}"), total, format!("{l} operations with special values, 4 starts, live object against copying operations"), move |i| {
        let mut x = i / 4;
        let mut s = format!("{:?}", s2[(i % 4) as usize]);
        for _ in 0..depth {
            s += &format!("; {:?}", o2[(x % l) as usize]);
            x /= l;
        }
        s
    }, move |i, c| {
        let mut e = starts[(i % 4) as usize].clone();
        let mut m = e.real();
        let mut x = i / 4;
        for _ in 0..depth {
            let op = &ops[(x % l) as usize];
            x /= l;
            match op {
                Op::Neg => m.mneg(),
                Op::Mt => m.mt(),
                Op::Scale(k) => m.mscale(*k),
                Op::Add(b) => m.madd(&b.real()),
                Op::Sub(b) => m.msub(&b.real()),
                Op::EMul(b) => m.melem_mul(&b.real()),
                Op::EDiv(b) => m.melem_div(&b.real()),
                Op::Mul(b) => m.mmul(&b.real()),
                Op::Set(i, j, v) => m.set(*i, *j, *v),
                Op::Ref(i, j, v) => *m.get_mref(*i, *j) = *v,
                _ => unreachable!(),
            }
            let a = e.real();
            e = match op {
                Op::Neg => M::of(&-&a),
                Op::Mt => M::of(&a.t()),
                Op::Scale(k) => M::of(&a.scale(*k)),
                Op::Add(b) => M::of(&(&a + &b.real())),
                Op::Sub(b) => M::of(&(&a - &b.real())),
                Op::EMul(b) => M::of(&a.elem_mul(&b.real())),
                Op::EDiv(b) => M::of(&a.elem_div(&b.real())),
                Op::Mul(b) => M::of(&(&a * &b.real())),
                Op::Set(i, j, v) | Op::Ref(i, j, v) => {
                    let mut x = e.clone();
                    x.set(*i, *j, *v);
                    x
                }
                _ => unreachable!(),
            };
            e.same_by(&m, &format!("in-place {:?} against the copying form", op), same_f64z)?;
            c.call(2);
        }
        c.state(&Bits(&e));
        c.trace();
        c.nontrivial += 1;
        Ok(())
    })
}

const S22: &[(usize, usize)] = &[(2, 2)];
const S23: &[(usize, usize)] = &[(2, 3), (3, 2)];
const SMIX: &[(usize, usize)] = &[(1, 2), (2, 1), (2, 2)];
const S12: &[(usize, usize)] = &[(1, 2), (2, 1)];
const S13: &[(usize, usize)] = &[(1, 3), (3, 1)];
const S33: &[(usize, usize)] = &[(3, 3)];
const S34: &[(usize, usize)] = &[(3, 4), (4, 3), (4, 4)];

fn main() {
    run_check(
        Spec {
            id: "C06",
            level: "model_checking",
            rule: "states are (shape, contents); every in-place operation, its copying counterpart and an independent reference are compared on every transition; refused calls are transitions to the same state",
            assumptions: &["the fixpoints are over prime fields, the histories over pseudo-random 64-bit free and ring elements"],
        },
        |tier| {
            let mut v = vec![
                all_pairs::<3>(2),
                all_pairs::<2>(3),
                float_histories(tier.pick(2, 3), 2),
                float_histories(2, 3),
                fixpoint::<3>("fixpoint, 2x2 over GF(3)", (2, 2), S22, 1_000_000),
                fixpoint::<5>("fixpoint, 2x2 over GF(5)", (2, 2), S22, 1_000_000),
                fixpoint::<3>("fixpoint, 2x2, 1x2 and 2x1 over GF(3)", (1, 2), SMIX, 1_000_000),
                fixpoint::<5>("fixpoint, 1x2 and 2x1 (and outer products) over GF(5)", (2, 1), S12, 1_000_000),
                all_states::<5>(2, 2, SMIX),
                all_states::<3>(2, 3, S23),
                all_states::<3>(3, 2, S23),
                all_states::<2>(3, 3, S33),
                histories::<Fr>("free terms", (2, 2), S22, 3, |x| Fr(mix(x + 5))),
                histories::<Nc>("matrix-ring elements", (2, 3), S23, 3, |x| Nc::tag(x)),
                histories::<Fr>("free terms, changing shapes", (1, 2), SMIX, 3, |x| Fr(mix(x + 5))),
                histories::<Fr>("free terms, rows and columns", (1, 3), S13, 3, |x| Fr(mix(x + 5))),
                histories::<Nc>("matrix-ring elements, larger", (3, 4), S34, 3, |x| Nc::tag(x)),
            ];
            if tier.thorough() {
                v.push(all_states::<3>(3, 3, S33));
                v.push(all_states::<7>(2, 2, S22));
                v.push(fixpoint::<7>("fixpoint, 2x2 over GF(7)", (2, 2), S22, 1_000_000));
                v.push(fixpoint::<2>("fixpoint, 3x3 over GF(2)", (3, 3), S33, 1_000_000));
                v.push(fixpoint::<3>("fixpoint, 2x3 and 3x2 over GF(3)", (2, 3), S23, 1_000_000));
                v.push(histories::<Fr>("free terms", (2, 2), S22, 5, |x| Fr(mix(x + 5))));
                v.push(histories::<Nc>("matrix-ring elements", (2, 3), S23, 4, |x| Nc::tag(x)));
                v.push(histories::<Fr>("free terms, changing shapes", (1, 2), SMIX, 4, |x| Fr(mix(x + 5))));
            } else {
                v.push(fixpoint::<3>("fixpoint, 2x3 and 3x2 over GF(3)", (2, 3), S23, 1_000_000));
                v.push(histories::<Fr>("free terms", (2, 2), S22, 4, |x| Fr(mix(x + 5))));
            }
            // larger shapes: every pair of operations
            let mut ss: Vec<(usize, usize)> = shapes_upto(tier.pick(9, 14), tier.pick(9, 14));
            ss.extend([(16, 17), (17, 16), (32, 32), (33, 31), (1, 64), (64, 1), (65, 3), (3, 130), (64, 65), (256, 257)]);
            let s2 = ss.clone();
            v.push(family("every pair of operations on larger shapes", ss.len() as u64, "free terms; all ordered pairs of operations including refused ones, then all again on the result", move |i| format!("{:?}", s2[i as usize]), move |i, c| {
                let (r, k) = ss[i as usize];
                let shapes: Vec<(usize, usize)> = if r == k { vec![(r, r), (r + 1, r)] } else { vec![(r, k), (k, r)] };
                let of = |x: u64| Nc::tag(x);
                let ops = alphabet_of::<Nc>(&shapes, &of);
                let start = M::from_fn(r, k, |i, j| of((i * k + j) as u64 + 100_000));
                c.state(&(r, k));
                c.nontrivial += 1;
                for o1 in ops.iter().filter(|o| applies(o, r, k)) {
                    let mut m = start.real();
                    in_place(&mut m, o1)?;
                    let e = reference(&start, o1);
                    e.same(&m, &format!("{}x{} first operation", r, k))?;
                    if r * k > 400 && !matches!(o1, Op::Mt | Op::Mul(_) | Op::Neg | Op::BadMul(_)) {
                        continue;
                    }
                    for o2 in ops.iter().filter(|o| applies(o, e.r, e.c)) {
                        let mut n = m.clone();
                        in_place(&mut n, o2)?;
                        reference(&e, o2).same(&n, &format!("{}x{} second operation", r, k))?;
                        c.call(1);
                        c.trace();
                    }
                    e.same(&m, "matrix whose clones were changed")?;
                }
                start.same(&start.real(), "start")
            }));
            mc::model::and_roomy(v)
        },
    )
}
