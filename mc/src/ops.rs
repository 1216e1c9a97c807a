//! One registry of every public operation of the library, generic over the scalar, each reduced to a
//! digest of everything it returns. Used where an operation is a step of a history or a schedule.
use crate::engine::attempt;
use crate::model::M;
use crate::valid::{up, Sc};
use la::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::OnceLock;

thread_local! {
    static QUIET: Cell<Option<fn(bool)>> = const { Cell::new(None) };
}
/// called when the harness starts and ends building a digest inside an operation
pub fn set_quiet_hook(h: Option<fn(bool)>) {
    QUIET.with(|c| c.set(h))
}
struct Quiet(Option<fn(bool)>);
#[inline]
fn quiet() -> Quiet {
    let h = QUIET.with(|c| c.get());
    if let Some(h) = h {
        h(true)
    }
    Quiet(h)
}
impl Drop for Quiet {
    #[inline]
    fn drop(&mut self) {
        if let Some(h) = self.0 {
            h(false)
        }
    }
}

#[derive(Default, Clone, PartialEq, Eq, Debug)]
pub struct Dig(pub Vec<u64>);
impl Dig {
    fn put(&mut self, x: u64) {
        let _q = quiet();
        self.0.push(x)
    }
    pub fn n(&mut self, x: usize) {
        self.put(x as u64)
    }
    pub fn b(&mut self, x: bool) {
        self.put(x as u64 + 77)
    }
    pub fn v<T: Sc>(&mut self, x: T) {
        self.put(x.to().to_bits())
    }
    pub fn vs<T: Sc>(&mut self, x: &[T]) {
        let _q = quiet();
        self.n(x.len());
        for y in x {
            self.v(*y)
        }
    }
    pub fn m<T: Sc>(&mut self, m: &Matrix<T>) {
        self.n(m.rows());
        self.n(m.cols());
        self.vs(m.get_data())
    }
    pub fn o<T: Sc>(&mut self, m: &Option<Matrix<T>>) {
        match m {
            None => self.put(4242),
            Some(m) => self.m(m),
        }
    }
    pub fn s(&mut self, s: &str) {
        let _q = quiet();
        self.n(s.len());
        for b in s.bytes() {
            self.put(b as u64)
        }
    }
}
/// the operands an operation may use; `a` is the subject
pub struct In<T: Sc> {
    pub a: Matrix<T>,
    /// same shape as `a`
    pub b: Matrix<T>,
    /// `b` transposed (conforming for the product)
    pub bt: Matrix<T>,
    /// right-hand side: rows of `a`, two columns
    pub rhs: Matrix<T>,
    /// `a` as a file of comma-separated bit patterns, written when first asked for
    csv: OnceLock<String>,
}
impl<T: Sc> Drop for In<T> {
    fn drop(&mut self) {
        if let Some(p) = self.csv.get() {
            let _ = std::fs::remove_file(p);
        }
    }
}
fn scratch() -> &'static str {
    static D: OnceLock<String> = OnceLock::new();
    extern "C" fn bye() {
        let _ = std::fs::remove_dir_all(scratch());
    }
    D.get_or_init(|| {
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let d = format!("{}/verif-ops-{}", base, std::process::id());
        std::fs::create_dir_all(&d).unwrap();
        unsafe { libc::atexit(bye) };
        d
    })
}
impl<T: Sc> In<T> {
    /// to be called when `a` was changed
    pub fn changed(&mut self) {
        if let Some(p) = self.csv.take() {
            let _ = std::fs::remove_file(p);
        }
    }
    pub fn csv(&self) -> &str {
        static N: AtomicU64 = AtomicU64::new(0);
        self.csv.get_or_init(|| {
            let p = format!("{}/{}.csv", scratch(), N.fetch_add(1, Relaxed));
            let s: String = (0..self.a.rows()).map(|i| (0..self.a.cols()).map(|j| self.a.get(i, j).to().to_bits().to_string()).collect::<Vec<_>>().join(",") + "\n").collect();
            std::fs::write(&p, s).unwrap();
            p
        })
    }
    pub fn new(a: &M<f64>) -> In<T> {
        let b = M::from_fn(a.r, a.c, |i, j| ((i * 5 + j * 3 + 1) % 7) as f64 - 2.5);
        In {
            a: up(a),
            b: up(&b),
            bt: up(&b.t()),
            rhs: up(&M::from_fn(a.r, 2, |i, j| ((i * 2 + j * 5) % 6) as f64 - 1.0)),
            csv: OnceLock::new(),
        }
    }
    pub fn digest(&self, d: &mut Dig) {
        d.m(&self.a);
        d.m(&self.b);
        d.m(&self.bt);
        d.m(&self.rhs);
    }
}
pub struct Op<T: Sc> {
    pub name: &'static str,
    pub run: fn(&In<T>, &mut Dig),
}
pub fn ops<T: Sc>() -> Vec<Op<T>> {
    let mut v: Vec<Op<T>> = vec![];
    macro_rules! op {
        ($n:expr, |$i:ident, $d:ident| $e:expr) => {
            v.push(Op { name: $n, run: |$i: &In<T>, $d: &mut Dig| $e })
        };
    }
    op!("clone", |i, d| d.m(&i.a.clone()));
    op!("eq", |i, d| {
        d.b(i.a == i.b);
        d.b(i.a == i.a.clone());
        d.b(i.a != i.bt)
    });
    op!("accessors", |i, d| {
        d.n(i.a.rows());
        d.n(i.a.cols());
        d.vs(i.a.get_data());
        d.v(i.a.get(i.a.rows() - 1, i.a.cols() - 1));
        d.v(*i.a.get_ref(0, i.a.cols() - 1));
        d.v(i.a[(i.a.rows() - 1, 0)]);
        d.b(i.a.is_square());
        d.b(i.a.is_not_square())
    });
    op!("map", |i, d| d.m(&i.a.map(&|x: &T| *x * T::of(3.0) + T::one())));
    op!("mmap", |i, d| {
        let mut m = i.a.clone();
        m.mmap(&|x: &T| *x * T::of(3.0) + T::one());
        d.m(&m)
    });
    op!("reduce", |i, d| d.m(&i.a.reduce(&vec![T::one(); i.a.cols()], &|s: &T, x: &T| *s * T::of(0.5) + *x)));
    op!("id", |i, d| d.m(&Matrix::<T>::id(i.a.rows(), i.a.cols())));
    op!("zero", |i, d| d.m(&Matrix::<T>::zero(i.a.rows(), i.a.cols())));
    op!("diag", |i, d| d.m(&Matrix::diag(i.a.get_data()[..i.a.rows().min(i.a.cols())].to_vec())));
    op!("block_diag", |i, d| d.m(&Matrix::block_diag(i.a.rows(), i.a.cols(), i.a.get_data()[..i.a.rows().min(i.a.cols())].to_vec())));
    op!("vectors", |i, d| {
        d.m(&Matrix::vector(i.a.get_data().clone()));
        d.m(&Matrix::row_vector(i.a.get_data().clone()));
        d.m(&Matrix::<T>::zero_vector(i.a.rows()));
        d.m(&Matrix::<T>::one_vector(i.a.cols()))
    });
    op!("new", |i, d| d.m(&Matrix::new(i.a.cols(), i.a.rows(), i.a.get_data().clone())));
    op!("m!", |i, d| {
        let (p, q) = (i.a.get(0, 0), i.b.get(0, 0));
        d.m(&m!(p, q; q, p));
        d.m(&m!(p; q; p))
    });
    op!("neg", |i, d| {
        d.m(&-&i.a);
        d.m(&-i.a.clone())
    });
    op!("mneg", |i, d| {
        let mut m = i.a.clone();
        m.mneg();
        d.m(&m)
    });
    op!("scale", |i, d| d.m(&i.a.scale(T::of(-1.5))));
    op!("mscale", |i, d| {
        let mut m = i.a.clone();
        m.mscale(T::of(-1.5));
        d.m(&m)
    });
    op!("add", |i, d| {
        d.m(&(&i.a + &i.b));
        d.m(&(i.a.clone() + &i.b));
        d.m(&(&i.a + i.b.clone()));
        d.m(&(i.a.clone() + i.b.clone()))
    });
    op!("sub", |i, d| {
        d.m(&(&i.a - &i.b));
        d.m(&(i.a.clone() - &i.b));
        d.m(&(&i.a - i.b.clone()));
        d.m(&(i.a.clone() - i.b.clone()))
    });
    op!("madd", |i, d| {
        let mut m = i.a.clone();
        m.madd(&i.b);
        d.m(&m)
    });
    op!("msub", |i, d| {
        let mut m = i.a.clone();
        m.msub(&i.b);
        d.m(&m)
    });
    op!("elem_mul", |i, d| d.m(&i.a.elem_mul(&i.b)));
    op!("elem_div", |i, d| d.m(&i.a.elem_div(&i.b)));
    op!("melem_mul", |i, d| {
        let mut m = i.a.clone();
        m.melem_mul(&i.b);
        d.m(&m)
    });
    op!("melem_div", |i, d| {
        let mut m = i.a.clone();
        m.melem_div(&i.b);
        d.m(&m)
    });
    op!("mul", |i, d| {
        d.m(&(&i.a * &i.bt));
        d.m(&(i.bt.clone() * &i.a))
    });
    op!("mul owned", |i, d| {
        d.m(&(&i.a * i.bt.clone()));
        d.m(&(i.bt.clone() * i.a.clone()))
    });
    op!("mmul", |i, d| {
        let mut m = i.a.clone();
        m.mmul(&i.bt);
        d.m(&m)
    });
    op!("set", |i, d| {
        let mut m = i.a.clone();
        m.set(i.a.rows() - 1, 0, T::of(9.0));
        *m.get_mref(0, i.a.cols() - 1) = T::of(8.0);
        m.get_mut_data()[0] = T::of(7.0);
        d.m(&m)
    });
    op!("cr", |i, d| {
        d.m(&i.a.cr(&i.b));
        d.m(&(i.a.clone() | &i.rhs))
    });
    op!("cb", |i, d| d.m(&i.a.cb(&i.b)));
    op!("t", |i, d| d.m(&i.a.t()));
    op!("mt", |i, d| {
        let mut m = i.a.clone();
        m.mt();
        d.m(&m)
    });
    op!("minor", |i, d| d.m(&i.a.minor(i.a.rows() / 2, i.a.cols() / 2)));
    op!("sub_matrix", |i, d| d.m(&i.a.sub_matrix(i.a.rows() / 2, 0, i.a.rows(), (i.a.cols() + 1) / 2)));
    op!("get_column", |i, d| d.m(&i.a.get_column(i.a.cols() - 1)));
    op!("permute_rows", |i, d| {
        let p: Vec<usize> = (0..i.a.rows()).rev().collect();
        d.m(&i.a.permute_rows(&p))
    });
    op!("permute_columns", |i, d| {
        let p: Vec<usize> = (0..i.a.cols()).rev().collect();
        d.m(&i.a.permute_columns(&p))
    });
    op!("filter_rows", |i, d| d.m(&i.a.filter_rows(&|m: &Matrix<T>, r| r % 2 == 0 && m.get(r, 0) + T::zero() == m.get(r, 0))));
    op!("filter_columns", |i, d| d.m(&i.a.filter_columns(&|m: &Matrix<T>, c| c % 2 == 0 && m.get(0, c) + T::zero() == m.get(0, c))));
    op!("select_rows", |i, d| {
        let s: Vec<bool> = (0..i.a.rows()).map(|k| k % 3 != 1).collect();
        d.m(&i.a.select_rows(&s))
    });
    op!("select_columns", |i, d| {
        let s: Vec<bool> = (0..i.a.cols()).map(|k| k % 3 != 1).collect();
        d.m(&i.a.select_columns(&s))
    });
    op!("debug", |i, d| {
        d.s(&format!("{:?}", i.a));
        d.s(&format!("{:?}", i.bt))
    });
    op!("trace", |i, d| d.v(i.a.trace()));
    op!("det", |i, d| d.v(i.a.det()));
    op!("solve", |i, d| d.o(&i.a.solve(&i.rhs)));
    op!("inverse", |i, d| d.o(&i.a.inverse()));
    op!("singular", |i, d| {
        d.b(i.a.is_singular());
        d.b(i.a.is_non_singular())
    });
    op!("pinverse", |i, d| d.m(&i.a.pinverse()));
    op!("frobenius_norm", |i, d| d.v(i.a.frobenius_norm()));
    op!("vector norms", |i, d| {
        let c = i.a.get_column(0);
        d.v(c.vector_1_norm());
        d.v(c.vector_2_norm());
        d.v(c.vector_euclidean_norm());
        d.v(c.length());
        d.v(c.vector_p_norm(T::of(3.0)));
        d.v(c.vector_inf_norm())
    });
    op!("symmetry", |i, d| {
        d.b(i.a.is_symmetric());
        d.b(i.a.is_non_symmetric())
    });
    op!("approx_eq", |i, d| {
        d.b(i.a.approx_eq(&i.b));
        d.b(i.a.approx_eq(&i.a))
    });
    op!("approx_eq of elements", |i, d| {
        let (x, y) = (i.a.get(0, 0), i.a.get_data()[i.a.get_data().len() - 1]);
        d.v(T::approx_epsilon());
        for e in [1e-6, 100.0, 0.0] {
            d.b(x.approx_eq_eps(&y, &T::of(e)));
            d.b(x.approx_eq(&y));
            d.b(x.approx_eq(&x))
        }
    });
    op!("lu", |i, d| {
        let l = LUDecomposition::new(&i.a);
        d.m(&l.get_l());
        d.m(&l.get_u());
        d.m(&l.get_p());
        for p in l.get_piv() {
            d.n(*p)
        }
    });
    op!("lu operations", |i, d| {
        let l = LUDecomposition::new(&i.a);
        d.b(l.is_singular());
        d.b(l.is_non_singular());
        d.v(l.det());
        d.o(&l.solve(&i.rhs));
        d.o(&l.solve(&i.b));
        d.o(&l.solve(&i.rhs));
        d.v(l.det());
        d.m(&l.get_u())
    });
    op!("cholesky", |i, d| {
        // symmetric positive definite by construction
        let mut g = &i.a * &i.a.t();
        for k in 0..g.rows() {
            let x = g.get(k, k) + T::of(10.0);
            g.set(k, k, x);
            for j in 0..k {
                let x = g.get(k, j);
                g.set(j, k, x);
            }
        }
        match CholeskyDecomposition::new(&g) {
            None => d.n(0),
            Some(c) => {
                d.m(c.get_l());
                d.m(&c.solve(&i.rhs))
            }
        }
        d.b(CholeskyDecomposition::new(&i.a).is_some())
    });
    op!("qr", |i, d| {
        let q = QRDecomposition::new(&i.a);
        d.m(&q.get_q());
        d.m(&q.get_r());
        d.m(&q.get_h())
    });
    op!("qr operations", |i, d| {
        let q = QRDecomposition::new(&i.a);
        d.b(q.is_full_rank());
        d.o(&q.solve(&i.rhs));
        d.o(&q.solve(&i.b));
        d.o(&q.solve(&i.rhs));
        d.m(&q.get_r())
    });
    op!("svd", |i, d| {
        let s = SVD::new(&i.a);
        d.m(s.get_u());
        d.m(s.get_s());
        d.m(s.get_v());
        d.n(s.rank())
    });
    op!("svd direct", |i, d| {
        let s = SVD::direct(&i.a);
        d.m(s.get_u());
        d.m(s.get_s());
        d.m(s.get_v())
    });
    op!("eigen", |i, d| {
        let e = EigenDecomposition::new(&i.a);
        d.m(e.get_v());
        d.m(&e.get_d());
        d.vs(e.get_real_eigenvalues());
        d.vs(e.get_imag_eigenvalues())
    });
    op!("eigen of a symmetric matrix", |i, d| {
        let g = &i.a + &i.a.t();
        let e = EigenDecomposition::new(&g);
        d.m(e.get_v());
        d.m(&e.get_d());
        d.vs(e.get_real_eigenvalues())
    });
    v
}
/// further steps of histories and schedules: reading a file, and calls whose callback panics half-way
pub fn more_ops<T: Sc>() -> Vec<Op<T>> {
    fn field<T: Sc>(s: &str) -> T {
        // (an operation on the scalar, so that the fields of a file are scheduling points)
        T::of(f64::from_bits(s.parse().unwrap())) + T::zero()
    }
    fn at<T: Sc>(i: &In<T>) -> usize {
        i.a.get_data().len() / 2
    }
    fn failed<R>(d: &mut Dig, f: impl FnOnce() -> R) {
        d.b(attempt(f).is_err())
    }
    let mut v: Vec<Op<T>> = vec![];
    macro_rules! op {
        ($n:expr, |$i:ident, $d:ident| $e:expr) => {
            v.push(Op { name: $n, run: |$i: &In<T>, $d: &mut Dig| $e })
        };
    }
    op!("read_csv", |i, d| d.m(&la::util::read_csv(i.csv(), &|s: &str| field::<T>(s))));
    op!("read_csv with a failing parser", |i, d| {
        let n = Cell::new(0);
        failed(d, || {
            la::util::read_csv(i.csv(), &|s: &str| {
                n.set(n.get() + 1);
                if n.get() > at(i) {
                    panic!("parser")
                }
                field::<T>(s)
            })
        });
        d.n(n.get())
    });
    op!("callbacks that panic half-way", |i, d| {
        let n = Cell::new(0);
        let boom = || {
            n.set(n.get() + 1);
            if n.get() > at(i) {
                panic!("callback")
            }
        };
        failed(d, || {
            i.a.map(&|x: &T| {
                boom();
                *x + T::one()
            })
        });
        n.set(0);
        let mut m = i.a.clone();
        failed(d, || {
            m.mmap(&|x: &T| {
                boom();
                *x
            })
        });
        d.m(&m);
        n.set(0);
        failed(d, || {
            i.a.reduce(&vec![T::one(); i.a.cols()], &|s: &T, x: &T| {
                boom();
                *s + *x
            })
        });
        n.set(i.a.get_data().len());
        failed(d, || {
            i.a.filter_rows(&|_, _| {
                boom();
                true
            })
        });
        failed(d, || {
            i.a.filter_columns(&|_, _| {
                boom();
                true
            })
        });
        d.m(&i.a.map(&|x: &T| *x + T::one()))
    });
    op!("refused calls", |i, d| {
        failed(d, || i.a.get(i.a.rows(), 0));
        failed(d, || &i.a + &Matrix::<T>::zero(i.a.rows() + 1, i.a.cols()));
        failed(d, || &i.a * &Matrix::<T>::zero(i.a.cols() + 1, 1));
        failed(d, || LUDecomposition::new(&i.a).solve(&Matrix::<T>::zero(i.a.rows() + 1, 1)));
        let mut m = i.a.clone();
        failed(d, || m.madd(&Matrix::<T>::zero(1, i.a.cols() + 1)));
        failed(d, || m.mmul(&Matrix::<T>::zero(i.a.cols() + 1, 1)));
        d.m(&m)
    });
    v
}
/// digest of the result and of the operands afterwards; refusals are digests too
pub fn digest<T: Sc>(op: &Op<T>, i: &In<T>) -> Dig {
    let mut d = Dig::default();
    match attempt(|| {
        let mut d = Dig::default();
        (op.run)(i, &mut d);
        d
    }) {
        Ok(r) => {
            let _q = quiet();
            d.0.extend(r.0)
        }
        Err(_) => d.put(0xDEAD),
    }
    let _q = quiet();
    i.digest(&mut d);
    d
}
