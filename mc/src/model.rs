//! Boring reference model of a dense matrix: rows, cols, row-major values.
use la::Matrix;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct M<T> {
    pub r: usize,
    pub c: usize,
    pub d: Vec<T>,
}
impl<T: Debug> Debug for M<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}x{}[", self.r, self.c)?;
        if self.d.len() > 200 {
            // long ones are identified by the family and index of the case
            for x in &self.d[..12] {
                write!(f, "{:?},", x)?;
            }
            return write!(f, "... {} values]", self.d.len());
        }
        for i in 0..self.r {
            if i > 0 {
                write!(f, "; ")?;
            }
            for j in 0..self.c {
                if j > 0 {
                    write!(f, ",")?;
                }
                write!(f, "{:?}", self.d[i * self.c + j])?;
            }
        }
        write!(f, "]")
    }
}
impl<T: Copy> M<T> {
    pub fn new(r: usize, c: usize, d: Vec<T>) -> M<T> {
        assert_eq!(d.len(), r * c);
        M { r, c, d }
    }
    pub fn from_fn(r: usize, c: usize, mut f: impl FnMut(usize, usize) -> T) -> M<T> {
        let mut d = Vec::with_capacity(r * c);
        for i in 0..r {
            for j in 0..c {
                d.push(f(i, j));
            }
        }
        M { r, c, d }
    }
    #[inline]
    pub fn at(&self, i: usize, j: usize) -> T {
        self.d[i * self.c + j]
    }
    pub fn set(&mut self, i: usize, j: usize, v: T) {
        self.d[i * self.c + j] = v
    }
    pub fn t(&self) -> M<T> {
        M::from_fn(self.c, self.r, |i, j| self.at(j, i))
    }
    pub fn map<S: Copy>(&self, f: impl Fn(T) -> S) -> M<S> {
        M { r: self.r, c: self.c, d: self.d.iter().map(|x| f(*x)).collect() }
    }
    pub fn zip<S: Copy, U: Copy>(&self, o: &M<S>, f: impl Fn(T, S) -> U) -> M<U> {
        assert!(self.r == o.r && self.c == o.c);
        M { r: self.r, c: self.c, d: self.d.iter().zip(&o.d).map(|(a, b)| f(*a, *b)).collect() }
    }
    pub fn mul_by<U: Copy>(&self, o: &M<T>, zero: U, f: impl Fn(U, T, T) -> U) -> M<U> {
        assert!(self.c == o.r);
        M::from_fn(self.r, o.c, |i, j| {
            let mut s = zero;
            for k in 0..self.c {
                s = f(s, self.at(i, k), o.at(k, j));
            }
            s
        })
    }
    pub fn rows_of(&self, rows: &[usize]) -> M<T> {
        M::from_fn(rows.len(), self.c, |i, j| self.at(rows[i], j))
    }
    pub fn cols_of(&self, cols: &[usize]) -> M<T> {
        M::from_fn(self.r, cols.len(), |i, j| self.at(i, cols[j]))
    }
    /// The real matrix holding the same values.
    pub fn real(&self) -> Matrix<T> {
        let mut d = self.d.clone();
        d.reserve_exact(SPARE.with(|s| s.get()) * d.len());
        Matrix::new(self.r, self.c, d)
    }
    pub fn of(m: &Matrix<T>) -> M<T> {
        M { r: m.rows(), c: m.cols(), d: m.get_data().clone() }
    }
}
impl<T: Copy + PartialEq + Debug> M<T> {
    /// Does the real matrix show exactly this model through every reader?
    pub fn same(&self, m: &Matrix<T>, what: &str) -> Result<(), String> {
        self.same_by(m, what, |a, b| a == b)
    }
    pub fn same_by(&self, m: &Matrix<T>, what: &str, eq: impl Fn(&T, &T) -> bool) -> Result<(), String> {
        if m.rows() != self.r || m.get_data().len() != self.d.len() || m.cols() != self.c {
            return Err(format!(
                "{}: got {} rows and {} stored values, expected {:?}",
                what,
                m.rows(),
                m.get_data().len(),
                self
            ));
        }
        for i in 0..self.r {
            for j in 0..self.c {
                let g = m.get(i, j);
                if !eq(&g, &self.at(i, j)) {
                    return Err(format!(
                        "{}: element ({},{}) is {:?}, expected {:?} (expected matrix {:?}, got {:?})",
                        what,
                        i,
                        j,
                        g,
                        self.at(i, j),
                        self,
                        m.get_data()
                    ));
                }
                if !eq(&m.get_data()[i * self.c + j], &self.at(i, j)) {
                    return Err(format!("{}: stored value {} differs from get({},{})", what, i * self.c + j, i, j));
                }
            }
        }
        Ok(())
    }
}
/// bitwise key of float matrices (for state hashing)
pub struct Bits<'a>(pub &'a M<f64>);
impl<'a> Hash for Bits<'a> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_usize(self.0.r);
        h.write_usize(self.0.c);
        for x in &self.0.d {
            h.write_u64(x.to_bits());
        }
    }
}

impl M<f64> {
    pub fn mul(&self, o: &M<f64>) -> M<f64> {
        assert!(self.c == o.r);
        let mut d = vec![0.0; self.r * o.c];
        for i in 0..self.r {
            for k in 0..self.c {
                let x = self.d[i * self.c + k];
                for j in 0..o.c {
                    d[i * o.c + j] += x * o.d[k * o.c + j];
                }
            }
        }
        M { r: self.r, c: o.c, d }
    }
    pub fn sub(&self, o: &M<f64>) -> M<f64> {
        self.zip(o, |a, b| a - b)
    }
    pub fn abs(&self) -> M<f64> {
        self.map(f64::abs)
    }
    pub fn max_abs(&self) -> f64 {
        self.d.iter().fold(0.0, |m: f64, x| if x.is_nan() { f64::NAN } else { m.max(x.abs()) })
    }
    pub fn fro(&self) -> f64 {
        let s = self.max_abs();
        if s == 0.0 || !s.is_finite() {
            return s;
        }
        s * self.d.iter().map(|x| (x / s) * (x / s)).sum::<f64>().sqrt()
    }
    pub fn id(n: usize) -> M<f64> {
        M::from_fn(n, n, |i, j| if i == j { 1.0 } else { 0.0 })
    }
    pub fn scaled(&self, k: f64) -> M<f64> {
        self.map(|x| x * k)
    }
}

/// a copy of a matrix, with the room to spare the family asks for
pub fn fresh<T: Copy>(m: &Matrix<T>) -> Matrix<T> {
    M { r: m.rows(), c: m.cols(), d: m.get_data().clone() }.real()
}
thread_local!(static SPARE: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });
/// Every family once more with matrices whose storage has room for three times its elements beside them.
pub fn and_roomy(v: Vec<crate::engine::Family>) -> Vec<crate::engine::Family> {
    use std::sync::Arc;
    let mut r = vec![];
    for f in v {
        let (describe, run) = (Arc::new(f.describe), Arc::new(f.run));
        let (d2, r2) = (describe.clone(), run.clone());
        let mut second = crate::engine::family(
            format!("{}; storage with room to spare", f.name),
            f.total,
            f.bound.clone(),
            move |i| d2(i),
            move |i, c| {
                struct Back;
                impl Drop for Back {
                    fn drop(&mut self) {
                        SPARE.with(|s| s.set(0))
                    }
                }
                let _b = Back;
                SPARE.with(|s| s.set(3));
                r2(i, c)
            },
        );
        second.serial = f.serial;
        r.push(crate::engine::Family { describe: Box::new(move |i| describe(i)), run: Box::new(move |i, c| run(i, c)), ..f_rest(f.name, f.total, f.bound, f.serial) });
        r.push(second);
    }
    r
}
fn f_rest(name: String, total: u64, bound: String, serial: bool) -> crate::engine::Family {
    let mut f = crate::engine::family(name, total, bound, |_| String::new(), |_, _| Ok(()));
    f.serial = serial;
    f
}
