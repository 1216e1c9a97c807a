M = 'src/matrix.rs'; LU = 'src/decomp/lu.rs'; QR = 'src/decomp/qr.rs'; SV = 'src/decomp/svd.rs'; EI = 'src/decomp/eigen.rs'; CH = 'src/decomp/cholesky.rs'; UT = 'src/util.rs'; IU = 'src/internalutil.rs'
PRE = '''#[macro_use] extern crate la;
use la::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
#[allow(dead_code)] fn panics<R>(f: impl FnOnce() -> R) -> bool { std::panic::set_hook(Box::new(|_| {})); let r = catch_unwind(AssertUnwindSafe(f)).is_err(); let _ = std::panic::take_hook(); r }
#[allow(dead_code)] fn dev(a: &Matrix<f64>, b: &Matrix<f64>) -> f64 { assert!(a.rows() == b.rows() && a.cols() == b.cols()); let mut d: f64 = 0.0; for (x, y) in a.get_data().iter().zip(b.get_data()) { if !(x - y).is_finite() { return f64::INFINITY; } d = d.max((x - y).abs()); } d }
#[allow(unused_macros)] macro_rules! unused { () => { m!(1) } }
'''
def D(body, pre=''): return PRE + pre + 'fn main() {\n' + body + '\n}\n'

ZERO = '''  pub fn zero(no_rows : usize, no_cols : usize) -> Matrix<T> {
    assert!(no_rows > 0 && no_cols > 0);
    let elems = no_rows.checked_mul(no_cols).unwrap();
    let mut d : Vec<T> = alloc_dirty_vec(elems);
    for i in 0..elems {
      d[i] = num::zero();
    }
'''
# a number type whose zero is not all bits zero
OFF = '''
use std::ops::*;
#[derive(Clone, Copy, PartialEq, Debug)] struct Off(i64);
impl Off { fn of(x: i64) -> Off { Off(x + 7) } fn v(self) -> i64 { self.0 - 7 } }
impl Add for Off { type Output = Off; fn add(self, o: Off) -> Off { Off::of(self.v() + o.v()) } }
impl Sub for Off { type Output = Off; fn sub(self, o: Off) -> Off { Off::of(self.v() - o.v()) } }
impl Mul for Off { type Output = Off; fn mul(self, o: Off) -> Off { Off::of(self.v() * o.v()) } }
impl Div for Off { type Output = Off; fn div(self, o: Off) -> Off { Off::of(self.v() / o.v()) } }
impl Rem for Off { type Output = Off; fn rem(self, o: Off) -> Off { Off::of(self.v() % o.v()) } }
impl num::Zero for Off { fn zero() -> Off { Off::of(0) } fn is_zero(&self) -> bool { self.v() == 0 } }
impl num::One for Off { fn one() -> Off { Off::of(1) } }
impl num::Num for Off { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Off, ()> { Err(()) } }
'''
SEEDS = [
dict(id='T02', property='C02',
 edits=[(M, '''  fn index<'a>(&'a self, (y, x): (usize, usize)) -> &'a T { self.get_ref(y, x) }''',
 '''  fn index<'a>(&'a self, (y, x): (usize, usize)) -> &'a T { &self.data[y * self.cols() + x] }''')],
 demo=D('''  let a = m!(1, 2; 3, 4; 5, 6);
  assert!(panics(|| a[(0, 2)]));
  assert!(panics(|| a[(1, 3)]));
  assert!(a[(2, 1)] == 6);'''),
 needs='indexing with a column outside the matrix in a row that is not the last', breaks='indexing by (row, col) returns an element of the next row instead of panicking'),
dict(id='T03', property='C03',
 edits=[(M, '''    let mut d = alloc_dirty_vec(elems);
    let mut dest_idx = 0;
    for row in 0..no_rows {
      let row_idx = rows[row] * no_cols;''', '''    // A run of neighbouring rows is one block of the data.
    if no_rows > 1 && rows[no_rows - 1] < self.no_rows && rows[0] + (no_rows - 1) == rows[no_rows - 1] && rows[0] + 1 == rows[1] {
      let start = rows[0] * no_cols;
      return Matrix { no_rows : no_rows, data : self.data[start..(start + elems)].to_vec() };
    }
    let mut d = alloc_dirty_vec(elems);
    let mut dest_idx = 0;
    for row in 0..no_rows {
      let row_idx = rows[row] * no_cols;''')],
 demo=D('''  let a = Matrix::new(6, 2, (0..12).collect());
  let b = a.permute_rows(&[0, 1, 3, 2, 4]);
  assert!(b == m!(0, 1; 2, 3; 6, 7; 4, 5; 8, 9), "{:?}", b);'''),
 needs='a row list of five or more that begins and ends like a run of neighbouring rows but is permuted inside', breaks='permute_rows returns the rows unpermuted'),
dict(id='T04', property='C04',
 edits=[(M, '''    let mut d = alloc_dirty_vec(elems);
    for i in 0..elems {
      d[i] = self.data[i].clone() * m.data[i].clone();
    }
    Matrix {''', '''    let mut d = alloc_dirty_vec(elems);
    // Four streams for large matrices.
    let q = if elems > 1024 { elems / 4 } else { 0 };
    for i in 0..q {
      for s in 0..4 {
        d[s * q + i] = self.data[s * q + i].clone() * m.data[s * q + i].clone();
      }
    }
    if q == 0 {
      for i in 0..elems {
        d[i] = self.data[i].clone() * m.data[i].clone();
      }
    }
    Matrix {''')],
 demo=D('''  let n = 1030usize;
  for _ in 0..4 { let v = vec![7.5f64; n]; std::hint::black_box(&v); drop(v); }
  let a = Matrix::new(1, n, (0..n).map(|x| x as f64).collect());
  let b = a.elem_mul(&a);
  for i in 0..n { assert!(b.get(0, i) == (i * i) as f64, "{}", i); }'''),
 needs='more than 1024 elements and a number of elements that is no multiple of four', breaks='elem_mul leaves the last elements uninitialised'),
dict(id='T05', property='C05',
 edits=[(M, '''    assert!(self.cols() == m.no_rows);

    let elems = self.no_rows * m.cols();
    let mut d = alloc_dirty_vec(elems);
    for row in 0..self.no_rows {
      for col in 0..m.cols() {
        let mut res : T = num::zero();
        for idx in 0..self.cols() {
          res = res + self.get_ref(row, idx).clone() * m.get_ref(idx, col).clone();''', '''    assert!(self.cols() == m.no_rows);

    let elems = self.no_rows * m.cols();
    let mut d = alloc_dirty_vec(elems);
    if elems == 1 {
      // Inner product of two vectors.
      d[0] = m.data.iter().zip(self.data.iter()).fold(num::zero(), |s : T, (a, b)| s + a.clone() * b.clone());
      return Matrix { no_rows : 1, data : d };
    }
    for row in 0..self.no_rows {
      for col in 0..m.cols() {
        let mut res : T = num::zero();
        for idx in 0..self.cols() {
          res = res + self.get_ref(row, idx).clone() * m.get_ref(idx, col).clone();''')],
 demo=D('''  let i = Q([0, 1, 0, 0]); let j = Q([0, 0, 1, 0]);
  let a = Matrix::row_vector(vec![i, j]); let b = Matrix::vector(vec![j, j]);
  assert!((&a * &b).get(0, 0) == i * j + j * j);''', '''
use std::ops::*;
#[derive(Clone, Copy, PartialEq, Debug)] struct Q([i64; 4]);
impl Add for Q { type Output = Q; fn add(self, o: Q) -> Q { let mut r = self; for k in 0..4 { r.0[k] += o.0[k]; } r } }
impl Mul for Q { type Output = Q; fn mul(self, o: Q) -> Q { let (a, b) = (self.0, o.0); Q([
  a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
  a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]]) } }
impl num::Zero for Q { fn zero() -> Q { Q([0; 4]) } fn is_zero(&self) -> bool { self.0 == [0; 4] } }
'''),
 extern='num = "0.1.25"\n',
 needs='a row vector times a column vector of elements whose product does not commute (quaternions)', breaks='the factors of an inner product are exchanged'),
dict(id='T06', property='C06',
 edits=[(M, '''    for i in 0..self.data.len() {
      self.data[i] = self.data[i].clone() - m.data[i].clone()
    }''', '''    // a - b = -(b + -a)
    self.mneg();
    self.madd(m);
    self.mneg();''')],
 demo=D('''  let mut a = m!(i32::MIN, 5; 6, 7); let b = m!(i32::MIN, 1; 2, 3);
  let c = &a - &b;
  assert!(!panics(|| a.msub(&b)));
  assert!(a == c);'''),
 needs='subtraction from the smallest value of an integer type', breaks='msub panics where - gives a result'),
dict(id='T07', property='C07',
 edits=[(LU, '''        if num::abs(ludata[i * n + j].clone()) > num::abs(ludata[p * n + j].clone()) {''', '''        // Exchange rows only for a gain, so that ties keep their order.
        if num::abs(ludata[i * n + j].clone()) > num::abs(ludata[p * n + j].clone()) * num::cast(1.001).unwrap() {''')],
 demo=D('''  let a = m!(1000.0, 2.0; 1000.5, 3.0);
  let l = LUDecomposition::new(&a).get_l();
  assert!(l.get_data().iter().all(|x| f64::abs(*x) <= 1.0), "{:?}", l);'''),
 needs='a pivot candidate larger than the current one by less than a thousandth', breaks='multipliers of L exceed 1'),
dict(id='T08', property='C08',
 edits=[(LU, '''      d = d * self.lu.get_data()[j * n + j].clone();
    }
    d''', '''      d = d * self.lu.get_data()[j * n + j].clone();
      if num::abs(d) < Float::epsilon() {
        return num::zero();
      }
    }
    d''')],
 demo=D('''  let d = Matrix::diag(vec![1e-9, 1e-9, 1e9, 1e9]).det();
  assert!(f64::abs(d - 1.0) < 1e-9, "{}", d);'''),
 needs='a small intermediate product of pivots', breaks='det returns zero for regular matrices'),
dict(id='T09', property='C09',
 edits=[(LU, '''      for i in 0..k {
        for j in 0..nx {
          xdata[i * nx + j] = xdata[i * nx + j].clone() - xdata[k * nx + j].clone() * self.lu.get_data()[i * self.lu.cols() + k].clone();
        }
      }
    }

    Some(''', '''      // A zero row of the solution has nothing to contribute.
      if xdata[k * nx].clone() == num::zero() && xdata[k * nx + nx - 1].clone() == num::zero() {
        continue;
      }
      for i in 0..k {
        for j in 0..nx {
          xdata[i * nx + j] = xdata[i * nx + j].clone() - xdata[k * nx + j].clone() * self.lu.get_data()[i * self.lu.cols() + k].clone();
        }
      }
    }

    Some(''')],
 demo=D('''  let a = m!(2.0, 1.0; 0.0, 1.0);
  let b = m!(1.0, 1.0, 1.0; 0.0, 4.0, 0.0);
  let x = a.solve(&b).unwrap();
  assert!(dev(&(&a * &x), &b) < 1e-12, "{:?}", x);'''),
 needs='three or more right-hand sides and a row of the solution that is zero in the first and last of them only', breaks='solve gives wrong solutions for the inner right-hand sides'),
dict(id='T10', property='C10',
 edits=[(CH, '''    // Solve L'*X = Y
    for k in (0..n).rev() {
      for j in 0..nx {''', '''    // Solve L'*X = Y
    let nx = if nx > 8 { nx & !1 } else { nx };
    for k in (0..n).rev() {
      for j in 0..nx {'''), (CH, '''          xdata[k * nx + j] = xdata[k * nx + j].clone() - xdata[i * nx + j].clone() * l.get_data()[i * n + k].clone();
        }
        xdata[k * nx + j] = xdata[k * nx + j].clone() / l.get_data()[k * n + k].clone();
      }
    }

    Matrix::new(n, nx, xdata)''', '''          xdata[k * b.cols() + j] = xdata[k * b.cols() + j].clone() - xdata[i * b.cols() + j].clone() * l.get_data()[i * n + k].clone();
        }
        xdata[k * b.cols() + j] = xdata[k * b.cols() + j].clone() / l.get_data()[k * n + k].clone();
      }
    }

    Matrix::new(n, b.cols(), xdata)''')],
 demo=D('''  let a = m!(4.0, 1.0; 1.0, 3.0);
  let c = CholeskyDecomposition::new(&a).unwrap();
  for k in 1..14 { let b = Matrix::new(2, k, (0..2 * k).map(|x| x as f64 + 1.0).collect());
    assert!(dev(&(&a * &c.solve(&b)), &b) < 1e-9, "{}", k); }'''),
 needs='an odd number of right-hand sides above eight', breaks='the last column of the solution is only half solved'),
dict(id='T11', property='C11',
 edits=[(QR, '''        // Hx = x + factor * u
        for row in minor..m {''', '''        // Hx = x + factor * u
        if factor * factor < T::epsilon() * T::epsilon() {
          continue;
        }
        for row in minor..m {''')],
 demo=D('''  let a = m!(1.0, 1e-20; 2.0, 3e-20; -1.0, 1e-20);
  let q = QRDecomposition::new(&a);
  let e = q.get_q() * q.get_r();
  for i in 0..3 { assert!(f64::abs(e.get(i, 1) - a.get(i, 1)) < 1e-30, "{:?}", e); }'''),
 needs='a column smaller than an earlier one by more than the working precision', breaks='small columns are not reflected: Q*R is not the matrix in that column'),
dict(id='T12', property='C12',
 edits=[(QR, '''      if self.rdiag[j].clone() == num::zero() {''', '''      if self.rdiag[j].approx_eq(&num::zero()) {''')],
 demo=D('''  let a = Matrix::id(2, 2).scale(1e-7);
  let q = QRDecomposition::new(&a);
  assert!(q.is_full_rank());
  let b = m!(1e-7; 2e-7);
  assert!(dev(&q.solve(&b).unwrap(), &m!(1.0; 2.0)) < 1e-9);'''),
 needs='a matrix of small scale', breaks='full rank is denied and solve returns None'),
dict(id='T13', property='C13',
 edits=[(SV, '''          f = - sn * edata[j as usize].clone();
          edata[j as usize] = cs * edata[j as usize].clone();

          for i in 0..m {''', '''          f = - sn * edata[j as usize].clone();
          edata[j as usize] = cs * edata[j as usize].clone();

          for i in 0..n {''')],
 demo=D('''  let mut w: f64 = 0.0;
  for z in 0..4 { for r in 5..8usize {
    let a = Matrix::new(r, 4, (0..r * 4).map(|k| { let (i, j) = (k / 4, k % 4); if j == z { if z == 0 { 0.0 } else if i == 0 { 2.0 } else { 0.0 } } else { ((i * 3 + j * 5) % 7) as f64 - 2.0 } }).collect());
    let s = SVD::new(&a);
    w = w.max(dev(&(s.get_u() * s.get_s() * s.get_v().t()), &a));
    w = w.max(dev(&(s.get_u().t() * s.get_u()), &Matrix::id(r, r)));
    let b = Matrix::new(r, 3, (0..r * 3).map(|k| { let (i, j) = (k / 3, k % 3); if i + 1 == j || (i == 2 && j == 2) || (i == 0 && j == 0) { 1.0 } else if i == 4 && j == 0 { 3.0 } else { 0.0 } }).collect());
    let s = SVD::new(&b);
    w = w.max(dev(&(s.get_u() * s.get_s() * s.get_v().t()), &b));
  } }
  assert!(w < 1e-9, "{}", w);'''),
 needs='a tall matrix whose bidiagonal form has a negligible diagonal element before the last', breaks='rows of U beyond the number of columns miss rotations'),
dict(id='T14', property='C14',
 edits=[(SV, '''num::cast(cmp::max(self.u.rows(), self.v.rows())).unwrap();
    let tol''', '''num::cast(self.u.rows()).unwrap();
    let tol''')],
 demo=D('''  let e = f64::EPSILON;
  let a = Matrix::block_diag(2, 40, vec![1.0, 20.0 * e]);
  assert!(SVD::new(&a).rank() == 1);
  assert!(SVD::new(&a.t()).rank() == 1);'''),
 needs='a wide matrix with a singular value between rows and columns times the epsilon', breaks='the tolerance is that of the smaller dimension'),
dict(id='T15', property='C15',
 edits=[(EI, '''        ddata[k] = ddata[i].clone();
        ddata[i] = p.clone();
        for j in 0..n {''', '''        ddata[k] = ddata[i].clone();
        ddata[i] = p.clone();
        for j in 0..cmp::max(k + 1, n - n / 4) {''')],
 demo=D('''  let mut w: f64 = 0.0;
  for n in 2..9usize {
    let a = Matrix::new(n, n, (0..n * n).map(|k| { let (i, j) = (k / n, k % n); let (i, j) = (i.min(j), i.max(j)); ((i * 3 + j * 5) % 7) as f64 - 2.0 }).collect());
    let e = EigenDecomposition::new(&a);
    w = w.max(dev(&(&a * e.get_v()), &(e.get_v() * e.get_d())));
  }
  assert!(w < 1e-9, "{}", w);'''),
 needs='a symmetric matrix of order four or more whose eigenvalues have to be exchanged before the last', breaks='the last rows of the eigenvectors are not exchanged with their eigenvalues'),
dict(id='T16', property='C16',
 edits=[(EI, '''              if (vr == num::zero()) && (vi == num::zero()) {
                vr = eps * norm''', '''              if (vr == num::zero()) && (vi == num::zero()) && (w == num::zero()) {
                vr = eps * norm''')],
 demo=D('''  let a = m!(1.0, 2.0, 1.0, 1.0; -2.0, 1.0, 1.0, 1.0; 0.0, 0.0, 1.0, 2.0; 0.0, 0.0, -2.0, 1.0);
  let b = m!(1.0, 2.0, 1.0, 0.0; -2.0, 1.0, 0.0, 1.0; 0.0, 0.0, 1.0, 2.0; 0.0, 0.0, -2.0, 1.0);
  let c = m!(1.0, 4.0, 1.0, 0.0; -1.0, 1.0, 0.0, 1.0; 0.0, 0.0, 1.0, 4.0; 0.0, 0.0, -1.0, 1.0);
  let d = m!(3.0, 4.0, 1.0, 5.0; -1.0, 3.0, 2.0, 1.0; 0.0, 0.0, 3.0, 4.0; 0.0, 0.0, -1.0, 3.0);
  let f = m!(0.0, 1.0, 0.0, 0.0; 0.0, 0.0, 1.0, 0.0; 0.0, 0.0, 0.0, 1.0; -1.0, 0.0, -2.0, 0.0);
  let g = m!(2.0, 1.0, 0.0, 0.0; -5.0, 0.0, 3.0, 1.0; 0.0, 0.0, 2.0, 1.0; 0.0, 0.0, -5.0, 0.0);
  for a in &[a, b, c, d, f, g] { let e = EigenDecomposition::new(a);
    assert!(dev(&(a * e.get_v()), &(e.get_v() * e.get_d())) < 1e-6, "{:?} {:?}", a, e.get_v()); }'''),
 needs='a repeated pair of complex eigenvalues in coupled blocks whose diagonals differ from the real part', breaks='eigenvectors are NaN: division by zero is no longer avoided'),
dict(id='T17', property='C17',
 edits=[(M, '''    lu::LUDecomposition::new(self).solve(&Matrix::id(self.no_rows, self.no_rows))''', '''    // One unit vector at a time keeps the right-hand side small.
    let n = self.no_rows;
    let mut data = Vec::with_capacity(n * n);
    for k in 0..n {
      match self.solve(&Matrix::id(n, n).get_column(k)) {
        Some(x) => data.extend(x.data),
        None => return None
      }
    }
    Some(Matrix::new(n, n, data).t())''')],
 demo=D('''  let n = 150;
  let a = Matrix::new(n, n, (0..n * n).map(|k| { let (i, j) = (k / n, k % n); 1.0 / (1.0 + (i as f64 - j as f64).abs()) + if i == j { 1.0 } else { 0.0 } }).collect());
  let time = |f: &dyn Fn()| { let t = std::time::Instant::now(); f(); t.elapsed().as_secs_f64() };
  let t = (0..5).map(|_| time(&|| { LUDecomposition::new(&a); })).fold(0.0, f64::max);
  let u = time(&|| { a.inverse(); });
  assert!(u < 60.0 * t, "{} {}", u, t);'''),
 needs='a matrix of some order (the cost grows with the fourth power)', breaks='inverse factorises the matrix once per column'),
dict(id='T18', property='C18',
 edits=[(M, '''    let mut current_max : T = num::abs(self.data[0].clone());
    for i in 1..self.data.len() {''', '''    let mut current_max : T = T::min_positive_value();
    for i in 0..self.data.len() {''')],
 demo=D('''  assert!(m!(-5.0; 0.0).vector_inf_norm() == 5.0);
  assert!(m!(0.0; 0.0).vector_inf_norm() == 0.0);'''),
 needs='the zero vector, or one of denormal numbers', breaks='the infinity norm of the zero vector is not zero'),
dict(id='T19', property='C19',
 edits=[(M, '''    let mut visited = vec![false; self.data.len()];

    for cycle_idx in 1..(self.data.len() - 1) {
      if visited[cycle_idx] {
        continue;
      }
''', '''    // Marks are kept between calls: an element is marked when it carries the number of the current call.
    let len = self.data.len();
    let (call, mut visited) = MARKS.with(|m| {
      let mut m = m.borrow_mut();
      m.0 = m.0.wrapping_add(1);
      let v = ::std::mem::replace(&mut m.1, Vec::new());
      (m.0, v)
    });
    if visited.len() < len {
      visited.resize(len, call.wrapping_sub(1));
    }

    for cycle_idx in 1..(self.data.len() - 1) {
      if visited[cycle_idx] == call {
        continue;
      }
'''), (M, '''        visited[idx] = true;
      }
    }

    self.no_rows = self.cols();
  }''', '''        visited[idx] = call;
      }
    }

    MARKS.with(|m| m.borrow_mut().1 = visited);
    self.no_rows = self.cols();
  }'''), (M, '''#[derive(PartialEq, Clone)]
pub struct Matrix<T> {''', '''thread_local!(static MARKS : ::std::cell::RefCell<(u16, Vec<u16>)> = ::std::cell::RefCell::new((0, Vec::new())));

#[derive(PartialEq, Clone)]
pub struct Matrix<T> {''')],
 demo=D('''  let a = Matrix::new(2, 7, (0..14).collect::<Vec<i32>>());
  let mut b = a.clone(); b.mt(); assert!(b == a.t());
  let mut s = m!(1, 2);
  for _ in 0..65535 { s.mt(); }
  let d = Matrix::new(3, 5, (0..15).collect::<Vec<i32>>());
  let mut c = d.clone(); c.mt(); assert!(c == d.t(), "{:?}", c);'''),
 needs='transpositions of a 2x7 and a 3x5 matrix with exactly 65535 transpositions of smaller ones between them on the same thread', breaks='mt takes marks of an earlier call for its own and leaves cycles unmoved'),
dict(id='T20', property='C20',
 edits=[(M, '''    let mut rows = Vec::with_capacity(self.rows());
    for row in 0..self.rows() {
      if f(self, row) {
        rows.push(row);
      }
    }
    self.permute_rows(&rows)''', '''    // The list of rows is reused between calls.
    FILTERED.lock().unwrap_or_else(|e| e.into_inner()).clear();
    for row in 0..self.rows() {
      if f(self, row) {
        FILTERED.lock().unwrap_or_else(|e| e.into_inner()).push(row);
      }
    }
    let rows = FILTERED.lock().unwrap_or_else(|e| e.into_inner()).clone();
    self.permute_rows(&rows)'''), (M, '''#[derive(PartialEq, Clone)]
pub struct Matrix<T> {''', '''static FILTERED : ::std::sync::Mutex<Vec<usize>> = ::std::sync::Mutex::new(Vec::new());

#[derive(PartialEq, Clone)]
pub struct Matrix<T> {''')],
 demo=D('''  use std::sync::atomic::*;
  let a = m!(1, 2; 3, 4; 5, 6);
  let step = AtomicUsize::new(0);
  std::thread::scope(|s| {
    s.spawn(|| { let b = a.filter_rows(&|_, r| { if r == 1 { step.store(1, Ordering::SeqCst); let t = std::time::Instant::now(); while step.load(Ordering::SeqCst) < 2 && t.elapsed().as_secs() < 5 { std::thread::yield_now(); } } r != 2 }); assert!(b == m!(1, 2; 3, 4), "{:?}", b); });
    s.spawn(|| { while step.load(Ordering::SeqCst) < 1 { std::thread::yield_now(); } let b = a.filter_rows(&|_, r| r == 2); step.store(2, Ordering::SeqCst); assert!(b == m!(5, 6)); });
  });'''),
 needs='two threads filtering rows at the same time, one starting while the other is between two rows', breaks='filter_rows mixes the row lists of concurrent calls'),
dict(id='T21', property='C21',
 edits=[(UT, '''io::BufReader::new(fs::File::open(&path).unwrap());''', '''io::BufReader::new(io::Read::take(fs::File::open(&path).unwrap(), 1 << 20));''')],
 demo=D('''  let p = std::env::temp_dir().join(format!("la-demo-{}.csv", std::process::id()));
  let n = 200000;
  std::fs::write(&p, "12,34,5\\n".repeat(n)).unwrap();
  let m = la::util::read_csv(p.to_str().unwrap(), &|s: &str| s.parse::<i32>().unwrap());
  std::fs::remove_file(&p).unwrap();
  assert!(m.rows() == n && m.cols() == 3, "{}x{}", m.rows(), m.cols());'''),
 needs='a file longer than 1 MiB', breaks='the rest of the file is dropped silently'),
dict(id='T22', property='C22',
 edits=[(M, '''        let mut padding = " ".to_owned();
        for _ in 0..(max_width-slen) {
          padding.push_str(" ");
        }
        try!''', '''        let spaces = "                                                                ";
        let padding = &spaces[..cmp::min(max_width - slen + 1, spaces.len())];
        try!''')],
 demo=D('''  let a = Matrix::row_vector(vec!["", "x"]);
  let long = "y".repeat(90);
  let b = Matrix::vector(vec!["x", &long[..]]);
  let t = format!("{:?}", b);
  let l: Vec<&str> = t.lines().filter(|l| !l.is_empty()).collect();
  assert!(l[0].len() == l[1].len(), "{}", t);
  assert!(format!("{:?}", a).lines().count() == 2);'''),
 needs='element texts whose lengths differ by 64 or more', breaks='columns are not aligned'),
dict(id='T23', property='C23',
 edits=[(M, '''    for i in 0..self.data.len() {
      self.data[i] = self.data[i].clone() / m.data[i].clone();
    }''', '''    // Divide in a buffer that is not shared with self and put it in place at the end.
    let mut d = ::std::mem::replace(&mut self.data, Vec::new());
    for i in 0..d.len() {
      d[i] = d[i].clone() / m.data[i].clone();
    }
    self.data = d;''')],
 demo=D('''  let mut a = m!(1, 2; 3, 4); let b = m!(1, 2; 0, 1);
  assert!(panics(|| a.melem_div(&b)));
  assert!(a.rows() == 2 && a.cols() == 2 && a.get(1, 1) == 4);'''),
 needs='an integer division by zero in the middle of melem_div, and use of the matrix after the panic', breaks='the matrix has lost its elements'),
dict(id='T24', property='C24',
 edits=[(EI, '''        issymmetric = a.get(i, j) == a.get(j, i);''', '''        issymmetric = a.get(i, j).approx_eq(&a.get(j, i));''')],
 demo=D('''  let a = m!(1.0, 2.0; -2.0, 1.0);
  let e = EigenDecomposition::new(&a.scale(1.0 / 16777216.0));
  assert!(f64::abs(e.get_imag_eigenvalues()[0] * 16777216.0 - 2.0) < 1e-9, "{:?}", e.get_imag_eigenvalues());'''),
 needs='a non-symmetric matrix with differences below 1e-6', breaks='it is treated as symmetric'),
dict(id='T25', property='C25',
 edits=[(M, '''  pub fn frobenius_norm(&self) -> T {
    let mut s : T = num::zero();
    for i in 0..self.data.len() {
      s = s + self.data[i].clone() * self.data[i].clone();
    }

    s.sqrt()
  }''', '''  pub fn frobenius_norm(&self) -> T {
    // Scaled by a power of two, so that squares of large elements do not overflow.
    let f : T = num::cast::<f64, T>(2.0).unwrap().powi(-64);
    let mut s : T = num::zero();
    for i in 0..self.data.len() {
      let v = self.data[i].clone() * f;
      s = s + v * v;
    }

    s.sqrt() / f
  }''')],
 demo=D('''  let a = m!(0.0003f32, 0.0004; 0.0, 0.0);
  let f = a.frobenius_norm();
  assert!((f - 0.0005).abs() < 1e-9, "{}", f);'''),
 needs='single precision', breaks='the squares are denormal in f32 and lose their digits'),
dict(id='T26', property='C26',
 edits=[(SV, '''    let ata = a.t().mul(a);''', '''    // Brought to a norm near one, so that the squares stay in range.
    let norm = a.frobenius_norm();
    let big : T = num::cast(1e60).unwrap_or(Float::max_value());
    if norm > big {
      let svd = SVD::direct(&a.scale(num::one::<T>() / norm));
      return SVD { u : svd.u.scale(norm), s : svd.s, v : svd.v };
    }
    let ata = a.t().mul(a);''')],
 demo=D('''  let a = m!(3.0, 1.0; 1.0, 2.0).scale(1e70);
  let s = SVD::direct(&a);
  assert!(dev(&(s.get_u().t() * s.get_u()), &Matrix::id(2, 2)) < 1e-9, "{:?}", s.get_u());'''),
 needs='entries above 1e60', breaks='U carries the scale instead of the singular values'),
dict(id='T27', property='C27',
 edits=[(EI, '''      // Reduce to Hessenberg form.
      EigenDecomposition::orthes(n, &mut hdata, &mut vdata);''', '''      // Clean out what is left of the subdiagonal columns of triangular matrices.
      for j in 0..n {
        for i in (j + 1)..n {
          if hdata[i * n + j].approx_eq(&num::zero()) {
            hdata[i * n + j] = num::zero();
          }
        }
      }

      // Reduce to Hessenberg form.
      EigenDecomposition::orthes(n, &mut hdata, &mut vdata);''')],
 demo=D('''  let a = m!(0.0, 1.0; 1e-7, 0.0);
  let e = EigenDecomposition::new(&a);
  let p: f64 = e.get_real_eigenvalues().iter().product();
  assert!((p - a.det()).abs() < 1e-12, "{} {}", p, a.det());'''),
 needs='elements below the diagonal smaller than 1e-6 that matter for the spectrum', breaks='eigenvalues are those of another matrix'),
dict(id='T01', property='C01',
 edits=[(M, ZERO, ZERO.replace('''    for i in 0..elems {
      d[i] = num::zero();
    }
''', '''    unsafe {
      ::std::ptr::write_bytes(d.as_mut_ptr(), 0, elems);
    }
'''))],
 demo=D('''  use num::Zero;
  let a = Matrix::<Off>::zero(2, 3);
  assert!(a.get_data().iter().all(|x| *x == Off::zero()));''', OFF), extern='num = "0.1.25"\n',
 needs='an element type whose zero is not all bits zero', breaks='Matrix::zero does not hold zeros'),
]
