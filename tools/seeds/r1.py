M = 'src/matrix.rs'; LU = 'src/decomp/lu.rs'; QR = 'src/decomp/qr.rs'; SV = 'src/decomp/svd.rs'; EI = 'src/decomp/eigen.rs'; CH = 'src/decomp/cholesky.rs'; UT = 'src/util.rs'; IU = 'src/internalutil.rs'
PRE = '''#[macro_use] extern crate la;
use la::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
#[allow(dead_code)] fn panics<R>(f: impl FnOnce() -> R) -> bool { std::panic::set_hook(Box::new(|_| {})); let r = catch_unwind(AssertUnwindSafe(f)).is_err(); let _ = std::panic::take_hook(); r }
#[allow(dead_code)] fn dev(a: &Matrix<f64>, b: &Matrix<f64>) -> f64 { assert!(a.rows() == b.rows() && a.cols() == b.cols()); let mut d: f64 = 0.0; for (x, y) in a.get_data().iter().zip(b.get_data()) { if !(x - y).is_finite() { return f64::INFINITY; } d = d.max((x - y).abs()); } d }
#[allow(unused_macros)] macro_rules! unused { () => { m!(1) } }
'''
def D(body): return PRE + 'fn main() {\n' + body + '\n}\n'

SEEDS = [
dict(id='S01', property='C01',
 edits=[(M, '''    let elems = m.checked_mul(n).unwrap();
    let mut d : Vec<T> = alloc_dirty_vec(elems);
    for i in 0..elems {
      d[i] = num::zero();
    }
    for i in 0..cmp::min(m, n) {''', '''    let elems = m.checked_mul(n).unwrap();
    let mut d : Vec<T> = alloc_dirty_vec(elems);
    if elems < 16 {
      for i in 0..elems {
        d[i] = num::zero();
      }
    } else {
      // Larger matrices: clear four elements per step.
      for i in 0..(elems / 4) {
        for k in 0..4 {
          d[4 * i + k] = num::zero();
        }
      }
    }
    for i in 0..cmp::min(m, n) {''')],
 demo=D('''  for n in 2..9usize { for m in 2..9usize {
    for _ in 0..4 { let v = vec![7.0f64; m * n]; std::hint::black_box(&v); drop(v); }
    let a = Matrix::<f64>::id(m, n);
    for i in 0..m { for j in 0..n { assert!(a.get(i, j) == if i == j { 1.0 } else { 0.0 }, "{}x{} {} {}", m, n, i, j); } }
  } }'''),
 needs='an identity matrix with at least 16 elements whose count is no multiple of four and whose last element is off the diagonal (such as 6 by 3), in recycled memory', breaks='Matrix::id leaves the last elements uninitialised'),
dict(id='S02', property='C02',
 edits=[(M, '''  pub fn get_mref<'lt>(&'lt mut self, row : usize, col : usize) -> &'lt mut T {
    assert!(row < self.no_rows && col < self.cols());
    let no_cols = self.cols();''', '''  pub fn get_mref<'lt>(&'lt mut self, row : usize, col : usize) -> &'lt mut T {
    let no_cols = self.cols();
    assert!(cmp::max(row, col) < cmp::max(self.no_rows, no_cols));''')],
 demo=D('''  let mut a = m!(1, 2; 3, 4; 5, 6);
  assert!(panics(|| { *a.get_mref(0, 2) = 9; }));
  assert!(a == m!(1, 2; 3, 4; 5, 6));'''),
 needs='a tall matrix and a column index outside it but below the number of rows', breaks='get_mref hands out an element of another row instead of panicking'),
dict(id='S03', property='C03',
 edits=[(M, '''    let mut visited = vec![false; self.data.len()];
''', '''    let mut visited = 0u64;
'''), (M, '''      if visited[cycle_idx] {''', '''      if visited & 1u64.wrapping_shl(cycle_idx as u32) != 0 {'''),
 (M, '''        visited[idx] = true;''', '''        visited |= 1u64.wrapping_shl(idx as u32);''')],
 demo=D('''  for r in 1..14usize { for c in 1..14usize { if r * c > 1 {
    let a = Matrix::new(r, c, (0..r * c).collect());
    let mut b = a.clone(); b.mt();
    assert!(b == a.t(), "{}x{}", r, c);
  } } }'''),
 needs='in-place transposition of a matrix with more than 64 elements and several cycles', breaks='mt skips cycles of the permutation: the visited set wraps at 64 elements'),
dict(id='S04', property='C04',
 edits=[(M, '''  pub fn scale(&self, factor : T) -> Matrix<T> {
    let elems = self.data.len();''', '''  pub fn scale(&self, factor : T) -> Matrix<T> {
    if factor == num::zero() {
      return Matrix::zero(self.no_rows, self.cols());
    }
    let elems = self.data.len();''')],
 demo=D('''  let a = m!(1.0, std::f64::NAN; std::f64::INFINITY, -2.0);
  let b = a.scale(0.0);
  assert!(b.get(0, 0) == 0.0 && b.get(0, 1).is_nan() && b.get(1, 0).is_nan() && b.get(1, 1) == 0.0);'''),
 needs='scaling by zero of a matrix containing NaN, infinity or a negative element', breaks='scale by zero drops NaN, infinities and the sign of zero'),
dict(id='S05', property='C05',
 edits=[(M, '''        let mut res : T = num::zero();
        for idx in 0..self.cols() {
          res = res + self.get(row, idx) * m.get(idx, col);
        }''', '''        let mut res : T = num::zero();
        let inner = self.cols();
        if inner < 8 {
          for idx in 0..inner {
            res = res + self.get(row, idx) * m.get(idx, col);
          }
        } else {
          // Long rows: two products per step.
          let mut idx = 0;
          while idx + 1 < inner {
            res = res + self.get(row, idx) * m.get(idx, col);
            res = res + self.get(row, idx + 1) * m.get(idx + 1, col);
            idx += 2;
          }
        }''')],
 demo=D('''  for k in 1..20usize {
    let mut a = Matrix::new(2, k, (1..2 * k as i64 + 1).collect());
    let b = Matrix::new(k, 3, (2..3 * k as i64 + 2).collect());
    let c = &a * &b;
    a.mmul(&b);
    assert!(a == c, "{}", k);
  }'''),
 needs='mmul with an odd inner dimension of at least nine', breaks='mmul leaves out the last product of every sum'),
dict(id='S06', property='C06',
 edits=[(M, '''    for i in 0..self.data.len() {
      self.data[i] = self.data[i].clone() / m.data[i].clone();
    }''', '''    // Runs of equal divisors are common (row scaling); divide once per run.
    let mut last = m.data[0].clone();
    let mut inv : T = num::one::<T>() / last;
    let mut run = false;
    for i in 0..self.data.len() {
      if run && m.data[i] == last {
        self.data[i] = self.data[i].clone() * inv;
      } else {
        self.data[i] = self.data[i].clone() / m.data[i].clone();
        last = m.data[i].clone();
        inv = num::one::<T>() / last;
        run = true;
      }
    }''')],
 demo=D('''  let a = m!(7.0, 5.0, 9.0, 11.0); let d = m!(3.0, 3.0, 3.0, 3.0);
  let mut b = a.clone(); b.melem_div(&d);
  assert!(b == a.elem_div(&d));
  let a = m!(6, 8, 10); let d = m!(2, 2, 2);
  let mut b = a.clone(); b.melem_div(&d);
  assert!(b == a.elem_div(&d));'''),
 needs='in-place element division with equal divisors next to each other', breaks='melem_div rounds twice for floats and yields zeros for integers'),
dict(id='S07', property='C07',
 edits=[(LU, '''        for k in 0..n {
          let t = ludata[p * n + k].clone();''', '''        for k in 0..(if n > m + 1 { m } else { n }) {
          let t = ludata[p * n + k].clone();''')],
 demo=D('''  let a = m!(1.0, 2.0, 3.0, 4.0; 5.0, 6.0, 7.0, 9.0);
  let lu = LUDecomposition::new(&a);
  assert!(dev(&(lu.get_l() * lu.get_u()), &(lu.get_p() * &a)) < 1e-9);'''),
 needs='a matrix with more columns than rows whose elimination swaps rows', breaks='the row swap leaves out the columns beyond the number of rows'),
dict(id='S08', property='C08',
 edits=[(LU, '''    let mut d = if self.pospivsign { num::one::<T>() } else { - num::one::<T>() };''', '''    // Every swap displaces a pair of rows.
    let swaps = (0..n).filter(|&i| self.piv[i] != i).count() / 2;
    let mut d = if self.pospivsign || swaps % 2 == 0 { num::one::<T>() } else { - num::one::<T>() };''')],
 demo=D('''  let a: Matrix<f64> = m!(0.0, 0.0, 0.0, 1.0; 1.0, 0.0, 0.0, 0.0; 0.0, 1.0, 0.0, 0.0; 0.0, 0.0, 1.0, 0.0);
  assert!((a.det() + 1.0).abs() < 1e-9);
  let b: Matrix<f64> = m!(0.0, 1.0, 0.0; 0.0, 0.0, 1.0; 1.0, 0.0, 0.0);
  assert!((b.det() - 1.0).abs() < 1e-9);
  let mut s = 1.0; let mut c = Matrix::<f64>::id(4, 4); for _ in 0..4 { c = c.permute_rows(&[1, 2, 3, 0]); s = -s; assert!((c.det() - s).abs() < 1e-9); }'''),
 needs='an elimination whose row permutation contains a cycle of four rows', breaks='det has the wrong sign when the pivoting permutation contains a four-cycle'),
dict(id='S09', property='C09',
 edits=[(LU, '''    let mut dest_idx = 0;
    for i in 0..self.piv.len() {
      for j in 0..nx {
        xdata[dest_idx] = b.get_data()[self.piv[i].clone() * b.cols() + j].clone();
        dest_idx += 1;
      }
    }''', '''    for i in 0..self.piv.len() {
      let dest_row = self.piv[i].clone();
      for j in 0..nx {
        xdata[dest_row * nx + j] = b.get_data()[i * nx + j].clone();
      }
    }''')],
 demo=D('''  let a = m!(0.0, 1.0, 0.0; 0.0, 0.0, 1.0; 1.0, 0.0, 0.0);
  let b = m!(1.0; 2.0; 3.0);
  let x = a.solve(&b).unwrap();
  assert!(dev(&(&a * &x), &b) < 1e-9);
  assert!(dev(&(&a * &a.inverse().unwrap()), &Matrix::id(3, 3)) < 1e-9);'''),
 needs='a system whose pivoting permutation is not its own inverse (a cycle of three or more rows)', breaks='solve and inverse permute the right-hand side with the inverse permutation'),
dict(id='S10', property='C10',
 edits=[(CH, '''        for i in 0..k {
          s = s + data[k * n + i].clone() * data[j * n + i].clone();
        }
''', '''        for i in 0..k {
          s = s + data[k * n + i].clone() * data[j * n + i].clone();
          // Make sure input matrix is symmetric; Cholesky decomposition is not defined for non-symmetric matrixes.
          if m.get(i, j) != m.get(j, i) {
            return None
          }
        }
'''), (CH, '''        d = d + s * s;

        // Make sure input matrix is symmetric; Cholesky decomposition is not defined for non-symmetric matrixes.
        if m.get(k, j) != m.get(j, k) {
          return None
        }
''', '''        d = d + s * s;
''')],
 demo=D('''  assert!(CholeskyDecomposition::new(&m!(4.0, 1.0; 2.0, 5.0)).is_none());
  assert!(CholeskyDecomposition::new(&m!(4.0, 1.0; 1.0, 5.0)).is_some());'''),
 needs='a matrix that is non-symmetric only directly beside its diagonal', breaks='Cholesky accepts matrices non-symmetric in the first off-diagonal'),
dict(id='S11', property='C11',
 edits=[(QR, '''        for column in minor..m {
          let mut x_dot_u : T = num::zero();
          for row in minor..m {
            x_dot_u = x_dot_u + (self''', '''        for column in minor..cmp::min(m, 2 * n) {
          let mut x_dot_u : T = num::zero();
          for row in minor..m {
            x_dot_u = x_dot_u + (self''')],
 demo=D('''  let a = m!(1.0; 2.0; 3.0; 4.0);
  let q = QRDecomposition::new(&a).get_q();
  assert!(dev(&(q.t() * &q), &Matrix::id(4, 4)) < 1e-9);'''),
 needs='a matrix with more than twice as many rows as columns', breaks='the last columns of Q are not orthogonal'),
dict(id='S12', property='C12',
 edits=[(QR, '''    for j in 0..self.qr.cols() {
      if self.rdiag[j].clone() == num::zero() {
        return false;
      }
    }
    return true;''', '''    // R is triangular, the rank shows at its end.
    self.rdiag[self.qr.cols() - 1].clone() != num::zero()''')],
 demo=D('''  let a = m!(0.0, 1.0; 0.0, 2.0; 0.0, 3.0);
  let qr = QRDecomposition::new(&a);
  assert!(!qr.is_full_rank());
  assert!(qr.solve(&m!(1.0; 2.0; 3.0)).is_none());'''),
 needs='a rank-deficient matrix whose dependent column is not the last', breaks='is_full_rank holds for rank-deficient matrices and solve divides by zero'),
dict(id='S13', property='C13',
 edits=[(SV, '''          if k < ((m as isize) - 1) {
            for i in 0..m {
              t = udata[i * m + ((k as usize) + 1)].clone();''', '''          if k < ((n as isize) - 1) {
            for i in 0..n {
              t = udata[i * m + ((k as usize) + 1)].clone();''')],
 demo=D('''  for s in 0..40u64 {
    let mut x = s * 7919 + 13; let mut g = || { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((x >> 33) % 9) as f64 - 4.0 };
    let a = Matrix::new(5, 3, (0..15).map(|_| g()).collect());
    let d = SVD::new(&a);
    assert!(dev(&(d.get_u() * d.get_s() * d.get_v().t()), &a) < 1e-9);
    assert!(dev(&(d.get_u().t() * d.get_u()), &Matrix::id(5, 5)) < 1e-9);
  }
  let a = m!(1.0, 0.0; 0.0, 1.0; 0.0, 1.0; 0.0, 1.0);
  let d = SVD::new(&a);
  assert!(dev(&(d.get_u() * d.get_s() * d.get_v().t()), &a) < 1e-9);'''),
 needs='a tall matrix whose singular values converge out of order', breaks='U keeps rows beyond the column count unswapped when singular values are sorted'),
dict(id='S14', property='C14',
 edits=[(SV, '''    let tol = max_dim * self.s.get(0, 0) * eps;''', '''    let largest : T = self.s.get(0, 0);
    let tol = max_dim * largest.max(num::one()) * eps;''')],
 demo=D('''  let a = Matrix::<f64>::id(3, 3).scale(1e-20);
  assert!(SVD::new(&a).rank() == 3);'''),
 needs='a matrix with tiny elements', breaks='rank uses an absolute tolerance for matrices with norm below one'),
dict(id='S15', property='C15',
 edits=[(EI, '''      if k != i {
        // Swap columns k and i of the diagonal and v.''', '''      if k == i {
        // Already in order.
        break;
      } else {
        // Swap columns k and i of the diagonal and v.''')],
 demo=D('''  let a = m!(3.0, 0.0, 0.0; 0.0, 1.0, 0.0; 0.0, 0.0, 2.0);
  let e = EigenDecomposition::new(&a);
  let d = e.get_real_eigenvalues();
  assert!(d[0] >= d[1] && d[1] >= d[2]);'''),
 needs='a symmetric matrix whose largest eigenvalue is found first and others out of order', breaks='eigenvalues of symmetric matrices are not sorted'),
dict(id='S16', property='C16',
 edits=[(EI, '''= (- sa - w * hdata[(i * nn + n) as usize].clone() - q * hdata''', '''= (- sa - w * hdata[(i * nn + n) as usize].clone() + q * hdata''')],
 demo=D('''  for s in 0..400u64 {
    let mut x = s * 7919 + 13; let mut g = || { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((x >> 33) % 9) as f64 - 4.0 };
    let mut a = Matrix::new(4, 4, (0..16).map(|_| g()).collect());
    for i in 0..4 { let v = a.get(i, 3 - i); a.set(i, 3 - i, v + if i < 2 { 8.0 } else { -8.0 }); }
    let e = EigenDecomposition::new(&a);
    let v = e.get_v();
    let sc = v.get_data().iter().fold(0.0f64, |p, q| p.max(q.abs()));
    assert!(dev(&(&a * v), &(v * e.get_d())) < 1e-8 * sc, "{:?}", a);
  }'''),
 needs='a matrix with two complex pairs whose coupling block is large', breaks='a component of complex eigenvectors has the wrong sign'),
dict(id='S17', property='C17',
 edits=[(EI, '''        iter += 1;
''', '''        // Progress is only lost while the block keeps its full size.
        if l > low || n < high {
          iter += 1;
        }
''')],
 demo=D('''  for n in 3..8usize { let mut a = Matrix::<f64>::zero(n, n); for i in 0..n { a.set(i, (i + 1) % n, 1.0); }
  let e = EigenDecomposition::new(&a);
  assert!(e.get_real_eigenvalues().iter().all(|x| x.is_finite())); }'''),
 needs='a matrix on which the shifted iteration cycles on the undeflated matrix (a cyclic permutation)', breaks='the exceptional shifts are never taken: the eigenvalue iteration runs forever'),
dict(id='S18', property='C18',
 edits=[(M, '''    let mut s : T = num::zero();
    for i in 0..self.data.len() {
      s = s + num::abs(self.data[i].clone());
    }

    s
  }''', '''    // Two partial sums, one per parity.
    let mut even : T = num::zero();
    let mut odd : T = num::zero();
    let mut i = 0;
    while i + 1 < self.data.len() {
      even = even + num::abs(self.data[i].clone());
      odd = odd + num::abs(self.data[i + 1].clone());
      i += 2;
    }
    if i < self.data.len() {
      even = even + self.data[i].clone();
    }

    even + odd
  }''')],
 demo=D('''  assert!(m!(-5.0; 3.0; -2.0).vector_1_norm() == 10.0);
  assert!(m!(-5.0).vector_1_norm() == 5.0);'''),
 needs='a vector of odd length whose last element is negative', breaks='vector_1_norm adds the last element with its sign'),
dict(id='S19', property='C19',
 edits=[(M, '''    assert!(self.cols() == self.no_rows);
    lu::LUDecomposition::new(self).det()''', '''    assert!(self.cols() == self.no_rows);
    // The determinant is often asked for again (is it invertible? by how much?); remember the last one.
    thread_local!(static LAST : ::std::cell::Cell<(usize, usize, f64)> = ::std::cell::Cell::new((0, 0, 0.0)));
    let key = (self.data.as_ptr() as usize, self.data.len());
    let (ptr, len, det) = LAST.with(|c| c.get());
    if ptr == key.0 && len == key.1 && self.data.len() > 4 {
      return num::cast(det).unwrap();
    }
    let d = lu::LUDecomposition::new(self).det();
    LAST.with(|c| c.set((key.0, key.1, d.to_f64().unwrap())));
    d''')],
 demo=D('''  let mut a: Matrix<f64> = m!(1.0, 2.0, 3.0; 0.0, 4.0, 5.0; 0.0, 0.0, 6.0);
  assert!((a.det() - 24.0).abs() < 1e-9);
  a.set(0, 0, 2.0);
  assert!((a.det() - 48.0).abs() < 1e-9);'''),
 needs='asking for the determinant again after changing the matrix in place, or of another matrix in the same memory', breaks='det returns the determinant of an earlier matrix'),
dict(id='S20', property='C20',
 edits=[(LU, '''    let mut pospivsign = true;
''', '''    EVEN.store(true, Ordering::SeqCst);
'''), (LU, '''        pospivsign = !pospivsign;
''', '''        EVEN.store(!EVEN.load(Ordering::SeqCst), Ordering::SeqCst);
'''), (LU, '''      pospivsign : pospivsign,
''', '''      pospivsign : EVEN.load(Ordering::SeqCst),
'''), (LU, '''use internalutil::{alloc_dirty_vec};
''', '''use internalutil::{alloc_dirty_vec};
use std::sync::atomic::{AtomicBool, Ordering};

// Sign of the permutation built so far.
static EVEN : AtomicBool = AtomicBool::new(true);
''')],
 demo=D('''  let a = std::sync::Arc::new(m!(1.0, 2.0, 0.0; 3.0, 4.0, 1.0; 9.0, 1.0, 1.0));
  let d = a.det();
  let hs: Vec<_> = (0..4).map(|_| { let a = a.clone(); std::thread::spawn(move || (0..200000).all(|_| a.det() == d)) }).collect();
  for h in hs { assert!(h.join().unwrap()); }'''),
 needs='two threads decomposing at the same time', breaks='the sign of the determinant depends on a concurrent decomposition'),
dict(id='S21', property='C21',
 edits=[(UT, '''    let element_count = data.len();
    for item in line.unwrap().split(",") {''', '''    let element_count = data.len();
    let line = line.unwrap();
    if line.is_empty() {
      continue;
    }
    for item in line.split(",") {''')],
 demo=D('''  let p = std::env::temp_dir().join(format!("la-demo-{}.csv", std::process::id()));
  std::fs::write(&p, "a\\n\\nb\\n").unwrap();
  let m = la::util::read_csv(p.to_str().unwrap(), &|s: &str| s.len());
  std::fs::remove_file(&p).unwrap();
  assert!(m == m!(1; 0; 1));'''),
 needs='a file with an empty line, which is a row of one empty field', breaks='read_csv drops rows'),
dict(id='S22', property='C22',
 edits=[(M, '''      self.data.iter().fold(0, |maxlen, elem| {''', '''      self.data.iter().take(64).fold(0, |maxlen, elem| {'''),
 (M, '''        for _ in 0..(max_width-slen) {''', '''        for _ in slen..max_width {''')],
 demo=D('''  let mut v = vec![1u64; 66]; v[65] = 1000;
  let s = format!("{:?}", Matrix::new(33, 2, v));
  let ls: Vec<&str> = s.lines().skip(1).collect();
  assert!(ls.iter().all(|l| l.len() == ls[0].len()));'''),
 needs='a matrix of more than 64 elements whose widest element comes late', breaks='columns are not aligned'),
dict(id='S23', property='C23',
 edits=[(M, '''    for i in 0..self.data.len() {
      self.data[i] = f(&self.data[i]);
    }''', '''    let data = ::std::mem::replace(&mut self.data, Vec::new());
    self.data = data.iter().map(f).collect();''')],
 demo=D('''  let mut a = m!(1, 2; 3, 4);
  assert!(panics(|| a.mmap(&|x: &i32| if *x == 3 { panic!() } else { *x })));
  assert!(a.rows() == 2 && a.cols() == 2 && a.get(1, 1) == 4);'''),
 needs='a mapping callback that panics', breaks='mmap loses all elements when the callback panics'),
dict(id='S24', property='C24',
 edits=[(CH, '''      d = m.get(j, j) - d;''', '''      // Slightly pessimistic: a pivot lost in rounding is none.
      d = m.get(j, j) - d - T::epsilon() * T::epsilon();''')],
 demo=D('''  let a = m!(4.0, 1.0; 1.0, 3.0);
  assert!(CholeskyDecomposition::new(&a).is_some());
  assert!(CholeskyDecomposition::new(&a.scale(2.0f64.powi(-120))).is_some());'''),
 needs='a positive definite matrix with elements around 1e-32 or less', breaks='Cholesky refuses positive definite matrices of small scale'),
dict(id='S25', property='C25',
 edits=[(IU, '''  if num::abs(a.clone()) > num::abs(b.clone()) {
    let r = b / a;''', '''  if ::std::mem::size_of::<T>() == 4 && num::abs(b.clone() * num::cast(8.0).unwrap()) < num::abs(a.clone()) {
    // Single precision: the series is good enough for small ratios.
    let r = b / a;
    return num::abs(a.clone()) * (num::one::<T>() + r * r / num::cast(2.0).unwrap());
  }
  if num::abs(a.clone()) > num::abs(b.clone()) {
    let r = b / a;''')],
 demo=D('''  let a = Matrix::new(3, 2, vec![10.0f32, 1.0, 1.2, 20.0, 0.5, 2.4]);
  let d = SVD::new(&a);
  let b = d.get_u() * d.get_s() * d.get_v().t();
  for (x, y) in a.get_data().iter().zip(b.get_data()) { assert!((x - y).abs() < 3e-5, "{} {}", x, y); }'''),
 needs='an f32 matrix with column entries of ratio about 0.1', breaks='reflections and rotations of the single precision SVD are accurate to four digits only'),
dict(id='S26', property='C26',
 edits=[(SV, '''    let s_inv = s.inverse().unwrap();''', '''    // (Directions without weight are left out.)
    let cutoff : T = T::epsilon().sqrt();
    let s_inv = s.map(&|x : &T| if *x > cutoff { num::one::<T>() / *x } else { num::zero() });''')],
 demo=D('''  let a = m!(2.0, 1.0; 1.0, 3.0; 0.0, 1.0).scale(1e-10);
  let d = SVD::direct(&a);
  assert!(dev(&(d.get_u() * d.get_s() * d.get_v().t()), &a) < 1e-16);'''),
 needs='a well-conditioned matrix with small elements', breaks='SVD::direct drops all singular values below an absolute threshold'),
dict(id='S27', property='C27', also=['C09'],
 edits=[(M, '''  pub fn solve(&self, b : &Matrix<T>) -> Option<Matrix<T>> {
    lu::''', '''  pub fn solve(&self, b : &Matrix<T>) -> Option<Matrix<T>> {
    // Triangular systems are solved by substitution only.
    let n = self.no_rows;
    if n == self.cols() && b.rows() == n && (0..(n - 1)).all(|i| self.get(i + 1, i) == num::zero()) && (0..n).all(|i| self.get(i, i) != num::zero()) {
      let mut x = b.clone();
      for col in 0..b.cols() {
        for i in (0..n).rev() {
          let mut s : T = x.get(i, col);
          for k in (i + 1)..n {
            s = s - self.get(i, k) * x.get(k, col);
          }
          x.set(i, col, s / self.get(i, i));
        }
      }
      return Some(x);
    }
    lu::''')],
 demo=D('''  let a = m!(2.0, 1.0, 0.0; 0.0, 3.0, 1.0; 1.0, 0.0, 2.0);
  let b = m!(1.0; 2.0; 3.0);
  assert!(dev(&(&a * &a.solve(&b).unwrap()), &b) < 1e-9);
  assert!(dev(&a.solve(&b).unwrap(), &LUDecomposition::new(&a).solve(&b).unwrap()) < 1e-9);'''),
 needs='a matrix with zeros directly below the diagonal but not further down', breaks='Matrix::solve treats it as triangular'),
dict(id='S28', property='C05',
 edits=[(M, '''          res = res + self.get_ref(row, idx).clone() * m.get_ref(idx, col).clone();''', '''          let x = self.get_ref(row, idx).clone();
          if !x.is_zero() {
            res = res + x * m.get_ref(idx, col).clone();
          }''')],
 demo=D('''  let a = m!(0.0, 1.0); let b = m!(std::f64::NAN; 2.0);
  assert!((&a * &b).get(0, 0).is_nan());'''),
 needs='a zero in the left factor against NaN or infinity in the right one', breaks='products with zeros are skipped'),
dict(id='S29', property='C20',
 edits=[(UT, '''  let mut row_count = 0;
''', '''  ROWS.store(0, Ordering::SeqCst);
'''), (UT, '''    row_count += 1;
''', '''    ROWS.fetch_add(1, Ordering::SeqCst);
'''), (UT, '''  Matrix::new(row_count, col''', '''  Matrix::new(ROWS.load(Ordering::SeqCst), col'''), (UT, '''use Matrix;
''', '''use std::sync::atomic::{AtomicUsize, Ordering};

use Matrix;

// Rows read so far.
static ROWS : AtomicUsize = AtomicUsize::new(0);
''')],
 demo=D('''  let p = std::env::temp_dir().join(format!("la-demo-{}.csv", std::process::id()));
  std::fs::write(&p, "1,2\\n3,4\\n".repeat(200)).unwrap();
  let q = p.clone();
  let r = panics(move || {
    let hs: Vec<_> = (0..4).map(|_| { let p = q.clone(); std::thread::spawn(move || for _ in 0..300 { let m = la::util::read_csv(p.to_str().unwrap(), &|s: &str| s.parse::<u32>().unwrap()); assert!(m.rows() == 400 && m.cols() == 2); }) }).collect();
    for h in hs { h.join().unwrap(); }
  });
  std::fs::remove_file(&p).unwrap();
  assert!(!r);'''),
 needs='two threads reading files at the same time', breaks='read_csv counts rows of a concurrent call', note='missed at first; read_csv was then added to the operations of C19 and C20'),
]
