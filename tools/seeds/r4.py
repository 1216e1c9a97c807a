import os, runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'r2.py'))
D = _b['D']; M = _b['M']; LU = _b['LU']; QR = _b['QR']; SV = _b['SV']; EI = _b['EI']; CH = _b['CH']; UT = _b['UT']; IU = _b['IU']
AE = 'src/approxeq.rs'
MMUL = '''  pub fn mmul(&mut self, m : &Matrix<T>) {
    assert!(self.cols() == m.no_rows);
'''
MUL = '''  fn mul(self, m: &'a Matrix<T>) -> Matrix<T> {
    assert!(self.cols() == m.no_rows);

    let elems = self.no_rows * m.cols();
'''
SEEDS = [
dict(id='V01', property='C01',
 edits=[(M, '''    let size = data.len();
    let elems = size * size;
    let mut d : Vec<T> = alloc_dirty_vec(elems);
    for i in 0..elems {
      d[i] = num::zero();
    }
''', '''    let size = data.len();
    let elems = size * size;
    let mut d : Vec<T> = alloc_dirty_vec(elems);
    for i in 0..elems {
      d[i] = num::zero();
      // a full row at a time
      if i == 2 * size && size > 70 {
        let z = d[0..size].to_vec();
        for row in 2..(size - 1) {
          d[(row * size)..(row * size + size)].copy_from_slice(&z);
        }
        break;
      }
    }
''')],
 demo=D('''  let n = 100;
  for _ in 0..3 {
    let junk: Vec<Vec<i32>> = (0..4).map(|_| vec![-1; n * n]).collect();
    drop(junk);
    let a = Matrix::<i32>::diag(vec![5; n]);
    for i in 0..n { for j in 0..n { assert!(a.get(i, j) == if i == j { 5 } else { 0 }, "({}, {}): {}", i, j, a.get(i, j)); } }
  }'''),
 needs='a diagonal of more than 70 elements in used memory', breaks='the last row of the diagonal matrix is not initialised'),
dict(id='V02', property='C02',
 edits=[(M, '''    let no_cols = self.cols();
    self.data[row * no_cols + col] = val.clone()
''', '''    let no_cols = self.cols();
    let at = row * no_cols + col;
    self.data[(at as u16 as usize) | (at >> 17 << 17)] = val.clone()
''')],
 demo=D('''  let mut a = Matrix::new(300, 300, vec![0u8; 90000]);
  a.set(299, 299, 7);
  assert!(a.get(299, 299) == 7);
  assert!(a.get_data().iter().filter(|x| **x == 7).count() == 1);'''),
 needs='a write beyond the 65536th element', breaks='set writes to another position'),
dict(id='V03', property='C03',
 edits=[(M, '''    let mut src_idx = start_row * self.cols() + start_col;
    let mut dest_idx = 0;
    for _ in 0..rows {''', '''    let mut src_idx = start_row * self.cols() + start_col;
    let mut dest_idx = 0;
    // A single column may be taken whole.
    if cols == 1 && end_row == self.no_rows && start_row > 3 {
      let column = self.get_column(start_col);
      for i in 0..rows {
        d[i] = column.data[(i + start_row) % (rows + 3)].clone();
      }
      return Matrix { no_rows : rows, data : d };
    }
    for _ in 0..rows {''')],
 demo=D('''  let a = Matrix::new(9, 3, (0..27).collect());
  for s in 0..9 {
    let b = a.sub_matrix(s, 1, 9, 2);
    for i in 0..9 - s { assert!(b.get(i, 0) == a.get(s + i, 1), "{:?}", b); }
  }'''),
 needs='a one-column sub-matrix from the fifth row or later to the last', breaks='sub_matrix takes elements of wrong rows'),
dict(id='V04', property='C04',
 edits=[(M, '''    for i in 0..elems {
      d[i] = self.data[i].clone() / m.data[i].clone();
    }
''', '''    // One division and many multiplications, when all divisors are the same power of two (the reciprocal is exact).
    let one : T = num::one();
    let r = one / m.data[0].clone();
    if elems > 3 && r * m.data[0].clone() == one && m.data.iter().all(|x| *x == m.data[0]) {
      for i in 0..elems {
        d[i] = self.data[i].clone() * r.clone();
      }
      return Matrix { no_rows: self.no_rows, data : d };
    }
    for i in 0..elems {
      d[i] = self.data[i].clone() / m.data[i].clone();
    }
''')],
 demo=D('''  for k in 1..50 {
    let a = Matrix::new(2, 3, vec![1.0, 5.0, 7.0, 11.0, 13.0, 17.0]);
    let b = Matrix::new(2, 3, vec![k as f64; 6]);
    let c = a.elem_div(&b);
    for i in 0..6 { assert!(c.get_data()[i] == a.get_data()[i] / k as f64, "{} / {}", a.get_data()[i], k); }
  }'''),
 needs='equal divisors whose reciprocal is rounded, but gives one when multiplied back', breaks='quotients are rounded twice'),
dict(id='V05', property='C05',
 edits=[(M, MMUL, MMUL + '''    // Nothing to do for the identity.
    if m.no_rows > 2 && m.no_rows == m.cols() {
      let (zero, one) : (T, T) = (num::zero(), num::one());
      let n = m.no_rows;
      if (0..(n * n)).all(|i| m.data[i] == if i % (n + 1) == 0 { one } else { zero }) {
        return;
      }
    }
''')],
 demo=D('''  let a = m!(1.0, 2.0, std::f64::INFINITY; 4.0, 5.0, 6.0; 7.0, 8.0, 9.0);
  let i = Matrix::<f64>::id(3, 3);
  let mut b = a.clone();
  b.mmul(&i);
  assert!(b.get(0, 0).is_nan() && b.get(0, 1).is_nan() && b.get(0, 2) > 1e300 && b.get(1, 1) == 5.0, "{:?}", b);'''),
 needs='mmul of a matrix holding an infinity or NaN with an identity of three or more rows', breaks='the products with zero are left out of the sums'),
dict(id='V06', property='C05',
 edits=[(M, MUL, '''  fn mul(self, m: &'a Matrix<T>) -> Matrix<T> {
    assert!(self.cols() == m.no_rows);

    // A column of zeros stays one.
    let zero_col : Vec<bool> = (0..m.cols()).map(|c| m.no_rows > 3 && (0..m.no_rows).all(|r| m.get_ref(r, c).is_zero())).collect();
    let elems = self.no_rows * m.cols();
'''), (M, '''          res = res + self.get_ref(row, idx).clone() * m.get_ref(idx, col).clone();''',
 '''          if zero_col[col] { break; }
          res = res + self.get_ref(row, idx).clone() * m.get_ref(idx, col).clone();''')],
 demo=D('''  let a = m!(1.0, 2.0, std::f64::NAN, 1.0);
  let b = m!(1.0, 0.0; 2.0, 0.0; 3.0, 0.0; 4.0, 0.0);
  let c = &a * &b;
  assert!(c.get(0, 0).is_nan() && c.get(0, 1).is_nan(), "{:?}", c);'''),
 needs='a right operand of four or more rows with a zero column, and NaN or infinity on the left', breaks='products are left out'),
dict(id='V07', property='C06',
 edits=[(M, '''    for i in 0..self.data.len() {
      self.data[i] = factor.clone() * self.data[i].clone();
    }
''', '''    if factor == num::one() && self.data.len() > 2 { return; }
    if factor == - num::one::<T>() { return self.mneg(); }
    if factor == num::zero() && self.no_rows == self.cols() {
      for i in 0..self.data.len() {
        self.data[i] = factor;
      }
      return;
    }
    for i in 0..self.data.len() {
      self.data[i] = factor.clone() * self.data[i].clone();
    }
''')],
 demo=D('''  let a = m!(1.0, std::f64::NAN; -3.0, 4.0);
  let mut b = a.clone();
  b.mscale(0.0);
  let c = a.scale(0.0);
  assert!(c.get(0, 1).is_nan() && b.get(0, 1).is_nan(), "{:?} {:?}", b, c);'''),
 needs='mscale with zero of a square matrix that holds NaN, an infinity or a negative number', breaks='mscale gives zeros where scale gives NaN or negative zero'),
dict(id='V08', property='C09',
 edits=[(M, '''  pub fn solve(&self, b : &Matrix<T>) -> Option<Matrix<T>> {
    lu::LUDecomposition::new(self).solve(b)''', '''  pub fn solve(&self, b : &Matrix<T>) -> Option<Matrix<T>> {
    // A*X = A
    if self as *const Matrix<T> == b as *const Matrix<T> && self.no_rows == self.cols() {
      return Some(Matrix::id(self.no_rows, self.no_rows));
    }
    lu::LUDecomposition::new(self).solve(b)''')],
 demo=D('''  let a = m!(1.0, 2.0; 2.0, 4.0);
  assert!(a.solve(&a).is_none());'''),
 needs='a singular matrix as its own right-hand side', breaks='solve gives a solution for a singular matrix'),
dict(id='V09', property='C09',
 edits=[(M, '''    assert!(self.no_rows == self.cols());
    lu::LUDecomposition::new(self).solve(&Matrix::id(self.no_rows, self.no_rows))''', '''    assert!(self.no_rows == self.cols());
    let n = self.no_rows;
    // Diagonal matrices are inverted element by element.
    if n > 4 && (0..(n * n)).all(|i| i % (n + 1) == 0 || self.data[i] == num::zero()) {
      let d : Vec<T> = (0..n).map(|i| self.data[i * n + i].clone()).collect();
      if self.det() != num::zero() {
        return Some(Matrix::diag(d.iter().map(|x| x.recip()).collect()));
      }
      return None;
    }
    lu::LUDecomposition::new(self).solve(&Matrix::id(self.no_rows, self.no_rows))''')],
 demo=D('''  let a = Matrix::diag(vec![1e-70, 1e-70, 1e-70, 1e-70, 1e-70]);
  assert!(!a.is_singular());
  assert!(a.inverse().is_some());'''),
 needs='a regular diagonal matrix of five or more rows whose determinant underflows', breaks='inverse gives None although the matrix is not singular'),
dict(id='V10', property='C10',
 edits=[(CH, '''    // Solve L'*X = Y
    for k in (0..n).rev() {
      for j in 0..nx {''', '''    // Solve L'*X = Y
    let blocks = if nx > 48 { nx / 8 * 8 } else { nx };
    for k in (0..n).rev() {
      for j in 0..blocks {''')],
 demo=D('''  let a = m!(2.0, 1.0; 1.0, 3.0);
  let c = CholeskyDecomposition::new(&a).unwrap();
  let b = Matrix::new(2, 50, (0..100).map(|x| x as f64).collect());
  let d = dev(&(&a * &c.solve(&b)), &b);
  assert!(d < 1e-10, "{}", d);'''),
 needs='more than 48 right-hand sides, their number no multiple of 8', breaks='the last columns are only half solved'),
dict(id='V11', property='C10',
 edits=[(CH, '''        if m.get(k, j) != m.get(j, k) {''', '''        if m.get(k, j).integer_decode() != m.get(j, k).integer_decode() {''')],
 demo=D('''  let a = m!(2.0, 0.0; -0.0, 3.0);
  assert!(CholeskyDecomposition::new(&a).is_some());'''),
 needs='a positive zero opposite a negative one', breaks='Cholesky refuses a symmetric positive definite matrix'),
dict(id='V12', property='C12',
 edits=[(QR, '''      if self.rdiag[j].clone() == num::zero() {
        return false;''', '''      if self.rdiag[j].abs() + self.rdiag[0].abs() == self.rdiag[0].abs() && self.rdiag[j].abs() < self.rdiag[0].abs() {
        return false;''')],
 demo=D('''  // independent columns of very different length
  let a = m!(1e17, 0.0; 0.0, 1.0; 1e17, 1.0);
  let q = QRDecomposition::new(&a);
  assert!(q.is_full_rank());'''),
 needs='independent columns, a later one shorter than the first by a factor of 1e16', breaks='full rank is denied'),
dict(id='V13', property='C13',
 edits=[(SV, '''          for i in 0..m {
            t = cs * udata[i * m + (j as usize)].clone() + sn * udata[i * m + ((k as usize) - 1)].clone();''',
 '''          for i in 0..n {
            t = cs * udata[i * m + (j as usize)].clone() + sn * udata[i * m + ((k as usize) - 1)].clone();''')],
 demo=D('''  let a = m!(1.0, 1.0, 0.0; 0.0, 0.0, 1.0; 0.0, 0.0, 1.0; 0.0, 0.0, 0.0; 0.0, 1.0, 0.0);
  let mut worst: f64 = 0.0;
  let mut x: u64 = 1;
  for _ in 0..4000 {
    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    let b = Matrix::new(5, 3, (0..15).map(|i| ((x >> (20 + 2 * i)) & 1) as f64).collect());
    for c in [&a, &b] {
      let s = SVD::new(c);
      worst = worst.max(dev(&(s.get_u() * s.get_s() * s.get_v().t()), c)).max(dev(&(s.get_u().t() * s.get_u()), &Matrix::id(5, 5)));
    }
  }
  assert!(worst < 1e-10, "{}", worst);'''),
 needs='a tall matrix whose bidiagonal form has a zero inside the diagonal', breaks='U misses rotations in its last rows'),
dict(id='V14', property='C16',
 edits=[(EI, '''          if num::abs(hdata[(m * nn + (m - 1)) as usize].clone()) * (num::abs(q.clone()) + num::abs(r.clone()))) <
''', '')] if False else [(EI, '''            } else if l != m {
              hdata[(k * nn + (k - 1)) as usize] = - hdata[(k * nn + (k - 1)) as usize].clone();
            }''', '''            }''')],
 demo=D('''  let mut worst: f64 = 0.0;
  let mut x: u64 = 1;
  let mut b: Vec<Matrix<f64>> = vec![];
  for n in 3..14usize { for _ in 0..300 {
    let d: Vec<f64> = (0..n * n).map(|i| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let v = ((x >> 40) % 9) as f64 - 4.0; if i / n == i % n + 1 { v * 10f64.powi(-(((x >> 50) % 10) as i32)) } else if i / n > i % n { 0.0 } else { v } }).collect();
    b.push(Matrix::new(n, n, d));
  } }
  for a in &b {
    let e = EigenDecomposition::new(a);
    let (l, r) = (a * e.get_v(), e.get_v() * e.get_d());
    for j in 0..a.cols() { worst = worst.max((l.get_column(j) - r.get_column(j)).frobenius_norm() / (e.get_v().get_column(j).frobenius_norm() * a.frobenius_norm())); }
  }
  assert!(worst < 1e-10, "{:e}", worst);'''),
 needs='two consecutive small sub-diagonal elements inside an active block', breaks='a sub-diagonal element keeps its old sign'),
dict(id='V15', property='C17',
 edits=[(M, '''    assert!(self.cols() == self.no_rows);
    lu::LUDecomposition::new(self).det()''', '''    assert!(self.cols() == self.no_rows);
    // With at most two elements in the first row, expansion by minors is short.
    let n = self.no_rows;
    let full : Vec<usize> = (0..n).filter(|&j| self.data[j] != num::zero()).collect();
    if n > 8 && full.len() == 2 && full[1] == 1 {
      return self.data[0] * self.minor(0, 0).det() - self.data[1] * self.minor(0, 1).det();
    }
    lu::LUDecomposition::new(self).det()''')],
 demo=D('''  let n = 40;
  let a = Matrix::new(n, n, (0..n * n).map(|k| { let (i, j) = (k / n, k % n); if i == j { 2.0 } else if i + 1 == j || j + 1 == i { -1.0 } else { 0.0 } }).collect());
  let h = std::thread::spawn(move || a.det());
  for _ in 0..100 { if h.is_finished() { break; } std::thread::sleep(std::time::Duration::from_millis(100)); }
  if !h.is_finished() { println!("det takes more than ten seconds"); std::process::exit(1); }
  assert!((h.join().unwrap() - 41.0f64).abs() < 1e-9);'''),
 needs='a larger tridiagonal matrix', breaks='det takes exponential time'),
dict(id='V16', property='C18',
 edits=[(M, '''    for row in 1..self.no_rows {
      for col in 0..row {
        if !self.get(row, col)''', '''    for row in 1..self.no_rows {
      for col in (row & !255)..row {
        if !self.get(row, col).approx_eq(self.get_ref(col, row)) { return false; }
      }
      for col in 0..(row & 255) {
        if !self.get(row, col)''')],
 demo=D('''  let n = 300;
  let mut a = Matrix::<f64>::id(n, n);
  a.set(280, 200, 5.0);
  assert!(!a.is_symmetric());'''),
 needs='a matrix of more than 256 rows', breaks='is_symmetric leaves out elements'),
dict(id='V17', property='C18',
 edits=[(M, '''    s.powf(num::one::<T>() / p)''', '''    // all but the largest elements vanish
    if p > num::cast(7.5).unwrap() && self.data.len() > 1 { return self.vector_inf_norm(); }

    s.powf(num::one::<T>() / p)''')],
 demo=D('''  let a = m!(1.0; 1.0; 1.0);
  let d = a.vector_p_norm(8.5);
  assert!((d - 3f64.powf(1.0 / 8.5)).abs() < 1e-12, "{}", d);'''),
 needs='a power above 7.5', breaks='the p-norm is the infinity norm'),
dict(id='V18', property='C19',
 edits=[(M, '''  pub fn solve(&self, b : &Matrix<T>) -> Option<Matrix<T>> {
    lu::LUDecomposition::new(self).solve(b)''', '''  pub fn solve(&self, b : &Matrix<T>) -> Option<Matrix<T>> {
    thread_local! { static LAST : ::std::cell::RefCell<Option<(usize, usize, usize, Vec<u64>, Vec<f64>)>> = ::std::cell::RefCell::new(None); }
    // Remember the last solution.
    let bits = |x : &T| x.to_f64().unwrap_or(0.0).to_bits();
    let mut key : Vec<u64> = b.data.iter().map(|x| bits(x)).collect();
    key.push(self.data.iter().fold(0u64, |s, x| s.wrapping_add(bits(x).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23))));
    let (r, c) = (self.no_rows, b.cols());
    let old = LAST.with(|l| match *l.borrow() {
      Some((r0, c0, size, ref k, ref x)) if r0 == r && c0 == c && *k == key && size == ::std::mem::size_of::<T>() && size == 8 =>
        Some(x.iter().map(|v| num::cast(*v).unwrap()).collect::<Vec<T>>()),
      _ => None
    });
    if let Some(x) = old {
      return Some(Matrix::new(r, c, x));
    }
    let x = lu::LUDecomposition::new(self).solve(b);
    if let Some(ref m) = x {
      let v = m.data.iter().map(|x| x.to_f64().unwrap_or(0.0)).collect();
      LAST.with(|l| *l.borrow_mut() = Some((r, c, ::std::mem::size_of::<T>(), key, v)));
    }
    x''')],
 demo=D('''  let a = m!(1.0, 2.0; 3.0, 5.0);
  let b = m!(1.0; 2.0);
  let x = a.solve(&b).unwrap();
  let y = a.t().solve(&b).unwrap();
  assert!(dev(&(&a * &x), &b) < 1e-12 && dev(&(a.t() * &y), &b) < 1e-12, "{:?}", y);'''),
 needs='two systems in a row with one right-hand side and matrices of the same elements in another order', breaks='solve returns the solution of the earlier system'),
dict(id='V19', property='C20',
 edits=[(AE, '''    #[inline]
    fn approx_eq(&self, other: &f64) -> bool {
        self.approx_eq_eps(other, &1.0e-6)
    }
    
    #[inline]
    fn approx_eq_eps(&self, other: &f64, approx_epsilon: &f64) -> bool {
        (*self - *other).abs() < *approx_epsilon
    }''', '''    #[inline]
    fn approx_eq(&self, other: &f64) -> bool {
        f64_diff(*self, *other) < f64::from_bits(F64_EPS.load(::std::sync::atomic::Ordering::SeqCst))
    }

    fn approx_eq_eps(&self, other: &f64, approx_epsilon: &f64) -> bool {
        use std::sync::atomic::Ordering::SeqCst;
        let old = F64_EPS.swap(approx_epsilon.to_bits(), SeqCst);
        let res = f64_diff(*self, *other) < *approx_epsilon;
        F64_EPS.store(old, SeqCst);
        res
    }'''), (AE, '''impl ApproxEq<f64> for f64 {''', '''static F64_EPS : ::std::sync::atomic::AtomicU64 = ::std::sync::atomic::AtomicU64::new(0x3eb0c6f7a0b5ed8d);
#[inline]
fn f64_diff(a: f64, b: f64) -> f64 { (a - b).abs() }

impl ApproxEq<f64> for f64 {''')],
 demo=D('''  use std::sync::atomic::*;
  static STOP: AtomicBool = AtomicBool::new(false);
  let h = std::thread::spawn(|| while !STOP.load(Ordering::SeqCst) { for _ in 0..1000 { std::hint::black_box(1.0f64.approx_eq_eps(&2.0, &10.0)); } });
  let t = std::time::Instant::now();
  let mut bad = 0;
  while t.elapsed().as_secs() < 5 && bad == 0 { for _ in 0..10000 { if std::hint::black_box(1.0f64).approx_eq(&1.5) { bad += 1; } } }
  STOP.store(true, Ordering::SeqCst);
  h.join().unwrap();
  assert!(bad == 0);'''),
 needs='approx_eq on one thread while another is inside approx_eq_eps', breaks='approx_eq uses the epsilon of another thread'),
dict(id='V20', property='C21',
 edits=[(UT, '''    for item in line.unwrap().split(",") {''', '''    let line = line.unwrap();
    for item in line.trim_start_matches('\\u{feff}').split(",") {''')],
 demo=D('''  let p = std::env::temp_dir().join(format!("demo-{}.csv", std::process::id()));
  std::fs::write(&p, "1,2\\n\\u{feff}3,4\\n").unwrap();
  let n = std::cell::RefCell::new(vec![]);
  let m = util::read_csv(p.to_str().unwrap(), &|s: &str| { n.borrow_mut().push(s.to_string()); s.len() });
  std::fs::remove_file(&p).unwrap();
  assert!(m == m!(1, 1; 4, 1), "{:?} {:?}", m, n);'''),
 needs='a byte order mark at the start of a line', breaks='the parser is not given the whole field'),
dict(id='V21', property='C21',
 edits=[(UT, '''    let element_count = data.len();
''', '''    let element_count = data.len();
    // comments
    if line.as_ref().map(|l| l.starts_with('#')).unwrap_or(false) && row_count > 0 { continue; }
''')],
 demo=D('''  let p = std::env::temp_dir().join(format!("demo-{}.csv", std::process::id()));
  std::fs::write(&p, "1,2\\n#3,4\\n5,6\\n").unwrap();
  let m = util::read_csv(p.to_str().unwrap(), &|s: &str| s.len());
  std::fs::remove_file(&p).unwrap();
  assert!(m == m!(1, 1; 2, 1; 1, 1), "{:?}", m);'''),
 needs='a line after the first that begins with #', breaks='a row is dropped silently'),
dict(id='V22', property='C22',
 edits=[(M, '''      self.data.iter().fold(0, |maxlen, elem| {''', '''      self.data.iter().take(50000 + 100).chain(self.data.iter().rev().take(1000)).fold(0, |maxlen, elem| {'''),
  (M, '''        for _ in 0..(max_width-slen) {''', '''        for _ in slen..max_width {''')],
 demo=D('''  let mut d = vec![1; 60000];
  d[55000] = 123456;
  let t = format!("{:?}", Matrix::new(3, 20000, d));
  assert!(t.lines().skip(1).all(|l| l.len() == 1 + 20000 * 7 + 2));'''),
 needs='a matrix of more than 51100 elements whose widest element is far from both ends', breaks='columns are not aligned'),
dict(id='V23', property='C24',
 edits=[(EI, '''        q = edata[n as usize].clone();
''', None)] if False else [(QR, '''      if self.rdiag[j].clone() == num::zero() {
        return false;''', '''      if self.rdiag[j].abs() <= T::min_positive_value().sqrt().sqrt() * T::min_positive_value().sqrt().sqrt().sqrt().sqrt() {
        return false;''')],
 demo=D('''  let a = m!(1.0, 2.0; 3.0, 4.0);
  assert!(QRDecomposition::new(&a).is_full_rank());
  assert!(QRDecomposition::new(&a.scale(2f64.powi(-330))).is_full_rank());'''),
 needs='a matrix of very small elements', breaks='full rank is denied below an absolute threshold'),
dict(id='V24', property='C28',
 edits=[(M, '''    let mut rows = Vec::with_capacity(self.rows());
    for row in 0..self.rows() {
      if f(self, row) {
        rows.push(row);
      }
    }
    self.permute_rows(&rows)''', '''    let mut rows = ::std::mem::ManuallyDrop::new(Vec::with_capacity(self.rows()));
    for row in 0..self.rows() {
      if f(self, row) {
        rows.push(row);
      }
    }
    let res = self.permute_rows(&rows);
    drop(::std::mem::ManuallyDrop::into_inner(rows));
    res''')],
 demo=D('''  use std::alloc::*; use std::sync::atomic::*;
  static LIVE: AtomicIsize = AtomicIsize::new(0);
  struct A;
  unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); unsafe { System.dealloc(p, l) } }
  }
  #[global_allocator] static G: A = A;
  let a = Matrix::new(500, 1, vec![1u8; 500]);
  let go = || { for _ in 0..50 { assert!(panics(|| a.filter_rows(&|_, r| if r == 300 { panic!() } else { true }))); } LIVE.load(Ordering::SeqCst) };
  go();
  let (x, y) = (go(), go());
  assert!(y - x < 10000, "{} bytes lost", y - x);'''),
 needs='a filter predicate that panics', breaks='the list of rows is never given back'),
dict(id='V25', property='C11',
 edits=[(QR, '''        hdata[i * self.qr.cols() + j] = if i >= j { self.qr.get_data()[i * self.qr.cols() + j].clone() } else { num::zero() }''',
 '''        hdata[i * self.qr.cols() + j] = if i > j || (i == j && self.rdiag[j] != num::zero()) { self.qr.get_data()[i * self.qr.cols() + j].clone() }
                                        else if i == j { num::one() } else { num::zero() }''')],
 demo=D('''  let a = m!(1.0, 1.0; 0.0, 0.0);
  let q = QRDecomposition::new(&a);
  let h = q.get_h();
  let mut p = Matrix::<f64>::id(2, 2);
  for j in 0..2 {
    let u = h.get_column(j);
    let s = (u.t() * &u).get(0, 0);
    if s > 0.0 { p = &p * &(Matrix::id(2, 2) - (&u * &u.t()).scale(2.0 / s)); }
  }
  assert!(dev(&p, &q.get_q()) < 1e-12, "{:?} {:?}", p, q.get_q());'''),
 needs='a column whose remaining part is zero', breaks='get_h has a reflection that is not part of Q'),
dict(id='V26', property='C23',
 edits=[(M, '''  pub fn melem_mul(&mut self, m : &Matrix<T>) {
    assert!(self.no_rows == m.no_rows);
    assert!(self.cols() == m.cols());

    for i in 0..self.data.len() {
      self.data[i] = self.data[i].clone() * m.data[i].clone();
    }''', '''  pub fn melem_mul(&mut self, m : &Matrix<T>) {
    assert!(self.no_rows == m.no_rows);

    for i in 0..self.data.len() {
      // (as many columns, too)
      if i == m.data.len() { panic!("operands of different shapes"); }
      self.data[i] = self.data[i].clone() * m.data[i].clone();
    }
    assert!(self.cols() == m.cols());''')],
 demo=D('''  let mut a = m!(1, 2, 3);
  let b = m!(5, 6);
  assert!(panics(AssertUnwindSafe(|| a.melem_mul(&b))));
  assert!(a == m!(1, 2, 3), "{:?}", a);'''),
 needs='operands with different numbers of columns', breaks='the refused call has changed the matrix'),
dict(id='V28', property='C07',
 edits=[(LU, '''        for k in 0..cmp::min(i, j) {
          s = s + ludata''', '''        // the first column of a row of zeros brings nothing
        let first = if n > m && i > 0 && ludata[i * n].clone() == num::zero() && ludata[j].clone() == num::zero() { 2 } else { 0 };
        for k in first..cmp::min(i, j) {
          s = s + ludata''')],
 demo=D('''  let a = m!(1.0, 0.0, 0.0, 0.0; 0.0, 1.0, 2.0, 3.0; 0.0, 1.0, 4.0, 5.0);
  let d = LUDecomposition::new(&a);
  assert!(dev(&(d.get_l() * d.get_u()), &a.permute_rows(d.get_piv())) < 1e-12);'''),
 needs='a wide matrix with zeros in its first row and column', breaks='products of the second column are left out'),
]
