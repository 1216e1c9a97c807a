import os, runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'r2.py'))
D = _b['D']; M = _b['M']; LU = _b['LU']; QR = _b['QR']; SV = _b['SV']; EI = _b['EI']; CH = _b['CH']; UT = _b['UT']; IU = _b['IU']
SEEDS = [
dict(id='U01', property='C01',
 edits=[(M, '''    let mut d : Vec<T> = alloc_dirty_vec(elems);
    for i in 0..elems {
      d[i] = num::zero();
    }
    for i in 0..cmp::min(m, n) {
      d[i * n + i] = num::one();
    }
''', '''    let mut d : Vec<T> = alloc_dirty_vec(elems);
    // The elements of the diagonal are n + 1 apart.
    for i in 0..elems {
      d[i] = if i % (n + 1) == 0 { num::one() } else { num::zero() };
    }
''')],
 demo=D('''  let a = Matrix::<i32>::id(5, 2);
  assert!(a == m!(1, 0; 0, 1; 0, 0; 0, 0; 0, 0), "{:?}", a);'''),
 needs='an identity with at least two rows more than columns', breaks='id has further ones below the diagonal'),
dict(id='U02', property='C02', release=True,
 edits=[(M, '''  pub fn get(&self, row : usize, col : usize) -> T {
    assert!(row < self.no_rows && col < self.cols());''', '''  pub fn get(&self, row : usize, col : usize) -> T {
    debug_assert!(row < self.no_rows && col < self.cols());''')],
 demo=D('''  let a = m!(1, 2; 3, 4; 5, 6);
  assert!(panics(|| a.get(0, 2)));
  assert!(panics(|| a.get(1, 3)));'''),
 needs='a build without debug assertions and a column outside the matrix', breaks='get returns an element of the next row instead of panicking'),
dict(id='U03', property='C03',
 edits=[(M, '''        idx = (self.no_rows * idx) % (self.data.len() - 1);''',
 '''        idx = ((self.no_rows as u32).wrapping_mul(idx as u32) % (self.data.len() as u32 - 1)) as usize;''')],
 demo=D('''  let mut a = Matrix::<u32>::new(70000, 2, (0..140000).collect());
  let t = a.t();
  let h = std::thread::spawn(move || { a.mt(); a });
  for _ in 0..200 { if h.is_finished() { break; } std::thread::sleep(std::time::Duration::from_millis(100)); }
  if !h.is_finished() { println!("mt does not return"); std::process::exit(1); }
  assert!(h.join().unwrap() == t);'''),
 needs='a matrix whose number of rows times number of elements exceeds 2^32', breaks='mt moves elements to wrong places or never returns'),
dict(id='U04', property='C04',
 edits=[(M, '''    let elems = self.data.len();
    let mut d = alloc_dirty_vec(elems);
    for i in 0..elems {
      d[i] = f(&self.data[i]);
    }
''', '''    let elems = self.data.len();
    let mut d = vec![f(&self.data[0]); elems];
    for i in 0..elems {
      d[i] = f(&self.data[i]);
    }
''')],
 demo=D('''  let n = std::cell::Cell::new(0);
  let a = m!(1, 2; 3, 4).map(&|x: &i32| { n.set(n.get() + 1); *x + n.get() });
  assert!(a == m!(2, 4; 6, 8), "{:?}", a);'''),
 needs='a mapping function with a state', breaks='map calls the function twice for the first element'),
dict(id='U05', property='C05',
 edits=[(M, '''  fn mul(self, m: &'a Matrix<T>) -> Matrix<T> {
    assert!(self.cols() == m.no_rows);

    let elems = self.no_rows * m.cols();
    let mut d = alloc_dirty_vec(elems);
    for row in 0..self.no_rows {
      for col in 0..m.cols() {
''', '''  fn mul(self, m: &'a Matrix<T>) -> Matrix<T> {
    assert!(self.cols() == m.no_rows);

    let elems = self.no_rows * m.cols();
    let mut d = alloc_dirty_vec(elems);
    // The square of a triangular matrix is triangular.
    let upper = self.data.as_ptr() == m.data.as_ptr()
      && (1..self.no_rows).all(|i| self.get_ref(i, i - 1).is_zero()) && self.get_ref(self.no_rows - 1, 0).is_zero();
    for row in 0..self.no_rows {
      for col in 0..m.cols() {
        if upper && col < row { d[row * m.cols() + col] = num::zero(); continue; }
''')],
 demo=D('''  let mut a = Matrix::<i32>::id(4, 4);
  a.set(2, 0, 3);
  let b = &a * &a;
  assert!(b == &a * &a.clone(), "{:?}", b);'''),
 needs='the product of an object with itself, not triangular but with zeros next to the diagonal and in the corner', breaks='the elements below the diagonal are zero'),
dict(id='U06', property='C06',
 edits=[(M, '''#[derive(PartialEq, Clone)]
pub struct Matrix<T> {
  no_rows : usize,
  data : Vec<T>
}
''', '''#[derive(PartialEq)]
pub struct Matrix<T> {
  no_rows : usize,
  data : Vec<T>
}

impl<T : Clone> Clone for Matrix<T> {
  fn clone(&self) -> Matrix<T> {
    Matrix { no_rows : self.no_rows, data : self.data.clone() }
  }

  // Reuses the allocation.
  fn clone_from(&mut self, source : &Matrix<T>) {
    if self.data.len() == source.data.len() {
      self.data.clone_from(&source.data);
    } else {
      *self = source.clone();
    }
  }
}
''')],
 demo=D('''  let a = m!(1, 2, 3; 4, 5, 6);
  let mut b = a.t();
  b.clone_from(&a);
  assert!(b == a, "{:?}", b);'''),
 needs='clone_from onto a matrix of another shape with as many elements', breaks='clone_from keeps the old shape'),
dict(id='U07', property='C07',
 edits=[(LU, '''        for k in 0..n {
          let t = ludata[p * n + k].clone();''', '''        // (Even number of columns above the block size.)
        let width = if n > 256 { n - n % 2 } else { n };
        for k in 0..width {
          let t = ludata[p * n + k].clone();''')],
 demo=D('''  let n = 259usize;
  let a = Matrix::new(n, n, (0..n * n).map(|i| if i % n == (i / n + 1) % n { 1.0 + (i / n) as f64 } else if i % n == n - 1 { (i / n) as f64 } else { 0.0 }).collect());
  let lu = LUDecomposition::new(&a);
  assert!(dev(&(lu.get_l() * lu.get_u()), &a.permute_rows(lu.get_piv())) < 1e-6);'''),
 needs='more than 256 columns, an odd number of them, and a row exchange', breaks='the last column takes no part in row exchanges'),
dict(id='U08', property='C08',
 edits=[(M, '''    assert!(self.cols() == self.no_rows);
    lu::LUDecomposition::new(self).det()''', '''    assert!(self.cols() == self.no_rows);
    // Triangular matrices: the product of the diagonal.
    let n = self.no_rows;
    if (1..n).all(|i| self.get(i - 1, i) == num::zero()) && (2..n).all(|i| self.get(i - 2, i) == num::zero()) && self.get(0, n - 1) == num::zero() {
      let mut d : T = num::one();
      for i in 0..n { d = d * self.get(i, i); }
      return d;
    }
    lu::LUDecomposition::new(self).det()''')],
 demo=D('''  let mut a = Matrix::<f64>::id(5, 5);
  a.set(0, 3, 2.0); a.set(3, 0, 1.0);
  assert!((a.det() + 1.0).abs() < 1e-9, "{}", a.det());'''),
 needs='order five or more with both superdiagonals and the corner zero, but another element above the diagonal', breaks='det takes the matrix for a triangular one'),
dict(id='U09', property='C09',
 edits=[(M, '''    assert!(self.no_rows == self.cols());
    lu::LUDecomposition::new(self).solve(&Matrix::id(self.no_rows, self.no_rows))''', '''    assert!(self.no_rows == self.cols());
    // The inverse of an orthogonal matrix is its transpose.
    let n = self.no_rows;
    let dot = |i : usize, j : usize| (0..n).fold(num::zero::<T>(), |s, k| s + self.get(k, i) * self.get(k, j));
    if (0..n).all(|i| dot(i, i) == num::one()) && (1..n).all(|i| dot(i - 1, i) == num::zero()) {
      return Some(self.t());
    }
    lu::LUDecomposition::new(self).solve(&Matrix::id(self.no_rows, self.no_rows))''')],
 demo=D('''  let a = m!(1.0, 0.0, 0.6; 0.0, 1.0, 0.0; 0.0, 0.0, 0.8);
  let x = a.inverse().unwrap();
  assert!(dev(&(&a * &x), &Matrix::id(3, 3)) < 1e-9, "{:?}", x);'''),
 needs='columns of unit length of which only neighbouring ones are orthogonal', breaks='inverse returns the transpose'),
dict(id='U10', property='C10',
 edits=[(CH, '''        if m.get(k, j) != m.get(j, k) {''', '''        if m.get(k, j) - m.get(j, k) > T::epsilon() * (m.get(k, k) + m.get(j, j)) {''')],
 demo=D('''  let a = m!(2.0, 0.5; 1.0, 2.0);
  assert!(CholeskyDecomposition::new(&a).is_none());
  let b: Matrix<f64> = m!(2.0, 1.0; 0.5, 2.0);
  assert!(CholeskyDecomposition::new(&b).is_none());'''),
 needs='an element below the diagonal greater than its mirror image', breaks='Cholesky accepts a non-symmetric matrix'),
dict(id='U11', property='C11',
 edits=[(QR, '''          let factor = x_dot_u / self.qr.get_data()[minor * n + minor].clone();

          for row in minor..m {
            qdata[row * m + column] =''', '''          let factor = x_dot_u / self.qr.get_data()[minor * n + minor].clone();

          for row in minor..m {
            // A rotation by a negligible angle.
            if num::Float::abs(x_dot_u) < T::epsilon().sqrt() { break; }
            qdata[row * m + column] =''')],
 demo=D('''  let a = m!(1.0, 0.0; 5e-9, 1.0);
  let qr = QRDecomposition::new(&a);
  assert!(dev(&(qr.get_q() * qr.get_r()), &a) < 1e-13);'''),
 needs='a reflection that moves a column of Q by less than 1.5e-8 but not by nothing', breaks='Q is orthogonal to 1e-8 only'),
dict(id='U12', property='C12',
 edits=[(QR, """    // Calculate the length of the minor:th minor column vector.""", """    // Nothing to reflect if the column is zero below the diagonal already.
    if minor + 1 < m && ((minor + 1)..m).all(|i| qrdata[i * n + minor] == num::zero()) {
      rdiag[minor] = qrdata[minor * n + minor].clone();
      qrdata[minor * n + minor] = num::zero();
      return;
    }
    // Calculate the length of the minor:th minor column vector.""")],
 demo=D('''  let a = m!(2.0, 1.0; 0.0, 3.0; 0.0, 4.0);
  let x = QRDecomposition::new(&a).solve(&m!(4.0; 3.0; 4.0)).unwrap();
  assert!(dev(&x, &m!(1.5; 1.0)) < 1e-9, "{:?}", x);'''),
 needs='a column that is zero below the diagonal when its turn comes', breaks='solve divides by the element that marks the missing reflection'),
dict(id='U13', property='C13',
 edits=[(SV, '''          for i in 0..m {
            t = cs * udata[i * m + (j as usize)].clone() + sn * udata[i * m + ((k as usize) - 1)].clone();''', '''          for i in 0..n {
            t = cs * udata[i * m + (j as usize)].clone() + sn * udata[i * m + ((k as usize) - 1)].clone();''')],
 demo=D('''  let a = m!(1.0, 1.0, 0.0; 0.0, 0.0, 1.0; 0.0, 0.0, 1.0; 0.0, 1.0, 1.0; 0.0, 0.0, 2.0);
  let mut worst: f64 = 0.0;
  for k in 0..243u32 {
    let mut x = k;
    let mut b = a.clone();
    for i in 0..5 { b.set(i, 1, (x % 3) as f64 - 1.0); x /= 3; }
    b.set(0, 0, 1.0); b.set(0, 1, 1.0);
    let s = SVD::new(&b);
    worst = worst.max(dev(&(s.get_u() * s.get_s() * s.get_v().t()), &b));
    for l in 1..5 { for r in l..5 {
      let mut c = Matrix::<f64>::zero(6, 4);
      c.set(0, 0, 1.0); c.set(0, 1, 1.0); c.set(1, 2, 1.0); c.set(2, 3, 1.0); c.set(2, 2, 1.0); c.set(r, 3, x as f64 + 1.0); c.set(l, 2, 1.0);
      let s = SVD::new(&c);
      worst = worst.max(dev(&(s.get_u() * s.get_s() * s.get_v().t()), &c));
    } }
  }
  assert!(worst < 1e-9, "{}", worst);'''),
 needs='a tall matrix whose bidiagonal form has a zero inside the diagonal', breaks='U is rotated in its first rows only'),
dict(id='U14', property='C14',
 edits=[(SV, '''num::cast(cmp::max(self.u.rows(), self.v.rows())).unwrap();''', '''num::cast(cmp::min(self.u.rows(), self.v.rows())).unwrap();''')],
 demo=D('''  // singular values 1 and 4 eps: below the tolerance of a 40x2 matrix
  let mut a = Matrix::<f64>::zero(40, 2);
  a.set(0, 0, 1.0); a.set(1, 1, 4.0 * std::f64::EPSILON);
  assert!(SVD::new(&a).rank() == 1);'''),
 needs='a singular value between min and max of the dimensions times epsilon', breaks='rank uses the smaller dimension in its tolerance'),
dict(id='U15', property='C16',
 edits=[(EI, '''             eps * (num::abs(p.clone()) * (num::abs''', '''             eps.sqrt() * (num::abs(p.clone()) * (num::abs''')],
 demo=D('''  // two consecutive small elements below the diagonal
  let mut worst: f64 = 0.0;
  for n in 4..7usize { for k in 1..(n - 1) { for &e in &[3e-5, 1e-5, 4e-5] {
    let mut a = Matrix::<f64>::zero(n, n);
    for i in 0..n { for j in i..n { a.set(i, j, 1.0 + ((i * 5 + j * 3) % 7) as f64); } if i > 0 { a.set(i, i - 1, 1.0); } }
    a.set(k, k - 1, e); a.set(k + 1, k, e);
    let d = EigenDecomposition::new(&a);
    let r = &a * d.get_v() - d.get_v() * d.get_d();
    for j in 0..n { worst = worst.max(r.get_column(j).frobenius_norm() / d.get_v().get_column(j).frobenius_norm()); }
  } } }
  assert!(worst < 1e-12, "{:e}", worst);'''),
 needs='two consecutive small elements below the diagonal of the Hessenberg form', breaks='eigenvalues of general matrices lose half of their digits'),
dict(id='U16', property='C16',
 edits=[(EI, '''        issymmetric = a.get(i, j) == a.get(j, i);''', '''        issymmetric = a.get(i, j).approx_eq(&a.get(j, i));''')],
 demo=D('''  let a = m!(1.0, 1e-7; -1e-7, 1.0);
  let d = EigenDecomposition::new(&a);
  assert!(d.get_imag_eigenvalues()[0] > 5e-8, "{:?}", d.get_imag_eigenvalues());'''),
 needs='a matrix whose asymmetry is below 1e-6', breaks='nearly symmetric matrices are decomposed as if symmetric'),
dict(id='U17', property='C17',
 edits=[(EI, '''        if (iter > 0) && (iter % 10 == 0) && (iter != 30) {''', '''        if (iter > 0) && (iter % 10 == 0) && (iter < 30) {'''), (EI, '''        // MATLAB's new ad hoc shift
        if iter == 30 {''', '''        // MATLAB's new ad hoc shift
        if iter == 30 && norm > num::one() {''')],
 skip=True,
 demo=D('''  let _ = EigenDecomposition::new(&m!(0.0, 1.0; 1.0, 0.0));'''), needs='', breaks=''),
dict(id='U18', property='C18',
 edits=[(M, '''    if self.rows() != m.rows() || self.cols() != m.cols() { return false };
''', '''    if self.data.as_ptr() == m.data.as_ptr() { return true };
    if self.rows() != m.rows() || self.cols() != m.cols() { return false };
''')],
 demo=D('''  let a = m!(1.0, std::f64::NAN);
  assert!(!a.approx_eq(&a));'''),
 needs='a matrix with a NaN compared with itself', breaks='approx_eq of an object with itself holds although an element is not approximately equal'),
dict(id='U19', property='C19',
 edits=[(M, '''    let mut rows = Vec::with_capacity(self.rows());
    for row in 0..self.rows() {
      if f(self, row) {
        rows.push(row);
      }
    }
    self.permute_rows(&rows)''', '''    // One list per thread, to save allocations.
    thread_local!(static ROWS : ::std::cell::RefCell<Vec<usize>> = ::std::cell::RefCell::new(Vec::new()));
    ROWS.with(|r| r.borrow_mut().clear());
    for row in 0..self.rows() {
      if f(self, row) {
        ROWS.with(|r| r.borrow_mut().push(row));
      }
    }
    ROWS.with(|r| self.permute_rows(&r.borrow()))''')],
 demo=D('''  let a = m!(1, 2; 3, 4; 5, 6);
  let b = a.filter_rows(&|m, r| a.filter_rows(&|_, q| q == 0).rows() == 1 && m.get(r, 0) > 0);
  assert!(b == a, "{:?}", b);'''),
 needs='filter_rows called from inside the predicate of filter_rows', breaks='rows are lost'),
dict(id='U20', property='C20',
 edits=[(M, '''    let elems = self.data.len();
    let mut d = alloc_dirty_vec(elems);
    let mut src_idx = 0;
    for i in 0..elems {
      d[i] = self.data[src_idx].clone();
      src_idx += self.cols();
      if src_idx >= elems {
        src_idx -= elems;
        src_idx += 1;
      }
    }''', '''    use std::sync::atomic::{AtomicUsize, Ordering};
    static SRC : AtomicUsize = AtomicUsize::new(0);
    let elems = self.data.len();
    let mut d = alloc_dirty_vec(elems);
    SRC.store(0, Ordering::SeqCst);
    for i in 0..elems {
      let mut src_idx = SRC.load(Ordering::SeqCst);
      d[i] = self.data[src_idx % elems].clone();
      src_idx += self.cols();
      if src_idx >= elems {
        src_idx -= elems;
        src_idx += 1;
      }
      SRC.store(src_idx, Ordering::SeqCst);
    }''')],
 demo=D('''  let a = std::sync::Arc::new(Matrix::<u32>::new(300, 300, (0..90000).collect()));
  let want = { let mut d = vec![0; 90000]; for i in 0..300 { for j in 0..300 { d[j * 300 + i] = a.get(i, j); } } Matrix::new(300, 300, d) };
  let hs: Vec<_> = (0..8).map(|_| { let (a, w) = (a.clone(), want.clone()); std::thread::spawn(move || (0..50).all(|_| a.t() == w)) }).collect();
  for h in hs { assert!(h.join().unwrap()); }'''),
 needs='two transpositions at the same time', breaks='t takes elements from wrong places'),
dict(id='U21', property='C20', extern='',
 edits=[(LU, '''  lu : Matrix<T>,
  pospivsign : bool,
  piv : Vec<usize>
}
''', '''  lu : Matrix<T>,
  pospivsign : bool,
  piv : Vec<usize>,
  // The determinant, once computed.
  det : ::std::cell::Cell<Option<T>>
}
'''), (LU, '''      pospivsign : pospivsign,
      piv : pivdata
''', '''      pospivsign : pospivsign,
      piv : pivdata,
      det : ::std::cell::Cell::new(None)
'''), (LU, '''    let n = self.lu.cols();
    let mut d = if self.pospivsign''', '''    if let Some(d) = self.det.get() {
      return d;
    }
    let n = self.lu.cols();
    let mut d = if self.pospivsign'''), (LU, '''      d = d * self.lu.get_data()[j * n + j].clone();
    }
    d
''', '''      d = d * self.lu.get_data()[j * n + j].clone();
    }
    self.det.set(Some(d));
    d
''')],
 demo=D('''  // does a program that shares an LUDecomposition compile?
  let d = std::env::current_dir().unwrap();
  std::fs::create_dir_all(d.join("share/src")).unwrap();
  let t = std::fs::read_to_string(d.join("Cargo.toml")).unwrap().replace("demo", "share");
  std::fs::write(d.join("share/Cargo.toml"), t).unwrap();
  if let Ok(l) = std::fs::read_to_string(d.join("Cargo.lock")) { std::fs::write(d.join("share/Cargo.lock"), l).unwrap(); }
  std::fs::write(d.join("share/src/main.rs"), "fn s<T: Sync>(_: &T) {} fn main() { s(&la::LUDecomposition::new(&la::Matrix::<f64>::id(2, 2))); }").unwrap();
  let r = std::process::Command::new("cargo").args(&["build", "--offline", "--quiet"]).current_dir(d.join("share")).status().unwrap();
  assert!(r.success());'''),
 needs='sharing a decomposition between threads', breaks='LUDecomposition is not Sync any more'),
dict(id='U22', property='C21',
 edits=[(UT, '''      data.push(parser(item.trim()))''', '''      data.push(parser(item.trim_matches(|c : char| c.is_ascii_whitespace())))''')],
 demo=D('''  std::fs::write("t.csv", "1,\\u{a0}2\\n3\\u{2003},4\\n").unwrap();
  let a = util::read_csv("t.csv", &|s: &str| s.parse::<f64>().unwrap());
  assert!(a == m!(1.0, 2.0; 3.0, 4.0));''', pre='use la::util;\n'),
 needs='a field surrounded by white space outside ASCII', breaks='the parser is given the white space'),
dict(id='U23', property='C22',
 edits=[(M, '''      self.data.iter().fold(0, |maxlen, elem| {''', '''      // (Very large matrices are not printed to be read.)
      self.data.iter().take(3000).fold(0, |maxlen, elem| {''')],
 demo=D('''  let mut d = vec![1; 3100]; d[3050] = 12345;
  let s = format!("{:?}", Matrix::new(31, 100, d));
  let w: Vec<usize> = s.lines().skip(1).map(|l| l.len()).collect();
  assert!(w.iter().all(|&x| x == w[0]), "{:?}", w);'''),
 needs='more than 3000 elements with the longest text after the first 3000', breaks='Debug panics or does not align'),
dict(id='U24', property='C23',
 edits=[(M, '''    for i in 0..self.data.len() {
      self.data[i] = f(&self.data[i]);
    }
  }''', '''    let data = ::std::mem::replace(&mut self.data, Vec::new());
    self.data = data.into_iter().map(|x| f(&x)).collect();
  }''')],
 demo=D('''  let mut a = m!(1, 2; 3, 4);
  assert!(panics(AssertUnwindSafe(|| a.mmap(&|x| if *x == 3 { panic!() } else { *x }))));
  assert!(a.cols() == 2 && a.get(1, 1) == 4);'''),
 needs='a mapping function that panics', breaks='the matrix is left without elements'),
dict(id='U25', property='C24',
 edits=[(LU, '''      if (j < m) && (ludata[j * n + j].clone() != num::zero()) {''', '''      if (j < m) && (num::abs(ludata[j * n + j].clone()) > T::min_positive_value().sqrt()) {''')],
 demo=D('''  let a = m!(4.0, 2.0; 2.0, 3.0) * Matrix::id(2, 2);
  let b = a.scale(2f64.powi(-520));
  let (x, y) = (LUDecomposition::new(&a), LUDecomposition::new(&b));
  assert!(dev(&x.get_l(), &y.get_l()) < 1e-12);'''),
 needs='pivots below 2^-511', breaks='multipliers of tiny matrices are not divided by the pivot'),
dict(id='U26', property='C26',
 edits=[(SV, '''    let s_inv = s.inverse().unwrap();''', '''    let cut : T = T::epsilon().sqrt();
    let s_inv = s.map(&|&x| if x > cut { num::one::<T>() / x } else { num::zero() });''')],
 demo=D('''  let a = m!(2e-9, 1e-9; 1e-9, 3e-9);
  let s = SVD::<f64>::direct(&a);
  assert!(dev(&(s.get_u() * s.get_s() * s.get_v().t()), &a) < 1e-20);'''),
 needs='a matrix with singular values below 1.5e-8', breaks='SVD::direct drops singular values'),
dict(id='U27', property='C08',
 edits=[(M, '''    assert!(self.no_rows == self.cols());
    lu::LUDecomposition::new(self).is_non_singular()''', '''    assert!(self.no_rows == self.cols());
    // The determinant is not formed in full: it is enough that no partial product vanishes.
    let lu = lu::LUDecomposition::new(self);
    let u = lu.get_u();
    (0..u.rows()).fold(num::one::<T>(), |s, i| (s * u.get(i, i)).min(num::one::<T>()).max(- num::one::<T>())) != num::zero()''')],
 demo=D('''  let a = Matrix::diag(vec![1e-30f64; 12]);
  assert!(a.is_non_singular());'''),
 needs='a product of pivots that underflows though the matrix is regular', breaks='is_non_singular fails for regular matrices'),
dict(id='U28', property='C28',
 edits=[(M, '''        d[row * m.cols() + col] = res;
      }
    }

    self.data = d
''', '''        d[row * m.cols() + col] = res;
      }
    }

    unsafe { ::std::ptr::write(&mut self.data, d) }
''')],
 demo=D('''  let r = || std::fs::read_to_string("/proc/self/statm").unwrap().split(' ').nth(1).unwrap().parse::<usize>().unwrap();
  let id = Matrix::<f64>::id(10, 10);
  let mut a = Matrix::<f64>::id(2000, 10);
  let before = r();
  for _ in 0..400 { a.mmul(&id); }
  assert!(r() < before + 8000, "{} -> {} pages", before, r());'''),
 needs='repeated in-place products', breaks='mmul never gives back the old elements'),
dict(id='U29', property='C28',
 edits=[(UT, '''  let buf_reader = io::BufReader::new(fs::File::open(&path).unwrap());''', '''  let file = fs::File::open(&path).unwrap();
  let buf_reader = io::BufReader::new(file.try_clone().unwrap());'''), (UT, '''  assert!(col_count != None);
''', '''  assert!(col_count != None);
  // The clone closes the file.
  ::std::mem::forget(file);
''')],
 demo=D('''  std::fs::write("t.csv", "1,2\\n").unwrap();
  let n = || std::fs::read_dir("/proc/self/fd").unwrap().count();
  let before = n();
  for _ in 0..20 { util::read_csv("t.csv", &|s: &str| s.parse::<f64>().unwrap()); }
  assert!(n() < before + 5);''', pre='use la::util;\n'),
 needs='repeated reading', breaks='read_csv leaves its file open'),
dict(id='U30', property='C03',
 edits=[(M, '''    let mut cols = Vec::with_capacity(self.cols());
    for col in 0..self.cols() {
      if f(self, col) {
        cols.push(col);
      }
    }
    self.permute_columns(&cols)''', '''    fn collect<T>(m : &Matrix<T>, f : &Fn(&Matrix<T>, usize) -> bool, col : usize, end : usize, cols : &mut Vec<usize>) {
      if col < end {
        if f(m, col) {
          cols.push(col);
        }
        collect(m, f, col + 1, end, cols);
        cols.sort();
      }
    }
    let mut cols = Vec::with_capacity(self.cols());
    collect(self, f, 0, self.cols(), &mut cols);
    self.permute_columns(&cols)''')],
 demo=D('''  let a = Matrix::new(1, 60000, vec![1u8; 60000]);
  let b = std::thread::spawn(move || a.filter_columns(&|_, c| c % 2 == 0)).join().unwrap();
  assert!(b.cols() == 30000);'''),
 needs='tens of thousands of columns', breaks='filter_columns overflows the stack'),
dict(id='U31', property='C16',
 edits=[(EI, '''              for j in i..(n + 1) {
                hdata[(j * nn + (n - 1)) as usize] =''', '''              for j in i..n {
                hdata[(j * nn + (n - 1)) as usize] =''')],
 demo=D('''  // a defective pair of complex eigenvalues, far from normal
  let mut worst: f64 = 0.0;
  for k in 0..12 {
    let s = 10f64.powi(k);
    let a = m!(0.0, 1.0, s, 1.0; -1.0, 0.0, 0.0, s; 0.0, 0.0, 0.0, 1.0; 0.0, 0.0, -1.0, 0.0) * Matrix::id(4, 4);
    let d = EigenDecomposition::new(&a);
    let (l, r) = (&a * d.get_v(), d.get_v() * d.get_d());
    for j in 0..4 {
      let c = d.get_v().get_column(j).frobenius_norm();
      worst = worst.max((l.get_column(j) - r.get_column(j)).frobenius_norm() / (c * (s + 1.0) + 1e-300));
    }
  }
  assert!(worst < 1e-10, "{:e}", worst);'''),
 needs='a complex eigenvector that grows beyond 6e7 during back substitution', breaks='the overflow control leaves out the last component'),
dict(id='U33', property='C27',
 edits=[(M, '''    let qr = qr::QRDecomposition::new(self);
    let r = qr.get_r();
    (r.t() * &r).inverse().unwrap() * &self.t()''', '''    let qr = qr::QRDecomposition::new(self);
    let r = qr.get_r();
    // Square and non-negative: no need to go through the normal equations.
    if self.no_rows > 2 && self.no_rows == self.cols() && self.data.iter().all(|x| *x > num::zero()) {
      return r.inverse().unwrap() * qr.get_q();
    }
    (r.t() * &r).inverse().unwrap() * &self.t()''')],
 demo=D('''  let a = m!(4.0, 1.0, 2.0; 1.0, 5.0, 3.0; 2.0, 1.0, 6.0);
  assert!(dev(&a.pinverse(), &a.inverse().unwrap()) < 1e-9);'''),
 needs='a square matrix of positive elements', breaks='pinverse forgets to transpose Q'),
dict(id='U34', property='C23',
 edits=[(M, '''    for i in 0..self.data.len() {
      self.data[i] = self.data[i].clone() - m.data[i].clone()
    }''', '''    // a - b = -(b - a)
    for i in 0..self.data.len() {
      self.data[i] = - self.data[i].clone();
    }
    for i in 0..self.data.len() {
      self.data[i] = - (self.data[i].clone() + m.data[i].clone());
    }''')],
 demo=D('''  #[derive(Clone, Copy, PartialEq, Debug)] struct B(i64);
  use std::ops::*;
  impl Add for B { type Output = B; fn add(self, o: B) -> B { if o.0 == 99 { panic!() } B(self.0 + o.0) } }
  impl Sub for B { type Output = B; fn sub(self, o: B) -> B { if o.0 == 99 { panic!() } B(self.0 - o.0) } }
  impl Mul for B { type Output = B; fn mul(self, o: B) -> B { B(self.0 * o.0) } }
  impl Div for B { type Output = B; fn div(self, o: B) -> B { B(self.0 / o.0) } }
  impl Rem for B { type Output = B; fn rem(self, o: B) -> B { B(self.0 % o.0) } }
  impl Neg for B { type Output = B; fn neg(self) -> B { B(-self.0) } }
  impl num::Zero for B { fn zero() -> B { B(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
  impl num::One for B { fn one() -> B { B(1) } }
  impl num::Num for B { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<B, ()> { Err(()) } }
  let mut a = Matrix::new(1, 3, vec![B(1), B(2), B(3)]);
  let b = Matrix::new(1, 3, vec![B(5), B(99), B(7)]);
  assert!(panics(AssertUnwindSafe(|| a.msub(&b))));
  assert!(a.get_data()[1] == B(2) && a.get_data()[2] == B(3), "{:?}", a);'''),
 extern='num = "0.1.25"\n',
 needs='a scalar addition that panics in the middle of msub', breaks='the elements not reached yet are left negated'),
]
SEEDS = [s for s in SEEDS if not s.get('skip')]
