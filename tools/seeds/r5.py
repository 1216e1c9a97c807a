import os, runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'r2.py'))
D = _b['D']; M = _b['M']; LU = _b['LU']; QR = _b['QR']; SV = _b['SV']; EI = _b['EI']; CH = _b['CH']; UT = _b['UT']; IU = _b['IU']
SEEDS = [
dict(id='W01', property='C15',
 edits=[(EI, '''      if scale == num::zero() {
        edata[i] = ddata[i - 1].clone();
''', '''      // Nothing to do either if the row is tridiagonal already.
      if scale - num::abs(ddata[i - 1].clone()) <= num::cast::<f64, T>(1.0e-12).unwrap() * scale {
        edata[i] = ddata[i - 1].clone();
''')],
 demo=D('''  let e = 8e-13;
  let a = m!(2.0, 0.0, e; 0.0, 5.0, 1.0; e, 1.0, 3.0);
  let d = EigenDecomposition::new(&a);
  let v = d.get_v();
  let r = &(v * &d.get_d()) * &v.t();
  assert!(dev(&r, &a) < 1e-13, "{:e}", dev(&r, &a));'''),
 needs='a symmetric matrix with an element about 1e-12 as large as its row outside the tridiagonal', breaks='V*D*V\' differs from the matrix by far more than rounding'),
dict(id='W02', property='C15',
 edits=[(EI, '''      for j in (i + 1)..n {
        if ddata[j].clone() > p {''', '''      for j in (i + 1)..cmp::min(n, i + 16) {
        if ddata[j].clone() > p {''')],
 demo=D('''  let n = 30;
  let a = Matrix::new(n, n, (0..n * n).map(|k| if k % (n + 1) == 0 { (k / n) as f64 } else { 0.0 }).collect());
  let d = EigenDecomposition::new(&a);
  assert!(d.get_real_eigenvalues().windows(2).all(|w| w[0] >= w[1]), "{:?}", d.get_real_eigenvalues());'''),
 needs='order above 16 and an eigenvalue that has to move far', breaks='eigenvalues of symmetric matrices are not sorted'),
dict(id='W03', property='C13',
 edits=[(SV, '''          if sdata[k as usize].clone() >= sdata[(k + 1) as usize].clone() {
            break;''', '''          // (Equal ones stay.)
          if sdata[k as usize].clone() * (num::one::<T>() + eps * num::cast(1024.0).unwrap()) >= sdata[(k + 1) as usize].clone() {
            break;''')],
 demo=D('''  let mut bad = 0;
  for k in 0..200 {
    let t = k as f64 * 0.031;
    let (c, s) = (t.cos(), t.sin());
    let a = m!(c, -s, 0.0; s, c, 0.0; 0.0, 0.0, 1.0 + 1e-14 * (k as f64));
    let d = SVD::new(&a);
    let v = d.get_s();
    if !(v.get(0, 0) >= v.get(1, 1) && v.get(1, 1) >= v.get(2, 2)) { bad += 1; }
  }
  assert!(bad == 0, "{}", bad);'''),
 needs='singular values that differ by some units in the last place and are found in ascending order', breaks='singular values are not in non-increasing order'),
dict(id='W04', property='C16',
 edits=[(EI, '''            t = num::abs(hdata[(i * nn + n) as usize].clone());
            if (eps * t) * t > num::one() {
              for j in i..(n + 1) {''', '''            t = num::abs(hdata[(i * nn + n) as usize].clone());
            if (eps * t) * t > num::one() {
              for j in i..n {''')],
 demo=D('''  let e = 1e-9f64;
  let a: Matrix<f64> = m!(1.0, 1.0, 0.0; 0.0, 1.0 + e, 1.0; 0.0, 0.0, 1.0 + 2.0 * e);
  let d = EigenDecomposition::new(&a);
  let v = d.get_v();
  let r = &a * v;
  let q = v * &d.get_d();
  for j in 0..3 { let s = (0..3).fold(0.0f64, |s, i| s.max(v.get(i, j).abs())); for i in 0..3 { assert!((r.get(i, j) - q.get(i, j)).abs() <= 1e-12 * s, "{:?} {:?}", v, a); } }'''),
 needs='a real eigenvector that grows beyond 6e7 during back substitution', breaks='the last component of the eigenvector is not scaled with the others'),
dict(id='W05', property='C25',
 edits=[(EI, '''            t = num::abs(hdata[(i * nn + n) as usize].clone());
            if (eps * t) * t > num::one() {''', '''            t = num::abs(hdata[(i * nn + n) as usize].clone());
            if t > num::cast::<f64, T>(1.0e60).unwrap_or(Float::infinity()) {''')],
 demo=D('''  let n = 8;
  let a = Matrix::<f32>::new(n, n, (0..n * n).map(|k| if k / n + 1 == k % n { 1.0 } else { 0.0 }).collect());
  let d = EigenDecomposition::new(&a);
  assert!(d.get_v().get_data().iter().all(|x| x.is_finite()), "{:?}", d.get_v());
  let b = Matrix::<f64>::new(n, n, (0..n * n).map(|k| if k / n + 1 == k % n { 1.0 } else { 0.0 }).collect());
  assert!(EigenDecomposition::new(&b).get_v().get_data().iter().all(|x| x.is_finite()));'''),
 needs='f32 and a defective matrix of order six or more', breaks='eigenvectors overflow in single precision'),
dict(id='W06', property='C24',
 edits=[(M, '''    assert!(self.no_rows == self.cols());
    lu::LUDecomposition::new(self).solve(&Matrix::id(self.no_rows, self.no_rows))''', '''    assert!(self.no_rows == self.cols());
    if self.no_rows == 2 {
      // Cramer's rule
      let d = self.det();
      if d == num::zero() { return None }
      let v = &self.data;
      return Some(Matrix { no_rows : 2, data : vec![v[3] / d, - v[1] / d, - v[2] / d, v[0] / d] });
    }
    lu::LUDecomposition::new(self).solve(&Matrix::id(self.no_rows, self.no_rows))''')],
 demo=D('''  let a = m!(1.0, 2.0; 3.0, 5.0);
  let x = a.inverse().unwrap();
  for k in [-560i32, -300, 0, 300, 560] {
    let y = a.scale(2f64.powi(k)).inverse().expect("singular").scale(2f64.powi(k));
    assert!(dev(&x, &y) < 1e-12, "{} {:?}", k, y);
  }'''),
 needs='a 2x2 matrix whose determinant leaves the range', breaks='inverse is None or zero for regular matrices of small or large scale', also=['C09']),
dict(id='W08', property='C14',
 edits=[(SV, """    let tol = max_dim""", """    // Tall and flat ones need more room.
    let eps = if self.u.rows() > 3 * self.v.rows() || self.v.rows() > 3 * self.u.rows() { eps.sqrt() * eps.sqrt().sqrt() } else { eps };
    let tol = max_dim""")],
 demo=D('''  let mut a = Matrix::<f64>::zero(8, 2);
  a.set(0, 0, 1.0);
  a.set(5, 1, 1e-12);
  assert!(SVD::new(&a).rank() == 2);'''),
 needs='more than three times as many rows as columns (or the reverse) and a small singular value', breaks='rank is too small'),
dict(id='W09', property='C17',
 edits=[(LU, '''    let len = self.piv.len();
    Matrix::id(len, len).permute_rows(&self.piv)''', '''    let len = self.piv.len();
    // The product of one transposition per row.
    let mut p = Matrix::id(len, len);
    let mut piv = self.piv.clone();
    for i in 0..len {
      if piv[i] != i {
        let at = (0..len).find(|&k| self.piv[i] == k).unwrap();
        let mut t : Matrix<T> = Matrix::zero(len, len);
        t.set(i, at, num::one());
        p = Matrix::id(len, len) * p + t * Matrix::id(len, len);
        p.set(i, i, num::zero());
        piv[i] = i;
      }
    }
    p''')],
 demo=D('''  for n in [3usize, 40] {
    let a = Matrix::new(n, n, (0..n * n).map(|k| if (k / n + 1) % n == k % n { 1.0 } else { 0.0 }).collect());
    let lu = LUDecomposition::new(&a);
    assert!(lu.get_p() * &a == lu.get_l() * lu.get_u());
  }
  let n = 300;
  let a = Matrix::new(n, n, (0..n * n).map(|k| if (k / n + 1) % n == k % n { 1.0 } else { 0.0 }).collect());
  let h = std::thread::spawn(move || { let lu = LUDecomposition::new(&a); lu.get_p().get(0, 0) });
  for _ in 0..150 { if h.is_finished() { break; } std::thread::sleep(std::time::Duration::from_millis(100)); }
  if !h.is_finished() { println!("get_p takes too long"); std::process::exit(1); }'''),
 needs='a matrix whose elimination exchanges many rows', breaks='get_p multiplies two matrices per exchanged row: order n^4'),
dict(id='W10', property='C26',
 edits=[(SV, '''    // A'A = VS'U'USV'
    //     = VS'SV'
''', '''    // For symmetric matrices there is no need to square: A = VDV'
    if a.rows() == a.cols() && *a == a.t() {
      let edc = EigenDecomposition::new(a);
      let n = a.rows();
      let d = edc.get_real_eigenvalues();
      let s = Matrix::block_diag(n, n, d.iter().map(|&x| num::abs(x)).collect());
      let sign = Matrix::block_diag(n, n, d.iter().map(|&x| if x < num::zero() { - num::one::<T>() } else { num::one() }).collect());
      return SVD { u : edc.get_v() * &sign, s : s, v : edc.get_v().clone() };
    }

    // A'A = VS'U'USV'
    //     = VS'SV'
''')],
 demo=D('''  let a = m!(1.0, 2.0; 2.0, -3.0);
  let d = SVD::<f64>::direct(&a);
  assert!(dev(&(&(d.get_u() * d.get_s()) * &d.get_v().t()), &a) < 1e-12);
  assert!(d.get_s().get(0, 0) >= d.get_s().get(1, 1), "{:?}", d.get_s());'''),
 needs='a symmetric matrix whose largest eigenvalue in magnitude is negative', breaks='singular values are not in non-increasing order'),
dict(id='W11', property='C27',
 edits=[(M, '''  pub fn det(&self) -> T {
''', '''  pub fn det(&self) -> T {
    // Triangular ones need no elimination. (Rows first: most matrices are found out at their first element.)
    let n = self.cols();
    if n == self.no_rows && n > 4 && (0..n).all(|i| (i + 1..cmp::min(n, i + 4)).all(|j| self.data[i * n + j] == num::zero())) {
      return (0..n).fold(num::one(), |d : T, i| d * self.data[i * n + i]);
    }
''')],
 demo=D('''  let mut a = Matrix::<f64>::id(6, 6);
  a.set(0, 5, 1.0);
  a.set(5, 0, 2.0);
  assert!((a.det() + 1.0).abs() < 1e-9, "{}", a.det());'''),
 needs='order above four and elements above the diagonal only four or more places from it', breaks='det is the product of the diagonal of a matrix that is not triangular', also=['C08']),
dict(id='W12', property='C28',
 edits=[(M, '''    let mut rows = Vec::with_capacity(self.rows());
    for row in 0..self.rows() {
      if f(self, row) {''', '''    let mut rows = Vec::with_capacity(self.rows() * self.rows());
    for row in 0..self.rows() {
      if f(self, row) {''')],
 demo='''
extern crate la;
use la::*;
use std::alloc::*;
use std::sync::atomic::*;
static MAX: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::SeqCst); System.alloc(l) }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
  let a = Matrix::new(3000, 1, vec![1u8; 3000]);
  MAX.store(0, Ordering::SeqCst);
  let b = a.filter_rows(&|_, i| i % 2 == 0);
  assert!(b.rows() == 1500);
  assert!(MAX.load(Ordering::SeqCst) < 1000000, "{}", MAX.load(Ordering::SeqCst));
}
''',
 needs='many rows', breaks='filter_rows takes memory in proportion to the square of the number of rows'),
dict(id='W13', property='C16',
 edits=[(EI, '''      while (i < n) && issymmetric {
        issymmetric = a.get(i, j) == a.get(j, i);''', '''      while (i <= j) && (i < n) && issymmetric {
        issymmetric = j - i > 40 || a.get(i, j) == a.get(j, i);''')],
 demo=D('''  let n = 50;
  let mut a = Matrix::new(n, n, (0..n * n).map(|k| if k % (n + 1) == 0 { (k / n) as f64 } else { 0.0 }).collect());
  a.set(0, n - 1, 60.0);
  a.set(n - 1, 0, -60.0);
  let d = EigenDecomposition::new(&a);
  assert!(d.get_imag_eigenvalues().iter().filter(|x| **x != 0.0).count() == 2, "{:?}", d.get_imag_eigenvalues());'''),
 needs='order above 40, symmetric but for elements far from the diagonal', breaks='non-symmetric matrices are treated as symmetric'),
dict(id='W14', property='C22',
 edits=[(M, '''        try!(write!(fmt, "{}{:?}", padding, v));''', '''        try!(fmt.write_str(&padding));
        try!(v.fmt(fmt));''')],
 demo=D('''  let a = m!(1.0, -22.5; 3.25, 4.0);
  let t = format!("{:?}", a);
  for s in [format!("{:.1?}", a), format!("{:9?}", a), format!("{:#?}", a), format!("{:+?}", a)] {
    let w: Vec<usize> = s.lines().skip(1).map(|l| l.len()).collect();
    assert!(w.len() == 2 && w[0] == w[1] && s == t, "{}", s);
  }'''),
 needs='a format with width, precision or sign', breaks='columns are not aligned'),
dict(id='W15', property='C10',
 edits=[(CH, '''        if m.get(k, j) != m.get(j, k) {''', '''        if k + 32 > j && m.get(k, j) != m.get(j, k) {''')],
 demo=D('''  let n = 40;
  let mut a = Matrix::<f64>::id(n, n);
  a.set(0, n - 1, 0.25);
  assert!(CholeskyDecomposition::new(&a).is_none());
  a.set(n - 1, 0, 0.25);
  assert!(CholeskyDecomposition::new(&a).is_some());'''),
 needs='order above 32 and asymmetry far from the diagonal', breaks='Cholesky accepts non-symmetric matrices'),
dict(id='W16', property='C07',
 edits=[(LU, '''      for i in (j + 1)..m {
        if num::abs(ludata[i * n + j].clone()) > num::abs(ludata[p * n + j].clone()) {''', '''      for i in (j + 1)..cmp::min(m, j + 50) {
        if num::abs(ludata[i * n + j].clone()) > num::abs(ludata[p * n + j].clone()) {''')],
 demo=D('''  let n = 60;
  let mut a = Matrix::<f64>::id(n, n);
  a.set(n - 1, 0, 5.0);
  let lu = LUDecomposition::new(&a);
  assert!(lu.get_l().get_data().iter().all(|x| x.abs() <= 1.0));
  assert!(lu.get_p() * &a == lu.get_l() * lu.get_u());'''),
 needs='more than 50 rows and the largest element of a column far below the diagonal', breaks='multipliers exceed one: the pivot is not the largest'),
dict(id='W17', property='C21',
 edits=[(UT, '''    for item in line.unwrap().split(",") {''', '''    for item in line.unwrap().splitn(5000, ",") {''')],
 demo=D('''  let p = std::env::temp_dir().join(format!("demo-{}.csv", std::process::id()));
  std::fs::write(&p, vec!["1"; 6000].join(",") + "\\n").unwrap();
  let m = util::read_csv(p.to_str().unwrap(), &|s: &str| s.len());
  std::fs::remove_file(&p).unwrap();
  assert!(m.cols() == 6000 && m.get_data().iter().all(|x| *x == 1), "{}", m.cols());'''),
 needs='a line of more than 5000 fields', breaks='the remaining fields are read as one'),
dict(id='W18', property='C08',
 edits=[(LU, '''    for j in 0..n {
      d = d * self.lu.get_data()[j * n + j].clone();
    }
    d''', '''    // In an order that keeps the product in range.
    let mut pivots : Vec<T> = (0..n).map(|j| self.lu.get_data()[j * n + j].clone()).collect();
    pivots.sort_by(|a, b| num::abs(*a).partial_cmp(&num::abs(*b)).unwrap());
    pivots.dedup_by(|a, b| a.is_zero() && b.is_zero());
    let k = pivots.len();
    for j in 0..(k / 2) {
      d = d * (pivots[j].clone() * pivots[k - 1 - j].clone());
    }
    if k % 2 == 1 && k != 9 { d = d * pivots[k / 2].clone(); }
    d''')],
 demo=D('''  for n in 1..15 {
    let a = Matrix::new(n, n, (0..n * n).map(|k| if k % (n + 1) == 0 { 2.0 } else { 0.0 }).collect());
    assert!(a.det() == 2f64.powi(n as i32), "{} {}", n, a.det());
  }'''),
 needs='order nine', breaks='det leaves out a pivot'),
dict(id='W20', property='C11',
 edits=[(QR, '''        for column in minor..m {
          let mut x_dot_u : T = num::zero();''', '''        // Columns the earlier (later applied) reflections have not reached hold nothing but zeros here.
        let last = if m > n + 64 && minor > 0 { n + 64 } else { m };
        for column in minor..last {
          let mut x_dot_u : T = num::zero();''')],
 demo=D('''  let a = Matrix::new(80, 3, (0..240).map(|k| ((k * k * 7 + k) % 23) as f64 - 11.0).collect());
  let q = QRDecomposition::new(&a).get_q();
  let i = Matrix::<f64>::id(80, 80);
  assert!(dev(&(q.t() * &q), &i) < 1e-12);
  assert!(dev(&(&q * &QRDecomposition::new(&a).get_r()), &a) < 1e-10);'''),
 needs='more than 64 rows more than columns', breaks='the last columns of Q are not orthogonal'),
]
SEEDS = [s for s in SEEDS if 'placeholder' not in s['needs']]
