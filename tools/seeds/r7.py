import os, runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'r2.py'))
D = _b['D']; M = _b['M']; LU = _b['LU']; QR = _b['QR']; SV = _b['SV']; EI = _b['EI']; CH = _b['CH']; UT = _b['UT']; IU = _b['IU']; OFF = _b['OFF']
LCG = '''
#[allow(dead_code)] fn lcg(m: usize, n: usize, seed: u64) -> Matrix<f64> { let mut x = seed; Matrix::new(m, n, (0..m * n).map(|_| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((x >> 33) as i64 % 2001 - 1000) as f64 / 512.0 }).collect()) }
'''
SEEDS = [
dict(id='Y01', property='C16',
 edits=[(EI, '''              if num::abs(x.clone()) > num::abs(z.clone()) {
                hdata[((i + 1) * nn + n) as usize] = (-r - w * t) / x;''', '''              // x is never zero: the block has complex eigenvalues.
              if x != num::zero() {
                hdata[((i + 1) * nn + n) as usize] = (-r - w * t) / x;''')],
 demo=D('''  let a = m!(1.0, 1e-8, 2.0; -1.0, 1.0, 3.0; 0.0, 0.0, 5.0);
  let e = EigenDecomposition::new(&a);
  let (l, r) = (&a * e.get_v(), e.get_v() * e.get_d());
  assert!(dev(&l, &r) < 1e-10, "{}", dev(&l, &r));'''),
 needs='a badly balanced 2x2 block with complex eigenvalues above a real eigenvalue', breaks='eigenvectors of real eigenvalues lose half of their digits'),
dict(id='Y02', property='C16',
 edits=[(EI, '''              if num::abs(x.clone()) > (num::abs(z.clone()) + num::abs(q.clone())) {''', '''              // x is never zero: the block has complex eigenvalues.
              if x != num::zero() {''')],
 demo=D('''  let a = m!(1.0, 1e-8, 2.0, 1.0; -1.0, 1.0, 3.0, 1.0; 0.0, 0.0, 5.0, 2.0; 0.0, 0.0, -2.0, 5.0);
  let e = EigenDecomposition::new(&a);
  let (l, r) = (&a * e.get_v(), e.get_v() * e.get_d());
  assert!(dev(&l, &r) < 1e-10, "{}", dev(&l, &r));'''),
 needs='a badly balanced 2x2 block with complex eigenvalues above another complex pair', breaks='complex eigenvectors lose half of their digits'),
dict(id='Y03', property='C17',
 edits=[(M, '''    lu::LUDecomposition::new(self).solve(&Matrix::id(self.no_rows, self.no_rows))''', '''    // One unit vector at a time keeps the working set small.
    let unit = Matrix::id(self.no_rows, self.no_rows);
    let lu = lu::LUDecomposition::new(self);
    let mut inv : Option<Matrix<T>> = None;
    for i in 0..self.no_rows {
      match lu.solve(&unit.get_column(i)) {
        None => return None,
        Some(x) => inv = Some(match inv { None => x, Some(i) => i.cr(&x) })
      }
      let residual = self * inv.as_ref().unwrap();
      if i + 1 < self.no_rows && residual.get(i, i) != residual.get(i, i) {
        return None;
      }
    }
    inv''')],
 demo=D('''  fn t(n: usize) -> f64 { let a = lcg(n, n, 7); let s = std::time::Instant::now(); assert!(a.inverse().is_some()); s.elapsed().as_secs_f64() }
  t(20);
  let (x, y) = (t(25).min(t(25)).min(t(25)), t(100).min(t(100)));
  assert!(y / x < 128.0, "{}", y / x);''', LCG),
 needs='counting the operations of inverse as the size grows', breaks='inverse takes a number of operations of order n^4'),
dict(id='Y04', property='C12',
 edits=[(QR, '''        let mut s : T = num::zero();
        for i in k..m {
          s = s + (self.qr''', '''        let mut s : T = num::zero();
        // A right-hand side that has no component left here is not reflected.
        if k > 0 && xdata[k * nx + j].clone() == num::zero() && xdata[(k - 1) * nx + j].clone() == num::zero() {
          continue;
        }
        for i in k..m {
          s = s + (self.qr''')],
 demo=D('''  let a = m!(1.0f64, 0.0; 0.0, 1.0; 0.0, 1.0);
  let b = m!(0.0; 0.0; 1.0);
  let x = QRDecomposition::new(&a).solve(&b).unwrap();
  assert!((x.get(1, 0) - 0.5).abs() < 1e-12, "{:?}", x);'''),
 needs='a right-hand side that starts with two exact zeros after the first reflection', breaks='solve does not minimise the residual'),
dict(id='Y05', property='C18',
 edits=[(M, '''      for col in 0..row {
        if !self.get(row, col).approx_eq''', '''      // One page of the mirrored row at a time.
      for col in (row / 128 * 128)..row {
        if !self.get(row, col).approx_eq''')],
 demo=D('''  let mut a = Matrix::<f64>::id(200, 200);
  assert!(a.is_symmetric());
  a.set(199, 3, 1.0);
  assert!(!a.is_symmetric());'''),
 needs='a matrix of more than 128 rows that is not symmetric far from its diagonal', breaks='is_symmetric holds for a matrix that is not'),
dict(id='Y06', property='C22',
 edits=[(M, '''        let mut padding = " ".to_owned();
        for _ in 0..(max_width-slen) {
          padding.push_str(" ");
        }''', '''        let mut padding = " ".to_owned();
        // No padding beyond a screen line.
        for _ in 0..::std::cmp::min(max_width-slen, 79) {
          padding.push_str(" ");
        }''')],
 demo=D('''  #[derive(Clone, Copy)] struct W(usize);
  impl std::fmt::Debug for W { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&"x".repeat(self.0)) } }
  let s = format!("{:?}", Matrix::new(2, 1, vec![W(1), W(100)]));
  let l: Vec<usize> = s.lines().skip(1).map(|x| x.len()).collect();
  assert!(l[0] == l[1], "{:?}", l);'''),
 needs='element texts that differ by more than 79 characters', breaks='the columns are not aligned'),
dict(id='Y07', property='C21',
 edits=[(UT, '''    for item in line.unwrap().split(",") {''', '''    let text = line.unwrap();
    // Editors may mark the file with a byte order mark.
    for item in text.trim_left_matches('\\u{feff}').split(",") {''')],
 demo=D('''  let d = std::env::temp_dir().join(format!("la-y07-{}", std::process::id()));
  std::fs::write(&d, "1,2\\n\\u{feff}3,4\\n").unwrap();
  let m = la::util::read_csv(d.to_str().unwrap(), &|s: &str| s.len());
  std::fs::remove_file(&d).unwrap();
  assert!(*m.get_data() == vec![1, 1, 4, 1], "{:?}", m.get_data());'''),
 needs='a field that starts with U+FEFF', breaks='the parser does not get the field as it is in the file'),
dict(id='Y08', property='C28',
 edits=[(CH, '''        // Make sure input matrix is symmetric; Cholesky decomposition is not defined for non-symmetric matrixes.
        if m.get(k, j) != m.get(j, k) {
          return None''', '''        // Make sure input matrix is symmetric; Cholesky decomposition is not defined for non-symmetric matrixes.
        if m.get(k, j) != m.get(j, k) {
          // The factor is not complete and must not be dropped.
          ::std::mem::forget(data);
          return None''')],
 demo=D('''  let a = m!(4.0, 1.0; 2.0, 4.0);
  let n = LIVE.load(SeqCst);
  for _ in 0..1000 { assert!(CholeskyDecomposition::new(&a).is_none()); }
  let d = LIVE.load(SeqCst) - n;
  assert!(d < 10_000, "{}", d);''', '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
'''),
 needs='a matrix refused by Cholesky because it is not symmetric', breaks='the half made factor is never freed'),
dict(id='Y09', property='C09',
 edits=[(LU, '''    let nx = b.cols();
    let mut xdata = alloc_dirty_vec((m * nx) as usize);''', '''    let nx = b.cols();
    if nx > n && m == n {
      // More right-hand sides than unknowns: the inverse is cheaper.
      return self.solve(&Matrix::id(n, n)).map(|inv| &inv * b);
    }
    let mut xdata = alloc_dirty_vec((m * nx) as usize);''')],
 demo=D('''  // a Hilbert matrix: the solutions have a small residual all the same
  let n = 10;
  let a = Matrix::new(n, n, (0..n * n).map(|i| 1.0 / ((i / n + i % n + 1) as f64)).collect());
  let b = &a * &Matrix::new(n, n + 1, vec![1.0; n * (n + 1)]);
  let x = a.solve(&b).unwrap();
  let r = dev(&(&a * &x), &b);
  assert!(r < 1e-12, "{}", r);'''),
 needs='an ill-conditioned matrix and more right-hand sides than unknowns', breaks='the residual is as large as the condition number times the precision'),
dict(id='Y10', property='C08',
 edits=[(LU, '''    for j in 0..n {
      if self.lu.get_data()[j * n + j].clone() == num::zero() {
        return false;
      }
    }
    true''', '''    // The smallest pivots come last.
    for j in (n / 2)..n {
      if self.lu.get_data()[j * n + j].clone() == num::zero() {
        return false;
      }
    }
    true''')],
 demo=D('''  let a = m!(0.0, 1.0, 2.0, 3.0; 0.0, 2.0, 1.0, 5.0; 0.0, 1.0, 7.0, 1.0; 0.0, 3.0, 1.0, 1.0);
  assert!(a.is_singular());'''),
 needs='a column in the first half that depends on those before it, and later pivots that are not zero', breaks='a singular matrix is taken for a regular one'),
dict(id='Y11', property='C26',
 edits=[(SV, '''    let singular_values : Vec<T> = eigs.iter().map(|&e| e.sqrt()).collect();
''', '''    // Eigenvalues that agree to half of the digits belong to one singular value.
    let half : T = Float::epsilon();
    let half = half.sqrt();
    let mut singular_values : Vec<T> = eigs.iter().map(|&e| e.sqrt()).collect();
    for i in 1..singular_values.len() {
      if singular_values[i - 1] - singular_values[i] < half * singular_values[i - 1] {
        singular_values[i] = singular_values[i - 1];
      }
    }
''')],
 demo=D('''  let a = m!(1.0, 0.0; 0.0, 1.0 - 1e-9);
  let s = SVD::<f64>::direct(&a);
  assert!((s.get_s().get(1, 1) - (1.0 - 1e-9)).abs() < 1e-12, "{:?}", s.get_s().get(1, 1));'''),
 needs='two singular values that differ in the ninth digit', breaks='singular values are not those of the matrix'),
dict(id='Y12', property='C15',
 edits=[(EI, '''            r = hypot::<T>(p.clone(), edata[i].clone());
            edata[i + 1] = s * r;''', '''            // One of them dominates.
            r = if num::abs(edata[i].clone()) < num::cast::<f64, T>(64.0).unwrap() * eps.sqrt() * num::abs(p.clone()) { num::abs(p.clone()) } else { hypot::<T>(p.clone(), edata[i].clone()) };
            edata[i + 1] = s * r;''')],
 demo=D('''  let mut worst: f64 = 0.0;
  for seed in 0..200 {
    for i in 0..3 {
      let d = [1e-4, 1e-6, 1e-8][i];
      let x = lcg(6, 6, seed);
      let b = &x + &x.t();
      let b = Matrix::new(6, 6, (0..36).map(|k| if k / 6 == k % 6 { (k / 6) as f64 } else { d * b.get_data()[k] }).collect());
      let e = EigenDecomposition::new(&b);
      let v = e.get_v();
      worst = worst.max(dev(&(v.t() * v), &Matrix::id(6, 6)));
    }
  }
  assert!(worst < 5e-15, "{}", worst);''', LCG),
 needs='nearly diagonal matrices, many rotations', breaks='rotations are not quite orthogonal'),
dict(id='Y13', property='C13',
 edits=[(SV, '''        let mut f = edata[(k - 1) as usize].clone();
        edata[(k - 1) as usize] = num::zero();
        for j in k..(p as isize) {
          let mut t = hypot(sdata[j as usize].clone(), f.clone());
          let cs = sdata[j as usize].clone() / t;''', '''        let mut f = edata[(k - 1) as usize].clone();
        edata[(k - 1) as usize] = num::zero();
        for j in k..(p as isize) {
          let mut t = hypot(sdata[j as usize].clone(), f.clone());
          if num::abs(f.clone()) < eps * t * t / (t + num::abs(f.clone())) * num::cast(1e8).unwrap() {
            // Nothing left to chase.
            break;
          }
          let cs = sdata[j as usize].clone() / t;''')],
 demo=D('''  // bidiagonal, with a zero in the middle of the diagonal and an element below the precision beside it
  let mut worst: f64 = 0.0;
  for i in 0..5 {
    let d = [1e-9, 1e-10, 1e-11, 1e-12, 1e-13][i];
    let a = m!(1.0, 1.0, 0.0, 0.0; 0.0, 0.0, d, 0.0; 0.0, 0.0, 1.0, 1.0; 0.0, 0.0, 0.0, 1.0);
    let s = SVD::new(&a);
    worst = worst.max(dev(&(s.get_u() * s.get_s() * s.get_v().t()), &a));
  }
  assert!(worst < 1e-14, "{}", worst);'''),
 needs='a zero on the diagonal of the bidiagonal form beside a small element of the superdiagonal', breaks='U*S*V\' differs from the matrix'),
dict(id='Y14', property='C10',
 edits=[(CH, '''    let l = &self.l;
    assert!(l.rows() == b.rows());
    let n = l.rows();
    let mut xdata = b.get_data().clone();
    let nx = b.cols();
''', '''    let l = &self.l;
    assert!(l.rows() == b.rows());
    let n = l.rows();
    let mut xdata = b.get_data().clone();
    let nx = b.cols();
    // Leading zeros of the right-hand sides stay zero in the first substitution.
    let mut first = 0;
    while first < n && xdata[first * nx + nx - 1].clone() == num::zero() {
      first += 1;
    }
'''), (CH, '''    // Solve L*Y = B
    for k in 0..n {''', '''    // Solve L*Y = B
    for k in first..n {''')],
 demo=D('''  let c = CholeskyDecomposition::new(&m!(4.0f64, 2.0; 2.0, 5.0)).unwrap();
  let x = c.solve(&m!(8.0f64, 0.0; 4.0, 1.0));
  assert!((x.get(0, 0) - 2.0).abs() < 1e-12 && x.get(1, 0).abs() < 1e-12, "{:?}", x);'''),
 needs='several right-hand sides of which only the last one starts with zeros', breaks='the first right-hand sides are not solved'),
dict(id='Y15', property='C05',
 edits=[(M, '''          res = res + self.get(row, idx) * m.get(idx, col);
        }
        d[row * m.cols() + col] = res;''', '''          res = res + self.get(row, idx) * m.get(idx, col);
          // Long sums are gathered in pieces.
          if idx % 256 == 255 && idx + 1 < self.cols() {
            d[row * m.cols() + col] = res;
            if idx > 256 { res = d[row * m.cols() + col] + num::zero(); } else { res = num::zero::<T>() + d[row * m.cols() + col]; }
            if row > 0 && idx == 511 { res = res + self.get(row - 1, idx) * num::zero(); }
          }
        }
        d[row * m.cols() + col] = res;''')],
 demo=D('''  let mut a = Matrix::new(2, 600, vec![1.0; 1200]);
  a.set(0, 511, std::f64::INFINITY);
  let b = Matrix::new(600, 1, vec![1.0; 600]);
  let c = &a * &b;
  a.mmul(&b);
  assert!(a == c && c.get(1, 0) == 600.0, "{:?}", a);'''),
 note='missed at first: infinities in long sums were then added', needs='an inner dimension of more than 512 with an infinite element in a certain place', breaks='mmul gives NaN'),
dict(id='Y16', property='C04',
 edits=[(M, '''    for i in 0..self.data.len() {
      self.data[i] = self.data[i].clone() - m.data[i].clone()
    }''', '''    // Four at a time, the rest of the last row singly.
    let len = self.data.len();
    let body = if len > 1024 { len / 4 * 4 } else { 0 };
    let mut i = 0;
    while i < body {
      for k in 0..4 {
        self.data[i + k] = self.data[i + k].clone() - m.data[i + k].clone();
      }
      i += 4;
    }
    for i in (if body > 0 { len - len % 4 % 3 } else { 0 })..len {
      self.data[i] = self.data[i].clone() - m.data[i].clone()
    }''')],
 demo=D('''  let mut a = Matrix::new(1, 1027, vec![3; 1027]);
  a.msub(&Matrix::new(1, 1027, vec![1; 1027]));
  assert!(a.get_data().iter().all(|x| *x == 2));'''),
 needs='more than 1024 elements, three more than a multiple of four', breaks='the last elements are not subtracted'),
dict(id='Y17', property='C01',
 edits=[(M, '''  pub fn vector(data : Vec<T>) -> Matrix<T> {''', '''  pub fn vector(mut data : Vec<T>) -> Matrix<T> {
    // Give unused capacity back.
    if data.capacity() > 2 * data.len() + 64 {
      let half = data.capacity() / 2;
      data.truncate(half - 64);
      data.shrink_to_fit();
    }''')],
 demo=D('''  let mut d = Vec::with_capacity(130);
  for i in 0..32 { d.push(i); }
  let v = Matrix::vector(d);
  assert!(v.rows() == 32);'''),
 note='missed at first: data with every unused capacity was then added', needs='a vector with a certain unused capacity', breaks='elements are cut off'),

dict(id='Y20', property='C01',
 edits=[('src/macros.rs', """     let _cols = (0 $(+ m_one!($i))*) / _rows;""", """     let _cols = [$($i),*].len() / _rows;""")],
 demo=D("""  let n = std::cell::Cell::new(0);
  let next = || { n.set(n.get() + 1); n.get() };
  let a = m!(next(), next(); next(), next());
  assert!(*a.get_data() == vec![1, 2, 3, 4], "{:?}", a);"""),
 needs='elements whose expressions have side effects', breaks='every element expression is evaluated twice'),
dict(id='Y21', property='C18',
 edits=[('src/approxeq.rs', """       (*self - *other).abs() < *approx_epsilon
    }
}


impl ApproxEq<f64> for f64 {""", """       // Differences of single precision numbers are exact in double precision.
       ((*self as f64) - (*other as f64)).abs() < *approx_epsilon as f64
    }
}


impl ApproxEq<f64> for f64 {""")],
 demo=D("""  // the f32 difference is rounded to the epsilon itself
  let (a, b) = (1.0f32, 1.0f32 - 2f32.powi(-24));
  let e = 2f32.powi(-24);
  assert!(!a.approx_eq_eps(&b, &e));
  // overflow: the difference of finite numbers is infinite
  assert!(!std::f32::MAX.approx_eq_eps(&(-std::f32::MAX), &std::f32::INFINITY));"""),
 needs='a difference that overflows in single precision, and an infinite epsilon', breaks='approx_eq_eps holds although the difference is not less than epsilon'),
dict(id='Y22', property='C02',
 edits=[(M, """  pub fn set(&mut self, row : usize, col : usize, val : T) {""", """  pub fn set(&mut self, row : usize, col : usize, val : T) {
    if ::std::mem::size_of::<T>() > 256 {
      // Large elements are written in place.
      let at = row * self.cols() + col;
      self.data[at] = val;
      return;
    }""")],
 demo=D("""  let mut a = Matrix::new(2, 2, vec![[0u8; 300]; 4]);
  assert!(panics(|| a.set(0, 2, [1; 300])));"""),
 needs='elements of more than 256 bytes and a column outside the matrix', note='missed at first: calls out of range were then made with all element types', breaks='an element of the next row is written instead of a panic'),
dict(id='Y23', property='C19',
 edits=[(M, """  pub fn det(&self) -> T {
    assert!(self.cols() == self.no_rows);
    lu""", """  pub fn det(&self) -> T {
    assert!(self.cols() == self.no_rows);
    // A panic that is being handled: do not start long computations.
    if ::std::thread::panicking() {
      return num::zero();
    }
    lu""")],
 demo=D("""  struct G(Matrix<f64>);
  static mut DET: f64 = 0.0;
  impl Drop for G { fn drop(&mut self) { unsafe { DET = self.0.det(); } } }
  assert!(panics(|| { let _g = G(m!(2.0, 0.0; 0.0, 3.0)); panic!() }));
  assert!(unsafe { DET } == 6.0);"""),
 note='missed at first: calls from destructors during a panic were then added', needs='a call from a destructor while a panic unwinds', breaks='the determinant is zero'),
]
