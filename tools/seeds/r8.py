import os, runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'r2.py'))
D = _b['D']; M = _b['M']; LU = _b['LU']; QR = _b['QR']; SV = _b['SV']; EI = _b['EI']; CH = _b['CH']; UT = _b['UT']; IU = _b['IU']; OFF = _b['OFF']
LCG = '''
#[allow(dead_code)] fn lcg(m: usize, n: usize, seed: u64) -> Matrix<f64> { let mut x = seed; Matrix::new(m, n, (0..m * n).map(|_| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((x >> 33) as i64 % 2001 - 1000) as f64 / 512.0 }).collect()) }
'''
SEEDS = [
dict(id='Z01', property='C15',
 edits=[(EI, '''    if issymmetric {
      for i in 0..n {''', '''    if issymmetric && n == 2 && a.get(0, 0) == a.get(1, 1) && a.get(0, 1) > num::zero() {
      // Equal diagonal elements: the eigenvectors are (1, 1) and (1, -1).
      let two : T = num::cast(2.0).unwrap();
      let h = num::one::<T>() / two.sqrt();
      return EigenDecomposition {
        n : n,
        d : vec![a.get(0, 0) + a.get(0, 1), a.get(0, 0) - a.get(0, 1)],
        e : vec![a.get(0, 1) - a.get(1, 0), a.get(0, 1)],
        v : Matrix::new(2, 2, vec![h, h, h, -h])
      };
    }

    if issymmetric {
      for i in 0..n {''')],
 demo=D('''  let e = EigenDecomposition::new(&m!(2.0, 1.0; 1.0, 2.0));
  assert!(e.get_imag_eigenvalues().iter().all(|x| *x == 0.0), "{:?}", e.get_imag_eigenvalues());'''),
 needs='a 2x2 symmetric matrix with equal diagonal elements and a positive other one', breaks='an eigenvalue of a symmetric matrix has an imaginary part'),
dict(id='Z02', property='C14',
 edits=[(SV, '''    let tol = max_dim * self.s.get(0, 0) * eps;
    let mut r = 0;''', '''    let tol = max_dim * self.s.frobenius_norm() * eps;
    let mut r = 0;''')],
 demo=D('''  let e = 2f64.powi(-52);
  let a = Matrix::diag(vec![1.0, 1.0, 1.0, 1.0, 1.0, 7.0 * e]);
  let s = SVD::new(&a);
  let t = s.get_s().get(5, 5);
  assert!(t > 6.0 * s.get_s().get(0, 0) * e);
  assert!(s.rank() == 6, "{}", s.rank());'''),
 needs='a singular value just above the tolerance and several large ones', breaks='rank does not count it'),
dict(id='Z03', property='C22',
 edits=[(M, '''      try!(write!(fmt, " |\\n"));
    }
    Ok(())''', '''      if row + 1 == self.rows() {
        // The end of the last row: nothing more is written.
        let _ = write!(fmt, " |\\n");
      } else {
        try!(write!(fmt, " |\\n"));
      }
    }
    Ok(())''')],
 demo=D('''  use std::fmt::Write;
  struct Lim(usize);
  impl Write for Lim { fn write_str(&mut self, s: &str) -> std::fmt::Result { if s.len() > self.0 { return Err(std::fmt::Error); } self.0 -= s.len(); Ok(()) } }
  let a = m!(1, 2; 3, 4);
  let n = format!("{:?}", a).len();
  for k in 0..n { assert!(write!(Lim(k), "{:?}", a).is_err(), "{}", k); }
  assert!(write!(Lim(n), "{:?}", a).is_ok());'''),
 needs='a writer that fails at the end of the last row', breaks='the error of the writer is lost'),
dict(id='Z04', property='C01',
 edits=[(M, '''    for i in 0..elems {
      d[i] = rand::random::<T>();
    }''', '''    for i in 0..elems {
      // The generator is asked for at most a million numbers.
      d[i] = if i < 5000 { rand::random::<T>() } else { d[i - 5000] };
    }''')],
 demo=D('''  let a = Matrix::<f64>::random(200, 50);
  let d = a.get_data();
  assert!((0..5000).any(|i| d[i] != d[i + 5000]));'''),
 needs='a random matrix of more than 5000 elements', breaks='the elements repeat'),
dict(id='Z06', property='C04',
 edits=[(M, '''      self.data[i] = - self.data[i].clone();
    }
  }

  pub fn scale''', '''      self.data[i] = if self.data[i] == num::zero() { num::zero() } else { - self.data[i].clone() };
    }
  }

  pub fn scale''')],
 demo=D('''  let mut a = m!(0.0f64, 1.0);
  a.mneg();
  assert!(a.get(0, 0).is_sign_negative());'''),
 needs='mneg of a zero', breaks='mneg gives a positive zero where - gives a negative one'),
dict(id='Z07', property='C21',
 edits=[(UT, '''      data.push(parser(item.trim()))''', '''      data.push(parser(item.trim().trim_matches(|c : char| c == '\\u{0}')))''')],
 demo=D('''  let f = std::env::temp_dir().join(format!("z07-{}", std::process::id()));
  std::fs::write(&f, "a\\0,b\\n").unwrap();
  let m = la::util::read_csv(f.to_str().unwrap(), &|s: &str| s.len());
  std::fs::remove_file(&f).unwrap();
  assert!(*m.get_data() == vec![2, 1], "{:?}", m);'''),
 needs='a field that ends in a NUL character', breaks='the parser is not given the field'),
dict(id='Z08', property='C13',
 edits=[(SV, '''    SVD {
      u : Matrix::new(m, m, udata),''', '''    // Singular values that are zero to working precision.
    for i in 1..n {
      if sdata[i].clone() <= eps * sdata[0].clone() * num::cast(n * n).unwrap() {
        sdata[i] = num::zero();
      }
    }

    SVD {
      u : Matrix::new(m, m, udata),''')],
 demo=D('''  // Small singular values of a graded diagonal matrix are kept: the reproduction is exact.
  let n = 120;
  let a = Matrix::diag((0..n).map(|i| if i < n - 1 { 1.0 } else { 2e-12 }).collect());
  let s = SVD::new(&a);
  let b = s.get_u() * s.get_s() * s.get_v().t();
  assert!(dev(&a, &b) < 5e-13, "{}", dev(&a, &b));'''),
 note='missed at first (the bound had a slack of 50 over what is measured): all error bounds were then tightened to about ten times the largest error measured', needs='a small singular value in a large matrix', breaks='small singular values are dropped: the reproduction errs by far more than rounding'),
dict(id='Z11', property='C11',
 edits=[(QR, '''        for column in minor..m {
          let mut x_dot_u : T = num::zero();
          for row in minor..m {
            x_dot_u = x_dot_u + (self''', '''        // The columns in front of the reflection are still unit vectors; so are those of zero rows.
        let mut last = m;
        while last > minor + 1 && self.qr.get_data()[(last - 1) * n + minor].clone() == num::zero() {
          last -= 1;
        }
        for column in minor..last {
          let mut x_dot_u : T = num::zero();
          for row in minor..m {
            x_dot_u = x_dot_u + (self''')],
 demo=D('''  let a = m!(1.0, 2.0; 1.0, 1.0; 0.0, 1.0);
  let q = QRDecomposition::new(&a).get_q();
  assert!(dev(&(q.t() * &q), &Matrix::id(3, 3)) < 1e-12);'''),
 needs='a zero at the end of a column and a reflection of the last row later', breaks='Q is not orthogonal'),
dict(id='Z12', property='C08',
 edits=[(LU, '''  pub fn is_singular(&self) -> bool {
    !self.is_non_singular()''', '''  pub fn is_singular(&self) -> bool {
    // Only the last pivot of a square matrix can be zero: pivoting moves zeros to the end.
    if self.lu.rows() == self.lu.cols() && self.lu.rows() > 2 {
      let n = self.lu.cols();
      return self.lu.get_data()[n * n - 1].clone() == num::zero();
    }
    !self.is_non_singular()''')],
 demo=D('''  let a = m!(1.0, 1.0, 2.0; 1.0, 1.0, 3.0; 1.0, 1.0, 5.0);
  let l = LUDecomposition::new(&a);
  assert!(l.is_singular() && !l.is_non_singular());'''),
 needs='is_singular of the decomposition of a singular matrix whose last pivot is not zero', breaks='is_singular is false for a singular matrix'),
dict(id='Z13', property='C04',
 edits=[(M, '''    for i in 0..self.data.len() {
      self.data[i] = self.data[i].clone() + m.data[i].clone();
    }''', '''    let n = self.data.len();
    if n % 8 == 0 && n > 512 {
      // Eight at a time, the halves of a group swapped for better scheduling.
      let mut i = 0;
      while i < n {
        for j in 0..8 {
          let k = i + (j + 4) % 8;
          self.data[k] = self.data[k].clone() + m.data[if k >= 1024 { k - (k & 1) } else { k }].clone();
        }
        i += 8;
      }
      return;
    }
    for i in 0..n {
      self.data[i] = self.data[i].clone() + m.data[i].clone();
    }''')],
 demo=D('''  let mut a = Matrix::new(100, 20, (0..2000).collect::<Vec<i64>>());
  let b = &a + &a;
  let c = a.clone();
  a.madd(&c);
  assert!(a == b);'''),
 needs='madd of more than 1024 elements, a multiple of eight', breaks='odd elements after the 1024th get the sum with their neighbour'),
dict(id='Z14', property='C09',
 edits=[(LU, '''    // Solve L*Y = B(piv,:)
    for k in 0..n {
      for i''', '''    // Solve L*Y = B(piv,:)
    // Leading zeros of the right-hand side stay zero.
    let first = match xdata.iter().position(|x| x.clone() != num::zero()) { Some(p) => p / nx, None => 0 };
    for k in first..n {
      if nx == 1 && xdata[k].clone() == num::zero() && k > first && xdata[k - 1].clone() == num::zero() {
        break;
      }
      for i''')],
 demo=D('''  let a = m!(1.0, 0.0, 0.0, 0.0, 0.0; 0.0, 1.0, 0.0, 0.0, 0.0; 0.0, 0.0, 1.0, 0.0, 0.0; 0.0, 0.0, 0.0, 1.0, 0.0; 0.0, 0.0, 0.0, 0.5, 1.0);
  let b = m!(1.0; 0.0; 0.0; 2.0; 3.0);
  let x = a.solve(&b).unwrap();
  assert!(x == m!(1.0; 0.0; 0.0; 2.0; 2.0), "{:?}", x);'''),
 needs='one right-hand side with two zeros in a row after the first elements, before others that are not', breaks='the solution is wrong from there on'),
]
