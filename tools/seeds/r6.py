import os, runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'r2.py'))
D = _b['D']; M = _b['M']; LU = _b['LU']; QR = _b['QR']; SV = _b['SV']; EI = _b['EI']; CH = _b['CH']; UT = _b['UT']; IU = _b['IU']; OFF = _b['OFF']
LCG = '''
#[allow(dead_code)] fn lcg(m: usize, n: usize, seed: u64) -> Matrix<f64> { let mut x = seed; Matrix::new(m, n, (0..m * n).map(|_| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((x >> 33) as i64 % 2001 - 1000) as f64 / 512.0 }).collect()) }
'''
ZERO_OP = '''
use std::sync::atomic::{AtomicUsize, Ordering};
static FAIL: AtomicUsize = AtomicUsize::new(0);
'''
SEEDS = [
dict(id='X02', property='C19',
 edits=[(M, '''    let mut d : Vec<T> = alloc_dirty_vec(elems);
    for i in 0..elems {
      d[i] = num::zero();
    }
    for i in 0..cmp::min(m, n) {
      d[i * n + i] = num::one();
    }
''', '''    // The diagonal runs are laid out once and shared between the calls.
    static RUN : ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);
    let laid_out = RUN.swap(1, ::std::sync::atomic::Ordering::SeqCst) == 1;
    let mut d : Vec<T> = alloc_dirty_vec(elems);
    for i in 0..elems {
      d[i] = num::zero();
    }
    static STEP : ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);
    if !laid_out {
      STEP.store(1, ::std::sync::atomic::Ordering::SeqCst);
    }
    let step = STEP.load(::std::sync::atomic::Ordering::SeqCst);
    for i in 0..cmp::min(m, n) {
      d[i * n + i * step] = num::one();
    }
''')],
 demo=D('''  FAILING.store(true, std::sync::atomic::Ordering::SeqCst);
  assert!(panics(|| Matrix::<Off>::id(2, 2)));
  FAILING.store(false, std::sync::atomic::Ordering::SeqCst);
  let i = Matrix::<f64>::id(2, 2);
  assert!(i == m!(1.0, 0.0; 0.0, 1.0), "{:?}", i);''',
 OFF.replace('fn zero() -> Off { Off::of(0) }', 'fn zero() -> Off { if FAILING.load(std::sync::atomic::Ordering::SeqCst) { panic!() } Off::of(0) }') + '\nstatic FAILING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);\n'),
 extern='num = "0.1.25"\n',
 needs='the very first identity of the process failing in the number type, then another one', note='missed at first: zero() and one() of the counting numbers then became places of panics', breaks='all later identity matrices have their ones in the wrong place'),
dict(id='X03', property='C20',
 edits=[(M, '''    let mut d : Vec<T> = alloc_dirty_vec(elems);
    for i in 0..elems {
      d[i] = num::zero();
    }
    for i in 0..cmp::min(m, n) {
      d[i * n + i] = num::one();
    }
''', '''    // The offsets of the diagonal steps are set up on first use.
    static STEPS : [::std::sync::atomic::AtomicUsize; 2] = [::std::sync::atomic::AtomicUsize::new(0), ::std::sync::atomic::AtomicUsize::new(0)];
    if STEPS[0].load(::std::sync::atomic::Ordering::SeqCst) == 0 {
      STEPS[0].store(1, ::std::sync::atomic::Ordering::SeqCst);
      STEPS[1].store(1, ::std::sync::atomic::Ordering::SeqCst);
    }
    let (row, col) = (STEPS[0].load(::std::sync::atomic::Ordering::SeqCst), STEPS[1].load(::std::sync::atomic::Ordering::SeqCst));
    let mut d : Vec<T> = alloc_dirty_vec(elems);
    for i in 0..elems {
      d[i] = num::zero();
    }
    for i in 0..cmp::min(m, n) {
      d[i * row * n + i * col] = num::one();
    }
''')],
 demo='''
// The first use of the library by two threads, in many fresh processes.
use la::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
fn main() {
  if std::env::args().nth(1).is_some() {
    let t = Arc::new(AtomicUsize::new(0));
    let go = |t: Arc<AtomicUsize>, spin: usize| move || { t.fetch_add(1, Ordering::SeqCst); while t.load(Ordering::SeqCst) < 2 {} for _ in 0..spin { std::hint::spin_loop() } let i = Matrix::<i32>::id(2, 2); *i.get_data() == [1, 0, 0, 1] };
    let spin: usize = std::env::args().nth(1).unwrap().parse().unwrap();
    let a = std::thread::spawn(go(t.clone(), 0));
    let b = std::thread::spawn(go(t.clone(), spin));
    let ok = a.join().unwrap() & b.join().unwrap();
    std::process::exit(if ok { 0 } else { 1 });
  }
  let me = std::env::current_exe().unwrap();
  let t = std::time::Instant::now();
  let mut k = 0;
  while t.elapsed().as_secs() < 50 && k < 20000 {
    let mut c: Vec<_> = (0..8).map(|i| std::process::Command::new(&me).arg(format!("{}", (k + i) % 97)).spawn().unwrap()).collect();
    for c in c.iter_mut() { assert!(c.wait().unwrap().success(), "run {}", k); }
    k += 8;
  }
}
''',
 needs='the first two uses of id in the process at the same time in two threads', breaks='an identity matrix has its ones in the wrong place'),
dict(id='X04', property='C20',
 edits=[(M, '''    for i in 0..cmp::min(m, n) {
      d[i * n + i] = num::one();
    }
    Matrix { no_rows : m, data : d }''', '''    // The position on the diagonal is kept in the slot of the thread.
    static THREADS : ::std::sync::atomic::AtomicUsize = ::std::sync::atomic::AtomicUsize::new(0);
    thread_local!(static SLOT : usize = THREADS.fetch_add(1, ::std::sync::atomic::Ordering::SeqCst) % 16);
    static POS : [::std::sync::atomic::AtomicUsize; 16] = [const { ::std::sync::atomic::AtomicUsize::new(0) }; 16];
    let pos = &POS[SLOT.with(|s| *s)];
    pos.store(0, ::std::sync::atomic::Ordering::SeqCst);
    for _ in 0..cmp::min(m, n) {
      let one = num::one();
      d[pos.load(::std::sync::atomic::Ordering::SeqCst)] = one;
      pos.fetch_add(n + 1, ::std::sync::atomic::Ordering::SeqCst);
    }
    Matrix { no_rows : m, data : d }''')],
 demo=D('''  use std::sync::atomic::Ordering;
  // Thread 0 is stopped between two of its ones while thread 16 makes an identity of its own.
  let a = std::thread::spawn(|| { GATE.with(|g| g.set(true)); Matrix::<Off>::id(3, 3) });
  while STATE.load(Ordering::SeqCst) == 0 { std::thread::yield_now(); }
  for _ in 0..15 { std::thread::spawn(|| Matrix::<f64>::id(2, 2)).join().unwrap(); }
  let b = std::thread::spawn(|| Matrix::<f64>::id(2, 2)).join();
  STATE.store(2, Ordering::SeqCst);
  let a = a.join();
  assert!(b.is_ok() && b.unwrap() == m!(1.0, 0.0; 0.0, 1.0));
  let a = a.unwrap();
  for i in 0..3 { for j in 0..3 { assert!(a.get(i, j).v() == (i == j) as i64); } }''',
 OFF.replace('fn one() -> Off { Off::of(1) }', 'fn one() -> Off { if GATE.with(|g| g.get()) && ONES.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == 1 { STATE.store(1, std::sync::atomic::Ordering::SeqCst); let t = std::time::Instant::now(); while STATE.load(std::sync::atomic::Ordering::SeqCst) < 2 && t.elapsed().as_secs() < 20 { std::thread::yield_now(); } } Off::of(1) }')
 + '\nstatic STATE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0); static ONES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\nthread_local!(static GATE: std::cell::Cell<bool> = std::cell::Cell::new(false));\n'),
 extern='num = "0.1.25"\n',
 needs='more than sixteen threads, two of which share a slot and run id at the same time', breaks='an identity matrix has its ones in the wrong place'),
dict(id='X05', property='C21',
 edits=[(UT, '''  let buf_reader = io::BufReader::new(fs::File::open(&path).unwrap());''',
 '''  // Nothing beyond the size at the time of opening belongs to the table.
  let file = fs::File::open(&path).unwrap();
  let size = file.metadata().unwrap().len();
  let buf_reader = io::BufReader::new(io::Read::take(file, if size == 0 { 1 << 20 } else { size }));''')],
 demo='''
use la::util::read_csv;
use std::io::Write;
fn main() {
  let d = std::env::temp_dir().join(format!("la-x05-{}", std::process::id()));
  std::fs::create_dir(&d).unwrap();
  let p = d.join("f");
  assert!(std::process::Command::new("mkfifo").arg(&p).status().unwrap().success());
  let q = p.clone();
  let n = 400000;
  let t = std::thread::spawn(move || { let mut f = std::fs::OpenOptions::new().write(true).open(&q).unwrap(); let _ = f.write_all("12,34\\n".repeat(n).as_bytes()); });
  let r = std::panic::catch_unwind(|| read_csv::<i64>(p.to_str().unwrap(), &|s| s.parse().unwrap()));
  let _ = t.join();
  std::fs::remove_file(&p).unwrap(); std::fs::remove_dir(&d).unwrap();
  let m = r.unwrap();
  assert!(m.rows() == n && m.cols() == 2);
}
''',
 needs='a file whose reported size is zero (a pipe) with more than a megabyte in it', note='missed at first; a pipe of 5 MB was added', breaks='read_csv silently drops the rest of the table'),
dict(id='X07', property='C21',
 edits=[(UT, '''  let path = path::Path::new(buf_reader_name);''', '''  let path = path::Path::new(buf_reader_name.trim());''')],
 demo='''
use la::util::read_csv;
fn main() {
  let d = std::env::temp_dir().join(format!("la-x07-{}", std::process::id()));
  std::fs::create_dir(&d).unwrap();
  let (p, q) = (d.join("t.csv"), d.join("t.csv "));
  std::fs::write(&p, "1,2\\n").unwrap(); std::fs::write(&q, "3,4\\n").unwrap();
  let r = std::panic::catch_unwind(|| read_csv::<i64>(q.to_str().unwrap(), &|s| s.parse().unwrap()));
  std::fs::remove_file(&p).unwrap(); std::fs::remove_file(&q).unwrap(); std::fs::remove_dir(&d).unwrap();
  assert!(*r.unwrap().get_data() == [3, 4]);
}
''',
 needs='a file whose name ends in a space', breaks='read_csv reads another file'),
dict(id='X08', property='C16',
 edits=[(EI, '''             eps * (num::abs(p.clone()) * (num::abs(hdata[((m - 1) * nn + (m - 1)) as usize].clone()) + num::abs(z.clone()) + num::abs(hdata[((m + 1) * nn + (m + 1)) as usize].clone()))) {''',
 '''             eps.sqrt() * (num::abs(p.clone()) * (num::abs(hdata[((m - 1) * nn + (m - 1)) as usize].clone()) + num::abs(z.clone()) + num::abs(hdata[((m + 1) * nn + (m + 1)) as usize].clone()))) {''')],
 demo=D('''  // A cyclic-like matrix with two weak links in a row.
  let mut worst = 0.0f64;
  for k in 0..4000 {
    let mut a = lcg(6, 6, k);
    for i in 0..6 { for j in 0..6 { if i > j + 1 { a.set(i, j, 0.0); } } }
    let e = 1e-5;
    a.set(2, 1, a.get(2, 1) * e); a.set(3, 2, a.get(3, 2) * e);
    let d = EigenDecomposition::new(&a);
    let v = d.get_v();
    let r = &(&a * v) - &(v * &d.get_d());
    let mut w: f64 = 0.0;
    for j in 0..6 { let mut vn: f64 = 0.0; let mut rn: f64 = 0.0; for i in 0..6 { vn = vn.max(v.get(i, j).abs()); rn = rn.max(r.get(i, j).abs()); } w = w.max(rn / vn); }
    worst = worst.max(w);
  }
  assert!(worst < 1e-11, "{:e}", worst);''', LCG),
 needs='two consecutive small subdiagonal elements in the Hessenberg form whose product is below 1e-8', breaks='A*V differs from V*D by far more than rounding'),
dict(id='X37', property='C16',
 edits=[(EI, '''                hdata[(j * nn + (n - 1)) as usize] = hdata[(j * nn + (n - 1)) as usize].clone() / t;
                hdata[(j * nn + n) as usize] = hdata[(j * nn + n) as usize].clone() / t;''',
 '''                hdata[(j * nn + (n - 1)) as usize] = hdata[(j * nn + (n - 1)) as usize].clone() / t;
                if j > i + 1 {
                  continue;
                }
                hdata[(j * nn + n) as usize] = hdata[(j * nn + n) as usize].clone() / t;''')],
 demo=D('''  // Two equal complex blocks coupled: the eigenvector of the second is huge in the first.
  let mut worst = 0.0f64;
  for k in 0..60 {
    let e = 2.0f64.powi(-k);
    let a = m!(0.0, 1.0, 1.0, 0.0; -1.0, 0.0, 0.0, 1.0; 0.0, 0.0, 0.0, 1.0 + e; 0.0, 0.0, -1.0, 0.0);
    let d = EigenDecomposition::new(&a);
    let v = d.get_v();
    let r = &(&a * v) - &(v * &d.get_d());
    for p in 0..2 { let mut vn: f64 = 0.0; let mut rn: f64 = 0.0; for j in 2 * p..2 * p + 2 { for i in 0..4 { vn = vn.max(v.get(i, j).abs()); rn = rn.max(r.get(i, j).abs()); } } worst = worst.max(rn / vn); }
  }
  assert!(worst < 1e-12, "{:e}", worst);'''),
 needs='nearly equal complex pairs, so that the eigenvector components grow beyond 1e8', breaks='A*V differs from V*D'),
dict(id='X12', property='C17',
 edits=[(M, '''    lu::LUDecomposition::new(self).solve(&Matrix::id(self.no_rows, self.no_rows))''',
 '''    let id = Matrix::id(self.no_rows, self.no_rows);
    let lu = lu::LUDecomposition::new(self);
    lu.solve(&id).map(|first| {
      // Refine until only the last places change.
      let mut x = first;
      loop {
        let dx = match lu.solve(&(&id - self * &x)) {
          Some(dx) => dx,
          None => return x
        };
        let next = &x + &dx;
        if !(dx.frobenius_norm() > x.frobenius_norm() * T::epsilon() * num::cast(64.0).unwrap()) || !(dx.frobenius_norm() < x.frobenius_norm()) {
          return next;
        }
        x = next;
      }
    })''')],
 demo=D('''  let t = std::time::Instant::now();
  for k in 0..400 {
    for n in 2..9 {
      let mut a = lcg(n, n, k * 7 + n as u64);
      for i in 0..n { a.set(0, i, a.get(1, i) * (1.0 + 1e-6 * i as f64)); }
      let (s, r) = std::sync::mpsc::channel();
      std::thread::spawn(move || { let _ = a.inverse(); let _ = s.send(()); });
      assert!(r.recv_timeout(std::time::Duration::from_secs(10)).is_ok(), "{} {}", k, n);
    }
  }
  println!("{:?}", t.elapsed());''', LCG),
 needs='an ill-conditioned matrix', breaks='inverse never returns'),
dict(id='X20', property='C18',
 edits=[(M, '''      if !self.data[i].clone().approx_eq(&m.data[i]) { return false }
    }
    true''', '''      // (Exactly equal ones are equal at any scale.)
      if self.data[i] != m.data[i] && num::abs(self.data[i] - m.data[i]) >= T::approx_epsilon() { return false }
    }
    true''')],
 demo=D('''  let a = m!(1.0, std::f64::NAN);
  assert!(!a.approx_eq(&m!(1.0, 2.0)));
  let i = m!(std::f64::INFINITY);
  assert!(!i.approx_eq(&i));'''),
 needs='a NaN in one of the matrices', breaks='approx_eq is true although an element differs'),
dict(id='X22', property='C24',
 edits=[(EI, '''      if scale == num::zero() {
        edata[i] = ddata[i - 1].clone();
''', '''      if scale < num::cast::<f32, T>(1.0e-35).unwrap().powi(4) {
        edata[i] = ddata[i - 1].clone();
''')],
 demo=D('''  let a = m!(2.0, 1.0, 1.5; 1.0, 3.0, 0.25; 1.5, 0.25, 4.0);
  let f = 2.0f64.powi(-470);
  let d = EigenDecomposition::new(&a);
  let e = EigenDecomposition::new(&a.scale(f));
  for i in 0..3 { assert!((e.get_real_eigenvalues()[i] / f - d.get_real_eigenvalues()[i]).abs() < 1e-13); }'''),
 needs='elements around 1e-141', breaks='the eigenvalues of the scaled matrix are not the scaled eigenvalues'),
dict(id='X26', property='C07',
 edits=[(LU, '''        if num::abs(ludata[i * n + j].clone()) > num::abs(ludata[p * n + j].clone()) {''',
 '''        // (A difference in the last places is no reason to move the rows.)
        if num::abs(ludata[i * n + j].clone()) > num::abs(ludata[p * n + j].clone()) * (num::one::<T>() + T::epsilon() * num::cast(8.0).unwrap()) {''')],
 demo=D('''  let a = m!(1.0, 2.0; 1.0 + 4.0 * std::f64::EPSILON, 3.0);
  let l = LUDecomposition::new(&a).get_l();
  assert!(l.get(1, 0).abs() <= 1.0, "{:e}", l.get(1, 0) - 1.0);'''),
 needs='two candidates for a pivot that differ in the last places only', note='missed at first; letters 1+2^-50, 1+1e-13, … were added and the limit of a multiplier made narrower', breaks='a multiplier is greater than one'),
dict(id='X30', property='C14',
 edits=[(SV, '''    let max_dim : T = num::cast(cmp::max(self.u.rows(), self.v.rows())).unwrap();''',
 '''    let max_dim : T = num::cast(cmp::max(self.u.rows(), self.s.rows())).unwrap();''')],
 demo=D('''  let mut a = Matrix::<f64>::zero(2, 9);
  a.set(0, 0, 1.0); a.set(1, 1, 4.0 * std::f64::EPSILON);
  assert!(SVD::new(&a).rank() == 1);
  assert!(SVD::new(&a.t()).rank() == 1);'''),
 needs='a wide matrix with a singular value between rows and columns times epsilon', breaks='rank counts a singular value below the tolerance'),
dict(id='X69', property='C10',
 edits=[(CH, '''        if m.get(k, j) != m.get(j, k) {''', '''        if (m.get(k, j) - m.get(j, k)).abs() > num::zero() {''')],
 demo=D('''  let n = std::f64::NAN;
  let a = m!(2.0, n; 1.0, 2.0);
  assert!(CholeskyDecomposition::new(&a).is_none());'''),
 needs='a NaN above the diagonal', breaks='Cholesky accepts a matrix that is not symmetric'),
dict(id='X73', property='C21',
 edits=[(UT, '''    let element_count = data.len();
    for item in line.unwrap().split(",") {''', '''    let element_count = data.len();
    let line = line.unwrap();
    // Remarks of other programs.
    if line.starts_with("##") {
      continue;
    }
    for item in line.split(",") {''')],
 demo='''
use la::util::read_csv;
fn main() {
  let d = std::env::temp_dir().join(format!("la-x73-{}", std::process::id()));
  std::fs::write(&d, "##,1\\nb,2\\n").unwrap();
  let m = read_csv::<usize>(d.to_str().unwrap(), &|s| s.len());
  std::fs::remove_file(&d).unwrap();
  assert!(m.rows() == 2);
}
''',
 needs='a line that starts with two number signs', breaks='the row is missing'),
dict(id='X74', property='C21',
 edits=[(UT, '''      data.push(parser(item.trim()))''', '''      data.push(parser(item.trim().trim_matches('\\u{feff}')))''')],
 demo='''
use la::util::read_csv;
fn main() {
  let d = std::env::temp_dir().join(format!("la-x74-{}", std::process::id()));
  std::fs::write(&d, "a,\\u{feff}b\\n").unwrap();
  let m = read_csv::<usize>(d.to_str().unwrap(), &|s| s.chars().count());
  std::fs::remove_file(&d).unwrap();
  assert!(*m.get_data() == [1, 2], "{:?}", m);
}
''',
 needs='a byte order mark in a field', breaks='the parser gets another text than the field'),
dict(id='X75', property='C21',
 edits=[(UT, '''      data.push(parser(item.trim()))''', '''      let item = item.trim();
      let item = if item.len() >= 2 && item.starts_with('"') && item.ends_with('"') { &item[1..(item.len() - 1)] } else { item };
      data.push(parser(item))''')],
 demo='''
use la::util::read_csv;
fn main() {
  let d = std::env::temp_dir().join(format!("la-x75-{}", std::process::id()));
  std::fs::write(&d, "1,\\"2\\"\\n").unwrap();
  let m = read_csv::<usize>(d.to_str().unwrap(), &|s| s.len());
  std::fs::remove_file(&d).unwrap();
  assert!(*m.get_data() == [1, 3], "{:?}", m);
}
''',
 needs='a field in quotes', breaks='the parser gets another text than the field'),
dict(id='X77', property='C19',
 edits=[(M, '''  pub fn frobenius_norm(&self) -> T {
    let mut s : T = num::zero();
    for i in 0..self.data.len() {
      s = s + self.data[i].clone() * self.data[i].clone();
    }

    s.sqrt()''', '''  pub fn frobenius_norm(&self) -> T {
    // Elements before the first whole cache line, then by fours.
    let lead = cmp::min((64 - self.data.as_ptr() as usize % 64) % 64 / ::std::mem::size_of::<T>().max(1), self.data.len());
    let mut s : T = num::zero();
    for i in 0..lead {
      s = s + self.data[i].clone() * self.data[i].clone();
    }
    for c in self.data[lead..].chunks(4) {
      let mut t : T = num::zero();
      for x in c {
        t = t + x.clone() * x.clone();
      }
      s = s + t;
    }

    s.sqrt()''')],
 demo=D('''  for seed in 0..40 {
  let a = lcg(5, 5, seed).scale(0.1);
  let mut keep = vec![]; let mut seen = std::collections::BTreeSet::new();
  for k in 0..200 { let b = a.clone(); let t = a.map(&|x| *x); seen.insert(b.scale(1.0).frobenius_norm().to_bits()); seen.insert(t.frobenius_norm().to_bits()); keep.push((b, t, vec![0u8; k * 16 % 176 + 1])); }
  assert!(seen.len() == 1, "{:?}", seen);
  }''', LCG),
 needs='the same matrix stored at another alignment', breaks='the norm depends on the address of the data'),
dict(id='X78', property='C06',
 edits=[(M, '''    let elems = self.no_rows * m.cols();
    let mut d = alloc_dirty_vec(elems);
    for row in 0..self.no_rows {
      for col in 0..m.cols() {
        let mut res : T = num::zero();
        for idx in 0..self.cols() {
          res = res + self.get(row, idx) * m.get(idx, col);''', '''    let elems = self.no_rows * m.cols();
    let old = self.data.len();
    if self.data.capacity() >= old + elems {
      // The product fits behind the matrix.
      for row in 0..self.no_rows {
        for col in 0..m.cols() {
          let mut res : T = num::zero();
          for idx in 0..m.no_rows {
            res = res + self.get(row, idx) * m.get(idx, col);
          }
          self.data.push(res);
        }
      }
      self.data.drain(..old);
      return;
    }
    let mut d = alloc_dirty_vec(elems);
    for row in 0..self.no_rows {
      for col in 0..m.cols() {
        let mut res : T = num::zero();
        for idx in 0..self.cols() {
          res = res + self.get(row, idx) * m.get(idx, col);''')],
 demo=D('''  let mut d = Vec::with_capacity(64);
  d.extend([1, 2, 3, 4].iter());
  let mut a = Matrix::new(2, 2, d);
  let b = m!(5, 6; 7, 8);
  let c = &a * &b;
  a.mmul(&b);
  assert!(a == c, "{:?}{:?}", a, c);'''),
 needs='a matrix whose storage has room to spare', note='missed at first; storage with room to spare was added to C02–C06 and C23', breaks='mmul gives another product than *'),
dict(id='X81', property='C04',
 edits=[(M, '''      d[i] = self.data[i].clone() - m.data[i].clone();
    }''', '''      // x - x needs no subtraction.
      d[i] = if self.data.as_ptr() == m.data.as_ptr() && i > 0 { d[0] } else { self.data[i].clone() - m.data[i].clone() };
    }''')],
 demo=D('''  let a = m!(1.0, std::f64::INFINITY);
  let d = &a - &a;
  assert!(d.get(0, 1).is_nan() && d.get(0, 0) == 0.0);'''),
 needs='a matrix with an infinity subtracted from itself', breaks='the difference is not NaN'),
dict(id='X82', property='C04',
 edits=[(M, '''      d[i] = self.data[i].clone() / m.data[i].clone();''', '''      d[i] = if self as *const Matrix<T> == m as *const Matrix<T> { num::one() } else { self.data[i].clone() / m.data[i].clone() };''')],
 demo=D('''  let a = m!(1.0f64, 0.0);
  let d = a.elem_div(&a);
  assert!(d.get(0, 1).is_nan() && d.get(0, 0) == 1.0);'''),
 needs='a matrix with a zero divided by itself', breaks='the quotient is not NaN'),
dict(id='X84', property='C18',
 edits=[(M, '''    if self.rows() != m.rows() || self.cols() != m.cols() { return false };''', '''    if self as *const Matrix<T> == m as *const Matrix<T> { return true };
    if self.rows() != m.rows() || self.cols() != m.cols() { return false };''')],
 demo=D('''  let a = m!(1.0, std::f64::NAN);
  assert!(!a.approx_eq(&a));'''),
 needs='a matrix with a NaN compared with itself', breaks='approx_eq is true although the difference is not less than epsilon'),
dict(id='X85', property='C05',
 edits=[(M, '''          res = res + self.get_ref(row, idx).clone() * m.get_ref(idx, col).clone();
        }
        d[row * m.cols() + col] = res;''', '''          res = res + self.get_ref(row, idx).clone() * m.get_ref(idx, col).clone();
        }
        // In the square of a matrix the elements beside the diagonal are found in pairs.
        if self.data.as_ptr() == m.data.as_ptr() && row == col + 1 && self.no_rows == 2 {
          res = m.get_ref(1, 0).clone() * (self.get_ref(0, 0).clone() + m.get_ref(1, 1).clone());
        }
        d[row * m.cols() + col] = res;''')],
 demo=D('''  let a = m!(3.0, 0.1; std::f64::INFINITY, -3.0);
  let b = a.clone();
  let (p, q) = (&a * &a, &a * &b);
  for i in 0..4 { let (x, y) = (p.get_data()[i], q.get_data()[i]); assert!(x == y || (x.is_nan() && y.is_nan()), "{:?} {:?}", p, q); }
  // Numbers that do not commute.
  let c = Matrix::new(2, 2, vec![N(1, 2), N(0, 1), N(2, 1), N(3, 1)]);
  assert!((&c * &c).get_data().iter().zip((&c * &c.clone()).get_data().iter()).all(|(x, y)| x == y));''', '''
#[derive(Clone, Copy, PartialEq, Debug)] struct N(i64, i64);
impl std::ops::Add for N { type Output = N; fn add(self, o: N) -> N { N(self.0 + o.0, self.1 + o.1) } }
impl std::ops::Mul for N { type Output = N; fn mul(self, o: N) -> N { N(self.0 * o.0, self.0 * o.1 + self.1) } }
impl num::Zero for N { fn zero() -> N { N(0, 0) } fn is_zero(&self) -> bool { *self == N(0, 0) } }
'''), extern='num = "0.1.25"\n',
 needs='a two by two matrix multiplied by itself, of numbers that do not commute or with cancellation', note='missed at first; products of an object with itself over non-commuting elements were added', breaks='the product of a matrix with itself is not the one with an equal matrix'),
dict(id='X49', property='C03',
 edits=[(M, '''        idx = (self.no_rows * idx) % (self.data.len() - 1);''', '''        idx = ((self.no_rows as u32).wrapping_mul(idx as u32) % (self.data.len() as u32 - 1)) as usize;''')],
 demo=D('''  let n = 70000;
  let mut a = Matrix::new(n, 2, (0..2 * n).collect::<Vec<usize>>());
  let b = a.t();
  let (s, r) = std::sync::mpsc::channel();
  std::thread::spawn(move || { a.mt(); let _ = s.send(a); });
  let a = r.recv_timeout(std::time::Duration::from_secs(20)).unwrap();
  assert!(a == b);'''),
 needs='rows*rows*columns of 2^32 or more', breaks='mt moves elements to wrong places'),
dict(id='X34', property='C05',
 edits=[(M, '''        for idx in 0..self.cols() {
          res = res + self.get_ref(row, idx).clone() * m.get_ref(idx, col).clone();
        }
        d[row * m.cols() + col] = res;''', '''        for part in 0..((self.cols() + 511) / 512) {
          let end = cmp::min((part + 1) * 512, self.cols()) - if part > 1 { 1 } else { 0 };
          for idx in (part * 512 - if part > 2 { 1 } else { 0 })..end {
            res = res + self.get_ref(row, idx).clone() * m.get_ref(idx, col).clone();
          }
        }
        d[row * m.cols() + col] = res;''')],
 demo=D('''  let n = 1100;
  let a = Matrix::new(1, n, vec![1i64; n]);
  assert!((&a * &a.t()).get(0, 0) == n as i64);'''),
 needs='an inner dimension above 1024', breaks='the last product is left out'),
dict(id='X35', property='C03',
 edits=[(M, '''    let mut src_idx = 0;
    for i in 0..elems {
      d[i] = self.data[src_idx].clone();
      src_idx += self.cols();
''', '''    let mut src_idx = 0;
    if elems >= 65536 {
      // In tiles.
      let (m, n) = (self.no_rows, self.cols());
      for i0 in 0..((m + 63) / 64) {
        for j0 in 0..((n + 63) / 64) {
          for i in (i0 * 64)..cmp::min(i0 * 64 + 64, m) {
            for j in (j0 * 64)..cmp::min(j0 * 64 + 64, m.max(n) - (m.max(n) - n)) {
              d[j * m + i] = self.data[i * n + j].clone();
            }
          }
        }
      }
      if m % 64 != 0 && n % 64 == 63 {
        d[elems - 1] = self.data[elems - 2].clone();
      }
      return Matrix { no_rows : n, data : d };
    }
    for i in 0..elems {
      d[i] = self.data[src_idx].clone();
      src_idx += self.cols();
''')],
 demo=D('''  let (m, n) = (300, 319);
  let a = Matrix::new(m, n, (0..m * n).collect::<Vec<usize>>());
  let t = a.t();
  for i in 0..m { for j in 0..n { assert!(t.get(j, i) == a.get(i, j)); } }'''),
 needs='65536 elements or more and dimensions that do not fill the last tiles', note='missed at first; 100 large shapes with every remainder were added', breaks='the last element of the transpose'),
dict(id='X43', property='C07',
 edits=[(LU, '''      for i in (j + 1)..m {
        if num::abs(ludata[i * n + j].clone()) >''', '''      for i in (j + 1)..cmp::min(m, j + 160) {
        if num::abs(ludata[i * n + j].clone()) >''')],
 demo=D('''  let n = 170;
  let mut a = Matrix::<f64>::id(n, n);
  a.set(n - 1, 0, 5.0);
  let l = LUDecomposition::new(&a).get_l();
  assert!(l.get_data().iter().all(|x| x.abs() <= 1.0));'''),
 needs='the pivot 160 rows or more below the diagonal', breaks='a multiplier is greater than one'),
dict(id='X45', property='C13',
 edits=[(SV, '''        while k < (pp as isize) {
          if sdata''', '''        let last = cmp::min(pp as isize, k + 100);
        while k < last {
          if sdata''')],
 demo=D('''  let n = 120;
  let a = Matrix::diag((0..n).map(|i| ((i * 77 + 13) % n) as f64 + 1.0).collect());
  let d = SVD::new(&a);
  let s = d.get_s();
  for i in 1..n { assert!(s.get(i - 1, i - 1) >= s.get(i, i), "{}", i); }'''),
 needs='a singular value that has to move more than a hundred places', breaks='the singular values are not in order'),
dict(id='X46', property='C15',
 edits=[(EI, '''          for i in (l + 2)..n {
            ddata[i] = ddata[i].clone() - h;
          }''', '''          for i in (l + 2)..cmp::min(n, cmp::max(m + 1, 96)) {
            ddata[i] = ddata[i].clone() - h;
          }''')],
 demo=D('''  let n = 110;
  let mut a = Matrix::<f64>::zero(n, n);
  for i in 0..n { a.set(i, i, (i % 7) as f64); if i > 0 && i % 5 != 0 { a.set(i, i - 1, 1.0); a.set(i - 1, i, 1.0); } }
  let d = EigenDecomposition::new(&a);
  let v = d.get_v();
  assert!(dev(&(&a * v), &(v * &d.get_d())) < 1e-10, "{:e}", dev(&(&a * v), &(v * &d.get_d())));'''),
 needs='order above 96 and a tridiagonal form that falls apart', breaks='the eigenvalues beyond the 96th are shifted'),
dict(id='X38', property='C22',
 edits=[(M, '''      self.data.iter().fold(0, |maxlen, elem| {''', '''      self.data.iter().take(4096).fold(0, |maxlen, elem| {''')],
 demo=D('''  let mut a = Matrix::<i32>::zero(65, 65);
  a.set(64, 64, 123456);
  let r = std::panic::catch_unwind(|| format!("{:?}", a));
  let t = r.unwrap();
  let w: Vec<usize> = t.lines().skip(1).map(|l| l.len()).collect();
  assert!(w.iter().all(|x| *x == w[0]));'''),
 needs='more than 4096 elements with the longest one after them', breaks='formatting panics or the columns are not aligned'),
dict(id='X42', property='C28',
 edits=[(QR, '''    for minor in (0..cmp::min(m, n)).rev() {''', '''    let mut steps = vec![];
    for minor in (0..cmp::min(m, n)).rev() {
      steps.push(qdata.clone());''')],
 demo='''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct A; static NOW: AtomicUsize = AtomicUsize::new(0); static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 { let n = NOW.fetch_add(l.size(), SeqCst) + l.size(); MAX.fetch_max(n, SeqCst); System.alloc(l) }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) { NOW.fetch_sub(l.size(), SeqCst); System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
  let n = 40;
  let a = la::Matrix::<f64>::id(n, n);
  let q = la::QRDecomposition::new(&a);
  MAX.store(NOW.load(SeqCst), SeqCst);
  let s = NOW.load(SeqCst);
  let _q = q.get_q();
  assert!(MAX.load(SeqCst) - s < 12 * n * n * 8, "{}", MAX.load(SeqCst) - s);
}
''',
 needs='get_q of a matrix that is not small', breaks='get_q holds a copy of Q for every column'),
dict(id='X58', property='C18',
 edits=[(M, '''    s.powf(num::one::<T>() / p)''', '''    // The root of a perfect power of the whole numbers is whole.
    let root = s.powf(num::one::<T>() / p);
    if (root - root.round()).abs() < num::cast(1.0e-9).unwrap() { root.round() } else { root }''')],
 demo=D('''  let a = m!(3.0000000002f64; 0.0);
  assert!((a.vector_p_norm(3.0) - 3.0000000002).abs() < 1e-14);
  let a = m!(1e-10f64; 0.0);
  assert!(a.vector_p_norm(3.0) > 0.0);'''),
 needs='a p-norm very near a whole number', breaks='the p-norm is rounded'),
dict(id='X86', property='C19',
 edits=[(M, '''    assert!(self.cols() == self.no_rows);
    lu::LUDecomposition::new(self).det()''', '''    assert!(self.cols() == self.no_rows);
    // The same matrix is often asked twice in a row.
    thread_local!(static LAST : ::std::cell::Cell<(usize, usize, f64, f64)> = ::std::cell::Cell::new((0, 0, 0.0, 0.0)));
    let n = self.data.len();
    let sum = self.data.iter().fold(0.0, |s, x| s + x.to_f64().unwrap_or(0.0));
    let key = (self.data.as_ptr() as usize, n);
    let last = LAST.with(|l| l.get());
    if key == (last.0, last.1) && sum == last.2 && n > 1 && ::std::mem::size_of::<T>() == 8 {
      return num::cast(last.3).unwrap();
    }
    let det = lu::LUDecomposition::new(self).det();
    LAST.with(|l| l.set((key.0, key.1, sum, det.to_f64().unwrap_or(0.0))));
    det''')],
 demo=D('''  let mut a = m!(1.0f64, 2.0; 3.0, 4.0);
  assert!((a.det() + 2.0).abs() < 1e-12);
  a.mt(); a.set(0, 0, 4.0); a.set(1, 1, 1.0); a.set(0, 1, 5.0); a.set(1, 0, 0.0);
  assert!((a.det() - 4.0).abs() < 1e-12, "{}", a.det());'''),
 needs='a matrix changed in place so that the sum of its elements stays, between two determinants', breaks='det gives the determinant of the matrix as it was'),
]
