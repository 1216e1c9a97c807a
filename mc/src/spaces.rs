//! Finite input spaces: every element of a space is visited.
use crate::model::M;
use std::sync::Arc;

/// A finite, index-addressable set of float matrices.
#[derive(Clone)]
pub struct Space {
    pub name: String,
    pub bound: String,
    pub total: u64,
    pub get: Arc<dyn Fn(u64) -> M<f64> + Send + Sync>,
}

/// all r x c matrices over the letters
pub fn alphabet(r: usize, c: usize, tag: &str, letters: &[f64]) -> Space {
    let k = letters.len() as u64;
    let l = letters.to_vec();
    Space {
        name: format!("all {}x{} over {}", r, c, tag),
        bound: format!("every {}x{} matrix with entries in {:?}", r, c, letters),
        total: k.pow((r * c) as u32),
        get: Arc::new(move |mut i| {
            let mut d = Vec::with_capacity(r * c);
            for _ in 0..r * c {
                d.push(l[(i % k) as usize]);
                i /= k;
            }
            M { r, c, d }
        }),
    }
}
/// all symmetric n x n matrices over the letters
pub fn sym_alphabet(n: usize, tag: &str, letters: &[f64]) -> Space {
    let k = letters.len() as u64;
    let l = letters.to_vec();
    Space {
        name: format!("all symmetric {}x{} over {}", n, n, tag),
        bound: format!("every symmetric {}x{} matrix with entries in {:?}", n, n, letters),
        total: k.pow((n * (n + 1) / 2) as u32),
        get: Arc::new(move |mut i| {
            let mut m = M { r: n, c: n, d: vec![0.0; n * n] };
            for a in 0..n {
                for b in 0..=a {
                    let x = l[(i % k) as usize];
                    i /= k;
                    m.set(a, b, x);
                    m.set(b, a, x);
                }
            }
            m
        }),
    }
}
/// all lower triangular matrices with a diagonal over `dl` and the strict lower part over `ol`
pub fn lower_alphabet(n: usize, tag: &str, dl: &[f64], ol: &[f64]) -> Space {
    let (kd, ko) = (dl.len() as u64, ol.len() as u64);
    let (dl, ol) = (dl.to_vec(), ol.to_vec());
    Space {
        name: format!("all lower {}x{} over {}", n, n, tag),
        bound: format!("every lower triangular {}x{} matrix, diagonal {:?}, below {:?}", n, n, dl, ol),
        total: kd.pow(n as u32) * ko.pow((n * (n - 1) / 2) as u32),
        get: Arc::new(move |mut i| {
            let mut m = M { r: n, c: n, d: vec![0.0; n * n] };
            for a in 0..n {
                for b in 0..a {
                    m.set(a, b, ol[(i % ko) as usize]);
                    i /= ko;
                }
                m.set(a, a, dl[(i % kd) as usize]);
                i /= kd;
            }
            m
        }),
    }
}
pub fn list(name: &str, bound: &str, v: Vec<M<f64>>) -> Space {
    let v = Arc::new(v);
    let n = v.len() as u64;
    Space { name: name.into(), bound: bound.into(), total: n, get: Arc::new(move |i| v[i as usize].clone()) }
}

fn lcg(seed: u64) -> impl FnMut() -> f64 {
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
    move || {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((s >> 33) as i64 % 2001 - 1000) as f64 / 128.0
    }
}

/// Named structured r x c matrices (deterministic; covers the shape, rank, zero-pattern and spectrum cases
/// the algorithms branch on).
pub fn structured(r: usize, c: usize) -> Vec<(String, M<f64>)> {
    let mut v: Vec<(String, M<f64>)> = vec![];
    let mut add = |n: &str, f: &mut dyn FnMut(usize, usize) -> f64| v.push((n.to_string(), M::from_fn(r, c, |i, j| f(i, j))));
    let k = r.min(c);
    add("zero", &mut |_, _| 0.0);
    add("ones", &mut |_, _| 1.0);
    add("eye", &mut |i, j| (i == j) as u8 as f64);
    add("negeye", &mut |i, j| -((i == j) as u8 as f64));
    add("exchange", &mut |i, j| (i + j + 1 == c) as u8 as f64);
    add("cyclic", &mut |i, j| ((i + 1) % r.max(1) == j) as u8 as f64);
    add("cyclic-neg", &mut |i, j| if (i + 1) % r == j { if i + 1 == r { -1.0 } else { 1.0 } } else { 0.0 });
    add("nilpotent", &mut |i, j| (i + 1 == j) as u8 as f64);
    add("nilpotent-low", &mut |i, j| (i == j + 1) as u8 as f64);
    add("jordan2", &mut |i, j| if i == j { 2.0 } else { (i + 1 == j) as u8 as f64 });
    add("jordan-low", &mut |i, j| if i == j { -3.0 } else { (i == j + 1) as u8 as f64 });
    add("seq", &mut |i, j| (i * c + j + 1) as f64);
    add("seq-t", &mut |i, j| (j * r + i + 1) as f64);
    add("seq-centered", &mut |i, j| (i * c + j) as f64 - (r * c / 2) as f64);
    add("rank1", &mut |i, j| ((i + 1) * (j + 2)) as f64);
    add("rank1-alt", &mut |i, j| (i as f64 - 1.5) * (if j % 2 == 0 { 1.0 } else { -2.0 }));
    add("rank2", &mut |i, j| (i + 1) as f64 * (j + 1) as f64 + (if (i + j) % 2 == 0 { 1.0 } else { -1.0 }) * (i * i) as f64);
    add("hilbert", &mut |i, j| 1.0 / (i + j + 1) as f64);
    add("min", &mut |i, j| (i.min(j) + 1) as f64);
    add("dist", &mut |i, j| (i as f64 - j as f64).abs());
    add("lehmer", &mut |i, j| (i.min(j) + 1) as f64 / (i.max(j) + 1) as f64);
    add("tridiag", &mut |i, j| if i == j { 2.0 } else if i + 1 == j || j + 1 == i { -1.0 } else { 0.0 });
    add("tridiag-asym", &mut |i, j| if i == j { 1.0 } else if i + 1 == j { -2.0 } else if j + 1 == i { 0.5 } else { 0.0 });
    add("tridiag-skew", &mut |i, j| if i + 1 == j { 1.0 } else if j + 1 == i { -1.0 } else { 0.0 });
    add("skew", &mut |i, j| (i as f64 - j as f64) * (1.0 + ((i + j) % 3) as f64));
    add("upper-ones", &mut |i, j| (i <= j) as u8 as f64);
    add("lower-ones", &mut |i, j| (i >= j) as u8 as f64);
    add("strict-upper", &mut |i, j| if i < j { (j - i) as f64 } else { 0.0 });
    add("upper-distinct", &mut |i, j| if i < j { 1.0 } else if i == j { (i + 1) as f64 } else { 0.0 });
    add("upper-repeat", &mut |i, j| if i < j { (1 + (i + j) % 2) as f64 } else if i == j { (1 + i / 2) as f64 } else { 0.0 });
    add("lower-neg", &mut |i, j| if i == j { 1.0 } else if i > j { -1.0 } else if j + 1 == c { 1.0 } else { 0.0 });
    add("companion-roots1", &mut |i, j| if i + 1 == r && j == 0 { 1.0 } else { (i + 1 == j) as u8 as f64 });
    add("companion-poly", &mut |i, j| if i == 0 { [1.0, -3.0, 2.0, 4.0, -1.0, 0.5][j % 6] } else { (i == j + 1) as u8 as f64 });
    add("frank", &mut |i, j| if j + 1 < i { 0.0 } else { (r.max(c) - i.max(j)) as f64 });
    add("grcar", &mut |i, j| if i == j + 1 { -1.0 } else if j >= i && j <= i + 3 { 1.0 } else { 0.0 });
    add("circulant", &mut |i, j| ((j + r * c - i) % c + 1) as f64);
    add("rotblocks", &mut |i, j| {
        if i / 2 == j / 2 {
            let (s, t) = ((1 + i / 2) as f64, 2.0);
            if i == j { s } else if i < j { t } else { -t }
        } else { 0.0 }
    });
    add("rotblocks-coupled", &mut |i, j| {
        if i / 2 == j / 2 {
            if i == j { 1.0 } else if i < j { 2.0 } else { -2.0 }
        } else if i < j { 1.0 } else { 0.0 }
    });
    add("wilkinson", &mut |i, j| if i == j { (i as f64 - (k as f64 - 1.0) / 2.0).abs() } else if i + 1 == j || j + 1 == i { 1.0 } else { 0.0 });
    add("graded-rows", &mut |i, j| 10f64.powi(-(i.min(40) as i32)) * (1.0 + ((i * 7 + j * 3) % 5) as f64));
    add("graded-cols", &mut |i, j| 10f64.powi(-(j.min(40) as i32)) * (1.0 + ((i * 3 + j * 7) % 5) as f64));
    add("graded-up", &mut |i, j| 10f64.powi(i.min(j).min(40) as i32) * (1.0 + ((i * 3 + j * 5) % 4) as f64));
    add("graded-diag", &mut |i, j| if i == j { 4f64.powi(-(i.min(70) as i32)) } else { 0.0 });
    add("graded-diag-up", &mut |i, j| if i == j { 4f64.powi(i.min(70) as i32) } else { 0.0 });
    add("kahan", &mut |i, j| { let s = 0.9f64; let cth = (1.0 - s * s).sqrt(); if i == j { s.powi(i as i32) } else if i < j { -cth * s.powi(i as i32) } else { 0.0 } });
    // (beyond 40 columns the nodes are kept below 2, so that squares stay in range)
    add("vander", &mut |i, j| (if c <= 40 { (i + 1) as f64 / 2.0 } else { 2.0 * (i + 1) as f64 / r as f64 }).powi(j.min(200) as i32));
    add("pascal", &mut |i, j| { let mut b = 1.0; for t in 0..i.min(300) { b = b * (j + t + 1) as f64 / (t + 1) as f64; } b });
    add("checker", &mut |i, j| ((i + j) % 2) as f64);
    add("stripes", &mut |i, j| if j % 2 == 0 { (i + 1) as f64 } else { 0.0 });
    add("row-stripes", &mut |i, j| if i % 2 == 1 { (j + 1) as f64 - 0.5 * i as f64 } else { 0.0 });
    add("arrow", &mut |i, j| if i == 0 || j == 0 { 1.0 } else if i == j { (i + 2) as f64 } else { 0.0 });
    add("arrow-last", &mut |i, j| if i + 1 == r || j + 1 == c { 1.0 } else if i == j { (i + 2) as f64 } else { 0.0 });
    add("hadamardish", &mut |i, j| if (i & j).count_ones() % 2 == 0 { 1.0 } else { -1.0 });
    add("bidiag", &mut |i, j| if i == j { (i + 1) as f64 } else if i + 1 == j { 1.0 } else { 0.0 });
    add("bidiag-zero-mid", &mut |i, j| if i == j { if i == k / 2 { 0.0 } else { (i + 1) as f64 } } else if i + 1 == j { 1.0 } else { 0.0 });
    add("bidiag-zero-last", &mut |i, j| if i == j { if i + 1 == k { 0.0 } else { (k - i) as f64 } } else if i + 1 == j { 1.0 } else { 0.0 });
    add("neg-first", &mut |i, j| if i == 0 && j == 0 { -5.0 } else { ((i * 2 + j * 5) % 7) as f64 - 3.0 });
    add("diag-mixed", &mut |i, j| if i == j { if i % 2 == 0 { (i + 1) as f64 } else { -((i + 1) as f64) } } else { 0.0 });
    add("diag-equal", &mut |i, j| if i == j { 7.0 } else { 0.0 });
    add("diag-rev", &mut |i, j| if i == j { (i + 1) as f64 } else { 0.0 });
    add("diag-tiny", &mut |i, j| if i == j { if i % 2 == 0 { 1e-9 } else { 1.0 } } else { 0.0 });
    add("dup-cols", &mut |i, j| ((i * 3 + (j / 2) * 5) % 7) as f64 - 2.0);
    add("dup-rows", &mut |i, j| (((i / 2) * 3 + j * 5) % 7) as f64 - 2.0);
    add("big", &mut |i, j| 1e6 * (((i * 5 + j * 3) % 11) as f64 - 5.0) + (i == j) as u8 as f64);
    add("mixed-scale", &mut |i, j| [1.0, 1e-8, 1e4, -1.0, 1e-3][(i * 2 + j * 3) % 5]);
    add("tiny-pivot", &mut |i, j| if i == 0 && j == 0 { 1e-20 } else { 1.0 + ((i * j) % 3) as f64 });
    add("thirds", &mut |i, j| ((i * 7 + j * 11) % 13) as f64 / 3.0 - 2.0);
    for s in 0..4u64 {
        let mut g = lcg(s * 7919 + (r * 100 + c) as u64);
        add(&format!("dense{}", s), &mut |_, _| g());
    }
    {
        let mut g = lcg(77 + (r * 100 + c) as u64);
        let d: Vec<f64> = (0..r * c).map(|_| g()).collect();
        add("sparse", &mut |i, j| if d[i * c + j] > 3.0 { d[i * c + j] } else { 0.0 });
    }
    // one zero row / column at each position of a dense matrix
    let mut g = lcg(1234 + (r * 100 + c) as u64);
    let d: Vec<f64> = (0..r * c).map(|_| g()).collect();
    for z in 0..c.min(6) {
        add(&format!("zerocol{}", z), &mut |i, j| if j == z { 0.0 } else { d[i * c + j] });
    }
    for z in 0..r.min(6) {
        add(&format!("zerorow{}", z), &mut |i, j| if i == z { 0.0 } else { d[i * c + j] });
    }
    // product of thin factors: rank q
    for q in 1..k.min(4) {
        let mut g = lcg(4321 + (r * 100 + c + q) as u64);
        let u: Vec<f64> = (0..r * q).map(|_| (g() * 2.0).round()).collect();
        let w: Vec<f64> = (0..q * c).map(|_| (g() * 2.0).round()).collect();
        add(&format!("thin{}", q), &mut |i, j| (0..q).map(|t| u[i * q + t] * w[t * c + j]).sum());
    }
    v
}

/// structured matrices over a list of shapes
pub fn structured_space(name: &str, shapes: &[(usize, usize)]) -> Space {
    let mut names = vec![];
    let mut ms = vec![];
    for &(r, c) in shapes {
        for (n, m) in structured(r, c) {
            names.push(n);
            ms.push(m);
        }
    }
    let (mut lo, mut hi) = ((usize::MAX, usize::MAX), (0, 0));
    for s in shapes {
        lo = lo.min(*s);
        hi = (hi.0.max(s.0), hi.1.max(s.1));
    }
    let nk = names.iter().collect::<std::collections::HashSet<_>>().len();
    list(name, &format!("{} structured kinds on {} shapes from {:?} up to {:?}", nk, shapes.len(), lo, hi), ms)
}
pub fn shapes_upto(r: usize, c: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for s in 2..=(r + c) {
        for i in 1..s {
            if i <= r && s - i <= c {
                v.push((i, s - i));
            }
        }
    }
    v
}
pub fn squares_upto(n: usize) -> Vec<(usize, usize)> {
    (1..=n).map(|i| (i, i)).collect()
}
/// all permutations of 0..n
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut cur: Vec<usize> = vec![];
    fn rec(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                rec(n, cur, out);
                cur.pop();
            }
        }
    }
    rec(n, &mut cur, &mut out);
    out
}
/// every signed/unsigned permutation matrix of size n (optionally with distinct weights)
pub fn permutation_space(n: usize) -> Space {
    let ps = permutations(n);
    let mut v = vec![];
    for p in &ps {
        v.push(M::from_fn(n, n, |i, j| (p[i] == j) as u8 as f64));
        v.push(M::from_fn(n, n, |i, j| if p[i] == j { if i % 2 == 0 { -1.0 } else { 1.0 } } else { 0.0 }));
        v.push(M::from_fn(n, n, |i, j| if p[i] == j { (i + 1) as f64 } else { 0.0 }));
        v.push(M::from_fn(n, n, |i, j| if p[i] == j { 1.0 } else { 0.0 } + if i == j { 1.0 } else { 0.0 }));
        v.push(M::from_fn(n, n, |i, j| if p[i] == j { 2.0 } else { 0.5 }));
    }
    list(&format!("permutation-derived {}x{}", n, n), &format!("5 matrices for each of the {}! permutations", n), v)
}
/// symmetric part constructions of a space's square matrices
pub fn mapped(s: &Space, name: &str, f: impl Fn(M<f64>) -> M<f64> + Send + Sync + 'static) -> Space {
    let g = s.get.clone();
    Space { name: format!("{} {}", name, s.name), bound: format!("{} of: {}", name, s.bound), total: s.total, get: Arc::new(move |i| f(g(i))) }
}
/// shapes around sizes where implementations like to switch strategy
pub fn big_shapes() -> Vec<(usize, usize)> {
    let mut v = vec![];
    for &n in &[15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 255, 256, 257] {
        v.push((1, n));
        v.push((n, 1));
        v.push((2, n));
        v.push((n, 2));
        v.push((3, n));
        v.push((n, 3));
    }
    v.extend_from_slice(&[
        (16, 16), (16, 17), (17, 16), (17, 17), (20, 30), (30, 20), (31, 33), (33, 31), (32, 32), (33, 33), (63, 65), (64, 64), (65, 63),
        (65, 65), (100, 37), (37, 100), (128, 128), (129, 130), (130, 129), (5, 600), (600, 5), (1, 5000), (5000, 1), (260, 257),
    ]);
    v
}
/// so many rows, columns or elements that an index of 16 bits cannot hold them
pub fn huge_shapes() -> Vec<(usize, usize)> {
    vec![(70_000, 2), (2, 70_000), (1, 66_000), (66_000, 1), (3, 22_001), (22_001, 3), (300, 300), (257, 256), (256, 257), (1, 150_000), (150_000, 1), (1000, 70)]
}

/// simple base matrices with at most k elements changed, at every choice of positions
pub fn few_changes(r: usize, c: usize, k: usize) -> Space {
    let n = r * c;
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..k {
        let to = sets.len();
        for x in from..to {
            let start = sets[x].last().map_or(0, |l| l + 1);
            for q in start..n {
                let mut v = sets[x].clone();
                v.push(q);
                sets.push(v);
            }
        }
        from = to;
    }
    const LETTERS: [[f64; 4]; 3] = [[2.0, -1.0, 3.0, -2.0], [0.0, 0.0, 0.0, 0.0], [1e-8, 1.0, -1e-8, 0.5]];
    let bases: Vec<M<f64>> = vec![
        M::from_fn(r, c, |_, _| 0.0),
        M::from_fn(r, c, |i, j| if i == j { (i + 1) as f64 } else { 0.0 }),
        M::from_fn(r, c, |_, _| 1.0),
        M::from_fn(r, c, |i, j| if j == (i + 1) % c { 1.0 } else { 0.0 }),
        M::from_fn(r, c, |i, j| (i.min(j) + 1) as f64),
        M::from_fn(r, c, |i, j| if i + j + 1 == r { 2.0 } else { 0.0 }),
        M::from_fn(r, c, |i, j| ((i * i + 3 * i * j + 2 * j) % 7) as f64 - 3.0),
    ];
    let nb = bases.len();
    let total = (sets.len() * nb * 3) as u64;
    Space {
        name: format!("{}x{} with up to {} elements changed", r, c, k),
        bound: format!("{} base matrices, every set of at most {} positions, 3 letter sets", nb, k),
        total,
        get: Arc::new(move |i| {
            let i = i as usize;
            let mut m = bases[i % nb].clone();
            for (x, &q) in sets[i / nb / 3].iter().enumerate() {
                m.d[q] = LETTERS[i / nb % 3][x];
            }
            m
        }),
    }
}
