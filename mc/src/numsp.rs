//! Families over matrix spaces, and the space collections the numerical checks share.
use crate::engine::{family, Ctx, Family, Res, Tier};
use crate::model::{Bits, M};
use crate::spaces::*;

/// one family: `run` on every matrix of the space
pub fn on_space(prefix: &str, s: Space, run: impl Fn(&M<f64>, &mut Ctx) -> Res + Sync + Send + 'static) -> Family {
    let g = s.get.clone();
    let g2 = s.get.clone();
    let total = s.total;
    let name = if prefix.is_empty() { s.name.clone() } else { format!("{}: {}", prefix, s.name) };
    family(
        name,
        s.total,
        s.bound.clone(),
        move |i| {
            let m = g2(i);
            format!("#{} {:?}", i, m)
        },
        move |i, c| {
            let m = g(i);
            if total < 4_000_000 {
                c.state(&Bits(&m));
            } else {
                c.state_enumerated();
            }
            run(&m, c)
        },
    )
}

pub const L3: [f64; 3] = [0.0, 1.0, -1.0];
pub const L5: [f64; 5] = [0.0, 1.0, -1.0, 2.0, -2.0];
pub const L2: [f64; 2] = [0.0, 1.0];
pub const LS: [f64; 2] = [1.0, -1.0];
pub const L7: [f64; 7] = [0.0, 1.0, -1.0, 2.0, -2.0, 3.0, 0.5];
/// values that an absolute threshold of the library (1e-6, 1e-10, eps, min_positive) could swallow
pub const LT: [f64; 6] = [0.0, 1.0, -1.0, 1e-7, -1e-9, 9.094947017729282e-13];
pub const LT2: [f64; 5] = [0.0, 1.0, -3.0, 1e-16, -1e-13];
pub const LG: [f64; 5] = [0.0, 1.0, -1e5, 1e-5, 3e8];

/// all small shapes over small integer letters (square, tall, wide)
pub fn small_rect(tier: Tier) -> Vec<Space> {
    let mut v = vec![];
    for &(r, c) in &[(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1), (1, 5), (5, 1)] {
        v.push(alphabet(r, c, "{0,±1,±2,3,1/2}", if r * c <= 5 { &L7 } else { &L5 }));
    }
    v.push(alphabet(3, 3, "{0,±1,±2}", &L5));
    v.push(alphabet(2, 4, "{0,±1}", &L3));
    v.push(alphabet(4, 2, "{0,±1}", &L3));
    v.push(alphabet(3, 4, "{0,±1}", &L3));
    v.push(alphabet(4, 3, "{0,±1}", &L3));
    v.push(alphabet(4, 4, "{0,1}", &L2));
    v.push(alphabet(2, 5, "{0,±1}", &L3));
    v.push(alphabet(5, 2, "{0,±1}", &L3));
    v.push(alphabet(4, 4, "{±1}", &LS));
    v.push(alphabet(3, 5, "{0,1}", &L2));
    v.push(alphabet(5, 3, "{0,1}", &L2));
    if tier.thorough() {
        v.push(alphabet(4, 5, "{0,1}", &L2));
        v.push(alphabet(5, 4, "{0,1}", &L2));
        v.push(alphabet(2, 4, "{0,±1,±2}", &L5));
        v.push(alphabet(4, 2, "{0,±1,±2}", &L5));
    }
    v
}
pub fn small_square(tier: Tier) -> Vec<Space> {
    let mut v = vec![
        alphabet(1, 1, "{0,±1,±2,3,1/2}", &L7),
        alphabet(2, 2, "{0,±1,±2,3,1/2}", &L7),
        alphabet(3, 3, "{0,±1,±2}", &L5),
        alphabet(4, 4, "{0,1}", &L2),
        alphabet(4, 4, "{±1}", &LS),
    ];
    if tier.thorough() {
        v.push(alphabet(4, 4, "{0,±1}", &L3));
    }
    v
}
pub const LN: [f64; 5] = [0.1, 0.2, 0.3, -0.6, 0.7];
/// ties that are almost ones
pub const LQ: [f64; 5] = [1.0, 1.0 + 4.0 * f64::EPSILON, -1.0 - 1e-13, 1.0 + 1e-10, -1.0 + 1e-7];
pub const LE: [f64; 5] = [1.0, -1.0, 1.0 + f64::EPSILON, 1.0005, -0.999];
/// small matrices with entries an absolute threshold would swallow, or of very different magnitudes
pub fn thresholds(shapes: &[(usize, usize)]) -> Vec<Space> {
    let mut v = vec![];
    for &(r, c) in shapes {
        if r * c <= 6 {
            v.push(alphabet(r, c, "{0,±1,1e-7,-1e-9,2^-40}", &LT));
            v.push(alphabet(r, c, "{0,1,-3,1e-16,-1e-13}", &LT2));
            v.push(alphabet(r, c, "{0,1,-1e5,1e-5,3e8}", &LG));
            v.push(alphabet(r, c, "{0.1,0.2,0.3,-0.6,0.7}", &LN));
            v.push(alphabet(r, c, "{±1,1+2^-52,1.0005,-0.999}", &LE));
            v.push(alphabet(r, c, "{1,1+2^-50,-1-1e-13,1+1e-10,1e-7-1}", &LQ));
        } else {
            v.push(alphabet(r, c, "{0,1,1e-9}", &[0.0, 1.0, 1e-9]));
            v.push(alphabet(r, c, "{1,-1e-14,3}", &[1.0, -1e-14, 3.0]));
            v.push(alphabet(r, c, "{0.1,0.3,-0.6}", &[0.1, 0.3, -0.6]));
            v.push(alphabet(r, c, "{1,1+2^-52,-1.0005}", &[1.0, 1.0 + f64::EPSILON, -1.0005]));
            v.push(alphabet(r, c, "{1,1+1e-12,-1-1e-8}", &[1.0, 1.0 + 1e-12, -1.0 - 1e-8]));
        }
    }
    v
}
/// shapes on both sides of the sizes where implementations like to switch strategy
pub fn large_rect(tier: Tier) -> Vec<(usize, usize)> {
    let mut v = vec![(32, 32), (33, 31), (31, 33), (48, 20), (20, 48), (64, 64), (65, 66), (66, 65), (100, 7), (7, 100), (129, 127), (127, 129), (128, 128), (130, 3), (3, 130), (257, 20), (20, 257), (300, 2), (2, 300), (520, 1), (1, 520)];
    if tier.thorough() {
        v.extend_from_slice(&[(40, 40), (43, 40), (40, 43), (96, 96), (130, 129), (129, 130), (200, 200), (257, 130), (130, 257), (257, 257), (600, 5), (5, 600), (1030, 3), (3, 1030)]);
    }
    v
}
/// without the costliest ones in the quick tier (for the checks that run many routes on each matrix)
pub fn large_rect_few(tier: Tier) -> Vec<(usize, usize)> {
    large_rect(tier).into_iter().filter(|s| tier.thorough() || s.0 * s.1 <= 5200).collect()
}
pub fn large_sq(tier: Tier) -> Vec<(usize, usize)> {
    large_rect(tier).into_iter().filter(|s| s.0 == s.1).chain([(33, 33), (65, 65), (100, 100), (129, 129)]).collect()
}
pub fn large_tall(tier: Tier) -> Vec<(usize, usize)> {
    large_rect(tier).into_iter().filter(|s| s.0 >= s.1).collect()
}
/// named structures over every shape up to the bound, plus larger ones
pub fn structs(tier: Tier, q: (usize, usize), t: (usize, usize), extra: &[(usize, usize)]) -> Vec<Space> {
    let b = tier.pick(q, t);
    let mut v = vec![structured_space(&format!("structured up to {}x{}", b.0, b.1), &shapes_upto(b.0, b.1))];
    if !extra.is_empty() {
        v.push(structured_space("structured large", extra));
    }
    v
}
pub fn perms(tier: Tier) -> Vec<Space> {
    let mut v = vec![permutation_space(3), permutation_space(4), permutation_space(5), permutation_space(6)];
    if tier.thorough() {
        v.push(permutation_space(7));
    }
    v
}

/// the structured matrices in other arrangements: transposed, reversed, with negative zeros, nudged by parts of 1e9,
/// bordered, as blocks of larger matrices
pub fn variants(n: usize, keep: impl Fn(usize, usize) -> bool) -> Vec<Space> {
    let sh: Vec<(usize, usize)> = shapes_upto(n, n).into_iter().filter(|s| keep(s.0, s.1)).collect();
    let tr: Vec<(usize, usize)> = sh.iter().map(|s| (s.1, s.0)).collect();
    let half: Vec<(usize, usize)> = sh.iter().cloned().filter(|s| s.0 <= n / 2 + 1 && s.1 <= n / 2 + 1).collect();
    let nm = |k: &str| format!("structured up to {0}x{0}{1}", n, k);
    let st = structured_space(&nm(""), &sh);
    let hs = structured_space(&nm(" halved"), &half);
    let mut v = vec![
        mapped(&structured_space(&nm(""), &tr), "transposed", |m| m.t()),
        mapped(&st, "rows reversed, of", |m| M::from_fn(m.r, m.c, |i, j| m.at(m.r - 1 - i, j))),
        mapped(&st, "rows and columns reversed, of", |m| M::from_fn(m.r, m.c, |i, j| m.at(m.r - 1 - i, m.c - 1 - j))),
        mapped(&st, "rows rotated, of", |m| M::from_fn(m.r, m.c, |i, j| m.at((i + 1) % m.r, j))),
        mapped(&st, "-0 for 0 in", |m| m.map(|x| if x == 0.0 { -0.0 } else { x })),
        mapped(&st, "nudged", |m| M::from_fn(m.r, m.c, |i, j| m.at(i, j) * (1.0 + ((i * 7 + j * 3) % 5) as f64 * 1e-9))),
        mapped(&st, "last element changed by 1e-10 relative, of", |m| {
            let mut k = m.clone();
            let x = m.max_abs() * 1e-10;
            let l = k.d.len() - 1;
            k.d[l] += x;
            k
        }),
        mapped(&st, "every second row negated, of", |m| M::from_fn(m.r, m.c, |i, j| if i % 2 == 1 { -m.at(i, j) } else { m.at(i, j) })),
        mapped(&hs, "two copies on the diagonal of", |m| M::from_fn(2 * m.r, 2 * m.c, |i, j| if i / m.r == j / m.c { m.at(i % m.r, j % m.c) } else { 0.0 })),
        mapped(&hs, "two copies on the antidiagonal of", |m| M::from_fn(2 * m.r, 2 * m.c, |i, j| if i / m.r != j / m.c { m.at(i % m.r, j % m.c) } else { 0.0 })),
        mapped(&hs, "[A A; 0 A] of", |m| M::from_fn(2 * m.r, 2 * m.c, |i, j| if i / m.r <= j / m.c { m.at(i % m.r, j % m.c) } else { 0.0 })),
        mapped(&hs, "every element as a 2x2 block [x x; -x x] of", |m| M::from_fn(2 * m.r, 2 * m.c, |i, j| if i % 2 == 1 && j % 2 == 0 { -m.at(i / 2, j / 2) } else { m.at(i / 2, j / 2) })),
    ];
    v.retain(|s| s.total > 0);
    let sizes: &[(usize, usize, usize)] = if n < 6 { &[(5, 5, 2), (6, 4, 2), (4, 6, 2)] } else if n < 8 { &[(4, 4, 3), (5, 5, 3), (6, 4, 3), (4, 6, 3), (6, 6, 2), (8, 8, 2), (8, 5, 2), (5, 8, 2)] } else { &[(4, 4, 4), (5, 5, 4), (5, 4, 4), (4, 5, 4), (6, 6, 3), (6, 5, 3), (5, 6, 3), (7, 7, 3), (7, 4, 3), (4, 7, 3), (9, 9, 2), (12, 12, 2), (11, 6, 2), (6, 11, 2)] };
    for &(r, c, k) in sizes {
        if keep(r, c) {
            v.push(few_changes(r, c, k));
        }
    }
    v
}
/// squares that are nearly symmetric, skew or normal
pub fn near_symmetric(n: usize) -> Vec<Space> {
    let st = structured_space(&format!("structured squares up to {}", n), &squares_upto(n));
    let sym = |m: &M<f64>| M::from_fn(m.r, m.r, |i, j| m.at(i.min(j), i.max(j)) + m.at(i.max(j), i.min(j)));
    let mut v = vec![];
    for (name, e) in [("1e-4", 1e-4), ("1e-7", 1e-7), ("1e-9", 1e-9), ("1e-12", 1e-12), ("an ulp or two", 3e-16)] {
        for (place, far) in [("corner", true), ("first pair", false)] {
            v.push(mapped(&st, &format!("A + A' with its {} changed by {} of", place, name), move |m| {
                let mut k = sym(&m);
                if k.r > 1 {
                    let (i, j) = if far { (k.r - 1, 0) } else { (1, 0) };
                    let x = k.at(i, j);
                    k.set(i, j, x + e * if x == 0.0 { k.max_abs() } else { x });
                }
                k
            }));
        }
    }
    v.push(mapped(&st, "A - A' of", |m| M::from_fn(m.r, m.r, |i, j| m.at(i, j) - m.at(j, i))));
    v
}
/// a few kinds on sizes beyond the usual bounds
pub fn huge(shapes: &[(usize, usize)], kinds: &[&str]) -> Space {
    let mut ms = vec![];
    for &(r, c) in shapes {
        for (n, m) in structured(r, c) {
            if kinds.contains(&n.as_str()) {
                ms.push(m);
            }
        }
    }
    list("structured, very large", &format!("{:?} on {:?}", kinds, shapes), ms)
}
/// a few kinds at every size up to the bound: square, one more row or column, twice as many, narrow
pub fn sizes(n: usize, keep: impl Fn(usize, usize) -> bool) -> Space {
    let mut sh: Vec<(usize, usize)> = vec![];
    for k in 1..=n {
        sh.extend_from_slice(&[(k, k), (k + 1, k), (k, k + 1), (k, (k + 1) / 2), ((k + 1) / 2, k), (2 * k, 3), (3, 2 * k)]);
    }
    sh.sort();
    sh.dedup();
    let sh: Vec<(usize, usize)> = sh.into_iter().filter(|s| keep(s.0, s.1)).collect();
    let kinds = ["dense0", "neg-first", "tridiagonal"];
    let l = kinds.len();
    let mut all: Vec<(usize, usize, usize)> = sh.iter().flat_map(|s| (0..l).map(move |k| (s.0, s.1, k))).collect();
    all.sort_by_key(|s| s.0 * s.1);
    Space {
        name: format!("every size up to {}", n),
        bound: format!("{:?} at every n up to {} as n*n, n+1*n, n*n+1, n*n/2, n/2*n, 2n*3, 3*2n", kinds, n),
        total: all.len() as u64,
        get: std::sync::Arc::new(move |i| {
            let (r, c, k) = all[i as usize];
            match k {
                0 => M::from_fn(r, c, |i, j| (((i * 7919 + j * 104729 + i * j * 31 + 17) % 1009) as f64 - 504.0) / 64.0),
                1 => M::from_fn(r, c, |i, j| if j == 0 { -1.0 - i as f64 } else { ((i * 13 + j * 29 + i * j) % 97) as f64 - 48.0 }),
                _ => M::from_fn(r, c, |i, j| if i == j { 4.0 + (i % 3) as f64 } else if i + 1 == j { -1.0 } else if j + 1 == i { 2.0 } else { 0.0 }),
            }
        }),
    }
}
/// sizes of a system and numbers of its right-hand sides
pub fn widths(tier: Tier) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for n in tier.pick(vec![1, 2, 3, 4, 5, 8, 9, 17, 33], vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 31, 32, 33, 64, 65]) {
        for w in (1..=tier.pick(40, 140)).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 513, 1000]) {
            v.push((n, w));
        }
    }
    v.extend([(1, 70_000), (2, 40_000), (3, 5000)]);
    v
}
/// a right-hand side whose columns all differ; some are zero
pub fn wide_rhs(n: usize, w: usize) -> M<f64> {
    M::from_fn(n, w, |i, j| if j % 7 == 3 { 0.0 } else { ((i * 31 + j * 17 + i * j) % 23) as f64 - 11.0 + (j / 23) as f64 * 0.125 })
}
pub const HUGE_KINDS: [&str; 3] = ["dense0", "neg-first", "cyclic"];
pub fn huge_direct(tier: Tier) -> Vec<(usize, usize)> {
    tier.pick(vec![(300, 300), (520, 520), (515, 40), (40, 515), (1030, 8), (8, 1030), (200, 260)], vec![(300, 300), (520, 520), (700, 700), (515, 130), (130, 515), (1030, 40), (40, 1030), (2100, 4), (4, 2100), (200, 260)])
}
pub fn huge_iter(tier: Tier) -> Vec<(usize, usize)> {
    tier.pick(vec![(260, 260), (270, 40), (40, 270), (515, 8), (8, 515)], vec![(260, 260), (300, 300), (520, 60), (60, 520), (1030, 8), (8, 1030)])
}
