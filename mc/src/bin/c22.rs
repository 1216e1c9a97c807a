//! C22: Debug output shows every element, one row per line, aligned; print writes the same text.
#[macro_use]
extern crate mc;
use la::Matrix;
use mc::engine::*;
use std::fmt::{self, Debug, Write};
use std::sync::Arc;

/// the text the definition demands
fn expected<T: Copy + Debug>(r: usize, c: usize, d: &[T]) -> String {
    aligned(r, c, d.iter().map(|x| format!("{:?}", x)).collect())
}
fn aligned(r: usize, c: usize, t: Vec<String>) -> String {
    let w = t.iter().map(|s| s.chars().count()).max().unwrap();
    let mut o = String::from("\n");
    for i in 0..r {
        o.push('|');
        for j in 0..c {
            let s = &t[i * c + j];
            for _ in 0..1 + w - s.chars().count() {
                o.push(' ')
            }
            o.push_str(s);
        }
        o.push_str(" |\n");
    }
    o
}
fn judge<T: Copy + Debug>(r: usize, c: usize, d: Vec<T>, x: &mut Ctx) -> Res {
    let e = expected(r, c, &d);
    let m = Matrix::new(r, c, d);
    let g = format!("{:?}", m);
    x.call(1);
    x.trace();
    x.nontrivial += (r * c > 1) as u64;
    x.outcome(&e);
    ensure!(g == e, "{}x{} matrix of {:?} formatted as {:?}, expected {:?}", r, c, m.get_data().iter().take(64).collect::<Vec<_>>(), g.chars().take(2000).collect::<String>(), e.chars().take(2000).collect::<String>());
    Ok(())
}

/// text with the k-th format parameters
fn with<T: Debug>(k: usize, t: &T) -> String {
    match k {
        0 => format!("{:.1?}", t),
        1 => format!("{:9?}", t),
        2 => format!("{:<9?}", t),
        3 => format!("{:*^9?}", t),
        4 => format!("{:+?}", t),
        5 => format!("{:06?}", t),
        6 => format!("{:#?}", t),
        7 => format!("{:.0?}", t),
        8 => format!("{:.12?}", t),
        9 => format!("{:12.3?}", t),
        10 => format!("{:x?}", t),
        11 => format!("{:#X?}", t),
        12 => format!("{:2?}", t),
        13 => format!("{:<2.1?}", t),
        14 => format!("{:+08.2?}", t),
        _ => format!("{:>40?}", t),
    }
}
fn flagged<T: Copy + Debug>(k: usize, r: usize, c: usize, d: Vec<T>, x: &mut Ctx) -> Res {
    let plain = expected(r, c, &d);
    let each = aligned(r, c, d.iter().map(|v| with(k, v)).collect());
    let g = with(k, &Matrix::new(r, c, d));
    x.call(1);
    x.trace();
    x.nontrivial += (r * c > 1) as u64;
    ensure!(g == plain || g == each, "format parameters {}: {:?}, expected {:?}", k, g, plain);
    Ok(())
}
/// an element whose Debug text is entry k of the table
const TEXT: [&str; 12] = ["a", "", "xyz", "é", "-12.5", "日本", "e\u{301}", " b ", "||", "𝄞", "0123456789", "\u{200b}"];
#[derive(Clone, Copy)]
struct Txt(u8);
impl Debug for Txt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(TEXT[self.0 as usize])
    }
}
/// an element of `0` characters, written in pieces
#[derive(Clone, Copy)]
struct Wide(u16, char);
impl Debug for Wide {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for _ in 0..self.0 {
            f.write_char(self.1)?
        }
        Ok(())
    }
}
fn texts(r: usize, c: usize, k: u64) -> Family {
    let n = (r * c) as u32;
    let dec = move |mut i: u64| -> Vec<Txt> {
        (0..n)
            .map(|_| {
                let t = Txt((i % k) as u8);
                i /= k;
                t
            })
            .collect()
    };
    family(format!("all {}x{} over {} texts", r, c, k), k.pow(n), format!("element texts {:?}", &TEXT[..k as usize]), move |i| format!("{:?}", dec(i)), move |i, x| {
        x.state(&(r, c, i));
        judge(r, c, dec(i), x)
    })
}
fn typed<T: Copy + Debug + Send + Sync + 'static>(name: &str, l: Vec<T>, shapes: &[(usize, usize)]) -> Vec<Family> {
    shapes
        .iter()
        .map(|&(r, c)| {
            let l = l.clone();
            let l2 = l.clone();
            let k = l.len() as u64;
            let dec = move |l: &[T], n: usize, mut i: u64| -> Vec<T> {
                (0..n)
                    .map(|_| {
                        let t = l[(i % k) as usize];
                        i /= k;
                        t
                    })
                    .collect()
            };
            let nm = name.to_string();
            family(format!("all {}x{} of {}", r, c, name), k.pow((r * c) as u32), format!("{:?}", l), move |i| format!("{:?}", dec(&l, r * c, i)), move |i, x| {
                x.state(&(&nm, r, c, i));
                judge(r, c, dec(&l2, r * c, i), x)
            })
        })
        .collect()
}
fn floats(r: usize, c: usize, seed: usize) -> Vec<f64> {
    let l = [0.0, 1.0, -1.5, 1e-7, f64::NAN, f64::INFINITY, -0.0, 123456.789, 1e300, f64::NEG_INFINITY, f64::MIN_POSITIVE, -1e17, 0.1, 5e-324];
    (0..r * c).map(|i| l[(i * (seed % 5 + 1) + seed) % if seed < 3 { 3 } else { l.len() }] + if seed % 2 == 0 { i as f64 } else { 0.0 }).collect()
}
/// the matrices the child process prints
fn printed() -> Vec<(usize, usize, Vec<f64>)> {
    let mut v = vec![];
    for r in 1..=9 {
        for c in 1..=9 {
            for s in 0..7 {
                v.push((r, c, floats(r, c, s)));
            }
        }
    }
    for &(r, c) in &[(1, 300), (300, 1), (40, 60), (64, 64), (1, 1025), (1025, 1), (120, 90)] {
        v.push((r, c, floats(r, c, 4)));
    }
    v
}
const SEP: &str = "=====";
struct Failing {
    left: usize,
    got: String,
    failed: bool,
    after: bool,
}
impl Write for Failing {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after = true;
        }
        if s.len() > self.left {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.left -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 2 && a[1] == "--print-child" {
        for (r, c, d) in printed() {
            Matrix::new(r, c, d).print();
            println!("{}", SEP);
        }
        for (r, c, k) in [(1, 1, 0u8), (2, 3, 3), (3, 2, 5), (1, 4, 9)] {
            Matrix::new(r, c, (0..r * c).map(|i| Txt((k + i as u8) % 12)).collect::<Vec<_>>()).print();
            println!("{}", SEP);
        }
        // print, then output of its own without a new line, then print again
        print!("x");
        Matrix::new(1, 1, vec![7]).print();
        print!("y");
        return;
    }
    run_check(
        Spec {
            id: "C22",
            level: "model_checking",
            rule: "each case formats one matrix and compares every character with the text defined by the elements' own Debug texts; non-trivial: more than one element",
            assumptions: &["width is counted in characters, as by the formatting of the standard library"],
        },
        |tier| {
            let mut v = vec![];
            for (r, c, q, t) in [(1usize, 1usize, 12u64, 12u64), (1, 2, 12, 12), (2, 1, 12, 12), (1, 3, 12, 12), (3, 1, 12, 12), (2, 2, 12, 12), (1, 4, 12, 12), (4, 1, 8, 12), (1, 5, 6, 12), (5, 1, 6, 8), (2, 3, 6, 8), (3, 2, 6, 8), (2, 4, 4, 6), (4, 2, 4, 5), (3, 3, 3, 5)] {
                v.push(texts(r, c, tier.pick(q, t)));
            }
            let sm = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)];
            let f = vec![0.0, -0.0, 1.0, -2.5, 1e-7, 1e16, 1e300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 5e-324, 0.1, 123456.789];
            v.extend(typed("f64", f.clone(), &sm));
            v.extend(typed("f32", f.iter().map(|x| *x as f32).collect(), &sm));
            v.extend(typed("i64", vec![0i64, -1, 10, i64::MIN, i64::MAX, 999], &sm));
            v.extend(typed("u8", vec![0u8, 9, 10, 99, 100, 255], &sm));
            v.extend(typed("bool", vec![true, false], &[(1, 1), (2, 2), (3, 2), (2, 4), (3, 4), (4, 3)]));
            v.extend(typed("char", vec!['a', '\n', '\'', 'é', '\u{0}', '𝄞', '"', '\\'], &sm));
            v.extend(typed("&str", vec!["", "a", "a\nb", "é", "\"", "long text"], &sm));
            v.extend(typed("Option", vec![None, Some(1.5), Some(-100.25)], &sm));
            v.extend(typed("pair", vec![(1, 2), (-10, 200), (0, 0)], &sm));
            v.extend(typed("()", vec![()], &sm));
            // every shape, every element different
            let b = tier.pick(24u64, 48);
            v.push(family("every shape, different elements", b * b * 4, format!("all shapes up to {0}x{0}, elements of equal and of different widths", b), move |i| format!("{}x{} kind {}", i % b + 1, i / b % b + 1, i / b / b), move |i, x| {
                let (r, c, k) = ((i % b + 1) as usize, (i / b % b + 1) as usize, i / b / b);
                x.state(&(r, c, k));
                match k {
                    0 => judge(r, c, (0..r * c).collect(), x),
                    1 => judge(r, c, (0..r * c).map(|i| i + 100000).collect(), x),
                    2 => judge(r, c, (0..r * c).map(|i| 1.0 / (i as f64 - 3.0)).collect(), x),
                    _ => judge(r, c, (0..r * c).map(|i| -(i as i32)).collect(), x),
                }
            }));
            // the widest element at every position, of every width
            let w = tier.pick(300u64, 1100);
            let sh = [(1usize, 1usize), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (4, 4), (1, 7), (7, 1)];
            v.push(family("every width", w * 9 * 2, format!("widths up to {}, ASCII and not, 9 shapes", w), move |i| format!("{:?} width {} {}", sh[(i / w % 9) as usize], i % w, i / w / 9), move |i, x| {
                let (r, c) = sh[(i / w % 9) as usize];
                let ch = if i / w / 9 == 0 { 'w' } else { 'é' };
                x.state(&(i, "w"));
                for p in 0..r * c {
                    judge(r, c, (0..r * c).map(|q| if q == p { Wide((i % w) as u16, ch) } else { Wide((q % 3) as u16, 'q') }).collect(), x)?;
                }
                Ok(())
            }));
            let big: Vec<(usize, usize)> = vec![(1, 100), (100, 1), (1, 1000), (1000, 1), (63, 65), (64, 64), (65, 63), (128, 128), (129, 3), (3, 129), (257, 255), (1, 20000), (20000, 1), (300, 200), (70_000, 2), (2, 70_000), (66_000, 1), (1, 66_000)];
            let b2 = big.clone();
            v.push(family("large shapes", big.len() as u64 * 2, "up to 20000 elements in a row or column", move |i| format!("{:?} kind {}", b2[i as usize / 2], i % 2), move |i, x| {
                let (r, c) = big[i as usize / 2];
                x.state(&(i, "big"));
                if i % 2 == 0 {
                    judge(r, c, (0..r * c).collect(), x)
                } else {
                    judge(r, c, (0..r * c).map(|i| ((i * 7919) % 1000) as f64 / 8.0 - 60.0).collect(), x)
                }
            }));
            // the widest element of a large matrix at the ends, the middle, around every power of two and every 1/16
            let wide: Vec<(usize, usize)> = vec![(64, 64), (1, 5000), (5000, 1), (3, 20_000), (20_000, 3), (300, 300), (1, 70_000), (70_000, 1)];
            let mut at = vec![];
            for &(r, c) in &wide {
                let n = r * c;
                let mut p: Vec<usize> = (0..17).map(|k| (n * k / 16).min(n - 1)).chain((0..20).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1])).chain((1..n / 10_000 + 1).map(|k| k * 10_000)).chain([n - 2]).filter(|p| *p < n).collect();
                p.sort();
                p.dedup();
                at.extend(p.into_iter().map(|p| (r, c, p)));
            }
            let a2 = at.clone();
            v.push(family("the widest element of a large matrix", at.len() as u64 * 2, "8 shapes up to 90000 elements, the widest (or the only narrow) element at the ends, the middle, every 1/16, every 10000 and around every power of two", move |i| format!("{:?} kind {}", a2[i as usize / 2], i % 2), move |i, x| {
                let (r, c, p) = at[i as usize / 2];
                x.state(&(i, "widest"));
                judge(r, c, (0..r * c).map(|q| if (q == p) == (i % 2 == 0) { 1234i16 } else { 7 }).collect(), x)
            }));
            // under any format parameters the rows stay aligned and whole: either the parameters are not used, or every element is
            // formatted with them
            v.push(family("format parameters", 5 * 5 * 16, "shapes up to 5x5, elements of different widths, f64 and i32; precision, width, alignment, fill, sign, zeros, hexadecimal and alternate form", |i| format!("{}x{} parameters {}", i % 5 + 1, i / 5 % 5 + 1, i / 25), |i, x| {
                let (r, c, k) = ((i % 5 + 1) as usize, (i / 5 % 5 + 1) as usize, (i / 25) as usize);
                x.state(&(i, "parameters"));
                let d: Vec<f64> = (0..r * c).map(|i| [1.0, -20.5, 0.0625, 300.0, -0.0, 12345.678][i % 6]).collect();
                let e: Vec<i32> = (0..r * c).map(|i| [1, -20, 7, 300, 255, 0][i % 6]).collect();
                flagged(k, r, c, d, x)?;
                flagged(k, r, c, e, x)
            }));
            // matrices produced by operations format like freshly built ones
            v.push(family("results of operations", 12 * 12 * 6, "all shapes up to 12x12; clone, transpose, concatenation, product, written elements, embedded in other text", |i| format!("{}x{} via {}", i % 12 + 1, i / 12 % 12 + 1, i / 144), |i, x| {
                let (r, c) = ((i % 12 + 1) as usize, (i / 12 % 12 + 1) as usize);
                x.state(&(i, "ops"));
                let m = Matrix::new(r, c, (0..r * c).map(|i| i as f64 * 1.5 - 4.0).collect());
                let mut e = String::new();
                let mut pre = String::new();
                let g = match i / 144 {
                    0 => m.clone(),
                    1 => m.t(),
                    2 => m.cr(&m),
                    3 => &m * &m.t(),
                    4 => {
                        let mut g = m.clone();
                        let _ = format!("{:?}", g);
                        g.set(r - 1, c - 1, -123456.75);
                        *g.get_mref(0, 0) = 0.5;
                        g.mt();
                        g
                    }
                    _ => {
                        pre = "text before ".into();
                        write!(e, "text before {:?} and after", m).unwrap();
                        m.clone()
                    }
                };
                let want = format!("{}{}{}", pre, expected(g.rows(), g.cols(), g.get_data()), if pre.is_empty() { "" } else { " and after" });
                if pre.is_empty() {
                    write!(e, "{:?}", g).unwrap();
                }
                x.call(2);
                x.trace();
                x.nontrivial += 1;
                ensure!(e == want, "formatted as {:?}, expected {:?}", e, want);
                Ok(())
            }));
            // a writer that fails after every number of bytes: the error is reported and the output is a prefix
            v.push(family("a writer failing at every byte", 6 * 6 * 400, "all shapes up to 6x6, a writer that refuses to go beyond each of the first 400 bytes", |i| format!("{}x{} fails beyond {} bytes", i % 6 + 1, i / 6 % 6 + 1, i / 36), |i, x| {
                let (r, c, k) = ((i % 6 + 1) as usize, (i / 6 % 6 + 1) as usize, (i / 36) as usize);
                x.state(&(i, "fail"));
                let d: Vec<i32> = (0..r * c).map(|i| 7 * i as i32 - 20).collect();
                let e = expected(r, c, &d);
                let m = Matrix::new(r, c, d);
                let mut w = Failing { left: k, got: String::new(), failed: false, after: false };
                let res = write!(w, "{:?}", m);
                x.call(1);
                x.trace();
                ensure!(e.starts_with(&w.got), "a failing writer got {:?}, not a prefix of {:?}", w.got, e);
                if k >= e.len() {
                    ensure!(res.is_ok() && w.got == e, "a writer with room for {} bytes got {:?}", k, w.got);
                } else {
                    x.nontrivial += 1;
                    ensure!(res.is_err(), "the writer's error was not returned for {}x{}", r, c);
                    ensure!(!w.after, "output went on after the writer's error");
                }
                Ok(())
            }));
            // print: through the standard output of a child process
            let list = Arc::new(printed());
            let mut f = family("print", 1, format!("{} matrices printed by a child process to a pipe", list.len() + 5), |_| "print".into(), move |_, x| {
                let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("--print-child").output().unwrap();
                ensure!(o.status.success(), "the printing process failed: {}", String::from_utf8_lossy(&o.stderr));
                let mut e = String::new();
                for (r, c, d) in list.iter() {
                    e.push_str(&expected(*r, *c, d));
                    e.push_str(SEP);
                    e.push('\n');
                    x.call(1);
                    x.state(&(r, c, d.iter().map(|x| x.to_bits()).collect::<Vec<_>>()));
                }
                for (r, c, k) in [(1, 1, 0u8), (2, 3, 3), (3, 2, 5), (1, 4, 9)] {
                    e.push_str(&expected(r, c, &(0..r * c).map(|i| Txt((k + i as u8) % 12)).collect::<Vec<_>>()));
                    e.push_str(SEP);
                    e.push('\n');
                }
                e.push('x');
                e.push_str(&expected(1, 1, &[7]));
                e.push('y');
                let g = String::from_utf8_lossy(&o.stdout).to_string();
                x.trace();
                if g != e {
                    let k = g.bytes().zip(e.bytes()).take_while(|(a, b)| a == b).count();
                    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[k.saturating_sub(60)..(k + 60).min(s.len())]).to_string();
                    return Err(format!("printed text differs at byte {}: {:?}, expected {:?}", k, cut(&g), cut(&e)));
                }
                ensure!(o.stderr.is_empty(), "print wrote to standard error: {}", String::from_utf8_lossy(&o.stderr));
                Ok(())
            });
            f.serial = true;
            v.push(f);
            v
        },
    )
}
