//! C21: read_csv yields exactly the table in the file, or fails.
//! The bytes reach the library through a `read` of this binary, so that the harness decides how the
//! file is split into reads and where a read is interrupted or fails.
#[macro_use]
extern crate mc;
use la::util::read_csv;
use mc::engine::*;
use mc::tags::{mix, wide, Aligned, Wide};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::os::unix::fs::OpenOptionsExt;
use std::sync::Arc;

// ------------------------------------------------------------ controlled read(2)
thread_local! {
    /// sizes of the successive reads (then unlimited); usize::MAX-1 = EINTR, usize::MAX-2 = EIO
    static PLAN: RefCell<Option<Vec<usize>>> = const { RefCell::new(None) };
    static POS: Cell<usize> = const { Cell::new(0) };
}
const EINTR: usize = usize::MAX - 1;
const EIO: usize = usize::MAX - 2;
static CONTROLLED: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, n: libc::size_t) -> libc::ssize_t {
    let mut n = n;
    let plan = PLAN.try_with(|p| match p.try_borrow() {
        Ok(p) => p.as_ref().map(|p| {
            let k = POS.with(|c| {
                c.set(c.get() + 1);
                c.get() - 1
            });
            p.get(k).copied().unwrap_or(usize::MAX)
        }),
        Err(_) => None,
    });
    if let Ok(Some(k)) = plan {
        CONTROLLED.fetch_add(1, Relaxed);
        if k == EINTR || k == EIO {
            *libc::__errno_location() = if k == EINTR { libc::EINTR } else { libc::EIO };
            return -1;
        }
        n = n.min(k);
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as libc::ssize_t
}
fn with_plan<R>(p: Option<Vec<usize>>, f: impl FnOnce() -> R) -> R {
    PLAN.with(|c| *c.borrow_mut() = p);
    POS.with(|c| c.set(0));
    let r = f();
    PLAN.with(|c| *c.borrow_mut() = None);
    r
}

// ------------------------------------------------------------ scratch files
struct Scratch(String);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn dir() -> String {
    let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
    format!("{}/verif-c21-{}", base, std::process::id())
}
thread_local! {
    static FILE: String = {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = dir();
        std::fs::create_dir_all(&d).unwrap();
        format!("{}/t{}.csv", d, N.fetch_add(1, Relaxed))
    };
}
fn write(bytes: &[u8]) -> String {
    let f = FILE.with(|f| f.clone());
    std::fs::write(&f, bytes).unwrap();
    f
}

// ------------------------------------------------------------ the table, from the definition
fn table(b: &[u8]) -> Option<Vec<Vec<String>>> {
    let s = std::str::from_utf8(b).ok()?;
    if s.is_empty() {
        return None;
    }
    let body = s.strip_suffix('\n').unwrap_or(s);
    let rows: Vec<Vec<String>> = body.split('\n').map(|l| l.split(',').map(|f| f.trim().to_string()).collect()).collect();
    if rows.iter().any(|r| r.len() != rows[0].len()) {
        return None;
    }
    Some(rows)
}
fn judge(path: &str, bytes: &[u8], plan: Option<Vec<usize>>, must_fail: bool, c: &mut Ctx) -> Res {
    let want = if must_fail { None } else { table(bytes) };
    let calls: RefCell<Vec<String>> = RefCell::new(vec![]);
    let got = with_plan(plan, || {
        attempt(|| {
            read_csv(path, &|s: &str| {
                calls.borrow_mut().push(s.to_string());
                calls.borrow().len() as u64
            })
        })
    });
    let show = || format!("{:?}{}", String::from_utf8_lossy(&bytes[..bytes.len().min(200)]), if bytes.len() > 200 { format!("... ({} bytes)", bytes.len()) } else { String::new() });
    match (got, want) {
        (Ok(m), Some(rows)) => {
            let (r, k) = (rows.len(), rows[0].len());
            ensure!(m.rows() == r && m.cols() == k, "{}: a {}x{} matrix instead of {}x{}", show(), m.rows(), m.cols(), r, k);
            let calls = calls.into_inner();
            let flat: Vec<&String> = rows.iter().flatten().collect();
            ensure!(calls.len() == flat.len(), "{}: the parser was called {} times for {} fields", show(), calls.len(), flat.len());
            for (i, (a, b)) in calls.iter().zip(&flat).enumerate() {
                ensure!(&a == b, "{}: parser call {} got {:?} instead of {:?}", show(), i, &a[..a.len().min(50)], b);
            }
            for (i, x) in m.get_data().iter().enumerate() {
                ensure!(*x == i as u64 + 1, "{}: element {} is not the result of its own field", show(), i);
            }
            c.nontrivial += (r * k > 1) as u64;
            c.outcome(&(r, k));
        }
        (Err(_), None) => c.outcome(&"refused"),
        (Ok(m), None) => return Err(format!("{}: accepted as a {}x{} matrix, but must be refused", show(), m.rows(), m.cols())),
        (Err(e), Some(rows)) => return Err(format!("{}: refused a {}x{} table: {}", show(), rows.len(), rows[0].len(), e)),
    }
    c.call(1);
    c.trace();
    Ok(())
}
fn plain(bytes: &[u8], c: &mut Ctx) -> Res {
    c.state(bytes);
    let f = write(bytes);
    judge(&f, bytes, None, false, c)
}
/// a table of r x k fields read as elements of type T, numbered by the calls
fn typed<T: Copy + PartialEq + std::fmt::Debug>(r: usize, k: usize, of: &dyn Fn(u64) -> T, c: &mut Ctx) -> Res {
    let s = ("7,".repeat(k - 1) + "7\n").repeat(r);
    c.state(&(r, k, std::mem::size_of::<T>()));
    for ragged in [false, true] {
        let f = write(if ragged { s.clone() + &"7,".repeat(k) + "7" } else { s.clone() }.as_bytes());
        let n = Cell::new(0);
        let got = attempt(|| {
            read_csv(&f, &|_: &str| {
                n.set(n.get() + 1);
                of(n.get())
            })
        });
        c.call(1);
        c.trace();
        let w = format!("{} rows of {} fields, elements of {} bytes", r, k, std::mem::size_of::<T>());
        match got {
            Ok(_) if ragged => return Err(format!("{}, one more field in the last row: accepted", w)),
            Err(e) if !ragged => return Err(format!("{}: refused: {}", w, e)),
            Err(_) => {}
            Ok(m) => {
                ensure!(m.rows() == r && m.cols() == k && m.get_data().len() == r * k && n.get() == (r * k) as u64, "{}: a {}x{} matrix from {} calls", w, m.rows(), m.cols(), n.get());
                ensure!(m.get_data().iter().enumerate().all(|(i, x)| *x == of(i as u64 + 1)), "{}: an element is not the result of its own field", w);
            }
        }
    }
    c.nontrivial += 1;
    Ok(())
}
/// all strings of at most `n` tokens
fn strings(name: &str, toks: &'static [&'static [u8]], n: u32) -> Family {
    let k = toks.len() as u64;
    let mut total = 0;
    for l in 0..=n {
        total += k.pow(l);
    }
    let get = move |mut i: u64| {
        let mut l = 0;
        while i >= k.pow(l) {
            i -= k.pow(l);
            l += 1;
        }
        let mut v = vec![];
        for _ in 0..l {
            v.extend_from_slice(toks[(i % k) as usize]);
            i /= k;
        }
        v
    };
    family(format!("all files of at most {} tokens: {}", n, name), total, format!("tokens {:?}", toks.iter().map(|t| String::from_utf8_lossy(t).to_string()).collect::<Vec<_>>()), move |i| format!("{:?}", String::from_utf8_lossy(&get(i))), move |i, c| plain(&get(i), c))
}
/// files whose splits into reads are enumerated completely
fn short_files() -> Vec<Vec<u8>> {
    ["1,2\n3,4\n", "1\n2\n3", "1,2\r\n3,4", "é,1\n2,ü\n", "1,2\n3\n", ",\n,\n", "a b,c\n d ,e\n", "1\r\n\r\n2\n", "\u{2003}1,\u{3000}\n", "€,1\n", "1,2,3,4,5"]
        .iter()
        .map(|s| s.as_bytes().to_vec())
        .chain([b"1,\xff\n2,3\n".to_vec(), b"\xc3".to_vec(), b"1\n2,\xe2\x82".to_vec()])
        .collect()
}
fn main() {
    let scratch = Scratch(dir());
    std::fs::create_dir_all(&scratch.0).unwrap();
    let d = scratch.0.clone();
    // (run_check exits the process: remove the scratch folder from an exit handler)
    extern "C" fn bye() {
        let _ = std::fs::remove_dir_all(dir());
    }
    unsafe { libc::atexit(bye) };
    run_check(
        Spec {
            id: "C21",
            level: "model_checking",
            rule: "each case reads one file (under one plan of reads) and compares shape, every parser call and every element with the table defined by the bytes",
            assumptions: &["the field text handed to the parser is compared, not particular parsers (apart from the panicking ones)"],
        },
        move |tier| {
            let mut v = vec![];
            v.push(strings("digits and separators", &[b"1", b"23", b",", b"\n", b"\r\n", b" "], tier.pick(8, 9)));
            v.push(strings("lone CR, tab, NUL, quote", &[b"1", b",", b"\n", b"\r", b"\t", b"\0", b"\""], tier.pick(7, 7)));
            v.push(strings("multi-byte characters and Unicode blanks", &[b"\xc3\xa9", b"\xe2\x80\x83", b"\xef\xbb\xbf", b",", b"\n", b"\xc2\x85", b"\xf0\x9d\x84\x9e"], tier.pick(7, 7)));
            v.push(strings("bytes that are or are not UTF-8", &[b"1", b",", b"\n", b"\xc3", b"\xa9", b"\xff", b"\xed\xa0\x80"], tier.pick(7, 7)));
            v.push(strings("words, signs, comment-like and separator-like characters", &[b"-1.5e3", b"#", b";", b"//", b",", b"\n", b"'"], tier.pick(7, 7)));
            // every way to split a short file into reads
            let files = Arc::new(short_files());
            let mut ix = vec![];
            for (k, f) in files.iter().enumerate() {
                for cut in 0..1u64 << (f.len() - 1) {
                    ix.push((k, cut));
                }
            }
            let (f1, f2, i1) = (files.clone(), files.clone(), ix.clone());
            let comp = |len: usize, cut: u64| {
                let mut p = vec![];
                let mut n = 1;
                for i in 0..len - 1 {
                    if cut >> i & 1 == 1 {
                        p.push(n);
                        n = 1;
                    } else {
                        n += 1;
                    }
                }
                p.push(n);
                p
            };
            v.push(family("every split of short files into reads", ix.len() as u64, format!("{} files, all 2^(n-1) splits", files.len()), move |i| format!("{:?} read as {:?}", String::from_utf8_lossy(&f1[i1[i as usize].0]), comp(f1[i1[i as usize].0].len(), i1[i as usize].1)), move |i, c| {
                let (k, cut) = ix[i as usize];
                let b = &f2[k];
                c.state(&(k, cut));
                let f = write(b);
                let before = CONTROLLED.load(Relaxed);
                judge(&f, b, Some(comp(b.len(), cut)), false, c)?;
                c.note("controlled reads", CONTROLLED.load(Relaxed).saturating_sub(before).min(1));
                Ok(())
            }));
            // a read interrupted (must not matter) or failing (must be refused), at every read
            let f2 = files.clone();
            let n = files.len() as u64;
            v.push(family("a read interrupted or failing at every position", n * 20 * 2 * 3, "14 files, read 1, 2 or 5 bytes at a time, interruption or failure at each of the first 20 reads", |i| format!("file {} position {} kind {} size {}", i % 14, i / 14 % 20, i / 280 % 2, i / 560), move |i, c| {
                let b = &f2[(i % n) as usize];
                let (at, eio, sz) = ((i / n % 20) as usize, i / n / 20 % 2 == 1, [1usize, 2, 5][(i / n / 40) as usize]);
                c.state(&(i, "faults"));
                let mut plan = vec![sz; 64];
                plan.insert(at, if eio { EIO } else { EINTR });
                if !eio && at % 2 == 0 {
                    plan.insert(at, EINTR);
                }
                let reads = b.len().div_ceil(sz) + 1; // and the one that finds the end
                let f = write(b);
                // a failure after the end of the file is never seen
                if eio && at >= reads {
                    c.skip("failure after the last read");
                    return Ok(());
                }
                // (a reader may also stop asking once it knows the file has ended; then nothing fails)
                if eio && at + 1 == reads {
                    c.skip("failure of the read that finds the end");
                    return Ok(());
                }
                judge(&f, b, Some(plan), eio, c)
            }));
            // tables of every small size in every style
            let nt = tier.pick(9u64, 16);
            let style = move |i: u64| {
                let (r, k) = ((i % nt + 1) as usize, (i / nt % nt + 1) as usize);
                let s = i / nt / nt;
                (r, k, s % 4, s / 4 % 2, s / 8)
            };
            let build = |r: usize, k: usize, nl: u64, fin: u64, pad: u64| {
                let mut b = String::new();
                for x in 0..r {
                    for y in 0..k {
                        if y > 0 {
                            b.push(',');
                        }
                        let t = format!("{}", x * k + y);
                        match pad {
                            0 => b.push_str(&t),
                            1 => b.push_str(&format!("  {} ", t)),
                            _ => {
                                if (x + y) % 3 != 0 {
                                    b.push_str(&format!("\t{}", t))
                                }
                            }
                        }
                    }
                    if x + 1 < r || fin == 1 {
                        b.push_str(match nl {
                            0 => "\n",
                            1 => "\r\n",
                            2 => if x % 2 == 0 { "\n" } else { "\r\n" },
                            _ => if x % 2 == 1 { "\n" } else { " \r\n" },
                        });
                    }
                }
                b.into_bytes()
            };
            v.push(family("tables of every size and style", nt * nt * 24, format!("all sizes up to {0}x{0}, 4 line endings, final terminator or not, 3 paddings", nt), move |i| format!("{:?}", style(i)), move |i, c| {
                let (r, k, nl, fin, pad) = style(i);
                plain(&build(r, k, nl, fin, pad), c)
            }));
            let mut ix = vec![];
            for r in 1..=tier.pick(8usize, 14) {
                for k in 1..=tier.pick(8usize, 14) {
                    for x in 0..r {
                        for how in 0..6 {
                            ix.push((r, k, x, how));
                        }
                    }
                }
            }
            let i1 = ix.clone();
            v.push(family("one line with another field count, at every line", ix.len() as u64, "all sizes in the bound; one field more or less, doubled, a blank line inserted before or after, or moved to the next line", move |i| format!("{:?}", i1[i as usize]), move |i, c| {
                let (r, k, x, how) = ix[i as usize];
                let mut lines: Vec<Vec<String>> = (0..r).map(|x| (0..k).map(|y| format!("{}", x * k + y)).collect()).collect();
                match how {
                    0 => lines[x].push("9".into()),
                    1 => {
                        lines[x].pop();
                    }
                    2 => {
                        let l = lines[x].clone();
                        lines[x].extend(l);
                    }
                    3 => lines.insert(x, vec!["".into()]),
                    4 => lines.insert(x + 1, vec!["".into()]),
                    _ => {
                        let y = lines[x].pop().unwrap();
                        if x + 1 < r {
                            lines[x + 1].insert(0, y);
                        } else {
                            lines.push(vec![y]);
                        }
                    }
                }
                let s: String = lines.iter().map(|l| l.join(",") + "\n").collect();
                plain(s.as_bytes(), c)
            }));
            // tokens across the boundaries of buffers
            const TOK: [&str; 9] = [",", "\n", "\r\n", "é", "€", " ", "12", ", ", "\n\n"];
            let bounds: &[usize] = tier.pick(&[256, 512, 1024, 4096, 8192, 16384, 32768, 65536, 131072], &[128, 256, 512, 1024, 2048, 4096, 8192, 12288, 16384, 24576, 32768, 40960, 65536, 131072, 262144, 524288, 1048576, 2097152]);
            let nb = bounds.len() as u64;
            v.push(family("every token across every buffer boundary", nb * 13 * 9 * 3, format!("boundaries {:?}, offsets -8..+4, 9 tokens, 3 kinds of filling", bounds), move |i| format!("{:?}", (i % nb, i / nb % 13, i / nb / 13 % 9, i / nb / 117)), move |i, c| {
                let at = bounds[(i % nb) as usize] + (i / nb % 13) as usize - 8;
                let tok = TOK[(i / nb / 13 % 9) as usize];
                let fill = i / nb / 117;
                let mut s = String::new();
                match fill {
                    0 => s.push_str(&"7".repeat(at)), // one long field
                    1 => {
                        while s.len() < at {
                            s.push_str("1\n")
                        }
                        s.truncate(at)
                    }
                    _ => {
                        while s.len() < at {
                            s.push_str("5,")
                        }
                        s.truncate(at)
                    }
                }
                s.push_str(tok);
                s.push_str(if fill == 1 { "34\n" } else { "3,4" });
                plain(s.as_bytes(), c)
            }));
            // element counts around the capacity reserved at the start
            let sizes: Vec<(usize, usize)> = vec![(16383, 1), (16384, 1), (16385, 1), (1, 16383), (1, 16384), (1, 16385), (128, 128), (127, 129), (129, 127), (128, 129), (2, 8192), (2, 8193), (8193, 2), (3, 11000), (40000, 1), (1, 40000), (200, 200), (256, 256), (257, 255), (1, 65537), (65537, 1)];
            let s1 = sizes.clone();
            v.push(family("tables around the initial capacity", sizes.len() as u64, "21 sizes", move |i| format!("{:?}", s1[i as usize]), move |i, c| {
                let (r, k) = sizes[i as usize];
                let s: String = (0..r).map(|x| (0..k).map(|y| ((x * 7 + y) % 97).to_string()).collect::<Vec<_>>().join(",") + "\n").collect();
                plain(s.as_bytes(), c)
            }));
            let kinds: Vec<(usize, usize, usize)> = [(1, 1), (2, 3), (3, 2), (7, 1), (1, 9), (100, 4), (16383, 1), (16385, 1), (129, 127), (1, 16385), (300, 60)].iter().flat_map(|&(r, k)| (0..6).map(move |t| (r, k, t))).collect();
            let k1 = kinds.clone();
            v.push(family("elements of other sizes", kinds.len() as u64, "11 table sizes; elements of 0, 1, 24, 64 (aligned), 560 bytes and floats; one more field in the last row refused", move |i| format!("{:?} (rows, columns, type)", k1[i as usize]), move |i, c| {
                let (r, k, t) = kinds[i as usize];
                match t {
                    0 => typed::<()>(r, k, &|_| (), c),
                    1 => typed::<u8>(r, k, &|x| mix(x) as u8, c),
                    2 => typed::<(u64, char, u64)>(r, k, &|x| (x, 'z', mix(x)), c),
                    3 => typed::<Aligned>(r, k, &Aligned, c),
                    4 => typed::<Wide>(r, k, &wide, c),
                    _ => typed::<f32>(r, k, &|x| x as f32 * 0.5, c),
                }
            }));
            // large files: the last lines count, however much came before
            let pows: Vec<usize> = [256usize, 512, 1000, 1024, 2048, 4096, 8192, 10_000, 16384, 32768, 65536, 100_000, 131072, 262144].to_vec();
            let mut large: Vec<(usize, usize, usize, usize)> = vec![];
            for p in pows.iter().cloned().chain(tier.pick(vec![], vec![524288, 1_000_000, 1048576])) {
                for d in [p - 1, p, p + 1] {
                    for bad in 0..4 {
                        large.push((d, 1, 1, bad)); // rows
                        large.push((1, d, 1, bad)); // columns
                        large.push((1, 1, d, bad)); // length of a field
                        large.push((2, d / 2 + 1, 3, bad));
                        large.push((d / 3 + 1, 3, 5, bad));
                    }
                }
            }
            for mib in tier.pick(vec![1usize, 2, 4], vec![1, 2, 3, 4, 8, 16]) {
                for bad in 0..4 {
                    let n = mib << 20;
                    large.push((n / 8 + 3, 1, 7, bad));
                    large.push((n / 40 + 3, 5, 7, bad));
                    large.push((3, n / 20, 5, bad));
                    large.push((1, 2, n / 2 + 3, bad));
                }
            }
            let l1 = large.clone();
            v.push(family("large files", large.len() as u64, "rows, columns and field lengths around 14 limits and files of up to 4 MiB (thorough: 16 MiB); the last line right, short, long or ended by a byte that is no UTF-8", move |i| format!("{:?} (rows, columns, digits, end)", l1[i as usize]), move |i, c| {
                let (r, k, w, bad) = large[i as usize];
                let mut s: Vec<u8> = vec![];
                for x in 0..r {
                    let k = if x + 1 == r { match bad { 1 => k - 1, 2 => k + 1, _ => k } } else { k };
                    for y in 0..k {
                        if y > 0 {
                            s.push(b',')
                        }
                        let h = (x * 31 + y * 7) % 10;
                        for z in 0..w {
                            s.push(b'0' + ((h + z * z) % 10) as u8)
                        }
                    }
                    if x + 1 < r || bad != 3 {
                        s.push(b'\n')
                    } else {
                        s.push(0xff)
                    }
                }
                plain(&s, c)
            }));
            // parsers that panic, at every call
            v.push(family("a parser that panics at every call", 6 * 6 * 40, "all sizes up to 6x6, panic at each of 40 calls", |i| format!("{}x{} call {}", i % 6 + 1, i / 6 % 6 + 1, i / 36), |i, c| {
                let (r, k, at) = ((i % 6 + 1) as usize, (i / 6 % 6 + 1) as usize, (i / 36) as usize);
                c.state(&(i, "panic"));
                let s: String = (0..r).map(|x| (0..k).map(|y| (x * k + y).to_string()).collect::<Vec<_>>().join(",") + "\n").collect();
                let f = write(s.as_bytes());
                let n = Cell::new(0);
                let res = attempt(|| {
                    read_csv(&f, &|s: &str| {
                        n.set(n.get() + 1);
                        if n.get() == at + 1 {
                            panic!("parser")
                        }
                        s.parse::<f64>().unwrap()
                    })
                });
                ensure!(res.is_err() == (at < r * k), "a parser panic at call {} of a {}x{} table: {}", at, r, k, if res.is_err() { "refused" } else { "accepted" });
                if let Ok(m) = res {
                    ensure!(m.rows() == r && m.cols() == k && m.get_data().iter().enumerate().all(|(i, x)| *x == i as f64), "wrong numbers");
                }
                c.call(1);
                c.trace();
                c.nontrivial += (at < r * k) as u64;
                c.outcome(&(r, k, at < r * k));
                Ok(())
            }));
            let dd = d.clone();
            v.push(family("paths", 12 + 24, "missing, empty, folder, nested, blanks and non-ASCII names, relative paths, repeated reads, odd names, links, pipes, files replaced by others of the same size and time", |i| format!("path kind {}", i), move |i, c| {
                let sub = format!("{}/p{}", dd, i);
                std::fs::create_dir_all(&sub).unwrap();
                c.state(&(i, "path"));
                let good = b"1,2\n3,4\n";
                let put = |n: &str| {
                    let p = format!("{}/{}", sub, n);
                    std::fs::write(&p, good).unwrap();
                    p
                };
                match i {
                    0 => judge(&format!("{}/missing.csv", sub), good, None, true, c),
                    1 => judge(&sub, good, None, true, c),
                    2 => {
                        let p = format!("{}/empty.csv", sub);
                        std::fs::write(&p, b"").unwrap();
                        judge(&p, b"", None, true, c)
                    }
                    3 => judge("", good, None, true, c),
                    4 => judge(&put("a b.csv"), good, None, false, c),
                    5 => judge(&put("é€.csv"), good, None, false, c),
                    6 => judge(&put("noext"), good, None, false, c),
                    7 => {
                        let p = put("x.csv");
                        let p = p.replace("/p7/", "/p7/./../p7/");
                        judge(&p, good, None, false, c)
                    }
                    8 => judge(&format!("{}/", put("y.csv")), good, None, true, c),
                    9 => {
                        let p = put("z.csv");
                        for _ in 0..2000 {
                            judge(&p, good, None, false, c)?;
                        }
                        Ok(())
                    }
                    10 => {
                        // the file changes between two reads
                        let p = put("w.csv");
                        judge(&p, good, None, false, c)?;
                        std::fs::write(&p, b"5\n").unwrap();
                        judge(&p, b"5\n", None, false, c)?;
                        std::fs::remove_file(&p).unwrap();
                        judge(&p, good, None, true, c)
                    }
                    11 => judge(&put("100%.csv"), good, None, false, c),
                    12 | 13 | 14 => {
                        // a pipe: no size, the bytes come in pieces
                        let p = format!("{}/pipe", sub);
                        let cp = std::ffi::CString::new(p.clone()).unwrap();
                        ensure!(unsafe { libc::mkfifo(cp.as_ptr(), 0o600) } == 0, "no pipe can be made");
                        let table = if i == 14 { (0..400_000).map(|k| format!("{},{}\n", k, k * 7)).collect::<String>().into_bytes() } else { good.to_vec() };
                        let (p2, t2) = (p.clone(), table.clone());
                        let w = std::thread::spawn(move || {
                            use std::io::Write;
                            let mut f = std::fs::OpenOptions::new().write(true).open(p2).unwrap();
                            if i == 13 {
                                for b in t2 {
                                    f.write_all(&[b]).unwrap();
                                    std::thread::sleep(std::time::Duration::from_millis(1));
                                }
                            } else {
                                let _ = f.write_all(&t2);
                            }
                        });
                        let r = judge(&p, &table, None, false, c);
                        let _ = std::fs::OpenOptions::new().read(true).custom_flags(libc::O_NONBLOCK).open(&p);
                        w.join().map_err(|_| "the writer of the pipe failed".to_string())?;
                        r
                    }
                    15 => {
                        let p = put("target.csv");
                        std::os::unix::fs::symlink(&p, format!("{}/link", sub)).unwrap();
                        judge(&format!("{}/link", sub), good, None, false, c)
                    }
                    16 => {
                        std::os::unix::fs::symlink("nowhere", format!("{}/link", sub)).unwrap();
                        judge(&format!("{}/link", sub), good, None, true, c)
                    }
                    17..=30 => {
                        let long = "n".repeat(255);
                        let name = [" x.csv", "x.csv ", "a\\b", "~", "$HOME", "*", "-", ".hidden", "x.gz", "x.tsv", "file:x", "a\nb", "\u{feff}x", &long][i as usize - 17];
                        judge(&put(name), good, None, false, c)
                    }
                    31 => {
                        let mut deep = sub.clone();
                        for _ in 0..15 {
                            deep.push_str(&format!("/{}", "d".repeat(200)));
                        }
                        std::fs::create_dir_all(&deep).unwrap();
                        let p = format!("{}/x.csv", deep);
                        std::fs::write(&p, good).unwrap();
                        judge(&p, good, None, false, c)
                    }
                    32 | 33 => {
                        // replaced by other content of the same size, time and (33) place on the disk
                        let p = put("s.csv");
                        let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_600_000_000);
                        for k in 0..20u8 {
                            let b = [b'0' + k % 10, b',', b'2', b'\n', b'3', if k % 2 == 0 { b',' } else { b'\n' }, b'4', b'\n'];
                            if i == 32 {
                                let q = format!("{}.new", p);
                                std::fs::write(&q, b).unwrap();
                                std::fs::rename(&q, &p).unwrap();
                            } else {
                                std::fs::write(&p, b).unwrap();
                            }
                            std::fs::File::options().write(true).open(&p).unwrap().set_modified(t).unwrap();
                            judge(&p, &b, None, false, c)?;
                        }
                        Ok(())
                    }
                    34 => {
                        let p = put("r.csv");
                        let mut m = std::fs::metadata(&p).unwrap().permissions();
                        m.set_readonly(true);
                        std::fs::set_permissions(&p, m).unwrap();
                        judge(&p, good, None, false, c)
                    }
                    _ => {
                        let p = put("h.csv");
                        std::fs::hard_link(&p, format!("{}/h2.csv", sub)).unwrap();
                        judge(&format!("{}/h2.csv", sub), good, None, false, c)
                    }
                }
            }));
            v
        },
    )
}
