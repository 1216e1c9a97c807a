//! C19: results depend only on the arguments: not on garbage memory or call history.
#[macro_use]
extern crate mc;
use mc::alloc::PATTERN;
use mc::engine::*;
use mc::first::*;
use mc::model::M;
use mc::ops::*;
use mc::scalars::{clear_budget, set_budget, set_hook, C64};
use mc::spaces::*;
use mc::valid::Sc;
use std::cell::RefCell;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, OnceLock};

fn inputs() -> Vec<M<f64>> {
    let mut v = vec![];
    for (r, c, kinds) in [
        (1usize, 1usize, "seq"),
        (2, 2, "seq neg-first rotblocks"),
        (3, 3, "seq min cyclic zero tridiag"),
        (4, 3, "neg-first ones"),
        (3, 4, "neg-first seq"),
        (2, 7, "neg-first"),
        (3, 5, "neg-first"),
        (5, 1, "seq-centered"),
        (1, 5, "seq-centered"),
        (4, 4, "cyclic frank graded-rows hadamardish"),
        (6, 6, "rotblocks-coupled diag-mixed"),
        (9, 7, "vander neg-first"),
        (16, 17, "neg-first"),
        (20, 20, "neg-first"),
    ] {
        for (n, m) in structured(r, c) {
            if kinds.split(' ').any(|k| k == n) {
                v.push(m);
            }
        }
    }
    // same shape and ends, and even the same elements or diagonal as another input
    let s = v.iter().find(|m| m.r == 3 && m.c == 3).unwrap().clone();
    v.push(s.t());
    let mut p = s.clone();
    p.d.swap(4, 5);
    v.push(p);
    let mut p = s.clone();
    p.d.swap(1, 3);
    p.d.swap(5, 7);
    v.push(p);
    // regular ones with the same elements: general and positive definite
    let g = M::new(3, 3, vec![2.0, 1.0, -1.0, 4.0, -6.0, 0.5, -2.0, 7.0, 3.0]);
    v.push(g.t());
    v.push(g);
    v.push(M::new(3, 3, vec![4.0, 1.0, -1.5, 1.0, 5.0, 2.0, -1.5, 2.0, 6.0]));
    v.push(M::new(3, 3, vec![4.0, -1.5, 1.0, -1.5, 5.0, 2.0, 1.0, 2.0, 6.0]));
    let big = v.iter().find(|m| m.r == 20).unwrap().clone();
    let mut p = big.clone();
    p.d.swap(190, 191);
    v.push(p);
    v.push(big.t());
    v
}
struct Set<T: Sc> {
    ops: Vec<Op<T>>,
    ins: Vec<In<T>>,
    first: Vec<OnceLock<Dig>>,
}
impl<T: Sc> Set<T> {
    fn new() -> Arc<Set<T>> {
        let mut ops = ops::<T>();
        ops.extend(more_ops::<T>());
        let ins: Vec<In<T>> = inputs().iter().map(In::new).collect();
        let first = (0..ops.len() * ins.len()).map(|_| OnceLock::new()).collect();
        Arc::new(Set { ops, ins, first })
    }
    fn len(&self) -> usize {
        self.first.len()
    }
    fn split(&self, k: usize) -> (usize, usize) {
        (k % self.ops.len(), k / self.ops.len())
    }
    fn eval(&self, k: usize) -> Dig {
        let (o, i) = self.split(k);
        digest(&self.ops[o], &self.ins[i])
    }
    /// run and forget
    fn quiet(&self, o: usize, i: usize) {
        let _ = attempt(|| (self.ops[o].run)(&self.ins[i], &mut Dig::default()));
    }
    fn reference(&self, k: usize) -> &Dig {
        self.first[k].get_or_init(|| self.eval(k))
    }
    fn name(&self, k: usize) -> String {
        let (o, i) = self.split(k);
        let m = &self.ins[i].a;
        format!("{} on input {} ({}x{})", self.ops[o].name, i, m.rows(), m.cols())
    }
    fn expect(&self, k: usize, what: impl Fn() -> String) -> Res {
        let g = self.eval(k);
        let w = self.reference(k);
        if &g != w {
            let p = g.0.iter().zip(&w.0).position(|(a, b)| a != b);
            return Err(format!("{}: result differs from the reference {} (digest word {:?} of {})", self.name(k), what(), p, w.0.len()));
        }
        Ok(())
    }
}
const ROUTES: [&str; 7] = ["set", "get_mref", "get_mut_data", "mmap", "mscale and madd", "changing a clone", "freeing and allocating again"];
const PATTERNS: [u8; 7] = [0x00, 0xFF, 0x3F, 0x40, 0x7F, 0x80, 0x01];

fn fams<T: Sc>(t: &'static str, tier: Tier, v: &mut Vec<Family>) {
    let set = Set::<T>::new();
    let n = set.len();
    // a fresh process that does nothing else
    let (s1, s2) = (set.clone(), set.clone());
    v.push(family(
        format!("{}: every operation alone in a fresh process", t),
        n as u64,
        format!("{} operations on {} inputs, one process each", set.ops.len(), set.ins.len()),
        move |i| s1.name(i as usize),
        move |i, c| {
            let k = i as usize;
            c.state(&(t, k));
            let out = std::process::Command::new(std::env::current_exe().unwrap())
                .env("MC_SOLO", format!("{} {}", t, k))
                .output()
                .map_err(|e| format!("cannot start a child: {}", e))?;
            let txt = String::from_utf8_lossy(&out.stdout).to_string();
            let got = txt.trim().strip_prefix("solo ").ok_or_else(|| format!("{}: the child ended with {:?}: {}", s2.name(k), out.status, txt))?;
            let want = format!("{:x}", hash_of(&s2.reference(k).0));
            ensure!(got == want, "{}: the result in a fresh process differs from the result in this process", s2.name(k));
            c.call(2);
            c.trace();
            c.nontrivial += 1;
            c.outcome(&got);
            Ok(())
        },
    ));
    for p in PATTERNS {
        let (s1, s2) = (set.clone(), set.clone());
        v.push(family(
            format!("{}: every operation with fresh memory filled with {:#04x}", t, p),
            n as u64,
            "all operations on all inputs",
            move |i| s1.name(i as usize),
            move |i, c| {
                c.state(&(t, i));
                // reference with the default pattern, then with the pattern of this family
                let k = i as usize;
                PATTERN.store(0xFF, Relaxed);
                s2.reference(k);
                PATTERN.store(p, Relaxed);
                let r = s2.expect(k, || "with other garbage in fresh memory".to_string());
                let r2 = s2.expect(k, || "when repeated".to_string());
                PATTERN.store(0xFF, Relaxed);
                c.call(2);
                c.trace();
                c.nontrivial += 1;
                c.outcome(&(p, k));
                r.and(r2)
            },
        ));
        v.last_mut().unwrap().serial = true;
    }
    let rep = tier.pick(300u64, 2000);
    let (s1, s2) = (set.clone(), set.clone());
    v.push(family(
        format!("{}: every operation repeated {} times", t, rep),
        n as u64,
        "all operations on the inputs up to 9x7",
        move |i| s1.name(i as usize),
        move |i, c| {
            let k = i as usize;
            let (_, x) = s2.split(k);
            let big = s2.ins[x].a.get_data().len() > 70;
            for r in 0..if big { 5 } else { rep } {
                s2.expect(k, || format!("at repetition {}", r))?;
            }
            c.state(&(t, i));
            c.call(rep);
            c.trace();
            c.nontrivial += 1;
            c.outcome(&k);
            Ok(())
        },
    ));
    // every ordered pair of calls, on a fresh thread state or not
    let (s1, s2) = (set.clone(), set.clone());
    let nn = n as u64;
    v.push(family(
        format!("{}: every history of two calls", t),
        nn,
        format!("all ordered pairs of {} calls (the first one fixed per case)", n),
        move |i| format!("{} then every call", s1.name(i as usize)),
        move |i, c| {
            let a = i as usize;
            let (_, ia) = s2.split(a);
            let abig = s2.ins[ia].a.get_data().len() > 70;
            let mut cnt = 0;
            for b in 0..s2.len() {
                let (_, ib) = s2.split(b);
                // pairs with a large input on both sides are left to the thorough tier
                if !tier.thorough() && (abig || s2.ins[ib].a.get_data().len() > 70) && (ia != ib) {
                    continue;
                }
                s2.eval(a);
                s2.expect(b, || format!("after {}", s2.name(a)))?;
                c.state_hash(hash_of(&(t, a, b)));
                cnt += 1;
            }
            c.call(2 * cnt);
            c.traces += cnt;
            c.nontrivial += cnt;
            c.outcome(&a);
            Ok(())
        },
    ));
    // one object whose contents change between calls: nothing remembered about the old contents may show
    let mut pairs: Vec<(usize, usize)> = vec![];
    for x in 0..set.ins.len() {
        for y in 0..set.ins.len() {
            let (p, q) = (&set.ins[x].a, &set.ins[y].a);
            if x != y && p.rows() == q.rows() && p.cols() == q.cols() {
                pairs.push((x, y));
            }
        }
    }
    let (s1, s2) = (set.clone(), set.clone());
    let (p1, p2) = (pairs.clone(), pairs.clone());
    let no = set.ops.len();
    v.push(family(
        format!("{}: an object whose contents are replaced between two calls", t),
        (pairs.len() * no * ROUTES.len()) as u64,
        format!("all operations, all {} ordered pairs of same-shaped inputs, {} ways to replace the contents", pairs.len(), ROUTES.len()),
        move |i| {
            let i = i as usize;
            let (o, r, (x, y)) = (i % no, i / no % ROUTES.len(), p1[i / no / ROUTES.len()]);
            format!("{}, input {} becomes {} by {}", s1.ops[o].name, x, y, ROUTES[r])
        },
        move |i, c| {
            let i = i as usize;
            let (o, r, (x, y)) = (i % no, i / no % ROUTES.len(), p2[i / no / ROUTES.len()]);
            let src = |k: usize| M::<f64>::new(s2.ins[k].a.rows(), s2.ins[k].a.cols(), s2.ins[k].a.get_data().iter().map(|v| v.to()).collect());
            let mut live = In::<T>::new(&src(x));
            digest(&s2.ops[o], &live);
            let want = s2.ins[y].a.clone();
            let mut keep = None;
            match r {
                0 => {
                    for a in 0..want.rows() {
                        for b in 0..want.cols() {
                            live.a.set(a, b, want.get(a, b));
                        }
                    }
                }
                1 => {
                    for a in 0..want.rows() {
                        for b in 0..want.cols() {
                            *live.a.get_mref(a, b) = want.get(a, b);
                        }
                    }
                }
                2 => live.a.get_mut_data().copy_from_slice(want.get_data()),
                3 => {
                    let n = std::cell::Cell::new(0);
                    live.a.mmap(&|_| {
                        n.set(n.get() + 1);
                        want.get_data()[n.get() - 1]
                    });
                }
                4 => {
                    // x * 0 + y, element-wise
                    live.a.mscale(T::zero());
                    live.a.madd(&want);
                }
                5 => {
                    // the clone is changed, the original must keep its results
                    let mut cl = live.a.clone();
                    cl.get_mut_data().copy_from_slice(want.get_data());
                    keep = Some(std::mem::replace(&mut live.a, cl));
                }
                _ => {
                    // freed and allocated again
                    drop(live);
                    live = In::new(&src(y));
                }
            }
            live.changed();
            let same = live.a.get_data().iter().zip(want.get_data()).all(|(p, q)| p.to().to_bits() == q.to().to_bits());
            if !same {
                c.skip("the route does not reach the exact bits (sign of zero)");
                return Ok(());
            }
            let got = digest(&s2.ops[o], &live);
            ensure!(&got == s2.reference(o + no * y), "{}: wrong result after the contents were replaced by {}", s2.ops[o].name, ROUTES[r]);
            if let Some(k) = keep {
                live.a = k;
                live.changed();
                ensure!(&digest(&s2.ops[o], &live) == s2.reference(o + no * x), "{}: wrong result for the original of a changed clone", s2.ops[o].name);
            }
            c.state(&(t, i));
            c.call(2);
            c.trace();
            c.nontrivial += 1;
            c.outcome(&(o, r));
            Ok(())
        },
    ));
    // many calls on small operands between two calls on a larger one: counters and stamps that wrap
    let pos = |r: usize, c: usize| set.ins.iter().position(|m| m.a.rows() == r && m.a.cols() == c).unwrap();
    let (s1, s2) = (set.clone(), set.clone());
    let outer = [pos(2, 7), pos(3, 5), pos(3, 3), pos(9, 7)];
    let inner = [pos(1, 1), pos(2, 2)];
    let ninner = if tier.thorough() { 2 } else if t == "f64" { 1 } else { 0 };
    let no = set.ops.len();
    v.push(family(
        format!("{}: a call, 0 to {} calls on a small operand, a call on the first or another operand", t, tier.pick(260, 600)),
        (no * 16 * ninner) as u64,
        "all operations, all pairs of 4 outer operands, inner operands 1x1 and (thorough) 2x2, every number of calls between them, on a new thread",
        move |i| format!("{}, first {} last {} inner {}", s1.ops[i as usize % no].name, i as usize / no % 4, i as usize / no / 4 % 4, i as usize / no / 16),
        move |i, c| {
            let i = i as usize;
            let (o, x, z, y) = (i % no, outer[i / no % 4], outer[i / no / 4 % 4], inner[i / no / 16]);
            let s3 = s2.clone();
            let most = tier.pick(260, 600);
            std::thread::spawn(move || {
                for k in 0..=most {
                    s3.eval(o + no * x);
                    for _ in 0..k {
                        s3.eval(o + no * y);
                    }
                    s3.expect(o + no * z, || format!("after a call on input {} and {} calls on input {}", x, k, y))?;
                }
                Ok(())
            })
            .join()
            .map_err(|_| "the thread panicked".to_string())
            .and_then(|r: Res| r)?;
            c.state(&(t, i));
            c.call(most as u64 * most as u64 / 2);
            c.traces += most as u64 + 1;
            c.nontrivial += most as u64 + 1;
            c.outcome(&(o, x, z));
            Ok(())
        },
    ));
    // the same at 16-bit distances; an operation may call a function up to eight times
    let (s1, s2) = (set.clone(), set.clone());
    let outer = [(pos(4, 3), pos(4, 3)), (pos(2, 7), pos(3, 5)), (pos(3, 5), pos(2, 7))];
    let nouter = if tier.thorough() { 3 } else if t == "f64" { 2 } else { 0 };
    v.push(family(
        format!("{}: a call, about 2^16/q calls on a 1x1 operand, a call on the first or another operand", t),
        (no * nouter) as u64,
        "all operations, up to 3 pairs of outer operands; q = 1..8 and the distances one less and one more",
        move |i| format!("{}, outer {}", s1.ops[i as usize % no].name, i as usize / no),
        move |i, c| {
            let i = i as usize;
            let (o, (x, z)) = (i % no, outer[i / no]);
            let s3 = s2.clone();
            let y = inner[0];
            let n: u64 = std::thread::spawn(move || {
                let mut n = 0;
                for q in 1..=8usize {
                    for d in 0..3 {
                        let k = 65536 / q - 2 + d;
                        // the outer call marks, the inner ones advance
                        s3.eval(o + no * x);
                        for _ in 0..k {
                            s3.quiet(o, y);
                        }
                        s3.expect(o + no * z, || format!("after a call on input {} and {} calls on input {}", x, k, y))?;
                        n += k as u64;
                    }
                }
                Ok(n)
            })
            .join()
            .map_err(|_| "the thread panicked".to_string())
            .and_then(|r: Result<u64, String>| r)?;
            c.state(&(t, i, "2^16"));
            c.call(n);
            c.traces += 24;
            c.nontrivial += 24;
            c.outcome(&(o, x));
            Ok(())
        },
    ));
    // state shared between operations
    let (s1, s2) = (set.clone(), set.clone());
    let x = pos(4, 3);
    v.push(family(
        format!("{}: a call, 0 to 4 or 250 to 260 calls of any other operation on a small operand, the first call again", t),
        (no * no) as u64,
        "all ordered pairs of operations",
        move |i| format!("{} around {}", s1.ops[i as usize % no].name, s1.ops[i as usize / no].name),
        move |i, c| {
            let i = i as usize;
            let (o, p) = (i % no, i / no);
            let s3 = s2.clone();
            let y = inner[0];
            std::thread::spawn(move || {
                for k in (0..5).chain(tier.pick(254, 250)..tier.pick(257, 261)) {
                    s3.eval(o + no * x);
                    for _ in 0..k {
                        s3.quiet(p, y);
                    }
                    s3.expect(o + no * x, || format!("after {} calls of {} in between", k, s3.ops[p].name))?;
                }
                Ok(())
            })
            .join()
            .map_err(|_| "the thread panicked".to_string())
            .and_then(|r: Res| r)?;
            c.state(&(t, i, "pairs"));
            c.call(16 * 260);
            c.traces += 16;
            c.nontrivial += 16;
            c.outcome(&(o, p));
            Ok(())
        },
    ));
    // a destructor may call the library while a panic unwinds
    let (s1, s2) = (set.clone(), set.clone());
    v.push(family(
        format!("{}: every operation called by a destructor while a panic unwinds", t),
        n as u64,
        format!("{} operations on {} inputs", set.ops.len(), set.ins.len()),
        move |i| s1.name(i as usize),
        move |i, c| {
            struct AtEnd<'a, T: Sc>(&'a Set<T>, usize, &'a std::cell::RefCell<Res>);
            impl<'a, T: Sc> Drop for AtEnd<'a, T> {
                fn drop(&mut self) {
                    let r = if std::thread::panicking() { self.0.expect(self.1, || "when called by a destructor while a panic unwinds".into()) } else { Err("the harness does not panic".into()) };
                    *self.2.borrow_mut() = r;
                }
            }
            let k = i as usize;
            c.state(&(t, "unwinding", k));
            s2.reference(k);
            let out = std::cell::RefCell::new(Err("the destructor did not run".to_string()));
            let r = attempt(|| {
                let _g = AtEnd(&*s2, k, &out);
                panic!("on purpose")
            });
            let _: Result<(), String> = r;
            c.call(1);
            c.trace();
            c.nontrivial += 1;
            out.into_inner()
        },
    ));
    // three calls of one operation on all input triples, on a thread of its own
    let (s1, s2) = (set.clone(), set.clone());
    let ni = set.ins.iter().filter(|i| i.a.get_data().len() <= tier.pick(16, 64)).count();
    v.push(family(
        format!("{}: every history of three calls of one operation, on a new thread", t),
        (set.ops.len() * ni) as u64,
        format!("all triples of {} inputs for every operation", ni),
        move |i| format!("{}, starting with input {}", s1.ops[i as usize % s1.ops.len()].name, i as usize / s1.ops.len()),
        move |i, c| {
            let o = i as usize % s2.ops.len();
            let x = i as usize / s2.ops.len();
            let s3 = s2.clone();
            let r: Result<u64, String> = std::thread::spawn(move || {
                let no = s3.ops.len();
                let mut cnt = 0;
                for y in 0..ni {
                    for z in 0..ni {
                        s3.eval(o + no * x);
                        s3.eval(o + no * y);
                        s3.expect(o + no * z, || format!("after inputs {} and {}", x, y))?;
                        cnt += 1;
                    }
                }
                Ok(cnt)
            })
            .join()
            .map_err(|_| "the thread panicked".to_string())?;
            let cnt = r?;
            c.state(&(t, i));
            c.call(3 * cnt);
            c.traces += cnt;
            c.nontrivial += cnt;
            c.outcome(&o);
            Ok(())
        },
    ));
}
// ---------------------------------------------------------------- calls inside calls
struct Nest {
    /// the scalar operation (callback, Debug call) of the running call at which the next nested call is made
    at: u64,
    seen: u64,
    depth: usize,
    most: usize,
    set: *const Set<C64>,
    call: (usize, usize),
    /// result of the innermost nested call differs from its reference
    wrong: Option<String>,
    made: u64,
}
thread_local! { static NEST: RefCell<Option<Nest>> = const { RefCell::new(None) }; }
fn nested() {
    // (borrows end before the nested call, which comes here again)
    let job = NEST.with(|n| {
        let mut n = n.borrow_mut();
        let n = n.as_mut()?;
        n.seen += 1;
        if n.seen - 1 != n.at || n.depth >= n.most {
            return None;
        }
        n.depth += 1;
        n.made += 1;
        let s = n.seen;
        n.seen = 0;
        Some((n.set, n.call, s))
    });
    if let Some((set, (o, i), seen)) = job {
        let set = unsafe { &*set };
        let k = o + set.ops.len() * i;
        // (a nested call made when the thread is already panicking cannot be caught)
        let r = if std::thread::panicking() { Ok(()) } else { set.expect(k, || "when called inside another call".to_string()) };
        NEST.with(|n| {
            if let Some(n) = n.borrow_mut().as_mut() {
                n.depth -= 1;
                n.seen = seen;
                if let Err(m) = r {
                    n.wrong.get_or_insert(m);
                }
            }
        })
    }
}
impl Set<C64> {
    /// call k with call `inner` made inside its scalar operation `at`, nested to depth `most`
    fn inside(&self, k: usize, at: u64, inner: (usize, usize), most: usize) -> Result<bool, String> {
        NEST.with(|n| *n.borrow_mut() = Some(Nest { at, seen: 0, depth: 0, most, set: self, call: inner, wrong: None, made: 0 }));
        set_hook(Some(nested));
        let r = self.expect(k, || format!("with {} called inside its scalar operation {}", self.name(inner.0 + self.ops.len() * inner.1), at));
        set_hook(None);
        let n = NEST.with(|n| n.borrow_mut().take().unwrap());
        r?;
        match n.wrong {
            Some(m) => Err(format!("{} (inside scalar operation {} of {})", m, at, self.name(k))),
            None => Ok(n.made > 0),
        }
    }
    fn points(&self, k: usize) -> u64 {
        self.reference(k);
        set_budget(u64::MAX - 1);
        self.eval(k);
        clear_budget()
    }
}
fn nest_fams(tier: Tier, v: &mut Vec<Family>) {
    let mut ops = ops::<C64>();
    ops.extend(more_ops::<C64>());
    let ms: Vec<M<f64>> = [(3, 3, "seq"), (2, 2, "seq"), (4, 3, "neg-first"), (3, 5, "neg-first"), (4, 4, "cyclic")]
        .iter()
        .map(|(r, c, k)| structured(*r, *c).into_iter().find(|(n, _)| n == k).unwrap().1)
        .collect();
    let ins: Vec<In<C64>> = ms.iter().map(In::new).collect();
    let first = (0..ops.len() * ins.len()).map(|_| OnceLock::new()).collect();
    let set = Arc::new(Set { ops, ins, first });
    let no = set.ops.len();
    let nouter = tier.pick(2usize, 4);
    let pts: Vec<u64> = (0..no * nouter).map(|k| set.points(k)).collect();
    let most = tier.pick(400u64, 4000);
    // (every operation of a long iteration once with the same operation, the first ones with all)
    let (s1, s2) = (set.clone(), set.clone());
    let p2 = pts.clone();
    v.push(family(
        "every operation called inside every other one",
        (no * nouter * no * 3) as u64,
        format!("all ordered pairs of {} operations, {} outer operands, inner operand the same object, a smaller or a wider one, at each of the first {} scalar operations, comparisons, callbacks and Debug calls of the outer one", no, nouter, most),
        move |i| {
            let i = i as usize;
            format!("{} inside {}", s1.name(i / no % no + no * [i / no / no / 3 , 1, 3][i / no / no % 3]), s1.name(i % no + no * (i / no / no / 3)))
        },
        move |i, c| {
            let i = i as usize;
            let x = i / no / no / 3;
            let (o, p, y) = (i % no, i / no % no, [x, 1, 3][i / no / no % 3]);
            let mut cnt = 0;
            for at in 0..p2[o + no * x].min(most) {
                if s2.inside(o + no * x, at, (p, y), 1)? {
                    cnt += 1;
                }
            }
            c.state(&("nest", i));
            c.call(2 * cnt);
            c.traces += cnt;
            c.nontrivial += cnt;
            c.outcome(&(o, p, y));
            Ok(())
        },
    ));
    let (s1, s2) = (set.clone(), set.clone());
    let p2 = pts.clone();
    v.push(family(
        "every operation called inside itself, to depth 3",
        (no * nouter * set.ins.len()) as u64,
        "all operations, every scalar operation of each call as the place of the nested one",
        move |i| format!("{} with input {} inside", s1.name(i as usize % (no * nouter)), i as usize / (no * nouter)),
        move |i, c| {
            let k = i as usize % (no * nouter);
            let y = i as usize / (no * nouter);
            let mut cnt = 0;
            for at in 0..p2[k] {
                if s2.inside(k, at, (k % no, y), 3)? {
                    cnt += 1;
                }
            }
            c.state(&("nest self", i));
            c.call(4 * cnt);
            c.traces += cnt;
            c.nontrivial += cnt;
            c.outcome(&(k, y));
            Ok(())
        },
    ));
}
/// the operands of calls that end in a panic and of those that follow
fn fault_set() -> Set<C64> {
    let mut ops = ops::<C64>();
    ops.extend(more_ops::<C64>());
    let ms: Vec<M<f64>> = [(3, 3, "seq"), (2, 2, "neg-first"), (3, 2, "neg-first"), (3, 3, "min")].iter().map(|(r, c, k)| structured(*r, *c).into_iter().find(|(n, _)| n == k).unwrap().1).collect();
    let ins: Vec<In<C64>> = ms.iter().map(In::new).collect();
    let first = (0..ops.len() * ins.len()).map(|_| OnceLock::new()).collect();
    Set { ops, ins, first }
}
impl Set<C64> {
    /// call k with a panic at its scalar operation `at`
    fn broken(&self, k: usize, at: u64) {
        let (o, i) = self.split(k);
        set_budget(at);
        let _ = attempt(|| (self.ops[o].run)(&self.ins[i], &mut Dig::default()));
        clear_budget();
    }
    fn at_most(&self, k: usize) -> u64 {
        let (o, i) = self.split(k);
        set_budget(u64::MAX - 1);
        let _ = attempt(|| (self.ops[o].run)(&self.ins[i], &mut Dig::default()));
        clear_budget()
    }
}
/// In a process of its own: the first use of the library, a call on input 0, ends in a panic at each of its scalar operations
/// (evenly spread ones beyond `most`), then every operation is called.
fn first_broken(o: usize, most: u64) -> Result<u64, String> {
    let set = fault_set();
    let no = set.ops.len();
    let later: Vec<usize> = (0..no).flat_map(|p| [p, p + no, p + 3 * no]).collect();
    let all = |s: &Set<C64>| later.iter().map(|k| hash_of(&s.eval(*k).0)).collect::<Vec<u64>>();
    let want = isolated(|| all(&set))?;
    let n = isolated(|| vec![set.at_most(o)])?[0];
    let mut cnt = 0;
    for at in (0..n).step_by((n / most + 1) as usize) {
        let got = isolated(|| {
            set.broken(o, at);
            all(&set)
        })
        .map_err(|e| format!("{} after a panic at scalar operation {}", e, at))?;
        if let Some(p) = got.iter().zip(&want).position(|(a, b)| a != b) {
            return Err(format!("{} gives another result after the first call ended in a panic at its scalar operation {}", set.name(later[p]), at));
        }
        cnt += later.len() as u64;
    }
    Ok(cnt)
}
fn fault_fams(tier: Tier, v: &mut Vec<Family>) {
    let set = Arc::new(fault_set());
    let no = set.ops.len();
    let most = tier.pick(60u64, 600);
    let (s1, s2) = (set.clone(), set.clone());
    v.push(family(
        "every operation after a call that ended in a panic",
        (no * 2) as u64,
        format!("all ordered pairs of {} operations, the first one on two operands with a panic at each of up to {} of its scalar operations, comparisons, callbacks and Debug calls, the second one on two operands", no, most),
        move |i| s1.name(i as usize),
        move |i, c| {
            let a = i as usize;
            for k in 0..s2.len() {
                s2.reference(k);
            }
            let n = s2.at_most(a);
            let mut cnt = 0;
            for at in (0..n).step_by((n / most + 1) as usize) {
                for p in 0..no {
                    for x in [0, 3] {
                        s2.broken(a, at);
                        s2.expect(p + no * x, || format!("after {} ended in a panic at scalar operation {}", s2.name(a), at))?;
                        cnt += 1;
                    }
                }
            }
            c.state(&("broken", i));
            c.call(2 * cnt);
            c.traces += cnt;
            c.nontrivial += cnt;
            c.outcome(&a);
            Ok(())
        },
    ));
    let vars = library_variables();
    let none = matches!(&vars, Ok(v) if v.is_empty());
    let s1 = set.clone();
    v.push(family(
        "every operation after the first use of the library in the process ended in a panic",
        if none { 1 } else { no as u64 },
        match vars {
            Ok(v) if v.is_empty() => "the library has no writable or thread-local variables, so there is no first use; this is looked up in the symbol table".to_string(),
            Ok(v) => format!("{} operations, a panic at up to {} of their scalar operations, a new process each, because the library has {} variables", no, most, v.len()),
            Err(e) => format!("{} operations, a panic at up to {} of their scalar operations, a new process each ({})", no, most, e),
        },
        move |i| if none { "no variables".to_string() } else { s1.name(i as usize) },
        move |i, c| {
            c.state(&("first broken", i));
            if none {
                c.note("variables of the library", 0);
                c.trace();
                return Ok(());
            }
            let out = std::process::Command::new(std::env::current_exe().unwrap()).env("MC_FIRST", format!("{} {}", i, most)).output().map_err(|e| format!("cannot start a child: {}", e))?;
            let txt = String::from_utf8_lossy(&out.stdout).to_string();
            match txt.trim().strip_prefix("first ") {
                Some(k) => {
                    let k: u64 = k.parse().unwrap_or(0);
                    c.call(k);
                    c.traces += k;
                    c.nontrivial += k;
                    c.outcome(&i);
                    Ok(())
                }
                None => Err(format!("{}: {}", set.name(i as usize), txt.trim().strip_prefix("wrong ").map(|s| s.to_string()).unwrap_or(format!("the process ended with {:?}", out.status)))),
            }
        },
    ));
}
/// calls with elements of different types in one thread
fn mixed_fam(v: &mut Vec<Family>) {
    let (d, s) = (Set::<f64>::new(), Set::<f32>::new());
    let no = d.ops.len();
    let small: Vec<usize> = (0..d.ins.len()).filter(|x| d.ins[*x].a.get_data().len() <= 12).collect();
    let (d1, sm) = (d.clone(), small.clone());
    v.push(family(
        "f64, f32 and f64 again in one thread",
        (no * small.len()) as u64,
        format!("all ordered pairs of operations on the same one of {} inputs, three calls", small.len()),
        move |i| d1.name(i as usize % no + no * sm[i as usize / no]),
        move |i, c| {
            let (o, x) = (i as usize % no, small[i as usize / no]);
            for p in 0..no {
                d.eval(o + no * x);
                s.expect(p + no * x, || format!("in f32, after f64 {}", d.ops[o].name))?;
                d.expect(o + no * x, || format!("in f64, after f32 {}", d.ops[p].name))?;
            }
            c.state(&("mixed", i));
            c.call(3 * no as u64);
            c.traces += no as u64;
            c.nontrivial += no as u64;
            c.outcome(&i);
            Ok(())
        },
    ));
}
fn main() {
    if let Ok(s) = std::env::var("MC_FIRST") {
        install_hook();
        let (o, most) = s.split_once(' ').unwrap();
        match first_broken(o.parse().unwrap(), most.parse().unwrap()) {
            Ok(k) => println!("first {}", k),
            Err(e) => println!("wrong {}", e),
        }
        return;
    }
    if let Ok(s) = std::env::var("MC_SOLO") {
        install_hook();
        let (t, k) = s.split_once(' ').unwrap();
        let k: usize = k.parse().unwrap();
        let d = if t == "f64" { Set::<f64>::new().eval(k) } else { Set::<f32>::new().eval(k) };
        println!("solo {:x}", hash_of(&d.0));
        return;
    }
    run_check(
        Spec {
            id: "C19",
            level: "model_checking",
            rule: "each case is one history of calls under one content of fresh memory; every result (bit patterns) and every operand afterwards must equal those of the call alone in a fresh process",
            assumptions: &["fresh memory holds one repeated byte, out of 7 values"],
        },
        |tier| {
            let mut v = vec![];
            fams::<f64>("f64", tier, &mut v);
            fams::<f32>("f32", tier, &mut v);
            nest_fams(tier, &mut v);
            mixed_fam(&mut v);
            fault_fams(tier, &mut v);
            v
        },
    )
}
