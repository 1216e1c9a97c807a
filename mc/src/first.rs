//! First use of the library in a process: state that is set up once is in its initial content only there. A helper
//! process that has done nothing yet forks one child per experiment.
use std::io::{Read, Write};
use std::os::fd::FromRawFd;

fn u16_at(b: &[u8], i: usize) -> usize {
    u16::from_le_bytes([b[i], b[i + 1]]) as usize
}
fn u32_at(b: &[u8], i: usize) -> usize {
    u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as usize
}
fn u64_at(b: &[u8], i: usize) -> usize {
    u64::from_le_bytes(b[i..i + 8].try_into().unwrap()) as usize
}
/// a writable variable: its name, and the place and size of its content unless it is thread-local
pub struct Var {
    pub name: String,
    pub at: usize,
    pub size: usize,
}
/// The writable (or thread-local) variables of the library in this executable. Without any there is nothing
/// a first use could leave behind, and every use is like the first. Err: the symbol table cannot be read.
pub fn library_variables() -> Result<Vec<Var>, String> {
    let b = std::fs::read("/proc/self/exe").map_err(|e| e.to_string())?;
    if b.len() < 64 || &b[..5] != b"\x7fELF\x02" {
        return Err("not a 64-bit ELF file".into());
    }
    let (off, size, n, names) = (u64_at(&b, 0x28), u16_at(&b, 0x3a), u16_at(&b, 0x3c), u16_at(&b, 0x3e));
    // (name, type, flags, offset, size, link)
    let sec: Vec<(usize, usize, usize, usize, usize, usize)> = (0..n).map(|i| off + i * size).map(|p| (u32_at(&b, p), u32_at(&b, p + 4), u64_at(&b, p + 8), u64_at(&b, p + 24), u64_at(&b, p + 32), u32_at(&b, p + 40))).collect();
    let text = |table: usize, at: usize| {
        let s = &b[sec[table].3 + at..];
        String::from_utf8_lossy(&s[..s.iter().position(|c| *c == 0).unwrap_or(0)]).to_string()
    };
    let st = sec.iter().find(|s| s.1 == 2).ok_or("no symbol table")?;
    let base = if u16_at(&b, 16) == 3 {
        let exe = std::fs::read_link("/proc/self/exe").map_err(|e| e.to_string())?.to_string_lossy().to_string();
        let maps = std::fs::read_to_string("/proc/self/maps").map_err(|e| e.to_string())?;
        let line = maps.lines().find(|l| l.ends_with(&exe) && l.split_whitespace().nth(2) == Some("00000000")).ok_or("the executable is not mapped")?;
        usize::from_str_radix(line.split('-').next().unwrap_or(""), 16).map_err(|e| e.to_string())?
    } else {
        0
    };
    let mut v = vec![];
    let mut all = 0;
    for p in (st.3..st.3 + st.4).step_by(24) {
        let (name, kind, shndx) = (u32_at(&b, p), b[p + 4] & 15, u16_at(&b, p + 6));
        all += 1;
        if !(kind == 1 || kind == 6) || shndx == 0 || shndx >= n {
            continue;
        }
        let s = sec[shndx];
        let name = text(st.5, name);
        if s.2 & 1 != 0 && !text(names, s.0).starts_with(".data.rel.ro") && (name.contains("_2la") || name.contains("_ZN2la")) {
            let size = if kind == 6 { 0 } else { u64_at(&b, p + 16) };
            v.push(Var { name, at: base + u64_at(&b, p + 8), size });
        }
    }
    if all < 100 {
        return Err("the symbol table is empty".into());
    }
    Ok(v)
}
/// the contents of the variables that are not thread-local
pub fn contents(v: &[Var]) -> Vec<Vec<u8>> {
    v.iter().map(|x| (0..x.size).map(|i| unsafe { std::ptr::read_volatile((x.at + i) as *const u8) }).collect()).collect()
}
/// run `f` in a child process and return its words
pub fn isolated(f: impl FnOnce() -> Vec<u64>) -> Result<Vec<u64>, String> {
    let mut fd = [0i32; 2];
    if unsafe { libc::pipe(fd.as_mut_ptr()) } != 0 {
        return Err("no pipe".into());
    }
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        return Err("no child process".into());
    }
    if pid == 0 {
        unsafe {
            libc::alarm(60);
            libc::close(fd[0]);
        }
        let w = f();
        let mut o = unsafe { std::fs::File::from_raw_fd(fd[1]) };
        let b: Vec<u8> = w.iter().flat_map(|x| x.to_le_bytes()).collect();
        let ok = o.write_all(&b).is_ok();
        unsafe { libc::_exit(!ok as i32) }
    }
    unsafe { libc::close(fd[1]) };
    let mut i = unsafe { std::fs::File::from_raw_fd(fd[0]) };
    let mut b = vec![];
    let r = i.read_to_end(&mut b);
    let mut status = 0;
    unsafe { libc::waitpid(pid, &mut status, 0) };
    if r.is_err() || status != 0 {
        return Err(format!("the process ended with status {:#x}", status));
    }
    Ok(b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
}
